#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script because it is readable)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w}
                                        for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})


IO, SOFA, STREAM, UPD, UTIL = ("sofar/io.py", "sofar/sofa.py",
                               "sofar/sofastream.py",
                               "sofar/update_conventions.py",
                               "sofar/utils.py")

prop("C01", "A saved object is what every later reader gets",
     "When write_sofa returns, every later read of the named file - by "
     "read_sofa in the same or another process or by any other netCDF "
     "reader - gives exactly the entries, values, types and dimensions the "
     "object had at the time of the call, up to the documented differences in "
     "array shape (trailing dimensions of size one, scalars). This holds for "
     "every object that passes verify(), every compression level, every way "
     "of naming the file, for new and for overwritten files, and if the "
     "operating system transfers data piecewise or interrupts calls. An "
     "object that passes verify() can be written whenever no I/O error "
     "occurs.",
     ["inputs", "histories", "fault_sequences"],
     "all verifiable objects of all conventions with custom entries, all "
     "histories of edits, writes, overwrites, reads and rewrites, all "
     "sequences of short and interrupted transfers",
     "the tests write one default object per convention plus a few edits, "
     "once, under ideal I/O; data of realistic dimensions, string variables, "
     "custom dimensions, overwriting and chains of read and write are not "
     "sampled",
     [IO, SOFA],
     [("writing of entries", "sofar/io.py:_write_sofa"),
      ("conversion to and from netCDF", "sofar/io.py:_format_value_for_netcdf,"
       " _format_value_from_netcdf"),
      ("dimension detection", "sofar/sofa.py:Sofa.verify")],
     ["files on the simulated disk", "Sofa objects returned by read_sofa"])

prop("C02", "An I/O error while saving is never acknowledged as success",
     "If any system call made while saving (write_sofa, or inspect with a "
     "file name) fails - disk full, quota, I/O error, permission, too many "
     "open files - and the data did not completely reach the file, the call "
     "raises instead of returning. The object is unchanged by the failed "
     "attempt, and saving it again once the error is gone succeeds, in the "
     "same process or in a new one.",
     ["fault_sequences", "inputs", "histories"],
     "all positions and kinds of I/O errors within the sequence of system "
     "calls of a save, single, repeated or persistent, all verifiable objects",
     "no test injects an I/O error",
     [IO, SOFA],
     [("file closed before success is reported",
       "sofar/io.py:_write_sofa, _replace_on_success"),
      ("text output", "sofar/sofa.py:Sofa.inspect")],
     ["return value of write_sofa", "file contents after the call"])

prop("C03", "SOFA files are replaced in one piece, and nothing else is touched",
     "At every instant, and after a crash or failure at any point of "
     "write_sofa, the destination is either exactly what it was before the "
     "call or the complete new file, for every concurrent reader and writer; "
     "a replaced file keeps its permissions. No other file is created, changed or removed by writing, except for "
     "the destination's missing complete new content and temporary files "
     "left by a killed process that do not carry the suffix .sofa.",
     ["crash_points", "fault_sequences", "schedules"],
     "all crash points (before, within, after every system call), I/O errors "
     "and interrupts during a write over an existing or missing file; all "
     "interleavings of concurrent writer and reader processes at system calls",
     "no test crashes, fails or interleaves a write",
     [IO],
     [("temporary file and atomic rename",
       "sofar/io.py:_replace_on_success")],
     ["directory contents after every crash",
      "contents of the destination before every system call"])

prop("C04", "Nothing that does not verify is ever written",
     "write_sofa checks the object as it is at the time of the call against "
     "the conventions and rules as they are installed at that time; if the "
     "object is not valid for writing, or the convention or the rules cannot "
     "be read, it raises and the disk is left exactly as it was. The decision "
     "does not depend on what was verified, read or written before, and an "
     "object that was refused can be written as soon as it is repaired.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of edits, verifications, writes and database states "
     "before the write, and all I/O errors while the database is read",
     "the tests check single violations of fresh objects with an intact "
     "database; not histories, not the disk, not a failing database",
     [IO, SOFA],
     [("verification before writing", "sofar/io.py:_write_sofa"),
      ("verification", "sofar/sofa.py:Sofa.verify, _reset_convention, "
       "_verification_rules")],
     ["exceptions of write_sofa", "log of system calls on the disk"])

prop("C05", "A damaged or unreadable file is reported, never misread",
     "Reading a file that is missing, truncated at any byte, empty, not a "
     "SOFA file, or that cannot be opened or read because of an I/O error "
     "either raises an exception or returns exactly the stored content. The "
     "file is not changed, no file handle stays open, and reading it again "
     "after the cause is gone gives the stored content.",
     ["fault_sequences", "crash_points", "inputs"],
     "all truncation points, all positions of read errors, all readers "
     "(read_sofa, read_sofa_as_netcdf, SofaStream)",
     "tests read intact files only, apart from one wrong name",
     [IO, STREAM],
     [("reading", "sofar/io.py:_read_netcdf"),
      ("streaming", "sofar/sofastream.py:SofaStream")],
     ["values returned by the readers", "open file descriptors"])

prop("C06", "Looking at data changes neither files nor objects",
     "Reading, streaming, verifying, inspecting, listing, comparing, "
     "copying and pickling never create, change or remove a file, apart from "
     "the text file explicitly requested from inspect. They leave all entries "
     "of the SOFA objects involved as they were; only verification that is "
     "asked not to raise may add missing mandatory entries. Writing an object "
     "leaves its entries unchanged, too.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of read-only operations, including failing ones, on all "
     "objects and files",
     "tests check results of calls, not the absence of side effects on disk "
     "and arguments",
     [IO, SOFA, STREAM, UTIL],
     [("read-only file modes", "sofar/io.py, sofar/sofastream.py"),
      ("verification works on copies", "sofar/sofa.py:Sofa.verify")],
     ["log of system calls that modify the disk", "object fingerprints"])

prop("C07", "Values that were never stored are flagged as missing",
     "If the file defines numeric data whose values were never stored - because "
     "another program crashed or left them out - reading "
     "returns the affected entries as masked arrays whose mask marks exactly "
     "the missing values and warns about each affected entry by name. All "
     "other entries are plain arrays or scalars with the stored values and "
     "cause no warning.",
     ["crash_points", "inputs", "fault_sequences"],
     "all subsets of entries and of values within entries not stored by a "
     "writer that crashed at any point",
     "one test covers one entry of one convention",
     [IO],
     [("masked data", "sofar/io.py:_format_value_from_netcdf")],
     ["types, masks and warnings of read_sofa and read_sofa_as_netcdf"])

prop("C08", "SofaStream returns what read_sofa returns",
     "For every entry and dimension of a file, a SofaStream gives the same "
     "name, value and size as a complete read, whatever entries were "
     "requested before, whatever other streams are open on this or "
     "other files, and whichever threads use it; names not contained in the "
     "file raise AttributeError. The file is closed when the with statement "
     "is left, also by an exception, and a closed or not yet opened stream "
     "raises instead of returning data.",
     ["schedules", "histories", "inputs"],
     "all files, all sequences of requests on several interleaved streams, "
     "all thread interleavings of a shared stream",
     "tests request a few entries of one file from one stream in one thread",
     [STREAM],
     [("entry lookup", "sofar/sofastream.py:SofaStream.__getattr__"),
      ("open and close", "sofar/sofastream.py:SofaStream.__enter__, "
       "__exit__")],
     ["values returned by the stream", "open file descriptors"])

prop("C09", "Objects and threads do not influence each other",
     "An operation on one SOFA object, file or stream never changes the "
     "outcome of an operation on another one: not its data, its custom entries, its "
     "protection, its verification result, nor the file written from it. "
     "This holds for copies, for objects read from the same file, and for "
     "any interleaving of threads that each use objects of their own.",
     ["schedules", "histories"],
     "all thread interleavings at the granularity of code lines and "
     "bytecodes, all interleaved histories over several objects and copies",
     "tests are single threaded and mostly use one object",
     [SOFA, IO, STREAM, UTIL],
     [("no shared mutable state", "sofar/sofa.py:Sofa"),
      ("deep copies", "sofar/sofa.py:Sofa.copy")],
     ["objects, files and results after the run compared with those of a "
      "run one after another"])

prop("C10", "A failed operation leaves the object as it was",
     "If setting, adding, deleting or completing entries, verifying, "
     "changing protection or writing raises - because of an invalid "
     "argument, an invalid object, or an I/O error while conventions or "
     "rules are read - the object "
     "holds the same entries with the same values as before, and a protected "
     "object stays protected (verification that is asked not to raise may "
     "have added missing mandatory entries before an I/O error strikes). "
     "It stays fully usable: every operation that was possible before "
     "is possible again after the cause is gone. Completing an object adds "
     "exactly the missing entries and changes none.",
     ["fault_sequences", "histories", "inputs"],
     "all operations, all invalid arguments, all positions of I/O errors in "
     "the reads of the convention database",
     "tests assert that errors are raised, not the state afterwards, and "
     "inject no faults",
     [SOFA, IO],
     [("restoring of protection", "sofar/sofa.py:Sofa._add_custom_api_entry,"
       " add_missing, verify")],
     ["entries and protection after the failure", "later operations"])

prop("C11", "Read-only and mandatory data stay protected",
     "While an object of an installed convention (created, or read with "
     "read_sofa) is protected - which it is after every public "
     "operation that did not explicitly switch protection off - read-only "
     "entries cannot be changed, mandatory entries cannot be deleted, and "
     "entries unknown to the object cannot be assigned; such attempts "
     "raise TypeError and change nothing. Other entries can always be changed, "
     "optional and custom entries can always be deleted, and deleted "
     "ones can be added again.",
     ["histories", "fault_sequences"],
     "all histories of operations, including failing ones, before the "
     "attempt",
     "tests try single attempts on fresh objects, not after histories in "
     "which operations lift the protection temporarily",
     [SOFA, IO],
     [("protection", "sofar/sofa.py:Sofa.__setattr__, __delattr__, "
       "protected"),
      ("temporary lifting", "sofar/sofa.py:Sofa.verify, add_missing, "
       "_add_custom_api_entry, sofar/io.py:_read_netcdf")],
     ["exceptions and entries after each attempt"])

prop("C12", "Conventions change only after a complete, confirmed download",
     "update_conventions leaves every installed convention byte for byte as "
     "it was unless all convention files offered by the server were "
     "downloaded successfully and completely, all new ones could be compiled, "
     "and the user "
     "confirmed the update with y or in advance. Any failure of the network "
     "before that - refused, reset or timed out connections, HTTP errors, "
     "at any of the requests (a file counts as not downloaded if the last "
     "attempt failed) - and any malformed convention ends in an exception.",
     ["fault_sequences", "inputs"],
     "all positions and kinds of network failures in the sequence of "
     "requests, all server contents, all answers",
     "the only tests need the network and an intact server",
     [UPD],
     [("download into a temporary directory",
       "sofar/update_conventions.py:update_conventions"),
      ("HTTP status", "sofar/update_conventions.py:_get")],
     ["contents of the convention directory", "requests made"])

prop("C13", "Updating conventions converges, also after crashes",
     "After update_conventions returned, the installed conventions are "
     "exactly those of the server (excluded and locally added ones apart), "
     "each compiled "
     "file matches its source, deprecated ones are found only in the "
     "deprecated folder, and another update changes nothing. If an update is "
     "interrupted by a crash or an I/O error at any point, every installed "
     "compiled convention is complete (old or new) and none disappears, and "
     "running the update again reaches the same state, also if the server "
     "changed in the meantime, even back to what it was. (Servers add, "
     "change and deprecate conventions; they do not remove them.)",
     ["crash_points", "fault_sequences", "histories"],
     "all crash points and I/O errors during an update, all sequences of "
     "server changes",
     "no test crashes or repeats an update",
     [UPD],
     [("installation order json before csv",
       "sofar/update_conventions.py:update_conventions"),
      ("compilation", "sofar/update_conventions.py:_compile_conventions")],
     ["contents of the convention directory",
      "conventions that can be loaded after every crash"])

prop("C14", "Time stamps are taken from the clock once, and then kept",
     "A new object carries the local time of its creation as both creation "
     "and modification date, in the documented format, whatever the clock "
     "and the time zone are. "
     "No other operation changes either date: reading returns the dates "
     "stored in the file, and verifying, editing, copying and writing keep "
     "them, even if the clock jumps in between.",
     ["schedules", "histories", "configurations"],
     "all clock values, time zones, clock jumps (also backwards) and "
     "histories of operations",
     "tests run at one time and only check that a date is present",
     [SOFA, IO],
     [("dates at creation", "sofar/sofa.py:Sofa._convention_to_sofa")],
     ["dates of objects and files against the simulated clock"])

prop("C15", "The convention used does not depend on the file system",
     "Which convention and version is loaded, listed and suggested depends "
     "only on the set of installed conventions: not on the order in which "
     "the operating system lists directories. 'latest' is the numerically "
     "highest version installed, an explicit version is exactly that "
     "version, reading uses exactly the version named in the file, and "
     "everything else raises.",
     ["configurations", "schedules", "inputs"],
     "all directory orders, all sets of installed conventions and versions",
     "tests see the one directory order and database of the machine",
     [SOFA, UTIL],
     [("loading", "sofar/sofa.py:Sofa._load_convention"),
      ("listing", "sofar/utils.py:_get_conventions")],
     ["version of objects under permuted directory listings"])

prop("C16", "Verification depends on the content only",
     "Whether verify() accepts an object, and which issues it reports, "
     "depends only on its present entries and the installed conventions and "
     "rules: an object with any history gets the same verdict as a freshly "
     "created object with the same content, in every issue handling mode and "
     "when repeated. Dimensions reported by the object follow its present "
     "content.",
     ["histories", "schedules", "configurations"],
     "all histories of edits, verifications, failed operations, copies, "
     "reads and database updates",
     "tests verify fresh objects after one change",
     [SOFA],
     [("fresh convention for every verification",
       "sofar/sofa.py:Sofa._reset_convention, verify")],
     ["issues reported by the object and by a twin"])

prop("C17", "Data can be salvaged whatever the conventions are",
     "read_sofa_as_netcdf returns every attribute and variable (numeric and "
     "character data in the root group) stored in a "
     "readable file with its stored value, no matter which convention or version "
     "the file names, whether it is valid, and whether the installed "
     "convention database is missing, incomplete or unreadable. Where "
     "read_sofa refuses such a file, it raises without changing anything.",
     ["configurations", "fault_sequences", "inputs"],
     "all files written by any program following the netCDF layout, all "
     "states of the convention database",
     "one test reads one file with an intact database",
     [IO],
     [("reading without conventions", "sofar/io.py:read_sofa_as_netcdf, "
       "_read_netcdf")],
     ["entries of the returned object against an independent reader"])

prop("C18", "Upgrading data is all or nothing and loses nothing",
     "After upgrade_convention returned or raised - because of an I/O error "
     "while conventions or rules are read, Ctrl-C, a failing standard output, "
     "an unavailable target, missing data to be moved, or a failing "
     "verification of the result - the object "
     "is either exactly as it was or completely upgraded. If completely "
     "upgraded, it raises only if its verification fails or is interrupted; "
     "all data that the upgrade rules do not move or remove keep their names "
     "and values, moved data keep their values at the new name (replacing an "
     "entry of that name), mandatory data of the new convention are added, "
     "and custom entries survive. Repeating an upgrade that failed because of "
     "an I/O error ends with the upgraded object.",
     ["fault_sequences", "histories", "inputs"],
     "all deprecated conventions with arbitrary data, all I/O errors and "
     "interrupts at the system calls of the upgrade",
     "tests upgrade default objects once and inject nothing",
     [SOFA],
     [("backup and rollback", "sofar/sofa.py:Sofa.upgrade_convention")],
     ["object contents before and after"])

prop("C19", "Comparing and inspecting show what objects hold",
     "equals(a, b) is True if both objects hold the same entries with the "
     "same values (NaN equals NaN, missing equals missing), and False if any "
     "entry that is not excluded was added, removed, has another type, "
     "shape (beyond dimensions of size one), mask, string or attribute, or a "
     "number that differs by more than 1e-5 relatively - whatever the "
     "history of the objects (copied, pickled, written and read again, built "
     "twice), in either order, for valid and invalid objects, without "
     "raising and without changing them. With verbose=True every entry that "
     "differs is named in a warning if both have the same entries; "
     "otherwise there are no warnings. exclude removes exactly the entries "
     "named GLOBAL_*, containing Date, or being attributes. Inspecting an "
     "object or an open file lists each entry exactly once and nothing else, "
     "with its value (attributes, single values, up to six numbers) and its "
     "true shape and dimensions, on the console and identically in the text "
     "file, unless it raises.",
     ["histories", "inputs", "fault_sequences"],
     "all pairs of objects with any history, all single changes, all I/O "
     "errors while listings are made and stored",
     "tests compare a handful of pairs and inspect two default objects",
     [UTIL, SOFA, STREAM],
     [("comparison", "sofar/utils.py:equals"),
      ("listing of objects", "sofar/sofa.py:Sofa.inspect"),
      ("listing of files", "sofar/sofastream.py:SofaStream.inspect")],
     ["answers of equals against an entry-wise reference",
      "listed names, values and shapes against the entries"])

prop("C20", "Objects are created and completed as their convention says",
     "A new Sofa object holds exactly the entries of the installed table of "
     "its convention and version (with mandatory=True: the mandatory ones), "
     "each with the default value, plus creation date and application "
     "metadata. add_missing adds exactly the missing entries of the "
     "requested kinds with the defaults of the presently installed table, "
     "tells their names if verbose, and touches nothing else; verify (not "
     "raising) does so for mandatory entries; info() lists exactly the "
     "entries of the requested kind with type, dimensions and flags of the "
     "table. Objects never share values: changing one in place changes no "
     "other and no later one. If reading the tables fails there is no new "
     "object, or the object is as before, and trying again works. Completed "
     "objects of a valid convention verify.",
     ["configurations", "histories", "fault_sequences"],
     "all tables the conventions may have or be updated to, all subsets of "
     "missing entries, all I/O errors while tables are read",
     "tests complete a few objects of unchanged conventions",
     [SOFA, UPD],
     [("creation", "sofar/sofa.py:Sofa.__init__, _convention_to_sofa"),
      ("completion", "sofar/sofa.py:Sofa.add_missing, verify"),
      ("tables", "sofar/update_conventions.py:_convention_csv2dict")],
     ["entries of all objects against the tables after every step"])

prop("C21", "Verification accepts exactly what conventions and rules allow",
     "verify() reports an error if and only if an entry of the object "
     "violates the installed convention, rules, unit aliases or "
     "deprecations, or the naming scheme: mandatory entries missing, values "
     "of wrong type, attributes without variable, names with missing or "
     "additional underscores, reserved (PRIVATE, API, GLOBAL) or normative "
     "names of custom entries, shapes fitting none of the allowed "
     "dimensions, values that are not allowed (ignoring case, except for "
     "DataType and SOFAConventions; units may use aliases, and be separated "
     "by ', ' or ','), general and specific dependencies including "
     "dimensions, upper case units and deprecated conventions when writing. "
     "Each violated entry is named (if mandatory entries are missing or "
     "types are wrong, only these), others are not blamed. Deprecated "
     "conventions (when reading), preliminary versions and entries that "
     "were added cause warnings only. 'raise' raises ValueError and warns, "
     "'return' returns and 'print' prints the same; write_sofa accepts the "
     "same objects, and read_sofa (with verify=True, or 'auto' and a version "
     "of 1.0 or higher) the same files. This holds for any content of conventions and rules, "
     "as soon as it is installed, and after failures to read it.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all objects, all rules and conventions that may ever be installed, "
     "all sequences of edits and updates",
     "tests verify a few objects with one wrong entry each",
     [SOFA],
     [("verification", "sofar/sofa.py:Sofa.verify"),
      ("allowed values and units",
       "sofar/sofa.py:Sofa._verify_value, _verify_unit"),
      ("reports", "sofar/sofa.py:Sofa._verify_handle_issues")],
     ["verdicts and reports against a reference verifier"])

prop("C22", "Custom entries are accepted if legal, and keep their definition",
     "add_variable and add_attribute accept an entry if and only if its name "
     "is not in use (by an entry or by the class itself), the type is double "
     "or string, dimensions are given and the name has no underscore (for "
     "variables), or the name has the form GLOBAL_Name, Variable_Name or "
     "Data_Variable_Name of a variable the object knows (for attributes); "
     "otherwise they raise ValueError and change nothing. From then on the "
     "entry has exactly this definition: its type and dimensions are what "
     "info() shows, what verify() checks (letters other than E, R, M, N, C, "
     "I, S are dimensions of their own, with the size get_dimension tells), "
     "and what write_sofa stores. Assigning values, verifying, completing, "
     "copying, pickling, writing and reading, upgrading, and I/O errors keep "
     "value and definition; operations on other objects, including copies, "
     "do not touch them. Deleting the entry removes both, so that it can be "
     "added again with another definition.",
     ["inputs", "histories", "fault_sequences"],
     "all names, values, types and dimensions, in all sequences of additions, "
     "deletions and other operations on any number of objects",
     "tests add a handful of entries to fresh objects",
     [SOFA, IO],
     [("adding", "sofar/sofa.py:Sofa._add_entry, _add_custom_api_entry"),
      ("deleting", "sofar/sofa.py:Sofa.__delattr__"),
      ("definitions", "sofar/sofa.py:Sofa._reset_convention"),
      ("reading", "sofar/io.py:_read_netcdf")],
     ["entries and definitions of all objects after every step"])

prop("C23", "Reported dimensions and definitions are the current ones",
     "get_dimension returns the size that a dimension has in the data the "
     "object holds at this moment: M, R, N, E and custom dimensions from the "
     "variables that set them, C = 3, I = 1, and S = the number of bytes of "
     "the longest string in all string variables, whatever was assigned, "
     "added, deleted, copied, read or verified before. It raises ValueError "
     "for dimensions that do not exist and as long as data has a wrong type "
     "or contradicting shapes; it never returns a size from before. "
     "list_dimensions prints the same sizes, each once, with a variable that "
     "sets it and what it counts for the data type and the types of the "
     "receiver and emitter positions. info() shows type, dimensions, flags "
     "and comment of every entry, or exactly of the mandatory, optional, "
     "read only or data entries, or of the entry asked for and its "
     "attributes, as they are "
     "in the convention that was installed when the object was last created "
     "or verified, or in the custom definition. "
     "list_conventions prints every installed convention (current and "
     "deprecated) once, and version the installed version of the "
     "conventions. A failed read while asking does not change later answers.",
     ["inputs", "histories", "fault_sequences"],
     "all objects, histories of edits, additions, deletions and installed "
     "conventions, and all failing reads",
     "tests ask fresh objects of few conventions for their dimensions",
     [SOFA, "sofar/utils.py"],
     [("dimensions", "sofar/sofa.py:Sofa.get_dimension, list_dimensions, "
       "_update_dimensions, verify"),
      ("definitions", "sofar/sofa.py:Sofa.info"),
      ("conventions", "sofar/utils.py:list_conventions, "
       "_get_conventions, version")],
     ["answers to questions after every step"])

prop("C24", "Outdated data is recognised, and ways to upgrade are told",
     "upgrade_convention() without a target returns exactly the targets, in "
     "their order, that the installed upgrade rules list for the convention "
     "and version of the object, and prints each of them; the list is empty "
     "if there are none. In this case it tells that upgrade rules are "
     "missing if the installed deprecations name the convention, and that "
     "the data is up to date otherwise. Asking, and asking for a target that "
     "is not in this list (which is called invalid), never changes the "
     "object. A target in the list that is installed can be upgraded to if "
     "the data to be moved or removed exist; afterwards the object is of "
     "exactly this convention and version; if it is not installed, "
     "upgrade_convention raises and changes nothing. write_sofa warns "
     "exactly if a newer version of the convention is installed. All answers "
     "follow the rules and conventions installed at the time of the call, "
     "whatever was asked, upgraded or failed to be read before.",
     ["inputs", "histories", "fault_sequences"],
     "all objects, upgrade rules, deprecations and sets of installed "
     "conventions, their changes, and all failing reads",
     "tests ask fresh objects with the one set of rules that is shipped",
     [SOFA, IO],
     [("upgrades", "sofar/sofa.py:Sofa.upgrade_convention"),
      ("rules", "sofar/sofa.py:Sofa._verification_rules"),
      ("warning", "sofar/io.py:_write_sofa")],
     ["answers and warnings after every step"])

prop("C25", "Conventions that differ between the two platforms are told",
     "_check_congruency compares the standardized conventions of "
     "sofaconventions.org with those of the requested branch of SOFAtoolbox "
     "on GitHub (except General and GeneralString), and tells each convention "
     "once that is missing on one of them, or whose files differ by more than "
     "the kind of line breaks and trailing tabs, and no other one; it prints "
     "nothing if there is none. If save_dir is given, both versions of each "
     "differing convention, and nothing else, are stored in it; a save_dir "
     "that does not exist raises. If a page or file can not be downloaded "
     "completely or saved, or if a platform offers no conventions, an error "
     "is raised and nothing is told to be congruent or to differ. The "
     "conventions used by sofar are never changed. This holds whatever the "
     "platforms offer, in whatever order, and whenever requests fail.",
     ["inputs", "histories", "fault_sequences"],
     "all sets and contents of conventions on the platforms, and all faults "
     "of the network and the disk",
     "the test needs the network, and passes whatever is told",
     [UPD],
     [("comparison", "sofar/update_conventions.py:_check_congruency")],
     ["output and save_dir after every call"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..",
                       "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
