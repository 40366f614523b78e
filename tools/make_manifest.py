#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the properties and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
NOTE = {
    "C01": "seeded histories of edits, writes, overwrites and reads with "
           "short/interrupted transfers; oracle: model independent of sofar "
           "plus a second netCDF reader",
    "C02": "seeded I/O errors and full disks at every kind of system call of "
           "a save; oracle: acknowledged implies independent read gives the "
           "model, then retry; close() errors are not injected because HDF5 "
           "itself aborts on them",
    "C03": "seeded crashes, errors and interrupts within writes, an observer "
           "before every system call, interleaved writer/reader processes "
           "checked for linearizability; crash = process death (no power "
           "loss); one known finding (F9)",
    "C04": "seeded histories ending in writes of valid and invalid objects "
           "with a changing or failing convention database; oracle: "
           "constructed validity and the log of disk operations",
    "C05": "seeded truncations, read errors and missing files; oracle: "
           "exact content or exception, no mutation, no leaked handle",
    "C06": "seeded histories of read-only operations, with faults; oracle: "
           "no mutating system call, unchanged fingerprints",
    "C07": "files of simulated writers that crashed before storing all "
           "values; oracle: mask equals what was not stored, warnings name "
           "exactly the affected entries",
    "C08": "seeded request sequences over several streams and threads "
           "scheduled at code lines; oracle: independent netCDF reader",
    "C09": "seeded thread interleavings (one thread runs at a time, switched "
           "at lines or bytecodes of sofar) and interleaved histories of "
           "objects and copies; oracle: results of running one after another",
    "C10": "seeded failing operations (invalid arguments, I/O errors at "
           "every read of the database); oracle: unchanged fingerprint, and "
           "a twin that never failed behaves the same afterwards",
    "C11": "seeded histories with attempts on read-only, mandatory and "
           "unknown entries; oracle: flags of the fixture tables",
    "C12": "simulated web server and network with faults at every request; "
           "oracle: convention directory unchanged byte for byte",
    "C13": "simulated server changing over rounds, crashes and I/O errors at "
           "every system call of an update, rerun; oracle: fixture tables",
    "C14": "simulated clock (jumps, zones, steps) over histories; oracle: "
           "interval of the simulated clock around the creation",
    "C15": "permuted directory listings and sets of versions; oracle: "
           "numerical maximum over the fixture",
    "C16": "seeded histories; oracle: twin object rebuilt from the same "
           "content gets the same verdict, dimensions from the model",
    "C17": "files with unknown conventions and broken/failing databases; "
           "oracle: independent netCDF reader",
    "C18": "seeded I/O errors and interrupts at the system calls of an "
           "upgrade; oracle: unchanged fingerprint or model of the rules",
    "C19": "seeded pools of objects with histories, single changes and I/O "
           "faults; oracle: entry-wise reference comparison and the entries "
           "themselves, or an independent netCDF reader",
    "C20": "seeded convention tables (installed as files or by a simulated "
           "update), histories of creating, stripping and completing objects "
           "with failing reads; oracle: the tables",
    "C21": "seeded histories of edits under seeded rules, aliases, "
           "deprecations and tables that are replaced and fail to be read; "
           "oracle: reference verifier that shares no code with sofar",
    "C22": "seeded histories of legal and illegal additions, deletions, "
           "copies, files and upgrades of several objects with failing "
           "reads; oracle: model of entries and definitions, reference "
           "verifier, independent netCDF reader",
    "C23": "seeded histories of edits, custom entries, files and installed "
           "conventions with failing reads, questions after each step; "
           "oracle: sizes and definitions computed from the data and tables",
    "C24": "seeded histories of upgrade rules, deprecations, conventions and "
           "objects with failing reads, questions, upgrades and files after "
           "each step; oracle: the installed rules",
    "C25": "two simulated web servers with network faults at every request "
           "and I/O errors while saving; oracle: what the servers offer",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "sim", "props", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection "
                         "(seeded search)",
            "level": "exploration",
            "level_note": NOTE[p] + ". Samples runs from a seed, no proof; "
            "trusts the simulated operating system, the fixture convention "
            "database and the netCDF library."})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the "
               "simulated operating system is preloaded below the unmodified "
               "code (LD_PRELOAD), threads are scheduled with sys.settrace",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known findings in known_findings.txt; replay a "
              "violation with: python3 check.py --replay FILE"}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
