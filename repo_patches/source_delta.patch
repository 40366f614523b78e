From b1e26cf90ebc7f1aff5218bcaded1383f412556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 01/45] fix: write string variables with netCDF4 versions that
 only encode unicode

stringtochar() received an array of bytes together with the encoding
'utf-8'. Current versions of netCDF4 raise an AttributeError in this case
so that no SOFA file with string variables could be written.
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..664725a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 0ca1ad9882d5eadd6a16204d357c9a2444768590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 02/45] fix: get length of string variables with more than one
 column

max() of a two dimensional array raised 'truth value of an array is
ambiguous' so that string variables of e.g. shape (M, R, S) could neither be
verified nor written.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..0d53c66 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1779,7 +1779,7 @@ class Sofa():
             S = len(max(value, key=len))
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From e994c3af072e4381cc099c42d3050fd08654e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 03/45] fix: keep existing SOFA file if writing fails

write_sofa truncated the target before writing. If writing failed, e.g.,
because the disk is full, a string variable can not be encoded, or the user
interrupted the program, existing data was lost and a partially written file
was left behind under the final name.
---
 sofar/io.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 664725a..4cf52a2 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -1,6 +1,8 @@
 """Module for reading and writing Sofa files with sofar."""
 import contextlib
 import os
+import shutil
+import uuid
 import numpy as np
 from netCDF4 import Dataset, chartostring, stringtochar
 import warnings
@@ -292,7 +294,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]
 
     # open new NETCDF4 file for writing
-    with Dataset(filename, "w", format="NETCDF4") as file:
+    with _replace_on_success(filename) as temp, \
+            Dataset(temp, "w", format="NETCDF4") as file:
 
         # write dimensions
         for dim in sofa._api:
@@ -339,6 +342,31 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                         str(getattr(sofa, sub_key)))
 
 
+@contextlib.contextmanager
+def _replace_on_success(filename):
+    """
+    Context manager for writing files in one piece.
+
+    Yields the name of a temporary file in the directory of `filename`. The
+    temporary file replaces `filename` if the context is left regularly. It is
+    removed if an error occurred, in which case `filename` is left untouched.
+    """
+    # write to the target if filename is a symbolic link
+    filename = os.path.realpath(filename)
+    temp = os.path.join(
+        os.path.dirname(filename), f".{uuid.uuid4().hex}.sofa.part")
+
+    try:
+        yield temp
+        if os.path.exists(filename):
+            shutil.copymode(filename, temp)
+        os.replace(temp, filename)
+    except BaseException:
+        with contextlib.suppress(FileNotFoundError):
+            os.remove(temp)
+        raise
+
+
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     """
     Format value from SOFA object for saving in a NETCDF4 file.
-- 
2.43.0


From 632d5fce7e6f6dc1c7c5f0c44ff5fa8a43b865b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 04/45] fix: return data of the requested entry if a SofaStream
 is shared

SofaStream stored the requested data in an attribute before returning it. If
two threads read from the same stream, one could get the data requested by
the other.
---
 sofar/sofastream.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..ccc7d21 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -104,19 +104,19 @@ class SofaStream():
         # get value if passed attribute points to a netCDF4-variable
         if name_netcdf in dset_variables:
             # get variable from SOFA-file
-            self._data = self._file.variables[name_netcdf]
+            data = self._file.variables[name_netcdf]
             if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+                data = getattr(data, var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
         elif name_netcdf in dset_attributes:
             # get attribute value from SOFA-file
-            self._data = self._file.getncattr(name_netcdf)
+            data = self._file.getncattr(name_netcdf)
 
         else:
             raise AttributeError(f"{name} is not contained in SOFA-file")
 
-        return self._data
+        return data
 
     @property
     def list_dimensions(self):
-- 
2.43.0


From ae3f59c028ee0311fa9357b3363192d3c2966ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 05/45] fix: do not read from other files after a SofaStream
 was closed

netCDF ids are reused. A stream that was closed could thus return data from a
file that was opened later. Accessing a stream before it was opened ended in
an infinite recursion.
---
 sofar/sofastream.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index ccc7d21..8d81cc7 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -67,13 +67,28 @@ class SofaStream():
     def __init__(self, filename):
         """Initialize a new SofaStream object (see documentation above)."""
         self._filename = filename
+        self._dataset = None
+
+    @property
+    def _file(self):
+        """
+        The open netCDF file.
+
+        Reading from a closed file must be avoided because it might return data
+        from another file that was opened in the meantime.
+        """
+        if self._dataset is None or not self._dataset.isopen():
+            raise RuntimeError((
+                "The SOFA-file is closed. Data can only be accessed within a "
+                "with statement, e.g., 'with SofaStream(filename) as file:'"))
+        return self._dataset
 
     def __enter__(self):
         """
         Executed when entering a ``with`` statement
         (see documentation above).
         """
-        self._file = Dataset(self._filename, mode="r")
+        self._dataset = Dataset(self._filename, mode="r")
         return self
 
     def __exit__(self, *args):
-- 
2.43.0


From 8c6ecabc6fd1598be0f848b0b8486e71b2fe59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 06/45] fix: leave SOFA object intact if adding custom data
 fails

A value that can not be converted to an array left the object unprotected and
with a registered custom entry without data, which could not be verified any
more. Deleting and adding a custom entry again had the same effect, because
the new entry was not registered.
---
 sofar/sofa.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0d53c66..773e6a0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
@@ -702,31 +703,34 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
-        self.protected = False
-
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
             dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                           for d in dimensions]
             dimensions = "".join(dimensions)
 
-        # add user entry to custom API, if not contained in the convention
-        if not hasattr(self, "_convention") or key not in self._convention:
-            if not hasattr(self, "_custom"):
-                self._custom = {}
-
-            self._custom[key] = {
-                "flags": flags,
-                "dimensions": dimensions,
-                "type": dtype,
-                "default": None,
-                "comment": ""}
-            self._convention[key] = self._custom[key]
-
-        # add attribute to object
-        setattr(self, key, value)
-        self.protected = True
+        self.protected = False
+        try:
+            # add attribute to object (done first to not register an entry
+            # without a value if this fails, e.g., if value is a ragged list)
+            setattr(self, key, value)
+
+            # add user entry to custom API, if not contained in the convention
+            if not hasattr(self, "_convention") \
+                    or key not in self._convention:
+                # create custom API if it not exists
+                if not hasattr(self, "_custom"):
+                    self._custom = {}
+
+                self._custom[key] = {
+                    "flags": flags,
+                    "dimensions": dimensions,
+                    "type": dtype,
+                    "default": None,
+                    "comment": ""}
+                self._convention[key] = self._custom[key]
+        finally:
+            self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
         """
-- 
2.43.0


From 5fd8fb0ac87264acf7d576f2596275fc96c98163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 07/45] fix: keep data as they are if upgrading the convention
 fails

If upgrade_convention failed, e.g., because data to be moved were missing or
the target convention could not be read, the SOFA object was left unprotected,
with the name of the new convention, and without the data that were removed or
being moved.
---
 sofar/sofa.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 773e6a0..446e8d8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -769,7 +769,6 @@ class Sofa():
         _, _, deprecations, upgrade = self._verification_rules()
         convention_current = self.GLOBAL_SOFAConventions
         version_current = self.GLOBAL_SOFAConventionsVersion
-        sofa_version_current = self.GLOBAL_Version
 
         # check if convention is deprecated -----------------------------------
         is_deprecated = False
@@ -819,7 +818,40 @@ class Sofa():
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
         convention_target, version_target = target.split("_")
 
-        # upgrade -------------------------------------------------------------
+        # upgrade or keep the current data if the upgrade fails ---------------
+        backup = {key: value.copy() if isinstance(value, dict) else value
+                  for key, value in self.__dict__.items()}
+        try:
+            self._apply_upgrade(upgrade, convention_target, version_target)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(backup)
+            raise
+
+        # set default for verify
+        if verify == 'auto':
+            version = self.GLOBAL_SOFAConventionsVersion
+            verify = True if parse(version) >= parse('1.0') else False
+        if verify:
+            self.verify()
+
+    def _apply_upgrade(self, upgrade, convention_target, version_target):
+        """
+        Apply upgrade rules. Helper function for `upgrade_convention`.
+
+        Parameters
+        ----------
+        upgrade : dict
+            The rules for upgrading the current to the target convention.
+        convention_target : str
+            The name of the target convention.
+        version_target : str
+            The version of the target convention.
+        """
+        convention_current = self.GLOBAL_SOFAConventions
+        version_current = self.GLOBAL_SOFAConventionsVersion
+        sofa_version_current = self.GLOBAL_Version
+
         self._convention = self._load_convention(
             convention_target, version_target)
         sofa_version_target = self._convention["GLOBAL_Version"]["default"]
@@ -890,13 +922,6 @@ class Sofa():
         if upgrade["message"] is not None:
             print(upgrade["message"])
 
-        # set default for verify
-        if verify == 'auto':
-            version = self.GLOBAL_SOFAConventionsVersion
-            verify = True if parse(version) >= parse('1.0') else False
-        if verify:
-            self.verify()
-
     def verify(self, issue_handling="raise", mode="write"):
         """
         Verify a SOFA object against the SOFA standard.
-- 
2.43.0


From 7877a9acd5ef4049e3151b6d0925972c72d16295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 08/45] fix: do not update conventions from HTTP error pages

The HTTP status was ignored. A server error during downloading the conventions
replaced valid conventions by the content of the error page, or reported that
the conventions are up to date if it affected the list of conventions.
---
 sofar/update_conventions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..9b137c0 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,12 +58,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
+    page = _get(urls[0]).text
     soup = BeautifulSoup(page, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
+    page = _get(urls[1]).text
     soup = BeautifulSoup(page, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
@@ -106,7 +106,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             )
 
             # download SOFA convention definitions to package directory
-            data = requests.get(url)
+            data = _get(url)
             # remove windows style line breaks and trailing tabs
             data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
 
@@ -189,6 +189,13 @@ def update_conventions(conventions_path=None, assume_yes=False):
             print("... conventions already up to date.")
 
 
+def _get(url):
+    """Download `url` and raise an error if this is not possible."""
+    response = requests.get(url)
+    response.raise_for_status()
+    return response
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From ceec8f9e7a583b5e62a14b3e8e32a34f38f56cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 09/45] fix: complete interrupted updates of the conventions

The csv files were installed before the json files were compiled. If updating
was interrupted or failed in between, e.g., due to a convention that could not
be parsed or a full disk, the json files remained outdated or truncated while
all following updates reported that the conventions are up to date. Files are
now compiled first and replaced in one piece. Files of conventions that did not
change are not touched anymore.
---
 sofar/update_conventions.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 9b137c0..31a0c02 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -172,18 +172,22 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 return
 
         if updated:
-            for convention in update:
-                shutil.copy(os.path.join(temp, convention),
-                            os.path.join(conventions_path, convention))
+            # compile json files from csv files before changing any convention
+            _compile_conventions(temp)
+            # Install new files. The csv file comes last because it is used to
+            # detect if a convention is up to date. If the update is
+            # interrupted, it will be completed by the next update.
+            for convention in update + [os.path.join('deprecated', convention)
+                                        for convention in deprecate]:
+                for file in [f"{convention[:-3]}json", convention]:
+                    target = os.path.join(conventions_path, file)
+                    shutil.copy(os.path.join(temp, file), f"{target}.part")
+                    os.replace(f"{target}.part", target)
+            # remove deprecated files
             for convention in deprecate:
-                os.remove(os.path.join(conventions_path, convention))
-                os.remove(
-                    os.path.join(conventions_path, f"{convention[:-3]}json"))
-                shutil.copy(
-                    os.path.join(temp, 'deprecated', convention),
-                    os.path.join(conventions_path, 'deprecated', convention))
-            # compile json files from csv file
-            _compile_conventions(conventions_path)
+                for file in [f"{convention[:-3]}json", convention]:
+                    with contextlib.suppress(FileNotFoundError):
+                        os.remove(os.path.join(conventions_path, file))
             print("... done.")
         else:
             print("... conventions already up to date.")
-- 
2.43.0


From 4684c6e81e31abc95ca9085b118990da748e779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 10/45] fix: detect conventions that are up to date despite
 multiple trailing tabs

Only one of multiple trailing tabs was removed per line when saving and when
comparing conventions. Such conventions were updated over and over again.
---
 sofar/update_conventions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 31a0c02..5d6aa83 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -108,7 +108,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # download SOFA convention definitions to package directory
             data = _get(url)
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = _clean_line_breaks(data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -121,9 +121,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             if is_standardized and os.path.isfile(standardized_csv):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _clean_line_breaks(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -141,9 +139,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             elif not is_standardized and os.path.isfile(deprecated_csv):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _clean_line_breaks(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
@@ -200,6 +196,11 @@ def _get(url):
     return response
 
 
+def _clean_line_breaks(data):
+    """Remove windows style line breaks and all trailing tabs from bytes."""
+    return re.sub(rb"\t*\r?\n", b"\n", data)
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From f3a4614627b548c26ec99c38fc9ba88aa7075cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 11/45] fix: return requested entry from SofaStream if names
 are similar

Global attributes could not be accessed if a variable of the same name exists,
attributes of variables whose name ends with 'Data' were not found, and the
attribute of a global attribute returned the global attribute.
---
 sofar/sofastream.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 8d81cc7..61716c4 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -108,23 +108,28 @@ class SofaStream():
         dset_attributes = np.asarray(self._file.ncattrs())
 
         # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
+        is_global = name.startswith('GLOBAL_')
+        if is_global:
+            name_netcdf = name[len('GLOBAL_'):]
+        elif name.startswith('Data_'):
+            name_netcdf = name.replace('Data_', 'Data.', 1)
+        else:
+            name_netcdf = name
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
+        if "_" in name_netcdf and not is_global:
+            name_netcdf, var_attr = name_netcdf.split('_', 1)
 
         # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
+        if name_netcdf in dset_variables and not is_global:
             # get variable from SOFA-file
             data = self._file.variables[name_netcdf]
             if var_attr is not None:
                 data = getattr(data, var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
+        elif name_netcdf in dset_attributes and var_attr is None:
             # get attribute value from SOFA-file
             data = self._file.getncattr(name_netcdf)
 
-- 
2.43.0


From 57227459fb449b03cc03e8c287e6ba804757f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 12/45] fix: write and read string variables of more than two
 dimensions

String variables with more than one dimension besides S (e.g., MRS) could not
be written and the characters were misinterpreted if S was not the last
dimension (e.g., RSM).
---
 sofar/io.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 4cf52a2..76bb5be 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -161,7 +161,8 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load data
         for var in file.variables.keys():
 
-            value = _format_value_from_netcdf(file[var][:], var)
+            value = _format_value_from_netcdf(
+                file[var][:], var, file[var].dimensions)
             all_attr.append(var.replace(".", "_"))
 
             if hasattr(sofa, var.replace(".", "_")):
@@ -333,7 +334,11 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='ascii')
+                # move the characters from the last to the dimension S
+                value = stringtochar(value, encoding='ascii')
+                axis = shape.index("S")
+                tmp_var[:] = np.moveaxis(
+                    np.squeeze(value, axis), -1, axis)
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
@@ -404,8 +409,11 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
+        # trailing singleton dimensions can be omitted. The dimension S is 1,
+        # because it does not reflect the length of the strings
         value = np.array(value, dtype=f"S{str(S)}")
-        value = _atleast_nd(value, len(dimensions))
+        shape = value.shape[:len(dimensions)]
+        value = value.reshape(shape + (1, ) * (len(dimensions) - len(shape)))
         netcdf_dtype = 'S1'
     else:
         raise ValueError(f"Unknown type {dtype} for {key}")
@@ -413,7 +421,7 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     return value, netcdf_dtype
 
 
-def _format_value_from_netcdf(value, key):
+def _format_value_from_netcdf(value, key, dimensions=()):
     """
     Format value from NETCDF4 file for saving in a SOFA object.
 
@@ -423,6 +431,9 @@ def _format_value_from_netcdf(value, key):
         The value to be formatted
     key : str
         The variable name of the current value. Needed for verbose errors.
+    dimensions : tuple of str
+        The names of the dimensions of the current value. The default ``()``
+        assumes that the last dimension holds the characters of strings.
 
     Returns
     -------
@@ -440,7 +451,13 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            # the characters are stored in the dimension S
+            axis = dimensions.index("S") if "S" in dimensions \
+                else value.ndim - 1
+            value = chartostring(
+                np.moveaxis(value, axis, -1), encoding="ascii")
+            if axis < value.ndim:
+                value = np.expand_dims(value, axis)
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
-- 
2.43.0


From 4e90f49b1226f08ffa3c5005034ec1a8148d78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 13/45] fix: write and read attributes whose names are reserved
 by netCDF4

Verified objects with attributes such as GLOBAL_name or Temperature_scale
could not be written, and others such as GLOBAL_filepath or Temperature_size
were written but could not be read.
---
 sofar/io.py         | 10 +++++-----
 sofar/sofastream.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 76bb5be..05f1bfd 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -147,7 +147,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -179,7 +179,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -305,7 +305,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -343,8 +343,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 @contextlib.contextmanager
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 61716c4..3ec3b5b 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -126,7 +126,7 @@ class SofaStream():
             # get variable from SOFA-file
             data = self._file.variables[name_netcdf]
             if var_attr is not None:
-                data = getattr(data, var_attr)
+                data = data.getncattr(var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
         elif name_netcdf in dset_attributes and var_attr is None:
@@ -310,7 +310,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + data.getncattr(att_) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From a39e238a5cfe275fc985ad45e2f6efbeabe2198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 14/45] fix: do not write Data_IR etc. as attributes of a
 variable named Data

---
 sofar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 05f1bfd..e586ec4 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -341,7 +341,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     np.squeeze(value, axis), -1, axis)
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            # (k can also be a variable, e.g., 'Data_IR' if key is 'Data')
+            sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
+                        and sofa._convention[k]["type"] == "attribute"]
             for sub_key in sub_keys:
                 tmp_var.setncattr(sub_key[len(key)+1:],
                                   str(getattr(sofa, sub_key)))
-- 
2.43.0


From 53259fadc2f34abc288cad3cfe5184ae88a1a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 15/45] fix: read attributes of a custom variable named Data
 with SofaStream

---
 sofar/sofastream.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 3ec3b5b..80d9fcb 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -111,10 +111,14 @@ class SofaStream():
         is_global = name.startswith('GLOBAL_')
         if is_global:
             name_netcdf = name[len('GLOBAL_'):]
-        elif name.startswith('Data_'):
-            name_netcdf = name.replace('Data_', 'Data.', 1)
         else:
             name_netcdf = name
+            # Data_IR is stored as Data.IR, but an attribute of a custom
+            # variable named Data is not
+            if name.startswith('Data_'):
+                data = name.replace('Data_', 'Data.', 1)
+                if data.split('_')[0] in dset_variables:
+                    name_netcdf = data
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
-- 
2.43.0


From f0c258553e4a702d168d13f70e6b8e32068c9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 16/45] fix: do not treat methods as entries of SOFA objects

Names of methods and properties of the class could be assigned although the
object is protected, which replaced the methods of the object and left an
entry that can not be verified.
---
 sofar/sofa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 446e8d8..733d869 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -138,7 +138,9 @@ class Sofa():
         read-only data.
         """
         # don't allow new attributes to be added outside the class
-        if self.protected and not hasattr(self, name):
+        # (hasattr would also find methods and properties of the class)
+        if self.protected and name not in self.__dict__ \
+                and name != "protected":
             raise TypeError(f"{name} is an invalid attribute")
 
         # don't allow setting read only attributes
@@ -165,7 +167,7 @@ class Sofa():
         mandatory data.
         """
         # can't delete non existing attributes
-        if not hasattr(self, name):
+        if name not in self.__dict__:
             raise TypeError(f"{name} is not an attribute")
         # delete anything if not frozen, delete non mandatory
         if not self.protected or \
-- 
2.43.0


From 2bd6874f2d353c5820f37fbc0ebe6ea98fcd88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 17/45] fix: return protected as bool so that it can be
 restored

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 733d869..cfcf270 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -152,7 +152,7 @@ class Sofa():
 
         # convert to numpy array or scalar
         if not isinstance(value, (str, dict, np.ndarray)) \
-                and name != "protected":
+                and name not in ("protected", "_protected"):
             value = np.atleast_2d(value)
             if value.size == 1:
                 value = value.flatten()[0]
-- 
2.43.0


From d27d328c209884016a1ac761ad00b5d20810fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 18/45] fix: protect entries that are read only after upgrading
 the convention

---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cfcf270..57bb370 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -872,6 +872,11 @@ class Sofa():
         for key in keys:
             setattr(self, key, self._convention[key]["default"])
 
+        # update read only attributes
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+
         # move data
         for source, move in upgrade["move"].items():
             # get info
-- 
2.43.0


From ecc727c599c2aa8165b7d2550e36d0c95c40433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 19/45] fix: detect attributes of variables that were deleted

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 57bb370..fb744b9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1122,7 +1122,7 @@ class Sofa():
                     key.count("_") == 0:
                 continue
 
-            if (key[:key.rindex("_")] not in self._convention and
+            if (key[:key.rindex("_")] not in self.__dict__ and
                     not key.startswith("GLOBAL_")):
                 current_error += "- " + key + "\n"
 
-- 
2.43.0


From d0ff2fe2e9d7efc37b7197b2a6ae0448018030ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 20/45] fix: write data with additional singleton dimensions,
 reject others

---
 sofar/io.py   |  5 +++++
 sofar/sofa.py | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index e586ec4..6437910 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -409,6 +409,11 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         netcdf_dtype = "attribute"
     elif dtype == "double":
         value = _atleast_nd(value, len(dimensions))
+        # discard additional singleton dimensions
+        if len(dimensions) == 1:
+            value = value.flatten()
+        while value.ndim > len(dimensions) and value.shape[-1] == 1:
+            value = value[..., 0]
         netcdf_dtype = "f8"
     elif dtype == "string":
         # trailing singleton dimensions can be omitted. The dimension S is 1,
diff --git a/sofar/sofa.py b/sofar/sofa.py
index fb744b9..fdbad51 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1289,13 +1289,19 @@ class Sofa():
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
 
-                # check if the shapes match and write to API
-                if shape_compare == shape_ref:
+                # check if the shapes match (cropped dimensions can only be
+                # singleton dimensions) and write to API
+                if shape_compare == shape_ref \
+                        and set(shape_act[len(shape_ref):]) <= {1}:
                     shape_matched = True
                     self._dimensions[key] = dim.upper()
                     break
 
             if not shape_matched:
+                # show cropped dimensions only if they caused the mismatch
+                shape_error = shape_compare \
+                    if set(shape_act[len(shape_ref):]) <= {1} else shape_act
+
                 # get possible dimensions in verbose form, i.e., "(M=2, C=3)""
                 dimensions_verbose = []
                 for dim in dimensions.upper().replace(" ", "").split(","):
@@ -1303,7 +1309,7 @@ class Sofa():
                         f"({', '.join([f'{d}={self._api[d]}' for d in dim])})")
 
                 current_error += (
-                    f"- {key} has shape {shape_compare} but must "
+                    f"- {key} has shape {shape_error} but must "
                     f"have {', '.join(dimensions_verbose)}\n")
 
         if current_error:
-- 
2.43.0


From f6c2beabdcc80dce60d0de5a1f28db14148d0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 21/45] fix: deprecate conventions whose update was interrupted

---
 sofar/update_conventions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 5d6aa83..86e549f 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -128,8 +128,11 @@ def update_conventions(conventions_path=None, assume_yes=False):
                         file.write(data)
                     print(f"- update convention: {convention[:-4]}")
                     update.append(convention)
-            elif not is_standardized and os.path.isfile(standardized_csv):
-                # deprecate standardized convention
+            elif not is_standardized and (
+                    os.path.isfile(standardized_csv) or
+                    os.path.isfile(f"{standardized_csv[:-3]}json")):
+                # deprecate standardized convention (the csv file does not
+                # exist if adding the convention was interrupted)
                 updated = True
                 with open(os.path.join(temp, 'deprecated', convention), "wb") \
                         as file:
-- 
2.43.0


From d260568e6bbf5790a9c22bc452ff28d07c1848e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 22/45] fix: verify custom entries without creating another
 object

---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index fdbad51..59d5688 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1189,9 +1189,9 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                str(self.GLOBAL_SOFAConventionsVersion)).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From 914bbb17ad22dab08ea017a69e8013b19bde459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 23/45] fix: write and read string variables with non-ASCII
 characters

Objects with such strings passed verify() but could not be written, and files
of other programs that contain them could not be read at all. Attributes are
already stored with UTF-8 encoding.
---
 sofar/io.py   | 11 ++++++-----
 sofar/sofa.py | 20 +++++++++-----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 6437910..919006e 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -4,7 +4,7 @@ import os
 import shutil
 import uuid
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -335,7 +335,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                 tmp_var[:] = value
             else:
                 # move the characters from the last to the dimension S
-                value = stringtochar(value, encoding='ascii')
+                value = np.ascontiguousarray(value)[..., None].view("S1")
                 axis = shape.index("S")
                 tmp_var[:] = np.moveaxis(
                     np.squeeze(value, axis), -1, axis)
@@ -389,7 +389,7 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     dimensions : str
         The intended dimensions from ``sofa.dimensions``
     S : int
-        Length of the string array.
+        Length of the string array in bytes.
 
     Returns
     -------
@@ -418,7 +418,8 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     elif dtype == "string":
         # trailing singleton dimensions can be omitted. The dimension S is 1,
         # because it does not reflect the length of the strings
-        value = np.array(value, dtype=f"S{str(S)}")
+        value = np.char.encode(np.array(value, dtype="U"), "utf-8")
+        value = value.astype(f"S{str(S)}")
         shape = value.shape[:len(dimensions)]
         value = value.reshape(shape + (1, ) * (len(dimensions) - len(shape)))
         netcdf_dtype = 'S1'
@@ -462,7 +463,7 @@ def _format_value_from_netcdf(value, key, dimensions=()):
             axis = dimensions.index("S") if "S" in dimensions \
                 else value.ndim - 1
             value = chartostring(
-                np.moveaxis(value, axis, -1), encoding="ascii")
+                np.moveaxis(value, axis, -1), encoding="utf-8")
             if axis < value.ndim:
                 value = np.expand_dims(value, axis)
         value = np.atleast_1d(value).astype("U")
diff --git a/sofar/sofa.py b/sofar/sofa.py
index 59d5688..792069f 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1807,21 +1807,19 @@ class Sofa():
     def _get_size_and_shape_of_string_var(value, key):
         """
         String variables can be strings, list of strings, or numpy arrays of
-        strings. This functions returns the length of the longest string S
-        inside the string variable and the shape of the string variable as
-        required by the SOFA definition. Note that the shape is the shape of
-        the array that holds the strings. NETCDF stores all string variables in
-        arrays.
+        strings. This functions returns the length of the longest string S in
+        bytes (strings are stored with UTF-8 encoding) and the shape of the
+        string variable as required by the SOFA definition. Note that the shape
+        is the shape of the array that holds the strings. NETCDF stores all
+        string variables in arrays.
         """
 
         if isinstance(value, str):
-            S = len(value)
+            S = len(value.encode("utf-8"))
             shape = (1, 1)
-        elif isinstance(value, list):
-            S = len(max(value, key=len))
-            shape = np.array(value).shape
-        elif isinstance(value, np.ndarray):
-            S = np.max(np.vectorize(len)(value))
+        elif isinstance(value, (list, np.ndarray)):
+            value = np.array(value).astype("U")
+            S = np.max(np.char.str_len(np.char.encode(value, "utf-8")))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From e59427a3d4d91491e7d463f92585d70c8bee6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 24/45] fix: read variables without dimensions

Files of other programs that contain scalar variables could not be read.
---
 sofar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 919006e..568cc5d 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -449,6 +449,9 @@ def _format_value_from_netcdf(value, key, dimensions=()):
         The formatted value.
     """
 
+    # variables without dimensions
+    value = np.atleast_1d(value)
+
     if "float" in str(value.dtype) or "int" in str(value.dtype):
         if np.ma.is_masked(value):
             warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
-- 
2.43.0


From ea0fc722bba34c1d4cd0b43ae06a5de6743232f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 25/45] fix: read data that is stored with big-endian byte
 order

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 568cc5d..45d8f66 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -452,7 +452,7 @@ def _format_value_from_netcdf(value, key, dimensions=()):
     # variables without dimensions
     value = np.atleast_1d(value)
 
-    if "float" in str(value.dtype) or "int" in str(value.dtype):
+    if value.dtype.kind in "fiu":
         if np.ma.is_masked(value):
             warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
         else:
-- 
2.43.0


From c0a3ef466f31012cd30af9a00298e01803ae22ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 26/45] fix: complete interrupted updates of conventions that
 changed back

---
 sofar/update_conventions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 86e549f..0c04b3e 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -173,18 +173,21 @@ def update_conventions(conventions_path=None, assume_yes=False):
         if updated:
             # compile json files from csv files before changing any convention
             _compile_conventions(temp)
-            # Install new files. The csv file comes last because it is used to
-            # detect if a convention is up to date. If the update is
-            # interrupted, it will be completed by the next update.
+            # Install new files. The csv file is removed first and comes last
+            # because it is used to detect if a convention is up to date. If
+            # the update is interrupted, it will be completed by the next
+            # update (even if the convention changed back in the meantime).
             for convention in update + [os.path.join('deprecated', convention)
                                         for convention in deprecate]:
+                with contextlib.suppress(FileNotFoundError):
+                    os.remove(os.path.join(conventions_path, convention))
                 for file in [f"{convention[:-3]}json", convention]:
                     target = os.path.join(conventions_path, file)
                     shutil.copy(os.path.join(temp, file), f"{target}.part")
                     os.replace(f"{target}.part", target)
             # remove deprecated files
             for convention in deprecate:
-                for file in [f"{convention[:-3]}json", convention]:
+                for file in [convention, f"{convention[:-3]}json"]:
                     with contextlib.suppress(FileNotFoundError):
                         os.remove(os.path.join(conventions_path, file))
             print("... done.")
-- 
2.43.0


From 3b0a6726b02d7002e3d406f1290444aa00216f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 27/45] fix: equals compares shapes, missing data and non-ASCII
 strings

---
 sofar/utils.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..bac5cbc 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -203,8 +203,9 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         # compare attributes
         if type_a == "attribute" and type_b == "attribute":
 
-            # compare
-            if a != b:
+            # compare (attributes that violate the SOFA standard might
+            # contain arrays)
+            if not np.array_equal(a, b):
                 is_identical = _equals_raise_warning(
                     f"not identical: different values for {key}", verbose)
 
@@ -212,19 +213,26 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                # check shapes and missing data first (single values would
+                # be broadcasted and missing data would be ignored)
+                a, b = np.squeeze(a), np.squeeze(b)
+                assert np.array_equal(
+                    np.ma.getmaskarray(a), np.ma.getmaskarray(b))
+                npt.assert_allclose(a, b)
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
+            except TypeError:
+                # data of wrong type, e.g., strings
+                if not np.array_equal(a, b):
+                    is_identical = _equals_raise_warning(
+                        f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
-            try:
-                assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
-            except AssertionError:
+            if not np.array_equal(_squeeze_string(a), _squeeze_string(b)):
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
@@ -233,6 +241,14 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
     return is_identical
 
 
+def _squeeze_string(value):
+    """Get string variable as squeezed array of unicode strings."""
+    value = np.squeeze(value)
+    if value.dtype.kind == "S":
+        return np.char.decode(value, "utf-8")
+    return value.astype("U")
+
+
 def _equals_raise_warning(message, verbose):
     if verbose:
         warnings.warn(message, stacklevel=2)
-- 
2.43.0


From 61e540f0703a1a447fdbf088daaab641674fd685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 28/45] fix: inspect objects with single strings and with
 invalid data

---
 sofar/sofa.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 792069f..ffb8bc4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -442,7 +442,9 @@ class Sofa():
         """
 
         # update the private attribute `_convention` to make sure the required
-        # meta data is in place
+        # meta data is in place (the dimensions are not detected in case of
+        # data with invalid types and invalid dimensions are discarded)
+        self.__dict__["_dimensions"] = {}
         self.verify(issue_handling=issue_handling)
 
         # list of all attributes
@@ -461,13 +463,14 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
                 # get shape and dimension
                 shape = value.shape
-                dimension = self._dimensions[key]
+                dimension = self._dimensions.get(key, len(shape) * "?")
 
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
-- 
2.43.0


From b64261b30849cd90af30f17ad87fb5bfafa9e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 29/45] fix: inspect files with scalar variables and numeric
 attributes

---
 sofar/sofastream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 80d9fcb..83a3515 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -295,7 +295,7 @@ class SofaStream():
 
             # add value for scalars
             if data.size == 1:
-                info_str += str(data[:][0]) + '\n'
+                info_str += str(data[:][0] if shape else data[:]) + '\n'
 
             # Handle multidimensional data
             else:
@@ -314,7 +314,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + data.getncattr(att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 9f75c8190d7e6a1d5bf4de6c23b7f055390e0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 30/45] fix: show the dimension of one dimensional data with
 singleton dimensions

inspect() showed N=1 for data of shape (1, N), e.g., data that was assigned
as a list.
---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ffb8bc4..2a203cc 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -472,6 +472,11 @@ class Sofa():
                 shape = value.shape
                 dimension = self._dimensions.get(key, len(shape) * "?")
 
+                # data with one dimension can have single dimensions
+                # anywhere, e.g., if it was assigned as a list
+                if len(dimension) == 1:
+                    shape = (value.size, )
+
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
                 while len(shape) < len(dimension):
-- 
2.43.0


From 71a9fd7fc39ef0dae8073b01091b953eda17d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 31/45] fix: verify with issue_handling ignore does not raise
 for data of wrong type

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 2a203cc..af6d4d2 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1110,7 +1110,10 @@ class Sofa():
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail. Warnings are not reported until
         # the end
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
+            if issue_handling == "ignore":
+                return
+
             _, issues = self._verify_handle_issues(
                     "\nWARNINGS\n--------\n", error_msg, issue_handling)
 
-- 
2.43.0


From 61b1ca4d2e18fc67852d508c3e47cdab77cddc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 32/45] fix: verify with issue_handling return also returns
 warnings

---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index af6d4d2..8e200b3 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1468,14 +1468,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From 464596d47193eecbb9f1f37493321747422bdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 33/45] fix: verify objects with variables whose name ends with
 Units

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8e200b3..b0ba2c9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1431,7 +1431,8 @@ class Sofa():
             keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
             for key in keys:
                 unit = getattr(self, key)
-                if unit.lower() != unit:
+                # names of variables can also end with 'Units'
+                if isinstance(unit, str) and unit.lower() != unit:
                     current_error += (f"- {key} is {unit} but must contain "
                                       "only lower case letters when writing "
                                       "SOFA files to disk.\n")
-- 
2.43.0


From e90d5d4038a8c9ba76d43240c6342b15b985b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 34/45] fix: ignore case of values when verifying their
 dependencies

---
 sofar/sofa.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b0ba2c9..ae9de4c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1350,9 +1350,12 @@ class Sofa():
                                   f"but must be {', '.join(ref)}\n")
 
             # get lower case value for of test for verifying specific
-            # dependencies
-            if isinstance(test, str) and test.lower() in \
-                    ["cartesian", "spherical", "spherical harmonics"]:
+            # dependencies (upper and lower case must only be distinguished for
+            # DataType and SOFAConventions)
+            if isinstance(test, str) \
+                    and test not in rules[key].get("specific", {}) \
+                    and key_sofar not in [
+                        "GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
                 test = test.lower()
 
             # check general dependencies
-- 
2.43.0


From b6ef2518f201f3a037fc977e530da4105cb7b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 35/45] fix: get dimensions from the same shape that is
 verified

---
 sofar/sofa.py | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ae9de4c..6cf82c6 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -9,7 +9,7 @@ import warnings
 from packaging.version import parse
 from copy import deepcopy
 import sofar as sf
-from .utils import (_nd_newaxis, _atleast_nd, _get_conventions,
+from .utils import (_atleast_nd, _get_conventions,
                     _verify_convention_and_version)
 
 
@@ -1247,8 +1247,10 @@ class Sofa():
             for idx, dim in enumerate(dimensions.split(", ")[0]):
                 if dim not in "ICS" and dim.islower():
                     # numeric data
+                    shape = self._get_shape(
+                        value, key, self._convention[key]["type"], dimensions)
                     self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                        shape[idx] if idx < len(shape) else 1
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
@@ -1274,16 +1276,7 @@ class Sofa():
             except AttributeError:
                 value = getattr(self, key)
 
-            if dtype in ["attribute", "string"]:
-                # string or string array like data
-                shape_act = self._get_size_and_shape_of_string_var(
-                    value, key)[1]
-            elif len(dimensions.split(",")[0]) > 1:
-                # multidimensional array like data
-                shape_act = _atleast_nd(value, 4).shape
-            else:
-                # scalar of single dimensional array like data
-                shape_act = (np.array(value).size, )
+            shape_act = self._get_shape(value, key, dtype, dimensions)
 
             shape_matched = False
             for dim in dimensions.split(", "):
@@ -1839,6 +1832,34 @@ class Sofa():
 
         return S, shape
 
+    @staticmethod
+    def _get_shape(value, key, dtype, dimensions):
+        """
+        Get the shape of a variable for verifying its dimensions.
+
+        Parameters
+        ----------
+        value : str, number, numpy array
+            The value of the variable
+        key : str
+            The name of the variable
+        dtype, dimensions : str
+            as in sofa._convention
+
+        Returns
+        -------
+        shape : tuple
+        """
+        if dtype in ["attribute", "string"]:
+            # string or string array like data
+            return Sofa._get_size_and_shape_of_string_var(value, key)[1]
+        elif len(dimensions.split(",")[0]) > 1:
+            # multidimensional array like data
+            return _atleast_nd(value, 4).shape
+        else:
+            # scalar of single dimensional array like data
+            return (np.array(value).size, )
+
     @staticmethod
     def _mandatory(flags):
         """
-- 
2.43.0


From 75de36527659d41f0f27db11af18a82d4beda801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 36/45] fix: write valid data if defaults of the latest
 convention are invalid

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 45d8f66..ade1501 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -273,7 +273,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # if case required for writing SOFA test data that violates the
         # conventions
         if sofa.GLOBAL_SOFAConventions != "invalid-value":
-            latest = sf.Sofa(sofa.GLOBAL_SOFAConventions)
+            latest = sf.Sofa(sofa.GLOBAL_SOFAConventions, verify=False)
             latest = latest.GLOBAL_SOFAConventionsVersion
             current = sofa.GLOBAL_SOFAConventionsVersion
 
-- 
2.43.0


From c015306d1facf435aceb03b5e60e0d34cd9813ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 37/45] fix: add attributes of Data variables as documented

---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 6cf82c6..f1eef65 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -672,9 +672,9 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
-                    (name.startswith("Data_") and (name.count("_") == 0 or
-                                                   name.count("_") > 2)):
+            if name.count("_") != 1 and not (
+                    name.startswith("Data_") and name.count("_") == 2 and
+                    name[:name.rindex("_")] in self._convention):
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 310a4cada9e9dbabcfcc206d4d71286f2ce3f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:40 +0000
Subject: [PATCH 38/45] fix: read valid data if defaults of the convention are
 invalid

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index ade1501..f060377 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -137,7 +137,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             _verify_convention_and_version(version, convention)
 
             # get SOFA object with default values
-            sofa = sf.Sofa(convention, version=version, verify=verify)
+            sofa = sf.Sofa(convention, version=version, verify=False)
         else:
             sofa = sf.Sofa(None)
 
-- 
2.43.0


From 9c373655f113fda33bb5f5a30c49a4b634f63803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 39/45] fix: list dimensions of data of any other data type

---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f1eef65..5017045 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -230,6 +230,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 83a3515..3cc1c59 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -182,6 +182,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0


From a5b48c18c53b86a5c12e46bccfaf74a9c68adbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:00 +0000
Subject: [PATCH 40/45] fix: return an empty list if there is nothing to
 upgrade to

As documented. Looping over the result of upgrade_convention() failed with
None.
---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 5017045..743688b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -799,7 +799,7 @@ class Sofa():
             if convention_current not in upgrade:
                 print((f"Convention {convention_current} v{version_current} is"
                        " outdated but is missing upgrade rules"))
-                return
+                return []
 
             # check if upgrade is available for this version
             for from_to in upgrade[convention_current]["from_to"]:
@@ -824,7 +824,7 @@ class Sofa():
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-            return
+            return []
 
         # get information to upgrade ------------------------------------------
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
-- 
2.43.0


From d90a97d4a515c63d4ecbf227a8e6b27ff0fea361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 41/45] fix: upgrade data whose version is missing upgrade
 rules

upgrade_convention() raised an UnboundLocalError if the convention is
deprecated, but has upgrade rules for other versions only.
---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 743688b..123d767 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -821,6 +821,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return []
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-- 
2.43.0


From fc13751ba0d90048a820ba1fef489a17789fad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 42/45] fix: check all conventions for congruency

Removing items from the lists while looping them skipped the following convention: it was not reported if missing, or its error page was compared.
---
 sofar/update_conventions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 0c04b3e..9767dcc 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -430,13 +430,14 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    # (loop copies because items are removed from the lists)
+    for convention in sofaconventions.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in sofatoolbox.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 34c8604282915a2072638bb759ff75f3bbe64986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 43/45] fix: raise error if congruency can not be checked

Error pages were searched for conventions and compared with conventions.
---
 sofar/update_conventions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 9767dcc..7b40f39 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -410,7 +410,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from sofaconventions.org
     url = urls_check[0]
-    page = requests.get(url).text
+    page = _get(url).text
     soup = BeautifulSoup(page, 'html.parser')
     sofaconventions = [os.path.split(node.get('href'))[1]
                        for node in soup.find_all('a')
@@ -421,7 +421,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from github
     url = urls_check[1]
-    page = requests.get(url).text
+    page = _get(url).text
     sofatoolbox = re.findall(
         r'"SOFAtoolbox/conventions/([^"]+\.csv)"', page)
 
@@ -448,7 +448,7 @@ def _check_congruency(save_dir=None, branch="master"):
     for convention in sofaconventions:
 
         # download SOFA convention definitions to package directory
-        data = [requests.get(url + convention) for url in urls_load]
+        data = [_get(url + convention) for url in urls_load]
         # remove trailing tabs and windows style line breaks
         data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
                 for d in data]
-- 
2.43.0


From 9dd0d456c61b58409701f06aa398acc102a31701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 44/45] fix: ignore all trailing tabs when checking congruency

Only one trailing tab per line was ignored.
---
 sofar/update_conventions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 7b40f39..26c832b 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -449,9 +449,8 @@ def _check_congruency(save_dir=None, branch="master"):
 
         # download SOFA convention definitions to package directory
         data = [_get(url + convention) for url in urls_load]
-        # remove trailing tabs and windows style line breaks
-        data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
-                for d in data]
+        # remove windows style line breaks and trailing tabs
+        data = [_clean_line_breaks(d.content) for d in data]
 
         # check for equality
         if data[0] != data[1]:
-- 
2.43.0


From 118814c721e5b3ee9f7e4673083fd100308883c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:17 +0000
Subject: [PATCH 45/45] fix: list shape of one dimensional arrays as stored
 when inspecting

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 123d767..dd3cf29 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -478,6 +478,10 @@ class Sofa():
                 # anywhere, e.g., if it was assigned as a list
                 if len(dimension) == 1:
                     shape = (value.size, )
+                # one dimensional numerical data are stored as a single row
+                elif value.ndim == 1 and key in self._dimensions and \
+                        self._convention[key]["type"] == "double":
+                    shape = (1, ) + shape
 
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
-- 
2.43.0

