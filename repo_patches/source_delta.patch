From fb14e40ed51df0e05e3d4238ad44688995416740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 001/158] fix: readSDDS raised IndexError on ASCII files
 without parameters and row counts

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..092296c 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -248,7 +248,7 @@ class readSDDS:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
         else:
-            if len(self._parameter_keys[0]) == 0:
+            if self._parameter_keys and len(self._parameter_keys[0]) == 0:
                 # Need empty checks to succeed
                 self._parameter_keys.pop(0)
 
-- 
2.43.0


From 4313e0bbf62d8a1935e0553ebfd1fa22da9b149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 002/158] fix: unbuffered readSDDS took a page starting with a
 one-byte line for the end of the file

---
 rsbeams/rsdata/SDDS.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 092296c..cc5401a 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -289,14 +289,11 @@ class readSDDS:
             # Usually will catch binary end
             pointer = self.openf.tell()
 
-            if not self.openf.read(1):
-                return True
-            while True:
+            line = self.openf.readline()
+            while self._data_mode == 'ascii' and line and not line.strip():
                 line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
+            if not line:
+                return True
 
             self.openf.seek(pointer)
 
-- 
2.43.0


From cfe48406957f2a07789930d85b2fb74ea0997b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 003/158] fix: blank lines in the header of an ASCII file
 shifted the data of buffered readSDDS

---
 rsbeams/rsdata/SDDS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index cc5401a..8ba071a 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -174,7 +174,8 @@ class readSDDS:
             self._data_mode = 'ascii'
             # need list of lines to use genfromtxt
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = [line for line in self.openf[self.header_end_pointer:].splitlines()
+                              if line.lstrip().find(b'!') != 0]
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
@@ -349,7 +350,7 @@ class readSDDS:
         if self._data_mode == 'binary':
             position = 0 + self.header_end_pointer * self.buffer
         else:
-            position = 0 + self._header_line_count * self.buffer
+            position = 0
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
-- 
2.43.0


From a28ebf0d38fa55a973e538716197911cc6b73ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 004/158] fix: buffered readSDDS advanced twice over the rows
 of an ASCII page and lost the following pages

---
 rsbeams/rsdata/SDDS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8ba071a..700101b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -452,8 +452,9 @@ class readSDDS:
             if self.data['&data'][0].fields['mode'] == 'ascii':
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
+                new_array = np.atleast_1d(new_array)
                 if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                    position += row_count
             else:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
-- 
2.43.0


From 05f9e035e837eb556917a2b6e119f66c4ce6c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 005/158] fix: number of rows of the last page, or of a page
 with comments, with no_row_counts

---
 rsbeams/rsdata/SDDS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 700101b..5025d1f 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -305,10 +305,11 @@ class readSDDS:
         if self.buffer:
             # openf is a list
             for line in self.openf[start_position:]:
-                if not line:
+                if not line.strip():
                     return line_count
                 else:
                     line_count += 1
+            return line_count
         else:
             start_position = self.openf.tell()
             while True:
@@ -316,7 +317,7 @@ class readSDDS:
                 if not line.strip():
                     self.openf.seek(start_position)
                     return line_count
-                else:
+                elif line.lstrip().find(b'!') != 0:
                     line_count += 1
 
     def read(self, pages=None):
-- 
2.43.0


From eba751e22f6e93a86acc83f2b33d2fe7d1c848ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 006/158] fix: readSDDS.read failed on ASCII files that have
 columns but no parameters and no row counts

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 5025d1f..b81ba53 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -376,7 +376,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if self._parameters and (page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
-- 
2.43.0


From fcbe10cf0bc19636fb3b243ccfa0133caa70c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 007/158] fix: readSDDS.read(pages) returned unselected pages
 or lost its place when passing over a page

---
 rsbeams/rsdata/SDDS.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index b81ba53..96987dc 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -388,12 +388,18 @@ class readSDDS:
 
             if row_count == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
+            selected = isinstance(user_pages, GeneratorType) or (page in user_pages)
+            if selected or self._variable_length_records or self._data_mode == 'ascii':
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
-                self._columns.add(column_data)
+                if selected:
+                    self._columns.add(column_data)
             else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
+                # still need to pass over what would have been read
+                page_size = np.dtype(self._column_keys[0]).itemsize * row_count
+                if self.buffer:
+                    position += page_size
+                else:
+                    self.openf.seek(page_size, 1)
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From ef8fcb67bab1e55f1f1603b27db48e279924cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 008/158] fix: readSDDS.columns was None when no page has any
 rows

---
 rsbeams/rsdata/SDDS.py        | 7 +++++--
 rsbeams/rsdata/struct_data.py | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 96987dc..c505d18 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -386,10 +386,13 @@ class readSDDS:
             else:
                 row_count = self._get_ascii_row_count(position)
 
-            if row_count == 0:
+            if len(self.data['&column']) == 0:
                 continue
             selected = isinstance(user_pages, GeneratorType) or (page in user_pages)
-            if selected or self._variable_length_records or self._data_mode == 'ascii':
+            if row_count == 0:
+                if selected:
+                    self._columns.add([])
+            elif selected or self._variable_length_records or self._data_mode == 'ascii':
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
                 if selected:
                     self._columns.add(column_data)
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..42eda7c 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -39,10 +39,15 @@ class StructData:
             else:
                 data_hold = np.concatenate([data_hold, datum])
 
+        if data_hold is None:
+            # page without rows
+            data_hold = np.empty(0, dtype=self.data_type)
+
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        # Pages without rows do not fit in the same array with pages that have rows
+        self.data = np.array([d for d in self._data if d.size] or self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From d3517ab552578a91487d281e4e6a6b2c87f5c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 009/158] fix: pages after the first one of a file with
 no_row_counts

---
 rsbeams/rsdata/SDDS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index c505d18..6d0fb7e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -403,6 +403,12 @@ class readSDDS:
                     position += page_size
                 else:
                     self.openf.seek(page_size, 1)
+            if self.data['&data'][0].fields['no_row_counts']:
+                # pass over the blank line that ends the page
+                if self.buffer:
+                    position += 1
+                else:
+                    self.openf.readline()
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From 8042c130ae9387eaf6ed1315b16708253ff5a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 010/158] fix: no_row_counts=0 in the &data namelist was taken
 for true

---
 rsbeams/rsdata/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..d1208db 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -117,6 +117,8 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        for name in ["lines_per_row", "no_row_counts", "additional_header_lines"]:
+            self.fields[name] = int(self.fields[name])
 
 
 class Associate(Datum):
-- 
2.43.0


From 4929e30416c3bfdab43b6fc008a3b7ad90cfff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 011/158] fix: fixed_value of a float parameter stayed a string

---
 rsbeams/rsdata/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index d1208db..ff71588 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["double", "float"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
-- 
2.43.0


From ac4eb2de3c6e06293ab16c027657096e0090a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 012/158] fix: readSDDS did not terminate on a file that ends
 inside of the header

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..ade6466 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line:
+            raise EOFError("File ended inside of the header")
     return line
 
 
-- 
2.43.0


From 7b274fc4df13f886ae682b745ff83e4f8e285aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 013/158] fix: readSDDS silently returned a partial last page
 of a truncated file

---
 rsbeams/rsdata/SDDS.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6d0fb7e..7431f07 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -432,10 +432,15 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
                 if self.buffer:
                     position += np.dtype(dk).itemsize
+            self._check_complete(new_array, 1)
             data_arrays[-1].append(new_array)
 
         return data_arrays, position
 
+    def _check_complete(self, new_array, count):
+        if np.size(new_array) < count:
+            raise EOFError("File ended inside of a page")
+
     def _get_column_data(self, data_keys, position, row_count):
         # TODO: Account for now_row_count possibility
         data_arrays = []
@@ -460,6 +465,7 @@ class readSDDS:
                         new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
                         if self.buffer:
                             position += np.dtype(dk).itemsize
+                    self._check_complete(new_array, 1)
                     data_arrays[-1].append(new_array)
         else:
             # If no variable records all rows can be read at once
@@ -475,6 +481,7 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
                     position += np.dtype(dk).itemsize * row_count
+            self._check_complete(new_array, row_count)
             data_arrays[-1].append(new_array)
 
         return data_arrays, position
-- 
2.43.0


From 8c622a60dfe0b68fb91d68fe40702c13b4d75baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 014/158] fix: writeSDDS could not write binary parameters of
 type short

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 7431f07..416b7b1 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -551,7 +551,7 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
-- 
2.43.0


From d34b656862f250aa4849d7fefdc885b8ce383dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 015/158] fix: writeSDDS dropped the fixed value of a parameter
 if it was zero

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 416b7b1..8396133 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -630,7 +630,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -651,7 +651,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and (value or value == 0):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From 4034b77d21f0fc4c091630b5725a9dfb78599c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 016/158] fix: writeSDDS wrote columns in another type than the
 one declared in the header

---
 rsbeams/rsdata/SDDS.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8396133..27b7aea 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -552,6 +552,8 @@ class writeSDDS:
     sddsIdentifier = headSDDS
 
     key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
+    column_dtype = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string': np.str_}
+    column_format = {'double': '%.18e', 'short': '%d', 'long': '%d', 'string': '%s'}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
@@ -669,6 +671,16 @@ class writeSDDS:
 
         outputFile.write('&data mode={}, &end\n'.format(self.dataMode).encode())
 
+    def _column_array(self):
+        # One record per row, with every column in the type that the header declares for it
+        columns = [np.asarray(column['colData'], dtype=self.column_dtype[column['colType']]) for column in self.columns]
+        column_data = np.empty(len(columns[0]) if columns else 0,
+                               dtype=[('f{}'.format(i), column.dtype) for i, column in enumerate(columns)])
+        for name, column in zip(column_data.dtype.names, columns):
+            column_data[name] = column
+
+        return column_data
+
     def save_sdds(self, fileName, dataMode='ascii'):
         """
         Saves the parameters and columns to file. Parameters and columns are written to the file in the order
@@ -686,16 +698,10 @@ class writeSDDS:
         outputFile = open(fileName, 'wb')
 
         # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
-        else:
-            column_data = np.empty([0])
+        if len(set(len(column['colData']) for column in self.columns)) > 1:
+            print('ERROR: All columns on a page must have same length')
+            return
+        column_data = self._column_array()
 
         # Begin header writeout
         self._write_header(outputFile)
@@ -724,7 +730,8 @@ class writeSDDS:
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
+            if self.columns:
+                np.savetxt(outputFile, column_data, fmt=[self.column_format[column['colType']] for column in self.columns])
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 05f0a1361809d979d8aa31beb7ebf679da606ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 017/158] fix: writeSDDS left out the row count of an ASCII
 page without rows

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 27b7aea..aa8f210 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -724,8 +724,8 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
         # Write Columns
-- 
2.43.0


From c2ac71c8ddf232153084812ce591b7cf307eb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 018/158] fix: writeSDDS destroyed an existing file when it
 rejected columns of different length

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index aa8f210..7973781 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -695,14 +695,14 @@ class writeSDDS:
         """
 
         self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
-
         # Verify Column Data Integrity
         if len(set(len(column['colData']) for column in self.columns)) > 1:
             print('ERROR: All columns on a page must have same length')
             return
         column_data = self._column_array()
 
+        outputFile = open(fileName, 'wb')
+
         # Begin header writeout
         self._write_header(outputFile)
 
-- 
2.43.0


From b4532c6bee6ab5d248878a426262c6aea9deb3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 019/158] fix: writeSDDS wrote columns in another type than the
 one declared in the header, cont.

---
 rsbeams/rsdata/SDDS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 7973781..37e69e3 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -673,7 +673,8 @@ class writeSDDS:
 
     def _column_array(self):
         # One record per row, with every column in the type that the header declares for it
-        columns = [np.asarray(column['colData'], dtype=self.column_dtype[column['colType']]) for column in self.columns]
+        columns = [np.ravel(np.asarray(column['colData'], dtype=self.column_dtype[column['colType']]))
+                   for column in self.columns]
         column_data = np.empty(len(columns[0]) if columns else 0,
                                dtype=[('f{}'.format(i), column.dtype) for i, column in enumerate(columns)])
         for name, column in zip(column_data.dtype.names, columns):
-- 
2.43.0


From 2c077e5d0bab678c7d6937fb04ddbe80181d58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 020/158] fix: writeSDDS silently lost column data of binary
 files when the disk is full

---
 rsbeams/rsdata/SDDS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 37e69e3..1124a9d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -734,7 +734,8 @@ class writeSDDS:
             if self.columns:
                 np.savetxt(outputFile, column_data, fmt=[self.column_format[column['colType']] for column in self.columns])
         elif self.dataMode == 'binary':
-            column_data.tofile(outputFile)
+            # not tofile: it does not report when the data could not be written completely
+            outputFile.write(column_data.tobytes())
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
         else:
             print("NOT A DEFINED DATA TYPE")
-- 
2.43.0


From e89df36f9906fd084b79132336ab495cae856072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 021/158] fix: writeSDDS could not write strings in binary mode

---
 rsbeams/rsdata/SDDS.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 1124a9d..49fd560 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -682,6 +682,13 @@ class writeSDDS:
 
         return column_data
 
+    def _pack(self, value, data_type):
+        if data_type == 'string':
+            value = str(value).encode()
+            return pack('=i', len(value)) + value
+
+        return pack('={}'.format(self.key_indentity[data_type]), value.item() if hasattr(value, 'item') else value)
+
     def save_sdds(self, fileName, dataMode='ascii'):
         """
         Saves the parameters and columns to file. Parameters and columns are written to the file in the order
@@ -719,8 +726,7 @@ class writeSDDS:
                 if self.dataMode == 'ascii':
                         outputFile.write('{}\n'.format(parameter['parData']).encode())
                 if self.dataMode == 'binary':
-                        outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
-                                              parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
+                        outputFile.write(self._pack(parameter['parData'], parameter['parType']))
 
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
@@ -734,8 +740,13 @@ class writeSDDS:
             if self.columns:
                 np.savetxt(outputFile, column_data, fmt=[self.column_format[column['colType']] for column in self.columns])
         elif self.dataMode == 'binary':
-            # not tofile: it does not report when the data could not be written completely
-            outputFile.write(column_data.tobytes())
+            if 'string' in [column['colType'] for column in self.columns]:
+                for row in column_data:
+                    for value, column in zip(row, self.columns):
+                        outputFile.write(self._pack(value, column['colType']))
+            else:
+                # not tofile: it does not report when the data could not be written completely
+                outputFile.write(column_data.tobytes())
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
         else:
             print("NOT A DEFINED DATA TYPE")
-- 
2.43.0


From a711620e0933bb4f2801a0d887cf6aa2f581c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 022/158] fix: writeSDDS declared a parameter without writing
 its data when given no value

---
 rsbeams/rsdata/SDDS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 49fd560..7867e2d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -638,6 +638,8 @@ class writeSDDS:
                 pass
             elif type(parFixedVal) == str:
                 parFixedVal = '"{}"'.format(parFixedVal)
+        else:
+            assert parData is not None, "A parameter requires parData or a fixed value"
 
         parameter_data = {'parName': parName, 'parData': parData, 'parType': parType, 'parUnits': parUnits,
                           'parSymbol': parSymbol, 'parFormatStr': parFormatStr, 'parDescription': parDescription,
-- 
2.43.0


From f30cf29db8e2292ee97bef7a8e07ab98b99d2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 023/158] fix: writeSDDS left an unreadable file behind when
 given an unknown data mode

---
 rsbeams/rsdata/SDDS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 7867e2d..307dad7 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -704,6 +704,9 @@ class writeSDDS:
             Write mode for the file. Data will either be written to the file in ascii or binary mode.
         """
 
+        if dataMode not in ['ascii', 'binary']:
+            raise ValueError("dataMode must be 'ascii' or 'binary', not '{}'".format(dataMode))
+
         self.dataMode = dataMode
         # Verify Column Data Integrity
         if len(set(len(column['colData']) for column in self.columns)) > 1:
-- 
2.43.0


From 4fb4360348df8fb5b6ec9c922acac5fc8959eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 024/158] fix: namelist fields that are separated by a comma
 without a space were read as one field

---
 rsbeams/rsdata/datatypes.py | 2 +-
 rsbeams/rsdata/utils.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index ff71588..eaec01f 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -22,7 +22,7 @@ class Datum:
             for entry in namelist:
                 if name in entry[: len(name)]:
                     start = entry.find("=")
-                    self.fields[name] = entry[start + 1 :].rstrip(",")
+                    self.fields[name] = entry[start + 1 :]
 
     def set_data_type(self):
         data_type = self.fields["type"]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index ade6466..af491c2 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -32,6 +32,7 @@ def _shlex_split(line):
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
+    lex.whitespace += ','
     lex.whitespace_split = True
     lex.commenters = ''
 
-- 
2.43.0


From 7d10e9a41f857a8d12a95a3b3793a6f12efac725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 025/158] fix: buffered readSDDS took blank lines at the end of
 an ASCII file for another page

---
 rsbeams/rsdata/SDDS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 307dad7..8bf0f96 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -284,6 +284,8 @@ class readSDDS:
 
     def _check_file_end(self, position):
         if self.buffer:
+            if self._data_mode == 'ascii':
+                return not any(line.strip() for line in self.openf[position:])
             if len(self.openf) <= position:
                 return True
         else:
-- 
2.43.0


From fdafd5ccebf4187511dccfa0abfcb92d313b14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 026/158] fix: read_elegant failed on a file with a single
 particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..b5e7347 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = np.atleast_1d(read_particle_data.columns.squeeze())
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From fea679ad313e75da71e857cc01f595bb7296ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 027/158] fix: read_opal returned the last step when asked for
 step 0

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index b5e7347..0b13773 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
-- 
2.43.0


From d571f7a767eaaa15ab667f0205d17459edeef4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 028/158] fix: read_opal failed on monitor files with zero
 total charge

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 0b13773..7e12496 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From fe5f8c1f69d89fc56b47841a00058f0f22381b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 029/158] fix: Switchyard.write without a species name did not
 write the first registered species

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 7e12496..7f9328a 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -289,7 +289,7 @@ class Switchyard:
         """.format(sn=_DEFAULT_SPECIES_NAME)
 
         if not species_name:
-            species_name = _DEFAULT_SPECIES_NAME
+            species_name = next(iter(self.species), _DEFAULT_SPECIES_NAME)
 
         self._writers[code](filename, species_name, **kwargs)
 
-- 
2.43.0


From 39e1074c115687b84e04ea320944ee1f4c07d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 030/158] fix: write_elegant wrote an unreadable file for a
 species without total charge

---
 rsbeams/rsdata/switchyard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 7f9328a..b452d7f 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -196,7 +196,8 @@ class Switchyard:
         p = self.species[species_name].pt
         
         file_out = writeSDDS()
-        file_out.create_parameter('Charge', self.species[species_name].total_charge, 'double', parUnits='C')
+        if self.species[species_name].total_charge is not None:
+            file_out.create_parameter('Charge', self.species[species_name].total_charge, 'double', parUnits='C')
         file_out.create_column('x', x, 'double', colUnits='m')
         file_out.create_column('xp', xp, 'double', colUnits='')
         file_out.create_column('y', y, 'double', colUnits='m')
-- 
2.43.0


From f606218a5eeadc8f5064fbf76b018bab650b31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 031/158] fix: save_beamline and load_beamline use functions
 that ruamel.yaml does not have any more

---
 rsbeams/rslattice/Beamline.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..54c5835 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -127,18 +127,14 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            yaml.YAML(typ="safe").dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = yaml.YAML(typ="safe").load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
-- 
2.43.0


From 560c6e8a45b6da1b6009c097ca966f36562a520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 032/158] fix: load_beamline mixed up the elements of different
 sublines

---
 rsbeams/rslattice/Beamline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 54c5835..0357fdb 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -149,8 +149,8 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    beamline.add_beamline(name=f"line{len(beamline.lines)}")
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From 863fb9bb1d930c9ec6e0af03c4d71ff3481ebb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 033/158] fix: generate_matrix ignored the element parameters

---
 rsbeams/rslattice/Beamline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 0357fdb..948bd1d 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -237,6 +237,7 @@ class StructuredBeamline(object):
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
+                key = key.upper()  # the symbols of the matrices are upper case
                 if type(val) == str:
                     variables[val] = symbols(val)
                     elements[-1] = elements[-1].subs(key, val)
-- 
2.43.0


From 9f6d34e2467d78cd858ff3576a6149cac1682f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 034/158] fix: generate_matrix failed on beamlines with
 sublines

---
 rsbeams/rslattice/Beamline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 948bd1d..f5c573c 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -232,7 +232,7 @@ class StructuredBeamline(object):
     def generate_matrix(self, concatenate=True):
         elements = []
         variables = {}
-        for ele in self.sequence:
+        for ele in self.get_beamline_elements():
             elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
-- 
2.43.0


From cb9a1a6052612c619f79ad0a640bf4b1d090127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 035/158] fix: looking up element parameters with get or in was
 case sensitive

---
 rsbeams/rslattice/Element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..8778db0 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,12 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __contains__(self, key):
+        return type(key) == str and dict.__contains__(self, key.lower())
+
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
 
 class Element(object):
     """
-- 
2.43.0


From e3e8be67ccbf695a7a298262171c4372b3e0892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 036/158] fix: BeamlineParser failed on files that end with a
 comment line

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..c04a1a7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -283,6 +283,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From d3f8cd1829c1a22a1d0916ca8e87af3f5aa3e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 037/158] fix: BeamlineParser cut off the last letter of the
 type of elements without parameters

---
 rsbeams/rslattice/lte_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c04a1a7..3058291 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -239,6 +239,8 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
-- 
2.43.0


From 894546fd3f192a1f5e110a100ccdc14a3915ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 038/158] fix: BeamlineParser kept the end of the line in
 string parameters

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 3058291..cc96817 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -261,7 +261,7 @@ class BeamlineParser(object):
                 except ValueError:
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
+                    element_parameters[key] = beamline_string[0].strip()
 
             beamline_string = beamline_string[2]
 
-- 
2.43.0


From 15daa5bd7bf6d1d8268e11d2e253e205db970ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 039/158] fix: BeamlineParser.set_beamline did not find names
 with upper case letters

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index cc96817..ff49b64 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,7 +72,7 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
 
     def find_beamlines(self):
         """
-- 
2.43.0


From 8218372ad26f43eb28ce37a46fcdb52fe9021345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 040/158] fix: BeamlineParser did not recognize repeated
 elements after a blank

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ff49b64..fcacb24 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -125,6 +125,7 @@ class BeamlineParser(object):
         """
 
         while beamline_string.strip():
+            beamline_string = beamline_string.lstrip()
             # Check for leading coefficient on element
             while beamline_string[0] in digits:
                 coefficient += beamline_string[0]
-- 
2.43.0


From 226d7228de17b7b7f9aa73d6ec67e2aecd3af031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 041/158] fix: BeamlineParser doubled the elements of sublines
 that are used more than once

---
 rsbeams/rslattice/lte_parser.py | 45 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index fcacb24..50972eb 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -104,8 +104,8 @@ class BeamlineParser(object):
 
         beamline_string = self.beamline_string[1:]  # Consume opening '('
         coefficient = ''
-        lines_list = []  # Holds beamline definitions if recursion is necessary
-        flag_subline = False  # Set if recursion begins
+        lines_list = []  # Holds beamlines and what remains of their definitions if recursion is necessary
+        beamline = self.beamline  # Receives the elements
 
         """
         Order of operations for parsing:
@@ -150,14 +150,20 @@ class BeamlineParser(object):
                 elif beamline_string.find(')') > -1:
                     beamline_string = beamline_string[
                                       beamline_string.find(')') + 1:]  # Consume element name and ')'
-                if beamline_string.strip():
-                    lines_list.append(beamline_string)
+                is_repeated = element_name in beamline.lines
+                beamline.add_beamline(name=element_name)
+
+                if is_repeated:
+                    # Line already has its elements
+                    beamline_string, beamline = self._next_line(beamline_string, beamline, lines_list)
+                    continue
 
                 # Set beamline_string to be new beamline
+                lines_list.append((beamline_string, beamline))
                 beamline_string = self.lines[element_name]
                 beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
-                flag_subline = True
+                beamline = beamline.lines[element_name]
+                beamline.elements = self.beamline.elements
                 continue
 
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
@@ -179,19 +185,26 @@ class BeamlineParser(object):
                 print("\n\nElement Definition for {} not found".format(repr(element_name)))
                 raise
 
-            self.beamline.add_element(element_name, element_type, element_parameters, subline=flag_subline)
+            beamline.add_element(element_name, element_type, element_parameters)
             beamline_string = beamline_string[next_element_end + 1:]  # Consume element name
 
-            # Catch dangling bracket
-            if beamline_string.rstrip() == ')':
-                beamline_string = ''
+            beamline_string, beamline = self._next_line(beamline_string, beamline, lines_list)
+
+    def _next_line(self, beamline_string, beamline, lines_list):
+        """
+        Move up in the recursion from lines that are finished to one that is not.
+        :param beamline_string:
+        :param beamline:
+        :param lines_list:
+        :return:
+        """
+        while beamline_string.strip() in ['', ')'] and lines_list:
+            beamline_string, beamline = lines_list.pop()
+        # Catch dangling bracket
+        if beamline_string.strip() == ')':
+            beamline_string = ''
 
-            # Move up 1 level in recursion
-            if not beamline_string.strip():
-                if len(lines_list) != 0:
-                    beamline_string = lines_list[-1]
-                    lines_list.pop()
-                    flag_subline = False
+        return beamline_string, beamline
 
     def _expand_line(self, beamline_string, coefficient):
         """
-- 
2.43.0


From 159b5e2e3934e09e8a4cad0dc4ef8488c2573816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 042/158] fix: BeamlineParser did not recognize quoted names of
 sublines

---
 rsbeams/rslattice/lte_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 50972eb..56bda81 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -141,6 +141,10 @@ class BeamlineParser(object):
                 next_element_end = beamline_string.find(')')
 
             element_name = beamline_string[:next_element_end].strip()
+            # Strip out quotations in case someone wasn't consistent about using them around the element name...
+            element_name = element_name.replace('\'', '')
+            element_name = element_name.replace('"', '')
+
             # If element is a line definition then start recursion process
             if element_name in self.lines:
                 print("Starting on line:", element_name)
@@ -166,10 +170,6 @@ class BeamlineParser(object):
                 beamline.elements = self.beamline.elements
                 continue
 
-            # Strip out quotations in case someone wasn't consistent about using them around the element name...
-            element_name = element_name.replace('\'', '')
-            element_name = element_name.replace('"', '')
-
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-- 
2.43.0


From 7c91da41b971e1bbac972d1da756af1334708afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 043/158] fix: BeamlineParser misread nested repetitions and a
 blank after a repeated group

---
 rsbeams/rslattice/lte_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 56bda81..6c86df2 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -220,12 +220,16 @@ class BeamlineParser(object):
         # Case 1: Starts with (
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
-            subline_end = beamline_string.find(')')
+            depth = 1
+            for subline_end, character in enumerate(beamline_string):
+                depth += {'(': 1, ')': -1}.get(character, 0)
+                if not depth:
+                    break
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
                 subline += ','
-            beamline_string = subline + beamline_string[subline_end + 2:]
+            beamline_string = subline + beamline_string[subline_end + 1:].lstrip()[1:]
             # TODO: This may overwrite ) if the final element, but I may not care for the purpose of the parser
         # Case 2: Not enclosed by ()
         else:
-- 
2.43.0


From e0398b5aea1d4f04b7efc9eb477c78bfb15ce998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 044/158] fix: BeamlineParser replaced RPN variables inside of
 other names and could not use them in other variables

---
 rsbeams/rslattice/lte_parser.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 6c86df2..5de738e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -54,7 +54,6 @@ class BeamlineParser(object):
             print("File could not be read")
 
         self._sanitize_lattice_definition()
-        self._replace_stored_variables()
 
     def __call__(self):
         """
@@ -271,11 +270,11 @@ class BeamlineParser(object):
             key = beamline_string[0].strip()
 
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2])
+                element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
             except ValueError:
                 beamline_string = beamline_string[2].partition(',')
                 try:
-                    element_parameters[key] = parse_rpn(beamline_string[0])
+                    element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
                 except ValueError:
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
@@ -323,20 +322,10 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
-            if self.lattice_definition[linenumber].lstrip()[0] == '%':
-                variable = self.lattice_definition[linenumber].split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
-
-    def _replace_stored_variables(self):
-        """
-        Replace any variables stored in rpn_variable with their calculated value.
-        """
-
-        for linenumber in range(len(self.lattice_definition)):
-            for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+        for line in self.lattice_definition:
+            if line.lstrip()[0] == '%':
+                variable = line.split()
+                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]), self.rpn_variables)
 
     def _read_name(self, line):
         end = line.find(':')
@@ -347,7 +336,7 @@ class BeamlineParser(object):
         return line[0:end].strip('"')
 
 
-def parse_rpn(expression):
+def parse_rpn(expression, variables={}):
     # TODO: Common expression: atan, pi, sqr,
     # See http://www.aps.anl.gov/Accelerator_Systems_Division/Accelerator_Operations_Physics/manuals/SDDStoolkit-6/node99.html
     # For additional capabilities that may need to be added
@@ -363,8 +352,9 @@ def parse_rpn(expression):
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-        val = val.replace('pi', str(np.pi))
         val = val.strip()
+        val = str(variables.get(val, val))
+        val = val.replace('pi', str(np.pi))
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
-- 
2.43.0


From aaae076627b33573df2a03c1d13a8439fe72c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 045/158] fix: parse_json doubled repeated sublines and did not
 reverse the sublines of a reversed line

---
 .../rslattice/templates/lattice_importer.py   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..1a23ab4 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -74,20 +74,16 @@ def parse_json(sirepo_json, beamline):
     def generate_beamline(items, beamline, definition):
         for item in items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
-                    generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
+                line = beamline_definitions[abs(item)]
+                name, items = line["name"], line["items"]
+                if item < 0:
+                    # reversed: sublines are reversed, too
+                    name = "-" + name
+                    items = [-i if abs(i) in beamline_definitions else i for i in items[::-1]]
+                is_repeated = name in beamline.lines
+                beamline.add_beamline(name)
+                if not is_repeated:
+                    generate_beamline(items, beamline.lines[name], definition)
             else:
                 element = element_defitions[item]
                 element_minus_special = {
-- 
2.43.0


From d7941377576e213468d6d235983a278aaa85d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 046/158] fix: save_beamline failed on parameters that are
 numpy numbers, as parsed from lte files

---
 rsbeams/rslattice/Beamline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index f5c573c..d6a72b9 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -11,6 +11,7 @@ from sympy import symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
+import numpy as np
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
 #    This may break the current self._top?
@@ -118,8 +119,13 @@ class StructuredBeamline(object):
             the_beamline = []
             for ele in line.sequence:
                 if isinstance(ele, Element):
+                    # YAML does not know the number types of numpy
+                    parameters = {
+                        k: v.item() if isinstance(v, np.generic) else v
+                        for k, v in ele.parameters.items()
+                    }
                     the_beamline.append(
-                        {"name": ele.name, **ele.parameters, "type": ele.type}
+                        {"name": ele.name, **parameters, "type": ele.type}
                     )
                 else:
                     the_beamline.append(return_elements(ele))
-- 
2.43.0


From 9eb556c1e99e7d295b333eafc6362d8d3a23595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 047/158] fix: generate_matrix took parameters that are not in
 the matrices for symbols

---
 rsbeams/rslattice/Beamline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index d6a72b9..6d0322a 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -244,6 +244,8 @@ class StructuredBeamline(object):
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
                 key = key.upper()  # the symbols of the matrices are upper case
+                if key not in ("K1", "L"):
+                    continue
                 if type(val) == str:
                     variables[val] = symbols(val)
                     elements[-1] = elements[-1].subs(key, val)
-- 
2.43.0


From 4588c3ec8b660536a2784aab8ec1728a7d1bf5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 048/158] fix: generate_matrix returned nan for a quadrupole
 that is switched off

---
 rsbeams/rslattice/Beamline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 6d0322a..125b98b 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -239,7 +239,10 @@ class StructuredBeamline(object):
         elements = []
         variables = {}
         for ele in self.get_beamline_elements():
-            elements.append(self.matrices[ele.type])
+            if ele.type == "quadrupole" and ele.parameters.get("K1") == 0:
+                elements.append(self.matrices["drift"])
+            else:
+                elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
-- 
2.43.0


From 2e545de99b2c094035a5a87f991a3340e6f88237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 049/158] fix: the function from generate_matrix returned nan
 for real quadrupole strengths

---
 rsbeams/rslattice/Beamline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 125b98b..b891670 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -262,7 +262,12 @@ class StructuredBeamline(object):
             elements = matrix
 
         if len(variables) > 0:
-            eval_matrix = lambdify([val for val in variables.values()], elements)
+            # one of the planes has the square root of a negative number
+            eval_matrix = lambdify(
+                [val for val in variables.values()],
+                elements,
+                modules=[{"sqrt": np.emath.sqrt}, "numpy"],
+            )
             return eval_matrix, elements
         else:
             return elements
-- 
2.43.0


From 977a53614cda164ff7a044f3137ac41cf373a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 050/158] fix: BeamlineParser returned the first beamline twice
 when it was called for another one

---
 rsbeams/rslattice/lte_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 5de738e..098a430 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,6 +72,7 @@ class BeamlineParser(object):
         :return:
         """
         self.beamline_name = beamline_name.lower()
+        self.beamline = StructuredBeamline(beamline_name)
 
     def find_beamlines(self):
         """
@@ -101,6 +102,9 @@ class BeamlineParser(object):
         """
         assert self.beamline_name in self.lines, "The requested beamline is not found"
 
+        self.beamline_string = self.lines[self.beamline_name]
+        self.beamline = StructuredBeamline(self.beamline.name)
+
         beamline_string = self.beamline_string[1:]  # Consume opening '('
         coefficient = ''
         lines_list = []  # Holds beamlines and what remains of their definitions if recursion is necessary
-- 
2.43.0


From 718473fbd94d5bcb4e86b3761a89cd292ba67211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 051/158] fix: BeamlineParser did not find lines with blanks
 around the equals sign

---
 rsbeams/rslattice/lte_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 098a430..5b2827d 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,6 +8,7 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
 digits = '0123456789'
 
@@ -83,6 +84,9 @@ class BeamlineParser(object):
             return "Set Beamline"
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
+            # Blanks are allowed around the equals sign
+            self.lattice_definition[linenumber] = re.sub(
+                r':\s*line\s*=\s*\(', ':line=(', self.lattice_definition[linenumber])
             if self.lattice_definition[linenumber].find('line=(') > -1:
                 def_start = self.lattice_definition[linenumber].find('=') + 1
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
-- 
2.43.0


From dd09bb96d46458e2e1c5631dd974babe893362bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 052/158] fix: BeamlineParser did not expand a repetition at
 the start of a repeated group

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 5b2827d..57bf747 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -142,6 +142,7 @@ class BeamlineParser(object):
             if coefficient:
                 beamline_string = self._expand_line(beamline_string, int(coefficient))
                 coefficient = ''
+                continue
             if beamline_string.find(',') > -1:
                 next_element_end = beamline_string.find(',')
             elif beamline_string.find(')') > -1:
-- 
2.43.0


From e1245bd14147bd22175543f734360f60997f432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 053/158] fix: BeamlineParser did not find lines with blanks or
 single quotes around the name

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 57bf747..4a08e70 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -342,7 +342,7 @@ class BeamlineParser(object):
         if end < 0:
             return -1
 
-        return line[0:end].strip('"')
+        return line[0:end].strip().strip('"\'')
 
 
 def parse_rpn(expression, variables={}):
-- 
2.43.0


From 932a00ac0520adfdc29c8325e7f5af5d2458d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 054/158] fix: length and edge failed on beamlines from
 parse_json because their numbers were strings

---
 rsbeams/rslattice/templates/lattice_importer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index 1a23ab4..2461d70 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -45,6 +45,16 @@ def _replace_rpn_variables(parameter_dict, config):
             parameter_dict[key] = config["models"]["rpnCache"][val]
 
 
+def _convert_numbers(parameter_dict):
+    # Sirepo stores most numbers as strings
+    for key, val in parameter_dict.items():
+        if isinstance(val, str):
+            try:
+                parameter_dict[key] = float(val)
+            except ValueError:
+                pass
+
+
 def parse_json(sirepo_json, beamline):
     """
     Load beamline definition from a JSON file generated by Sirepo.
@@ -90,6 +100,7 @@ def parse_json(sirepo_json, beamline):
                     k: v for k, v in element.items() if k != "name" and k != "type"
                 }
                 _replace_rpn_variables(element_minus_special, definition)
+                _convert_numbers(element_minus_special)
                 beamline.add_element(
                     element["name"], element["type"], element_minus_special
                 )
-- 
2.43.0


From 832189f0b0d5df7dacafe63b6f75957db1be50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 055/158] fix: elegant_to_warp used the momentum for the energy

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..5740661 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From cfb8d3c936a059ad5500718ac603f1f62e13d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 056/158] fix: elegant_to_warp multiplied sextupole strengths
 with the square of the rigidity

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5740661..64d5944 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -18,7 +18,7 @@ def _get_gradient(k1, energy, mass, n=1):
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
-- 
2.43.0


From c172821652afca21438e0dc87dcad74f03e0dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 057/158] fix: elegant_to_warp failed on beamlines with some of
 the supported bend and sextupole types

---
 rsbeams/pkcli/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 64d5944..5d6f063 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -26,9 +26,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'rben', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'sext' or ele.type == 'ksext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
 
 # Public Functions
-- 
2.43.0


From 63aa9e5b6dc761aba39a3c12a3a5a2505dc8691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 058/158] fix: WarpWriter left out the elements of the second
 file it writes

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..c568269 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -56,6 +56,7 @@ class WarpWriter:
 
     def write_file(self, filename):
         contents = "import warp as wp\n"
+        self.element_names = []
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
         
-- 
2.43.0


From 0fede807e68ae04d7d91e13a92a7ae297b0d0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 059/158] fix: assigning the aperture parameter of a
 NonlinearInsert raised NameError

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From b483ac19465e30d932cb45bc98f2652f638017da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 060/158] fix: TraceWin and Trace3D parsers failed on files
 that end with a comment line

---
 rsbeams/rslattice/trace3d_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 77b12af99b439af633106fb8b13c81f15e9309e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 061/158] fix: TraceWin and Trace3D parsers lost the sign of
 integers and the exponent of numbers

---
 rsbeams/rslattice/trace3d_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..92d1d04 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -3,6 +3,9 @@ import numpy as np
 from scipy.constants import c
 from re import findall
 
+# A number that is not part of a name
+NUMBER = r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])"
+
 # lengths: mm
 # quad strength: T/m
 # bend angles: deg
@@ -151,7 +154,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(NUMBER, line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -332,7 +335,7 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = findall(NUMBER, line)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 0c96dce9b00d1e6f82e82de1e4a01cf165eebbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 062/158] fix: the TraceWin parser did not find the frequency
 of the cavities

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 92d1d04..2a58e05 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -269,7 +269,7 @@ class TraceWin(Trace3d):
         # cavities
         'LQ1': 1e-3,
         'LQ2': 1e-3,
-        'frequency': 1e6
+        'FREQUENCY': 1e6
     }
 
     def handle_dtl_cell(self, name, element, beamline):
@@ -305,7 +305,7 @@ class TraceWin(Trace3d):
                               'frequency': cavity_FREQ})
 
     def handle_freq(self, name, element, beamline):
-        self.global_parameters['frequency'] = element['frequency']
+        self.global_parameters['frequency'] = element['FREQUENCY']
 
     def handle_field_map(self, name, element, beamline):
         # Very crude implementation of this element. We will assume just 1D RF field for now.
-- 
2.43.0


From 649b62e261a16f5da764150cafa5fa169faeca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 063/158] fix: the Trace3D parser raised AttributeError on
 every element

---
 rsbeams/rslattice/trace3d_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 2a58e05..03b8e23 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -124,6 +124,8 @@ class Trace3d(BeamlineParser):
 
     }
 
+    handlers = {}
+
     def __init__(self, filename, beamline_name):
         super(Trace3d, self).__init__(filename, beamline_name)
         self.comment_character = ';'
-- 
2.43.0


From da165d1a66c61fd7030745fffda81cac9ad57b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 064/158] fix: the Trace3D parser left out the last element

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 03b8e23..e54aca9 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -190,7 +190,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From 7101c9b40ec5695280ff8c36b941085a612aa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 065/158] fix: handle_cavities gave all cavities the phase of
 the last one

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index e54aca9..2e0d056 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -235,8 +235,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From 4b1b570f4a993c92c985d1b89721371824abcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 066/158] fix: Converter reported input and mass in the wrong
 units for SI input or output

---
 rsbeams/rsstats/kinematic.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..7b2e323 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -84,8 +84,9 @@ class Converter:
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
         # Convert to eV for internal use
+        self.inputs = self.args.copy()
         if self.args['input_unit'] == 'SI':
-            self._unit_convert(input_unit='SI', input_dict=self.args)
+            self._unit_convert(input_unit='SI', input_dict=self.inputs)
 
         # Method to call based on the kinematic quantity the user inputs
         self.startup = {"momentum": self.start_momentum,
@@ -116,19 +117,17 @@ class Converter:
                         "input_unit": None,
                         "input_type": None}
 
-        # Match mass unit to input units. Print mass in units the user used for input though.
+        # Mass is always in eV internally. Print mass in units the user used for input though.
         if self.args['mass_unit'] == "eV":
             if self.args['mass']:
-                self.mass = self.args['mass'] * (
-                            1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
+                self.mass = self.args['mass']
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
         elif self.args['mass_unit'] == "SI":
             if self.args['mass'] is not None:
-                self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
-                            self.args['input_unit'] == 'eV'))
+                self.mass = self.args['mass'] * ev_per_kg
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
@@ -139,9 +138,9 @@ class Converter:
         silent (bool): If True then suppress printout and just return values in dict.
         """
         # Set beta and gamma based on the input value
-        for key, value in self.args.items():
+        for key, value in self.inputs.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
+                self.outputs["input"] = self.args[key]
                 self.outputs["input_type"] = key
                 self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
 
@@ -293,8 +292,7 @@ class Converter:
         conversion_factors = {
             'momentum': 1 / e * c,
             'energy': 1 / e,
-            'kenergy': 1 / e,
-            'mass': 1 / e * c**2
+            'kenergy': 1 / e
         }
         for key in conversion_factors:
             # print(key, input_dict[key], (conversion_factors[key]), 2 * (input == 'SI') - 1)
-- 
2.43.0


From bd33e389444a66c7507d63ba843fc13476cb797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 067/158] fix: calling a Converter again with SI output
 converted its results a second time

---
 rsbeams/rsstats/kinematic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 7b2e323..74e993e 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -159,9 +159,9 @@ class Converter:
         self.outputs["input_unit"] = input_unit
 
         # Set all derived kinematic quantities
+        outputs = {}
         for key, value in self.outputs.items():
-            if callable(value):
-                self.outputs[key] = value(**self.outputs)
+            outputs[key] = value(**self.outputs) if callable(value) else value
 
         print_string = """
         Based on an input {input_type} of {input} {input_unit}
@@ -177,12 +177,12 @@ class Converter:
         Brho: {brho} T*m
         """
         if self.args['output_unit'] == 'SI':
-            self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            self._unit_convert(input_unit='eV', input_dict=outputs)
 
         if not silent:
-            print(print_string.format(**self.outputs))
+            print(print_string.format(**outputs))
 
-        return self.outputs
+        return outputs
 
     # All start methods used to convert input kinematic quantity to beta and gamma
     @staticmethod
-- 
2.43.0


From be42dadc0ae8e100994950dca6fd6e2e3740efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 068/158] fix: Converter lost all precision of gamma and energy
 for large momenta

---
 rsbeams/rsstats/kinematic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 74e993e..8798cd6 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -236,16 +236,13 @@ class Converter:
         Returns:
             (beta, gamma)
         """
-        beta = betagamma / np.sqrt(1 + betagamma**2)
+        gamma = np.sqrt(1 + betagamma**2)
 
-        return beta, 1. / np.sqrt(1 - beta**2)
+        return betagamma / gamma, gamma
 
     def start_momentum(self, momentum):
-        normalized_momentum = momentum / self.mass
-        beta = normalized_momentum / np.sqrt(1 + normalized_momentum**2)
-        gamma = 1 / np.sqrt(1 - beta**2)
 
-        return beta, gamma
+        return self.start_betagamma(momentum / self.mass)
 
     def start_energy(self, energy):
 
-- 
2.43.0


From ecc2040fcd782a70e85efd01ddde16fad405e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 069/158] fix: Converter lost the precision of slow particles'
 kinetic energy and momentum

---
 rsbeams/rsstats/kinematic.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 8798cd6..bdcb842 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -211,7 +211,7 @@ class Converter:
 
         """
 
-        return np.sqrt(1. - 1 / gamma**2), gamma
+        return np.sqrt((gamma - 1.) * (gamma + 1.)) / gamma, gamma
 
     @staticmethod
     def start_beta(beta):
@@ -246,16 +246,14 @@ class Converter:
 
     def start_energy(self, energy):
 
-        gamma = energy / self.mass
-        beta = np.sqrt(1. - 1 / gamma**2)
-
-        return beta, gamma
+        return self.start_gamma(energy / self.mass)
 
     def start_kenergy(self, kenergy):
 
-        gamma = kenergy / self.mass + 1.
+        normalized_kenergy = kenergy / self.mass
+        gamma = normalized_kenergy + 1.
 
-        return np.sqrt(1. - 1 / gamma**2), gamma
+        return np.sqrt(normalized_kenergy * (normalized_kenergy + 2.)) / gamma, gamma
 
     def start_brho(self, brho):
         beta, gamma = self.start_momentum(brho * c)
@@ -271,9 +269,9 @@ class Converter:
 
         return gamma * self.mass
 
-    def calculate_kenergy(self, gamma, **kwargs):
+    def calculate_kenergy(self, beta, gamma, **kwargs):
 
-        return self.mass * (gamma - 1)
+        return self.mass * (beta * gamma)**2 / (gamma + 1)
 
     def calcuate_betagamma(self, beta, gamma, **kwargs):
         return beta * gamma
-- 
2.43.0


From 0e08981945c290cf3a440576ab793137b882c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 070/158] fix: calc_variance6d replaced the first particle by
 the average

---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..71fabe3 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].copy()
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From 104f554a0cb5840dea687da2fc74c16fbcde9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 071/158] fix: unsupported distribution type was reported with
 an AttributeError

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..8bca3d3 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -27,7 +27,7 @@ class RsDistrib6D:
         if ( (distrib_type != 'uniform') and
              (distrib_type != 'gaussian') ):
             message = '\n\nERROR --'
-            message += '\n    distrib_type is specified as "' + self.distrib_type + '", which is not supported.'
+            message += '\n    distrib_type is specified as "' + str(distrib_type) + '", which is not supported.'
             message += '\n    Only "uniform" and "gaussian" are allowed.'
             message += '\n'
             raise Exception(message)
-- 
2.43.0


From 7f74d3c0f382bb30217212320fc91c4d9e161315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 072/158] fix: make_twiss_dist_6d had the wrong sign of alpha
 if beta equals gamma

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 8bca3d3..41f68e6 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if alphaII*gMinusB < 0.0 or (gMinusB == 0.0 and alphaII < 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From bedd87735da4603e2810f22acf83ff7edbe732e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 073/158] fix: set_array_6d did not update the number of
 particles

---
 rsbeams/rsptcls/RsPhaseSpace6D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsptcls/RsPhaseSpace6D.py b/rsbeams/rsptcls/RsPhaseSpace6D.py
index ffa92ad..29ed37c 100644
--- a/rsbeams/rsptcls/RsPhaseSpace6D.py
+++ b/rsbeams/rsptcls/RsPhaseSpace6D.py
@@ -86,6 +86,7 @@ class RsPhaseSpace6D:
 
     def set_array_6d(self,array_6d):
         self.array_6d = array_6d
+        self.check_array()
         return
 
     def get_array_x(self):
-- 
2.43.0


From 96f8e19962efc57a811d6c9eb2e3c65e716b5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 074/158] fix: betay of a bunch returned betax

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..ac91a49 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -407,7 +407,7 @@ class NonlinearBunch(StandardBunch):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From 262aacbc9d0ab8527d4726e789bc53e441ddec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 075/158] fix: set_transverse_coordinates stored betay as betax

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index ac91a49..5cf85f0 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
-- 
2.43.0


From 9bad0a7c6a8edb6ecfeb17cbeb986a8567e7fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 076/158] fix: NonlinearBunch used alphax for gammay

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 5cf85f0..29e349d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -401,7 +401,7 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
-- 
2.43.0


From a2d8039674b1f2a031201456e797a7bc85e113ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 077/158] fix: seed of a bunch was ignored

---
 rsbeams/rsptcls/bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 29e349d..e7d2097 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -96,6 +96,8 @@ class StandardBunch(object):
         #define seed
         if seed is not None:
             self.seed = seed
+            random.seed(seed)
+            np.random.seed(random.getrandbits(32))
         else:
             self.seed = random.seed()
 
-- 
2.43.0


From 874a0c64077eb0a3812f0d1a50b41b10e99f268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 078/158] fix: NonlinearBunch did not accept quiet

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index e7d2097..4af436b 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -330,7 +330,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -351,7 +351,7 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed, quiet)
 
         self._t = t
         self._c = c
-- 
2.43.0


From 329cf04c8061a4ce2439433c79e9523e314d88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 079/158] fix: cutoff of a NonlinearBunch could not be changed

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 4af436b..454be6f 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -385,7 +385,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 5db59978341c332fc58b59c83c1c37d2f1142a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 080/158] fix: quiet bunch needed a multiple of 4 particles

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 454be6f..6bb5bdc 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -254,7 +254,7 @@ class StandardBunch(object):
                     self.exact_centroids(ptclCoords, phaseSpaceList)
                     ptclsMade += 3
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList[:self.npart])
 
 
 
@@ -524,7 +524,7 @@ class NonlinearBunch(StandardBunch):
                     self.exact_centroids(ptclCoords, phaseSpaceList)
                     ptclsMade += 3
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList[:self.npart])
 
 
     def distribute_waterbag(self):
@@ -583,7 +583,7 @@ class NonlinearBunch(StandardBunch):
             else:
                 print("Initial value generated exceeds limiting H. Sampling new value.")
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList[:self.npart])
 
 
     def distribute_Gaussian(self):
@@ -656,7 +656,7 @@ class NonlinearBunch(StandardBunch):
         #Completed distribution, so reset emittance
         self.emit = bunch_emittance
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList[:self.npart])
 
 
     def compute_Hamiltonian(self, xHat, pxHat, yHat, pyHat):
-- 
2.43.0


From a7f57d3bbd94c1778b07b9bfc07a982b876df959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 081/158] fix: quiet particles did not have the same
 Hamiltonian if alpha is not zero

---
 rsbeams/rsptcls/bunch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 6bb5bdc..23e70a2 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -296,9 +296,12 @@ class StandardBunch(object):
         translation2 = np.array([-1,-1,-1,-1])
         translation3 = np.array([1,-1,1,-1])
 
-        ptcl1 = ptclCoords * translation1
+        #Mirror the normal momenta, so that all particles have the same Hamiltonian
+        shift = np.array([0, 2.*self.alphax*ptclCoords[0]/self.betax, 0, 2.*self.alphay*ptclCoords[2]/self.betay])
+
+        ptcl1 = ptclCoords * translation1 + shift
         ptcl2 = ptclCoords * translation2
-        ptcl3 = ptclCoords * translation3
+        ptcl3 = ptclCoords * translation3 - shift
 
         phaseSpaceList.append(ptcl1)
         phaseSpaceList.append(ptcl2)
-- 
2.43.0


From f7d5728a08e0fc853099d9bc46d5b8fde61b45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 082/158] fix: set_transverse_coordinates did not apply new
 emittances to nonlinear waterbag and Gaussian bunches

---
 rsbeams/rsptcls/bunch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 23e70a2..5f2f9e9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -179,6 +179,8 @@ class StandardBunch(object):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
+        if emitx is not None or emity is not None:
+            self.emit = self.emitx + self.emity
 
         if self.dist == 'Gaussian':
             self.distribute_Gaussian()
@@ -458,6 +460,8 @@ class NonlinearBunch(StandardBunch):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
+        if emitx is not None or emity is not None:
+            self.emit = self.emitx + self.emity
         if cutoff is not None:
             self.cutoff = cutoff
 
-- 
2.43.0


From 7fb773c173452f1af3d1b12bda775f0d0cf6ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 083/158] fix: cdf_on_grid ignored an argument that is zero

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..e5dfebf 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,9 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
-            args[0]
+            len(args)
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From 6aefbcf3c22e2c00708da70457431f79c866dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 084/158] fix: halton samples were random and had a second
 dimension

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index e5dfebf..1e18e22 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -89,8 +89,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
     if method == 'random':
         y = np.random.random(n)
     elif method == 'halton':
-        sampler = stats.qmc.Halton(d=1, scramble=True)
-        y = sampler.random(n=n)
+        sampler = stats.qmc.Halton(d=1, scramble=False)
+        y = sampler.random(n=n)[:, 0]
     else:
         raise NotImplementedError(f'{method} is not supported for method')
 
-- 
2.43.0


From 8b17821d06631991c0b31fca8b4b85268e2533cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 085/158] fix: interpolated samples could lie outside of the
 sampling range

---
 rsbeams/rsstats/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 1e18e22..ee99f9d 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -100,6 +100,6 @@ def sample(n: int, distribution: callable, a: int, b: int,
     elif invert == 'interpolate':
         icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
         samples = icdf(y)
-        return samples
+        return np.clip(samples, min(a, b), max(a, b))
     else:
         raise NotImplementedError(f'{invert} is not supported for invert')
-- 
2.43.0


From 0e85233343d7e7bf2172da8bee6b7814e5c14d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 086/158] fix: numeric sampling could fail for draws next to 1

---
 rsbeams/rsstats/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index ee99f9d..6c9bf9d 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -96,7 +96,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
 
     if invert == 'numeric':
         samples = np.searchsorted(cdf_vals, y)
-        return x[samples]
+        # cdf_vals may end below 1 due to rounding
+        return x[np.minimum(samples, wn - 1)]
     elif invert == 'interpolate':
         icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
         samples = icdf(y)
-- 
2.43.0


From 088c7568ebe96cd94aa420a76a9f1a67032201ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 087/158] fix: centroids were nan for vanishing or negative
 tune shift coefficients

---
 rsbeams/rsphysics/decoherence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..e7ab9de 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -159,9 +159,9 @@ class CentroidPosition:
         #     for i in range(cpu_count()):
         #         x += range(N)[i::4]
 
-        if len(self.mu) == 1:
+        if len(self.mu) == 1 and self.mu[0] != 0:
             integration_function = self.integrate_first_order
-        elif len(self.mu) == 2:
+        elif len(self.mu) == 2 and self.mu[1] > 0:
             integration_function = self.integrate_second_order
         else:
             integration_function = self.integrate_any_order
-- 
2.43.0


From 51d6e2525aff75983fd4f002130ae3cf2370539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 088/158] fix: rsconst could not be imported

---
 rsbeams/rsphysics/rsconst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsphysics/rsconst.py b/rsbeams/rsphysics/rsconst.py
index c1286d5..c6506aa 100644
--- a/rsbeams/rsphysics/rsconst.py
+++ b/rsbeams/rsphysics/rsconst.py
@@ -10,7 +10,7 @@ import scipy.constants as const
 # DEPRECATED use rsmath.rsconst or scipy
 C_to_STATC = const.c * 10.0
 EV_to_ERG = 1.602e-12
-KG_to_EV = c_SQ / e
+KG_to_EV = const.c**2 / const.e
 MKS_factor = 1.0 / (4.0 * math.pi * const.epsilon_0)
 RT_2 = math.sqrt(2.0)
 RT_2_OVER_PI = math.sqrt(2 / math.pi)
-- 
2.43.0


From d696d46c8af0281bf5712ef80956b2b1292271b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 089/158] fix: format_symbol failed on characters without a
 greek or special symbol, as the bars around the maxima of elegant

---
 rsbeams/rsplot/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..cdb52d9 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -50,7 +50,8 @@ _greek_map = {
     'W': '\\Omega'
 }
 _special_map = {
-    'a': '\pm'
+    'a': '\pm',
+    'b': '|'
 }
 
 
@@ -148,6 +149,7 @@ def process_character(char, mapping):
         return mapping[char]
     except KeyError:
         print(f"Could not find {char}")
+        return char
 
 
 def format_symbol(description, matplotlib=True):
-- 
2.43.0


From a6d9463ebd8c6dfe534b3e66f35062b5a01799bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 090/158] fix: format_symbol joined greek letters with the
 letter that follows

---
 rsbeams/rsplot/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index cdb52d9..8b9b70e 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -1,3 +1,4 @@
+import re
 from matplotlib.patches import Rectangle
 from matplotlib.collections import PatchCollection
 import numpy as np
@@ -168,8 +169,10 @@ def format_symbol(description, matplotlib=True):
             mode_set = True
             continue
         if processing:
-            formatted_descr += process_character(char, processing)
-        else:
-            formatted_descr += char
+            char = process_character(char, processing)
+        if char[0].isalpha() and re.search(r'\\[a-zA-Z]+$', formatted_descr):
+            # end of the preceding command
+            formatted_descr += ' '
+        formatted_descr += char
 
     return formatted_descr + '$' * matplotlib
-- 
2.43.0


From 228f9f02b694f481a64cc7e3d94966bc9186b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 091/158] fix: plot_profile drew lines from unscaled to scaled
 positions

---
 rsbeams/rsplot/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 8b9b70e..682c6c0 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -96,7 +96,7 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
             e1, e2 = s * scale, sdds_columns['s'][i] * scale
-            axes.plot([s, e1], [zp, zp], c=_element_colors[base_type])
+            axes.plot([s * scale, e1], [zp, zp], c=_element_colors[base_type])
             mag = Rectangle((e1, -height / 2.),
                             width=e2 - e1, height=height)
             patch_collection.append(mag)
-- 
2.43.0


From e5529f64cd69a8fee07761a3af4e68aece053ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 092/158] fix: phase space plots failed on files without
 parameters or charge

---
 rsbeams/rsplot/beam_plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index c71e97a..06d22d6 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -103,7 +103,6 @@ def phase_space(sdds, page=0, bins=128, save=None):
     ]
 
     sdds_columns = sdds.columns[page]
-    sdds_parameters = sdds.parameters[page]
 
     data = [
         (sdds_columns["x"] * 1e3, sdds_columns["xp"] * 1e3),
@@ -161,7 +160,6 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     fig, gs, hm, mom, tim = _get_phase_space_figure()
 
     sdds_columns = sdds.columns[page]
-    sdds_parameters = sdds.parameters[page]
 
     time_scale = 1e12
     t = sdds_columns["t"] - np.average(sdds_columns["t"])
@@ -170,12 +168,12 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     normalized_charge = False
     if charge == "auto":
         try:
-            charge = sdds_parameters["Charge"]
+            charge = sdds.parameters[page]["Charge"]
             if charge == 0.0:
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except KeyError:
+        except (KeyError, ValueError, TypeError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From acf3a50a469231f03a084ab3adc89060269fcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 093/158] fix: RsScatterPS6D cut off labels after five
 characters

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..ade7b2b 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0']
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From d5a85b402ab5f52fd5ea68954683b6ee4f8d87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 094/158] fix: two RsScatterPS6D objects plotted into the same
 figures

---
 rsbeams/rsplot/RsScatterPS6D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index ade7b2b..8110c20 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -73,8 +73,7 @@ class RsScatterPS6D:
         else:
             v_min = -v_max
 
-        self.figNum += 1
-        pyplot.figure(self.figNum)
+        self.figNum = pyplot.figure().number
         pyplot.scatter(h_array, v_array, marker=',',s=1, c='k')
         pyplot.axis([h_min, h_max, v_min, v_max])
 
-- 
2.43.0


From 50617352456f4b2714a75464c1342d6176b7d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 095/158] fix: scatter_contour used a way to remove lines that
 matplotlib does not have any more

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..03976c7 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -109,7 +109,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
-- 
2.43.0


From 911c187f7e3324ab9eae60db80a5437f93722092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 096/158] fix: scatter_contour used arguments of logarithmic
 axes that matplotlib does not have any more

---
 rsbeams/rsplot/plot_ptcls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 03976c7..fadf7c8 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -116,10 +116,10 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0


From 4a6a34bd0a0804f757a834ebc542be4c9d792c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 097/158] fix: scatter_contour failed on values on a mesh

---
 rsbeams/rsplot/plot_ptcls.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index fadf7c8..b2adc6a 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -43,13 +43,8 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
             min_y = min(x_data[1])
             max_y = max(x_data[1])
 
-            points = len(y_data)
-            ratio = float(max_x - min_x)/(max_y - min_y)
-            shape_x = math.sqrt(points*ratio)
-            shape_y = math.sqrt(points/ratio)
             x_mesh, y_mesh = numpy.meshgrid(x_data[0], x_data[1])
-            z_mesh = y_data.reshape([shape_x, shape_y])
-            z_mesh = z_mesh[0:len(x_data[0]), 0:len(x_data[1])]
+            z_mesh = numpy.reshape(y_data, x_mesh.shape)
 
             ref = ax.contourf(x_mesh, y_mesh, z_mesh, levels=levels, \
                               extent=[min_x, max_x, min_y, max_y])
-- 
2.43.0


From 1fb5f2e3c3fb2a74c819af8ce335779af534db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 098/158] fix: scatter_contour failed on distributions with few
 particles

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index b2adc6a..8301997 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -60,7 +60,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
             levels = numpy.asarray(levels)
             # if user specified an integer, then populate levels reasonably
             if levels.size == 1:
-                levels = numpy.linspace(threshold, my_hist.max(), levels)
+                levels = numpy.linspace(threshold, max(my_hist.max(), threshold + 1), levels)
 
             # define the 'extent' of the contoured area, using the
             #   the horizontal and vertical arrays generaed by histogram2d()
-- 
2.43.0


From 21dc2775f5fb08ad7214d5c742f1e86028d5cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 099/158] fix: gen_contour_levels returned equal levels for
 small or constant fields

---
 rsbeams/rsplot/plot_ptcls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8301997..79dc97a 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -130,12 +130,12 @@ def gen_contour_levels(field, nLevels=40, multiplier=1.1):
 
     max_e = multiplier * numpy.max(field)
     min_e = multiplier * numpy.min(field)
-    if abs(min_e) < max_e:
-        max_e = numpy.around(max_e, decimals=3)
-        min_e = -max_e
-    else:
-        min_e= numpy.around(min_e, decimals=3)
-        max_e = abs(min_e)
+    limit = max(abs(min_e), abs(max_e))
+    if limit > 0:
+        # at least three digits of small fields
+        limit = numpy.around(limit, decimals=max(3, 3 - math.floor(math.log10(limit))))
+    max_e = limit
+    min_e = -limit
 
     e_levels = []
     delta_e = (max_e-min_e) / nLevels
-- 
2.43.0


From 3aa98126383df3da51378067f8637bca17b47773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:01 +0000
Subject: [PATCH 100/158] fix: plot_profile did not draw the magnets of ASCII
 files

---
 rsbeams/rsplot/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 682c6c0..4359eac 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -92,6 +92,9 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
 
     for i in range(sdds_columns.shape[-1]):
         element_type = sdds_columns['ElementType'][i]
+        if isinstance(element_type, bytes):
+            # strings of ASCII files
+            element_type = element_type.decode()
 
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
-- 
2.43.0


From 43af4286eee4d7bb0975e0ccc19d641b0112ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 101/158] fix: texts with commas or colons and empty texts of
 elegant elements were misread

An empty text or one that looks like an operator raised IndexError, text
after a comma became a parameter and a colon in a text changed the type.
---
 rsbeams/rslattice/lte_parser.py | 45 +++++++++++++--------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 4a08e70..d046dec 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -181,9 +181,7 @@ class BeamlineParser(object):
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-                line = line.replace('"', '')
-                line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                if self._read_name(line) == element_name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -263,33 +261,25 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
-        type_end = beamline_string.find(',')
-        if type_end < 0:
-            type_end = len(beamline_string)
-
-        element_type = beamline_string[type_start + 1:type_end].strip()
-        beamline_string = beamline_string[type_end + 1:]
+        # Separators inside of quotes belong to the text
+        fields = re.findall(r'(?:"[^"]*"?|[^",])+', beamline_string)
+        element_type = fields[0].rpartition(':')[2].replace('"', '').replace('\'', '').strip()
 
         element_parameters = {}
 
         # Iterate through 'keyword' parameters of the element
-        while beamline_string.partition('=')[1]:
-            beamline_string = beamline_string.partition('=')
-            key = beamline_string[0].strip()
+        for field in fields[1:]:
+            key, equals, value = field.replace('"', '').replace('\'', '').partition('=')
+            if not equals:
+                continue
+            key = key.strip()
 
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
-            except ValueError:
-                beamline_string = beamline_string[2].partition(',')
-                try:
-                    element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
-                except ValueError:
-                    # TODO: This allows setting of non-numeric parameters (which do occur),
-                    # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0].strip()
-
-            beamline_string = beamline_string[2]
+                element_parameters[key] = parse_rpn(value, self.rpn_variables)
+            except (ValueError, IndexError):
+                # TODO: This allows setting of non-numeric parameters (which do occur),
+                # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
+                element_parameters[key] = value.strip()
 
         return element_type, element_parameters
 
@@ -337,12 +327,13 @@ class BeamlineParser(object):
                 self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]), self.rpn_variables)
 
     def _read_name(self, line):
-        end = line.find(':')
+        # Colons inside of quotes belong to the name
+        name = re.match(r'\s*("[^"]*"|[^":]*):', line) or re.match(r'([^:]*):', line)
 
-        if end < 0:
+        if not name:
             return -1
 
-        return line[0:end].strip().strip('"\'')
+        return name[1].replace('"', '').replace('\'', '').strip()
 
 
 def parse_rpn(expression, variables={}):
-- 
2.43.0


From a3bfaf34a77e35e48df064cdb76ca21d276bc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 102/158] fix: pages of readSDDS.read given as a set or a
 generator were refused or misread

---
 rsbeams/rsdata/SDDS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8bf0f96..4b5730d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -344,7 +344,8 @@ class readSDDS:
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
         if pages is not None:
-            user_pages = pages
+            # kept in a list: it is looked at several times
+            user_pages = list(pages)
         else:
             user_pages = utils.iter_always()
         pages = utils.iter_always()
-- 
2.43.0


From 2d025391d49d3ea7f4d71b7a48a2520c8c2a1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 103/158] fix: scatter_contour left out particles in holes of
 the dense region

---
 rsbeams/rsplot/plot_ptcls.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 79dc97a..22776e1 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -26,7 +26,7 @@ Subsequent mods are due to RadiaSoft,
 
 import math
 import numpy
-from matplotlib.path import Path
+from scipy.interpolate import RegularGridInterpolator
 
 def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10):
     """Generate the specified plot"""
@@ -69,7 +69,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
             # draw a zero-width line, which defines the outer polygon,
             #   in order to reduce the number of points drawn
-            outline = ax.contour(my_hist.T, levels[i_min:i_min+1],linewidths=0,extent=extent)
+            ax.contour(my_hist.T, levels[i_min:i_min+1],linewidths=0,extent=extent)
 
             # generate the contoured image, filled or not
             #   use my_hist.T, rather than full my_hist, to limit extent of the contoured region
@@ -83,13 +83,10 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
         #   i.e. only those in the low-density regions
         low_density_arr = numpy.hstack([x_data[:, None], y_data[:, None]])
 
-        # extract only those particles outside the high-density region
-        if len(outline.allsegs[0]) > 0:
-            outer_poly = outline.allsegs[0][0]
-            points_inside = Path(outer_poly).contains_points(low_density_arr)
-            x_plot = low_density_arr[~points_inside]
-        else:
-            x_plot = low_density_arr
+        # extract only those particles outside the high-density regions, there may be several of them and they may have holes
+        density = RegularGridInterpolator((numpy.linspace(extent[0], extent[1], my_hist.shape[0]),
+                                           numpy.linspace(extent[2], extent[3], my_hist.shape[1])), my_hist)
+        x_plot = low_density_arr[density(low_density_arr) < levels[i_min]]
 
     if plot_flag.startswith('scatter') or plot_flag.endswith('line'):
         x_plot = numpy.hstack([x_data[:, None], y_data[:, None]])
-- 
2.43.0


From 2c1bfa9be9a35ebe6b093b431d868127263da4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 104/158] fix: parameters of an element were case sensitive in
 update, setdefault, pop and del

---
 rsbeams/rslattice/Element.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 8778db0..0ac1e9b 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -61,9 +61,24 @@ class AgnosticDict(dict):
     def __contains__(self, key):
         return type(key) == str and dict.__contains__(self, key.lower())
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, key.lower() if type(key) == str else key)
+
     def get(self, key, default=None):
         return self[key] if key in self else default
 
+    def pop(self, key, *default):
+        return dict.pop(self, key.lower() if type(key) == str else key, *default)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
 
 class Element(object):
     """
-- 
2.43.0


From 524f3995296d59ce662dfcf25a63fa09ee06c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 105/158] fix: nonlinear bunches ignored assigned emittances
 and used that of an earlier KV distribution

---
 rsbeams/rsptcls/bunch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 5f2f9e9..84717fe 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -179,8 +179,7 @@ class StandardBunch(object):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
-        if emitx is not None or emity is not None:
-            self.emit = self.emitx + self.emity
+        self.emit = self.emitx + self.emity
 
         if self.dist == 'Gaussian':
             self.distribute_Gaussian()
@@ -460,8 +459,7 @@ class NonlinearBunch(StandardBunch):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
-        if emitx is not None or emity is not None:
-            self.emit = self.emitx + self.emity
+        self.emit = self.emitx + self.emity
         if cutoff is not None:
             self.cutoff = cutoff
 
-- 
2.43.0


From 052b56e1f82dc9e5575b06476878c7f513347ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 106/158] fix: Trace3D and TraceWin parsers doubled the
 beamline if they were called again

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 2e0d056..22e2fb5 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -42,6 +42,10 @@ class BeamlineParser(object):
         Runs parser for set beamline and returns StructuredBeamline object
         :return:
         """
+        # Every call starts with an empty beamline
+        self.beamline = StructuredBeamline(self.beamline.name)
+        self.global_parameters = {}
+        self.name_count = 0
         self._sanitize_lattice_definition()
         self.find_beamlines()
         self.parse_set_beamline()
-- 
2.43.0


From b1f586ccb7bc836742a5cc2f23cd10d7cb16e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 107/158] fix: strings with characters outside of ASCII could
 not be read back from SDDS files

---
 rsbeams/rsdata/SDDS.py        |  3 ++-
 rsbeams/rsdata/struct_data.py |  9 +++++++--
 rsbeams/rsdata/utils.py       | 10 +++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4b5730d..15ce4a5 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -746,7 +746,8 @@ class writeSDDS:
         # Write Columns
         if self.dataMode == 'ascii':
             if self.columns:
-                np.savetxt(outputFile, column_data, fmt=[self.column_format[column['colType']] for column in self.columns])
+                np.savetxt(outputFile, column_data, fmt=[self.column_format[column['colType']] for column in self.columns],
+                           encoding='utf-8')
         elif self.dataMode == 'binary':
             if 'string' in [column['colType'] for column in self.columns]:
                 for row in column_data:
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 42eda7c..52c498a 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -1,4 +1,5 @@
 import numpy as np
+from rsbeams.rsdata import utils
 
 
 class StructData:
@@ -56,8 +57,12 @@ class StructData:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
                 names = [n for n in arr.dtype.names if n != 'record_length']
-                if names:
-                    new_array[names] = arr[names]
+                for name in names:
+                    if arr.dtype[name].kind == 'S':
+                        # NumPy itself only converts ASCII
+                        new_array[name] = utils.decode(arr[name].item())
+                    else:
+                        new_array[name] = arr[name]
             return new_array
 
     def _check_type(self, data): #Next: Need to look at adjusting string size each time up to maximum? Probably just don't merge'
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index af491c2..6ab6ffe 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -7,6 +7,14 @@ data_types = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string
               'float': np.float32}
 
 
+def decode(text):
+    # writeSDDS uses UTF-8, text from other programs may be in other encodings
+    try:
+        return str(text, 'utf-8')
+    except UnicodeDecodeError:
+        return str(text, 'latin-1')
+
+
 def _return_type(string):
     target = 'type='
     type_field_position = string.find(target)
@@ -21,7 +29,7 @@ def _return_type(string):
 def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
-        line = str(open_file.readline(), 'latin-1')
+        line = decode(open_file.readline())
         if not line:
             raise EOFError("File ended inside of the header")
     return line
-- 
2.43.0


From 5dd45b58ba147fc02a2d8ffd342e5bc21b277d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 108/158] fix: double quotes and backslashes in header text of
 SDDS files were not escaped

---
 rsbeams/rsdata/SDDS.py  | 7 ++++---
 rsbeams/rsdata/utils.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 15ce4a5..13042e8 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -640,7 +640,7 @@ class writeSDDS:
             if type(parFixedVal) in [float, int]:
                 pass
             elif type(parFixedVal) == str:
-                parFixedVal = '"{}"'.format(parFixedVal)
+                parFixedVal = '"{}"'.format(utils.escape(parFixedVal))
         else:
             assert parData is not None, "A parameter requires parData or a fixed value"
 
@@ -660,7 +660,8 @@ class writeSDDS:
             for key, value in parameter.items():
                 if (key in parameterAttributeStr.keys()) and (value or value == 0):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
-                                                                                          value=parameterAttributeStr[key][1].format(value))))
+                                                                                          value=parameterAttributeStr[key][1].format(
+                                                                                              value if key == 'parFixedVal' else utils.escape(value)))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
             parameterString = ''
 
@@ -670,7 +671,7 @@ class writeSDDS:
                     # split logic to avoid the hassle of testing existance of arrays separately
                     if value:
                         columnString = ''.join((columnString, '{field}{value}, '.format(field=columnAttributeStr[key][0],
-                                                                    value=columnAttributeStr[key][1].format(value))))
+                                                                    value=columnAttributeStr[key][1].format(utils.escape(value)))))
             outputFile.write('&column {} &end\n'.format(columnString).encode())
             columnString = ''
 
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 6ab6ffe..109a7cc 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -15,6 +15,11 @@ def decode(text):
         return str(text, 'latin-1')
 
 
+def escape(text):
+    # for text between double quotes in the header
+    return str(text).replace('\\', '\\\\').replace('"', '\\"')
+
+
 def _return_type(string):
     target = 'type='
     type_field_position = string.find(target)
-- 
2.43.0


From 534e734f363b5bb6c2e0ab0203e5b92471c7e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 109/158] fix: a parameter that does not fit its type destroyed
 the file it was saved to

---
 rsbeams/rsdata/SDDS.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 13042e8..76c67a7 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -695,6 +695,12 @@ class writeSDDS:
 
         return pack('={}'.format(self.key_indentity[data_type]), value.item() if hasattr(value, 'item') else value)
 
+    def _parameter_record(self, parameter):
+        if self.dataMode == 'ascii':
+            return '{}\n'.format(parameter['parData']).encode()
+
+        return self._pack(parameter['parData'], parameter['parType'])
+
     def save_sdds(self, fileName, dataMode='ascii'):
         """
         Saves the parameters and columns to file. Parameters and columns are written to the file in the order
@@ -716,7 +722,11 @@ class writeSDDS:
         if len(set(len(column['colData']) for column in self.columns)) > 1:
             print('ERROR: All columns on a page must have same length')
             return
+        # All data is converted before the file is opened: a failure must not destroy an existing file
         column_data = self._column_array()
+        # Pass if fixed_value used (parData will be None)
+        parameter_data = [self._parameter_record(parameter) for parameter in self.parameters
+                          if parameter['parData'] is not None]
 
         outputFile = open(fileName, 'wb')
 
@@ -729,13 +739,8 @@ class writeSDDS:
             outputFile.write(pack('I', column_data.shape[0]))
 
         # Write Parameters
-        for parameter in self.parameters:
-            # Pass if fixed_value used (parData will be None)
-            if parameter['parData'] is not None:
-                if self.dataMode == 'ascii':
-                        outputFile.write('{}\n'.format(parameter['parData']).encode())
-                if self.dataMode == 'binary':
-                        outputFile.write(self._pack(parameter['parData'], parameter['parType']))
+        for record in parameter_data:
+            outputFile.write(record)
 
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
-- 
2.43.0


From 9f5de7b256cdf23f82d3165293a89acf813a379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 110/158] fix: values that do not fit the type of an SDDS
 column or parameter were saved as other values

---
 rsbeams/rsdata/SDDS.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 76c67a7..399ccff 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -677,9 +677,18 @@ class writeSDDS:
 
         outputFile.write('&data mode={}, &end\n'.format(self.dataMode).encode())
 
+    def _convert(self, data, name, data_type):
+        converted = np.asarray(data, dtype=self.column_dtype[data_type])
+        data = np.asarray(data)
+        if (data_type in ['short', 'long'] and data.dtype.kind in 'iufc' and not np.array_equal(converted, data)
+                or data_type == 'double' and data.dtype.kind == 'c'):
+            raise ValueError("Data of '{}' does not fit the type '{}'".format(name, data_type))
+
+        return converted
+
     def _column_array(self):
         # One record per row, with every column in the type that the header declares for it
-        columns = [np.ravel(np.asarray(column['colData'], dtype=self.column_dtype[column['colType']]))
+        columns = [np.ravel(self._convert(column['colData'], column['colName'], column['colType']))
                    for column in self.columns]
         column_data = np.empty(len(columns[0]) if columns else 0,
                                dtype=[('f{}'.format(i), column.dtype) for i, column in enumerate(columns)])
@@ -696,10 +705,11 @@ class writeSDDS:
         return pack('={}'.format(self.key_indentity[data_type]), value.item() if hasattr(value, 'item') else value)
 
     def _parameter_record(self, parameter):
+        value = self._convert(parameter['parData'], parameter['parName'], parameter['parType']).item()
         if self.dataMode == 'ascii':
-            return '{}\n'.format(parameter['parData']).encode()
+            return '{}\n'.format(value).encode()
 
-        return self._pack(parameter['parData'], parameter['parType'])
+        return self._pack(value, parameter['parType'])
 
     def save_sdds(self, fileName, dataMode='ascii'):
         """
-- 
2.43.0


From b9de8b0c2fbd3b37fe14db31bf0317cbfc8a06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 111/158] fix: a second read() of an SDDS file returned the
 pages of the first one, too

---
 rsbeams/rsdata/SDDS.py        | 5 +++++
 rsbeams/rsdata/struct_data.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 399ccff..d91b4b7 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -340,6 +340,11 @@ class readSDDS:
         if not self.buffer:
             self.openf.seek(self.header_end_pointer)
 
+        # Only the pages of this read are stored
+        for stored_data in (self._parameters, self._columns):
+            if stored_data:
+                stored_data.clear()
+
         # Select pages to be stored during the read - if None then store everything
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 52c498a..1c02caf 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -46,6 +46,9 @@ class StructData:
 
         self._data.append(data_hold)
 
+    def clear(self):
+        self._data = []
+
     def concat(self):
         # Pages without rows do not fit in the same array with pages that have rows
         self.data = np.array([d for d in self._data if d.size] or self._data)
-- 
2.43.0


From ec4e9825fb95ad8064a4bcb3e0d5168c064fe085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 112/158] fix: edit_element by name ignored elements that were
 inserted in a subline, and failed if a line had the same name

---
 rsbeams/rslattice/Beamline.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b891670..0eb8b3f 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -217,21 +217,26 @@ class StructuredBeamline(object):
             ]
 
         if type(element) == str:
-            eles = [i for i, ele in enumerate(self.sequence) if ele.name == element]
+            # Elements may be inserted in a subline only
+            eles = [
+                ele
+                for ele in [*self.sequence, *self.elements.values()]
+                if isinstance(ele, Element) and ele.name == element
+            ]
         elif type(element) == int:
-            eles = [element]
+            eles = [self.sequence[element]]
 
-        for index in eles:
+        for ele in eles:
             for p, v in zip(parameter, value):
                 try:
-                    self.sequence[index].parameters[p]
-                    self.sequence[index].parameters[p] = v
+                    ele.parameters[p]
+                    ele.parameters[p] = v
                 except KeyError:
-                    self.sequence[index].parameters[p] = v
+                    ele.parameters[p] = v
                     if warnings:
                         print(
                             "WARNING: Creating a new parameter {} for element {}".format(
-                                p, self.sequence[index].name
+                                p, ele.name
                             )
                         )
 
-- 
2.43.0


From d12b366767afa4b68f26f974d02a7ca2bc1a32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 113/158] fix: Warp files were no Python files for names like
 Q-1, and mixed up elements of the same name in several lines

---
 rsbeams/rslattice/formatted_writer.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index c568269..29df6ba 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from pykern.pkcollections import PKDict
 from sirepo.template.madx_converter import _build_field_map
@@ -57,16 +58,24 @@ class WarpWriter:
     def write_file(self, filename):
         contents = "import warp as wp\n"
         self.element_names = []
-        line_contents = self.line_template.format(line_name=self.beamline.name)
+        line_name = self._variable_name(self.beamline.name)
+        self.element_names.append(line_name)
+        line_contents = self.line_template.format(line_name=line_name)
         elements = self.beamline.get_beamline_elements()
         
         # Write element definitions
+        definitions = {}
         for ele in elements:
-            name = ele.name.upper()
             ele_type =  ele.type.upper()
+            # Elements of one name may differ in other lines
+            definition = (ele.name, ele_type, str(sorted(ele.parameters.items())))
+            is_written = definition in definitions
+            if not is_written:
+                definitions[definition] = self._variable_name(ele.name.upper())
+            name = definitions[definition]
             
             # Write element definition
-            if ele_type in self.mapping.keys() and name not in self.element_names:
+            if ele_type in self.mapping.keys() and not is_written:
                 new_ele_type = self.mapping[ele_type][0]
                 ele_str = self.element_template.format(name=name, type=new_ele_type)
                 for par in self.mapping[ele_type][1:]:
@@ -77,7 +86,7 @@ class WarpWriter:
                 contents += ele_str + ')' +'\n'
                 
                 self.element_names.append(name)
-            elif name in self.element_names:
+            elif is_written:
                 pass
             else:
                 print("Element '{name}' with type {type} is not defined. Will be added as drift.".format(name=name, type=ele.type))
@@ -100,3 +109,10 @@ class WarpWriter:
             ff.write(contents)
             
         return contents
+
+    def _variable_name(self, name):
+        # Names of elements may have characters that Python does not allow
+        name = re.sub(r'\W|^(?=\d)', '_', name)
+        while name in self.element_names:
+            name += '_'
+        return name
-- 
2.43.0


From 3d50155b8366e4ea3563f0d0fc678228718ac6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 114/158] fix: the elegant parser read strings like 1_2 or nan
 as numbers

---
 rsbeams/rslattice/lte_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index d046dec..95b9f40 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -353,6 +353,9 @@ def parse_rpn(expression, variables={}):
         val = val.replace('"', '')
         val = val.replace('\'', '')
         val = val.strip()
+        # Texts like 1_2 or nan are numbers for Python only
+        if val not in variables and re.fullmatch(r'[+-]?(nan|inf|infinity|.*_.*)', val, re.IGNORECASE):
+            raise ValueError('{} is not a number'.format(val))
         val = str(variables.get(val, val))
         val = val.replace('pi', str(np.pi))
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
-- 
2.43.0


From 2fe7067829f9f7778fddd1f13ace2f96bd6859f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 115/158] fix: parse_json read strings like 1_2 or nan as
 numbers

---
 rsbeams/rslattice/templates/lattice_importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index 2461d70..32bd976 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -7,6 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 import os
+import re
 from pykern import pkjson
 from pykern import pkio
 from pykern import pkresource
@@ -48,7 +49,8 @@ def _replace_rpn_variables(parameter_dict, config):
 def _convert_numbers(parameter_dict):
     # Sirepo stores most numbers as strings
     for key, val in parameter_dict.items():
-        if isinstance(val, str):
+        # Texts like 1_2 or nan are numbers for Python only
+        if isinstance(val, str) and re.fullmatch(r"\s*[+-]?[0-9.]+(e[+-]?[0-9]+)?\s*", val, re.IGNORECASE):
             try:
                 parameter_dict[key] = float(val)
             except ValueError:
-- 
2.43.0


From d33c356728a86e042827adfa3df94844cd3f97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 116/158] fix: SDDS files with a string column that has a
 field_length could not be read

---
 rsbeams/rsdata/SDDS.py      |  3 +--
 rsbeams/rsdata/datatypes.py | 10 +++-------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d91b4b7..0db766a 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -204,8 +204,7 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format('{}')))
                 else:
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index eaec01f..59b6ef7 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -81,6 +81,7 @@ class Column(Datum):
             "field_length": 0,
         }
         super().__init__(namelist)
+        self.fields["field_length"] = int(self.fields["field_length"])
         self.set_data_type()
 
     def set_data_type(self):
@@ -94,13 +95,8 @@ class Column(Datum):
             print(f"Data type: {data_type} is not supported by readSDDS")
             raise
 
-        if data_type == "string":
-            if self.fields["field_length"] == 0:
-                self.type_key = type_key
-            else:
-                self.type_key = type_key.format(np.abs(self.fields["field_length"]))
-        else:
-            self.type_key = type_key
+        # The length of strings is found when they are read, for any field_length
+        self.type_key = type_key
 
 
 class Array(Datum):
-- 
2.43.0


From 8fffaa7c5ae318c2e65d0e2799c9c6d13c63f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 117/158] fix: an SDDS header with &end in a text of an entry
 on several lines could not be read

---
 rsbeams/rsdata/SDDS.py  | 4 ++--
 rsbeams/rsdata/utils.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0db766a..03a2abb 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -123,7 +123,7 @@ class readSDDS:
             if np.any([nl in new_line for nl in sdds_namelists]):
                 # Log entries that describe data
                 namelist.append(new_line)
-                while '&end' not in new_line:
+                while not utils._is_namelist_end(''.join(namelist)):
                     # Proceed reading lines until the namelist is entirely read
                     if new_line[0] == '!':
                         self._header_line_count += 1
@@ -135,7 +135,7 @@ class readSDDS:
             elif new_line.find('&data') == 0:
                 # Final entry in the header is always &data
                 namelist.append(new_line)
-                while '&end' not in new_line:
+                while not utils._is_namelist_end(''.join(namelist)):
                     if new_line[0] == '!':
                         self._header_line_count += 1
                         continue
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 109a7cc..73cfea8 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -1,3 +1,4 @@
+import re
 import shlex
 import numpy as np
 # TODO: Find sdds use case with 'short' type
@@ -40,6 +41,11 @@ def _read_line(open_file):
     return line
 
 
+def _is_namelist_end(text):
+    # '&end' inside of quotes does not count
+    return '&end' in re.sub(r'"(\\.|[^"\\])*("|$)', '', text, flags=re.DOTALL)
+
+
 def _shlex_split(line):
     # Cannot just use shlex.split
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
-- 
2.43.0


From cb658e1e10e7d14852330c71419e418f6ea96d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 118/158] fix: SDDS headers with blanks around the equals sign
 could not be read

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 73cfea8..03b4599 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -49,6 +49,8 @@ def _is_namelist_end(text):
 def _shlex_split(line):
     # Cannot just use shlex.split
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
+    # Blanks are allowed around the equals sign, if it does not belong to a text
+    line = re.sub(r'("(?:\\.|[^"\\])*")|\s*=\s*', lambda m: m[1] or '=', line, flags=re.DOTALL)
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
     lex.whitespace += ','
-- 
2.43.0


From 97d26fbe0e0eef117eaca7ec888c8bda59de9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 119/158] fix: SDDS headers with blanks before &data could not
 be read

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 03a2abb..a28ae3d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -132,7 +132,7 @@ class readSDDS:
                     namelist.append(new_line)
                     self._header_line_count += 1
                 self.header.append(''.join(namelist))
-            elif new_line.find('&data') == 0:
+            elif new_line.lstrip().find('&data') == 0:
                 # Final entry in the header is always &data
                 namelist.append(new_line)
                 while not utils._is_namelist_end(''.join(namelist)):
-- 
2.43.0


From 8b024217f068ec2f2402eef34aaa5303d5eebf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 120/158] fix: parameters and columns called file, print or
 return got other names in text mode

---
 rsbeams/rsdata/SDDS.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index a28ae3d..4b0f1f1 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -254,7 +254,7 @@ class readSDDS:
 
     def _get_reader(self):
         if self._data_mode == 'ascii':
-            reader = np.genfromtxt
+            reader = self._read_text
         else:
             if self.buffer:
                 reader = np.frombuffer
@@ -263,6 +263,15 @@ class readSDDS:
 
         return reader
 
+    def _read_text(self, text, dtype, **kwargs):
+        array = np.genfromtxt(text, dtype=dtype, **kwargs)
+        # NumPy changes some names, e.g. 'file' to 'file_'
+        names = np.dtype(dtype).names
+        if names:
+            array.dtype.names = names
+
+        return array
+
     def _get_column_count(self, position):
         if self.data['&data'][0].fields['mode'] == 'ascii':
             count = self._get_reader()(self.openf, skip_header=position, dtype=np.int32, max_rows=1, comments='!')
-- 
2.43.0


From 174d34b1790013de28b8c440772481cc46b88d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 121/158] fix: asking for the parameters of an SDDS file
 without any raised AttributeError

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4b0f1f1..e66e581 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -85,7 +85,7 @@ class readSDDS:
 
     @property
     def parameters(self):
-        return self._parameters.data
+        return self._parameters.data if self._parameters else None
 
     @parameters.setter
     def parameters(self, parameters):
@@ -93,7 +93,7 @@ class readSDDS:
 
     @property
     def columns(self):
-        return self._columns.data
+        return self._columns.data if self._columns else None
 
     @columns.setter
     def columns(self, columns):
@@ -101,7 +101,7 @@ class readSDDS:
 
     @property
     def arrays(self):
-        return self._arrays.data
+        return self._arrays.data if self._arrays else None
 
     @arrays.setter
     def arrays(self, arrays):
-- 
2.43.0


From 5b515808af48ea5b7d2bbddc0418318c239e6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 122/158] fix: a Charge parameter with a fixed value was not
 used by read_elegant and longitudinal_phase_space

---
 rsbeams/rsdata/switchyard.py | 12 ++++++++++--
 rsbeams/rsplot/beam_plots.py |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index b452d7f..3befc6a 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -30,8 +30,8 @@ def read_elegant(file_name: str) -> Species:
     read_particle_data.read()
     sdds_data = np.atleast_1d(read_particle_data.columns.squeeze())
     try:
-        charge_data = read_particle_data.parameters['Charge'].squeeze()
-    except ValueError:
+        charge_data = _get_charge(read_particle_data)
+    except (KeyError, ValueError):
         print(f"No Charge in file {file_name}")
         charge_data = 0.0
 
@@ -297,6 +297,14 @@ class Switchyard:
         return filename
 
 
+def _get_charge(sdds_file):
+    parameters = sdds_file.parameters
+    if parameters is not None and 'Charge' in parameters.dtype.names:
+        return parameters['Charge'].squeeze()
+    # The charge may also be in the header
+    return np.array(float(sdds_file.parameter_fixed_value('Charge')))
+
+
 def _get_step_number(key, prefix='Step#'):
     result = key.split(prefix)[-1]
     return result
diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index 06d22d6..b60d6cb 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -168,12 +168,16 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     normalized_charge = False
     if charge == "auto":
         try:
-            charge = sdds.parameters[page]["Charge"]
+            if "Charge" in sdds.parameters.dtype.names:
+                charge = sdds.parameters[page]["Charge"]
+            else:
+                # The charge may also be in the header
+                charge = float(sdds.parameter_fixed_value("Charge"))
             if charge == 0.0:
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except (KeyError, ValueError, TypeError):
+        except (AttributeError, KeyError, ValueError, TypeError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From e8d424877cbe116ed1694e1d4481052adc155cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 123/158] fix: read_opal took other groups with a number in
 their name for the last step

---
 rsbeams/rsdata/switchyard.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 3befc6a..79e5d5b 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -74,11 +74,9 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
             all_step_numbers = []
             for key in pcdata.keys():
                 sn_string = _get_step_number(key)
-                try:
-                    sn = int(sn_string)
-                    all_step_numbers.append(sn)
-                except ValueError:
-                    pass
+                # other groups may be in the file
+                if key == 'Step#{}'.format(sn_string) and sn_string.isdecimal():
+                    all_step_numbers.append(int(sn_string))
             step_number = np.max(all_step_numbers)
         loc = 'Step#{}'.format(step_number)
         mp_count = pcdata[loc+'/z'].shape[0]
-- 
2.43.0


From 5e92f878b91fdcefd61309a8aca1627627f00bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 124/158] fix: generate_matrix failed or gave other matrices
 for names like I, S, beta or L

---
 rsbeams/rslattice/Beamline.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 0eb8b3f..524bdf3 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import Symbol, symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
@@ -250,15 +250,17 @@ class StructuredBeamline(object):
                 elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
+            values = {}
             for key, val in ele.parameters.items():
                 key = key.upper()  # the symbols of the matrices are upper case
                 if key not in ("K1", "L"):
                     continue
                 if type(val) == str:
-                    variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
+                    # any name may be used, even if it means something to SymPy
+                    variables[val] = values[Symbol(key)] = Symbol(val)
                 else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    values[Symbol(key)] = val
+            elements[-1] = elements[-1].subs(values, simultaneous=True)
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From 7bc737bbf79e0201110dc3ec7c4527185545a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 125/158] fix: the function of generate_matrix gave nan for a
 quadrupole of zero strength

---
 rsbeams/rslattice/Beamline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 524bdf3..a9710cd 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import Symbol, symbols, cosh, sinh, sqrt, lambdify
+from sympy import Eq, Piecewise, Symbol, symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
@@ -32,9 +32,9 @@ class StructuredBeamline(object):
         # Transverse matrices for elements
         "quadrupole": Matrix(
             (
-                [cosh(sqrt(-K1) * L), sinh(sqrt(-K1) * L) / sqrt(-K1), 0, 0],
+                [cosh(sqrt(-K1) * L), Piecewise((L, Eq(K1, 0)), (sinh(sqrt(-K1) * L) / sqrt(-K1), True)), 0, 0],
                 [sqrt(-K1) * sinh(sqrt(-K1) * L), cosh(sqrt(-K1) * L), 0, 0],
-                [0, 0, cosh(sqrt(K1) * L), sinh(sqrt(K1) * L) / sqrt(K1)],
+                [0, 0, cosh(sqrt(K1) * L), Piecewise((L, Eq(K1, 0)), (sinh(sqrt(K1) * L) / sqrt(K1), True))],
                 [0, 0, sqrt(K1) * sinh(sqrt(K1) * L), cosh(sqrt(K1) * L)],
             )
         ),
-- 
2.43.0


From afe05e512902a5bee7ee87b6b98e31189cec0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 126/158] fix: the elegant parser failed for blanks around the
 * of a repetition and for groups without one

---
 rsbeams/rslattice/lte_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 95b9f40..28aecbc 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -143,6 +143,9 @@ class BeamlineParser(object):
                 beamline_string = self._expand_line(beamline_string, int(coefficient))
                 coefficient = ''
                 continue
+            if beamline_string[0] == '(':
+                beamline_string = self._expand_line('*' + beamline_string, 1)
+                continue
             if beamline_string.find(',') > -1:
                 next_element_end = beamline_string.find(',')
             elif beamline_string.find(')') > -1:
@@ -220,7 +223,7 @@ class BeamlineParser(object):
         :param coefficient:
         :return:
         """
-        beamline_string = beamline_string[1:]  # Consume '*'
+        beamline_string = beamline_string.lstrip()[1:].lstrip()  # Consume '*'
         subline = ''
 
         # Case 1: Starts with (
-- 
2.43.0


From 86875a778c17c8ba779ef00f7709f35fe0bc65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 127/158] fix: the elegant parser read strings like 4pi as
 numbers

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 28aecbc..335abaa 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -360,7 +360,7 @@ def parse_rpn(expression, variables={}):
         if val not in variables and re.fullmatch(r'[+-]?(nan|inf|infinity|.*_.*)', val, re.IGNORECASE):
             raise ValueError('{} is not a number'.format(val))
         val = str(variables.get(val, val))
-        val = val.replace('pi', str(np.pi))
+        val = str(np.pi) if val == 'pi' else val
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
-- 
2.43.0


From 177163377a93c0d188274db77d1b2028ceef042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 128/158] fix: the elegant parser failed for RPN lines that
 store several variables or start right after the %

---
 rsbeams/rslattice/lte_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 335abaa..328ab89 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -326,8 +326,13 @@ class BeamlineParser(object):
 
         for line in self.lattice_definition:
             if line.lstrip()[0] == '%':
-                variable = line.split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]), self.rpn_variables)
+                # a line may store several variables
+                expression = ''
+                for val in re.split(r'\s(sto\s+\S+)', line.lstrip()[1:]):
+                    if val.startswith('sto'):
+                        self.rpn_variables[val.split()[1]] = parse_rpn(expression, self.rpn_variables)
+                    else:
+                        expression += ' ' + val
 
     def _read_name(self, line):
         # Colons inside of quotes belong to the name
-- 
2.43.0


From be98e48e0fb5ddf8e4197bdad911467218446efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 129/158] fix: the elegant parser used the last value of an RPN
 variable that is stored again for all elements

---
 rsbeams/rslattice/lte_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 328ab89..d28df99 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -47,6 +47,7 @@ class BeamlineParser(object):
         self.beamline_string = ''
         self.lines = {}
         self.rpn_variables = {}
+        self.earlier_variables = {}
 
         try:
             with open(filename, 'r') as open_file:
@@ -269,6 +270,7 @@ class BeamlineParser(object):
         element_type = fields[0].rpartition(':')[2].replace('"', '').replace('\'', '').strip()
 
         element_parameters = {}
+        variables = {**self.rpn_variables, **self.earlier_variables.get(beamline_string, {})}
 
         # Iterate through 'keyword' parameters of the element
         for field in fields[1:]:
@@ -278,7 +280,7 @@ class BeamlineParser(object):
             key = key.strip()
 
             try:
-                element_parameters[key] = parse_rpn(value, self.rpn_variables)
+                element_parameters[key] = parse_rpn(value, variables)
             except (ValueError, IndexError):
                 # TODO: This allows setting of non-numeric parameters (which do occur),
                 # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
@@ -324,7 +326,9 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
+        known_variables = {}
         for line in self.lattice_definition:
+            known_variables[line] = dict(self.rpn_variables)
             if line.lstrip()[0] == '%':
                 # a line may store several variables
                 expression = ''
@@ -334,6 +338,12 @@ class BeamlineParser(object):
                     else:
                         expression += ' ' + val
 
+        # A variable may be stored again after it was used
+        self.earlier_variables = {
+            line: {name: value for name, value in variables.items() if value != self.rpn_variables[name]}
+            for line, variables in known_variables.items()
+        }
+
     def _read_name(self, line):
         # Colons inside of quotes belong to the name
         name = re.match(r'\s*("[^"]*"|[^":]*):', line) or re.match(r'([^:]*):', line)
-- 
2.43.0


From bdedea84dbc047eea0b428bc0cbcda7652e1e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 130/158] fix: labels like beta(x) made Trace3D elements get
 other values

---
 rsbeams/rslattice/trace3d_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 22e2fb5..a1504e9 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -1,7 +1,7 @@
 from .Beamline import StructuredBeamline
 import numpy as np
 from scipy.constants import c
-from re import findall
+from re import findall, sub
 
 # A number that is not part of a name
 NUMBER = r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])"
@@ -149,7 +149,12 @@ class Trace3d(BeamlineParser):
 
         return line[def_start + len(name_def):def_end].strip()
 
+    def _remove_label(self, line):
+        # Labels may hold any text
+        return sub(r"""'[^']*'|"[^"]*\"""", "''", line)
+
     def get_element_type(self, line):
+        line = self._remove_label(line)
         def_start = line.find('nt')
         def_char_start = line[def_start:].find('=')
         element_type = findall('\d+', line[def_start + def_char_start:])[0]
@@ -157,10 +162,11 @@ class Trace3d(BeamlineParser):
         return int(element_type)
 
     def get_element_parameters(self, line, type):
-        val_start = line.find('a(')
-        val_end = line[val_start:].find('=') + val_start
+        definition = self._remove_label(line)
+        val_start = definition.find('a(')
+        val_end = definition[val_start:].find('=') + val_start
 
-        values = findall(NUMBER, line[val_end:])
+        values = findall(NUMBER, definition[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From d795f6ae3815f875c3bc6554568ffcb23baee71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 131/158] fix: Trace3D values like 1.5d-3 and 2*0.5 were read
 as other numbers

---
 rsbeams/rslattice/trace3d_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index a1504e9..f2a9e61 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -166,7 +166,10 @@ class Trace3d(BeamlineParser):
         val_start = definition.find('a(')
         val_end = definition[val_start:].find('=') + val_start
 
-        values = findall(NUMBER, definition[val_end:])
+        # Fortran exponents and repeated values
+        definition = sub(r'(?<=[\d.])d(?=[-+]?\d)', 'e', definition[val_end:])
+        definition = sub(r'(\d+)\*(' + NUMBER + ')', lambda m: ', '.join([m[2]] * int(m[1])), definition)
+        values = findall(NUMBER, definition)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From a8d8abc60f18d786b8c159cabd91b134b2187e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 132/158] fix: TraceWin NCELLS without a frequency became a
 cavity without length

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index f2a9e61..0da5520 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -309,7 +309,7 @@ class TraceWin(Trace3d):
         beamline.add_element(name + '_q2', 'quadrupole', {'k1': q2_K1, 'l': q2_L})
 
     def handle_ncells(self, name, element, beamline):
-        assert self.global_parameters['frequency'], "NCELL must have a frequency set to determine length"
+        assert self.global_parameters.get('frequency'), "NCELL must have a frequency set to determine length"
         wavelength = c / self.global_parameters['frequency']
         length = element['BETA'] * wavelength * element['N']
         cavity_PHASE = element['PHASE'] + 90.
-- 
2.43.0


From fb08e1d0327e526e51709875c211a1022c7be687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 133/158] fix: the kinematic converter took an electron for a
 mass of 0 and failed for an array of masses

---
 rsbeams/rsstats/kinematic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index bdcb842..d3262d8 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -119,7 +119,7 @@ class Converter:
 
         # Mass is always in eV internally. Print mass in units the user used for input though.
         if self.args['mass_unit'] == "eV":
-            if self.args['mass']:
+            if self.args['mass'] is not None:
                 self.mass = self.args['mass']
                 self.outputs["mass"] = self.args['mass']
             else:
-- 
2.43.0


From 33ab3ca5f6c6e8d3e213d40eea50aced48c382ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 134/158] fix: the kinematic converter failed or gave nan for
 large integers

---
 rsbeams/rsstats/kinematic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index d3262d8..51a7e8c 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -85,6 +85,10 @@ class Converter:
 
         # Convert to eV for internal use
         self.inputs = self.args.copy()
+        for key in ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'brho', 'beta', 'gamma']:
+            if self.inputs[key] is not None:
+                # squares of integers may be too large
+                self.inputs[key] = self.inputs[key] * 1.0
         if self.args['input_unit'] == 'SI':
             self._unit_convert(input_unit='SI', input_dict=self.inputs)
 
-- 
2.43.0


From 68c413028dd5d1f26de1dddae84df17a500e21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 135/158] fix: NonlinearInsert accepted a negative aperture
 when it is made

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index 807c607..97f421e 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -55,7 +55,7 @@ class NonlinearInsert(object):
         self.length = length
         self.phase = phase
         self.t = t
-        self._c = c
+        self.c = c
         self.num_slices = num_slices
 
     # Define c property which maintains a positive definite value
-- 
2.43.0


From 041a603ab242334fc8fcb6fa85c08a058e0de0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 136/158] fix: the closed formulas for the centroid gave nan
 for zero or negative tune shift coefficients

---
 rsbeams/rsphysics/decoherence.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index e7ab9de..bea6d51 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -99,6 +99,8 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[0] == 0:
+            return self.Z * np.cos(2 * np.pi * self.nu0 * n)
 
         xN = self.Z / (2. * np.pi * n * self.mu[0]) * \
              (np.cos(2 * np.pi * self.nu0 * n) * np.sin(2 * np.pi * n * self.mu[0]) +
@@ -123,17 +125,23 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[1] == 0:
+            return self.integrate_first_order(n)
+
+        # The integral is the same if all tunes change their sign
+        sign = np.sign(self.mu[1])
+        nu0, mu0, mu1 = sign * self.nu0, sign * self.mu[0], sign * self.mu[1]
 
         def integrand(u, N):
-            fS, fC = fresnel((self.mu[0] * N * np.pi + self.mu[1] * u) / np.sqrt(self.mu[1] * N * np.pi**2))
-            term1 = np.cos(np.pi * self.mu[0]**2 * N / (2. * self.mu[1]) + 2. * np.pi * self.nu0 * N)
-            term2 = np.sin(np.pi * self.mu[0]**2 * N / (2. * self.mu[1]) + 2. * np.pi * self.nu0 * N)
+            fS, fC = fresnel((mu0 * N * np.pi + mu1 * u) / np.sqrt(mu1 * N * np.pi**2))
+            term1 = np.cos(np.pi * mu0**2 * N / (2. * mu1) + 2. * np.pi * nu0 * N)
+            term2 = np.sin(np.pi * mu0**2 * N / (2. * mu1) + 2. * np.pi * nu0 * N)
 
             return fC * term1 + fS * term2
 
         xN = integrand(2 * np.pi * n, n) - integrand(0, n)
 
-        return xN * self.Z / np.sqrt(4. * self.mu[1] * n)
+        return xN * self.Z / np.sqrt(4. * mu1 * n)
 
     def calculate_centroids(self, p=None):
         """
-- 
2.43.0


From f4a2d19ef348ea7cb8bcbb34ef55e664b9a492cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 137/158] fix: beams with a very large or small beta or a small
 alpha got other Twiss parameters

---
 rsbeams/rsptcls/RsDistrib6D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 41f68e6..4ba435d 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -189,11 +189,11 @@ class RsDistrib6D:
                 print(' gMinusB, rt_fac[', ii, '] = ', gMinusB, rt_fac)
 
             if gMinusB >= 0.0:
-                fac  = math.sqrt(0.5*(gammaII+betaII-rt_fac))
                 f_inv = math.sqrt(0.5*(gammaII+betaII+rt_fac))
+                fac  = 1./f_inv
             else:
                 fac  = math.sqrt(0.5*(gammaII+betaII+rt_fac))
-                f_inv = math.sqrt(0.5*(gammaII+betaII-rt_fac))
+                f_inv = 1./fac
 
             if 0:
                 print(' fac, f_inv[', ii, '] = ', fac, f_inv)
@@ -202,8 +202,8 @@ class RsDistrib6D:
                 sin_phi = 0.0
                 cos_phi = 1.0
             else:
-                sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
+                sin_phi = math.fabs(alphaII)/(rt_fac*cos_phi)
 
             if alphaII*gMinusB < 0.0 or (gMinusB == 0.0 and alphaII < 0.0): sin_phi = -sin_phi
 
-- 
2.43.0


From 1ac138818aff1f8896963e71212d4ac737c44571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 138/158] fix: a refused array replaced the one of
 RsPhaseSpace6D

---
 rsbeams/rsptcls/RsPhaseSpace6D.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/RsPhaseSpace6D.py b/rsbeams/rsptcls/RsPhaseSpace6D.py
index 29ed37c..80e84af 100644
--- a/rsbeams/rsptcls/RsPhaseSpace6D.py
+++ b/rsbeams/rsptcls/RsPhaseSpace6D.py
@@ -59,8 +59,7 @@ class RsPhaseSpace6D:
 
     def read_array(self):
         dataObject = numpy.load(self.file_name + '.npz')
-        self.array_6d = dataObject['a']
-        self.check_array()
+        self.set_array_6d(dataObject['a'])
         return
 
     def check_array(self):
@@ -85,8 +84,13 @@ class RsPhaseSpace6D:
         return self.array_6d
 
     def set_array_6d(self,array_6d):
-        self.array_6d = array_6d
-        self.check_array()
+        previous = self.array_6d
+        self.array_6d = numpy.asarray(array_6d)
+        try:
+            self.check_array()
+        except Exception:
+            self.array_6d = previous
+            raise
         return
 
     def get_array_x(self):
-- 
2.43.0


From 2d09e5382f57db478290438be73d6ed32eb8d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 139/158] fix: bunches accepted a negative beta, t, c or cutoff
 when they are made

---
 rsbeams/rsptcls/bunch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 84717fe..fa77037 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -69,6 +69,9 @@ class StandardBunch(object):
             quiet (Boolean): boolean describing whether to use exact centroid injection, defaults to false.
         """
 
+        if betax < 0 or betay < 0:
+            raise ValueError("Beta must be larger than 0.")
+
         self.npart = npart
         self.dist = dist
 
@@ -357,9 +360,9 @@ class NonlinearBunch(StandardBunch):
 
         super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed, quiet)
 
-        self._t = t
-        self._c = c
-        self._cutoff = cutoff
+        self.t = t
+        self.c = c
+        self.cutoff = cutoff
 
 
     #Define c property which maintains a positive definite value
-- 
2.43.0


From 895182b160d3a9275e8852a5df08e90072d77db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 140/158] fix: the elliptic potential was nan at some points of
 the x-axis behind the pole

---
 rsbeams/rsptcls/bunch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index fa77037..44095cd 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -696,6 +696,10 @@ class NonlinearBunch(StandardBunch):
             v = ( np.sqrt((xN + 1.)**2 + yN**2) -
                   np.sqrt((xN - 1.)**2 + yN**2) )/2.
 
+            # Rounding may lead out of the range of the coordinates
+            u = np.maximum(u, 1.)
+            v = np.clip(v, -1., 1.)
+
             f2u = u * np.sqrt(u**2 - 1.) * np.arccosh(u)
             g2v = v * np.sqrt(1. - v**2) * (-np.pi/2 + np.arccos(v))
 
-- 
2.43.0


From e012cd8ad798e8a4c9e0d9bbfa391e577e25b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 141/158] fix: format_symbol failed or gave invalid formulas
 for indices that are not closed or closed twice and for other modes

---
 rsbeams/rsplot/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 4359eac..d23e812 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -160,12 +160,17 @@ def format_symbol(description, matplotlib=True):
     formatted_descr = '$' * matplotlib
     mode_set = False
     processing = False
+    open_indices = 0
     for char in description:
         if mode_set:
             if char in MODE.keys():
-                formatted_descr += MODE[char]
+                open_indices += -1 if char == 'n' else 1
+                if open_indices >= 0:
+                    formatted_descr += MODE[char]
+                open_indices = max(open_indices, 0)
             else:
-                processing = PROCESS[char]
+                # other modes (size, color) are not supported
+                processing = PROCESS.get(char, processing)
             mode_set = False
             continue
         if char == FORMATTER_CHAR:
@@ -178,4 +183,4 @@ def format_symbol(description, matplotlib=True):
             formatted_descr += ' '
         formatted_descr += char
 
-    return formatted_descr + '$' * matplotlib
+    return formatted_descr + '}' * open_indices + '$' * matplotlib
-- 
2.43.0


From 54a8dac3f4be3fd654c9bcc794acf39866e52733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 142/158] fix: format_symbol gave invalid formulas for the
 characters % and #

---
 rsbeams/rsplot/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index d23e812..c67a6f6 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -181,6 +181,6 @@ def format_symbol(description, matplotlib=True):
         if char[0].isalpha() and re.search(r'\\[a-zA-Z]+$', formatted_descr):
             # end of the preceding command
             formatted_descr += ' '
-        formatted_descr += char
+        formatted_descr += '{\\%s}' % char if char in ('%', '#') else char
 
     return formatted_descr + '}' * open_indices + '$' * matplotlib
-- 
2.43.0


From 3551fad58f06d5dda2f4545a798f6ea1880773ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 143/158] fix: an element parameter set with |= could not be
 read if its name has upper case letters

---
 rsbeams/rslattice/Element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 0ac1e9b..463121f 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -79,6 +79,10 @@ class AgnosticDict(dict):
         for key, val in dict(*args, **kwargs).items():
             self[key] = val
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
 
 class Element(object):
     """
-- 
2.43.0


From b6852da1a7a24bc3dae184bf5e5d1a0be3aa9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 144/158] fix: the charge of a bunch from OPAL was written to
 genesis files as an array

---
 rsbeams/rsdata/switchyard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 79e5d5b..ab99ecd 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -86,6 +86,8 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
         total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
+        # attributes are stored as arrays
+        total_charge = np.squeeze(total_charge)
 
     # TODO: This shouldn't be specific to electrons
     species = Species(particle_data, charge=-1, mass=0.511e6, total_charge=total_charge)
-- 
2.43.0


From 7ae20a6d2960a22c487554ca313974f5d8d3dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 145/158] fix: save_beamline destroyed an existing file if a
 parameter cannot be saved

---
 rsbeams/rslattice/Beamline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index a9710cd..c52d7d3 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -11,6 +11,7 @@ from sympy import Eq, Piecewise, Symbol, symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
+import io
 import numpy as np
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
@@ -132,8 +133,11 @@ class StructuredBeamline(object):
             return the_beamline
 
         beamline = return_elements(self)
+        # A failure must not destroy an existing file
+        contents = io.StringIO()
+        yaml.YAML(typ="safe").dump(beamline, contents)
         with open(filename, "w") as outputfile:
-            yaml.YAML(typ="safe").dump(beamline, outputfile)
+            outputfile.write(contents.getvalue())
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
-- 
2.43.0


From b08a137d1c5cc33b366c4525f8e94dd735c4d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 146/158] fix: after a failed save_sdds the file stayed open
 and what was left over was written into it later

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index e66e581..764b1ee 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -751,8 +751,10 @@ class writeSDDS:
         parameter_data = [self._parameter_record(parameter) for parameter in self.parameters
                           if parameter['parData'] is not None]
 
-        outputFile = open(fileName, 'wb')
+        with open(fileName, 'wb') as outputFile:
+            self._write_file(outputFile, column_data, parameter_data)
 
+    def _write_file(self, outputFile, column_data, parameter_data):
         # Begin header writeout
         self._write_header(outputFile)
 
@@ -788,5 +790,3 @@ class writeSDDS:
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
         else:
             print("NOT A DEFINED DATA TYPE")
-
-        outputFile.close()
-- 
2.43.0


From c2771906e0e925a115a82e931908775b762462bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 147/158] fix: a file that load_beamline cannot read left a
 part of it in the beamline

---
 rsbeams/rslattice/Beamline.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index c52d7d3..a323909 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -162,7 +162,14 @@ class StructuredBeamline(object):
                     beamline.add_beamline(name=f"line{len(beamline.lines)}")
                     create_beamline(element, beamline.sequence[-1])
 
-        create_beamline(elements, self)
+        try:
+            create_beamline(elements, self)
+        except Exception:
+            # still empty, another file can be loaded
+            self.sequence.clear()
+            self.elements.clear()
+            self.lines.clear()
+            raise
 
     def get_beamline_elements(self):
         """
-- 
2.43.0


From 078c034062b23e9882df4481da1e6d6c44f7a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 148/158] fix: save_beamline wrote texts that start with a
 question mark in a way that can not be loaded

---
 rsbeams/rslattice/Beamline.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index a323909..64b375d 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -12,6 +12,7 @@ from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
 import io
+import re
 import numpy as np
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
@@ -22,6 +23,18 @@ import numpy as np
 #     def append(self, item: _T) -> None:
 
 
+class _Representer(yaml.SafeRepresenter):
+    # Not all texts that need quotes are given them, e.g. those that start with ?
+    def represent_str(self, data):
+        is_word = re.fullmatch(r"[A-Za-z0-9_.]*", data)
+        return self.represent_scalar(
+            "tag:yaml.org,2002:str", data, style=None if is_word else '"'
+        )
+
+
+_Representer.add_representer(str, _Representer.represent_str)
+
+
 class StructuredBeamline(object):
     """
     Holds Element objects and may contain other StructuredBeamline objects.
@@ -135,7 +148,9 @@ class StructuredBeamline(object):
         beamline = return_elements(self)
         # A failure must not destroy an existing file
         contents = io.StringIO()
-        yaml.YAML(typ="safe").dump(beamline, contents)
+        writer = yaml.YAML(typ="safe")
+        writer.Representer = _Representer
+        writer.dump(beamline, contents)
         with open(filename, "w") as outputfile:
             outputfile.write(contents.getvalue())
 
-- 
2.43.0


From 0d69e75e8085fd651a8a94cb5ceeda28cc1c96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 149/158] fix: the elegant parser did not find elements with a
 colon in the quoted name and a blank behind it

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index d28df99..29d1010 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -346,7 +346,7 @@ class BeamlineParser(object):
 
     def _read_name(self, line):
         # Colons inside of quotes belong to the name
-        name = re.match(r'\s*("[^"]*"|[^":]*):', line) or re.match(r'([^:]*):', line)
+        name = re.match(r'\s*("[^"]*"\s*|[^":]*):', line) or re.match(r'([^:]*):', line)
 
         if not name:
             return -1
-- 
2.43.0


From ae03c9b30870a31e6e3d80a4b434a42c23e21f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 150/158] fix: warp files of lines with names like as or lambda
 were not valid

---
 rsbeams/rslattice/formatted_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 29df6ba..fc23c38 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -1,4 +1,5 @@
 import re
+from keyword import iskeyword
 import numpy as np
 from pykern.pkcollections import PKDict
 from sirepo.template.madx_converter import _build_field_map
@@ -113,6 +114,6 @@ class WarpWriter:
     def _variable_name(self, name):
         # Names of elements may have characters that Python does not allow
         name = re.sub(r'\W|^(?=\d)', '_', name)
-        while name in self.element_names:
+        while name in self.element_names or iskeyword(name):
             name += '_'
         return name
-- 
2.43.0


From df51197c90b2603854ef1b77d3d9109247e982e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 151/158] fix: the elegant parser split quoted element names at
 commas and brackets

---
 rsbeams/rslattice/lte_parser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 29d1010..c14ef79 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -147,10 +147,12 @@ class BeamlineParser(object):
             if beamline_string[0] == '(':
                 beamline_string = self._expand_line('*' + beamline_string, 1)
                 continue
-            if beamline_string.find(',') > -1:
-                next_element_end = beamline_string.find(',')
-            elif beamline_string.find(')') > -1:
-                next_element_end = beamline_string.find(')')
+            # Separators inside of quotes belong to the name
+            unquoted = self._hide_quoted(beamline_string)
+            if unquoted.find(',') > -1:
+                next_element_end = unquoted.find(',')
+            elif unquoted.find(')') > -1:
+                next_element_end = unquoted.find(')')
 
             element_name = beamline_string[:next_element_end].strip()
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
@@ -160,12 +162,7 @@ class BeamlineParser(object):
             # If element is a line definition then start recursion process
             if element_name in self.lines:
                 print("Starting on line:", element_name)
-                if beamline_string.find(',') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(',') + 1:]  # Consume element name and ','
-                elif beamline_string.find(')') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(')') + 1:]  # Consume element name and ')'
+                beamline_string = beamline_string[next_element_end + 1:]  # Consume element name and ',' or ')'
                 is_repeated = element_name in beamline.lines
                 beamline.add_beamline(name=element_name)
 
@@ -231,7 +228,7 @@ class BeamlineParser(object):
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
             depth = 1
-            for subline_end, character in enumerate(beamline_string):
+            for subline_end, character in enumerate(self._hide_quoted(beamline_string)):
                 depth += {'(': 1, ')': -1}.get(character, 0)
                 if not depth:
                     break
@@ -245,11 +242,12 @@ class BeamlineParser(object):
         else:
 
             # Catch if we are at the end of the enclosing beamline definition
-            subline_end = beamline_string.find(',')
+            unquoted = self._hide_quoted(beamline_string)
+            subline_end = unquoted.find(',')
             if subline_end > -1:
                 pass
             else:
-                subline_end = beamline_string.find(')')
+                subline_end = unquoted.find(')')
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
@@ -344,6 +342,9 @@ class BeamlineParser(object):
             for line, variables in known_variables.items()
         }
 
+    def _hide_quoted(self, text):
+        return re.sub(r'"[^"]*"', lambda quoted: '_' * len(quoted[0]), text)
+
     def _read_name(self, line):
         # Colons inside of quotes belong to the name
         name = re.match(r'\s*("[^"]*"\s*|[^":]*):', line) or re.match(r'([^:]*):', line)
-- 
2.43.0


From 88830a42c1992cd358ef85217a7f6d215856d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 152/158] fix: the elegant parser did not read lines with an
 equals sign in the quoted name

---
 rsbeams/rslattice/lte_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c14ef79..f1f0ea5 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -89,12 +89,12 @@ class BeamlineParser(object):
             self.lattice_definition[linenumber] = re.sub(
                 r':\s*line\s*=\s*\(', ':line=(', self.lattice_definition[linenumber])
             if self.lattice_definition[linenumber].find('line=(') > -1:
-                def_start = self.lattice_definition[linenumber].find('=') + 1
+                def_start = self.lattice_definition[linenumber].find('line=(') + len('line=')
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
                     self.lattice_definition[linenumber][def_start:]
 
                 if self._read_name(self.lattice_definition[linenumber]) == self.beamline_name:
-                    def_start = self.lattice_definition[linenumber].find('=') + 1
+                    def_start = self.lattice_definition[linenumber].find('line=(') + len('line=')
                     self.beamline_string = self.lattice_definition[linenumber][def_start:]
 
                 self.lattice_definition.pop(linenumber)
-- 
2.43.0


From b435c402914599cfdf8905dad63eae55b4d435a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 153/158] fix: text files with a comment at the end could not
 be read without buffer

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 764b1ee..3290fce 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -301,7 +301,7 @@ class readSDDS:
             pointer = self.openf.tell()
 
             line = self.openf.readline()
-            while self._data_mode == 'ascii' and line and not line.strip():
+            while self._data_mode == 'ascii' and line and not line.partition(b'!')[0].strip():
                 line = self.openf.readline()
             if not line:
                 return True
-- 
2.43.0


From edd462f34b01a8511049598f7b64571e356f37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 154/158] fix: headers with lines of blanks could not be read,
 e.g. those with the line ends of Windows

---
 rsbeams/rsdata/SDDS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 3290fce..77a5447 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -120,6 +120,9 @@ class readSDDS:
             namelist = []
             new_line = utils._read_line(self.openf)
             self._header_line_count += 1
+            if new_line.strip()[:1] in ('', '!'):
+                # a line of blanks or an indented comment
+                continue
             if np.any([nl in new_line for nl in sdds_namelists]):
                 # Log entries that describe data
                 namelist.append(new_line)
-- 
2.43.0


From 71103412c297903f897378521318828a7deded18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 155/158] fix: the elegant parser was slow for long lines of
 quoted element names

---
 rsbeams/rslattice/lte_parser.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index f1f0ea5..05a152e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -148,11 +148,8 @@ class BeamlineParser(object):
                 beamline_string = self._expand_line('*' + beamline_string, 1)
                 continue
             # Separators inside of quotes belong to the name
-            unquoted = self._hide_quoted(beamline_string)
-            if unquoted.find(',') > -1:
-                next_element_end = unquoted.find(',')
-            elif unquoted.find(')') > -1:
-                next_element_end = unquoted.find(')')
+            next_element_end, _ = next(self._unquoted(beamline_string, ','), None) or \
+                next(self._unquoted(beamline_string, ')'))
 
             element_name = beamline_string[:next_element_end].strip()
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
@@ -228,8 +225,8 @@ class BeamlineParser(object):
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
             depth = 1
-            for subline_end, character in enumerate(self._hide_quoted(beamline_string)):
-                depth += {'(': 1, ')': -1}.get(character, 0)
+            for subline_end, character in self._unquoted(beamline_string, '()'):
+                depth += {'(': 1, ')': -1}[character]
                 if not depth:
                     break
 
@@ -242,12 +239,8 @@ class BeamlineParser(object):
         else:
 
             # Catch if we are at the end of the enclosing beamline definition
-            unquoted = self._hide_quoted(beamline_string)
-            subline_end = unquoted.find(',')
-            if subline_end > -1:
-                pass
-            else:
-                subline_end = unquoted.find(')')
+            subline_end, _ = next(self._unquoted(beamline_string, ','), None) or \
+                next(self._unquoted(beamline_string, ')'))
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
@@ -342,8 +335,11 @@ class BeamlineParser(object):
             for line, variables in known_variables.items()
         }
 
-    def _hide_quoted(self, text):
-        return re.sub(r'"[^"]*"', lambda quoted: '_' * len(quoted[0]), text)
+    def _unquoted(self, text, characters):
+        # Positions of the characters outside of quotes
+        for found in re.finditer('"[^"]*"|[{}]'.format(characters), text):
+            if found[0] in characters:
+                yield found.start(), found[0]
 
     def _read_name(self, line):
         # Colons inside of quotes belong to the name
-- 
2.43.0


From 3909e1580d6066a565da5bae2b77f87adc6ae081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 156/158] fix: RPN expressions with tabs stayed texts

Values with tabs between the tokens were not calculated, and definitions of
variables could not be read.
---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 05a152e..4135f5f 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -363,7 +363,7 @@ def parse_rpn(expression, variables={}):
 
     stack = []
 
-    for val in expression.split(' '):
+    for val in expression.split():
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-- 
2.43.0


From 86586263401ff3d05f5f7b81e06c6103ffa34d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:20 +0000
Subject: [PATCH 157/158] fix: numbers with fractions in arrays of objects were
 cut off when saved as integers

A column or parameter of type short or long silently became another value
if its data was an array of objects, Decimal or Fraction.
---
 rsbeams/rsdata/SDDS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 77a5447..8c44e9e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -696,6 +696,9 @@ class writeSDDS:
     def _convert(self, data, name, data_type):
         converted = np.asarray(data, dtype=self.column_dtype[data_type])
         data = np.asarray(data)
+        if data_type in ['short', 'long'] and data.dtype.kind == 'O':
+            # NumPy cuts off the fractions of objects, too
+            data = data.astype(float)
         if (data_type in ['short', 'long'] and data.dtype.kind in 'iufc' and not np.array_equal(converted, data)
                 or data_type == 'double' and data.dtype.kind == 'c'):
             raise ValueError("Data of '{}' does not fit the type '{}'".format(name, data_type))
-- 
2.43.0


From 223dcd4ce4c1f781e7d52859f26edee15cf4d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 158/158] fix: genesis files of a species without a charge
 stated the charge None

The line is left out now, as for elegant files.
---
 rsbeams/rsdata/switchyard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index ab99ecd..65b9f0c 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -259,7 +259,8 @@ class Switchyard:
 
         header = ''
         header += '? VERSION = '+version + '\n'
-        header += '? CHARGE = '+str(self.species[species_name].total_charge) + '\n'
+        if self.species[species_name].total_charge is not None:
+            header += '? CHARGE = '+str(self.species[species_name].total_charge) + '\n'
         header += '? SIZE = '+str(len(X)) + '\n'
         header += '? COLUMNS X PX Y PY T P' + '\n'
 
-- 
2.43.0

