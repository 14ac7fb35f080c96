From 3e219cbcbd1159c3b73defb4a86b86aab84fcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 01/56] fix: opendoc() accepts bytes, flat XML files and
 reports missing files as IOError

The flat XML branch was unreachable and bytes were treated as a filename.
---
 ezodf/document.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..ef1c947 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -37,9 +37,9 @@ def is_valid_stream(buffer):
 
 
 def opendoc(filename):
-    if is_stream(filename):
+    if is_stream(filename) or is_valid_stream(filename):
         fm = ByteStreamManager(filename)
-    elif filename is not None:
+    elif is_zipfile(filename):
         fm = FileManager(filename)
     else:
         try:
-- 
2.43.0


From ff80f1d9c1ead5b75ed21f853437b92a3af57d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 02/56] fix: flat XML documents report their real doctype and
 use office:meta

New flat documents also get the required office:mimetype attribute.
---
 ezodf/document.py | 7 ++++---
 ezodf/meta.py     | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index ef1c947..d03f085 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -146,25 +146,26 @@ class FlatXMLDocument(_BaseDocument):
         super(FlatXMLDocument, self).__init__()
         self.docname=filename
         self.mimetype = MIMETYPES[filetype]
-        self.doctype = filetype
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
+            self.xmlnode.set(CN('office:mimetype'), self.mimetype)
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
+        self.doctype = FILE_EXT_FOR_MIMETYPE[self.mimetype]
 
         self._setup()
         self._create_shortcuts(self.body)
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
+        self.meta = OfficeDocumentMeta(self.xmlnode)
         self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
         self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..62d7212 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -29,12 +29,13 @@ TAGS = {
 @register_class
 class OfficeDocumentMeta(XMLMixin):
     TAG = CN('office:document-meta')
+    FLAT_TAG = CN('office:document') # root of a flat XML document
     generator = GENERATOR
 
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
+        elif xmlnode.tag in (self.TAG, self.FLAT_TAG):
             self.xmlnode = xmlnode
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
-- 
2.43.0


From 2977494699e6ac2fb5214073af108f8a67038d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 03/56] fix: newdoc() supports the documented doctypes otc,
 oti, odm and oth

---
 ezodf/const.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..442c4cd 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,7 +195,11 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
 }
 
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
-- 
2.43.0


From 25996d37c30298db48a578541e7aa874b1689d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 04/56] fix: a failed save keeps the document saveable and
 leaves no temporary file

_tozip() popped the mimetype entry and never restored it when writing a part
failed, so every later save raised KeyError.
---
 ezodf/filemanager.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..103c4ec 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -84,9 +84,14 @@ class FileManager(object):
             tmpfilename = filename
         else:
             tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
+        try:
+            with zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED) as zippo:
+                self._tozip(zippo)
+        except BaseException:
+            # a failed save should not leave temporary files behind
+            if not write_to_memory and os.path.exists(tmpfilename):
+                os.remove(tmpfilename)
+            raise
 
         if write_to_memory:
             # job done
@@ -139,17 +144,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
-- 
2.43.0


From 072a1f9e26e48568c0177388b7dd8c57c9f10d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 05/56] fix: saving byte stream and flat XML documents never
 truncates the old file first

---
 ezodf/bytestreammanager.py |  5 +++--
 ezodf/document.py          | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..6ee19d2 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -24,8 +24,9 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            # write a complete temporary file before touching an existing one,
+            # no backups for byte streams
+            super(ByteStreamManager, self).save(filename, backup=False)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
diff --git a/ezodf/document.py b/ezodf/document.py
index d03f085..f11a386 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -182,9 +182,15 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
-        if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
+        # write a complete temporary file before touching an existing document
+        tmpfilename = FileManager().tmpfilename(self.docname)
+        self._writefile(tmpfilename)
+        if os.path.exists(self.docname):
+            if self.backup:
+                self._backupfile(self.docname)
+            else:
+                os.remove(self.docname)
+        os.rename(tmpfilename, self.docname)
 
     def _backupfile(self, filename):
         bakfilename = filename+'.bak'
@@ -194,8 +200,14 @@ class FlatXMLDocument(_BaseDocument):
         os.rename(filename, bakfilename)
 
     def _writefile(self, filename):
-        with open(filename, 'wb') as fp:
-            fp.write(self.tobytes())
+        try:
+            with open(filename, 'wb') as fp:
+                fp.write(self.tobytes())
+        except BaseException:
+            # a failed save should not leave temporary files behind
+            if os.path.exists(filename):
+                os.remove(filename)
+            raise
 
     def tobytes(self):
         return etree.tostring(self.xmlnode,
-- 
2.43.0


From 6b60b82a51f47889afd031358f641607659cc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 06/56] fix: row/column operations check the whole index range
 before changing the table

Deleting past the end removed rows/cells until it failed, inserting at an
invalid column left the cells and the column infos out of step, and negative
indices beyond the table wrapped around twice.
---
 ezodf/tablerowcontroller.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..9d2bd31 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -45,11 +45,18 @@ class TableCellAccessor(object):
 
     def _adjust_negative_indices(self, pos):
         row, col = pos
-        if row < 0:
-            row += self.nrows()
-        if col < 0:
-            col += self.ncols()
-        return (row, col)
+        return (self._checked_index(row, self.nrows()),
+                self._checked_index(col, self.ncols()))
+
+    @staticmethod
+    def _checked_index(index, limit, count=1):
+        """ Resolve negative `index`, all `count` positions starting at `index`
+        have to exist.
+        """
+        start = index + limit if index < 0 else index
+        if start < 0 or start + count > limit:
+            raise IndexError('index out of range: %s' % index)
+        return start
 
     def row(self, index):
         return self._rows[index]
@@ -119,8 +126,7 @@ class TableRowController(TableCellAccessor):
     def delete_rows(self, index, count=1):
         if count < 1 or count >= self.nrows():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.nrows()
+        index = self._checked_index(index, self.nrows(), count)
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -136,8 +142,7 @@ class TableRowController(TableCellAccessor):
     def insert_columns(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += self.ncols()
+        index = self._checked_index(index, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
@@ -146,8 +151,7 @@ class TableRowController(TableCellAccessor):
     def delete_columns(self, index, count=1):
         if count < 1 or count >= self.ncols():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.ncols()
+        index = self._checked_index(index, self.ncols(), count)
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From f545016039c3c1a067fd1a4345c00458dbbf315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 07/56] fix: Table.reset() with an invalid size keeps the table
 content

---
 ezodf/table.py              |  1 +
 ezodf/tablerowcontroller.py | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..a5005c5 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -87,6 +87,7 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        self._cellmatrix.validate_size(size)
         preserve_name = self.name
         super(Table, self).clear()
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 9d2bd31..114de95 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -71,16 +71,18 @@ class TableRowController(TableCellAccessor):
     def __init__(self, xmlnode):
         super(TableRowController, self).__init__(xmlnode)
 
-    def reset(self, size):
-        def validate_parameter(nrows, ncols):
-            if nrows < 1:
-                raise ValueError('nrows has to be >= 1.')
-            if ncols < 1:
-                raise ValueError('ncols has to be >= 1.')
+    @staticmethod
+    def validate_size(size):
+        nrows, ncols = size
+        if nrows < 1:
+            raise ValueError('nrows has to be >= 1.')
+        if ncols < 1:
+            raise ValueError('ncols has to be >= 1.')
 
-        self._remove_existing_rows()
+    def reset(self, size):
+        self.validate_size(size)
         nrows, ncols = size
-        validate_parameter(nrows, ncols)
+        self._remove_existing_rows()
         self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
         self.update()
 
-- 
2.43.0


From c8fdc1eb600cbe9c777a3099fee8f5dc175c8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 08/56] fix: cell spans never overlap and invalid span
 parameters are reported

A new span could take over cells covered by another span, a (1, 1) span raised
KeyError, and error messages raised NameError.
---
 ezodf/cells.py              | 5 +++--
 ezodf/cellspancontroller.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..99a94f5 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -208,8 +208,9 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        for key in (CN('table:number-rows-spanned'), CN('table:number-columns-spanned')):
+            if key in self.xmlnode.attrib:
+                del self.xmlnode.attrib[key]
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..12277ea 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
@@ -45,7 +46,7 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
+            if self.is_cell_spanning(cell_index) or self._get_cell(cell_index).covered:
                 return True
         return False
 
-- 
2.43.0


From 8e9f42372cebb07f30d2b92cf081f97833118eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 09/56] fix: Cell.currency is None after setting a value of
 another type

---
 ezodf/cells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 99a94f5..1b91276 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -133,7 +133,9 @@ class Cell(GenericWrapper):
             self.set_attr(TYPE_VALUE_MAP[value_type], value)
         self._set_value_type(value_type)
 
-        if currency and (value_type == 'currency'):
+        if value_type != 'currency':
+            self.xmlnode.attrib.pop(CN('office:currency'), None)
+        elif currency:
             self.set_attr(CN('office:currency'), currency)
 
     def _set_value_type(self, value_type):
-- 
2.43.0


From 78262f6da5f04dbb9ca5590b2644d78f3a8e5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 10/56] fix: cell addresses without a valid row number are
 rejected

'A0' addressed row -1 and invalid reference types raised NameError.
---
 ezodf/tableutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..6bcc144 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile('^([A-Za-z]+)(0*[1-9][0-9]*)\\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
@@ -40,10 +40,10 @@ def address_to_index(address):
             power *= 26
         return index - 1
 
-    res = CELL_ADDRESS.match(address.upper())
+    res = CELL_ADDRESS.match(address)
     if res:
         column_name, row_name = res.groups()
-        return (int(row_name)-1, column_name_to_index(column_name))
+        return (int(row_name)-1, column_name_to_index(column_name.upper()))
     else:
         raise ValueError('Invalid cell address: %s' % address)
 
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From 2f8f6371ea3fd7227829dda0fc31f3de93aef4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 11/56] fix: Cell.set_value() with an empty non-string value
 keeps the old value

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 1b91276..3f1259b 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -122,6 +122,8 @@ class Cell(GenericWrapper):
             raise TypeError(value_type)
 
         value = convert(value, value_type)
+        if value == '':
+            raise ValueError("invalid value for type %s: ''" % value_type)
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From fcc18917eaf1b7fd1e3458c398b7ea4784d447c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 12/56] fix: sheets and pages are indexed among themselves and
 stay in front of the epilogue

index() and insert() counted all children of the body, and append() put new
sheets behind elements like named expressions.
---
 ezodf/pagecontainer.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..8963bf8 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -9,6 +9,8 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr, is_string
 from . import wrapcache
+from .nodeorganizer import EpilogueTagBlock
+from .nodestructuretags import SPREADSHEET_EPILOGUE
 
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
@@ -75,7 +77,7 @@ class AbstractPageContainer(object):
 
     def append(self, child):
         if self._is_valid_child(child):
-            self.xmlnode.append(child.xmlnode)
+            self.xmlnode.insert(self._append_position(), child.xmlnode)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
@@ -84,8 +86,24 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        # the body can contain other elements than pages
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        pages = self._xmlchildren()
+        index = int(index)
+        if index < 0:
+            index = max(index + len(pages), 0)
+        if index < len(pages):
+            position = self.xmlnode.index(pages[index])
+        else:
+            position = self._append_position()
+        self.xmlnode.insert(position, child.xmlnode)
         return child
+
+    def _append_position(self):
+        # behind the last page, but in front of the body epilogue
+        pages = self._xmlchildren()
+        if len(pages):
+            return self.xmlnode.index(pages[-1]) + 1
+        return EpilogueTagBlock(self.xmlnode, SPREADSHEET_EPILOGUE).insert_position_before()
-- 
2.43.0


From 5b27f95cf9c8b8ff044b066702fc8ad691b248ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 13/56] fix: missing variable declarations are created in the
 body prelude

They were appended to the end of the body of loaded documents, behind the
content and the epilogue elements.
---
 ezodf/body.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ezodf/body.py b/ezodf/body.py
index 580ed1d..ab753aa 100644
--- a/ezodf/body.py
+++ b/ezodf/body.py
@@ -7,21 +7,35 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap, subelement
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .sheets import Sheets
 from .pages import Pages
 from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TEXT_EPILOGUE
+from .nodestructuretags import TEXT_EPILOGUE, OFFICE_FORMS, TABLE_TRACKED_CHANGES, TEXT_DECL
+
+DECL_PREDECESSORS = OFFICE_FORMS + TABLE_TRACKED_CHANGES + [CN("text:tracked-changes")]
 
 
 class GenericBody(GenericWrapper):
     def __init__(self, xmlnode=None):
         super(GenericBody, self).__init__(xmlnode=xmlnode)
-        self.variables = wrap(subelement(self.xmlnode,
-                                                CN("text:variable-decls")))
-        self.userfields = wrap(subelement(self.xmlnode,
-                                                CN("text:user-field-decls")))
+        self.variables = wrap(self._declarations(CN("text:variable-decls")))
+        self.userfields = wrap(self._declarations(CN("text:user-field-decls")))
+
+    def _declarations(self, tag):
+        """ Find/create the declaration element `tag` in the body prelude. """
+        element = self.xmlnode.find(tag)
+        if element is None:
+            predecessors = DECL_PREDECESSORS + TEXT_DECL[:TEXT_DECL.index(tag)]
+            position = 0
+            for child in self.xmlnode:
+                if child.tag not in predecessors:
+                    break
+                position += 1
+            element = etree.Element(tag)
+            self.xmlnode.insert(position, element)
+        return element
 
 
 @register_class
-- 
2.43.0


From 3f5bdc15ceb8cdd2be3dde600c3ffed9e696269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 14/56] fix: variables and user fields keep every value and
 update their instances

Boolean values of instances were always read as False, user fields rejected 0
and '', and user field instances were searched by the tags of variables.
---
 ezodf/variables.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..9c55794 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -58,19 +58,10 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
-        return itermap(wrap, vs + vg + vi)
+        root = self.get_xmlroot()
+        nodes = [node for tag in self.INSTANCE_TAGS for node in root.iter(tag)
+                 if node.get(CN('text:name')) == self.name]
+        return itermap(wrap, nodes)
 
     @property
     def type(self):  # {{{2
@@ -89,6 +80,9 @@ class Variable(GenericWrapper):  # {{{1
 @register_class
 class SimpleVariable(Variable):  # {{{1
     TAG = CN('text:variable-decl')
+    INSTANCE_TAGS = (CN('text:variable-set'),
+                     CN('text:variable-get'),
+                     CN('text:variable-input'))
 
     @property
     def value(self):  # {{{2
@@ -119,6 +113,9 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAGS = (CN('text:user-field-set'),
+                     CN('text:user-field-get'),
+                     CN('text:user-field-input'))
 
     @property
     def value(self):  # {{{2
@@ -147,10 +144,10 @@ class UserField(Variable):  # {{{1
             self.type = 'boolean'
             self.set_bool_attr(CN('office:boolean-value'), v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            self.xmlnode.set(CN('office:value'), tostr(v))
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            self.xmlnode.set(CN('office:string-value'), tostr(v))
             self.type = 'string'
 
 
@@ -179,6 +176,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
@@ -236,6 +234,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
-- 
2.43.0


From 4901e14c96702cdd81cf4de43a37870b7f216f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 15/56] fix: broadcasts reach only the given document and
 survive unsubscribing handlers

An empty lxml root element is false, so its events were sent to all documents.
---
 ezodf/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..fc5d412 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,8 +98,9 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
-        for listener in event_listeners:
+        send = send_to_all if root is None else send_to_root
+        # handlers may subscribe or unsubscribe listeners
+        for listener in list(event_listeners):
             send(listener)
 
     def _has_listener(self, event):
-- 
2.43.0


From 6eca83159ee3f616e2e49bb2ab1335e01acf717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 16/56] fix: style containers return styles which were set
 before

---
 ezodf/styles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..9e8f0d4 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
@@ -53,7 +53,7 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
+        self._cache[key] = value.xmlnode
 
     def _find(self, name):
         try:
-- 
2.43.0


From 778e7bbb12076376b06ec494e72d89ff5580e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 17/56] fix: Spaces.count can be reduced to one space

---
 ezodf/whitespaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..b87a844 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -48,6 +48,8 @@ class Spaces(Tabulator):
     def count(self, value):
         if int(value) > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        else:
+            self.xmlnode.attrib.pop(CN('text:c'), None)
 
     @property
     def textlen(self):
-- 
2.43.0


From 8fe4e7e80d6c5f2dfd3ab39e1e527fe597899457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 18/56] fix: assigning a cell of a table to another position
 keeps the source row intact

---
 ezodf/table.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index a5005c5..ea6180b 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -114,7 +114,13 @@ class Table(GenericWrapper):
         """ Set cell at position 'pos', where 'pos' is a tuple (row, column). """
         if not hasattr(cell, 'kind') or cell.kind != 'Cell':
             raise TypeError("invalid type of 'cell'.")
-        self._cellmatrix.set_cell(pos, cell.xmlnode)
+        xmlnode = cell.xmlnode
+        if xmlnode.getparent() is not None:
+            if xmlnode is self._cellmatrix.get_cell(pos):
+                return
+            # moving a cell would remove it from its current row
+            xmlnode = copy.deepcopy(xmlnode)
+        self._cellmatrix.set_cell(pos, xmlnode)
 
     def itercells(self):
         """ Iterate over all cells, returns tuples (pos, cell). """
-- 
2.43.0


From 07bcfd82a7f60a17c42db55062b0b4c0ba9845fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 19/56] fix: expand strategy 'all_less_maxcount' accepts a
 maxcount of 1

---
 ezodf/tableutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 6bcc144..35843cd 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -93,8 +93,8 @@ class RepetitionAttribute(object):
 
     @cols.deleter
     def cols(self):
-        del self.xmlnode.attrib[CN('table:number-columns-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-columns-repeated'), None)
 
     @rows.deleter
     def rows(self):
-        del self.xmlnode.attrib[CN('table:number-rows-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-repeated'), None)
-- 
2.43.0


From 373ef2ff5414600f165439265ffb616217823fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 20/56] fix: protection keys are plain strings

---
 ezodf/protection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/protection.py b/ezodf/protection.py
index 4e39877..5ec9250 100644
--- a/ezodf/protection.py
+++ b/ezodf/protection.py
@@ -12,4 +12,4 @@ import random
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
 def random_protection_key(count=12):
-    return random.sample(FNCHARS, count)
+    return ''.join(random.sample(FNCHARS, count))
-- 
2.43.0


From 1228668065f28e8826a03302c1cc9afba04d28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 21/56] fix: rows and columns of nested tables do not belong to
 the outer table

---
 ezodf/tablecolumncontroller.py | 6 +++---
 ezodf/tableutils.py            | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..f1a8d56 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, find_table_parts, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -73,7 +73,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = find_table_parts(self.xmlnode, CN('table:table-column'))
 
     def reset(self, ncols):
         if ncols < 1:
@@ -96,7 +96,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(find_table_parts(self.xmlnode, CN('table:table-column')), maxcols)
 
     def __len__(self):
         return len(self._columns)
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 35843cd..2f2cf05 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -63,7 +63,13 @@ def get_min_max_cell_count(xmltable):
         return (0, 0)
 
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return find_table_parts(xmltable, CN('table:table-row'))
+
+def find_table_parts(xmltable, tag):
+    """ Find all `tag` elements of `xmltable`, but not those of nested tables. """
+    def is_part_of_table(xmlnode):
+        return next(xmlnode.iterancestors(xmltable.tag)) is xmltable
+    return [xmlnode for xmlnode in xmltable.findall('.//'+tag) if is_part_of_table(xmlnode)]
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From f30290cc367bed3087c89c9b93d575e1836260c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 22/56] fix: every column of a loaded table has a column info

Repeated columns and repeated cells can be collapsed to a different count, then
column operations failed after changing the cells.
---
 ezodf/table.py                 |  1 +
 ezodf/tablecolumncontroller.py | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index ea6180b..6fdc1b1 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -31,6 +31,7 @@ class Table(GenericWrapper):
         def init_attributes_by_xmlnode():
             self._cellmatrix = TableRowController(self.xmlnode)
             self._columns_info = TableColumnController(self.xmlnode)
+            self._columns_info.align(self._cellmatrix.ncols())
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index f1a8d56..5563045 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -98,6 +98,18 @@ class TableColumnController(object):
             raise TypeError("Unknown expand strategy: %s" % expand)
         strategy.expand_columns(find_table_parts(self.xmlnode, CN('table:table-column')), maxcols)
 
+    def align(self, ncols):
+        # less column infos than cells, if only the column infos were collapsed
+        missing = ncols - len(self)
+        if missing < 1:
+            return
+        if len(self) == 0:
+            self.reset(ncols)
+            return
+        for _ in range(missing):
+            self._columns[-1].addnext(copy.deepcopy(self._columns[-1]))
+        self.update()
+
     def __len__(self):
         return len(self._columns)
 
-- 
2.43.0


From 80b5e74302b80008609e82baaa1aca987da411ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 23/56] fix: all wrappers of a table share their row and column
 state

Wrapping a sheet again, e.g. by iterating over the body, created a second row
cache; changes made by one wrapper were not visible in the other one.
---
 ezodf/table.py     | 11 +++++++++++
 ezodf/wrapcache.py |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index 6fdc1b1..9b62312 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -28,6 +28,14 @@ class Table(GenericWrapper):
     print_ = BooleanProperty(CN('table:print'))
 
     def __init__(self, name='NEWTABLE', size=(10, 10), xmlnode=None):
+        cached_table = None if xmlnode is None else wrapcache.get(xmlnode)
+
+        def share_attributes():
+            # all wrappers of the same xmlnode have to see the same rows and columns
+            self._cellmatrix = cached_table._cellmatrix
+            self._columns_info = cached_table._columns_info
+            self._cell_span_controller = cached_table._cell_span_controller
+
         def init_attributes_by_xmlnode():
             self._cellmatrix = TableRowController(self.xmlnode)
             self._columns_info = TableColumnController(self.xmlnode)
@@ -40,6 +48,9 @@ class Table(GenericWrapper):
             self._columns_info.reset(size[1])
 
         super(Table, self).__init__(xmlnode=xmlnode)
+        if cached_table is not None:
+            share_attributes()
+            return
         init_attributes_by_xmlnode()
         if xmlnode is None:
             set_new_table_metrics()
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..3cb6bea 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -22,6 +22,9 @@ class _WrapCache(object):
         self.add(wrapped_object)
         return wrapped_object
 
+    def get(self, element):
+        return self._cache.get(id(element))
+
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
@@ -33,6 +36,7 @@ class _WrapCache(object):
 
 _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
+get = _wrapcache.get
 clear = _wrapcache.clear
 add = _wrapcache.add
 remove = _wrapcache.remove
-- 
2.43.0


From 42330c76275e0da7675e32f1ca765269c6455826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 24/56] fix: Cell() refuses unknown value types

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 3f1259b..371f922 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -52,6 +52,8 @@ class Cell(GenericWrapper):
             if value is not None:
                 self.set_value(value, value_type, currency)
             elif value_type is not None:
+                if value_type not in VALID_VALUE_TYPES:
+                    raise TypeError(value_type)
                 self._set_value_type(value_type)
 
     @property
-- 
2.43.0


From a5ae25a68991eb9be115140331f339fbfed7a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 25/56] fix: first page of a presentation is put in front of
 the presentation settings

---
 ezodf/nodestructuretags.py | 2 ++
 ezodf/pagecontainer.py     | 4 +++-
 ezodf/pages.py             | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index dd7f562..ba8e4fb 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -119,3 +119,5 @@ TABLE_CONTENT = TABLE_COLUMNS + TABLE_ROWS
 SPREADSHEET_PRELUDE = TABLE_TRACKED_CHANGES + TEXT_DECL + TABLE_DECL
 SPREADSHEET_CONTENT = [CN("table:table"),]
 SPREADSHEET_EPILOGUE = TABLE_FUNCTIONS
+
+PRESENTATION_EPILOGUE = [CN("presentation:settings")] + TABLE_FUNCTIONS
diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index 8963bf8..d818d04 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -13,6 +13,8 @@ from .nodeorganizer import EpilogueTagBlock
 from .nodestructuretags import SPREADSHEET_EPILOGUE
 
 class AbstractPageContainer(object):
+    _epilogue_tags = SPREADSHEET_EPILOGUE
+
     def __init__(self, xmlbody, childtag, nametag):
         self._childtag = childtag
         self._nametag = nametag
@@ -106,4 +108,4 @@ class AbstractPageContainer(object):
         pages = self._xmlchildren()
         if len(pages):
             return self.xmlnode.index(pages[-1]) + 1
-        return EpilogueTagBlock(self.xmlnode, SPREADSHEET_EPILOGUE).insert_position_before()
+        return EpilogueTagBlock(self.xmlnode, self._epilogue_tags).insert_position_before()
diff --git a/ezodf/pages.py b/ezodf/pages.py
index 076155d..2b301ad 100644
--- a/ezodf/pages.py
+++ b/ezodf/pages.py
@@ -9,8 +9,11 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from .xmlns import CN
 from .pagecontainer import AbstractPageContainer
+from .nodestructuretags import PRESENTATION_EPILOGUE
 
 class Pages(AbstractPageContainer):
+    _epilogue_tags = PRESENTATION_EPILOGUE
+
     def __init__(self, xmlbody):
         super(Pages, self).__init__(xmlbody, childtag=CN('draw:page'),
                                     nametag=CN('draw:name'))
-- 
2.43.0


From a6a1f3b45ba6e49a915a68920a5485bca2dff360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 26/56] fix: pages of drawings and presentations are wrapped as
 DrawingPage

---
 ezodf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/__init__.py b/ezodf/__init__.py
index 74467d3..4f055d5 100644
--- a/ezodf/__init__.py
+++ b/ezodf/__init__.py
@@ -29,6 +29,7 @@ from .text import Span, Paragraph, Heading, Section, Hyperlink
 from .text import List, ListHeader, ListItem, NumberedParagraph
 from .table import Table
 from .cells import Cell
+from .drawingpage import DrawingPage
 from .conf import config
 from .variables import SimpleVariables, SimpleVariable
 from .variables import SimpleVariableSet, SimpleVariableGet, SimpleVariableInput
-- 
2.43.0


From 67f808f010c7259c74c35049f5e52f3e87c71ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 27/56] fix: textlen of list items and list headers counts
 their text

---
 ezodf/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/text.py b/ezodf/text.py
index dc68edc..4d3b7a8 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -133,6 +133,10 @@ class ListHeader(GenericWrapper):
             if text:
                 self.append(Paragraph(text))
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return '\n'.join([e.plaintext() for e in iter(self)])
 
-- 
2.43.0


From eb11317f72a8e2b24e4a9ac73a9a2c11b627206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 28/56] fix: insert positions of prelude/epilogue blocks stay
 behind/before present tags

---
 ezodf/nodeorganizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/nodeorganizer.py b/ezodf/nodeorganizer.py
index f491c87..cd77f40 100644
--- a/ezodf/nodeorganizer.py
+++ b/ezodf/nodeorganizer.py
@@ -119,7 +119,7 @@ class PreludeTagBlock(object):
             pos, count = self.tag_info(tag)
             if count > 0:
                 return pos
-        return 0
+        return self._count_tags_in_block()
 
     def _successor_tag(self, tag):
         tagpos = self.tags.index(tag)
@@ -173,4 +173,4 @@ class EpilogueTagBlock(PreludeTagBlock):
             pos, count = tag_info(tag)
             if count > 0:
                 return len(self.xmlnode) - pos
-        return len(self.xmlnode)
+        return len(self.xmlnode) - self._count_tags_in_block()
-- 
2.43.0


From 4eaee076b1fdf0781f341868a8df3815ea0cc05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 29/56] fix: an empty editing-cycles tag does not prevent
 saving

---
 ezodf/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 62d7212..b24a6e4 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -83,7 +83,7 @@ class OfficeDocumentMeta(XMLMixin):
             count = self['editing-cycles']
             try:
                 count = int(count) + 1
-            except ValueError:
+            except (ValueError, TypeError):
                 count = 1
         except KeyError:
             count = 1
-- 
2.43.0


From 8c9544759791050a67a296d7f36d4db508ed1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 30/56] fix: refused metadata values leave no empty tags behind

---
 ezodf/meta.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index b24a6e4..22ff9a7 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -68,8 +68,13 @@ class OfficeDocumentMeta(XMLMixin):
 
     def __setitem__(self, key, value):
         cnkey = CN(TAGS[key]) # key in clark notation
-        element = subelement(self.meta, cnkey)
-        element.text = value
+        new_element = etree.Element(cnkey)
+        new_element.text = value # refuses invalid values before anything changes
+        element = self.meta.find(cnkey)
+        if element is None:
+            self.meta.append(new_element)
+        else:
+            element.text = new_element.text
 
     def __getitem__(self, key):
         element = self.meta.find(CN(TAGS[key]))
@@ -106,8 +111,9 @@ class Keywords(object):
         """ Add 'keyword' to meta data. """
         tag = self._find(keyword)
         if tag is None:
-            tag = etree.SubElement(self.meta, CN('meta:keyword'))
+            tag = etree.Element(CN('meta:keyword'))
             tag.text = keyword
+            self.meta.append(tag)
 
     def remove(self, keyword):
         """ Remove 'keyword' from meta data. """
@@ -147,11 +153,13 @@ class Usertags(object):
         """
         tag = self._find(name)
         if tag is None:
-            tag = etree.SubElement(self.meta, CN('meta:user-defined'))
+            tag = etree.Element(CN('meta:user-defined'))
             tag.set(CN('meta:name'), name)
         tag.text = tostr(value)
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
+        if tag.getparent() is None:
+            self.meta.append(tag)
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From 0dc053f4f2c2163ccf3c3845fd45c1063afc7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 31/56] fix: names of missing variables are not taken for child
 indices

---
 ezodf/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 9c55794..8f3403f 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -9,7 +9,7 @@ __author__ = "T0ha <t0hashvein@gmail.com>"
 
 from .xmlns import register_class, CN, wrap
 from .base import GenericWrapper
-from .compatibility import itermap, tostr
+from .compatibility import itermap, is_string, tostr
 
 
 class Variables(GenericWrapper):  # {{{1
@@ -28,12 +28,16 @@ class Variables(GenericWrapper):  # {{{1
     def __getitem__(self, index):  # {{{2
         if index in self.variables:
             return self.variables[index]
+        elif is_string(index):
+            raise KeyError(index)
         else:
             return self.get_child(index)
 
     def __setitem__(self, index, value):  # {{{2
         if index in self.variables:
             self.variables[index].value = value
+        elif is_string(index):
+            raise KeyError(index)
         else:
             return self.set_child(index, value)
 
-- 
2.43.0


From 9754158c1c1b3f0418de3f2eb3c37831d80a98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 32/56] fix: refuse a duration followed by a newline

---
 ezodf/timeparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 0f56e75..e8ec14e 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,7 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?\Z")
 
     def __init__(self, time):
         if is_string(time):
-- 
2.43.0


From 12dde9b2cac09290921abe32fdaec51721fb03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 33/56] fix: style containers do not return styles moved to
 another container

---
 ezodf/styles.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 9e8f0d4..6c72115 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -56,14 +56,15 @@ class Container(object):
         self._cache[key] = value.xmlnode
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        style = self._cache.get(name)
+        if style is not None and style.getparent() is self.xmlnode:
+            return style
+        # unknown style or style has been moved to another container
+        for style in self.xmlnode.iterchildren():
+            stylename = style.get(CN('style:name'))
+            if stylename == name:
+                self._cache[name] = style
+                return style
         return None
 
 @register_class
-- 
2.43.0


From 2d6b398fec7ce29f66d0ff27c2bb4193ae0770cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 34/56] fix: page layouts can be looked up and are not changed
 by it

---
 ezodf/styles.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 6c72115..dd454bd 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -147,10 +147,14 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
-        self.header = self._properties(CN('style:header-style'), HeaderProperties)
-        self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
+
+    @property
+    def header(self):
+        return self._properties(CN('style:header-style'), HeaderProperties)
+
+    @property
+    def footer(self):
+        return self._properties(CN('style:footer-style'), HeaderProperties)
 
 @register_class
 class FontFace(BaseStyle):
-- 
2.43.0


From 148abb65d4f5e41166f05de3c2845ce0c2a9d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 35/56] fix: inject_style() for flat XML documents

---
 ezodf/document.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index f11a386..91850df 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -134,9 +134,12 @@ class _BaseDocument(object):
         if hasattr(body, 'pages'):
             self.pages = body.pages
 
+    def _common_styles(self):
+        return self.styles.styles
+
     def inject_style(self, stylexmlstr, where="styles.xml"):
         style = fake_element(stylexmlstr)
-        self.styles.styles.xmlnode.append(style.xmlnode)
+        self._common_styles().xmlnode.append(style.xmlnode)
 
 class FlatXMLDocument(_BaseDocument):
     """ OpenDocument contained in a single XML file. """
@@ -181,6 +184,9 @@ class FlatXMLDocument(_BaseDocument):
         application_body = subelement(office_body, bodytag)
         return wrap(application_body)
 
+    def _common_styles(self):
+        return self.styles # all style containers are children of the root element
+
     def _saving_routine(self):
         # write a complete temporary file before touching an existing document
         tmpfilename = FileManager().tmpfilename(self.docname)
-- 
2.43.0


From 4b43c6d5a275c3d3e9de966387464a14974d3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 36/56] fix: DrawingPage() without a name

---
 ezodf/drawingpage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/drawingpage.py b/ezodf/drawingpage.py
index 635fdfe..e50728c 100644
--- a/ezodf/drawingpage.py
+++ b/ezodf/drawingpage.py
@@ -17,7 +17,8 @@ class DrawingPage(GenericWrapper):
     def __init__(self, name="", xmlnode=None):
         super(DrawingPage, self).__init__(xmlnode)
         if xmlnode is None:
-            self.name = name
+            if name:
+                self.name = name
             self._setup_new_page()
 
     def _setup_new_page(self):
-- 
2.43.0


From daf29074b78a84d626fe78fd9518fe25434d914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 37/56] fix: saving a document without a name leaves no
 temporary file behind

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 91850df..208ab86 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -116,7 +116,7 @@ class _BaseDocument(object):
         self.save()
 
     def save(self):
-        if self.docname is None:
+        if not self.docname:
             raise IOError('No filename specified!')
         observer.broadcast('prepare_saving', root=self.body.get_xmlroot())
         self.meta.touch()
-- 
2.43.0


From 3d7705a2563b891833997751fa5617dacc349d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 38/56] fix: templates without a mimetype entry are accepted
 like documents

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 208ab86..190c8ad 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -91,7 +91,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
-- 
2.43.0


From d20055429f756c65fea0916a80f546666e22c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 39/56] fix: a source package that cannot be read makes saving
 fail instead of dropping its parts

---
 ezodf/filemanager.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 103c4ec..407de85 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -50,8 +50,10 @@ class FileManager(object):
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
     def has_zip(self):
-        if self.zipname is not None:
-            return is_zipfile(self.zipname)
+        if self.zipname is not None and os.path.exists(self.zipname):
+            # an unreadable file is an error and not a missing zip file
+            with open(self.zipname, 'rb') as fp:
+                return is_zipfile(fp)
         return False
 
     def _open_bytestream(self):
@@ -162,11 +164,7 @@ class FileManager(object):
         """
         if not self.has_zip():
             return # nothing to copy
-        try:
-            bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
-
+        bytestream = self._open_bytestream()
         origzip = zipfile.ZipFile(bytestream)
         try:
             self._copy_from_zip_to_zip(origzip, newzip, ignore)
-- 
2.43.0


From 690f865648a96a7f0eb2b4319844de9b64661afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 40/56] fix: all parts are still saved after the final rename
 of a save failed

---
 ezodf/filemanager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 407de85..b7e3d03 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -111,6 +111,9 @@ class FileManager(object):
                 # just remove the existing document
                 os.remove(filename)
 
+        # the source of the other package parts may just have been moved away,
+        # but the temporary file has all of them, if the next step fails
+        self.zipname = tmpfilename
         # rename the new created document
         os.rename(tmpfilename, filename)
         self.zipname = filename
-- 
2.43.0


From 2f39a250cc37217a5c2675e90ef22058c64fd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 41/56] fix: parts stored twice in a source package are written
 once

---
 ezodf/filemanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index b7e3d03..e38d514 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -179,6 +179,8 @@ class FileManager(object):
     def _copy_from_zip_to_zip(fromzip, tozip, ignore):
         for zipinfo in fromzip.filelist:
             if zipinfo.filename not in ignore:
+                if zipinfo.filename in tozip.NameToInfo:
+                    continue  # the source contains several entries of this name
                 tozip.writestr(zipinfo, fromzip.read(zipinfo.filename))
 
     def tobytes(self):
-- 
2.43.0


From c976b053f2b09cd3854ef2fbc5193f091dfc7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 42/56] fix: negative column indices missed the column info if
 a table has more column infos than columns

---
 ezodf/table.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 9b62312..31ad936 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -166,7 +166,16 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
-        return wrap(self._columns_info.get_table_column(index))
+        return wrap(self._columns_info.get_table_column(self._column_info_index(index)))
+
+    def _column_info_index(self, index):
+        # negative values count from the last column of cells, the table may
+        # have more column infos than columns
+        if index < 0:
+            index += self.ncols()
+            if index < 0:
+                raise IndexError('invalid column index.')
+        return index
 
     def append_rows(self, count=1):
         self._cellmatrix.append_rows(count)
@@ -185,13 +194,15 @@ class Table(GenericWrapper):
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        info_index = self._column_info_index(index)
         self._cellmatrix.insert_columns(index, count)
-        self._columns_info.insert(index, count)
+        self._columns_info.insert(info_index, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        info_index = self._column_info_index(index)
         self._cellmatrix.delete_columns(index, count)
-        self._columns_info.delete(index, count)
+        self._columns_info.delete(info_index, count)
 
     def set_cell_span(self, pos, size):
         self._cell_span_controller.set_span(get_cell_index(pos), size)
-- 
2.43.0


From 138cb3cc802e8d5e88ce5cfe858e8fdc207857fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 43/56] fix: column infos of a table are created behind its
 title and description

---
 ezodf/nodestructuretags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index ba8e4fb..6aed9e0 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -107,6 +107,8 @@ TABLE_ROWS = [
 
 # <table:table>
 TABLE_PRELUDE = [
+    CN("table:title"),
+    CN("table:desc"),
     CN("table:table-source"),
     CN("office:dde-source"),
     CN("table:scenario"),
-- 
2.43.0


From 226ecbdff40f9505f75ab1681806e775433f72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 44/56] fix: dates before the year 1000 are formatted with four
 digits

---
 ezodf/timeparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index e8ec14e..4b60c7e 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -28,9 +28,9 @@ class TimeParser(object):
     def __str__(self):
         if self.is_date:
             if self.has_time:
-                string = self.value.strftime(DATETIME_FORMAT)
+                string = self.value.replace(microsecond=0, tzinfo=None).isoformat()
             else:
-                string = self.value.strftime(DATE_FORMAT)
+                string = self.value.isoformat()
         else:
             string = TimeParser.duration_to_string(self.value)
         return string
-- 
2.43.0


From 866a786da2466ffc2ba45afbbf29a8ad86fa21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 45/56] fix: iterating over document statistics accepts values
 which are not numbers

---
 ezodf/meta.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 22ff9a7..b8dc331 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -220,18 +220,19 @@ class Statistic(object):
 
     def __getitem__(self, key):
         if key in Statistic.TYPES:
-            val = self.stats.get(Statistic.NS % key)
-            retval = 0
-            try:
-                retval = int(val)
-            except ValueError:
-                pass # it's not an int, should not happen (but shit happens)
-            except TypeError:
-                pass # None, no stats for `key`
-            return retval
+            return self._to_int(self.stats.get(Statistic.NS % key))
         else:
             raise KeyError(key)
 
+    @staticmethod
+    def _to_int(value):
+        try:
+            return int(value)
+        except ValueError:
+            return 0 # it's not an int, should not happen (but shit happens)
+        except TypeError:
+            return 0 # None, no stats
+
     def __setitem__(self, key, value):
         if key in Statistic.TYPES:
             self.stats.set(Statistic.NS % key, tostr(value))
@@ -245,7 +246,7 @@ class Statistic(object):
         """
         prefix = len(META_NS) + 2
         for key, value in self.stats.items():
-            yield (key[prefix:-6], int(value))
+            yield (key[prefix:-6], self._to_int(value))
 
     def update(self, d):
         """ Set statistics from dict `d`. """
-- 
2.43.0


From e5513eb41b959d43278839accf5159f763687e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 46/56] fix: style containers find renamed styles by their new
 name only

---
 ezodf/styles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index dd454bd..fdb0dbe 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -57,9 +57,10 @@ class Container(object):
 
     def _find(self, name):
         style = self._cache.get(name)
-        if style is not None and style.getparent() is self.xmlnode:
+        if style is not None and style.getparent() is self.xmlnode and \
+           style.get(CN('style:name')) == name:
             return style
-        # unknown style or style has been moved to another container
+        # unknown style or style has been renamed or moved to another container
         for style in self.xmlnode.iterchildren():
             stylename = style.get(CN('style:name'))
             if stylename == name:
-- 
2.43.0


From b9ff1ceda000fee0a5f4f3384a89af7968804b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 47/56] fix: formatted numbers stand in front of the content
 and are not part of the text

---
 ezodf/propertymixins.py |  7 +++++--
 ezodf/text.py           | 13 ++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index 96da21a..3431f43 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr
-from .xmlns import CN, subelement
+from .xmlns import CN, etree
 
 
 def StringProperty(name, doc=None):
@@ -86,7 +86,10 @@ class TextNumberingMixin(object):
         return formatted_number.text if formatted_number is not None else None
     @formatted_number.setter
     def formatted_number(self, value):
-        formatted_number = subelement(self.xmlnode, CN('text:number'))
+        formatted_number = self.xmlnode.find(CN('text:number'))
+        if formatted_number is None: # has to be the first child node
+            formatted_number = etree.Element(CN('text:number'))
+            self.xmlnode.insert(0, formatted_number)
         formatted_number.text = tostr(value)
 
 class TableVisibilityMixin(object):
diff --git a/ezodf/text.py b/ezodf/text.py
index 4d3b7a8..7be4274 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -16,6 +16,10 @@ from .propertymixins import StringProperty, TextNumberingMixin, BooleanProperty
 from .propertymixins import IntegerWithLowerLimitProperty
 
 
+def is_content(element):
+    # the formatted number of headings and list items is not part of the text
+    return element.xmlnode.tag != CN('text:number')
+
 @register_class
 class Span(GenericWrapper):
     TAG = CN('text:span')
@@ -35,7 +39,9 @@ class Span(GenericWrapper):
         # you detect ALL text changes in this node and all of it child nodes.
         length = safelen(self.xmlnode.text)
         for element in iter(self):
-            length += (element.textlen + safelen(element.xmlnode.tail))
+            if is_content(element):
+                length += element.textlen
+            length += safelen(element.xmlnode.tail)
         return length
 
     def plaintext(self):
@@ -43,7 +49,8 @@ class Span(GenericWrapper):
         # you detect ALL text changes in this node and all of it child nodes.
         text = [self.xmlnode.text]
         for element in iter(self):
-            text.append(element.plaintext())
+            if is_content(element):
+                text.append(element.plaintext())
             text.append(element.xmlnode.tail)
         return "".join(filter(None, text))
 
@@ -138,7 +145,7 @@ class ListHeader(GenericWrapper):
         return len(self.plaintext())
 
     def plaintext(self):
-        return '\n'.join([e.plaintext() for e in iter(self)])
+        return '\n'.join([e.plaintext() for e in iter(self) if is_content(e)])
 
 
 @register_class
-- 
2.43.0


From e2f30fc6dfe689627fabcabb79065e3715d72f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 48/56] fix: missing frame elements are added in the order
 required by ODF

---
 ezodf/xmlns.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..41c0cf7 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -17,8 +17,25 @@ def subelement(parent, tag, new=True):
     element = parent.find(tag)
     if (element is None) and (new is True):
         element = etree.SubElement(parent, tag)
+        position = _frame_position(parent, tag)
+        if position < len(parent) - 1:
+            parent.insert(position, element)
     return element
 
+# children of the root elements of a document in the order required by ODF
+FRAME_TAGS = ['office:meta', 'office:settings', 'office:scripts',
+              'office:font-face-decls', 'office:styles', 'office:automatic-styles',
+              'office:master-styles', 'office:body']
+
+def _frame_position(root, tag):
+    """ Position in front of the successors of the frame element `tag`. """
+    frame = [CN(name) for name in FRAME_TAGS]
+    successors = frame[frame.index(tag)+1:] if tag in frame else []
+    for position, child in enumerate(root):
+        if child.tag in successors:
+            return position
+    return len(root)
+
 class _XMLNamespaces(object):
     def __init__(self, namespaces):
         self.prefix2uri = {}
-- 
2.43.0


From ff1251e681e7b53783eff158f6f3a9f8fd5c345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 49/56] fix: comments and processing instructions are not part
 of the text

---
 ezodf/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/text.py b/ezodf/text.py
index 7be4274..2646550 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -17,8 +17,10 @@ from .propertymixins import IntegerWithLowerLimitProperty
 
 
 def is_content(element):
-    # the formatted number of headings and list items is not part of the text
-    return element.xmlnode.tag != CN('text:number')
+    # comments, processing instructions and the formatted number of headings
+    # and list items are not part of the text
+    tag = element.xmlnode.tag
+    return is_string(tag) and tag != CN('text:number')
 
 @register_class
 class Span(GenericWrapper):
-- 
2.43.0


From 4e4d3cb2c0fe74eeba65f6892beae95d1069308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 50/56] fix: comments in variable declarations do not prevent
 opening a document

---
 ezodf/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 8f3403f..ef34323 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -19,7 +19,8 @@ class Variables(GenericWrapper):  # {{{1
         super(Variables, self).__init__(xmlnode)
         self.variables = {}
         for v in self:
-            self.variables[v.name] = v
+            if isinstance(v, Variable): # ignore comments
+                self.variables[v.name] = v
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
-- 
2.43.0


From 101144829a4a48985a43ee85a0a67fa631c636b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 51/56] fix: inserting something else than a page is refused

---
 ezodf/pagecontainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index d818d04..28e3144 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -92,6 +92,8 @@ class AbstractPageContainer(object):
         return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
+        if not self._is_valid_child(child):
+            raise TypeError('Unable to insert: %s' % tostr(child))
         pages = self._xmlchildren()
         index = int(index)
         if index < 0:
-- 
2.43.0


From fe7109ec46c577a63c2468a786cfd29f19da5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 52/56] fix: tables without a name can be cleared, reset and
 copied

---
 ezodf/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 31ad936..f4cafd0 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -103,7 +103,8 @@ class Table(GenericWrapper):
         preserve_name = self.name
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None:
+            self.name = preserve_name
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
@@ -114,7 +115,7 @@ class Table(GenericWrapper):
     def copy(self, newname=None):
         newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
         if newname is None:
-            newname = 'CopyOf' + self.name
+            newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
         return newtable
 
-- 
2.43.0


From 1d7470a10522f2d13c16806b4400e2abea673d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 53/56] fix: occurrences of variables with a value attribute

---
 ezodf/variables.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index ef34323..fd06ab4 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -156,6 +156,14 @@ class UserField(Variable):  # {{{1
             self.type = 'string'
 
 
+# attributes with the value of a variable, the text is its formatted value
+VALUE_ATTRIBUTES = {
+    'string': CN('office:string-value'),
+    'boolean': CN('office:boolean-value'),
+    'float': CN('office:value'),
+}
+
+
 class SimpleVariableInstance(GenericWrapper):  # {{{1
 
     def __init__(self, xmlnode=None):  # {{{2
@@ -165,14 +173,13 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
     @property
     def value(self):  # {{{2
         """Gets instavce value"""
-        if self.type == 'string':
-            return self.text
-        elif self.type == 'boolean':
-            return self.text == 'true'
+        value = self.xmlnode.get(VALUE_ATTRIBUTES.get(self.type, ''), self.text)
+        if self.type == 'boolean':
+            return value == 'true'
         elif self.type == 'float':
-            return float(self.text)
+            return float(value)
         else:
-            return self.text
+            return value
 
     @value.setter
     def value(self, v):  # {{{2
@@ -187,6 +194,12 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
             self.type = 'float'
         else:
             self.type = 'string'
+        # the old value and its formula are not valid any more
+        attributes = self.xmlnode.attrib
+        attributes.pop(CN('text:formula'), None)
+        old_values = [attributes.pop(name, None) for name in VALUE_ATTRIBUTES.values()]
+        if any(value is not None for value in old_values):
+            attributes[VALUE_ATTRIBUTES[self.type]] = self.text
 
     @property
     def type(self):  # {{{2
-- 
2.43.0


From 432203217fd823e1dcd45cc4270f5d2ae55ae841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 54/56] fix: a file extension names the type of an undeclared
 package

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 190c8ad..0a3878f 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -64,7 +64,7 @@ def __detect_mime_type(file_manager):
     else:
         # use file ext name
         ext = os.path.splitext(file_manager.zipname)[1]
-        mime_type = MIMETYPES[ext]
+        mime_type = MIMETYPES[ext[1:]]
     return mime_type
 
 
-- 
2.43.0


From 24fe7cb78f5e9e226929b58ce9ae9b347ae07d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 55/56] fix: the mimetype of a valid package is exactly the
 expected one

---
 ezodf/filemanager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e38d514..e0bbf6b 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -224,8 +224,13 @@ def check_zipfile_for_oasis_validity(filename, mimetype):
         manifest = zf.read('META-INF/manifest.xml')
     else:
         manifest = None
+    # the part could be longer than the expected mimetype
+    is_mimetype = 'mimetype' in names and zf.read('mimetype') == mimetype
     zf.close()
 
+    if not is_mimetype:
+        return False
+
     if manifest is None:
         return False
     # meta.xml and styles.xml are not required, but I think they should
-- 
2.43.0


From ad9afcd832e56b3ca0e9bac51bb6b3e3df0ad946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 56/56] fix: read the source package when it is opened

---
 ezodf/filemanager.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e0bbf6b..9514d69 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -46,18 +46,25 @@ class FileManager(object):
     def __init__(self, zipname=None):
         self.directory = dict()
         self.zipname = zipname
+        # the file can be replaced or removed before the document is saved
+        self._source = self._read_source()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
-    def has_zip(self):
+    def _read_source(self):
         if self.zipname is not None and os.path.exists(self.zipname):
             # an unreadable file is an error and not a missing zip file
             with open(self.zipname, 'rb') as fp:
-                return is_zipfile(fp)
-        return False
+                source = fp.read()
+            if is_zipfile(StringIO(source)):
+                return source
+        return None
+
+    def has_zip(self):
+        return self._source is not None
 
     def _open_bytestream(self):
-        return open(self.zipname, 'rb')
+        return StringIO(self._source)
 
     def tmpfilename(self, basefile=None):
         def randomname(count):
@@ -111,9 +118,6 @@ class FileManager(object):
                 # just remove the existing document
                 os.remove(filename)
 
-        # the source of the other package parts may just have been moved away,
-        # but the temporary file has all of them, if the next step fails
-        self.zipname = tmpfilename
         # rename the new created document
         os.rename(tmpfilename, filename)
         self.zipname = filename
-- 
2.43.0

