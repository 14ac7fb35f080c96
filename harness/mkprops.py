"""Writes /verif/properties.jsonl (kept as code so that ids, anchors and wording stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Saving and reopening a document preserves its content",
  """Whatever was put into a document through the API (body content, sheets with their cells, metadata,
  injected styles, variables), saving it to a path or (packages) a fresh in-memory stream, or taking its bytes, and opening the
  result again yields a document with exactly that content, and it is what a direct reader of the package finds.
  This holds for every history of edits, saves and re-saves under the same or other names and reopenings, for packaged and flat XML documents.
  Later edits of one document object never show up in files saved before or in other documents.""",
  ["histories", "inputs"],
  """all histories of new/open/template/edit/save/saveas/tobytes/reopen operations over several documents, files and
  in-memory buffers, with XML-representable text and values; other documents and programs may replace or remove the files in between""",
  """The tests save each document once and check a single value; they never interleave edits, re-saves under new names and
  reopenings, or look at more than one document at a time.""",
  ["ezodf/document.py", "ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/content.py", "ezodf/meta.py", "ezodf/styles.py"],
  [("part registry serialised on every save", "ezodf/filemanager.py"), ("dispatch on path, stream, bytes, flat XML", "ezodf/document.py opendoc")],
  ["zip entries of the saved file", "API view of the reopened document"])
p("C02", "Parts the library does not manage survive every save unchanged",
  """Every package part other than mimetype, META-INF/manifest.xml, content.xml, styles.xml and meta.xml that the opened package
  (document or template) contains - pictures, settings, embedded objects, directories entries, any name or compression - is in every later saved
  package and in tobytes() output, byte for byte, exactly once. This holds along any chain of save, saveas and reopen, whether the
  source is a path (also a relative one), a stream or bytes, and also if the source file has been moved, removed or replaced since it was opened or the current directory has changed. Elements and attributes the library does not know inside content.xml, styles.xml and meta.xml survive as well.""",
  ["histories", "inputs"],
  "all packages with arbitrary additional parts and all save/saveas/reopen chains",
  "The tests copy one fixed package once; chains that switch the source file after a saveas, streams and binary parts are not exercised.",
  ["ezodf/filemanager.py", "ezodf/bytestreammanager.py"],
  [("copy of all unprocessed entries from the source zip", "ezodf/filemanager.py _copy_zip_to")],
  ["zip entries of every saved package"])
p("C03", "Every written package is a well-formed OpenDocument package",
  """Every package written by save, saveas or tobytes starts with an uncompressed entry 'mimetype' holding exactly the document's mimetype,
  has no two entries of the same name and passes a zip integrity test. It contains content.xml, styles.xml, meta.xml and META-INF/manifest.xml, all well-formed XML. Its manifest lists '/' with the document's
  mimetype as media type, lists content.xml, styles.xml and meta.xml with text/xml, keeps every entry it had in the source, and lists no path more often than the source did.""",
  ["histories", "inputs"], "all saves in all histories, for every document kind and source package (also one with mimetype or manifest missing, misplaced or compressed)",
  "The tests check one freshly written file with the library's own validity check, not re-saves of foreign or slightly unusual packages.",
  ["ezodf/filemanager.py", "ezodf/manifest.py", "ezodf/document.py"],
  [("mimetype written first and stored", "ezodf/filemanager.py _tozip"), ("manifest entry per registered part", "ezodf/filemanager.py register")],
  ["raw bytes and central directory of the written zip"])
p("C04", "Documents keep their declared kind",
  """newdoc(doctype) produces a document of exactly that documented doctype and mimetype with the matching body; opendoc of a package or flat XML file reports the doctype
  and mimetype declared by its content, whatever the file name and whether given as path, stream or bytes;
  a package that declares no type is of the kind its file name extension names. newdoc(template=...) yields the template's
  kind with the '-template' suffix removed, and a file that does not exist or is neither a package nor XML is refused with an IOError. Saving never changes the kind.""",
  ["inputs", "configurations"], "all documented doctypes, all ways of opening, all file names",
  "The tests cover odt/ods/odg/odp and a few templates by path only.",
  ["ezodf/document.py", "ezodf/const.py"],
  [("mimetype detection", "ezodf/document.py __detect_mime_type"), ("template suffix", "ezodf/document.py _new_doc_from_template")],
  ["doctype, mimetype, body kind, package mimetype entry"])
p("C05", "A save interrupted at any point never loses the document",
  """At every instant during a save to a path - a crash, kill or I/O error at any step, including running out of space in the middle of writing - the directory
  contains a complete, readable package holding either the old or the new version under the document's name, its .bak name or the temporary
  name. A save that fails while writing leaves the old file under its name untouched and removes its temporary file,
  and the document in memory can still be saved successfully afterwards with all its content.""",
  ["crash_points", "fault_sequences"], "every file-system step of every save, each with crash or error, with and without backup, existing file and existing .bak, for packaged, byte-stream-based and flat documents",
  "No test injects a fault; the order of write, remove and rename is invisible to a test that only looks at the final state.",
  ["ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/document.py"],
  [("write temporary file, then rename", "ezodf/filemanager.py save"), ("flat XML saving", "ezodf/document.py _saving_routine")],
  ["directory content before every open/rename/remove/write"])
p("C06", "Backups and file discipline",
  """After a successful save over an existing file, exactly the file's name and, if backup is on, its name plus '.bak' have changed: the .bak file then holds, byte for byte, the version that was
  there before (replacing any older backup); with backup off, or for documents opened from streams or bytes, no .bak file is created or altered. No other file in the directory changes, appears or disappears.
  Opening a document, creating one from a template, editing it and saving under another name never change the source or template file.""",
  ["histories", "configurations"], "all histories of saves with backup switched on and off over several file names, sources and templates",
  "The tests look at one backup file after one save and never at the rest of the directory.",
  ["ezodf/filemanager.py", "ezodf/document.py", "ezodf/bytestreammanager.py"],
  [("backup rename", "ezodf/filemanager.py save"), ("flat backup", "ezodf/document.py _backupfile")],
  ["bytes of every file in the directory after each operation"])
p("C07", "Save bookkeeping and save notifications",
  """Each successful save increments the document's editing-cycles by exactly one (starting at 1 when absent or not a number), sets the
  modification date to the time of the save and the generator to the library, and changes no other metadata; creation-date is set once, when the document is created.
  Listeners subscribed to 'prepare_saving' and 'post_saving' that belong to the saved document are notified exactly once each, prepare before the file is written and
  post after it is complete; listeners of other documents are not notified. tobytes() changes no metadata and sends no notification.""",
  ["histories"], "all histories of successful saves over several documents and listeners",
  "The tests check one save of one document.",
  ["ezodf/document.py", "ezodf/meta.py", "ezodf/observer.py"],
  [("touch and inc_editing_cycles before writing", "ezodf/document.py save"), ("broadcast with root", "ezodf/document.py save")],
  ["meta.xml of the written file", "handler call log"])
p("C08", "Row and column operations act like list edits on the cell matrix",
  """append, insert and delete of rows and columns change a table exactly as the same edit on a list of rows (or on every row) would:
  the addressed rows/columns are added empty or removed and every other cell keeps its content, properties and identity at its shifted position.
  The same holds for the row infos and column infos, and for cell assignment, reset and clear, with positive and negative indices and any count.
  Whatever else the table element contains (title, forms, shapes, named expressions, foreign elements) stays there through all row, column and cell operations.""",
  ["histories", "inputs"], "all tables (new or loaded, with header/group elements) and all histories of row, column and cell operations with valid arguments",
  "The tests apply single operations to one 10x10 table and look at one or two cells.",
  ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py"],
  [("row list plus XML siblings", "ezodf/tablerowcontroller.py"), ("column info list", "ezodf/tablecolumncontroller.py")],
  ["every cell and row/column info through the public API"])
p("C09", "Tables stay rectangular and all their views agree",
  """At any time every row of a table has ncols() cells, and get_cell by index, by negative index and by address, row(), rows(), column(), columns(), itercells(), a second wrapper of the same table, and the
  serialised XML all show the same matrix. There is a row info for every row and a column info for every column, in document order, with the
  row element and its cells the same objects, columns precede rows in the XML, and header/group elements keep their content.""",
  ["histories", "inputs"], "all loaded or new tables, including ragged, grouped, header and repeated ones, after any history of operations",
  "The consistency helpers are only called on a few fixed tables after single operations.",
  ["ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py", "ezodf/table.py", "ezodf/tablenormalizer.py", "ezodf/wrapcache.py"],
  [("row cache kept parallel to XML", "ezodf/tablerowcontroller.py"), ("alignment on load", "ezodf/tablenormalizer.py")],
  ["all views of the public API and the serialised table"])
p("C10", "Rejected table operations change nothing",
  """A table, cell or span operation with an index, count, size, address or type outside its documented domain raises an IndexError, ValueError, KeyError or TypeError,
  and leaves the table exactly as it was, cell by cell and in its serialised form. Operations inside their domain are never rejected.""",
  ["histories", "inputs"], "all operations with all out-of-range indices, counts, sizes, addresses and value types, at any point of any history",
  "The tests check that some bad calls raise, never that nothing had been changed before the exception.",
  ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py", "ezodf/cellspancontroller.py", "ezodf/tableutils.py", "ezodf/cells.py"],
  [("argument checks before mutation", "ezodf/tablerowcontroller.py"), ("span checks", "ezodf/cellspancontroller.py")],
  ["exception class and serialised table before/after"])
p("C11", "Cell spans partition their area",
  """After any history of set_cell_span and remove_cell_span a cell is covered exactly when it lies inside exactly one spanned area and is not that area's top-left cell, spanned areas never overlap or leave the table,
  and a cell's span is the size last set there, or (1, 1). Setting a span that would overlap an existing one is refused without change. Removing a span
  uncovers exactly its area and neither operation changes any cell's value or other properties.""",
  ["histories"], "all histories of span operations interleaved with cell writes and with row/column edits that do not cut a span",
  "The tests set and remove single spans on one table.",
  ["ezodf/cellspancontroller.py", "ezodf/cells.py", "ezodf/tableutils.py"],
  [("covered flag via element tag", "ezodf/cells.py _set_covered"), ("overlap check", "ezodf/cellspancontroller.py")],
  ["span, covered and value of every cell"])
p("C12", "Repeated rows, columns and cells expand as the chosen strategy says",
  """Opening a table with repetition attributes yields the matrix the configured strategy defines: 'all' repeats every cell, row and column as declared; 'all_but_last' does so except that the last
  row and the last cell of each row appear once; 'all_less_maxcount' repeats those declared fewer than maxcount times and shows the others once. Short rows are padded
  with empty cells, copies are independent of each other, and no repetition attribute greater than one is left. set_table_expand_strategy takes effect for all later loads until changed, and reset_table_expand_strategy restores 'all_less_maxcount' with (32, 32).""",
  ["inputs", "configurations"], "all tables with repetition attributes on cells, covered cells, rows and columns inside or outside groups and headers, all strategies and maxcounts",
  "The tests load a handful of fixed tables per strategy.",
  ["ezodf/tablenormalizer.py", "ezodf/tablecolumncontroller.py", "ezodf/conf.py", "ezodf/tableutils.py"],
  [("expansion strategies", "ezodf/tablenormalizer.py"), ("column expansion", "ezodf/tablecolumncontroller.py")],
  ["cells, row and column infos of the opened table"])
p("C13", "Cells return the typed value that was set",
  """After set_value (or creation with a value) a cell's value_type, value and currency are those of the last accepted call, converted as documented (numbers to float, booleans to bool, everything else to str), with automatic typing
  for str, int, float and bool; no trace of an earlier value, type, currency or text remains. style_name, formula, protected and content_validation_name are kept. append_text only works on string cells and appends exactly that text to the
  value; display_form changes the shown text only; invalid types and None are refused without change.""",
  ["histories", "inputs"], "all sequences of cell operations with all value types and values (text that XML can represent), also after saving and reopening",
  "The tests set one value on a fresh cell; type changes on used cells and text fidelity are not covered.",
  ["ezodf/cells.py", "ezodf/text.py"],
  [("value attribute per type", "ezodf/cells.py TYPE_VALUE_MAP"), ("clearing of old values", "ezodf/cells.py _clear_old_value")],
  ["value, value_type, currency, plaintext, display_form and attributes"])
p("C14", "Spreadsheet addresses and (row, column) pairs name the same cells",
  """A reference such as 'A1', 'zz27' or 'AAA10' addresses exactly the cell with the row number minus one and the zero-based column of its letters read as a bijective base-26 number; case and leading zeros do not matter.
  Distinct cells have distinct canonical addresses, neighbouring columns have successive names, and every other string is refused with a ValueError. All table operations that accept references behave as with the pair.""",
  ["inputs"], "all strings; all rows and columns",
  "The tests try a handful of addresses.",
  ["ezodf/tableutils.py", "ezodf/table.py"],
  [("address parser", "ezodf/tableutils.py address_to_index")],
  ["cells, rows, columns and infos reached through references"])
p("C15", "Copied tables are equal and independent",
  """Table.copy() returns a table with the same cells, row and column infos, spans and attributes as the original at that time, under the given new name or 'CopyOf' plus the name. From then on no operation on one changes the other, whether or not they are in the same
  document, and assigning a cell from one table to a position of a table copies the value without changing the source.""",
  ["histories"], "all histories of operations on a table and its copies and copies of copies",
  "One test copies a table once and compares the name.",
  ["ezodf/table.py", "ezodf/wrapcache.py"],
  [("deep copy of the element", "ezodf/table.py copy")],
  ["all views of original and copies"])
p("C16", "Sheets and pages form an ordered, named collection",
  """The sheets (or pages) of a document behave as an ordered list: append, insert, replace and delete by index or name, length, iteration, names() and index() agree with each other and with the document order, whatever other elements the body contains; those other
  elements keep their order, and sheets and pages always stay behind the body's declarations and before its epilogue elements. Lookup by name finds the first one with that current name; missing names and indices raise KeyError/IndexError and change nothing.
  Every access to a sheet yields the same table state.""",
  ["histories"], "all histories of collection operations on new and loaded spreadsheet, drawing and presentation documents",
  "The tests use a bare body without other elements and mostly one or two pages.",
  ["ezodf/pagecontainer.py", "ezodf/sheets.py", "ezodf/pages.py", "ezodf/wrapcache.py", "ezodf/body.py"],
  [("lookup over direct children", "ezodf/pagecontainer.py"), ("wrapper cache", "ezodf/wrapcache.py")],
  ["names, index, len, iteration and XML order"])
p("C17", "Text written is the text read back",
  """For any text, a Paragraph, Heading, Span, Hyperlink or ListItem created with it, or extended by append_text, has as plaintext() exactly the concatenation of the texts given, in order, including tabs, line breaks and any number of spaces.
  Nested inline elements (spans, hyperlinks, white space) contribute their text in document order, textlen equals the length of plaintext(), and both survive saving and reopening.""",
  ["inputs", "histories"], "all XML-representable strings and all sequences of append_text and nested inline elements",
  "The tests check a few short strings.",
  ["ezodf/text.py", "ezodf/whitespaces.py"],
  [("whitespace encoder", "ezodf/whitespaces.py"), ("recursive plaintext", "ezodf/text.py Span")],
  ["plaintext and textlen"])
p("C18", "White space is encoded canonically",
  """In the elements produced for a text, every tab is one text:tab, every line feed one text:line-break, and every run of n >= 2 spaces is one literal space followed by one text:s with count n-1; all other characters
  are literal text in order, so that no character data contains a tab, a line feed or two adjacent spaces from the same text. Decoding the encoded tags gives back the text, and the encoder carries nothing over from one text to the next.""",
  ["inputs", "histories"], "all strings, all sequences of encodings",
  "The tests encode a few examples.",
  ["ezodf/whitespaces.py", "ezodf/text.py"],
  [("state machine of the encoder", "ezodf/whitespaces.py _WhitespaceEncoder")],
  ["child elements and character data"])
p("C19", "Text body content keeps its place between prelude and epilogue",
  """Appending to the body of a text document puts the element behind all existing content and before the trailing epilogue elements (named expressions, database ranges, ...), insert and insert_before put it exactly where asked, and no operation reorders, drops or duplicates other elements.
  Opening a document adds missing declaration elements only inside the prelude, before any content. This holds for loaded documents with any prelude and epilogue and for histories of appends, inserts, replaces and removals.""",
  ["histories", "inputs"], "all initial body layouts and all histories of body operations",
  "The tests append one element to one fixed body.",
  ["ezodf/body.py", "ezodf/nodeorganizer.py", "ezodf/nodestructuretags.py", "ezodf/base.py"],
  [("epilogue tag block", "ezodf/body.py TextBody.append"), ("declarations created on wrap", "ezodf/body.py GenericBody")],
  ["sequence of body children"])
p("C20", "Every element behaves as a list of its children",
  """For every content element, len, iteration, indexing, append, +=, insert, item assignment and deletion, insert_before, remove, replace, index, find and findall and clear act on its children as the same operations act on a list, with Python index rules; appending or inserting an
  element that already has a parent moves it. Wrapping is by tag and shares the node: wrappers obtained twice for the same child see each other's changes. Operations naming a missing child or index raise and change nothing.""",
  ["histories"], "all histories of child operations over a forest of elements",
  "The tests apply single operations to small fixed trees.",
  ["ezodf/base.py", "ezodf/xmlns.py"],
  [("delegation to the lxml element", "ezodf/base.py GenericWrapper")],
  ["children sequence of every element"])
p("C21", "Metadata stores are faithful maps and sets",
  """Metadata tags hold the value last set and raise KeyError when absent or unknown; keywords are an insertion-ordered set; user-defined tags are an insertion-ordered map from name to value and type; statistics map the documented names to the integer last set, 0 when
  unset. Set, delete, update, clear, iteration and membership agree with each other, and no operation on one store or key affects another; clearing all metadata empties all stores. All of it survives saving and reopening.""",
  ["histories", "inputs"], "all histories of metadata operations",
  "The tests run single operations on a fresh meta object.",
  ["ezodf/meta.py"],
  [("tag lookup", "ezodf/meta.py OfficeDocumentMeta"), ("keyword, user tag and statistic stores", "ezodf/meta.py")],
  ["all getters, iterators and meta.xml"])
p("C22", "Variables and user fields show the value last set everywhere",
  """After assigning a str, int, float or bool to a variable or user field by name, its value and type, and the value and type of each of its occurrences anywhere in the document's content, are the assigned one (numbers as float) - also where an occurrence stored another value in an attribute or a formula and displayed it in a format of its own. Other variables and fields with other names or of the other kind are unaffected.
  The result is the same after saving and reopening, for any name, number of occurrences and sequence of assignments.""",
  ["histories", "inputs"], "all documents with declared variables and fields with at least one occurrence, all sequences of assignments",
  "The tests set a few values in one fixed document.",
  ["ezodf/variables.py"],
  [("value written to all instances", "ezodf/variables.py")],
  ["value and type of declarations and instances"])
p("C23", "Events reach exactly the subscribed listeners",
  """A broadcast calls the event's handler exactly once, with the given message, on every living listener subscribed to that event (however often it subscribed) - restricted to listeners belonging to the given document root if one is given - and calls nothing else. Unsubscribed or
  destroyed listeners get nothing; subscribing an object without the handler is refused with an AttributeError; handlers that subscribe or unsubscribe during a broadcast do not disturb delivery to the others. An error raised by a handler reaches the caller of the broadcast, with and without a root.""",
  ["histories"], "all histories of subscribe, unsubscribe, destroy and broadcast over events, listeners and roots",
  "The tests use one or two listeners and one broadcast.",
  ["ezodf/observer.py"],
  [("weak listener sets per event", "ezodf/observer.py")],
  ["handler call log"])
p("C24", "The manifest is a map from path to media type",
  """After any sequence of add and remove, find(path) returns the single entry for a path with the media type (and version, if ever given) last added, or nothing if it was removed or never added; entries loaded from a package are kept in order, the manifest's own path is never listed, and serialising
  and loading the manifest gives the same map.""",
  ["histories"], "all sequences of manifest operations on new and loaded manifests",
  "The tests add and remove single entries.",
  ["ezodf/manifest.py"],
  [("find by full path", "ezodf/manifest.py")],
  ["file entries of manifest.xml"])
p("C25", "Durations and dates convert to text and back",
  """Formatting a date, a date with time, or a non-negative duration gives the documented ODF text, and parsing that text gives back the same kind of value with the same value (durations to a tenth of a millisecond, truncated). Parsing any duration text of the form PnYnMnDTnHnMn,nS (each part optional) equals the sum of its parts with
  years of 365 and months of 30 days, and everything that is not a valid date or duration is refused with a ValueError.""",
  ["inputs"], "all dates from year 1, times without sub-second part, all durations >= 0, all strings",
  "The tests convert a few values.",
  ["ezodf/timeparser.py"],
  [("duration parser and formatter", "ezodf/timeparser.py")],
  ["str(), value and kind of the parsed object"])
p("C26", "Style containers find and replace styles by name",
  """In each style container, looking up a name yields the style element with that name or raises KeyError, before and after styles are set, replaced or injected; setting a style under its name appends it when new and replaces exactly the old one otherwise, keeping the order of the others. Containers do not affect
  each other, and inject_style adds exactly the given style to the common styles, as seen by a reopened document.""",
  ["histories"], "all histories of lookups, assignments and injections on new and loaded documents",
  "Style containers have no tests.",
  ["ezodf/styles.py", "ezodf/document.py"],
  [("find by name with cache", "ezodf/styles.py Container")],
  ["style elements in styles.xml and lookup results"])
p("C27", "Lists, headings and numbering keep their invariants",
  """A list has at most one header, always its first child, and iteritems() yields exactly its items in order; ezlist(items, header) yields those items and header with their text. Heading and paragraph levels and start values are integers never below 1, whatever was assigned; each attribute reads back the value
  last assigned (booleans as bool) and does not affect any other attribute, child or text. Table row/column visibility accepts only its documented values, and protecting a table or section sets a protection key.""",
  ["histories", "inputs"], "all sequences of attribute and list operations with all values (list headers set through the header attribute or ezlist)",
  "The tests assign one value per attribute.",
  ["ezodf/text.py", "ezodf/propertymixins.py", "ezodf/table.py", "ezodf/__init__.py", "ezodf/protection.py"],
  [("property factories", "ezodf/propertymixins.py"), ("list header", "ezodf/text.py List.header")],
  ["attribute getters, children and plain text"])
p("C28", "Prelude and epilogue blocks are organised without loss",
  """Reordering a node moves exactly its prelude elements to the front and its epilogue elements to the end, grouped in the order of the given tags and otherwise in document order, and changes nothing else. The size, tag position and insert positions reported for a prelude or epilogue block always describe the block actually present, so that inserting at the position
  reported before or after a present tag, or before/after the whole block, keeps the block contiguous and ordered.""",
  ["inputs", "histories"], "all child sequences over prelude, content and epilogue tags and all tags",
  "The tests use a few fixed sequences.",
  ["ezodf/nodeorganizer.py", "ezodf/nodestructuretags.py", "ezodf/nodestructurechecker.py"],
  [("block scanning", "ezodf/nodeorganizer.py")],
  ["child order and reported positions"])
p("C29", "Documents and objects are independent of each other",
  """Whatever is done with one document (edits of sheets, cells, text, metadata, variables and styles, saving, closing) changes nothing in any other open document, in stored copies, or in documents and objects opened or created later. Only operations that name two documents touch both: copying a sheet adds an independent copy to the target,
  appending or assigning a sheet or paragraph of another document moves it there completely. Objects and documents created without arguments always start in the same documented empty state, and objects held by the user keep showing the document they are part of.""",
  ["histories"], "all histories of operations on up to three documents opened from shared or separate sources, with stores and reloads in between",
  "The tests work with one document at a time.",
  ["ezodf/document.py", "ezodf/wrapcache.py", "ezodf/table.py", "ezodf/pagecontainer.py", "ezodf/meta.py", "ezodf/variables.py", "ezodf/styles.py"],
  [("wrapper cache", "ezodf/wrapcache.py"), ("class and module state", "ezodf/xmlns.py, ezodf/observer.py, ezodf/conf.py")],
  ["full content of every open document after every operation"])
p("C30", "Qualified names and wrapper classes resolve as registered",
  """CN('prefix:local') is '{uri}local' with the URI last registered for the prefix, for the OpenDocument prefixes the standard's URI; names already in Clark notation are returned unchanged, anything else is refused with an exception, independent of what was asked before. wrap(element) returns an object of the class last registered for the
  element's tag (GenericWrapper if there is none) that shares the element; every documented OpenDocument element gets its wrapper class, and objects created without an element carry their class's tag.""",
  ["inputs", "histories"], "all names, all histories of registering name spaces and classes and resolving names and elements",
  "The tests resolve a few names once.",
  ["ezodf/xmlns.py", "ezodf/const.py", "ezodf/base.py"],
  [("prefix cache", "ezodf/xmlns.py _XMLNamespaces"), ("class registry", "ezodf/xmlns.py _ClassRegistry")],
  ["CN() results, class and node of wrapped elements"])
p("C31", "The frame of a document stays complete and in order",
  """In content.xml, styles.xml, meta.xml and in flat documents the elements that frame a document (office:meta, settings, scripts, font-face-decls, styles, automatic-styles, master-styles, body) stand in every written file at most once
  and in the order OpenDocument requires, with exactly one office:body that holds exactly one element for the kind of document, whichever of them the opened file or template had or lacked, or if a whole part was missing. Opening, editing and saving
  keep what the frame elements hold and all other elements and comments beside them; what is put into a frame element through the API is found in exactly this one.""",
  ["inputs", "histories"], "all new, opened and template documents, packaged and flat, with any subset of the frame elements in valid order, and all histories of additions and reopenings",
  "The tests open files written by one program, in which all frame elements are there.",
  ["ezodf/content.py", "ezodf/styles.py", "ezodf/meta.py", "ezodf/document.py", "ezodf/xmlns.py"],
  [("find or create frame elements", "ezodf/xmlns.py subelement"), ("references to the frame elements", "ezodf/content.py, ezodf/styles.py, ezodf/document.py FlatXMLDocument._setup")],
  ["children of the root elements in the written files"])
p("C32", "The package check accepts exactly proper packages of the type",
  """check_zipfile_for_oasis_validity(filename, mimetype) is True for every package the library saved and the document's mimetype, whatever the document was made from, and in general exactly for zip files whose first entry is the uncompressed part 'mimetype' (without extra field)
  holding exactly this mimetype, which contain content.xml, styles.xml, meta.xml and META-INF/manifest.xml, and whose manifest lists these three and '/' with this media type. For everything else, also for missing files and files that are no zip, it is False. It changes no file.""",
  ["inputs"], "all packages with any defect of the mimetype part, any subset of the required parts and manifest entries, all media types",
  "The tests check five proper packages only.",
  ["ezodf/filemanager.py"],
  [("package check", "ezodf/filemanager.py check_zipfile_for_oasis_validity")],
  ["result of the check, bytes of the file"])
p("C33", "Parts registered with a document's file manager get into its packages",
  """A part registered with doc.filemanager.register(name, element, media_type) - bytes, text or an object with tobytes() - is in every package written afterwards, by tobytes, save, saveas or to a stream, exactly once and with this content; an object is asked for its content when
  the package is written. The last registration of a name counts and takes the place of a part of the opened package with this name; the other parts stay as they are. The manifest lists the part with its media type (empty if none is told) until it is told otherwise through the manifest. Reopened, or used as a template, the package gives the same parts and entries.""",
  ["histories", "inputs"], "all histories of registrations, manifest changes, saves and reopenings, with parts of any name and content besides the ones the library manages",
  "The tests register one file and read it back once.",
  ["ezodf/filemanager.py", "ezodf/manifest.py", "ezodf/document.py"],
  [("register", "ezodf/filemanager.py register"), ("parts of the source", "ezodf/filemanager.py _copy_zip_to")],
  ["names, contents and manifest entries of the written packages"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
