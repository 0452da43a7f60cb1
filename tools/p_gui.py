from registry import prop, IMG

GUI = "The models, device and list behind the windows of gtool1cd are compiled from the repository and called through Qt's interfaces as its views call them; the windows themselves (widgets, dialogs, menus) are not run."

prop("G01", "The table window shows and saves exactly the records and values of a table",
     "The table model of gtool1cd has one column per field (named after it) and, without an index, one row per record in the order of the data; with an index, one row per record the index lists, in its order. A live record's cells show the stored values: numbers (aligned to the right), strings, dates as DD.MM.YYYY hh:mm:ss, booleans, binary values as hexadecimal digits, 16-byte fields with names ending in REF as identifiers, NULL as {NULL}, long values as a mark of their kind. Records marked removed are shown in italics and live ones are not; looking at removed ones is harmless. The full value of a cell is the text of a long value, unpacked if it is packed once (memo fields as two-byte text, text and image fields as UTF-8), the mark {catalog} for a container, and empty for NULL. Opening a long value gives its bytes unpacked as often as it was packed (up to five times), none for NULL; saving writes its bytes unpacked once if packed. Neither the order nor the number of looks changes any of this.",
     ["inputs", "configurations", "histories"], "all sequences of field types up to the bound with and without NULLs and record locks, all orders of an index and all patterns of removed records up to the record bound, index trees, all kinds, packings and lengths of long values",
     "No test touches gtool1cd; the row or the bytes behind one cell depend on the index, the removed records, the type and the packing at once.",
     ["src/gtool1cd/models/table_data_model.cpp", "src/tool1cd/TableRecord.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Index.cpp"],
     [("cells", "table_data_model.cpp TableDataModel::data, headerData, rowCount"), ("long values", "table_data_model.cpp getBlobStream, inflate_stream, dumpBlob; TableRecord.cpp try_store_blob_data"), ("rows of an index", "Index.cpp Index::get_numrec, get_numrecords")],
     "h_gui", "27 field kinds alone in 9 formats and all their pairs, 2 lock modes; all orders of all subsets of 4 records x 3 formats; 24 trees; 3 kinds x 4 packings x 9 lengths x 3 formats; containers; 3 marks of removed records", "all triples of fields, 5 records, up to 5 packings",
     "Every base is built from known records; every role of every cell is compared with them, twice and in several orders. " + GUI, assumptions=[IMG])

prop("G02", "Trees of bracket texts and containers show exactly their structure",
     "For every text in braces, the tree model of gtool1cd has a row for every value and list, at its place: number of rows, order, two columns, index and parent being inverse to one another, no rows past the end and none under the second column. The first column gives the path (':0:1'); the second the number of elements of a list or the value: its first line, and if that is longer than 40 characters, its first 37 and '...'. The full value is the whole text of the value, or, for binary values, a device with the decoded bytes. For every container, the container tree has the given name at its top, and under it a row per file, in the order of the container, with the files of nested containers under them; a file opens as its contents, unpacked if packed.",
     ["inputs"], "all trees up to the node bound; values of every kind, around the line and length limits; containers of every nested shape up to the file bound in three layouts, packed or not",
     "No test touches these models; a wrong parent or row shows only in particular shapes of trees.",
     ["src/gtool1cd/models/skobka_tree_model.cpp", "src/gtool1cd/models/v8catalog_tree_model.cpp", "src/gtool1cd/models/stream_device.cpp", "src/tool1cd/Parse_tree.cpp", "src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp"],
     [("texts", "skobka_tree_model.cpp SkobkaTreeModel"), ("containers", "v8catalog_tree_model.cpp V8CatalogTreeModel"), ("paths", "Parse_tree.cpp Tree::path")],
     "h_gui", "all forests of up to 6 nodes (empty lists and values); 66 values alone and in pairs; all containers of up to 5 files x 3 packings x 3 layouts", "8 nodes, 6 files",
     "Each tree is generated first and its text or container written from it; the model is walked completely and compared with it. " + GUI, assumptions=[IMG])

prop("G03", "The lists of tables, fields and supplier configurations tell the truth",
     "The list of tables of gtool1cd has a row per table with its name, the length of its records, whether it uses record locks (YES or NO), and the sizes of its data, blob and index objects and their sum, each with two decimals in a unit (B, KiB, MiB, GiB, TiB) in which it is at most about 1000, correct to the last digit shown, for objects and sums of any size, also beyond 2 and 4 GiB. The list of fields has a row per field with its name, type, length, precision, NULL or NOT NULL, and CS or CI. The list of supplier configurations has a row per configuration with its name, supplier and version, and saving a row writes exactly that configuration.",
     ["inputs", "configurations"], "bases with all combinations of table counts, shapes and record counts within the bounds; object lengths on both sides of every change of unit, at 2 and 4 GiB and beyond, in each of the three objects and in sums; all sets of four supplier configurations",
     "No test touches these lists, and sizes of gigabytes never occur in tests.",
     ["src/gtool1cd/models/tables_list_model.cpp", "src/gtool1cd/models/fields_list_model.cpp", "src/gtool1cd/models/vendor_configurations_table_model.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/SupplierConfig.cpp"],
     [("sizes", "tables_list_model.cpp human_size, object_size"), ("fields", "fields_list_model.cpp; FieldType.cpp get_presentation_type"), ("suppliers", "vendor_configurations_table_model.cpp")],
     "h_gui", "9 formats x up to 12 record counts x 2 x 4 shapes; 37 sizes x 3 objects and 9 sums, to 10 GiB (sparse bases); 16 sets of suppliers x 6 bases", "the same",
     "The harness builds the base (huge ones with a hole in the file), knows every length, and compares every cell. " + GUI, assumptions=[IMG])

prop("G04", "Devices give the bytes of their stream; opened bases are remembered in order",
     "A device over a stream, opened, read in any portions, read to its end, closed and opened again any number of times, gives exactly the bytes of the stream from its beginning and then none, and its size is the stream's. The list of opened bases holds, after any history of additions and restarts, exactly the added names in the order of their addition; it is empty in the beginning.",
     ["histories", "inputs"], "all sequences of open, close, reads of 1, 3, 9 and all bytes up to the depth bound, over memory and temporary streams of 0, 2, 5 and 40000 bytes; all histories of additions (4 names) and restarts up to the depth bound",
     "Only histories with reopening or particular portions show an error of positions, and no test has any.",
     ["src/gtool1cd/models/stream_device.cpp", "src/gtool1cd/cache.cpp", "src/tool1cd/TempStream.cpp", "src/tool1cd/SystemClasses/TMemoryStream.cpp"],
     [("device", "stream_device.cpp StreamDevice"), ("list", "cache.cpp Cache::addDbToList, getCachedList")],
     "h_gui", "depth 6 (46656 sequences x 8 streams); histories of up to 5 steps", "depth 7; 6 steps",
     "Every sequence runs on the real device, compared after every step with a byte string and a position. " + GUI, assumptions=[])

WIN = "The windows are the repository's own (all of src/gtool1cd but main), run with Qt's offscreen platform; a robot answers their dialogs as a user would. What they look like (fonts, sizes, colours) is not looked at."

prop("G05", "The window of a table shows the chosen value whatever was looked at before",
     "Choosing a cell in the window of a table shows exactly its value: for binary values a page with their bytes, unpacked as often as they were packed; for texts, and for binary values that are texts in UTF-8 or sheets, a page with the text; for texts in braces and containers a page with their tree, whose elements a double click opens in a window of their own; for NULL an empty text; and no other page, none of a value looked at before. Choosing an index or 'no index' lists exactly the records of that index in its order, and the value chosen then is that of the row seen. At first the rows are in the order of the index chosen in the box. Saving a chosen value writes its bytes, unpacked once if packed, to the chosen file; cancelling writes nothing.",
     ["histories", "inputs"], "all sequences of choices of a value and of an index up to the depth bound, over values of every kind, primary and ordinary indexes; every kind of value alone, in every column, twice",
     "What the window shows depends on everything shown in it before; no test opens a window.",
     ["src/gtool1cd/table_data_window.cpp", "src/gtool1cd/BlobViewer/blob_viewer.cpp", "src/gtool1cd/models/table_data_model.cpp", "src/gtool1cd/models/skobka_tree_model.cpp", "src/gtool1cd/models/v8catalog_tree_model.cpp", "src/gtool1cd/QHexEdit/document/qhexdocument.cpp"],
     [("choice of a row and an index", "table_data_window.cpp TableDataWindow::on_current_changed, on_indexChooseBox_activated"), ("pages", "BlobViewer/blob_viewer.cpp BlobViewer::setStream, setText, setEmptyData"), ("saving", "table_data_window.cpp TableDataWindow::on_saveBlobButton_clicked")],
     "h_win", "all sequences of 3 over 8 values and 3 choices of index (1331); 60 kinds of values x 3 formats; saving each", "sequences of 4 (14641); values packed twice",
     "Every base is built from known values; after every step the pages, bytes, texts, trees and rows of the real window are compared with those of the value and the order chosen. " + WIN, assumptions=[IMG])

prop("G06", "A session of gtool1cd opens, exports, imports and saves exactly what is chosen",
     "Choosing a base, or an entry of the list of opened ones, opens a window with its tables; a container opens as its tree; a file that is neither opens nothing, and a window says why. Every file opened by choice, and nothing else, is added to the list, which is shown the next time. In a window of a base: opening a table shows its records and values as they are now, in one window per table; 'export BLOB' writes exactly the objects of the selected tables to the chosen directory; 'import BLOB' replaces those of the selected table in the base, on disk, and nothing else; the export in XML writes what the library's export with the chosen settings writes; the configurations are saved as the library saves them, and the supplier's as it was stored. A cancelled dialog does nothing. A failing import or export ends neither the program nor the base. None of it depends on what was done before in the session, and only imports change the base.",
     ["histories"], "all sequences up to the depth bound of choices among two bases, a container, three files that are neither and three entries of the list; all sequences up to the depth bound of 11 actions in the window of a base, in every layout; failing imports and exports with any look before and after",
     "No test opens a window; errors of a session come from what an earlier action left behind.",
     ["src/gtool1cd/starter.cpp", "src/gtool1cd/mainwindow.cpp", "src/gtool1cd/configurations_window.cpp", "src/gtool1cd/export_table_to_xml_dialog.cpp", "src/gtool1cd/container_form.cpp", "src/gtool1cd/table_data_window.cpp", "src/tool1cd/Table.cpp"],
     [("opening", "starter.cpp StarterWindow::openDatabase, on_openNewButton_clicked"), ("export and import", "mainwindow.cpp MainWindow::export_blob_file, import_blob_file"), ("saving", "configurations_window.cpp ConfigurationsWindow; export_table_to_xml_dialog.cpp ExportTableToXmlDialog")],
     "h_win", "729 histories of opening, 1331 of work (sequences of 3), failing actions", "sequences of 4 (6561 and 14641)",
     "Every base is built from known records; after every action of a history on the real windows, the files written, the base on disk, the windows and the list are compared with what the model of the session says. " + WIN, assumptions=[IMG])

prop("G07", "The hex viewer shows, selects, copies and edits exactly the bytes chosen",
     "The hex viewer of gtool1cd paints, for every value and wherever it is scrolled to, a line per 16 bytes with the address of the first, the bytes as pairs of hexadecimal digits and as characters (a dot for those that cannot be printed), and every line can be scrolled to. Arrow keys move the cursor by a digit or a line, Page Up and Page Down by a page but never past the first or last line, Home and End to the ends of the line and with Ctrl of the value, a click to the byte clicked on; the cursor stays within the lines of the value and in sight. With Shift, or dragging, the bytes from where the selection began to the cursor are selected; Ctrl+A selects all. Copying puts exactly the selected bytes on the clipboard, as pairs of digits or as text, by the column last clicked in; without a selection it leaves the clipboard. Typing digits or characters, pasting, cutting, Delete and Backspace, over the bytes or (after Insert) between them, change the bytes shown as they would an array of bytes with the cursor in it, the selected bytes being removed first; undoing and redoing restore exactly the earlier and later bytes.",
     ["histories", "inputs"], "all lengths around multiples of 16 and the change of the address width, all positions of the scroll bar; all sequences of keys, with and without Shift, and of edits up to the depth bound from the beginning, middle and end of values of several lengths; all pairs of bytes for the mouse; typing at every place; editing keys with every selection",
     "The cursor's arithmetic fails only for particular lengths, lines and sequences; no test opens a window.",
     ["src/gtool1cd/QHexEdit/qhexview.cpp", "src/gtool1cd/QHexEdit/document/qhexdocument.cpp", "src/gtool1cd/QHexEdit/document/qhexcursor.cpp", "src/gtool1cd/QHexEdit/document/qhexrenderer.cpp"],
     [("keys", "qhexview.cpp QHexView::processMove, moveNext, movePrevious"), ("painting", "qhexrenderer.cpp QHexRenderer::render, drawHex, drawAscii"), ("copying and editing", "qhexdocument.cpp QHexDocument::copy, undo, redo; document/commands")],
     "h_win", "25 lengths x 3 window sizes; 10 keys x Shift in sequences of 3 from 3 places in 9 lengths (216000); sequences of 4 of 11 edits on 5 lengths (73205); typing up to 5 keys at every place of 6 lengths; 5 editing keys with every selection in 6 lengths", "sequences of 4 keys (4.3 million) and 5 edits",
     "The texts the real viewer paints are caught by a paint device of the harness and compared with the bytes; after every key, click and edit the cursor, the clipboard and the bytes are compared with a model of an array with a cursor. " + WIN, assumptions=[])
