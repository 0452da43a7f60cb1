from registry import prop, IMG, SAN

CLI = "Runs the real command-line program in a child process; the expected document comes from the values the base was built from."

prop("T01", "Every table description gives the record layout the records are stored with",
     "For every table description, each field of each record is exported with the value stored in it: field positions follow from the description alone (the deleted mark, then the version field, or the hidden version when record locks are on and there is no version field, then the fields in the order described, with one extra byte for nullable fields). The XML export lists exactly the described fields with their names, types, lengths, precisions and nullability. This holds in every supported base format.",
     ["inputs", "configurations"], "all sequences of field types (nullable or not) up to the length bound, with and without record locks and version fields, in every base format",
     "The fixture bases hold a handful of fixed tables; a wrong size or offset for one type or combination shifts every later field and shows only with that combination.",
     ["src/tool1cd/Table.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/FieldType.cpp"],
     [("layout", "Table.cpp Table::init"), ("sizes", "FieldType.cpp FieldType::get_size and subclasses"), ("export", "Table.cpp Table::export_to_xml")],
     "h_table", "every field alone in 9 base formats, every pair, every type between fixed neighbours, wide tables to 200 fields; 4 records each (one removed, one with NULLs)", "adds every triple of fields",
     "For every field sequence a base is built, exported with -eax, and the document parsed strictly and compared cell by cell. " + CLI, assumptions=[IMG])

prop("T02", "XML export contains every live record exactly once and no removed record",
     "For every table, the XML export contains each record that is not marked removed exactly once and no removed record, whatever the pattern of removed records, the record length relative to the page size, the number of records, or the indexes the table has; tables without a primary index are listed in the order of their data. One -eax run writes one well-formed UTF-8 document per table and leaves the base unchanged.",
     ["inputs", "configurations"], "all patterns of removed records up to the record bound with no, a secondary or a primary index; record lengths and counts around page boundaries; all combinations of table kinds in one base",
     "The tests only open the fixture bases and count tables; the contents of an export are never compared with the base.",
     ["src/tool1cd/Table.cpp", "src/tool1cd/Index.cpp"],
     [("record enumeration", "Table.cpp Table::fill_records_index, export_to_xml, get_record"), ("index use", "Index.cpp Index::create_recordsindex")],
     "h_table", "all removal patterns of up to 5 records x 3 index kinds x 4 formats; 11 record lengths x 6 counts x 3 patterns x 4 formats; all 64 triples of table kinds", "up to 7 records, larger tables",
     "Each scenario builds a base, exports it and compares every document with the records it was built from. " + CLI, assumptions=[IMG])

prop("T03", "XML export presents every stored value faithfully",
     "The XML export presents numbers, strings, dates, booleans, binary values, 1C identifiers and row versions so that the stored value can be read back exactly: all digits, sign and decimal point of numbers; every character of strings with markup escaped; every byte of binary values; all components of dates; and an empty element for NULL. The document is always well-formed.",
     ["inputs"], "every value of short fields, and boundary values of long ones, for every type, length and precision; every character of the basic plane in blocks; every byte value and length of binary fields",
     "No test compares an exported value; the errors need particular lengths, precisions, digits or characters.",
     ["src/tool1cd/FieldType.cpp", "src/tool1cd/BinaryDecimalNumber.cpp", "src/tool1cd/BinaryGuid.cpp", "src/tool1cd/Common.cpp"],
     [("presentation", "FieldType.cpp get_XML_presentation"), ("decimals", "BinaryDecimalNumber.cpp"), ("identifiers", "BinaryGuid.cpp"), ("escaping", "Common.cpp toXML")],
     "h_table", "all values of numbers of up to 2 digits, boundary digits up to 38; 1 in 8 Unicode blocks beyond U+2400; all binary lengths up to 40", "3-digit numbers, all precisions, every Unicode block",
     "Values are enumerated, stored, exported and parsed back from the document. " + CLI, assumptions=[IMG])

prop("T04", "Long values are assembled from their chunk chains completely",
     "Memo, text and image values in the blob file are exported completely and unmixed for every length, every order of chunks in the file (forward, backward, interleaved with other values) and every fill of the chunks: images as base64 that decodes to the stored bytes, memo and text values as their characters. An empty or NULL value gives an empty element.",
     ["inputs"], "value lengths around every multiple of the chunk size, both chain directions, four chunk fills, and all interleavings of the chunks of two values",
     "A lost, repeated or foreign chunk appears only for particular lengths or chain shapes that the fixtures do not contain.",
     ["src/tool1cd/Table.cpp", "src/tool1cd/FieldType.cpp", "src/tool1cd/Base64.cpp"],
     [("chain", "Table.cpp Table::readBlob"), ("presentation", "FieldType.cpp get_XML_presentation for memo, text, image"), ("encoding", "Base64.cpp")],
     "h_table", "21 lengths x 2 directions x 4 fills x 3 types x 4 formats; all chunk orders of 3+2 chunks; values to 300000 bytes", "3+3 chunks, larger values",
     "Each blob file is laid out chunk by chunk by the harness and the exported value compared with the one stored. " + CLI, assumptions=[IMG])

prop("T05", "A table with a primary index is exported in primary index order",
     "The records of a table that has a primary index are exported in the order of that index: every record the index lists, once, following the leaf chain, for every number of records, order, key length, leaf and branch capacity, physical placement of index pages, and position of the primary index among the table's other indexes.",
     ["inputs", "configurations"], "all orders of few records with every leaf size; tree shapes of up to 16 records; positions and key lengths; full pages; index files that end around 2, 4 and 5 GiB",
     "Fixture tables never have multi-level or scattered primary indexes, and the order of an export is never compared.",
     ["src/tool1cd/Index.cpp", "src/tool1cd/Table.cpp"],
     [("leaf chain", "Index.cpp Index::get_numrec, create_recordsindex, create_recordsindex_one"), ("choice", "Table.cpp Table::fill_records_index, init")],
     "h_table", "all orders of up to 4 records; 8 sizes x 3 leaf x 3 branch capacities x 2 placements x 4 formats; 6 key lengths x 12 positions; index pages at 2, 4 and 5 GiB of the index file", "5 records, larger trees",
     "The index file is laid out independently and the exported order compared with the order of the index entries. " + CLI, assumptions=[IMG])
