from registry import prop, IMG, SAN

prop("S07", "Damaged bases never crash, hang or change",
     "Whatever is wrong with a base - any word of any page, any character of a description, any page exchanged with another, filled with zeros or cut off, in any structure (header, list of tables, descriptions, allocation tables, records, blobs, indexes, packed files) - the program run on it with the export commands (-eax, -ex, -eb, -bf, -pb, -slo, -sts, -dac, -ddc, -drc, -dpc) ends by itself in a time bounded by the size of the file, with exit code 0, -50 (errors were reported) or -82 (the base cannot be opened); it does not read or write memory that is not its own, does not write output without end, and does not change the base.",
     ["inputs"], "all single damages of an alphabet of values at every word of every used page, all truncations, page exchanges and page fills of four kinds of bases",
     "Tests use intact bases; what a damaged word leads to depends on where it is, and there are tens of thousands of words.",
     ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Index.cpp", "src/tool1cd/Parse_tree.cpp", "src/tool1cd/FieldType.cpp", "src/tool1cd/PackDirectory.cpp", "src/tool1cd/ConfigStorage.cpp"],
     [("objects", "V8Object.cpp V8Object::init, get_data"), ("blobs", "Table.cpp Table::readBlob"), ("indexes", "Index.cpp Index::create_recordsindex"), ("descriptions", "Parse_tree.cpp, Table.cpp Table::init")],
     "h_damage", "about 40000 damaged bases: 4-5 values for every word and every byte 0xff in empty words, 4 characters at every place of a description; an other table (plain), an infobase, repositories of version 5 and 6", "up to 18 values per word and 15 characters, 4 kinds x 6 layouts, both groups of commands",
     "Builds a small base of every kind, damages it in every way of the alphabet at every place and runs the real program, built with AddressSanitizer, on each result in a process of its own with limits of time and output.",
     assumptions=[IMG, SAN, "Two damages at once are explored only as far as copying a page or filling it makes several.", "A request of more than 1 GB of memory fails as it does in an ordinary process with limited memory."],
     technique="exhaustive single-fault enumeration on the real program")
