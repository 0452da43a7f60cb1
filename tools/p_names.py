from registry import prop, IMG, SAN

prop("N01", "Names found in a base never lead out of the directory given",
     "The names a base contains - of tables, fields, records (keys), files of configurations, containers and repositories - may be anything, also paths (../x, /x, a/b), dots, control characters or longer than a file name may be. The export commands (-eax, -ex, -eb, -bf, -pb, -dc, -ddc, -dac, -dvc, -drc, -dpc) write only inside the directory given to them: nothing outside is created, changed or removed. The data themselves are still written, under a name that is possible, one file for each; -eb followed by -ib brings a table of such a name back, and -ib never takes data from outside the directory given.",
     ["inputs", "configurations"], "all names of an alphabet of dangerous names at every place of a base where names are taken from, with every export command, in several layouts; keys of every length around the limits in characters of 1 to 4 bytes",
     "The bases of the tests contain ordinary names only.",
     ["src/ctool1cd/App.cpp", "src/tool1cd/Common.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/save_part_depot_config.cpp"],
     [("tables", "App.cpp App::export_all_to_xml, Table.cpp Table::export_table, import_table"), ("records", "Table.cpp Table::get_file_name_for_record"), ("containers", "cfapi/V8Catalog.cpp V8Catalog::SaveToDir"), ("repositories", "save_part_depot_config.cpp")],
     "h_names", "28 names x 5 places x 4 commands or kinds x 3 layouts, about 300 key lengths", "9 layouts, all lengths in steps of 3",
     "Runs the real program in a scratch tree with files that the names would reach and compares everything outside the directory given before and after; contents are looked for inside.",
     assumptions=[IMG, SAN, "Two names that differ only in characters impossible in a file name are not put in one directory.", "Vendor configurations are covered by C04."])
