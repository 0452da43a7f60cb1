from registry import prop, IMG, SAN

REAL = "Runs the real library and the real command-line program on synthetic repositories."
DEP = "The repositories are synthetic; their fields, indexes, packs and loose objects follow the repositories of versions 5, 6 and 7 that come with the tests, and the format of version 3 as the code describes it."
F = ["src/tool1cd/save_depot_config.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/PackDirectory.cpp", "src/tool1cd/TableIterator.cpp", "src/ctool1cd/App.cpp"]

prop("D01", "Any version of a repository is exported as the configuration it was",
     "Command -drc N (and T_1CD::save_depot_config) on a configuration repository of version 3, 5, 6 or 7 writes a well-formed container with exactly the configuration of version N (a number of an existing version; 0 the last version, -1 the one before, and so on): every object whose last row up to N that is a removal or carries data carries data, with the stored bytes and the version identifier of that row; every external file of it that has a row in the version of that row, with the stored bytes and the identifier of its last row up to N that carries data; the files root, version (the configuration version of the repository version, or of the base layout for version 3) and versions (an identifier for each file and the right count); for configuration versions below 100 the objects unpacked in the packed container metadata. Nothing else is in it. It does not matter where the data are (in the base, in a pack, in a loose file), in which order the records lie, whether removed records lie between them, how many there are and where the index is split. If the version has a snapshot file whose unpacked contents have the recorded checksum, the result is exactly these contents; otherwise the snapshot has no influence. An existing file is replaced, a directory receives vN.cf. A version that does not exist is refused and nothing is written; missing data, an unknown repository version or a missing pack directory end in an error. The base does not change.",
     ["inputs", "histories"], "all histories of an object over up to 4 versions, all histories of its external files over 3, all pairs of objects with short histories, all snapshots and checksums of the alphabet, all version arguments",
     "The tests only look whether a file appears for the last version.",
     F, [("walk over history", "save_depot_config.cpp T_1CD::save_depot_config"), ("snapshots", "save_depot_config.cpp try_save_snapshot"), ("version numbers", "Class_1CD.cpp get_ver_depot_config")],
     "h_depot", "68 histories x 6 kinds of repository x 2 layouts x 4 versions; external histories over 5 object histories; 14 x 14 pairs x 3 kinds; 1008 snapshot cases; 220 runs of the program", "up to 5 versions, 9 layouts, triples of objects",
     "Enumerates short histories of objects and external files, exports every version with the real code, decodes the result with an independent parser and compares with a direct computation over the rows. " + REAL, assumptions=[IMG, DEP, SAN])

prop("D02", "The files changed in a range of versions are exported exactly",
     "Command -dpc B:E (or one number; each as in -drc, in either order; and T_1CD::save_part_depot_config) writes into an empty directory exactly these files: for every object with a row in the range whose last row in it carries data, unless the last row before the range carries the same data, the unpacked contents under the object's identifier (in the subdirectory metadata for configuration versions below 100); for every external file with a row in the version of that last row, the contents, unpacked if packed, of that row, or, if it carries none, of the last earlier row inside the range with the same name and identifier, and a directory of files if the contents are a container; and, if there are any, the file deleted which lists the identifiers of the objects that existed before the range and whose last row in it is a removal, and the names of their external files in that version, one per line. Data may be in the base, in a pack or in a loose file. Nothing is written outside of the directory whatever the names of external files. A version that does not exist, missing data, an unknown repository version or a missing pack directory end in an error. The base does not change.",
     ["inputs", "histories"], "all histories of an object over up to 4 versions with all ranges, all histories of its external files over 3 versions, all pairs of objects with short histories, all range arguments of the alphabet",
     "The tests call it once for version 1 and look at nothing.",
     ["src/tool1cd/save_part_depot_config.cpp"] + F[1:], [("selection", "save_part_depot_config.cpp T_1CD::save_part_depot_config"), ("range argument", "App.cpp save_depot_config_part")],
     "h_depot", "68 histories x 7 kinds of repository x all ranges; external histories over 6 object histories; pairs x 3 kinds; 70 kinds and names of external files; 126 runs of the program", "up to 5 versions, 9 layouts, triples of objects",
     "Enumerates short histories and all ranges of versions, exports with the real code and compares the directory tree with a direct computation over the rows. " + REAL, assumptions=[IMG, DEP, SAN])

prop("D03", "Packed and loose objects of a repository are found by their hash",
     "In the data directory of a repository an object with non-empty contents that is in any of the packs pack-*.ind/.pck or in a loose file under objects is found by its hash (for packs in upper or lower case) with exactly its contents, however often and in whatever order objects are asked for, and an object that is nowhere is reported as not found; hashes that differ in one bit are different; other files in the directory are ignored. A missing pack directory, a pack without its data file and an index cut inside its header are refused.",
     ["inputs", "histories"], "all placements of four objects in three files, the loose directory or nowhere; all single-digit differences of the hash; all sizes of the alphabet",
     "The tests read a few packed objects of one repository.",
     ["src/tool1cd/PackDirectory.cpp", "src/tool1cd/Packdata.cpp"], [("search", "PackDirectory.cpp PackDirectory::get_data"), ("packs", "Packdata.cpp Packdata")],
     "h_depot", "625 placements x 2; 41 x 4 similar hashes; 13 sizes x 3 x 4; up to 3000 objects", "3125 placements",
     "Enumerates placements of objects and compares what the real classes return. " + REAL, assumptions=[DEP, SAN])
