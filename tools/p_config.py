from registry import prop, IMG, SAN

REAL = "Runs the real library and the real command-line program on synthetic bases."
C8 = "The container builder and parser in harness/v8c.hpp are written from the format description, share no code with the library, and are trusted."

prop("C01", "Files kept in container tables are found whole, packed or not",
     "In a table of files (CONFIG, CONFIGSAVE and the like) there is exactly one file for every name - whatever its case - that occurs in a record which is not removed, has a name and has data; it is found by its name in any case, is called as in its record of part 0, and its stored data are the data of its records joined in the order of PARTNO, whatever the order of the records and whether or not all parts are present; without the field PARTNO every record is a whole file. Files named DynamicallyUpdated, SprScndInfo, DBNamesVersion or siVersions, with a name beginning with { or containing fo_version, or with the extension inf or pf (in any case) are taken as they are, all others are unpacked when opened. Opening, opening raw and closing in any order always shows the same contents from the beginning. A table is accepted exactly when it has six or seven fields named FILENAME, CREATION, MODIFIED, ATTRIBUTES, DATASIZE, BINARYDATA and PARTNO, in any case and in this order.",
     ["inputs", "histories"], "all sequences of rows of the alphabet up to the length bound; all names of the alphabet with all sequences of opening and closing; all single changes and swaps of fields",
     "The tests export the configuration of one base.",
     ["src/tool1cd/TableFiles.cpp", "src/tool1cd/ConfigStorage.cpp", "src/tool1cd/Table.cpp"],
     [("parts and names", "TableFiles.cpp TableFiles"), ("field check", "TableFiles.cpp test_table"), ("opening", "ConfigStorage.cpp ContainerFile")],
     "h_config", "12 kinds of rows in all sequences of up to 3; 28 names x 3 numbers of parts x 3 lengths x all sequences of 4 of open, raw open, close; 45 field lists x 3 tables", "sequences of up to 5 rows and 5 operations, 9 layouts",
     "Enumerates tables and operation sequences on the real classes and compares with a map computed from the rows. " + REAL, assumptions=[IMG, SAN])

prop("C02", "The exported database configuration holds every file as in force",
     "Command -ddc (and the first file of -dac, and T_1CD::save_config) writes a well-formed container which holds, for every file of CONFIG and for nothing else, one file under its plain name with exactly the stored bytes (all parts joined) of the version in force: of the versions name_dynupdate_id (before the extension, if any) the one whose id comes last in the list DynamicallyUpdated, otherwise the plain one, otherwise any other there is (an unlisted dynamic update or name.new). The list itself is not exported. An existing file is replaced as a whole, a directory receives dbcf.cf, a second export gives the same, and the base does not change.",
     ["inputs", "configurations"], "all sets of versions of a file with all lists of the alphabet, beside other files; all numbers of files of the alphabet; all base layouts",
     "The tests export one base without dynamic updates.",
     ["src/tool1cd/ConfigStorage.cpp", "src/tool1cd/Class_1CD.cpp", "src/ctool1cd/App.cpp"],
     [("version in force", "ConfigStorage.cpp ConfigStorageTableConfig"), ("writing", "ConfigStorage.cpp save_config"), ("command", "App.cpp save_config")],
     "h_config", "64 sets of versions x 9 lists x 4 neighbours x 2 layouts; 9 names; 10 numbers of files; 80 runs of the program", "9 layouts",
     "Enumerates sets of versions and update lists, exports with the real code, decodes the result with an independent parser and compares with a direct computation. " + REAL, assumptions=[IMG, C8, SAN])

prop("C03", "The exported main configuration holds every file as in force",
     "Command -dc (and the second file of -dac, and T_1CD::save_configsave) writes a well-formed container which holds, for every file of CONFIG or CONFIGSAVE and for nothing else, one file under its plain name with exactly the stored bytes of the version in force: that of CONFIGSAVE if there is one, otherwise name.new of CONFIG, otherwise the last listed dynamic update, otherwise the plain one of CONFIG, otherwise any unlisted dynamic update. Plain files of CONFIG named in the list deleted of CONFIGSAVE are left out; the lists themselves are not exported. An existing file is replaced as a whole, a directory receives cf.cf, a second export gives the same, and the base does not change.",
     ["inputs", "configurations"], "all sets of versions of a file in both tables with all lists of the alphabet, beside other files; all sets of deleted files; all base layouts",
     "The tests export one base without saved changes.",
     ["src/tool1cd/ConfigStorage.cpp", "src/tool1cd/Class_1CD.cpp", "src/ctool1cd/App.cpp"],
     [("version in force", "ConfigStorage.cpp ConfigStorageTableConfigSave"), ("writing", "ConfigStorage.cpp save_config"), ("command", "App.cpp save_configsave")],
     "h_config", "128 sets of versions x 9 lists x 4 neighbours x 2 layouts; 8 sets of deleted files; 9 names; 10 numbers of files; 120 runs of the program", "9 layouts",
     "Enumerates sets of versions and lists, exports with the real code, decodes the result with an independent parser and compares with a direct computation. " + REAL, assumptions=[IMG, C8, SAN])

prop("C04", "Configurations of vendors are listed and exported exactly",
     "The vendor configurations of a base are exactly the files of CONFIG and CONFIGSAVE with a name of 73 characters; each is listed with the name, the vendor and the version found in its metadata, for containers of 8.0 (metadata in a nested container) and later ones, for all layouts of the properties and any position of the node of general properties. Commands -dvc and -dac write each of them, as `name version.cf`, unpacked to exactly the container it is, into the directory given and nothing else; no name and no version leads out of the directory. The base does not change.",
     ["inputs", "configurations"], "all combinations of container version, layout of properties and position of the node; all subsets of six rows in both tables; all odd names of the alphabet",
     "No test has a base with vendor configurations.",
     ["src/tool1cd/SupplierConfigBuilder.cpp", "src/tool1cd/SupplierConfig.cpp", "src/tool1cd/Class_1CD.cpp", "src/ctool1cd/App.cpp"],
     [("reading metadata", "SupplierConfigBuilder.cpp build"), ("search", "Class_1CD.cpp find_supplier_configs"), ("writing", "SupplierConfig.cpp save_to_file, App.cpp save_vendors_configs")],
     "h_config", "8 layouts of properties x 6 container versions x 6 positions x 2 ways; 64 subsets x 3 ways x 2 layouts; 8 odd names x 2 fields x 2 ways", "the same",
     "Enumerates vendor configurations made by an independent builder and compares the list and the written bytes. " + REAL, assumptions=[IMG, C8, SAN])

prop("C05", "Configuration adapters read and write files by path alike",
     "A file inside a configuration is read by its path - one or more names separated by / (in containers and tables also \\) - with the same contents from a directory, from a .cf file and from the tables CONFIG and CONFIG with CONFIGSAVE, through any levels of nested containers; a path that names nothing gives nothing, as does a path through something that is no container. fileexists tells whether the first part of the path exists (in a directory: the whole path). Several files may be opened and closed in turn. Reading does not change the storage. What is written into a directory or a .cf file by path, overwriting or creating, is what is read afterwards; other files stay.",
     ["inputs", "histories"], "all pairs of paths of the alphabet, existing or not, kept open or closed; all sequences of three writes",
     "No test uses the adapters except to export.",
     ["src/tool1cd/ConfigStorage.cpp", "src/tool1cd/ConfigStorage.h"],
     [("paths", "ConfigStorage.cpp readfile, writefile, fileexists"), ("closing", "ConfigStorage.cpp close")],
     "h_config", "21 paths in all pairs x 4 adapters x 2 separators x 2 ways of closing; 5 paths in all sequences of 3 writes", "triples of paths",
     "Enumerates sequences of operations on the real adapters and compares with the tree of files. " + REAL, assumptions=[IMG, C8, SAN])

prop("C06", "Exported, unpacked and changed files of containers bear the right times",
     "The times of creation and modification of a file in a container are those of the local clock. A file in a .cf file written by -dc, -ddc or -dac (and by the library) bears exactly the times of creation and modification kept in its record (that of part 0) of the table, whatever the time zone of the process, its summer time and the year; a file unpacked from a container (-bf, V8Catalog::SaveToDir) has as its time of modification and of access the moment at which the local clock shows the time of modification and of creation of the file in the container, with parts of a second dropped, as far as the file system keeps such a time; times read from a file of a container as universal file times and set back are the same; a file written bears the local time of writing, and no other file and no time of creation of an existing file changes. Local times skipped by the clock are excluded.",
     ["inputs", "configurations"], "all pairs of dates of the alphabet in all time zones of the alphabet; all ways of export and unpacking",
     "No test looks at times.",
     ["src/tool1cd/SystemClasses/System.cpp", "src/tool1cd/cfapi/V8Time.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/Common.cpp", "src/tool1cd/TableFiles.cpp"],
     [("conversions", "SystemClasses/System.cpp, cfapi/V8Time.cpp"), ("times of records", "Common.cpp time1CD_to_FileTime, TableFiles.cpp"), ("unpacked files", "cfapi/V8File.cpp save_to_file")],
     "h_config", "10 time zones (fixed offsets to the quarter of an hour, summer time in both hemispheres, zones of the zone database) x 23 dates of the years 1 to 3999 around the limits of 1601, 1970, 2038 and 2106 and the changes of the clock: all pairs; 6 ways of export x 2 layouts, 4 ways of unpacking, 5 ways of writing", "9 layouts",
     "Enumerates dates and time zones and compares the times in the written containers, decoded by an independent parser, and of the files with the calendar computed independently and the zone rules of the C library. " + REAL, assumptions=[IMG, C8, SAN, "The zone rules of the C library (mktime, localtime) are trusted."])
