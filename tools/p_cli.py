from registry import prop, IMG, SAN

CLI = "Runs the real command-line program (its main, in a child process)."

prop("S06", "A file is opened as a base exactly when it is a supported, intact base",
     "A file is accepted as a base exactly when it begins with the signature 1CDBMSV8, its version is one of 8.0.3.0, 8.0.5.0, 8.1.0.0, 8.2.0.0, 8.2.14.0 and 8.3.8.0, its page size is valid (4096 bytes before 8.3.8; a power of two of at least 4096 from 8.3.8 on), its length is a whole number of pages and that number is the one in its header. Anything else is refused with exit code -82 (-81 if there is no such file), without output files and without being changed. A base is an infobase when it has CONFIG, CONFIGSAVE, PARAMS, FILES and DBSCHEMA, a depot when it has none of these but all ten depot tables; with only some of them it is refused; with none it opens as neither. Names are compared without regard to case, and the order of the tables does not matter.",
     ["inputs", "configurations"], "every value of every header byte, every small combination of version numbers, every truncation around page boundaries, all page-size and page-count values of the alphabet, all subsets of the infobase and depot tables, in every base format",
     "The tests open two intact fixture bases and one missing file.",
     ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/Class_1CD.h", "src/ctool1cd/App.cpp"],
     [("opening", "Class_1CD.cpp T_1CD::open"), ("version", "Class_1CD.h v8con::getver"), ("exit codes", "App.cpp App::Run")],
     "h_cli", "every third value of 24 header bytes (all values of the version), 420 version combinations x 7 formats, 63 lengths, 32 x 4 infobase subsets, 1024 depot subsets", "all values of all header bytes, all depot subsets in three formats",
     "Damaged copies of synthetic bases are opened by the real program; an independent predicate decides whether the header is valid. " + CLI, assumptions=[IMG])

prop("T06", "Binary export and import move a table completely and touch nothing else",
     "-eb writes for every listed table a directory with the table's name holding exactly the files the table has: data, blob and index (and the description in formats before 8.3.8), each byte for byte the contents of that object, and root with the presence flags and versions of these objects; the base is not changed. -ib of such a directory into a table of the same name makes each object equal to the exported one in contents and version, whatever the lengths before and after, also when the table had no such object yet (formats before 8.3.8); all other tables keep their contents and versions, every page belongs to at most one object or to the list of free pages, and the imported records export to XML like the original ones, by later commands of the same run as well as by later runs. An import with missing or truncated files, of a table that was not exported, with -ne, or into an 8.0 base reports an error (exit code -50) and leaves the base byte for byte as it was.",
     ["inputs", "configurations", "histories"], "all pairs of source and target table shapes from the alphabet, all subsets of three tables, every missing-file combination and every truncation of root, in every writable base format",
     "No test imports anything; whether an import is complete depends on the sizes of both sides, the format and the presence of blob and index files.",
     ["src/tool1cd/Table.cpp", "src/tool1cd/V8Object.cpp", "src/ctool1cd/App.cpp"],
     [("export", "Table.cpp Table::export_table"), ("import", "Table.cpp Table::import_table"), ("writing objects", "V8Object.cpp V8Object::set_data")],
     "h_cli", "7 table shapes: 63 exports, all feasible pairs of shapes in 6 formats, 7 table subsets, 14 missing-file sets, 36 truncations of root", "10 table shapes including multi-megabyte tables",
     "Exports from one synthetic base, imports into another, then decodes the target image with the independent reader and compares objects, versions and page ownership. " + CLI, assumptions=[IMG])

prop("T07", "Blobs saved to files are complete, unpacked and under unique names",
     "With -bf yes every image value that is not NULL of every exported record is written to a file of its own beside the XML document, and the document names that file; no two values share a file, whatever the values of the index fields the names are made from (equal keys, keys that differ in case only, empty keys, keys with markup or path separators), and every file lies inside the blob directory of its table. With -pb no the file holds the stored bytes. With unpacking (the default) it holds the content: of a value storage (plain or packed) the data it stores, of CONFIG, CONFIGSAVE, FILES and PARAMS rows the inflated data (once, or twice for rows where 1C deflates twice), of users.usr and V8USERS rows the unmasked data, of a container a directory with its files; data that do not have such a structure are written as stored.",
     ["inputs"], "all tuples of key values up to the length bound for each kind of index and 1-2 image fields; every value variant at boundary sizes; every system table, packing depth and size; containers of 1-3 files in several layouts",
     "The tests never save blobs to files; collisions and packing depend on combinations of keys, sizes and table names.",
     ["src/tool1cd/Table.cpp", "src/tool1cd/FieldType.cpp", "src/tool1cd/UZLib.cpp", "src/tool1cd/Field.cpp"],
     [("blob export", "Table.cpp Table::export_to_xml"), ("unpacking", "Field.cpp Field::save_blob_to_file"), ("inflate", "UZLib.cpp")],
     "h_cli", "7 key values in tuples of up to 3, 4 index kinds; 13 value variants x 9 sizes x 3 settings; 10 system rows x 6 sizes x 4 packings x 2; 72 containers", "tuples of up to 4; sizes to 11 MB",
     "Exports synthetic tables with -bf and compares every file named in the document with the value stored, unpacked by the independent reference. " + CLI, assumptions=[IMG])

prop("A01", "The command line is interpreted as documented and the exit code tells",
     "Keys are recognised in their short and long form without regard to case, and take their documented number of parameters; the first other argument is the base, quotes around arguments are removed. Unknown keys, missing parameters and a second base are reported and the rest is still carried out. Commands run in the order given. -h prints the help and does nothing else. The exit code is 0 exactly when no error was reported, otherwise -71 (no base named), -81 (no such file), -82 (not a base that can be opened) or -50 (another error). Only the files the commands ask for are created. -bf and -pb take 1, y, yes, д or да for yes in any case and everything else for no; the defaults are no and yes.",
     ["inputs"], "all argument sequences up to the length bound over an alphabet of keys, file names, quoted and malformed arguments; all spellings of all keys; all yes/no words",
     "The tests never run the command-line program.",
     ["src/ctool1cd/App.cpp", "src/ctool1cd/ParseCommandLine.cpp", "src/ctool1cd/cTool_1CD_Main.cpp"],
     [("parsing", "ParseCommandLine.cpp"), ("commands and exit codes", "App.cpp App::Run")],
     "h_cli", "19 arguments in all sequences of up to 3; 10 arguments in all sequences of 4", "10 arguments in all sequences of 5",
     "An independent interpreter of the documented command line predicts the exit code and the set of files; each run starts in a fresh directory. " + CLI, assumptions=[IMG])

prop("A02", "A list of tables selects exactly the tables it names",
     "-ex, -eb and -ib apply to exactly the tables whose whole name matches an element of the list, without regard to case, where * stands for any characters and ? for exactly one; elements are separated by spaces, tabs, commas and semicolons in any number. Elements that match nothing are not an error; a list without any element is, and then nothing is exported or imported.",
     ["inputs"], "all patterns up to the length bound over letters and wildcards; all pairs of patterns with every separator; the same lists on import",
     "The tests never select tables.",
     ["src/ctool1cd/App.cpp", "src/tool1cd/Common.cpp"],
     [("lists", "App.cpp table filter"), ("export, import", "App.cpp App::export_to_xml, export_to_binary, import_from_binary")],
     "h_cli", "all patterns of up to 3 characters over A, b, *, ?; 100 pairs x 8 separators x tables of 12 names; 40 imports", "patterns of up to 4 characters",
     "The set of exported (or changed) tables is compared with a direct wildcard matcher. Names and patterns consist of letters, digits and underscores. " + CLI, assumptions=[IMG])

prop("A03", "The table of sizes tells the true sizes of all tables",
     "-sts writes one line per table, in the order of the base, with its name, the number of records (live and removed) and the lengths in bytes of its data, blob and index objects (0 for an object it does not have), for every length the format allows, also beyond 2 and 4 GiB. An existing file is replaced. The base is not changed.",
     ["inputs", "configurations"], "all combinations of record counts, record lengths and object kinds of the alphabet, numbers of tables, and object lengths around 2 and 4 GiB in every format that can hold them",
     "The tests check one base against one golden file.",
     ["src/ctool1cd/App.cpp", "src/tool1cd/Table.cpp"],
     [("sizes", "App.cpp App::save_tables_sizes"), ("record counts", "Table.cpp Table::get_phys_numrecords")],
     "h_cli", "6 record counts x 4 kinds x 2 lengths x 9 formats, 4 numbers of tables, after 5 other commands of the run, 6 huge lengths", "the same",
     "The file is compared with sizes computed from the image by the independent reader. " + CLI, assumptions=[IMG])

prop("M01", "Every message reaches the console or the log, and changes nothing else",
     "Messages of the commands appear on the console (standard error); with -l they are appended to the given log file instead, which is removed first, so it holds exactly what the console would have shown; with -nv the console stays silent, and with -nv and -l the log is complete. If the log cannot be opened - a directory stands in its place, its directory does not exist - the messages appear on the console (unless -nv is given), and only a regular file is ever removed. Other files written and exit codes do not depend on -l and -nv. A run that fails says why.",
     ["inputs", "histories"], "every command of the alphabet alone on an intact, damaged, missing and absent base, and every ordered pair of commands, each in four message settings",
     "The tests never look at messages.",
     ["src/ctool1cd/App.cpp", "src/tool1cd/Messenger.cpp", "src/tool1cd/MessageRegistration.cpp"],
     [("messages", "Messenger.cpp"), ("keys -l, -nv", "App.cpp App::Run")],
     "h_cli", "16 commands x 4 bases x 2 positions and 240 pairs, each run four times; 16 commands x 3 bases x 7 obstacles at the path of the log", "the same",
     "The four runs of a scenario are compared with each other: console, log file, files and exit code. " + CLI, assumptions=[IMG])
