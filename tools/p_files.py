from registry import prop, IMG, SAN

REAL = "Runs the real command-line program on synthetic bases."
DEP = "Repositories are synthetic; their fields, indexes, packs and loose objects follow the repositories that come with the tests."

prop("S05", "Reading commands never change the base",
     "Whatever reading commands are given, alone or one after another (-eax, -ex, -eb with any of -bf/-pb, -slo, -sts, -dc, -ddc, -dvc, -dac, -drc, -dpc, or none), with good or bad arguments, the base file is byte for byte the same after the run and no file beside it is created, changed or removed, for every layout and for infobases, repositories (with their data directory) and other bases. With -ne this also holds for -ib. With -ne the user needs no right to write to the base or its directory, and the exit code and the files that the commands write are the same as without -ne.",
     ["inputs", "histories"], "all sequences of up to two commands of an alphabet of 18 (three in the thorough check), seven kinds of base, three ways of opening",
     "Tests look at the output of commands; none compares the base before and after, and none runs without the right to write.",
     ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/MemBlock.cpp", "src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/Table.cpp", "src/ctool1cd/App.cpp"],
     [("opening", "Class_1CD.cpp T_1CD::open"), ("write-back", "MemBlock.cpp MemBlock::flush"), ("read-only streams", "TFileStream.cpp")],
     "h_files", "18 single commands x 7 kinds of base x 4-9 layouts, all 324 pairs x 7 kinds x 2 layouts, each run exclusively, with -ne, and with -ne without write permission (capabilities dropped)", "all pairs in all layouts, 9 x 17 x 9 triples x 3 kinds x 2 layouts",
     "Enumerates command sequences, runs each three times in processes of its own and compares the directory of the base before and after, and the outputs of the three. " + REAL, assumptions=[IMG, DEP])

prop("L01", "Lost objects are found and saved exactly",
     "In bases of the layouts before 8.3.8 command -slo writes, for every page that begins with the signature of an object and belongs to no object of the base (a page of the free list included), a file block<N> with exactly the contents of that object into the given directory, N the decimal number of the page, and nothing else anywhere, whatever the sizes, positions and number of lost objects, with or without -ne. A lost object that is damaged (impossible length, page numbers outside of the base) does not prevent the others from being saved. Objects of tables, the list of tables and the list of free pages are not lost. The base does not change. The exit code is 0 if no lost object is damaged.",
     ["inputs"], "all single lost objects and all pairs over an alphabet of 9 (4) sizes, 3 positions and 5 states", "No test has a base with a lost object.",
     ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/ctool1cd/App.cpp"], [("search", "Class_1CD.cpp T_1CD::find_and_save_lost_objects"), ("saving", "V8Object.cpp V8Object::savetofile"), ("list of known objects", "V8Object.cpp V8Object::init")],
     "h_files", "135 single objects x 6 layouts, a third of 3600 pairs x 2 layouts", "all pairs in all layouts",
     "Enumerates bases with lost objects of known contents, runs the program and compares the directory with what was put into the base. " + REAL, note="8.3.8 bases are left out: the program does not recognise objects there.", assumptions=[IMG, SAN])

prop("X01", "Runs at the same time do not disturb each other",
     "Two runs of the program that read the same base with -ne and use temporary files at the same time (images larger than 10 MB exported to files with -bf) each end with exit code 0 and write exactly what they write alone, however their accesses to the temporary directory interleave, whether they write to different directories or different tables to the same one. After both have ended nothing of theirs is left in the temporary directory. If one is killed at any of these accesses the other one is not disturbed, and later runs work although the remains are still there.",
     ["schedules", "crash_points"], "all interleavings of the accesses of two runs to the temporary directory with at most two preemptions (four in the thorough check), and all kill points",
     "Tests run one process at a time, or do not control how processes interleave.",
     ["src/tool1cd/TempStream.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/Class_1CD.cpp"], [("temporary directory", "TempStream.cpp"), ("users", "Field.cpp Field::save_blob")],
     "h_files", "4 pairs of runs, all schedules with at most 2 preemptions at mkdir, open, stat, unlink, rmdir, rename below TMPDIR; every kill point", "at most 4 preemptions, every kill point after every number of steps of the other run",
     "Both runs are real processes whose file system calls below TMPDIR wait for a scheduler, which enumerates schedules depth first up to the preemption bound and compares the outputs with those of a run alone. " + REAL,
     assumptions=["Accesses to the base (opened for reading) and to separate output directories commute and are not scheduling points.", "Random names of temporary files do not collide.", IMG],
     technique="stateless exploration of the real program under a controlled scheduler with a preemption bound and kill points")

prop("F01", "A run that cannot read or write something does not pretend success",
     "Whatever access to a file fails - opening, reading or writing a file, making a directory, asking for a file's properties, listing a directory; once or from some moment on (a full disk, an unreadable medium, no more file handles) - a run of the export commands (-eax, -ex, -eb with any of -bf/-pb, -slo, -sts, -dc, -ddc, -dac, -dvc, -drc, -dpc) or of -ib ends by itself, without a crash, and with exit code 0 only if everything it had to write is there completely, as without the failure; otherwise it ends with an error code and a message. Short and interrupted reads and writes, which are no failures, have no influence. The export commands leave the base unchanged, -ib the files it imports.",
     ["inputs", "crash_points"], "every access to a file of every command on every kind of base, failing in fourteen ways", "Tests run with a file system that never fails.",
     ["src/tool1cd/SystemClasses/TStream.cpp", "src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/MemBlock.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/Table.cpp", "src/ctool1cd/App.cpp"],
     [("streams", "TStream.cpp TWrapperStream::Read, Write; TFileStream.cpp"), ("errors of commands", "App.cpp App::Run")],
     "h_runs", "7 kinds of base (one in 2 layouts), 13 commands, 14 kinds of failure, the first 16 and last 8 accesses and about 40 evenly spaced between", "every access, 9 layouts, with and without -ne",
     "The file system calls of the real program are interposed; for every command the accesses of an undisturbed run are counted and the run is repeated with each one failing. " + REAL,
     assumptions=[IMG, DEP, "Failures of closing and of removing files are not injected: everything is written when write returns."], technique="exhaustive fault injection at every file system call of the real program")
prop("H01", "Several commands in one run do what consecutive runs do",
     "A run with several commands (-eax, -ex, -eb, -ib, -slo, -sts, -dc, -ddc, -dac, -dvc, -drc, -dpc, in any order and also repeatedly, with or without -bf, -pb, -ne) leaves the same base and the same output files, byte for byte, as one run per command, in the same order and with the same options; in particular an export after -ib shows the imported tables, and a command that fails has no influence on the ones after it. The run ends with exit code 0 exactly if every one of the separate runs does, otherwise with the code of an error.",
     ["histories", "inputs"], "every sequence of commands on every kind of base", "Tests run commands one at a time.",
     ["src/ctool1cd/App.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/MemBlock.cpp"],
     [("loop over the commands", "App.cpp App::Run"), ("state kept between commands", "Table.cpp fill_records_index, import_table; Class_1CD.cpp forget_files")],
     "h_runs", "7 kinds of base in the layout of 8.2.14 (two also of 8.3.8), 4 sets of options, same and different output directories, all ordered pairs of up to 23 commands and all triples with an import in the middle", "9 layouts, triples of commands for two layouts",
     "For every sequence the state of all files after separate runs is computed step by step and compared with that after the single run; the clock stands still in both. " + REAL,
     assumptions=[IMG, DEP], technique="exhaustive exploration of command histories on the real program against their separate execution")
prop("R01", "An export repeated over an interrupted or older one is complete",
     "After a run of an export command that was killed at any moment - before any of its file-system-changing calls or in the middle of a write - the same command run again into the same directory ends with exit code 0 and leaves exactly the files, byte for byte, that it writes into an empty directory. Over the complete export of another base, or of another command, it leaves the same files too, and all other files of the directory as they were. If a directory that is not empty stands in the place of a file to be written, it is kept with all it holds and the exit code tells an error.",
     ["crash_points", "histories"], "every call that creates, writes or makes a directory, as the moment of death; every pair of exports", "Tests export into empty directories and are never interrupted.",
     ["src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/save_part_depot_config.cpp", "src/ctool1cd/App.cpp"],
     [("creation of files", "TFileStream.cpp fmCreate"), ("containers", "V8Catalog.cpp"), ("directories", "Table.cpp export_to_xml, export_table; Class_1CD.cpp")],
     "h_runs", "7 kinds of base (one in 2 layouts), 12 commands, killed before and torn within the first 16 and last 8 accesses and about 60 evenly spaced between, over 12 exports of two other bases, with directories in the place of files", "every access, 9 layouts",
     "The file system calls of the real program are interposed; for every command the accesses of an undisturbed run are counted and the run is ended at each one and then repeated. " + REAL,
     assumptions=[IMG, DEP, "The process dies, the operating system does not: what was written before stays."], technique="exhaustive crash injection at every file system call of the real program, followed by a second run")
prop("E01", "Results do not depend on how files are named nor on the surroundings",
     "An export gives the same files, byte for byte, and exit code 0, whatever the name of the base and of the output directory (spaces, quotes, Cyrillic letters, percent signs, wildcards, a leading hyphen, other or no extensions), however they are given (absolute, relative, with . and .., repeated or trailing slashes, through symbolic links), whatever the current directory, the language and locale settings (also of locales that do not exist), the time zone (except for -drc, whose file bears the local time of the export), and the directory for temporary files.",
     ["inputs", "configurations"], "every combination of a command with a kind of name, path or environment", "Tests use one name, one directory and one environment.",
     ["src/ctool1cd/App.cpp", "src/ctool1cd/ParseCommandLine.cpp", "src/ctool1cd/cTool_1CD_Main.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/UZLib.cpp"],
     [("paths", "App.cpp, Class_1CD.cpp open"), ("start of the program", "cTool_1CD_Main.cpp main")],
     "h_runs", "7 kinds of base (one in 2 layouts), 12 commands, 11 names, 12 paths, 32 output directories, 15 environments", "9 layouts",
     "Every export is compared with the one under plain names in the surroundings of the harness; the clock stands still. " + REAL,
     assumptions=[IMG, DEP], technique="exhaustive enumeration of names, paths and environments on the real program against a reference run")
