from registry import prop, IMG, SAN

REAL = "Runs the real V8Catalog and V8File code."
C8 = "The container builder and parser in harness/v8c.hpp are written from the format description, share no code with the library, and are trusted."

prop("K01", "A container holds exactly the files put into it, now and when reopened",
     "After any sequence of creating, writing (whole, partly, from a stream, with a length, with write_and_close), deleting, reading and closing files, flushing, half-closing and reopening, a container - a plain file, a packed .cf, a .cfu, a stream in memory, a container nested in a plain or packed container one or two levels deep, or packed as a whole - shows exactly the files created and not deleted, in order of creation, found by name without regard to case, each with exactly the bytes last written, both at once and after closing and reopening; after the outermost container is flushed (one that is not packed as a whole) its storage holds all of that already. This holds from an empty container, from containers written by other programs with any page sizes and page order, with more files than fit one page of the table of contents, and for long contents.",
     ["histories"], "all sequences of operations up to the depth bound, for each kind of container and each starting layout",
     "No test modifies a container.",
     ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/cfapi/APIcfBase.cpp"],
     [("blocks and free list", "V8Catalog.cpp write_block, free_block, get_nextblock"), ("files", "V8File.cpp close, flush, write_and_close, delete_file"), ("table of contents", "V8Catalog.cpp initialize, Flush, destructor")],
     "h_container", "21 operations in all sequences of up to 3, 8 of them in all sequences of up to 5 (4 for some kinds), 8 kinds; 9 operations in sequences of up to 3 from 72 layouts; 7 numbers of files x 8 histories x 4 kinds; 5 lengths", "sequences of up to 4 (6), all 216 layouts to depth 4",
     "Explores every operation sequence on the real code beside an ordered map of files; compares names, lengths and contents live and after reopening. " + REAL, assumptions=[C8, SAN])

prop("K02", "A container on disk is well-formed and no page is lost or shared",
     "After any such sequence, what is stored decodes with an independent reader to exactly the files, in order, with their contents and with the creation time (and, where the file was not modified, the modification time) they had; every page has a valid header; chains of pages hold as many bytes as they claim; no byte belongs to two pages; the list of free pages is finite; and every byte of the container belongs to its header, to a page in use or to a free page, in the container itself and in the one it is nested in. A nested container is stored packed exactly when its parent packs files or it was created packed; a .cfu file is one packed stream.",
     ["histories"], "all sequences of operations up to the depth bound, for each kind of container and each starting layout",
     "No test modifies a container or looks at its pages.",
     ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/cfapi/V8Time.cpp"],
     [("blocks and free list", "V8Catalog.cpp write_block, free_block, get_nextblock"), ("packing", "V8Catalog.cpp write_datablock"), ("table of contents", "V8Catalog.cpp Flush, destructor")],
     "h_container", "as K01", "as K01",
     "Explores every operation sequence on the real code; an independent strict parser decodes the stored bytes and accounts for every page. " + REAL, assumptions=[C8, SAN])

prop("K03", "Containers of any layout are read and unpacked to directories completely",
     "Whatever the page sizes, the order and scattering of pages and the depth of nesting, a container shows its files in order with their exact contents, tells nested containers (an empty header of 16 bytes, or a header with a correct first block and a correct or absent first free block) from other data, and SaveToDir writes every file and a directory for every nested container, with exactly these names and contents and nothing else. Reading does not change it. Streams over a file of a container read, write and position like the file itself, positions past the end being the end. A text with a byte order mark is parsed as a tree; without one it is refused.",
     ["inputs", "histories"], "all combinations of file trees and layouts of the alphabet; data that almost look like containers; all sequences of stream operations up to the depth bound",
     "The tests read two containers.",
     ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/cfapi/TV8FileStream.cpp"],
     [("reading", "V8Catalog.cpp read_block, initialize, is_catalog"), ("unpacking", "V8Catalog.cpp SaveToDir, V8File.cpp save_to_file"), ("streams", "TV8FileStream.cpp")],
     "h_container", "7 trees x 4 kinds x 144 layouts (every fourth); 255 candidates; 9 stream operations in sequences of up to 4", "all layouts; sequences of up to 5",
     "Enumerates layouts and near-containers made by an independent builder and compares the real reader's view and the directory written. " + REAL, assumptions=[C8, SAN])

prop("K04", "A damaged container is read safely and its intact files are still saved",
     "Opening, reading and unpacking a container in which any byte, any address or size field, the length of the file or any pair of page links is damaged ends in bounded time without memory errors, reads no file as longer than the container, and does not change it. When the damage is in the data of one file, all other files are read and saved to the directory as they are. Names of files never lead out of the directory they are saved to.",
     ["inputs"], "every byte set to each value of the alphabet, every truncation, every address and size field set to every address of interest, all pairs of pages linked in a circle with all sizes of the alphabet; 13 dangerous names",
     "No test reads a damaged container.",
     ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/cfapi/APIcfBase.cpp"],
     [("reading pages", "V8Catalog.cpp read_block"), ("opening", "V8Catalog.cpp initialize"), ("unpacking", "V8Catalog.cpp SaveToDir")],
     "h_container", "2 layouts of a container with 4 files and a nested one: 10 values per byte, ~40 values per field, 20 combinations per pair of pages", "the same",
     "Enumerates every single fault of the alphabet (and pairs of links) and runs the real reader under AddressSanitizer with a time limit. " + REAL, assumptions=[C8, SAN])
