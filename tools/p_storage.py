from registry import prop, IMG, SAN

prop("S01", "Page cache: written pages survive eviction, growth, flush and reopening",
     "A page written through an opened base reads back with exactly the bytes written, whatever reads, cache evictions, flushes or file growth happen in between. After a flush the file holds every written page at its own position, every other byte of the file is unchanged, and the page count in the file header equals the number of pages in the file. Reopening the flushed file shows the same pages.",
     ["histories", "configurations"], "all sequences of page reads, writes, modifications, growth, evictions, flushes and reopenings up to the depth bound, in both layouts and for every page size",
     "Existing tests open two fixture bases and only read; no test writes, evicts and reads back a page, and the outcome depends on the order of the operations.",
     ["src/tool1cd/MemBlock.cpp", "src/tool1cd/Class_1CD.cpp"],
     [("page cache and write-back", "MemBlock.cpp MemBlockManager::get_block, get_block_for_write, garbage, flush"), ("page access and growth", "Class_1CD.cpp T_1CD::get_block, get_block_for_write, flush")],
     "h_storage", "12 operations, sequences to depth 4 (quick set) on 3 layouts", "as quick, one step deeper and with every page size",
     "Every sequence of operations is executed on the real page cache over a real file; after every step the page read is compared with a byte model, and after flush/reopen the whole file is compared.",
     assumptions=[IMG])

prop("S02", "Internal objects read exactly what their allocation tables describe",
     "The length, version and contents of every internal object are exactly those its allocation tables describe, in the 8.2 and 8.3.8 layouts, for every page size, allocation depth and page order, including objects longer than 4 GiB. Reading the whole object, reading any byte range, saving it to a file and asking for the physical file position of any byte all agree. A range that reaches past the end of the object is refused, and reading never modifies the base.",
     ["inputs", "configurations"], "all object lengths around every page, allocation-table and level boundary, all ranges between boundary offsets, contiguous and scattered page orders, cached and uncached",
     "The fixture bases contain only small single-table objects; boundaries of allocation tables, the two-level 8.3.8 layout, and large objects are never reached.",
     ["src/tool1cd/V8Object.cpp"],
     [("whole and range reads", "V8Object.cpp V8Object::get_data"), ("save and physical offsets", "V8Object.cpp V8Object::savetofile, get_fileoffset"), ("header parsing", "V8Object.cpp V8Object::init")],
     "h_storage", "all boundary lengths and all boundary ranges, 8.2 and 8.3.8, page sizes 4K..64K", "adds the two-level boundary lengths for larger pages",
     "For every layout, page size, page order and boundary length a base image is built independently and every pair of boundary offsets is read through the real code.",
     assumptions=[IMG, SAN])

prop("S03", "Object writes and resizes behave like writes to a byte array",
     "After any sequence of whole writes, range writes (from memory or from a stream) and length changes, an internal object has the length and the written bytes that the same operations give on a plain byte array; bytes exposed by growth are unspecified. After a flush, an independent decoding of the file and a reopened base show the same object, all other objects are unchanged, and no page is used twice.",
     ["histories"], "all sequences of writes and resizes up to the depth bound from several initial sizes, with arguments around page, allocation-table and level boundaries, in both layouts",
     "No existing test writes to an object; the failures need a particular sequence of resizes across an allocation boundary.",
     ["src/tool1cd/V8Object.cpp"],
     [("resize", "V8Object.cpp V8Object::set_len"), ("writes", "V8Object.cpp V8Object::set_data (four overloads)")],
     "h_storage", "16 small operations to depth 3 and 13 boundary operations to depth 2, from 2-3 initial sizes, 8.2 (with and without free pages) and 8.3.8", "depth 4 / 3, and 8 KiB and 64 KiB pages",
     "Every sequence runs on the real code; after each step the object is read back and compared with the byte-array model, and at the end the flushed file is decoded independently and reopened.",
     assumptions=[IMG, SAN])

prop("S04", "Every page has exactly one owner and freed pages are reused",
     "After any sequence of object creation, growth, shrinking, deletion and page allocation, no page belongs to two objects, or to an object and the free list, and the header page count matches the file. In the 8.2 layout every page belongs to an object, the free list or the header, and the file grows only when no free page is available. Objects not touched by an operation keep their contents, and the flushed base can be reopened with the same objects.",
     ["histories"], "all sequences of the allocation operations up to the depth bound, from empty, small and page-filling free lists",
     "No existing test allocates or frees pages; double ownership only appears after particular sequences and is not visible until later.",
     ["src/tool1cd/V8Object.cpp", "src/tool1cd/Class_1CD.cpp"],
     [("free list", "V8Object.cpp V8Object::set_block_as_free, get_free_block"), ("resize", "V8Object.cpp V8Object::set_len"), ("deletion", "Class_1CD.cpp T_1CD::delete_object")],
     "h_storage", "11 operations to depth 4 (depth 3 for large or odd free lists), 6 initial states", "one step deeper",
     "After every step the base is flushed and an independent decoder recomputes the owner of every page and compares every object with the model.",
     assumptions=[IMG, "In the 8.3.8 layout the free-page object's format is unknown to the library, so freed pages may stay unreferenced there; only absence of double ownership is required."])
