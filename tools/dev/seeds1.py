exec(open('/tmp/w/mkseed.py').read())
PRE='''
import sys, os, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk1cd import *
T = tempfile.mkdtemp(); B = T + "/b.1CD"; O = T + "/out"; os.mkdir(O)
'''
POST='''
shutil.rmtree(T)
sys.exit(0 if ok else 1)
'''
mk("idx-leaf-format-hoisted","T05",[("src/tool1cd/Index.cpp",'''		unsigned curindex = 0;
		while(true)
		{
			curlen = *(int16_t*)(buf + 2);
			curblock = *(uint32_t*)(buf + 8);
			mask = *(uint32_t*)(buf + 14);
			int32_t rlen = *(int16_t*)(buf + 28);
''','''		unsigned curindex = 0;
		mask = *(uint32_t*)(buf + 14);
		const int32_t rlen = *(int16_t*)(buf + 28);
		while(true)
		{
			curlen = *(int16_t*)(buf + 2);
			curblock = *(uint32_t*)(buf + 8);
''')],"A primary index with two or more leaf pages whose entries have different sizes (record number masks).",
"The entry size and record number mask of the first leaf are used for all leaves, so later leaves list wrong records.",PRE+'''
b = Base()
b.leafbytes = [4, 5, 6]
f = [("_CODE", "N", 0, 5, 0)]
order = [3, 0, 5, 1, 4, 2]
key = lambda i: bytes([0, 0, i + 1, 0, 0, 0, 0, 0])
b.table("_REFERENCE1", f, [b"\\0" + num(i + 1, 5) + b"\\0" for i in range(6)], indexes=[("PK", 1, [("_CODE", 8)], 8, [(key(i), r) for i, r in enumerate(order)], 2)])
b.save(B)
r = run("-eax", O, B)
x = open(O + "/_REFERENCE1.xml", encoding="utf-8-sig").read() if os.path.exists(O + "/_REFERENCE1.xml") else ""
got = re.findall("<_CODE>(\\\\d+)</_CODE>", x)
ok = r.returncode == 0 and got == [str(i + 1) for i in order]
print(got, r.stderr.decode()[-300:])
'''+POST)
mk("varbinary-length-byte","T03",[("src/tool1cd/FieldType.cpp",'''	int32_t m = *(uint16_t*)fr; // длина + смещение
''','''	int32_t m = *fr; // длина + смещение
''')],"A variable-length binary field with a value of 256 bytes or more.","Only the low byte of the stored length is used: the value is exported truncated.",PRE+'''
b = Base()
v = bytes(range(256)) + b"tail"
b.table("_T", [("_V", "VB", 0, 400, 0), ("_N", "N", 0, 3, 0)], [b"\\0" + struct.pack("<H", len(v)) + v.ljust(400, b"\\x77") + num(7, 3)])
b.save(B)
r = run("-eax", O, B)
x = open(O + "/_T.xml", encoding="utf-8-sig").read()
ok = "<_V>" + v.hex() + "</_V>" in x
'''+POST)
mk("short-record-padding","T01",[("src/tool1cd/Table.cpp",'''	if(recordlen < 5) recordlen = 5;''','''	if(recordlen < 5 && !recordlock) recordlen = 5;'''),("src/tool1cd/Table.cpp",'''		if(fields[i]->type_manager->get_type() == type_fields::tf_version) // или''','''		if(fields[i]->type_manager->get_type() == type_fields::tf_version) // или''')] if 0 else [("src/tool1cd/FieldType.cpp",'''			case type_fields::tf_numeric: len += (length + 2) >> 1; break;''','''			case type_fields::tf_numeric: len += length == 1 ? 2 : (length + 2) >> 1; break;''')] if 0 else [("src/tool1cd/Table.cpp",'''			fields[i]->set_offset(recordlen);
			recordlen += fields[i]->get_size();
		}
	}

	for''','''			fields[i]->set_offset(recordlen);
			recordlen += fields[i]->get_size();
		}
	}

	for''')] if 0 else [("src/tool1cd/Table.cpp",'''	if(recordlen < 5) recordlen = 5;''','''	if(recordlen < 4) recordlen = 4;''')],
"A table whose fields take fewer than five bytes including the removal mark (for example one boolean field).","The minimal record length is four bytes instead of five, so every record after the first is read at a wrong place.",PRE+'''
b = Base()
b.table("_T", [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0", b"\\0\\0\\0\\0\\0", b"\\0\\1\\0\\0\\0", b"\\0\\1\\0\\0\\0"])
b.save(B)
r = run("-eax", O, B)
x = open(O + "/_T.xml", encoding="utf-8-sig").read() if os.path.exists(O + "/_T.xml") else ""
ok = re.findall("<_B>(\\\\w+)</_B>", x) == ["true", "false", "true", "true"]
'''+POST)
mk("blob-last-chunk","T04",[("src/tool1cd/Table.cpp",None,None)] if 0 else [("src/tool1cd/Table.cpp",'''XX''','''YY''')] if 0 else [("src/tool1cd/FieldType.cpp",'''			parent->readBlob(in, retyped[0], retyped[1]);''','''			if (in != nullptr) parent->readBlob(in, retyped[0], retyped[1] & 0xffff);''')] if 0 else [("src/tool1cd/Index.cpp","x","y")] if 0 else [("src/tool1cd/Table.cpp","""PLACEHOLDER""","")] if 0 else [("src/tool1cd/V8Object.cpp",'''						if(curoffobjblock >= offsperpage)
						{
							curoffobjblock = 0;
							bb = (objtab838*) base->get_block(blocks[curobjblock++]);
						}
					}
				}
			}
			else
			{
				while(_length)
				{
					_bu = base->get_block(blocks[curblock++]);''','''						if(curoffobjblock >= 1023)
						{
							curoffobjblock = 0;
							bb = (objtab838*) base->get_block(blocks[curobjblock++]);
						}
					}
				}
			}
			else
			{
				while(_length)
				{
					_bu = base->get_block(blocks[curblock++]);''')],"x","x","print()") if 0 else None
CPP='''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T"
python3 "$D/gen.py"
g++ -std=c++11 -w -include cstdint -I/repo/src/tool1cd -I/repo/src/tool1cd/SystemClasses "$D/demo.cpp" -o demo -L/repo/_build/lib -ltool1cd -lboost_filesystem -lboost_regex -lboost_system -Wl,-rpath,/repo/_build/lib
./demo
'''
CPPH='''#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <boost/filesystem.hpp>
#include "Class_1CD.h"
#include "V8Object.h"
#include "Table.h"
#include "MemBlock.h"
#define NEED(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
static char pat(size_t i) { return (char)(i * 2654435761u >> 13); }
'''
GEN='import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom mk1cd import *\n'
def cpp(id, prop, edits, needs, breaks, gen, demo):
    mk(id,prop,edits,needs,breaks,demo_sh=CPP,extra={"gen.py":GEN+gen,"demo.cpp":CPPH+demo,"mk1cd.py":open("/verif/tools/demo/mk1cd.py").read()})
cpp("range-read-838-table-size","S02",[("src/tool1cd/V8Object.cpp",'''						if(curoffobjblock >= offsperpage)
						{''','''						if(curoffobjblock >= 1023)
						{''')],"A range read of an 8.3.8 object with two-level allocation that crosses page 1023 of an allocation table.",
"The 8.2 table size is used for 8.3.8 tables, so the read continues in a wrong page.",'''
b = Base("8.3.8", 4096)
d = bytes((i * 2654435761 >> 13) & 255 for i in range(1026 * 4096))
h = b.obj(d)
open("h", "w").write(str(h))
b.save("b.1CD")
''','''
int main() {
	int h; FILE *f = fopen("h", "r"); fscanf(f, "%d", &h);
	T_1CD base("b.1CD", nullptr, false);
	V8Object o(&base, h);
	NEED(o.get_len() == 1026 * 4096);
	std::vector<char> b(12000);
	size_t at = 1022 * 4096 + 50;
	o.get_data(b.data(), at, b.size());
	for (size_t i = 0; i < b.size(); i++) NEED(b[i] == (char)((unsigned long long)(at + i) * 2654435761ull >> 13));
	return 0;
}
''')
cpp("write-tail-not-read","S03",[("src/tool1cd/V8Object.cpp",'''			memcpy((char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curlen != DEFAULT_PAGE_SIZE)) + curoffblock, _buf, curlen);''','''			memcpy((char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curoffblock != 0)) + curoffblock, _buf, curlen);''')],
"A range write that starts on a page boundary and ends inside that page, while the page is not in the cache (8.2 layout).","The rest of the page is written as zeros: bytes after the written range are lost.",'''
b = Base()
d = bytes((i * 2654435761 >> 13) & 255 for i in range(3 * 4096))
h = b.obj(d)
open("h", "w").write(str(h))
b.save("b.1CD")
''','''
int main() {
	int h; FILE *f = fopen("h", "r"); fscanf(f, "%d", &h);
	{
		T_1CD base("b.1CD", nullptr, true);
		V8Object o(&base, h);
		o.set_data("abc", 4096, 3);
		base.flush();
	}
	T_1CD base("b.1CD", nullptr, false);
	V8Object o(&base, h);
	std::vector<char> b(3 * 4096);
	o.get_data(b.data(), 0, b.size());
	for (size_t i = 0; i < b.size(); i++) NEED(b[i] == (i >= 4096 && i < 4099 ? "abc"[i - 4096] : (char)((unsigned long long)i * 2654435761ull >> 13)));
	return 0;
}
''')
cpp("free-list-page-number","S04",[("src/tool1cd/V8Object.cpp",'''		len--;
		unsigned j = len >> 10; // length / 1024
		unsigned i = len & 0x3ff; // length % 1024
''','''		unsigned j = len >> 10; // length / 1024
		len--;
		unsigned i = len & 0x3ff; // length % 1024
''')],"A list of free pages holding an exact multiple of 1024 pages, from which a page is taken.","The page number is read from the list page after the right one, so page 0 or a garbage page is handed out.",'''
b = Base()
h = b.obj(b"x" * 100)
b.free = [b.alloc() for i in range(1024)]
open("h", "w").write(str(h))
b.save("b.1CD")
''','''
int main() {
	int h; FILE *f = fopen("h", "r"); fscanf(f, "%d", &h);
	T_1CD base("b.1CD", nullptr, true);
	uint32_t p = base.get_free_block();
	printf("page %u\\n", p);
	NEED(p >= 6 && p < 6 + 1025);
	return 0;
}
''')
cpp("cache-dirty-flag","S01",[("src/tool1cd/MemBlock.cpp",'''	if (for_write) {
		changed = true;
	}
	last_data_get''','''	changed = for_write;
	last_data_get''')],"A page is modified, then read again, then the cache is flushed or cleaned.","Reading a modified page clears its modified mark, so the change is never written to the file.",'''
b = Base()
h = b.obj(b"x" * 100)
open("h", "w").write(str(h))
b.save("b.1CD")
''','''
int main() {
	int h; FILE *f = fopen("h", "r"); fscanf(f, "%d", &h);
	{
		T_1CD base("b.1CD", nullptr, true);
		memcpy(base.get_block_for_write(4, true) + 50, "hello", 5);
		NEED(!memcmp(base.get_block(4) + 50, "hello", 5));
		base.flush();
	}
	T_1CD base("b.1CD", nullptr, false);
	NEED(!memcmp(base.get_block(4) + 50, "hello", 5));
	return 0;
}
''')
