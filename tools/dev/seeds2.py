src=open('/tmp/w/seeds1.py').read()
head=src.split('mk("idx-leaf-format-hoisted"')[0]
exec(head)
exec(src[src.index("CPP='''"):src.index('cpp("range-read-838')])
T="src/tool1cd/"
mk("varbinary-length-byte","T03",[(T+"FieldType.cpp",'''	int32_t m = *(uint16_t*)fr; // длина + смещение
''','''	int32_t m = *fr; // длина + смещение
''')],"A variable-length binary field with a value of 256 bytes or more.","Only the low byte of the stored length is used: the value is exported truncated.",PRE+'''
b = Base()
v = bytes(range(256)) + b"tail"
b.table("_T", [("_V", "VB", 0, 400, 0), ("_N", "N", 0, 3, 0)], [b"\\0" + struct.pack("<H", len(v)) + v.ljust(400, b"\\x77") + num(7, 3)])
b.save(B)
r = run("-eax", O, B)
x = open(O + "/_T.xml", encoding="utf-8-sig").read()
ok = "<_V>" + v.hex() + "</_V>" in x
'''+POST)
mk("order-by-first-index","T05",[(T+"Table.cpp",'''		curindex= *primary;
''','''		curindex= indexes[0];
''')],"A table whose primary index is not the first of its indexes.","The export follows the first index instead of the primary one.",PRE+'''
b = Base()
f = [("_CODE", "N", 0, 5, 0)]
order = [3, 0, 5, 1, 4, 2]
key = lambda i: bytes([0, 0, i + 1, 0, 0, 0, 0, 0])
b.table("_REFERENCE1", f, [b"\\0" + num(i + 1, 5) + b"\\0" for i in range(6)], indexes=[
    ("BYX", 0, [("_CODE", 8)], 8, [(key(i), i) for i in range(6)], 9),
    ("PK", 1, [("_CODE", 8)], 8, [(key(i), r) for i, r in enumerate(order)], 9)])
b.save(B)
r = run("-eax", O, B)
x = open(O + "/_REFERENCE1.xml", encoding="utf-8-sig").read() if os.path.exists(O + "/_REFERENCE1.xml") else ""
got = re.findall("<_CODE>(\\\\d+)</_CODE>", x)
ok = r.returncode == 0 and got == [str(i + 1) for i in order]
'''+POST)
mk("import-index-version","T06",[(T+"Table.cpp",'''			file_index->set_version(root.index_version_1, root.index_version_2);
''','''			file_index->set_version(root.data_version_1, root.data_version_2);
''')],"An import of a table with an index whose version differs from that of the data.","The index object gets the version of the data object.",PRE+'''
b = Base(); c = [10]
old = b.obj
def obj(d, ver=None):
    c[0] += 10
    return old(d, (1, c[0], c[0] + 1))
b.obj = obj
key = lambda i: bytes([0, 0, i + 1, 0, 0, 0, 0, 0])
b.table("_R", [("_CODE", "N", 0, 5, 0)], [b"\\0" + num(i + 1, 5) + b"\\0" for i in range(6)], indexes=[("PK", 1, [("_CODE", 8)], 8, [(key(i), i) for i in range(6)], 9)])
b.save(B)
O2 = T + "/o2"; os.mkdir(O2)
ok = run("-eb", O, "*", B).returncode == 0
ok = run("-ib", O, "*", B).returncode == 0 and ok
ok = run("-eb", O2, "*", B).returncode == 0 and ok
g = lambda d: open(d + "/_R/root", "rb").read()[20:28]
ok = ok and g(O) == g(O2)
'''+POST)
mk("config-twice-unpacked","T07",[(T+"Field.cpp",'''			maybezipped_twice = rec->get_string(_f).size() > GUID_LEN*2;
''','''			maybezipped_twice = rec->get_string(_f).size() > GUID_LEN;
''')],"A file of CONFIG with a name like <guid>.0 whose unpacked content happens to be a packed stream itself.","It is unpacked a second time, so the exported file differs from the file of the configuration.",PRE+'''
b = Base()
inner = deflate(b"a stream inside a file" * 20)
infobase(b, [("01234567-89ab-cdef-0123-456789abcdef.0", deflate(inner))])
b.save(B)
r = run("-bf", "yes", "-pb", "yes", "-ex", O, "CONFIG", B)
got = [open(os.path.join(p, n), "rb").read() for p, _, fs in os.walk(O) for n in fs if not n.endswith(".xml")]
ok = r.returncode == 0 and got == [inner]
'''+POST)
mk("depot-external-without-data","D01",[(T+"save_depot_config.cpp",'''							if (vernum <= ver && rece.get<bool>(flde_datapacked)) {
								size_t j;
''','''							if (vernum <= ver && rece.get<bool>(flde_datapacked)) {
								if (vernum == lastver) {
									extnames.push_back(ext_name);
								}
								size_t j;
'''),(T+"save_depot_config.cpp",'''							}
							if (vernum == lastver) {
								extnames.push_back(ext_name);
							}
						}
						externals_iterator.next();
''','''							}
						}
						externals_iterator.next();
''')],"A version of a repository in which an external file (a module, a form) of a changed object did not change, so its row carries no data of its own.","The external file is missing from the exported configuration.",PRE+'''
b = Base()
d = lambda t: deflate(t)
depot(b, [1, 2], [(0, 1, d(b"root")), (1, 1, d(b"one v1")), (1, 2, d(b"one v2"))], [(1, 1, ms(objid(1)) + ".0", d(b"module v1")), (1, 2, ms(objid(1)) + ".0", None)], T + "/dep")
b.save(T + "/dep/1cv8ddb.1CD")
r = run("-drc", "2", O + "/x.cf", T + "/dep/1cv8ddb.1CD")
f = files_of(open(O + "/x.cf", "rb").read()) if os.path.exists(O + "/x.cf") else {}
print(r, list(f))
ok = r.returncode == 0 and ms(objid(1)) + ".0" in f and inflate(f[ms(objid(1)) + ".0"]) == b"module v1" and inflate(f[ms(objid(1))]) == b"one v2"
'''+POST)
mk("depot-part-first-version","D02",[(T+"save_part_depot_config.cpp",'''											if (v < ver_begin) {
												break;
											}
											datapacked''','''											if (v <= ver_begin) {
												break;
											}
											datapacked''')],"A range of versions in which an external file got its data in the very first version of the range and has a row without data in a later one.","The file is not written.",PRE+'''
b = Base()
d = lambda t: deflate(t)
depot(b, [1, 2, 3], [(0, 1, d(b"root")), (1, 1, d(b"one v1")), (1, 2, d(b"one v2")), (1, 3, d(b"one v3"))],
      [(1, 2, ms(objid(1)) + ".0", d(b"module v2")), (1, 3, ms(objid(1)) + ".0", None, 2)], T + "/dep")
b.save(T + "/dep/1cv8ddb.1CD")
import struct
r = run("-dpc", "2:3", O, T + "/dep/1cv8ddb.1CD")
got = {os.path.relpath(os.path.join(p, n), O): open(os.path.join(p, n), "rb").read() for p, _, fs in os.walk(O) for n in fs}
print(r, got)
ok = r.returncode == 0 and b"module v2" in got.values() and b"one v3" in got.values()
'''+POST)
mk("pack-hash-as-string","D03",[(T+"Packdata.cpp",'''		if(memcmp(datahash, record.datahash, DATAHASH_FIELD_LENGTH) == 0) {''','''		if(strncmp(datahash, record.datahash, DATAHASH_FIELD_LENGTH) == 0) {''')],"Two packed objects whose hashes agree up to a zero byte.","The data of another object are taken.",PRE+'''
b = Base()
h1 = b"\\xaa\\x00" + bytes(range(1, 19)); h2 = b"\\xaa\\x00" + bytes(range(2, 20))
depot(b, [1], [(0, 1, deflate(b"root")), (1, 1, (None, h1)), (2, 1, (None, h2))], [], T + "/dep")
b.save(T + "/dep/1cv8ddb.1CD")
pack(T + "/dep", "pack-1", [(h1, deflate(b"first")), (h2, deflate(b"second"))])
r = run("-drc", "1", O + "/x.cf", T + "/dep/1cv8ddb.1CD")
f = files_of(open(O + "/x.cf", "rb").read()) if os.path.exists(O + "/x.cf") else {}
ok = r.returncode == 0 and inflate(f[ms(objid(1))]) == b"first" and inflate(f[ms(objid(2))]) == b"second"
'''+POST)
mk("last-part-wins","C01",[(T+"TableFiles.cpp",'''		else if(pmaxpartno->second < tr.partno) pmaxpartno->second = tr.partno;
''','''		else pmaxpartno->second = tr.partno;
''')],"A file of a table of files kept in several parts whose records are not in the order of their parts.","Parts after the one of the last record are lost.",PRE+'''
b = Base()
infobase(b, [("two", deflate(b"2")), ("three", b"part zero/", 0), ("three", b"part two", 2), ("three", b"part one/", 1), ("zz", deflate(b"zz"))])
b.save(B)
r = run("-ddc", O + "/x.cf", B)
f = files_of(open(O + "/x.cf", "rb").read()) if os.path.exists(O + "/x.cf") else {}
ok = r.returncode == 0 and f.get("three") == b"part zero/part one/part two"
'''+POST)
mk("unlisted-update-wins","C02",[(T+"ConfigStorage.cpp",'''					if (found == dynup.end()) {
						dynno = -2;
					} else {
						dynno = found - dynup.begin();
					}
				} else dynno = -2;''','''					dynno = found - dynup.begin();
				} else dynno = -2;''')],"A base with dynamic updates in which a file of an update that is no longer listed is left.","The left file is exported instead of the one in force.",PRE+'''
b = Base()
G1 = "11111111-2222-3333-4444-555555555555"; G2 = "66666666-2222-3333-4444-555555555555"
f = None
for text in ("{1,1,%s}",):
    b = Base()
    infobase(b, [("file", deflate(b"plain")), ("file_dynupdate_" + G1, deflate(b"listed")), ("file_dynupdate_" + G2, deflate(b"left")),
                 ("DynamicallyUpdated", ("\\ufeff" + text % G1).encode())])
    b.save(B)
    r = run("-ddc", O + "/x.cf", B)
    if r.returncode == 0 and os.path.exists(O + "/x.cf"):
        f = files_of(open(O + "/x.cf", "rb").read())
        if inflate(f["file"]) == b"listed": break
print(f)
ok = f and inflate(f["file"]) == b"listed"
'''+POST)
mk("deleted-file-case","C03",[(T+"ConfigStorage.cpp",'''		pdel = del.find(LowerCase(s));
''','''		pdel = del.find(s);
''')],"A file deleted by the configuration to be saved whose name in CONFIG is written in upper case.","The deleted file is still in the exported main configuration.",PRE+'''
ok = False
G = "ABCDEF01-89AB-CDEF-0123-456789ABCDEF"
for text in ("{1,1,%s}",):
    b = Base()
    infobase(b, [("one", deflate(b"1")), (G, deflate(b"gone"))], [("deleted", deflate(("\\ufeff" + text % G.lower()).encode())), ("two", deflate(b"2"))])
    b.save(B)
    r = run("-dc", O + "/x.cf", B)
    if r.returncode == 0 and os.path.exists(O + "/x.cf"):
        f = files_of(open(O + "/x.cf", "rb").read())
        print(text, sorted(f))
        if sorted(x.lower() for x in f) == ["one", "two"]: ok = True; break
'''+POST)
mk("nv-mutes-log","M01",[(T+"Messenger.cpp",'''	if (noverbose && logfile.empty()) {
		return;
	}

	shared_ptr<ostream> output (&cerr, [](...){} );

	if (!logfile.empty()) {
		output''','''	if (noverbose) {
		return;
	}

	shared_ptr<ostream> output (&cerr, [](...){} );

	if (!logfile.empty()) {
		output''')] if 0 else [(T+"Messenger.cpp",'''make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), std::ios_base::app);''','''make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), has_error ? std::ios_base::app : std::ios_base::out);''')],
"A log file and two or more messages before the first error.","Every message before the first error overwrites the log file, so only the last of them stays.",PRE+'''
b = Base()
b.table("_A", [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0"])
b.table("_C", [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0"])
b.save(B)
r = run("-l", T + "/log", "-eax", O, B)
t = open(T + "/log").read()
ok = r.returncode == 0 and "_A" in t and "_C" in t
'''+POST)
mk("list-blank-elements","A02",[("src/ctool1cd/App.cpp",'''	for (int m = filters.Count() - 1; m >= 0; m--) {
		if (filters[m].empty()) {
			filters.Delete(m);
		} else {
			filters[m] = string("^").append(LowerCase(filters[m])).append("$");
		}
	}

	int k = filters.Count();
	if (k == 0) {
		msreg_g.AddError("Список таблиц для выгрузки пуст.");''','''	for (int m = 0; m < filters.Count(); m++) {
		if (filters[m].empty()) {
			filters.Delete(m);
		} else {
			filters[m] = string("^").append(LowerCase(filters[m])).append("$");
		}
	}

	int k = filters.Count();
	if (k == 0) {
		msreg_g.AddError("Список таблиц для выгрузки пуст.");''')],"A list for -eb with two separators in a row (\"A, B\") followed by an upper-case name.","The element after an empty one is left as it is, so the table it names is not exported.",PRE+'''
b = Base()
for n in ("_AA", "_BB", "_CC"): b.table(n, [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0"])
b.save(B)
r = run("-eb", O, "_AA, _BB", B)
ok = r.returncode == 0 and sorted(os.listdir(O)) == ["_AA", "_BB"]
'''+POST)
mk("lost-objects-start","L01",[(T+"Class_1CD.cpp",'''	for(uint32_t i = 1; i < length; i++) {
		char buf[8];
''','''	for(uint32_t i = 1; i + 1 < length; i++) {
		char buf[8];
''')],"A lost object whose header is the last page of the base.","The object is not found.",PRE+'''
b = Base()
b.table("_AA", [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0"])
b.save(B)
d = bytearray(open(B, "rb").read()); n = len(d) // 4096
d += b"1CDBOBV8" + struct.pack("<4I", 0, 1, 2, 3) + bytes(4072)
struct.pack_into("<I", d, 12, n + 1)
open(B, "wb").write(d)
r = run("-slo", O, B)
ok = r.returncode == 0 and os.listdir(O) == ["block%d" % n]
'''+POST)
mk("length-header-less","S06",[(T+"Class_1CD.cpp",'''	if(length != cont->length)
''','''	if(length < cont->length)
''')],"A file longer than the page count in its header says.","The file is opened as a base instead of being refused.",PRE+'''
b = Base()
b.table("_AA", [("_B", "L", 0, 1, 0)], [b"\\0\\1\\0\\0\\0"])
b.save(B)
d = open(B, "rb").read() + bytes(4096)
open(B, "wb").write(d)
r = run("-eax", O, B)
print(r)
ok = r.returncode == (-82) % 256
'''+POST)
mk("vendor-80-version","C04",[(T+"SupplierConfigBuilder.cpp",'''	if(get_version() < 100) { // 8.0
''','''	if(get_version() < 100 && !main_catalog->get_file(file_name)) { // 8.0
''')],"A vendor configuration of 8.0 whose outer container holds a file named root as well.","The root of the outer container is taken instead of the one in metadata, so the configuration is not listed with its name.",PRE+'''
U = lambda t: ("\\ufeff" + t).encode()
M = "01234567-89ab-cdef-0123-456789abcdef"; N = "11234567-89ab-cdef-0123-456789abcdef"
def meta(name):
    return U('{0,1,1,{9cd510cd-abfc-11d4-9434-004095e12fc7,{1,{15,{0,{0,0,"%s"}},0,0,0,0,0,0,0,0,0,"Vendor","1.0"}}}}' % name)
md = container([("root", U("{2,%s,}" % M)), (M, meta("Right"))])
c = container([("version", deflate(U("{{80,0},0}"))), ("root", deflate(U("{2,%s,}" % N))), (N, deflate(meta("Wrong"))), ("metadata", deflate(md))])
b = Base()
n73 = M + "." + N
infobase(b, [(n73, deflate(deflate(c)))])
b.save(B)
r = run("-dvc", O, B)
print(r.stderr.decode(), os.listdir(O))
ok = r.returncode == 0 and os.listdir(O) == ["Right 1.0.cf"]
'''+POST)
mk("nested-path-case","C05",[(T+"ConfigStorage.cpp",'''			parent_cat = f->get_catalog();
			if (!parent_cat) {
				// TODO: бросить исключение???
				return nullptr;
			}
			fname = fname.substr(i + 1, fname.size() - i - 1);
		}
		V8File *f = parent_cat->get_file(fname);
		if (!f) {
			// TODO: бросить исключение???
			return nullptr;
		}
		if (!f->open()) {
			// TODO: бросить исключение???
			return nullptr;
		}

		cf = new ConfigFile;
		cfa = new ConfigStorageTable_addin;''','''			V8Catalog *inner_cat = f->get_catalog();
			if (!inner_cat) {
				break;
			}
			parent_cat = inner_cat;
			fname = fname.substr(i + 1, fname.size() - i - 1);
		}
		V8File *f = parent_cat->get_file(fname.substr(0, fname.find("\\\\")));
		if (!f) {
			// TODO: бросить исключение???
			return nullptr;
		}
		if (!f->open()) {
			// TODO: бросить исключение???
			return nullptr;
		}

		cf = new ConfigFile;
		cfa = new ConfigStorageTable_addin;''')],"A path that goes through a file that is no container.","The file itself is returned instead of nothing.",None,demo_sh="x") if 0 else None
cpp("outtext-one-quote","U01",[(T+"Parse_tree.cpp",'''				text += StringReplace(value, "\\"", "\\"\\"", rfReplaceAll);''','''				text += StringReplace(value, "\\"", "\\"\\"", TReplaceFlags());''')] if 0 else [(T+"Parse_tree.cpp",'''			if(t) text += ",";
''','''			if(t && lt != node_type::nd_empty) text += ",";
''')],"A list with an empty value before another one.","The comma after an empty value is not written, so the number of values changes.",'','''
#include "Parse_tree.h"
int main() {
	std::string s = "{1,,2}";
	auto t = parse_1Ctext(s, "t");
	std::string o = outtext(t.get());
	printf("%s\\n", o.c_str());
	auto u = parse_1Ctext(o, "u");
	NEED((*u)[0].get_num_subnode() == 3);
	return 0;
}
''')
cpp("base64-last-line","U02",[(T+"Base64.cpp",'''		if(blocksout >= linesize / 4 && linesize) outfile''','''		if(blocksout > linesize / 4 && linesize) outfile''')],"Data whose last, incomplete group starts right after a full line.","The last line is longer than asked for.",'','''
#include "Base64.h"
int main() {
	System::Classes::TMemoryStream in, out;
	in.Write("abcdefghijklm", 13);
	base64_encode(&in, &out, 16);
	std::string s;
	for (long i = 0; i < out.GetSize(); i += 2) s += ((char*)out.GetMemory())[i];
	NEED(s == "YWJjZGVmZ2hpamts\\r\\nbQ==");
	return 0;
}
''')
cpp("seek-current-from-start","U04",[(T+"SystemClasses/TStream.cpp",'''		if (m_position + offset < 0 || m_position + offset > GetSize()) {''','''		if (m_position + offset < 0 || offset > GetSize()) {''')],"A seek from the current position that goes past the end by no more than the size.","It is not refused; the next write leaves a gap.",'','''
#include "SystemClasses/TMemoryStream.hpp"
int main() {
	System::Classes::TMemoryStream m;
	m.Write("abcdefgh", 8);
	bool refused = false;
	try { m.Seek(3, System::Classes::soCurrent); } catch (...) { refused = true; }
	NEED(refused && m.GetPosition() == 8);
	return 0;
}
''')
cpp("free-list-not-written","K02",[(T+"cfapi/V8Catalog.cpp",'''			file_header.next_page_addr = nextstart;
			is_emptymodified = true;
''','''			file_header.next_page_addr = nextstart;
''')],"A session that only takes pages from the list of free pages, in a container opened again.","The head of the list of free pages on disk still names the page in use: two owners.",'','''
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
int main() {
	std::string b(1000, 'b');
	{ V8Catalog c("x.cf", false); c.createFile("A")->write(b.data(), 1000); c.createFile("B")->write(b.data(), 900); c.createFile("C")->write(b.data(), 800); }
	{ V8Catalog c("x.cf", false); c.delete_file("B"); }
	{ V8Catalog c("x.cf", false); c.createFile("D")->write(b.data(), 850); c.Flush(); }
	{ V8Catalog c("x.cf", false); c.createFile("E")->write("eee", 3); }
	{ V8Catalog c("x.cf", false); c.createFile("F")->write(std::string(880, 'f').data(), 880); }
	V8Catalog c("x.cf", false);
	System::Classes::TMemoryStream m;
	c.get_file("D")->save_to_stream(&m);
	NEED(m.GetSize() == 850 && !memcmp(m.GetMemory(), b.data(), 850));
	System::Classes::TMemoryStream n;
	c.get_file("E")->save_to_stream(&n);
	NEED(n.GetSize() == 3 && !memcmp(n.GetMemory(), "eee", 3));
	return 0;
}
''')
cpp("leaf-length-even","U03",[(T+"BinaryDecimalNumber.cpp",'''		if (i + 1 < length) {
''','''		if (i + 1 < length || !has_sign_flag) {
''')],"An unsigned packed decimal with an odd number of digits.","One digit too many is read.",'','''
#include "BinaryDecimalNumber.h"
int main() {
	unsigned char d[] = { 0x12, 0x39 };
	BinaryDecimalNumber n(d, 3, 0, false);
	NEED(n.get_presentation() == "123");
	return 0;
}
''')
