src=open('/tmp/w/seeds1.py').read()
exec(src.split('mk("idx-leaf-format-hoisted"')[0])
exec(src[src.index("CPP='''"):src.index('cpp("range-read-838')])
T="src/tool1cd/"
mk("export-blob-version","T06",[(T+"Table.cpp",'''		auto version = file_blob->get_current_version();
		root.blob_version_1''','''		auto version = file_data->get_current_version();
		root.blob_version_1''')],"A table whose blob object has another version than its data object.","The exported description gives the blob the version of the data, and an import writes it into the base.",PRE+'''
b = Base(); c = [10]; old = b.obj
def obj(d, ver=None):
    c[0] += 10
    return old(d, (1, c[0], c[0] + 1))
b.obj = obj
bl = Blob()
b.table("_R", [("_C", "N", 0, 5, 0), ("_I", "I", 0, 0, 0)], [b"\\0" + num(i, 5) + bl.add(b"v%d" % i) for i in range(4)], bl)
b.save(B)
ok = run("-eb", O, "*", B).returncode == 0
r = open(O + "/_R/root", "rb").read()
d, x = struct.unpack_from("<II", r, 4), struct.unpack_from("<II", r, 12)
ok = ok and d != x and {d, x} == {(20, 21), (30, 31)}
'''+POST)
mk("times-of-last-part","C06",[(T+"TableFiles.cpp",'''		tf->addr[ptr->partno] = ptr->addr;
		if(!ptr->partno)
		{
			tf->ft_create = ptr->ft_create;
			tf->ft_modify = ptr->ft_modify;
''','''		tf->addr[ptr->partno] = ptr->addr;
		tf->ft_create = ptr->ft_create;
		tf->ft_modify = ptr->ft_modify;
		if(!ptr->partno)
		{
''')],"A file of the configuration kept in several rows (parts) whose times differ.","The exported file bears the times of the part that is read last.",PRE+'''
b = Base()
z = deflate(os.urandom(600))
bl = Blob(); rows = []
for n, (t, d) in enumerate((("20200102030405", z[:300]), ("20210607080910", z[300:]))):
    rows.append(b"\\0" + nvc("root", 128) + bytes.fromhex(t) * 2 + num(0, 5) + num(len(d), 10) + bl.add(d) + num(n, 10))
b.table("CONFIG", FILES, rows, bl)
for t in ("CONFIGSAVE", "PARAMS", "FILES"): b.table(t, FILES, [], Blob())
b.table("DBSCHEMA", [("SERIALIZEDDATA", "I", 0, 0, 0)], [])
b.save(B)
ok = run("-ddc", O + "/c.cf", B).returncode == 0
d = open(O + "/c.cf", "rb").read()
i = d.index("root".encode("utf-16-le"))
import datetime
t = struct.unpack_from("<qq", d, i - 20)
want = int((datetime.datetime(2020, 1, 2, 3, 4, 5) - datetime.datetime(1, 1, 1)).total_seconds()) * 10000
ok = ok and t == (want, want)
'''+POST)
mk("cf-not-replaced","R01",[(T+"ConfigStorage.cpp",'''	if(boost::filesystem::exists(file_name)) {
		boost::filesystem::remove_all(file_name);
	}

	size_t prevj = 101;
	size_t i = 1;

	std::unique_ptr<V8Catalog> catalog (new V8Catalog(file_name.string(), false));
	for(auto pfiles: files)''','''	size_t prevj = 101;
	size_t i = 1;

	std::unique_ptr<V8Catalog> catalog (new V8Catalog(file_name.string(), false));
	for(auto pfiles: files)''')],"An export of a configuration over a .cf file that holds files the configuration does not have any more.","The old files stay in the .cf file.",PRE+'''
def base(names):
    b = Base(); infobase(b, [(n, deflate(n.encode() * 50)) for n in names]); b.save(B)
base(["root", "old", "version"])
ok = run("-ddc", O + "/c.cf", B).returncode == 0
base(["root", "version"])
ok = run("-ddc", O + "/c.cf", B).returncode == 0 and ok
ok = ok and sorted(files_of(open(O + "/c.cf", "rb").read())) == ["root", "version"]
'''+POST)
cpp("directory-write-tail","C05",[(T+"ConfigStorage.cpp",'''	f.CopyFrom(str, 0);
''','''	f.CopyFrom(str, str->GetSize() - str->GetPosition());
''')],"A stream that was read or written before is stored in a configuration kept as a directory.","Only the part after the current position is written.",'','''
#include "ConfigStorage.h"
int main() {
	boost::filesystem::create_directory("d");
	ConfigStorageDirectory s("d");
	TMemoryStream m;
	m.Write("0123456789", 10);
	m.Seek(4, soFromBeginning);
	NEED(s.writefile("x", &m));
	std::unique_ptr<ConfigFile> f(s.readfile("x"));
	NEED(f && f->str->GetSize() == 10);
	char b[10];
	NEED(f->str->Read(b, 10) == 10 && !memcmp(b, "0123456789", 10));
}
''')
cpp("table-fileexists-case","C05",[(T+"ConfigStorage.cpp",'''	return files.find(LowerCase(fname)) != files.end();
}

//********************************************************
// Класс ConfigStorageTableConfig
''','''	return files.find(fname) != files.end();
}

//********************************************************
// Класс ConfigStorageTableConfig
''')],"A file of the configuration whose name contains capital letters.","fileexists says it does not exist, although it can be read.",'''
b = Base(); infobase(b, [("Root", deflate(b"x" * 50)), ("version", deflate(b"v"))]); b.save("b.1CD")
''','''
#include "ConfigStorage.h"
#include "TableFiles.h"
int main() {
	T_1CD base("b.1CD", nullptr, false);
	TableFiles files(base.table_config);
	ConfigStorageTableConfig s(&files);
	NEED(s.fileexists("version"));
	ConfigFile *f = s.readfile("Root");
	NEED(f);
	s.close(f);
	NEED(s.fileexists("Root"));
	NEED(!s.fileexists("other"));
}
''')
mk("key-case","A01",[("src/ctool1cd/ParseCommandLine.cpp",'''			param = LowerCase(param.substr(1, param.size() - 1));
''','''			param = param.substr(1, param.size() - 1);
''')],"A key written with capital letters, as in the help text.","It is not recognised.",PRE+'''
b = Base(); b.table("_R", [("_C", "N", 0, 5, 0)], [b"\\0" + num(7, 5) + b"\\0"]); b.save(B)
r = run("-ExportAllToXML", O, B)
ok = r.returncode == 0 and os.listdir(O) == ["_R.xml"]
'''+POST)
mk("sts-live-records","A03",[("src/ctool1cd/App.cpp",'''to_string(tbl->get_phys_numrecords())+"|"''','''to_string(tbl->get_log_numrecords() ? tbl->get_log_numrecords() : tbl->get_phys_numrecords())+"|"''')],
"-sts after an export in the same run, of a table with removed records.","The live records only are counted.",PRE+'''
b = Base()
b.table("_R", [("_C", "N", 0, 5, 0)], [bytes([i == 2]) + num(i, 5) + b"\\0" for i in range(6)]); b.save(B)
r = run("-eax", O, "-sts", O + "/s", B)
ok = r.returncode == 0 and open(O + "/s", encoding="utf-8-sig").read().split()[1].startswith("_R|6|")
'''+POST)
mk("blob-chunk-256","S07",[(T+"Table.cpp",'''			if(_curlen > BLOB_RECORD_DATA_LEN)
			{
				throw DetailedException("Попытка чтения из блока файла Blob более 250 байт")
					.add_detail("Таблица", name)
					.add_detail("Индекс блока", _curblock)
					.add_detail("Читаемых байт", _curlen);
			}
			_str->Write(_curb + 6, _curlen);''','''			if(_curlen > BLOB_RECORD_LEN)
			{
				throw DetailedException("Попытка чтения из блока файла Blob более 250 байт")
					.add_detail("Таблица", name)
					.add_detail("Индекс блока", _curblock)
					.add_detail("Читаемых байт", _curlen);
			}
			_str->Write(_curb + 6, _curlen);''')],"A damaged blob record that claims a length of 251 to 256 bytes.","Up to six bytes after the buffer are read and exported.",PRE+'''
b = Base(); bl = Blob(); v = bl.add(b"v" * 200)
struct.pack_into("<H", bl.d, 256 + 4, 254)
b.table("_R", [("_I", "I", 0, 0, 0)], [b"\\0" + v], bl); b.save(B)
r = run("-eax", O, B)
ok = r.returncode == 206
'''+POST)
mk("ne-opens-for-writing","S05",[(T+"Class_1CD.cpp",'''								_monopoly ? (fmOpenReadWrite | fmShareDenyWrite)
										  : (fmOpenRead | fmShareDenyNone)));
''','''								fmOpenReadWrite | (_monopoly ? fmShareDenyWrite : fmShareDenyNone)));
''')],"-ne on a base the user may only read.","The base cannot be opened.",PRE+'''
b = Base(); b.table("_R", [("_C", "N", 0, 5, 0)], [b"\\0" + num(7, 5) + b"\\0"]); b.save(B)
os.chmod(B, 0o444); os.chmod(T, 0o755); os.chmod(O, 0o777)
import subprocess
r = subprocess.run([os.getcwd() + "/_build/bin/ctool1cd", "-ne", "-eax", O, B], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                   preexec_fn=lambda: (os.setgroups([]), os.setgid(65534), os.setuid(65534)) if os.getuid() == 0 else None)
ok = r.returncode == 0 and os.path.exists(O + "/_R.xml")
'''+POST)
cpp("flush-not-nested","K01",[(T+"cfapi/V8File.cpp",'''	flushed = true;
	if(self) self->Flush();
''','''	flushed = true;
''')],"A container nested in another one is changed, and the outer one is flushed but not closed.","The flushed file does not hold the changes of the inner container.",'','''
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
int main() {
	V8Catalog c("c.cfx", false);
	V8Catalog *in = c.CreateCatalog("in");
	NEED(in);
	V8File *f = in->createFile("x");
	f->write("0123456789", 10);
	c.Flush();
	boost::filesystem::copy_file("c.cfx", "d.cfx");
	V8Catalog d("d.cfx", false);
	NEED(d.get_file("in") && d.get_file("in")->get_catalog());
	V8File *g = d.get_file("in")->get_catalog()->get_file("x");
	NEED(g && g->get_file_length() == 10);
}
''')
cpp("stream-past-end","K03",[(T+"cfapi/TV8FileStream.cpp",'''			if(pos + Offset < len) {
				pos += Offset;
			}
			else {
				pos = len;
			}
''','''			pos += Offset;
''')],"A seek past the end from the current position in a stream of a file of a container.","The position lies past the end.",'','''
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "cfapi/TV8FileStream.h"
int main() {
	V8Catalog c("c.cfx", false);
	V8File *f = c.createFile("x");
	f->write("0123456789", 10);
	TV8FileStream *s = f->get_stream();
	s->Seek(5, soFromBeginning);
	NEED(s->Seek(20, soFromCurrent) == 10);
	delete s;
}
''')
mk("blob-rewrite-start","T04",[(T+"Table.cpp",'''	if(rewrite) _str->SetSize(0);
	startlen = _str->GetPosition();
''','''	startlen = _str->GetPosition();
	if(rewrite) _str->SetSize(0);
''')],"A stream that is used for one value after another, the later one longer than one chunk.","Only the first chunk of the later value is read.",demo_sh=CPP,extra={"gen.py":GEN+'''
b = Base(); bl = Blob()
b.table("_R", [("_I", "I", 0, 0, 0)], [b"\\0" + bl.add(bytes(range(100))), b"\\0" + bl.add(bytes(i % 251 for i in range(2000)))], bl); b.save("b.1CD")
''',"demo.cpp":CPPH+'''
#include "TableRecord.h"
int main() {
	T_1CD base("b.1CD", nullptr, false);
	Table *t = base.get_table(0);
	TMemoryStream m;
	for (int r = 0; r < 2; r++) {
		std::shared_ptr<TableRecord> rec(t->get_record(r));
		auto p = rec->get<table_blob_file>(t->get_field(0));
		t->readBlob(&m, p.blob_start, p.blob_length);
		NEED(m.GetSize() == (r ? 2000 : 100));
	}
}
''',"mk1cd.py":open("/verif/tools/demo/mk1cd.py").read()})
mk("index-root-kept","H01",[(T+"Index.cpp",'''	if(!recordsindex_complete) create_recordsindex();
	return recordsindex.size();''','''	if(recordsindex.empty()) create_recordsindex();
	return recordsindex.size();'''),(T+"Index.cpp",'''	if(!recordsindex_complete) create_recordsindex();
	return recordsindex[num_record];''','''	if(recordsindex.empty()) create_recordsindex();
	return recordsindex[num_record];''')],"An export, an import of a table and another export in one run.","The second export lists the records of the old index.",PRE+'''
def base(n, path):
    b = Base(); key = lambda i: bytes([0, 0, i + 1, 0, 0, 0, 0, 0])
    b.table("_R", [("_C", "N", 0, 5, 0)], [b"\\0" + num(i + 1, 5) + b"\\0" for i in range(n)], indexes=[("PK", 1, [("_C", 8)], 8, [(key(i), i) for i in range(n)], 9)])
    b.save(path)
base(3, B); base(8, T + "/b2.1CD")
E1 = T + "/eb"; os.mkdir(E1)
ok = run("-eb", E1, "*", T + "/b2.1CD").returncode == 0
X = T + "/x"; os.mkdir(X)
ok = run("-eax", X, "-ib", E1, "*", "-eax", O, B).returncode == 0 and ok
ok = ok and re.findall("<_C>(\\\\d+)</_C>", open(O + "/_R.xml", encoding="utf-8-sig").read()) == [str(i + 1) for i in range(8)]
'''+POST)
mk("removed-flag-one","T02",[(T+"TableRecord.cpp",'''	return data[0] != '\\0';
''','''	return data[0] > 0;
''')],"A removed record whose mark is a byte of 80 or more.","It is exported as a live one.",PRE+'''
b = Base()
b.table("_R", [("_C", "N", 0, 5, 0)], [bytes([255 * (i == 2)]) + num(i, 5) + b"\\0" for i in range(6)]); b.save(B)
r = run("-eax", O, B)
ok = r.returncode == 0 and re.findall("<_C>(\\\\d+)</_C>", open(O + "/_R.xml", encoding="utf-8-sig").read()) == ["0", "1", "3", "4", "5"]
'''+POST)
mk("cf-extension-case","D01",[("src/ctool1cd/App.cpp",'''	if (!boost::iequals(cfpath.extension().string(), CF_STR)) {
		if (!directory_exists(cfpath)) {
			return;
		}
		cfpath /= string("v")''','''	if (cfpath.extension().string() != CF_STR) {
		if (!directory_exists(cfpath)) {
			return;
		}
		cfpath /= string("v")''')],"-drc into a file whose name ends in .CF.","It is taken for a directory that does not exist.",PRE+'''
b = Base()
depot(b, [1, 2], [(0, 1, deflate(b"root")), (1, 1, deflate(b"one")), (1, 2, deflate(b"two"))], [])
b.save(B)
ok = run("-drc", "1", O + "/a.CF", B).returncode == 0 and os.path.isfile(O + "/a.CF")
'''+POST)
