// Infobases whose container tables (CONFIG, CONFIGSAVE, ...) hold given files.
#pragma once
#include "cli.hpp"
#include "v8c.hpp"

namespace conf {

using namespace cli;
using mc::Bytes;

struct Row {
	std::string name;
	Bytes data;
	int part = 0;
	bool removed = false;
	bool stray = false; // a data reference with a zero length or start, or a row without a name is built by the caller through these
	uint32_t start = 0, length = 0;
	std::string created = "20200102030405", modified = "20210203040506";
};
inline img::FieldDef field(const std::string &n, const std::string &t, int len = 0, int prec = 0) { img::FieldDef f; f.name = n; f.type = t; f.len = len; f.prec = prec; return f; }
inline std::vector<img::FieldDef> file_fields(bool partno)
{
	std::vector<img::FieldDef> v = {field("FILENAME", "NVC", 128), field("CREATION", "DT"), field("MODIFIED", "DT"), field("ATTRIBUTES", "N", 5), field("DATASIZE", "N", 10), field("BINARYDATA", "I")};
	if (partno) v.push_back(field("PARTNO", "N", 10));
	return v;
}
inline Tab file_tab(const std::string &name, const std::vector<Row> &rows, bool partno, int blobmode = 0)
{
	Tab t;
	t.def.name = name;
	t.def.fields = file_fields(partno);
	img::Blob b; b.mode = blobmode;
	for (auto &x : rows) {
		if (x.removed) { if (!x.data.empty()) b.add(x.data); t.rows.push_back({}); continue; }
		V bd;
		if (x.stray) { bd.kind = BASE64; bd.raw = img::blobref(x.start, x.length); bd.want = ""; }
		else bd = image(b, x.data);
		std::vector<V> r = {cli::nvc(x.name, 128), date(x.created), date(x.modified), cli::num("0", 5, 0), cli::num(std::to_string(x.data.size()), 10, 0), bd};
		if (partno) r.push_back(cli::num(std::to_string(x.part), 10, 0));
		t.rows.push_back(r);
	}
	t.def.blob = b.d;
	return t;
}
// an infobase with these rows in CONFIG and CONFIGSAVE (and FILES)
struct Ib {
	std::vector<Row> config, save, files;
	bool partno = true;
	int blobmode = 0;
	std::vector<Tab> more;
	Bytes make(const Fmt &f, const std::string &path) const
	{
		std::vector<Tab> ts = {file_tab("CONFIG", config, partno, blobmode), file_tab("CONFIGSAVE", save, partno, blobmode), file_tab("PARAMS", {}, partno), file_tab("FILES", files, partno), file_tab("DBSCHEMA", {}, partno)};
		ts[4].def.fields = {field("SERIALIZEDDATA", "I")};
		for (auto &t : more) ts.push_back(t);
		return make_base(f, ts, path);
	}
};

// a configuration of a vendor, stored in CONFIG or CONFIGSAVE under the name of row
static const char *const G[4] = {"11223344-5566-7788-99aa-bbccddeeff00", "a1b2c3d4-e5f6-1728-394a-5b6c7d8e9f01", "0f0e0d0c-0b0a-0908-0706-050403020100", "deadbeef-0123-4567-89ab-cdef01234567"};
struct Vendor { std::string row, name, supplier, version; int container, info, nodes, at; bool save; bool decoy; };
inline std::string meta_text(const Vendor &v)
{
	static const char *other[4] = {"9cd510ce-abfc-11d4-9434-004095e12fc7", "9fcd25a0-4822-11d4-9414-008048da11f9", "e3687481-0a87-462c-a166-9f34594f9bba", "37f2fa9a-b276-11d4-9435-004095e12fc7"};
	std::string s = "\xef\xbb\xbf{2,\r\n{00000000-0000-0000-0000-000000000001}," + std::to_string(v.nodes);
	for (int i = 0; i < v.nodes; i++) {
		if (i != v.at) { s += std::string(",\r\n{") + other[i % 4] + ",{1,{36,{0,{0,0,\"Wrong\"}},\"a\",\"b\",\"c\",\"d\",\"e\",\"f\",\"g\",\"h\",\"i\",\"WrongSup\",\"WrongVer\",\"k\",\"WrongSup\",\"WrongVer\"}}}"; continue; }
		std::string q; for (char c : v.name) { q += c; if (c == '"') q += c; }
		std::string qv; for (char c : v.version) { qv += c; if (c == '"') qv += c; }
		s += ",\r\n{9cd510cd-abfc-11d4-9434-004095e12fc7,{1,{" + std::to_string(v.info) + ",{0,{0,0,\"" + q + "\"}}";
		int sup = v.info == 15 ? 11 : 14;
		for (int k = 2; k < 20; k++) s += k == sup ? ",\"" + v.supplier + "\"" : k == sup + 1 ? ",\"" + qv + "\"" : ",\"other" + std::to_string(k) + "\"";
		s += "}}}";
	}
	return s + "}";
}
inline Bytes vendor_cf(const Vendor &v, uint32_t tag)
{
	auto file = [](const std::string &n, const Bytes &d) { v8c::File f; f.name = n; f.data = d; return f; };
	std::string meta = "77777777-0000-0000-0000-00000000000" + std::to_string(tag % 10);
	bool old = v.container < 100; // only the files of the outermost container are packed one by one
	Bytes root = "\xef\xbb\xbf{1," + meta + ",x}", ver = v8c::deflate_raw("\xef\xbb\xbf{{" + std::to_string(v.container) + ",0}}"), mt = meta_text(v);
	if (!old) { root = v8c::deflate_raw(root); mt = v8c::deflate_raw(mt); }
	std::vector<v8c::File> fs;
	if (old) {
		Bytes in = v8c::build({file("root", root), file(meta, mt)});
		fs = {file("version", ver), file("metadata", v8c::deflate_raw(in))};
	} else fs = {file("root", root), file("version", ver), file(meta, mt)};
	if (v.decoy) { // files in the container of the other kind say nothing
		std::string other = "88888888-0000-0000-0000-000000000001";
		Vendor w = v; w.name = "Decoy"; w.version = "9.9"; w.supplier = "Nobody"; w.decoy = false;
		Bytes rt = "\xef\xbb\xbf{1," + other + ",x}", m2 = meta_text(w);
		if (old) { fs.push_back(file("root", v8c::deflate_raw(rt))); fs.push_back(file(other, v8c::deflate_raw(m2))); fs.push_back(file(meta, v8c::deflate_raw(m2))); }
		else fs.push_back(file("metadata", v8c::deflate_raw(v8c::build({file("root", rt), file(other, m2), file(meta, m2)}))));
	}
	fs.push_back(file("payload", v8c::deflate_raw(pattern(tag, 0, 1000 + 3000 * (tag % 5)))));
	return v8c::build(fs);
}

} // namespace conf
