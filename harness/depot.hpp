// Configuration repositories (depots) with a given history.
#pragma once
#include "conf.hpp"
#include <zlib.h>

namespace depot {

using namespace cli;
using conf::field;
using mc::Bytes;

enum Store { BLOB, PACK0, PACK1, LOOSE, NOWHERE };
struct Obj { // a row of HISTORY
	int obj = 0, ver = 1;
	bool removed = false;
	int packed = 1;     // DATAPACKED: 1 true, 0 false, -1 null
	Bytes data;         // stored bytes
	int store = BLOB;
	int verid = 0;
};
struct Ext { // a row of EXTERNALS
	int obj = 0, ver = 1;
	std::string name;
	int packed = 1;
	Bytes data;
	int store = BLOB;
	int verid = 0;
};
struct Ver {
	int num = 1;
	int major = 216, minor = 0;
	Bytes maker;        // empty: null
	uint32_t crc = 0; bool has_crc = false;
};

// identifiers: the first byte orders the objects; bytes above 127 make signed comparisons visible
inline Bytes guid(int kind, int n)
{
	static const unsigned char first[8] = {0x12, 0x7e, 0x83, 0xc5, 0xf0, 0x01, 0x40, 0x9a};
	Bytes g(16, '\0');
	g[0] = (char)first[n & 7];
	for (int i = 1; i < 16; i++) g[i] = (char)(0x11 * i + 7 * kind + 29 * n);
	g[2] = (char)(g[2] + (n >> 8));
	return g;
}
inline Bytes objid(int n) { return guid(1, n); }
inline Bytes obj_verid(int n) { Bytes g = guid(2, n & 7); g[15] = (char)n; g[14] = (char)(n >> 8); return g; }
inline std::string ms(const Bytes &b)
{
	std::string h = hexs(b);
	auto rev = [&](int o, int n) { std::string r; for (int i = n - 1; i >= 0; i--) r += h.substr((o + i) * 2, 2); return r; };
	return rev(0, 4) + "-" + rev(4, 2) + "-" + rev(6, 2) + "-" + h.substr(16, 4) + "-" + h.substr(20, 12);
}
// an identifier of contents, as SHA-1 would be: equal for equal contents
inline Bytes hash(const Bytes &d)
{
	Bytes r;
	for (uint32_t k = 0; k < 3; k++) { uint64_t h = mc::fnv(d + Bytes(1, (char)k)); for (int i = 0; i < 8; i++) r += (char)(h >> (8 * i)); }
	return r.substr(0, 20);
}
inline V null_or(bool null, const V &v) { return null ? null_() : v; }
inline V flag(int v) { V x = text(Bytes(1, (char)(v ? 1 : 0)), v ? "true" : "false"); return v < 0 ? null_() : x; }
inline V n10(int v, int len = 10) { return cli::num(std::to_string(v), len, 0); }

inline img::FieldDef nullable(img::FieldDef f) { f.null = true; return f; }

struct Pack { std::vector<std::pair<Bytes, Bytes>> objects; /* hash, data */ };
inline void write_pack(const std::string &dir, const std::string &name, const Pack &p)
{
	Bytes ind = Bytes("\x01\x02\x03\x04\x05\x06\x07\x08", 8) + img::le32(p.objects.size()), pck = Bytes("PACKHEAD");
	std::vector<std::pair<Bytes, uint64_t>> at;
	for (auto &o : p.objects) {
		ind += o.first + img::le64(pck.size());
		pck += img::le64(o.second.size()) + o.second;
	}
	mc::write_file(dir + "/data/pack/" + name + ".ind", ind);
	mc::write_file(dir + "/data/pack/" + name + ".pck", pck);
}
inline void write_loose(const std::string &dir, const Bytes &hash, const Bytes &data)
{
	std::string h = hexs(hash);
	fs_::create_directories(dir + "/data/objects/" + h.substr(0, 2));
	mc::write_file(dir + "/data/objects/" + h.substr(0, 2) + "/" + h.substr(2), data);
}

struct Depot {
	int dv = 5;                 // version of the repository: 3, 5, 6, 7
	Bytes root = guid(3, 0);
	std::vector<Ver> versions;
	std::vector<Obj> history;
	std::vector<Ext> externals;
	bool noise = false;         // removed records between the others
	int order = 0;              // 1: physical order of the records reversed
	int per_leaf = 1000000;
	int packs = 2;
	int ext_len = 40;           // length of EXTNAME

	static void with_index(Tab &t, const std::vector<std::pair<Bytes, uint32_t>> &keyed, uint32_t keylen, const std::vector<std::pair<std::string, int>> &fs, int per_leaf)
	{
		img::IndexDef x; x.name = "PK"; x.primary = true; x.keylen = keylen; x.fields = fs; x.per_leaf = per_leaf;
		if (per_leaf < 1000) x.per_branch = 3;
		x.entries = keyed;
		std::sort(x.entries.begin(), x.entries.end());
		t.def.indexes = {x};
	}
	Bytes make(const Fmt &f, const std::string &dir, const std::string &name) const
	{
		std::vector<Tab> ts;
		auto plain = [&](const std::string &n, std::vector<img::FieldDef> fs) { Tab t; t.def.name = n; t.def.fields = fs; ts.push_back(t); return ts.size() - 1; };
		size_t d = plain("DEPOT", {field("DEPOTID", "B", 16), field("ROOTOBJID", "B", 16), field("CREATEDATE", "DT"), field("DEPOTVER", "B", 8)});
		Bytes dvb(8, '\0'); dvb[0] = (char)dv;
		if (noise) ts[d].rows.push_back({});
		std::vector<V> row = {bin(guid(4, 0)), bin(root), date("20200102030405"), bin(dvb)};
		if (dv >= 7) { ts[d].def.fields.push_back(field("COMPATIBILITYMODE", "N", 10)); row.push_back(n10(80313)); }
		ts[d].rows.push_back(row);
		size_t u = plain("USERS", {field("USERID", "B", 16), field("NAME", "NVC", 20)});
		ts[u].rows.push_back({bin(guid(5, 0)), cli::nvc("user", 20)});
		plain("OBJECTS", {field("OBJID", "B", 16), field("CLASSID", "B", 16)});
		// VERSIONS
		size_t v = plain("VERSIONS", {field("VERNUM", "N", 10), field("USERID", "B", 16), field("VERDATE", "DT"), field("PVERSION", "B", 8)});
		if (dv >= 5) ts[v].def.fields.push_back(field("CVERSION", "B", 4));
		for (auto &x : {nullable(field("CODE", "NVC", 10)), nullable(field("COMMENT", "NT")), nullable(field("SNAPSHOTMAKER", "B", 16)), nullable(field("SNAPSHOTCRC", "B", 4))}) ts[v].def.fields.push_back(x);
		if (dv >= 7) ts[v].def.fields.push_back(field("VERSIONID", "B", 16));
		std::vector<std::pair<Bytes, uint32_t>> key;
		img::Blob vb;
		auto num_key = [](int n) { Bytes k(6, '\0'); for (int i = 0; i < 4; i++) k[1 + i] = (char)((uint32_t)n >> (24 - 8 * i)); k[0] = 1; return k; };
		auto sequence = [&](size_t n) { std::vector<size_t> s; for (size_t i = 0; i < n; i++) s.push_back(order ? n - 1 - i : i); return s; };
		for (size_t i : sequence(versions.size())) {
			auto &x = versions[i];
			if (noise) ts[v].rows.push_back({});
			Bytes cv; cv += (char)(x.major >> 8); cv += (char)x.major; cv += (char)(x.minor >> 8); cv += (char)x.minor;
			std::vector<V> r = {n10(x.num), bin(guid(5, 0)), date("20200102030405"), bin(Bytes("\0\x08\0\x02\0\x13\0\x66", 8))};
			if (dv >= 5) r.push_back(bin(cv));
			r.push_back(null_()); r.push_back(memo(vb, "comment"));
			r.push_back(x.maker.empty() ? null_() : bin(x.maker));
			r.push_back(x.has_crc ? bin(img::le32(x.crc)) : null_());
			if (dv >= 7) r.push_back(bin(guid(6, i)));
			key.push_back({num_key(x.num), (uint32_t)ts[v].rows.size()});
			ts[v].rows.push_back(r);
		}
		ts[v].def.blob = vb.d;
		with_index(ts[v], key, 6, {{"VERNUM", 6}}, per_leaf);
		plain("LABELS", {field("VERNUM", "N", 10), field("NAME", "NVC", 20)});
		// data outside of the base
		Pack pk[2];
		std::set<Bytes> done[3];
		auto place = [&](int store, const Bytes &data) {
			Bytes h = hash(data);
			if (store == PACK0 || store == PACK1) { if (done[store == PACK1].insert(h).second) pk[store == PACK1].objects.push_back({h, data}); }
			else if (store == LOOSE && done[2].insert(h).second) write_loose(dir, h, data);
		};
		// HISTORY
		size_t h = plain("HISTORY", {field("OBJID", "B", 16), field("VERNUM", "N", 10), field("SELFVERNUM", "N", 10), field("OBJVERID", "B", 16), field("PARENTID", "B", 16), nullable(field("OWNERID", "B", 16)),
			field("OBJNAME", "NVC", 20), field("OBJPOS", "N", 6), field("REMOVED", "L"), nullable(field("DATAPACKED", "L")), nullable(field("OBJDATA", "I"))});
		if (dv >= 6) ts[h].def.fields.push_back(nullable(field("DATAHASH", "B", 20)));
		img::Blob hb; key.clear();
		for (size_t i : sequence(history.size())) {
			auto &x = history[i];
			if (noise) ts[h].rows.push_back({});
			bool has = x.packed == 1 && !x.removed;
			std::vector<V> r = {bin(objid(x.obj)), n10(x.ver), n10(x.ver), bin(obj_verid(x.verid)), bin(root), null_(), cli::nvc("Object" + std::to_string(x.obj), 20), n10(x.obj, 6), flag(x.removed), flag(x.removed ? -1 : x.packed),
				!has ? null_() : x.store == BLOB ? image(hb, x.data) : dv >= 6 && x.store == PACK1 ? text(img::blobref(0, 0), "") : null_()};
			if (dv >= 6) r.push_back(has && x.store != NOWHERE ? bin(hash(x.data)) : null_());
			if (has) place(x.store, x.data);
			key.push_back({objid(x.obj) + num_key(x.ver), (uint32_t)ts[h].rows.size()});
			ts[h].rows.push_back(r);
		}
		ts[h].def.blob = hb.d;
		with_index(ts[h], key, 22, {{"OBJID", 16}, {"VERNUM", 6}}, per_leaf);
		plain("LASTESTVERSIONS", {field("OBJID", "B", 16), field("VERNUM", "N", 10)});
		// EXTERNALS
		size_t e = plain("EXTERNALS", {field("OBJID", "B", 16), field("VERNUM", "N", 10), field("EXTNAME", "NVC", ext_len), field("EXTVERID", "B", 16), field("DATAPACKED", "L"), field("EXTDATA", "I")});
		if (dv >= 6) ts[e].def.fields.push_back(nullable(field("DATAHASH", "B", 20)));
		img::Blob eb; key.clear();
		for (size_t i : sequence(externals.size())) {
			auto &x = externals[i];
			if (noise) ts[e].rows.push_back({});
			bool has = x.packed == 1;
			std::vector<V> r = {bin(objid(x.obj)), n10(x.ver), cli::nvc(x.name, ext_len), bin(obj_verid(x.verid)), flag(has), has && x.store == BLOB ? image(eb, x.data) : text(img::blobref(0, 0), "")};
			if (dv >= 6) r.push_back(has ? bin(hash(x.data)) : null_());
			if (has) place(x.store, x.data);
			Bytes nk = img::utf16(x.name); nk.resize(80, '\0');
			key.push_back({objid(x.obj) + num_key(x.ver) + nk, (uint32_t)ts[e].rows.size()});
			ts[e].rows.push_back(r);
		}
		ts[e].def.blob = eb.d;
		with_index(ts[e], key, 102, {{"OBJID", 16}, {"VERNUM", 6}, {"EXTNAME", 80}}, per_leaf);
		plain("SELFREFS", {field("OBJID", "B", 16), field("REFID", "B", 16)});
		plain("OUTREFS", {field("OBJID", "B", 16), field("REFID", "B", 16)});
		if (dv >= 6) {
			fs_::create_directories(dir + "/data/pack");
			for (int i = 0; i < packs; i++) write_pack(dir, i ? "pack-b2" : "pack-a1", pk[i]);
			mc::write_file(dir + "/data/pack/other.ind", "no index"); // not a pack
		}
		return make_base(f, ts, dir + "/" + name);
	}
};

// ---- the list format of the configuration files: {a,"b",{c}}
struct Item { bool list = false; std::string text; std::vector<Item> kids; };
inline Item parse_list(const std::string &s, size_t &p)
{
	auto ws = [&] { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; };
	Item it;
	ws();
	if (p >= s.size()) mc::fail("depot:list", "the list ends unexpectedly");
	if (s[p] == '{') {
		it.list = true; p++; ws();
		if (p < s.size() && s[p] == '}') { p++; return it; }
		while (true) {
			it.kids.push_back(parse_list(s, p)); ws();
			if (p < s.size() && s[p] == ',') { p++; continue; }
			if (p < s.size() && s[p] == '}') { p++; return it; }
			mc::fail("depot:list", "malformed list: " + mc::quote(s.substr(0, 200)));
		}
	}
	if (s[p] == '"') {
		p++;
		while (true) {
			if (p >= s.size()) mc::fail("depot:list", "unterminated string in a list");
			if (s[p] == '"') { if (p + 1 < s.size() && s[p + 1] == '"') { it.text += '"'; p += 2; continue; } p++; return it; }
			it.text += s[p++];
		}
	}
	while (p < s.size() && !strchr(",{}\r\n", s[p])) it.text += s[p++];
	return it;
}
inline Item list_file(const Bytes &d, const std::string &what)
{
	if (d.compare(0, 3, "\xef\xbb\xbf") != 0) mc::fail("depot:bom", what + " does not begin with a byte order mark: " + mc::hex(d, 8));
	size_t p = 3;
	std::string s = d;
	Item it = parse_list(s, p);
	while (p < s.size() && strchr("\r\n", s[p]) && s[p]) p++;
	if (p != s.size()) mc::fail("depot:list", what + " continues after its list");
	return it;
}

} // namespace depot
