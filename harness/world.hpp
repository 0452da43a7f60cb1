// Small bases of every kind, and the reading commands of the program.
#pragma once
#include "depot.hpp"

namespace world {

using namespace depot;
inline std::string S(long long v) { return std::to_string(v); }
inline const Fmt &fmt(int i) { return formats()[i % 9]; }
typedef std::map<std::string, Bytes> Files;
inline Files tree(const std::string &d) { Files t; mc::list_tree(d, t); return t; }

inline Bytes small_cf()
{
	return v8c::deflate_raw("\xef\xbb\xbf{1}");
}
// kinds of base; the base is <dir>/b.1CD
const int NK = 7, BIG = 7;
static const char *const KIND[NK + 1] = {"infobase", "plain", "empty", "depot3", "depot5", "depot6", "depot7", "big"};
inline void make(int kind, const Fmt &f, const std::string &dir, int rows = 50, int variant = 0)
{
	if (kind == 0) {
		conf::Ib b;
		const char *names[] = {"root", "version", "versions", "f0a1", "f0a1.0"};
		for (auto n : names) for (int k = 0; k < 2; k++) { conf::Row x; x.name = n; x.data = v8c::deflate_raw(std::string("\xef\xbb\xbf{1,") + n + (k ? "x" : "y") + "}"); (k ? b.save : b.config).push_back(x); }
		Bytes cut = v8c::deflate_raw(pattern(6, 0, 700)); // in three parts
		for (int p = 0; p < 3; p++) { conf::Row x; x.name = "parts"; x.part = p; x.data = cut.substr(cut.size() * p / 3, cut.size() * (p + 1) / 3 - cut.size() * p / 3); b.config.push_back(x); }
		conf::Vendor v{std::string(conf::G[0]) + "." + conf::G[1], "Trade", "Firm", variant ? "1.2.4" : "1.2.3", 106, 36, 1, 0, false, false};
		{ conf::Row x; x.name = v.row; x.data = v8c::deflate_raw(v8c::deflate_raw(conf::vendor_cf(v, 5))); b.config.push_back(x); }
		{ conf::Row x; x.name = "gone"; x.removed = true; x.data = pattern(5, 0, 300); b.config.push_back(x); }
		if (variant) { for (auto t : {&b.config, &b.save}) { conf::Row x; x.name = "added"; x.data = v8c::deflate_raw(pattern(7, 0, 9000)); t->insert(t->begin() + 1, x); } b.config[2].data = v8c::deflate_raw("\xef\xbb\xbf{3}"); }
		b.make(f, dir + "/b.1CD");
	} else if (kind == BIG) { // values so long that the program uses temporary files for them
		Tab t;
		t.def.name = "_T0";
		t.def.fields = {field("_IMG", "I"), field("_MORE", "I")};
		img::Blob bl;
		Bytes store = Bytes("\x02\x01\x53\x4b\x6f\xf4\x88\x8d\xc1\x4e\xa0\xd5\xeb\xb6\xbd\xa0\xa7\x0d", 18);
		Bytes len(8, '\0');
		img::put32(len, 0, rows * 1000);
		t.rows.push_back({image(bl, store + v8c::deflate_raw(len + pattern(9, 0, rows * 1000))), image(bl, pattern(10, 0, 700))});
		t.def.blob = bl.d;
		conf::Ib b;
		conf::Row x; x.name = "long"; x.data = v8c::deflate_raw(v8c::deflate_raw(pattern(12, 0, rows * 1000))); b.files.push_back(x);
		b.more.push_back(t);
		b.make(f, dir + "/b.1CD");
	} else if (kind <= 2) {
		std::vector<Tab> ts;
		for (int k = 0; k < 3; k++) {
			Tab t;
			t.def.name = "_T" + S(k);
			t.def.fields = {field("_ID", "N", 9), field("_S", "NVC", 12), field("_B", "B", 16), field("_IMG", "I"), field("_M", "NT"), field("_D", "DT")};
			if (k == 1) t.def.recordlock = true;
			img::Blob bl;
			img::IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 6; ix.fields = {{"_ID", 9}}; ix.per_leaf = 20;
			for (int i = 0; kind == 1 && i < rows; i++) {
				if (i % 7 == 3) { t.rows.push_back({}); continue; }
				t.rows.push_back({cli::num(S(i), 9, 0), cli::nvc("s" + S(i), 12), bin(pattern(i, 0, 16)), image(bl, i % 3 ? pattern(i + 100, 0, 10 + i * 40) : v8c::deflate_raw(pattern(i, 0, 500))), memo(bl, "m" + S(i)), date("20200102030405")});
				Bytes key(6, '\0'); key[5] = (char)i;
				ix.entries.push_back({key, (uint32_t)i});
			}
			t.def.blob = bl.d;
			if (k != 2) t.def.indexes = {ix};
			ts.push_back(t);
		}
		make_base(f, ts, dir + "/b.1CD");
	} else {
		Depot d;
		static const int dv[4] = {3, 5, 6, 7};
		d.dv = dv[kind - 3];
		for (int n = 1; n <= 3 + variant; n++) { Ver v; v.num = n; d.versions.push_back(v); }
		for (int o = 0; o < 3; o++) for (int v = 1; v <= 3 + variant; v++) {
			Obj x; x.obj = o; x.ver = v; x.verid = o * 8 + v; x.data = v8c::deflate_raw(pattern(o * 9 + v + variant * 50, 0, 200));
			x.store = d.dv < 6 ? BLOB : v == 1 ? PACK0 : v == 2 ? LOOSE : BLOB;
			if (o == 2 && v == 3) { x.removed = true; x.data.clear(); }
			d.history.push_back(x);
		}
		{ Ext e; e.obj = 0; e.ver = 2; e.name = ms(objid(0)) + ".0"; e.data = v8c::deflate_raw(pattern(77, 0, 90)); e.store = d.dv < 6 ? BLOB : PACK1; e.verid = 300; d.externals.push_back(e); }
		d.make(f, dir, "b.1CD");
	}
}
struct Reading { const char *name; std::vector<std::string> args; };
inline const std::vector<Reading> &readings()
{
	static const std::vector<Reading> r = {
		{"eax", {"-eax", "@"}}, {"ex", {"-ex", "@", "*"}}, {"exbf", {"-bf", "yes", "-ex", "@", "_T*,HISTORY,CONFIG"}}, {"exraw", {"-pb", "no", "-bf", "yes", "-eax", "@"}}, {"eb", {"-eb", "@", "*"}}, {"slo", {"-slo", "@"}},
		{"sts", {"-sts", "@/sizes"}}, {"ddc", {"-ddc", "@"}}, {"dc", {"-dc", "@/c.cf"}}, {"dvc", {"-dvc", "@"}}, {"dac", {"-dac", "@"}}, {"drc", {"-drc", "0", "@"}}, {"drc1", {"-drc", "1", "@"}}, {"dpc", {"-dpc", "1:3", "@/parts"}},
		{"log", {"-l", "@/log"}}, {"nothing", {"-nv"}}, {"baddir", {"-eax", "@/none", "-drc", "9", "@"}}, {"ibne", {"-ib", "@", "*"}} /* only with -ne */};
	return r;
}

} // namespace world
