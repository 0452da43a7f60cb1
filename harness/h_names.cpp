// N01 names found in a base never lead out of the directory given
#include "depot.hpp"

namespace {

using namespace depot;
using mc::Run;
std::string S(long long v) { return std::to_string(v); }

// kind of a name: what it would reach if it were used as a path below d/w/out
const std::vector<std::string> &evil(const std::string &d)
{
	static std::vector<std::string> v;
	v = {"../x", "../../x", "../w2/x", "a/b", "a/../../x", "..", ".", "...", "x/..", "/", "//", "../", "/..", d + "/abs", "/" + d + "/abs", "..\\x", "a\\b", "../x.cf", "sub/../../w2/old", "../out2", "~", "-x", "%2e%2e%2fx", "a:b", "a\tb", "a b", "..;x", "\xd0\x96/../../x"};
	return v;
}

struct World {
	Run &r;
	std::string d, out;
	std::map<std::string, Bytes> before;
	explicit World(Run &run) : r(run)
	{
		d = r.fresh_dir(); out = d + "/w/out";
		fs_::create_directories(out);
		for (auto x : {"/w2", "/w/sub", "/w/out2"}) fs_::create_directories(d + x);
		for (auto x : {"/x", "/w/x", "/w2/old", "/abs", "/w/x.cf", "/x.xml", "/w/x.xml", "/w/out2/f"}) mc::write_file(d + x, Bytes("keep ") + x);
	}
	void snap() { before.clear(); mc::list_tree(d, before); }
	// nothing outside `out` has changed, except the files named; returns what is in `out`
	std::map<std::string, Bytes> check(const std::string &what, const std::set<std::string> &may = {})
	{
		std::map<std::string, Bytes> now, in;
		mc::list_tree(d, now);
		for (auto &x : before) {
			if (x.first.compare(0, 6, "w/out/") == 0 || may.count(x.first)) continue;
			if (!now.count(x.first)) mc::fail("names:removed", what + ": " + mc::quote(x.first) + " is removed");
			if (now[x.first] != x.second) mc::fail("names:overwritten", what + ": " + mc::quote(x.first) + " is overwritten");
		}
		for (auto &x : now) {
			if (x.first.compare(0, 6, "w/out/") == 0) { if (x.first != "w/out/") in[x.first.substr(6)] = x.second; continue; }
			if (!before.count(x.first) && !may.count(x.first)) mc::fail("names:outside", what + ": " + mc::quote(x.first) + " is written outside the directory given");
		}
		uint64_t h = mc::fnv(what);
		for (auto &x : in) h = h * 31 + mc::fnv(x.first);
		r.state(h);
		return in;
	}
};

Tab table(const std::string &name, const std::string &fld, int mode, const std::vector<std::pair<std::string, Bytes>> &rows)
{
	// mode 0: key and image; 1: no key
	Tab t;
	t.def.name = name;
	t.def.fields = {field("_K", "NVC", 100), field(fld, "I")};
	img::Blob bl;
	img::IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 4; ix.fields = {{"_K", 4}};
	for (size_t i = 0; i < rows.size(); i++) {
		t.rows.push_back({cli::nvc(rows[i].first, 100), image(bl, rows[i].second)});
		Bytes k(4, '\0'); k[3] = (char)i;
		ix.entries.push_back({k, (uint32_t)i});
	}
	t.def.blob = bl.d;
	if (mode == 0) t.def.indexes = {ix};
	return t;
}

void n01(Run &r)
{
	size_t ne = evil("/d").size(), nf = r.thorough ? formats().size() : 3;
	for (size_t fi = 0; fi < nf; fi++) for (size_t e = 0; e < ne; e++) {
		const Fmt f = formats()[fi];
		std::string tag = S(fi) + "/" + S(e);
		// names of tables
		for (int how = 0; how < 4; how++) r.scenario("n01/table/" + tag + "/" + S(how), [&r, f, e, how] {
			World w(r);
			std::string n = evil(w.d)[e];
			static const char *K[] = {"-eax", "-ex", "-eb", "-ib"};
			auto base = [&](const std::string &name, const std::string &path, int seed) {
				std::vector<Tab> ts = {table(name, "_I", 0, {{"k", pattern(seed, 0, 500)}}), table("_PLAIN", "_I", 0, {{"k", pattern(seed + 1, 0, 500)}})};
				make_base(f, ts, path);
				return ts;
			};
			auto t = base(n, w.d + "/b.1CD", 3);
			std::vector<std::string> a = {K[how], w.out, "*", w.d + "/b.1CD"};
			if (how == 0) a.erase(a.begin() + 2);
			if (how < 2) { a.insert(a.begin(), "yes"); a.insert(a.begin(), "-bf"); }
			if (how < 3) {
				w.snap();
				good(r, a);
				auto in = w.check(std::string(K[how]) + " of a table named " + mc::quote(n));
				int files = 0, data = 0;
				for (auto &x : in) {
					if (how < 2 && x.first.size() > 4 && x.first.find('/') == std::string::npos && x.first.substr(x.first.size() - 4) == ".xml") files++;
					if (how < 2 && (x.second == pattern(3, 0, 500) || x.second == pattern(4, 0, 500))) data++;
					if (how == 2 && x.first.size() > 5 && x.first.substr(x.first.size() - 5) == "/data") files++;
					if (how == 2 && x.first.size() > 5 && x.first.substr(x.first.size() - 5) == "/blob") data++;
				}
				if (files != 2 || data != 2) mc::fail("names:lost", std::string(K[how]) + " of a table named " + mc::quote(n) + " and one more: " + S(files) + " files of tables and " + S(data) + " of data instead of 2 and 2");
			} else {
				// what was exported comes back; what lies outside is not taken
				auto t2 = base(n, w.d + "/c.1CD", 11);
				Bytes orig = mc::read_file(w.d + "/c.1CD");
				fs_::create_directories(w.d + "/exp");
				base("_OUTER", w.d + "/o.1CD", 21);
				good(r, {"-eb", w.d + "/exp", "*", w.d + "/o.1CD"});
				for (auto x : {"/w/y", "/y", "/w2/y", "/w/out/sub/y"}) { fs_::create_directories(w.d + x); for (auto p : {"root", "data", "blob", "index", "descr"}) if (mc::exists(w.d + "/exp/_OUTER/" + p)) mc::write_file(w.d + x + "/" + p, mc::read_file(w.d + "/exp/_OUTER/" + p)); }
				w.snap();
				good(r, {"-eb", w.out, "*", w.d + "/b.1CD"});
				w.check("-eb of a table named " + mc::quote(n));
				good(r, {"-ib", w.out, "*", w.d + "/c.1CD"});
				w.check("-ib of a table named " + mc::quote(n), {"c.1CD"});
				Bytes got = mc::read_file(w.d + "/c.1CD");
				for (int k = 0; k < 2; k++) mc::expect_eq("names:import", "-ib of a table named " + mc::quote(n) + ": records", img::Reader(got).object(t2[k].def.data_block), img::Reader(mc::read_file(w.d + "/b.1CD")).object(t[k].def.data_block));
				r.state(mc::fnv(got));
				// a name that would reach an exported table outside the directory
				for (auto y : {"../y", "../../y", "../../w2/y"}) {
					auto t3 = base(y, w.d + "/c.1CD", 11);
					Bytes b = mc::read_file(w.d + "/c.1CD");
					must(r, {"-ib", w.out, y, w.d + "/c.1CD"});
					if (mc::read_file(w.d + "/c.1CD") != b) mc::fail("names:import-outside", "-ib of a table named " + mc::quote(y) + " takes its data from outside of the directory given");
				}
			}
		}, 60);
		// keys of records and names of fields
		for (int how = 0; how < 4; how++) r.scenario("n01/record/" + tag + "/" + S(how), [&r, f, e, how] {
			World w(r);
			std::string n = evil(w.d)[e];
			std::vector<Tab> ts = {table("_T", how & 1 ? n : "_I", how & 1, {{n, pattern(5, 0, 400)}, {"k", pattern(6, 0, 400)}, {n, pattern(7, 0, 400)}})};
			make_base(f, ts, w.d + "/b.1CD");
			w.snap();
			good(r, {"-bf", "yes", "-pb", how & 2 ? "yes" : "no", "-eax", w.out, w.d + "/b.1CD"});
			auto in = w.check("the export of a record with the " + std::string(how & 1 ? "field " : "key ") + mc::quote(n));
			int data = 0;
			for (int k = 5; k < 8; k++) for (auto &x : in) data += x.second == pattern(k, 0, 400);
			if (data != 3) mc::fail("names:lost", "the export of a record with the " + std::string(how & 1 ? "field " : "key ") + mc::quote(n) + ": " + S(data) + " of 3 values are written");
		}, 60);
		// names inside of a container
		for (int how = 0; how < 4; how++) r.scenario("n01/container/" + tag + "/" + S(how), [&r, f, e, how] {
			World w(r);
			std::string n = evil(w.d)[e];
			auto file = [](const std::string &name, const Bytes &x) { v8c::File y; y.name = name; y.data = x; return y; };
			Bytes inner = v8c::build({file(n, pattern(8, 0, 300)), file("plain", pattern(9, 0, 300))});
			Bytes c = how & 1 ? v8c::build({file(n, inner), file("top", pattern(10, 0, 300))}) : inner;
			std::vector<Tab> ts = {table("SYS", "_I", 0, {{"k", how & 2 ? v8c::deflate_raw(c) : c}})};
			make_base(f, ts, w.d + "/b.1CD");
			w.snap();
			good(r, {"-bf", "yes", "-pb", "yes", "-eax", w.out, w.d + "/b.1CD"});
			auto in = w.check("unpacking a container with the file " + mc::quote(n));
			int data = 0;
			for (int k = 8; k < 11; k++) for (auto &x : in) data += x.second == pattern(k, 0, 300);
			if (data != (how & 1 ? 3 : 2)) mc::fail("names:lost", "unpacking a container with the file " + mc::quote(n) + ": " + S(data) + " files are written");
		}, 60);
		// files of a configuration
		for (int how = 0; how < 4; how++) r.scenario("n01/config/" + tag + "/" + S(how), [&r, f, e, how] {
			World w(r);
			std::string n = evil(w.d)[e];
			conf::Ib ib;
			for (auto &x : {std::string("root"), std::string("version"), n}) { conf::Row y; y.name = x; y.data = v8c::deflate_raw("\xef\xbb\xbf{1," + x + "}"); ib.config.push_back(y); }
			{ conf::Row y; y.name = n; y.data = v8c::deflate_raw("\xef\xbb\xbf{2}"); ib.save.push_back(y); }
			ib.make(f, w.d + "/b.1CD");
			w.snap();
			static const char *K[] = {"-dc", "-ddc", "-dac", "-dvc"};
			must(r, {K[how], w.out, w.d + "/b.1CD"});
			auto in = w.check(std::string(K[how]) + " of a configuration with the file " + mc::quote(n));
			for (auto &x : in) if (x.first.find('/') != std::string::npos || x.first.substr(x.first.size() - 3) != ".cf") mc::fail("names:inside", std::string(K[how]) + " writes " + mc::quote(x.first));
			if (how < 2 && in.size() != 1) mc::fail("names:lost", std::string(K[how]) + " writes " + S(in.size()) + " files");
		}, 60);
		// files of a repository
		for (int how = 0; how < 4; how++) r.scenario("n01/depot/" + tag + "/" + S(how), [&r, f, e, how] {
			World w(r);
			std::string n = evil(w.d)[e];
			Depot dp; dp.ext_len = 200; dp.dv = how & 1 ? 6 : 5;
			{ Ver v; v.num = 1; dp.versions.push_back(v); v.num = 2; dp.versions.push_back(v); }
			for (int v = 1; v <= 2; v++) { Obj o; o.obj = 0; o.ver = v; o.verid = v; o.data = v8c::deflate_raw(pattern(12 + v, 0, 90)); dp.history.push_back(o); }
			{ Ext x; x.obj = 0; x.ver = 2; x.name = n; x.data = v8c::deflate_raw(pattern(30, 0, 200)); x.verid = 300; dp.externals.push_back(x); }
			dp.make(f, w.d, "b.1CD");
			w.snap();
			if (how & 2) must(r, {"-drc", "2", w.out, w.d + "/b.1CD"});
			else must(r, {"-dpc", "2", w.out, w.d + "/b.1CD"});
			auto in = w.check("export of a repository with the file " + mc::quote(n));
			if (!(how & 2)) {
				int data = 0;
				for (auto &x : in) data += x.second == pattern(30, 0, 200);
				if (data != 1) mc::fail("names:lost", "-dpc of a repository with the file " + mc::quote(n) + ": its contents are written " + S(data) + " times");
			}
		}, 60);
	}
	// keys of every length: one file per record, whole records
	static const char *CH[] = {"a", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
	for (int c = 0; c < 4; c++) for (int len = 1; len <= 300; len += len > 40 && len < 70 ? 1 : len > 120 && len < 130 ? 1 : r.thorough ? 3 : 13) for (int fl = 0; fl < 2; fl++) r.scenario("n01/length/" + S(c) + "/" + S(len) + "/" + S(fl), [&r, c, len, fl] {
		World w(r);
		std::string s;
		for (int i = 0; i < len; i++) s += CH[c];
		Tab t;
		t.def.name = "_T";
		t.def.fields = {field("_K", "NVC", 620), field("_I", "I")};
		if (fl) t.def.fields.push_back(field("_J", "I"));
		img::Blob bl;
		img::IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 4; ix.fields = {{"_K", 4}};
		std::vector<std::string> ks = {s + "1", s + "2", s};
		std::vector<Bytes> want;
		for (size_t i = 0; i < 3; i++) {
			t.rows.push_back({cli::nvc(ks[i], 620), image(bl, pattern(40 + i, 0, 50))});
			want.push_back(pattern(40 + i, 0, 50));
			if (fl) { t.rows.back().push_back(image(bl, pattern(50 + i, 0, 50))); want.push_back(pattern(50 + i, 0, 50)); }
			Bytes k(4, '\0'); k[3] = (char)i;
			ix.entries.push_back({k, (uint32_t)i});
		}
		t.def.blob = bl.d;
		t.def.indexes = {ix};
		std::vector<Tab> ts = {t};
		make_base(formats()[len % 3], ts, w.d + "/b.1CD");
		w.snap();
		good(r, {"-bf", "yes", "-eax", w.out, w.d + "/b.1CD"});
		auto in = w.check("the export of records with long keys");
		Node doc = Xml(in["_T.xml"]).document();
		size_t at = 0;
		mc::expect_eq("names:records", "records", doc.kids[1].kids.size(), (size_t)3);
		for (size_t i = 0; i < 3; i++) {
			auto &rec = doc.kids[1].kids[i].kids;
			mc::expect_eq("names:key", "key", rec[0].text, ks[i]);
			for (size_t k = 1; k < rec.size(); k++, at++) {
				std::string p = "_T.xml.blob/" + rec[k].text;
				if (!in.count(p)) mc::fail("names:file", "the record with a key of " + S(ks[i].size()) + " bytes refers to " + mc::quote(rec[k].text) + ", which does not exist");
				mc::expect_eq("names:blob", "the file of the record with a key of " + S(ks[i].size()) + " bytes", in[p], want[at]);
				for (size_t q = 0, n = 0; q < rec[k].text.size(); q++) { unsigned char ch = rec[k].text[q]; if (n) { if ((ch & 0xc0) != 0x80) mc::fail("names:utf8", "the name " + mc::quote(rec[k].text) + " is not well-formed"); n--; } else n = ch < 0x80 ? 0 : ch < 0xc0 ? 9 : ch < 0xe0 ? 1 : ch < 0xf0 ? 2 : 3; }
			}
		}
		mc::expect_eq("names:count", "files written", in.size(), want.size() + 2);
	}, 60);
}

} // namespace

void explore(Run &r)
{
	if (r.prop == "N01") n01(r);
	else { fprintf(stderr, "h_names: unknown property %s\n", r.prop.c_str()); exit(2); }
}
