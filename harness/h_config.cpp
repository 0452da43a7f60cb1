// C01 files of container tables, C02/C03 exported configurations, C04 vendor configurations, C05 adapters
#include "conf.hpp"
#include "TableFiles.h"
#include "ConfigStorage.h"
#include "SupplierConfig.h"
#include "DetailedException.h"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include <sys/stat.h>
#include <fcntl.h>

namespace {

using namespace conf;
using mc::Run;
std::string S(long long v) { return std::to_string(v); }
Bytes stream_bytes(TStream *s)
{
	Bytes r((size_t)s->GetSize(), '\0');
	s->Seek(0, soBeginning);
	if (!r.empty()) s->Read(&r[0], r.size());
	return r;
}
std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
const Fmt &fmt(int i) { return formats()[i]; }

// the table of files over a table of the base; lives as long as the list it is put in
std::vector<std::unique_ptr<TableFiles>> alive;
TableFiles *files_of(T_1CD &b, const char *name)
{
	for (int i = 0; i < (int)b.get_numtables(); i++) if (b.get_table(i)->get_name() == name) { alive.emplace_back(new TableFiles(b.get_table(i))); return alive.back().get(); }
	mc::fail("files:table", std::string("no table ") + name);
}

// ---------------------------------------------------------------- C01
// names whose data are stored as they are
bool packed_name(const std::string &n)
{
	std::string l = low(n);
	if (l == "dynamicallyupdated" || l == "sprscndinfo" || l == "dbnamesversion" || l == "siversions") return false;
	if (l[0] == '{' || l.find("fo_version") != std::string::npos) return false;
	size_t d = l.rfind('.');
	if (d == std::string::npos) return true;
	std::string e = l.substr(d + 1);
	return e != "inf" && e != "pf";
}

struct Exp { std::string name; std::map<int, Bytes> parts; Bytes raw() const { Bytes r; for (auto &p : parts) r += p.second; return r; } };
std::map<std::string, Exp> expected(const std::vector<Row> &rows)
{
	std::map<std::string, Exp> m;
	for (auto &x : rows) {
		if (x.removed || x.stray || x.name.empty() || x.data.empty()) continue;
		Exp &e = m[low(x.name)];
		if (e.name.empty() || x.part == 0) e.name = x.name; // the name is that of part 0
		e.parts[x.part] = x.data;
	}
	return m;
}

void check_files(Run &r, T_1CD &base, const std::vector<Row> &rows, const std::string &w)
{
	auto want = expected(rows);
	TableFiles *tf = files_of(base, "CONFIG");
	r.step();
	if (!tf->get_ready()) mc::fail("files:ready", w + "the table is not ready");
	if (tf->files().size() != want.size()) mc::fail("files:count", w + S(tf->files().size()) + " files, expected " + S(want.size()));
	for (auto &x : want) {
		const Exp &e = x.second;
		for (int k = 0; k < 3; k++) {
			std::string q = e.name;
			if (k) for (auto &c : q) c = k == 1 ? tolower(c) : toupper(c);
			TableFile *f = tf->get_file(q);
			if (!f) mc::fail("files:find", w + "file " + q + " is not found");
			if (low(f->name) != x.first || (e.parts.count(0) && f->name != e.name)) mc::fail("files:name", w + "file " + q + " is called " + f->name);
			if ((int)f->maxpartno != e.parts.rbegin()->first) mc::fail("files:parts", w + "last part " + S(f->maxpartno));
			if (k) continue;
			ContainerFile c(f, f->name);
			if (!c.ropen()) mc::fail("files:open", w + "ropen fails");
			mc::expect_eq("files:raw", w + "stored data of " + e.name, stream_bytes(c.rstream), e.raw());
		}
	}
	for (const char *q : {"", "nosuch", "a.b", "0"}) if (!want.count(q) && tf->get_file(q)) mc::fail("files:find", w + "a file is found under " + mc::quote(q));
}

void c01(Run &r)
{
	int F = r.thorough ? (int)formats().size() : 3;
	// all selections and orders of rows
	std::vector<Row> alpha;
	auto row = [](const std::string &n, int part, const Bytes &d, bool rem = false) { Row x; x.name = n; x.part = part; x.data = d; x.removed = rem; return x; };
	alpha = {row("root", 0, pattern(1, 0, 10)), row("root", 1, pattern(2, 0, 260)), row("root", 2, pattern(3, 0, 250)), row("Abc", 0, pattern(4, 0, 700)), row("abc", 1, pattern(5, 0, 1)),
		row("gone", 0, pattern(6, 0, 300), true), row("", 0, pattern(7, 0, 20)), row("empty", 0, ""), row("empty", 1, pattern(8, 0, 33))};
	{ Row x; x.name = "noref"; x.stray = true; x.start = 0; x.length = 0; alpha.push_back(x); x.name = "zerolen"; x.start = 1; alpha.push_back(x); x.name = "root"; x.part = 3; alpha.push_back(x); }
	int n = alpha.size();
	std::function<void(std::vector<int>, int)> perm = [&](std::vector<int> pick, int depth) {
		if (!pick.empty()) {
			std::string id = "c01/rows/";
			for (int i : pick) id += S(i) + ".";
			std::vector<Row> rows;
			for (int i : pick) rows.push_back(alpha[i]);
			r.scenario(id, [&, rows, pick] {
				for (int f = 0; f < F; f++) for (int bm = 0; bm < 2; bm++) {
					if (!r.thorough && (f + bm + pick.size()) % 2) continue;
					std::string d = r.fresh_dir();
					Ib b; b.config = rows; b.blobmode = bm;
					b.make(fmt(f), d + "/b.1CD");
					auto base = open_base(d + "/b.1CD", false);
					check_files(r, *base, rows, std::string(fmt(f).name) + ": ");
					r.state(r.current() + S(f) + S(bm));
				}
			});
		}
		if (depth == 0) return;
		for (int i = 0; i < n; i++) {
			bool dup = false;
			for (int k : pick) dup |= k == i;
			if (dup) continue;
			auto p = pick; p.push_back(i);
			perm(p, depth - 1);
		}
	};
	perm({}, r.thorough ? 5 : 3);
	// without part numbers every row is a whole file
	for (int f = 0; f < F; f++) for (uint32_t mask = 0; mask < 32; mask++) r.scenario("c01/noparts/" + S(f) + "/" + S(mask), [&] {
		std::vector<Row> rows;
		for (int i = 0; i < 5; i++) { Row x = row("file" + S(i), 0, pattern(i, 0, 100 + 251 * i)); if (mask >> i & 1) x.removed = true; rows.push_back(x); }
		std::string d = r.fresh_dir();
		Ib b; b.config = rows; b.partno = false;
		b.make(fmt(f), d + "/b.1CD");
		auto base = open_base(d + "/b.1CD", false);
		check_files(r, *base, rows, std::string(fmt(f).name) + ", no part numbers: ");
		r.state(r.current());
	});
	// names and packing; all sequences of open, ropen, close
	static const std::vector<std::string> names = {"root", "DynamicallyUpdated", "dynamicallyupdated", "SprScndInfo", "DBNamesVersion", "siVersions", "SIVERSIONS", "{abc}", "a{", "fo_version", "xFO_Versionx",
		"users.inf", "users.INF", "a.pf", "a.PF", "x.pf.y", "inf", "pf", ".pf", "a.info", "a.", "DynamicallyUpdated1", "siVersions.x", "a.b.inf", "versions", "locale.inf", "DBNames", "a.ppf"};
	for (size_t i = 0; i < names.size(); i++) for (int parts = 1; parts <= 3; parts++) for (size_t len : {(size_t)1, (size_t)3000, (size_t)100000}) for (int f = 0; f < 2; f++)
		r.scenario("c01/open/" + S(i) + "/" + S(parts) + "/" + S(len) + "/" + S(f), [&] {
			bool pk = packed_name(names[i]);
			Bytes plain = pattern(i, 0, len), raw = pk ? v8c::deflate_raw(plain) : plain;
			std::vector<Row> rows;
			size_t step = raw.size() / parts + 1;
			for (int p = parts - 1; p >= 0; p--) { Bytes x = raw.substr(std::min(raw.size(), p * step), step); rows.push_back(row(names[i], p, x)); }
			std::string d = r.fresh_dir();
			Ib b; b.config = rows;
			b.make(fmt(f), d + "/b.1CD");
			auto base = open_base(d + "/b.1CD", false);
			TableFile *tf = files_of(*base, "CONFIG")->get_file(names[i]);
			if (!tf) mc::fail("files:find", names[i] + " is not found");
			int depth = r.thorough ? 5 : 4, total = 1;
			for (int k = 0; k < depth; k++) total *= 3;
			if (len == 100000 && !r.thorough) total = 27;
			for (int s = 0; s < total; s++) {
				ContainerFile c(tf, tf->name);
				mc::expect_eq("files:packed", names[i] + " packed", c.isPacked(), pk);
				std::string hist;
				bool so = false, ro = false;
				for (int k = 0, v = s; k < (total == 27 ? 3 : depth); k++, v /= 3) {
					r.step();
					int op = v % 3;
					hist += op == 0 ? " open" : op == 1 ? " ropen" : " close";
					if (op == 0) { if (!c.open()) mc::fail("files:open", names[i] + ":" + hist + " fails"); so = true; }
					if (op == 1) { if (!c.ropen()) mc::fail("files:open", names[i] + ":" + hist + " fails"); ro = true; }
					if (op == 2) { c.close(); so = ro = false; }
					TStream *st = op == 0 ? c.stream : op == 1 ? c.rstream : nullptr;
					if (st && st->GetPosition() != 0) mc::fail("files:position", names[i] + ":" + hist + ": position " + S(st->GetPosition()));
					if (so) mc::expect_eq("files:open", names[i] + ":" + hist, stream_bytes(c.stream), plain);
					if (ro) mc::expect_eq("files:raw", names[i] + ":" + hist, stream_bytes(c.rstream), raw);
				}
			}
			r.state(r.current());
		}, 60);
	// which tables are container tables
	struct Var { std::string id; std::vector<img::FieldDef> fields; bool good; };
	std::vector<Var> vars;
	auto base_fields = file_fields(true);
	for (int k = 0; k <= 8; k++) { auto v = base_fields; while ((int)v.size() > k) v.pop_back(); while ((int)v.size() < k) v.push_back(field("EXTRA", "N", 3)); vars.push_back({"count" + S(k), v, k == 6 || k == 7}); }
	for (int k = 0; k < 7; k++) { auto v = base_fields; v[k].name = "OTHER"; vars.push_back({"name" + S(k), v, false}); v = base_fields; for (auto &c : v[k].name) c = tolower(c); vars.push_back({"lower" + S(k), v, true}); }
	for (int a = 0; a < 7; a++) for (int c = a + 1; c < 7; c++) { auto v = base_fields; std::swap(v[a], v[c]); vars.push_back({"swap" + S(a) + S(c), v, false}); }
	for (auto &v : vars) for (int which = 0; which < 3; which++) for (int f = 0; f < 2; f++) {
		if (v.fields.empty()) continue;
		r.scenario("c01/fields/" + v.id + "/" + S(which) + "/" + S(f), [&] {
			std::string d = r.fresh_dir();
			Tab odd; odd.def.fields = v.fields;
			static const char *nm[3] = {"CONFIG", "CONFIGSAVE", "CONFIGCAS"};
			odd.def.name = nm[which];
			std::vector<Tab> ts = {file_tab("CONFIG", {}, true), file_tab("CONFIGSAVE", {}, true), file_tab("PARAMS", {}, true), file_tab("FILES", {}, true), file_tab("DBSCHEMA", {}, true)};
			if (which < 2) ts[which] = odd; else ts.push_back(odd);
			make_base(fmt(f), ts, d + "/b.1CD");
			auto base = open_base(d + "/b.1CD", false);
			bool good = true;
			r.step();
			try { TableFiles *t = which == 0 ? files_of(*base, "CONFIG") : which == 1 ? files_of(*base, "CONFIGSAVE") : files_of(*base, "CONFIGCAS"); good = t->get_ready() && t->files().empty(); }
			catch (const DetailedException &) { good = false; }
			mc::expect_eq("files:fields", v.id + " accepted", good, v.good);
			r.state(r.current());
		});
	}
}

// ---------------------------------------------------------------- C02, C03: exported configurations
std::string dynlist(const std::vector<int> &l)
{
	std::string s = "\xef\xbb\xbf{1," + S(l.size());
	for (int g : l) s += std::string(",") + G[g];
	return s + "}";
}
// versions of one file: bit 0 base, bits 1..4 dynamic update G[0..3], bit 5 ".new", bit 6 CONFIGSAVE
std::string version_name(const std::string &stem, const std::string &ext, int v)
{
	std::string e = ext.empty() ? "" : "." + ext;
	if (v == 0 || v == 6) return stem + e;
	if (v == 5) return stem + e + ".new";
	return stem + "_dynupdate_" + G[v - 1] + e;
}
// which versions may be in force (several when the choice is not determined)
std::vector<int> in_force(uint32_t mask, const std::vector<int> &list, bool save)
{
	if (save && (mask >> 6 & 1)) return {6};
	if (save && (mask >> 5 & 1)) return {5};
	for (size_t i = list.size(); i-- > 0;) if (mask >> (1 + list[i]) & 1) return {1 + list[i]};
	if (mask & 1) return {0};
	std::vector<int> r;
	for (int v = 1; v <= 5; v++) if (mask >> v & 1) r.push_back(v);
	return r;
}

struct Obj { std::string stem, ext; uint32_t mask; bool deleted = false; };
struct Case { std::vector<Obj> objs; bool has_list; std::vector<int> list; bool has_del = false; int order = 0; bool parts = false; int del_case = 0; };
// the list of deleted files in the case of the names, in lower case or in upper case
std::string cased(std::string s, int how) { for (auto &c : s) c = how == 1 ? (char)tolower(c) : how == 2 ? (char)toupper(c) : c; return s; }

Bytes body(size_t obj, int v) { return pattern(obj * 16 + v + 1, 0, 40 + 97 * v + 300 * obj); }

Ib make_case(const Case &c)
{
	Ib b;
	auto add = [&](std::vector<Row> &to, const std::string &n, const Bytes &d) {
		if (!c.parts || d.size() < 60) { Row x; x.name = n; x.data = d; to.push_back(x); return; }
		Row x; x.name = n; x.data = d.substr(0, 31); x.part = 0;
		Row y; y.name = n; y.data = d.substr(31); y.part = 1;
		to.push_back(y); to.push_back(x);
	};
	if (c.has_list) add(b.config, "DynamicallyUpdated", dynlist(c.list));
	std::string del = "\xef\xbb\xbf{1,";
	int nd = 0; std::string names;
	for (auto &o : c.objs) if (o.deleted) { nd++; names += "," + cased(o.stem, c.del_case); }
	if (c.has_del) { Bytes t = v8c::deflate_raw(del + S(nd) + names + "}"); add(b.save, "deleted", t); }
	for (size_t i = 0; i < c.objs.size(); i++) for (int v = 0; v < 7; v++) if (c.objs[i].mask >> v & 1) add(v == 6 ? b.save : b.config, version_name(c.objs[i].stem, c.objs[i].ext, v), body(i, v));
	if (c.order) { std::reverse(b.config.begin(), b.config.end()); std::reverse(b.save.begin(), b.save.end()); }
	return b;
}
// what the exported file holds
void check_cf(const std::string &file, const Case &c, bool save, const std::string &w)
{
	bool there;
	Bytes d = mc::read_file(file, &there);
	if (!there) mc::fail("export:missing", w + "no file is written");
	auto p = v8c::parse(d);
	std::map<std::string, Bytes> got;
	for (auto &f : p.files) { if (got.count(f.name)) mc::fail("export:twice", w + f.name + " appears twice"); got[f.name] = f.data; }
	for (size_t i = 0; i < c.objs.size(); i++) {
		auto &o = c.objs[i];
		uint32_t m = o.mask;
		if (save && o.deleted && c.has_del && o.ext.empty()) m &= ~1u; // the plain row
		auto f = in_force(save ? m : m & 63, c.list, save);
		std::string nm = version_name(o.stem, o.ext, 0);
		if (f.empty()) { if (got.count(nm)) mc::fail("export:extra", w + nm + " is exported"); continue; }
		if (!got.count(nm)) mc::fail("export:lost", w + nm + " is not exported");
		bool ok = false;
		for (int v : f) ok |= got[nm] == body(i, v);
		if (!ok) {
			std::string which = "something else";
			for (int v = 0; v < 7; v++) if (got[nm] == body(i, v)) which = version_name(o.stem, o.ext, v) + (v == 6 ? " of CONFIGSAVE" : "");
			mc::fail("export:version", w + nm + " holds " + which + ", expected " + version_name(o.stem, o.ext, f[0]) + (f[0] == 6 ? " of CONFIGSAVE" : "") + ": " + mc::diff(got[nm], body(i, f[0])));
		}
		got.erase(nm);
	}
	if (!got.empty()) mc::fail("export:extra", w + mc::quote(got.begin()->first) + " is exported");
}

void run_case(Run &r, const Case &c, int f, bool save, int how)
{
	Ib b = make_case(c);
	std::string d = r.fresh_dir();
	Bytes before = b.make(fmt(f), d + "/b.1CD");
	std::string w = std::string(fmt(f).name) + ": ";
	if (how == 0) { // library
		auto base = open_base(d + "/b.1CD", false);
		r.step();
		bool ok = save ? base->save_configsave(fs_::path(d + "/o.cf")) : base->save_config(fs_::path(d + "/o.cf"));
		if (!ok) mc::fail("export:fails", w + "export fails");
		check_cf(d + "/o.cf", c, save, w);
		// once more over the result
		ok = save ? base->save_configsave(fs_::path(d + "/o.cf")) : base->save_config(fs_::path(d + "/o.cf"));
		if (!ok) mc::fail("export:fails", w + "second export fails");
		check_cf(d + "/o.cf", c, save, w + "second export: ");
	} else {
		std::string k = how == 3 ? "-dac" : save ? "-dc" : "-ddc";
		std::string out = d + "/x", file = out + (save ? "/cf.cf" : "/dbcf.cf");
		mkdir(out.c_str(), 0700);
		if (how == 2) { file = out + "/My.CF"; mc::write_file(file, pattern(99, 0, 20000)); }
		good(r, {k, how == 2 ? file : out, d + "/b.1CD"}, 60);
		check_cf(file, c, save, w + k + ": ");
		if (how == 3) check_cf(out + "/dbcf.cf", c, false, w + k + ": ");
		std::map<std::string, Bytes> t;
		mc::list_tree(out, t);
		if (t.size() != (how == 3 ? 2u : 1u)) mc::fail("export:files", w + k + " leaves " + S(t.size()) + " files");
	}
	if (mc::read_file(d + "/b.1CD") != before) mc::fail("export:base", w + "the base changes");
	r.state(r.current() + S(f) + S(how));
}

void exports(Run &r, bool save)
{
	std::string pre = save ? "c03/" : "c02/";
	static const std::vector<std::vector<int>> lists = {{}, {0}, {1}, {0, 1}, {1, 0}, {2, 0, 1}, {0, 1, 2, 3}, {3}};
	uint32_t top = save ? 128 : 64;
	auto go = [&](const std::string &id, const Case &c, int f, int how) {
		r.scenario(id, [&r, c, f, save, how] { run_case(r, c, f, save, how); }, how ? 60 : 20);
	};
	for (uint32_t m = 0; m < top; m++) for (int L = -1; L < (int)lists.size(); L++) for (int other = 0; other < 4; other++) {
		Case c; c.has_list = L >= 0; if (c.has_list) c.list = lists[L];
		c.objs.push_back({G[1] + std::string(), "", m});
		// a second file beside: same stem with an extension, another file, or one that also has versions
		if (other == 1) c.objs.push_back({G[1] + std::string(), "0", 1});
		if (other == 2) c.objs.push_back({"root", "", 1});
		if (other == 3) c.objs.push_back({G[1] + std::string(), "5", (m * 5 + 3) % top});
		c.order = (m + other) & 1; c.parts = m % 5 == 2;
		for (int f = 0; f < (r.thorough ? 9 : 2); f++) go(pre + "versions/" + S(m) + "/" + S(L) + "/" + S(other) + "/" + S(f), c, f, 0);
	}
	// extensions and stems
	static const std::vector<std::pair<std::string, std::string>> nm = {{"root", ""}, {"version", ""}, {"x", "1"}, {"a.b", "c"}, {"UPPER", "Ext"}, {"\xd0\xb8\xd0\xbc\xd1\x8f", ""}, {"x", "inf"}, {"a_dynup", ""}, {"n", "newer"}};
	for (size_t i = 0; i < nm.size(); i++) for (uint32_t m : {1u, 3u, 7u, 2u, 6u, 33u, 64u, 65u, 67u}) for (int L = -1; L < 5; L++) {
		if (!save && m > 63) continue;
		if (m == 33 && i == 8) continue;
		Case c; c.has_list = L >= 0; if (c.has_list) c.list = lists[L];
		c.objs.push_back({nm[i].first, nm[i].second, m});
		go(pre + "names/" + S(i) + "/" + S(m) + "/" + S(L), c, i % 9, 0);
	}
	if (save) for (int dm = 0; dm < 8; dm++) for (uint32_t m : {1u, 65u, 64u, 3u}) for (int has = 0; has < 2; has++) for (int L = -1; L < 2; L++) for (int cs = 0; cs < 4; cs++) {
		// cs: names and list in lower case, names in upper and list in lower, names in lower and list in upper, both in upper case
		if (cs && !(has && dm)) continue;
		Case c; c.del_case = cs == 1 ? 1 : cs == 0 ? 0 : 2; c.has_list = L >= 0; if (c.has_list) c.list = lists[L];
		c.has_del = has;
		for (int k = 0; k < 3; k++) c.objs.push_back({cs & 1 ? cased(G[k], 2) : std::string(G[k]), "", k == 1 ? m : 1, (dm >> k & 1) != 0});
		// a deleted file and its dynamic updates: only the plain row is meant by the list
		if (m == 3) continue;
		go("c03/deleted/" + S(dm) + "/" + S(m) + "/" + S(has) + "/" + S(L) + (cs ? "/" + S(cs) : ""), c, dm % 9, 0);
	}
	// numbers of files
	for (int n : {0, 1, 2, 41, 42, 43, 44, 100, 130, 300}) for (int f = 0; f < (r.thorough ? 9 : 2); f++) {
		Case c; c.has_list = n % 2; c.list = {0};
		for (int i = 0; i < n; i++) c.objs.push_back({"file" + S(i), "", i % 7 == 3 && n % 2 ? 3u : 1u});
		if (n >= 300) c.parts = true;
		go(pre + "many/" + S(n) + "/" + S(f), c, f, 0);
	}
	// the program
	for (int how = 1; how <= 3; how++) for (uint32_t m : {1u, 3u, 7u, 35u, 65u, 127u}) for (int L = -1; L < 4; L++) for (int f = 0; f < 2; f++) {
		if (how == 3 && !save) continue;
		Case c; c.has_list = L >= 0; if (c.has_list) c.list = lists[L];
		c.objs.push_back({G[2], "", m}); c.objs.push_back({"version", "", 1});
		go(pre + "cli/" + S(how) + "/" + S(m) + "/" + S(L) + "/" + S(f), c, f, how);
	}
}

// ---------------------------------------------------------------- C04: configurations of vendors
void c04(Run &r)
{
	std::string a36 = G[0], b36 = G[1];
	auto go = [&](const std::string &id, std::vector<Vendor> vs, int f, int how, bool noise) {
		r.scenario(id, [&r, vs, f, how, noise] {
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			Ib b;
			std::map<std::string, Bytes> want;
			for (size_t i = 0; i < vs.size(); i++) {
				auto &v = vs[i];
				Bytes cf = vendor_cf(v, i + 1), z = v8c::deflate_raw(v8c::deflate_raw(cf));
				auto &to = v.save ? b.save : b.config;
				if (i % 2) { Row x; x.name = v.row; x.data = z.substr(0, 300); Row y; y.name = v.row; y.part = 1; y.data = z.substr(300); to.push_back(y); to.push_back(x); }
				else { Row x; x.name = v.row; x.data = z; to.push_back(x); }
				if (v.row.size() == 73) want[v.name + " " + v.version + ".cf"] = cf;
			}
			if (noise) for (const char *n : {"root", "version", "versions"}) { Row x; x.name = n; x.data = v8c::deflate_raw("\xef\xbb\xbf{1}"); b.config.push_back(x); b.save.push_back(x); }
			Bytes before = b.make(fmt(f), d + "/b.1CD");
			if (how == 0) {
				auto base = open_base(d + "/b.1CD", false);
				r.step();
				auto &sc = base->supplier_configs();
				size_t n = 0; for (auto &v : vs) n += v.row.size() == 73;
				if (sc.size() != n) mc::fail("vendor:count", S(sc.size()) + " vendor configurations, expected " + S(n));
				for (auto &v : vs) if (v.row.size() == 73) {
					bool found = false;
					for (auto &c : sc) if (c->name() == v.name && c->version() == v.version && c->supplier() == v.supplier) {
						found = true;
						if (!c->save_to_file(fs_::path(out + "/" + v.name + " " + v.version + ".cf"))) mc::fail("vendor:save", "save_to_file fails");
					}
					if (!found) {
						std::string l;
						for (auto &c : sc) l += " " + mc::quote(c->name()) + "/" + mc::quote(c->version()) + "/" + mc::quote(c->supplier());
						mc::fail("vendor:list", mc::quote(v.name) + " " + mc::quote(v.version) + " of " + mc::quote(v.supplier) + " is not listed:" + l);
					}
				}
			} else if (how == 1) good(r, {"-dvc", out, d + "/b.1CD"}, 60);
			else { good(r, {d + "/b.1CD", "-dac", out}, 60); unlink((out + "/cf.cf").c_str()); unlink((out + "/dbcf.cf").c_str()); }
			std::map<std::string, Bytes> got;
			mc::list_tree(out, got);
			for (auto &x : want) { if (!got.count(x.first)) mc::fail("vendor:missing", mc::quote(x.first) + " is not written"); mc::expect_eq("vendor:bytes", x.first, got[x.first], x.second); got.erase(x.first); }
			if (!got.empty()) mc::fail("vendor:extra", mc::quote(got.begin()->first) + " is written");
			if (mc::read_file(d + "/b.1CD") != before) mc::fail("vendor:base", "the base changes");
			r.state(r.current());
		}, 60);
	};
	auto V = [&](std::string row, std::string n, std::string s, std::string ver, int cont, int info, int nodes, int at, bool save, bool decoy = false) { return Vendor{row, n, s, ver, cont, info, nodes, at, save, decoy}; };
	std::string row = a36 + "." + b36;
	for (int info : {15, 22, 32, 34, 36, 37, 99, 14}) for (int cont : {0, 36, 99, 100, 106, 216}) for (int nodes = 1; nodes <= 3; nodes++) for (int at = 0; at < nodes; at++) for (int how = 0; how < 2; how++) for (int decoy = 0; decoy < 2; decoy++)
		go("c04/layout/" + S(info) + "/" + S(cont) + "/" + S(nodes) + S(at) + "/" + S(how) + (decoy ? "/decoy" : ""), {V(row, "Trade", "Firm", "1.2.3", cont, info, nodes, at, at & 1, decoy)}, (info + cont + nodes) % 9, how, at & 1);
	// several configurations in both tables; names one character off are no vendor configurations
	std::vector<Vendor> pool = {V(row, "Trade", "Firm", "1.0", 106, 37, 2, 1, false), V(b36 + "." + a36, "Trade", "Firm", "2.0", 216, 36, 1, 0, true), V(std::string(G[2]) + "." + G[0], "\xd0\xa3\xd1\x87\xd0\xb5\xd1\x82", "\xd0\x9e\xd0\xbe\xd0\xbe", "3.0.1", 99, 15, 3, 2, false),
		V(std::string(G[2]) + "." + G[1], "Lib", "", "", 106, 22, 1, 0, true), V(row.substr(0, 72), "Short", "s", "1", 106, 22, 1, 0, false), V(row + "0", "Long", "s", "1", 106, 22, 1, 0, true)};
	for (uint32_t m = 0; m < 64; m++) for (int how = 0; how < 3; how++) for (int f = 0; f < 2; f++) {
		std::vector<Vendor> vs;
		for (int i = 0; i < 6; i++) if (m >> i & 1) vs.push_back(pool[i]);
		go("c04/several/" + S(m) + "/" + S(how) + "/" + S(f), vs, f, how, m & 1);
	}
	// names and versions that are dangerous as file names
	static const std::vector<std::string> odd = {"../x", "..", "a/b", "/x", "a\\b", "1.0/2", "", "q\"q"};
	for (size_t i = 0; i < odd.size(); i++) for (int which = 0; which < 2; which++) for (int how = 1; how < 3; how++) r.scenario("c04/odd/" + S(i) + "/" + S(which) + "/" + S(how), [&, i, which, how] {
		Vendor v = V(row, which ? "Name" : odd[i], "S", which ? odd[i] : "1.0", 106, 36, 1, 0, false), w = V(std::string(G[2]) + "." + G[1], "Second", "S", "5", 106, 36, 1, 0, false);
		std::string d = r.fresh_dir(), out = d + "/p/out";
		fs_::create_directories(out);
		fs_::create_directories(d + "/p/Name ");
		mc::write_file(d + "/p/x", "mine"); mc::write_file(d + "/x", "mine"); mc::write_file(d + "/p/x 1.0.cf", "mine");
		Ib b;
		Bytes c1 = vendor_cf(v, 1), c2 = vendor_cf(w, 2);
		Row x; x.name = v.row; x.data = v8c::deflate_raw(v8c::deflate_raw(c1)); b.config.push_back(x);
		x.name = w.row; x.data = v8c::deflate_raw(v8c::deflate_raw(c2)); b.config.push_back(x);
		b.make(fmt(i % 9), d + "/b.1CD");
		good(r, {how == 1 ? "-dvc" : "-dac", out, d + "/b.1CD"}, 60);
		std::map<std::string, Bytes> got;
		mc::list_tree(d, got);
		int mine = 0, first = 0, second = 0, sys = 0;
		for (auto &g : got) {
			if (g.second == "mine") { mine++; continue; }
			if (g.first == "b.1CD" || (!g.first.empty() && g.first.back() == '/')) continue;
			if (g.first.compare(0, 6, "p/out/") != 0) mc::fail("vendor:outside", "a configuration named " + mc::quote(v.name) + " of version " + mc::quote(v.version) + " is written to " + mc::quote(g.first));
			std::string rest = g.first.substr(6);
			if (rest == "cf.cf" || rest == "dbcf.cf") { sys++; continue; }
			if (rest == "Second 5.cf" && g.second == c2) second++;
			else if (g.second == c1 && rest.find('/') == std::string::npos) first++;
			else mc::fail("vendor:outside", mc::quote(g.first) + " is written");
		}
		if (mine != 3 || first != 1 || second != 1 || sys != (how == 2 ? 2 : 0)) mc::fail("vendor:outside", "a configuration named " + mc::quote(v.name) + " of version " + mc::quote(v.version) + ": " + S(first) + " and " + S(second) + " files, " + S(mine) + " of 3 others intact");
		r.state(r.current());
	}, 60);
}

// ---------------------------------------------------------------- C05: adapters
// a tree of files two levels deep, the same in a directory, a .cf file and a container table
void c05(Run &r)
{
	auto file = [](const std::string &n, const Bytes &d) { v8c::File f; f.name = n; f.data = d; return f; };
	struct Leaf { std::string path; Bytes data; };
	static const std::vector<Leaf> leaves = {{"root", pattern(1, 0, 10)}, {"a", pattern(2, 0, 700)}, {"obj/text", pattern(3, 0, 20)}, {"obj/info", pattern(4, 0, 1300)}, {"obj/in/deep", pattern(5, 0, 9)}, {"obj/in/x", pattern(6, 0, 600)}, {"o/t", pattern(7, 0, 5)}, {"version.1", pattern(8, 0, 100)}, {"Big", pattern(9, 0, 30)}};
	static const std::vector<std::string> missing = {"", "nosuch", "obj/nosuch", "nosuch/text", "obj/in/nosuch", "obj/nosuch/deep", "a/text", "roo", "ob/text", "obj/tex", "obj/i/deep", "objx/text", "obj/text/x"};
	Bytes in = v8c::build({file("deep", leaves[4].data), file("x", leaves[5].data)});
	auto tree = [&, in] { return std::vector<v8c::File>{file("text", leaves[2].data), file("info", leaves[3].data), file("in", in)}; };
	Bytes obj = v8c::build(tree()), o = v8c::build({file("t", leaves[6].data)});
	std::vector<std::pair<std::string, Bytes>> top = {{"root", leaves[0].data}, {"a", leaves[1].data}, {"obj", obj}, {"o", o}, {"version.1", leaves[7].data}, {"Big", leaves[8].data}};
	std::vector<std::string> all;
	for (auto &l : leaves) all.push_back(l.path);
	for (auto &m : missing) all.push_back(m);
	auto data_of = [](const std::string &p) -> const Bytes * { for (auto &l : leaves) if (l.path == p) return &l.data; return nullptr; };
	static const char *kinds[4] = {"dir", "cf", "config", "configsave"};
	int depth = r.thorough ? 3 : 2;
	for (int kind = 0; kind < 4; kind++) for (int sep = 0; sep < 2; sep++) for (int keep = 0; keep < 2; keep++) for (size_t first = 0; first < all.size(); first++) {
		if (kind == 0 && sep) continue; // directories use the separator of the system
		r.scenario(std::string("c05/read/") + kinds[kind] + "/" + S(sep) + S(keep) + "/" + S(first), [&, kind, sep, keep, first] {
			std::string d = r.fresh_dir();
			Bytes before;
			std::unique_ptr<T_1CD> base;
			std::string place;
			if (kind == 0) { place = d + "/tree"; fs_::create_directories(place + "/obj/in"); fs_::create_directories(place + "/o"); for (auto &l : leaves) mc::write_file(place + "/" + l.path, l.data); }
			else if (kind == 1) {
				place = d + "/x.cf";
				std::vector<v8c::File> fs;
				for (auto &t : top) fs.push_back(file(t.first, v8c::deflate_raw(t.second)));
				before = v8c::build(fs); mc::write_file(place, before);
			} else {
				Ib b;
				for (auto &t : top) { Row x; x.name = t.first; x.data = v8c::deflate_raw(t.second); (kind == 2 || t.first == "a" ? b.config : b.save).push_back(x); }
				place = d + "/b.1CD";
				before = b.make(fmt((first + sep) % 9), place);
				base = open_base(place, false);
			}
			size_t n = all.size();
			size_t total = 1; for (int k = 1; k < depth; k++) total *= n;
			for (size_t s = 0; s < total; s++) {
				std::unique_ptr<ConfigStorage> st;
				if (kind == 0) st.reset(new ConfigStorageDirectory(place));
				else if (kind == 1) st.reset(new ConfigStorageCFFile(place));
				else if (kind == 2) st.reset(new ConfigStorageTableConfig(files_of(*base, "CONFIG")));
				else st.reset(new ConfigStorageTableConfigSave(files_of(*base, "CONFIG"), files_of(*base, "CONFIGSAVE")));
				std::vector<ConfigFile *> opened;
				size_t v = s;
				std::string hist;
				for (int k = 0; k < depth; k++) {
					std::string p = k == 0 ? all[first] : all[v % n];
					if (k) v /= n;
					const Bytes *want = data_of(p);
					std::string q = p;
					if (sep) std::replace(q.begin(), q.end(), '/', '\\');
					hist += " " + q;
					r.step();
					// a file already open is not opened a second time
					if (p.empty() && kind == 0) continue;
					ConfigFile *c = st->readfile(q);
					if (!want) { if (c) mc::fail("adapter:find", std::string(kinds[kind]) + ":" + hist + ": something is found"); }
					else {
						if (!c) mc::fail("adapter:find", std::string(kinds[kind]) + ":" + hist + ": not found");
						if (c->str->GetPosition() != 0) mc::fail("adapter:position", hist + ": position " + S(c->str->GetPosition()));
						mc::expect_eq("adapter:data", std::string(kinds[kind]) + ":" + hist, stream_bytes(c->str), *want);
						if (keep && k + 1 < depth) opened.push_back(c); else st->close(c);
					}
					// the top-level entry exists or not
					std::string tn = kind == 0 ? p : p.substr(0, p.find('/'));
					bool ex = false;
					if (kind == 0) ex = fs_::exists(place + "/" + tn); else for (auto &t : top) ex |= t.first == tn;
					if (!tn.empty()) mc::expect_eq("adapter:exists", std::string(kinds[kind]) + ": " + q + " exists", st->fileexists(q), ex);
				}
				if (!opened.empty() && depth == 2) for (auto c : opened) st->close(c);
				r.state(std::string(kinds[kind]) + hist);
			}
			if (kind && mc::read_file(place) != before) mc::fail("adapter:changed", "reading changes the storage");
		}, 60);
	}
	// writing: all sequences of writes into a directory and a .cf file
	static const std::vector<std::string> wp = {"a", "b", "obj/t", "obj/u", "obj/in/v"};
	for (int kind = 0; kind < 2; kind++) for (int sep = 0; sep < 2; sep++) for (size_t i = 0; i < wp.size(); i++) {
		if (kind == 0 && sep) continue;
		r.scenario(std::string("c05/write/") + kinds[kind] + "/" + S(sep) + "/" + S(i), [&, kind, sep, i] {
			size_t n = wp.size();
			for (size_t s = 0; s < n * n; s++) {
				std::string d = r.fresh_dir(), place = kind ? d + "/x.cf" : d + "/tree";
				if (!kind) fs_::create_directories(place + "/obj/in");
				else { std::vector<v8c::File> e; mc::write_file(place, v8c::build({file("root", v8c::deflate_raw("r"))})); }
				std::map<std::string, Bytes> want;
				size_t seq[3] = {i, s % n, s / n};
				{
					std::unique_ptr<ConfigStorage> st;
					if (kind == 0) st.reset(new ConfigStorageDirectory(place)); else st.reset(new ConfigStorageCFFile(place));
					for (int k = 0; k < 3; k++) {
						Bytes data = pattern(k * 7 + seq[k], 0, k == 1 ? 700 : 20 + k);
						TMemoryStream m; m.Write(data.data(), data.size()); m.Seek(sep ? 0 : k == 0 ? (int)data.size() : k == 1 ? 3 : 0, soBeginning);
						std::string q = wp[seq[k]];
						if (sep) std::replace(q.begin(), q.end(), '/', '\\');
						r.step();
						if (!st->writefile(q, &m)) mc::fail("adapter:write", q + " is not written");
						want[wp[seq[k]]] = data;
					}
				}
				std::unique_ptr<ConfigStorage> st;
				if (kind == 0) st.reset(new ConfigStorageDirectory(place)); else st.reset(new ConfigStorageCFFile(place));
				for (auto &p : wp) {
					ConfigFile *c = st->readfile(p);
					if (!want.count(p)) { if (c) mc::fail("adapter:write", p + " appears though not written"); continue; }
					if (!c) mc::fail("adapter:write", p + " is not there after writing");
					mc::expect_eq("adapter:write", p, stream_bytes(c->str), want[p]);
					st->close(c);
				}
				r.state(r.current() + S(s));
			}
		}, 60);
	}
}

// ---------------------------------------------------------------- C06: times of files
int64_t days(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
struct When { int y, mo, d, h, mi, s; };
When when(const std::string &t) { auto n = [&](int p, int k) { return std::stoi(t.substr(p, k)); }; return {n(0, 4), n(4, 2), n(6, 2), n(8, 2), n(10, 2), n(12, 2)}; }
// seconds from 1970 as if the clock showed universal time
int64_t flat(const When &w) { return days(w.y, w.mo, w.d) * 86400 + w.h * 3600 + w.mi * 60 + w.s; }
// time of a container: 0.0001 s from the beginning of the year 1, shown by the local clock
int64_t v8time(const When &w) { return (flat(w) + 62135596800ll) * 10000; }
// the local clock shows this time at some moment
int64_t shown(int64_t t) { time_t x = t; struct tm m; localtime_r(&x, &m); return flat({m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec}); }
bool moment(const When &w, int64_t *at)
{
	struct tm m; memset(&m, 0, sizeof m);
	m.tm_year = w.y - 1900; m.tm_mon = w.mo - 1; m.tm_mday = w.d; m.tm_hour = w.h; m.tm_min = w.mi; m.tm_sec = w.s; m.tm_isdst = -1;
	*at = mktime(&m);
	return shown(*at) == flat(w);
}
void check_mtime(const std::string &file, const When &w, const When &acc, const std::string &what)
{
	struct stat st;
	if (stat(file.c_str(), &st) != 0) mc::fail("times:file", what + ": no file");
	int64_t got[2] = {st.st_mtime, st.st_atime};
	const When *want[2] = {&w, &acc};
	for (int k = 0; k < 2; k++) {
		int64_t at;
		if (!moment(*want[k], &at)) continue;
		// as far as the file system keeps such a time
		struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = at; ts[0].tv_nsec = ts[1].tv_nsec = 0;
		std::string probe = file + ".probe";
		mc::write_file(probe, "x");
		struct stat ps;
		bool kept = utimensat(AT_FDCWD, probe.c_str(), ts, 0) == 0 && stat(probe.c_str(), &ps) == 0 && ps.st_mtime == at;
		unlink(probe.c_str());
		if (kept) mc::expect_eq("times:unpacked", what + (k ? ", time of access" : ", time of modification") + " shown", shown(got[k]), flat(*want[k]));
	}
}

void c06(Run &r)
{
	static const std::vector<std::string> zones = {"", "UTC0", "Asia/Kamchatka", "Europe/Moscow", "America/New_York", "<-11>11", "<+1245>-12:45", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-0330>3:30"};
	std::vector<std::string> dates = {"00010101000000", "00010101235959", "16001231235959", "16010101000000", "16010101000001", "19011213204551", "19691231235959", "19700101000000", "19700101120000", "20000229123456",
		"20010909014640", "20180311023000", "20180311013000", "20180311033000", "20181104013000", "20180930023000", "20200102030405", "20210703040506", "20380119031407", "20380119031408", "21060207062815", "21060207062816", "39991231235959"};
	auto zone = [](const std::string &z) { if (z.empty()) unsetenv("TZ"); else setenv("TZ", z.c_str(), 1); tzset(); };
	auto check_container = [](const std::string &file, const std::vector<Row> &rows, const std::string &w) {
		auto p = v8c::parse(mc::read_file(file));
		for (auto &x : rows) {
			if (x.part) continue;
			const v8c::File *f = nullptr;
			for (auto &y : p.files) if (y.name == x.name) f = &y;
			if (!f) mc::fail("times:lost", w + x.name + " is not exported");
			int64_t at;
			if (moment(when(x.created), &at)) mc::expect_eq("times:created", w + "creation of " + x.name + ", stored " + x.created, (int64_t)f->t1, v8time(when(x.created)));
			if (moment(when(x.modified), &at)) mc::expect_eq("times:modified", w + "modification of " + x.name + ", stored " + x.modified, (int64_t)f->t2, v8time(when(x.modified)));
		}
	};
	int F = r.thorough ? (int)formats().size() : 2;
	for (size_t z = 0; z < zones.size(); z++) for (int f = 0; f < F; f++) for (int how = 0; how < 6; how++) r.scenario("c06/export/" + S(z) + "/" + S(f) + "/" + S(how), [&, z, f, how] {
		std::vector<Row> rows;
		for (size_t i = 0; i < dates.size(); i++) for (size_t k : {(size_t)0, (size_t)1, (size_t)7}) {
			if (how >= 2 && k == 7) continue;
			Row x; x.name = "file" + S(i) + "_" + S(k); x.created = dates[i]; x.modified = dates[(i + k) % dates.size()]; x.data = pattern(i * 3 + k, 0, 20 + i);
			if ((i + k) % 3 == 0) { Row y = x; y.part = 1; y.created = dates[(i + 5) % dates.size()]; y.modified = dates[(i + 9) % dates.size()]; y.data = pattern(7, 0, 9); if (i % 2) { rows.push_back(y); rows.push_back(x); } else { rows.push_back(x); rows.push_back(y); } } // the times are those of part 0
			else rows.push_back(x);
		}
		std::string d = r.fresh_dir(), out = d + "/out";
		mkdir(out.c_str(), 0700);
		zone(zones[z]);
		std::string w = "zone " + mc::quote(zones[z]) + ", " + fmt(f).name + ": ";
		Ib b;
		bool save = how == 1 || how == 3 || how == 5;
		(save ? b.save : b.config) = rows;
		b.make(fmt(f), d + "/b.1CD");
		if (how < 2) {
			auto base = open_base(d + "/b.1CD", false);
			r.step();
			bool ok = save ? base->save_configsave(fs_::path(out + "/o.cf")) : base->save_config(fs_::path(out + "/o.cf"));
			if (!ok) mc::fail("times:export", w + "export fails");
			check_container(out + "/o.cf", rows, w);
		} else {
			std::string k = how >= 4 ? "-dac" : save ? "-dc" : "-ddc";
			must(r, {k, out, d + "/b.1CD"}, 60);
			check_container(out + (save ? "/cf.cf" : "/dbcf.cf"), rows, w + k + ": ");
			if (k == "-dac" && !save) check_container(out + "/cf.cf", rows, w + k + ": ");
		}
		r.state(r.current());
	}, 60);
	// times of a container as file times, and back
	for (size_t z = 0; z < zones.size(); z++) r.scenario("c06/file/" + S(z), [&, z] {
		zone(zones[z]);
		for (size_t i = 0; i < dates.size(); i++) for (size_t j = 0; j < dates.size(); j++) {
			std::string w = "zone " + mc::quote(zones[z]) + ", " + dates[i] + ": ";
			When a = when(dates[i]), c = when(dates[j]);
			int64_t ta, tc;
			bool ga = moment(a, &ta), gc = moment(c, &tc);
			std::vector<v8c::File> fs(1);
			fs[0].name = "f"; fs[0].data = "data"; fs[0].t1 = v8time(a); fs[0].t2 = v8time(c);
			if (!fs[0].t1 || !fs[0].t2) continue; // the builder takes 0 for any time
			Bytes bin = v8c::build(fs);
			TMemoryStream m; m.Write(bin.data(), bin.size());
			V8Catalog cat(&m, false, true);
			V8File *f = cat.get_file("f");
			r.step();
			auto ft = [](const System::FILETIME &t) { return (int64_t)((uint64_t)t.dwHighDateTime << 32 | t.dwLowDateTime); };
			auto unix_of = [&](const System::FILETIME &t) { int64_t v = ft(t), q = v / 10000000; if (v % 10000000) mc::fail("times:filetime", w + "not a whole second"); return q - 11644473600ll; };
			if (ga) mc::expect_eq("times:filetime", w + "creation shown", shown(unix_of(f->get_time_create())), flat(a));
			if (gc) mc::expect_eq("times:filetime", w + "modification shown", shown(unix_of(f->get_time_modify())), flat(c));
			// set both the other way round
			auto make = [](int64_t t) { uint64_t v = (uint64_t)(t + 11644473600ll) * 10000000; System::FILETIME x; x.dwLowDateTime = (uint32_t)v; x.dwHighDateTime = (uint32_t)(v >> 32); return x; };
			if (ga) { f->set_time_modify(make(ta)); if (moment(c, &tc)) mc::expect_eq("times:set", w + "modification set, shown", shown(unix_of(f->get_time_modify())), flat(a)); }
			if (gc) { f->set_time_create(make(tc)); mc::expect_eq("times:set", w + "creation set, shown", shown(unix_of(f->get_time_create())), flat(c)); }
			r.state(S(z) + "/" + S(i) + "/" + S(j));
		}
	});
	// unpacked files
	for (size_t z = 0; z < zones.size(); z++) for (int how = 0; how < 4; how++) r.scenario("c06/unpack/" + S(z) + "/" + S(how), [&, z, how] {
		zone(zones[z]);
		std::string d = r.fresh_dir(), out = d + "/out", w = "zone " + mc::quote(zones[z]) + ": ";
		mkdir(out.c_str(), 0700);
		std::vector<v8c::File> fs, in;
		size_t n = dates.size();
		for (size_t i = 0; i < n; i++) {
			v8c::File f; f.name = "f" + S(i); f.data = pattern(i, 0, i * 40);
			f.t1 = v8time(when(dates[(i + 4) % n])) + (i + 1) * 400; f.t2 = v8time(when(dates[i])) + (i + 1) * 300; // parts of a second are dropped
			fs.push_back(f);
			f.t1 = v8time(when(dates[i])) + 1; f.t2 = v8time(when(dates[(i + 7) % n])) + 9999;
			in.push_back(f);
		}
		v8c::File sub; sub.name = "sub"; sub.data = v8c::build(in); sub.t1 = sub.t2 = v8time(when(dates[16]));
		if (how == 3) sub.data = v8c::deflate_raw(sub.data);
		fs.insert(fs.begin() + 5, sub);
		if (how == 3) for (auto &f : fs) if (f.name != "sub") f.data = v8c::deflate_raw(f.data);
		Bytes bin = v8c::build(fs);
		std::string at = out;
		if (how == 0) {
			Ib b;
			Row x; x.name = "vendor"; x.data = v8c::deflate_raw(bin); b.config = {x};
			b.make(fmt(z % 9), d + "/b.1CD");
			good(r, {"-bf", "1", "-ex", out, "CONFIG", d + "/b.1CD"}, 60);
			at.clear();
			for (auto it = fs_::recursive_directory_iterator(out); it != fs_::recursive_directory_iterator(); ++it) if (it->path().filename() == "f0" && it->path().parent_path().filename() != "sub") at = it->path().parent_path().string(); // without reading the files
			if (at.empty()) mc::fail("times:unpack", w + "the container is not unpacked");
		} else {
			std::string file = d + (how == 3 ? "/x.cf" : "/x.epf");
			mc::write_file(file, bin);
			r.step();
			if (how == 1) { TMemoryStream m; m.Write(bin.data(), bin.size()); V8Catalog c(&m, false, true); c.SaveToDir(out); }
			else if (how == 2) { V8Catalog c(file, false); c.SaveToDir(out); }
			else { V8Catalog c(file); c.SaveToDir(out); }
		}
		for (size_t i = 0; i < n; i++) {
			check_mtime(at + "/f" + S(i), when(dates[i]), when(dates[(i + 4) % n]), w + "f" + S(i) + " modified " + dates[i] + ", created " + dates[(i + 4) % n]);
			check_mtime(at + "/sub/f" + S(i), when(dates[(i + 7) % n]), when(dates[i]), w + "sub/f" + S(i) + " modified " + dates[(i + 7) % n] + ", created " + dates[i]);
		}
		r.state(r.current());
	}, 60);
	// a file made or changed now
	for (size_t z = 0; z < zones.size(); z++) for (int op = 0; op < 5; op++) r.scenario("c06/now/" + S(z) + "/" + S(op), [&, z, op] {
		zone(zones[z]);
		std::string d = r.fresh_dir(), file = d + "/x.epf";
		std::vector<v8c::File> fs(2);
		for (int i = 0; i < 2; i++) { fs[i].name = i ? "g" : "f"; fs[i].data = pattern(i, 0, 100); fs[i].t1 = v8time(when("20010203040506")) + 17; fs[i].t2 = v8time(when("20020304050607")) + 18; }
		mc::write_file(file, v8c::build(fs));
		time_t a = time(nullptr);
		{
			V8Catalog c(file, false);
			r.step();
			TMemoryStream m; m.Write("new", 3); m.Seek(0, soBeginning);
			if (op == 0) c.get_file("f")->write("new", 3);
			if (op == 1) c.get_file("f")->write("new", 2, 3);
			if (op == 2) c.get_file("f")->write(&m);
			if (op == 3) c.get_file("f")->write(&m, 1, 3);
			if (op == 4) { V8File *f = c.createFile("h"); f->write("new", 3); }
		}
		time_t b = time(nullptr);
		auto p = v8c::parse(mc::read_file(file));
		for (auto &f : p.files) {
			bool fresh = f.name == (op == 4 ? "h" : "f");
			std::string w = "zone " + mc::quote(zones[z]) + ", operation " + S(op) + ": " + f.name + " ";
			if (!fresh || op < 4) mc::expect_eq("times:now", w + "creation", f.t1, fs[0].t1);
			if (!fresh) mc::expect_eq("times:now", w + "modification", f.t2, fs[0].t2);
			for (int k = 0; k < 2; k++) {
				if (!fresh || (k == 0 && op < 4)) continue;
				int64_t t = (int64_t)(k ? f.t2 : f.t1) / 10000 - 62135596800ll;
				if (t < shown(a) || t > shown(b)) mc::fail("times:now", w + (k ? "modification" : "creation") + " is " + S(t - shown(a)) + " s away from the local time");
			}
		}
		r.state(r.current());
	});
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "C06") c06(r);
	if (r.prop == "C01") c01(r);
	if (r.prop == "C02") exports(r, false);
	if (r.prop == "C03") exports(r, true);
	if (r.prop == "C04") c04(r);
	if (r.prop == "C05") c05(r);
}
