// D01 versions of a repository as configurations, D02 changed files of a range of versions, D03 packed and loose objects
#include "depot.hpp"
#include "PackDirectory.h"
#include "DetailedException.h"

namespace {

using namespace depot;
using mc::Run;
std::string S(long long v) { return std::to_string(v); }
const Fmt &fmt(int i) { return formats()[((i % 9) + 9) % 9]; }
const char *SNAP1 = "\x9e\xca\x21\x37\x72\xa2\x6b\x49\xa0\x93\x20\x6e\xa7\x62\x95\x74";
const char *SNAP2 = "\x78\xdf\xdf\x6f\x2a\x06\xbb\x46\x84\x02\x62\x14\x5a\xe5\x57\x64";

// what the version file says
int major_of(const Depot &d, const Fmt &f, int ver)
{
	if (d.dv >= 5) { for (auto &v : d.versions) if (v.num == ver) return v.major; return 216; }
	if (f.ver[1] == 0) return 6;
	if (f.ver[1] == 1) return 106;
	return 216;
}

// unpacked contents of the object i in version v; every third one takes several pages
Bytes mixed(Bytes d) { for (size_t i = 40; i + 40 < d.size(); i += 97) for (int k = 0; k < 30; k++) d[i + k] = 'a'; return d; }
Bytes plain(int obj, int v) { return mixed(pattern(obj * 64 + v + 1, 0, 20 + 13 * v + 31 * (obj % 8) + (v % 3 == 2 ? 700 : 0))); }
Bytes packed(int obj, int v) { return v8c::deflate_raw(plain(obj, v)); }
Bytes ext_plain(int obj, int name, int v) { return pattern(obj * 64 + name * 16 + v + 1000, 0, 25 + 17 * v + 40 * name + (v % 2 ? 600 : 0)); }
std::string ext_name(int obj, size_t k) { static const char *suffix[3] = {".0", ".5", ".12"}; return ms(objid(obj)) + suffix[k]; }

// a short history of one object: per version '-' nothing, 'd' new contents, 's' the same contents again, 'n' a row without contents, 'r' removed
struct Hist { std::string s; std::vector<std::string> ext; /* per name and version: '-', 'd' with contents, 'w' without contents */ };
void histories(int n, const std::string &alive_steps, std::vector<std::string> &out, std::string cur = "", bool alive = false)
{
	if ((int)cur.size() == n) { out.push_back(cur); return; }
	for (char c : alive ? alive_steps : std::string("-d")) histories(n, alive_steps, out, cur + c, c == 'r' ? false : c == '-' ? alive : true);
}
int store_for(int dv, int mode, int v)
{
	if (dv < 6 || mode == 0) return BLOB;
	static const int cyc[4] = {PACK0, LOOSE, BLOB, PACK1};
	return mode == 1 ? PACK1 : mode == 2 ? LOOSE : cyc[v & 3];
}
void add_object(Depot &d, int obj, const Hist &h, const std::vector<int> &nums, int mode)
{
	int content = -1;
	for (size_t i = 0; i < h.s.size(); i++) {
		if (h.s[i] == '-') continue;
		Obj o; o.obj = obj; o.ver = nums[i]; o.verid = obj * 16 + i + 1;
		if (h.s[i] == 'r') o.removed = true;
		else if (h.s[i] == 'n') o.packed = i % 2 ? 0 : -1;
		else { if (h.s[i] == 'd') content = i; o.data = packed(obj, content); o.store = store_for(d.dv, mode, obj + i); }
		d.history.push_back(o);
	}
	for (size_t k = 0; k < h.ext.size(); k++) {
		int id = 0;
		for (size_t i = 0; i < h.ext[k].size(); i++) {
			if (h.ext[k][i] == '-') continue;
			Ext e; e.obj = obj; e.ver = nums[i]; e.name = ext_name(obj, k); e.packed = h.ext[k][i] == 'd';
			if (e.packed) { id = 256 + obj * 64 + k * 16 + i; e.data = v8c::deflate_raw(ext_plain(obj, k, i)); e.store = store_for(d.dv, mode, obj + i + k + 1); }
			e.verid = id;
			d.externals.push_back(e);
		}
	}
}
void add_versions(Depot &d, const std::vector<int> &nums, int major)
{
	for (int n : nums) { Ver v; v.num = n; v.major = major; v.minor = n % 3 == 0 ? 258 : 0; d.versions.push_back(v); }
}

// ---- the configuration of version `ver`, computed directly from the rows
struct Want { std::map<std::string, std::pair<Bytes, std::string>> objects, externals; /* name -> stored bytes, version id */ };
Want compute(const Depot &d, int ver)
{
	Want w;
	std::set<int> objs;
	for (auto &o : d.history) objs.insert(o.obj);
	for (int o : objs) {
		const Obj *last = nullptr;
		std::vector<const Obj *> rows;
		for (auto &x : d.history) if (x.obj == o && x.ver <= ver) rows.push_back(&x);
		std::sort(rows.begin(), rows.end(), [](const Obj *a, const Obj *b) { return a->ver < b->ver; });
		for (auto *x : rows) { if (x->removed) last = nullptr; else if (x->packed == 1) last = x; }
		if (!last) continue;
		w.objects[ms(objid(o))] = {last->data, ms(obj_verid(last->verid))};
		std::set<std::string> names;
		for (auto &x : d.externals) if (x.obj == o && x.ver == last->ver) names.insert(x.name);
		for (auto &n : names) {
			const Ext *b = nullptr;
			for (auto &x : d.externals) if (x.obj == o && x.name == n && x.ver <= ver && x.packed == 1 && (!b || x.ver > b->ver)) b = &x;
			if (b) w.externals[n] = {b->data, ms(obj_verid(b->verid))};
		}
	}
	return w;
}
bool is_guid(const std::string &s)
{
	if (s.size() != 36) return false;
	for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !isxdigit((unsigned char)s[i])) return false;
	return true;
}
void pairs(const Item &it, size_t from, const std::string &what, std::map<std::string, std::string> &m)
{
	if ((it.kids.size() - from) % 2) mc::fail("depot:pairs", what + ": a name without an identifier");
	for (size_t i = from; i < it.kids.size(); i += 2) if (!m.insert({it.kids[i].text, it.kids[i + 1].text}).second) mc::fail("depot:pairs", what + ": " + mc::quote(it.kids[i].text) + " appears twice");
}
void check_cf(const std::string &file, const Depot &d, const Fmt &f, int ver, const std::string &w)
{
	bool there;
	Bytes bytes = mc::read_file(file, &there);
	if (!there) mc::fail("depot:missing", w + "no file is written");
	Want want = compute(d, ver);
	int major = major_of(d, f, ver), minor = 0;
	if (d.dv >= 5) for (auto &v : d.versions) if (v.num == ver) minor = v.minor;
	bool old = major < 100;
	auto p = v8c::parse(bytes);
	std::map<std::string, Bytes> got;
	for (auto &x : p.files) { if (got.count(x.name)) mc::fail("depot:twice", w + x.name + " appears twice"); got[x.name] = x.data; }
	auto take = [&](std::map<std::string, Bytes> &from, const std::string &n, bool unpack) {
		if (!from.count(n)) mc::fail("depot:lost", w + mc::quote(n) + " is missing");
		Bytes b = from[n], o;
		from.erase(n);
		if (!unpack) return b;
		if (!v8c::inflate_raw(b, o)) mc::fail("depot:packing", w + n + " is not packed properly");
		return o;
	};
	// version
	Item it = list_file(take(got, "version", true), "version");
	if (it.kids.size() != 1 || it.kids[0].kids.size() != 2 || it.kids[0].kids[0].text != S(major) || it.kids[0].kids[1].text != S(minor))
		mc::fail("depot:version", w + "the file version does not say {{" + S(major) + "," + S(minor) + "}}");
	Bytes versions = take(got, "versions", true);
	std::map<std::string, Bytes> meta;
	if (old) {
		auto mp = v8c::parse(take(got, "metadata", true));
		for (auto &x : mp.files) { if (meta.count(x.name)) mc::fail("depot:twice", w + x.name + " appears twice in metadata"); meta[x.name] = x.data; }
	}
	Item rt = list_file(old ? take(meta, "root", false) : take(got, "root", true), "root");
	if (rt.kids.size() < 2 || rt.kids[0].text != (old ? "1" : "2") || rt.kids[1].text != ms(d.root)) mc::fail("depot:root", w + "the file root does not name the root object");
	std::map<std::string, std::string> in_root, vers;
	if (old) {
		pairs(rt, 3, "root", in_root);
		if (rt.kids[2].text != S(in_root.size())) mc::fail("depot:root", w + "root announces " + rt.kids[2].text + " objects and lists " + S(in_root.size()));
	} else if (rt.kids.size() != 2) mc::fail("depot:root", w + "the file root has " + S(rt.kids.size()) + " elements");
	Item vt = list_file(versions, "versions");
	if (vt.kids.size() < 2 || vt.kids[0].text != "1") mc::fail("depot:versions", w + "the file versions begins wrongly");
	pairs(vt, 2, "versions", vers);
	if (vt.kids[1].text != S(vers.size())) mc::fail("depot:versions", w + "versions announces " + vt.kids[1].text + " files and lists " + S(vers.size()));
	// objects
	for (auto &o : want.objects) {
		auto &place = old ? meta : got;
		Bytes b = take(place, o.first, false), data = o.second.first;
		if (old) { Bytes u; if (v8c::inflate_raw(data, u)) data = u; }
		mc::expect_eq("depot:object", w + "object " + o.first, b, data);
		auto &ids = old ? in_root : vers;
		if (!ids.count(o.first)) mc::fail("depot:listed", w + "object " + o.first + " is not listed");
		if (ids[o.first] != o.second.second) mc::fail("depot:identifier", w + "object " + o.first + " has the version identifier " + ids[o.first] + ", its row has " + o.second.second);
		ids.erase(o.first);
	}
	for (auto &e : want.externals) {
		mc::expect_eq("depot:external", w + "external file " + e.first, take(got, e.first, false), e.second.first);
		if (!vers.count(e.first)) mc::fail("depot:listed", w + "external file " + e.first + " is not listed");
		if (vers[e.first] != e.second.second) mc::fail("depot:identifier", w + "external file " + e.first + " has the version identifier " + vers[e.first] + ", its row has " + e.second.second);
		vers.erase(e.first);
	}
	std::vector<std::string> sys = {"", "version", "versions"};
	if (!old) sys.push_back("root");
	for (auto &n : sys) { if (!vers.count(n) || !is_guid(vers[n])) mc::fail("depot:versions", w + "versions has no identifier for " + mc::quote(n)); vers.erase(n); }
	if (!got.empty()) mc::fail("depot:extra", w + mc::quote(got.begin()->first) + " is exported");
	if (!meta.empty()) mc::fail("depot:extra", w + mc::quote(meta.begin()->first) + " is exported in metadata");
	if (!vers.empty() || !in_root.empty()) mc::fail("depot:listed", w + mc::quote((vers.empty() ? in_root : vers).begin()->first) + " is listed but not there");
}

// ---------------------------------------------------------------- D01
// every version of this repository, by the library
void all_versions(Run &r, const Depot &d, const Fmt &f)
{
	std::string dir = r.fresh_dir();
	Bytes before = d.make(f, dir, "r.1CD");
	auto base = open_base(dir + "/r.1CD", false);
	mc::write_file(dir + "/o.cf", pattern(5, 0, 9000)); // replaced
	for (auto &v : d.versions) {
		r.step();
		std::string w = std::string(f.name) + ", version " + S(v.num) + ": ";
		if (!base->save_depot_config(dir + "/o.cf", v.num)) mc::fail("depot:fails", w + "export fails");
		check_cf(dir + "/o.cf", d, f, v.num, w);
		r.state(r.current() + "/" + S(v.num));
	}
	base.reset();
	if (mc::read_file(dir + "/r.1CD") != before) mc::fail("depot:base", "the base changes");
}
Depot three(int dv, int major, const Hist &h, const std::vector<int> &nums, int mode, int var)
{
	Depot d; d.dv = dv; d.noise = var & 1; d.order = var >> 1 & 1; if (var & 4) d.per_leaf = 2;
	add_versions(d, nums, major);
	Hist a; a.s = "d"; a.ext = {"d"};
	for (size_t i = 1; i < nums.size(); i++) { a.s += i % 2 ? "-" : "d"; a.ext[0] += i % 2 ? "-" : "d"; }
	add_object(d, 0, a, nums, mode);
	add_object(d, 2, h, nums, mode);
	add_object(d, 3, a, nums, mode);
	return d;
}
// all rows of external files of one name over n versions, following a history of the object
void ext_rows(const std::string &h, std::vector<std::string> &out, bool at_removal, std::string cur = "", bool had = false)
{
	size_t i = cur.size();
	if (i == h.size()) { out.push_back(cur); return; }
	ext_rows(h, out, at_removal, cur + "-", had);
	if (h[i] == 'd' || h[i] == 's') ext_rows(h, out, at_removal, cur + "d", true);
	if (had && (h[i] == 'd' || h[i] == 's' || (at_removal && h[i] == 'r'))) ext_rows(h, out, at_removal, cur + "w", had);
}

void check_lots(const Depot &d, const std::string &out, bool part, const Fmt &f);
// many more objects than a process may have open files
void lots(Run &r, const std::string &pre)
{
	bool part = pre == "d02";
	for (int dv : {5, 6, 7}) for (int mode = 0; mode < (dv == 5 ? 1 : 4); mode++) r.scenario(pre + "/lots/" + S(dv) + "/" + S(mode), [&r, part, dv, mode] {
		Depot d; d.dv = dv; d.per_leaf = 20;
		add_versions(d, {1, 2}, 216);
		for (int i = 0; i < 150; i++) { Hist h; h.s = i % 3 ? "d-" : "-d"; h.ext = {h.s}; add_object(d, i, h, {1, 2}, mode); }
		std::string dir = r.fresh_dir(), out = dir + "/out";
		mkdir(out.c_str(), 0700);
		d.make(fmt(dv + mode), dir, "r.1CD");
		std::vector<std::string> args = part ? std::vector<std::string>{"-dpc", "1:2", out, dir + "/r.1CD"} : std::vector<std::string>{"-drc", "2", out + "/o.cf", dir + "/r.1CD"};
		ChildResult c = must(r, args, 60, "", [] { rlimit l; l.rlim_cur = l.rlim_max = 80; setrlimit(RLIMIT_NOFILE, &l); });
		if (c.status != 0) mc::fail("depot:many", "a repository with 150 objects can not be exported with 80 open files: " + last(c.err));
		check_lots(d, out, part, fmt(dv + mode));
		r.state(r.current());
	}, 60);
}

void d01(Run &r)
{
	const std::vector<int> seq = {1, 2, 3, 4, 5, 6}, gaps = {1, 3, 7, 40, 41, 99};
	auto nums = [&](int n, bool g) { auto &s = g ? gaps : seq; return std::vector<int>(s.begin(), s.begin() + n); };
	struct Kind { int dv, major; };
	static const std::vector<Kind> kinds = {{5, 216}, {6, 216}, {7, 216}, {3, 216}, {5, 6}, {5, 106}};
	int n = 0;
	std::vector<std::string> hs;
	histories(r.thorough ? 5 : 4, "-dnr", hs);
	for (size_t i = 0; i < hs.size(); i++) for (size_t k = 0; k < kinds.size(); k++) for (int mode = 0; mode < (kinds[k].dv >= 6 ? (r.thorough ? 4 : 2) : 1); mode++) {
		n++;
		for (int f = 0; f < 9; f++) {
			if (!r.thorough && f != n % 9 && f != (kinds[k].dv == 3 ? 4 : 1)) continue;
			r.scenario("d01/object/" + hs[i] + "/" + S(kinds[k].dv) + "-" + S(kinds[k].major) + "/" + S(mode) + "/" + S(f), [&, i, k, mode, f] {
				Hist h; h.s = hs[i];
				all_versions(r, three(kinds[k].dv, kinds[k].major, h, nums(h.s.size(), i % 3 == 1), mode == 1 ? 3 : mode == 3 ? 1 : mode, i % 8), fmt(f));
			});
		}
	}
	// external files of one object
	std::vector<std::string> base = {"ddd", "d-d", "drd", "ddr", "dsd"};
	if (r.thorough) { base.push_back("dddd"); base.push_back("ddrd"); }
	for (auto &b : base) {
		std::vector<std::string> rows;
		ext_rows(b, rows, false);
		for (size_t x = 0; x < rows.size(); x++) for (size_t y = 0; y < rows.size(); y++) {
			n++;
			for (size_t k = 0; k < 4; k++) {
				if (b.size() > 3 && k > 1) continue;
				r.scenario("d01/external/" + b + "/" + rows[x] + "/" + rows[y] + "/" + S(k), [&, b, rows, x, y, k] {
					Hist h; h.s = b; h.ext = {rows[x], rows[y]};
					all_versions(r, three(kinds[k].dv, k == 3 ? 6 : 216, h, nums(b.size(), y % 3 == 1), k == 1 ? 3 : k == 2 ? 1 : 0, (x + y) % 8), fmt(x + 2 * y + k));
				});
			}
		}
	}
	// two objects with every pair of short histories, side by side
	struct Small { std::string s, e; };
	std::vector<Small> small;
	std::vector<std::string> hs2;
	histories(2, "-dr", hs2);
	for (auto &h : hs2) { std::vector<std::string> rows; ext_rows(h, rows, false); for (auto &e : rows) small.push_back({h, e}); }
	for (size_t x = 0; x < small.size(); x++) for (size_t y = 0; y < small.size(); y++) for (size_t z = 0; z < (r.thorough ? small.size() : 1); z++) for (size_t k = 0; k < 3; k++)
		r.scenario("d01/pairs/" + S(x) + "/" + S(y) + "/" + S(z) + "/" + S(k), [&, x, y, z, k] {
			Depot d; d.dv = kinds[k].dv; d.order = x & 1; d.noise = y & 1;
			if ((x + y) % 3 == 0) d.per_leaf = 2;
			add_versions(d, {1, 2}, 216);
			size_t q = 0;
			for (size_t i : {x, y, z}) { Hist h; h.s = small[i].s; h.ext = {small[i].e}; add_object(d, (int)(q++ * 2 + 1), h, {1, 2}, k == 1 ? 3 : 0); }
			if (d.history.empty()) { r.trivial(); return; }
			all_versions(r, d, fmt(x + y + k));
		});
	// many objects and versions
	for (int cnt : {1, 7, 40, 150}) for (size_t k = 0; k < kinds.size(); k++) r.scenario("d01/many/" + S(cnt) + "/" + S(k), [&, cnt, k] {
		Depot d; d.dv = kinds[k].dv; d.noise = cnt & 1;
		d.per_leaf = 9;
		add_versions(d, {1, 2, 3}, kinds[k].major);
		for (int i = 0; i < cnt; i++) for (int v = 1; v <= 3; v++) {
			if ((i + v) % 3 == 0) continue;
			Obj o; o.obj = i % 8; o.ver = v; o.verid = i * 4 + v; o.data = packed(i % 8, v); o.store = store_for(d.dv, 3, v);
			if (i < 8) d.history.push_back(o);
			Ext e; e.obj = i % 8; e.ver = v; e.name = "file." + S(i); e.data = pattern(i * 4 + v, 0, 1 + (i * 37 + v) % 600); e.store = store_for(d.dv, 3, i); e.verid = i;
			d.externals.push_back(e);
		}
		all_versions(r, d, fmt(cnt + k));
	}, 60);
	// objects that can not be unpacked are taken as they are
	for (int cut : {0, 1, 5, 200, 20000}) for (int f : {0, 4, 6}) r.scenario("d01/damaged/" + S(cut) + "/" + S(f), [&, cut, f] {
		Depot d; d.dv = 3;
		add_versions(d, {1}, 6);
		Obj o; o.obj = 1; o.data = v8c::deflate_raw(pattern(3, 0, 40000));
		if (cut) { o.data = cut == 1 ? pattern(9, 0, 50) : o.data.substr(0, std::min<size_t>(cut, o.data.size() - 3)); if (cut == 1) o.data[0] = (char)0xff; }
		d.history.push_back(o);
		all_versions(r, d, fmt(f));
	});
	// snapshots
	Bytes snap = pattern(77, 0, 5000), other = pattern(78, 0, 3000);
	for (int maker = 0; maker < 6; maker++) for (int file = 0; file < 7; file++) for (int crc = 0; crc < 4; crc++) for (int ver : {1, 2, 100001}) for (int f = 0; f < 2; f++)
		r.scenario("d01/snapshot/" + S(maker) + "/" + S(file) + "/" + S(crc) + "/" + S(ver) + "/" + S(f), [&, maker, file, crc, ver, f] {
			Depot d; d.dv = 5;
			add_versions(d, {1, 2, 100001}, 216);
			Hist h; h.s = "ddd"; add_object(d, 1, h, {1, 2, 100001}, 0);
			Bytes mk[6] = {"", Bytes(16, '\0'), d.root, Bytes(SNAP1, 16), Bytes(SNAP2, 16), Bytes(SNAP1, 16)};
			bool two = maker == 4;
			Bytes content;
			switch (file) {
			case 1: content = v8c::deflate_raw(snap); break;
			case 2: content = snap; break;
			case 3: content = v8c::deflate_raw(other); break;
			case 4: content = v8c::deflate_raw(snap); content.resize(content.size() - 20); break;
			case 5: content = v8c::deflate_raw(snap); content[content.size() / 2] ^= 0x10; break;
			case 6: break;
			}
			Bytes plain_; bool good = file != 0;
			if (good) { if (two) plain_ = content; else good = v8c::inflate_raw(content, plain_); }
			uint32_t right = (uint32_t)crc32(0, (const Bytef *)plain_.data(), plain_.size());
			for (auto &v : d.versions) if (v.num == ver) { v.maker = mk[maker]; if (crc) { v.has_crc = true; v.crc = crc == 1 ? right : crc == 2 ? right ^ 0x80 : (uint32_t)crc32(0, (const Bytef *)snap.data(), snap.size()); } }
			std::string dir = r.fresh_dir();
			mkdir((dir + "/cache").c_str(), 0700);
			char nm[32]; snprintf(nm, sizeof nm, "/cache/ddb%05d.snp", ver % 100000);
			if (file) mc::write_file(dir + nm, content);
			d.make(fmt(f), dir, "r.1CD");
			auto base = open_base(dir + "/r.1CD", false);
			r.step();
			if (!base->save_depot_config(dir + "/o.cf", ver)) mc::fail("depot:fails", "export fails");
			if (good && crc == 0 && right == 0) { r.trivial(); return; } // no checksum to compare with
			bool made = maker >= 2, match = good && crc && (crc != 3 || right == (uint32_t)crc32(0, (const Bytef *)snap.data(), snap.size())) && crc != 2;
			if (file == 6 && !two && crc != 2) { r.trivial(); return; } // nothing to unpack: not specified
			if (made && match) mc::expect_eq("depot:snapshot", "the snapshot", mc::read_file(dir + "/o.cf"), plain_);
			else check_cf(dir + "/o.cf", d, fmt(f), ver, "snapshot not in force: ");
			r.state(r.current());
		});
	lots(r, "d01");
	// the program: version numbers and targets
	for (int dv : {5, 6}) for (int target = 0; target < 5; target++) for (const char *num : {"1", "3", "7", "0", "-1", "-2", "-3", "2", "8", "100", "-100"}) for (int form = 0; form < 2; form++)
		r.scenario("d01/cli/" + S(dv) + "/" + S(target) + "/" + num + "/" + S(form), [&, dv, target, num, form] {
			Depot d; d.dv = dv; d.order = form;
			std::vector<int> nn = {1, 3, 7};
			add_versions(d, nn, 216);
			Hist h; h.s = "ddd"; h.ext = {"dwd"}; add_object(d, 1, h, nn, 3);
			Hist h2; h2.s = "-dr"; add_object(d, 2, h2, nn, 3);
			std::string dir = r.fresh_dir(), out = dir + "/out";
			mkdir(out.c_str(), 0700);
			Bytes before = d.make(fmt(dv + target), dir, "r.1CD");
			int v = atoi(num);
			if (v <= 0) v = -v < 3 ? nn[2 + v] : -1;
			if (std::find(nn.begin(), nn.end(), v) == nn.end()) v = -1;
			std::string file = out + (target == 1 ? "/a.cf" : target == 2 ? "/b.CF" : target == 3 ? "/old.cf" : "/v" + S(v) + ".cf");
			if (target == 3) mc::write_file(file, pattern(1, 0, 30000));
			std::string arg = target == 0 || target == 4 ? out : file;
			if (target == 4) mc::write_file(out + "/v" + S(v) + ".cf", "old");
			std::vector<std::string> args = {form ? dir + "/r.1CD" : "-drc", form ? "-drc" : num, form ? num : arg, form ? arg : dir + "/r.1CD"};
			ChildResult c = must(r, args, 60);
			if (v < 0) {
				if (c.status == 0) mc::fail("depot:no-version", "there is no version " + std::string(num) + ", yet the program succeeds");
				std::map<std::string, Bytes> t; mc::list_tree(out, t);
				if (t.size() > (target == 3 || target == 4 ? 1 : 0)) mc::fail("depot:no-version", "there is no version " + std::string(num) + ", yet " + t.begin()->first + " is written");
			} else {
				if (c.status != 0) mc::fail("cli:exit", "ctool1cd" + show(args) + " ended with code " + S((int8_t)c.status) + ": " + last(c.err));
				check_cf(file, d, fmt(dv + target), v, "-drc " + std::string(num) + ": ");
				std::map<std::string, Bytes> t; mc::list_tree(out, t);
				if (t.size() != 1) mc::fail("depot:extra", "more than one file is written");
			}
			if (mc::read_file(dir + "/r.1CD") != before) mc::fail("depot:base", "the base changes");
			r.state(r.current());
		}, 60);
	// what can not be exported is refused
	for (int what = 0; what < 7; what++) for (int dv : {5, 6, 7}) r.scenario("d01/refused/" + S(what) + "/" + S(dv), [&, what, dv] {
		Depot d; d.dv = dv;
		add_versions(d, {1, 2}, 216);
		Hist h; h.s = "dd"; h.ext = {"dd"}; add_object(d, 1, h, {1, 2}, dv >= 6 ? 3 : 0);
		if (what == 0) d.history.clear();
		if (what == 1) d.versions.clear();
		if (what == 2) for (auto &o : d.history) o.store = NOWHERE;
		if (what == 3) { for (auto &o : d.externals) o.store = NOWHERE; if (dv < 6) for (auto &o : d.externals) o.data.clear(); }
		if (what == 4) d.dv = 9;
		std::string dir = r.fresh_dir();
		d.make(fmt(what + dv), dir, "r.1CD");
		if (what == 5) mc::rmrf(dir + "/data");
		if (what == 6) for (const char *p : {"a1", "b2"}) unlink((dir + "/data/pack/pack-" + p + ".pck").c_str());
		if ((what == 5 || what == 6) && dv < 6) { r.trivial(); return; }
		ChildResult c = must(r, {"-drc", "2", dir + "/o.cf", dir + "/r.1CD"}, 60);
		if (c.status == 0) mc::fail("depot:refused", "an incomplete repository is exported without an error");
		r.state(r.current());
	}, 60);
}

// ---------------------------------------------------------------- D02
struct Part { std::map<std::string, Bytes> files; std::set<std::string> deleted, maybe; };
Part compute_part(const Depot &d, int b, int e, const std::string &objdir)
{
	Part w;
	std::set<int> objs;
	for (auto &o : d.history) objs.insert(o.obj);
	for (int o : objs) {
		const Obj *r1 = nullptr, *r2 = nullptr;
		for (auto &x : d.history) if (x.obj == o) {
			if (x.ver < b && (!r1 || x.ver > r1->ver)) r1 = &x;
			if (x.ver >= b && x.ver <= e && (!r2 || x.ver > r2->ver)) r2 = &x;
		}
		if (!r2) continue;
		if (r2->removed) {
			if (!r1) continue;
			auto &to = r1->removed ? w.maybe : w.deleted;
			to.insert(ms(objid(o)));
			for (auto &x : d.externals) if (x.obj == o && x.ver == r2->ver) to.insert(x.name);
			continue;
		}
		if (!(r1 && !r1->removed && r1->data == r2->data)) { Bytes u; if (!v8c::inflate_raw(r2->data, u)) mc::fail("harness", "bad data"); w.files[objdir + ms(objid(o))] = u; }
		for (auto &x : d.externals) if (x.obj == o && x.ver == r2->ver) {
			const Ext *from = x.packed == 1 ? &x : nullptr;
			if (!from) for (auto &y : d.externals) if (y.obj == o && y.name == x.name && y.verid == x.verid && y.ver >= b && y.ver < x.ver && y.packed == 1 && (!from || y.ver > from->ver)) from = &y;
			if (!from) continue;
			Bytes u;
			if (!v8c::inflate_raw(from->data, u)) u = from->data;
			w.files[objdir + x.name] = u;
		}
	}
	return w;
}
void check_part(const std::string &out, const Part &w, const std::string &where)
{
	std::map<std::string, Bytes> got;
	mc::list_tree(out, got);
	for (auto it = got.begin(); it != got.end();) if (!it->first.empty() && it->first.back() == '/') it = got.erase(it); else ++it;
	std::set<std::string> del;
	if (got.count("deleted")) {
		std::string s = got["deleted"];
		if (s.compare(0, 3, "\xef\xbb\xbf") == 0) s = s.substr(3);
		size_t p = 0, q;
		while ((q = s.find("\r\n", p)) != std::string::npos) { if (!del.insert(s.substr(p, q - p)).second) mc::fail("part:deleted", where + "listed twice as deleted: " + s.substr(p, q - p)); p = q + 2; }
		if (p != s.size()) mc::fail("part:deleted", where + "the list of deleted files does not end with a line break");
		got.erase("deleted");
	}
	for (auto &x : w.deleted) { if (!del.count(x)) mc::fail("part:deleted", where + x + " is not listed as deleted"); del.erase(x); }
	for (auto &x : w.maybe) del.erase(x);
	if (!del.empty()) mc::fail("part:deleted", where + *del.begin() + " is listed as deleted");
	for (auto &x : w.files) {
		if (!got.count(x.first)) mc::fail("part:lost", where + x.first + " is not written");
		mc::expect_eq("part:contents", where + x.first, got[x.first], x.second);
		got.erase(x.first);
	}
	if (!got.empty()) mc::fail("part:extra", where + mc::quote(got.begin()->first) + " is written");
}
void check_lots(const Depot &d, const std::string &out, bool part, const Fmt &f)
{
	if (part) check_part(out, compute_part(d, 1, 2, ""), "");
	else check_cf(out + "/o.cf", d, f, 2, "");
}
void all_ranges(Run &r, const Depot &d, const Fmt &f)
{
	std::string dir = r.fresh_dir();
	Bytes before = d.make(f, dir, "r.1CD");
	auto base = open_base(dir + "/r.1CD", false);
	int n = 0;
	for (auto &a : d.versions) for (auto &b : d.versions) {
		if (b.num < a.num && (a.num + b.num) % 2) continue;
		std::string out = dir + "/out" + S(n++);
		mkdir(out.c_str(), 0700);
		r.step();
		std::string w = std::string(f.name) + ", versions " + S(a.num) + " to " + S(b.num) + ": ";
		if (!base->save_part_depot_config(out, a.num, b.num)) mc::fail("part:fails", w + "export fails");
		bool old = major_of(d, f, a.num) < 100;
		check_part(out, compute_part(d, std::min(a.num, b.num), std::max(a.num, b.num), old ? "metadata/" : ""), w);
		r.state(r.current() + "/" + S(a.num) + ":" + S(b.num));
	}
	base.reset();
	if (mc::read_file(dir + "/r.1CD") != before) mc::fail("part:base", "the base changes");
	std::map<std::string, Bytes> t;
	mc::list_tree(dir, t);
	for (auto &x : t) if (x.first.compare(0, 3, "out") && x.first.compare(0, 4, "data") && x.first != "r.1CD") mc::fail("part:outside", mc::quote(x.first) + " is written beside the base");
}
void d02(Run &r)
{
	const std::vector<int> seq = {1, 2, 3, 4, 5}, gaps = {2, 3, 7, 40, 41};
	auto nums = [&](int n, bool g) { auto &s = g ? gaps : seq; return std::vector<int>(s.begin(), s.begin() + n); };
	std::vector<std::string> hs;
	histories(r.thorough ? 5 : 4, "-dsr", hs);
	struct Kind { int dv, major, mode; };
	static const std::vector<Kind> kinds = {{5, 216, 0}, {6, 216, 3}, {7, 216, 1}, {3, 216, 0}, {5, 6, 0}, {6, 216, 0}, {7, 216, 2}};
	for (size_t i = 0; i < hs.size(); i++) for (size_t k = 0; k < kinds.size(); k++) for (int f = 0; f < 9; f++) {
		if (f != (int)(i + k) % 9 && !(r.thorough && hs[i].size() < 6 && f < 2) && !(k == 3 && f == 4)) continue;
		r.scenario("d02/object/" + hs[i] + "/" + S(k) + "/" + S(f), [&, i, k, f] {
			Hist h; h.s = hs[i];
			Depot d = three(kinds[k].dv, kinds[k].major, h, nums(h.s.size(), i % 3 == 1), kinds[k].mode, (i + k) % 8);
			if (major_of(d, fmt(f), d.versions[0].num) < 100) d.externals.clear();
			all_ranges(r, d, fmt(f));
		});
	}
	// external files
	std::vector<std::string> base = {"ddd", "dsd", "d-d", "drd", "ddr", "dss"};
	if (r.thorough) { base.push_back("dddd"); base.push_back("dsdr"); }
	for (auto &b : base) {
		std::vector<std::string> rows;
		ext_rows(b, rows, true);
		for (size_t x = 0; x < rows.size(); x++) for (size_t y = 0; y < rows.size(); y++) for (size_t k = 0; k < 3; k++) {
			if (!r.thorough && k != (x + y) % 3 && x % 4) continue;
			r.scenario("d02/external/" + b + "/" + rows[x] + "/" + rows[y] + "/" + S(k), [&, b, rows, x, y, k] {
				Hist h; h.s = b; h.ext = {rows[x], rows[y]};
				all_ranges(r, three(kinds[k].dv, 216, h, nums(b.size(), y % 3 == 1), kinds[k].mode, (x + y) % 8), fmt(x + 2 * y + k));
			});
		}
	}
	// pairs of objects
	struct Small { std::string s, e; };
	std::vector<Small> small;
	std::vector<std::string> hs2;
	histories(2, "-dsr", hs2);
	for (auto &h : hs2) { std::vector<std::string> rows; ext_rows(h, rows, true); for (auto &e : rows) small.push_back({h, e}); }
	for (size_t x = 0; x < small.size(); x++) for (size_t y = 0; y < small.size(); y++) for (size_t z = 0; z < (r.thorough ? small.size() : 1); z++) for (size_t k = 0; k < 3; k++)
		r.scenario("d02/pairs/" + S(x) + "/" + S(y) + "/" + S(z) + "/" + S(k), [&, x, y, z, k] {
			Depot d; d.dv = kinds[k].dv; d.order = x & 1; d.noise = y & 1;
			if ((x + y) % 3 == 0) d.per_leaf = 2;
			add_versions(d, {1, 2}, 216);
			size_t q = 0;
			for (size_t i : {x, y, z}) { Hist h; h.s = small[i].s; h.ext = {small[i].e}; add_object(d, (int)(q++ * 2 + 1), h, {1, 2}, kinds[k].mode); }
			if (d.history.empty()) { r.trivial(); return; }
			all_ranges(r, d, fmt(x + y + k));
		});
	// external files that are containers, or not packed, or have odd names
	for (int kind = 0; kind < 5; kind++) for (int dv : {5, 6}) for (int name = 0; name < 7; name++) r.scenario("d02/kind/" + S(kind) + "/" + S(dv) + "/" + S(name), [&, kind, dv, name] {
		static const char *names[7] = {"plain.0", "../up", "a/b", "..", "a\\b", "/abs", "\xd0\x9c\xd0\xbe\xd0\xb9 file"};
		auto file = [](const std::string &n, const Bytes &x) { v8c::File f; f.name = n; f.data = x; return f; };
		Bytes body;
		std::map<std::string, Bytes> inside = {{"", pattern(4, 0, 900)}};
		if (kind == 1) inside = {{"", pattern(4, 0, 900)}};
		if (kind >= 2) {
			inside = {{"/module", pattern(5, 0, 700)}, {"/info", "{3,1,0}"}};
			std::vector<v8c::File> fs = {file("module", inside["/module"]), file("info", inside["/info"])};
			if (kind == 4) { inside["/sub/x"] = pattern(6, 0, 100); fs.push_back(file("sub", v8c::build({file("x", inside["/sub/x"])}))); }
			body = v8c::build(fs);
		} else body = inside[""];
		if (kind == 0 || kind == 3 || kind == 4) body = v8c::deflate_raw(body);
		Depot d; d.dv = dv;
		add_versions(d, {1}, 216);
		Hist h; h.s = "d"; add_object(d, 1, h, {1}, 0);
		Ext e; e.obj = 1; e.name = names[name]; e.data = body; e.store = dv == 6 ? PACK0 : BLOB; e.verid = 3; d.externals.push_back(e);
		Ext e2 = e; e2.name = "zz.last"; e2.data = v8c::deflate_raw("last one"); d.externals.push_back(e2);
		std::string dir = r.fresh_dir(), up = dir + "/up1", out = up + "/out";
		fs_::create_directories(out);
		d.make(fmt(kind + dv + name), dir, "r.1CD");
		mc::write_file(up + "/up", "mine");
		good(r, {"-dpc", "1", out, dir + "/r.1CD"}, 60);
		std::map<std::string, Bytes> got;
		mc::list_tree(dir, got);
		std::set<std::string> found;
		bool zz = false, ob = false;
		for (auto &g : got) {
			if (g.first.empty() || g.first.back() == '/' || g.first == "r.1CD" || g.first.compare(0, 5, "data/") == 0) continue;
			if (g.first == "up1/up") { if (g.second != "mine") mc::fail("part:outside", "a file outside of the directory is overwritten"); continue; }
			if (g.first.compare(0, 8, "up1/out/") != 0) mc::fail("part:outside", "the external file " + mc::quote(names[name]) + " is written to " + mc::quote(g.first));
			std::string rest = g.first.substr(8);
			if (rest == "zz.last") { zz = true; mc::expect_eq("part:contents", rest, g.second, "last one"); continue; }
			if (rest == ms(objid(1))) { ob = true; continue; }
			size_t sl = rest.find('/');
			std::string first = rest.substr(0, sl), tail = sl == std::string::npos ? "" : rest.substr(sl);
			if ((name == 0 || name == 6) && first != names[name]) mc::fail("part:extra", mc::quote(rest) + " is written");
			if (!inside.count(tail)) mc::fail("part:extra", mc::quote(rest) + " is written");
			mc::expect_eq("part:contents", rest, g.second, inside[tail]);
			found.insert(tail);
		}
		if (!zz || !ob || found.size() != inside.size()) mc::fail("part:lost", "an external file named " + mc::quote(names[name]) + ": " + S(found.size()) + " of " + S(inside.size()) + " files are written" + (zz ? "" : ", the next one is not"));
		r.state(r.current());
	}, 60);
	lots(r, "d02");
	// the program
	for (int dv : {5, 6}) for (const char *num : {"1", "3", "7", "0", "-1", "-2", "1:3", "1:7", "3:7", "7:3", "-1:0", "0:-1", "-2:0", "1:0", "3:3", "-3", "2", "1:8", "8:1", "-3:0", "1:2"}) for (int form = 0; form < 3; form++)
		r.scenario("d02/cli/" + S(dv) + "/" + num + "/" + S(form), [&, dv, num, form] {
			Depot d; d.dv = dv; d.order = form & 1;
			std::vector<int> nn = {1, 3, 7};
			add_versions(d, nn, 216);
			Hist h; h.s = "ddd"; h.ext = {"dwd"}; add_object(d, 1, h, nn, 3);
			Hist h2; h2.s = "-dr"; add_object(d, 2, h2, nn, 3);
			Hist h3; h3.s = "dsr"; h3.ext = {"d-w"}; add_object(d, 5, h3, nn, 3);
			std::string dir = r.fresh_dir(), out = dir + "/out";
			if (form < 2) mkdir(out.c_str(), 0700);
			Bytes before = d.make(fmt(dv + form), dir, "r.1CD");
			auto real = [&](const std::string &s) { int v = atoi(s.c_str()); if (v <= 0) v = -v < 3 ? nn[2 + v] : -1; return std::find(nn.begin(), nn.end(), v) == nn.end() ? -1 : v; };
			std::string a = num, b = num;
			size_t c = a.find(':');
			if (c != std::string::npos) { b = a.substr(c + 1); a = a.substr(0, c); }
			int va = real(a), vb = real(b);
			std::vector<std::string> args = {form ? dir + "/r.1CD" : "-dpc", form ? "-dpc" : num, form ? num : out, form ? out : dir + "/r.1CD"};
			ChildResult res = must(r, args, 60);
			if (va < 0 || vb < 0) {
				if (res.status == 0) mc::fail("part:no-version", "there is no such version, yet -dpc " + std::string(num) + " succeeds");
			} else {
				if (res.status != 0) mc::fail("cli:exit", "ctool1cd" + show(args) + " ended with code " + S((int8_t)res.status) + ": " + last(res.err));
				check_part(out, compute_part(d, std::min(va, vb), std::max(va, vb), ""), "-dpc " + std::string(num) + ": ");
			}
			if (mc::read_file(dir + "/r.1CD") != before) mc::fail("part:base", "the base changes");
			r.state(r.current());
		}, 60);
	for (int what = 0; what < 6; what++) for (int dv : {5, 6, 7}) r.scenario("d02/refused/" + S(what) + "/" + S(dv), [&, what, dv] {
		Depot d; d.dv = dv;
		add_versions(d, {1, 2}, 216);
		Hist h; h.s = "dd"; h.ext = {"dd"}; add_object(d, 1, h, {1, 2}, dv >= 6 ? 3 : 0);
		if (what == 0) d.history.clear();
		if (what == 1) d.versions.clear();
		if (what == 2) for (auto &o : d.history) o.store = NOWHERE;
		if (what == 3) { for (auto &o : d.externals) o.store = NOWHERE; }
		if (what == 4) d.dv = 9;
		std::string dir = r.fresh_dir();
		d.make(fmt(what + dv), dir, "r.1CD");
		if (what == 5) mc::rmrf(dir + "/data");
		if (what == 5 && dv < 6) { r.trivial(); return; }
		mkdir((dir + "/o").c_str(), 0700);
		ChildResult c = must(r, {"-dpc", "1:2", dir + "/o", dir + "/r.1CD"}, 60);
		if (c.status == 0) mc::fail("part:refused", "an incomplete repository is exported without an error");
		r.state(r.current());
	}, 60);
}

// ---------------------------------------------------------------- D03
void d03(Run &r)
{
	// every placement of the objects: which pack (or loose, or nowhere)
	auto key = [](int i) {
		Bytes h(20, '\0');
		for (int k = 0; k < 20; k++) h[k] = (char)(0x10 * k + 0xA7);
		if (i) { int p = (i - 1) % 40; h[p / 2] = (char)(h[p / 2] ^ (p % 2 ? 0x01 : 0x80)); }
		return h;
	};
	auto run = [&](const std::vector<int> &place, const std::vector<int> &keys, const std::vector<Bytes> &data, bool upper) {
		std::string dir = r.fresh_dir();
		fs_::create_directories(dir + "/data/pack");
		mc::write_file(dir + "/data/pack/pack-x.txt", "no index");
		mc::write_file(dir + "/data/pack/mypack-1.ind", "no index");
		Pack pk[3];
		for (size_t i = 0; i < place.size(); i++) { if (place[i] < 3) pk[place[i]].objects.push_back({key(keys[i]), data[i]}); else if (place[i] == 3) write_loose(dir, key(keys[i]), data[i]); }
		for (int p = 0; p < 3; p++) write_pack(dir, "pack-" + S(p) + (p == 2 ? ".ind.x" : ""), pk[p]);
		fs_::path root(dir);
		PackDirectory pd(root);
		for (int round = 0; round < 2; round++) for (size_t q = 0; q < place.size(); q++) {
			size_t i = round ? place.size() - 1 - q : q;
			r.step();
			std::string h = hexs(key(keys[i]));
			if (upper && place[i] != 3) for (auto &c : h) c = (char)toupper(c);
			bool found = round;
			std::unique_ptr<TStream> s(pd.get_data(h, found));
			if (found != (place[i] < 4)) mc::fail("pack:found", "an object " + std::string(place[i] < 4 ? "that is there is not found" : "that is nowhere is found"));
			if (!found) continue;
			Bytes got((size_t)s->GetSize(), '\0');
			s->Seek(0, soBeginning);
			if (!got.empty()) s->Read(&got[0], got.size());
			mc::expect_eq("pack:contents", "object " + S(i), got, data[i]);
		}
		// one that differs in a single bit
		bool found = true;
		std::unique_ptr<TStream> s(pd.get_data(hexs(key(99 % 41 == keys[0] ? 7 : 18)), found));
		bool there = false;
		for (size_t i = 0; i < keys.size(); i++) there |= place[i] < 4 && keys[i] == (99 % 41 == keys[0] ? 7 : 18);
		if (found != there) mc::fail("pack:found", "an object that is nowhere is found");
		r.state(r.current());
	};
	int objs = r.thorough ? 5 : 4;
	int total = 1; for (int i = 0; i < objs; i++) total *= 5;
	for (int c = 0; c < total; c++) for (int v = 0; v < 2; v++) r.scenario("d03/place/" + S(c) + "/" + S(v), [&, c, v] {
		std::vector<int> pl, ks; std::vector<Bytes> ds;
		for (int i = 0, x = c; i < objs; i++, x /= 5) { pl.push_back(x % 5); ks.push_back(v ? i * 10 : i); ds.push_back(pattern(i + 1, 0, 1 + i * 700)); }
		run(pl, ks, ds, v);
	});
	for (int k = 0; k <= 40; k++) for (int o = 0; o < 4; o++) r.scenario("d03/similar/" + S(k) + "/" + S(o), [&, k, o] {
		run({o, (o + 1) % 4}, {0, k ? k : 5}, {pattern(1, 0, 100), pattern(2, 0, 300)}, o & 1);
	});
	for (int len : {1, 2, 7, 8, 9, 4095, 4096, 4097, 16384, 16385, 65536, 100000, 1048577}) for (int n : {1, 2, 5}) for (int pl = 0; pl < 4; pl++) r.scenario("d03/size/" + S(len) + "/" + S(n) + "/" + S(pl), [&, len, n, pl] {
		std::vector<int> p, ks; std::vector<Bytes> ds;
		for (int i = 0; i < n; i++) { p.push_back(i == n / 2 ? pl : i % 3); ks.push_back(i); ds.push_back(pattern(i + 9, 0, len + i)); }
		run(p, ks, ds, false);
	});
	for (int n : {0, 1, 2, 100, 3000}) r.scenario("d03/many/" + S(n), [&, n] {
		std::string dir = r.fresh_dir();
		fs_::create_directories(dir + "/data/pack");
		Pack pk;
		auto hk = [&](int i) { return hash(S(i)); };
		for (int i = 0; i < n; i++) pk.objects.push_back({hk(i), pattern(i, 0, 1 + i % 50)});
		write_pack(dir, "pack-1", pk);
		fs_::path root(dir);
		PackDirectory pd(root);
		for (int i = 0; i < n; i += n > 500 ? 7 : 1) {
			r.step();
			bool found = false;
			std::unique_ptr<TStream> s(pd.get_data(hexs(hk(i)), found));
			if (!found) mc::fail("pack:found", "object " + S(i) + " of " + S(n) + " is not found");
			Bytes got((size_t)s->GetSize(), '\0'); s->Seek(0, soBeginning); s->Read(&got[0], got.size());
			mc::expect_eq("pack:contents", "object " + S(i), got, pattern(i, 0, 1 + i % 50));
		}
		bool found = true;
		std::unique_ptr<TStream> s(pd.get_data(hexs(hk(n)), found));
		if (found) mc::fail("pack:found", "an object that is nowhere is found");
		r.state(r.current());
	});
	// without its parts the directory is refused
	for (int what = 0; what < 4; what++) r.scenario("d03/refused/" + S(what), [&, what] {
		std::string dir = r.fresh_dir();
		if (what) fs_::create_directories(dir + "/data/pack");
		Pack pk; pk.objects.push_back({key(0), "x"});
		if (what) write_pack(dir, "pack-1", pk);
		if (what == 2) unlink((dir + "/data/pack/pack-1.pck").c_str());
		if (what == 3) mc::write_file(dir + "/data/pack/pack-1.ind", "abc");
		r.step();
		fs_::path root(dir);
		bool ok = true;
		try { PackDirectory pd(root); } catch (const std::exception &) { ok = false; }
		if (what == 1 && !ok) mc::fail("pack:refused", "a good directory is refused");
		if (what != 1 && ok) mc::fail("pack:refused", what == 0 ? "a missing directory is accepted" : what == 2 ? "a pack without data is accepted" : "a truncated index of a pack is accepted");
		r.state(r.current());
	});
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "D01") d01(r);
	if (r.prop == "D02") d02(r);
	if (r.prop == "D03") d03(r);
}
