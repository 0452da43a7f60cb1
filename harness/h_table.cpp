// Tables: record layout, record enumeration, values, blobs, indexes, XML export.
#include "cli.hpp"
using namespace cli;
using namespace img;

namespace {

std::string S(long long x) { return std::to_string(x); }

Bytes head(const std::string &path, size_t n) { Bytes b(n, '\0'); std::ifstream f(path, std::ios::binary); f.read(&b[0], n); b.resize((size_t)f.gcount()); return b; }

// export with -eax and check every table (order[i]: expected records of table i)
void export_all(mc::Run &r, const Fmt &f, std::vector<Tab> &ts, const std::vector<std::vector<int>> &order, const std::vector<std::string> &extra = {})
{
	std::string d = r.fresh_dir(), out = d + "/out";
	mkdir(out.c_str(), 0700);
	Bytes before = make_base(f, ts, d + "/b.1CD");
	uint64_t more = 0;
	for (auto &t : ts) more += t.def.index_shift;
	if (more) { // pages that no object uses, so that the base is as long as its objects; a hole in the file
		uint64_t ps = base_of(f).ps, n = before.size() / ps + more;
		put32(before, 12, (uint32_t)n);
		mc::write_file(d + "/b.1CD", before);
		if (truncate((d + "/b.1CD").c_str(), (off_t)(n * ps))) { fprintf(stderr, "harness: truncate\n"); _exit(77); }
	}
	std::vector<std::string> a = {"-eax", out, d + "/b.1CD"};
	a.insert(a.end(), extra.begin(), extra.end());
	good(r, a);
	for (size_t i = 0; i < ts.size(); i++) check_doc(out + "/" + ts[i].def.name + ".xml", ts[i], order[i]);
	std::map<std::string, Bytes> files;
	mc::list_tree(out, files);
	mc::expect_eq("xml:files", "number of files written", (long long)files.size(), (long long)ts.size());
	mc::expect_eq("base:modified", "the base after the export", more ? head(d + "/b.1CD", before.size()) : mc::read_file(d + "/b.1CD"), before);
}

FieldDef F(const std::string &n, const std::string &t, int len = 0, int prec = 0, bool null = false)
{
	FieldDef f; f.name = n; f.type = t; f.len = len; f.prec = prec; f.null = null; return f;
}

// a value of any type that depends on a tag
V some(const FieldDef &f, uint32_t tag, Blob &bl)
{
	if (f.null && tag % 3 == 1) return null_();
	Bytes p = pattern(tag * 131 + f.name.size(), 0, 64);
	if (f.type == "B") return bin(p.substr(0, f.len));
	if (f.type == "VB") { uint32_t n = tag % (f.len + 1); Bytes v = p.substr(0, n); return text(le16(n) + v + Bytes(f.len - n, (char)0x77), hexs(v)); }
	if (f.type == "L") return text(Bytes(1, tag % 2), tag % 2 ? "true" : "false");
	if (f.type == "N") { std::string d; for (int i = 0; i < f.len; i++) d += (char)('0' + (tag * 7 + i * 3 + 1) % 10); return cli::num(d, f.len, f.prec, tag % 2); }
	if (f.type == "NC" || f.type == "NVC") {
		std::string s = "Я" + S(tag) + "<&";
		std::string w; int n = 0;
		for (size_t i = 0; i < s.size() && n < f.len; n++) { int k = (s[i] & 0x80) ? 2 : 1; w += s.substr(i, k); i += k; }
		return f.type == "NC" ? cli::nc(w, f.len) : cli::nvc(w, f.len);
	}
	if (f.type == "RV") { Bytes b; std::string w; for (int i = 0; i < 4; i++) { uint32_t v = tag * 100 + i; b += le32(v); w += (i ? ":" : "") + S(v); } return text(b, w); }
	if (f.type == "DT") { char b[16]; snprintf(b, 16, "20%02u%02u%02u%02u%02u%02u", tag % 100, tag % 12 + 1, tag % 28 + 1, tag % 24, tag % 60, (tag * 7) % 60); return date(b); }
	if (f.type == "NT") return memo(bl, "Мемо " + S(tag) + std::string(tag % 5 * 60, 'x'));
	if (f.type == "T") return txt(bl, "text " + S(tag) + std::string(tag % 4 * 100, 'y'));
	if (f.type == "I") return image(bl, p + pattern(tag, 0, tag % 7 * 50));
	abort();
}

// ---------------------------------------------------------------- T01: record layout from the description
struct TT { const char *t; int len, prec; };
const TT TYPES[] = {{"B", 5, 0}, {"L", 1, 0}, {"N", 4, 1}, {"NC", 3, 0}, {"NVC", 4, 0}, {"RV", 0, 0}, {"NT", 0, 0}, {"T", 0, 0}, {"I", 0, 0}, {"DT", 0, 0}, {"VB", 6, 0}, {"N", 5, 0}};

void t01(mc::Run &r)
{
	std::vector<std::pair<int, bool>> alpha;
	for (int i = 0; i < 12; i++) for (int n = 0; n < 2; n++) { if (n && !strcmp(TYPES[i].t, "RV")) continue; alpha.push_back({i, n}); }
	auto one = [&](const std::vector<int> &seq, int lock, const Fmt &f) {
		std::string id = std::string("t01/") + f.name + "/lock" + S(lock);
		int rv = 0;
		for (int x : seq) { id += std::string("/") + TYPES[alpha[x].first].t + S(TYPES[alpha[x].first].len) + (alpha[x].second ? "?" : ""); rv += !strcmp(TYPES[alpha[x].first].t, "RV"); }
		if (rv > 1) return; // a table has at most one version field
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_REFERENCE7";
			t.def.recordlock = lock;
			Blob bl;
			for (size_t i = 0; i < seq.size(); i++) { auto &ty = TYPES[alpha[seq[i]].first]; t.def.fields.push_back(F("_FLD" + S(i + 1), ty.t, ty.len, ty.prec, alpha[seq[i]].second)); }
			for (int k = 0; k < 4; k++) {
				std::vector<V> row;
				if (k != 2) for (auto &fd : t.def.fields) row.push_back(some(fd, k * 5 + row.size() + 1, bl));
				t.rows.push_back(row);
			}
			t.def.blob = bl.d;
			r.state(id);
			export_all(r, f, ts, {t.live()});
			r.sample(id);
		});
	};
	auto &fm = formats();
	for (int lock = 0; lock < 2; lock++) {
		for (size_t f = 0; f < fm.size(); f++) for (size_t a = 0; a < alpha.size(); a++) one({(int)a}, lock, fm[f]);
		for (size_t a = 0; a < alpha.size(); a++) for (size_t b = 0; b < alpha.size(); b++) one({(int)a, (int)b}, lock, fm[(a + b) % 3]);
		// three and more fields: every type between two fixed neighbours, version field at every position
		for (size_t a = 0; a < alpha.size(); a++) { one({2, (int)a, 6}, lock, fm[a % 3]); one({8, 3, (int)a, 1, 12}, lock, fm[(a + 1) % 3]); }
		if (r.thorough) for (size_t a = 0; a < alpha.size(); a++) for (size_t b = 0; b < alpha.size(); b++) for (size_t c = 0; c < alpha.size(); c++) one({(int)a, (int)b, (int)c}, lock, fm[(a + b + c) % fm.size()]);
	}
	// wide tables
	for (int n : {16, 60, 200}) for (int lock = 0; lock < 2; lock++) for (int fi = 0; fi < 3; fi++) {
		std::vector<int> q;
		for (int i = 0; i < n; i++) { int x = (i * 7 + lock) % alpha.size(); if (!strcmp(TYPES[alpha[x].first].t, "RV")) x++; q.push_back(x); }
		std::string id = std::string("t01/wide") + S(n) + "/lock" + S(lock) + "/" + fm[fi].name;
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_DOCUMENT1"; t.def.recordlock = lock;
			Blob bl;
			for (int i = 0; i < n; i++) { auto &ty = TYPES[alpha[q[i]].first]; t.def.fields.push_back(F("_FLD" + S(i + 1), ty.t, ty.len, ty.prec, alpha[q[i]].second)); }
			for (int k = 0; k < 3; k++) { std::vector<V> row; for (auto &fd : t.def.fields) row.push_back(some(fd, k * 5 + row.size() + 1, bl)); t.rows.push_back(row); }
			t.def.blob = bl.d;
			r.state(id);
			export_all(r, fm[fi], ts, {t.live()});
		});
	}
}

// ---------------------------------------------------------------- T02: live records, each once, in table order
Tab simple(const std::string &name, unsigned n, unsigned removed, int extra = 0)
{
	Tab t;
	t.def.name = name;
	t.def.fields = {F("_CODE", "N", 5, 0), F("_DESCRIPTION", "NVC", 4, 0, true)};
	if (extra) t.def.fields.push_back(F("_PAD", "B", extra));
	Blob bl;
	for (unsigned i = 0; i < n; i++) {
		std::vector<V> row;
		if (!(removed >> i & 1)) { row = {cli::num(S(i + 1), 5, 0), i % 4 == 3 ? null_() : cli::nvc(std::string(1 + i % 4, 'a' + i % 26), 4)}; if (extra) row.push_back(bin(pattern(i, 0, extra))); }
		t.rows.push_back(row);
	}
	return t;
}
Bytes key(uint32_t n, uint32_t len = 8) { Bytes k(len, '\0'); for (uint32_t i = 0; i < 4 && i < len; i++) k[i] = (char)(n >> (24 - 8 * i)); return k; }
IndexDef index_over(const std::vector<int> &order, bool primary, const std::string &name = "PK", uint32_t keylen = 8)
{
	IndexDef x; x.name = name; x.primary = primary; x.keylen = keylen; x.fields = {{"_CODE", (int)keylen}};
	uint32_t k = 0x100;
	for (int o : order) { x.entries.push_back({key(k, keylen), (uint32_t)o}); k += 3 + (k % 5) * 300; }
	return x;
}

void t02(mc::Run &r)
{
	auto &fm = formats();
	int maxn = r.thorough ? 7 : 5;
	// every pattern of removed records, without an index, with a secondary one, with a primary one
	for (int fi = 0; fi < 4; fi++) for (int n = 0; n <= maxn; n++) for (unsigned rem = 0; rem < (1u << n); rem++) for (int ix = 0; ix < 3; ix++) {
		std::string id = std::string("t02/removed/") + fm[fi].name + "/n" + S(n) + "/" + S(rem) + "/ix" + S(ix);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", n, rem)};
			std::vector<int> l = ts[0].live(), rev(l.rbegin(), l.rend());
			if (ix) ts[0].def.indexes.push_back(index_over(rev, ix == 2));
			r.state(id);
			export_all(r, fm[fi], ts, {ix == 2 ? rev : l});
			r.sample(id);
		});
	}
	// whatever the mark of a removed record is
	for (int fi = 0; fi < 4; fi++) for (int mark : {2, 4, 0x10, 0x7f, 0x80, 0xfe, 0xff}) for (unsigned rem = 1; rem < 8; rem++) for (int ix = 0; ix < 2; ix++) {
		std::string id = std::string("t02/mark/") + fm[fi].name + "/" + S(mark) + "/" + S((int)rem) + "/ix" + S(ix);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", 3, rem)};
			ts[0].mark = mark;
			std::vector<int> l = ts[0].live(), rev(l.rbegin(), l.rend());
			if (ix) ts[0].def.indexes.push_back(index_over(rev, true));
			r.state(id);
			export_all(r, fm[fi], ts, {ix ? rev : l});
		});
	}
	// record lengths and counts around page boundaries
	std::vector<int> pads = {1, 30, 500, 1015, 2000, 4083, 4084, 4085, 4086, 5000, 9000};
	for (int fi : {0, 1, 2, 7}) for (int pad : pads) for (int n : {1, 2, 3, 5, 9, 33}) for (unsigned pat = 0; pat < 3; pat++) {
		if (!r.thorough && n == 33 && pad > 1015) continue;
		std::string id = std::string("t02/pages/") + fm[fi].name + "/pad" + S(pad) + "/n" + S(n) + "/pat" + S(pat);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", n, pat == 0 ? 0 : pat == 1 ? 0x55555555u : 0x1u, pad)};
			if (n == 33 && pat == 1) ts[0].rows.back().clear();
			std::vector<int> l = ts[0].live();
			r.state(id);
			export_all(r, fm[fi], ts, {l});
		});
	}
	// many records: several allocation pages
	for (int fi : {0, 1}) for (int n : {400, 2100}) {
		if (n > 400 && !r.thorough) continue;
		std::string id = std::string("t02/many/") + fm[fi].name + "/n" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", n, 0)};
			for (int i = 0; i < n; i += 13) ts[0].rows[i].clear();
			for (int i = 100; i < 160; i++) ts[0].rows[i].clear();
			export_all(r, fm[fi], ts, {ts[0].live()});
		});
	}
	// several tables, each of every kind
	for (int fi = 0; fi < 3; fi++) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) {
		std::string id = std::string("t02/tables/") + fm[fi].name + "/" + S(a) + S(b) + S(c);
		r.scenario(id, [&] {
			std::vector<Tab> ts; std::vector<std::vector<int>> ord;
			int k[3] = {a, b, c};
			for (int i = 0; i < 3; i++) {
				Tab t = simple("_TAB" + S(i), k[i] == 3 ? 0 : 3 + i, k[i] == 3 ? 0 : 2);
				std::vector<int> l = t.live(), rev(l.rbegin(), l.rend());
				if (k[i] == 1) t.def.indexes.push_back(index_over(rev, false));
				if (k[i] == 2) t.def.indexes.push_back(index_over(rev, true));
				ord.push_back(k[i] == 2 ? rev : l);
				ts.push_back(t);
			}
			r.state(id);
			export_all(r, fm[fi], ts, ord);
		});
	}
}

// ---------------------------------------------------------------- T05: primary index order
void t05(mc::Run &r)
{
	auto &fm = formats();
	auto one = [&](const std::string &what, const Fmt &f, const std::vector<int> &perm, int removed, int before, int after, size_t leaf, size_t branch, bool scatter, uint32_t keylen, int lb = 0) {
		std::string id = std::string("t05/") + what + "/" + f.name + "/n" + S(perm.size()) + "/rm" + S(removed) + "/ix" + S(before) + "." + S(after) + "/leaf" + S(leaf) + "/br" + S(branch) + (scatter ? "/scatter" : "") + "/k" + S(keylen) + (lb ? "/lb" + S(lb) : "") + "/";
		if (perm.size() <= 8) for (int x : perm) id += S(x); else id += "perm";
		r.scenario(id, [&] {
			int n = perm.size() + removed;
			std::vector<Tab> ts = {simple("_REFERENCE5", n, 0)};
			Tab &t = ts[0];
			// remove `removed` records spread over the table
			std::vector<int> l;
			for (int i = 0, k = 0; i < n; i++) { if (k < removed && i % 2 == 0 && i / 2 < removed) { t.rows[i].clear(); k++; } }
			l = t.live();
			while (l.size() > perm.size()) { t.rows[l.back()].clear(); l.pop_back(); }
			std::vector<int> ord, other(l);
			for (int x : perm) ord.push_back(l[x]);
			for (int i = 0; i < before; i++) { IndexDef x = index_over(other, false, "SK" + S(i), 12); x.per_leaf = 2; x.per_branch = 2; t.def.indexes.push_back(x); }
			IndexDef p = index_over(ord, true, "PK", keylen);
			p.per_leaf = leaf; p.per_branch = branch; p.scatter = scatter;
			static const std::vector<unsigned> LB[] = {{}, {4, 5, 6}, {6, 4, 5}, {5}, {8, 4}};
			p.leafbytes = LB[lb];
			t.def.indexes.push_back(p);
			for (int i = 0; i < after; i++) t.def.indexes.push_back(index_over(other, false, "TK" + S(i), 12));
			r.state(id);
			export_all(r, f, ts, {ord});
			r.sample(id);
		});
	};
	// all orders of few records, every leaf size
	for (int fi : {0, 1, 2, 3}) for (int n = 0; n <= (r.thorough ? 5 : 4); n++) {
		std::vector<int> p(n);
		for (int i = 0; i < n; i++) p[i] = i;
		do {
			for (int leaf = 1; leaf <= std::max(1, n); leaf++) for (int rm = 0; rm < 2; rm++) one("perm", fm[fi], p, rm, 0, 0, leaf, 100, false, 8);
		} while (std::next_permutation(p.begin(), p.end()));
	}
	// tree shapes
	for (int fi : {0, 1, 2, 7}) for (int n : {1, 2, 3, 4, 5, 7, 9, 16}) for (int leaf : {1, 2, 3}) for (int br : {2, 3, 4}) for (int sc = 0; sc < 2; sc++) {
		std::vector<int> p(n);
		for (int i = 0; i < n; i++) p[i] = (i * 5 + 3) % n;
		std::set<int> u(p.begin(), p.end());
		if ((int)u.size() != n) { for (int i = 0; i < n; i++) p[i] = n - 1 - i; }
		one("shape", fm[fi], p, 2, 0, 0, leaf, br, sc, 8);
	}
	// leaves with different entry sizes
	for (int fi : {0, 1, 2}) for (int n : {2, 3, 5, 8}) for (int leaf : {1, 2, 3}) for (int lb = 1; lb <= 4; lb++) for (uint32_t k : {8u, 40u}) for (int sc = 0; sc < 2; sc++) {
		std::vector<int> p(n);
		for (int i = 0; i < n; i++) p[i] = n - 1 - i;
		one("entry", fm[fi], p, 1, 0, 0, leaf, 4, sc, k, lb);
	}
	// position of the primary index among the others, key lengths
	for (int fi : {0, 1, 2}) for (int b = 0; b < 4; b++) for (int a = 0; a < 3; a++) for (uint32_t k : {4u, 9u, 16u, 33u, 64u, 200u})
		one("position", fm[fi], {2, 0, 3, 1}, 1, b, a, 2, 2, b % 2, k);
	// index files around and beyond 2 and 4 GiB
	for (int fi = 0; fi < (int)fm.size(); fi++) for (int k = 0; k < 4; k++) for (int n : {1, 5}) {
		uint64_t ps = base_of(fm[fi]).ps, want[] = {(1ull << 31) - 3 * ps, (1ull << 32) - 8 * ps, (1ull << 32) - 2 * ps, 5ull << 30};
		bool b838 = base_of(fm[fi]).n838;
		if (!b838 && k) continue; // 1018 allocation pages at most
		if (b838 && want[k] / ps / (ps / 4) > ps / 4 - 8) continue;
		std::string id = std::string("t05/long/") + fm[fi].name + "/" + S(fi) + "/at" + S(k) + "/n" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", n + 1, 1)};
			std::vector<int> l = ts[0].live(), rev(l.rbegin(), l.rend());
			ts[0].def.indexes = {index_over(l, false, "SK"), index_over(rev, true, "PK")};
			for (auto &x : ts[0].def.indexes) { x.per_leaf = 2; x.per_branch = 2; }
			ts[0].def.index_shift = (uint32_t)(want[k] / ps);
			r.state(id);
			export_all(r, fm[fi], ts, {rev});
		});
	}
	// full pages
	for (int fi : {0, 1, 2}) for (int n : {100, 300}) for (uint32_t k : {8u, 40u}) for (int sc = 0; sc < 2; sc++) {
		if (n == 300 && !r.thorough && k == 40) continue;
		std::vector<int> p(n);
		for (int i = 0; i < n; i++) p[i] = (i * 37 + 11) % n;
		one("full", fm[fi], p, 3, 1, 0, 40, 5, sc, k);
	}
}

// ---------------------------------------------------------------- T03: values
void values(mc::Run &r, const std::string &id, const FieldDef &fd0, const std::vector<V> &vals, bool lock = false, const std::string &tname = "_REFERENCE3", const Bytes &blob = Bytes())
{
	for (int null = 0; null < 2; null++) for (int fi : {0, 1}) {
		if (null && fd0.type == "RV") continue;
		r.scenario(id + (null ? "/null" : "/notnull") + "/" + formats()[fi].name, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = tname; t.def.recordlock = lock;
			FieldDef fd = fd0; fd.null = null;
			t.def.fields = {F("_FIRST", "N", 3), fd, F("_LAST", "L", 1)};
			t.def.blob = blob;
			int i = 0;
			for (auto &v : vals) { t.rows.push_back({cli::num(S(i % 1000), 3, 0), v, text(Bytes(1, i % 2), i % 2 ? "true" : "false")}); i++; }
			if (null) t.rows.push_back({cli::num("7", 3, 0), null_(), text(Bytes(1, 1), "true")});
			r.state(id + S(null));
			r.note("values", vals.size());
			export_all(r, formats()[fi], ts, {t.live()});
		});
	}
	r.sample(id);
}

std::string dec(long long v, int w) { std::string s = S(v); while ((int)s.size() < w) s = "0" + s; return s; }

void t03(mc::Run &r)
{
	// numbers: every value of short fields, boundary digits of long ones, every precision
	for (int len = 1; len <= (r.thorough ? 3 : 2); len++) for (int prec = 0; prec <= len; prec++) {
		std::vector<V> v;
		int lim = 1; for (int i = 0; i < len; i++) lim *= 10;
		for (int x = 0; x < lim; x++) { v.push_back(cli::num(dec(x, len), len, prec)); if (x) v.push_back(cli::num(dec(x, len), len, prec, true)); }
		values(r, "t03/N/" + S(len) + "." + S(prec), F("_N", "N", len, prec), v);
	}
	std::vector<int> lens = {3, 4, 5, 8, 9, 10, 15, 16, 17, 19, 20, 31, 32, 38};
	for (int len : lens) for (int prec = 0; prec <= len; prec++) {
		if (!r.thorough && prec > 4 && prec < len - 2) continue;
		std::vector<V> v;
		for (int neg = 0; neg < 2; neg++) {
			for (int pos = 0; pos < len; pos++) for (char d : {'1', '5', '9'}) { // one non-zero digit
				std::string s(len, '0'); s[pos] = d; v.push_back(cli::num(s, len, prec, neg));
				std::string z(len, '9'); z[pos] = '0'; v.push_back(cli::num(z, len, prec, neg));
			}
			std::string s; for (int i = 0; i < len; i++) s += (char)('0' + (i + 1) % 10);
			v.push_back(cli::num(s, len, prec, neg));
			v.push_back(cli::num(std::string(len, '9'), len, prec, neg));
		}
		v.push_back(cli::num(std::string(len, '0'), len, prec));
		values(r, "t03/N/" + S(len) + "." + S(prec), F("_N", "N", len, prec), v);
	}
	// dates: every field of the date at its limits
	{
		std::vector<V> v;
		for (const char *y : {"0001", "0009", "0010", "0999", "1000", "1899", "1970", "1999", "2000", "2019", "2099", "3999", "9999"}) for (const char *md : {"0101", "0131", "0228", "0229", "0930", "1001", "1109", "1231"})
			for (const char *t : {"000000", "000001", "000100", "010000", "095959", "100000", "235959"}) v.push_back(date(std::string(y) + md + t));
		values(r, "t03/DT", F("_DT", "DT"), v);
	}
	// logical
	{ std::vector<V> v = {text(Bytes(1, 0), "false"), text(Bytes(1, 1), "true")}; values(r, "t03/L", F("_L", "L", 1), v); }
	// strings
	std::vector<std::string> strs = {"", "a", " ", "  ", "a ", " a", "a b", "&", "<", ">", "'", "\"", "&&", "<<>>", "&amp;", "&lt;b&gt;", "]]>", "<a b='c'>", "\"q\"", "a&b<c>d'e\"f&g<h>i'j\"", "Привет", "Ёё", "ßüé", "中文", "😀", "a😀b", "€", "\t", "x\ty", "\n", "a\nb",
		"null", "{NULL}", "0", "-1", "true", "ЯЯЯЯЯЯЯЯ", "&#65;", "%s%d", "\\n", "{1,2}", "--", "<!--", "?>"};
	for (int len : {1, 2, 5, 10, 50, 150, 1024}) {
		if (len == 1024 && !r.thorough) continue;
		std::vector<V> a, b;
		for (auto &s : strs) { int n = utf16(s).size() / 2; if (n > len) continue; a.push_back(cli::nvc(s, len)); b.push_back(cli::nc(s, len)); }
		a.push_back(cli::nvc(std::string(len, 'z'), len)); b.push_back(cli::nc(std::string(len, 'z'), len));
		a.push_back(cli::nvc(std::string(len, ' '), len));
		{ std::string s; for (int i = 0; i < len; i++) s += "Ж"; a.push_back(cli::nvc(s, len)); b.push_back(cli::nc(s, len)); }
		{ std::string s; for (int i = 0; i < len; i++) s += "&"; a.push_back(cli::nvc(s, len)); b.push_back(cli::nc(s, len)); }
		// characters left behind after the end of a shorter value are not part of it
		{ Bytes u = utf16("ab"); if (len >= 5) a.push_back(text(le16(2) + u + utf16(std::string(len - 2, 'Q')), "ab")); a.push_back(text(le16(0) + utf16(std::string(len, 'Q')), "")); }
		values(r, "t03/NVC/" + S(len), F("_S", "NVC", len), a);
		values(r, "t03/NC/" + S(len), F("_S", "NC", len), b);
	}
	// every character of several Unicode ranges
	for (uint32_t from = 0x20; from < 0x10000; from += 0x400) {
		if (!r.thorough && from > 0x2400 && from < 0xf400 && (from / 0x400) % 8) continue;
		std::vector<V> v;
		for (uint32_t b = from; b < from + 0x400; b += 32) {
			Bytes u; std::string w;
			for (uint32_t c = b; c < b + 32; c++) {
				if (c == 0x7f || (c >= 0xd800 && c < 0xe000) || c >= 0xfffe) continue;
				u += le16(c);
				if (c < 0x80) w += (char)c; else if (c < 0x800) { w += (char)(0xc0 | c >> 6); w += (char)(0x80 | (c & 63)); } else { w += (char)(0xe0 | c >> 12); w += (char)(0x80 | (c >> 6 & 63)); w += (char)(0x80 | (c & 63)); }
			}
			int n = u.size() / 2;
			while (u.size() < 64) u += le16(0x20);
			v.push_back(text(le16(n) + u, w));
		}
		values(r, "t03/unicode/" + S(from), F("_S", "NVC", 32), v);
	}
	// binary: every byte value, every length up to 40; identifiers
	for (int len : {1, 2, 3, 8, 15, 16, 17, 20, 32, 40}) {
		std::vector<V> v;
		for (int b = 0; b < 256; b++) { Bytes x(len, (char)b); for (int k = 0; k < len; k++) x[k] = (char)(b + k * 17); v.push_back(bin(x)); }
		v.push_back(bin(Bytes(len, '\0')));
		v.push_back(bin(Bytes(len, '\xff')));
		values(r, "t03/B/" + S(len), F("_B", "B", len), v);
		std::vector<V> w;
		for (int n = 0; n <= len; n++) { Bytes x = pattern(n, 0, n); w.push_back(text(le16(n) + x + Bytes(len - n, (char)0x99), hexs(x))); Bytes z(n, '\0'); w.push_back(text(le16(n) + z + Bytes(len - n, (char)0x99), hexs(z))); }
		values(r, "t03/VB/" + S(len), F("_VB", "VB", len), w);
	}
	// long fields: lengths around multiples of 256 and around page sizes
	for (int len : {255, 256, 257, 511, 600, 1024, 3000}) {
		std::vector<V> v, w, x, y;
		for (int n : {0, 1, 254, 255, 256, 257, 258, 510, 511, 512, 513, 600, 1023, 1024, 2047, 2048, 2999, 3000}) {
			if (n > len) continue;
			Bytes b = pattern(n, 0, n);
			w.push_back(text(le16(n) + b + Bytes(len - n, (char)0x99), hexs(b)));
			std::string s;
			for (int i = 0; i < n; i++) { int k = (n * 13 + i * 7) % 40; if (k < 26) s += (char)('a' + k); else { uint32_t c = 0x430 + k - 26; s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } }
			x.push_back(cli::nvc(s, len));
			if (n == len) { v.push_back(bin(b)); v.push_back(bin(Bytes(n, '\0'))); y.push_back(cli::nc(s, len)); }
			else y.push_back(cli::nc(s + (n ? "." : ""), len));
		}
		if (v.empty()) v.push_back(bin(pattern(3, 0, len)));
		values(r, "t03/B/" + S(len), F("_B", "B", len), v);
		values(r, "t03/VB/" + S(len), F("_VB", "VB", len), w);
		values(r, "t03/NVC/long" + S(len), F("_S", "NVC", len), x);
		if (len <= 1024) values(r, "t03/NC/long" + S(len), F("_S", "NC", len), y);
	}
	for (const char *name : {"_IDRREF", "_FLD12RREF", "ID", "_OWNERID", "DATAFILEID"}) {
		std::vector<V> v;
		for (int b = 0; b < 16; b++) for (int x : {0x01, 0xab, 0xf0}) { Bytes g(16, '\0'); g[b] = (char)x; v.push_back(text(g, guid1c(g))); }
		Bytes g = pattern(5, 0, 16); v.push_back(text(g, guid1c(g)));
		values(r, std::string("t03/GUID/") + name, F(name, "B", 16), v);
	}
	// row version
	{
		std::vector<V> v;
		for (int k = 0; k < 4; k++) for (uint32_t x : {0u, 1u, 255u, 256u, 65536u, 0x7fffffffu}) { Bytes b; std::string w; for (int i = 0; i < 4; i++) { uint32_t y = i == k ? x : i + 2; b += le32(y); w += (i ? ":" : "") + S(y); } v.push_back(text(b, w)); }
		values(r, "t03/RV", F("_VERSION", "RV"), v);
		values(r, "t03/RV-lock", F("_VERSION", "RV"), v, true);
	}
	// hidden version beside every short type
	for (auto &ty : TYPES) { Blob bl; std::vector<V> v; FieldDef fd = F("_X", ty.t, ty.len, ty.prec); for (int i = 0; i < 5; i++) v.push_back(some(fd, i, bl)); values(r, std::string("t03/hidden/") + ty.t + S(ty.len), fd, v, true, "_REFERENCE3", bl.d); }
}

// ---------------------------------------------------------------- T04: long values in the blob file
void t04(mc::Run &r)
{
	auto &fm = formats();
	std::vector<int> L = {0, 1, 2, 3, 124, 125, 126, 248, 249, 250, 251, 252, 499, 500, 501, 502, 750, 751, 1000, 4096, 10000};
	struct T { const char *t; } ty[] = {{"NT"}, {"T"}, {"I"}};
	auto val = [&](const std::string &t, Blob &bl, int n, uint32_t tag) -> V {
		if (t == "I") return image(bl, pattern(tag, 0, n));
		std::string s;
		if (t == "T") { for (int i = 0; i < n; i++) s += (char)(32 + (tag * 31 + i * 7) % 95); return txt(bl, s); }
		for (int i = 0; i < n / 2; i++) { int k = (tag * 13 + i) % 40; if (k < 26) s += (char)('a' + k); else { uint32_t c = 0x430 + k - 26; s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } }
		return memo(bl, s);
	};
	// one value of every length x chain direction x bytes per chunk x layout
	for (int fi : {0, 1, 2, 3}) for (auto &t : ty) for (int mode = 0; mode < 2; mode++) for (uint32_t fill : {250u, 249u, 100u, 2u}) for (int n : L) {
		if (!r.thorough && fi > 1 && n > 1000) continue;
		if (fill == 2 && n > 600) continue;
		std::string id = std::string("t04/one/") + fm[fi].name + "/" + t.t + "/m" + S(mode) + "/fill" + S(fill) + "/len" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &tb = ts[0];
			tb.def.name = "_REFERENCE9";
			tb.def.fields = {F("_X", t.t), F("_N", "N", 3)};
			Blob bl; bl.mode = mode; bl.fill = fill;
			tb.rows = {{val(t.t, bl, n, 1), cli::num("1", 3, 0)}, {val(t.t, bl, 7, 2), cli::num("2", 3, 0)}, {val(t.t, bl, n, 3), cli::num("3", 3, 0)}};
			tb.def.blob = bl.d;
			r.state(id);
			export_all(r, fm[fi], ts, {tb.live()});
			r.sample(id);
		});
	}
	// several values whose chunks interleave in every way (2 values x up to 3 chunks: all orders of the chunks)
	for (int fi : {0, 1}) for (int c1 = 1; c1 <= 3; c1++) for (int c2 = 1; c2 <= (r.thorough ? 3 : 2); c2++) {
		std::vector<int> pos(c1 + c2);
		for (size_t i = 0; i < pos.size(); i++) pos[i] = i;
		do {
			std::string id = std::string("t04/interleave/") + fm[fi].name + "/" + S(c1) + "." + S(c2) + "/";
			for (int x : pos) id += S(x);
			r.scenario(id, [&] {
				Bytes a = pattern(1, 0, c1 * 250 - 3), b = pattern(2, 0, c2 * 250 - 100);
				Bytes blob(256 * (1 + c1 + c2), '\0');
				put32(blob, 0, 0);
				auto chunk = [&](int at, int next, const Bytes &d) { put32(blob, 256 * (1 + at), next < 0 ? 0 : 1 + next); put16(blob, 256 * (1 + at) + 4, d.size()); memcpy(&blob[256 * (1 + at) + 6], d.data(), d.size()); };
				for (int i = 0; i < c1; i++) chunk(pos[i], i + 1 < c1 ? pos[i + 1] : -1, a.substr(i * 250, 250));
				for (int i = 0; i < c2; i++) chunk(pos[c1 + i], i + 1 < c2 ? pos[c1 + i + 1] : -1, b.substr(i * 250, 250));
				std::vector<Tab> ts(1);
				Tab &tb = ts[0];
				tb.def.name = "_REFERENCE9";
				tb.def.fields = {F("_A", "I"), F("_B", "I", 0, 0, true)};
				V va, vb; va.kind = vb.kind = BASE64;
				va.raw = blobref(1 + pos[0], a.size()); va.want = a; vb.raw = blobref(1 + pos[c1], b.size()); vb.want = b;
				tb.rows = {{va, vb}, {vb, va}, {va, null_()}};
				tb.def.blob = blob;
				r.state(id);
				export_all(r, fm[fi], ts, {tb.live()});
			});
		} while (std::next_permutation(pos.begin(), pos.end()));
	}
	// blob files larger than an allocation page needs several pages
	for (int fi : {0, 1, 2}) for (int n : {40000, 300000}) for (int mode = 0; mode < 2; mode++) for (auto &t : ty) {
		if (n > 40000 && !r.thorough && fi == 2) continue;
		std::string id = std::string("t04/large/") + fm[fi].name + "/" + t.t + "/m" + S(mode) + "/len" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &tb = ts[0];
			tb.def.name = "_REFERENCE9";
			tb.def.fields = {F("_X", t.t)};
			Blob bl; bl.mode = mode;
			tb.rows = {{val(t.t, bl, n, 1)}, {val(t.t, bl, 100, 2)}};
			tb.def.blob = bl.d;
			export_all(r, fm[fi], ts, {tb.live()});
		});
	}
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "T01") t01(r);
	else if (r.prop == "T02") t02(r);
	else if (r.prop == "T03") t03(r);
	else if (r.prop == "T04") t04(r);
	else if (r.prop == "T05") t05(r);
	else { fprintf(stderr, "unknown property\n"); _exit(77); }
}
