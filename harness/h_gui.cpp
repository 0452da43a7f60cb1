// The data behind the windows of gtool1cd: table contents, lists, trees, devices, the list of opened bases.
#include <QtCore>
#include <QFont>
#include "cli.hpp"
#include "v8c.hpp"
#include "guit.hpp"
#include "models/table_data_model.h"
#include "models/tables_list_model.h"
#include "models/fields_list_model.h"
#include "models/vendor_configurations_table_model.h"
#include "models/skobka_tree_model.h"
#include "models/v8catalog_tree_model.h"
#include "models/stream_device.h"
#include "cache.h"
#include "conf.hpp"
using namespace cli;
using namespace img;

namespace {

void quiet(QtMsgType, const QMessageLogContext &, const QString &) {}

struct TT { const char *t; int len, prec; };
const TT TYPES[] = {{"B", 5, 0}, {"L", 1, 0}, {"N", 4, 1}, {"NC", 3, 0}, {"NVC", 4, 0}, {"RV", 0, 0}, {"NT", 0, 0}, {"I", 0, 0}, {"DT", 0, 0}, {"VB", 6, 0}, {"N", 5, 0}, {"T", 0, 0}, {"N", 10, 3}, {"B", 16, 0}};
const int NTYPES = sizeof TYPES / sizeof *TYPES;

V some(const FieldDef &f, uint32_t tag, Blob &bl)
{
	if (f.null && tag % 3 == 1) return null_();
	Bytes p = pattern(tag * 131 + f.name.size(), 0, 64);
	if (f.type == "B") return bin(p.substr(0, f.len));
	if (f.type == "VB") { uint32_t n = tag % (f.len + 1); Bytes v = p.substr(0, n); return text(le16(n) + v + Bytes(f.len - n, (char)0x77), hexs(v)); }
	if (f.type == "L") return text(Bytes(1, tag % 2), tag % 2 ? "true" : "false");
	if (f.type == "N") { std::string d; for (int i = 0; i < f.len; i++) d += (char)('0' + (tag * 7 + i * 3 + 1) % 10); return cli::num(d, f.len, f.prec, tag % 2); }
	if (f.type == "NC" || f.type == "NVC") {
		std::string s = "Я" + S(tag) + "<&";
		std::string w; int n = 0;
		for (size_t i = 0; i < s.size() && n < f.len; n++) { int k = (s[i] & 0x80) ? 2 : 1; w += s.substr(i, k); i += k; }
		return f.type == "NC" ? cli::nc(w, f.len) : cli::nvc(w, f.len);
	}
	if (f.type == "RV") { Bytes b; std::string w; for (int i = 0; i < 4; i++) { uint32_t v = tag * 100 + i; b += le32(v); w += (i ? ":" : "") + S(v); } return text(b, w); }
	if (f.type == "DT") { char b[16]; snprintf(b, 16, "20%02u%02u%02u%02u%02u%02u", tag % 100, tag % 12 + 1, tag % 28 + 1, tag % 24, tag % 60, (tag * 7) % 60); return date(b); }
	if (f.type == "NT") return memo(bl, "Мемо " + S(tag) + std::string(tag % 5 * 60, 'x'));
	if (f.type == "T") return txt(bl, "text " + S(tag) + std::string(tag % 4 * 100, 'y'));
	if (f.type == "I") return image(bl, "Образ " + S(tag) + std::string(tag % 3 * 200, 'z'));
	abort();
}
bool blob_type(const std::string &t) { return t == "NT" || t == "T" || t == "I"; }

// what a cell shows
void same(const std::string &sig, const std::string &where, const std::string &got, const V &v, const FieldDef &f)
{
	if (v.kind == NUM) {
		if (canon(got).empty() || canon(got) != canon(v.want)) mc::fail(sig, where + ": number " + mc::quote(got) + " want " + canon(v.want));
		return;
	}
	std::string w = v.want;
	if (v.kind == DATE) w = w.substr(8, 2) + "." + w.substr(5, 2) + "." + w.substr(0, 4) + " " + w.substr(11);
	if (got != w) mc::fail(sig, where + ": " + mc::diff(got, w));
}
// a table with record locks has one more, hidden field unless it has a version field of its own
size_t columns(const TableDef &d)
{
	bool rv = false;
	for (auto &f : d.fields) rv |= f.type == "RV";
	return d.fields.size() + (d.recordlock && !rv);
}
bool is_ref(const FieldDef &f) { return f.type == "B" && f.len == 16 && f.name.size() >= 3 && f.name.compare(f.name.size() - 3, 3, "REF") == 0; }

void check_row(const TableDataModel &tm, int row, const Tab &t, int rec, const std::string &what)
{
	const QAbstractItemModel &m = tm;
	for (size_t c = 0; c < t.def.fields.size(); c++) {
		const FieldDef &f = t.def.fields[c];
		QModelIndex ix = m.index(row, (int)c);
		std::string where = what + ", row " + S(row) + ", field " + f.name + " (" + f.type + ")";
		QVariant font = m.data(ix, Qt::FontRole);
		bool italic = font.isValid() && font.value<QFont>().italic();
		bool removed = t.rows[rec].empty();
		if (italic != removed) mc::fail("table:removed-mark", where + (removed ? ": a removed record is not marked" : ": a live record is marked as removed"));
		std::string shown = Q(m.data(ix, Qt::DisplayRole).toString());
		QVariant al = m.data(ix, Qt::TextAlignmentRole);
		if ((f.type == "N") != (al.isValid() && (al.toInt() & Qt::AlignRight))) mc::fail("table:alignment", where + ": alignment");
		if (tm.isBlobValue(ix) != (f.type == "I") || tm.isClobValue(ix) != (f.type == "NT" || f.type == "T")) mc::fail("table:kind", where + ": kind of the value");
		if (removed) continue;
		const V &v = t.rows[rec][c];
		if (v.null) { mc::expect_eq("table:null", where + ": shown for NULL", shown, "{NULL}"); }
		else if (blob_type(f.type)) { mc::expect_eq("table:blob-mark", where + ": shown", shown, f.type == "NT" ? "{MEMO}" : f.type == "T" ? "{TEXT}" : "{IMAGE}"); }
		else if (is_ref(f)) mc::expect_eq("table:value:ref", where + ": identifier shown", shown, guid1c(v.raw));
		else same("table:value:" + f.type, where + ": shown", shown, v, f);
		std::string ed = Q(m.data(ix, Qt::EditRole).toString());
		if (v.null) { mc::expect_eq("table:null", where + ": full value of NULL", ed, ""); continue; }
		if (blob_type(f.type)) { if (!v.want.empty()) mc::expect_eq("table:full:" + f.type, where + ": full value", ed, v.want); }
		else if (is_ref(f)) mc::expect_eq("table:full:ref", where + ": identifier", ed, guid1c(v.raw));
		else same("table:full:" + f.type, where + ": full value", ed, v, f);
	}
}
void check_table(mc::Run &r, Table *t, const Tab &tab, const std::string &what, Index *ix = nullptr, const std::vector<int> &order = {})
{
	TableDataModel tm(t, ix);
	QAbstractItemModel &m = tm;
	r.step();
	size_t rows = ix ? order.size() : tab.rows.size();
	mc::expect_eq("table:rows", what + ": number of rows", m.rowCount(), rows);
	mc::expect_eq("table:columns", what + ": number of columns", m.columnCount(), columns(tab.def));
	for (size_t c = 0; c < tab.def.fields.size(); c++) mc::expect_eq("table:header", what + ": name of column " + S(c), Q(m.headerData((int)c, Qt::Horizontal, Qt::DisplayRole).toString()), tab.def.fields[c].name);
	for (size_t i = 0; i < rows; i++) { check_row(tm, (int)i, tab, ix ? order[i] : (int)i, what); r.step(); }
}

struct Opened {
	std::unique_ptr<T_1CD> b;
	std::string dir;
	Opened(mc::Run &r, const Fmt &f, std::vector<Tab> &ts)
	{
		dir = r.fresh_dir();
		make_base(f, ts, dir + "/b.1CD");
		b = open_base(dir + "/b.1CD", false);
		mc::expect(b->is_open(), "base:open", "the base does not open");
	}
	Table *operator[](const std::string &n) { for (int i = 0; i < b->get_numtables(); i++) if (b->get_table(i)->get_name() == n) return b->get_table(i); mc::fail("base:table", "no table " + n); return nullptr; }
};
Bytes key(uint32_t n, uint32_t len = 8) { Bytes k(len, '\0'); for (uint32_t i = 0; i < 4 && i < len; i++) k[i] = (char)(n >> (24 - 8 * i)); return k; }
IndexDef index_over(const std::vector<int> &order, bool primary, const std::string &name, const std::string &field = "_CODE")
{
	IndexDef x; x.name = name; x.primary = primary; x.keylen = 8; x.fields = {{field, 8}};
	uint32_t k = 0x100;
	for (int o : order) { x.entries.push_back({key(k), (uint32_t)o}); k += 3 + (k % 5) * 300; }
	return x;
}
Tab simple(const std::string &name, unsigned n, unsigned removed)
{
	Tab t;
	t.def.name = name;
	t.def.fields = {F("_CODE", "N", 5, 0), F("_DESCRIPTION", "NVC", 4, 0, true)};
	for (unsigned i = 0; i < n; i++) {
		std::vector<V> row;
		if (!(removed >> i & 1)) row = {cli::num(S(i + 1), 5, 0), i % 4 == 3 ? null_() : cli::nvc(std::string(1 + i % 4, 'a' + i % 26), 4)};
		t.rows.push_back(row);
	}
	return t;
}
// a value that is not itself compressed data
bool plain(const Bytes &d) { Bytes o; return !v8c::inflate_raw(d, o); }

// ---------------------------------------------------------------- G01: the contents of a table as shown
void g01(mc::Run &r)
{
	auto &fm = formats();
	auto one = [&](const std::vector<std::pair<int, bool>> &seq, int lock, const Fmt &f) {
		std::string id = std::string("g01/types/") + f.name + "/lock" + S(lock);
		int rv = 0;
		for (auto &x : seq) { id += std::string("/") + TYPES[x.first].t + S(TYPES[x.first].len) + (x.second ? "?" : ""); rv += !strcmp(TYPES[x.first].t, "RV"); }
		if (rv > 1) return;
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_REFERENCE7"; t.def.recordlock = lock;
			Blob bl;
			for (size_t i = 0; i < seq.size(); i++) { auto &ty = TYPES[seq[i].first]; t.def.fields.push_back(F(ty.len == 16 ? "_FLD" + S(i + 1) + "RREF" : "_FLD" + S(i + 1), ty.t, ty.len, ty.prec, seq[i].second)); }
			for (int k = 0; k < 5; k++) {
				std::vector<V> row;
				if (k != 2) for (auto &fd : t.def.fields) row.push_back(some(fd, k * 5 + row.size() + 1, bl));
				t.rows.push_back(row);
			}
			t.def.blob = bl.d;
			Opened o(r, f, ts);
			check_table(r, o["_REFERENCE7"], t, id);
		});
	};
	std::vector<std::pair<int, bool>> alpha;
	for (int i = 0; i < NTYPES; i++) for (int n = 0; n < 2; n++) { if (n && !strcmp(TYPES[i].t, "RV")) continue; alpha.push_back({i, n}); }
	for (int lock = 0; lock < 2; lock++) {
		for (auto &f : fm) for (auto &a : alpha) one({a}, lock, f);
		for (size_t a = 0; a < alpha.size(); a++) for (size_t b = 0; b < alpha.size(); b++) one({alpha[a], alpha[b]}, lock, fm[(a + b) % 3]);
		if (r.thorough) for (size_t a = 0; a < alpha.size(); a++) for (size_t b = 0; b < alpha.size(); b++) for (size_t c = 0; c < alpha.size(); c++) one({alpha[a], alpha[b], alpha[c]}, lock, fm[(a + b + c) % 3]);
	}
	// rows of a chosen index: every order of the live records, every pattern of removed ones
	int maxn = r.thorough ? 5 : 4;
	for (int fi = 0; fi < 3; fi++) for (int n = 0; n <= maxn; n++) for (unsigned rem = 0; rem < (1u << n); rem++) {
		std::vector<int> l;
		for (int i = 0; i < n; i++) if (!(rem >> i & 1)) l.push_back(i);
		do {
			std::string id = std::string("g01/index/") + fm[fi].name + "/n" + S(n) + "/" + S(rem) + "/";
			for (int x : l) id += S(x);
			r.scenario(id, [&] {
				std::vector<Tab> ts = {simple("_REFERENCE5", n, rem)};
				std::vector<int> rev(l.rbegin(), l.rend());
				ts[0].def.indexes = {index_over(l, true, "PK"), index_over(rev, false, "BYCODE")};
				Opened o(r, fm[fi], ts);
				Table *t = o["_REFERENCE5"];
				// the order in which the user looks at them does not matter
				for (int pass = 0; pass < 2; pass++) {
					check_table(r, t, ts[0], id + " without index");
					check_table(r, t, ts[0], id + " by PK", t->get_index("PK"), l);
					check_table(r, t, ts[0], id + " by BYCODE", t->get_index("BYCODE"), rev);
				}
			});
		} while (std::next_permutation(l.begin(), l.end()));
	}
	for (int fi = 0; fi < 3; fi++) for (size_t pl : {1, 2, 7, 50}) for (int n : {20, 200}) {
		std::string id = std::string("g01/tree/") + fm[fi].name + "/per" + S(pl) + "/n" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts = {simple("_REFERENCE5", n, 0x8421)};
			std::vector<int> l = ts[0].live(), mix;
			for (size_t i = 0; i < l.size(); i++) mix.push_back(l[i * 7919 % l.size()]);
			std::sort(mix.begin(), mix.end()); mix.erase(std::unique(mix.begin(), mix.end()), mix.end());
			std::reverse(mix.begin(), mix.end());
			ts[0].def.indexes = {index_over(mix, true, "PK")};
			ts[0].def.indexes[0].per_leaf = pl; ts[0].def.indexes[0].per_branch = 30; ts[0].def.indexes[0].scatter = true;
			Opened o(r, fm[fi], ts);
			check_table(r, o["_REFERENCE5"], ts[0], id, o["_REFERENCE5"]->get_index("PK"), mix);
		});
	}
	// long values: what is shown, saved and opened
	const char *KIND[] = {"I", "NT", "T"};
	for (int fi = 0; fi < 3; fi++) for (int kind = 0; kind < 3; kind++) for (int depth = 0; depth <= (r.thorough ? 5 : 3); depth++) for (size_t len : {1, 2, 3, 17, 249, 250, 251, 1000, 70000}) for (int null = 0; null < 2; null++) {
		std::string id = std::string("g01/blob/") + fm[fi].name + "/" + KIND[kind] + "/depth" + S(depth) + "/" + S(len) + "/null" + S(null);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_REFERENCE9";
			t.def.fields = {F("FILENAME", "NVC", 10), F("BINARYDATA", KIND[kind], 0, 0, null)};
			Blob bl;
			bl.mode = len % 2;
			std::string s;
			while (s.size() < len) s += "Значение " + S(s.size()) + "\r\n";
			s = kind == 2 ? std::string(len, 'a' + len % 20) : s; // one-byte text
			Bytes inner = kind == 1 ? utf16(s) : s, stored = inner, once = inner;
			for (int i = 0; i < depth; i++) { once = stored; stored = v8c::deflate_raw(stored); }
			V v; v.raw = blobref(bl.add(stored), stored.size()); v.want = s;
			V w; w.raw = blobref(bl.add("other"), 5); w.want = "";
			t.rows = {{cli::nvc("first", 10), v}, {cli::nvc("second", 10), null ? null_() : w}, {cli::nvc("third", 10), v}};
			t.def.blob = bl.d;
			std::vector<int> order[3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}};
			t.def.indexes = {index_over(order[1], true, "PK", "FILENAME"), index_over(order[2], false, "BYNAME", "FILENAME")};
			if (!plain(inner)) { r.trivial(); return; }
			Opened o(r, fm[fi], ts);
			Table *tb = o["_REFERENCE9"];
			TableDataModel m0(tb), m1(tb, tb->get_index("PK")), m2(tb, tb->get_index("BYNAME"));
			for (int pass = 0; pass < 6; pass++) for (int at : {0, 2, 1}) {
				int by = pass % 3, row = order[by][at];
				TableDataModel &tm = by == 0 ? m0 : by == 1 ? m1 : m2;
				QAbstractItemModel &m = tm;
				QModelIndex ix = m.index(at, 1);
				std::string where = id + (by ? " by index " + S(by) : std::string()) + ", record " + S(row);
				r.step();
				TStream *st = tm.getBlobStream(ix);
				if (row == 1) { if (null && st) mc::fail("blob:null", where + ": a stream for NULL"); continue; }
				if (depth <= 1) mc::expect_eq("table:full:blob", where + ": full value", Q(m.data(ix, Qt::EditRole).toString()), s);
				if (!st) mc::fail("blob:none", where + ": no stream");
				Bytes got(st->GetSize(), '\0');
				st->SetPosition(0);
				if (!got.empty()) st->ReadBuffer(&got[0], got.size());
				mc::expect_eq("blob:opened", where + ": opened contents", got, inner);
				delete st;
				std::string p = o.dir + "/saved";
				tm.dumpBlob(ix, QString::fromStdString(p));
				bool there;
				Bytes sv = mc::read_file(p, &there);
				if (!there) mc::fail("blob:saved", where + ": nothing saved");
				mc::expect_eq("blob:saved", where + ": saved contents", sv, depth ? once : stored);
				unlink(p.c_str());
			}
		});
	}
	// values that begin like packed data but are none: every pair of first bytes of an image, of first letters of a text
	for (int kind = 0; kind < 2; kind++) for (int a = kind ? 32 : 0; a < (kind ? 127 : 256); a += r.thorough || kind ? 1 : 3) {
		std::string id = "g01/lookalike/" + std::string(KIND[kind]) + "/" + S(a);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_REFERENCE9";
			t.def.fields = {F("FILENAME", "NVC", 10), F("BINARYDATA", KIND[kind])};
			Blob bl;
			std::vector<Bytes> st;
			for (int b = kind ? 32 : 0; b < (kind ? 127 : 256); b++) {
				std::string s = std::string(1, (char)a) + (char)b + (kind || b % 3 ? ", and the rest of it" : std::string("\0{\0\"\0#\0 and the rest", 20));
				st.push_back(kind ? utf16(s) : s);
				V v; v.raw = blobref(bl.add(st.back()), st.back().size()); v.want = s;
				t.rows.push_back({cli::nvc(S(b), 10), v});
			}
			t.def.blob = bl.d;
			Opened o(r, fm[a % 3], ts);
			TableDataModel tm(o["_REFERENCE9"]);
			QAbstractItemModel &m = tm;
			for (size_t i = 0; i < st.size(); i++) {
				QModelIndex ix = m.index((int)i, 1);
				std::string where = id + ", value " + mc::quote(t.rows[i][1].want);
				r.step();
				if (!plain(st[i])) continue;
				if (kind) mc::expect_eq("table:full:lookalike", where + ": full value", Q(m.data(ix, Qt::EditRole).toString()), t.rows[i][1].want);
				TStream *x = tm.getBlobStream(ix);
				if (!x) mc::fail("blob:none", where + ": no stream");
				Bytes got(x->GetSize(), '\0');
				x->SetPosition(0);
				if (!got.empty()) x->ReadBuffer(&got[0], got.size());
				mc::expect_eq("blob:lookalike", where + ": opened contents", got, st[i]);
				delete x;
			}
		});
	}
	// values that hold containers
	for (int fi = 0; fi < 3; fi++) for (int depth = 0; depth <= 2; depth++) for (int n = 1; n <= 3; n++) {
		std::string id = std::string("g01/catalog/") + fm[fi].name + "/depth" + S(depth) + "/files" + S(n);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.def.name = "_REFERENCE9";
			t.def.fields = {F("FILENAME", "NVC", 10), F("BINARYDATA", "I")};
			std::vector<v8c::File> fs;
			for (int i = 0; i < n; i++) fs.push_back({"file" + S(i), "{" + S(i) + std::string(i * 600, '7') + "}"});
			Bytes stored = v8c::build(fs);
			for (int i = 0; i < depth; i++) stored = v8c::deflate_raw(stored);
			Blob bl;
			V v; v.raw = blobref(bl.add(stored), stored.size());
			t.rows = {{cli::nvc("a", 10), v}};
			t.def.blob = bl.d;
			Opened o(r, fm[fi], ts);
			TableDataModel tm(o["_REFERENCE9"]);
			QAbstractItemModel &m = tm;
			QModelIndex ix = m.index(0, 1);
			if (depth <= 1) mc::expect_eq("blob:catalog-mark", id + ": full value", Q(m.data(ix, Qt::EditRole).toString()), "{catalog}");
			TStream *st = tm.getBlobStream(ix);
			if (!st) mc::fail("blob:none", id + ": no stream");
			Bytes got(st->GetSize(), '\0');
			st->SetPosition(0);
			st->ReadBuffer(&got[0], got.size());
			auto p = v8c::parse(got);
			if (p.files.size() != fs.size()) mc::fail("blob:catalog", id + ": " + S(p.files.size()) + " files");
			for (int i = 0; i < n; i++) if (p.files[i].name != fs[i].name || p.files[i].data != fs[i].data) mc::fail("blob:catalog", id + ": file " + S(i));
			r.step();
		});
	}
	// removed records keep leftovers; looking at them is harmless
	for (int fi = 0; fi < 3; fi++) for (auto &a : alpha) for (int mark : {1, 3, 0xff}) {
		std::string id = std::string("g01/removed/") + fm[fi].name + "/" + TYPES[a.first].t + S(TYPES[a.first].len) + (a.second ? "?" : "") + "/" + S(mark);
		r.scenario(id, [&] {
			std::vector<Tab> ts(1);
			Tab &t = ts[0];
			t.mark = mark;
			t.def.name = "_REFERENCE7";
			Blob bl;
			t.def.fields = {F("_A", TYPES[a.first].t, TYPES[a.first].len, TYPES[a.first].prec, a.second), F("_B", "N", 5)};
			for (int k = 0; k < 3; k++) { std::vector<V> row; if (k == 1) { t.rows.push_back({}); continue; } for (auto &fd : t.def.fields) row.push_back(some(fd, k * 5 + row.size() + 2, bl)); t.rows.push_back(row); }
			t.def.blob = bl.d;
			Opened o(r, fm[fi], ts);
			check_table(r, o["_REFERENCE7"], t, id);
			TableDataModel tm(o["_REFERENCE7"]);
			QAbstractItemModel &m = tm;
			for (int c = 0; c < 2; c++) { m.data(m.index(1, c), Qt::DisplayRole); m.data(m.index(1, c), Qt::EditRole); r.step(); }
			check_table(r, o["_REFERENCE7"], t, id);
		});
	}
}

// ---------------------------------------------------------------- G02: trees of bracket texts and containers
void g02(mc::Run &r)
{
	auto text_case = [&](const std::string &id, const std::vector<Tn> &top) {
		r.scenario(id, [&] {
			Tn root = list({list(top)});
			std::string s;
			write_tree(root.kids[0], s);
			auto t = parse_1Ctext(s, "");
			mc::expect(t != nullptr, "tree:parse", "the text is not parsed");
			SkobkaTreeModel sm(std::move(t));
			QAbstractItemModel &m = sm;
			check_sub(r, m, QModelIndex(), root, "", mc::quote(s, 300));
			// once more, from the end
			QModelIndex a = m.index(0, 0, QModelIndex());
			for (int i = (int)top.size() - 1; i >= 0; i--) if (m.index(i, 1, a).parent() != a || m.index(i, 0, a).row() != i) mc::fail("tree:parent", "row " + S(i));
			r.state(s);
		});
	};
	for (int n = 0; n <= (r.thorough ? 8 : 6); n++) {
		std::vector<std::vector<Tn>> fs;
		forests(n, fs);
		for (size_t i = 0; i < fs.size(); i++) text_case("g02/shape/" + S(n) + "/" + S(i), fs[i]);
	}
	// values
	std::vector<Tn> vals;
	for (const char *v : {"0", "-15", "1.5e3", "00000000-0000-0000-0000-000000000000", "12:0123456789abcdef0123456789abcdef", "\"\"", "\"a\"", "\"a\"\"b\"", "\"{}\"", "\"line\nnext\"", "\"line\r\nnext\"", "\"\n\"", "\"\r\n\"",
		"\"тридцать девять символов в кавычках..\"", "\"a\nb\nc\"", "\"Строка, с запятой\""}) vals.push_back(leaf(v));
	for (int n = 34; n <= 44; n++) { vals.push_back(leaf("\"" + std::string(n, 'q') + "\"")); std::string y; for (int i = 0; i < n; i++) y += "ы"; vals.push_back(leaf("\"" + y + "\"")); vals.push_back(leaf("\"" + y + "\nвторая\"")); vals.push_back(leaf("\"" + y + "\r\nвторая\"")); }
	for (int n : {0, 1, 2, 3, 4, 48, 1000, 20000}) for (const char *p : {"#base64:", "#data:"}) vals.push_back(bleaf(p, pattern(n, 0, n)));
	vals.push_back(bleaf("", "plain text of a binary value"));
	for (size_t i = 0; i < vals.size(); i++) {
		text_case("g02/value/" + S(i), {vals[i]});
		text_case("g02/value2/" + S(i), {leaf("1"), list({vals[i], vals[(i * 7 + 3) % vals.size()]}), vals[(i + 1) % vals.size()]});
	}
	// containers: every nesting of up to `maxn` files
	std::vector<v8c::Layout> ls(3);
	ls[1].data_page = 32; ls[1].order = 1; ls[2].order = 2; ls[2].head_page = 64; ls[2].scatter = true; ls[2].data_page = 100;
	std::vector<std::vector<std::vector<Tn>>> byn;
	int maxn = r.thorough ? 6 : 5;
	for (int n = 1; n <= maxn; n++) {
		std::vector<std::vector<Tn>> fs;
		forests(n, fs);
		for (size_t i = 0; i < fs.size(); i++) for (int how = 0; how < 3; how++) for (size_t li = 0; li < ls.size(); li++) {
			if (n >= 4 && (i + how) % ls.size() != li) continue;
			std::string id = "g02/catalog/" + S(n) + "/" + S(i) + "/how" + S(how) + "/layout" + S(li);
			int serial = 0;
			std::function<std::vector<Cn>(const std::vector<Tn> &)> conv = [&](const std::vector<Tn> &f) {
				std::vector<Cn> o;
				for (auto &t : f) {
					Cn c; int me = serial++;
					static const char *NM[] = {"root", "version", "Имя файла", "0f3a", "x.0", "info"};
					c.name = NM[me % 6]; if (me >= 6) c.name += S(me);
					if (t.list && !t.kids.empty()) { c.cat = true; c.kids = conv(t.kids); c.packed = false; }
					else { c.data = "{" + S(me) + "," + std::string(me * 150 + (t.list ? 900 : 0), 'd') + "}"; c.packed = how == 1 || (how == 2 && me % 2); }
					o.push_back(c);
				}
				return o;
			};
			std::vector<Cn> top = conv(fs[i]);
			r.scenario(id, [&] {
				Bytes d = pack(top, ls[li]);
				TMemoryStream st;
				st.Write(d.data(), d.size());
				st.Seek(0, soBeginning);
				V8Catalog *cat = new V8Catalog(&st, false, true);
				mc::expect(cat->isOpen() && cat->is_catalog(), "catalog:open", "the container is not recognised");
				{
					V8CatalogTreeModel cm(cat, QString::fromUtf8("Контейнер"));
					QAbstractItemModel &m = cm;
					for (int pass = 0; pass < 2; pass++) {
						mc::expect_eq("catalog:root", "rows at the top", m.rowCount(QModelIndex()), 1);
						QModelIndex a = m.index(0, 0, QModelIndex());
						mc::expect_eq("catalog:root", "name at the top", Q(m.data(a, Qt::DisplayRole).toString()), "Контейнер");
						if (m.parent(a).isValid()) mc::fail("catalog:parent", "the top row has a parent");
						check_cat(r, m, a, top, ls[li], id);
					}
				}
				delete cat;
				r.state(d);
			});
		}
	}
}

// ---------------------------------------------------------------- G03: the lists of tables, fields and supplier configurations
void size_ok(const std::string &what, const std::string &got, uint64_t n)
{
	static const char *U[] = {"B", "KiB", "MiB", "GiB", "TiB"};
	size_t sp = got.find(' ');
	if (sp == got.npos) mc::fail("list:size", what + ": size " + mc::quote(got));
	int u = -1;
	for (int i = 0; i < 5; i++) if (got.substr(sp + 1) == U[i]) u = i;
	if (u < 0 || got.find_first_not_of("0123456789.") != sp || canon(got.substr(0, sp)).empty()) mc::fail("list:size", what + ": size " + mc::quote(got) + " for " + S(n) + " bytes");
	double v = atof(got.c_str()), w = (double)n;
	for (int i = 0; i < u; i++) w /= 1024;
	if (v < w - 0.0062 || v > w + 0.0052) mc::fail("list:size", what + ": size " + mc::quote(got) + " for " + S(n) + " bytes");
	if ((u > 0 && v < 0.9) || v > 1001.5) mc::fail("list:size-unit", what + ": size " + mc::quote(got) + " for " + S(n) + " bytes is in an unsuitable unit");
}
void check_list(mc::Run &r, T_1CD &b, const std::vector<Tab> &ts, const std::vector<std::vector<uint64_t>> &sz, const std::string &what)
{
	TablesListModel lm(&b);
	QAbstractItemModel &m = lm;
	mc::expect_eq("list:rows", what + ": tables", m.rowCount(), ts.size());
	mc::expect_eq("list:columns", what + ": columns", m.columnCount(), 7);
	for (size_t i = 0; i < ts.size(); i++) {
		auto cell = [&](int c) { r.step(); return Q(m.data(m.index((int)i, c), Qt::DisplayRole).toString()); };
		std::string where = what + ", table " + S(i);
		mc::expect_eq("list:name", where + ": name", cell(0), ts[i].def.name);
		mc::expect_eq("list:record-length", where + ": record length", cell(1), S(ts[i].def.reclen()));
		mc::expect_eq("list:recordlock", where + ": record locks", cell(2), ts[i].def.recordlock ? "YES" : "NO");
		uint64_t sum = 0;
		for (int k = 0; k < 3; k++) { size_ok(where + ", column " + S(3 + k), cell(3 + k), sz[i][k]); sum += sz[i][k]; }
		size_ok(where + ", total", cell(6), sum);
		Table *t = b.get_table((int)i);
		FieldsListModel flm(t);
		QAbstractItemModel &fl = flm;
		auto &fs = ts[i].def.fields;
		mc::expect_eq("fields:rows", where + ": fields", fl.rowCount(), columns(ts[i].def));
		for (size_t k = 0; k < fs.size(); k++) {
			auto fc = [&](int c) { return Q(fl.data(fl.index((int)k, c), Qt::DisplayRole).toString()); };
			std::string w = where + ", field " + S(k);
			mc::expect_eq("fields:name", w + ": name", fc(0), fs[k].name);
			mc::expect_eq("fields:type", w + ": type", fc(1), type_name(fs[k].type));
			mc::expect_eq("fields:length", w + ": length", fc(2), S(fs[k].len));
			mc::expect_eq("fields:precision", w + ": precision", fc(3), S(fs[k].prec));
			mc::expect_eq("fields:null", w + ": NULL", fc(4), fs[k].null ? "NULL" : "NOT NULL");
			mc::expect_eq("fields:case", w + ": case", fc(5), fs[k].cs);
		}
	}
}
// an 8.3.8 base with page size 65536 whose table has objects of these lengths; the file is sparse and all pages of an object but a few are never written
void huge_base(const std::string &path, TableDef &t, const uint64_t len[3])
{
	const uint32_t ps = 65536;
	uint32_t next = 3;
	std::map<uint32_t, Bytes> pg;
	uint32_t blk[3] = {0, 0, 0};
	for (int k = 0; k < 3; k++) {
		if (!len[k]) continue;
		uint64_t np = (len[k] + ps - 1) / ps;
		blk[k] = next++;
		bool fat = np > ps / 4 - 6;
		Bytes h(ps, '\0');
		h[0] = 0x1c; h[1] = (char)0xfd;
		put16(h, 2, fat ? 1 : 0); put32(h, 4, 1); put32(h, 8, 2); put32(h, 12, 3); put64(h, 16, len[k]);
		uint32_t nt = fat ? (uint32_t)((np + ps / 4 - 1) / (ps / 4)) : 0;
		for (uint32_t i = 0; i < nt; i++) { put32(h, 24 + 4 * i, next + i); pg[next + i] = Bytes(ps, '\0'); }
		uint32_t tab = next;
		next += nt;
		for (uint64_t i = 0; i < np; i++) {
			if (fat) put32(pg[tab + (uint32_t)(i / (ps / 4))], 4 * (i % (ps / 4)), next++);
			else put32(h, 24 + 4 * i, next++);
		}
		pg[blk[k]] = h;
	}
	t.data_block = blk[0]; t.blob_block = blk[1]; t.index_block = blk[2];
	t.descr = t.describe(blk[0], blk[1], blk[2]);
	Base b(true, ps);
	while (b.pages.size() < 4) b.newpage();
	// small objects: the root, the free list
	std::vector<TableDef> ts = {t};
	Base root(true, ps);
	write_root(root, ts);
	root.write_free({});
	Bytes small = root.finish();
	// the pages of the root object lie after everything else
	uint32_t shift = next - 3, n = (uint32_t)(small.size() / ps);
	Bytes rh = small.substr(2 * ps, ps);
	for (uint32_t i = 0; 24 + 4 * i + 4 <= ps && get32(rh, 24 + 4 * i); i++) put32(rh, 24 + 4 * i, get32(rh, 24 + 4 * i) + shift);
	int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
	auto put = [&](uint32_t p, const Bytes &x) { if (pwrite(fd, x.data(), x.size(), (off_t)p * ps) != (ssize_t)x.size()) { fprintf(stderr, "harness: pwrite\n"); _exit(77); } };
	Bytes h0 = small.substr(0, ps);
	put32(h0, 12, next + n - 3);
	put(0, h0); put(1, small.substr(ps, ps)); put(2, rh);
	for (uint32_t i = 3; i < n; i++) put(i + shift, small.substr((size_t)i * ps, ps));
	for (auto &x : pg) put(x.first, x.second);
	if (ftruncate(fd, (off_t)(next + n - 3) * ps) != 0) { fprintf(stderr, "harness: ftruncate\n"); _exit(77); }
	close(fd);
}

void g03(mc::Run &r)
{
	auto &fm = formats();
	std::vector<size_t> counts = {0, 1, 2, 3, 60, 61, 64, 100, 101, 103, 1000, 3000};
	for (int fi = 0; fi < (int)fm.size(); fi++) for (size_t n : counts) for (int lock = 0; lock < 2; lock++) for (int shape = 0; shape < 4; shape++) {
		if (fi >= 3 && n > 103) continue;
		std::string id = std::string("g03/tables/") + fm[fi].name + "/n" + S(n) + "/lock" + S(lock) + "/shape" + S(shape);
		r.scenario(id, [&] {
			std::vector<Tab> ts;
			std::vector<std::vector<uint64_t>> sz;
			for (int k = 0; k < 1 + shape; k++) {
				Tab t;
				t.def.name = "_TABLE" + S(k);
				t.def.recordlock = (k + lock) % 2;
				for (int q = 0; q < 1 + (k * 5 + (int)n) % 7; q++) {
					auto &ty = TYPES[(q * 3 + k + shape) % NTYPES];
					if (!strcmp(ty.t, "RV") && q) continue;
					FieldDef f = F("_FLD" + S(q), ty.t, ty.len, ty.prec, q % 2 && strcmp(ty.t, "RV"));
					if (!strcmp(ty.t, "NC") || !strcmp(ty.t, "NVC")) f.cs = q % 2 ? "CI" : "CS";
					t.def.fields.push_back(f);
				}
				Blob bl;
				for (size_t i = 0; i < n; i++) { std::vector<V> row; for (auto &fd : t.def.fields) row.push_back(some(fd, (uint32_t)(i + k), bl)); t.rows.push_back(row); }
				if (bl.d.size() > 256) t.def.blob = bl.d;
				if (shape == 3) { IndexDef x; x.name = "PK"; x.primary = true; x.keylen = 8; x.fields = {{"_FLD0", 8}}; for (size_t i = 0; i < std::min<size_t>(n, 50); i++) x.entries.push_back({key((uint32_t)i + 1), (uint32_t)i}); t.def.indexes.push_back(x); }
				ts.push_back(t);
			}
			Opened o(r, fm[fi], ts);
			mc::Bytes img = mc::read_file(o.dir + "/b.1CD");
			Reader rd(img);
			for (auto &t : ts) { std::vector<uint64_t> v; for (uint32_t x : {t.def.data_block, t.def.blob_block, t.def.index_block}) v.push_back(x ? rd.obj_len(x) : 0); sz.push_back(v); }
			for (int pass = 0; pass < 2; pass++) check_list(r, *o.b, ts, sz, id);
		});
	}
	// configurations of suppliers: the list shown and what is saved from every row, in every order
	const char *A = "11111111-2222-3333-4444-555555555555", *B = "66666666-7777-8888-9999-aaaaaaaaaaaa", *C = "bbbbbbbb-cccc-dddd-eeee-ffffffffffff";
	std::vector<conf::Vendor> pool = {{std::string(A) + "." + B, "Trade", "Firm", "1.0", 106, 37, 2, 1, false, false}, {std::string(B) + "." + A, "Trade", "Other", "2.0", 216, 36, 1, 0, true, false},
		{std::string(C) + "." + B, "Учет", "Ооо", "3.0.1", 99, 15, 3, 2, false, false}, {std::string(C) + "." + A, "Lib", "", "", 106, 22, 1, 0, true, false}};
	for (uint32_t m = 0; m < 16; m++) for (int fi = 0; fi < 3; fi++) for (int noise = 0; noise < 2; noise++) {
		std::string id = "g03/suppliers/" + S(m) + "/" + fm[fi].name + "/" + S(noise);
		r.scenario(id, [&] {
			std::string d = r.fresh_dir();
			conf::Ib ib;
			std::map<std::vector<std::string>, Bytes> want;
			for (int i = 0; i < 4; i++) if (m >> i & 1) {
				Bytes cf = conf::vendor_cf(pool[i], i + 1);
				conf::Row x; x.name = pool[i].row; x.data = v8c::deflate_raw(v8c::deflate_raw(cf));
				(pool[i].save ? ib.save : ib.config).push_back(x);
				want[{pool[i].name, pool[i].supplier, pool[i].version}] = cf;
			}
			if (noise) for (const char *n : {"root", "version", "versions"}) { conf::Row x; x.name = n; x.data = v8c::deflate_raw("\xef\xbb\xbf{1}"); ib.config.push_back(x); ib.save.push_back(x); }
			ib.make(fm[fi], d + "/b.1CD");
			auto b = open_base(d + "/b.1CD", false);
			VendorConfigurationsTableModel vm(b.get());
			QAbstractItemModel &m2 = vm;
			for (int pass = 0; pass < 2; pass++) {
				mc::expect_eq("suppliers:rows", id + ": rows", m2.rowCount(), want.size());
				mc::expect_eq("suppliers:columns", id + ": columns", m2.columnCount(), 3);
				std::set<std::vector<std::string>> seen;
				for (int q = 0; q < (int)want.size(); q++) {
					int i = pass ? (int)want.size() - 1 - q : q;
					std::vector<std::string> k;
					for (int c = 0; c < 3; c++) k.push_back(Q(m2.data(m2.index(i, c), Qt::DisplayRole).toString()));
					std::string where = id + ", row " + S(i) + " (" + k[0] + ", " + k[1] + ", " + k[2] + ")";
					r.step();
					if (!want.count(k)) mc::fail("suppliers:list", where + " is none of the configurations");
					if (!seen.insert(k).second) mc::fail("suppliers:list", where + " is listed twice");
					std::string p = d + "/saved" + S(i) + ".cf";
					vm.saveSupplierConfigToFile(m2.index(i, q % 3), QString::fromStdString(p));
					bool there;
					Bytes got = mc::read_file(p, &there);
					if (!there) mc::fail("suppliers:save", where + ": nothing is saved");
					mc::expect_eq("suppliers:save", where + ": saved configuration", got, want[k]);
					unlink(p.c_str());
				}
			}
			r.state(id);
		});
	}
	// sizes around every change of unit, far beyond what fits into memory
	std::vector<uint64_t> big;
	for (int sh : {10, 20, 30}) for (int64_t d : {-1024, -1, 0, 1, 512}) big.push_back((1ull << sh) + d);
	for (uint64_t x : {0ull, 999ull, 1000ull, 1001ull, 1002ull, 1000ull << 10, 1001ull << 10, 1002ull << 10, 1000ull << 20, 1001ull << 20, 1002ull << 20, 1536ull << 20, (1ull << 31) - 65536, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, 3ull << 30, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 5ull << 30, 10ull << 30}) big.push_back(x);
	for (size_t a = 0; a < big.size(); a++) for (int w = 0; w < 3; w++) {
		if ((w == 0 && !big[a]) || (w == 2 && (!big[a] || big[a] % 65536))) continue; // an index file consists of whole pages
		std::string id = "g03/size/" + S(big[a]) + "/in" + S(w);
		r.scenario(id, [&] {
			Tab t;
			t.def.name = "_BIG";
			t.def.fields = {F("_A", "B", 63), F("_B", "I")};
			if (w == 2) { IndexDef x; x.name = "PK"; x.keylen = 8; x.fields = {{"_A", 8}}; t.def.indexes = {x}; }
			uint64_t rl = (uint64_t)t.def.reclen();
			uint64_t len[3] = {2 * rl, 512, 0};
			len[w] = big[a];
			if (w == 0) len[0] = (big[a] + rl - 1) / rl * rl;
			if (w == 2 && !len[2]) len[2] = 65536;
			std::string d = r.fresh_dir();
			huge_base(d + "/b.1CD", t.def, len);
			auto b = open_base(d + "/b.1CD", false);
			mc::expect(b->is_open() && b->get_numtables() == 1, "base:open", "the base does not open");
			check_list(r, *b, {t}, {{len[0], len[1], len[2]}}, id);
		});
	}
	// two large objects whose sum is larger still
	for (uint64_t x : {1ull << 30, (1ull << 31) - 65536, 3ull << 30}) for (uint64_t y : {1ull << 30, 1500ull << 20, 3ull << 30}) {
		std::string id = "g03/sum/" + S(x) + "/" + S(y);
		r.scenario(id, [&] {
			Tab t;
			t.def.name = "_BIG";
			t.def.fields = {F("_A", "B", 63), F("_B", "I")};
			uint64_t rl = (uint64_t)t.def.reclen();
			uint64_t len[3] = {(x + rl - 1) / rl * rl, y, 0};
			std::string d = r.fresh_dir();
			huge_base(d + "/b.1CD", t.def, len);
			auto b = open_base(d + "/b.1CD", false);
			mc::expect(b->is_open() && b->get_numtables() == 1, "base:open", "the base does not open");
			check_list(r, *b, {t}, {{len[0], len[1], len[2]}}, id);
		});
	}
}

// ---------------------------------------------------------------- G04: devices over streams, and the list of opened bases
void g04(mc::Run &r)
{
	// operations on a device: o open, c close, 1/3/9 read so many, a read all
	const std::string ops = "oc139a";
	int depth = r.thorough ? 7 : 6;
	std::vector<std::string> seqs = {""};
	for (size_t b = 0, n = 1, d = 0; d < (size_t)depth; d++) { size_t e = seqs.size(); for (; b < e; b++) for (char c : ops) seqs.push_back(seqs[b] + c); (void)n; }
	std::map<std::string, std::vector<std::string>> groups; // by the first three operations
	for (auto &s : seqs) if ((int)s.size() == depth) groups[s.substr(0, 3)].push_back(s);
	for (int size : {0, 2, 5, 40000}) for (int kind = 0; kind < 2; kind++) for (auto &g : groups) {
		std::string id = "g04/device/" + S(size) + (kind ? "/temp/" : "/memory/") + g.first;
		r.scenario(id, [&] {
			Bytes d = pattern(7, 0, size);
			for (auto &s : g.second) {
				TStream *st = kind ? (TStream *)new TTempStream : new TMemoryStream;
				if (size) st->WriteBuffer(d.data(), d.size());
				StreamDevice sd(st);
				QIODevice &dev = sd;
				bool open = false; size_t pos = 0; std::string done;
				for (char c : s) {
					done += c;
					r.step();
					std::string where = id + " after " + done;
					if (c == 'o') { if (open) break; if (!dev.open(QIODevice::ReadOnly)) mc::fail("device:open", where + ": does not open"); open = true; pos = 0; }
					else if (c == 'c') { if (!open) break; dev.close(); open = false; if (dev.isOpen()) mc::fail("device:close", where + ": still open"); }
					else {
						if (!open) break;
						size_t n = c == 'a' ? d.size() : (size_t)(c - '0');
						QByteArray x = c == 'a' ? dev.readAll() : dev.read((qint64)n);
						Bytes w = d.substr(pos, n);
						mc::expect_eq("device:read", where + ": data read", std::string(x.constData(), x.size()), w);
						pos += w.size();
					}
					if (open) mc::expect_eq("device:size", where + ": size", dev.size(), (long long)d.size());
					if (dev.isSequential()) mc::fail("device:sequential", where);
				}
			}
			r.note("sequences", g.second.size());
		});
	}
	// the list of opened bases: every history of additions and restarts
	const char *NAMES[] = {"/базы/первая база.1CD", "/tmp/b.1cd", "C:/x,y;z \"q\".1CD", "/a/очень длинное имя, в котором больше сорока букв.1CD"};
	int len = r.thorough ? 6 : 5;
	std::vector<int> h;
	std::function<void()> rec = [&] {
		std::string id = "g04/recent/";
		for (int x : h) id += (char)('0' + x);
		r.scenario(id, [&] {
			std::string f = r.fresh_dir() + "/list";
			std::unique_ptr<Cache> c(new Cache(QString::fromStdString(f)));
			std::vector<std::string> want;
			for (int x : h) {
				r.step();
				if (x == 4) c.reset(new Cache(QString::fromStdString(f)));
				else { c->addDbToList(QString::fromUtf8(NAMES[x])); want.push_back(NAMES[x]); }
				QStringList l = c->getCachedList();
				std::string g, w;
				for (auto &q : l) g += Q(q) + "\n";
				for (auto &q : want) w += q + "\n";
				mc::expect_eq("recent:list", "the list after " + id, g, w);
			}
			if (h.empty() && !Cache(QString::fromStdString(f)).getCachedList().isEmpty()) mc::fail("recent:list", "the list is not empty in the beginning");
		});
		if ((int)h.size() == len) return;
		for (int x = 0; x < 5; x++) { h.push_back(x); rec(); h.pop_back(); }
	};
	rec();
}

} // namespace

void explore(mc::Run &r)
{
	qInstallMessageHandler(quiet);
	if (r.prop == "G01") g01(r);
	else if (r.prop == "G02") g02(r);
	else if (r.prop == "G03") g03(r);
	else if (r.prop == "G04") g04(r);
}
