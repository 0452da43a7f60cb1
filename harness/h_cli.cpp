// The command-line program: table export/import in binary form, blob files, table lists, sizes, argument parsing,
// exit codes, messages, acceptance of bases, and what a run may change.
#include "cli.hpp"
#include "v8c.hpp"
#include <sys/syscall.h>
#include <linux/capability.h>
using namespace cli;
using namespace img;

namespace {

std::string S(long long x) { return std::to_string(x); }
FieldDef F(const std::string &n, const std::string &t, int len = 0, int prec = 0, bool null = false)
{
	FieldDef f; f.name = n; f.type = t; f.len = len; f.prec = prec; f.null = null; return f;
}

// exit codes as the shell sees them
const int E_ERR = 256 - 50, E_NOBASE = 256 - 71, E_MISSING = 256 - 81, E_OPEN = 256 - 82;

#include "tabs.hpp"

// ---------------------------------------------------------------- T06: binary export and import
void t06(mc::Run &r)
{
	// sizes of the three objects of the table to be moved
	struct Sz { int n, len; bool blob, index; };
	std::vector<Sz> sizes = {{0, 200, true, true}, {3, 200, true, true}, {180, 200, true, true}, {25, 200, true, false}, {25, 200, false, true}, {400, 200, false, false}, {700, 200, true, true}};
	if (r.thorough) { sizes.push_back({20500, 200, true, true}); sizes.push_back({19, 200, true, true}); sizes.push_back({21000, 200, false, true}); }
	auto base = [&](const Fmt &f, const Sz &s, int tag, const std::string &path, std::vector<Tab> &ts) {
		ts = {tab("_FIRST", 7, true, true, 50, 40), tab("_MOVED", s.n, s.blob, s.index, s.len, tag), tab("_LAST", 5, true, false, 70, 60)};
		Bytes d = make_base(f, ts, path);
		set_versions(d, ts, tag * 100 + 7);
		mc::write_file(path, d);
		return d;
	};
	for (auto &f : formats()) for (size_t i = 0; i < sizes.size(); i++) {
		// export: the files are the objects
		r.scenario(std::string("t06/export/") + f.name + "/" + S(i), [&] {
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			std::vector<Tab> ts;
			Bytes a = base(f, sizes[i], 1, d + "/a.1CD", ts);
			for (const char *mode : {"", "-ne"}) {
				std::vector<std::string> args = {"-eb", out, "*", d + "/a.1CD"};
				if (*mode) args.push_back(mode);
				good(r, args);
				for (auto &t : ts) check_export(out + "/" + t.def.name, objs(a, t.def));
				mc::expect_eq("base:modified", "the base after the export", mc::read_file(d + "/a.1CD"), a);
			}
			r.state(r.current());
		});
	}
	for (auto &f : wformats()) for (size_t i = 0; i < sizes.size(); i++) for (size_t k = 0; k < sizes.size(); k++) {
		if (sizes[i].blob > sizes[k].blob || sizes[i].index > sizes[k].index) continue; // a base without these files: see below
		// import what base i exported into base k
		r.scenario(std::string("t06/import/") + f.name + "/" + S(i) + "-" + S(k), [&] {
			std::string d = r.fresh_dir(), out = d + "/out", x = d + "/x";
			mkdir(out.c_str(), 0700); mkdir(x.c_str(), 0700);
			std::vector<Tab> ta, tb;
			Bytes a = base(f, sizes[i], 1, d + "/a.1CD", ta), b = base(f, sizes[k], i == k ? 1 : 2, d + "/b.1CD", tb);
			good(r, {"-eb", out, "_MOVED", d + "/a.1CD"});
			good(r, {"-ib", out, "_MOVED", d + "/b.1CD"});
			Bytes g = mc::read_file(d + "/b.1CD");
			check_objs(g, tb[1].def, objs(a, ta[1].def), "imported", true);
			Objs old = objs(b, tb[1].def);
			Objs from = objs(a, ta[1].def);
			for (int q = 0; q < 3; q++) if (from.has[q]) old.has[q] = false;
			check_objs(g, tb[1].def, old, "not part of the import", true);
			check_objs(g, tb[0].def, objs(b, tb[0].def), "after the import", true);
			check_objs(g, tb[2].def, objs(b, tb[2].def), "after the import", true);
			consistent(g, tb);
			good(r, {"-eb", out, "*", d + "/b.1CD"});
			Objs now = objs(g, tb[1].def);
			check_export(out + "/_MOVED", now);
			if (sizes[i].blob == sizes[k].blob && sizes[i].index == sizes[k].index && sizes[i].len == sizes[k].len) {
				good(r, {"-eax", x, d + "/b.1CD"});
				check_doc(x + "/_MOVED.xml", ta[1], all(ta[1]));
				check_doc(x + "/_FIRST.xml", tb[0], all(tb[0]));
				check_doc(x + "/_LAST.xml", tb[2], all(tb[2]));
			}
			r.state(g);
		});
	}
	// several tables at once, back into the base they came from
	for (auto &f : wformats()) for (int mask = 1; mask < 8; mask++)
		r.scenario(std::string("t06/tables/") + f.name + "/" + S(mask), [&] {
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			std::vector<Tab> ta, tb;
			Bytes a = base(f, sizes[2], 1, d + "/a.1CD", ta), b = base(f, sizes[6], 2, d + "/b.1CD", tb);
			good(r, {"-eb", out, "*", d + "/a.1CD"});
			std::string list;
			for (int q = 0; q < 3; q++) if (mask >> q & 1) list += (list.empty() ? "" : ",") + ta[q].def.name;
			good(r, {"-ib", out, list, d + "/b.1CD"});
			Bytes g = mc::read_file(d + "/b.1CD");
			for (int q = 0; q < 3; q++) check_objs(g, tb[q].def, mask >> q & 1 ? objs(a, ta[q].def) : objs(b, tb[q].def), "tables", true);
			consistent(g, tb);
			// and importing twice changes nothing more
			good(r, {"-ib", out, list, d + "/b.1CD"});
			Bytes h = mc::read_file(d + "/b.1CD");
			for (int q = 0; q < 3; q++) check_objs(h, tb[q].def, objs(g, tb[q].def), "second import", true);
			consistent(h, tb);
			r.state(h);
		});
	// an incomplete export must leave the base alone
	for (auto &f : wformats()) for (int mask = 0; mask < 15; mask++) for (int n = mask == 0 ? 0 : -1; n < (mask == 0 ? 36 : 0); n++) {
		if (f.n838 && f.ps > 8192) continue;
		r.scenario(std::string("t06/damaged/") + f.name + "/" + S(mask) + "/" + S(n), [&] {
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			std::vector<Tab> ta, tb;
			base(f, sizes[2], 1, d + "/a.1CD", ta);
			Bytes b = base(f, sizes[1], 2, d + "/b.1CD", tb);
			good(r, {"-eb", out, "_MOVED", d + "/a.1CD"});
			std::string t = out + "/_MOVED/";
			if (mask == 0) mc::write_file(t + "root", mc::read_file(t + "root").substr(0, n));
			else for (int q = 0; q < 4; q++) if (mask >> q & 1) unlink((t + (q == 3 ? "root" : FN[q])).c_str());
			ChildResult c = must(r, {"-ib", out, "_MOVED", d + "/b.1CD"});
			mc::expect_eq("ib:exit", "exit code", c.status, E_ERR);
			mc::expect_eq("ib:damaged-import", "the base after the failed import", mc::read_file(d + "/b.1CD"), b);
			r.state(r.current());
		});
	}
	for (auto &f : formats()) for (int kind = 0; kind < 3; kind++)
		r.scenario(std::string("t06/refused/") + f.name + "/" + S(kind), [&] {
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			std::vector<Tab> ta, tb;
			base(f, sizes[2], 1, d + "/a.1CD", ta);
			Bytes b = base(f, sizes[1], 2, d + "/b.1CD", tb);
			std::vector<std::string> args = {"-ib", out, "_MOVED", d + "/b.1CD"};
			if (kind == 0) { good(r, {"-eb", out, "_MOVED", d + "/a.1CD"}); args.push_back("-ne"); }  // opened for reading only
			if (kind == 1) good(r, {"-eb", out, "_FIRST", d + "/a.1CD"});                              // the table was not exported
			if (kind == 2) { if (f.ver[1] != 0) { r.trivial(); return; } good(r, {"-eb", out, "_MOVED", d + "/a.1CD"}); } // 8.0 is read only
			ChildResult c = must(r, args);
			mc::expect_eq("ib:exit", "exit code", c.status, E_ERR);
			mc::expect_eq("ib:refused-import", "the base after the refused import", mc::read_file(d + "/b.1CD"), b);
		});
	// a table that has no blob or index file yet gets one (layouts where the description is an object)
	for (auto &f : wformats()) for (int kind = 0; kind < 3; kind++) {
		if (f.n838) continue;
		r.scenario(std::string("t06/new-file/") + f.name + "/" + S(kind), [&] {
			std::string d = r.fresh_dir(), out = d + "/out", x = d + "/x";
			mkdir(out.c_str(), 0700); mkdir(x.c_str(), 0700);
			std::vector<Tab> ta, tb;
			base(f, Sz{25, 200, kind != 1, kind != 0}, 1, d + "/a.1CD", ta);
			base(f, Sz{4, 200, false, false}, 2, d + "/b.1CD", tb);
			good(r, {"-eb", out, "_MOVED", d + "/a.1CD"});
			good(r, {"-ib", out, "_MOVED", d + "/b.1CD"});
			good(r, {"-eax", x, d + "/b.1CD"});
			check_doc(x + "/_MOVED.xml", ta[1], all(ta[1]));
			check_doc(x + "/_FIRST.xml", tb[0], all(tb[0]));
			check_doc(x + "/_LAST.xml", tb[2], all(tb[2]));
			// a later command of the same run sees the new table
			std::string y = d + "/y";
			mkdir(y.c_str(), 0700);
			std::vector<Tab> tc;
			base(f, Sz{4, 200, false, false}, 2, d + "/c.1CD", tc);
			good(r, {"-ib", out, "_MOVED", "-eax", y, "-ex", y + "/", "_MOVED", d + "/c.1CD"});
			check_doc(y + "/_MOVED.xml", ta[1], all(ta[1]));
			check_doc(y + "/_FIRST.xml", tb[0], all(tb[0]));
			check_doc(y + "/_LAST.xml", tb[2], all(tb[2]));
			mc::expect_eq("import:later", "the base after import and export in one run and in two", mc::read_file(d + "/c.1CD"), mc::read_file(d + "/b.1CD"));
			r.state(r.current());
		});
	}
}

// ---------------------------------------------------------------- T07: blobs saved to files
const unsigned char SIG[16] = {0x53, 0x4b, 0x6f, 0xf4, 0x88, 0x8d, 0xc1, 0x4e, 0xa0, 0xd5, 0xeb, 0xb6, 0xbd, 0xa0, 0xa7, 0x0d};
Bytes sig() { return Bytes((const char *)SIG, 16); }

// what -bf yes must have written for each image value of each exported record, in order: (record, field, stored, unpacked)
// names: checked to be distinct and to be mentioned in the XML
void check_blobs(const std::string &out, const Tab &t, const std::vector<int> &order, std::function<Bytes(const Bytes &, int)> unpack, std::vector<std::string> *names = nullptr)
{
	std::string file = out + "/" + t.def.name + ".xml";
	bool there;
	std::string s = mc::read_file(file, &there);
	if (!there) mc::fail("xml:missing", "no file " + t.def.name + ".xml");
	Node d = Xml(s).document();
	mc::expect_eq("xml:structure", "children of the root", d.kids.size(), 2);
	auto &rs = d.kids[1].kids;
	mc::expect_eq("xml:record-count", "records", rs.size(), order.size());
	std::map<std::string, Bytes> fs;
	mc::list_tree(file + ".blob", fs);
	std::map<std::string, int> used;
	size_t nf = t.def.fields.size();
	for (size_t i = 0; i < order.size(); i++) {
		if (rs[i].kids.size() < nf) mc::fail("xml:structure", "record with " + S(rs[i].kids.size()) + " values");
		for (size_t k = 0; k < nf; k++) {
			const V &v = t.rows[order[i]][k];
			const FieldDef &fd = t.def.fields[k];
			std::string where = "record " + S(i + 1) + " of " + S(order.size());
			if (fd.type != "I") { check_cell(v, fd, rs[i].kids[k], where); continue; }
			const Node &n = rs[i].kids[k];
			if (n.name != fd.name) mc::fail("xml:field-name", where + ": " + n.name);
			if (v.null || v.want.empty()) {
				if (!n.text.empty()) mc::fail("bf:empty", where + ": empty value of " + fd.name + " presented as " + mc::quote(n.text));
				continue;
			}
			if (n.text.empty()) mc::fail("bf:missing", where + ": no file is named for the value of " + fd.name);
			if (!fs.count(n.text)) mc::fail("bf:file", where + ": there is no file " + mc::quote(n.text) + " for the value of " + fd.name);
			if (used[n.text]++) mc::fail("bf:collision", where + ": file " + mc::quote(n.text) + " is named for two values");
			mc::expect_eq("bf:content", where + ", file " + n.text, fs[n.text], unpack(v.want, (int)order[i]));
			if (names) names->push_back(n.text);
		}
	}
	mc::expect_eq("bf:extra", "number of blob files", (long long)fs.size(), (long long)used.size());
}

void t07(mc::Run &r)
{
	const Fmt &f0 = formats()[0], &f1 = formats()[2];
	// names
	static const std::vector<std::string> keys = {"A", "a", "B", "A_2", "", "a/b", "<&>"};
	struct Kind { int index; int images; };
	for (int images = 1; images <= 2; images++) for (int index = 0; index < 4; index++) for (size_t len = 1; len <= (r.thorough ? 4 : 3); len++) {
		if (index == 0 && len < 3) continue;
		size_t n = 1;
		for (size_t i = 0; i < len; i++) n *= keys.size();
		for (size_t code = 0; code < n; code++) {
			if (index != 2 && index != 1 && len >= 3 && code % 7) continue;
			r.scenario("t07/names/" + S(images) + "/" + S(index) + "/" + S(len) + "/" + S(code), [&] {
				std::vector<Tab> ts(1); ts.reserve(8);
				Tab &t = ts[0];
				t.def.name = "_DATA";
				t.def.fields = {F("_K", "NVC", 4), F("_N", "N", 3), F("_I1", "I", 0, 0, true)};
				if (images == 2) t.def.fields.push_back(F("_I2", "I", 0, 0, true));
				Blob bl;
				size_t c = code;
				IndexDef ix; ix.name = "IX"; ix.keylen = 6; ix.primary = index == 2;
				ix.fields = {{"_K", 4}};
				if (index == 3) ix.fields.push_back({"_N", 3});
				for (size_t i = 0; i < len; i++, c /= keys.size()) {
					std::vector<V> row = {cli::nvc(keys[c % keys.size()], 4), num(S(i * 7 % 5), 3, 0), image(bl, "first " + S(i))};
					if (images == 2) row.push_back(i % 3 == 1 ? null_() : image(bl, "second " + S(i)));
					t.rows.push_back(row);
					Bytes k(6, '\0'); k[4] = (char)i;
					ix.entries.push_back({k, (uint32_t)i});
				}
				t.def.blob = bl.d;
				if (index) t.def.indexes = {ix};
				std::string d = r.fresh_dir(), out = d + "/out";
				mkdir(out.c_str(), 0700);
				Bytes before = make_base(code % 2 ? f0 : f1, ts, d + "/b.1CD");
				good(r, {"-bf", "yes", "-eax", out, d + "/b.1CD"});
				std::vector<std::string> names;
				check_blobs(out, t, all(t), [](const Bytes &b, int) { return b; }, &names);
				mc::expect_eq("base:modified", "the base after the export", mc::read_file(d + "/b.1CD"), before);
				// the usual case: unique simple keys give the file name
				if (index == 2 && images == 1 && len == 2 && code % 7 == 0 && code / 7 == 2) { mc::expect_eq("bf:name", "file name", names[0], "A"); mc::expect_eq("bf:name", "file name", names[1], "B"); }
				std::string st; for (auto &x : names) st += x + "|";
				r.state(st);
			});
		}
	}
	// contents. each variant: stored bytes and what unpacking must give
	struct C { std::string name; Bytes stored, plain; };
	auto variants = [&](size_t n) {
		std::vector<C> v;
		Bytes p = pattern(n * 3 + 1, 0, n), text;
		while (text.size() < n) text += "{1,\"text " + S(text.size()) + "\"}\r\n";
		text.resize(n);
		Bytes z8 = le64(n);
		v.push_back({"text", text, text});
		v.push_back({"bytes", "\x07" + p, "\x07" + p});
		v.push_back({"one-byte", Bytes(1, '\1'), Bytes(1, '\1')});
		v.push_back({"storage", Bytes("\1\1", 2) + z8 + p, p});
		v.push_back({"storage-short-extra", Bytes("\1\1", 2) + z8 + p + Bytes(7, 'x'), p + Bytes(7, 'x')});
		v.push_back({"storage-second", Bytes("\1\1", 2) + z8 + text + le32(1) + le64(p.size()) + p, p});
		v.push_back({"packed", Bytes("\2\1", 2) + sig() + v8c::deflate_raw(z8 + p), p});
		v.push_back({"packed-second", Bytes("\2\1", 2) + sig() + v8c::deflate_raw(z8 + text + le32(1) + le64(p.size()) + p), p});
		Bytes x = Bytes("\2\1", 2) + Bytes(16, 'S') + v8c::deflate_raw(z8 + p);
		v.push_back({"packed-bad-signature", x, x});
		x = Bytes("\2\1", 2) + sig() + Bytes("\xff\xff\xff", 3);
		v.push_back({"packed-bad-data", x, x});
		x = Bytes("\1\1", 2) + Bytes(7, 'q');
		v.push_back({"storage-too-short", x, x});
		x = Bytes("\1\2", 2) + p;
		v.push_back({"other", x, x});
		x = Bytes("\2\1", 2);
		v.push_back({"marker-only", x, x});
		return v;
	};
	std::vector<size_t> sizes = {1, 7, 8, 12, 250, 1000, 16384, 20000, 70000};
	if (r.thorough) for (size_t n : {2, 11, 13, 240, 249, 251, 4096, 16383, 16385, 32768, 300000, 11000000}) sizes.push_back(n);
	for (size_t n : sizes) for (size_t k = 0; k < variants(1).size(); k++) for (int pb = 0; pb < 3; pb++) for (int fm = 0; fm < 2; fm++)
		r.scenario("t07/value/" + S(n) + "/" + variants(1)[k].name + "/pb" + S(pb) + "/" + S(fm), [&] {
			C c = variants(n)[k];
			std::vector<Tab> ts(1); ts.reserve(8);
			Tab &t = ts[0];
			t.def.name = "_DATA";
			t.def.fields = {F("_K", "N", 3), F("_I1", "I", 0, 0, true)};
			Blob bl;
			t.rows = {{num("1", 3, 0), image(bl, c.stored)}, {num("2", 3, 0), null_()}, {num("3", 3, 0), image(bl, "")}, {num("4", 3, 0), image(bl, "tail")}};
			t.def.blob = bl.d;
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			make_base(fm ? f1 : f0, ts, d + "/b.1CD");
			std::vector<std::string> a = {"-bf", "Yes", "-ex", out, "_DATA", d + "/b.1CD"};
			if (pb) { a.push_back("-pb"); a.push_back(pb == 1 ? "yes" : "no"); } // unpacking is the default
			good(r, a, 60);
			check_blobs(out, t, all(t), [&](const Bytes &b, int row) { return pb == 2 || row ? b : c.plain; });
			r.state(r.current());
		});
	// packed values with any one byte of the marker or the signature changed are no packed values
	for (int fm = 0; fm < 2; fm++) for (int x : {1, 0x80, 0x20}) r.scenario("t07/signature/" + S(fm) + "/" + S(x), [&] {
		std::vector<Tab> ts(1); ts.reserve(8);
		Tab &t = ts[0];
		t.def.name = "_DATA";
		t.def.fields = {F("_K", "N", 3), F("_I1", "I", 0, 0, true)};
		Blob bl;
		Bytes p = pattern(3, 0, 40), z = Bytes("\2\1", 2) + sig() + v8c::deflate_raw(le64(40) + p);
		for (int i = 0; i < 18; i++) { Bytes y = z; y[i] = (char)(y[i] ^ (i < 2 ? x | 4 : x)); t.rows.push_back({num(S(i + 1), 3, 0), image(bl, y)}); }
		t.def.blob = bl.d;
		std::string d = r.fresh_dir(), out = d + "/out";
		mkdir(out.c_str(), 0700);
		make_base(fm ? f1 : f0, ts, d + "/b.1CD");
		good(r, {"-bf", "Yes", "-ex", out, "_DATA", d + "/b.1CD"});
		check_blobs(out, t, all(t), [&](const Bytes &b, int) { return b; });
		r.state(r.current());
	});
	// system tables: data are inflated once or twice
	struct Sys { const char *table, *row; };
	std::string longname = "0123456789012345678901234567890123456789012345678901234567890123456789abc";
	std::vector<std::pair<std::string, std::string>> sys = {{"CONFIG", "root"}, {"CONFIGSAVE", "root"}, {"CONFIG", longname}, {"CONFIGSAVE", longname}, {"FILES", "abc"}, {"PARAMS", "locale.inf"},
		{"PARAMS", "users.usr"}, {"V8USERS", "any"}, {"DBSCHEMA", "x"}, {"CONFIG", longname.substr(0, 72)}};
	for (auto &st : sys) for (size_t n : {(size_t)1, (size_t)2, (size_t)40, (size_t)300, (size_t)16384, (size_t)50000}) for (int pack = 0; pack < 4; pack++) for (int pb = 0; pb < 2; pb++) for (int fm = 0; fm < 2; fm++)
		r.scenario("t07/system/" + st.first + "/" + st.second.substr(0, 4) + S(st.second.size()) + "/" + S(n) + "/z" + S(pack) + "/pb" + S(pb) + "/" + S(fm), [&] {
			// 0xEF and 0xFF can not begin deflate data
			Bytes p = "\xff" + pattern(n, 0, n), stored = p, plain = p;
			bool users = st.second == "users.usr" || st.first == "V8USERS";
			bool twice = !(st.first == "CONFIG" || st.first == "CONFIGSAVE") || st.second.size() > 72;
			if (users) {
				static const size_t ML[4] = {1, 32, 127, 200};
				Bytes mask = pattern(5, 0, ML[pack]);
				stored = Bytes(1, (char)mask.size()) + mask;
				for (size_t i = 0; i < p.size(); i++) stored += (char)(p[i] ^ mask[i % mask.size()]);
			} else if (pack == 1) stored = v8c::deflate_raw(p);
			else if (pack == 2) { stored = v8c::deflate_raw(v8c::deflate_raw(p)); if (!twice) plain = v8c::deflate_raw(p); }
			else if (pack == 3) { stored = v8c::deflate_raw(p, 0); }
			std::vector<Tab> ts(1); ts.reserve(8);
			Tab &t = ts[0];
			t.def.name = st.first;
			t.def.fields = {F("FILENAME", "NVC", 128), F("BINARYDATA", "I")};
			Blob bl;
			t.rows = {{cli::nvc(st.second, 128), image(bl, stored)}};
			t.def.blob = bl.d;
			std::vector<std::string> names = {"CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"};
			for (auto &nm : names) if (nm != st.first) { Tab e; e.def.name = nm; e.def.fields = t.def.fields; ts.push_back(e); }
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			make_base(fm ? f1 : f0, ts, d + "/b.1CD");
			good(r, {"-bf", "1", "-ex", out, st.first, d + "/b.1CD", "-pb", pb ? "y" : "n"});
			Tab &tt = ts[0];
			check_blobs(out, tt, all(tt), [&](const Bytes &b, int) { return pb ? plain : b; });
			r.state(r.current());
		});
	// system tables: values that begin like packed data but are none
	for (int a = 0; a < 256; a += r.thorough ? 1 : 3) for (int twice = 0; twice < 2; twice++) r.scenario("t07/lookalike/" + S(a) + "/" + S(twice), [&] {
		std::vector<Tab> ts(1); ts.reserve(8);
		Tab &t = ts[0];
		t.def.name = twice ? "FILES" : "CONFIG";
		t.def.fields = {F("FILENAME", "NVC", 128), F("BINARYDATA", "I")};
		Blob bl;
		for (int b = 0; b < 256; b++) { Bytes v = Bytes(1, (char)a) + (char)b; v += b % 3 ? Bytes("\0{\0\"\0#\0 and the rest", 20) : Bytes(", and the rest of it"); t.rows.push_back({cli::nvc("n" + S(b), 128), image(bl, v)}); }
		t.def.blob = bl.d;
		for (const char *nm : {"CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"}) if (nm != t.def.name) { Tab e; e.def.name = nm; e.def.fields = ts[0].def.fields; ts.push_back(e); }
		std::string d = r.fresh_dir(), out = d + "/out";
		mkdir(out.c_str(), 0700);
		make_base(twice ? f1 : f0, ts, d + "/b.1CD");
		good(r, {"-bf", "1", "-ex", out, ts[0].def.name, d + "/b.1CD"});
		check_blobs(out, ts[0], all(ts[0]), [&](const Bytes &b, int) { Bytes x = b, y; for (int i = 0; i <= twice && v8c::inflate_raw(x, y) ; i++) x = y; return x; });
		r.state(r.current());
	});
	// system tables: a container becomes a directory
	for (int fm = 0; fm < 2; fm++) for (int pack = 0; pack < 3; pack++) for (int lay = 0; lay < 4; lay++) for (int nf = 1; nf <= 3; nf++)
		r.scenario("t07/container/" + S(fm) + "/" + S(pack) + "/" + S(lay) + "/" + S(nf), [&] {
			std::vector<v8c::File> fs;
			std::map<std::string, Bytes> want;
			for (int i = 0; i < nf; i++) { v8c::File x; x.name = "part" + S(i); x.data = "\xef\xbb\xbf" + pattern(i + 9, 0, 100 + i * 700); fs.push_back(x); want[x.name] = x.data; }
			v8c::Layout l; l.data_page = lay & 1 ? 512 : 0; l.scatter = lay & 2;
			if (pack == 2) for (auto &x : fs) x.data = v8c::deflate_raw(x.data); // twice deflated: so are the files inside
			Bytes c = v8c::build(fs, l);
			for (int i = 0; i < pack; i++) c = v8c::deflate_raw(c);
			std::vector<Tab> ts(1); ts.reserve(8);
			Tab &t = ts[0];
			t.def.name = "CONFIG";
			t.def.fields = {F("FILENAME", "NVC", 128), F("BINARYDATA", "I")};
			Blob bl;
			t.rows = {{cli::nvc(pack == 2 ? longname : "obj", 128), image(bl, c)}};
			t.def.blob = bl.d;
			for (const char *nm : {"CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"}) { Tab e; e.def.name = nm; e.def.fields = t.def.fields; ts.push_back(e); }
			std::string d = r.fresh_dir(), out = d + "/out";
			mkdir(out.c_str(), 0700);
			make_base(fm ? f1 : f0, ts, d + "/b.1CD");
			good(r, {"-bf", "1", "-ex", out, "CONFIG", d + "/b.1CD"});
			std::map<std::string, Bytes> got;
			mc::list_tree(out + "/CONFIG.xml.blob", got);
			std::map<std::string, Bytes> w2 = {{"BINARYDATA/", ""}};
			for (auto &x : want) w2["BINARYDATA/" + x.first] = x.second;
			for (auto &x : w2) { if (!got.count(x.first)) mc::fail("bf:container", "no " + x.first); mc::expect_eq("bf:container", x.first, got[x.first], x.second); }
			mc::expect_eq("bf:container", "files", got.size(), w2.size());
			r.state(r.current());
		});
}

// ---------------------------------------------------------------- S06: which files are accepted as bases
int open_code(mc::Run &r, const std::string &path, std::string *sts = nullptr)
{
	std::string o = path + ".sts";
	unlink(o.c_str());
	ChildResult c = must(r, {"-ne", "-sts", o, path});
	if (sts) *sts = mc::read_file(o);
	return c.status;
}
std::string known_version(const Bytes &img)
{
	std::string v;
	for (int i = 0; i < 4; i++) v += (i ? "." : "") + S((uint8_t)img[8 + i]);
	return v;
}
// layout family of a version: 0 = unknown, 1 = 8.0, 2 = 8.1-8.2.14, 3 = 8.3.8
int family(const std::string &v)
{
	if (v == "8.0.3.0" || v == "8.0.5.0") return 1;
	if (v == "8.1.0.0" || v == "8.2.0.0" || v == "8.2.14.0") return 2;
	if (v == "8.3.8.0") return 3;
	return 0;
}
void s06(mc::Run &r)
{
	auto judge = [&](const Bytes &img, const std::string &sts0, int fam0) {
		std::string d = r.fresh_dir();
		mc::write_file(d + "/b.1CD", img);
		std::string sts;
		int c = open_code(r, d + "/b.1CD", &sts);
		int fam = img.size() >= 12 && img.compare(0, 8, "1CDBMSV8") == 0 ? family(known_version(img)) : 0;
		bool ok = fam != 0;
		if (ok) {
			uint32_t ps = fam == 3 ? (img.size() >= 24 ? get32(img, 20) : 0) : 4096;
			if (fam == 3 && (ps < 4096 || (ps & (ps - 1)))) ok = false;
			else if (img.size() % ps || img.size() / ps != get32(img, 12)) ok = false;
			else if (fam != fam0) return; // the header promises another layout than the pages have
		}
		if (ok) {
			if (c != 0) mc::fail("open:rejected", "a valid base is rejected with code " + S((int8_t)c));
			mc::expect_eq("open:content", "table sizes", sts, sts0);
		} else {
			if (c != E_OPEN) mc::fail("open:accepted", "an unsupported or damaged base gives exit code " + S((int8_t)c) + ", expected -82");
			if (!sts.empty()) mc::fail("open:output", "output was written for a rejected base");
		}
		mc::expect_eq("base:modified", "the base", mc::read_file(d + "/b.1CD"), img);
	};
	for (auto &f : formats()) {
		if (f.ps > 8192) continue;
		std::vector<Tab> ts = {tab("_ONE", 3, true, true), tab("_TWO", 0, false, false)};
		std::string d0 = r.fresh_dir("w0");
		Bytes img = make_base(f, ts, d0 + "/b.1CD");
		Reader rd(img);
		std::string sts0 = "\xef\xbb\xbf" "table_name|records_count|data_size|blob_size|index_size\r\n";
		for (auto &t : ts) sts0 += t.def.name + "|" + S(t.rows.size()) + "|" + S(rd.obj_len(t.def.data_block)) + "|" + S(t.def.blob_block ? rd.obj_len(t.def.blob_block) : 0) + "|" + S(t.def.index_block ? rd.obj_len(t.def.index_block) : 0) + "\r\n";
		int fam0 = family(known_version(img));
		// every header byte takes every value
		for (int o = 0; o < 24; o++) r.scenario(std::string("s06/byte/") + f.name + "/" + S(o), [&] {
			for (int v = 0; v < 256; v += (o >= 8 && o < 12) || r.thorough ? 1 : 3) { Bytes x = img; x[o] = (char)v; judge(x, sts0, fam0); }
			r.state(r.current());
		}, 200);
		// every combination of version numbers
		for (int a = 7; a < 10; a++) for (int b = 0; b < 5; b++) r.scenario(std::string("s06/version/") + f.name + "/" + S(a) + "." + S(b), [&] {
			for (int c : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16}) for (int e = 0; e < 2; e++) { Bytes x = img; x[8] = a; x[9] = b; x[10] = c; x[11] = e; judge(x, sts0, fam0); }
			r.state(r.current());
		}, 200);
		// files cut off or longer
		for (int k = 0; k < 3; k++) r.scenario(std::string("s06/length/") + f.name + "/" + S(k), [&] {
			std::vector<size_t> ns;
			if (k == 0) for (size_t n = 0; n <= 40; n++) ns.push_back(n);
			if (k == 1) for (size_t p = 0; p <= img.size() / f.ps; p++) for (int q : {-1, 0, 1, 512}) if ((long long)(p * f.ps) + q >= 0) ns.push_back(p * f.ps + q);
			if (k == 2) ns = {img.size() + 1, img.size() + f.ps, img.size() + f.ps / 2, img.size() - 1, img.size() * 2};
			for (size_t n : ns) { Bytes x = img; x.resize(n, '\0'); judge(x, sts0, fam0); }
			r.state(r.current());
		}, 200);
		// header says another number of pages
		r.scenario(std::string("s06/pages/") + f.name, [&] {
			uint32_t n = get32(img, 12);
			for (uint32_t v : {0u, n - 1, n + 1, n * 2, n + 0x10000u, n + 0x1000000u, 0xffffffffu}) { Bytes x = img; put32(x, 12, v); judge(x, sts0, fam0); }
		});
		if (f.n838) r.scenario(std::string("s06/page-size/") + f.name, [&] {
			for (int b = 0; b < 32; b++) for (int q = -1; q <= 1; q++) { uint32_t v = (1u << b) + q; if (v == f.ps) continue; Bytes x = img; put32(x, 20, v); if (v >= 4096 && !(v & (v - 1)) && img.size() % v == 0 && img.size() / v == get32(img, 12)) continue; judge(x, sts0, fam0); }
		});
	}
	r.scenario("s06/not-a-file", [&] {
		std::string d = r.fresh_dir();
		mkdir((d + "/dir.1CD").c_str(), 0700);
		mc::expect_eq("open:directory", "exit code for a directory", must(r, {"-sts", d + "/s", d + "/dir.1CD"}).status, E_OPEN);
		mc::expect_eq("open:missing", "exit code for a missing file", must(r, {"-sts", d + "/s", d + "/none.1CD"}).status, E_MISSING);
		mc::expect_eq("open:created", "files", mc::exists(d + "/none.1CD") || mc::exists(d + "/s"), false);
	});
	// kinds of bases: which tables must be present together
	static const std::vector<std::string> ib = {"CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"};
	static const std::vector<std::string> dp = {"DEPOT", "USERS", "OBJECTS", "VERSIONS", "LABELS", "HISTORY", "LASTESTVERSIONS", "EXTERNALS", "SELFREFS", "OUTREFS"};
	auto kinds = [&](const std::string &id, const Fmt &f, uint32_t im, uint32_t dm, int order, bool lower) {
		r.scenario(id, [&] {
			std::vector<Tab> ts;
			auto add = [&](std::string n) { if (lower) for (auto &c : n) c = (char)tolower(c); Tab t; t.def.name = n; t.def.fields = {F("ID", "N", 4)}; ts.push_back(t); };
			if (order != 1) add("_OTHER");
			for (size_t i = 0; i < ib.size(); i++) if (im >> (order ? ib.size() - 1 - i : i) & 1) add(ib[order ? ib.size() - 1 - i : i]);
			for (size_t i = 0; i < dp.size(); i++) if (dm >> (order ? dp.size() - 1 - i : i) & 1) add(dp[order ? dp.size() - 1 - i : i]);
			if (order == 1) add("_OTHER");
			std::string d = r.fresh_dir();
			make_base(f, ts, d + "/b.1CD");
			bool want_ib = im == 31, want_dp = im == 0 && dm == 1023, valid = im ? want_ib : (dm == 0 || want_dp);
			bool opened = true, gi = false, gd = false;
			r.step();
			try {
				T_1CD b(fs_::path(d + "/b.1CD"), nullptr, false);
				opened = b.is_open(); gi = b.is_infobase(); gd = b.is_depot;
				mc::expect_eq("open:tables", "tables", b.get_numtables(), ts.size());
			} catch (const mc::Fail &) { throw; } catch (const std::exception &) { opened = false; }
			mc::expect_eq("open:kind", "base with infobase tables " + S(im) + " and depot tables " + S(dm) + " opens", opened, valid);
			if (valid) { mc::expect_eq("open:infobase", "is an infobase", gi, want_ib); mc::expect_eq("open:depot", "is a depot", gd, want_dp); }
			r.state(id);
		});
	};
	for (int fm = 0; fm < 3; fm++) {
		for (uint32_t im = 0; im < 32; im++) for (uint32_t dm : {0u, 1023u, 1u, 512u}) for (int order = 0; order < 2; order++)
			kinds("s06/kind/" + S(fm) + "/" + S(im) + "/" + S(dm) + "/" + S(order), formats()[fm], im, dm, order, im & 1);
		for (uint32_t dm = 0; dm < 1024; dm++) { if (!r.thorough && fm && dm % 16) continue; kinds("s06/depot/" + S(fm) + "/" + S(dm), formats()[fm], 0, dm, dm & 1, dm & 2); }
	}
}

// ---------------------------------------------------------------- A01: command line and exit codes
// the program's own description of its keys, taken from the help text
struct Key { const char *brief, *full; int par; };
const Key KEYS[] = {{"h", "help", 0}, {"?", "?", 0}, {"nv", "noverbose", 0}, {"q", "quit", 0}, {"eax", "ExportAllToXML", 1}, {"bf", "BlobToFile", 1}, {"pb", "ParseBlob", 1}, {"ex", "ExportToXML", 2},
	{"ne", "NotExclusively", 0}, {"ddc", "DumpDBConfig", 1}, {"dc", "DumpConfig", 1}, {"dvc", "DumpVendorsConfigs", 1}, {"dac", "DumpAllConfigs", 1}, {"drc", "DumpDepotConfig", 2},
	{"dpc", "DumpPartDepotConfig", 2}, {"l", "logfile", 1}, {"eb", "ExportToBinary", 2}, {"ib", "ImportFromBinary", 2}, {"slo", "SaveLostObjects", 1}, {"sts", "SaveTablesSize", 1}};
std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
std::string dq(std::string s)
{
	if (s.size() < 2) return s;
	if (s.front() == '"' && s.back() == '"') s = s.substr(1, s.size() - 2);
	while (!s.empty() && s.back() == '"') s.pop_back();
	return s;
}
struct Parsed { std::string file; std::vector<std::pair<std::string, std::vector<std::string>>> cmds; int errors = 0; };
Parsed parse(const std::vector<std::string> &a)
{
	Parsed p;
	for (size_t i = 0; i < a.size(); i++) {
		if (!a[i].empty() && a[i][0] == '-') {
			std::string k = low(a[i].substr(1));
			const Key *key = nullptr;
			for (auto &x : KEYS) if (k == x.brief || k == low(x.full)) key = &x;
			if (!key) { p.errors++; continue; }
			std::vector<std::string> par;
			for (int n = 0; n < key->par; n++) { if (i + 1 < a.size()) par.push_back(dq(a[++i])); else { par.push_back(""); p.errors++; } }
			p.cmds.push_back({key->brief, par});
		} else if (!p.file.empty()) p.errors++;
		else p.file = dq(a[i]);
	}
	return p;
}
// a world with one directory "out", the bases b.1CD (tables _A, _B) and bad.1CD
void a01(mc::Run &r)
{

	std::vector<Tab> ts = {tab("_A", 2, false, false), tab("_B", 1, true, false)};
	auto fresh = [&] {
		std::string d = r.fresh_dir();
		mkdir((d + "/out").c_str(), 0700);
		make_base(formats()[0], ts, d + "/b.1CD");
		mc::write_file(d + "/bad.1CD", "not a base");
		return d;
	};
	auto judge = [&](const std::vector<std::string> &a) {
		std::string d = fresh();
		ChildResult c = must(r, a, 20, d);
		Parsed p = parse(a);
		std::set<std::string> dirs = {"out/"}, files = {"b.1CD", "bad.1CD"};
		int errors = p.errors, code = -1;
		bool help = false, banner = false;
		if (p.cmds.empty()) { code = 0; banner = true; }
		else {
			for (auto &x : p.cmds) if (x.first == "h" || x.first == "?") { code = 0; help = true; break; }
			if (code < 0) {
				std::string f = p.file;
				if (f.size() > 2 && f.compare(0, 2, "./") == 0) f = f.substr(2);
				if (f.empty()) code = E_NOBASE;
				else if (!files.count(f) && !dirs.count(f + "/")) code = E_MISSING;
				else if (f != "b.1CD") code = E_OPEN;
				else for (auto &x : p.cmds) {
					std::string t = x.second.empty() ? "" : x.second[0];
					if (x.first == "eax") { if (dirs.count(t + "/")) { files.insert(t + "/_A.xml"); files.insert(t + "/_B.xml"); } else errors++; }
					if (x.first == "ex" || x.first == "eb") {
						std::string l = low(x.second[1]);
						if (!dirs.count(t + "/")) errors++;
						else if (l.find_first_not_of(" ,;\t") == std::string::npos) errors++;
						else for (const char *n : {"_A", "_B"}) if (l == low(n) || l == "*") {
							if (x.first == "ex") files.insert(t + "/" + n + ".xml");
							else { dirs.insert(t + "/" + n + "/"); for (const char *q : {"root", "data", "descr"}) files.insert(t + "/" + n + "/" + q); if (n[1] == 'B') files.insert(t + "/" + n + "/blob"); }
						}
					}
					if (x.first == "sts") { if (t.empty() || dirs.count(t + "/")) errors++; else files.insert(t); }
				}
			}
		}
		if (code <= 0) code = errors ? E_ERR : 0;
		if (c.status != code) mc::fail("cli:exit-code", "ctool1cd" + show(a) + ": exit code " + S((int8_t)c.status) + ", expected " + S((int8_t)code) + "; " + last(c.err, 500));
		std::map<std::string, Bytes> got;
		mc::list_tree(d, got);
		std::set<std::string> gn, wn = files;
		for (auto &x : got) gn.insert(x.first);
		for (auto &x : dirs) wn.insert(x);
		if (gn != wn) {
			std::string m;
			for (auto &x : gn) if (!wn.count(x)) m += " unexpected " + x;
			for (auto &x : wn) if (!gn.count(x)) m += " missing " + x;
			mc::fail("cli:effects", "ctool1cd" + show(a) + ":" + m);
		}
		bool ph = c.out.find("-eax") != std::string::npos && c.out.find("-sts") != std::string::npos, pb = c.out.find("-h") != std::string::npos;
		if (ph != help) mc::fail("cli:help", "ctool1cd" + show(a) + (help ? " does not print" : " prints") + " the help");
		if (banner && !pb) mc::fail("cli:banner", "ctool1cd" + show(a) + " does not say how to get help");
		r.state(S(code) + [&] { std::string m; for (auto &x : gn) m += x + "|"; return m; }());
	};

	static const std::vector<std::string> A = {"-ne", "-Q", "-h", "-zz", "-", "", "-eax", "out", "none", "b.1CD", "\"b.1CD\"", "bad.1CD", "-STS", "-ExportAllToXML", "-ex", "_a", "-pb", "./b.1CD", "\"out"};
	size_t n = A.size();
	for (size_t i = 0; i < n; i++) r.scenario("a01/1/" + S(i), [&] { judge({A[i]}); });
	r.scenario("a01/0", [&] { judge({}); });
	auto safe = [&](const std::vector<std::string> &a) { // never write over a base
		Parsed p = parse(a);
		for (auto &c : p.cmds) if (c.first == "sts" && c.second[0].find("1CD") != std::string::npos) return false;
		return true;
	};
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) r.scenario("a01/2/" + S(i) + "." + S(k), [&] { if (safe({A[i], A[k]})) judge({A[i], A[k]}); });
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) r.scenario("a01/3/" + S(i) + "." + S(k), [&] {
		for (size_t m = 0; m < n; m++) if (safe({A[i], A[k], A[m]})) judge({A[i], A[k], A[m]});
	}, 100);
	static const std::vector<std::string> B = {"-ne", "-zz", "-eax", "out", "b.1CD", "none", "-sts", "-ex", "_a", "-eb"};
	size_t q = B.size();
	for (size_t i = 0; i < q; i++) for (size_t k = 0; k < q; k++) for (size_t m = 0; m < q; m++) r.scenario("a01/4/" + S(i) + "." + S(k) + "." + S(m), [&] {
		for (size_t w = 0; w < q; w++) {
			if (safe({B[i], B[k], B[m], B[w]})) judge({B[i], B[k], B[m], B[w]});
			if (r.thorough) for (size_t v = 0; v < q; v++) if (safe({B[i], B[k], B[m], B[w], B[v]})) judge({B[i], B[k], B[m], B[w], B[v]});
		}
	}, 400);
	// every spelling of every key does the same
	for (auto &key : KEYS) for (int sp = 0; sp < 6; sp++) r.scenario(std::string("a01/spelling/") + key.brief + "/" + S(sp), [&] {
		std::string k = sp < 3 ? key.brief : key.full;
		if (sp % 3 == 0) k = low(k);
		if (sp % 3 == 1) for (auto &c : k) c = (char)toupper(c);
		if (sp % 3 == 2) for (size_t i = 0; i < k.size(); i += 2) k[i] = (char)toupper(k[i]);
		std::string par = std::string(key.brief) == "l" || std::string(key.brief) == "sts" ? "file" : std::string(key.brief) == "bf" || std::string(key.brief) == "pb" ? "yes" : "out";
		std::map<std::string, Bytes> tree[2];
		ChildResult c[2];
		for (int i = 0; i < 2; i++) {
			std::string d = fresh();
			std::vector<std::string> a = {"-" + (i ? k : std::string(key.brief))};
			if (std::string(key.brief) == "drc" || std::string(key.brief) == "dpc") a.push_back("1");
			if (key.par >= 1) a.push_back(par);
			if (std::string(key.brief) == "eb" || std::string(key.brief) == "ex" || std::string(key.brief) == "ib") a.push_back("*");
			a.push_back("b.1CD");
			a.push_back("-eax"); a.push_back("out");
			c[i] = must(r, a, 20, d);
			mc::list_tree(d, tree[i]);
		}
		mc::expect_eq("cli:spelling", "exit code of -" + k, c[1].status, c[0].status);
		mc::expect_eq("cli:spelling", "messages of -" + k, c[1].err, c[0].err);
		mc::expect_eq("cli:spelling", "output of -" + k, c[1].out, c[0].out);
		for (auto &x : tree[0]) { if (!tree[1].count(x.first)) mc::fail("cli:spelling", "-" + k + " does not write " + x.first); mc::expect_eq("cli:spelling", x.first, tree[1][x.first], x.second); }
		mc::expect_eq("cli:spelling", "files", tree[1].size(), tree[0].size());
		if (c[0].err.find("Неизвестный") != std::string::npos) mc::fail("cli:unknown-key", std::string("-") + key.brief + " is not recognised");
	});
	// yes/no parameters
	static const std::vector<std::pair<std::string, bool>> yn = {{"1", true}, {"y", true}, {"Y", true}, {"yes", true}, {"YES", true}, {"Yes", true}, {"0", false}, {"n", false}, {"no", false}, {"", false}, {"2", false}, {"true", false}, {"yess", false}, {"да", true}, {"д", true}, {"нет", false}};
	for (size_t i = 0; i < yn.size(); i++) for (int sw = 0; sw < 2; sw++) for (int pos = 0; pos < 2; pos++) r.scenario("a01/yes/" + S(i) + "/" + S(sw) + "/" + S(pos), [&] {
		std::vector<Tab> t2(1);
		t2[0].def.name = "_D"; t2[0].def.fields = {F("_I", "I")};
		Blob bl; Bytes plain = "plain data", st = Bytes("\1\1", 2) + le64(plain.size()) + plain;
		t2[0].rows = {{image(bl, st)}}; t2[0].def.blob = bl.d;
		std::string d = r.fresh_dir();
		mkdir((d + "/out").c_str(), 0700);
		make_base(formats()[0], t2, d + "/b.1CD");
		std::vector<std::string> a;
		std::vector<std::string> opt = {sw ? "-pb" : "-bf", yn[i].first};
		if (pos == 0) a = opt;
		a.insert(a.end(), {"-eax", "out", "b.1CD"});
		if (sw) a.insert(a.end(), {"-bf", "y"});
		if (pos == 1) a.insert(a.end(), opt.begin(), opt.end());
		good(r, a, 20, d);
		std::map<std::string, Bytes> fs;
		mc::list_tree(d + "/out", fs);
		bool bf = sw ? true : yn[i].second, pb = sw ? yn[i].second : true;
		mc::expect_eq("cli:yes-no", "blob file written for " + mc::quote(yn[i].first), fs.count("_D.xml.blob/_I"), bf);
		if (bf) mc::expect_eq("cli:yes-no", "blob file for " + mc::quote(yn[i].first), fs["_D.xml.blob/_I"], pb ? plain : st);
	});
}

// ---------------------------------------------------------------- A02: lists of tables
bool wild(const char *p, const char *s)
{
	if (!*p) return !*s;
	if (*p == '*') return wild(p + 1, s) || (*s && wild(p, s + 1));
	return *s && (*p == '?' || *p == *s) && wild(p + 1, s + 1);
}
void a02(mc::Run &r)
{
	static const std::vector<std::string> names = {"A", "B", "AB", "BA", "AA", "AAB", "ABAB", "ABC", "_A1", "CONFIGCAS2", "A_B", "Ba9", "A.B", "A+B", "AxB", "A$B", "(A)", "A|B", "A[B]", "A{2}", "A^B"};
	std::vector<Tab> ts;
	for (auto &n : names) ts.push_back(tab(n, 1, false, false));
	auto judge = [&](const std::string &list, const std::vector<std::string> &pats, int how) {
		std::string d = r.fresh_dir(), out = d + "/out";
		mkdir(out.c_str(), 0700);
		static Bytes img;
		if (img.empty()) img = make_base(formats()[0], ts, d + "/b.1CD");
		mc::write_file(d + "/b.1CD", img);
		static const char *K[] = {"-ex", "-eb"};
		ChildResult c = must(r, {K[how], out, list, d + "/b.1CD"});
		std::set<std::string> want, got;
		for (auto &n : names) for (auto &p : pats) if (wild(low(p).c_str(), low(n).c_str())) want.insert(how ? n + "/" : n + ".xml");
		std::map<std::string, Bytes> fs;
		mc::list_tree(out, fs);
		for (auto &x : fs) if (how == 0 || x.first.back() == '/') got.insert(x.first);
		bool empty = true;
		for (auto &p : pats) if (!p.empty()) empty = false;
		mc::expect_eq("list:exit", std::string(K[how]) + " with the list " + mc::quote(list) + ": exit code", c.status, empty ? E_ERR : 0);
		if (got != want) {
			std::string m;
			for (auto &x : want) if (!got.count(x)) m += " missing " + x;
			for (auto &x : got) if (!want.count(x)) m += " unexpected " + x;
			mc::fail("list:tables", std::string(K[how]) + " with the list " + mc::quote(list) + ":" + m);
		}
		r.state(list);
	};
	static const std::string al = "Ab*?";
	std::vector<std::string> pats = {""};
	for (size_t from = 0, len = 0; len < (r.thorough ? 4u : 3u); len++) { size_t to = pats.size(); for (size_t i = from; i < to; i++) for (char c : al) pats.push_back(pats[i] + c); from = to; }
	for (size_t i = 0; i < pats.size(); i++) r.scenario("a02/pattern/" + pats[i], [&] { for (int h = 0; h < 2; h++) judge(pats[i], {pats[i]}, h); });
	// characters that mean something in regular expressions stand for themselves
	static const std::string sp = ".+^$()|[]{}\\";
	for (char c : sp) r.scenario(std::string("a02/special/") + c, [&, c] {
		std::string x(1, c);
		for (auto &p : std::vector<std::string>{x, "A" + x, x + "A", "A" + x + "B", "A" + x + "*", "?" + x + "?", x + "A)", "(A" + x, "A[B" + x, "A" + x + "2}", "A{2" + x, "*" + x + "*", x + x, x + "*"})
			for (int h = 0; h < 2; h++) judge(p, {p}, h);
	}, 100);
	static const std::vector<std::string> P = {"A", "b", "aa*", "?", "*c*2", "_a1", "none", "", "AB?", "ba9"};
	static const std::vector<std::string> SEP = {",", ";", " ", "\t", ", ", ",,", " ; "};
	for (size_t i = 0; i < P.size(); i++) for (size_t k = 0; k < P.size(); k++) r.scenario("a02/list/" + P[i] + "+" + P[k], [&] {
		for (auto &s : SEP) judge(P[i] + s + P[k], {P[i], P[k]}, (i + k) % 2);
		judge(" " + P[i] + "," + P[k] + ";B,", {P[i], P[k], "B"}, i % 2);
	}, 100);
	// import takes the same lists
	for (size_t i = 0; i < P.size(); i++) for (size_t k = 0; k < P.size(); k += 3) r.scenario("a02/import/" + P[i] + "+" + P[k], [&] {
		std::string d = r.fresh_dir(), out = d + "/out";
		mkdir(out.c_str(), 0700);
		std::vector<Tab> t1, t2;
		for (auto &n : names) { t1.push_back(tab(n, 2, false, false, 10, 1)); t2.push_back(tab(n, 3, false, false, 10, 2)); }
		Bytes a = make_base(formats()[0], t1, d + "/a.1CD"), b = make_base(formats()[0], t2, d + "/b.1CD");
		good(r, {"-eb", out, "*", d + "/a.1CD"});
		std::string list = P[i] + ";" + P[k];
		ChildResult c = must(r, {"-ib", out, list, d + "/b.1CD"});
		mc::expect_eq("list:exit", "-ib with the list " + mc::quote(list) + ": exit code", c.status, P[i].empty() && P[k].empty() ? E_ERR : 0);
		Bytes g = mc::read_file(d + "/b.1CD");
		for (size_t n = 0; n < names.size(); n++) {
			bool in = wild(low(P[i]).c_str(), low(names[n]).c_str()) || wild(low(P[k]).c_str(), low(names[n]).c_str());
			mc::expect_eq("list:tables", "-ib with the list " + mc::quote(list) + ": table " + names[n], objs(g, t2[n].def).data, in ? objs(a, t1[n].def).data : objs(b, t2[n].def).data);
		}
	});
}

// ---------------------------------------------------------------- A03: table sizes
void a03(mc::Run &r)
{
	auto head = [](const std::string &path, size_t n) { Bytes b(n, '\0'); std::ifstream f(path, std::ios::binary); f.read(&b[0], n); b.resize((size_t)f.gcount()); return b; };
	// the base may have a tail of empty pages that is not read
	auto judge = [&](const Fmt &f, std::vector<Tab> &ts, const std::string &d, size_t sparse = 0, const std::vector<std::string> &first = {}) {
		Bytes img = sparse ? head(d + "/b.1CD", sparse) : mc::read_file(d + "/b.1CD");
		uint64_t size = fs_::file_size(d + "/b.1CD");
		Reader rd(img);
		std::string want = "\xef\xbb\xbf" "table_name|records_count|data_size|blob_size|index_size\r\n";
		for (auto &t : ts) {
			uint64_t dl = rd.obj_len(t.def.data_block);
			want += t.def.name + "|" + S(dl / t.def.reclen()) + "|" + S(dl) + "|" + S(t.def.blob_block ? rd.obj_len(t.def.blob_block) : 0) + "|" + S(t.def.index_block ? rd.obj_len(t.def.index_block) : 0) + "\r\n";
		}
		mc::write_file(d + "/sizes", "old contents that are longer than the new contents may be ..........................................................................................................................");
		std::vector<std::string> args = first;
		for (auto &x : {std::string("-sts"), d + "/sizes", d + "/b.1CD"}) args.push_back(x);
		good(r, args);
		mc::expect_eq("sts:content", "table sizes", mc::read_file(d + "/sizes"), want);
		mc::expect_eq("base:modified", "the base", sparse ? head(d + "/b.1CD", sparse) : mc::read_file(d + "/b.1CD"), img);
		mc::expect_eq("base:modified", "length of the base", (uint64_t)fs_::file_size(d + "/b.1CD"), size);
		r.state(want);
	};
	for (auto &f : formats()) {
		for (int n : {0, 1, 2, 3, 100, 400}) for (int kind = 0; kind < 4; kind++) for (int len : {10, 1000}) r.scenario(std::string("a03/") + f.name + "/" + S(n) + "/" + S(kind) + "/" + S(len), [&] {
			std::vector<Tab> ts = {tab("_X", n, kind & 1, kind & 2, len), tab("Config", 1, true, true), tab("_EMPTY", 0, false, false)};
			ts[1].def.name = "_CONFIG";
			for (int i = 1; i < n; i += 3) ts[0].rows[i].clear(); // removed records still take space
			std::string d = r.fresh_dir();
			make_base(f, ts, d + "/b.1CD");
			judge(f, ts, d);
		});
		// after another command of the same run
		for (int n : {0, 1, 3, 40}) for (int kind = 0; kind < 4; kind++) for (const char *c : {"-eax", "-ex", "-eb", "-slo", "-sts"}) {
			if (f.n838 && std::string(c) == "-slo") continue;
			r.scenario(std::string("a03/after/") + f.name + "/" + S(n) + "/" + S(kind) + "/" + c, [&, n, kind, c] {
				std::vector<Tab> ts = {tab("_X", n, kind & 1, kind & 2, 10), tab("_EMPTY", 0, false, false)};
				for (int i = 1; i < n; i += 3) ts[0].rows[i].clear();
				for (auto &ix : ts[0].def.indexes) for (size_t i = ix.entries.size(); i-- > 0;) if (ts[0].rows[ix.entries[i].second].empty()) ix.entries.erase(ix.entries.begin() + i);
				std::string d = r.fresh_dir(), s = c;
				mkdir((d + "/out").c_str(), 0700);
				make_base(f, ts, d + "/b.1CD");
				std::vector<std::string> a = {s, s == "-sts" ? d + "/sizes" : d + "/out"};
				if (s == "-ex" || s == "-eb") a.push_back("*");
				judge(f, ts, d, 0, a);
			});
		}
		for (int n : {0, 1, 5, 40}) r.scenario(std::string("a03/tables/") + f.name + "/" + S(n), [&] {
			std::vector<Tab> ts;
			for (int i = 0; i < n; i++) ts.push_back(tab("_T" + S(i), i * 3, i & 1, i & 2, 10 + i));
			std::string d = r.fresh_dir();
			make_base(f, ts, d + "/b.1CD");
			judge(f, ts, d);
		});
		// objects that claim to be longer than 2 or 4 GiB (in a sparse base; their pages are shared)
		for (uint64_t len : {0x7fffffffull, 0x80000000ull, 0xfffff000ull, 0x100000000ull, 0x180001234ull, 0x1000000000ull}) {
			if (!f.n838 && len > 1018ull * 1023 * 4096) continue;
			if (f.n838 && len > (uint64_t)f.ps * (f.ps / 4) * (f.ps / 4 - 6)) continue;
			r.scenario(std::string("a03/huge/") + f.name + "/" + S((long long)len), [&] {
				std::vector<Tab> ts = {tab("_X", 3, true, true)};
				std::string d = r.fresh_dir();
				Bytes img = make_base(f, ts, d + "/b.1CD");
				uint32_t b = ts[0].def.blob_block;
				size_t o = (size_t)b * f.ps;
				if (f.n838) {
					img[o + 2] = 1;
					put64(img, o + 16, len);
					uint64_t per = (uint64_t)f.ps * (f.ps / 4), nt = (len + per - 1) / per;
					for (uint64_t i = 0; i < nt; i++) put32(img, o + 24 + 4 * i, 1); // any existing page
				} else {
					put32(img, o + 8, (uint32_t)len);
					uint64_t per = 4096ull * 1023, nt = (len + per - 1) / per;
					for (uint64_t i = 0; i < nt && i < 1018; i++) put32(img, o + 24 + 4 * i, get32(img, o + 24));
				}
				uint64_t pages = img.size() / f.ps + len / f.ps + 2;
				put32(img, 12, (uint32_t)pages);
				mc::write_file(d + "/b.1CD", img);
				if (truncate((d + "/b.1CD").c_str(), (off_t)(pages * f.ps))) mc::fail("harness", "cannot extend the file");
				judge(f, ts, d, img.size());
				mc::rmrf(d);
			});
		}
	}
}

// ---------------------------------------------------------------- M01: messages
void m01(mc::Run &r)
{
	static const std::vector<std::vector<std::string>> cmds = {
		{"-eax", "out"}, {"-eax", "none"}, {"-ex", "out", "_A"}, {"-ex", "out", " "}, {"-ddc", "out"}, {"-drc", "1", "out"}, {"-dpc", "1", "out"}, {"-ib", "none", "*"}, {"-ib", "out", "*"}, {"-sts", "s"},
		{"-slo", "out"}, {"-eb", "out", "*"}, {"-zz"}, {"-dvc", "out"}, {"-eax"}, {"-ne"}};
	std::vector<Tab> ts = {tab("_A", 2, false, false), tab("_B", 1, true, false)};
	auto one = [&](const std::string &id, const std::vector<std::string> &c, const std::string &base, int pos) {
		r.scenario(id, [&] {
			auto go = [&](const std::vector<std::string> &opts, std::string *log, std::map<std::string, Bytes> &tree) {
				std::string d = r.fresh_dir();
				mkdir((d + "/out").c_str(), 0700);
				make_base(formats()[0], ts, d + "/b.1CD");
				mc::write_file(d + "/bad.1CD", "not a base");
				mc::write_file(d + "/log.txt", "old log\n");
				std::vector<std::string> a;
				if (pos == 0) a = opts;
				if (!base.empty()) a.push_back(base);
				if (pos == 1) a.insert(a.end(), opts.begin(), opts.end());
				a.insert(a.end(), c.begin(), c.end());
				ChildResult x = must(r, a, 20, d);
				bool there;
				*log = mc::read_file(d + "/log.txt", &there);
				if (!there) *log = "<none>";
				mc::list_tree(d, tree);
				tree.erase("log.txt");
				return x;
			};
			std::string l0, l1, l2, l3;
			std::map<std::string, Bytes> t0, t1, t2, t3;
			ChildResult plain = go({"-q"}, &l0, t0), logged = go({"-l", "log.txt"}, &l1, t1), quiet = go({"-nv"}, &l2, t2), both = go({"-nv", "-l", "log.txt"}, &l3, t3);
			// what is reported while the arguments are read can not know about the log yet
			std::string early;
			if (plain.err.compare(0, logged.err.size(), logged.err) == 0) early = logged.err;
			else mc::fail("log:console", "with a log file the console shows " + mc::quote(logged.err) + ", without: " + mc::quote(plain.err));
			if (!early.empty() && early.find("ключ") == std::string::npos && early.find("Повторное") == std::string::npos) mc::fail("log:console", "messages of the commands still go to the console: " + mc::quote(early));
			std::string rest = plain.err.substr(early.size());
			mc::expect_eq("log:old", "log file of a run without -l", l0, "old log\n");
			mc::expect_eq("log:content", "the log file", l1 == "<none>" ? "" : l1, rest);
			mc::expect_eq("log:quiet", "console of a run with -nv", quiet.err, early);
			mc::expect_eq("log:quiet", "log file of a run with -nv only", l2, "old log\n");
			mc::expect_eq("log:both", "console of a run with -nv -l", both.err, early);
			mc::expect_eq("log:both", "log file of a run with -nv -l", l3 == "<none>" ? "" : l3, rest);
			for (auto *x : {&logged, &quiet, &both}) mc::expect_eq("log:exit", "exit code", x->status, plain.status);
			mc::expect_eq("log:files", "files written", t1 == t0 && t2 == t0 && t3 == t0, true);
			if (plain.status != 0 && plain.err.empty()) mc::fail("log:silent", "a failing run says nothing");
			r.state(plain.err);
		});
	};
	// something that is no log stands in the place of the log (everything lies in the directory of the scenario)
	static const char *const OBST[] = {"directory", "empty", "dirlink", "noparent", "fileparent", "filelink", "readonly"};
	auto obst = [&](const std::string &id, const std::vector<std::string> &c, const std::string &base, int kind) {
		r.scenario(id, [&r, &ts, c, base, kind] {
			const bool usable = kind >= 5;
			const char *name = kind == 3 ? "none/log.txt" : kind == 4 ? "f/log.txt" : "log.txt";
			auto go = [&](const std::vector<std::string> &opts, std::string *log, std::map<std::string, Bytes> &tree) {
				std::string d = r.fresh_dir(), l = d + "/log.txt";
				mkdir((d + "/out").c_str(), 0700);
				make_base(formats()[0], ts, d + "/b.1CD");
				mc::write_file(d + "/bad.1CD", "not a base");
				mc::write_file(d + "/f", "a file");
				if (kind == 0 || kind == 1) mkdir(l.c_str(), 0700);
				if (kind == 0) { mc::write_file(l + "/keep.txt", "keep"); mkdir((l + "/kept").c_str(), 0700); mc::write_file(l + "/kept/x", "y"); }
				if (kind == 2) { mkdir((d + "/real").c_str(), 0700); mc::write_file(d + "/real/keep.txt", "keep"); if (symlink("real", l.c_str())) mc::fail("machinery", "symlink"); }
				if (kind == 5) { mc::write_file(d + "/old.txt", "old"); if (symlink("old.txt", l.c_str())) mc::fail("machinery", "symlink"); }
				if (kind == 6) { mc::write_file(l, "old"); chmod(l.c_str(), 0400); }
				std::vector<std::string> a = opts;
				if (!base.empty()) a.push_back(base);
				a.insert(a.end(), c.begin(), c.end());
				ChildResult x = must(r, a, 20, d);
				if (usable) { *log = mc::read_file(l); unlink(l.c_str()); unlink((d + "/old.txt").c_str()); }
				mc::list_tree(d, tree);
				struct stat st;
				if (!usable && kind < 3 && (stat(l.c_str(), &st) || !S_ISDIR(st.st_mode))) mc::fail("log:directory", std::string("the directory in the place of the log is gone (") + OBST[kind] + ")");
				return x;
			};
			std::string l0, l1, l2;
			std::map<std::string, Bytes> t0, t1, t2;
			ChildResult plain = go({"-q"}, &l0, t0), logged = go({"-l", name}, &l1, t1), quiet = go({"-nv", "-l", name}, &l2, t2);
			if (usable) {
				if (plain.err.size() != logged.err.size() + l1.size() || plain.err != logged.err + l1) mc::fail("log:content", "the log holds " + mc::quote(l1) + ", the console would show " + mc::quote(plain.err));
				mc::expect_eq("log:both", "log file of a run with -nv -l", l2, l1);
			} else {
				mc::expect_eq("log:lost", std::string("console of a run whose log can not be written (") + OBST[kind] + ")", logged.err, plain.err);
				if (plain.err.compare(0, quiet.err.size(), quiet.err) || (!quiet.err.empty() && quiet.err.find("ключ") == std::string::npos)) mc::fail("log:quiet", "console of a run with -nv: " + mc::quote(quiet.err));
			}
			for (auto *x : {&logged, &quiet}) mc::expect_eq("log:exit", "exit code", x->status, plain.status);
			mc::expect_eq("log:files", "files left", t1 == t0 && t2 == t0, true);
			r.state(plain.err + OBST[kind]);
		});
	};
	for (size_t i = 0; i < cmds.size(); i++) {
		for (const char *b : {"b.1CD", "bad.1CD", ""}) for (int k = 0; k < 7; k++) obst("m01/obst/" + S(i) + "/" + b + "/" + OBST[k], cmds[i], b, k);
		for (const char *b : {"b.1CD", "bad.1CD", "none.1CD", ""}) for (int pos = 0; pos < 2; pos++) one("m01/1/" + S(i) + "/" + b + "/" + S(pos), cmds[i], b, pos);
		for (size_t k = 0; k < cmds.size(); k++) { auto c = cmds[i]; if (c.size() == 1 && c[0] == "-eax") continue; c.insert(c.end(), cmds[k].begin(), cmds[k].end()); one("m01/2/" + S(i) + "/" + S(k), c, "b.1CD", 0); }
	}
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "T06") t06(r);
	else if (r.prop == "T07") t07(r);
	else if (r.prop == "S06") s06(r);
	else if (r.prop == "A01") a01(r);
	else if (r.prop == "A02") a02(r);
	else if (r.prop == "A03") a03(r);
	else if (r.prop == "M01") m01(r);
	else { fprintf(stderr, "h_cli: unknown property %s\n", r.prop.c_str()); exit(2); }
}
