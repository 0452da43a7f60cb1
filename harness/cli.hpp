// Driving the real command-line program, and reading what it writes.
#pragma once
#include "lib.hpp"
#include <functional>
#include "TempStream.h"

int ctool1cd_main(int argc, char **argv);

namespace cli {

using mc::Run;
using mc::ChildResult;

// A child of a process that has used temporary files must not remove their directory when it ends.
template <class T> auto own_temp_dir(int) -> decltype(T::tempcat.clear(), void()) { T::tempcat.clear(); }
template <class T> void own_temp_dir(long) {}

// Run the program in a child process with these arguments (argv[0] is added).
inline ChildResult run(Run &r, const std::vector<std::string> &args, double cpu = 20, const std::string &cwd = "", std::function<void()> prepare = nullptr)
{
	r.step();
	ChildResult c = r.child([&]() -> int {
		if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(77);
		own_temp_dir<TTempStream>(0);
		if (prepare) prepare();
		std::vector<std::string> a = args;
		a.insert(a.begin(), "ctool1cd");
		std::vector<char *> p;
		for (auto &s : a) p.push_back(&s[0]);
		p.push_back(nullptr);
		return ctool1cd_main((int)a.size(), p.data()) & 0xff;
	}, cpu);
	return c;
}
inline std::string show(const std::vector<std::string> &args)
{
	std::string s;
	for (auto &a : args) s += " " + mc::quote(a);
	return s;
}
inline std::string last(const std::string &s, size_t n = 1500) { return s.size() > n ? "..." + s.substr(s.size() - n) : s; }
// the part of the output that tells about the crash
inline std::string report(const std::string &err)
{
	size_t p = err.find("ERROR: AddressSanitizer");
	if (p == std::string::npos) return last(err, 2500);
	p = err.rfind('\n', p); p = p == std::string::npos ? 0 : p;
	return err.substr(p, 2500);
}
// must end normally (no crash, no time-out); returns the exit code
inline int ok(const ChildResult &c, const std::vector<std::string> &args)
{
	if (c.status < 0) mc::fail("cli:hang", "ctool1cd" + show(args) + " does not terminate");
	if (c.crashed()) mc::fail(c.status == 99 ? mc::crash_sig(c.err, 99) : "cli:crash", "ctool1cd" + show(args) + " died with status " + std::to_string(c.status) + ": " + report(c.err));
	return c.status;
}
inline ChildResult must(Run &r, const std::vector<std::string> &args, double cpu = 20, const std::string &cwd = "", std::function<void()> prepare = nullptr)
{
	ChildResult c = run(r, args, cpu, cwd, prepare);
	ok(c, args);
	return c;
}
// must succeed
inline ChildResult good(Run &r, const std::vector<std::string> &args, double cpu = 20, const std::string &cwd = "")
{
	ChildResult c = must(r, args, cpu, cwd);
	if (c.status != 0) mc::fail("cli:exit", "ctool1cd" + show(args) + " ended with code " + std::to_string((int8_t)c.status) + ": " + last(c.err));
	return c;
}

// ---- strict reader of small XML documents
struct Node {
	std::string name, text;
	std::vector<std::pair<std::string, std::string>> attrs;
	std::vector<Node> kids;
	std::string attr(const std::string &n) const
	{
		for (auto &a : attrs) if (a.first == n) return a.second;
		mc::fail("xml:attribute", "element " + name + " has no attribute " + n);
	}
};

struct Xml {
	const std::string &s;
	size_t p = 0;
	explicit Xml(const std::string &x) : s(x) {}
	[[noreturn]] void bad(const std::string &m) { mc::fail("xml:malformed", m + " at offset " + std::to_string(p) + ": " + mc::quote(s.substr(p > 40 ? p - 40 : 0, 120))); }
	bool at(const char *t) const { return s.compare(p, strlen(t), t) == 0; }
	void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
	void check_char(unsigned char c) { if (c < 32 && c != 9 && c != 10 && c != 13) bad("control character"); }
	std::string entity()
	{
		static const char *e[][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}};
		for (auto &x : e) if (at(x[0])) { p += strlen(x[0]); return x[1]; }
		if (at("&#")) {
			size_t q = s.find(';', p);
			if (q == std::string::npos || q - p > 10) bad("bad character reference");
			std::string d = s.substr(p + 2, q - p - 2);
			uint32_t c = d[0] == 'x' ? strtoul(d.c_str() + 1, nullptr, 16) : strtoul(d.c_str(), nullptr, 10);
			p = q + 1;
			std::string r;
			if (c < 0x80) r += (char)c;
			else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
			else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
			else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
			return r;
		}
		bad("bad entity");
	}
	std::string word()
	{
		size_t b = p;
		while (p < s.size() && !strchr(" \t\r\n/>=<\"'", s[p])) p++;
		if (p == b) bad("name expected");
		return s.substr(b, p - b);
	}
	Node element()
	{
		Node n;
		if (s[p] != '<') bad("element expected");
		p++;
		n.name = word();
		while (true) {
			ws();
			if (at("/>")) { p += 2; return n; }
			if (at(">")) { p++; break; }
			std::string a = word();
			if (!at("=\"")) bad("attribute value expected");
			p += 2;
			std::string v;
			while (p < s.size() && s[p] != '"') {
				if (s[p] == '&') v += entity();
				else if (s[p] == '<') bad("'<' in an attribute");
				else { check_char(s[p]); v += s[p++]; }
			}
			if (p >= s.size()) bad("unterminated attribute");
			p++;
			for (auto &x : n.attrs) if (x.first == a) bad("duplicate attribute " + a);
			n.attrs.push_back({a, v});
		}
		std::string text;
		bool pure = true;
		while (true) {
			if (p >= s.size()) bad("unterminated element " + n.name);
			if (at("</")) {
				p += 2;
				if (word() != n.name) bad("mismatched end tag of " + n.name);
				ws();
				if (!at(">")) bad("'>' expected");
				p++;
				break;
			}
			if (at("<")) { n.kids.push_back(element()); pure = false; continue; }
			if (s[p] == '&') text += entity();
			else { check_char(s[p]); if (at("]]>")) bad("]]> in text"); text += s[p++]; }
		}
		if (!pure) { for (char c : text) if (!strchr(" \t\r\n", c) || !c) bad("stray text inside " + n.name); }
		else n.text = text;
		return n;
	}
	Node document()
	{
		if (!at("\xef\xbb\xbf")) mc::fail("xml:bom", "the file does not begin with the UTF-8 byte order mark: " + mc::hex(s, 8));
		p = 3;
		if (!at("<?xml ")) bad("XML declaration expected");
		size_t q = s.find("?>", p);
		if (q == std::string::npos) bad("unterminated declaration");
		std::string d = s.substr(p, q - p);
		if (d.find("encoding=\"UTF-8\"") == std::string::npos) bad("encoding is not UTF-8");
		p = q + 2;
		while (true) { ws(); if (!at("<!--")) break; q = s.find("-->", p); if (q == std::string::npos) bad("unterminated comment"); p = q + 3; }
		Node n = element();
		ws();
		if (p != s.size()) bad("content after the root element");
		return n;
	}
};

inline bool b64(const std::string &in, Bytes &out)
{
	static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string s;
	for (char c : in) if (c != '\r' && c != '\n') s += c;
	out.clear();
	if (s.size() % 4) return false;
	for (size_t i = 0; i < s.size(); i += 4) {
		int pad = 0; uint32_t v = 0;
		for (int k = 0; k < 4; k++) {
			char c = s[i + k];
			size_t x;
			if (c == '=') { if (i + 4 != s.size() || k < 2) return false; pad++; x = 0; }
			else { if (pad) return false; x = a.find(c); if (x == std::string::npos) return false; }
			v = v << 6 | (uint32_t)x;
		}
		out += (char)(v >> 16);
		if (pad < 2) out += (char)(v >> 8);
		if (pad < 1) out += (char)v;
		if ((pad == 2 && (v & 0xffff)) || (pad == 1 && (v & 0xff))) return false;
	}
	return true;
}

// decimal number in canonical form, "" when it is not one
inline std::string canon(const std::string &s)
{
	size_t i = 0;
	bool neg = false;
	if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
	std::string a, b;
	size_t st = i;
	while (i < s.size() && isdigit((unsigned char)s[i])) a += s[i++];
	if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) b += s[i++]; if (b.empty()) return ""; }
	if (i != s.size() || (a.empty() && b.empty()) || i == st) return "";
	size_t z = 0;
	while (z < a.size() && a[z] == '0') z++;
	a = a.substr(z);
	while (!b.empty() && b.back() == '0') b.pop_back();
	if (a.empty() && b.empty()) return "0";
	return (neg ? "-" : "") + (a.empty() ? "0" : a) + (b.empty() ? "" : "." + b);
}

// ---- tables as the user sees them
enum Kind { TEXT, NUM, DATE, BASE64 };
struct V {
	bool null = false;
	Bytes raw;         // value bytes without the presence byte
	std::string want;
	Kind kind = TEXT;
};
inline V text(const Bytes &raw, const std::string &want) { V v; v.raw = raw; v.want = want; return v; }
inline V num(const std::string &digits, int len, int prec, bool neg = false)
{
	std::string d = digits;
	while ((int)d.size() < len) d = "0" + d;
	V v; v.kind = NUM; v.raw = img::num(d, len, neg);
	v.want = (neg ? "-" : "") + d.substr(0, len - prec) + (prec ? "." + d.substr(len - prec) : "");
	if (canon(v.want).empty()) v.want = (neg ? "-0." : "0.") + d.substr(len - prec);
	return v;
}
inline V date(const std::string &d14)
{
	V v; v.kind = DATE; v.raw = img::dt(d14);
	v.want = d14.substr(0, 4) + "-" + d14.substr(4, 2) + "-" + d14.substr(6, 2) + "T" + d14.substr(8, 2) + ":" + d14.substr(10, 2) + ":" + d14.substr(12, 2);
	return v;
}
inline V null_() { V v; v.null = true; return v; }
inline V image(img::Blob &b, const Bytes &d) { V v; v.kind = BASE64; v.raw = img::blobref(d.empty() ? 0 : b.add(d), d.size()); v.want = d; return v; }
inline V memo(img::Blob &b, const std::string &utf8) { Bytes d = img::utf16(utf8); V v; v.raw = img::blobref(d.empty() ? 0 : b.add(d), d.size()); v.want = utf8; return v; }
inline V txt(img::Blob &b, const std::string &utf8) { V v; v.raw = img::blobref(utf8.empty() ? 0 : b.add(utf8), utf8.size()); v.want = utf8; return v; }
inline std::string hexs(const Bytes &b) { std::string r; char t[4]; for (unsigned char c : b) { snprintf(t, 4, "%02x", c); r += t; } return r; }
inline V bin(const Bytes &b) { return text(b, hexs(b)); }
inline std::string guid1c(const Bytes &b)
{
	std::string h = hexs(b);
	return h.substr(24, 8) + "-" + h.substr(20, 4) + "-" + h.substr(16, 4) + "-" + h.substr(0, 4) + "-" + h.substr(4, 12);
}
inline V nvc(const std::string &s, int len) { return text(img::nvc(s, len), s); }
inline V nc(const std::string &s, int len)
{
	std::string w = s;
	for (int n = img::utf16(s).size() / 2; n < len; n++) w += ' ';
	return text(img::nc(s, len), w);
}

struct Tab {
	img::TableDef def;
	std::vector<std::vector<V>> rows; // physical records; an empty row is a removed record
	std::vector<std::string> hidden;  // expected value of the hidden version field, per record
	int mark = 1;                     // first byte of a removed record
	// encode rows into def.records
	void encode()
	{
		def.records.clear(); hidden.clear();
		for (size_t i = 0; i < rows.size(); i++) {
			if (rows[i].empty()) {
				Bytes d = def.deleted(i + 1 < rows.size() ? 0 : 1);
				d[0] = (char)mark;
				for (size_t k = 5; k < d.size(); k++) d[k] = (char)0xD7; // leftovers of the old record
				def.records.push_back(d); hidden.push_back(""); continue;
			}
			std::vector<Bytes> enc;
			for (size_t k = 0; k < def.fields.size(); k++) {
				const V &v = rows[i][k];
				int sz = def.fields[k].size() - (def.fields[k].null ? 1 : 0);
				Bytes e = v.null ? Bytes(sz, (char)0xEE) : v.raw;
				if ((int)e.size() != sz) { fprintf(stderr, "harness: bad value size %zu for %s(%d)\n", e.size(), def.fields[k].type.c_str(), sz); _exit(77); }
				if (def.fields[k].null) e = (v.null ? Bytes(1, '\0') : Bytes(1, '\1')) + e;
				enc.push_back(e);
			}
			Bytes r = def.rec(enc);
			std::string h;
			if (def.recordlock && !def.has_version()) {
				uint32_t a = 1000 + i, b = 7 * i;
				img::put32(r, 1, a); img::put32(r, 5, b);
				h = std::to_string(a) + ":" + std::to_string(b);
			}
			def.records.push_back(r);
			hidden.push_back(h);
		}
	}
	std::vector<int> live() const { std::vector<int> l; for (size_t i = 0; i < rows.size(); i++) if (!rows[i].empty()) l.push_back(i); return l; }
};

inline std::string type_name(const std::string &t)
{
	static const std::map<std::string, std::string> m = {{"B", "binary"}, {"L", "bool"}, {"N", "number"}, {"NC", "fixed string"}, {"NVC", "string"}, {"RV", "version"},
		{"NT", "memo"}, {"T", "text"}, {"I", "image"}, {"DT", "datetime"}, {"VB", "var binary"}};
	return m.at(t);
}
inline void check_cell(const V &v, const img::FieldDef &f, const Node &k, const std::string &where)
{
	if (k.name != f.name) mc::fail("xml:field-name", where + ": element " + k.name + " where field " + f.name + " is expected");
	if (!k.kids.empty()) mc::fail("xml:structure", where + ": the value of " + f.name + " contains elements");
	if (v.null) { if (!k.text.empty()) mc::fail("xml:null", where + ", field " + f.name + ": NULL presented as " + mc::quote(k.text)); return; }
	if (v.kind == TEXT) { if (k.text != v.want) mc::fail("xml:value:" + f.type, where + ", field " + f.name + " (" + f.type + "): " + mc::diff(k.text, v.want)); }
	else if (v.kind == NUM) { if (canon(k.text).empty() || canon(k.text) != canon(v.want)) mc::fail("xml:value:N", where + ", field " + f.name + ": number " + mc::quote(k.text) + " want " + canon(v.want)); }
	else if (v.kind == DATE) {
		std::string g = k.text;
		size_t d = g.find('-');
		if (d != std::string::npos && d > 0 && d < 4) g = std::string(4 - d, '0') + g;
		if (g != v.want) mc::fail("xml:value:DT", where + ", field " + f.name + ": date " + mc::quote(k.text) + " want " + v.want);
	} else {
		Bytes b;
		if (!b64(k.text, b)) mc::fail("xml:base64", where + ", field " + f.name + ": not base64: " + mc::quote(k.text));
		if (b != v.want) mc::fail("xml:value:I", where + ", field " + f.name + ": image: " + mc::diff(b, v.want));
	}
}
// the exported document lists exactly the records `order` of the table, in that order
inline void check_doc(const std::string &file, const Tab &t, const std::vector<int> &order)
{
	bool there;
	std::string s = mc::read_file(file, &there);
	if (!there) mc::fail("xml:missing", "no file " + file.substr(file.rfind('/') + 1));
	Node d = Xml(s).document();
	if (d.name != "Table" || d.attr("Name") != t.def.name) mc::fail("xml:table-name", "root element " + d.name + " Name=" + (d.attrs.empty() ? "" : d.attrs[0].second));
	if (d.kids.size() != 2 || d.kids[0].name != "Fields" || d.kids[1].name != "Records") mc::fail("xml:structure", "the root element does not consist of Fields and Records");
	bool hid = t.def.recordlock && !t.def.has_version();
	auto &fs = d.kids[0].kids;
	size_t nf = t.def.fields.size();
	if (fs.size() != nf + (hid ? 1 : 0) && fs.size() != nf) mc::fail("xml:fields", "the file describes " + std::to_string(fs.size()) + " fields, the table has " + std::to_string(nf));
	for (size_t i = 0; i < nf; i++) {
		const img::FieldDef &f = t.def.fields[i];
		auto &x = fs[i];
		if (x.name != "Field" || x.attr("Name") != f.name || x.attr("Type") != type_name(f.type) || x.attr("Length") != std::to_string(f.len) ||
			x.attr("Precision") != std::to_string(f.prec) || x.attr("NotNull") != (f.null ? "false" : "true"))
			mc::fail("xml:field-description", "field " + std::to_string(i) + " (" + f.name + "," + f.type + ") is described as Name=" + x.attr("Name") + " Type=" + x.attr("Type") +
				" Length=" + x.attr("Length") + " Precision=" + x.attr("Precision") + " NotNull=" + x.attr("NotNull"));
	}
	auto &rs = d.kids[1].kids;
	if (rs.size() != order.size()) mc::fail("xml:record-count", "table " + t.def.name + ": " + std::to_string(rs.size()) + " records exported, " + std::to_string(order.size()) + " expected");
	for (size_t i = 0; i < order.size(); i++) {
		std::string where = "table " + t.def.name + ", record " + std::to_string(i + 1) + " of " + std::to_string(order.size());
		if (rs[i].name != "Record" || rs[i].kids.size() != fs.size()) mc::fail("xml:structure", where + ": " + rs[i].name + " with " + std::to_string(rs[i].kids.size()) + " values");
		for (size_t k = 0; k < nf; k++) check_cell(t.rows[order[i]][k], t.def.fields[k], rs[i].kids[k], where);
		if (fs.size() > nf && rs[i].kids[nf].text != t.hidden[order[i]]) mc::fail("xml:hidden-version", where + ": hidden version " + rs[i].kids[nf].text + " want " + t.hidden[order[i]]);
	}
}

// layouts of a base
struct Fmt { const char *name; bool n838; uint32_t ps; int ver[4]; int mode; };
inline const std::vector<Fmt> &formats()
{
	static const std::vector<Fmt> f = {
		{"8.2.14", false, 4096, {8, 2, 14, 0}, 0}, {"8.3.8-4K", true, 4096, {8, 3, 8, 0}, 0}, {"8.3.8-8K", true, 8192, {8, 3, 8, 0}, 1}, {"8.1", false, 4096, {8, 1, 0, 0}, 1},
		{"8.0.5", false, 4096, {8, 0, 5, 0}, 0}, {"8.2.0", false, 4096, {8, 2, 0, 0}, 0}, {"8.0.3", false, 4096, {8, 0, 3, 0}, 1}, {"8.3.8-16K", true, 16384, {8, 3, 8, 0}, 0},
		{"8.3.8-64K", true, 65536, {8, 3, 8, 0}, 1}};
	return f;
}
inline img::Base base_of(const Fmt &f) { img::Base b(f.n838, f.ps, f.mode); b.set_ver(f.ver[0], f.ver[1], f.ver[2], f.ver[3]); return b; }
// tables -> base image in `path`
inline Bytes make_base(const Fmt &f, std::vector<Tab> &ts, const std::string &path)
{
	img::Base b = base_of(f);
	std::vector<img::TableDef> ds;
	for (auto &t : ts) { t.encode(); ds.push_back(t.def); }
	Bytes d = img::build(b, ds);
	for (size_t i = 0; i < ts.size(); i++) ts[i].def = ds[i];
	mc::write_file(path, d);
	return d;
}

} // namespace cli
