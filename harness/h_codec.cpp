// Text, number and stream layers: the bracket-text parser, packing and encodings, identifiers, numbers and dates, streams.
#include "lib.hpp"
#include "v8c.hpp"
#include "Parse_tree.h"
#include "UZLib.h"
#include "Base64.h"
#include "CRC32.h"
#include "BinaryGuid.h"
#include "BinaryDecimalNumber.h"
#include "TempStream.h"
#include "DetailedException.h"
#include "SystemClasses/String.hpp"
#include "SystemClasses/System.SysUtils.hpp"
#include <zlib.h>

namespace {

std::string S(long long x) { return std::to_string(x); }

// ---------------------------------------------------------------- U01: bracket texts
struct Node { std::string v; int type = 0; std::vector<Node> kids; };
enum { T_EMPTY, T_STRING, T_NUMBER, T_EXP, T_GUID, T_LIST, T_BIN, T_BIN2, T_LINK, T_BIND, T_UNKNOWN };
int tcode(node_type t)
{
	switch (t) {
	case node_type::nd_empty: return T_EMPTY;
	case node_type::nd_string: return T_STRING;
	case node_type::nd_number: return T_NUMBER;
	case node_type::nd_number_exp: return T_EXP;
	case node_type::nd_guid: return T_GUID;
	case node_type::nd_list: return T_LIST;
	case node_type::nd_binary: return T_BIN;
	case node_type::nd_binary2: return T_BIN2;
	case node_type::nd_link: return T_LINK;
	case node_type::nd_binary_d: return T_BIND;
	default: return T_UNKNOWN;
	}
}
bool dig(char c) { return c >= '0' && c <= '9'; }
bool hexd(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool b64c(char c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '+' || c == '=' || c == '/' || c == '\r' || c == '\n'; }
bool b64s(const std::string &s) { for (char c : s) if (!b64c(c)) return false; return true; }
int classify(const std::string &s)
{
	if (s.empty()) return T_EMPTY;
	size_t i = 0, n = s.size();
	auto digits = [&] { size_t b = i; while (i < n && dig(s[i])) i++; return i > b; };
	if (s[0] == '-') i++;
	if (digits()) {
		if (i == n) return T_NUMBER;
		if (s[i] == '.') { i++; digits(); }
		if (i == n) return T_EXP;
		if (s[i] == 'e' || s[i] == 'E') { i++; if (i < n && s[i] == '-') i++; if (digits() && i == n) return T_EXP; }
	}
	if (n == 36) {
		bool ok = true;
		for (size_t k = 0; k < 36; k++) ok = ok && (k == 8 || k == 13 || k == 18 || k == 23 ? s[k] == '-' : hexd(s[k]));
		if (ok) return T_GUID;
	}
	if (s.compare(0, 8, "#base64:") == 0 && b64s(s.substr(8))) return T_BIN;
	size_t c = s.find(':');
	if (c != s.npos && c > 0 && n == c + 33) {
		bool ok = true;
		for (size_t k = 0; k < n; k++) if (k != c) ok = ok && (k < c ? dig(s[k]) : hexd(s[k]));
		if (ok) return T_LINK;
	}
	if (b64s(s)) return T_BIN2;
	if (s.compare(0, 6, "#data:") == 0 && b64s(s.substr(6))) return T_BIND;
	return T_UNKNOWN;
}
bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
// the tree a text denotes; false when it denotes none
struct RefParser {
	const std::string &s; size_t i = 0; bool unknown_at_end = false;
	RefParser(const std::string &s) : s(s) {}
	void skip() { while (i < s.size() && ws(s[i])) i++; }
	// a sequence of values up to the end (top) or to a closing brace
	bool items(Node &n, bool top)
	{
		bool first = true;
		for (;;) {
			skip();
			if (i == s.size()) return false; // a value is expected
			if (s[i] == '}') {
				if (top) return false;
				if (!first) n.kids.push_back({"", T_EMPTY, {}});
				i++;
				return true;
			}
			if (s[i] == ',') { n.kids.push_back({"", T_EMPTY, {}}); first = false; i++; continue; }
			Node k;
			if (s[i] == '"') {
				k.type = T_STRING;
				for (i++;; i++) {
					if (i == s.size()) return false;
					if (s[i] != '"') { k.v += s[i]; continue; }
					if (i + 1 < s.size() && s[i + 1] == '"') { k.v += '"'; i++; continue; }
					i++;
					break;
				}
			} else if (s[i] == '{') {
				k.type = T_LIST;
				i++;
				if (!items(k, false)) return false;
			} else {
				while (i < s.size() && s[i] != ',' && s[i] != '}') k.v += s[i++];
				k.type = classify(k.v);
				if (k.type == T_UNKNOWN) { if (i == s.size() && top) unknown_at_end = true; else return false; }
			}
			n.kids.push_back(k);
			first = false;
			skip();
			if (i == s.size()) return top;
			if (s[i] == ',') { i++; continue; }
			if (s[i] == '}') { if (top) return false; i++; return true; }
			return false;
		}
	}
};
void compare(Tree *t, const Node &n, const std::string &what)
{
	mc::expect_eq("tree:count", what + ": number of elements", t->get_num_subnode(), n.kids.size());
	Tree *k = t->get_first();
	for (size_t i = 0; i < n.kids.size(); i++, k = k->get_next()) {
		if (!k) mc::fail("tree:chain", what + ": the chain of elements ends at " + S(i));
		if (t->get_subnode((int)i) != k || &(*t)[(int)i] != k || k->get_parent() != t) mc::fail("tree:links", what + ": element " + S(i) + " is linked wrongly");
		mc::expect_eq("tree:type", what + "/" + S(i) + " (" + mc::quote(n.kids[i].v) + "): type", tcode(k->get_type()), n.kids[i].type);
		mc::expect_eq("tree:value", what + "/" + S(i) + ": value", k->get_value(), n.kids[i].v);
		compare(k, n.kids[i], what + "/" + S(i));
	}
	if (k) mc::fail("tree:chain", what + ": the chain of elements is too long");
	if (!n.kids.empty() && !(t->get_last() == t->get_subnode((int)n.kids.size() - 1))) mc::fail("tree:links", what + ": last element");
	if (t->get_subnode((int)n.kids.size())) mc::fail("tree:links", what + ": an element past the end");
}
void write(const Node &n, std::string &o)
{
	if (n.type == T_LIST) {
		if (!o.empty()) o += "\r\n";
		o += "{";
		for (size_t i = 0; i < n.kids.size(); i++) { if (i) o += ","; write(n.kids[i], o); }
		if (!n.kids.empty() && n.kids.back().type == T_LIST) o += "\r\n";
		o += "}";
	} else if (n.type == T_STRING) { o += "\""; for (char c : n.v) { o += c; if (c == '"') o += c; } o += "\""; }
	else o += n.v;
}
int g_errors;
struct Counter : public MessageRegistrator {
	virtual void AddMessage(const std::string &, const MessageState st, TStringList * = nullptr) { if (st == MessageState::Error) g_errors++; }
	virtual void AddDebugMessage(const std::string &, const MessageState, TStringList * = nullptr) {}
	virtual void Status(const std::string &) {}
};
bool parse(const std::string &text, int how, std::unique_ptr<Tree> &out)
{
	try {
		if (how == 0) out = parse_1Ctext(text, "t");
		else {
			TMemoryStream m;
			if (how == 2) m.Write("\xef\xbb\xbf", 3);
			m.Write(text.data(), text.size());
			m.Seek(0, soBeginning);
			out = parse_1Cstream(&m, "t");
		}
	} catch (const DetailedException &) { return false; }
	return true;
}
void judge(const std::string &text, const std::string &path = "")
{
	Node n; n.type = T_LIST;
	RefParser p(text);
	bool ok = p.items(n, true);
	for (int how = 0; how < 3; how++) {
		std::unique_ptr<Tree> t;
		bool got = parse(text, how, t);
		static const char *H[] = {"text ", "stream ", "stream with a mark "};
		std::string what = H[how] + mc::quote(text, 400);
		if (p.unknown_at_end) { if (got && ok) compare(t.get(), n, what); continue; } // reported as an error message
		if (got != ok) mc::fail(ok ? "tree:rejected" : "tree:accepted", what + (ok ? " is rejected" : " is accepted"));
		if (!ok) continue;
		compare(t.get(), n, what);
		if (how) continue;
		if (n.kids.empty()) continue;
		std::string o = outtext(t.get()), w;
		write(n.kids[0], w);
		mc::expect_eq("tree:outtext", "text written for the first element of " + mc::quote(text, 400), o, w);
		if (n.kids[0].type == T_EMPTY) continue;
		std::unique_ptr<Tree> t2;
		if (!parse(o, 0, t2)) mc::fail("tree:roundtrip", "the text written for " + mc::quote(text) + " is rejected: " + mc::quote(o));
		Node one; one.type = T_LIST; one.kids = {n.kids[0]};
		compare(t2.get(), one, "the text written for " + mc::quote(text));
	}
}
void u01(mc::Run &r)
{
	static const std::string al = "{},\" 1a-";
	auto all = [&](const std::string &al, size_t depth, size_t tail, const std::string &name, const std::string &before, const std::string &after) {
		// one scenario per prefix
		std::function<void(std::string, size_t)> rec = [&](std::string pre, size_t n) {
			if (n == 0) {
				r.scenario("u01/" + name + "/" + pre, [&] {
					size_t cnt = 0;
					std::function<void(const std::string &, size_t)> in = [&](const std::string &s, size_t k) {
						judge(before + s + after); r.step(); cnt++;
						if (k) for (char c : al) in(s + c, k - 1);
					};
					in(pre, tail);
					r.state(name + pre);
				}, 100);
				return;
			}
			for (char c : al) rec(pre + c, n - 1);
		};
		for (size_t d = 0; d < depth; d++) { // shorter texts
			std::function<void(std::string, size_t)> sh = [&](std::string s, size_t n) { if (!n) { r.scenario("u01/" + name + "-short/" + s, [&] { judge(before + s + after); }); return; } for (char c : al) sh(s + c, n - 1); };
			sh("", d);
		}
		rec("", depth);
	};
	all(al, 2, r.thorough ? 5 : 4, "structure", "", "");
	all("{},\"\n", 2, r.thorough ? 6 : 4, "lists", "{1,{\"x\",2},", "");
	all("1-.eE+", 2, r.thorough ? 5 : 3, "numbers", "{", "}");
	all("#:1aAz/=_\r", 1, r.thorough ? 4 : 3, "values", "{", ",1}");
	// long values: each character changed or removed
	static const std::vector<std::string> longs = {"01234567-89ab-cdef-ABCD-EF0123456789", "#base64:QUJD+/==\r\nQQ==", "#data:QUJD", "12:0123456789abcdefABCDEF0123456789", "-123456789012345678901234567890.5e-17"};
	static const std::string sub = "0aGz-:#.+=/ \"_e{";
	for (size_t l = 0; l < longs.size(); l++) r.scenario("u01/long/" + S(l), [&] {
		for (size_t k = 0; k <= longs[l].size(); k++) {
			for (char c : sub) { std::string x = longs[l]; if (k < x.size()) { x[k] = c; judge("{" + x + "}"); } x = longs[l]; x.insert(k, 1, c); judge("{" + x + "}"); judge(x); r.step(); }
			std::string x = longs[l]; x.erase(k, 1); judge("{" + x + ",}"); judge("{1," + longs[l].substr(0, k) + "}");
		}
	});
	// every byte inside a string, doubled quotes, and as a value
	r.scenario("u01/bytes", [&] {
		for (int c = 1; c < 256; c++) {
			std::string s(1, (char)c);
			if (c != '"') { judge("{\"" + s + "\"}"); judge("{\"a" + s + "b\",\"" + s + s + "\"}"); }
			judge("{" + s + "}"); judge(s); judge("{1" + s + "}"); judge("{\"x\"" + s + "}"); judge("{{}" + s + "}"); judge("\"" + s); r.step();
		}
	});
	// deep and wide
	for (int n : {10, 1000, 3000}) r.scenario("u01/deep/" + S(n), [&] { judge(std::string(n, '{') + "1" + std::string(n, '}')); judge(std::string(n, '{') + "1" + std::string(n - 1, '}')); judge(std::string(n, '{') + "1" + std::string(n + 1, '}')); }, 100);
	for (int n : {10, 1000, 5000}) r.scenario("u01/wide/" + S(n), [&] { std::string s = "{"; for (int i = 0; i < n; i++) s += (i ? "," : "") + S(i); judge(s + "}"); }, 100);
}

// ---------------------------------------------------------------- U02: packing and encodings
Bytes bytes_of(TStream &s)
{
	int64_t n = s.GetSize();
	Bytes r((size_t)n, '\0');
	s.Seek(0, soBeginning);
	r.resize((size_t)std::max<int64_t>(0, s.Read(&r[0], n)));
	return r;
}
struct Mem : TMemoryStream { Mem(const Bytes &b) { Write(b.data(), b.size()); Seek(0, soBeginning); } Mem() {} };
// reference inflate: 0 ok, 1 damaged
int ref_inflate(const Bytes &in, Bytes &out, size_t *rest = nullptr)
{
	out.clear();
	if (rest) *rest = 0;
	if (in.empty()) return 0;
	z_stream z; memset(&z, 0, sizeof z);
	inflateInit2(&z, -15);
	z.next_in = (Bytef *)in.data(); z.avail_in = in.size();
	int e;
	static Bytes buf(1 << 18, '\0');
	do {
		z.next_out = (Bytef *)&buf[0]; z.avail_out = buf.size();
		e = inflate(&z, Z_NO_FLUSH);
		out.append(buf.data(), buf.size() - z.avail_out);
	} while (e == Z_OK);
	if (rest) *rest = z.avail_in;
	inflateEnd(&z);
	return e == Z_STREAM_END ? 0 : 1;
}
Bytes content(int kind, size_t n)
{
	if (kind == 0) return Bytes(n, '\0');
	if (kind == 1) return pattern(7, 0, n);
	Bytes s; while (s.size() < n) s += "{1,\"line " + S(s.size() / 7) + "\"}\r\n"; s.resize(n); return s;
}
void inflate_case(const Bytes &in, const std::string &what)
{
	Bytes want; size_t rest; int bad = ref_inflate(in, want, &rest);
	Mem src(in), dst;
	bool threw = false;
	try { ZInflateStream(&src, &dst); } catch (const ZError &) { threw = true; }
	if (threw != (bad != 0)) mc::fail(bad ? "inflate:accepted" : "inflate:rejected", what + (bad ? ": damaged data are accepted" : ": intact data are rejected"));
	if (!bad) mc::expect_eq("inflate:content", what, bytes_of(dst), want);
	Mem s2(in), d2;
	ZInflateOrCopy(&s2, &d2);
	mc::expect_eq("inflate:or-copy", what + ", inflated or copied", bytes_of(d2), bad || rest ? in : want);
}
void u02(mc::Run &r)
{
	std::vector<size_t> sizes = {0, 1, 2, 100, 1000, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65536, 100000, 163840};
	if (r.thorough) for (size_t n : {3u, 8191u, 8192u, 16382u, 16386u, 49151u, 49153u, 131071u, 131072u, 131073u, 1048576u, 5000000u}) sizes.push_back(n);
	for (size_t n : sizes) for (int k = 0; k < 3; k++) {
		r.scenario("u02/deflate/" + S(n) + "/" + S(k), [&] {
			Bytes p = content(k, n), q;
			for (int pos = 0; pos < 2; pos++) for (int file = 0; file < 2; file++) {
				Mem src(pos ? "skip" + p : p);
				src.Seek(pos ? 4 : 0, soBeginning);
				Mem mem; TTempStream tmp;
				TStream *dst = file ? (TStream *)&tmp : &mem;
				if (!ZDeflateStream(&src, dst)) mc::fail("deflate:result", "packing " + S(n) + " bytes reports failure");
				Bytes z = bytes_of(*dst);
				if (z.empty() || ref_inflate(z, q)) mc::fail("deflate:damaged", "the packed form of " + S(n) + " bytes is damaged");
				mc::expect_eq("deflate:content", "unpacked", q, p);
				Mem back, zs(z);
				ZInflateStream(&zs, &back);
				mc::expect_eq("inflate:content", "unpacked", bytes_of(back), p);
				r.state(z);
			}
		}, 60);
		for (int level = 0; level <= 9; level += 3) r.scenario("u02/inflate/" + S(n) + "/" + S(k) + "/" + S(level), [&] {
			Bytes p = content(k, n), z = v8c::deflate_raw(p, level);
			inflate_case(z, "data of " + S(n) + " bytes");
			inflate_case(z + "trailing", "data of " + S(n) + " bytes with a tail");
			for (size_t cut : {(size_t)1, (size_t)2, z.size() / 2, z.size() - 1}) if (cut < z.size()) inflate_case(z.substr(0, cut), "data of " + S(n) + " bytes cut to " + S(cut));
			if (z.size() > 20000) for (size_t cut : {(size_t)16383, (size_t)16384, (size_t)16385}) inflate_case(z.substr(0, cut), "data of " + S(n) + " bytes cut to " + S(cut));
			for (size_t at : {(size_t)0, z.size() / 2, z.size() * 3 / 4, z.size() - 1}) { Bytes x = z; x[at] ^= 0xff; inflate_case(x, "data of " + S(n) + " bytes with byte " + S(at) + " inverted"); }
			r.state(z);
		}, 60);
	}
	// all short inputs; every cut and every one-byte change of a small packed text
	r.scenario("u02/inflate-short/0", [&] { inflate_case("", "nothing"); for (int a = 0; a < 256; a++) inflate_case(Bytes(1, (char)a), "byte " + S(a)); });
	for (int a = 0; a < 256; a += r.thorough ? 1 : 2) r.scenario("u02/inflate-short/1/" + S(a), [&] { for (int b = 0; b < 256; b++) { inflate_case(Bytes(1, (char)a) + (char)b, "bytes " + S(a) + " " + S(b)); r.step(); } });
	for (int k = 0; k < 3; k++) for (int level = 0; level < 10; level += 9) r.scenario("u02/inflate-damage/" + S(k) + "/" + S(level), [&] {
		Bytes z = v8c::deflate_raw(content(k, 90), level);
		for (size_t i = 0; i <= z.size(); i++) {
			inflate_case(z.substr(0, i), "cut to " + S(i));
			if (i < z.size()) for (int v = 0; v < 256; v += r.thorough ? 1 : 5) { Bytes x = z; x[i] = (char)v; inflate_case(x, "byte " + S(i) + " set to " + S(v)); r.step(); }
		}
	}, 100);
	// base64
	static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	auto b64 = [&](const Bytes &p, int line) {
		std::string o; size_t n = 0;
		for (size_t i = 0; i < p.size(); i += 3, n++) {
			if (line && n && n % (line / 4) == 0) o += "\r\n";
			uint32_t v = 0; size_t k = std::min<size_t>(3, p.size() - i);
			for (size_t j = 0; j < 3; j++) v = v << 8 | (j < k ? (uint8_t)p[i + j] : 0);
			for (size_t j = 0; j < 4; j++) o += j <= k ? B[v >> (18 - 6 * j) & 63] : '=';
		}
		return o;
	};
	auto wide = [](const std::string &s) { Bytes r; for (char c : s) { r += c; r += '\0'; } return r; };
	for (int line : {0, 4, 64, 72, 76}) r.scenario("u02/base64/" + S(line), [&] {
		std::vector<Bytes> ps;
		for (size_t n = 0; n <= 200; n++) ps.push_back(pattern(n, 0, n));
		for (int a = 0; a < 256; a++) { ps.push_back(Bytes(1, (char)a)); ps.push_back(Bytes(2, (char)a)); ps.push_back(Bytes("x") + (char)a + "y"); ps.push_back(Bytes("xy") + (char)a); }
		for (size_t n : {1000, 4096, 50001}) ps.push_back(pattern(n, 0, n));
		for (auto &p : ps) {
			std::string t = b64(p, line);
			Mem in(p), out;
			base64_encode(&in, &out, line);
			mc::expect_eq("base64:encode", "base64 of " + mc::hex(p), bytes_of(out), wide(t));
			Mem w(wide(t)), d1, d2, d3;
			base64_decode(&w, &d1);
			mc::expect_eq("base64:decode", "decoded base64 (UTF-16) of " + mc::hex(p), bytes_of(d1), p);
			base64_decode(t, &d2, 0);
			mc::expect_eq("base64:decode", "decoded base64 of " + mc::hex(p), bytes_of(d2), p);
			std::string pre = "#base64:", sp;
			for (size_t i = 0; i < t.size(); i++) { sp += t[i]; if (i % 3 == 1) sp += " \r\n"; }
			base64_decode(pre + sp, &d3, (int)pre.size());
			mc::expect_eq("base64:decode", "decoded base64 with spaces of " + mc::hex(p), bytes_of(d3), p);
			r.step();
		}
	}, 60);
	// hexadecimal
	r.scenario("u02/hex", [&] {
		for (int h = 0; h < 256; h++) {
			for (int l = 0; l < 256; l++) {
				unsigned char v = 1;
				bool ok = two_hex_digits_to_byte((char)h, (char)l, v), want = hexd((char)h) && hexd((char)l);
				mc::expect_eq("hex:pair", "two_hex_digits_to_byte " + S(h) + " " + S(l), ok, want);
				if (want) mc::expect_eq("hex:pair", "value of " + S(h) + " " + S(l), v, strtol((std::string(1, (char)h) + (char)l).c_str(), nullptr, 16));
			}
			mc::expect_eq("hex:digit", "from_hex_digit " + S(h), from_hex_digit((char)h), hexd((char)h) ? strtol(std::string(1, (char)h).c_str(), nullptr, 16) : 0);
			Bytes b = Bytes(1, (char)h) + Bytes(1, '\0') + (char)(255 - h);
			mc::expect_eq("hex:string", "hexstring", hexstring(b.data(), 3), mc::hex(b));
			Mem m(b); mc::expect_eq("hex:string", "hexstring of a stream", hexstring(&m), mc::hex(b));
			r.step();
		}
		for (size_t n = 0; n < 100; n++) { Bytes p = pattern(n, 0, n); mc::expect_eq("hex:string", "hexstring", hexstring(p.data(), n), mc::hex(p, 1000)); }
	});
	r.scenario("u02/xml", [&] {
		static const std::string al = "&<>'\"a;";
		std::function<void(const std::string &)> rec = [&](const std::string &s) {
			std::string w;
			for (char c : s) w += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '\'' ? "&apos;" : c == '"' ? "&quot;" : std::string(1, c);
			mc::expect_eq("xml:escape", "toXML of " + mc::quote(s), toXML(s), w);
			r.step();
			if (s.size() < 5) for (char c : al) rec(s + c);
		};
		rec("");
		for (int c = 0; c < 256; c++) if (!strchr("&<>'\"", c) || !c) mc::expect_eq("xml:escape", "toXML", toXML(Bytes("x") + (char)c), Bytes("x") + (char)c);
	}, 60);
	r.scenario("u02/crc", [&] {
		for (size_t n : {0, 1, 2, 3, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 100000}) for (int k = 0; k < 3; k++) {
			Bytes p = content(k, n); Mem m(p); m.Seek(n / 2, soBeginning);
			mc::expect_eq("crc", "CRC32 of " + S(n) + " bytes", _crc32(&m), crc32(0, (const Bytef *)p.data(), p.size()));
		}
		for (int a = 0; a < 256; a++) { Mem m(Bytes(1, (char)a)); Bytef b = a; mc::expect_eq("crc", "CRC32", _crc32(&m), crc32(0, &b, 1)); }
	});
	// UTF-8 and UTF-16
	for (uint32_t blk = 0; blk < 0x110000; blk += 0x1000) r.scenario("u02/utf/" + S(blk), [&] {
		for (uint32_t c = blk; c < blk + 0x1000; c++) {
			if (c >= 0xd800 && c < 0xe000) continue;
			std::string u; Bytes w;
			if (c < 0x80) u = std::string(1, (char)c); else if (c < 0x800) { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 63)); }
			else if (c < 0x10000) { u += (char)(0xe0 | c >> 12); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
			else { u += (char)(0xf0 | c >> 18); u += (char)(0x80 | (c >> 12 & 63)); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
			if (c < 0x10000) { w += (char)c; w += (char)(c >> 8); } else { uint32_t h = 0xd800 + ((c - 0x10000) >> 10), l = 0xdc00 + ((c - 0x10000) & 1023); w += (char)h; w += (char)(h >> 8); w += (char)l; w += (char)(l >> 8); }
			std::vector<uint8_t> in(w.begin(), w.end()), got = TEncoding::Unicode->fromUtf8("x" + u);
			mc::expect_eq("utf:to16", "UTF-16 of character " + S(c), Bytes(got.begin(), got.end()), Bytes("x\0", 2) + w);
			mc::expect_eq("utf:to8", "UTF-8 of character " + S(c), TEncoding::Unicode->toUtf8(in, 0), u);
			std::vector<uint8_t> b8(u.begin(), u.end());
			mc::expect_eq("utf:to8", "UTF-8 of character " + S(c), TEncoding::UTF8->toUtf8(b8, 0), u);
			// letter case: Latin and Russian letters
			auto enc = [](uint32_t c) { std::string u; if (c < 0x80) u = std::string(1, (char)c); else { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 63)); } return u; };
			if (c) {
				std::string lo = u, up = u;
				if ((c >= 'A' && c <= 'Z') || (c >= 0x410 && c <= 0x42f)) lo = enc(c + 32);
				if ((c >= 'a' && c <= 'z') || (c >= 0x430 && c <= 0x44f)) up = enc(c - 32);
				if (c == 0x401) lo = enc(0x451);
				if (c == 0x451) up = enc(0x401);
				mc::expect_eq("case:lower", "LowerCase of character " + S(c), System::LowerCase("q" + u + "R"), "q" + lo + "r");
				mc::expect_eq("case:upper", "UpperCase of character " + S(c), System::UpperCase("q" + u + "R"), "Q" + up + "R");
				mc::expect_eq("case:equal", "EqualIC of character " + S(c), System::EqualIC(up + "a", lo + "A"), System::LowerCase(up) == lo);
			}
			r.step();
		}
	}, 60);
	r.scenario("u02/ends-with", [&] {
		static const std::vector<std::string> al = {"a", "A", "Я", "я", "Ё", "1"};
		std::vector<std::vector<std::string>> ws = {{}};
		for (size_t from = 0, len = 0; len < 3; len++) { size_t to = ws.size(); for (size_t i = from; i < to; i++) for (auto &c : al) { auto w = ws[i]; w.push_back(c); ws.push_back(w); } from = to; }
		auto lw = [](const std::string &c) { return c == "A" ? std::string("a") : c == "Я" ? std::string("я") : c == "Ё" ? std::string("ё") : c; };
		for (auto &a : ws) for (auto &b : ws) {
			std::string x, y;
			for (auto &c : a) x += c;
			for (auto &c : b) y += c;
			bool want = b.size() <= a.size(), eq = a.size() == b.size();
			for (size_t i = 0; want && i < b.size(); i++) want = lw(a[a.size() - 1 - i]) == lw(b[b.size() - 1 - i]);
			for (size_t i = 0; eq && i < b.size(); i++) eq = lw(a[i]) == lw(b[i]);
			mc::expect_eq("case:ends-with", mc::quote(x) + " ends with " + mc::quote(y), System::EndsWithIC(x, y), want);
			mc::expect_eq("case:equal", mc::quote(x) + " equals " + mc::quote(y), System::EqualIC(x, y), eq);
			r.step();
		}
	}, 60);
	r.scenario("u02/marks", [&] {
		static const std::vector<Bytes> starts = {"", "\xef", "\xef\xbb", "\xef\xbb\xbf", "\xff", "\xff\xfe", "\xfe\xff", "\xef\xbb\xbe", Bytes("\xff\xfe\0\0", 4)};
		for (auto &s : starts) for (auto &t : {Bytes(), Bytes("x"), Bytes("xyz")}) {
			Bytes b = s + t;
			std::vector<uint8_t> v(b.begin(), b.end());
			TEncoding *e = nullptr;
			int n = TEncoding::GetBufferEncoding(v, e);
			bool u8 = b.compare(0, 3, "\xef\xbb\xbf") == 0, u16 = b.compare(0, 2, "\xff\xfe") == 0;
			mc::expect_eq("utf:mark", "length of the mark of " + mc::hex(b), n, u8 ? 3 : u16 ? 2 : 0);
			if (u8 || u16) mc::expect_eq("utf:mark", "encoding of " + mc::hex(b), e == (u8 ? TEncoding::UTF8 : TEncoding::Unicode), true);
		}
		static const std::vector<std::string> ss = {"", "a", "ab", "aab", "ba", "abab", "&amp;", "aaa"};
		for (auto &s : ss) for (auto &o : ss) if (!o.empty()) for (auto &n : ss) for (int all = 0; all < 2; all++) {
			std::string w; size_t i = 0; bool done = false;
			while (i < s.size()) { if (!done && s.compare(i, o.size(), o) == 0) { w += n; i += o.size(); done = !all; } else w += s[i++]; }
			mc::expect_eq("replace", "replacing " + o + " by " + n + " in " + s, StringReplace(s, o, n, all ? System::rfReplaceAll : 0), w);
		}
	});
}

// ---------------------------------------------------------------- U03: identifiers, numbers, dates
void u03(mc::Run &r)
{
	auto one = [&](const Bytes &g) {
		static const int ord1[] = {12, 13, 14, 15, -1, 10, 11, -1, 8, 9, -1, 0, 1, -1, 2, 3, 4, 5, 6, 7}, ordm[] = {3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15};
		std::string w1, wm;
		for (int i : ord1) w1 += i < 0 ? "-" : mc::hex(g.substr(i, 1));
		for (int i : ordm) wm += i < 0 ? "-" : mc::hex(g.substr(i, 1));
		BinaryGuid b(g.data());
		mc::expect_eq("guid:1c", "1C form of " + mc::hex(g), b.as_1C(), w1);
		mc::expect_eq("guid:ms", "Microsoft form of " + mc::hex(g), b.as_MS(), wm);
		mc::expect_eq("guid:1c", "1C form", GUIDas1C((const unsigned char *)g.data()), w1);
		mc::expect_eq("guid:ms", "Microsoft form", GUIDasMS((const unsigned char *)g.data()), wm);
		mc::expect_eq("guid:1c", "1C form", GUID_to_string(b), w1);
		std::string up = w1; for (auto &c : up) c = (char)toupper(c);
		for (auto &s : {w1, up, mc::hex(g)}) {
			BinaryGuid q;
			if (!string_to_GUID(s, &q)) mc::fail("guid:read", s + " is not read");
			if (!(q == b) || q != b) mc::fail("guid:read", s + " is read as " + q.as_1C());
		}
		r.state(w1);
		mc::expect_eq("guid:empty", "emptiness of " + w1, b.is_empty(), g == Bytes(16, '\0'));
		BinaryGuid copy(b); if (!(copy == b)) mc::fail("guid:copy", w1);
	};
	for (int i = 0; i < 16; i++) r.scenario("u03/guid/" + S(i), [&] {
		for (int v = 0; v < 256; v++) { for (int bg = 0; bg < 2; bg++) { Bytes g = bg ? pattern(3, 0, 16) : Bytes(16, '\0'); g[i] = (char)v; one(g); } r.step(); }
		for (int k = 0; k < 16; k++) for (int a : {0, 1, 127, 128, 255}) for (int b : {0, 1, 127, 128, 255}) {
			Bytes x = pattern(3, 0, 16), y = x; x[i] = (char)a; y[k] = (char)b;
			BinaryGuid p(x.data()), q(y.data());
			mc::expect_eq("guid:order", "order of " + mc::hex(x) + " and " + mc::hex(y), p > q, x > y);
			mc::expect_eq("guid:order", "equality", p == q, x == y);
		}
	});
	r.scenario("u03/guid-length", [&] {
		std::string s = "01234567-89ab-cdef-0123-456789abcdef";
		for (size_t n = 0; n <= 50; n++) {
			std::string x = (s + s).substr(0, n);
			BinaryGuid q(Bytes(16, 'x').data()), was(q);
			bool ok = string_to_GUID(x, &q);
			mc::expect_eq("guid:length", "a text of " + S(n) + " characters is read", ok, n == 36 || n == 32);
			if (!ok && !(q == was)) mc::fail("guid:length", "a refused text changes the result");
		}
	});
	// numbers: every value of the alphabet, stored and read back
	for (int len = 1; len <= (r.thorough ? 6 : 5); len++) for (int prec = 0; prec <= len; prec++) for (int sg = len > 1 ? 0 : 1; sg < 2; sg++) r.scenario("u03/number/" + S(len) + "." + S(prec) + "/" + S(sg), [&] {
		int lim = 1; for (int i = 0; i < len; i++) lim *= 10;
		int step = lim > 10000 ? 7 : 1;
		for (int v = 0; v < lim; v += step) for (int neg = 0; neg <= sg; neg++) {
			char d[16]; snprintf(d, 16, "%0*d", len, v);
			Bytes raw;
			std::string nib = (sg ? std::string(neg ? "0" : "1") : "") + d;
			if (nib.size() % 2) nib += "0";
			for (size_t i = 0; i < nib.size(); i += 2) raw += (char)((nib[i] - '0') << 4 | (nib[i + 1] - '0'));
			std::string ip = std::string(d).substr(0, len - prec), fp = std::string(d).substr(len - prec);
			while (ip.size() > 1 && ip[0] == '0') ip.erase(0, 1);
			if (ip.empty()) ip = "0";
			while (!fp.empty() && fp.back() == '0') fp.pop_back();
			std::string want = (neg ? "-" : "") + ip + (fp.empty() ? "" : "." + fp);
			if (v == 0 && neg) want = "0";
			BinaryDecimalNumber n(raw.data(), len, prec, sg);
			if (!(v == 0 && neg)) mc::expect_eq("number:read", "number " + mc::hex(raw), n.get_presentation(), want);
			Bytes out(raw.size(), '\0');
			n.write_to(&out[0]);
			r.state(S(len) + "," + S(prec) + "," + S(sg) + raw);
			mc::expect_eq("number:write", "stored form of " + want, out, raw);
			std::string is; for (int x : n.get_int()) is += (char)('0' + x);
			for (int x : n.get_frac()) is += (char)('0' + x);
			mc::expect_eq("number:parts", "digits of " + want, is, d);
			// from text
			if (v == 0 && neg) continue;
			BinaryDecimalNumber m(want, sg, len, prec);
			Bytes o2(raw.size(), '\0');
			m.write_to(&o2[0]);
			mc::expect_eq("number:from-text", "stored form of the text " + want + " (" + S(len) + "," + S(prec) + (sg ? ",signed)" : ")"), o2, raw);
			r.step();
		}
	}, 100);
	// dates
	for (int mon = 1; mon <= 12; mon++) r.scenario("u03/date/" + S(mon), [&] {
		for (int y : {1, 99, 1000, 1899, 1970, 1999, 2000, 2018, 2024, 3999, 9999}) for (int d = 1; d <= 31; d++) for (int h : {0, 1, 9, 10, 12, 19, 20, 23}) for (int mi : {0, 9, 10, 59}) {
			int s = (d * 7 + h + mi) % 60;
			char c1[32], h1[32];
			snprintf(c1, 32, "%04d%02d%02d%02d%02d%02d", y, mon, d, h, mi, s);
			snprintf(h1, 32, "%02d.%02d.%04d %02d:%02d:%02d", d, mon, y, h, mi, s);
			Bytes raw;
			for (int i = 0; i < 14; i += 2) raw += (char)((c1[i] - '0') << 4 | (c1[i + 1] - '0'));
			mc::expect_eq("date:read", "date", date_to_string1C(raw.data()), c1);
			mc::expect_eq("date:read", "date", date_to_string(raw.data()), h1);
			r.state(raw);
			BinaryDecimalDate b(raw.data());
			if (b.get_year() != y || b.get_month() != mon || b.get_day() != d || b.get_hour() != h || b.get_minute() != mi || b.get_second() != s) mc::fail("date:parts", std::string("components of ") + c1);
			Bytes o(7, '\0');
			string1C_to_date(c1, &o[0]);
			mc::expect_eq("date:write", std::string("stored form of ") + c1, o, raw);
			o.assign(7, '\0');
			string_to_date(h1, &o[0]);
			mc::expect_eq("date:write", std::string("stored form of ") + h1, o, raw);
			r.step();
		}
	}, 60);
	// whole numbers in text
	r.scenario("u03/int", [&] {
		static const std::vector<std::pair<std::string, int>> t = {{"0", 0}, {"1", 1}, {"-1", -1}, {"2147483647", 2147483647}, {"2147483648", -7}, {"-2147483648", -2147483647 - 1}, {"", -7}, {"x", -7}, {"99999999999999999999999", -7}, {"007", 7}};
		for (auto &x : t) mc::expect_eq("int", "number in " + mc::quote(x.first), System::ToIntDef(x.first, -7), x.second);
		for (int i = -100000; i < 100000; i++) mc::expect_eq("int", "number", System::ToIntDef(S(i), 12345678), i);
	});
}

// ---------------------------------------------------------------- U04: streams
struct Model {
	Bytes d; int64_t p = 0;
	// A file stream that was made shorter may show its old bytes again when it grows: that is not specified, so such a gap is filled explicitly
	bool file = false, shrunk = false;
	void fill_gap(TStream &s, int64_t from, int64_t to)
	{
		if (!file || !shrunk || from >= to) return;
		int64_t at = s.GetPosition();
		s.Seek(from, soBeginning);
		Bytes z(to - from, '\0');
		s.Write(z.data(), z.size());
		s.SetPosition(at);
	}
};
struct Op { std::string name; std::function<void(TStream &, Model &, const std::string &)> f; };
void u04(mc::Run &r)
{
	auto wr = [](size_t n, uint32_t tag) {
		return [n, tag](TStream &s, Model &m, const std::string &w) {
			Bytes b = pattern(tag, m.p, n);
			if (!n && m.p > (int64_t)m.d.size()) return; // whether this makes the stream longer is not specified
			if (n) m.fill_gap(s, m.d.size(), m.p);
			int64_t k = s.Write(b.data(), n);
			mc::expect_eq("stream:write", w + "bytes written", k, n);
			if (n) { if ((int64_t)m.d.size() < m.p + (int64_t)n) m.d.resize(m.p + n, '\0'); m.d.replace(m.p, n, b); m.p += n; }
		};
	};
	auto rd = [](size_t n, bool vec) {
		return [n, vec](TStream &s, Model &m, const std::string &w) {
			int64_t avail = m.p < (int64_t)m.d.size() ? std::min<int64_t>(n, m.d.size() - m.p) : 0;
			Bytes b(n + 8, '#'); int64_t k;
			if (vec) { std::vector<uint8_t> v; k = s.Read(v, n); b.assign(v.begin(), v.end()); b.resize(std::max<size_t>(b.size(), n)); }
			else k = s.Read(&b[0], n);
			mc::expect_eq("stream:read", w + "bytes read", k, avail);
			mc::expect_eq("stream:content", w + "what was read", b.substr(0, avail), avail ? m.d.substr(m.p, avail) : Bytes());
			m.p += avail;
		};
	};
	auto sk = [](int base, int off) { // base: 0 begin, 1 current, 2 end, 3 begin + size
		return [base, off](TStream &s, Model &m, const std::string &w) {
			int64_t n = m.d.size(), to = base == 0 ? off : base == 1 ? m.p + off : base == 2 ? n - off : n + off;
			bool ok = to >= 0 && to <= n, threw = false;
			int64_t got = 0;
			try { got = s.Seek(base == 3 ? to : off, base == 1 ? soFromCurrent : base == 2 ? soFromEnd : soFromBeginning); } catch (const std::exception &) { threw = true; }
			mc::expect_eq("stream:seek", w + (ok ? "a possible move is refused" : "an impossible move is refused"), threw, !ok);
			if (ok) { mc::expect_eq("stream:seek", w + "new position", got, to); m.p = to; }
		};
	};
	auto ss = [](int kind, int d) { // set size
		return [kind, d](TStream &s, Model &m, const std::string &) {
			int64_t to = kind == 0 ? d : (int64_t)m.d.size() + d;
			if (to < 0) to = 0;
			int64_t was = m.d.size();
			s.SetSize(to);
			if (to < was) m.shrunk = true;
			m.fill_gap(s, was, to);
			m.d.resize(to, '\0');
			if (m.p > to) m.p = to;
		};
	};
	auto cp = [](int64_t n, size_t have, int64_t at) {
		return [n, have, at](TStream &s, Model &m, const std::string &w) {
			Bytes src = pattern(99, 0, have);
			TMemoryStream x; x.Write(src.data(), src.size()); x.Seek(at, soBeginning);
			Bytes part = n == 0 ? src : src.substr(at, n);
			if (!part.empty()) m.fill_gap(s, m.d.size(), m.p);
			int64_t k = s.CopyFrom(&x, n);
			mc::expect_eq("stream:copy", w + "bytes copied", k, part.size());
			if (!part.empty()) { if (m.d.size() < m.p + part.size()) m.d.resize(m.p + part.size(), '\0'); m.d.replace(m.p, part.size(), part); m.p += part.size(); }
		};
	};
	std::vector<Op> ops = {
		{"w0", wr(0, 1)}, {"w3", wr(3, 2)}, {"w20", wr(20, 3)}, {"r1", rd(1, false)}, {"r5", rd(5, false)}, {"r100", rd(100, false)}, {"rv4", rd(4, true)},
		{"b0", sk(0, 0)}, {"b2", sk(0, 2)}, {"b-1", sk(0, -1)}, {"n0", sk(3, 0)}, {"n1", sk(3, 1)}, {"c1", sk(1, 1)}, {"c-2", sk(1, -2)}, {"e0", sk(2, 0)}, {"e1", sk(2, 1)},
		{"s0", ss(0, 0)}, {"s-2", ss(1, -2)}, {"s+3", ss(1, 3)}, {"p2", [](TStream &s, Model &m, const std::string &) { s.SetPosition(m.d.size() + 2); m.p = m.d.size() + 2; }},
		{"cp0", cp(0, 6, 3)}, {"cp4", cp(4, 6, 1)}, {"cp9", cp(9, 6, 2)}, {"cpe", cp(0, 0, 0)}, {"str", [](TStream &s, Model &m, const std::string &) { m.fill_gap(s, m.d.size(), m.p); s.WriteString("text"); if (m.d.size() < (size_t)m.p + 4) m.d.resize(m.p + 4, '\0'); m.d.replace(m.p, 4, "text"); m.p += 4; }},
	};
	static const char *KIND[] = {"memory", "temp", "file", "bytes"};
	size_t depth = r.thorough ? 4 : 3;
	auto state_ok = [&](TStream &s, const Model &m, const std::string &w) {
		mc::expect_eq("stream:size", w + "size", s.GetSize(), m.d.size());
		mc::expect_eq("stream:position", w + "position", s.GetPosition(), m.p);
	};
	for (int kind = 0; kind < 4; kind++) for (size_t a = 0; a < ops.size(); a++) for (size_t b = 0; b < ops.size(); b++)
		r.scenario(std::string("u04/") + KIND[kind] + "/" + ops[a].name + "." + ops[b].name, [&] {
			std::string d = r.fresh_dir();
			std::vector<size_t> seq = {a, b};
			std::function<void()> rec = [&] {
				for (int init = 0; init < 2; init++) {
					std::unique_ptr<TStream> s;
					Model m;
					m.file = kind == 1 || kind == 2;
					if (kind == 0) s.reset(new TMemoryStream);
					else if (kind == 1) s.reset(new TTempStream);
					else if (kind == 2) s.reset(new TFileStream(d + "/f", fmCreate));
					else { m.d = pattern(50, 0, init ? 11 : 0); s.reset(new TBytesStream(std::vector<uint8_t>(m.d.begin(), m.d.end()))); }
					if (init && kind < 3) { m.d = pattern(50, 0, 11); s->Write(m.d.data(), 11); s->Seek(0, soBeginning); }
					std::string w = std::string(KIND[kind]) + (init ? " stream of 11 bytes," : " stream,");
					for (size_t o : seq) {
						w += " " + ops[o].name;
						ops[o].f(*s, m, w + ": ");
						state_ok(*s, m, w + ": ");
						r.step();
					}
					s->Seek(0, soBeginning);
					Bytes all(m.d.size() + 50, '#');
					int64_t k = s->Read(&all[0], all.size());
					mc::expect_eq("stream:content", w + ": contents", all.substr(0, std::max<int64_t>(k, 0)), m.d);
					r.state(m.d + S(m.p));
				}
				if (seq.size() < depth + (kind == 0)) for (size_t o = 0; o < ops.size(); o++) { seq.push_back(o); rec(); seq.pop_back(); }
			};
			rec();
		}, 200);
	// a file that is closed and used again keeps what was written
	r.scenario("u04/reopen", [&] {
		std::string d = r.fresh_dir();
		for (size_t n : {0, 1, 5, 5000}) for (int64_t at : {0, 1, 4}) {
			if (at > (int64_t)n) continue;
			Bytes b = pattern(n, 0, n);
			{
				TFileStream f(d + "/g", fmCreate);
				f.Write(b.data(), n); f.Seek(at, soBeginning); f.Close();
				mc::expect_eq("stream:reopen", "the closed file", mc::read_file(d + "/g"), b);
				mc::expect_eq("stream:reopen", "size of the closed stream", f.GetSize(), n);
				Bytes x(n, '\0');
				mc::expect_eq("stream:reopen", "bytes read after reopening", f.Read(&x[0], n - at), n - at);
				mc::expect_eq("stream:reopen", "contents after reopening", x.substr(0, n - at), b.substr(at));
				f.Close();
				f.Write("end", 3);
			}
			mc::expect_eq("stream:reopen", "the file", mc::read_file(d + "/g"), b + "end");
			{
				TFileStream f(d + "/g", fmOpenRead | fmShareDenyNone);
				mc::expect_eq("stream:reopen", "size", f.GetSize(), n + 3);
				Bytes x(n + 3, '\0'); f.Read(&x[0], n + 3);
				mc::expect_eq("stream:reopen", "contents", x, b + "end");
			}
			{
				TFileStream f(d + "/g", fmOpenReadWrite | fmShareDenyWrite);
				f.Write("Z", 1);
			}
			mc::expect_eq("stream:reopen", "the file changed in place", mc::read_file(d + "/g"), "Z" + (b + "end").substr(1));
		}
		for (uint16_t mode : {(uint16_t)(fmOpenRead | fmShareDenyNone), (uint16_t)(fmOpenReadWrite | fmShareDenyWrite)}) {
			bool threw = false;
			try { TFileStream f(d + "/missing", mode); } catch (const std::exception &) { threw = true; }
			if (!threw || mc::exists(d + "/missing")) mc::fail("stream:missing", "a missing file is opened");
		}
	});
	// large transfers
	for (size_t n : {4095u, 4096u, 4097u, 65536u, 1000000u}) for (int kind = 0; kind < 3; kind++) r.scenario("u04/large/" + S(n) + "/" + S(kind), [&] {
		std::unique_ptr<TStream> s, t;
		std::string d = r.fresh_dir();
		auto mk = [&](const char *nm) -> TStream * { if (kind == 0) return new TMemoryStream; if (kind == 1) return new TTempStream; return new TFileStream(d + nm, fmCreate); };
		s.reset(mk("/a")); t.reset(mk("/b"));
		Bytes b = pattern(1, 0, n);
		s->Write(b.data(), n); s->Write(b.data(), n);
		t->CopyFrom(s.get(), 0);
		mc::expect_eq("stream:content", "a copy", bytes_of(*t), b + b);
		s->Seek(n / 2, soBeginning); t->Seek(3, soBeginning);
		t->CopyFrom(s.get(), n);
		Bytes w = b + b; w.replace(3, n, (b + b).substr(n / 2, n));
		mc::expect_eq("stream:content", "a partial copy", bytes_of(*t), w);
		r.step();
	});
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "U01") u01(r);
	else if (r.prop == "U02") u02(r);
	else if (r.prop == "U03") u03(r);
	else if (r.prop == "U04") u04(r);
	else { fprintf(stderr, "h_codec: unknown property %s\n", r.prop.c_str()); exit(2); }
}
