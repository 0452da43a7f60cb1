// Independent builder and strict parser of 1C containers (.cf, .epf and nested catalogs), and raw deflate.
#pragma once
#include "mc.hpp"
#include "img.hpp"
#include <zlib.h>

namespace v8c {

using mc::Bytes;

inline Bytes deflate_raw(const Bytes &d, int level = 9)
{
	z_stream z; memset(&z, 0, sizeof z);
	deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
	Bytes r(deflateBound(&z, d.size()) + 64, '\0');
	z.next_in = (Bytef *)d.data(); z.avail_in = d.size();
	z.next_out = (Bytef *)&r[0]; z.avail_out = r.size();
	if (deflate(&z, Z_FINISH) != Z_STREAM_END) { fprintf(stderr, "harness: deflate\n"); _exit(77); }
	r.resize(r.size() - z.avail_out);
	deflateEnd(&z);
	return r;
}
// false when the data is not one complete raw deflate stream without trailing bytes
inline bool inflate_raw(const Bytes &d, Bytes &out)
{
	z_stream z; memset(&z, 0, sizeof z);
	inflateInit2(&z, -15);
	z.next_in = (Bytef *)d.data(); z.avail_in = d.size();
	out.clear();
	int ret = Z_OK;
	char buf[65536];
	while (ret == Z_OK) {
		z.next_out = (Bytef *)buf; z.avail_out = sizeof buf;
		ret = inflate(&z, Z_NO_FLUSH);
		if (ret != Z_OK && ret != Z_STREAM_END) break;
		out.append(buf, sizeof buf - z.avail_out);
		if (ret == Z_OK && z.avail_in == 0 && z.avail_out != 0) break;
	}
	bool ok = ret == Z_STREAM_END && z.avail_in == 0;
	inflateEnd(&z);
	return ok;
}

struct File { std::string name; Bytes data; uint64_t t1 = 0, t2 = 0; /* creation, modification; 0: any */ };

inline std::string hex8(uint32_t v) { char b[12]; snprintf(b, 12, "%08x", v); return b; }

struct Layout {
	uint32_t page = 512;      // default page size in the header
	uint32_t data_page = 0;   // page size of data blocks (0: the data in one page)
	uint32_t toc_page = 512;  // page size of the table of contents
	uint32_t head_page = 0;   // page size of file headers (0: as long as the header)
	int order = 0;            // 0: header, data of each file in turn; 1: last file first; 2: all headers, then all data
	bool scatter = false;     // continuation pages are placed after everything else
	bool nodata = false;      // empty files have no data block
	uint32_t spare = 0;       // free bytes at the end of single-page data blocks
};

class Builder {
public:
	Bytes d;
	Layout l;
	std::vector<std::pair<size_t, Bytes>> pending; // continuation pages to place: (offset of the field to patch, remaining data), page size in ps
	std::vector<uint32_t> pending_ps;
	static Bytes bh(uint32_t size, uint32_t page, uint32_t next) { return "\r\n" + hex8(size) + " " + hex8(page) + " " + hex8(next) + " \r\n"; }
	uint32_t put(const Bytes &data, uint32_t ps)
	{
		uint32_t at = d.size();
		if (ps == 0) { d += bh(data.size(), data.size() + l.spare, 0x7fffffff) + data + Bytes(l.spare, '\x5c'); return at; }
		bool first = true;
		size_t p = 0;
		size_t patch = 0;
		do {
			uint32_t here = d.size();
			if (!first) d.replace(patch, 8, hex8(here));
			Bytes part = data.substr(p, ps);
			size_t tail = part.size();
			part.resize(ps, '\0');
			(void)tail;
			d += bh(first ? data.size() : 0, ps, 0x7fffffff) + part;
			patch = here + 2 + 9 + 9;
			p += ps; first = false;
			if (p < data.size() && l.scatter) { pending.push_back({patch, data.substr(p)}); pending_ps.push_back(ps); return at; }
		} while (p < data.size());
		return at;
	}
	void finish_pending()
	{
		// one page of each pending chain in turn
		for (size_t i = 0; i < pending.size(); i++) {
			size_t patch = pending[i].first; Bytes rest = pending[i].second; uint32_t ps = pending_ps[i];
			d.replace(patch, 8, hex8(d.size()));
			uint32_t here = d.size();
			Bytes part = rest.substr(0, ps); part.resize(ps, '\0');
			d += bh(0, ps, 0x7fffffff) + part;
			if (rest.size() > ps) { pending.push_back({here + 20, rest.substr(ps)}); pending_ps.push_back(ps); }
		}
		pending.clear(); pending_ps.clear();
	}
};

inline Bytes name_block(const std::string &name, uint64_t t1 = 621355968000000ull, uint64_t t2 = 621355968000000ull)
{
	return img::le64(t1) + img::le64(t2) + img::le32(0) + img::utf16(name) + Bytes(4, '\0');
}

inline Bytes build(const std::vector<File> &fs, Layout l = Layout())
{
	Builder b; b.l = l;
	b.d = img::le32(0x7fffffff) + img::le32(l.page) + img::le32(fs.size()) + img::le32(0);
	std::vector<uint32_t> ha(fs.size()), da(fs.size());
	// the table of contents comes first; its pages are filled in afterwards
	Bytes toc(fs.size() * 12, '\xEE');
	bool sc = b.l.scatter; b.l.scatter = false;
	uint32_t tps = l.toc_page ? l.toc_page : std::max<size_t>(toc.size(), 1);
	uint32_t spare = b.l.spare; b.l.spare = 0;
	uint32_t at = b.put(toc, tps);
	b.l.spare = spare; b.l.scatter = sc;
	std::vector<size_t> ord;
	for (size_t i = 0; i < fs.size(); i++) ord.push_back(l.order == 1 ? fs.size() - 1 - i : i);
	auto head = [&](size_t i) { uint32_t s = b.l.spare; b.l.spare = 0; ha[i] = b.put(name_block(fs[i].name, fs[i].t1 ? fs[i].t1 : 621355968000000ull, fs[i].t2 ? fs[i].t2 : 621355968000000ull), l.head_page); b.l.spare = s; };
	auto data = [&](size_t i) { if (l.nodata && fs[i].data.empty()) { da[i] = 0x7fffffff; return; } da[i] = b.put(fs[i].data, l.data_page); };
	if (l.order == 2) { for (auto i : ord) head(i); for (auto i : ord) data(i); }
	else for (auto i : ord) { head(i); data(i); }
	b.finish_pending();
	Bytes t;
	for (size_t i = 0; i < fs.size(); i++) t += img::le32(ha[i]) + img::le32(da[i]) + img::le32(0x7fffffff);
	for (size_t p = 0, a = at + 31; p < t.size(); p += tps, a += tps + 31) b.d.replace(a, std::min<size_t>(tps, t.size() - p), t.substr(p, tps));
	return b.d;
}

// strict parser
struct Parsed { std::vector<File> files; std::vector<std::pair<uint32_t, uint32_t>> used; /* offset, length of every page in use */ uint32_t first_free, page, count; };

inline uint32_t unhex(const Bytes &d, size_t p)
{
	uint32_t v = 0;
	for (int i = 0; i < 8; i++) {
		char c = d[p + i];
		int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
		if (x < 0) mc::fail("container:block-header", "bad hexadecimal digit in a block header at " + std::to_string(p));
		v = v << 4 | x;
	}
	return v;
}
inline Bytes block(const Bytes &d, uint32_t at, Parsed &r, const char *what)
{
	Bytes out;
	uint32_t size = 0;
	bool first = true;
	for (int guard = 0;; guard++) {
		if (guard > 1000000) mc::fail("container:cycle", std::string(what) + ": endless chain of pages");
		if ((uint64_t)at + 31 > d.size()) mc::fail("container:block-range", std::string(what) + ": block at " + std::to_string(at) + " beyond the end (" + std::to_string(d.size()) + ")");
		if (d[at] != '\r' || d[at + 1] != '\n' || d[at + 10] != ' ' || d[at + 19] != ' ' || d[at + 28] != ' ' || d[at + 29] != '\r' || d[at + 30] != '\n')
			mc::fail("container:block-header", std::string(what) + ": no block header at " + std::to_string(at));
		uint32_t s = unhex(d, at + 2), ps = unhex(d, at + 11), nx = unhex(d, at + 20);
		if (first) size = s;
		if ((uint64_t)at + 31 + ps > d.size()) mc::fail("container:block-range", std::string(what) + ": page of " + std::to_string(ps) + " bytes at " + std::to_string(at) + " runs past the end");
		r.used.push_back({at, ps + 31});
		out += d.substr(at + 31, std::min<size_t>(ps, size - out.size()));
		first = false;
		if (nx == 0x7fffffff) break;
		at = nx;
	}
	if (out.size() != size) mc::fail("container:block-short", std::string(what) + ": pages hold " + std::to_string(out.size()) + " bytes, the block claims " + std::to_string(size));
	return out;
}
inline std::string utf8(const Bytes &u)
{
	std::string r;
	for (size_t i = 0; i + 1 < u.size(); i += 2) {
		uint32_t c = (uint8_t)u[i] | (uint8_t)u[i + 1] << 8;
		if (c >= 0xd800 && c < 0xdc00 && i + 3 < u.size()) { uint32_t e = (uint8_t)u[i + 2] | (uint8_t)u[i + 3] << 8; c = 0x10000 + ((c & 0x3ff) << 10 | (e & 0x3ff)); i += 2; }
		if (c < 0x80) r += (char)c;
		else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
		else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	}
	return r;
}
// with `strict`, no byte may belong to two blocks
inline Parsed parse(const Bytes &d, bool strict = true)
{
	Parsed r;
	if (d.size() < 16) mc::fail("container:short", "container of " + std::to_string(d.size()) + " bytes");
	r.first_free = img::get32(d, 0); r.page = img::get32(d, 4); r.count = img::get32(d, 8);
	if (d.size() == 16) return r;
	r.used.push_back({0, 16});
	Bytes toc = block(d, 16, r, "table of contents");
	if (toc.size() % 12) mc::fail("container:toc", "table of contents of " + std::to_string(toc.size()) + " bytes");
	for (size_t i = 0; i < toc.size(); i += 12) {
		uint32_t h = img::get32(toc, i), a = img::get32(toc, i + 4), f = img::get32(toc, i + 8);
		if (h == 0x7fffffff) continue;
		if (f != 0x7fffffff) mc::fail("container:toc", "entry " + std::to_string(i / 12) + " ends in " + std::to_string(f));
		Bytes hd = block(d, h, r, "file header");
		if (hd.size() < 20 || (hd.size() - 20) % 2) mc::fail("container:file-header", "file header of " + std::to_string(hd.size()) + " bytes");
		File x;
		Bytes nm = hd.substr(20);
		while (nm.size() >= 2 && nm[nm.size() - 1] == 0 && nm[nm.size() - 2] == 0) nm.resize(nm.size() - 2);
		x.name = utf8(nm);
		x.t1 = img::get64(hd, 0); x.t2 = img::get64(hd, 8);
		if (a != 0x7fffffff) x.data = block(d, a, r, "file data");
		r.files.push_back(x);
	}
	if (strict) {
		auto u = r.used;
		std::sort(u.begin(), u.end());
		for (size_t i = 1; i < u.size(); i++) if (u[i].first < u[i - 1].first + u[i - 1].second)
			mc::fail("container:overlap", "blocks at " + std::to_string(u[i - 1].first) + " and " + std::to_string(u[i].first) + " overlap");
	}
	return r;
}

} // namespace v8c
