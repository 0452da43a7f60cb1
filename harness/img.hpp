// Independent builder of synthetic .1CD images (formats 8.0.x .. 8.2.14 and 8.3.8), written from the published layout
// of the file, sharing no code with the library under test.
#pragma once
#include "mc.hpp"

namespace img {

using mc::Bytes;

inline void put32(Bytes &b, size_t o, uint32_t v) { if (b.size() < o + 4) b.resize(o + 4); memcpy(&b[o], &v, 4); }
inline void put16(Bytes &b, size_t o, uint16_t v) { if (b.size() < o + 2) b.resize(o + 2); memcpy(&b[o], &v, 2); }
inline void put64(Bytes &b, size_t o, uint64_t v) { if (b.size() < o + 8) b.resize(o + 8); memcpy(&b[o], &v, 8); }
inline uint32_t get32(const Bytes &b, size_t o) { uint32_t v; memcpy(&v, &b.at(o + 3) - 3, 4); return v; }
inline uint16_t get16(const Bytes &b, size_t o) { uint16_t v; memcpy(&v, &b.at(o + 1) - 1, 2); return v; }
inline uint64_t get64(const Bytes &b, size_t o) { uint64_t v; memcpy(&v, &b.at(o + 7) - 7, 8); return v; }
inline Bytes le32(uint32_t v) { return Bytes((char *)&v, 4); }
inline Bytes le16(uint16_t v) { return Bytes((char *)&v, 2); }
inline Bytes le64(uint64_t v) { return Bytes((char *)&v, 8); }
inline Bytes be32(uint32_t v) { Bytes r; for (int i = 3; i >= 0; i--) r += (char)(v >> (8 * i)); return r; }

// UTF-8 -> UTF-16LE
inline Bytes utf16(const std::string &s)
{
	Bytes r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		uint32_t cp; int n;
		if (c < 0x80) { cp = c; n = 1; } else if (c < 0xe0) { cp = c & 31; n = 2; } else if (c < 0xf0) { cp = c & 15; n = 3; } else { cp = c & 7; n = 4; }
		for (int k = 1; k < n && i + k < s.size(); k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
		i += n;
		if (cp >= 0x10000) { cp -= 0x10000; r += le16(0xd800 + (cp >> 10)); r += le16(0xdc00 + (cp & 0x3ff)); }
		else r += le16(cp);
	}
	return r;
}

struct Ver { uint32_t a = 1, b = 2, c = 3; };

struct Base {
	bool n838;
	uint32_t ps;
	char ver[4];
	int mode = 0;                 // page allocation order: 0 ascending, 1 scattered
	std::vector<Bytes> pages;
	std::vector<uint32_t> pool;
	std::vector<uint32_t> owned;  // 1 for a page handed out

	Base(bool n838_, uint32_t ps_, int mode_ = 0) : n838(n838_), ps(n838_ ? ps_ : 4096), mode(mode_)
	{
		char v1[4] = {8, 2, 14, 0}, v2[4] = {8, 3, 8, 0};
		memcpy(ver, n838 ? v2 : v1, 4);
		pages.assign(3, Bytes(ps, '\0'));
	}
	void set_ver(int a, int b, int c, int d) { ver[0] = a; ver[1] = b; ver[2] = c; ver[3] = d; }
	uint32_t newpage() { pages.push_back(Bytes(ps, '\0')); return pages.size() - 1; }
	uint32_t alloc()
	{
		if (mode == 0) return newpage();
		if (pool.empty()) {
			std::vector<uint32_t> p;
			for (int i = 0; i < 7; i++) p.push_back(newpage());
			static const int ord[7] = {2, 4, 1, 5, 0, 6, 3};
			for (int i = 0; i < 7; i++) pool.push_back(p[ord[i]]);
		}
		uint32_t r = pool.back(); pool.pop_back(); return r;
	}
	Bytes &page(uint32_t n) { return pages.at(n); }

	// largest flat object of the 8.3.8 layout, in pages
	uint32_t flat_max() const { return ps / 4 - 6; }

	// shift: so many further pages after the first one, all of which are the same page of the file
	void write_object_at(uint32_t hdr, const Bytes &d, Ver v = Ver(), int force_fat = -1, uint32_t shift = 0)
	{
		size_t np = (d.size() + ps - 1) / ps + shift;
		std::vector<uint32_t> dp;
		std::vector<uint32_t> tabs;
		uint32_t per = n838 ? ps / 4 : 1023;
		bool fat = !n838 || (force_fat >= 0 ? force_fat == 1 : np > flat_max());
		for (size_t i = 0; i < np; i++) {
			if (fat && i % per == 0) tabs.push_back(alloc());
			if (i > 1 && i <= shift) { dp.push_back(dp[1]); continue; }
			uint32_t p = alloc();
			dp.push_back(p);
			Bytes x = i && i <= shift ? Bytes(ps, '\xEE') : d.substr((i ? i - shift : 0) * ps, ps);
			x.resize(ps, (char)0xA5); // the tail of the last page is not part of the object
			page(p) = x;
		}
		for (size_t t = 0; t < tabs.size(); t++) {
			Bytes x(ps, '\0');
			size_t n = std::min<size_t>(per, np - t * per), o = 0;
			if (!n838) { put32(x, 0, (uint32_t)n); o = 4; }
			for (size_t k = 0; k < n; k++) put32(x, o + 4 * k, dp[t * per + k]);
			page(tabs[t]) = x;
		}
		Bytes h(ps, '\0');
		if (!n838) {
			memcpy(&h[0], "1CDBOBV8", 8);
			put32(h, 8, (uint32_t)(d.size() + (uint64_t)shift * ps));
			put32(h, 12, v.a); put32(h, 16, v.b); put32(h, 20, v.c);
			for (size_t t = 0; t < tabs.size(); t++) put32(h, 24 + 4 * t, tabs[t]);
		} else {
			h[0] = 0x1c; h[1] = (char)0xfd;
			put16(h, 2, fat ? 1 : 0);
			put32(h, 4, v.a); put32(h, 8, v.b); put32(h, 12, v.c);
			put64(h, 16, d.size() + (uint64_t)shift * ps);
			auto &b = fat ? tabs : dp;
			for (size_t t = 0; t < b.size(); t++) put32(h, 24 + 4 * t, b[t]);
		}
		page(hdr) = h;
	}
	uint32_t add_object(const Bytes &d, Ver v = Ver(), int force_fat = -1, uint32_t shift = 0)
	{
		uint32_t h = alloc();
		write_object_at(h, d, v, force_fat, shift);
		return h;
	}
	// free page list (block 1): `free_pages` are pages that exist and hold nothing; extra_lists: empty list pages owned
	void write_free(const std::vector<uint32_t> &free_pages, int extra_lists = 0)
	{
		Bytes h(ps, '\0');
		if (n838) {
			h[0] = 0x1c; h[1] = (char)0xff;
			page(1) = h;
			return;
		}
		memcpy(&h[0], "1CDBOBV8", 8);
		put32(h, 8, (uint32_t)free_pages.size());
		size_t nl = (free_pages.size() + 1023) / 1024 + extra_lists;
		for (size_t l = 0; l < nl; l++) {
			uint32_t p = alloc();
			Bytes x(ps, '\0');
			for (size_t k = 0; k < 1024 && l * 1024 + k < free_pages.size(); k++) put32(x, 4 * k, free_pages[l * 1024 + k]);
			page(p) = x;
			put32(h, 24 + 4 * l, p);
		}
		page(1) = h;
	}
	Bytes finish()
	{
		Bytes h(ps, '\0');
		memcpy(&h[0], "1CDBMSV8", 8);
		memcpy(&h[8], ver, 4);
		put32(h, 12, (uint32_t)pages.size());
		put32(h, 16, 0);
		if (n838) put32(h, 20, ps);
		pages[0] = h;
		Bytes r;
		r.reserve(pages.size() * ps);
		for (auto &p : pages) r += p;
		return r;
	}
};

// blob file: chains of 256-byte chunks
struct Blob {
	Bytes d = Bytes(256, '\0');
	int mode = 0; // 0: chunks of one value in ascending order; 1: descending (chain goes backwards)
	uint32_t fill = 250; // bytes per chunk
	uint32_t add(const Bytes &v)
	{
		size_t n = (v.size() + fill - 1) / fill;
		if (n == 0) n = 1;
		uint32_t first = d.size() / 256;
		d.resize(d.size() + n * 256, '\0');
		std::vector<uint32_t> order;
		for (size_t i = 0; i < n; i++) order.push_back(mode ? first + n - 1 - i : first + i);
		for (size_t i = 0; i < n; i++) {
			Bytes part = v.substr(i * fill, fill);
			size_t o = (size_t)order[i] * 256;
			put32(d, o, i + 1 < n ? order[i + 1] : 0);
			put16(d, o + 4, part.size());
			memcpy(&d[o + 6], part.data(), part.size());
			for (size_t k = part.size(); k < 250; k++) d[o + 6 + k] = (char)0x5A;
		}
		return order[0];
	}
};

struct FieldDef {
	std::string name, type;
	bool null = false;
	int len = 0, prec = 0;
	std::string cs = "CS";
	int size() const
	{
		int n = null ? 1 : 0;
		if (type == "B") return n + len;
		if (type == "L") return n + 1;
		if (type == "N") return n + (len + 2) / 2;
		if (type == "NC") return n + len * 2;
		if (type == "NVC") return n + len * 2 + 2;
		if (type == "RV") return n + 16;
		if (type == "NT" || type == "T" || type == "I") return n + 8;
		if (type == "DT") return n + 7;
		if (type == "VB") return n + len + 2;
		abort();
	}
};

struct IndexDef {
	std::string name;
	bool primary = false;
	std::vector<std::pair<std::string, int>> fields;
	uint32_t keylen = 8;
	std::vector<std::pair<Bytes, uint32_t>> entries; // key, record number; in key order
	size_t per_leaf = 1000000;   // entries per leaf page
	size_t per_branch = 1000000; // children per branch page
	std::vector<unsigned> leafbytes; // entry size of each leaf (cyclic); empty = smallest that fits
	bool scatter = false;        // logical order of leaves differs from their position in the file
};

struct TableDef {
	uint32_t index_shift = 0; // pages between the first page of the index file and all others
	std::string name;
	std::vector<FieldDef> fields;
	std::vector<IndexDef> indexes;
	bool recordlock = false;
	std::vector<Bytes> records;  // complete records, including the leading "deleted" byte
	Bytes blob;                  // whole blob file ("" = none)
	// filled by the builder
	uint32_t data_block = 0, blob_block = 0, index_block = 0, descr_block = 0;
	std::string descr;

	bool has_version() const { for (auto &f : fields) if (f.type == "RV") return true; return false; }
	// offsets of the fields in a record
	std::vector<int> offsets(int *reclen = nullptr) const
	{
		std::vector<int> o(fields.size());
		int p = 1;
		for (size_t i = 0; i < fields.size(); i++) if (fields[i].type == "RV") { o[i] = p; p += fields[i].size(); }
		if (recordlock && !has_version()) p += 8;
		for (size_t i = 0; i < fields.size(); i++) if (fields[i].type != "RV") { o[i] = p; p += fields[i].size(); }
		if (p < 5) p = 5;
		if (reclen) *reclen = p;
		return o;
	}
	int reclen() const { int r; offsets(&r); return r; }
	// a record from per-field bytes (for a nullable field the bytes include the leading presence byte)
	Bytes rec(const std::vector<Bytes> &v) const
	{
		int rl; auto o = offsets(&rl);
		Bytes r(rl, '\0');
		for (size_t i = 0; i < fields.size(); i++) {
			if ((int)v[i].size() > fields[i].size()) { fprintf(stderr, "harness: value too long for %s\n", fields[i].name.c_str()); _exit(77); }
			if (!v[i].empty()) memcpy(&r[o[i]], v[i].data(), v[i].size());
		}
		return r;
	}
	Bytes deleted(uint32_t next = 0) const { Bytes r(reclen(), '\0'); r[0] = 1; put32(r, 1, next); return r; }
	std::string describe(uint32_t d, uint32_t b, uint32_t x) const
	{
		std::string s = "{\"" + name + "\",0,\n{\"Fields\"";
		for (auto &f : fields)
			s += ",\n{\"" + f.name + "\",\"" + f.type + "\"," + (f.null ? "1" : "0") + "," + std::to_string(f.len) + "," + std::to_string(f.prec) + ",\"" + f.cs + "\"}";
		s += "\n},\n{\"Indexes\"";
		for (auto &ix : indexes) {
			s += ",\n{\"" + ix.name + "\"," + (ix.primary ? "1" : "0");
			for (auto &f : ix.fields) s += ",\n{\"" + f.first + "\"," + std::to_string(f.second) + "}";
			s += "\n}";
		}
		s += "},\n{\"Recordlock\",\"" + std::string(recordlock ? "1" : "0") + "\"},\n{\"Files\"," + std::to_string(d) + "," + std::to_string(b) + "," + std::to_string(x) + "}\n}";
		return s;
	}
};

// value encoders
inline Bytes nvc(const std::string &s, int len) { Bytes u = utf16(s); Bytes r = le16(u.size() / 2) + u; while ((int)r.size() < len * 2 + 2) r += le16(0x20); return r; }
inline Bytes nc(const std::string &s, int len) { Bytes u = utf16(s); while ((int)u.size() < len * 2) u += le16(0x20); return u; }
inline Bytes num(const std::string &digits_in, int len, bool neg = false)
{
	std::string d = digits_in;
	while ((int)d.size() < len) d = "0" + d;
	d = (neg ? "0" : "1") + d; // sign nibble
	if (d.size() % 2) d += "0";
	Bytes r;
	for (size_t i = 0; i < d.size(); i += 2) r += (char)((d[i] - '0') << 4 | (d[i + 1] - '0'));
	return r;
}
inline Bytes dt(const std::string &yyyymmddhhmmss) { Bytes r; for (int i = 0; i < 14; i += 2) r += (char)((yyyymmddhhmmss[i] - '0') << 4 | (yyyymmddhhmmss[i + 1] - '0')); return r; }
inline Bytes blobref(uint32_t start, uint32_t len) { return le32(start) + le32(len); }

// leaf page of an index
inline Bytes leaf_page(const Base &b, const IndexDef &ix, size_t from, size_t to, uint32_t prev, uint32_t next, bool root, unsigned minbytes = 4)
{
	Bytes p(b.ps, '\0');
	uint32_t L = ix.keylen;
	uint32_t maxrec = 0;
	for (size_t i = from; i < to; i++) maxrec = std::max(maxrec, ix.entries[i].second);
	unsigned rb = 0; for (uint32_t x = L; x; x >>= 1) rb++;
	unsigned lb = rb, nb = 0;
	for (uint32_t x = maxrec; x; x >>= 1) nb++;
	unsigned recbytes = (nb + lb + rb + 7) / 8;
	if (recbytes < minbytes) recbytes = minbytes;
	nb = recbytes * 8 - lb - rb;
	if (nb > 32) nb = 32;
	put16(p, 0, (root ? 1 : 0) | 2);
	put16(p, 2, to - from);
	put32(p, 4, prev); put32(p, 8, next);
	put32(p, 14, nb >= 32 ? 0xffffffffu : (1u << nb) - 1);
	put16(p, 18, (1u << lb) - 1); put16(p, 20, (1u << rb) - 1);
	put16(p, 22, nb); put16(p, 24, lb); put16(p, 26, rb); put16(p, 28, recbytes);
	size_t lo = 30, hi = b.ps;
	Bytes prevk(L, '\0'); bool first = true;
	for (size_t i = from; i < to; i++) {
		const Bytes &k = ix.entries[i].first;
		unsigned left = 0, right = 0;
		if (!first) while (left < L && k[left] == prevk[left]) left++;
		while (right < L - left && k[L - 1 - right] == 0) right++;
		first = false; prevk = k;
		unsigned n = L - left - right;
		hi -= n;
		memcpy(&p[hi], k.data() + left, n);
		uint64_t rec = (uint64_t)ix.entries[i].second | (uint64_t)left << nb | (uint64_t)right << (nb + lb);
		for (unsigned k2 = 0; k2 < recbytes; k2++) p[lo + k2] = (char)(k2 < 8 ? rec >> (8 * k2) : 0);
		lo += recbytes;
	}
	if (lo > hi) { fprintf(stderr, "harness: leaf overflow\n"); _exit(77); }
	put16(p, 12, hi - lo);
	return p;
}

// index file contents; all indexes of a table share it
inline Bytes index_file(const Base &b, const std::vector<IndexDef> &ixs, uint32_t shift = 0)
{
	std::vector<Bytes> pg(1, Bytes(b.ps, '\0')); // page 0: free page number, then the start of every index
	auto ref = [&](uint32_t n) -> uint32_t { n += shift; return b.n838 ? n : n * b.ps; };
	for (size_t k = 0; k < ixs.size(); k++) {
		const IndexDef &ix = ixs[k];
		uint32_t start = pg.size();
		pg.push_back(Bytes(b.ps, '\0'));
		// level 0: leaves
		size_t n = ix.entries.size();
		size_t nl = n ? (n + ix.per_leaf - 1) / ix.per_leaf : 1;
		uint32_t basep = pg.size();
		for (size_t i = 0; i < nl; i++) pg.push_back(Bytes());
		auto pos = [&](size_t i) -> uint32_t { return basep + (ix.scatter ? (nl - 1 - i) : i); };
		std::vector<uint32_t> level; std::vector<size_t> last;
		for (size_t i = 0; i < nl; i++) {
			size_t f = i * ix.per_leaf, t = std::min(n, f + ix.per_leaf);
			pg[pos(i)] = leaf_page(b, ix, f, t, i ? ref(pos(i - 1)) : 0xffffffffu, i + 1 < nl ? ref(pos(i + 1)) : 0xffffffffu, nl == 1, ix.leafbytes.empty() ? 4 : ix.leafbytes[i % ix.leafbytes.size()]);
			level.push_back(pos(i)); last.push_back(t ? t - 1 : 0);
		}
		while (level.size() > 1) {
			std::vector<uint32_t> up; std::vector<size_t> ul;
			size_t nb = (level.size() + ix.per_branch - 1) / ix.per_branch;
			uint32_t bp = pg.size();
			for (size_t i = 0; i < nb; i++) {
				size_t f = i * ix.per_branch, t = std::min(level.size(), f + ix.per_branch);
				Bytes p(b.ps, '\0');
				put16(p, 0, nb == 1 ? 1 : 0);
				put16(p, 2, t - f);
				put32(p, 4, i ? ref(bp + i - 1) : 0xffffffffu);
				put32(p, 8, i + 1 < nb ? ref(bp + i + 1) : 0xffffffffu);
				size_t o = 12;
				for (size_t j = f; j < t; j++) {
					const Bytes &key = ix.entries[last[j]].first;
					Bytes e = key + be32(ix.entries[last[j]].second) + be32(ref(level[j]));
					if (o + e.size() > b.ps) { fprintf(stderr, "harness: branch overflow\n"); _exit(77); }
					memcpy(&p[o], e.data(), e.size()); o += e.size();
				}
				pg.push_back(p);
				up.push_back(bp + i); ul.push_back(last[t - 1]);
			}
			level = up; last = ul;
		}
		put32(pg[start], 0, ref(level[0]));
		put16(pg[start], 4, ix.keylen);
		put32(pg[0], 4 + 4 * k, ref(start));
	}
	Bytes r;
	for (auto &p : pg) r += p;
	return r;
}

inline void add_table(Base &b, TableDef &t)
{
	Bytes data;
	for (auto &r : t.records) data += r;
	t.data_block = b.add_object(data);
	if (!t.blob.empty()) t.blob_block = b.add_object(t.blob);
	if (!t.indexes.empty()) t.index_block = b.add_object(index_file(b, t.indexes, t.index_shift), Ver(), -1, t.index_shift);
	t.descr = t.describe(t.data_block, t.blob_block, t.index_block);
}

// root object naming the tables
inline void write_root(Base &b, std::vector<TableDef> &ts, const std::string &lang = "ru_RU")
{
	Bytes r(b.ver[1] == 0 ? 8 : 32, '\0');
	memcpy(&r[0], lang.data(), lang.size());
	r += le32(ts.size());
	if (!b.n838) {
		for (auto &t : ts) { t.descr_block = b.add_object(utf16(t.descr)); r += le32(t.descr_block); }
		b.write_object_at(2, r);
		return;
	}
	// one blob file: value 1 = the list (reserve its chunks first), then the descriptions
	Blob bl;
	Bytes list = r;
	list.resize(r.size() + 4 * ts.size(), '\0');
	bl.add(list);
	size_t at = r.size();
	for (auto &t : ts) {
		uint32_t s = bl.add(t.descr);
		t.descr_block = s;
		put32(list, at, s); at += 4;
	}
	Blob again; again.add(list);
	memcpy(&bl.d[0], again.d.data(), again.d.size());
	b.write_object_at(2, bl.d);
}

inline Bytes build(Base &b, std::vector<TableDef> &ts, const std::vector<uint32_t> &free_pages = {}, int extra_lists = 0)
{
	for (auto &t : ts) add_table(b, t);
	write_root(b, ts);
	b.write_free(free_pages, extra_lists);
	// whatever is left in the allocation pool stays unreferenced: hand it to the free list of the old format
	if (!b.n838 && !b.pool.empty() && free_pages.empty()) {
		std::vector<uint32_t> p = b.pool;
		b.pool.clear();
		if (p.size() > 1) { // one page of the pool becomes the list page
			uint32_t lp = p.back(); p.pop_back();
			Bytes x(b.ps, '\0');
			for (size_t i = 0; i < p.size(); i++) put32(x, 4 * i, p[i]);
			b.page(lp) = x;
			put32(b.page(1), 8, p.size());
			put32(b.page(1), 24, lp);
		}
	}
	return b.finish();
}

// Independent reader of an image (for comparing what the library wrote).
struct Reader {
	Bytes d; bool n838; uint32_t ps; uint32_t npages;
	explicit Reader(const Bytes &x) : d(x)
	{
		if (d.size() < 4096) mc::fail("image:short", "image shorter than one page");
		n838 = d[9] == 3;
		ps = n838 ? get32(d, 20) : 4096;
		npages = d.size() / ps;
	}
	Bytes page(uint32_t n) const { if (n >= npages) mc::fail("image:page-range", "page " + std::to_string(n) + " out of range (" + std::to_string(npages) + " pages)"); return d.substr((size_t)n * ps, ps); }
	uint64_t obj_len(uint32_t b) const { Bytes h = page(b); return n838 ? get64(h, 16) : get32(h, 8); }
	// contents of an object; appends every page it owns (header, tables, data) to own
	Bytes object(uint32_t b, std::vector<uint32_t> *own = nullptr) const
	{
		Bytes h = page(b);
		if (own) own->push_back(b);
		uint64_t len;
		if (!n838) {
			if (h.compare(0, 8, "1CDBOBV8") != 0) mc::fail("image:object-signature", "block " + std::to_string(b) + " is not an object");
			len = get32(h, 8);
		} else {
			if ((unsigned char)h[0] != 0x1c || (unsigned char)h[1] != 0xfd) mc::fail("image:object-signature", "block " + std::to_string(b) + " is not an object");
			len = get64(h, 16);
		}
		uint64_t np = (len + ps - 1) / ps;
		int fat = n838 ? get16(h, 2) : 1;
		uint32_t per = n838 ? ps / 4 : 1023;
		std::vector<uint32_t> dp;
		if (fat == 0) {
			if (np > ps / 4 - 6) mc::fail("image:flat-too-long", "flat object too long");
			for (uint64_t i = 0; i < np; i++) dp.push_back(get32(h, 24 + 4 * i));
		} else if (fat == 1) {
			uint64_t nt = (np + per - 1) / per;
			for (uint64_t t = 0; t < nt; t++) {
				uint32_t tp = get32(h, 24 + 4 * t);
				if (own) own->push_back(tp);
				Bytes x = page(tp);
				size_t k = std::min<uint64_t>(per, np - t * per), o = 0;
				if (!n838) {
					if (get32(x, 0) != k) mc::fail("image:alloc-count", "allocation page " + std::to_string(tp) + " says " + std::to_string(get32(x, 0)) + " pages, object length needs " + std::to_string(k));
					o = 4;
				}
				for (size_t i = 0; i < k; i++) dp.push_back(get32(x, o + 4 * i));
			}
		} else mc::fail("image:fatlevel", "bad allocation level");
		Bytes r;
		for (uint32_t p : dp) { r += page(p); if (own) own->push_back(p); }
		r.resize(len);
		return r;
	}
	// free list; own gets the header and list pages, fr the free pages themselves
	void free_list(std::vector<uint32_t> &own, std::vector<uint32_t> &fr) const
	{
		own.push_back(1);
		Bytes h = page(1);
		if (n838) { for (int i = 0; get32(h, 8 + 4 * i); i++) own.push_back(get32(h, 8 + 4 * i)); return; }
		uint32_t n = get32(h, 8);
		std::vector<uint32_t> lists;
		for (int i = 0; i < 1018 && get32(h, 24 + 4 * i); i++) lists.push_back(get32(h, 24 + 4 * i));
		for (auto l : lists) own.push_back(l);
		if ((uint64_t)lists.size() * 1024 < n) mc::fail("image:free-list", "free list claims " + std::to_string(n) + " pages but owns " + std::to_string(lists.size()) + " list pages");
		for (uint32_t i = 0; i < n; i++) fr.push_back(get32(page(lists[i / 1024]), 4 * (i % 1024)));
	}
};

} // namespace img
