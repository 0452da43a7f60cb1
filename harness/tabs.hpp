// Tables to be moved between bases, and the objects of a table in an image. Included inside a namespace, after S() and F().
// a table of n records of `len` extra bytes, optionally with a blob file and a primary index
Tab tab(const std::string &name, int n, bool blob, bool index, int len = 10, int tag = 0)
{
	Tab t;
	t.def.name = name;
	t.def.fields = {F("_ID", "N", 9), F("_B", "B", len)};
	t.def.fields.push_back(F("_IMG", "I"));
	Blob bl;
	IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 6; ix.fields = {{"_ID", 9}};
	for (int i = 0; i < n; i++) {
		std::vector<V> row = {num(S(i + 1 + tag * 1000), 9, 0), bin(pattern(tag * 977 + i, 0, len))};
		row.push_back(image(bl, blob ? pattern(tag * 31 + i + 5, 0, 20 + i * 37 % 600) : Bytes()));
		t.rows.push_back(row);
		Bytes k(6, '\0'); k[2] = (char)(i >> 16); k[3] = (char)(i >> 8); k[4] = (char)i;
		ix.entries.push_back({k, (uint32_t)i});
	}
	ix.per_leaf = 100;
	if (blob) t.def.blob = bl.d;
	if (index) t.def.indexes = {ix};
	return t;
}
std::vector<int> all(const Tab &t) { return t.live(); }

// ---- objects of a table in an image
struct Objs { Bytes data, blob, index, descr; uint32_t ver[4][2]; bool has[4]; };
void version_of(const Reader &rd, uint32_t b, uint32_t *v) { Bytes h = rd.page(b); int o = rd.n838 ? 4 : 12; v[0] = get32(h, o); v[1] = get32(h, o + 4); }
Objs objs(const Bytes &image, const TableDef &t, std::vector<uint32_t> *own = nullptr)
{
	Reader rd(image);
	Objs o;
	uint32_t b[4] = {t.data_block, t.blob_block, t.index_block, rd.n838 ? 0 : t.descr_block};
	Bytes *d[4] = {&o.data, &o.blob, &o.index, &o.descr};
	for (int i = 0; i < 4; i++) { o.has[i] = b[i] != 0; o.ver[i][0] = o.ver[i][1] = 0; if (b[i]) { *d[i] = rd.object(b[i], own); version_of(rd, b[i], o.ver[i]); } }
	return o;
}
// give every object of the image its own versions
void set_versions(Bytes &image, const std::vector<Tab> &ts, uint32_t seed)
{
	Reader rd(image);
	uint32_t k = seed;
	for (auto &t : ts) for (uint32_t b : {t.def.data_block, t.def.blob_block, t.def.index_block, rd.n838 ? 0u : t.def.descr_block}) {
		if (!b) continue;
		size_t o = (size_t)b * rd.ps + (rd.n838 ? 4 : 12);
		put32(image, o, ++k * 3 + 1); put32(image, o + 4, k * 5 + 2);
	}
}
// every page belongs to at most one object, and the file is as long as it says
void consistent(const Bytes &image, const std::vector<Tab> &ts)
{
	Reader rd(image);
	if (image.size() % rd.ps || rd.npages != get32(image, 12)) mc::fail("image:length", "the base has " + S(image.size()) + " bytes, its header says " + S(get32(image, 12)) + " pages");
	std::vector<uint32_t> own, fr;
	rd.free_list(own, fr);
	rd.object(2, &own);
	for (auto &t : ts) objs(image, t.def, &own);
	std::map<uint32_t, int> n;
	for (uint32_t p : own) if (n[p]++) mc::fail("image:shared-page", "page " + S(p) + " belongs to two objects");
	for (uint32_t p : fr) if (n[p]++) mc::fail("image:free-page-used", "page " + S(p) + " is free and belongs to an object, or is listed twice");
}

const char *FN[4] = {"data", "blob", "index", "descr"};

// the directory holds exactly the files of the table, with its contents
void check_export(const std::string &dir, const Objs &o)
{
	std::map<std::string, Bytes> fs;
	mc::list_tree(dir, fs);
	const Bytes *d[4] = {&o.data, &o.blob, &o.index, &o.descr};
	size_t want = 1;
	for (int i = 0; i < 4; i++) {
		if (fs.count(FN[i]) != (o.has[i] ? 1u : 0u)) mc::fail("eb:files", std::string("file ") + FN[i] + (o.has[i] ? " is missing" : " was written for a table without it"));
		if (o.has[i]) { want++; mc::expect_eq(std::string("eb:content:") + FN[i], std::string("exported file ") + FN[i], fs[FN[i]], *d[i]); }
	}
	if (!fs.count("root")) mc::fail("eb:files", "file root is missing");
	Bytes r = fs["root"];
	mc::expect_eq("eb:files", "number of files exported", (long long)fs.size(), (long long)want);
	mc::expect_eq("eb:root", "size of the file root", (long long)r.size(), 36);
	for (int i = 0; i < 4; i++) {
		mc::expect_eq("eb:root", std::string("presence of ") + FN[i] + " in root", r[i] != 0, o.has[i]);
		if (o.has[i]) for (int k = 0; k < 2; k++) mc::expect_eq("eb:root", std::string("version of ") + FN[i] + " in root", get32(r, 4 + i * 8 + k * 4), o.ver[i][k]);
	}
}
// `image` holds, for table t, exactly what o describes
void check_objs(const Bytes &image, const TableDef &t, const Objs &o, const char *what, bool versions)
{
	Objs g = objs(image, t);
	const Bytes *a[3] = {&g.data, &g.blob, &g.index}, *b[3] = {&o.data, &o.blob, &o.index};
	for (int i = 0; i < 3; i++) {
		if (!o.has[i]) continue;
		mc::expect_eq(std::string("ib:content:") + FN[i], std::string(what) + ", " + FN[i] + " of table " + t.name, *a[i], *b[i]);
		if (versions) for (int k = 0; k < 2; k++) mc::expect_eq("ib:version", std::string(what) + ", version of " + FN[i] + " of table " + t.name, g.ver[i][k], o.ver[i][k]);
	}
}

const std::vector<Fmt> &wformats() // layouts that can be written
{
	static std::vector<Fmt> f;
	if (f.empty()) for (auto &x : formats()) if (!(x.ver[1] == 0)) f.push_back(x);
	return f;
}

