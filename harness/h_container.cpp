// Containers (.cf, .epf, .cfu, nested catalogs): every short sequence of operations against a map of files.
#include "lib.hpp"
#include "v8c.hpp"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "DetailedException.h"

namespace {

std::string S(long long x) { return std::to_string(x); }
Bytes text_of(TStream &s)
{
	int64_t n = s.GetSize();
	Bytes r((size_t)n, '\0');
	s.Seek(0, soFromBeginning);
	r.resize((size_t)std::max<int64_t>(0, s.Read(&r[0], n)));
	return r;
}
struct Mem : TMemoryStream { Mem(const Bytes &b) { Write(b.data(), b.size()); Seek(0, soFromBeginning); } };

// a raw deflate stream; what follows it does not matter (a shorter stream may be written over a longer one)
bool inflate_head(const Bytes &d, Bytes &out)
{
	z_stream z; memset(&z, 0, sizeof z);
	inflateInit2(&z, -15);
	z.next_in = (Bytef *)d.data(); z.avail_in = d.size();
	out.clear();
	int e;
	char buf[65536];
	do { z.next_out = (Bytef *)buf; z.avail_out = sizeof buf; e = inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof buf - z.avail_out); } while (e == Z_OK);
	inflateEnd(&z);
	return e == Z_STREAM_END;
}
enum Kind { PLAIN, CF, CFU, MEMORY, NESTED, ZNESTED, DEEP, SELFZ, KINDS };
const char *KNAME[] = {"plain", "cf", "cfu", "memory", "nested", "zipped-nested", "deep", "self-packed"};

typedef std::vector<v8c::File> Model; // in the order of creation
v8c::File *find(Model &m, const std::string &name)
{
	for (auto &f : m) if (System::LowerCase(f.name) == System::LowerCase(name)) return &f;
	return nullptr;
}

// one container under test
struct World {
	Kind kind;
	std::string file;
	std::unique_ptr<TMemoryStream> mem;
	std::unique_ptr<V8Catalog> root;
	V8Catalog *cat = nullptr;
	Model m;
	bool first = true;
	// start: what the storage holds at first (nothing when empty)
	World(Kind k, const std::string &dir, const Bytes &start = Bytes(), const Model &sm = Model()) : kind(k), m(sm)
	{
		file = dir + "/c" + (k == CF || k == ZNESTED || k == SELFZ ? ".cf" : k == CFU ? ".cfu" : ".bin");
		mc::rmrf(file);
		if (k == MEMORY) { mem.reset(new TMemoryStream); mem->Write(start.data(), start.size()); }
		else if (!start.empty()) mc::write_file(file, k == CFU ? v8c::deflate_raw(start) : start);
		open();
	}
	void open()
	{
		if (kind == SELFZ && first) {
			// the way a configuration is assembled: packed files and a nested container packed as a whole
			root.reset(new V8Catalog(file, false));
			Bytes o = v8c::deflate_raw(pattern(77, 0, 700));
			root->createFile("other")->write(o.data(), (int)o.size());
			cat = root->CreateCatalog("sub", true);
			if (!cat) mc::fail("container:nested", "the nested container can not be made");
			first = false;
			return;
		}
		if (kind == MEMORY) root.reset(new V8Catalog(mem.get(), false, true));
		else if (kind == CF || kind == CFU || kind == ZNESTED || kind == SELFZ) root.reset(new V8Catalog(file));
		else root.reset(new V8Catalog(file, false));
		if (!root->isOpen()) mc::fail("container:open", "the container can not be opened");
		cat = root.get();
		if (kind == NESTED || kind == ZNESTED || kind == DEEP || kind == SELFZ) {
			if (!cat->get_file("other")) { Bytes o = pattern(77, 0, 700); cat->createFile("other")->write(o.data(), 700); }
			cat = cat->CreateCatalog("sub");
			if (!cat) mc::fail("container:nested", "the nested container can not be opened");
			if (kind == DEEP) { cat = cat->CreateCatalog("sub2"); if (!cat) mc::fail("container:nested", "the nested container can not be opened"); }
		}
	}
	void close() { cat = nullptr; root.reset(); }
	// the bytes of the container under test, taken from the storage with the independent parser
	Bytes image(Bytes *outer = nullptr)
	{
		Bytes d = kind == MEMORY ? text_of(*mem) : mc::read_file(file);
		if (kind == CFU) { Bytes o; if (!inflate_head(d, o)) mc::fail("container:cfu", "the file is not one packed stream"); d = o; }
		if (outer) *outer = d;
		for (int l = kind == DEEP ? 2 : kind == NESTED || kind == ZNESTED || kind == SELFZ ? 1 : 0, lvl = 0; l; l--, lvl++) {
			v8c::Parsed p = v8c::parse(d);
			const char *nm = lvl ? "sub2" : "sub";
			bool seen = false;
			Bytes next;
			for (auto &f : p.files) {
				Bytes c = f.data;
				if ((kind == ZNESTED || kind == SELFZ) && !lvl) { Bytes o; if (!v8c::inflate_raw(c, o)) mc::fail("container:packed", "file " + f.name + " is not one packed stream"); c = o; }
				if (f.name == nm) { seen = true; next = c; }
				else if (f.name == "other") mc::expect_eq("container:other", "the file beside the nested container", c, pattern(77, 0, 700));
				else mc::fail("container:extra", "unexpected file " + mc::quote(f.name));
			}
			if (!seen) mc::fail("container:nested", "the nested container is not stored");
			d = next;
		}
		return d;
	}
	bool zipped() const { return kind == CF; }
};

struct Op { std::string name; std::function<void(World &)> f; };
const std::vector<std::string> NAMES = {"a", "Bb", "\xd0\x94\xd0\xbb\xd0\xb8\xd0\xbd\xd0\xbd\xd0\xbe\xd0\xb5 \xd0\xb8\xd0\xbc\xd1\x8f \xd1\x84\xd0\xb0\xd0\xb9\xd0\xbb\xd0\xb0.txt"};

void check_image(World &w, const Bytes &d);
Bytes &model(World &w, int n, bool &fresh)
{
	v8c::File *f = find(w.m, NAMES[n]);
	fresh = !f;
	if (f) f->t2 = 0;
	if (!f) { w.m.push_back({NAMES[n], ""}); f = &w.m.back(); }
	return f->data;
}
uint64_t modified(World &w, int n) { v8c::File *f = find(w.m, NAMES[n]); return f ? f->t2 : 0; }
std::vector<Op> make_ops()
{
	auto nm = [](int n) { return std::string(1, "abc"[n]); };
	std::vector<Op> o;
	auto put = [&](int n, int size) { o.push_back({"put" + nm(n) + S(size), [=](World &w) {
		bool fresh; Bytes b = pattern(n * 10000 + size, w.m.size(), size);
		model(w, n, fresh) = b;
		int64_t k = w.cat->createFile(NAMES[n])->write(b.data(), size);
		mc::expect_eq("container:written", "bytes written", k, size);
	}}); };
	put(0, 10); put(0, 600); put(1, 0); put(1, 1500); put(2, 300);
	auto del = [&](int n) { o.push_back({"del" + nm(n), [=](World &w) {
		for (size_t i = 0; i < w.m.size(); i++) if (&w.m[i] == find(w.m, NAMES[n])) { w.m.erase(w.m.begin() + i); break; }
		w.cat->delete_file(n == 1 ? "bB" : NAMES[n]);
	}}); };
	del(0); del(1); del(2);
	o.push_back({"reopen", [](World &w) { w.close(); w.open(); }});
	o.push_back({"flush", [](World &w) { w.cat->Flush(); }});
	// the outermost container is flushed: the storage holds everything although nothing is closed
	o.push_back({"save", [](World &w) {
		w.root->Flush();
		if (w.kind == CFU || w.kind == SELFZ) return;
		check_image(w, w.image());
	}});
	o.push_back({"half", [](World &w) { if (w.kind != MEMORY) { w.root->HalfClose(); w.root->HalfOpen(w.file); } }});
	o.push_back({"closea", [](World &w) { V8File *f = w.cat->get_file("A"); if (f) f->close(); }});
	o.push_back({"closeall", [](World &w) { for (V8File *f = w.cat->get_first(); f; f = f->get_next()) f->close(); }});
	o.push_back({"createc", [](World &w) { bool fresh; uint64_t t2 = modified(w, 2); model(w, 2, fresh); find(w.m, NAMES[2])->t2 = t2; w.cat->createFile(NAMES[2]); }});
	o.push_back({"appenda", [](World &w) { bool fresh; Bytes &d = model(w, 0, fresh); size_t n = d.size(); Bytes b = pattern(5, n, 520); d += b; w.cat->createFile("a")->write(b.data(), (int)n, 520); }});
	o.push_back({"patchb", [](World &w) { bool fresh; Bytes &d = model(w, 1, fresh); size_t at = std::min<size_t>(d.size(), 3); Bytes b = "patch"; if (d.size() < at + 5) d.resize(at + 5); d.replace(at, 5, b); w.cat->createFile("bb")->write(b.data(), (int)at, 5); if (fresh) w.m.back().name = "bb"; }});
	o.push_back({"streama", [](World &w) { bool fresh; Bytes b = pattern(6, w.m.size(), 100); model(w, 0, fresh) = b; Mem s(b); s.Seek(7, soFromBeginning); w.cat->createFile("a")->write(&s); }});
	o.push_back({"wcb", [](World &w) { bool fresh; uint64_t t2 = modified(w, 1); Bytes b = pattern(8, w.m.size(), 900); model(w, 1, fresh) = b; find(w.m, NAMES[1])->t2 = t2; Mem s(b); s.Seek(7, soFromBeginning); w.cat->createFile("Bb")->write_and_close(&s); }});
	o.push_back({"wcl", [](World &w) { bool fresh; Bytes b = pattern(9, w.m.size(), 900); model(w, 1, fresh) = b.substr(5, 40); Mem s(b); s.Seek(5, soFromBeginning); w.cat->createFile("Bb")->write_and_close(&s, 40); }});
	o.push_back({"reada", [](World &w) { V8File *f = w.cat->get_file("a"); v8c::File *m = find(w.m, "a"); if (!f != !m) mc::fail("container:exists", "file a"); if (f) mc::expect_eq("container:length", "length of a", f->get_file_length(), m->data.size()); }});
	return o;
}

// what the library shows
void check_library(World &w, const std::string &when)
{
	std::string want, got;
	for (auto &f : w.m) want += f.name + "|";
	size_t guard = 0;
	for (V8File *f = w.cat->get_first(); f; f = f->get_next()) { got += f->get_file_name() + "|"; if (++guard > 1000) mc::fail("container:list", when + "the list of files has no end"); }
	mc::expect_eq("container:list", when + "files in order", got, want);
	std::vector<std::string> names = NAMES;
	names.push_back("x");
	for (auto &n : names) {
		v8c::File *m = find(w.m, n);
		V8File *f = w.cat->get_file(n);
		if (!f != !m) mc::fail("container:exists", when + "file " + mc::quote(n) + (f ? " exists" : " is missing"));
		if (!f) continue;
		mc::expect_eq("container:length", when + "length of " + mc::quote(n), f->get_file_length(), m->data.size());
		TMemoryStream s;
		f->save_to_stream(&s);
		mc::expect_eq("container:content", when + "contents of " + mc::quote(n), text_of(s), m->data);
		if (m->data.size() > 4) {
			Bytes part(m->data.size() - 2, '#');
			mc::expect_eq("container:length", when + "bytes read", f->read(&part[0], 2, (int)part.size()), part.size());
			mc::expect_eq("container:content", when + "a part of " + mc::quote(n), part, m->data.substr(2));
		}
	}
}
// what an independent reader finds in the storage
void check_image(World &w, const Bytes &d)
{
	v8c::Parsed p = v8c::parse(d);
	mc::expect_eq("container:image-list", "number of stored files", p.files.size(), w.m.size());
	for (size_t i = 0; i < w.m.size(); i++) {
		Bytes c = p.files[i].data;
		if (w.zipped()) { Bytes o; if (!v8c::inflate_raw(c, o)) mc::fail("container:packed", "file " + mc::quote(w.m[i].name) + " is not one packed stream"); c = o; }
		mc::expect_eq("container:image-list", "name of stored file " + S(i), p.files[i].name, w.m[i].name);
		if (w.m[i].t1) mc::expect_eq("container:times", "creation time of " + mc::quote(w.m[i].name), p.files[i].t1, w.m[i].t1);
		if (w.m[i].t2) mc::expect_eq("container:times", "modification time of " + mc::quote(w.m[i].name), p.files[i].t2, w.m[i].t2);
		mc::expect_eq("container:image-content", "stored contents of " + mc::quote(w.m[i].name), c, w.m[i].data);
	}
}
// every byte belongs to the header, to one page in use or to one free page
void check_pages(const Bytes &d, const std::string &what)
{
	if (d.size() == 16) return;
	v8c::Parsed p = v8c::parse(d);
	auto u = p.used;
	uint32_t at = p.first_free;
	std::set<uint32_t> seen;
	while (at != 0x7fffffff) {
		if (!seen.insert(at).second) mc::fail("container:free-cycle", what + "the list of free pages runs in a circle");
		if ((uint64_t)at + 31 > d.size()) mc::fail("container:free-range", what + "free page at " + S(at) + " beyond the end");
		if (d[at] != '\r' || d[at + 30] != '\n') mc::fail("container:free-range", what + "no block header at free page " + S(at));
		u.push_back({at, 31 + v8c::unhex(d, at + 11)});
		at = v8c::unhex(d, at + 20);
	}
	std::sort(u.begin(), u.end());
	uint64_t end = 0;
	for (auto &x : u) {
		if (x.first < end) mc::fail("container:overlap", what + "pages overlap at " + S(x.first));
		if (x.first > end) mc::fail("container:lost", what + "bytes " + S(end) + " to " + S(x.first) + " belong to no page");
		end = x.first + x.second;
	}
	if (end != d.size()) mc::fail("container:lost", what + "bytes " + S(end) + " to " + S(d.size()) + " belong to no page");
}

void sequences(mc::Run &r)
{
	bool k02 = r.prop == "K02";
	auto ops = make_ops();
	struct Start { std::string name; Bytes d; Model m; };
	auto run = [&](Kind k, const std::vector<size_t> &seq, const std::string &dir, const Start &st) {
		std::string w = KNAME[k] + (" " + st.name);
		for (size_t i : seq) w += " " + ops[i].name;
		for (int live = 0; live < (k02 ? 1 : 2); live++) {
			World x(k, dir, st.d, st.m);
			for (size_t i : seq) { ops[i].f(x); r.step(); }
			if (live) check_library(x, w + ": ");
			x.close();
			try {
				Bytes outer, d = x.image(&outer);
				if (k02) { check_image(x, d); check_pages(d, w + ": "); if (d != outer) check_pages(outer, w + ": outer container: "); }
				r.state(d);
			} catch (mc::Fail &f) { throw mc::Fail{f.sig, w + ": " + f.msg}; }
			if (!k02) { x.open(); check_library(x, w + ", reopened: "); x.close(); }
		}
	};
	auto explore = [&](Kind k, const std::vector<size_t> &set, size_t depth, const std::string &tag, Start st) {
		for (size_t a : set) for (size_t b : set) r.scenario("k/" + tag + KNAME[k] + "/" + ops[a].name + "." + ops[b].name, [&, a, b, k, depth, set, st] {
			std::string dir = r.fresh_dir();
			std::vector<size_t> seq = {a};
			run(k, seq, dir, st);
			seq.push_back(b);
			std::function<void()> rec = [&] {
				run(k, seq, dir, st);
				if (seq.size() < depth) for (size_t o : set) { seq.push_back(o); rec(); seq.pop_back(); }
			};
			rec();
		}, 300);
	};
	std::vector<size_t> all, core;
	for (size_t i = 0; i < ops.size(); i++) { all.push_back(i); }
	for (size_t i = 0; i < ops.size(); i++) for (const char *n : {"puta600", "putb0", "putb1500", "putc300", "dela", "delb", "reopen", "closeall"}) if (ops[i].name == n) core.push_back(i);
	for (int k = 0; k < KINDS; k++) {
		explore((Kind)k, all, r.thorough ? 4 : 3, "", Start());
		explore((Kind)k, core, r.thorough ? 6 : k == PLAIN || k == CF || k == NESTED ? 5 : 4, "core/", Start());
	}
	// containers made by another program: any page sizes and order of pages
	std::vector<Model> ms = {{{NAMES[0], pattern(1, 0, 600)}, {NAMES[1], pattern(2, 0, 1500)}, {NAMES[2], pattern(3, 0, 40)}}, {{NAMES[1], ""}, {"x", pattern(4, 0, 99)}, {NAMES[0], pattern(1, 0, 100)}}};
	for (auto &m : ms) for (auto &f : m) { f.t1 = 621355968000000ull + f.data.size() * 1000003; f.t2 = f.t1 + 777777777777ull; }
	core.push_back(0);
	for (size_t i = 0; i < ops.size(); i++) if (ops[i].name == "wcb") core.back() = i;
	int n = 0;
	for (auto &m : ms) for (uint32_t dp : {0u, 64u, 512u}) for (uint32_t tp : {512u, 12u, 36u}) for (int order = 0; order < 3; order++) for (int sc = 0; sc < 2; sc++) for (int hp = 0; hp < 2; hp++) {
		if (!r.thorough && (order + sc * 2 + hp + tp / 12 + dp / 64) % 3) continue;
		v8c::Layout l; l.data_page = dp; l.toc_page = tp; l.order = order; l.scatter = sc; l.head_page = hp ? 24 : 0; l.spare = dp ? 0 : 7; l.page = hp ? 512 : 100; l.nodata = sc;
		for (Kind k : {PLAIN, MEMORY, CFU}) {
			if (k != PLAIN && n % 4) continue;
			Start st; st.name = "from " + S(n) + "/" + S(dp) + "/" + S(tp) + "/" + S(order) + S(sc) + S(hp); st.m = m; st.d = v8c::build(m, l);
			explore(k, core, r.thorough ? 4 : 3, "start" + S(n) + "/", st);
		}
		n++;
	}
	// many files: the table of contents takes more than one page
	for (int k : {PLAIN, CF, MEMORY, NESTED}) for (int many : {41, 42, 43, 60, 85, 86, 130}) for (int how = 0; how < 8; how++) r.scenario("k/many/" + std::string(KNAME[k]) + "/" + S(many) + "/" + S(how), [&, k, many, how] {
		std::string w = std::string(KNAME[k]) + " with " + S(many) + " files, " + S(how);
		World x((Kind)k, r.fresh_dir());
		auto add = [&](int i) { Bytes b = pattern(i, 0, i * 7 % 40); std::string n = "f" + S(i); V8File *f = x.cat->createFile(n); f->write(b.data(), (int)b.size()); x.m.push_back({n, b}); r.step(); };
		auto del = [&](int i) { std::string n = "f" + S(i); x.cat->delete_file(n); for (size_t j = 0; j < x.m.size(); j++) if (x.m[j].name == n) { x.m.erase(x.m.begin() + j); break; } r.step(); };
		for (int i = 0; i < many; i++) { add(i); if ((how & 1) && i % 20 == 19) { x.close(); x.open(); } if ((how & 4) && i % 11 == 3) x.cat->Flush(); }
		if (how & 2) {
			for (int i = 0; i < many; i += 2) del(i);
			if (how & 1) { x.close(); x.open(); }
			for (int i = 0; i < many; i += 3) add(1000 + i);
			if (how & 4) for (int i = 1; i < many; i += 2) del(i);
		}
		auto live = [&](const std::string &when) {
			size_t i = 0;
			for (V8File *f = x.cat->get_first(); f; f = f->get_next(), i++) {
				if (i >= x.m.size()) mc::fail("container:list", when + "too many files");
				mc::expect_eq("container:list", when + "file " + S(i), f->get_file_name(), x.m[i].name);
				TMemoryStream s; f->save_to_stream(&s);
				mc::expect_eq("container:content", when + x.m[i].name, text_of(s), x.m[i].data);
			}
			mc::expect_eq("container:list", when + "number of files", i, x.m.size());
		};
		x.close();
		Bytes outer, d = x.image(&outer);
		if (k02) { check_image(x, d); check_pages(d, w + ": "); if (d != outer) check_pages(outer, w + ": outer: "); }
		else { x.open(); live(w + ": "); x.close(); }
		r.state(d);
	}, 100);
	// long contents
	for (int k : {PLAIN, CF, CFU, NESTED}) for (int size : {4096, 65536, 65537, 1000000, 3000001}) for (int how = 0; how < 3; how++) r.scenario("k/long/" + std::string(KNAME[k]) + "/" + S(size) + "/" + S(how), [&, k, size, how] {
		World x((Kind)k, r.fresh_dir());
		auto put = [&](const std::string &n, int sz) { Bytes b = pattern(sz, 0, sz); x.cat->createFile(n)->write(b.data(), sz); v8c::File *f = find(x.m, n); if (f) f->data = b; else x.m.push_back({n, b}); r.step(); };
		put("a", how == 1 ? 10 : size); put("Bb", 20);
		if (how) { x.close(); x.open(); put("a", how == 1 ? size : 5); put(NAMES[2], size / 2); }
		x.close();
		Bytes outer, d = x.image(&outer);
		if (k02) { check_image(x, d); check_pages(d, std::string(KNAME[k]) + " " + S(size) + ": "); }
		else { x.open(); check_library(x, std::string(KNAME[k]) + " " + S(size) + ": "); x.close(); }
	}, 100);
}

// ---------------------------------------------------------------- K03: reading and unpacking
struct Dir { std::map<std::string, Bytes> files; std::set<std::string> dirs; };
// the rule by which data are taken for a container
bool looks_like(const Bytes &d)
{
	auto sig = [&](uint64_t at) { return at + 31 <= d.size() && d[at] == '\r' && d[at + 1] == '\n' && d[at + 10] == ' ' && d[at + 19] == ' ' && d[at + 28] == ' ' && d[at + 29] == '\r' && d[at + 30] == '\n'; };
	static const char E[] = {'\xff', '\xff', '\xff', '\x7f', 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
	if (d.size() == 16) return d == Bytes(E, 16);
	if (d.size() < 47) return false;
	uint32_t f = img::get32(d, 0);
	if (f != 0x7fffffff && !((uint64_t)f + 31 < d.size() && sig(f))) return false;
	return sig(16);
}
Dir read_dir(const std::string &d)
{
	Dir r;
	if (!mc::exists(d)) return r;
	for (auto it = fs_::recursive_directory_iterator(d); it != fs_::recursive_directory_iterator(); ++it) {
		std::string rel = it->path().string().substr(d.size() + 1);
		if (fs_::is_directory(it->path())) r.dirs.insert(rel); else r.files[rel] = mc::read_file(it->path().string());
	}
	return r;
}
struct Item { std::string name; Bytes data; bool dir = false; std::vector<Item> kids; };
void expected(const std::vector<Item> &v, const std::string &pre, Dir &r)
{
	for (auto &i : v) if (i.dir) { r.dirs.insert(pre + i.name); expected(i.kids, pre + i.name + "/", r); } else r.files[pre + i.name] = i.data;
}
std::vector<v8c::File> flat(const std::vector<Item> &v, const v8c::Layout &l)
{
	std::vector<v8c::File> f;
	for (auto &i : v) f.push_back({i.name, i.dir ? v8c::build(flat(i.kids, l), l) : i.data});
	return f;
}
void compare_dir(const Dir &got, const Dir &want, const std::string &w)
{
	for (auto &x : want.dirs) if (!got.dirs.count(x)) mc::fail("unpack:dir", w + "directory " + mc::quote(x) + " is missing");
	for (auto &x : got.dirs) if (!want.dirs.count(x)) mc::fail("unpack:dir", w + "unexpected directory " + mc::quote(x));
	for (auto &x : want.files) { auto f = got.files.find(x.first); if (f == got.files.end()) mc::fail("unpack:missing", w + "file " + mc::quote(x.first) + " is missing"); mc::expect_eq("unpack:content", w + mc::quote(x.first), f->second, x.second); }
	for (auto &x : got.files) if (!want.files.count(x.first)) mc::fail("unpack:extra", w + "unexpected file " + mc::quote(x.first));
}
void check_tree(V8Catalog &c, const std::vector<Item> &v, const std::string &w)
{
	size_t n = 0;
	for (V8File *f = c.get_first(); f; f = f->get_next(), n++) {
		if (n >= v.size()) mc::fail("read:list", w + "too many files");
		mc::expect_eq("read:list", w + "name", f->get_file_name(), v[n].name);
		if (c.get_file(v[n].name) != f) mc::fail("read:find", w + "file " + mc::quote(v[n].name) + " is not found by name");
		if (f->is_catalog() != v[n].dir) mc::fail("read:kind", w + mc::quote(v[n].name) + (v[n].dir ? " is not recognised as a container" : " is taken for a container"));
		if (v[n].dir) { V8Catalog *k = f->get_catalog(); if (!k) mc::fail("read:kind", w + "no container"); if (k->get_self_file() != f || k->get_parent_catalog() != &c) mc::fail("read:parent", w + "parent of " + v[n].name); check_tree(*k, v[n].kids, w + v[n].name + "/"); }
		else { TMemoryStream s; f->save_to_stream(&s); mc::expect_eq("read:content", w + mc::quote(v[n].name), text_of(s), v[n].data); mc::expect_eq("read:length", w + v[n].name, f->get_file_length(), v[n].data.size()); }
	}
	mc::expect_eq("read:list", w + "number of files", n, v.size());
}
void reading(mc::Run &r)
{
	std::vector<std::vector<Item>> trees = {
		{},
		{{"one", ""}},
		{{"one", "1"}, {"two", pattern(1, 0, 100)}, {"\xd1\x82\xd1\x80\xd0\xb8", pattern(2, 0, 513)}},
		{{"dir", "", true, {}}},
		{{"dir", "", true, {{"a", pattern(1, 0, 700)}, {"b", ""}}}, {"after", pattern(3, 0, 33)}},
		{{"x", "{1}"}, {"d1", "", true, {{"d2", "", true, {{"d3", "", true, {{"deep", pattern(9, 0, 1025)}}}, {"q", "z"}}}, {"r", pattern(8, 0, 16)}}}, {"y", pattern(5, 0, 2000)}},
	};
	{ std::vector<Item> m; for (int i = 0; i < 100; i++) m.push_back({"file" + S(i), pattern(i, 0, i * 13 % 300)}); trees.push_back(m); }
	for (size_t t = 0; t < trees.size(); t++) for (int outer = 0; outer < 4; outer++) for (uint32_t dp : {0u, 13u, 512u}) for (uint32_t tp : {512u, 12u, 30u, 0u}) for (int order = 0; order < 3; order++) for (int sc = 0; sc < 2; sc++) for (uint32_t hp : {0u, 7u}) {
		if (!r.thorough && (t + outer + dp + tp + order * 2 + sc + hp) % 4) continue;
		r.scenario("k03/layout/" + S(t) + "/" + S(outer) + "/" + S(dp) + "/" + S(tp) + "/" + S(order) + S(sc) + "/" + S(hp), [&, t, outer, dp, tp, order, sc, hp] {
			v8c::Layout l; l.data_page = dp; l.toc_page = tp; l.order = order; l.scatter = sc; l.head_page = hp; l.spare = dp ? 0 : order * 5; l.nodata = order == 1 && outer != 1;
			auto &v = trees[t];
			auto fs = flat(v, l);
			if (outer == 1) for (auto &f : fs) f.data = v8c::deflate_raw(f.data);
			Bytes d = v8c::build(fs, l);
			std::string dir = r.fresh_dir(), file = dir + (outer == 1 ? "/x.cf" : outer == 2 ? "/x.cfu" : "/x.dat");
			std::unique_ptr<V8Catalog> c;
			TMemoryStream m;
			if (outer == 2) mc::write_file(file, v8c::deflate_raw(d)); else if (outer != 3) mc::write_file(file, d);
			Bytes before = outer == 3 ? d : mc::read_file(file);
			if (outer == 3) { m.Write(d.data(), d.size()); c.reset(new V8Catalog(&m, false, true)); }
			else if (outer == 0) c.reset(new V8Catalog(file, false));
			else c.reset(new V8Catalog(file));
			std::string w = "tree " + S(t) + ": ";
			if (!c->isOpen()) mc::fail("read:open", w + "not recognised");
			check_tree(*c, v, w);
			Dir want; expected(v, "", want);
			c->SaveToDir(fs_::path(dir + "/out"));
			if (!mc::exists(dir + "/out")) mc::fail("unpack:dir", w + "no directory");
			compare_dir(read_dir(dir + "/out"), want, w);
			c->SaveToDir(fs_::path(dir + "/out/again/and")); // into a directory that does not exist yet
			compare_dir(read_dir(dir + "/out/again/and"), want, w);
			c.reset();
			mc::expect_eq("read:unchanged", w + "the container after reading", outer == 3 ? text_of(m) : mc::read_file(file), before);
			r.state(d); r.step();
		}, 60);
	}
	// what is and what is not a container
	Bytes real = v8c::build({{"in", pattern(1, 0, 20)}});
	std::vector<Bytes> cand = {Bytes(), real};
	for (size_t n : {1, 3, 4, 15, 16, 17, 31, 46, 47, 48, 79, 100, 600}) for (uint32_t f : {0x7fffffffu, 0u, 1u, 16u, 17u, 47u, 0x80000000u, 0xffffffffu, 0xffffffe0u, 0xfffffff0u, 0x7ffffff0u}) { Bytes b = img::le32(f) + Bytes(600, 'q'); cand.push_back(b.substr(0, n)); }
	for (size_t i = 0; i < 16; i++) for (int v : {0, 1, 2, 0x7f, 0xff}) { Bytes e("\xff\xff\xff\x7f\0\2\0\0\0\0\0\0\0\0\0\0", 16); e[i] = (char)v; cand.push_back(e); }
	for (size_t i : {0u, 1u, 10u, 19u, 28u, 29u, 30u}) { Bytes b = real; b[16 + i] = 'x'; cand.push_back(b); }
	for (uint32_t f : {16u, 17u, 0u, (uint32_t)real.size(), (uint32_t)real.size() - 31, (uint32_t)real.size() - 30, 0xfffffff0u, 0x80000010u}) { Bytes b = real; b.replace(0, 4, img::le32(f)); cand.push_back(b); }
	for (size_t i = 0; i < cand.size(); i++) r.scenario("k03/looks/" + S(i), [&, i] {
		const Bytes &d = cand[i];
		bool want = looks_like(d);
		std::string w = "data of " + S(d.size()) + " bytes (" + mc::hex(d.substr(0, 60)) + "): ";
		Bytes outer = v8c::build({{"before", "b"}, {"it", d}, {"after", "a"}});
		TMemoryStream m; m.Write(outer.data(), outer.size());
		V8Catalog c(&m, false, true);
		V8File *f = c.get_file("it");
		if (!f) mc::fail("read:find", w + "not found");
		mc::expect_eq("read:kind", w + "taken for a container", f->is_catalog(), want);
		std::string dir = r.fresh_dir();
		c.SaveToDir(fs_::path(dir + "/out"));
		Dir got = read_dir(dir + "/out");
		mc::expect_eq("unpack:content", w + "the file before it", got.files.count("before") ? got.files["before"] : Bytes("missing"), "b");
		mc::expect_eq("unpack:content", w + "the file after it", got.files.count("after") ? got.files["after"] : Bytes("missing"), "a");
		if (want) { if (!got.dirs.count("it")) mc::fail("unpack:dir", w + "no directory"); }
		else mc::expect_eq("unpack:content", w + "written as a file", got.files.count("it") ? got.files["it"] : Bytes("missing"), d);
		if (!d.empty()) {
			TMemoryStream x; x.Write(d.data(), d.size());
			V8Catalog t(&x, false, true);
			mc::expect_eq("read:kind", w + "opened as a container", t.isOpen(), want);
			mc::expect_eq("read:unchanged", w + "the stream afterwards", text_of(x), d);
		}
		r.step();
	});
	// streams over files of a container
	struct SOp { std::string name; std::function<void(TStream &, Bytes &, int64_t &, const std::string &)> f; };
	auto rd = [](int n) { return [n](TStream &s, Bytes &d, int64_t &p, const std::string &w) { Bytes b(n, '#'); int64_t k = s.Read(&b[0], n), a = std::min<int64_t>(n, d.size() - p); mc::expect_eq("filestream:read", w + "bytes read", k, a); mc::expect_eq("filestream:content", w + "bytes", b.substr(0, a), d.substr(p, a)); p += a; }; };
	auto wr = [](int n) { return [n](TStream &s, Bytes &d, int64_t &p, const std::string &w) { Bytes b = pattern(n, p, n); mc::expect_eq("filestream:write", w + "bytes written", s.Write(b.data(), n), n); if ((int64_t)d.size() < p + n) d.resize(p + n); d.replace(p, n, b); p += n; }; };
	auto sk = [](int base, int off) { return [=](TStream &s, Bytes &d, int64_t &p, const std::string &w) { int64_t to = (base ? p : 0) + off; if (to < 0) return; if (to > (int64_t)d.size()) to = d.size(); p = to; mc::expect_eq("filestream:seek", w + "position", s.Seek(off, base ? soFromCurrent : soFromBeginning), p); }; };
	std::vector<SOp> sops = {{"r1", rd(1)}, {"r20", rd(20)}, {"w3", wr(3)}, {"w30", wr(30)}, {"b0", sk(0, 0)}, {"b4", sk(0, 4)}, {"b99", sk(0, 99)}, {"c2", sk(1, 2)}, {"c-1", sk(1, -1)}};
	for (size_t a = 0; a < sops.size(); a++) for (size_t b = 0; b < sops.size(); b++) for (int kind = 0; kind < 2; kind++) r.scenario("k03/stream/" + S(kind) + "/" + sops[a].name + "." + sops[b].name, [&, a, b, kind] {
		std::vector<size_t> seq = {a, b};
		std::string file = r.fresh_dir() + (kind ? "/s.cf" : "/s.bin");
		std::function<void()> rec = [&] {
			mc::rmrf(file);
			std::string w;
			Bytes d = pattern(3, 0, 11);
			{
				V8Catalog c(file, kind == 1);
				c.createFile("f")->write(d.data(), (int)d.size());
				TStream *s = c.get_file("f")->get_stream(), *s2 = c.get_file("f")->get_stream(), *s3 = c.get_file("f")->get_stream();
				int64_t p = 0;
				for (size_t i : seq) { w += sops[i].name + " "; sops[i].f(*s, d, p, w + ": "); mc::expect_eq("filestream:size", w + "size", s->GetSize(), d.size()); r.step(); }
				Bytes all(d.size(), '#');
				s2->Seek(0, soFromBeginning);
				s2->Read(&all[0], all.size());
				mc::expect_eq("filestream:content", w + "seen by another stream", all, d);
				if (seq.size() % 2) delete s3; // the other streams end with the container
			}
			V8Catalog c(file, kind == 1);
			TMemoryStream m; c.get_file("f")->save_to_stream(&m);
			mc::expect_eq("filestream:content", w + "contents after reopening", text_of(m), d);
			if (seq.size() < (r.thorough ? 5 : 4)) for (size_t i = 0; i < sops.size(); i++) { seq.push_back(i); rec(); seq.pop_back(); }
		};
		rec();
	}, 100);
	// texts
	r.scenario("k03/tree", [&] {
		static const std::vector<std::pair<Bytes, bool>> t = {{"\xef\xbb\xbf{1,{\"a\"}}", true}, {Bytes("\xff\xfe{\0001\0,\0{\0\"\0a\0\"\0}\0}\0", 20), true}, {"{1,{\"a\"}}", false}, {"", false}, {"\xef\xbb\xbf{1,", false}};
		for (auto &x : t) {
			TMemoryStream m;
			V8Catalog c(&m, false, true);
			c.createFile("t")->write(x.first.data(), (int)x.first.size());
			bool ok = true;
			std::unique_ptr<Tree> tree;
			try { tree = c.get_file("t")->get_tree(); } catch (const DetailedException &) { ok = false; }
			mc::expect_eq("read:tree", "the text " + mc::quote(x.first) + " is read", ok, x.second);
			if (ok) mc::expect_eq("read:tree", "tree", outtext(tree.get()), "{1,\r\n{\"a\"}\r\n}");
			r.step();
		}
	});
}

// ---------------------------------------------------------------- K04: damaged containers
void damaged(mc::Run &r)
{
	std::vector<Item> v = {{"first", pattern(1, 0, 90)}, {"second", pattern(2, 0, 150)}, {"d", "", true, {{"in", pattern(4, 0, 40)}}}, {"last", pattern(3, 0, 20)}};
	struct Base { Bytes d; std::string name; };
	std::vector<Base> bases;
	{ v8c::Layout l; l.toc_page = 60; bases.push_back({v8c::build(flat(v, l), l), "plain"}); }
	{ v8c::Layout l; l.toc_page = 30; l.data_page = 64; l.head_page = 24; l.scatter = true; bases.push_back({v8c::build(flat(v, l), l), "chained"}); }
	// reads everything; the files in `intact` must be read as they are
	auto use = [&](const Bytes &d, const std::string &w, const std::set<std::string> &intact) {
		std::string dir = r.fresh_dir();
		int64_t most = (int64_t)d.size();
		std::set<std::string> seen;
		TMemoryStream m; m.Write(d.data(), d.size());
		std::unique_ptr<V8Catalog> cat;
		try { cat.reset(new V8Catalog(&m, false, true)); } catch (const std::exception &) {}
		if (cat) {
			int n = 0;
			for (V8File *f = cat->get_first(); f; f = f->get_next(), n++) {
				if (n > 1000) mc::fail("damaged:list", w + "endless list of files");
				try {
					TMemoryStream s;
					f->save_to_stream(&s);
					if (s.GetSize() > most) mc::fail("damaged:size", w + f->get_file_name() + " is read as " + S(s.GetSize()) + " bytes");
					if (f->is_catalog()) { V8Catalog *k = f->get_catalog(); for (V8File *g = k ? k->get_first() : nullptr; g; g = g->get_next()) { TMemoryStream t; g->save_to_stream(&t); } }
					for (auto &i : v) if (!i.dir && i.name == f->get_file_name() && text_of(s) == i.data) seen.insert(i.name);
				} catch (const std::exception &) {}
			}
			for (auto &i : intact) if (!seen.count(i)) mc::fail("damaged:other", w + "the undamaged file " + i + " is not read");
			bool saved = true;
			try { cat->SaveToDir(fs_::path(dir + "/o")); } catch (const std::exception &) { saved = false; }
			if (saved) {
				Dir got = read_dir(dir + "/o");
				for (auto &i : v) if (intact.count(i.name)) mc::expect_eq("damaged:other", w + "the undamaged file " + i.name + " in the directory", got.files.count(i.name) ? got.files[i.name] : Bytes("missing"), i.data);
			}
			cat.reset();
		} else if (!intact.empty()) mc::fail("damaged:other", w + "the container can not be opened");
		mc::expect_eq("damaged:unchanged", w + "the container after reading", text_of(m), d);
		r.state(d); r.step();
	};
	static const std::set<std::string> none;
	for (auto &b : bases) {
		v8c::Parsed all = v8c::parse(b.d);
		auto vals = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{0, 1, 15, 16, 30, 31, 0x7fffffff, 0x7ffffffe, 0x80000000, 0xffffffff, (uint32_t)b.d.size(), (uint32_t)b.d.size() - 1, (uint32_t)b.d.size() - 30, (uint32_t)b.d.size() - 31, (uint32_t)b.d.size() - 32});
		for (auto &u : all.used) vals->push_back(u.first);
		// whose data each byte is; -1: header, table of contents or a file header
		auto owner = std::make_shared<std::vector<int>>(b.d.size(), -1);
		v8c::Parsed tp;
		Bytes toc = v8c::block(b.d, 16, tp, "toc");
		for (size_t i = 0; i < v.size(); i++) { v8c::Parsed q; v8c::block(b.d, img::get32(toc, i * 12 + 4), q, "data"); for (auto &u : q.used) for (uint32_t k = 0; k < u.second; k++) (*owner)[u.first + k] = (int)i; }
		auto rest = [&v, owner](size_t from, size_t n) {
			std::set<std::string> s;
			int o = (*owner)[from];
			for (size_t k = from; k < from + n; k++) if ((*owner)[k] != o) o = -1;
			if (o >= 0) for (size_t i = 0; i < v.size(); i++) if ((int)i != o && !v[i].dir) s.insert(v[i].name);
			return s;
		};
		std::string bn = b.name + ": ";
		for (size_t at = 0; at < b.d.size(); at += 16) r.scenario("k04/" + b.name + "/byte/" + S(at), [&, at, rest, bn] {
			for (size_t i = at; i < std::min(at + 16, b.d.size()); i++) for (int val : {0x00, 0x01, 0x20, 0x2d, 0x30, 0x38, 0x66, 0x7f, 0x80, 0xff}) {
				Bytes d = b.d;
				if (d[i] == (char)val) continue;
				d[i] = (char)val;
				use(d, bn + "byte " + S(i) + " set to " + S(val) + ": ", rest(i, 1));
			}
		}, 20);
		for (size_t at = 0; at < b.d.size(); at += 16) r.scenario("k04/" + b.name + "/cut/" + S(at), [&, at, bn] { for (size_t i = std::max<size_t>(at, 1); i < std::min(at + 16, b.d.size()); i++) use(b.d.substr(0, i), bn + "cut to " + S(i) + " bytes: ", none); }, 20);
		for (auto &u : all.used) if (u.first >= 16) for (int field = 0; field < 3; field++) { uint32_t blk = u.first; r.scenario("k04/" + b.name + "/block/" + S(blk) + "." + S(field), [&, blk, field, rest, bn, vals] {
			size_t at = blk + 2 + field * 9;
			auto vs = *vals;
			uint32_t was = v8c::unhex(b.d, at);
			for (int x : {-2, -1, 1, 2, 31, 512}) vs.push_back(was + x);
			for (uint32_t val : vs) { if (val == was) continue; Bytes d = b.d; d.replace(at, 8, v8c::hex8(val)); use(d, bn + "field " + S(field) + " of the block at " + S(blk) + " set to " + v8c::hex8(val) + ": ", rest(at, 8)); }
		}, 20); }
		for (size_t at = 0; at < 16; at += 4) r.scenario("k04/" + b.name + "/head/" + S(at), [&, at, bn, vals] { for (uint32_t val : *vals) { Bytes d = b.d; d.replace(at, 4, img::le32(val)); use(d, bn + "word " + S(at) + " set to " + S(val) + ": ", none); } }, 20);
		size_t left = v.size() * 12;
		for (auto &u : tp.used) {
			size_t n = std::min<size_t>(left, u.second - 31);
			for (size_t k = 0; k + 4 <= n; k += 4) { size_t wd = u.first + 31 + k; r.scenario("k04/" + b.name + "/toc/" + S(wd), [&, wd, bn, vals] { for (uint32_t val : *vals) { Bytes d = b.d; d.replace(wd, 4, img::le32(val)); use(d, bn + "word " + S(wd) + " of the table of contents set to " + S(val) + ": ", none); } }, 20); }
			left -= n;
		}
		// two damaged links: pages in a circle
		for (auto &u : all.used) for (auto &x : all.used) if (u.first >= 16 && x.first >= 16) { uint32_t p = u.first, q = x.first; r.scenario("k04/" + b.name + "/circle/" + S(p) + "." + S(q), [&, p, q, bn] {
			for (uint32_t ps : {0u, 1u, 5u, 0xffffffffu, 0x80000000u}) for (uint32_t ds : {0u, 100u, 0x7fffffffu, 0x10000000u}) {
				Bytes d = b.d;
				d.replace(p + 20, 8, v8c::hex8(q));
				d.replace(q + 20, 8, v8c::hex8(p));
				d.replace(q + 11, 8, v8c::hex8(ps));
				d.replace(p + 2, 8, v8c::hex8(ds));
				use(d, bn + "blocks at " + S(p) + " and " + S(q) + " linked in a circle, page of " + S(ps) + ", data of " + S(ds) + ": ", none);
			}
		}, 20); }
	}
	// names that lead out of the directory
	static const std::vector<std::string> names = {"..", ".", "../x", "../../x", "a/b", "/x", "a/../../x", "sub/", "\\x", "..\\x", "", "x/", "./x"};
	for (size_t i = 0; i < names.size(); i++) for (int dirs = 0; dirs < 2; dirs++) for (int deep = 0; deep < 2; deep++) r.scenario("k04/name/" + S(i) + "/" + S(dirs) + S(deep), [&, i, dirs, deep] {
		std::string dir = r.fresh_dir();
		std::string nm = names[i] == "/x" ? dir + "/abs" : names[i];
		std::vector<Item> t = {{"before", "1"}, dirs ? Item{nm, "", true, {{"x", "2"}}} : Item{nm, "2"}, {"after", "3"}};
		if (deep) t = {{"d", "", true, t}};
		Bytes d = v8c::build(flat(t, v8c::Layout()));
		mc::write_file(dir + "/x", "mine"); fs_::create_directories(dir + "/p/q"); mc::write_file(dir + "/p/x", "mine"); mc::write_file(dir + "/p/q/x", "mine");
		{
			TMemoryStream m; m.Write(d.data(), d.size());
			V8Catalog c(&m, false, true);
			try { c.SaveToDir(fs_::path(dir + "/p/q/o")); } catch (const std::exception &) {}
		}
		Dir got = read_dir(dir);
		std::string w = "a file named " + mc::quote(names[i]) + ": ";
		int mine = 0;
		for (auto &f : got.files) {
			if (f.first.compare(0, 6, "p/q/o/") == 0) continue;
			if ((f.first == "x" || f.first == "p/x" || f.first == "p/q/x") && f.second == "mine") mine++;
			else mc::fail("damaged:outside", w + mc::quote(f.first) + " is written");
		}
		if (mine != 3) mc::fail("damaged:outside", w + "a file beside the directory disappears");
		std::string in = deep ? "p/q/o/d/" : "p/q/o/";
		if (got.files[in + "before"] != "1" || got.files[in + "after"] != "3") mc::fail("damaged:outside", w + "the other files are not saved");
		r.step();
	});
}

} // namespace

void explore(mc::Run &r)
{
	if (r.prop == "K03") reading(r);
	if (r.prop == "K04") damaged(r);
	if (r.prop == "K01" || r.prop == "K02") sequences(r);
}
