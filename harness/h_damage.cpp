// S07 damaged bases: every run ends, and ends normally
#include "depot.hpp"
#include <new>

// a request for an absurd amount of memory fails as it does without the sanitizer
void *operator new(size_t n) { if (n > (size_t)1 << 30) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace {

using namespace depot;
using mc::Run;
std::string S(long long v) { return std::to_string(v); }

const int NK = 4;
const char *KIND[NK] = {"plain", "infobase", "depot5", "depot6"};
Bytes world(int kind, const Fmt &f, const std::string &dir, int blobmode)
{
	if (kind == 0) {
		std::vector<Tab> ts;
		for (int k = 0; k < 2; k++) {
			Tab t;
			t.def.name = "_T" + S(k);
			t.def.fields = {field("_ID", "N", 9), field("_S", "NVC", 4), field("_IMG", "I"), field("_M", "NT"), field("_D", "DT"), nullable(field("_L", "L"))};
			if (k == 1) t.def.recordlock = true;
			img::Blob bl; bl.mode = blobmode;
			img::IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 6; ix.fields = {{"_ID", 9}}; ix.per_leaf = 2; ix.per_branch = 3;
			for (int i = 0; i < 5; i++) {
				if (i == 2) { t.rows.push_back({}); continue; }
				t.rows.push_back({cli::num(S(i), 9, 0), cli::nvc("s" + S(i), 4), image(bl, i % 2 ? pattern(i + 100, 0, 300) : v8c::deflate_raw(Bytes(500, 'a'))), memo(bl, "m" + S(i)), date("20200102030405"), flag(i - 1 > 1 ? 1 : i - 1)});
				Bytes key(6, '\0'); key[5] = (char)i;
				ix.entries.push_back({key, (uint32_t)i});
			}
			t.def.blob = bl.d;
			if (k == 0) t.def.indexes = {ix};
			ts.push_back(t);
		}
		return make_base(f, ts, dir + "/b.1CD");
	}
	if (kind == 1) {
		conf::Ib b; b.blobmode = blobmode;
		const char *names[] = {"root", "version", "f0a1"};
		for (auto n : names) for (int k = 0; k < 2; k++) { conf::Row x; x.name = n; x.data = v8c::deflate_raw(std::string("\xef\xbb\xbf{1,") + n + (k ? "x" : "y") + "}"); (k ? b.save : b.config).push_back(x); }
		for (int k = 0; k < 2; k++) { conf::Row x; x.name = "parts"; x.part = k; x.data = k ? v8c::deflate_raw(pattern(4, 0, 300)).substr(100) : v8c::deflate_raw(pattern(4, 0, 300)).substr(0, 100); b.config.push_back(x); }
		return b.make(f, dir + "/b.1CD");
	}
	Depot d;
	d.dv = kind == 2 ? 5 : 6; d.per_leaf = 2;
	for (int n = 1; n <= 2; n++) { Ver v; v.num = n; d.versions.push_back(v); }
	for (int o = 0; o < 2; o++) for (int v = 1; v <= 2; v++) {
		Obj x; x.obj = o; x.ver = v; x.verid = o * 8 + v; x.data = v8c::deflate_raw(pattern(o * 9 + v, 0, 60));
		x.store = d.dv < 6 ? BLOB : v == 1 ? PACK0 : o ? LOOSE : BLOB;
		d.history.push_back(x);
	}
	{ Ext e; e.obj = 0; e.ver = 2; e.name = ms(objid(0)) + ".0"; e.data = v8c::deflate_raw(pattern(77, 0, 50)); e.store = BLOB; e.verid = 300; d.externals.push_back(e); }
	return d.make(f, dir, "b.1CD");
}
std::vector<std::string> commands(int kind, int n)
{
	if (kind == 0) return n == 0 ? std::vector<std::string>{"-bf", "yes", "-pb", "yes", "-eax", "@", "-sts", "@/s", "-slo", "@"} : std::vector<std::string>{"-eb", "@", "*", "-ex", "@", "_T?"};
	if (kind == 1) return n == 0 ? std::vector<std::string>{"-dac", "@"} : std::vector<std::string>{"-eax", "@", "-ddc", "@/x.cf"};
	return n == 0 ? std::vector<std::string>{"-drc", "0", "@", "-dpc", "1:2", "@/parts"} : std::vector<std::string>{"-drc", "1", "@", "-dpc", "2", "@", "-ex", "@", "VERSIONS,HISTORY"};
}
struct Damage { size_t at; Bytes with; std::string name; };

// what is this page?
std::vector<Damage> damages(const Bytes &image, uint32_t ps, bool rich)
{
	std::vector<Damage> v;
	uint32_t np = image.size() / ps;
	auto word = [&](size_t at, uint32_t x, const char *n) {
		if (img::get32(image, at) == x) return;
		for (auto i = v.rbegin(); i != v.rend() && i->at == at; ++i) if (i->with.size() == 4 && i->with == img::le32(x)) return;
		v.push_back({at, img::le32(x), S(at / ps) + "." + S(at % ps) + "=" + n});
	};
	for (uint32_t p = 0; p < np; p++) for (size_t o = 0; o < ps; o += 4) {
		size_t at = (size_t)p * ps + o;
		uint32_t w = img::get32(image, at);
		bool near = w != 0 || (o >= 4 && img::get32(image, at - 4)) || (o + 4 < ps && img::get32(image, at + 4));
		if (!near || w == 0xA5A5A5A5u) continue;
		// text of descriptions (UTF-16): every character
		auto ascii = [](uint32_t x) { return (x & 0xff00ff00u) == 0 && (x & 0xff) >= 32 && (x >> 16 & 0xff) >= 10; };
		if (ascii(w) && (o < 4 || ascii(img::get32(image, at - 4)) || ascii(o + 4 < ps ? img::get32(image, at + 4) : 0))) {
			for (int k = 0; k < 2; k++) for (char c : rich ? std::string("{}\",0-A\0001TILBNC", 15) : std::string("{}\"9", 4)) if (image[at + 2 * k] != c) v.push_back({at + 2 * k, Bytes(1, c), S(p) + "." + S(o + 2 * k) + "='" + (c ? Bytes(1, c) : Bytes("NUL")) + "'"});
			continue;
		}
		word(at, 0, "0"); word(at, w + 1, "v+1"); word(at, 0xffffffffu, "-1"); word(at, p, "self");
		if (rich) { word(at, 1, "1"); word(at, w - 1, "v-1"); word(at, 0x7fffffffu, "max"); word(at, np, "pages"); word(at, 2, "2"); word(at, w ^ 0x8000, "v^8000"); word(at, w << 16 | w >> 16, "swap"); word(at, 3, "3"); word(at, np - 1, "last"); word(at, ps, "ps"); }
		if (rich || !w) for (int k = 0; k < 4; k++) { Bytes b(1, (char)0xff); if (image[at + k] != b[0]) v.push_back({at + k, b, S(p) + "." + S(o + k) + "=ff"}); }
	}
	return v;
}

void s07(Run &r)
{
	struct Cfg { int kind, fmt, blobmode; };
	std::vector<Cfg> cfgs;
	if (r.thorough) { for (int f : {0, 1, 3, 4, 5, 6}) for (int k = 0; k < NK; k++) cfgs.push_back({k, f, (k + f) & 1}); }
	else cfgs = {{0, 0, 0}, {1, 1, 0}, {2, 1, 0}, {3, 0, 1}};
	if (const char *e = getenv("VP_CFG")) { int a, b, c; sscanf(e, "%d,%d,%d", &a, &b, &c); cfgs = {{a, b, c}}; }
	bool rich = r.thorough || getenv("VP_RICH");
	for (auto &c : cfgs) {
		const Fmt &f = formats()[c.fmt];
		std::string d0 = r.fresh_dir("orig");
		Bytes image = world(c.kind, f, d0, c.blobmode);
		auto dm = damages(image, f.n838 ? f.ps : 4096, rich);
		std::string tag = std::string("s07/") + KIND[c.kind] + "/" + f.name + "/" + S(c.blobmode) + "/";
		auto go = [&](const std::string &id, std::function<void(Bytes &)> harm, int which) {
			r.scenario(tag + id + "/" + S(which), [&, harm, which] {
				std::string d = r.fresh_dir(), out = d + "/out";
				mkdir(out.c_str(), 0700);
				Bytes b = image;
				harm(b);
				std::string path = d + "/b.1CD";
				if (c.kind >= 2) fs_::create_directories(d + "/data/pack"); // objects outside of the base are missing, which is also an error
				mc::write_file(path, b);
				std::vector<std::string> a = {path};
				for (auto x : commands(c.kind, which)) { if (x[0] == '@') x = out + x.substr(1); a.push_back(x); }
				ChildResult x = run(r, a, 6, "", [] { rlimit rl; rl.rlim_cur = rl.rlim_max = 48 << 20; setrlimit(RLIMIT_FSIZE, &rl); });
				if (x.status == 1000 + SIGXFSZ) mc::fail("damage:endless-output", "ctool1cd" + show(a) + " writes without end");
				cli::ok(x, a);
				int s = (int8_t)x.status;
				if (s != 0 && s != -50 && s != -82) mc::fail("damage:exit", "ends with code " + S(s));
				if (mc::read_file(path) != b) mc::fail("damage:changed", "the base is changed");
				r.state(mc::fnv(x.err.substr(0, 0) + S(s)) ^ mc::fnv(r.current()));
				r.note(s == 0 ? "exit 0" : s == -50 ? "exit -50" : "exit -82");
			}, 60);
		};
		for (size_t i = 0; i < dm.size(); i++) {
			auto D = dm[i];
			bool both = rich;
			for (int which = 0; which < 2; which++) if (both || (int)(i % 2) == which) go(D.name, [D](Bytes &b) { b.replace(D.at, D.with.size(), D.with); }, which);
		}
		// truncated in the middle of a page and at page ends
		for (size_t n = 0; n <= image.size(); n += 1024) go("cut/" + S(n), [n](Bytes &b) { b.resize(n); }, n / 1024 % 2);
		// pages exchanged and overwritten by others
		uint32_t ps = f.n838 ? f.ps : 4096, np = image.size() / ps;
		for (uint32_t p = 0; p < np; p++) for (uint32_t q = 0; q < np; q++) if (p != q && (rich || (p + q) % 3 == 0)) {
			go("copy/" + S(p) + "/" + S(q), [=](Bytes &b) { b.replace((size_t)q * ps, ps, b.substr((size_t)p * ps, ps)); }, (p + q) % 2);
		}
		for (uint32_t p = 0; p < np; p++) for (int k = 0; k < 3; k++) go("fill/" + S(p) + "/" + S(k), [=](Bytes &b) { b.replace((size_t)p * ps, ps, Bytes(ps, k == 0 ? '\0' : k == 1 ? '\xff' : '\x01')); }, k % 2);
	}
}

} // namespace

void explore(Run &r)
{
	if (r.prop == "S07") s07(r);
	else { fprintf(stderr, "h_damage: unknown property %s\n", r.prop.c_str()); exit(2); }
}
