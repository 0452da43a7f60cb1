// S01 page cache, S02 object reads, S03 object writes, S04 page ownership.
#include "lib.hpp"
using namespace img;

// ---------------------------------------------------------------------------------------------- S01
// Every sequence of page operations of a given length against a plain byte-array model of the cache and the file.
static void s01(mc::Run &r)
{
	struct Cfg { bool n838; uint32_t ps; int depth; };
	std::vector<Cfg> cfgs = {{false, 4096, 4}, {true, 4096, 4}, {true, 8192, 3}, {true, 65536, 3}};
	if (r.thorough) cfgs = {{false, 4096, 5}, {true, 4096, 5}, {true, 8192, 4}, {true, 16384, 4}, {true, 32768, 4}, {true, 65536, 4}};
	static const char *ops[] = {"r3", "r4", "m3", "m4", "w3", "w4", "ext", "gc", "flush", "reopen", "pr4", "mlast"};
	const int NOPS = sizeof(ops) / sizeof(*ops);
	for (auto &c : cfgs) {
		Base b(c.n838, c.ps);
		for (int i = 0; i < 2; i++) { uint32_t p = b.alloc(); b.page(p) = pattern(100 + p, 0, c.ps); } // pages 3, 4
		b.write_free({});
		std::vector<TableDef> none;
		Base bb = b;
		Bytes image = build(bb, none);
		int total = 1; for (int i = 0; i < c.depth; i++) total *= NOPS;
		for (int code = 0; code < total; code++) {
			std::vector<int> seq; int x = code;
			for (int i = 0; i < c.depth; i++) { seq.push_back(x % NOPS); x /= NOPS; }
			std::string id = std::string("S01/") + (c.n838 ? "838" : "82") + "/" + std::to_string(c.ps) + "/";
			for (int o : seq) id += std::string(ops[o]) + ",";
			r.scenario(id, [&]() {
				std::string path = r.tmp + "/b.1CD";
				mc::write_file(path, image);
				std::vector<Bytes> mem, disk; // model
				for (size_t i = 0; i < image.size() / c.ps; i++) disk.push_back(image.substr(i * c.ps, c.ps));
				mem = disk;
				auto base = open_base(path);
				uint32_t tag = 1;
				auto set_len = [&]() { put32(mem[0], 12, (uint32_t)mem.size()); };
				auto check_page = [&](uint32_t p, const std::string &when) {
					const char *q = base->get_block(p);
					mc::expect(q != nullptr, "read-null", "page " + std::to_string(p) + " not readable " + when);
					mc::expect_eq("read", "page " + std::to_string(p) + " " + when, Bytes(q, c.ps), mem[p]);
				};
				for (size_t k = 0; k < seq.size(); k++) {
					std::string op = ops[seq[k]], when = "after step " + std::to_string(k) + " (" + op + ")";
					r.step();
					if (op[0] == 'r' && op.size() == 2) check_page(op[1] - '0', when);
					else if (op == "pr4") { // partial copy of a page
						Bytes buf(100, 'x');
						base->get_block(&buf[0], 4, 60);
						mc::expect_eq("partial-read", when, buf, mem[4].substr(0, 60) + Bytes(40, 'x'));
						Bytes full(c.ps, 'x');
						base->get_block(&full[0], 3);
						mc::expect_eq("full-copy", when, full, mem[3]);
					}
					else if (op[0] == 'm' && op != "mlast") { // read-modify-write of a few bytes
						uint32_t p = op[1] - '0';
						char *q = base->get_block_for_write(p, true);
						mc::expect_eq("modify", "contents handed out for modification " + when, Bytes(q, c.ps), mem[p]);
						Bytes v = pattern(200 + tag++, 0, 5);
						memcpy(q + c.ps - 7, v.data(), 5);
						mem[p].replace(c.ps - 7, 5, v);
					}
					else if (op == "mlast") {
						uint32_t p = mem.size() - 1;
						char *q = base->get_block_for_write(p, true);
						mc::expect_eq("modify", "contents handed out for modification " + when, Bytes(q, c.ps), mem[p]);
						q[11]++; mem[p][11]++;
					}
					else if (op[0] == 'w') { // overwrite without reading
						uint32_t p = op[1] - '0';
						char *q = base->get_block_for_write(p, false);
						Bytes v = pattern(300 + tag++, 0, c.ps);
						memcpy(q, v.data(), c.ps);
						mem[p] = v;
					}
					else if (op == "ext") { // the page just past the end extends the file
						uint32_t p = mem.size();
						char *q = base->get_block_for_write(p, false);
						mc::expect(q != nullptr, "extend-null", when);
						Bytes v = pattern(400 + tag++, 0, c.ps);
						memcpy(q, v.data(), c.ps);
						mem.push_back(v); set_len();
						check_page(p, when);
					}
					else if (op == "gc") drop_cache(*base);
					else if (op == "flush") {
						base->flush(); disk = mem;
						Bytes want; for (auto &p : disk) want += p;
						mc::expect_eq("flush", "file " + when, mc::read_file(path), want);
					}
					else if (op == "reopen") {
						base->flush(); disk = mem;
						base.reset();
						Bytes want; for (auto &p : disk) want += p;
						mc::expect_eq("flush", "file " + when, mc::read_file(path), want);
						base = open_base(path);
					}
				}
				for (uint32_t p = 0; p < mem.size(); p++) check_page(p, "at the end");
				// reading outside the file is refused
				bool refused = false;
				try { base->get_block(mem.size()); } catch (const std::exception &) { refused = true; }
				mc::expect(refused, "out-of-range", "reading page number = page count was not refused");
				refused = false;
				try { base->get_block_for_write(mem.size() + 1, true); } catch (const std::exception &) { refused = true; }
				mc::expect(refused, "out-of-range-write", "writing page number = page count + 1 was not refused");
				base->flush();
				Bytes want; for (auto &p : mem) want += p;
				mc::expect_eq("flush", "file at the end", mc::read_file(path), want);
				r.state(want);
				base.reset();
				mc::expect_eq("close", "file after close", mc::read_file(path), want);
			});
		}
	}
}

// ---------------------------------------------------------------------------------------------- S02
static void s02(mc::Run &r)
{
	struct Cfg { bool n838; uint32_t ps; int mode; int fat; };
	std::vector<Cfg> cfgs;
	for (int mode = 0; mode < 2; mode++) {
		cfgs.push_back({false, 4096, mode, -1});
		for (uint32_t ps : {4096u, 8192u, 16384u, 32768u, 65536u}) { cfgs.push_back({true, ps, mode, -1}); cfgs.push_back({true, ps, mode, 1}); }
	}
	for (auto &c : cfgs) {
		uint64_t per = c.n838 ? c.ps / 4 : 1023, flat = c.n838 ? c.ps / 4 - 6 : 0, P = c.ps;
		std::vector<uint64_t> lens = {0, 1, 255, 256, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P, 5 * P + 77};
		if (P <= 4096 || r.thorough || c.mode == 0) {
			std::vector<uint64_t> big;
			if (c.n838 && c.fat < 0 && P <= 8192) for (uint64_t d : {flat * P - 1, flat * P, flat * P + 1}) big.push_back(d);
			if (P <= (r.thorough ? 16384u : 4096u)) {
				for (uint64_t d : {per * P - 1, per * P, per * P + 1, (per + 1) * P, (per + 1) * P + 1}) big.push_back(d);
				if (c.mode) big.push_back(2 * per * P + 1);
			}
			for (auto x : big) lens.push_back(x);
		}
		for (uint64_t len : lens) {
			std::string id = std::string("S02/") + (c.n838 ? "838" : "82") + "/" + std::to_string(c.ps) + "/mode" + std::to_string(c.mode) + "/fat" + std::to_string(c.fat) + "/len" + std::to_string(len);
			r.scenario(id, [&]() {
				Base b(c.n838, c.ps, c.mode);
				b.add_object(pattern(7, 0, 10)); // something in front
				Bytes want = pattern(1, 0, len);
				uint32_t blk = b.add_object(want, Ver{11, 22, 33}, c.fat);
				b.add_object(pattern(8, 0, c.ps + 1));
				std::vector<TableDef> none;
				Bytes image = build(b, none);
				std::string path = r.tmp + "/b.1CD";
				mc::write_file(path, image);
				auto base = open_base(path, false);
				std::set<uint64_t> pts;
				for (uint64_t x : {(uint64_t)0, (uint64_t)1, (uint64_t)255, P - 1, P, P + 1, 2 * P, flat * P, flat * P + 1, per * P - 1, per * P, per * P + 1, 2 * per * P, len / 2, len}) {
					if (x <= len) pts.insert(x);
				}
				if (len) pts.insert(len - 1);
				if (len > 2 * P) pts.insert(len - P);
				for (int cached = 0; cached < 2; cached++) {
					V8Object ob(base.get(), blk);
					mc::expect_eq("length", "object length", ob.get_len(), len);
					_version v; ob.get_version(&v);
					mc::expect_eq("version", "object version", v.version_1 * 1000 + v.version_2, 11022);
					if (cached) {
						char *p = ob.get_data();
						if (len == 0) mc::expect(p == nullptr, "whole-empty", "whole read of an empty object is not null");
						else mc::expect_eq("whole", "whole object", Bytes(p, len), want);
					}
					for (uint64_t s : pts) for (uint64_t e : pts) {
						if (e < s || (e == s && s == len)) continue;
						Bytes buf(e - s + 16, 'Z');
						void *ret = ob.get_data(&buf[0], s, e - s);
						r.step();
						mc::expect(ret != nullptr, "range-null", "range read returned null");
						if (memcmp(&buf[0], want.data() + s, e - s) != 0 || buf.compare(e - s, 16, Bytes(16, 'Z')) != 0)
							mc::expect_eq("range", "range [" + std::to_string(s) + "," + std::to_string(e) + ")" + (cached ? " cached" : ""), buf, want.substr(s, e - s) + Bytes(16, 'Z'));
					}
					// outside the object: refused
					for (int k = 0; k < 3; k++) {
						uint64_t s = k == 0 ? len : k == 1 ? 0 : len + P, n = k == 1 ? len + 1 : 1;
						Bytes buf(n + 1, 'Z');
						bool refused = false;
						try { ob.get_data(&buf[0], s, n); } catch (const std::exception &) { refused = true; }
						mc::expect(refused, "beyond-end", "read of " + std::to_string(n) + " bytes at " + std::to_string(s) + " of an object of " + std::to_string(len) + " bytes was not refused" + (cached ? " (after a whole read)" : ""));
					}
					// physical position of every boundary byte
					if (len) for (uint64_t s : pts) {
						if (s >= len) continue;
						uint64_t off = ob.get_fileoffset(s);
						r.step();
						mc::expect(off < image.size(), "fileoffset", "offset outside the file");
						uint64_t n = std::min<uint64_t>(16, std::min(len - s, P - s % P));
						mc::expect_eq("fileoffset", "bytes at the reported file position of offset " + std::to_string(s), image.substr(off, n), want.substr(s, n));
					}
					std::string sp = r.tmp + "/saved";
					unlink(sp.c_str());
					ob.savetofile(sp);
					mc::expect(mc::read_file(sp) == want, "savetofile", "saved file differs: " + mc::diff(mc::read_file(sp), want));
					r.state(mc::fnv(&len, 8, c.ps + c.mode * 7 + c.fat + cached * 100003 + c.n838));
				}
				mc::expect(mc::read_file(path) == image, "modified", "reading modified the base file");
			});
		}
	}
	// Long objects: the allocation tables repeat a few physical pages, so that offsets beyond 4 GiB are reachable; the file is sparse.
	for (uint32_t ps : {4096u, 8192u, 65536u}) for (int variant = 0; variant < 2; variant++) {
		uint64_t P = ps, per = ps / 4;
		uint64_t len = variant ? (uint64_t)5 * (1ull << 30) + 12345 : (1ull << 32) - 1;
		uint64_t np = (len + P - 1) / P, nt = (np + per - 1) / per;
		if (nt > ps / 4 - 6) continue;
		r.scenario("S02/838/long/" + std::to_string(ps) + "/" + std::to_string(len), [&]() {
			Base b(true, ps, 1);
			uint32_t K = 5;
			std::vector<uint32_t> phys;
			for (uint32_t i = 0; i < K; i++) { uint32_t p = b.alloc(); b.page(p) = pattern(50 + i, 0, ps); phys.push_back(p); }
			auto which = [&](uint64_t lp) { return (uint32_t)((lp * 2654435761u >> 7) % K); };
			uint32_t h = b.alloc();
			Bytes hd(ps, '\0');
			hd[0] = 0x1c; hd[1] = (char)0xfd; put16(hd, 2, 1); put64(hd, 16, len);
			for (uint64_t t = 0; t < nt; t++) {
				uint32_t tp = b.alloc();
				Bytes x(ps, '\0');
				for (uint64_t k = 0; k < per && t * per + k < np; k++) put32(x, 4 * k, phys[which(t * per + k)]);
				b.page(tp) = x;
				put32(hd, 24 + 4 * t, tp);
			}
			b.page(h) = hd;
			std::vector<TableDef> none;
			Bytes image = build(b, none);
			std::string path = r.tmp + "/b.1CD";
			uint64_t pages = image.size() / P + np;
			put32(image, 12, (uint32_t)pages);
			mc::write_file(path, image);
			if (truncate(path.c_str(), (off_t)(pages * P))) mc::fail("harness", "cannot extend the file");
			auto base = open_base(path, false);
			V8Object ob(base.get(), h);
			mc::expect_eq("length", "object length", ob.get_len(), len);
			std::vector<uint64_t> pts;
			for (uint64_t k : {(uint64_t)0, per, 2 * per, np / 2, (uint64_t)(0x7fffffffull / P), (uint64_t)(0x80000000ull / P), (uint64_t)(0xffffffffull / P), (uint64_t)(0x100000000ull / P), np - 1})
				for (int64_t d : {(int64_t)-1, (int64_t)0, (int64_t)5, (int64_t)P - 1}) { int64_t q = (int64_t)(k * P) + d; if (q >= 0 && (uint64_t)q < len) pts.push_back(q); }
			for (uint64_t s : pts) for (uint64_t n : {(uint64_t)1, (uint64_t)100, P + 3}) {
				if (s + n > len) continue;
				Bytes want, buf(n, 'Z');
				for (uint64_t q = s; q < s + n; q++) { static std::map<uint32_t, Bytes> pat; uint32_t w = which(q / P); Bytes &pp = pat[w + ps * 16]; if (pp.empty()) pp = pattern(50 + w, 0, ps); want += pp[q % P]; }
				ob.get_data(&buf[0], s, n);
				r.step();
				mc::expect_eq("range", "range at " + std::to_string(s), buf, want);
				uint64_t off = ob.get_fileoffset(s);
				mc::expect_eq("fileoffset", "file position of " + std::to_string(s), off, (uint64_t)phys[which(s / P)] * P + s % P);
			}
			r.state(len + ps);
		});
	}
}

// ---------------------------------------------------------------------------------------------- S03
// Model of an object: bytes plus a mask of the bytes whose value is defined (growing leaves the new bytes unspecified).
struct Mod {
	Bytes d, m;
	void len(uint64_t n) { d.resize(n, '\0'); m.resize(n, '\0'); }
	void write(uint64_t s, const Bytes &v) { if (s + v.size() > d.size()) len(s + v.size()); d.replace(s, v.size(), v); m.replace(s, v.size(), Bytes(v.size(), 1)); }
	void all(const Bytes &v) { d = v; m = Bytes(v.size(), 1); }
	void check(const std::string &sig, const std::string &what, const Bytes &got) const
	{
		mc::expect_eq(sig + "-length", what + ": length", got.size(), d.size());
		for (size_t i = 0; i < d.size(); i++) if (m[i] && got[i] != d[i]) mc::fail(sig, what + ": byte " + std::to_string(i) + " of " + std::to_string(d.size()) + " got " + mc::hex(got.substr(i, 8)) + " want " + mc::hex(d.substr(i, 8)));
	}
};

static void partition(const Reader &rd, const std::vector<uint32_t> &objs, bool complete)
{
	std::map<uint32_t, std::string> owner;
	auto own = [&](uint32_t p, const std::string &who) {
		if (p >= rd.npages) mc::fail("page-range", who + " refers to page " + std::to_string(p) + " of " + std::to_string(rd.npages));
		auto it = owner.find(p);
		if (it != owner.end()) mc::fail("shared-page", "page " + std::to_string(p) + " belongs to both " + it->second + " and " + who);
		owner[p] = who;
	};
	own(0, "the file header");
	std::vector<uint32_t> o, f;
	rd.free_list(o, f);
	for (auto p : o) own(p, "the free page object");
	for (auto p : f) own(p, "the free list");
	for (auto b : objs) { std::vector<uint32_t> v; rd.object(b, &v); for (auto p : v) own(p, "object " + std::to_string(b)); }
	if (complete) for (uint32_t p = 0; p < rd.npages; p++) if (!owner.count(p)) mc::fail("lost-page", "page " + std::to_string(p) + " of " + std::to_string(rd.npages) + " belongs to nothing");
	if (get32(rd.d, 12) != rd.npages) mc::fail("header-length", "header says " + std::to_string(get32(rd.d, 12)) + " pages, file has " + std::to_string(rd.npages));
}

static void s03(mc::Run &r)
{
	struct Cfg { bool n838; uint32_t ps; int initfree; };
	std::vector<Cfg> cfgs = {{false, 4096, 0}, {false, 4096, 3}, {true, 4096, 0}};
	if (r.thorough) { cfgs.push_back({true, 8192, 0}); cfgs.push_back({true, 65536, 0}); }
	struct Op { std::string name; int kind; uint64_t a, b; };
	for (auto &c : cfgs) {
		uint64_t P = c.ps, per = c.n838 ? P / 4 : 1023, flat = c.n838 ? P / 4 - 6 : 1023;
		std::vector<Op> small = {
			{"len0", 0, 0, 0}, {"len1", 0, 1, 0}, {"lenP", 0, P, 0}, {"lenP+1", 0, P + 1, 0}, {"len3P-1", 0, 3 * P - 1, 0},
			{"put@0+5", 1, 0, 5}, {"put@P-2+4", 1, P - 2, 4}, {"put@P+P", 1, P, P}, {"put@10+2P", 1, 10, 2 * P},
			{"all7", 2, 7, 0}, {"all2P", 2, 2 * P, 0}, {"sall2P+9", 3, 2 * P + 9, 0}, {"sput@P-1+3", 4, P - 1, 3}, {"read", 5, 0, 0}, {"all0", 2, 0, 0}, {"sall0", 3, 0, 0}};
		std::vector<Op> big = {
			{"lenF", 0, flat * P, 0}, {"lenF+1", 0, flat * P + 1, 0}, {"lenT", 0, per * P, 0}, {"lenT+1", 0, per * P + 1, 0}, {"lenF-P", 0, (flat - 1) * P, 0},
			{"put@F-3+9", 1, flat * P - 3, 9}, {"put@T-3+9", 1, per * P - 3, 9}, {"sallT+P+1", 3, (per + 1) * P + 1, 0}, {"allT+1", 2, per * P + 1, 0}, {"sput@T-P+2P", 4, (per - 1) * P, 2 * P},
			{"len2P", 0, 2 * P, 0}, {"len0", 0, 0, 0}, {"put@5+6", 1, 5, 6}};
		auto run_seq = [&](const std::string &id, uint64_t init, const std::vector<Op> &seq, bool bigc) {
			r.scenario(id, [&]() {
				Base b(c.n838, c.ps);
				std::vector<uint32_t> fr;
				uint32_t other = b.add_object(pattern(5, 0, P + 100));
				Mod mod; mod.all(pattern(1, 0, init));
				uint32_t blk = b.add_object(mod.d, Ver{5, 6, 7});
				for (int i = 0; i < c.initfree; i++) { uint32_t p = b.alloc(); b.page(p) = pattern(77, 0, P); fr.push_back(p); }
				Base b2 = b;
				std::vector<TableDef> none;
				Bytes image = build(b2, none, fr);
				std::string path = r.tmp + "/b.1CD";
				mc::write_file(path, image);
				auto base = open_base(path);
				uint32_t tag = 10;
				{
					V8Object ob(base.get(), blk);
					for (size_t k = 0; k < seq.size(); k++) {
						const Op &o = seq[k];
						r.step();
						if (o.kind == 0) { ob.set_len(o.a); mod.len(o.a); }
						else if (o.kind == 1) { Bytes v = pattern(tag++, 0, o.b); ob.set_data(v.data(), o.a, o.b); mod.write(o.a, v); }
						else if (o.kind == 2) { Bytes v = pattern(tag++, 0, o.a); ob.set_data(v.data(), o.a); mod.all(v); }
						else if (o.kind == 3) { Bytes v = pattern(tag++, 0, o.a); TMemoryStream s; if (!v.empty()) s.Write(v.data(), v.size()); ob.set_data(&s); mod.all(v); }
						else if (o.kind == 4) { Bytes v = pattern(tag++, 0, o.b); TMemoryStream s; s.Write(v.data(), v.size()); s.Seek(0, soFromBeginning); ob.set_data(&s, o.a, o.b); mod.write(o.a, v); }
						else { // whole read, kept by the object
							char *p = ob.get_data();
							if (mod.d.empty()) mc::expect(p == nullptr, "read", "whole read of an empty object");
							else mod.check("read", "whole read at step " + std::to_string(k), Bytes(p, ob.get_len()));
						}
						mc::expect_eq("length", "length after step " + std::to_string(k) + " (" + o.name + ")", ob.get_len(), mod.d.size());
						if (!bigc || k + 1 == seq.size()) {
							if (o.kind != 5 && !mod.d.empty()) {
								Bytes got(mod.d.size(), '\0');
								ob.get_data(&got[0], 0, got.size());
								mod.check("readback", "read back after step " + std::to_string(k) + " (" + o.name + ")", got);
							}
						}
					}
					base->flush();
				}
				base.reset();
				Bytes after = mc::read_file(path);
				r.state(mc::fnv(after));
				Reader rd(after);
				mod.check("stored", "object decoded from the flushed file", rd.object(blk));
				mc::expect_eq("other-object", "the other object in the file", rd.object(other), pattern(5, 0, P + 100));
				partition(rd, {2, other, blk}, false);
				auto again = open_base(path, false);
				V8Object o2(again.get(), blk);
				mc::expect_eq("length", "length after reopening", o2.get_len(), mod.d.size());
				if (!mod.d.empty()) mod.check("reopen", "object after reopening", Bytes(o2.get_data(), o2.get_len()));
			}, 120);
		};
		std::string pre = std::string("S03/") + (c.n838 ? "838" : "82") + "/" + std::to_string(c.ps) + "/free" + std::to_string(c.initfree) + "/";
		int D = r.thorough ? 4 : 3;
		std::vector<uint64_t> inits = {0, P + 5};
		for (uint64_t init : inits) {
			size_t total = 1; for (int i = 0; i < D; i++) total *= small.size();
			for (size_t code = 0; code < total; code++) {
				std::vector<Op> seq; size_t x = code; std::string id = pre + "init" + std::to_string(init) + "/";
				for (int i = 0; i < D; i++) { seq.push_back(small[x % small.size()]); id += seq.back().name + ","; x /= small.size(); }
				run_seq(id, init, seq, false);
			}
		}
		if (c.initfree == 0 && P <= 8192) {
			int DB = r.thorough ? 3 : 2;
			for (uint64_t init : {(uint64_t)0, flat * P, per * P + 1}) {
				size_t total = 1; for (int i = 0; i < DB; i++) total *= big.size();
				for (size_t code = 0; code < total; code++) {
					std::vector<Op> seq; size_t x = code; std::string id = pre + "big/init" + std::to_string(init) + "/";
					for (int i = 0; i < DB; i++) { seq.push_back(big[x % big.size()]); id += seq.back().name + ","; x /= big.size(); }
					run_seq(id, init, seq, true);
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------- S04
static void s04(mc::Run &r)
{
	struct Cfg { bool n838; int nfree; int extra; };
	std::vector<Cfg> cfgs = {{false, 0, 0}, {false, 2, 0}, {false, 2, 1}, {false, 1023, 0}, {false, 1025, 0}, {true, 0, 0}};
	static const char *ops[] = {"A0", "A1", "A3", "B0", "B2", "new", "take", "give", "delB", "Bgrow", "reopen"};
	const int N = sizeof(ops) / sizeof(*ops);
	for (auto &c : cfgs) {
		int D = c.nfree > 10 || (!c.n838 && !c.extra) ? 3 : 4;
		if (r.thorough) D++;
		int total = 1; for (int i = 0; i < D; i++) total *= N;
		Base b(c.n838, 4096);
		const uint64_t P = 4096;
		uint32_t A = b.add_object(pattern(1, 0, 2 * P));
		uint32_t B = b.add_object(pattern(2, 0, P + 1));
		std::vector<uint32_t> fr;
		for (int i = 0; i < c.nfree; i++) { uint32_t p = b.alloc(); b.page(p) = pattern(99, 0, P); fr.push_back(p); }
		std::vector<TableDef> none;
		Bytes image = build(b, none, fr, c.extra);
		for (int code = 0; code < total; code++) {
			std::vector<int> seq; int x = code; std::string id = std::string("S04/") + (c.n838 ? "838" : "82") + "/free" + std::to_string(c.nfree) + "+" + std::to_string(c.extra) + "/";
			for (int i = 0; i < D; i++) { seq.push_back(x % N); x /= N; id += std::string(ops[seq.back()]) + ","; }
			r.scenario(id, [&]() {
				std::string path = r.tmp + "/b.1CD";
				mc::write_file(path, image);
				auto base = open_base(path);
				std::map<uint32_t, Bytes> model; // object -> contents
				model[A] = pattern(1, 0, 2 * P); model[B] = pattern(2, 0, P + 1);
				std::unique_ptr<V8Object> oa(new V8Object(base.get(), A)), ob(new V8Object(base.get(), B));
				std::vector<std::unique_ptr<V8Object>> fresh;
				std::vector<uint32_t> taken;
				uint32_t tag = 20;
				auto set = [&](V8Object *o, uint64_t n) { Bytes v = pattern(tag++, 0, n); o->set_data(v.data(), n); model[o->get_block_number()] = v; };
				auto check = [&](const std::string &when) {
					base->flush();
					Bytes now = mc::read_file(path);
					Reader rd(now);
					std::vector<uint32_t> objs = {2};
					for (auto &m : model) { objs.push_back(m.first); mc::expect_eq("contents", "object " + std::to_string(m.first) + " " + when, rd.object(m.first), m.second); }
					partition(rd, objs, false);
					std::vector<uint32_t> o, f; rd.free_list(o, f);
					if (!c.n838) { // complete accounting
						std::set<uint32_t> seen(o.begin(), o.end()); seen.insert(f.begin(), f.end()); seen.insert(0); seen.insert(taken.begin(), taken.end());
						for (auto q : taken) if (std::find(f.begin(), f.end(), q) != f.end()) mc::fail("shared-page", "page " + std::to_string(q) + " is both in use and in the free list " + when);
						for (auto q : objs) { std::vector<uint32_t> v; rd.object(q, &v); for (auto w : v) { if (std::find(taken.begin(), taken.end(), w) != taken.end()) mc::fail("shared-page", "page " + std::to_string(w) + " was handed out twice " + when); seen.insert(w); } }
						for (uint32_t q = 0; q < rd.npages; q++) if (!seen.count(q)) mc::fail("lost-page", "page " + std::to_string(q) + " belongs to nothing " + when);
						return f.size();
					}
					return (size_t)0;
				};
				size_t freecount = check("initially");
				uint32_t np = image.size() / P;
				for (size_t k = 0; k < seq.size(); k++) {
					std::string op = ops[seq[k]], when = "after step " + std::to_string(k) + " (" + op + ")";
					r.step();
					if (op == "A0") set(oa.get(), 0);
					else if (op == "A1") set(oa.get(), 1);
					else if (op == "A3") set(oa.get(), 3 * P);
					else if (op == "B0") { if (ob) set(ob.get(), 0); }
					else if (op == "B2") { if (ob) set(ob.get(), 2 * P); }
					else if (op == "Bgrow") { if (ob && model[B].size() > 5) { Bytes v = pattern(tag++, 0, 10); uint64_t at = model[B].size() - 3; ob->set_data(v.data(), at, 10); model[B].resize(at); model[B] += v; } }
					else if (op == "new") { fresh.emplace_back(new V8Object(base.get())); model[fresh.back()->get_block_number()] = ""; set(fresh.back().get(), 5); }
					else if (op == "take") { taken.push_back(base->get_free_block()); base->get_block_for_write(taken.back(), false); }
					else if (op == "give") { if (!taken.empty()) { base->set_block_as_free(taken.back()); taken.pop_back(); } }
					else if (op == "delB") { if (ob) { model.erase(B); base->delete_object(ob.release()); } }
					else if (op == "reopen") {
						oa.reset(); ob.reset(); std::vector<uint32_t> ns;
						for (auto &f : fresh) ns.push_back(f->get_block_number());
						fresh.clear();
						base->flush(); base.reset();
						base = open_base(path);
						oa.reset(new V8Object(base.get(), A));
						if (model.count(B)) ob.reset(new V8Object(base.get(), B));
						for (auto n : ns) fresh.emplace_back(new V8Object(base.get(), n));
					}
					if (c.nfree > 10 && !r.thorough && k + 1 < seq.size()) { np = boost::filesystem::file_size(path) / P; continue; }
					size_t fc = check(when);
					uint32_t np2 = mc::read_file(path).size() / P;
					if (!c.n838 && np2 > np && fc > 0)
						mc::fail("grew-with-free-pages", "the file grew from " + std::to_string(np) + " to " + std::to_string(np2) + " pages while " + std::to_string(freecount) + " free pages were available " + when);
					np = np2; freecount = fc;
				}
				oa.reset(); ob.reset(); fresh.clear();
				base->flush();
				base.reset();
				Bytes after = mc::read_file(path);
				r.state(mc::fnv(after));
				auto again = open_base(path, false);
				for (auto &m : model) {
					V8Object o(again.get(), m.first);
					mc::expect_eq("reopen-length", "length of object " + std::to_string(m.first) + " after reopening", o.get_len(), m.second.size());
					if (!m.second.empty()) mc::expect_eq("reopen", "object after reopening", Bytes(o.get_data(), o.get_len()), m.second);
				}
			});
		}
	}
}

void explore(mc::Run &r)
{
	if (r.prop == "S01") s01(r);
	else if (r.prop == "S02") s02(r);
	else if (r.prop == "S03") s03(r);
	else if (r.prop == "S04") s04(r);
	else { fprintf(stderr, "unknown property\n"); _exit(77); }
}
