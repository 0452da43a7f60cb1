// F01 failing input and output, H01 several commands in one run
#include "world.hpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <stdarg.h>

namespace inject {
// In a controlled process the k-th call of a class on a path inside the scope fails.
enum Class { READ, WRITE, OPEN, MKDIR, STAT, DIR_, NCLASS };
struct State { long n[NCLASS]; long hits; char what[300]; };
State *st = nullptr;       // shared with the parent
bool on = false;
std::string scope;
Class cls = NCLASS; long k = -1; int err = 0; // the failure
bool stays = false;        // all later calls that need space fail too
enum How { FAIL, SHORT, INTR, DIE, TORN } how = FAIL;
bool full = false;

bool inside(const char *p) { return p && strncmp(p, scope.c_str(), scope.size()) == 0; }
std::string of_fd(int fd)
{
	char b[4096], l[64];
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = syscall(SYS_readlink, l, b, sizeof b - 1);
	return n < 0 ? std::string() : std::string(b, n);
}
std::string at(int fd, const char *p)
{
	if (p[0] == '/' || fd == AT_FDCWD) return p;
	return of_fd(fd) + "/" + p;
}
// true: the call is the one to disturb
bool point(Class c, const char *path)
{
	if (!inside(path)) return false;
	long i = st->n[c]++;
	bool space = c == WRITE || c == MKDIR;
	if (full && space) return true;
	if (c == cls && (i == k || (stays && i > k))) {
		st->hits++;
		snprintf(st->what, sizeof st->what, "%s", path);
		if (stays && space) full = true;
		if (how == DIE || (how == TORN && c != WRITE)) _exit(42);
		return true;
	}
	return false;
}
template <class F> F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
}
#define POINT(c, p) (inject::on && inject::point(inject::c, p))
#define FAILS(c, p) if (POINT(c, p)) { errno = inject::err; return -1; }
#define FAILSAT(c, fd, p) if (inject::on && inject::point(inject::c, inject::at(fd, p).c_str())) { errno = inject::err; return -1; }
extern "C" {
int mkdir(const char *p, mode_t m) { FAILS(MKDIR, p); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int stat(const char *p, struct stat *b) { FAILS(STAT, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int lstat(const char *p, struct stat *b) { FAILS(STAT, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int fd, const char *p, struct stat *b, int fl) { if (*p) FAILSAT(STAT, fd, p); return syscall(SYS_newfstatat, fd, p, b, fl); }
int statx(int fd, const char *p, int fl, unsigned mask, struct statx *b) { if (*p) FAILSAT(STAT, fd, p); return syscall(SYS_statx, fd, p, fl, mask, b); }
FILE *fopen(const char *p, const char *m) { if (POINT(OPEN, p)) { errno = inject::err; return nullptr; } static auto f = inject::next<FILE *(*)(const char *, const char *)>("fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { if (POINT(OPEN, p)) { errno = inject::err; return nullptr; } static auto f = inject::next<FILE *(*)(const char *, const char *)>("fopen64"); return f(p, m); }
DIR *opendir(const char *p) { if (POINT(DIR_, p)) { errno = inject::err; return nullptr; } static auto f = inject::next<DIR *(*)(const char *)>("opendir"); return f(p); }
ssize_t read(int fd, void *b, size_t n)
{
	if (inject::on && POINT(READ, inject::of_fd(fd).c_str())) {
		if (inject::how == inject::SHORT && n > 1) return syscall(SYS_read, fd, b, n / 2);
		if (inject::how == inject::INTR) { errno = EINTR; return -1; }
		if (inject::how == inject::FAIL) { errno = inject::err; return -1; }
	}
	return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
	if (inject::on && fd > 2 && POINT(WRITE, inject::of_fd(fd).c_str())) {
		if (inject::how == inject::SHORT && n > 1) return syscall(SYS_write, fd, b, n / 2);
		if (inject::how == inject::INTR) { errno = EINTR; return -1; }
		if (inject::how == inject::FAIL) { errno = inject::err; return -1; }
		if (inject::how == inject::TORN) { syscall(SYS_write, fd, b, n / 2); _exit(42); }
	}
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (inject::on && fd > 2 && POINT(WRITE, inject::of_fd(fd).c_str())) {
		if (inject::how == inject::SHORT) for (int i = 0; i < c; i++) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, (v[i].iov_len + 1) / 2);
		if (inject::how == inject::INTR) { errno = EINTR; return -1; }
		if (inject::how == inject::FAIL) { errno = inject::err; return -1; }
		if (inject::how == inject::TORN) { for (int i = 0; i < c; i++) if (v[i].iov_len) { syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len / 2); break; } _exit(42); }
	}
	return syscall(SYS_writev, fd, v, c);
}
// the clock and random numbers stand still, so that equal runs write equal files
time_t time(time_t *t) { time_t v; if (inject::on) v = 1600000000; else { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *t) { if (inject::on && c == CLOCK_REALTIME) { t->tv_sec = 1600000000; t->tv_nsec = 0; return 0; } return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval *t, void *z) { if (inject::on) { t->tv_sec = 1600000000; t->tv_usec = 0; return 0; } return syscall(SYS_gettimeofday, t, z); }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (inject::on) { unsigned x = 1; for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345; ((char *)b)[i] = (char)(x >> 16); } return n; } return syscall(SYS_getrandom, b, n, f); }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}

namespace {

using namespace world;
using mc::Run;

struct Cmd { const char *name; std::vector<std::string> args; int kinds; /* bits: infobase 1, plain 2, empty 4, depot 8 */ };
const std::vector<Cmd> &commands()
{
	static const std::vector<Cmd> c = {
		{"eax", {"-eax", "@"}, 15}, {"bf", {"-bf", "yes", "-eax", "@"}, 27}, {"raw", {"-bf", "yes", "-pb", "no", "-ex", "@", "*"}, 3}, {"eb", {"-eb", "@", "*"}, 15}, {"slo", {"-slo", "@"}, 7}, {"sts", {"-sts", "@/sizes"}, 7},
		{"ddc", {"-ddc", "@"}, 1}, {"dc", {"-dc", "@/c.cf"}, 1}, {"dac", {"-dac", "@"}, 1}, {"dvc", {"-dvc", "@"}, 1}, {"drc", {"-drc", "0", "@"}, 8}, {"dpc", {"-dpc", "1:3", "@/parts"}, 8}, {"ib", {"-ib", "@", "*"}, 2}};
	return c;
}
int bit(int kind) { return kind == BIG ? 16 : kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 4 : 8; }
std::vector<std::string> at(const std::vector<std::string> &a, const std::string &out)
{
	std::vector<std::string> v;
	for (auto x : a) { if (x[0] == '@') x = out + x.substr(1); v.push_back(x); }
	return v;
}
void quiet_clock(const std::string &scope, const std::string &tmp)
{
	inject::scope = scope; inject::on = true;
	if (!tmp.empty()) setenv("TMPDIR", tmp.c_str(), 1);
}
Files files(const std::string &d) { return tree(d); }
std::string different(const Files &got, const Files &want)
{
	std::string what;
	for (auto &x : want) { auto i = got.find(x.first); if (i == got.end()) what += " without " + x.first; else if (i->second != x.second) what += " other contents of " + x.first + " (" + mc::diff(i->second, x.second) + ")"; }
	for (auto &x : got) if (!want.count(x.first)) what += " additional " + x.first;
	return what.substr(0, 600);
}

// ---------------------------------------------------------------- F01
// tables to import: as exported by the program from another base of the same layout
void imports(Run &r, int f, const std::string &d, const std::string &out)
{
	std::string od = d + "/other";
	fs_::create_directories(od); fs_::create_directories(out);
	std::vector<Tab> ts;
	for (int k = 0; k < 3; k++) {
		Tab t;
		t.def.name = "_T" + S(k);
		t.def.fields = {field("_ID", "N", 9), field("_S", "NVC", 12), field("_B", "B", 16), field("_IMG", "I"), field("_M", "NT"), field("_D", "DT")};
		if (k == 1) t.def.recordlock = true;
		img::Blob bl;
		for (int i = 0; i < 40 + 20 * k; i++) t.rows.push_back({cli::num(S(i * 3), 9, 0), cli::nvc("imp" + S(i), 12), bin(pattern(i + 5, 0, 16)), image(bl, pattern(i + 200, 0, 10 + i * 37)), memo(bl, "mm" + S(i)), date("20210102030405")});
		t.def.blob = bl.d;
		ts.push_back(t);
	}
	make_base(fmt(f), ts, od + "/b.1CD");
	cli::good(r, {od + "/b.1CD", "-eb", out, "*"});
}
enum Mode { WRITE_ONCE, WRITE_FULL, WRITE_SHORT, WRITE_INTR, READ_ONCE, READ_BAD, READ_SHORT, READ_INTR, OPEN_ONCE, OPEN_ALL, MKDIR_ONCE, STAT_EIO, STAT_EACCES, LIST_ONCE, NMODE };
const char *MODE[NMODE] = {"write-fails", "disk-full", "write-short", "write-interrupted", "read-fails", "medium-bad", "read-short", "read-interrupted", "open-fails", "open-all", "mkdir-fails", "stat-eio", "stat-eacces", "opendir-fails"};
void f01(Run &r)
{
	if (!inject::st) inject::st = (inject::State *)mmap(nullptr, sizeof(inject::State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto go = [&](int kind, int f, const Cmd &c, int mode, int ne, long stride, int part, int parts) {
		r.scenario(std::string("f01/") + KIND[kind] + "/" + fmt(f).name + "/" + c.name + "/" + MODE[mode] + (ne ? "/ne" : "") + "/" + S(part), [&r, kind, f, &c, mode, ne, stride, part, parts] {
			std::string d = r.fresh_dir(), bd = d + "/base", out = d + "/out", td = d + "/tmp", in = d + "/in";
			bool ib = c.args[0] == "-ib";
			for (auto x : {bd, td}) fs_::create_directories(x);
			make(kind, fmt(f), bd, kind == BIG ? 10600 : 5);
			if (ib) imports(r, f, d, in);
			std::string path = bd + "/b.1CD";
			Files base0 = files(bd), in0 = ib ? files(in) : Files();
			std::vector<std::string> a = {path};
			if (ne) a.push_back("-ne");
			for (auto &x : at(c.args, ib ? in : out)) a.push_back(x);
			auto start = [&](inject::Class cls, long k, int err, bool stays, inject::How how) {
				mc::rmrf(out); mkdir(out.c_str(), 0700);
				mc::rmrf(td); mkdir(td.c_str(), 0700);
				if (ib) { mc::rmrf(bd); mkdir(bd.c_str(), 0700); for (auto &x : base0) mc::write_file(bd + "/" + x.first, x.second); }
				memset(inject::st, 0, sizeof *inject::st);
				return cli::run(r, a, 20, "", [&] { quiet_clock(d + "/", td); inject::cls = cls; inject::k = k; inject::err = err; inject::stays = stays; inject::how = how; inject::full = false; });
			};
			ChildResult c0 = start(inject::NCLASS, -1, 0, false, inject::FAIL);
			cli::ok(c0, a);
			if (c0.status) mc::fail("fault:none", "ctool1cd" + show(a) + " ends with code " + S((int8_t)c0.status) + " without a fault: " + last(c0.err));
			Files want = files(out), base1 = files(bd);
			if (!ib && base1 != base0) mc::fail("fault:base", "the base changes");
			inject::Class cls; int err = EIO; bool stays = false; inject::How how = inject::FAIL;
			switch (mode) {
			case WRITE_ONCE: cls = inject::WRITE; break;
			case WRITE_FULL: cls = inject::WRITE; err = ENOSPC; stays = true; break;
			case WRITE_SHORT: cls = inject::WRITE; how = inject::SHORT; break;
			case WRITE_INTR: cls = inject::WRITE; how = inject::INTR; break;
			case READ_ONCE: cls = inject::READ; break;
			case READ_BAD: cls = inject::READ; stays = true; break;
			case READ_SHORT: cls = inject::READ; how = inject::SHORT; break;
			case READ_INTR: cls = inject::READ; how = inject::INTR; break;
			case OPEN_ONCE: cls = inject::OPEN; err = EACCES; break;
			case OPEN_ALL: cls = inject::OPEN; err = EMFILE; stays = true; break;
			case MKDIR_ONCE: cls = inject::MKDIR; err = ENOSPC; break;
			case STAT_EIO: cls = inject::STAT; break;
			case STAT_EACCES: cls = inject::STAT; err = EACCES; break;
			default: cls = inject::DIR_; err = EACCES;
			}
			long n = inject::st->n[cls];
			if (n == 0) { r.trivial(); r.note("runs without such an access"); return; }
			r.note("accesses of undisturbed runs", part ? 0 : n);
			long i = 0, step = stride ? std::max(1L, n / stride) : 1; // quick: about `stride` of them
			for (long k = 0; k < n; k += (k + 8 < n && k > 16 ? step : 1)) {
				if (i++ % parts != part) continue;
				ChildResult x = start(cls, k, err, stays, how);
				std::string where = std::string(MODE[mode]) + " at access " + S(k) + " (" + inject::st->what + "): ctool1cd" + show(a);
				if (x.status < 0) mc::fail("fault:hang", where + " does not terminate");
				if (x.crashed()) mc::fail(x.status == 99 ? mc::crash_sig(x.err, 99) : "fault:crash", where + " died with status " + S(x.status) + ": " + cli::report(x.err));
				Files o = files(out), b = files(bd);
				if (!ib && b != base0) mc::fail("fault:base", where + " changes the base");
				if (ib && files(in) != in0) mc::fail("fault:source", where + " changes the files to import");
				if (how != inject::FAIL && x.status) mc::fail(std::string("fault:needless:") + c.name + ":" + MODE[mode], where + " ends with code " + S((int8_t)x.status) + ": " + last(x.err, 400));
				if (x.status == 0 && o != want) mc::fail(std::string("fault:silent:") + c.name + ":" + MODE[mode], where + " ends with code 0 but writes" + different(o, want));
				if (x.status == 0 && ib && b != base1) mc::fail("fault:silent-import", where + " ends with code 0 but the base is" + different(b, base1));
				if (x.status && x.err.empty()) mc::fail("fault:mute", where + " ends with code " + S((int8_t)x.status) + " without a message");
				r.state(mc::fnv(r.current() + S(k)));
				r.note(x.status ? "faults reported" : "faults without effect");
			}
		}, 600);
	};
	auto &C = commands();
	for (int kind = 0; kind <= BIG; kind++) for (int f = 0; f < 9; f++) for (auto &c : C) {
		if (!(c.kinds & bit(kind))) continue;
		bool all = r.thorough ? true : f == 0 || (f == 1 && kind == 1);
		if (!all || (kind == 2 && !r.thorough)) continue;
		if (std::string(c.name) == "ib" && fmt(f).name[2] == '0') continue;
		for (int m = 0; m < NMODE; m++) for (int ne = 0; ne < 2; ne++) {
			if (ne && (std::string(c.name) == "ib" || (m != OPEN_ONCE && m != READ_ONCE && !r.thorough))) continue;
			for (int p = 0; p < 3; p++) go(kind, f, c, m, ne, kind == BIG ? (r.thorough ? 300 : 30) : r.thorough ? 0 : 40, p, 3);
		}
	}
}

// ---------------------------------------------------------------- H01
const std::vector<Cmd> &several()
{
	static const std::vector<Cmd> c = {
		{"eax", {"-eax", "@"}, 15}, {"ex", {"-ex", "@", "_T1,_T2"}, 3}, {"exall", {"-ex", "@", "*"}, 15}, {"eb", {"-eb", "@", "*"}, 15}, {"eb1", {"-eb", "@", "_t1"}, 2}, {"slo", {"-slo", "@"}, 15}, {"sts", {"-sts", "@/sizes"}, 15},
		{"ddc", {"-ddc", "@"}, 15}, {"dc", {"-dc", "@/c.cf"}, 15}, {"dac", {"-dac", "@"}, 15}, {"dvc", {"-dvc", "@"}, 1}, {"drc", {"-drc", "0", "@"}, 15}, {"drc1", {"-drc", "1", "@"}, 8}, {"drc9", {"-drc", "9", "@"}, 8},
		{"dpc", {"-dpc", "1:3", "@/parts"}, 8}, {"dpc2", {"-dpc", "2", "@/parts"}, 8}, {"none", {"-eax", "@/none"}, 15}, {"badlist", {"-ex", "@", " , "}, 3}, {"ib", {"-ib", "#/more", "*"}, 2}, {"ib1", {"-ib", "#/more", "_T1"}, 2}, {"ibvar", {"-ib", "#/var", "*"}, 13}, {"ibless", {"-ib", "#/less", "*"}, 2}, {"ibother", {"-ib", "#/other", "*"}, 2}, {"ibback", {"-ib", "@", "*"}, 2}};
	return c;
}
// What pages outside of objects and the rest of the last page of an object hold does not matter.
void masked(Bytes &d)
{
	img::Reader x(d);
	std::vector<uint32_t> lists, fr;
	x.free_list(lists, fr);
	std::set<uint32_t> fs(fr.begin(), fr.end()), used(lists.begin(), lists.end());
	used.insert(0);
	auto wipe = [&](uint32_t p, size_t from) { std::fill(d.begin() + (size_t)p * x.ps + from, d.begin() + (size_t)(p + 1) * x.ps, '\0'); };
	if (!x.n838) for (size_t l = 1, n = fr.size(); l < lists.size(); l++) { size_t k = std::min<size_t>(n, 1024); wipe(lists[l], 4 * k); n -= k; }
	for (uint32_t p = 2; p < x.npages; p++) {
		if (fs.count(p) || used.count(p)) continue;
		const char *h = &x.d[(size_t)p * x.ps];
		if (x.n838 ? memcmp(h, "\x1c\xfd", 2) : memcmp(h, "1CDBOBV8", 8)) continue;
		std::vector<uint32_t> pages;
		uint64_t len = x.object(p, &pages).size();
		if (len % x.ps) wipe(pages.back(), len % x.ps);
		used.insert(pages.begin(), pages.end());
	}
	for (uint32_t p = 0; p < x.npages; p++) if (!used.count(p)) wipe(p, 0);
}
void h01(Run &r)
{
	if (!inject::st) inject::st = (inject::State *)mmap(nullptr, sizeof(inject::State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static const std::vector<std::vector<std::string>> opts = {{}, {"-bf", "yes"}, {"-bf", "yes", "-pb", "no"}, {"-ne"}};
	auto go = [&](int kind, int f, int o, int apart, int depth, size_t c0) {
		r.scenario(std::string("h01/") + KIND[kind] + "/" + fmt(f).name + "/o" + S(o) + (apart ? "/apart/" : "/same/") + S(depth) + "/" + several()[c0].name, [&r, kind, f, o, apart, depth, c0] {
			std::string d = r.fresh_dir(), bd = d + "/base", out = d + "/out", td = d + "/tmp";
			for (auto x : {bd, td, out}) fs_::create_directories(x);
			make(kind, fmt(f), bd, 30);
			if (kind == 1) {
				static const int n[2] = {70, 12}; static const char *w[2] = {"more", "less"};
				for (int i = 0; i < 2; i++) { fs_::create_directories(d + "/src"); fs_::create_directories(d + "/" + w[i]); make(1, fmt(f), d + "/src", n[i]); cli::good(r, {d + "/src/b.1CD", "-eb", d + "/" + w[i], "*"}); }
				imports(r, f, d + "/src", d + "/other");
			}
			else {
				for (auto x : {"/src", "/var"}) fs_::create_directories(d + x);
				make(kind, fmt(f), d + "/src", 30, 1);
				cli::good(r, {d + "/src/b.1CD", "-eb", d + "/var", "*"});
			}
			Files base0 = files(bd), masked0 = base0;
			masked(masked0["b.1CD"]);
			const bool triples = o == 0 && !apart && (kind == 1 || kind == 0 || kind == 3 || r.thorough);
			struct World { Files base, out; };
			auto put = [&](const World &w) {
				for (auto x : {bd, out, td}) { mc::rmrf(x); mkdir(x.c_str(), 0700); }
				auto fill = [](const Files &t, const std::string &dir) { for (auto &x : t) { std::string p = dir + "/" + x.first; if (x.first.back() == '/') fs_::create_directories(p); else { fs_::create_directories(fs_::path(p).parent_path()); mc::write_file(p, x.second); } } };
				fill(w.base, bd);
				fill(w.out, out);
				for (auto x : {"/out/a", "/out/b", "/out/c"}) mkdir((d + x).c_str(), 0700);
			};
			auto take = [&] { World w; w.base = files(bd); masked(w.base["b.1CD"]); w.out = files(out); return w; };
			auto args = [&](const Cmd &c, int i) {
				std::vector<std::string> v;
				for (auto x : c.args) { if (x[0] == '@') x = out + "/" + (apart ? std::string(1, (char)('a' + i)) : "a") + x.substr(1); else if (x[0] == '#') x = d + x.substr(1); v.push_back(x); }
				return v;
			};
			auto start = [&](const std::vector<std::string> &cmds) {
				std::vector<std::string> a = {bd + "/b.1CD"};
				a.insert(a.end(), opts[o].begin(), opts[o].end());
				a.insert(a.end(), cmds.begin(), cmds.end());
				inject::cls = inject::NCLASS;
				ChildResult c = cli::must(r, a, 20, "", [&] { quiet_clock(d + "/", td); });
				return std::make_pair((int)(int8_t)c.status, show(a));
			};
			auto &C = several();
			std::function<void(const World &, std::vector<size_t>, std::vector<std::string>, int)> walk = [&](const World &w, std::vector<size_t> seq, std::vector<std::string> all, int code) {
				for (size_t i = 0; i < C.size(); i++) {
					if (seq.empty() && i != c0) continue;
					if (!(C[i].kinds & bit(kind))) continue;
					std::vector<std::string> one = args(C[i], (int)seq.size()), cat = all;
					cat.insert(cat.end(), one.begin(), one.end());
					put(w);
					auto x = start(one);
					World after = take();
					int c = code ? code : x.first;
					if (!seq.empty()) {
						World w0; w0.base = base0;
						put(w0);
						auto y = start(cat);
						World got = take();
						std::string names; for (auto k : seq) names += std::string(C[k].name) + "+"; names += C[i].name;
						if (got.base != after.base) mc::fail("several:base:" + names, "the base after ctool1cd" + y.second + " is, compared with separate runs," + different(got.base, after.base));
						if (got.out != after.out) mc::fail("several:files:" + names, "ctool1cd" + y.second + " writes, compared with separate runs," + different(got.out, after.out));
						if (y.first != c) mc::fail("several:code:" + names, "ctool1cd" + y.second + " ends with code " + S(y.first) + ", separate runs with " + S(c));
						r.state(mc::fnv(r.current() + names));
						if (masked0 != after.base) r.note("sequences that change the base");
						if (c) r.note("sequences with errors");
					}
					std::vector<size_t> s2 = seq; s2.push_back(i);
					// three commands of which the second one changes the base: what the first one left behind must not show in the third one
					bool import = std::string(C[i].name).substr(0, 2) == "ib";
					if ((int)s2.size() < depth || (s2.size() == 2 && import && triples)) walk(after, s2, cat, c);
				}
			};
			World w0; w0.base = base0;
			walk(w0, {}, {}, 0);
		}, 600);
	};
	for (int kind = 0; kind < NK; kind++) for (int f = 0; f < 9; f++) {
		if (!r.thorough && f != 0 && !(kind < 2 && f == 1)) continue;
		for (int o = 0; o < 4; o++) for (int apart = 0; apart < 2; apart++) for (size_t c = 0; c < several().size(); c++) {
			if (!(several()[c].kinds & bit(kind)) || (apart && o && !r.thorough)) continue;
			if (std::string(several()[c].name).substr(0, 2) == "ib" && fmt(f).name[2] == '0') continue;
			go(kind, f, o, apart, r.thorough && apart == 0 && f < 2 ? 3 : 2, c);
		}
	}
}

// ---------------------------------------------------------------- R01
void put_tree(const Files &t, const std::string &dir)
{
	fs_::create_directories(dir);
	for (auto &x : t) { std::string p = dir + "/" + x.first; if (x.first.back() == '/') fs_::create_directories(p); else { fs_::create_directories(fs_::path(p).parent_path()); mc::write_file(p, x.second); } }
}
void r01(Run &r)
{
	if (!inject::st) inject::st = (inject::State *)mmap(nullptr, sizeof(inject::State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto &C = commands();
	// how: DIE, TORN: the first run ends at an access; FAIL: the directory holds an older export
	auto go = [&](int kind, int f, const Cmd &c, int how, long points, int part, int parts) {
		static const char *const H[] = {"older", "", "", "killed", "torn"};
		r.scenario(std::string("r01/") + KIND[kind] + "/" + fmt(f).name + "/" + c.name + "/" + H[how] + "/" + S(part), [&r, &C, kind, f, &c, how, points, part, parts] {
			std::string d = r.fresh_dir(), bd = d + "/base", out = d + "/out", td = d + "/tmp";
			for (auto x : {bd, td}) fs_::create_directories(x);
			make(kind, fmt(f), bd, kind == BIG ? 10600 : 12);
			auto start = [&](const std::string &base, const Cmd &c, inject::Class cls, long k) {
				mc::rmrf(td); mkdir(td.c_str(), 0700);
				memset(inject::st, 0, sizeof *inject::st);
				std::vector<std::string> a = {base + "/b.1CD"};
				for (auto &x : at(c.args, out)) a.push_back(x);
				ChildResult x = cli::run(r, a, 20, "", [&] { quiet_clock(out, td); inject::cls = cls; inject::k = k; inject::err = EIO; inject::stays = false; inject::how = (inject::How)how; inject::full = false; });
				cli::ok(x, a);
				return x;
			};
			mkdir(out.c_str(), 0700);
			auto c0 = start(bd, c, inject::NCLASS, -1);
			long n[inject::NCLASS]; memcpy(n, inject::st->n, sizeof n);
			Files want = files(out);
			if (c0.status) mc::fail("again:plain", std::string("ctool1cd ") + c.name + " ends with code " + S((int8_t)c0.status) + ": " + last(c0.err));
			auto again = [&](const std::string &where, const Files &before) {
				// a file in the place of a directory is an obstacle that has to be reported
				bool obstacle = false;
				for (auto &y : want) if (before.count(y.first.back() == '/' ? y.first.substr(0, y.first.size() - 1) : y.first + "/")) obstacle = true;
				auto x = start(bd, c, inject::NCLASS, -1);
				if (obstacle) {
					if (x.status == 0) mc::fail(std::string("again:obstacle:") + c.name, "ctool1cd " + show(c.args) + " " + where + " ends with code 0 although a file stands in the place of a directory");
					r.note("exports with a file in the place of a directory");
					return;
				}
				if (x.status) mc::fail(std::string("again:code:") + c.name, "ctool1cd " + show(c.args) + " " + where + " ends with code " + S((int8_t)x.status) + ": " + last(x.err));
				Files all = want;
				for (auto &y : before) all.insert(y);
				Files got = files(out);
				if (got != all) mc::fail(std::string("again:files:") + c.name, "ctool1cd " + show(c.args) + " " + where + " leaves" + different(got, all));
				r.state(mc::fnv(r.current() + where));
			};
			if (how == inject::FAIL) {
				// a directory in the place of a file to be written
				int no = 0;
				for (auto &y : want) {
					if (y.first.back() == '/' || no++ >= 12) continue;
					mc::rmrf(out); mkdir(out.c_str(), 0700);
					for (int full = 0; full < 2; full++) {
						Files before; before[y.first + "/"] = "";
						for (size_t i = 0; (i = y.first.find('/', i)) != std::string::npos; i++) before[y.first.substr(0, i + 1)] = "";
						if (full) { before[y.first + "/keep.txt"] = "keep"; before[y.first + "/kept/"] = ""; before[y.first + "/kept/x"] = "y"; }
						put_tree(before, out);
						auto x = start(bd, c, inject::NCLASS, -1);
						std::string where = "ctool1cd " + show(c.args) + " with a directory " + (full ? "" : "(empty) ") + y.first + " in the place of a file to be written";
						Files got = files(out);
						bool kept = true;
						for (auto &z : before) if (!got.count(z.first) || got[z.first] != z.second) kept = false;
						if (!kept && full) mc::fail(std::string("again:directory:") + c.name, where + " removes what the directory holds");
						if (kept && x.status == 0) mc::fail(std::string("again:directory:") + c.name, where + " ends with code 0");
						if (!kept && x.status != 0) mc::fail(std::string("again:directory:") + c.name, where + " removes the directory and ends with code " + S((int8_t)x.status));
						if (!kept && got != want) mc::fail(std::string("again:directory:") + c.name, where + " removes the directory and leaves" + different(got, want));
						mc::rmrf(out); mkdir(out.c_str(), 0700);
					}
				}
				mc::rmrf(out); mkdir(out.c_str(), 0700);
				start(bd, c, inject::NCLASS, -1);
				// the same export twice, and over the exports of other commands from other bases
				Files keep; keep["keep.txt"] = "keep"; keep["kept/"] = ""; keep["kept/x"] = "y";
				put_tree(keep, out);
				again("repeated", keep);
				for (int k2 : {kind, kind == 1 ? 2 : 1}) for (auto &c2 : C) {
					if (!(c2.kinds & bit(k2)) || c2.args[0] == "-ib") continue;
					std::string od = d + "/other" + S(k2);
					if (!mc::exists(od)) { fs_::create_directories(od); make(k2, fmt(f), od, k2 == BIG ? 10700 : 21, 1); }
					mc::rmrf(out); mkdir(out.c_str(), 0700);
					if (start(od, c2, inject::NCLASS, -1).status) mc::fail("again:other", std::string("ctool1cd ") + c2.name + " fails for the other base");
					Files before = files(out);
					again(std::string("over the export ") + c2.name + " of another base (" + KIND[k2] + ")", before);
				}
				return;
			}
			for (inject::Class cls : {inject::WRITE, inject::OPEN, inject::MKDIR}) {
				if (how == inject::TORN && cls != inject::WRITE) continue;
				long m = n[cls], step = points ? std::max(1L, m / points) : 1, i = 0;
				for (long k = 0; k < m; k += (k + 8 < m && k > 16 ? step : 1)) {
					if (i++ % parts != part) continue;
					mc::rmrf(out); mkdir(out.c_str(), 0700);
					auto x = start(bd, c, cls, k);
					if (x.status != 42) mc::fail("again:kill", "the run did not reach access " + S(k));
					std::string where = "after a run that ended at access " + S(k) + " of class " + S(cls) + " (" + inject::st->what + ")";
					again(where, Files());
				}
			}
		}, 600);
	};
	for (int kind = 0; kind <= BIG; kind++) for (int f = 0; f < 9; f++) for (auto &c : C) {
		if (!(c.kinds & bit(kind)) || c.args[0] == "-ib") continue;
		if (!r.thorough && !(f == 0 || (f == 1 && kind == 1))) continue;
		go(kind, f, c, inject::FAIL, 0, 0, 1);
		for (auto h : {inject::DIE, inject::TORN}) for (int p = 0; p < 2; p++) go(kind, f, c, h, kind == BIG ? (r.thorough ? 300 : 20) : r.thorough ? 0 : 60, p, 2);
	}
}

// ---------------------------------------------------------------- E01
void e01(Run &r)
{
	if (!inject::st) inject::st = (inject::State *)mmap(nullptr, sizeof(inject::State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static const char *const NAMES[] = {"b.1CD", "B.1cd", "b", "a b.1CD", "\xd0\xb1\xd0\xb0\xd0\xb7\xd0\xb0.1CD", "%s%n.1CD", "b.1CD.bak", "-b.1CD", "b'.1CD", ".1CD", "b;*?.1CD"};
	struct Env { const char *name; std::vector<std::pair<const char *, const char *>> set; };
	static const std::vector<Env> ENV = {{"none", {{"LANG", nullptr}, {"LC_ALL", nullptr}, {"TZ", nullptr}}}, {"c", {{"LC_ALL", "C"}}}, {"utf8", {{"LC_ALL", "C.UTF-8"}}}, {"nolocale", {{"LANG", "xx_YY.UTF-8"}}}, {"badall", {{"LC_ALL", "xx_YY.KOI8-R"}}}, {"badcoll", {{"LC_CTYPE", "bad"}}},
		{"tz", {{"TZ", "Asia/Kamchatka"}}}, {"tz2", {{"TZ", "<-11>11"}}}, {"tz3", {{"TZ", "<+1245>-12:45"}}}, {"tzdst", {{"TZ", "EST5EDT,M3.2.0,M11.1.0"}}}, {"tzdst2", {{"TZ", "NZST-12NZDT,M9.5.0,M4.1.0/3"}}}, {"tzbad", {{"TZ", ":bad"}}}, {"nohome", {{"HOME", nullptr}, {"PATH", nullptr}}}};
	auto go = [&](int kind, int f, const Cmd &c, int group) {
		static const char *const G[] = {"names", "paths", "out", "env"};
		r.scenario(std::string("e01/") + KIND[kind] + "/" + fmt(f).name + "/" + c.name + "/" + G[group], [&r, kind, f, &c, group] {
			std::string d = r.fresh_dir(), bd = d + "/base", out = d + "/out", td = d + "/tmp";
			for (auto x : {bd, td}) fs_::create_directories(x);
			make(kind, fmt(f), bd, 12);
			Files base0 = files(bd);
			auto start = [&](const std::string &base, const std::string &o, const std::string &real, const std::string &cwd, const Env *env, const std::string &tmp) {
				mc::rmrf(real); fs_::create_directories(real);
				mc::rmrf(td); mkdir(td.c_str(), 0700);
				std::vector<std::string> a = {base};
				for (auto &x : at(c.args, o)) a.push_back(x);
				ChildResult x = cli::run(r, a, 20, cwd, [&] { if (env) for (auto &v : env->set) { if (v.second) setenv(v.first, v.second, 1); else unsetenv(v.first); } quiet_clock(d + "/", tmp); });
				std::string where = "ctool1cd" + show(a) + (cwd.empty() ? "" : " in " + cwd) + (env ? std::string(" with environment ") + env->name : "");
				if (x.status < 0 || x.crashed()) mc::fail(std::string("around:crash:") + (env ? env->name : c.name), where + " dies with status " + S(x.status) + ": " + cli::report(x.err));
				if (x.status) mc::fail(std::string("around:code:") + c.name, where + " ends with code " + S((int8_t)x.status) + ": " + last(x.err));
				return std::make_pair(files(real), where);
			};
			Files want = start(bd + "/b.1CD", out, out, "", nullptr, td).first;
			auto check = [&](const std::pair<Files, std::string> &x) {
				if (x.first != want) mc::fail(std::string("around:files:") + c.name, x.second + " writes" + different(x.first, want));
				r.state(mc::fnv(r.current() + x.second));
			};
			if (group == 0) for (auto n : NAMES) {
				std::string nd = d + "/named";
				mc::rmrf(nd); put_tree(base0, nd);
				fs_::rename(nd + "/b.1CD", nd + "/" + n);
				check(start(nd + "/" + n, out, out, "", nullptr, td));
				if (n[0] != '-') check(start(n, out, out, nd, nullptr, td));
				else check(start(std::string("./") + n, out, out, nd, nullptr, td));
			}
			else if (group == 1) {
				symlink(bd.c_str(), (d + "/link").c_str());
				fs_::create_directories(bd + "/sub dir");
				for (auto x : {"b.1CD", "./b.1CD", "../base/b.1CD", "sub dir/../b.1CD", ".//b.1CD", "../link/b.1CD"}) check(start(x, out, out, bd, nullptr, td));
				check(start("../b.1CD", out, out, bd + "/sub dir", nullptr, td));
				check(start(d + "/link/b.1CD", out, out, "", nullptr, td));
				check(start("//" + bd + "//b.1CD", out, out, "/", nullptr, td));
				check(start(bd.substr(1) + "/b.1CD", out, out, "/", nullptr, td));
				if (kind < 3 || kind == 3 || kind == 4) { symlink((bd + "/b.1CD").c_str(), (d + "/l.1CD").c_str()); check(start(d + "/l.1CD", out, out, "", nullptr, td)); }
			}
			else if (group == 2) {
				static const char *const O[] = {"o", "o o", "\xd0\xb2\xd1\x8b\xd1\x85\xd0\xbe\xd0\xb4", "o.cf.d", "%s", "o'", "a/b/c", "-o"};
				for (auto o : O) for (int rel = 0; rel < 4; rel++) {
					std::string real = d + "/w/" + o, given = rel == 0 ? real : rel == 1 ? std::string(*o == '-' ? "./" : "") + o : rel == 2 ? real + "/" : std::string("../w/") + o;
					fs_::create_directories(d + "/w");
					check(start(bd + "/b.1CD", given, real, d + "/w", nullptr, td));
				}
			}
			else {
				// a version restored from a repository bears the local time of its export
				bool now = std::find(c.args.begin(), c.args.end(), "-drc") != c.args.end();
				for (auto &e : ENV) if (!now || (e.name[0] != 't' && strcmp(e.name, "none"))) check(start(bd + "/b.1CD", out, out, "", &e, td));
				for (auto t : {"t t", "\xd1\x82"}) { std::string x = td + "/../" + t; fs_::create_directories(x); check(start(bd + "/b.1CD", out, out, "", nullptr, x)); }
			}
			if (group != 1 && files(bd) != base0) mc::fail("around:base", "the base changes");
		}, 600);
	};
	for (int kind = 0; kind < NK; kind++) for (int f = 0; f < 9; f++) for (auto &c : commands()) {
		if (!(c.kinds & bit(kind)) || c.args[0] == "-ib") continue;
		if (!r.thorough && !(f == 0 || (f == 1 && kind == 1))) continue;
		for (int g = 0; g < 4; g++) go(kind, f, c, g);
	}
}

} // namespace

void explore(Run &r)
{
	if (r.prop == "F01") f01(r);
	else if (r.prop == "R01") r01(r);
	else if (r.prop == "E01") e01(r);
	else if (r.prop == "H01") h01(r);
	else { fprintf(stderr, "h_runs: unknown property %s\n", r.prop.c_str()); exit(2); }
}
