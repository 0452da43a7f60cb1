// S05 reading changes nothing, L01 lost objects, X01 several runs at the same time
#include "world.hpp"
#include <sys/syscall.h>
#include <linux/capability.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <poll.h>

namespace sched {
// In a controlled process every file system call on a shared path stops and waits for permission.
int req = -1, go = -1;
bool inside(const char *p);
void stop(const char *op, const char *path)
{
	if (req < 0 || !path || !inside(path)) return;
	std::string m = std::string(op) + " " + path;
	if (m.size() > 250) m.resize(250);
	char c = (char)(unsigned char)m.size();
	m = c + m;
	if (write(req, m.data(), m.size()) != (ssize_t)m.size()) syscall(SYS_exit_group, 77);
	if (read(go, &c, 1) != 1) syscall(SYS_exit_group, 77);
	if (c == 'k') kill(getpid(), SIGKILL);
}
std::string scope; // a directory
bool inside(const char *p) { return strncmp(p, scope.c_str(), scope.size()) == 0; }
std::string at(int fd, const char *p)
{
	if (p[0] == '/' || fd == AT_FDCWD) return p;
	char b[4096], l[64];
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = syscall(SYS_readlink, l, b, sizeof b - 1);
	return n < 0 ? std::string(p) : std::string(b, n) + "/" + p;
}
template <class F> F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
}
#define STOP(op, p) if (sched::req >= 0) sched::stop(op, p)
#define STOPAT(op, fd, p) if (sched::req >= 0) sched::stop(op, sched::at(fd, p).c_str())
extern "C" {
int mkdir(const char *p, mode_t m) { STOP("mkdir", p); int r = syscall(SYS_mkdirat, AT_FDCWD, p, m); return r; }
int rmdir(const char *p) { STOP("rmdir", p); return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int unlink(const char *p) { STOP("unlink", p); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int fd, const char *p, int fl) { STOPAT("unlinkat", fd, p); return syscall(SYS_unlinkat, fd, p, fl); }
int rename(const char *a, const char *b) { STOP("rename", b); return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); STOP("open", p); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); STOP("open", p); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int fd, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); STOPAT("open", fd, p); return syscall(SYS_openat, fd, p, fl, m); }
int stat(const char *p, struct stat *b) { STOP("stat", p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int lstat(const char *p, struct stat *b) { STOP("stat", p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int fd, const char *p, struct stat *b, int fl) { if (*p) STOPAT("stat", fd, p); return syscall(SYS_newfstatat, fd, p, b, fl); }
int statx(int fd, const char *p, int fl, unsigned mask, struct statx *b) { if (*p) STOPAT("stat", fd, p); return syscall(SYS_statx, fd, p, fl, mask, b); }
int access(const char *p, int m) { STOP("access", p); return syscall(SYS_faccessat, AT_FDCWD, p, m); }
FILE *fopen(const char *p, const char *m) { STOP("open", p); static auto f = sched::next<FILE *(*)(const char *, const char *)>("fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { STOP("open", p); static auto f = sched::next<FILE *(*)(const char *, const char *)>("fopen64"); return f(p, m); }
DIR *opendir(const char *p) { STOP("opendir", p); static auto f = sched::next<DIR *(*)(const char *)>("opendir"); return f(p); }
}

namespace {

using namespace world;
using mc::Run;

// ---------------------------------------------------------------- S05
void drop_capabilities()
{
	struct __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0};
	struct __user_cap_data_struct d[2];
	if (syscall(SYS_capget, &h, d)) _exit(77);
	for (int c : {CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH, CAP_FOWNER}) { d[c / 32].effective &= ~(1u << c % 32); d[c / 32].permitted &= ~(1u << c % 32); }
	if (syscall(SYS_capset, &h, d)) _exit(77);
}
void s05(Run &r)
{
	auto &R = readings();
	int n = R.size();
	auto go = [&](int kind, int f, const std::vector<int> &seq, bool odd_size) {
		std::string id = std::string("s05/") + KIND[kind] + "/" + fmt(f).name + "/";
		for (size_t i = 0; i < seq.size(); i++) id += (i ? "+" : "") + std::string(R[seq[i]].name);
		if (odd_size) id += "/tail";
		bool ib = std::count(seq.begin(), seq.end(), n - 1);
		r.scenario(id, [&r, &R, kind, f, seq, odd_size, ib] {
			std::string d = r.fresh_dir(), bd = d + "/base", first;
			mkdir(bd.c_str(), 0700);
			make(kind, fmt(f), bd);
			std::string path = bd + "/b.1CD";
			if (odd_size) { Bytes x = mc::read_file(path); mc::write_file(path, x + pattern(3, 0, 777)); }
			Files before = tree(bd);
			Files out1; int st1 = 0;
			for (int mode = ib ? 1 : 0; mode < 3; mode++) {
				const char *how[3] = {"opened exclusively", "with -ne", "with -ne and no right to write"};
				std::string out = d + "/out";
				mc::rmrf(out); mkdir(out.c_str(), 0700);
				if (ib) for (auto t : {"_T0", "_T1", "CONFIG", "HISTORY"}) { // something to import
					std::string td = out + "/" + t;
					mkdir(td.c_str(), 0700);
					Bytes root(36, '\0'); root[0] = 1; root[4] = 5;
					mc::write_file(td + "/root", root); mc::write_file(td + "/data", pattern(8, 0, 500));
				}
				std::vector<std::string> a;
				if (mode) a.push_back("-ne");
				a.push_back(path);
				for (int s : seq) for (auto x : R[s].args) { if (x[0] == '@') x = out + x.substr(1); a.push_back(x); }
				if (mode == 2) { chmod(path.c_str(), 0444); chmod(bd.c_str(), 0555); }
				ChildResult c = run(r, a, 30, "", [mode] { if (mode == 2) drop_capabilities(); });
				if (mode == 2) { chmod(bd.c_str(), 0700); chmod(path.c_str(), 0600); }
				cli::ok(c, a);
				Files now = tree(bd);
				if (now != before) {
					for (auto &x : now) { if (!before.count(x.first)) mc::fail("readonly:created", std::string(how[mode]) + " ctool1cd" + show(a) + " creates " + mc::quote(x.first) + " beside the base"); if (before[x.first] != x.second) mc::fail("readonly:changed", std::string(how[mode]) + " ctool1cd" + show(a) + " changes " + x.first + ": " + mc::diff(x.second, before[x.first])); }
					mc::fail("readonly:removed", std::string(how[mode]) + " ctool1cd" + show(a) + " removes a file beside the base");
				}
				Files o = tree(out);
				o.erase("log");
				for (auto &x : o) if (x.first.size() > 3 && x.first.substr(x.first.size() - 3) == ".cf") x.second = ""; // contain times
				if (mode == (ib ? 1 : 0)) { out1 = o; st1 = c.status; }
				else {
					if (c.status != st1) mc::fail("readonly:status", std::string(how[mode]) + " ctool1cd" + show(a) + " ends with code " + S((int8_t)c.status) + ", otherwise with " + S((int8_t)st1) + ": " + last(c.err));
					if (o != out1) {
						std::string what;
						for (auto &x : out1) if (!o.count(x.first)) what += " without " + x.first; else if (o[x.first] != x.second) what += " other " + x.first;
						for (auto &x : o) if (!out1.count(x.first)) what += " additional " + x.first;
						mc::fail("readonly:output", std::string(how[mode]) + " ctool1cd" + show(a) + " writes different files:" + what.substr(0, 500));
					}
				}
				uint64_t h = mc::fnv(r.current()); for (auto &x : o) h = mc::fnv(x.first, h);
				r.state(mc::fnv(&mode, 4, h));
				if (c.status == 0 && ib && mode) r.note("import without the right to write reported no error");
			}
		}, 90);
	};
	for (int k = 0; k < NK; k++) for (int f = 0; f < 9; f++) {
		if (k >= 3 && !r.thorough && f > 3) continue;
		for (int i = 0; i < n; i++) { go(k, f, {i}, false); if (r.thorough || (f == k && i % 4 == 0)) go(k, f, {i}, true); }
		if (!(r.thorough || f == (k * 4) % 9 || f == (k * 4 + 1) % 9)) continue;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) go(k, f, {i, j}, false);
	}
	if (r.thorough) for (int k : {0, 1, 5}) for (int f : {0, 1}) for (int i = 0; i < n - 1; i += 2) for (int j = 0; j < n - 1; j += 1) for (int l = 0; l < n - 1; l += 2) go(k, f, {i, j, l}, false);
}

// ---------------------------------------------------------------- L01
void l01(Run &r)
{
	static const std::vector<int> sizes = {0, 1, 100, 4095, 4096, 4097, 12288, 1023 * 4096, 1023 * 4096 + 5};
	enum { WHOLE, FREED, LONG, BADTAB, BADPAGE };
	struct Lost { int size; int where; int how; };
	std::vector<int> fmts;
	for (int i = 0; i < 9; i++) if (!formats()[i].n838) fmts.push_back(i);
	auto go = [&](const std::string &id, int f, std::vector<Lost> ls, bool ne) {
		r.scenario(id, [&r, f, ls, ne] {
			std::string d = r.fresh_dir(), out = d + "/p/out";
			fs_::create_directories(out);
			img::Base b = base_of(fmt(f));
			std::vector<img::TableDef> ts;
			std::map<std::string, Bytes> want;
			std::set<std::string> maybe;
			std::vector<uint32_t> fr;
			int damaged = 0;
			auto lost = [&](int pos) {
				for (size_t i = 0; i < ls.size(); i++) if (ls[i].where == pos) {
					Bytes data = pattern(i * 3 + 11, 0, ls[i].size);
					uint32_t h = b.add_object(data);
					Bytes &p = b.page(h);
					if (ls[i].how == FREED) fr.push_back(h);
					if (ls[i].how == LONG) { img::put32(p, 8, 0xfffffff0u); damaged++; }
					if (ls[i].how == BADTAB) { img::put32(p, 8, 5000); img::put32(p, 24, 0x00ffffffu); damaged++; }
					if (ls[i].how == BADPAGE) { uint32_t t = img::get32(p, 24); img::put32(b.page(t), 4, 0x00ffffffu); damaged++; }
					if (ls[i].how >= LONG) maybe.insert("block" + S(h)); else want["block" + S(h)] = data;
				}
			};
			for (int pos = 0; pos < 3; pos++) {
				lost(pos);
				if (pos == 2) break;
				Tab t;
				t.def.name = pos ? "_B" : "_A";
				t.def.fields = {field("_ID", "N", 9), field("_I", "I")};
				img::Blob bl;
				for (int i = 0; i < 30; i++) t.rows.push_back({cli::num(S(i), 9, 0), image(bl, pattern(i + 40, 0, 100))});
				t.def.blob = bl.d;
				img::IndexDef ix; ix.name = "PK"; ix.primary = true; ix.keylen = 6; ix.fields = {{"_ID", 9}}; ix.per_leaf = 100;
				for (int i = 0; i < 30; i++) { Bytes k(6, '\0'); k[5] = (char)i; ix.entries.push_back({k, (uint32_t)i}); }
				t.def.indexes = {ix};
				t.encode();
				img::add_table(b, t.def);
				ts.push_back(t.def);
			}
			img::write_root(b, ts);
			lost(3); // behind everything else: an empty one is the last page
			b.write_free(fr);
			Bytes image = b.finish();
			mc::write_file(d + "/b.1CD", image);
			std::vector<std::string> a = {d + "/b.1CD", "-slo", out};
			if (ne) a.push_back("-ne");
			ChildResult c = must(r, a, 40);
			if (!damaged && c.status) mc::fail("lost:exit", "ends with code " + S((int8_t)c.status) + ": " + last(c.err));
			Files t = tree(out), side = tree(d + "/p");
			for (auto &x : want) {
				if (!t.count(x.first)) mc::fail("lost:missing", x.first + " is not saved" + (side.count("out" + x.first) ? ", it is beside the directory" : "") + ": " + last(c.err, 400));
				mc::expect_eq("lost:bytes", x.first, t[x.first], x.second);
				t.erase(x.first);
			}
			for (auto &x : t) if (!maybe.count(x.first)) mc::fail("lost:extra", mc::quote(x.first) + " is saved, it is no lost object");
			for (auto &x : side) if (x.first.compare(0, 4, "out/") != 0 && x.first != "out") mc::fail("lost:outside", mc::quote(x.first) + " is written outside of the directory");
			if (mc::read_file(d + "/b.1CD") != image) mc::fail("lost:base", "the base changes");
			r.state(r.current());
			if (ls.empty()) r.note("bases without lost objects");
		}, 60);
	};
	for (int f : fmts) {
		for (int ne = 0; ne < 2; ne++) go("l01/none/" + S(f) + "/" + S(ne), f, {}, ne);
		for (size_t s = 0; s < sizes.size(); s++) for (int w = 0; w < 4; w++) for (int how = 0; how < 5; how++) {
			if (how == BADPAGE && sizes[s] == 0) continue;
			if (sizes[s] > 100000 && !r.thorough && (w != 1 || f != fmts[0])) continue;
			go("l01/one/" + S(f) + "/" + S(s) + "/" + S(w) + "/" + S(how), f, {{sizes[s], w, how}}, w == 2);
		}
	}
	static const std::vector<int> small = {0, 100, 4096, 9000};
	for (size_t fi = 0; fi < (r.thorough ? fmts.size() : 2); fi++) for (int a : small) for (int b : small) for (int wa = 0; wa < 4; wa++) for (int wb = 0; wb < 4; wb++) for (int ha = 0; ha < 5; ha++) for (int hb = 0; hb < 5; hb++) {
		if ((ha == BADPAGE && !a) || (hb == BADPAGE && !b)) continue;
		if (!r.thorough && (wa + wb + ha + hb + a / 100) % 3) continue;
		go("l01/two/" + S(fi) + "/" + S(a) + "/" + S(b) + "/" + S(wa) + S(wb) + "/" + S(ha) + S(hb), fmts[fi], {{a, wa, ha}, {b, wb, hb}}, ha & 1);
	}
}

// ---------------------------------------------------------------- X01
// Two runs under a scheduler that decides at every access to the shared temporary directory who continues.
struct Proc {
	pid_t pid = 0; int req = -1, go = -1;
	bool waiting = false, ended = false; std::string at; int status = 0;
	std::string err; // file
};
struct Outcome { std::vector<int> choices, enabled; std::vector<std::string> trace; int status[2]; std::string err[2]; };

void start(Proc &p, Run &r, int who, const std::vector<std::string> &args, const std::string &scope, const std::string &errfile)
{
	int a[2], b[2];
	if (pipe(a) || pipe(b)) _exit(77);
	fflush(stdout); fflush(stderr);
	p.err = errfile;
	p.pid = fork();
	if (p.pid < 0) _exit(77);
	if (p.pid == 0) {
		close(a[0]); close(b[1]);
		int fe = ::open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fi = ::open("/dev/null", O_RDWR);
		dup2(fe, 2); dup2(fi, 1); dup2(fi, 0);
		rlimit rl; rl.rlim_cur = 60; rl.rlim_max = 61; setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		alarm(600);
		setenv("TMPDIR", scope.c_str(), 1);
		cli::own_temp_dir<TTempStream>(0);
		std::vector<std::string> v = args; v.insert(v.begin(), "ctool1cd");
		std::vector<char *> q; for (auto &s : v) q.push_back(&s[0]); q.push_back(nullptr);
		sched::scope = scope + "/"; sched::go = b[0]; sched::req = a[1];
		int rc = 98;
		try { rc = ctool1cd_main((int)v.size(), q.data()) & 0xff; } catch (...) {}
		exit(rc);
	}
	close(a[1]); close(b[0]);
	p.req = a[0]; p.go = b[1];
	(void)r; (void)who;
}
// let p run until it asks again or ends
void advance(Proc &p)
{
	unsigned char n;
	ssize_t k;
	do k = ::read(p.req, &n, 1); while (k < 0 && errno == EINTR);
	if (k == 1) {
		p.at.assign(n, '\0');
		size_t got = 0;
		while (got < n) { k = ::read(p.req, &p.at[got], n - got); if (k <= 0) break; got += k; }
		p.waiting = true;
		return;
	}
	while (waitpid(p.pid, &p.status, 0) < 0 && errno == EINTR) {}
	close(p.req); close(p.go);
	p.ended = true; p.waiting = false;
}
void permit(Proc &p, char c = 'g') { p.waiting = false; if (::write(p.go, &c, 1) != 1) _exit(77); }
int code(int st) { return WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM ? -1 : 1000 + WTERMSIG(st); }

// runs until the schedule is complete; beyond the prefix the running process goes on as long as it can
// kill_at >= 0: process `victim` is killed instead of its step number kill_at
Outcome execute(Run &r, const std::vector<std::string> args[2], const std::string &scope, const std::string &errbase, const std::vector<int> &prefix, int victim = -1, int kill_at = -1)
{
	Outcome o;
	Proc p[2];
	signal(SIGPIPE, SIG_IGN);
	for (int i = 0; i < 2; i++) { start(p[i], r, i, args[i], scope, errbase + S(i)); }
	for (int i = 0; i < 2; i++) advance(p[i]);
	int cur = 0, steps[2] = {0, 0};
	while (!p[0].ended || !p[1].ended) {
		int en = (p[0].ended ? 0 : 1) | (p[1].ended ? 0 : 2);
		int c;
		if (o.choices.size() < prefix.size()) { c = prefix[o.choices.size()]; if (!(en >> c & 1)) { if (o.choices.empty()) c = 1 - c; else mc::fail("schedule:replay", "a schedule can not be repeated"); } }
		else c = en >> cur & 1 ? cur : 1 - cur;
		o.choices.push_back(c); o.enabled.push_back(en);
		// the names of temporary files are random
		std::string t = p[c].at.substr(0, p[c].at.find(' '));
		o.trace.push_back(S(c) + ":" + t);
		r.step();
		bool k = c == victim && steps[c] == kill_at;
		steps[c]++;
		permit(p[c], k ? 'k' : 'g');
		advance(p[c]);
		cur = c;
		if (o.choices.size() > 2000) mc::fail("schedule:long", "a run does not end");
	}
	for (int i = 0; i < 2; i++) { o.status[i] = code(p[i].status); o.err[i] = mc::read_file(p[i].err); }
	return o;
}
Bytes big(int tag, size_t n)
{
	Bytes u = pattern(tag, 0, 4096), d;
	while (d.size() < n) { d += u; d[d.size() - 1] = (char)(d.size() >> 12); }
	d.resize(n);
	return d;
}
void x01(Run &r)
{
	struct Case { const char *name; std::vector<std::string> a, b; bool same_out; };
	static const std::vector<Case> cases = {
		{"blobs", {"-bf", "yes", "-pb", "yes", "-ex", "@", "_A"}, {"-bf", "yes", "-pb", "yes", "-ex", "@", "_A"}, false},
		{"tables", {"-bf", "yes", "-pb", "yes", "-ex", "@", "_A"}, {"-bf", "yes", "-pb", "yes", "-ex", "@", "_B"}, true},
		{"short", {"-bf", "yes", "-pb", "yes", "-ex", "@", "_A"}, {"-bf", "yes", "-pb", "yes", "-ex", "@", "_S", "-sts", "@/sizes"}, false},
		{"twice", {"-bf", "yes", "-ex", "@", "_A", "-ex", "@", "_B"}, {"-bf", "yes", "-pb", "no", "-ex", "@", "_B"}, false}};
	auto prepare = [&](const std::string &d) {
		std::vector<Tab> ts;
		for (int k = 0; k < 3; k++) {
			Tab t; t.def.name = k == 0 ? "_A" : k == 1 ? "_B" : "_S";
			t.def.fields = {field("_ID", "N", 9), field("_I", "I")};
			img::Blob bl;
			std::vector<Bytes> v = {pattern(k, 0, 100)};
			if (k < 2) { v.push_back(big(k + 50, (10 << 20) + 4096)); v.push_back(v8c::deflate_raw(big(k + 60, 60000))); }
			for (size_t i = 0; i < v.size(); i++) t.rows.push_back({cli::num(S(i), 9, 0), image(bl, v[i])});
			t.def.blob = bl.d;
			ts.push_back(t);
		}
		make_base(fmt(1), ts, d + "/b.1CD");
	};
	auto args_of = [](const std::vector<std::string> &t, const std::string &base, const std::string &out) {
		std::vector<std::string> a = {"-ne", base};
		for (auto x : t) { if (x[0] == '@') x = out + x.substr(1); a.push_back(x); }
		return a;
	};
	for (auto &c : cases) {
		// every schedule with at most `bound` switches away from a run that could continue: shards are the positions of the first switch
		int bound = r.thorough ? 4 : 2;
		const int parts = r.thorough ? 24 : 12;
		auto setup = [&](Run &rr, std::string &d, std::string out[2], std::vector<std::string> args[2], std::string &scope) {
			static std::string have; // the base is the same for every schedule
			d = rr.tmp + "/x";
			scope = d + "/tmp";
			if (have != d) { rr.fresh_dir("x"); prepare(d); have = d; }
			mc::rmrf(scope); mkdir(scope.c_str(), 0700);
			for (int i = 0; i < 2; i++) {
				out[i] = d + "/out" + (c.same_out ? "" : S(i));
				if (i == 0 || !c.same_out) { mc::rmrf(out[i]); mkdir(out[i].c_str(), 0700); }
				args[i] = args_of(i ? c.b : c.a, d + "/b.1CD", out[i]);
			}
		};
		// what each run writes alone
		auto alone = [&](Run &rr, Files want[2], int n[2]) {
			static std::map<std::string, std::pair<std::vector<Files>, std::vector<int>>> memo;
			auto &m = memo[c.name];
			if (m.first.empty()) {
				for (int i = 0; i < 2; i++) {
					std::string d, out[2], scope; std::vector<std::string> args[2];
					setup(rr, d, out, args, scope);
					std::vector<std::string> a[2] = {args[i], {"-h"}};
					Outcome o = execute(rr, a, scope, d + "/err", {});
					if (o.status[0]) mc::fail("concurrent:alone", "a run alone ends with code " + S((int8_t)o.status[0]) + ": " + last(o.err[0]));
					m.first.push_back(tree(out[i]));
					int k = 0; for (int x : o.choices) k += x == 0;
					m.second.push_back(k);
					if (!tree(scope).empty()) mc::fail("concurrent:left", "a run leaves files in the temporary directory: " + mc::quote(tree(scope).begin()->first));
				}
			}
			for (int i = 0; i < 2; i++) { want[i] = m.first[i]; n[i] = m.second[i]; }
		};
		auto check = [&](const Outcome &o, const std::string out[2], const std::string &scope, const Files want[2], int victim) {
			std::string tr; for (auto &t : o.trace) tr += " " + t;
			for (int i = 0; i < 2; i++) {
				if (i == victim) continue;
				if (o.status[i]) mc::fail("concurrent:status", "run " + S(i) + " ends with code " + S(o.status[i]) + " under the schedule" + tr + ": " + last(o.err[i]));
				Files g = tree(out[i]);
				for (auto &x : want[i]) if (!g.count(x.first)) mc::fail("concurrent:missing", "run " + S(i) + ": " + x.first + " is missing under the schedule" + tr); else if (g[x.first] != x.second) mc::fail("concurrent:bytes", "run " + S(i) + ": " + x.first + " differs under the schedule" + tr);
				if (!c.same_out && g.size() != want[i].size()) mc::fail("concurrent:extra", "run " + S(i) + " writes additional files under the schedule" + tr);
			}
			if (victim < 0 && !tree(scope).empty()) mc::fail("concurrent:left", "files are left in the temporary directory under the schedule" + tr);
		};
		for (int part = 0; part < parts; part++) r.scenario(std::string("x01/") + c.name + "/" + S(part), [&, part] {
			Files want[2]; int n[2];
			alone(r, want, n);
			// all preemption-bounded schedules; the position of the first switch decides to which part a schedule belongs
			std::vector<std::vector<int>> todo;
			todo.push_back({});
			if (n[1]) todo.push_back({1});
			uint64_t done = 0;
			while (!todo.empty()) {
				std::vector<int> prefix = todo.back(); todo.pop_back();
				std::string d, out[2], scope; std::vector<std::string> args[2];
				static std::map<std::string, Outcome> roots;
				std::string key = c.name + S(prefix.empty() ? 0 : 1);
				bool root = prefix.size() < 2;
				Outcome o;
				if (root && part && roots.count(key)) o = roots[key];
				else {
					setup(r, d, out, args, scope);
					o = execute(r, args, scope, d + "/err", prefix);
					done++;
				}
				if (root) roots[key] = o;
				r.state([&] { std::string s = c.name; for (int x : o.choices) s += (char)('0' + x); return s; }());
				{ std::string t; for (auto &x : o.trace) t += " " + x; r.sample(std::string(c.name) + t); }
				if (!d.empty()) check(o, out, scope, want, -1);
				// extend: at every later point where the running process could go on, switch
				int pre = 0;
				for (size_t i = 1; i < o.choices.size(); i++) {
					bool forced = !(o.enabled[i] >> o.choices[i - 1] & 1);
					if (i < prefix.size()) { if (o.choices[i] != o.choices[i - 1] && !forced) pre++; continue; }
					if (i < std::max<size_t>(1, prefix.size())) continue;
					if (pre >= bound || o.enabled[i] != 3 || o.choices[i] != o.choices[i - 1]) continue;
					std::vector<int> q(o.choices.begin(), o.choices.begin() + i);
					q.push_back(1 - o.choices[i]);
					bool first = true;
					for (size_t k = 1; k + 1 < q.size(); k++) if (q[k] != q[k - 1]) first = false;
					if (first && (int)((i * 2 + q[0]) % parts) != part) continue;
					todo.push_back(q);
				}
			}
			r.note("schedules", done);
		}, 600);
		// one run is killed before any of its accesses; the other one is not disturbed, and a run after that works
		for (int victim = 0; victim < 2; victim++) for (int at = 0; at < (r.thorough ? 40 : 24); at++) r.scenario(std::string("x01/kill/") + c.name + "/" + S(victim) + "/" + S(at), [&, victim, at] {
			Files want[2]; int n[2];
			alone(r, want, n);
			if (at >= n[victim]) { r.trivial(); return; }
			int m = n[1 - victim];
			for (int before = 0; before <= m; before += r.thorough ? 1 : std::max(1, m / 4)) {
				// `before` steps of the other one, then the victim until it is killed, then the other one
				std::vector<int> prefix;
				for (int i = 0; i < before; i++) prefix.push_back(1 - victim);
				for (int i = 0; i <= at; i++) prefix.push_back(victim);
				std::string d, out[2], scope; std::vector<std::string> args[2];
				setup(r, d, out, args, scope);
				Outcome o = execute(r, args, scope, d + "/err", prefix, victim, at);
				r.state(r.current() + S(before));
				check(o, out, scope, want, victim);
				r.note("kills");
				if (before) continue;
				std::string s2 = scope; // the remains stay in place
				for (int i = 0; i < 2; i++) { mc::rmrf(out[i]); mkdir(out[i].c_str(), 0700); }
				Outcome o2 = execute(r, args, s2, d + "/err", {});
				if (o2.status[0] || o2.status[1]) mc::fail("concurrent:after-kill", "after a killed run the next ones end with " + S(o2.status[0]) + ", " + S(o2.status[1]));
				for (int i = 0; i < 2; i++) { Files g = tree(out[i]); for (auto &x : want[i]) if (!g.count(x.first) || g[x.first] != x.second) mc::fail("concurrent:after-kill", "after a killed run " + x.first + " differs"); }
			}
		}, 600);
	}
}

} // namespace

void explore(Run &r)
{
	if (r.prop == "S05") s05(r);
	else if (r.prop == "L01") l01(r);
	else if (r.prop == "X01") x01(r);
	else { fprintf(stderr, "h_files: unknown property %s\n", r.prop.c_str()); exit(2); }
}
