// Bounded explicit enumeration framework.
//
// A harness defines `void explore(mc::Run &r)`, which enumerates *all* scenarios of its bounded space in a
// deterministic order, calling r.scenario(id, body) for each.  The parent process shards that enumeration over
// worker processes; a worker executes the scenarios that fall into its shard, in order.  A scenario that throws
// mc::Fail, lets an exception escape, crashes (sanitizer report, signal, exit) or exceeds its CPU budget is a
// counterexample; the parent replays it alone (and, when that does not reproduce it, the same shard up to it)
// before it is reported.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace mc {

typedef std::string Bytes;

struct Fail {
	std::string sig, msg;
};

[[noreturn]] inline void fail(const std::string &sig, const std::string &msg) { throw Fail{sig, msg}; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h ? h : 1;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string hex(const std::string &s, size_t max = 48)
{
	static const char *d = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < s.size() && i < max; i++) { r += d[(unsigned char)s[i] >> 4]; r += d[s[i] & 15]; }
	if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
	return r;
}
inline std::string quote(const std::string &s, size_t max = 200)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
		else r += c;
	}
	if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
	return r + "\"";
}
inline std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
// make arbitrary bytes printable ASCII/UTF-8-safe for reports
inline std::string safe(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '\n' || (c >= 32 && c < 127)) r += c;
		else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
	}
	return r;
}

// first difference of two byte strings, for messages
inline std::string diff(const std::string &got, const std::string &want)
{
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t b = i > 16 ? i - 16 : 0;
	return "size got " + std::to_string(got.size()) + " want " + std::to_string(want.size()) + ", first difference at " +
		std::to_string(i) + ": got " + quote(got.substr(b, 64)) + " want " + quote(want.substr(b, 64));
}
inline void expect_eq(const std::string &sig, const std::string &what, const std::string &got, const std::string &want)
{
	if (got != want) fail(sig, what + ": " + diff(got, want));
}
inline void expect_eq(const std::string &sig, const std::string &what, long long got, long long want)
{
	if (got != want) fail(sig, what + ": got " + std::to_string(got) + " want " + std::to_string(want));
}
inline void expect(bool c, const std::string &sig, const std::string &what) { if (!c) fail(sig, what); }

struct Shared { // one per worker, in shared memory
	volatile uint64_t idx;        // index of the scenario being executed (1-based), 0 when none
	volatile uint64_t done;       // scenarios completed
	volatile uint64_t transitions;
	volatile uint64_t failures;
	volatile uint64_t nontrivial;
	volatile uint64_t finished;   // enumeration completed
	volatile uint64_t last;       // last scenario executed by a worker that was replaced
	volatile double cpu_start;    // CPU seconds of the worker when the scenario began
	volatile double wall_start;
	volatile uint64_t cpu_limit;
	char id[4096];
};

inline double now()
{
	timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9;
}
inline double cpu_self()
{
	timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9;
}

inline void rmrf(const std::string &p)
{
	struct stat st;
	if (lstat(p.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		if (DIR *d = opendir(p.c_str())) {
			std::vector<std::string> names;
			while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
			closedir(d);
			for (auto &n : names) rmrf(p + "/" + n);
		}
		rmdir(p.c_str());
	} else unlink(p.c_str());
}

inline std::string read_file(const std::string &p, bool *ok = nullptr)
{
	std::string r;
	FILE *f = fopen(p.c_str(), "rb");
	if (ok) *ok = f != nullptr;
	if (!f) return r;
	char buf[65536]; size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, n);
	fclose(f);
	return r;
}
inline void write_file(const std::string &p, const std::string &d)
{
	FILE *f = fopen(p.c_str(), "wb");
	if (!f) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); _exit(77); }
	if (fwrite(d.data(), 1, d.size(), f) != d.size()) { fprintf(stderr, "harness: short write %s\n", p.c_str()); _exit(77); }
	fclose(f);
}
inline bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
inline bool is_dir(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }

// recursive listing relative to p: directories end in '/'
inline void list_tree(const std::string &p, std::map<std::string, std::string> &out, const std::string &rel = "")
{
	DIR *d = opendir((p + "/" + rel).c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
	closedir(d);
	for (auto &n : names) {
		std::string r = rel.empty() ? n : rel + "/" + n;
		if (is_dir(p + "/" + r)) { out[r + "/"] = ""; list_tree(p, out, r); }
		else out[r] = read_file(p + "/" + r);
	}
}

struct ChildResult {
	int status = 0;      // exit code, or 1000+signal, or -1 for time-out
	std::string out;     // stdout
	std::string err;     // stderr
	bool crashed() const { return status >= 1000 || status == 99 || status == 98 || status < 0; }
};

class Run {
public:
	std::string prop;
	bool thorough = false;
	std::string tmp;              // scratch directory of this worker
	std::string repo = "/repo";
	double default_cpu_limit = 60;

	// Execute one scenario (if it belongs to this worker).
	template <class F> void scenario(const std::string &id, F body, unsigned cpu_limit = 0)
	{
		++seq;
		if (listing) { list.push_back(id); return; }
		if (!only.empty()) { if (id != only) return; }
		else {
			if (seq % nshards != (uint64_t)shard) return;
			if (seq <= skip_to) return;
			if (upto && seq > upto) return;
		}
		if (stop_after && sh->failures >= stop_after) { capped = true; return; }
		strncpy(sh->id, id.c_str(), sizeof(sh->id) - 1);
		sh->cpu_limit = cpu_limit ? cpu_limit : (uint64_t)default_cpu_limit;
		sh->cpu_start = cpu_self();
		sh->wall_start = now();
		sh->idx = seq;
		cur = id;
		trivial_flag = false;
		try {
			size_t calls = state_calls;
			body();
			if (calls == state_calls) state(cur); // the input itself is the state explored
			if (samples.empty()) sample(cur);
			if (!trivial_flag) sh->nontrivial++;
		} catch (const Fail &f) {
			record(f.sig, f.msg);
		} catch (const std::exception &e) {
			record("exception", std::string("unexpected exception: ") + e.what());
		} catch (...) {
			record("exception", "unexpected exception of unknown type");
		}
		sh->done++;
		sh->idx = 0;
		if (sh->done % 256 == 0) flush_states();
		// a worker that has grown (the library leaks a little in every scenario) is replaced by a fresh one
		if (only.empty() && sh->done % 32 == 0 && rss_mb() > 1200) { flush_states(); sh->last = seq; _exit(76); }
	}
	static long rss_mb()
	{
		FILE *f = fopen("/proc/self/statm", "r");
		long a = 0, b = 0;
		if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
		return b * 4096 / (1 << 20);
	}
	void trivial() { trivial_flag = true; }
	void step(uint64_t n = 1) { sh->transitions += n; }
	void state(uint64_t h) { state_calls++; states.insert(h); }
	void state(const std::string &s) { state(fnv(s)); }
	void sample(const std::string &s) { if (samples.size() < 3) { samples.push_back(s.substr(0, 400)); } }
	void note(const std::string &k, uint64_t n = 1) { notes[k] += n; }
	void set_limit(unsigned s) { sh->cpu_limit = s; }

	// Run fn in a forked child: its return value is the exit code; stdout/stderr are captured.
	template <class F> ChildResult child(F fn, double cpu = 30)
	{
		static int n = 0;
		std::string so = tmp + "/child.out", se = tmp + "/child.err";
		n++;
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p < 0) { fprintf(stderr, "harness: fork failed\n"); _exit(77); }
		if (p == 0) {
			int fo = ::open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = ::open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			int fi = ::open("/dev/null", O_RDONLY);
			dup2(fo, 1); dup2(fe, 2); dup2(fi, 0);
			rlimit rl; rl.rlim_cur = (rlim_t)cpu; rl.rlim_max = (rlim_t)cpu + 1;
			setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = (rlim_t)2 << 30; setrlimit(RLIMIT_FSIZE, &rl);
			rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
			alarm((unsigned)(cpu * 10));
			signal(SIGXCPU, SIG_DFL);
			int rc = 97;
			try { rc = fn(); }
			catch (const std::exception &e) { fprintf(stderr, "child: uncaught exception: %s\n", e.what()); rc = 98; }
			catch (...) { fprintf(stderr, "child: uncaught exception of unknown type\n"); rc = 98; }
			std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
			exit(rc); // as the program does: static objects are destroyed
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		ChildResult r;
		if (WIFEXITED(st)) r.status = WEXITSTATUS(st);
		else if (WIFSIGNALED(st)) r.status = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM) ? -1 : 1000 + WTERMSIG(st);
		r.out = read_file(so); r.err = read_file(se);
		if (r.status == 77) _exit(77);
		return r;
	}
	// a fresh empty scratch directory for one scenario
	std::string fresh_dir(const char *name = "w")
	{
		std::string d = tmp + "/" + name;
		rmrf(d);
		mkdir(d.c_str(), 0700);
		return d;
	}
	const std::string &current() const { return cur; }

	// ---- internals
	Shared *sh = nullptr;
	uint64_t seq = 0, skip_to = 0, upto = 0, stop_after = 40;
	int shard = 0, nshards = 1;
	std::string only, cur, outbase;
	bool listing = false, capped = false, trivial_flag = false;
	std::vector<std::string> list, samples;
	size_t state_calls = 0;
	std::unordered_set<uint64_t> states;
	std::map<std::string, uint64_t> notes;

	void record(const std::string &sig, const std::string &msg)
	{
		sh->failures++;
		FILE *f = fopen((outbase + ".fail").c_str(), "ab");
		fprintf(f, "%llu\t%s\t%s\t%s\n", (unsigned long long)seq, esc(cur).c_str(), esc(sig).c_str(), esc(msg.substr(0, 4000)).c_str());
		fclose(f);
	}
	static std::string esc(const std::string &s)
	{
		std::string r;
		for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else if (c == '\r') r += "\\r"; else if (c == 0) r += "\\0"; else r += c; }
		return r;
	}
	static std::string unesc(const std::string &s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); i++) {
			if (s[i] == '\\' && i + 1 < s.size()) { char c = s[++i]; r += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == '0' ? '\0' : c; }
			else r += s[i];
		}
		return r;
	}
	void flush_states()
	{
		FILE *f = fopen((outbase + ".states").c_str(), "wb");
		std::vector<uint64_t> v(states.begin(), states.end());
		fwrite(v.data(), 8, v.size(), f);
		fclose(f);
		f = fopen((outbase + ".notes").c_str(), "wb");
		for (auto &n : notes) fprintf(f, "%s\t%llu\n", esc(n.first).c_str(), (unsigned long long)n.second);
		for (auto &s : samples) fprintf(f, "#\t%s\n", esc(s).c_str());
		fclose(f);
	}
	void load_states()
	{
		std::string s = read_file(outbase + ".states");
		for (size_t i = 0; i + 8 <= s.size(); i += 8) { uint64_t h; memcpy(&h, &s[i], 8); states.insert(h); }
		std::istringstream is(read_file(outbase + ".notes"));
		std::string l;
		while (std::getline(is, l)) {
			size_t t = l.find('\t');
			if (t == std::string::npos) continue;
			if (l[0] == '#' && t == 1) samples.push_back(unesc(l.substr(2)));
			else notes[unesc(l.substr(0, t))] = strtoull(l.c_str() + t + 1, nullptr, 10);
		}
	}
};

struct Failure { uint64_t seq; std::string id, sig, msg; int shard; };

} // namespace mc

void explore(mc::Run &r);

namespace mc {

inline void *shmem(size_t n)
{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return p;
}

// fold a sanitizer report into a short signature: kind + first frame inside /repo
inline std::string crash_sig(const std::string &err, int status)
{
	std::string kind = "signal";
	size_t p = err.find("ERROR: AddressSanitizer: ");
	if (p != std::string::npos) {
		p += 25;
		size_t e = err.find_first_of(" \n", p);
		kind = err.substr(p, e - p);
		std::string fn;
		size_t q = p;
		while ((q = err.find("\n    #", q)) != std::string::npos) {
			size_t eol = err.find('\n', q + 1);
			std::string line = err.substr(q + 1, eol - q - 1);
			size_t in = line.find(" in "), rp = line.find("/src/");
			if (in != std::string::npos && rp != std::string::npos && line.find("/harness/") == std::string::npos) {
				std::string f = line.substr(in + 4);
				f = f.substr(0, f.find_first_of("( "));
				fn = f;
				break;
			}
			q = q + 1;
		}
		return "crash:" + kind + (fn.empty() ? "" : ":" + fn);
	}
	if (err.find("terminate called") != std::string::npos) kind = "terminate";
	if (err.find("Assertion") != std::string::npos) kind = "assertion";
	return "crash:" + kind + ":" + std::to_string(status);
}
inline std::string tail(const std::string &s, size_t n) { return s.size() > n ? s.substr(s.size() - n) : s; }
inline std::string head(const std::string &s, size_t n) { return s.size() > n ? s.substr(0, n) : s; }

// Run one worker process over [skip_to, upto]; returns when it ends. Fills failures.
struct WorkerSpec { int shard, nshards; uint64_t skip_to, upto; std::string only; double limit_scale; };

inline pid_t start_worker(const WorkerSpec &w, Shared *sh, const std::string &base, const std::string &tmpdir, const Run &proto)
{
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p) return p;
	setpgid(0, 0);
	int fe = ::open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	int fn = ::open("/dev/null", O_RDWR);
	dup2(fe, 2); dup2(fn, 1); dup2(fn, 0);
	Run r;
	r.prop = proto.prop; r.thorough = proto.thorough; r.repo = proto.repo;
	r.sh = sh; r.shard = w.shard; r.nshards = w.nshards; r.skip_to = w.skip_to; r.upto = w.upto; r.only = w.only;
	r.outbase = base; r.tmp = tmpdir;
	mkdir(tmpdir.c_str(), 0700);
	if (chdir(tmpdir.c_str()) != 0) _exit(77);
	mkdir((tmpdir + "/t").c_str(), 0700);
	setenv("TMPDIR", (tmpdir + "/t").c_str(), 1);
	r.load_states();
	explore(r);
	r.flush_states();
	sh->finished = r.capped ? 2 : 1;
	_exit(0);
}

inline double proc_cpu(pid_t pid)
{
	clockid_t c;
	if (clock_getcpuclockid(pid, &c) != 0) return -1;
	timespec t;
	if (clock_gettime(c, &t) != 0) return -1;
	return t.tv_sec + t.tv_nsec * 1e-9;
}

inline void kill_group(pid_t p) { kill(-p, SIGKILL); kill(p, SIGKILL); }

// Supervise a set of shards to completion; returns failures; *complete says whether the enumeration ended.
inline std::vector<Failure> supervise(std::vector<WorkerSpec> specs, const std::string &dir, const Run &proto, Shared *shs,
	bool *complete, int max_crashes, double budget)
{
	size_t n = specs.size();
	std::vector<pid_t> pids(n, 0);
	std::vector<int> crashes(n, 0);
	std::vector<bool> over(n, false);
	std::vector<Failure> fails;
	double t0 = now();
	*complete = true;
	auto base = [&](size_t i) { return dir + "/w" + std::to_string(i); };
	for (size_t i = 0; i < n; i++) pids[i] = start_worker(specs[i], &shs[i], base(i), base(i) + ".tmp", proto);
	size_t left = n;
	while (left) {
		usleep(3000);
		for (size_t i = 0; i < n; i++) {
			if (over[i]) continue;
			int st;
			pid_t w = waitpid(pids[i], &st, WNOHANG);
			bool hang = false;
			if (w == 0) {
				uint64_t idx = shs[i].idx;
				if (idx) {
					double cpu = proc_cpu(pids[i]);
					double used = cpu - shs[i].cpu_start, wall = now() - shs[i].wall_start;
					double lim = shs[i].cpu_limit * specs[i].limit_scale;
					if (shs[i].idx == idx && (used > lim || wall > lim * 8 + 60)) {
						hang = true;
						kill_group(pids[i]);
						waitpid(pids[i], &st, 0);
					}
				}
				if (!hang && budget > 0 && now() - t0 > budget) {
					kill_group(pids[i]); waitpid(pids[i], &st, 0);
					over[i] = true; left--; *complete = false;
					continue;
				}
				if (!hang) continue;
			}
			if (!hang && shs[i].finished) { if (shs[i].finished == 2) *complete = false; over[i] = true; left--; continue; }
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 76 && !shs[i].idx && shs[i].last > specs[i].skip_to) {
				specs[i].skip_to = shs[i].last;
				pids[i] = start_worker(specs[i], &shs[i], base(i), base(i) + ".tmp", proto);
				continue;
			}
			// crash or hang
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "harness error (worker %zu): %s\n", i, read_file(base(i) + ".err").c_str()); exit(2); }
			uint64_t idx = shs[i].idx;
			std::string err = read_file(base(i) + ".err");
			if (!idx) { fprintf(stderr, "harness error: worker %zu died outside a scenario\n%s\n", i, tail(err, 3000).c_str()); exit(2); }
			int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
			Failure f;
			f.seq = idx; f.id = shs[i].id; f.shard = (int)i;
			if (hang) { f.sig = "hang"; f.msg = "does not terminate within its CPU budget of " + std::to_string((int)(shs[i].cpu_limit * specs[i].limit_scale)) + " s"; }
			else { f.sig = crash_sig(err, code); f.msg = "process died (status " + std::to_string(code) + "): " + head(err, 3000); }
			fails.push_back(f);
			shs[i].failures++;
			shs[i].idx = 0; shs[i].done++;
			if (++crashes[i] >= max_crashes || !specs[i].only.empty()) { over[i] = true; left--; if (specs[i].only.empty()) *complete = false; continue; }
			specs[i].skip_to = idx;
			pids[i] = start_worker(specs[i], &shs[i], base(i), base(i) + ".tmp", proto);
		}
	}
	for (size_t i = 0; i < n; i++) {
		std::istringstream is(read_file(base(i) + ".fail"));
		std::string l;
		while (std::getline(is, l)) {
			std::vector<std::string> c; size_t p = 0, q;
			while ((q = l.find('\t', p)) != std::string::npos) { c.push_back(l.substr(p, q - p)); p = q + 1; }
			c.push_back(l.substr(p));
			if (c.size() != 4) continue;
			Failure f; f.seq = strtoull(c[0].c_str(), nullptr, 10); f.id = Run::unesc(c[1]); f.sig = Run::unesc(c[2]); f.msg = Run::unesc(c[3]); f.shard = (int)i;
			fails.push_back(f);
		}
	}
	return fails;
}

inline int main_(int argc, char **argv)
{
	Run proto;
	std::string out, only, dir;
	bool listing = false;
	int jobs = 8;
	double budget = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return argv[++i]; };
		if (a == "--prop") proto.prop = next();
		else if (a == "--tier") proto.thorough = next() == "thorough";
		else if (a == "--out") out = next();
		else if (a == "--only") only = next();
		else if (a == "--dir") dir = next();
		else if (a == "--jobs") jobs = atoi(next().c_str());
		else if (a == "--budget") budget = atof(next().c_str());
		else if (a == "--list") listing = true;
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	if (dir.empty()) {
		char t[] = "/tmp/mcXXXXXX";
		if (!mkdtemp(t)) { perror("mkdtemp"); return 2; }
		dir = t;
	}
	Shared *shs = (Shared *)shmem(sizeof(Shared) * 64);
	if (listing) {
		proto.listing = true; proto.sh = &shs[0]; proto.tmp = dir;
		explore(proto);
		for (auto &s : proto.list) printf("%s\n", s.c_str());
		return 0;
	}
	double t0 = now();
	std::vector<Failure> fails;
	bool complete = true;
	int nsh = only.empty() ? jobs : 1;
	std::string d0 = dir + "/run";
	mkdir(d0.c_str(), 0700);
	std::vector<WorkerSpec> specs;
	for (int i = 0; i < nsh; i++) specs.push_back({i, nsh, 0, 0, only, 1.0});
	fails = supervise(specs, d0, proto, shs, &complete, 25, budget);
	// totals
	uint64_t done = 0, trans = 0, nontriv = 0;
	std::unordered_set<uint64_t> states;
	std::map<std::string, uint64_t> notes;
	std::vector<std::string> samples;
	for (int i = 0; i < nsh; i++) {
		done += shs[i].done; trans += shs[i].transitions; nontriv += shs[i].nontrivial;
		Run t; t.outbase = d0 + "/w" + std::to_string(i); t.load_states();
		states.insert(t.states.begin(), t.states.end());
		for (auto &x : t.notes) notes[x.first] += x.second;
		for (auto &s : t.samples) if (samples.size() < 6) samples.push_back(s);
	}
	// one representative per signature, shortest scenario id first
	std::map<std::string, std::pair<Failure, uint64_t>> bysig;
	for (auto &f : fails) {
		auto it = bysig.find(f.sig);
		if (it == bysig.end()) bysig[f.sig] = {f, 1};
		else { it->second.second++; if (f.id.size() < it->second.first.id.size()) it->second.first = f; }
	}
	// replay before report
	std::vector<std::string> jf;
	int rn = 0;
	for (auto &kv : bysig) {
		Failure f = kv.second.first;
		bool confirmed = false; std::string how = "alone";
		if (!only.empty()) confirmed = true;
		else {
			for (int attempt = 0; attempt < 2 && !confirmed; attempt++) {
				std::string d = dir + "/replay" + std::to_string(rn++);
				mkdir(d.c_str(), 0700);
				memset((void *)&shs[40], 0, sizeof(Shared));
				WorkerSpec w{0, 1, 0, 0, f.id, attempt == 0 ? 3.0 : 3.0};
				if (attempt == 1) { w.shard = f.shard; w.nshards = nsh; w.upto = f.seq; w.only = ""; how = "shard " + std::to_string(f.shard) + "/" + std::to_string(nsh) + " up to it"; }
				bool c2;
				auto ff = supervise({w}, d, proto, &shs[40], &c2, 25, 300);
				for (auto &g : ff) if (g.id == f.id) { confirmed = true; f.msg = g.msg; f.sig = g.sig; }
				rmrf(d);
			}
		}
		jf.push_back("{\"sig\":" + jstr(safe(f.sig)) + ",\"scenario\":" + jstr(safe(f.id)) + ",\"raw\":" + jstr(f.id) + ",\"msg\":" + jstr(safe(f.msg)) + ",\"count\":" +
			std::to_string(kv.second.second) + ",\"confirmed\":" + (confirmed ? "true" : "false") + ",\"how\":" + jstr(how) + "}");
	}
	std::string js = "{\"scenarios\":" + std::to_string(done) + ",\"states\":" + std::to_string(states.size()) + ",\"transitions\":" + std::to_string(trans) +
		",\"nontrivial\":" + std::to_string(nontriv) + ",\"complete\":" + (complete ? "true" : "false") + ",\"wall\":" + std::to_string(now() - t0) + ",\"notes\":{";
	bool first = true;
	for (auto &x : notes) { js += (first ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second); first = false; }
	js += "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) js += (i ? "," : "") + jstr(safe(samples[i]));
	js += "],\"failures\":[";
	for (size_t i = 0; i < jf.size(); i++) js += (i ? "," : "") + jf[i];
	js += "]}\n";
	if (out.empty()) fputs(js.c_str(), stdout); else write_file(out, js);
	rmrf(dir);
	return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::main_(argc, argv); }
#endif
