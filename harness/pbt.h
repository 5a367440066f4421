// A small property-based testing engine: a case is a sequence of integer choices drawn from a Src;
// generation, shrinking and replay all work on that sequence (integrated shrinking).
// Cases run in a forked child; the choices made so far live in shared memory, so a crash, a sanitizer
// report or a hang is a failure whose case is known, can be shrunk and can be replayed.
#ifndef PBT_H_
#define PBT_H_

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <functional>

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);}
inline uint64_t fnv(const void* d, size_t n, uint64_t h = 1469598103934665603ULL) {const unsigned char* p = (const unsigned char*) d; while (n--) {h ^= *p++; h *= 1099511628211ULL;} return h;}
//real time, never interposed
inline double real_now() {struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9;}

enum {MAX_CHOICES = 1 << 16, MAX_CLASSES = 96, MAX_SAMPLES = 8, SAMPLE_LEN = 900, DISTINCT_SLOTS = 1 << 20, MAX_TESTS = 40};

struct Shm
{
	volatile uint64_t n_choices;
	uint64_t choices[MAX_CHOICES];
	volatile uint64_t case_index; //index of the case being run
	volatile int case_test;
	volatile int in_case;
	volatile int failed; //1: failure message valid
	char fail_key[128];
	char fail_msg[8192];
	//counters
	uint64_t evaluations, nontrivial, discarded;
	uint64_t tests_eval[MAX_TESTS], tests_nontrivial[MAX_TESTS];
	struct {char name[56]; uint64_t count;} classes[MAX_CLASSES];
	uint64_t n_samples;
	char samples[MAX_SAMPLES][SAMPLE_LEN];
	uint64_t distinct;
	uint64_t distinct_tab[DISTINCT_SLOTS];
	//trace of the case (for the replay report)
	volatile uint64_t trace_len;
	char trace[1 << 17];
};
extern Shm* shm;

struct Failure {std::string key, msg;}; //thrown by fail() outside noexcept contexts
struct Discard {};

inline void set_fail(const char* key, const std::string& msg)
{
	if (!shm->failed)
	{
		snprintf(shm->fail_key, sizeof shm->fail_key, "%s", key);
		snprintf(shm->fail_msg, sizeof shm->fail_msg, "%s", msg.c_str());
		shm->failed = 1;
	}
}
//report a failure and leave the process at once: usable in any thread, in any handler
inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
inline void fail(const char* key, const char* fmt, ...)
{
	char buf[6000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	set_fail(key, buf);
	_exit(77);
}
#define PBT_CHECK(cond, key, ...) do {if (!(cond)) pbt::fail(key, __VA_ARGS__);} while (0)

inline std::string hex(const void* p, size_t n, size_t max = 24)
{
	std::string s; char b[4]; const unsigned char* c = (const unsigned char*) p;
	for (size_t i = 0; i < n && i < max; ++i) {snprintf(b, sizeof b, "%02x", c[i]); s += b;}
	if (n > max) {char t[32]; snprintf(t, sizeof t, "..(%zu)", n); s += t;}
	return s;
}
inline std::string hex(const std::string& s, size_t max = 24) {return hex(s.data(), s.size(), max);}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {char buf[2048]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;}

class Src
{
public:
	Src(uint64_t seed) : rng(seed), replay(NULL) {shm->n_choices = 0; shm->trace_len = 0; classes_n = 0; nontrivial_ = false; shm->failed = 0;}
	Src(const std::vector<uint64_t>* r) : rng(0), replay(r) {shm->n_choices = 0; shm->trace_len = 0; classes_n = 0; nontrivial_ = false; shm->failed = 0;}

	//uniform in [0, n)
	uint64_t below(uint64_t n) {return draw(n, raw() );}
	uint64_t range(uint64_t lo, uint64_t hi) {return lo + below(hi - lo + 1);} //inclusive; shrinks to lo
	bool coin(unsigned num = 1, unsigned den = 2) {uint64_t r = raw() % den; return 0 != draw(2, r < num ? 1 : 0);} //shrinks to false
	//index by weight; shrinks to index 0
	size_t weighted(const unsigned* w, size_t n) {uint64_t t = 0; for (size_t i = 0; i < n; ++i) t += w[i]; uint64_t r = raw() % t; size_t i = 0; while (r >= w[i]) r -= w[i++]; return (size_t) draw(n, i);}
	size_t weighted(std::initializer_list<unsigned> w) {return weighted(w.begin(), w.size());}
	template<typename T> const T& pick(const std::vector<T>& v) {return v[below(v.size())];}
	template<typename T> T pick(std::initializer_list<T> v) {return *(v.begin() + below(v.size()));}
	uint64_t seed64() {return draw(1ULL << 48, raw() & ((1ULL << 48) - 1));} //0 after shrinking
	//sizes: small ones often, boundaries often
	uint64_t size_near(uint64_t max, std::initializer_list<uint64_t> bounds)
	{
		uint64_t v;
		switch (weighted({5, 3, 4, 2}))
		{
		case 0: v = below(17); break;
		case 1: v = below(300); break;
		case 2: {uint64_t b = *(bounds.begin() + below(bounds.size())); uint64_t d = below(7); v = b + d >= 3 ? b + d - 3 : 0; break;}
		default: v = below(max + 1); break;
		}
		return v > max ? max : v;
	}
	std::string bytes(size_t n) {std::string s(n, 0); uint64_t seed = seed64(); if (0 == seed) for (size_t i = 0; i < n; ++i) s[i] = (char) ('a' + i % 26); else for (size_t i = 0; i < n; ++i) s[i] = (char) (splitmix(seed) >> 24); return s;}

	void nontrivial() {nontrivial_ = true;}
	bool is_nontrivial() const {return nontrivial_;}
	void cls(const char* name) {for (size_t i = 0; i < classes_n; ++i) if (0 == strcmp(classes[i], name)) return; if (classes_n < 64) classes[classes_n++] = name;}
	void note(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		char buf[1500]; va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
		if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
		uint64_t at = __sync_fetch_and_add(&shm->trace_len, (uint64_t) n + 1);
		if (at + n + 1 < sizeof shm->trace) {memcpy(shm->trace + at, buf, n); shm->trace[at + n] = '\n';}
	}
	void discard() {throw Discard();}
	uint64_t used() const {return shm->n_choices;}

	const char* classes[64]; size_t classes_n;
private:
	uint64_t raw() {return replay ? 0 : splitmix(rng);}
	uint64_t draw(uint64_t n, uint64_t generated)
	{
		if (0 == n) n = 1;
		uint64_t i = shm->n_choices, v;
		if (replay) v = i < replay->size() ? (*replay)[i] : 0; else v = generated;
		if (v >= n) v = replay ? n - 1 : v % n;
		if (i < MAX_CHOICES) {shm->choices[i] = v; shm->n_choices = i + 1;}
		else if (!replay) throw Discard();
		return v;
	}

	uint64_t rng;
	const std::vector<uint64_t>* replay;
	bool nontrivial_;
};

typedef std::function<void(Src&)> Body;
struct Test {std::string name; Body body; unsigned weight; bool fork_each; double timeout;};
std::vector<Test>& tests();
struct Reg {Reg(const char* name, unsigned weight, bool fork_each, double timeout, Body b) {Test t = {name, b, weight, fork_each, timeout}; tests().push_back(t);}};
//weight: relative number of cases; FORK: one process per case; T: seconds of real time after which a case counts as hung
#define PBT_TEST(name, weight, FORK, T) static void name(pbt::Src&); static pbt::Reg reg_##name(#name, weight, FORK, T, name); static void name(pbt::Src& s)

int main_(int argc, char** argv);
extern std::string scratch_dir; //exists for the run of this process; removed by the driver

} //namespace pbt

#ifdef PBT_MAIN
namespace pbt {

Shm* shm = NULL;
std::string scratch_dir = ".";
std::vector<Test>& tests() {static std::vector<Test> t; return t;}

static bool counting = false;
static void account(int ti, Src& s)
{
	if (!counting) return;
	++shm->evaluations; ++shm->tests_eval[ti];
	for (size_t i = 0; i < s.classes_n; ++i)
		for (int j = 0; j < MAX_CLASSES; ++j)
		{
			if (!shm->classes[j].name[0]) snprintf(shm->classes[j].name, sizeof shm->classes[j].name, "%s", s.classes[i]);
			if (0 == strncmp(shm->classes[j].name, s.classes[i], sizeof shm->classes[j].name - 1)) {++shm->classes[j].count; break;}
		}
	if (s.is_nontrivial())
	{
		++shm->nontrivial; ++shm->tests_nontrivial[ti];
		uint64_t h = fnv(shm->choices, shm->n_choices * 8, 1469598103934665603ULL + ti) | 1;
		if (shm->distinct < DISTINCT_SLOTS * 3 / 4)
			for (uint64_t i = h % DISTINCT_SLOTS;; i = (i + 1) % DISTINCT_SLOTS)
			{
				if (shm->distinct_tab[i] == h) break;
				if (!shm->distinct_tab[i]) {shm->distinct_tab[i] = h; ++shm->distinct; break;}
			}
		if (shm->n_samples < MAX_SAMPLES && (shm->tests_nontrivial[ti] == 3 || shm->tests_nontrivial[ti] == 1 + shm->n_samples * 7))
		{
			size_t n = std::min<size_t>((size_t) shm->trace_len, SAMPLE_LEN - 64);
			snprintf(shm->samples[shm->n_samples], SAMPLE_LEN, "%s #%lu: %.*s", tests()[ti].name.c_str(), (unsigned long) shm->case_index, (int) n, shm->trace);
			++shm->n_samples;
		}
	}
}

static void run_one(int ti, Src& s)
{
	shm->in_case = 1;
	try {tests()[ti].body(s); account(ti, s);}
	catch (Discard&) {if (counting) ++shm->discarded;}
	catch (Failure& f) {set_fail(f.key.c_str(), f.msg); _exit(77);}
	catch (std::exception& e) {set_fail("exception", std::string("unexpected exception: ") + e.what()); _exit(77);}
	shm->in_case = 0;
}

static std::string slurp(const std::string& p, size_t max = 6000)
{
	std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s;
	char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f); return s;
}

struct Outcome {bool ok, failed; std::string key, msg;};

//runs fn in a child; returns how it ended
static Outcome in_child(const std::function<void()>& fn, double timeout, const std::string& err_file, bool progress)
{
	shm->failed = 0; shm->in_case = 0;
	fflush(NULL);
	pid_t pid = fork();
	if (0 == pid)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		int fd = open(err_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
		if (fd >= 0) {dup2(fd, 2); dup2(fd, 1); close(fd);}
		fn();
		_exit(0);
	}
	Outcome o = {false, false, "", ""};
	if (pid < 0) {o.msg = "fork failed"; return o;}
	setpgid(pid, pid);
	double last = real_now(); uint64_t last_idx = shm->case_index; double nap = 0.0002;
	int st = 0; bool hung = false;
	for (;;)
	{
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		double now = real_now();
		if (progress && shm->case_index != last_idx) {last_idx = shm->case_index; last = now;}
		if (now - last > timeout)
		{
			hung = true;
			if (getenv("PBT_GDB")) {std::string c = fmt("gdb -p %d -batch -ex 'thread apply all bt 40' > %s/hang.bt 2>&1", (int) pid, scratch_dir.c_str()); if (system(c.c_str())) {}}
			 kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break;}
		usleep((useconds_t) (nap * 1e6)); if (nap < 0.01) nap *= 1.3;
	}
	kill(-pid, SIGKILL); //stray helpers of the case
	if (shm->failed) {o.failed = true; o.key = shm->fail_key; o.msg = shm->fail_msg;}
	else if (hung) {o.failed = true; o.key = "hang"; o.msg = fmt("the case did not end within %.0f s of real time", timeout);}
	else if (WIFEXITED(st) && 0 == WEXITSTATUS(st)) o.ok = true;
	else
	{
		std::string e = slurp(err_file, 200000);
		o.failed = true; o.key = "crash";
		size_t p = e.find("ERROR: AddressSanitizer"), q = e.find("runtime error:");
		if (p != std::string::npos) {size_t c = e.find_first_of(" \n", p + 25); o.key = "asan:" + e.substr(p + 25, c - p - 25); o.msg = e.substr(p, 2500);}
		else if (q != std::string::npos) {size_t b = e.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1; o.key = "ubsan"; o.msg = e.substr(b, 1500);}
		else o.msg = e.size() > 2500 ? e.substr(e.size() - 2500) : e;
		if (WIFSIGNALED(st)) o.msg = fmt("killed by signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st))) + o.msg;
		else o.msg = fmt("exit status %d\n", WEXITSTATUS(st)) + o.msg;
	}
	return o;
}

static std::string json(const std::string& s)
{
	std::string o = "\""; char b[8];
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = s[i];
		if ('"' == c || '\\' == c) {o += '\\'; o += c;}
		else if ('\n' == c) o += "\\n";
		else if (c < 32 || c > 126) {snprintf(b, sizeof b, "\\u%04x", c); o += b;}
		else o += c;
	}
	return o + "\"";
}

static Outcome run_choices(int ti, const std::vector<uint64_t>& ch, const std::string& err)
{
	uint64_t save = shm->case_index;
	Outcome o = in_child([&]() {Src s(&ch); run_one(ti, s);}, tests()[ti].timeout * 1.5, err, false);
	shm->case_index = save;
	return o;
}

static std::vector<uint64_t> shrink(int ti, std::vector<uint64_t> best, const std::string& key, double budget, const std::string& err, unsigned& steps, bool flaky)
{
	double end = real_now() + budget;
	//timing dependent cases: a candidate only counts when it fails twice
	auto still = [&](const std::vector<uint64_t>& c) {
		++steps;
		for (int i = 0; i < (flaky ? 2 : 1); ++i) {Outcome o = run_choices(ti, c, err); if (!o.failed || o.key != key) return false;}
		return true;
	};
	bool progress = true;
	while (progress && real_now() < end)
	{
		progress = false;
		for (size_t chunk = best.size() / 2; chunk >= 1 && real_now() < end; chunk /= 2)
			for (size_t i = 0; i + chunk <= best.size() && real_now() < end;)
			{
				std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + chunk);
				if (still(c)) {best.swap(c); progress = true;} else i += chunk;
			}
		for (size_t i = 0; i < best.size() && real_now() < end; ++i)
		{
			if (0 == best[i]) continue;
			std::vector<uint64_t> c(best); c[i] = 0;
			if (still(c)) {best.swap(c); progress = true; continue;}
			uint64_t lo = 0, hi = best[i]; //binary search towards the smallest value that still fails
			for (int n = 0; n < 12 && hi - lo > 1 && real_now() < end; ++n)
			{
				uint64_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
				if (still(c)) {best.swap(c); hi = mid; progress = true;} else lo = mid;
			}
		}
		//deleting one choice while lowering the one before it (sequence length + element)
		for (size_t i = 1; i < best.size() && real_now() < end; ++i)
			for (size_t del = 1; del <= 4 && i + del <= best.size(); ++del)
				if (best[i - 1] > 0)
				{
					std::vector<uint64_t> c(best); --c[i - 1]; c.erase(c.begin() + i, c.begin() + i + del);
					if (still(c)) {best.swap(c); progress = true; break;}
				}
	}
	while (!best.empty() && 0 == best.back()) best.pop_back();
	return best;
}

static void write_result(const std::string& path, const std::string& extra)
{
	std::string o = "{";
	o += fmt("\"evaluations\": %lu, \"nontrivial\": %lu, \"distinct_nontrivial\": %lu, \"discarded\": %lu", (unsigned long) shm->evaluations, (unsigned long) shm->nontrivial, (unsigned long) shm->distinct, (unsigned long) shm->discarded);
	o += ", \"tests\": {";
	for (size_t i = 0; i < tests().size(); ++i) o += fmt("%s\"%s\": [%lu, %lu]", i ? ", " : "", tests()[i].name.c_str(), (unsigned long) shm->tests_eval[i], (unsigned long) shm->tests_nontrivial[i]);
	o += "}, \"classes\": {";
	for (int j = 0; j < MAX_CLASSES && shm->classes[j].name[0]; ++j) o += std::string(j ? ", " : "") + json(shm->classes[j].name) + fmt(": %lu", (unsigned long) shm->classes[j].count);
	o += "}, \"samples\": [";
	for (uint64_t i = 0; i < shm->n_samples; ++i) o += std::string(i ? ", " : "") + json(shm->samples[i]);
	o += "]" + extra + "}\n";
	FILE* f = fopen((path + ".tmp").c_str(), "w"); if (f) {fputs(o.c_str(), f); fclose(f); rename((path + ".tmp").c_str(), path.c_str());}
}

//usage: prog run --seed S --worker I --budget SEC --max N --out FILE --dir SCRATCH [--tests a,b] [--known k1,k2]
//       prog replay FILE --dir SCRATCH
int main_(int argc, char** argv)
{
	std::map<std::string, std::string> opt;
	std::string mode = argc > 1 ? argv[1] : "", file;
	for (int i = 2; i < argc; ++i) {if (0 == strncmp(argv[i], "--", 2) && i + 1 < argc) {opt[argv[i] + 2] = argv[i + 1]; ++i;} else file = argv[i];}
	if (opt.count("dir")) scratch_dir = opt["dir"];
	signal(SIGPIPE, SIG_IGN);

	shm = (Shm*) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (MAP_FAILED == shm) {perror("mmap"); return 2;}
	if (mode == "list") {for (auto& t : tests()) puts(t.name.c_str()); return 0;}
	if (mode == "replay")
	{
		FILE* f = fopen(file.c_str(), "r"); if (!f) {perror(file.c_str()); return 2;}
		std::vector<uint64_t> ch; char name[256] = "", word[300];
		while (1 == fscanf(f, "%255s", word))
			if (0 == strcmp(word, "test")) {if (1 != fscanf(f, "%255s", name)) break;}
			else if (0 == strcmp(word, "choices")) {unsigned long v; while (1 == fscanf(f, "%lu", &v)) ch.push_back(v); break;}
			else {int c; while ((c = fgetc(f)) != EOF && c != '\n');}
		fclose(f);
		for (size_t i = 0; i < tests().size(); ++i)
			if (tests()[i].name == name)
			{
				Outcome o = run_choices((int) i, ch, scratch_dir + "/replay.err");
				printf("trace:\n%.*s", (int) std::min<uint64_t>((uint64_t) shm->trace_len, sizeof shm->trace - 1), shm->trace);
				if (o.failed) {printf("FAILED test=%s key=%s\n%s\n", name, o.key.c_str(), o.msg.c_str()); return 1;}
				puts(o.ok ? "passed" : o.msg.c_str());
				return o.ok ? 0 : 2;
			}
		fprintf(stderr, "no such test: %s\n", name);
		return 2;
	}
	if (mode != "run") {fprintf(stderr, "usage: run|replay|list\n"); return 2;}

	uint64_t seed = strtoull(opt["seed"].c_str(), NULL, 10), worker = strtoull(opt["worker"].c_str(), NULL, 10), max = opt.count("max") ? strtoull(opt["max"].c_str(), NULL, 10) : (uint64_t) -1;
	double budget = opt.count("budget") ? atof(opt["budget"].c_str()) : 10, shrink_budget = opt.count("shrink") ? atof(opt["shrink"].c_str()) : 40;
	std::string out = opt["out"], only = opt["tests"], known = "," + opt["known"] + ",";
	std::vector<int> order;
	for (size_t i = 0; i < tests().size(); ++i)
		if (only.empty() || ("," + only + ",").find("," + tests()[i].name + ",") != std::string::npos)
			for (unsigned w = 0; w < tests()[i].weight; ++w) order.push_back((int) i);
	if (order.empty()) {write_result(out, ", \"error\": \"no test\""); return 2;}
	{uint64_t r = 12345; for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[splitmix(r) % (i + 1)]);} //interleave

	double end = real_now() + budget;
	std::string err = scratch_dir + fmt("/w%lu.err", (unsigned long) worker), extra;
	uint64_t next = 0; unsigned known_hits = 0, unconfirmed = 0; std::string known_seen;
	auto seed_of = [&](uint64_t i) {uint64_t z = seed * 1000003ULL + worker * 7919ULL + 17; z = splitmix(z); z += i * 0x9e3779b97f4a7c15ULL; return splitmix(z);};
	//the last line of the log of a child tells which case died
	while (next < max && real_now() < end)
	{
		uint64_t first = next; int t0 = order[first % order.size()];
		Outcome o = in_child([&]() {
			counting = true;
			for (uint64_t i = first; i < max && real_now() < end; ++i)
			{
				int ti = order[i % order.size()];
				if (i > first && tests()[ti].fork_each) break;
				shm->case_index = i; shm->case_test = ti;
				Src s(seed_of(i)); run_one(ti, s);
				if (i % 4096 == 4095 && ftruncate(1, 0)) {}
				if (tests()[ti].fork_each) break;
			}
		}, tests()[t0].timeout, err, true);
		next = shm->case_index + 1;
		if (o.ok) continue;
		if (!o.failed) {usleep(100000); continue;}
		int ti = shm->case_test; uint64_t idx = shm->case_index;
		std::vector<uint64_t> ch(shm->choices, shm->choices + shm->n_choices);
		std::string kk = tests()[ti].name + "/" + o.key;
		if (known.find("," + kk + ",") != std::string::npos)
		{
			++known_hits; if (known_seen.find("," + kk + ",") == std::string::npos) known_seen += "," + kk + ",";
			++shm->evaluations;
			continue;
		}
		//confirm, in a process of its own
		int again = 0; Outcome c;
		for (int i = 0; i < 3; ++i) {c = run_choices(ti, ch, err); if (c.failed) {++again; o = c;}}
		bool rep = again > 0;
		//nothing but slowness of the machine can be behind a deadline that is met every other time
		if (!rep && (o.key == "hang" || 0 == o.key.compare(0, 2, "t:"))) 
		{
			++unconfirmed;
			if (unconfirmed <= 3) {FILE* fp = fopen((scratch_dir + fmt("/unconfirmed-%u.txt", unconfirmed)).c_str(), "w"); if (fp) {fprintf(fp, "%s\n%s\n%.*s\ntest %s\nchoices", o.key.c_str(), o.msg.c_str(), (int) std::min<uint64_t>((uint64_t) shm->trace_len, 5000), shm->trace, tests()[ti].name.c_str()); for (size_t i = 0; i < ch.size(); ++i) fprintf(fp, " %lu", (unsigned long) ch[i]); fclose(fp);}}
			continue;
		}
		unsigned steps = 0;
		std::vector<uint64_t> small = rep ? shrink(ti, ch, o.key, shrink_budget, err, steps, again < 3) : ch;
		if (rep) {for (int i = 0; i < 5; ++i) {c = run_choices(ti, small, err); if (c.failed) {o = c; break;}}}
		std::string trace(shm->trace, std::min<uint64_t>((uint64_t) shm->trace_len, 20000));
		std::string f = scratch_dir + fmt("/fail-%lu-%lu.txt", (unsigned long) worker, (unsigned long) idx);
		FILE* fp = fopen(f.c_str(), "w");
		if (fp)
		{
			fprintf(fp, "# %s\n", o.key.c_str());
			std::string m = o.msg; for (size_t p = 0; (p = m.find('\n', p)) != std::string::npos; p += 3) m.replace(p, 1, "\n# ");
			fprintf(fp, "# %s\ntest %s\nchoices", m.c_str(), tests()[ti].name.c_str());
			for (size_t i = 0; i < small.size(); ++i) fprintf(fp, " %lu", (unsigned long) small[i]);
			fprintf(fp, "\n");
			fclose(fp);
		}
		extra += fmt(", \"failure\": {\"test\": \"%s\", \"index\": %lu, \"confirmed\": %d, \"shrink_steps\": %u, \"original_len\": %zu, \"shrunk_len\": %zu, ", tests()[ti].name.c_str(), (unsigned long) idx, again, steps, ch.size(), small.size());
		extra += "\"key\": " + json(o.key) + ", \"msg\": " + json(o.msg) + ", \"file\": " + json(f) + ", \"trace\": " + json(trace) + "}";
		break;
	}
	extra += fmt(", \"unconfirmed\": %u, \"known_hits\": %u, \"known_seen\": ", unconfirmed, known_hits) + json(known_seen);
	write_result(out, extra);
	return 0;
}

} //namespace pbt
int main(int argc, char** argv) {return pbt::main_(argc, argv);}
#endif //PBT_MAIN
#endif
