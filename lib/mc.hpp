// mc.hpp: a small bounded model checking driver.
//
// A harness is a set of suites.  A suite is a finite, totally ordered space of
// cases (executions of the real code), cut into chunks.  Every chunk runs in a
// forked child, so a crash, a failed assertion, runaway memory or a hang of
// the code under test is contained and attributed to the exact case that
// caused it; the chunk is then resumed right after that case.  The driver
// enumerates every chunk of every suite: nothing is sampled.
#pragma once

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

void mc_setup();

namespace mc {

enum { NCounters = 24, TextSz = 16384 };

struct Shared {
	volatile uint64_t ordinal;	// ordinal of the current case, counted from 1
	volatile uint64_t cases, states, transitions, nontrivial, validated;
	volatile uint64_t counters[NCounters];
	volatile int failed;
	char kind[256];
	char text[TextSz];	// failure detail
	char desc[TextSz];	// case description
};

static Shared *sh;
static uint64_t skip_, describe_;
static bool sampling_;
static std::vector<std::string> counternames;
static bool thorough;
static std::string scratch;	// private scratch directory of the running child
static std::vector<std::string> active;	// suites to run

static inline std::string strf(const char *fmt, ...) {
	char buf[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	return buf;
}

// counter returns the id of a named counter. Register before run().
static inline int counter(const char *name) {
	counternames.push_back(name);
	if (counternames.size() > NCounters)
		abort();
	return counternames.size() - 1;
}

static inline void count(int c, uint64_t n = 1) { sh->counters[c] += n; }
static inline void states(uint64_t n = 1) { sh->states += n; }
static inline void transitions(uint64_t n = 1) { sh->transitions += n; }
static inline void nontrivial(uint64_t n = 1) { sh->nontrivial += n; }
static inline void validated(uint64_t n = 1) { sh->validated += n; }

// begin announces the next case of the chunk.  When it returns false the case
// has been dealt with in an earlier run of the chunk and must be skipped.
template <class Desc> static inline bool begin(const Desc &desc) {
	sh->ordinal = sh->ordinal + 1;
	uint64_t o = sh->ordinal;
	if (__builtin_expect(o <= skip_, 0))
		return false;
	if (__builtin_expect(describe_ == o, 0)) {
		std::string s = desc();
		snprintf(sh->desc, TextSz, "%s", s.c_str());
		_exit(0);
	}
	if (__builtin_expect(describe_ != 0, 0))
		return false;
	sh->cases = sh->cases + 1;
	return true;
}

// fail reports that the property does not hold in the current case.  kind
// names the aspect that failed.
__attribute__((noreturn, format(printf, 2, 3)))
static inline void fail(const char *kind, const char *fmt, ...) {
	snprintf(sh->kind, sizeof(sh->kind), "%s", kind);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sh->text, TextSz, fmt, ap);
	va_end(ap);
	sh->failed = 1;
	_exit(77);
}

#define MC_CHECK(cond, kind, ...) \
	do { if (!(cond)) mc::fail(kind, __VA_ARGS__); } while (0)

struct Suite {
	std::string name, about;
	uint64_t chunks;
	std::function<void(uint64_t)> fn;
	double hangcpu;
	// results
	uint64_t done, cases;
};

static std::vector<Suite> suites;

// suite registers a suite.  fn(i) must enumerate the cases of chunk i.
static inline void suite(const char *name, const char *about, uint64_t chunks,
		std::function<void(uint64_t)> fn, double hangcpu = 20) {
	suites.push_back(Suite{name, about, chunks, fn, hangcpu, 0, 0});
}

static inline double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static inline double cpuof(pid_t pid) {
	char p[64];
	snprintf(p, sizeof(p), "/proc/%d/stat", (int) pid);
	FILE *f = fopen(p, "r");
	if (!f)
		return 0;
	char buf[2048];
	size_t n = fread(buf, 1, sizeof(buf) - 1, f);
	fclose(f);
	buf[n] = 0;
	char *s = strrchr(buf, ')');
	if (!s)
		return 0;
	unsigned long ut = 0, st = 0;
	sscanf(s + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
	return (ut + st) / (double) sysconf(_SC_CLK_TCK);
}

static inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

struct Slot {
	pid_t pid;
	Shared *sh;
	size_t suite;
	uint64_t chunk, skip;
	uint64_t lastord;
	double lastt, lastcpu;
	std::string err;
};

static size_t memcap = 6ull << 30;

static inline void child(Slot &s, uint64_t describe) {
	sh = s.sh;
	skip_ = s.skip;
	describe_ = describe;
	sh->ordinal = 0;
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0);
	dup2(nul, 1);
	int e = open(s.err.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	dup2(e, 2);
	struct rlimit l;
	l.rlim_cur = l.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &l);
#ifndef MC_NO_MEMCAP
	l.rlim_cur = l.rlim_max = memcap;
	setrlimit(RLIMIT_AS, &l);
#endif
	suites[s.suite].fn(s.chunk);
	_exit(describe ? 3 : 0);
}

static inline std::string tail(const std::string &file) {
	FILE *f = fopen(file.c_str(), "r");
	if (!f)
		return "";
	fseek(f, 0, SEEK_END);
	long n = ftell(f);
	fseek(f, n > 600 ? n - 600 : 0, SEEK_SET);
	char buf[601];
	size_t m = fread(buf, 1, 600, f);
	fclose(f);
	return std::string(buf, m);
}

struct Violation {
	std::string suite, kind, text, desc;
	uint64_t chunk, ordinal;
};

static inline std::string describe(Slot &s, uint64_t ord) {
	s.sh->desc[0] = 0;
	pid_t p = fork();
	if (p == 0) {
		struct rlimit l;
		l.rlim_cur = l.rlim_max = 120;
		setrlimit(RLIMIT_CPU, &l);
		scratch += "d";	// not that of a process that is running
		mkdir(scratch.c_str(), 0700);
		child(s, ord);
	}
	int st;
	waitpid(p, &st, 0);
	return s.sh->desc;
}

// run parses the command line and explores every suite.
static inline int run(int argc, char *argv[]) {
	unsigned jobs = 8;
	double budget = 1e9;
	unsigned maxviol = 5, maxknown = 2000;
	std::string out, only;
	long long rchunk = -1, rord = -1;
	bool list = false;
	const char *known = NULL;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--list") list = true;
		else if (i + 1 < argc) {
			if (a == "--jobs") jobs = atoi(argv[++i]);
			else if (a == "--budget") budget = atof(argv[++i]);
			else if (a == "--out") out = argv[++i];
			else if (a == "--suite") only = argv[++i];
			else if (a == "--chunk") rchunk = atoll(argv[++i]);
			else if (a == "--ordinal") rord = atoll(argv[++i]);
			else if (a == "--maxviol") maxviol = atoi(argv[++i]);
			else if (a == "--known") known = argv[++i];
		}
	}
	// known findings: one per line, "suite<TAB>kind<TAB>description"
	std::map<std::string, int> knowns;
	if (known) {
		FILE *f = fopen(known, "r");
		char line[TextSz];
		while (f && fgets(line, sizeof(line), f)) {
			std::string s = line;
			while (s.size() && (s[s.size()-1] == '\n'))
				s.resize(s.size()-1);
			if (s.size())
				knowns[s] = 0;
		}
		if (f)
			fclose(f);
	}

	::mc_setup();
	if (list) {
		for (size_t i = 0; i < suites.size(); i++)
			printf("%s\t%llu\t%s\n", suites[i].name.c_str(),
				(unsigned long long) suites[i].chunks, suites[i].about.c_str());
		return 0;
	}
	if (jobs < 1)
		jobs = 1;

	char shm[] = "/dev/shm/mcXXXXXX", tmpl[] = "/tmp/mcXXXXXX";
	const char *made = mkdtemp(shm);	// memory, when there is any
	std::string dir = made ? made : mkdtemp(tmpl);
	signal(SIGPIPE, SIG_IGN);

	std::vector<Slot> slots(jobs);
	for (unsigned i = 0; i < jobs; i++) {
		slots[i].pid = 0;
		slots[i].sh = (Shared*) mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE,
			MAP_SHARED|MAP_ANONYMOUS, -1, 0);
		slots[i].err = dir + strf("/err%u", i);
	}

	uint64_t tot[5] = { 0 }, cnt[NCounters] = { 0 };
	std::vector<Violation> viols;
	std::vector<std::string> samples;
	std::map<std::string, int> knownhits;
	double t0 = now();
	bool complete = true, stop = false;
	size_t si = 0;
	uint64_t ci = 0;
	unsigned running = 0, nknown = 0;

	auto launch = [&](Slot &s) {
		memset((void*) s.sh, 0, sizeof(*s.sh));
		s.lastord = 0;
		s.lastt = now();
		s.lastcpu = 0;
		scratch = dir + strf("/w%d", (int) (&s - &slots[0]));
		mkdir(scratch.c_str(), 0700);
		fflush(NULL);
		s.pid = fork();
		if (s.pid == 0)
			child(s, 0);
		running++;
	};

	// samples: the first case of each suite, and one from the middle chunk
	auto sample = [&](size_t su, uint64_t chunk, uint64_t ord) {
		Slot s = slots[0];
		s.suite = su; s.chunk = chunk; s.skip = 0;
		memset((void*) s.sh, 0, sizeof(*s.sh));
		scratch = dir + "/sample";
		std::string d = describe(s, ord);
		if (d.size() && samples.size() < 40)
			samples.push_back(suites[su].name + ": " + d);
	};
	if (rchunk < 0)
		for (size_t i = 0; i < suites.size(); i++) {
			if (only != "" && suites[i].name != only)
				continue;
			if (suites[i].chunks > 0)
				sample(i, suites[i].chunks / 2, 1);
		}

	for (;;) {
		// start work
		for (unsigned i = 0; i < jobs && !stop; i++) {
			if (slots[i].pid)
				continue;
			while (si < suites.size() && (ci >= suites[si].chunks ||
					(only != "" && suites[si].name != only))) {
				si++;
				ci = 0;
			}
			if (si >= suites.size())
				break;
			if (rchunk >= 0) {
				if (ci > 0)
					break;
				slots[i].chunk = rchunk;
				ci = suites[si].chunks;
			} else
				slots[i].chunk = ci++;
			slots[i].suite = si;
			slots[i].skip = rord > 0 ? rord - 1 : 0;
			launch(slots[i]);
		}
		if (running == 0)
			break;

		// wait
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p <= 0) {
			double t = now();
			bool killed = false;
			for (unsigned i = 0; i < jobs; i++) {
				Slot &s = slots[i];
				if (!s.pid)
					continue;
				if (s.sh->ordinal != s.lastord) {
					s.lastord = s.sh->ordinal;
					s.lastt = t;
					s.lastcpu = -1;
				} else if (t - s.lastt > 3) {
					double c = cpuof(s.pid);
					if (s.lastcpu < 0)
						s.lastcpu = c;
					double h = suites[s.suite].hangcpu;
					if (c - s.lastcpu > h || t - s.lastt > 8 * h + 60) {
						snprintf(s.sh->kind, sizeof(s.sh->kind), "hang");
						snprintf(s.sh->text, TextSz, "no progress after %.0fs cpu", c - s.lastcpu);
						s.sh->failed = 2;
						kill(s.pid, SIGKILL);
						killed = true;
					}
				}
			}
			if (t - t0 > budget && !stop) {
				stop = true;
				complete = false;
				for (unsigned i = 0; i < jobs; i++)
					if (slots[i].pid) {
						slots[i].sh->failed = 3;	// interrupted
						kill(slots[i].pid, SIGKILL);
					}
			}
			if (!killed)
				usleep(500);
			continue;
		}
		for (unsigned i = 0; i < jobs; i++) {
			Slot &s = slots[i];
			if (s.pid != p)
				continue;
			s.pid = 0;
			running--;
			Suite &su = suites[s.suite];
			su.cases += s.sh->cases;
			tot[0] += s.sh->cases;
			tot[1] += s.sh->states;
			tot[2] += s.sh->transitions;
			tot[3] += s.sh->nontrivial;
			tot[4] += s.sh->validated;
			for (unsigned k = 0; k < NCounters; k++)
				cnt[k] += s.sh->counters[k];
			if (s.sh->failed == 3)
				break;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.sh->failed) {
				su.done++;
				break;
			}
			Violation v;
			v.suite = su.name;
			v.chunk = s.chunk;
			v.ordinal = s.sh->ordinal;
			if (s.sh->failed) {
				v.kind = s.sh->kind;
				v.text = s.sh->text;
			} else if (WIFSIGNALED(st)) {
				v.kind = strf("crash");
				v.text = strf("signal %d; ", WTERMSIG(st)) + tail(s.err);
			} else {
				v.kind = "exit";
				v.text = strf("exit status %d; ", WEXITSTATUS(st)) + tail(s.err);
			}
			v.desc = v.ordinal > 0 ? describe(s, v.ordinal) : "(before the first case)";
			std::string key = v.suite + "\t" + v.kind + "\t" + v.desc;
			if (knowns.count(key)) {
				knownhits[key]++;
				nknown++;
				if (nknown > maxknown)
					stop = true;
			} else {
				viols.push_back(v);
				if (viols.size() >= maxviol) {
					stop = true;
					complete = false;
					for (unsigned j = 0; j < jobs; j++)
						if (slots[j].pid) {
							slots[j].sh->failed = 3;
							kill(slots[j].pid, SIGKILL);
						}
				}
			}
			if (!stop && v.ordinal > 0 && rord < 0) {
				s.skip = v.ordinal;
				launch(s);
			} else {
				complete = false;
			}
			break;
		}
	}

	std::string rm = "rm -rf " + dir;
	if (system(rm.c_str()) != 0) { }

	FILE *f = out == "" ? stdout : fopen(out.c_str(), "w");
	fprintf(f, "{\"complete\":%s,\"wall\":%.3f,\"cases\":%llu,\"states\":%llu,"
		"\"transitions\":%llu,\"nontrivial\":%llu,\"validated\":%llu,\n\"counters\":{",
		complete ? "true" : "false", now() - t0,
		(unsigned long long) tot[0], (unsigned long long) tot[1],
		(unsigned long long) tot[2], (unsigned long long) tot[3],
		(unsigned long long) tot[4]);
	for (size_t i = 0; i < counternames.size(); i++)
		fprintf(f, "%s%s:%llu", i ? "," : "", jstr(counternames[i]).c_str(),
			(unsigned long long) cnt[i]);
	fprintf(f, "},\n\"suites\":[");
	bool first = true;
	for (size_t i = 0; i < suites.size(); i++) {
		if (only != "" && suites[i].name != only)
			continue;
		fprintf(f, "%s{\"name\":%s,\"about\":%s,\"chunks\":%llu,\"chunks_done\":%llu,\"cases\":%llu}",
			first ? "" : ",\n", jstr(suites[i].name).c_str(), jstr(suites[i].about).c_str(),
			(unsigned long long) suites[i].chunks, (unsigned long long) suites[i].done,
			(unsigned long long) suites[i].cases);
		first = false;
	}
	fprintf(f, "],\n\"samples\":[");
	for (size_t i = 0; i < samples.size(); i++)
		fprintf(f, "%s%s", i ? ",\n" : "", jstr(samples[i]).c_str());
	fprintf(f, "],\n\"known\":[");
	first = true;
	for (auto &k : knownhits) {
		fprintf(f, "%s%s", first ? "" : ",\n", jstr(k.first).c_str());
		first = false;
	}
	fprintf(f, "],\n\"violations\":[");
	for (size_t i = 0; i < viols.size(); i++) {
		Violation &v = viols[i];
		fprintf(f, "%s{\"suite\":%s,\"kind\":%s,\"chunk\":%llu,\"ordinal\":%llu,\"desc\":%s,\"text\":%s}",
			i ? ",\n" : "", jstr(v.suite).c_str(), jstr(v.kind).c_str(),
			(unsigned long long) v.chunk, (unsigned long long) v.ordinal,
			jstr(v.desc).c_str(), jstr(v.text).c_str());
	}
	fprintf(f, "]}\n");
	if (f != stdout)
		fclose(f);
	return viols.size() ? 1 : 0;
}

// Product enumerates a mixed-radix counter.
struct Product {
	std::vector<unsigned> radix, digit;
	void add(unsigned r, unsigned n = 1) { for (unsigned i = 0; i < n; i++) radix.push_back(r); }
	uint64_t size() const { uint64_t s = 1; for (unsigned r : radix) s *= r; return s; }
	void set(uint64_t i) {
		digit.resize(radix.size());
		for (size_t k = 0; k < radix.size(); k++) { digit[k] = i % radix[k]; i /= radix[k]; }
	}
	bool next() {
		for (size_t k = 0; k < radix.size(); k++) {
			if (++digit[k] < radix[k])
				return true;
			digit[k] = 0;
		}
		return false;
	}
	unsigned operator[](size_t i) const { return digit[i]; }
};

} // namespace mc

#define MC_MAIN int main(int argc, char *argv[]) { return mc::run(argc, argv); }
