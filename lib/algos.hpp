// algos.hpp: running the repository's search algorithms over GD domains.
#pragma once
#include "families.hpp"
#include <cstdarg>
#include <memory>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <cmath>
#include <cassert>
#include <sys/mman.h>
#include "search/main.hpp"
#include "search/rtastar.hpp"

// The clock.  The harness owns time: every reading advances it by mctick, and
// the current value is mcclock.  (Linked before, and instead of, utils/time.cc.)
double mcclock = 1000, mctick = 0.001;
// mcticks: the number of readings of the wall clock that remain before the
// search is taken to run for ever (< 0: no such limit).
long mcticks = -1;
double walltime() {
	if (mcticks >= 0 && mcticks-- == 0)
		mc::fail("livelock", "the search goes on for ever");
	return mcclock += mctick;
}
double cputime() { return mcclock += mctick; }

// fatal errors of the code under test must not happen with the command lines
// that the harnesses use.
void fatal(const char *fmt, ...) {
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	mc::fail("fatal", "fatal error: %s", buf);
}

struct Args {
	std::vector<const char*> v;
	Args(std::initializer_list<const char*> l) : v(l) { }
	Args(const std::vector<const char*> &l) : v(l) { }
	int n() const { return v.size(); }
	const char **p() const { return const_cast<const char**>(&v[0]); }
	std::string str() const {
		std::string s;
		for (size_t i = 1; i < v.size(); i++)
			s += (i > 1 ? " " : "") + std::string(v[i]);
		return s;
	}
};

// An algorithm as a user names it on the command line.
enum {
	Complete = 1,		// finds a solution iff there is one
	Optimal = 2,
	Tree = 4,		// no duplicate detection: needs an acyclic space if unsolvable
	Realtime = 8,		// needs safely explorable spaces
	NeedCons = 16,		// bound only holds for consistent heuristics
	Anytime = 32,
	Undirected = 64,	// needs every move to be reversible
};

struct Spec {
	Args args;
	unsigned flags;
	double bound;		// solution cost is at most bound*optimal (0: no bound)
};

template <class D> SearchAlgorithm<D> *make(const Args &a) {
	std::vector<const char*> v = a.v;	// some algorithms write to argv
	v.push_back(NULL);
	if (!strcmp(v[1], "rtastar"))
		return new Rtastar<D>(a.n(), &v[0]);
	return getsearch<D>(a.n(), &v[0]);
}

static const std::vector<Spec> &specs() {
	static const std::vector<Spec> s = {
		{{"x", "astar"}, Complete | Optimal, 1},
		{{"x", "idastar"}, Complete | Optimal | Tree, 1},
		{{"x", "wastar", "-wt", "1"}, Complete | Optimal, 1},
		{{"x", "wastar", "-wt", "1.5"}, Complete, 1.5},
		{{"x", "wastar", "-wt", "3"}, Complete, 3},
		{{"x", "wastar", "-wt", "1.5", "-dropdups"}, Complete, 0},
		{{"x", "wastar", "-wt", "3", "-dropdups"}, Complete, 0},
		{{"x", "greedy"}, Complete, 0},
		{{"x", "greedy", "-dropdups"}, Complete, 0},
		{{"x", "speedy"}, Complete, 0},
		{{"x", "speedy", "-dropdups"}, Complete, 0},
		{{"x", "bugsy", "-wf", "1", "-wt", "0"}, Complete | Optimal, 1},
		{{"x", "bugsy", "-wf", "1", "-wt", "1"}, Complete, 0},
		{{"x", "bugsy", "-wf", "0", "-wt", "1", "-dropdups"}, Complete, 0},
		{{"x", "bugsy", "-wf", "1", "-wt", "10", "-noresort"}, Complete, 0},
		{{"x", "bugsy", "-wf", "1", "-wt", "2", "-expdelay", "-hhat", "-dhat", "-noresort"}, Complete, 0},
		{{"x", "bugsy", "-wf", "2", "-wt", "1", "-interph", "-expdelay"}, Complete, 0},
		{{"x", "bugsy", "-wf", "1", "-wt", "1", "-hlms", "1,1,0,0", "-dlms", "0,0,1,1"}, Complete, 0},
		{{"x", "bugsy-slim", "-wf", "1", "-wt", "0"}, Complete, 0},
		{{"x", "bugsy-slim", "-wf", "1", "-wt", "1"}, Complete, 0},
		{{"x", "arastar", "-wt0", "1", "-dwt", "0.5"}, Complete | Optimal | NeedCons | Anytime, 1},
		{{"x", "arastar", "-wt0", "3", "-dwt", "0.5"}, Complete | Optimal | NeedCons | Anytime, 1},
		{{"x", "arastarnora", "-wt0", "2.5", "-dwt", "1", "-lambda", "0.0001"}, Complete | Optimal | NeedCons | Anytime, 1},
		{{"x", "arastarnora", "-wt0", "3", "-dwt", "1", "-lambda", "100"}, Complete | Anytime, 0},
		{{"x", "beam", "-width", "1"}, 0, 0},
		{{"x", "beam", "-width", "2"}, 0, 0},
		{{"x", "beam", "-width", "2", "-dropdups"}, 0, 0},
		{{"x", "beam", "-width", "500"}, Complete, 0},
		{{"x", "beam", "-width", "500", "-dropdups"}, Complete, 0},
		{{"x", "lsslrtastar2", "-lookahead", "1"}, Realtime, 0},
		{{"x", "lsslrtastar2", "-lookahead", "2"}, Realtime, 0},
		{{"x", "lsslrtastar2", "-lookahead", "3"}, Realtime, 0},
		{{"x", "lsslrtastar2", "-lookahead", "2", "-onestep"}, Realtime, 0},
		{{"x", "lsslrtastar2", "-lookahead", "2", "-wt", "2"}, Realtime, 0},
		{{"x", "fhatlrtastar", "-lookahead", "1"}, Realtime, 0},
		{{"x", "fhatlrtastar", "-lookahead", "2"}, Realtime, 0},
		{{"x", "fhatlrtastar", "-lookahead", "3", "-onestep"}, Realtime, 0},
		{{"x", "lsslrtastar2", "-lookahead", "2", "-complete"}, Realtime, 0},
		{{"x", "dtastar-dump", "-lookahead", "2", "-samplep", "0.000000001", "-horizon", "2"}, Realtime, 0},
		{{"x", "astar-dump"}, Complete | Optimal, 1},
		{{"x", "rtastar", "-d", "0"}, Realtime | Undirected, 0},
		{{"x", "rtastar", "-d", "2"}, Realtime | Undirected, 0},
	};
	return s;
}

// runsearch runs one search and checks the returned path.  It returns the
// cost of the path or -1.
template <class D>
long runsearch(SearchAlgorithm<D> &alg, D &d) {
	typename D::State s0 = d.initialstate();
	uint64_t e = d.nexp, g = d.ngen;
	alg.search(d, s0);
	mc::states(d.nexp - e);
	mc::transitions(d.ngen - g);
	mc::validated();
	return checkpath<D>(d, alg.res.path, alg.res.ops);
}

// Capture redirects everything printed to stdout into memory.
struct Capture {
	int fd, old;
	Capture() {
		fflush(stdout);
		old = dup(1);
		fd = memfd_create("cap", 0);
		dup2(fd, 1);
	}
	~Capture() { stop(); }
	void stop() {
		if (old < 0)
			return;
		fflush(stdout);
		dup2(old, 1);
		close(old);
		close(fd);
		old = -1;
	}
	// text returns what was printed since the last call.
	std::string text() {
		fflush(stdout);
		off_t n = lseek(fd, 0, SEEK_END);
		std::string s(n, 0);
		if (n > 0 && pread(fd, &s[0], n, 0) != n)
			s = "";
		if (ftruncate(fd, 0) != 0)
			s = "";
		lseek(fd, 0, SEEK_SET);
		return s;
	}
};

static inline std::vector<std::string> splitlines(const std::string &s, char sep = '\n') {
	std::vector<std::string> v;
	std::string cur;
	for (char c : s)
		if (c == sep) { v.push_back(cur); cur = ""; } else cur += c;
	if (cur != "")
		v.push_back(cur);
	return v;
}

// dfvalue finds the value of a '#pair' key in datafile output.
static inline bool dfvalue(const std::string &text, const std::string &key, std::string &val) {
	std::string k = "\"" + key + "\"";
	for (auto &l : splitlines(text)) {
		if (l.compare(0, 5, "#pair"))
			continue;
		size_t i = 5;
		while (i < l.size() && l[i] == ' ')
			i++;
		auto f = splitlines(l.substr(i), '\t');
		if (f.size() == 2 && f[0] == k) {
			val = f[1];
			if (val.size() >= 2 && val[0] == '"')
				val = val.substr(1, val.size() - 2);
			return true;
		}
	}
	return false;
}
