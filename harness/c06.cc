// C06: resource limits cut a search short, change nothing else, and the
// reported statistics count what really happened.
#include "algos.hpp"
#include <set>

static int nlimited, nsignals, nmem;

struct Run {
	std::vector<int> trace, path, ops;
	uint64_t nexp, ngen;
	unsigned long expd, gend, dups, reopnd;
	long cost;
	std::string out;
	std::vector<int> gens;
};

// the signal to raise at the given expansion
static uint64_t sigat;
static int sigwhich;
static unsigned long wantreal, wantprof;

static void checktimers(bool running) {
	struct itimerval r, p;
	getitimer(ITIMER_REAL, &r);
	getitimer(ITIMER_PROF, &p);
	struct sigaction ra, pa;
	sigaction(SIGALRM, NULL, &ra);
	sigaction(SIGPROF, NULL, &pa);
	struct { const char *n; struct itimerval *t; struct sigaction *a; unsigned long want; } x[] = {
		{ "wall time", &r, &ra, wantreal }, { "cpu time", &p, &pa, wantprof } };
	for (auto &y : x) {
		double v = y.t->it_value.tv_sec + y.t->it_value.tv_usec * 1e-6;
		if (running && y.want) {
			MC_CHECK(v > y.want - 100.0 && v <= y.want + 0.5, "timer",
				"the %s timer runs out in %g s, not %lu s", y.n, v, y.want);
			MC_CHECK(y.a->sa_handler != SIG_DFL && y.a->sa_handler != SIG_IGN, "timer",
				"no handler for the %s limit", y.n);
		} else {
			MC_CHECK(v == 0, "timer", "the %s timer is %s: %g s", y.n,
				running ? "running without a limit" : "left running", v);
			MC_CHECK(y.a->sa_handler == SIG_DFL, "timer", "the %s signal handler was %s", y.n,
				running ? "installed without a limit" : "left installed");
		}
	}
}

template <class D> static void onexpand(D *d) {
	if (d->nexp == 1 || d->nexp == sigat)
		checktimers(true);
	if (sigat && d->nexp == sigat)
		raise(sigwhich);
}

template <class D>
static Run runone(const Graph &g, int hm, const Spec &sp, std::vector<const char*> extra) {
	D d(g, hashes(hm));
	d.maxexp = g.n > 100 ? 2000000 : 20000;
	d.tracing = true;
	d.onexpand = onexpand<D>;
	mcclock = 1000;
	mctick = 0.001;
	randgen = Rand(1);
	Args a = sp.args;
	for (auto e : extra)
		a.v.push_back(e);
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	Run r;
	Capture cap;
	r.cost = runsearch<D>(*alg, d);
	checktimers(false);
	alg->output(stdout);
	r.out = cap.text();
	cap.stop();
	r.trace = d.trace;
	r.gens = d.gens;
	for (auto &s : alg->res.path)
		r.path.push_back(s.v);
	r.ops = alg->res.ops;
	r.nexp = d.nexp;
	r.ngen = d.ngen;
	r.expd = alg->res.expd;
	r.gend = alg->res.gend;
	r.dups = alg->res.dups;
	r.reopnd = alg->res.reopnd;
	return r;
}

static unsigned long num(const Run &r, const char *key) {
	std::string v;
	if (!dfvalue(r.out, key, v))
		mc::fail("output", "\"%s\" is not reported", key);
	return strtoul(v.c_str(), NULL, 10);
}

// stats checks the reported statistics.
static void stats(const Graph &g, const Spec &sp, const Run &r, bool exhausted = false) {
	std::string alg = sp.args.v[1];
	MC_CHECK(r.expd == r.nexp, "expanded", "%lu expansions reported, %lu happened", r.expd, (unsigned long) r.nexp);
	// The real-time algorithms re-apply the operators of the solution.
	unsigned long rebuilt = sp.flags & Realtime ? r.ops.size() : 0;
	MC_CHECK(r.gend == r.ngen - rebuilt, "generated", "%lu generated nodes reported, %lu generated",
		r.gend, (unsigned long) (r.ngen - rebuilt));
	MC_CHECK(num(r, "total nodes expanded") == r.expd, "output", "reports %lu expansions, not %lu",
		num(r, "total nodes expanded"), r.expd);
	MC_CHECK(num(r, "total nodes generated") == r.gend, "output", "reports %lu generations, not %lu",
		num(r, "total nodes generated"), r.gend);
	MC_CHECK(num(r, "total nodes duplicated") == r.dups, "output", "reports %lu duplicates, not %lu",
		num(r, "total nodes duplicated"), r.dups);
	MC_CHECK(num(r, "total nodes reopened") == r.reopnd, "output", "reports %lu reopenings, not %lu",
		num(r, "total nodes reopened"), r.reopnd);
	MC_CHECK(num(r, "final sol length") == r.path.size(), "output", "reports length %lu, not %lu",
		num(r, "final sol length"), (unsigned long) r.path.size());
	MC_CHECK(r.reopnd <= r.dups && r.dups <= r.gend, "dups", "%lu reopened, %lu duplicates, %lu generated",
		r.reopnd, r.dups, r.gend);
	std::set<int> distinct(r.trace.begin(), r.trace.end());
	if (alg == "astar" || alg == "wastar" || alg == "greedy" || alg == "speedy" || alg == "bugsy" || alg == "bugsy-slim" || alg == "beam") {
		unsigned long re = r.trace.size() - distinct.size();
		MC_CHECK(r.reopnd >= re, "reopened", "%lu reopenings reported, but %lu states were expanded again",
			r.reopnd, re);
		if (exhausted && alg != "beam")
			MC_CHECK(r.reopnd == re, "reopened", "%lu reopenings reported, but %lu states were expanded again",
				r.reopnd, re);
		// every generated node is a duplicate except the first of each state
		std::set<int> seen(r.gens.begin(), r.gens.end());
		seen.erase(g.start);
		MC_CHECK(r.dups == r.gens.size() - seen.size(), "duplicates", "%lu duplicates reported, not %lu", r.dups,
			(unsigned long) (r.gens.size() - seen.size()));
	}
}

template <class D>
static void one(const char *dn, const Graph &g, int hm, const Spec &sp, bool terminates) {
	auto desc = [&](const char *lim, unsigned long k) {
		return mc::strf("%s %s %lu over %s hash=%d %s", sp.args.str().c_str(), lim, k, dn, hm, g.str().c_str());
	};
	sigat = wantreal = wantprof = 0;
	unsigned long opt = g.dist[g.start];
	Run base;
	unsigned long E = 8, G = 16;
	if (terminates) {
		if (mc::begin([&] { return desc("(no limit)", 0); })) {
			base = runone<D>(g, hm, sp, {});
			stats(g, sp, base, opt >= GInf);
		} else {
			// an earlier run of this chunk got past this; cases that
			// follow need it
			base = runone<D>(g, hm, sp, {});
		}
		E = base.expd;
		G = base.gend;
	}
	unsigned B = 0;
	for (int i = 0; i < g.n; i++)
		B = std::max(B, (unsigned) g.adj[i].size());

	auto sameprefix = [&](const Run &r, const char *what) {
		if (!terminates)
			return;
		size_t n = std::min(r.trace.size(), base.trace.size());
		MC_CHECK(r.trace.size() <= base.trace.size(), what, "%zu expansions with the limit, %zu without",
			r.trace.size(), base.trace.size());
		for (size_t i = 0; i < n; i++)
			MC_CHECK(r.trace[i] == base.trace[i], what, "expansion %zu differs with the limit: %d, not %d",
				i, r.trace[i], base.trace[i]);
	};
	auto sound = [&](const Run &r) {
		if (r.cost >= 0)
			MC_CHECK((unsigned long) r.cost >= opt, "cost", "cost %ld is below the optimum", r.cost);
	};

	unsigned long kmax = mc::thorough ? 60 : 14;
	// on the large graphs only some limits are tried
	auto tried = [&](unsigned long k, unsigned long last, unsigned long max) {
		return g.n < 100 ? k <= max : k == 3 || (k >= 126 && k <= 129) || (k >= 255 && k <= 258) || k == 400 || k >= last;
	};
	for (unsigned long k = 1; k <= E + 1; k++) {
		if (!tried(k, E, kmax))
			continue;
		if (!mc::begin([&] { return desc("-expd", k); }))
			continue;
		std::string ks = mc::strf("%lu", k);
		// an expansion limit alone, or together with limits that are not reached
		std::vector<const char*> ex{"-expd", ks.c_str()};
		if (k % 2 == 0)
			ex.insert(ex.begin() + (k % 4), {"-gend", "1000000"});
		Run r = runone<D>(g, hm, sp, ex);
		stats(g, sp, r);
		mc::count(nlimited);
		MC_CHECK(r.nexp <= k, "expd-limit", "%lu expansions", (unsigned long) r.nexp);
		sameprefix(r, "expd-limit");
		sound(r);
		MC_CHECK(num(r, "expanded limit") == k, "output", "reports a limit of %lu", num(r, "expanded limit"));
		if (terminates) {
			if (k > E) {
				MC_CHECK(r.path == base.path && r.ops == base.ops, "expd-limit",
					"a limit that is never reached changed the result");
			} else if (!(sp.flags & Anytime)) {
				// the search would have gone on
				MC_CHECK(r.nexp == k, "expd-limit", "stopped after %lu of %lu expansions",
					(unsigned long) r.nexp, k);
			}
		}
		mc::nontrivial();
	}
	unsigned long slack = B;
	if (!strcmp(sp.args.v[1], "rtastar"))
		slack = B * (atoi(sp.args.v[3]) + 1);
	for (unsigned long k = 1; k <= G + 1; k++) {
		if (!tried(k, G, 2 * kmax))
			continue;
		if (!mc::begin([&] { return desc("-gend", k); }))
			continue;
		std::string ks = mc::strf("%lu", k);
		std::vector<const char*> ex{"-gend", ks.c_str()};
		if (k % 2 == 0)
			ex.insert(ex.begin() + (k % 4), {"-expd", "1000000"});
		Run r = runone<D>(g, hm, sp, ex);
		stats(g, sp, r);
		mc::count(nlimited);
		MC_CHECK(r.gend < k + slack, "gend-limit", "%lu nodes generated", r.gend);
		if (terminates && k <= G && !(sp.flags & Anytime))
			MC_CHECK(r.gend >= k, "gend-limit", "only %lu of %lu nodes generated", r.gend, k);
		sameprefix(r, "gend-limit");
		sound(r);
		MC_CHECK(num(r, "generated limit") == k, "output", "reports a limit of %lu", num(r, "generated limit"));
		if (terminates && k > G)
			MC_CHECK(r.path == base.path && r.ops == base.ops, "gend-limit",
				"a limit that is never reached changed the result");
		mc::nontrivial();
	}
	// the timer expires during the j-th expansion
	for (unsigned long j = 1; j <= E && j <= 10000; j++)
		if (tried(j, E, kmax))
		for (int w = 0; w < 3; w++) {
			static const char *wn[] = { "-walltime 5000, expiring at expansion",
				"-cputime 6000, expiring at expansion",
				"-cputime 7000 -walltime 8000, expiring at expansion" };
			if (!mc::begin([&] { return desc(wn[w], j); }))
				continue;
			std::vector<const char*> ex;
			wantreal = wantprof = 0;
			if (w == 0) { ex = {"-walltime", "5000"}; wantreal = 5000; sigwhich = SIGALRM; }
			if (w == 1) { ex = {"-cputime", "6000"}; wantprof = 6000; sigwhich = SIGPROF; }
			if (w == 2) {
				ex = {"-cputime", "7000", "-walltime", "8000"};
				wantprof = 7000;
				wantreal = 8000;
				sigwhich = j & 1 ? SIGALRM : SIGPROF;
			}
			if (j % 2 == 0)
				ex.insert(ex.end(), {"-expd", "1000000", "-gend", "1000000"});
			sigat = j;
			Run r = runone<D>(g, hm, sp, ex);
			sigat = wantreal = wantprof = 0;
			stats(g, sp, r);
			mc::count(nsignals);
			MC_CHECK(terminates ? r.nexp == j : r.nexp <= j, "time-limit", "time was up during expansion %lu but there were %lu",
				j, (unsigned long) r.nexp);
			sameprefix(r, "time-limit");
			sound(r);
			mc::nontrivial();
		}
}

template <class D>
static void all(const char *dn, const Graph &g, int hm) {
	bool solvable = g.dist[g.start] < GInf;
	bool safe = g.safe(), acyc = solvable || g.acyclic();
	for (auto &sp : specs()) {
		if ((sp.flags & Tree) && g.n > 100)
			continue;
		bool t = true, rta = !strcmp(sp.args.v[1], "rtastar");
		if ((sp.flags & Tree) && !acyc)
			t = false;
		if ((sp.flags & Realtime) && !safe && !(acyc && !solvable)) {
			if (!rta)
				continue;
			t = false;
		}
		if ((sp.flags & Undirected) && solvable && !g.reversible())
			t = false;
		one<D>(dn, g, hm, sp, t);
	}
}

// A practically infinite binary tree without goals, to run out of memory in.
struct Infinite {
	typedef double Cost;
	typedef int Oper;
	enum { Nop = -1 };
	struct State { uint64_t v; };
	struct PackedState {
		uint64_t v;
		unsigned long hash(Infinite*) { return v >> 7; }
		bool eq(const Infinite*, const PackedState &o) const { return v == o.v; }
	};
	State initialstate() const { return State{1}; }
	Cost h(const State&) const { return 0; }
	Cost d(const State&) const { return 0; }
	bool isgoal(const State&) const { return false; }
	struct Operators {
		Operators(Infinite&, const State&) { }
		unsigned size() const { return 2; }
		Oper operator[](unsigned i) const { return i; }
	};
	struct Edge {
		Cost cost, revcost;
		Oper revop;
		State state;
		Edge(Infinite&, State &s, Oper op) : cost(1), revcost(-1), revop(Nop), state(State{s.v * 6364136223846793005ull + 1442695040888963407ull * (op + 1)}) { }
	};
	void pack(PackedState &p, State &s) { p.v = s.v; }
	State &unpack(State &b, PackedState &p) { b.v = p.v; return b; }
	Cost pathcost(const std::vector<State>&, const std::vector<Oper>&) { return 0; }
	static void dumpstate(FILE*, State&) { }
};

static void memcase(const Spec &sp) {
	if (!mc::begin([&] { return sp.args.str() + " -mem 400M -walltime 9000 in an infinite space"; }))
		return;
	std::vector<const char*> v = sp.args.v;
	v.insert(v.end(), {"-mem", "400M", "-walltime", "9000"});
	int argc = v.size();
	v.push_back(NULL);
	Infinite d;
	mcclock = 1000;
	Capture cap;
	auto res = search<Infinite>(d, argc, &v[0]);
	std::string out = cap.text();
	cap.stop();
	std::string s;
	MC_CHECK(dfvalue(out, "out of memory", s) && s == "true", "out-of-memory", "not reported");
	MC_CHECK(res.path.empty() && res.ops.empty(), "out-of-memory", "a path was returned");
	MC_CHECK(dfvalue(out, "final sol cost", s) && s == "-1.000000", "out-of-memory", "final sol cost %s", s.c_str());
	MC_CHECK(dfvalue(out, "memory limit", s) && s == "400000000", "out-of-memory", "memory limit %s", s.c_str());
	MC_CHECK(res.expd > 1000, "out-of-memory", "only %lu expansions", res.expd);
	wantreal = wantprof = 0;
	checktimers(false);
	mc::count(nmem);
	mc::states(res.expd);
	mc::transitions(res.gend);
	mc::nontrivial();
}

static void memparse() {
	static const struct { const char *s; unsigned long v; } t[] = {
		{"1", 1}, {"1500", 1500}, {"1000000000", 1000000000}, {"3K", 3000}, {"0.5K", 500}, {"2000K", 2000000},
		{"1M", 1000000}, {"1.5M", 1500000}, {"700M", 700000000}, {"1G", 1000000000}, {"2.25G", 2250000000},
		{"7G", 7000000000}, {"100G", 100000000000}, {"0.001G", 1000000}, {"1e6", 1000000},
	};
	for (auto &c : t) {
		if (!mc::begin([&] { return mc::strf("-mem %s", c.s); }))
			continue;
		struct rlimit old, now;
		getrlimit(RLIMIT_AS, &old);
		const char *argv[] = {"x", "-mem", c.s, NULL};
		Limit l(3, argv);
		getrlimit(RLIMIT_AS, &now);
		struct rlimit back = old;
		back.rlim_max = now.rlim_max;
		if (back.rlim_cur > now.rlim_max)
			back.rlim_cur = now.rlim_max;
		setrlimit(RLIMIT_AS, &back);
		MC_CHECK(l.mem == c.v, "mem", "parsed as %lu bytes, not %lu", l.mem, c.v);
		unsigned long want = c.v < old.rlim_max ? c.v : old.rlim_max;
		MC_CHECK(now.rlim_cur == want, "mem", "the soft limit became %lu, not %lu", (unsigned long) now.rlim_cur, want);
		MC_CHECK(l.expd == 0 && l.gend == 0 && l.cputime == 0 && l.walltime == 0 && !l.timeup, "mem", "other limits were set");
		Capture cap;
		l.output(stdout);
		std::string out = cap.text(), v;
		cap.stop();
		MC_CHECK(dfvalue(out, "memory limit", v) && v == mc::strf("%lu", c.v), "mem", "reported as %s", out.c_str());
		MC_CHECK(splitlines(out).size() == 1, "mem", "other limits are reported");
		mc::nontrivial();
		mc::states();
	}
}

void mc_setup() {
	nlimited = mc::counter("limited searches");
	nsignals = mc::counter("searches with an expiring timer");
	nmem = mc::counter("searches that run out of memory");

#ifdef DOM_A
	mc::suite("und4", "undirected graphs on 4 vertices, h in {0,h*}; every -expd, -gend and timer expiry point of every algorithm", 243,
		[](uint64_t c) {
			ugraphs(4, 8, {1, 4}, false, c, 243, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 2 : 1, [&](Graph &g) { all<GD<int>>("int", g, 0); });
				if (!mc::thorough)
					heuristics(g, 2, [&](Graph &g) {
						if (g.h[0] && g.h[1] && g.h[2])
							all<GD<int>>("int", g, 1);
					});
			});
		});
#endif
#ifdef DOM_B
	mc::suite("dig3", "digraphs on 3 vertices, costs {-,1,3}, in place, h in {0,h*}", 32,
		[](uint64_t c) {
			digraphs(3, 4, {1, 3}, true, c, 32, [&](Graph &g) {
				sdist(g);
				heuristics(g, 2, [&](Graph &g) { all<GD<double, true>>("double,inplace", g, 2); });
			});
		});
	mc::suite("scale", "a fan of 150 leaves and chains of 300 vertices: limits around 128 and 256 and the last ones", 60,
		[](uint64_t c) {
			int k = 0;
			scale(true, 0, 1, [&](Graph &g) {
				if (g.n < 250 && g.n != 152 && g.n != 153)	// the larger fan is slow
					return;
				if (g.n < 410 && k++ % 60 == (int) c)
					all<GD<double, true>>("double,inplace", g, 0);
			});
		});
	mc::suite("layer", "layered graphs, 2x2 with shortcuts, costs {1,3}, h=0 and h=h*", 256,
		[](uint64_t c) {
			layered(2, 2, {1, 3}, true, c, 256, [&](Graph &g) {
				sdist(g);
				if (mc::thorough || c % 2 == 0)
					all<GD<double, true>>("double,inplace", g, 0);
				for (int i = 0; i < g.n; i++)
					g.h[i] = g.dist[i];
				if (mc::thorough || c % 2 == 1)
					all<GD<double, true>>("double,inplace", g, 0);
			});
		});
#endif
#ifdef DOM_C
	const size_t nm = specs().size();
	mc::suite("oom", "complete best-first searches run out of memory in an infinite space", nm,
		[](uint64_t c) {
			const char *alg = specs()[c].args.v[1];
			// idastar stores nothing; rtastar is not offered by main.hpp
			if (strcmp(alg, "idastar") && strcmp(alg, "rtastar"))
				memcase(specs()[c]);
		}, 60);
	mc::suite("mem", "-mem values", 1, [](uint64_t) { memparse(); });
#endif
}
MC_MAIN
