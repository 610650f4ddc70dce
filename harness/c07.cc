// C07: a search depends on nothing but the problem and its options: not on
// searches made before reset(), nor on the contents of fresh memory.
#include "algos.hpp"

static int npairs, nmem, ncut;

struct Run {
	std::vector<int> trace, path, ops, gtests;
	std::string out;
	long cost;

	std::string diff(const Run &o) const {
		if (trace != o.trace) {
			size_t i = 0;
			while (i < trace.size() && i < o.trace.size() && trace[i] == o.trace[i])
				i++;
			return mc::strf("expansion %zu differs (%zu expansions and %zu)", i, trace.size(), o.trace.size());
		}
		if (path != o.path || ops != o.ops)
			return mc::strf("the solutions differ (costs %ld and %ld)", cost, o.cost);
		auto a = splitlines(out), b = splitlines(o.out);
		for (size_t i = 0; i < a.size() || i < b.size(); i++) {
			std::string x = i < a.size() ? a[i] : "", y = i < b.size() ? b[i] : "";
			if (x != y)
				return "output differs: <" + x + "> and <" + y + ">";
		}
		if (gtests != o.gtests)
			return "goal tests differ";
		return "";
	}
};

static uint64_t sigat;

template <class D> static void onexpand(D *d) {
	if (sigat && d->nexp == sigat)
		raise(SIGALRM);
}

// clean drops the statistics of the hash tables, whose sizes may differ, as
// they may stay grown after a reset.
static std::string clean(const std::string &s) {
	std::string o;
	for (auto &l : splitlines(s))
		if (l.find("\"closed ") == std::string::npos && l.find("nodes fill") == std::string::npos &&
				l.find("nodes collisions") == std::string::npos && l.find("nodes resizes") == std::string::npos &&
				l.find("nodes buckets") == std::string::npos && l.find("nodes max bucket") == std::string::npos)
			o += l + "\n";
	return o;
}

template <class D>
static Run runone(SearchAlgorithm<D> &alg, const Graph &g, int hm) {
	D d(g, hashes(hm));
	d.maxexp = 40000;
	d.tracing = true;
	d.onexpand = onexpand<D>;
	mcclock = 1000;
	mctick = 0.001;
	randgen = Rand(1);
	Capture cap;
	Run r;
	r.cost = runsearch<D>(alg, d);
	alg.output(stdout);
	r.out = clean(cap.text());
	cap.stop();
	r.trace = d.trace;
	r.gtests = d.goaltests;
	for (auto &s : alg.res.path)
		r.path.push_back(s.v);
	r.ops = alg.res.ops;
	return r;
}

// the searches that come first
static std::vector<Graph> &firsts() {
	static std::vector<Graph> v;
	if (v.size())
		return v;
	Graph g;
	auto push = [&] { g.solve(); sdist(g); v.push_back(g); };
	g.init(3); g.goal[2] = 1; g.arc(0, 1, 1); g.arc(1, 0, 1); g.arc(1, 2, 2); push();	// line
	g.init(3); g.goal[2] = 1; g.arc(0, 1, 1); push();	// dead end
	g.init(2); g.goal[0] = 1; g.arc(0, 1, 1); push();	// start is goal
	layered(2, 3, {3}, true, 0, 1, [&](Graph &x) { g = x; push(); });
	// reopenings
	g.init(5); g.goal[4] = 1;
	g.arc(0, 1, 1); g.arc(0, 2, 5); g.arc(1, 2, 1); g.arc(2, 3, 1); g.arc(3, 4, 9); g.arc(2, 4, 20);
	g.h[1] = 10; push();
	// bigger than the interval between the re-sorts of Bugsy
	std::vector<char> none;
	gridgraph(g, 14, 14, none, false, 1, 2); v.push_back(g);
	gridgraph(g, 13, 13, none, true, 3, 1); v.push_back(g);
	return v;
}

static bool runs(const Spec &sp, const Graph &g) {
	bool solvable = g.dist[g.start] < GInf;
	bool safe = g.safe(), acyc = solvable || g.acyclic();
	if ((sp.flags & Tree) && (!acyc || g.n > 50))
		return false;
	if ((sp.flags & Realtime) && !safe && !(acyc && !solvable))
		return false;
	if ((sp.flags & Undirected) && solvable && !g.reversible())
		return false;
	return true;
}

template <class D>
static void all(const char *dn, const Graph &g2, int hm) {
	auto &fs = firsts();
	for (auto &sp : specs()) {
		if (!runs(sp, g2))
			continue;
		for (int lim = 0; lim < 3; lim++) {
			Args a = sp.args;
			if (lim == 1) { a.v.push_back("-expd"); a.v.push_back("3"); }
			if (lim == 2) { a.v.push_back("-walltime"); a.v.push_back("5000"); }
			auto desc = [&](const char *what, int p) {
				return mc::strf("%s: %s %d; over %s hash=%d %s", a.str().c_str(), what, p, dn, hm, g2.str().c_str());
			};
			Run base;
			bool have = false;
			auto fresh = [&](int poison) {
				int old = mcpoison;
				mcpoison = poison;
				std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
				Run r = runone<D>(*alg, g2, hm);
				alg.reset();
				mcpoison = old;
				return r;
			};
			static const int poisons[] = { 0, 0xff, 0x5a, 0x01 };
			for (int p : poisons) {
				if (lim == 2)
					break;
				if (!mc::begin([&] { return desc("fresh memory filled with", p); }))
					continue;
				if (!have) { base = fresh(0xA5); have = true; }
				Run r = fresh(p);
				mc::count(nmem);
				std::string df = base.diff(r);
				MC_CHECK(df == "", "memory", "depends on the contents of fresh memory: %s", df.c_str());
				mc::nontrivial();
			}
			for (size_t f = 0; f < fs.size(); f++) {
				if (!runs(sp, fs[f]) && lim != 2)
					continue;
				// cut the first search short at its first or fourth expansion
				for (int cut = lim == 2 ? 1 : 0; cut <= (lim == 2 ? 4 : 0); cut += 3) {
					if (lim == 2 && !runs(sp, fs[f]) && strcmp(sp.args.v[1], "idastar"))
						continue;
					if (!mc::begin([&] {
						return desc(lim == 2 ? mc::strf("cut short at %d, reset, after problem", cut).c_str() :
							"reset after problem", f);
					}))
						continue;
					if (!have) { base = fresh(0xA5); have = true; }
					std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
					sigat = cut;
					runone<D>(*alg, fs[f], hm == 0 ? 2 : 0);
					sigat = 0;
					alg->reset();
					MC_CHECK(alg->res.path.empty() && alg->res.ops.empty(), "reset", "the path is kept");
					MC_CHECK(alg->res.expd == 0 && alg->res.gend == 0 && alg->res.dups == 0 && alg->res.reopnd == 0,
						"reset", "the statistics are kept");
					Run r = runone<D>(*alg, g2, hm);
					std::string df = base.diff(r);
					MC_CHECK(df == "", "reset", "differs from a fresh search: %s", df.c_str());
					mc::count(cut ? ncut : npairs);
					mc::nontrivial();
				}
			}
		}
	}
}

void mc_setup() {
	npairs = mc::counter("searches after a reset");
	ncut = mc::counter("searches after a reset of an interrupted search");
	nmem = mc::counter("searches with other memory contents");
	firsts();
#ifdef DOM_A
	mc::suite("und4", "7 searches, reset, then every undirected graph on 4 vertices (costs {-,2}; thorough {-,1,4})", 64,
		[](uint64_t c) {
			std::vector<int> costs{2};
			if (mc::thorough)
				costs = {1, 4};
			ugraphs(4, 8, costs, true, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, 2, [&](Graph &g) { all<GD<int>>("int", g, 0); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("startgoal", "7 searches, reset, then a start that is a goal, or is next to one", 7,
		[](uint64_t c) {
			Graph g;
			g.init(3);
			g.goal[0] = c & 1;
			g.goal[1] = c & 2 ? 1 : 0;
			g.goal[2] = c & 4 ? 1 : !(c & 3);
			g.arc(0, 1, 2);
			g.arc(1, 0, 2);
			g.arc(1, 2, 1);
			g.arc(2, 1, 1);
			g.solve();
			sdist(g);
			heuristics(g, 2, [&](Graph &g) { all<GD<int>>("int", g, 0); });
		});
#endif
#ifdef DOM_B
	mc::suite("dig3", "7 searches, reset, then every digraph on 3 vertices, costs {-,1,3}", 81,
		[](uint64_t c) {
			digraphs(3, 4, {1, 3}, false, c, 81, [&](Graph &g) {
				sdist(g);
				heuristics(g, 1, [&](Graph &g) { all<GD<double, true>>("double,inplace", g, 2); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("grids", "7 searches, reset, then a search that is long enough to re-sort", 4,
		[](uint64_t c) {
			Graph g;
			std::vector<char> none;
			gridgraph(g, 12 + c, 13, none, c & 1, 1 + c / 2, 2);
			all<GD<int>>("int", g, 0);
		});
#endif
}
MC_MAIN
