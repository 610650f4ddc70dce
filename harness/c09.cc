// C09: best-first searches expand nodes in the order that defines them.
#include "algos.hpp"
#include <set>

static int nruns, nexpds, nties, nlevels, nida, ndump;

struct Node { double g, h, d; };

static const double Eps = 1e-9;

// key returns the tuple that the algorithm minimises.
enum Kind { KAstar, KWastar, KGreedy, KSpeedy };

static std::vector<double> key(Kind k, double wt, const Graph &g, int v, double gv) {
	switch (k) {
	case KAstar: return { gv + g.h[v], -gv };
	case KWastar: return { gv + wt * g.h[v], gv + g.h[v], -gv };
	case KGreedy: return { (double) g.h[v] };
	default: return { (double) g.d[v] };
	}
}

static std::string kstr(const std::vector<double> &k) {
	std::string s = "(";
	for (double x : k)
		s += mc::strf("%g ", x);
	return s + ")";
}

template <class D>
static void bestfirst(const char *dn, const Graph &g, int hm, const Args &a, Kind kind, double wt, bool drop) {
	if (!mc::begin([&] { return mc::strf("%s over %s hash=%d %s", a.str().c_str(), dn, hm, g.str().c_str()); }))
		return;
	D d(g, hashes(hm));
	d.maxexp = 50000;
	d.tracing = true;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	Capture cap;
	long c = runsearch<D>(*alg, d);
	std::string out = cap.text();
	cap.stop();
	mc::count(nruns);
	// replay
	std::vector<double> gv(g.n, -1);
	std::set<int> open;
	gv[g.start] = 0;
	open.insert(g.start);
	auto select = [&](int v, size_t i) {
		MC_CHECK(open.count(v), "not-open", "expansion %zu: state %d is not open", i, v);
		auto kv = key(kind, wt, g, v, gv[v]);
		for (int o : open) {
			auto ko = key(kind, wt, g, o, gv[o]);
			if (o != v && ko == kv)
				mc::count(nties);
			MC_CHECK(!(ko < kv), "order", "selection %zu: state %d with %s, but %d with %s is open", i, v,
				kstr(kv).c_str(), o, kstr(ko).c_str());
		}
		open.erase(v);
	};
	for (size_t i = 0; i < d.trace.size(); i++) {
		int v = d.trace[i];
		MC_CHECK(!g.goal[v], "order", "goal %d was expanded", v);
		select(v, i);
		mc::count(nexpds);
		for (auto &e : g.adj[v]) {
			double ng = gv[v] + e.cost;
			if (gv[e.to] >= 0 && (drop || ng >= gv[e.to]))
				continue;
			gv[e.to] = ng;
			open.insert(e.to);
		}
	}
	if (c >= 0) {
		int goal = alg->res.path[0].v;
		select(goal, d.trace.size());
		// with a consistent h (or f-ordered search) this is an equality, but in
		// general a node of the path may have been improved after its child was
		MC_CHECK(drop || c <= gv[goal], "path", "the path costs %ld, but a path of cost %g was found", c, gv[goal]);
	} else
		MC_CHECK(open.empty(), "incomplete", "the search stopped with %zu open nodes", open.size());
	if (d.trace.size() > 2)
		mc::nontrivial();

	if (!strcmp(a.v[1], "astar-dump") && c >= 0) {
		// the nodes on the path are dumped from the goal back
		mc::count(ndump);
		std::vector<std::string> rows;
		for (auto &l : splitlines(out))
			if (l.find("#altrow") == 0)
				rows.push_back(l);
		auto &p = alg->res.path;
		MC_CHECK(rows.size() == p.size(), "dump", "%zu rows for %zu states", rows.size(), p.size());
		for (size_t i = 0; i < p.size(); i++) {
			double x[6] = { 0 };
			size_t q = rows[i].find('\t');
			MC_CHECK(q != std::string::npos && sscanf(rows[i].c_str() + q, "%lf %lf %lf %lf %lf %lf",
				x, x + 1, x + 2, x + 3, x + 4, x + 5) == 6, "dump", "bad row %s", rows[i].c_str());
			// cost from the start and to the goal along the path
			double from = 0, to = 0;
			for (size_t k = 0; k + 1 < p.size(); k++) {
				int cost = 0;
				for (auto &e : g.adj[p[k + 1].v])
					if (e.to == p[k].v)
						cost = e.cost;
				(k >= i ? from : to) += cost;
			}
			double want[6] = { from, (double) g.h[p[i].v], (double) (p.size() - 1 - i), (double) g.d[p[i].v], to, (double) i };
			for (int k = 0; k < 6; k++)
				MC_CHECK(fabs(want[k] - x[k]) < 1e-5, "dump", "row %zu (%s): column %d is %g, not %g", i,
					rows[i].c_str(), k, x[k], want[k]);
		}
	}
}

template <class D>
static void beam(const char *dn, const Graph &g, int hm, int width, bool drop) {
	std::string ws = mc::strf("%d", width);
	Args a{"x", "beam", "-width", ws.c_str()};
	if (drop)
		a.v.push_back("-dropdups");
	if (!mc::begin([&] { return mc::strf("%s over %s hash=%d %s", a.str().c_str(), dn, hm, g.str().c_str()); }))
		return;
	D d(g, hashes(hm));
	d.maxexp = 50000;
	d.tracing = true;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	long c = runsearch<D>(*alg, d);
	mc::count(nruns);
	std::vector<double> gv(g.n, -1);
	std::set<int> open;
	gv[g.start] = 0;
	open.insert(g.start);
	size_t i = 0;	// next expansion in the trace
	bool ended = false;
	while (!open.empty() && !ended) {
		mc::count(nlevels);
		// this level takes min(width, |open|) nodes
		size_t c0 = std::min((size_t) width, open.size());
		std::vector<int> lvl;
		std::set<int> left = open;
		auto kof = [&](int v) { return std::vector<double>{ gv[v] + g.h[v], -gv[v] }; };
		std::vector<std::vector<double>> ks(g.n);
		for (int v : open)
			ks[v] = kof(v);	// keys when the beam was chosen
		open.clear();
		for (size_t k = 0; k < c0; k++) {
			// the k-th of the beam is either the next expansion or the goal at the end
			int v;
			if (i < d.trace.size())
				v = d.trace[i++];
			else {
				MC_CHECK(c >= 0, "beam", "the search stopped with %zu nodes of the beam left", c0 - k);
				v = alg->res.path[0].v;
				ended = true;
			}
			MC_CHECK(left.count(v), "beam", "state %d was selected, which is not on the list of this level", v);
			for (int o : left)
				MC_CHECK(!(ks[o] < ks[v]), "beam", "state %d with %s was kept, but %d has %s", v, kstr(ks[v]).c_str(),
					o, kstr(ks[o]).c_str());
			left.erase(v);
			if (ended) {
				MC_CHECK(drop || c <= gv[v], "path", "the path costs %ld, but %g was found", c, gv[v]);
				break;
			}
			MC_CHECK(!g.goal[v], "beam", "goal %d was expanded", v);
			mc::count(nexpds);
			for (auto &e : g.adj[v]) {
				double ng = gv[v] + e.cost;
				if (gv[e.to] >= 0 && (drop || ng >= gv[e.to]))
					continue;
				gv[e.to] = ng;
				open.insert(e.to);
			}
		}
	}
	MC_CHECK(i == d.trace.size(), "beam", "%zu expansions too many", d.trace.size() - i);
	MC_CHECK(ended == (c >= 0), "beam", "%s", c >= 0 ? "a path from nowhere" : "no path");
	if (d.trace.size() > 3)
		mc::nontrivial();
}

// reference IDA*
struct Ida {
	const Graph &g;
	std::vector<int> trace;
	std::vector<std::vector<double>> iters;
	double bound, next;
	std::vector<int> path;
	unsigned long gend;
	Ida(const Graph &gr) : g(gr), gend(0) { }
	bool dfs(int v, int from, double gv) {
		double f = gv + g.h[v];
		if (f <= bound && g.goal[v]) { path.push_back(v); return true; }
		if (f > bound) { next = std::min(next, f); return false; }
		trace.push_back(v);
		for (auto &e : g.adj[v]) {
			if (e.to == from)
				continue;
			gend++;
			// the reverse move exists only if there is an arc back
			bool rev = false;
			for (auto &b : g.adj[e.to])
				rev = rev || b.to == v;
			if (dfs(e.to, rev ? v : -1, gv + e.cost)) { path.push_back(v); return true; }
		}
		return false;
	}
	bool run() {
		bound = g.h[g.start];
		for (int i = 0; ; i++) {
			next = INFINITY;
			if (dfs(g.start, -1, 0))
				return true;
			iters.push_back({ (double) i, bound, (double) trace.size(), (double) gend });
			if (next == INFINITY)
				return false;
			bound = next;
		}
	}
};

template <class D>
static void ida(const char *dn, const Graph &g) {
	if (!mc::begin([&] { return mc::strf("idastar over %s %s", dn, g.str().c_str()); }))
		return;
	D d(g, hashes(0));
	d.maxexp = 200000;
	d.tracing = true;
	Args a{"x", "idastar"};
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	Capture cap;
	runsearch<D>(*alg, d);
	std::string out = cap.text();
	cap.stop();
	Ida ref(g);
	ref.run();
	mc::count(nida);
	MC_CHECK(d.trace == ref.trace, "ida", "%zu expansions, not the %zu of iterative deepening on f", d.trace.size(), ref.trace.size());
	std::vector<int> p;
	for (auto &s : alg->res.path)
		p.push_back(s.v);
	MC_CHECK(p == ref.path, "ida", "a different path");
	std::vector<std::string> rows;
	for (auto &l : splitlines(out))
		if (l.find("#altrow") == 0)
			rows.push_back(l);
	MC_CHECK(rows.size() == ref.iters.size(), "ida", "%zu iterations reported, not %zu", rows.size(), ref.iters.size());
	for (size_t i = 0; i < rows.size(); i++) {
		double x[4] = { 0 };
		size_t q = rows[i].find('\t');
		MC_CHECK(q != std::string::npos && sscanf(rows[i].c_str() + q, "%lf %lf %lf %lf", x, x + 1, x + 2, x + 3) == 4,
			"ida", "bad row %s", rows[i].c_str());
		for (int k = 0; k < 4; k++)
			MC_CHECK(x[k] == ref.iters[i][k], "ida", "iteration %zu: column %d is %g, not %g", i, k, x[k], ref.iters[i][k]);
	}
	if (ref.iters.size() > 1)
		mc::nontrivial();
}

template <class D>
static void all(const char *dn, const Graph &g, int hm) {
	bestfirst<D>(dn, g, hm, {"x", "astar"}, KAstar, 1, false);
	bestfirst<D>(dn, g, hm, {"x", "astar-dump"}, KAstar, 1, false);
	bestfirst<D>(dn, g, hm, {"x", "wastar", "-wt", "1"}, KWastar, 1, false);
	bestfirst<D>(dn, g, hm, {"x", "wastar", "-wt", "1.5"}, KWastar, 1.5, false);
	bestfirst<D>(dn, g, hm, {"x", "wastar", "-wt", "3"}, KWastar, 3, false);
	bestfirst<D>(dn, g, hm, {"x", "wastar", "-wt", "3", "-dropdups"}, KWastar, 3, true);
	bestfirst<D>(dn, g, hm, {"x", "greedy"}, KGreedy, 0, false);
	bestfirst<D>(dn, g, hm, {"x", "greedy", "-dropdups"}, KGreedy, 0, true);
	bestfirst<D>(dn, g, hm, {"x", "speedy"}, KSpeedy, 0, false);
	bestfirst<D>(dn, g, hm, {"x", "speedy", "-dropdups"}, KSpeedy, 0, true);
	for (int w : {1, 2, 3, 50}) {
		beam<D>(dn, g, hm, w, false);
		beam<D>(dn, g, hm, w, true);
	}
	if (g.n < 50 && (g.dist[g.start] < GInf || g.acyclic()))
		ida<D>(dn, g);
}

void mc_setup() {
	nruns = mc::counter("runs replayed");
	nexpds = mc::counter("expansions checked against every open node");
	nties = mc::counter("ties seen");
	nlevels = mc::counter("beam levels checked");
	nida = mc::counter("IDA* runs equal to the reference");
	ndump = mc::counter("A* dumps checked");
#ifdef DOM_A
	mc::suite("dig4", "digraphs on 4 vertices, costs {-,1,3}, h in {0,h*}", 256,
		[](uint64_t c) {
			digraphs(4, 8, {1, 3}, false, c, 256, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 2 : 1, [&](Graph &g) { all<GD<int>>("int", g, 0); });
				for (int i = 0; i < g.n && !mc::thorough; i++)
					g.h[i] = i == 1 && g.dist[i] < GInf ? g.dist[i] : 0;
				if (!mc::thorough)
					all<GD<int>>("int", g, 1);
			});
		});
#endif
#ifdef DOM_B
	mc::suite("und5", "undirected graphs on 5 vertices, costs {-,2}; thorough {-,1,4}; h in {0,h*}", 256,
		[](uint64_t c) {
			std::vector<int> costs{2};
			if (mc::thorough)
				costs = {1, 4};
			ugraphs(5, 16, costs, true, c, 256, [&](Graph &g) {
				sdist(g);
				heuristics(g, 2, [&](Graph &g) { all<GD<double>>("double", g, 2); });
			});
		});
	mc::suite("layer", "layered graphs, 2x2 with shortcuts, costs {1,3}, h in {0,h*/2,h*}", 64,
		[](uint64_t c) {
			layered(2, 2, {1, 3}, true, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 3 : 2, [&](Graph &g) { all<GD<double>>("double", g, 1); });
			});
		});
#endif
#ifdef DOM_C
	mc::suite("layer3", "layered graphs, 3 layers of 2 with reopenings, costs {1,3}, h=h*/2 on odd vertices", 128,
		[](uint64_t c) {
			layered(2, 3, {1, 3}, true, c, 128, [&](Graph &g) {
				sdist(g);
				for (int k = 1; k < (mc::thorough ? 4 : 2); k++) {
					for (int i = 0; i < g.n; i++)
						g.h[i] = g.dist[i] >= GInf ? 0 : i & 1 ? g.dist[i] * k / 3 : 0;
					all<GD<int, true>>("int,inplace", g, 0);
				}
			});
		});
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { all<GD<double>>("double", g, 0);
					beam<GD<double>>("double", g, 0, 200, false);
					beam<GD<double>>("double", g, 0, 300, true);
				 });
		});
	mc::suite("grid", "grids up to 12x12 with a wall that has one gap, at every place", 12,
		[](uint64_t c) {
			for (int h = 3; h <= 12; h += 3)
				for (int gap = 0; gap < h; gap++)
					for (int m = 0; m < 4; m++) {
						int w = 3 + c % 10;
						std::vector<char> b(w * h, 0);
						for (int y = 0; y < h; y++)
							b[y * w + w / 2] = y != gap;
						if (b[w * h - 1] || b[0])
							continue;
						Graph g;
						gridgraph(g, w, h, b, m & 1, 1 + (m >> 1), 1 + 2 * (m >> 1));
						all<GD<int>>("int", g, c & 1 ? 0 : 2);
						all<GD<double, true>>("double,inplace", g, 0);
					}
		});
#endif
}
MC_MAIN
