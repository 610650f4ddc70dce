// C01: A* and IDA* are optimal.
#include "algos.hpp"

static int nsolved, nunsolved, nincons;

template <class D, template <class> class Alg>
static void one(const char *name, const Graph &g, int hm, bool ida) {
	if (!mc::begin([&] { return mc::strf("%s hash=%d %s", name, hm, g.str().c_str()); }))
		return;
	Args a{"x", "alg"};
	D d(g, hashes(hm));
	d.maxexp = 100000;
	Alg<D> alg(a.n(), a.p());
	long c = runsearch(alg, d);
	long opt = g.dist[g.start];
	if (opt >= GInf) {
		mc::count(nunsolved);
		MC_CHECK(c < 0, "solution-to-unsolvable", "found a path of cost %ld", c);
	} else {
		mc::count(nsolved);
		MC_CHECK(c >= 0, "no-solution", "no path found but the optimal cost is %ld", opt);
		MC_CHECK(c == opt, "suboptimal", "cost %ld but optimal is %ld", c, opt);
		if (d.nexp > 1)
			mc::nontrivial();
	}
}

static void all(const Graph &g, bool full, bool ida = true) {
	if (!g.consistent())
		mc::count(nincons);
	one<GD<int>, Astar>("astar<int>", g, 0, false);
	one<GD<double>, Astar>("astar<double>", g, 1, false);
	one<GD<int, true>, Astar>("astar<int,inplace>", g, 2, false);
	bool solvable = g.dist[g.start] < GInf;
	if (ida && (solvable || g.acyclic())) {
		one<GD<int>, Idastar>("idastar<int>", g, 0, true);
		one<GD<double, true>, Idastar>("idastar<double,inplace>", g, 0, true);
	}
}

void mc_setup() {
	nsolved = mc::counter("solvable");
	nunsolved = mc::counter("unsolvable");
	nincons = mc::counter("graphs with an inconsistent heuristic");

	mc::suite("dig4", "digraphs on 4 vertices, arc costs {-,1,3}, h in {0,h*} (thorough {0,h*/2,h*})", 256,
		[](uint64_t c) {
			digraphs(4, 8, {1, 3}, false, c, 256, [&](Graph &g) {
				heuristics(g, mc::thorough ? 3 : 2, [&](Graph &g) { all(g, true); });
			});
		});
	mc::suite("dig4r", "as dig4, successors in reverse order, costs {-,2,5}, h in {0,h*}", 256,
		[](uint64_t c) {
			digraphs(4, 8, {2, 5}, true, c, 256, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all(g, true); });
			});
		});
	mc::suite("dig4gg", "digraphs on 4 vertices with two goals", 64,
		[](uint64_t c) {
			digraphs(4, 12, {1, 2, 4}, false, c, 64, [&](Graph &g) {
				heuristics(g, 3, [&](Graph &g) { all(g, true); });
			});
		});
	mc::suite("und5", "undirected graphs on 5 vertices, costs {-,1,4} h in {0,h*}", 512,
		[](uint64_t c) {
			ugraphs(5, 16, {1, 4}, false, c, 512, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all(g, true); });
			});
		});
	mc::suite("medium", "rings, combs, diamonds and grids of 16 to 60 vertices, directed and not, h in {0,h*} and mixtures", 128,
		[](uint64_t c) {
			for (bool sym : { false, true })
				medium(sym, c, 128, [&](Graph &g) {
					bool dag = g.acyclic();
					all(g, dag && g.n < 20, dag && g.n < 20);
				});
		});
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { all(g, false, false); });
		});
	mc::suite("startgoal", "the start is a goal", 1,
		[](uint64_t c) {
			digraphs(3, 1 | 4, {1, 2}, false, 0, 1, [&](Graph &g) { all(g, true); });
		});
	mc::suite("layer7", "layered graphs, 3 layers of 2 (thorough: with shortcuts), costs {1,3}, h in {0,h*}", 512,
		[](uint64_t c) {
			std::vector<int> costs{1, 3};
			layered(2, 3, costs, mc::thorough, c, 512, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all(g, true); });
			});
		});
}
MC_MAIN
