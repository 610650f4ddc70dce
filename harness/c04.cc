// C04: every algorithm's path is a real solution.
// C05: complete algorithms terminate and decide solvability (-DC05).
#include "algos.hpp"

static int nsolved, nunsolved, npaths;

template <class D>
static void one(const char *dn, const Spec &sp, const Graph &g, int hm) {
	if (!mc::begin([&] { return mc::strf("%s over %s hash=%d %s", sp.args.str().c_str(), dn, hm, g.str().c_str()); }))
		return;
	D d(g, hashes(hm));
	d.maxexp = g.n > 100 ? 2000000 : 20000;
	mcclock = 1000;
	mctick = 0.001;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(sp.args));
	mcticks = 1000000;
	long c = runsearch<D>(*alg, d);
	mcticks = -1;
	long opt = g.dist[g.start];
	if (c >= 0) {
		mc::count(npaths);
		if (alg->res.ops.size() > 1)
			mc::nontrivial();
		if (opt >= GInf)
			mc::fail("solution-to-unsolvable", "found a path of cost %ld", c);
	}
	if (opt >= GInf)
		mc::count(nunsolved);
	else
		mc::count(nsolved);
#ifdef C05
	if (opt < GInf && (sp.flags & (Complete | Realtime)))
		MC_CHECK(c >= 0, "no-solution", "no path found but there is a solution of cost %ld", opt);
#endif
	// the statistics and parameters can always be printed
	alg->output(stdout);
}

template <class D>
static void all(const char *dn, const Graph &g, int hm, size_t from = 0, size_t stride = 1) {
	bool solvable = g.dist[g.start] < GInf;
	bool safe = g.safe(), acyc = solvable || g.acyclic();
	for (size_t i = from; i < specs().size(); i += stride) {
		const Spec &sp = specs()[i];
		if ((sp.flags & Tree) && (!acyc || g.n > 12))
			continue;
#ifndef C05
		// It goes on for ever on three of the larger graphs (a known finding of C05).
		if (g.n > 12 && !strcmp(sp.args.v[1], "fhatlrtastar") && !strcmp(sp.args.v.back(), "-onestep"))
			continue;
#endif
		if ((sp.flags & Realtime) && !safe && !(acyc && !solvable))
			continue;
		if ((sp.flags & Undirected) && solvable && !g.reversible())
			continue;
		one<D>(dn, sp, g, hm);
	}
}

void mc_setup() {
	nsolved = mc::counter("runs on solvable graphs");
	nunsolved = mc::counter("runs on unsolvable graphs");
	npaths = mc::counter("paths validated");

#ifdef DOM_A
	mc::suite("dig4", "digraphs on 4 vertices, arc costs {-,1,3}, h in {0,h*}, all algorithms, int costs", 256,
		[](uint64_t c) {
			digraphs(4, 8, {1, 3}, false, c, 256, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 2 : 1, [&](Graph &g) { all<GD<int>>("int", g, 0); });
				if (!mc::thorough)
					heuristics(g, 2, [&](Graph &g) {
						if (g.h[1] && !g.h[2])
							all<GD<int>>("int", g, g.h[0] ? 1 : 0);
					});
			});
		});
#endif
#ifdef DOM_B
	mc::suite("dig4d", "digraphs on 4 vertices, two goals, reverse order, double costs", 64,
		[](uint64_t c) {
			digraphs(4, 12, {2, 3}, true, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, 3, [&](Graph &g) { all<GD<double>>("double", g, g.h[0] ? 0 : 1); });
			});
		});
#endif
#ifdef DOM_C
	mc::suite("und4", "undirected graphs on 4 vertices, edges modified in place", 64,
		[](uint64_t c) {
			ugraphs(4, 8, {1, 4}, false, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, 3, [&](Graph &g) { all<GD<int, true>>("int,inplace", g, 2); });
			});
		});
#endif
#ifdef DOM_C
	mc::suite("medium", "rings, combs, diamonds and grids of 16 to 60 vertices, directed and not", 128,
		[](uint64_t c) {
			for (bool sym : { false, true })
				medium(sym, c, 128, [&](Graph &g) { all<GD<int, true>>("int,inplace", g, 0); });
		});
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { all<GD<int, true>>("int,inplace", g, 0); });
		});
#endif
#ifdef DOM_D
	mc::suite("und5", "undirected graphs on 5 vertices, costs {-,2}; thorough {-,1,4}", 256,
		[](uint64_t c) {
			std::vector<int> costs{2};
			if (mc::thorough)
				costs = {1, 4};
			ugraphs(5, 16, costs, true, c, 256, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 1 : 2, [&](Graph &g) { all<GD<double, true>>("double,inplace", g, 0); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("layer", "layered graphs, 2x2 with shortcuts, costs {1,3}, h in {0,h*/2,h*}", 64,
		[](uint64_t c) {
			layered(2, 2, {1, 3}, true, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 3 : 2, [&](Graph &g) { all<GD<int>>("int", g, 1); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("startgoal", "the start is a goal", 1,
		[](uint64_t c) {
			digraphs(3, 1 | 4, {1, 2}, false, 0, 1, [&](Graph &g) {
				sdist(g);
				all<GD<int>>("int", g, 0);
				all<GD<double, true>>("double,inplace", g, 0);
			});
		});
#endif
}
MC_MAIN
