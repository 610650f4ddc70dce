// C02: weighted A* returns solutions within its weight.
#include "algos.hpp"

static int nsub, nincons, ndrop;

template <class D>
static void one(const char *dn, const char *wt, bool drop, const Graph &g, int hm) {
	if (!mc::begin([&] { return mc::strf("wastar -wt %s%s over %s hash=%d %s", wt, drop ? " -dropdups" : "",
			dn, hm, g.str().c_str()); }))
		return;
	Args a{"x", "wastar", "-wt", wt};
	if (drop)
		a.v.push_back("-dropdups");
	D d(g, hashes(hm));
	d.maxexp = 20000;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	long c = runsearch<D>(*alg, d);
	long opt = g.dist[g.start];
	MC_CHECK((c >= 0) == (opt < GInf), "no-solution", "cost %ld but optimal %ld", c, opt);
	if (c < 0)
		return;
	if (c > opt) {
		mc::count(nsub);
		mc::nontrivial();
	}
	if (drop)
		mc::count(ndrop);
	if (!drop)	// dropping duplicates gives up the bound
		MC_CHECK(c <= strtod(wt, NULL) * opt + 1e-9, "bound", "cost %ld is more than %s times the optimal %ld", c, wt, opt);
}

static const char *wts[] = { "1", "1.25", "1.5", "2", "3.5" };

template <class D> static void all(const char *dn, const Graph &g, int hm, unsigned from, unsigned n) {
	bool cons = g.consistent();
	if (!cons)
		mc::count(nincons);
	for (unsigned i = from; i < from + n; i++) {
		one<D>(dn, wts[i % 5], false, g, hm);
		if (i % 2)
			one<D>(dn, wts[i % 5], true, g, hm);
	}
}

void mc_setup() {
	nsub = mc::counter("suboptimal solutions within the bound");
	nincons = mc::counter("graphs with an inconsistent heuristic");
	ndrop = mc::counter("runs that drop duplicates");
#ifdef DOM_A
	mc::suite("dig4", "digraphs on 4 vertices, costs {-,1,3}, h in {0,h*}, weights 1..3.5", 256,
		[](uint64_t c) {
			digraphs(4, 8, {1, 3}, false, c, 256, [&](Graph &g) {
				heuristics(g, mc::thorough ? 3 : 2, [&](Graph &g) { all<GD<int>>("int", g, 0, 0, 5); });
			});
		});
	mc::suite("chain6", "layered graphs 2x2 with shortcuts, costs {1,2,5}", 256,
		[](uint64_t c) {
			layered(2, 2, mc::thorough ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 4}, true, c, 256, [&](Graph &g) {
				heuristics(g, mc::thorough ? 2 : 3, [&](Graph &g) { all<GD<int>>("int", g, 1, 0, 5); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("medium", "rings, combs, diamonds and grids of 16 to 60 vertices, directed and not", 128,
		[](uint64_t c) {
			for (bool sym : { false, true })
				medium(sym, c, 128, [&](Graph &g) { all<GD<int>>("int", g, 0, 0, 5); });
		});
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { all<GD<int>>("int", g, 0, 0, 5); });
		});
#endif
#ifdef DOM_B
	mc::suite("und5", "undirected graphs on 5 vertices, costs {-,1,4}", 512,
		[](uint64_t c) {
			ugraphs(5, 16, mc::thorough ? std::vector<int>{1, 4} : std::vector<int>{2}, true, c, 512, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all<GD<double, true>>("double,inplace", g, 1, 1, 3); });
			});
		});
	mc::suite("layer8", "layered graphs of 3 layers of 2 (thorough with shortcuts), costs {1,3}, weights 1.5, 2", 512,
		[](uint64_t c) {
			layered(2, 3, {1, 3}, mc::thorough, c, 512, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all<GD<double, true>>("double,inplace", g, 2, 2, 2); });
			});
		});
#endif
}
MC_MAIN
