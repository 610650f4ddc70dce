// C03: ARA* is a sound anytime search.
#include "algos.hpp"

static int nrows, nmulti, nconv, nlim, ntight;
static std::string profile;

static Capture *cap;

static std::vector<double> tonums(const std::vector<std::string> &f, size_t from) {
	std::vector<double> v;
	for (size_t i = from; i < f.size(); i++)
		v.push_back(strtod(f[i].c_str(), NULL));
	return v;
}

template <class D>
static void one(const char *dn, const Args &args, const Graph &g, int hm, bool cons) {
	if (!mc::begin([&] { return mc::strf("%s over %s hash=%d %s", args.str().c_str(), dn, hm, g.str().c_str()); }))
		return;
	Args a(args);
	bool limited = false;
	for (auto s : a.v)
		limited = limited || !strcmp(s, "-expd");
	D d(g, hashes(hm));
	d.maxexp = 20000;
	mcclock = 1000;
	mctick = 0.001;
	cap->text();
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	long c = runsearch<D>(*alg, d);
	std::string out = cap->text();
	long opt = g.dist[g.start];

	// the rows
	std::vector<std::vector<double>> rows;
	std::string conv;
	for (auto &l : splitlines(out)) {
		auto f = splitlines(l, '\t');
		if (f.size() == 8 && f[0] == "#altrow  \"incumbent\"")
			rows.push_back(tonums(f, 1));
	}
	MC_CHECK(dfvalue(out, "converged", conv), "output", "no 'converged' pair in: %s", out.c_str());
	mc::count(nrows, rows.size());
	if (rows.size() > 1) {
		mc::count(nmulti);
		mc::nontrivial();
	}

	if (opt >= GInf) {
		MC_CHECK(c < 0 && rows.size() == 0, "solution-to-unsolvable", "%s", out.c_str());
		return;
	}
	if (c < 0) {
		MC_CHECK(rows.size() == 0, "incumbent", "rows but no path: %s", out.c_str());
		MC_CHECK(limited, "no-solution", "no path but the optimal cost is %ld", opt);
		mc::count(nlim);
		return;
	}
	MC_CHECK(rows.size() > 0, "incumbent", "a path but no incumbent row: %s", out.c_str());
	double wt0 = 0;
	for (size_t i = 0; i + 1 < a.v.size(); i++)
		if (!strcmp(a.v[i], "-wt0"))
			wt0 = strtod(a.v[i + 1], NULL);
	for (size_t i = 0; i < rows.size(); i++) {
		auto &r = rows[i];	// num, expd, gend, weight, bound, cost, time
		MC_CHECK(r[0] == i + 1, "rows", "row %zu has number %g", i, r[0]);
		MC_CHECK(r[3] >= 1 && r[3] <= wt0, "rows", "weight %g", r[3]);
		MC_CHECK(r[4] >= 1, "bound", "row %zu claims a bound of %g, which no solution can have:\n%s", i, r[4], out.c_str());
		MC_CHECK(r[4] <= r[3] * (1 + 1e-5), "bound", "bound %g exceeds the weight %g", r[4], r[3]);
		if (cons)
			MC_CHECK(r[5] <= r[4] * opt * (1 + 1e-5), "bound", "row %zu: cost %g, bound %g, but the optimal cost is %ld:\n%s",
				i, r[5], r[4], opt, out.c_str());
		MC_CHECK(r[5] >= opt, "cost", "row %zu: cost %g below the optimal %ld", i, r[5], opt);
		if (r[4] < r[3])
			mc::count(ntight);
		if (i > 0) {
			auto &q = rows[i - 1];
			MC_CHECK(r[5] < q[5], "anytime", "cost %g after %g:\n%s", r[5], q[5], out.c_str());
			MC_CHECK(!cons || r[4] <= q[4], "bound", "bound %g after %g:\n%s", r[4], q[4], out.c_str());
			MC_CHECK(r[3] <= q[3] && r[1] >= q[1] && r[2] >= q[2], "rows", "weight or counts go back:\n%s", out.c_str());
		}
	}
	// the path can have improved since the cost was last reported, never the reverse
	MC_CHECK(c <= rows.back()[5], "incumbent", "last row has cost %g but the path costs %ld", rows.back()[5], c);
	// Unless something can stop it, it ends with an optimal solution.
	if (cons && !limited && !strcmp(a.v[1], "arastar"))
		MC_CHECK(c == opt, "converged", "it ended with cost %ld but the optimal is %ld:\n%s", c, opt, out.c_str());
	if (conv == "yes") {
		mc::count(nconv);
		if (cons)
			MC_CHECK(c == opt, "converged", "converged with cost %ld but the optimal is %ld:\n%s", c, opt, out.c_str());
	}
}

static const std::vector<Args> &argsets() {
	// A profile of a few streams of solutions, for the monitor
	if (profile.empty()) {
		profile = mc::scratch + "/profile";
		std::vector<AnytimeProfile::SolutionStream> ss;
		for (int i = 0; i < 4; i++) {
			AnytimeProfile::SolutionStream st;
			for (int j = 0; j < 4; j++)
				st.push_back(AnytimeProfile::Solution{ 30.0 - 6 * j - i, 0.02 * j * (i + 1) });
			ss.push_back(st);
		}
		AnytimeProfile p(6, 6, ss);
		FILE *f = fopen(profile.c_str(), "w");
		p.save(f);
		fclose(f);
		cap->text();
	}
	static std::string prof = profile;
	static std::vector<Args> v = {
		{"x", "arastar", "-wt0", "1", "-dwt", "1"},
		{"x", "arastar", "-wt0", "1.5", "-dwt", "0.2"},
		{"x", "arastar", "-wt0", "3", "-dwt", "1"},
		{"x", "arastar", "-wt0", "5", "-dwt", "0.5"},
		{"x", "arastar", "-wt0", "5", "-dwt", "10"},
		{"x", "arastar", "-wt0", "3", "-dwt", "0.5", "-expd", "3"},
		{"x", "arastar", "-wt0", "2", "-dwt", "0.5", "-expd", "5"},
		{"x", "arastarnora", "-wt0", "4", "-dwt", "1", "-lambda", "0.0001"},
		{"x", "arastarnora", "-wt0", "4", "-dwt", "1", "-lambda", "200", "-wf", "1", "-wt", "1"},
		{"x", "arastarnora", "-wt0", "1.5", "-dwt", "0.25", "-lambda", "1000", "-wf", "2", "-wt", "1"},
		{"x", "arastarmon", "-wt0", "3", "-dwt", "0.5", "-p", prof.c_str(), "-wf", "1", "-wt", "0"},
		{"x", "arastarmon", "-wt0", "1.5", "-dwt", "0.3", "-p", prof.c_str(), "-wf", "1", "-wt", "20"},
	};
	return v;
}

template <class D> static void all(const char *dn, const Graph &g, int hm) {
	bool cons = g.consistent();
	for (auto &a : argsets())
		one<D>(dn, a, g, hm, cons);
}

void mc_setup() {
	nrows = mc::counter("incumbent rows checked");
	nmulti = mc::counter("runs with several incumbents");
	nconv = mc::counter("converged runs");
	nlim = mc::counter("runs stopped before any solution");
	ntight = mc::counter("rows with a bound tighter than the weight");
#define START if (!cap) cap = new Capture
#ifdef DOM_A
	mc::suite("dig4", "digraphs on 4 vertices, costs {-,1,3}, h in {0,h*}", 256,
		[](uint64_t c) {
			START;
			digraphs(4, 8, {1, 3}, false, c, 256, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all<GD<int>>("int", g, 1); });
			});
		});
#endif
#ifdef DOM_A
	mc::suite("medium", "rings, combs, diamonds and grids of 16 to 60 vertices, directed and not", 128,
		[](uint64_t c) {
			START;
			for (bool sym : { false, true })
				medium(sym, c, 128, [&](Graph &g) { all<GD<int>>("int", g, 0); });
		});
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			START;
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { all<GD<int>>("int", g, 0); });
		});
#endif
#ifdef DOM_B
	mc::suite("layer6", "layered graphs 2x2 with shortcuts, costs {1,4}, h in {0,h*/2,h*}", 256,
		[](uint64_t c) {
			START;
			layered(2, 2, {1, 4}, true, c, 256, [&](Graph &g) {
				heuristics(g, mc::thorough ? 3 : 2, [&](Graph &g) { all<GD<double>>("double", g, 0); });
			});
		});
	mc::suite("layer8", "layered graphs of 3 layers of 2, costs {1,5}, consistent h only", 512,
		[](uint64_t c) {
			START;
			layered(2, 3, {1, 5}, mc::thorough, c, 512, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) {
					if (g.consistent())
						all<GD<double>>("double", g, 1);
				});
			});
		});
#endif
#ifdef DOM_C
	mc::suite("ladder", "12-vertex ladders whose states are improved after they were expanded", 256,
		[](uint64_t c) {
			START;
			mc::Product p;
			p.add(2, 3);	// cost of the direct arcs
			p.add(4);	// h(x)
			p.add(2, 9);	// h of mid, leaf, leaf2
			for (uint64_t k = c; k < p.size(); k += 256) {
				p.set(k);
				Graph g;
				g.init(12);
				g.goal[11] = 1;
				for (int i = 0; i < 3; i++)
					g.arc(0, 2 + i, 2 + p[i]);
				g.arc(0, 1, 1);
				g.h[1] = 2 * p[3];
				for (int i = 0; i < 3; i++) {
					g.arc(1, 2 + i, 1);
					g.arc(2 + i, 5 + i, 1);
					g.arc(5 + i, 8 + i, 1);
					g.arc(8 + i, 11, 6);
					g.h[2 + i] = p[4 + i] * 2;
					g.h[5 + i] = p[7 + i] * 3;
					g.h[8 + i] = p[10 + i] * 6;
				}
				g.solve();
				all<GD<int, true>>("int,inplace", g, mc::thorough ? k % 3 : 1);
				if (mc::thorough)
					all<GD<int, true>>("int,inplace", g, (k + 1) % 3);
			}
		});
#endif
#ifdef DOM_C
	mc::suite("rungs", "1 and 2 rungs that are entered dearly first and improved later, with different tails and a dear direct arc", 64,
		[](uint64_t c) {
			START;
			for (int rungs = 1; rungs <= (mc::thorough ? 3 : 2); rungs++) {
				mc::Product p;
				p.add(4);	// h of the cheap entrance
				p.add(3);	// direct arc
				for (int i = 0; i < rungs; i++) {
					p.add(2);	// cost of the dear entrance
					p.add(rungs > 2 ? 2 : 3);	// h of the rung
					p.add(rungs > 2 ? 2 : 3);	// h of its tail
					p.add(2);	// cost of the tail
				}
				static const int h1[] = { 0, 1, 2, 4 }, direct[] = { 0, 12, 20 }, hr[] = { 0, 2, 1 }, cost[] = { 3, 8 };
				for (uint64_t k = c; k < p.size(); k += 64) {
					p.set(k);
					Graph g;
					int n = 3 + 2 * rungs;
					g.init(n);
					g.goal[n - 1] = 1;
					g.arc(0, 1, 1);
					g.h[1] = h1[p[0]];
					if (p[1])
						g.arc(0, n - 1, direct[p[1]]);
					for (int i = 0; i < rungs; i++) {
						int r = 2 + 2 * i, q = 2 + 4 * i;
						int tail = cost[p[q + 3]];
						g.arc(0, r, 2 + 2 * p[q]);
						g.arc(1, r, 1);
						g.arc(r, r + 1, 1);
						g.arc(r + 1, n - 1, tail);
						g.h[r] = hr[p[q + 1]];
						g.h[r + 1] = p[q + 2] == 0 ? tail : p[q + 2] == 1 ? tail / 2 : 0;
					}
					g.solve();
					all<GD<int, true>>("int,inplace", g, k % 3);
				}
			}
		});
	mc::suite("und5", "undirected graphs on 5 vertices, costs {-,2} (thorough {-,1,4}), edges modified in place", 256,
		[](uint64_t c) {
			START;
			ugraphs(5, 16, mc::thorough ? std::vector<int>{1, 4} : std::vector<int>{2}, false, c, 256, [&](Graph &g) {
				heuristics(g, 2, [&](Graph &g) { all<GD<int, true>>("int,inplace", g, 2); });
			});
		});
#endif
}
MC_MAIN
