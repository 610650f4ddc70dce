// C10: Bugsy expands the node of greatest utility.
#include "algos.hpp"
#include <set>

static int nruns, nexpds, nresorts, nchanged, nfinal, nties;

struct Opt {
	double wf, wt;
	bool slim, noresort, expdelay, hhat, dhat, drop, interph;
	int lms;	// 1: hlms, 2: dlms
	int clock;
};

// The time that passes during expansion k, by clock model.
static double step(int model, uint64_t k) {
	switch (model) {
	case 0: return 0.001;
	case 1: return k < 128 ? 0.01 : 0.0001;
	case 2: return k < 256 ? 0.0001 : 0.02;
	case 3: return 1;
	default: return (k * 7 % 5) * 0.003;
	}
}

static int model;

template <class D> struct Clock {
	static void tick(D *d) { mcclock += step(model, d->nexp); }
};

static const double hc[4] = { 1, 0, 0.5, 0 }, dc[4] = { 0, 0.125, 0.5, 0.25 };

struct Nd {
	bool seen, open;
	double f, g, h, d, depth, u, t;
	unsigned long expct;
	int parent;
};

template <class D>
static void one(const char *dn, const Graph &g, int hm, const Opt &o, bool admissible) {
	std::vector<std::string> as{"x", o.slim ? "bugsy-slim" : "bugsy", "-wf", mc::strf("%g", o.wf), "-wt", mc::strf("%g", o.wt)};
	if (o.noresort) as.push_back("-noresort");
	if (o.expdelay) as.push_back("-expdelay");
	if (o.hhat) as.push_back("-hhat");
	if (o.dhat) as.push_back("-dhat");
	if (o.drop) as.push_back("-dropdups");
	if (o.lms & 1) { as.push_back("-hlms"); as.push_back(mc::strf("%g,%g,%g,%g", hc[0], hc[1], hc[2], hc[3])); }
	if (o.lms & 2) { as.push_back("-dlms"); as.push_back(mc::strf("%g,%g,%g,%g", dc[0], dc[1], dc[2], dc[3])); }
	if (o.interph) as.push_back("-interph");
	std::vector<const char*> av;
	std::string astr;
	for (auto &s : as) {
		av.push_back(s.c_str());
		astr += s + " ";
	}
	if (!mc::begin([&] { return mc::strf("%s clock=%d over %s hash=%d %s", astr.c_str(), o.clock, dn, hm,
			g.n > 30 ? mc::strf("n=%d", g.n).c_str() : g.str().c_str()); }))
		return;
	D d(g, hashes(hm));
	d.maxexp = 100000;
	d.tracing = true;
	mcclock = 1000;
	mctick = 0;
	model = o.clock;
	d.onexpand = Clock<D>::tick;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(Args(av)));
	long c = runsearch<D>(*alg, d);
	mc::count(nruns);
	long opt = g.dist[g.start];
	MC_CHECK((c >= 0) == (opt < GInf), "solvable", "cost %ld, optimum %ld", c, opt);
	if (admissible && o.wt == 0 && !o.drop && !o.slim && !o.hhat && !o.lms)
		MC_CHECK(c < 0 || c == opt, "cost-only", "only cost matters, but the path costs %ld and the optimum is %ld", c, opt);

	// the reference, driven by the expansions that were made
	std::vector<Nd> nd(g.n);
	for (auto &n : nd)
		n.seen = n.open = false;
	double herror = 0, derror = 0, herrlast = 0, derrlast = 0, avgdelay = 0, delaylast = 0, timeper = 0;
	double clock = 1000, lasttime = 1000;
	unsigned long expd = 0, lastexpd = 0, navg = 0, next = 128, resorts = 0;
	unsigned long delaysum = 0, alldelay = 0;
	auto util = [&](Nd &n) {
		if (o.slim) {
			n.t = timeper * (delaylast <= 0 ? 1 : delaylast) * n.d;
			n.u = -(o.wf * (n.h + n.g) + o.wt * n.t);
			return;
		}
		double dd = n.d, hh = n.h;
		if (o.lms & 2)
			dd = dc[0] * n.h + dc[1] * n.g + dc[2] * n.d + dc[3] * n.depth;
		if (o.dhat && derrlast < 1)
			dd /= 1 - derrlast;
		if (o.lms & 1)
			hh = hc[0] * n.h + hc[1] * n.g + hc[2] * n.d + hc[3] * n.depth;
		if (o.interph) {
			double w = o.wf / (o.wf + o.wt);
			hh = n.h * w + (hh + dd * herrlast) * (1 - w);
		} else if (o.hhat)
			hh += dd * herrlast;
		if (o.expdelay && delaylast > 0)
			dd *= delaylast;
		n.t = timeper * dd;
		n.u = -(o.wf * (n.g + hh) + o.wt * n.t);
	};
	// without re-sorting the estimates move at every step, so the order of
	// the nodes depends on when each was generated
	bool order = !o.noresort || (o.wt == 0 && !o.hhat && !o.lms);
	auto select = [&](int v, size_t i) {
		MC_CHECK(nd[v].open, "not-open", "expansion %zu: state %d is not open", i, v);
		for (int k = 0; order && k < g.n; k++)
			if (nd[k].open && k != v) {
				double eps = 1e-9 * (1 + fabs(nd[v].u));
				MC_CHECK(nd[v].u >= nd[k].u - eps, "utility", "selection %zu: state %d of utility %.12g was chosen before %d of utility %.12g (f %g, %g; t %g, %g)",
					i, v, nd[v].u, k, nd[k].u, nd[v].f, nd[k].f, nd[v].t, nd[k].t);
				if (timeper == 0 && !o.noresort && nd[v].u == nd[k].u && !o.slim) {
					mc::count(nties);
					MC_CHECK(nd[v].f < nd[k].f || (nd[v].f == nd[k].f && nd[v].g >= nd[k].g), "ties",
						"selection %zu: state %d (f %g g %g) was chosen before %d (f %g g %g) of the same utility",
						i, v, nd[v].f, nd[v].g, k, nd[k].f, nd[k].g);
				}
			}
		nd[v].open = false;
	};
	Nd &r = nd[g.start];
	r.seen = r.open = true;
	r.g = 0;
	r.h = r.f = g.h[g.start];
	r.d = g.d[g.start];
	r.depth = 0;
	r.expct = 0;
	r.parent = -1;
	util(r);
	for (size_t i = 0; i < d.trace.size(); i++) {
		int v = d.trace[i];
		MC_CHECK(!g.goal[v], "order", "goal %d was expanded", v);
		select(v, i);
		Nd &n = nd[v];
		clock += step(model, i + 1);
		expd++;
		mc::count(nexpds);
		delaysum += expd - n.expct;
		alldelay += expd - n.expct;
		avgdelay = (double) alldelay / expd;
		double bf = -1, bd = 0;
		for (auto &e : g.adj[v]) {
			// the move back to the parent is not considered
			bool rev = false;
			if (e.to == n.parent)
				for (auto &b : g.adj[n.parent])
					rev = rev || b.to == v;
			if (rev)
				continue;
			double kg = n.g + e.cost;
			double kd = std::max((double) g.d[e.to], n.d - 1);
			double kh = std::max((double) g.h[e.to], n.h - e.cost);
			if (bf < 0 || kg + kh < bf) {
				bf = kg + kh;
				bd = kd;
			}
			Nd &k = nd[e.to];
			if (!k.seen) {
				k.seen = k.open = true;
				k.g = kg;
				k.h = kh;
				k.d = kd;
				k.f = kg + kh;
				k.depth = n.depth + 1;
				k.expct = expd;
				k.parent = v;
				util(k);
			} else if (!o.drop && !o.slim && kg < k.g) {
				k.f += kg - k.g;
				k.g = kg;
				k.depth = n.depth + 1;
				k.parent = v;
				k.open = true;
				util(k);
			}
		}
		if (bf >= 0) {
			navg++;
			herror += (std::max(bf - n.f, 0.0) - herror) / navg;
			derror += (std::max(bd + 1 - n.d, 0.0) - derror) / navg;
		}
		if (!o.noresort && expd >= next) {
			next *= 2;
			resorts++;
			mc::count(nresorts);
			timeper = (clock - lasttime) / (expd - lastexpd);
			lasttime = clock;
			herrlast = herror;
			derrlast = derror;
			delaylast = o.slim ? delaysum / (double) (expd - lastexpd) : avgdelay;
			delaysum = 0;
			lastexpd = expd;
			for (auto &k : nd)
				if (k.open) {
					double u = k.u;
					util(k);
					if (u != k.u)
						mc::count(nchanged);
				}
		}
	}
	if (c >= 0) {
		int goal = alg->res.path[0].v;
		select(goal, d.trace.size());
		MC_CHECK(c <= nd[goal].g, "path", "the path costs %ld, but a path of cost %g was found", c, nd[goal].g);
	}
	if (expd > 128)
		mc::nontrivial();

	// what it reports
	Capture cap;
	alg->output(stdout);
	std::string out = cap.text(), val;
	cap.stop();
	auto chk = [&](const char *key, double want) {
		MC_CHECK(dfvalue(out, key, val), "report", "no %s", key);
		MC_CHECK(fabs(strtod(val.c_str(), NULL) - want) <= 1e-5 * (1 + fabs(want)), "report", "%s is %s, not %g", key, val.c_str(), want);
		mc::count(nfinal);
	};
	chk("wf", o.wf);
	chk("wt", o.wt);
	chk("number of resorts", resorts);
	if (!o.noresort)
		chk("final time per expand", timeper);
	if (o.hhat || o.interph)
		chk("mean single-step h error", herror);
	if (o.dhat)
		chk("mean single-step d error", derror);
	if (o.expdelay)
		chk("mean expansion delay", avgdelay);
	if (o.slim)
		chk("mean expansion delay", delaylast);
	mctick = 0.001;
}

static std::vector<Opt> opts(bool big) {
	std::vector<Opt> v;
	double ws[][2] = { {1, 0}, {1, 1}, {1, 100}, {0, 1}, {3, 2000} };
	for (auto &w : ws) {
		for (int m = 0; m < (big ? 5 : 1); m++) {
			v.push_back(Opt{w[0], w[1], false, false, false, false, false, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], true, false, false, false, false, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, true, false, false, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, false, true, false, m == 1, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, false, false, true, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, true, true, true, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, false, false, false, false, true, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, m == 2, false, false, true, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, false, false, false, false, false, false, 1, m});
			v.push_back(Opt{w[0], w[1], false, false, false, false, false, false, false, 2 + (m & 1), m});
			v.push_back(Opt{w[0], w[1], false, true, (m & 1) != 0, false, false, false, false, 0, m});
			v.push_back(Opt{w[0], w[1], false, true, true, true, true, false, false, 0, m});
		}
	}
	return v;
}

// grids large enough for three re-sorts, with walls and misleading heuristics
template <class F> static void grids(uint64_t c, F f) {
	static const int ws[] = { 15, 24 };
	int W = ws[c % 2], H = c % 3 == 0 ? 20 : 14;
	int kind = c / 6 % 4;	// wall layout
	std::vector<char> b(W * H, 0);
	for (int y = 0; y < H; y++)
		for (int x = 0; x < W; x++) {
			if (kind == 1 && x == W / 2 && y != 0)
				b[y * W + x] = 1;
			if (kind == 2 && ((x % 6 == 2 && y != H - 1) || (x % 6 == 5 && y != 0)))
				b[y * W + x] = 1;
			if (kind == 3 && (x * 7 + y * 3) % 5 == 0)
				b[y * W + x] = 1;
		}
	b[0] = b[W * H - 1] = 0;
	Graph g;
	gridgraph(g, W, H, b, true, 1, 1 + c / 24 % 3);
	for (int v = 0; v < g.n; v++) {
		// uneven costs, so that h and d disagree
		for (auto &a : g.adj[v])
			a.cost += (a.to * 5 + v) % 3 == 0;
		if (c % 5 == 1)
			g.h[v] = g.h[v] / 2;
		if (c % 5 == 2 && v % 3)
			g.h[v] = 0;	// inconsistent
	}
	g.solve();
	f(g);
}

void mc_setup() {
	nruns = mc::counter("runs replayed");
	nexpds = mc::counter("expansions checked against every open node");
	nresorts = mc::counter("re-sorts");
	nchanged = mc::counter("utilities changed by a re-sort");
	nties = mc::counter("ties in utility");
	nfinal = mc::counter("reported values checked");
#ifdef DOM_A
	mc::suite("grid", "grids of 210 to 480 cells with 4 wall layouts, uneven costs, 5 heuristics, 5 clocks, 5 weightings, 12 variants", 72,
		[](uint64_t c) {
			grids(c, [&](Graph &g) {
				for (auto &o : opts(true))
					one<GD<double>>("double", g, c % 3, o, g.admissible());
			});
		});
#endif
#ifdef DOM_B
	mc::suite("scale", "fans of 150 and 400 leaves and chains of 300 vertices, directed and not, 3 heuristics", 72,
		[](uint64_t c) {
			for (bool sym : { false, true })
				scale(sym, c, 72, [&](Graph &g) { 
					for (auto &o : opts(false))
						if (o.wt <= 1)
							one<GD<double>>("double", g, 0, o, g.admissible());
				 });
		});
	mc::suite("gridint", "grids with integer costs, edges modified in place", 72,
		[](uint64_t c) {
			if (!mc::thorough && c % 6)
				return;
			grids(c, [&](Graph &g) {
				for (auto &o : opts(mc::thorough))
					one<GD<int, true>>("int,inplace", g, 0, o, g.admissible());
			});
		});
	mc::suite("layer", "layered graphs, 2x2 with shortcuts, costs {1,3}, h and d in {0,*/2,*}", 64,
		[](uint64_t c) {
			layered(2, 2, {1, 3}, true, c, 64, [&](Graph &g) {
				sdist(g);
				heuristics(g, mc::thorough ? 3 : 1, [&](Graph &g) {
					for (auto &o : opts(false))
						one<GD<int>>("int", g, 1, o, true);
				});
			});
		});
	mc::suite("dig4", "digraphs on 4 vertices, costs {-,1,3}, h=h*/2", 64,
		[](uint64_t c) {
			digraphs(4, 8, {1, 3}, false, c, 64, [&](Graph &g) {
				if (!mc::thorough && g.adj[1].size() + g.adj[2].size() < 4)
					return;
				sdist(g);
				for (int i = 0; i < g.n; i++)
					g.h[i] = g.dist[i] < GInf ? g.dist[i] / 2 : 5;
				g.h[3] = 0;
				for (auto &o : opts(false))
					if (o.wt == 1 || o.wf == 3)
						one<GD<double>>("double", g, 0, o, true);
			});
		});
#endif
}
MC_MAIN
