// C08: the real-time searches plan within their lookahead, learn and move as
// RTA* and LSS-LRTA* are defined to, for every way of breaking ties.
#include "algos.hpp"
#include "utils/geom2d.hpp"
#include <set>
#include <cmath>

static int nlarge, nfhamb, nrta, nlss, nambig, nchoices, nopts, nfhat;

// The random choices that RTA* makes among equally good successors are
// enumerated: choices[i] is the i-th choice, later ones are the first option.
static std::vector<int> choices, widths;
static size_t nchoice;
static bool rig;

int64_t Rand::integer(long min, long max) {
	if (!rig)
		return bits() % (uint64_t) ((max + 1) - min) + min;
	MC_CHECK(max >= min, "choice", "a choice among none");
	size_t i = nchoice++;
	if (max - min == 0) {
		nchoice--;
		return min;
	}
	if (i >= choices.size()) {
		choices.push_back(0);
		widths.push_back(max - min + 1);
	} else
		widths[i] = max - min + 1;
	return min + choices[i];
}

static const double Inf = INFINITY;

// minimin is the value of the depth-limited lookahead: the least f on the
// frontier, where goals end a line of lookahead and moves are not undone.
static double minimin(const Graph &g, int v, int from, double gv, int left) {
	if (left == 0 || g.goal[v])
		return gv + g.h[v];
	double best = Inf;
	// the move that undoes the last one exists only if there is an arc back
	for (auto &a : g.adj[v])
		if (a.to != from)
			best = std::min(best, minimin(g, a.to, v, gv + a.cost, left - 1));
	return best;
}

template <class D>
static void rtaone(const char *dn, const Graph &g, int hm, int depth, unsigned maxchoice) {
	choices.clear();
	widths.clear();
	std::string ds = mc::strf("%d", depth);
	for (;;) {
		std::vector<int> given = choices;
		if (mc::begin([&] {
			std::string s = mc::strf("rtastar -d %d over %s hash=%d %s choices:", depth, dn, hm, g.str().c_str());
			for (int c : given)
				s += mc::strf(" %d", c);
			return s;
		})) {
			Args a{"x", "rtastar", "-d", ds.c_str()};
			D d(g, hashes(hm));
			d.maxexp = g.n > 100 ? 5000000 : 50000;
			nchoice = 0;
			rig = true;
			std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
			long c = runsearch<D>(*alg, d);
			rig = false;
			mc::count(nrta);
			MC_CHECK(c >= 0, "no-solution", "the agent never reached the goal");
			// replay the walk against the definition
			std::vector<double> h(g.n, -1);	// stored values
			int prev = -1;
			auto &path = alg->res.path;
			for (size_t i = path.size(); i-- > 1; ) {
				int cur = path[i].v, nxt = path[i - 1].v;
				double best = Inf, snd = Inf, fn = Inf;
				for (auto &e : g.adj[cur]) {
					double hv = h[e.to] >= 0 ? h[e.to] : minimin(g, e.to, cur, 0, depth);
					double f = hv + e.cost;
					if (e.to == nxt)
						fn = f;
					if (f < best) {
						snd = best;
						best = f;
					} else if (f < snd)
						snd = f;
				}
				MC_CHECK(fn == best, "rtastar-move", "step %zu moved from %d to %d with value %g, the best is %g",
					path.size() - 1 - i, cur, nxt, fn, best);
				h[cur] = snd;
				prev = cur;
			}
			(void) prev;
			if (path.size() > 3)
				mc::nontrivial();
		} else {
			// the widths of the choices are needed to go on
			Args a{"x", "rtastar", "-d", ds.c_str()};
			D d(g, hashes(hm));
			nchoice = 0;
			rig = true;
			std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
			typename D::State s0 = d.initialstate();
			alg->search(d, s0);
			rig = false;
		}
		if (choices.size() > nchoice) {
			choices.resize(nchoice);
			widths.resize(nchoice);
		}
		if (choices.size() > maxchoice) {
			choices.resize(maxchoice);
			widths.resize(maxchoice);
		}
		while (choices.size() && choices.back() + 1 >= widths[choices.size() - 1]) {
			choices.pop_back();
			widths.pop_back();
		}
		if (choices.empty())
			break;
		choices.back()++;
		mc::count(nchoices);
	}
}

// A reference LSS-LRTA*, for executions in which no tie has to be broken.
struct Lss {
	const Graph &g;
	unsigned lookahead;
	double wt;
	bool onestep, complete, fhat;
	bool ambiguous;
	std::vector<double> h;	// learned
	std::vector<char> gen, expd;
	std::vector<int> walk;	// states entered, in order
	std::vector<int> trace;	// first expansions, in order
	std::vector<int> steplen;
	bool solved;

	Lss(const Graph &gr, unsigned l) : g(gr), lookahead(l), wt(1), onestep(false), complete(false),
		fhat(false), ambiguous(false), h(gr.n), gen(gr.n), expd(gr.n), solved(false) { }

	bool eq(double a, double b) { return fabs(a - b) < 1e-7; }

	void expand(int v) {
		if (expd[v])
			return;
		expd[v] = 1;
		trace.push_back(v);
		for (auto &e : g.adj[v]) {
			if (!gen[e.to]) {
				gen[e.to] = 1;
				h[e.to] = g.h[e.to];
			}
			h[e.to] = std::max(h[e.to], h[v] - e.cost);
		}
	}

	// pops the best open node by f then high g
	int popbest(std::set<int> &open, const std::vector<double> &f, const std::vector<double> &gv) {
		int b = -1;
		for (int v : open)
			if (b < 0 || (eq(f[v], f[b]) ? gv[v] > gv[b] : f[v] < f[b]))
				b = v;
		for (int v : open)
			if (v != b && eq(f[v], f[b]) && eq(gv[v], gv[b]))
				ambiguous = true;
		open.erase(b);
		return b;
	}

	void run() {
		int cur = g.start;
		gen[cur] = 1;
		h[cur] = g.h[cur];
		for (int iter = 0; !g.goal[cur] && !ambiguous; iter++) {
			if (iter > 5000) {
				ambiguous = true;
				return;
			}
			std::vector<double> f(g.n, Inf), gv(g.n, Inf);
			std::vector<int> par(g.n, -1);
			std::vector<char> closed(g.n, 0);
			std::set<int> open;
			f[cur] = h[cur];
			gv[cur] = 0;
			open.insert(cur);
			int goal = -1;
			for (unsigned n = 0; n < lookahead && open.size() && !ambiguous; n++) {
				int s = popbest(open, f, gv);
				if (closed[s])
					ambiguous = true;	// reopened
				closed[s] = 1;
				expand(s);
				for (auto &e : g.adj[s]) {
					if (e.to == par[s])
						continue;
					if (gv[e.to] > gv[s] + e.cost) {
						par[e.to] = s;
						gv[e.to] = gv[s] + e.cost;
						f[e.to] = gv[e.to] + h[e.to];
						open.insert(e.to);
					}
					if (g.goal[e.to] && goal >= 0 && goal != e.to && eq(gv[goal], gv[e.to]))
						ambiguous = true;
					if (g.goal[e.to] && (goal < 0 || gv[e.to] < gv[goal]))
						goal = e.to;
				}
				if (g.goal[s]) {
					goal = s;
					break;
				}
			}
			if (ambiguous)
				return;
			if (goal < 0) {
				// learn
				for (int v : open)
					if (closed[v])
						ambiguous = true;	// reopened and still open
				std::vector<double> l(g.n, Inf);
				std::set<int> fix;
				for (int v : open)
					l[v] = h[v];
				// least fixed point by relaxation
				for (bool ch = true; ch; ) {
					ch = false;
					for (int v = 0; v < g.n; v++)
						if (closed[v] && !open.count(v))
							for (auto &e : g.adj[v])
								if (l[e.to] + wt * e.cost < l[v]) {
									l[v] = l[e.to] + wt * e.cost;
									ch = true;
								}
				}
				for (int v = 0; v < g.n; v++)
					if (closed[v] && l[v] < Inf)
						h[v] = std::max(l[v], (double) g.h[v]);
			}
			int best = goal;
			if (best < 0 && complete && open.size()) {
				double minf = Inf;
				for (int v : open)
					minf = std::min(minf, f[v]);
				for (int v = 0; v < g.n; v++) {
					if (!closed[v] || v == cur || f[v] >= minf)
						continue;
					if (best >= 0 && f[v] == f[best] && gv[v] == gv[best])
						ambiguous = true;
					if (best >= 0 && f[v] != f[best] && eq(f[v], f[best]))
						ambiguous = true;
					if (best < 0 || f[v] > f[best] || (f[v] == f[best] && gv[v] > gv[best]))
						best = v;
				}
				// expanded nodes beyond the incomplete layer
				for (int v = 0; v < g.n; v++)
					if (closed[v] && v != cur && f[v] >= minf && !eq(f[v], minf))
						ambiguous = true;
			}
			if (best < 0) {
				std::set<int> o = open;
				o.erase(cur);
				if (o.empty())
					return;	// dead end
				best = popbest(o, f, gv);
			}
			if (ambiguous)
				return;
			std::vector<int> p;
			for (int v = best; v != cur; v = par[v])
				p.push_back(v);
			if (onestep) {
				walk.push_back(p.back());
				steplen.push_back(1);
			} else {
				walk.insert(walk.end(), p.rbegin(), p.rend());
				steplen.push_back(p.size());
			}
			cur = walk.back();
		}
		solved = true;
	}
};

// A reference f-hat, for executions in which no tie has to be broken: a real-time search that orders its open
// list by f-hat = g + h + e_h d', where d' is the distance over which h errs divided by 1 - e_d, and e_h and e_d
// are the mean one-step errors of h and d seen by the previous lookahead.
struct Fhat : Lss {
	std::vector<double> d, derr, fh;
	bool endless;	// the agent walks to and fro for ever

	Fhat(const Graph &gr, unsigned l) : Lss(gr, l), d(gr.n), derr(gr.n), endless(false) { }

	bool close(double a, double b) { return a != b && fabs(a - b) < 1e-5; }

	bool better(int a, int b, const std::vector<double> &f, const std::vector<double> &gv) {
		if (close(fh[a], fh[b]) || fh[a] > 1e7)
			ambiguous = true;
		if (fh[a] != fh[b])
			return fh[a] < fh[b];
		if (close(f[a], f[b]) || gv[a] == gv[b])
			ambiguous = true;
		return f[a] != f[b] ? f[a] < f[b] : gv[a] > gv[b];
	}

	int popfh(std::set<int> &open, const std::vector<double> &f, const std::vector<double> &gv) {
		int b = -1;
		for (int v : open)
			if (b < 0 || better(v, b, f, gv))
				b = v;
		open.erase(b);
		return b;
	}

	void visit(int v) {
		if (gen[v])
			return;
		gen[v] = 1;
		h[v] = g.h[v];
		d[v] = derr[v] = g.d[v];
	}

	void run() {
		int cur = g.start;
		double eh = 0, ed = 0;
		visit(cur);
		for (int iter = 0; !g.goal[cur] && !ambiguous; iter++) {
			if (iter > 2000) {
				endless = true;
				return;
			}
			std::vector<double> f(g.n, Inf), gv(g.n, Inf);
			fh.assign(g.n, Inf);
			std::vector<int> par(g.n, -1);
			std::vector<char> closed(g.n, 0);
			std::set<int> open;
			fh[cur] = f[cur] = h[cur];
			gv[cur] = 0;
			open.insert(cur);
			int goal = -1;
			double ehnext = 0, ednext = 0;
			for (unsigned n = 0; n < lookahead && open.size() && !ambiguous; n++) {
				int s = popfh(open, f, gv), kid = -1;
				closed[s] = 1;
				for (auto &e : g.adj[s])
					visit(e.to);
				expand(s);
				for (auto &e : g.adj[s]) {
					int k = e.to;
					if (k == par[s])
						continue;
					if (gv[k] > gv[s] + e.cost) {
						par[k] = s;
						gv[k] = gv[s] + e.cost;
						f[k] = gv[k] + h[k];
						fh[k] = f[k] + eh * derr[k] / (1 - ed);
						open.insert(k);
					}
					if (g.goal[k] && goal >= 0 && goal != k && eq(gv[goal], gv[k]))
						ambiguous = true;
					if (g.goal[k] && (goal < 0 || gv[k] < gv[goal]))
						goal = k;
					if (kid >= 0 && close(f[k], f[kid]))
						ambiguous = true;
					if (kid >= 0 && f[k] == f[kid] && d[k] != d[kid])
						ambiguous = true;
					if (kid < 0 || f[k] < f[kid])
						kid = k;
				}
				if (kid >= 0) {
					ehnext += (std::max(0.0, f[kid] - f[s]) - ehnext) / (n + 2);
					double e = std::min(1 - 1e-8, std::max(0.0, d[kid] + 1 - d[s]));
					ednext += (e - ednext) / (n + 2);
				}
				if (g.goal[s]) {
					goal = s;
					break;
				}
			}
			if (ambiguous)
				return;
			eh = ehnext;
			ed = ednext;
			if (goal < 0) {
				for (int v : open)
					if (closed[v])
						ambiguous = true;	// reopened and still open
				std::vector<double> l(g.n, Inf);
				std::vector<int> from(g.n, -1);
				for (int v : open)
					l[v] = h[v];
				for (bool ch = true; ch; ) {
					ch = false;
					for (int v = 0; v < g.n; v++)
						if (closed[v] && !open.count(v))
							for (auto &e : g.adj[v])
								if (l[e.to] + e.cost < l[v] && (closed[e.to] || open.count(e.to))) {
									l[v] = l[e.to] + e.cost;
									from[v] = e.to;
									ch = true;
								}
				}
				for (int v = 0; v < g.n; v++)
					for (auto &e : g.adj[v])
						if (closed[v] && !open.count(v) && l[v] < Inf && e.to != from[v] && eq(l[v], l[e.to] + e.cost))
							ambiguous = true;
				for (int v = 0; v < g.n; v++)
					if (closed[v] && !open.count(v) && l[v] < Inf) {
						int x = v, k = 0;
						while (from[x] >= 0) {
							x = from[x];
							k++;
						}
						h[v] = std::max(l[v], (double) g.h[v]);
						derr[v] = derr[x];
						d[v] = d[x] + k;
					}
			}
			int best = goal;
			if (best < 0) {
				std::set<int> o = open;
				o.erase(cur);
				if (o.empty())
					return;	// dead end
				best = popfh(o, f, gv);
			}
			if (ambiguous)
				return;
			std::vector<int> p;
			for (int v = best; v != cur; v = par[v])
				p.push_back(v);
			if (onestep) {
				walk.push_back(p.back());
				steplen.push_back(1);
			} else {
				walk.insert(walk.end(), p.rbegin(), p.rend());
				steplen.push_back(p.size());
			}
			cur = walk.back();
		}
		solved = true;
	}
};

// same compares a run with the reference's.
template <class D>
static void same(SearchAlgorithm<D> &alg, const D &d, long c, const Lss &ref, unsigned long steps, const std::string &out, int nok, int namb) {
	std::string v;
	if (ref.ambiguous) {
		mc::count(namb);
		return;
	}
	mc::count(nok);
	if (ref.g.n > 100)
		mc::count(nlarge);
	if (ref.walk.size() > 2)
		mc::nontrivial();
	MC_CHECK(ref.solved == (c >= 0), "solved", "%s, but the reference %s", c >= 0 ? "solved" : "not solved",
		ref.solved ? "solves it" : "does not");
	auto seq = [](const std::vector<int> &v) {
		std::string s;
		for (int x : v)
			s += mc::strf(" %d", x);
		return s;
	};
	MC_CHECK(d.trace == ref.trace, "lss-expansions", "expanded%s, but the reference expands%s",
		seq(d.trace).c_str(), seq(ref.trace).c_str());
	if (c < 0)
		return;
	std::vector<int> w;
	for (size_t i = alg.res.path.size() - 1; i-- > 0; )
		w.push_back(alg.res.path[i].v);
	MC_CHECK(w == ref.walk, "lss-moves", "moved through%s, but the reference moves through%s",
		seq(w).c_str(), seq(ref.walk).c_str());
	MC_CHECK(steps == ref.steplen.size(), "steps", "%lu steps, not %zu", steps, ref.steplen.size());
	if (steps > 0) {
		MC_CHECK(dfvalue(out, "max step length", v) && atoi(v.c_str()) ==
			*std::max_element(ref.steplen.begin(), ref.steplen.end()), "steps", "max step length is reported as %s", v.c_str());
		MC_CHECK(dfvalue(out, "min step length", v) && atoi(v.c_str()) ==
			*std::min_element(ref.steplen.begin(), ref.steplen.end()), "steps", "min step length is reported as %s", v.c_str());
	}
}

// walltime is read once when the search starts and once after each move, so
// the harness sees how much each planning episode expanded.
template <class D>
static void lssone(const char *dn, const Graph &g, int hm, unsigned look, int variant) {
	static const char *vn[] = { "", "-onestep", "-wt 2", "-complete" };
	if (!mc::begin([&] { return mc::strf("lsslrtastar2 -lookahead %u %s over %s hash=%d %s", look,
			vn[variant], dn, hm, g.str().c_str()); }))
		return;
	std::string ls = mc::strf("%u", look);
	Args a{"x", "lsslrtastar2", "-lookahead", ls.c_str()};
	Lss ref(g, look);
	if (variant == 1) { a.v.push_back("-onestep"); ref.onestep = true; }
	if (variant == 2) { a.v.push_back("-wt"); a.v.push_back("2"); ref.wt = 2; }
	if (variant == 3) { a.v.push_back("-complete"); ref.complete = true; }
	ref.run();
	D d(g, hashes(hm));
	d.maxexp = g.n > 100 ? 5000000 : 50000;
	d.tracing = true;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	long c = runsearch<D>(*alg, d);
	Capture cap;
	alg->output(stdout);
	std::string out = cap.text(), v;
	cap.stop();
	MC_CHECK(dfvalue(out, "num steps", v), "output", "no number of steps");
	unsigned long steps = strtoul(v.c_str(), NULL, 10);
	MC_CHECK(d.nexp <= (steps + 1) * look, "lookahead", "%lu expansions in %lu steps with lookahead %u",
		(unsigned long) d.nexp, steps, look);
	if (variant == 1 && c >= 0)
		MC_CHECK(steps == alg->res.ops.size(), "onestep", "%lu steps for %zu moves", steps, alg->res.ops.size());
	if (c >= 0 && (int) look > g.n * 3 && variant != 2 && g.consistent()) {
		mc::count(nopts);
		MC_CHECK(c == g.dist[g.start], "optimal", "cost %ld with the whole space in the lookahead, optimal is %d",
			c, g.dist[g.start]);
	}
	same<D>(*alg, d, c, ref, steps, out, nlss, nambig);
}

template <class D>
static void fhatone(const char *dn, const Graph &g, int hm, unsigned look, bool onestep) {
	if (!mc::begin([&] { return mc::strf("fhatlrtastar -lookahead %u %s over %s hash=%d %s", look,
			onestep ? "-onestep" : "", dn, hm, g.str().c_str()); }))
		return;
	std::string ls = mc::strf("%u", look);
	Args a{"x", "fhatlrtastar", "-lookahead", ls.c_str()};
	if (onestep)
		a.v.push_back("-onestep");
	Fhat ref(g, look);
	ref.onestep = onestep;
	ref.run();
	if (ref.endless)	// (C05 reports it)
		return;
	D d(g, hashes(hm));
	d.maxexp = g.n > 100 ? 5000000 : 50000;
	d.tracing = true;
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	mcticks = 200000;
	long c = runsearch<D>(*alg, d);
	mcticks = -1;
	Capture cap;
	alg->output(stdout);
	std::string out = cap.text(), v;
	cap.stop();
	MC_CHECK(dfvalue(out, "num steps", v), "output", "no number of steps");
	unsigned long steps = strtoul(v.c_str(), NULL, 10);
	MC_CHECK(d.nexp <= (steps + 1) * look, "lookahead", "%lu expansions in %lu steps with lookahead %u",
		(unsigned long) d.nexp, steps, look);
	if (onestep && c >= 0)
		MC_CHECK(steps == alg->res.ops.size(), "onestep", "%lu steps for %zu moves", steps, alg->res.ops.size());
	if (c >= 0 && steps == 1 && !onestep) {
		// one planning episode: with perfect estimates there is no
		// error to correct, so the plan is optimal
		bool perfect = true;
		for (int i = 0; i < g.n; i++)
			perfect = perfect && (g.dist[i] >= GInf || (g.h[i] == g.dist[i] && g.d[i] == g.steps[i]));
		if (perfect && (int) look > g.n * 3)
			MC_CHECK(c == g.dist[g.start], "optimal", "cost %ld, optimal is %d", c, g.dist[g.start]);
	}
	same<D>(*alg, d, c, ref, steps, out, nfhat, nfhamb);
}

// generic perturbs the costs so that different paths hardly ever tie.
static void generic(Graph &g, int unit = 128) {
	static const int off[] = { 0, 3, 11, 26, 57, 5, 91, 38, 19, 70, 47, 83, 29, 64, 7, 97 };
	int k = 0;
	for (int i = 0; i < g.n; i++)
		for (auto &a : g.adj[i]) {
			// the same for both directions
			int lo = std::min(i, a.to), hi = std::max(i, a.to);
			k = lo * g.n + hi;
			a.cost = a.cost * unit + off[k % 16] + k / 16;
		}
	g.solve();
}

void mc_setup() {
	nrta = mc::counter("RTA* walks checked move by move");
	nchoices = mc::counter("alternative tie-breaking choices explored");
	nlss = mc::counter("LSS-LRTA* runs equal to the reference");
	nambig = mc::counter("LSS-LRTA* runs with ties, compared only for lookahead and optimality");
	nopts = mc::counter("runs with the whole space in the lookahead");
	nfhat = mc::counter("f-hat runs equal to the reference");
	nlarge = mc::counter("runs equal to the reference on graphs of more than 100 vertices");
	nfhamb = mc::counter("f-hat runs with ties, compared only for lookahead and optimality");

#ifdef DOM_A
	mc::suite("rta4", "RTA* -d 0..3 on every undirected graph on 4 vertices, costs {-,1,3}, consistent h in {0,h*/2,h*}, first 5 tie-breaks enumerated", 243,
		[](uint64_t c) {
			ugraphs(4, 8, {1, 3}, false, c, 243, [&](Graph &g) {
				sdist(g);
				if (g.dist[0] >= GInf)
					return;
				heuristics(g, 3, [&](Graph &g) {
					if (!g.consistent())
						return;
					for (int d = 0; d < 4; d++)
						rtaone<GD<int>>("int", g, d & 1, d, mc::thorough ? 8 : 5);
				});
			});
		});
	mc::suite("rtapath", "RTA* -d 60..300 on a path of 320 vertices", 4,
		[](uint64_t c) {
			Graph g;
			g.init(320);
			g.goal[319] = 1;
			for (int i = 0; i < 319; i++) {
				g.arc(i, i + 1, 1 + i % 3);
				g.arc(i + 1, i, 1 + i % 3);
			}
			g.solve();
			sdist(g);
			static const int ds[] = { 60, 130, 260, 300 };
			rtaone<GD<int>>("int", g, 0, ds[c], 3);
		});
	mc::suite("rta5", "RTA* -d 0..2 on undirected graphs on 5 vertices, costs {-,1,2}, h=0 (thorough: {0,h*}), first 4 tie-breaks enumerated", 256,
		[](uint64_t c) {
			ugraphs(5, 16, {1, 2}, true, c, 256, [&](Graph &g) {
				sdist(g);
				if (g.dist[0] >= GInf)
					return;
				heuristics(g, mc::thorough ? 2 : 1, [&](Graph &g) {
					if (!g.consistent())
						return;
					for (int d = 0; d < 3; d++)
						rtaone<GD<double, true>>("double,inplace", g, 0, d, mc::thorough ? 6 : 4);
				});
			});
		});
#endif
#ifdef DOM_B
	mc::suite("lss5", "LSS-LRTA* and f-hat, lookaheads 1..4 and 40, all variants, on every undirected graph on 5 vertices with generic costs, h=h*/2 (thorough: every h in {0,h*})", 512,
		[](uint64_t c) {
			ugraphs(5, 16, {1, 4}, false, c, 512, [&](Graph &g) {
				if (g.dist[0] >= GInf)
					return;
				generic(g);
				sdist(g);
				auto f = [&](Graph &g) {
					for (unsigned l : {1, 2, 3, 4, 40})
						for (int v = 0; v < 4; v++)
							if (mc::thorough || l < 4 || v == 0)
								lssone<GD<double>>("double", g, l & 1, l, v);
					for (unsigned l : {2, 40})
						for (int v = 0; v < 2; v++)
							fhatone<GD<double>>("double", g, l & 1, l, v);
				};
				if (mc::thorough)
					heuristics(g, 2, f);
				else {
					for (int k = 1; k < 2; k++) {
						for (int i = 0; i < g.n; i++)
							g.h[i] = g.goal[i] || g.dist[i] >= GInf ? 0 : g.dist[i] * k / 2;
						f(g);
					}
				}
			});
		});
	mc::suite("lss6line", "LSS-LRTA* on every 6-vertex graph made of a path and extra edges, generic costs", 128,
		[](uint64_t c) {
			// path 0-1-..-5 with every subset of the other 10 edges
			std::vector<std::pair<int,int>> es;
			for (int i = 0; i < 6; i++)
				for (int j = i + 2; j < 6; j++)
					es.push_back({i, j});
			for (unsigned m = c; m < 1u << es.size(); m += 128) {
				Graph g;
				g.init(6);
				g.goal[5] = 1;
				for (int i = 0; i < 5; i++) { g.arc(i, i + 1, 3); g.arc(i + 1, i, 3); }
				for (size_t k = 0; k < es.size(); k++)
					if (m >> k & 1) {
						g.arc(es[k].first, es[k].second, 2 * (es[k].second - es[k].first));
						g.arc(es[k].second, es[k].first, 2 * (es[k].second - es[k].first));
					}
				generic(g);
				sdist(g);
				for (int k = 0; k < 3; k++) {
					for (int i = 0; i < g.n; i++)
						g.h[i] = g.dist[i] * k / 2;
					for (unsigned l : {1, 2, 3, 5, 40})
						for (int v = 0; v < 4; v++)
							lssone<GD<double, true>>("double,inplace", g, 0, l, v);
					for (unsigned l : {1, 2, 3, 5, 40})
						for (int v = 0; v < 2; v++)
							fhatone<GD<double, true>>("double,inplace", g, 0, l, v);
				}
			}
		});
	mc::suite("lssdig4", "LSS-LRTA* on digraphs on 4 vertices with generic costs in which the goal stays reachable, and dead ends", 243,
		[](uint64_t c) {
			digraphs(4, 8, {1, 5}, true, c, 243, [&](Graph &g) {
				if (!g.safe() && !(g.dist[0] >= GInf && g.acyclic()))
					return;
				generic(g);
				sdist(g);
				for (int k = 0; k < 3; k++) {
					for (int i = 0; i < g.n; i++)
						g.h[i] = g.goal[i] || g.dist[i] >= GInf ? 0 : g.dist[i] * k / 2;
					for (unsigned l : {1, 2, 3})
						for (int v = 0; v < 4; v++) {
							lssone<GD<double>>("double", g, 0, l, v);
							if (v < 2)
								fhatone<GD<double>>("double", g, 0, l, v);
						}
				}
			});
		});
	mc::suite("scale", "LSS-LRTA* and f-hat, lookaheads 100, 300 and 2000, on fans of 150 and 400 leaves and chains of 300 vertices, generic costs", 72,
		[](uint64_t c) {
			scale(true, c, 72, [&](Graph &g0) {
				if (g0.dist[g0.start] >= GInf)
					return;
				Graph g = g0;
				generic(g, 1024);
				for (int i = 0; i < g.n; i++)
					if (g0.h[i])
						g.h[i] = g0.dist[i] >= GInf ? 0 : (long) g.dist[i] * g0.h[i] / (g0.dist[i] + 1);
				for (unsigned l : { 100, 300, 2000 })
					for (int v = 0; v < 4; v++) {
						if (v == 1 && l > 100)
							continue;
						lssone<GD<double>>("double", g, 0, l, v);
						if (v == 0)
							fhatone<GD<double>>("double", g, 0, l, v);
					}
			});
		});
	mc::suite("corridor", "LSS-LRTA* and f-hat, lookaheads 120, 300 and 400, on corridors of 500 vertices with the goal at one end, from 6 starts", 36,
		[](uint64_t c) {
			Graph g;
			g.init(500);
			g.start = 60 + c % 6 * 75;
			g.goal[499] = 1;
			for (int i = 0; i < 499; i++) {	// the way back is cheaper
				int x = 100 + (i * i + 3 * i * (int) (c / 6)) % 89 + (i > g.start ? 20 * (int) (c / 6) : 0);
				g.arc(i, i + 1, x);
				g.arc(i + 1, i, x);
			}
			g.solve();
			sdist(g);
			for (int i = 0; i < g.n; i++)
				g.h[i] = c / 6 == 5 ? g.dist[i] / 3 : 0;
			for (unsigned l : { 120, 300, 400 })
				for (int v = 0; v < 4; v++) {
					if (v == 1)
						continue;
					lssone<GD<double>>("double", g, 0, l, v);
					if (v == 0)
						fhatone<GD<double>>("double", g, 0, l, v);
				}
		});
	mc::suite("medium", "LSS-LRTA* and f-hat, lookaheads 2, 5 and 12, all variants, on undirected rings, combs, diamonds and grids of 15 to 60 vertices, generic costs", 128,
		[](uint64_t c) {
			medium(true, c, 128, [&](Graph &g0) {
				if (g0.dist[g0.start] >= GInf)
					return;
				Graph g = g0;
				generic(g, 1024);
				for (int i = 0; i < g.n; i++)	// the same fraction of h*
					if (g0.h[i])
						g.h[i] = g0.dist[i] >= GInf ? 0 : (long) g.dist[i] * g0.h[i] / (g0.dist[i] + 1);
				for (unsigned l : { 2, 5, 12 })
					for (int v = 0; v < 4; v++) {
						lssone<GD<double>>("double", g, 0, l, v);
						if (v == 0 || (v == 1 && l == 5))
							fhatone<GD<double>>("double", g, 0, l, v);
					}
			});
		});
#endif
}
MC_MAIN
