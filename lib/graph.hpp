// graph.hpp: an explicit-state search domain, used to run the real search
// algorithms on every graph of a bounded family, plus an independent oracle.
#pragma once
#include <vector>
#include <string>
#include <cstdio>
#include <cstdint>
#include <limits>
#include <algorithm>
#include "mc.hpp"

enum { GInf = 1000000000 };

// Graph is the plain description of a problem.
struct Graph {
	enum { Max = 512 };
	struct Arc { int to, cost; };

	int n, start;
	std::vector<std::vector<Arc>> adj;
	std::vector<int> h, d;
	std::vector<char> goal;

	// dist[v] is the true cost to the nearest goal.
	std::vector<int> dist, steps;

	void init(int nn) {
		n = nn;
		start = 0;
		adj.resize(n);
		for (int i = 0; i < n; i++)
			adj[i].clear();
		h.assign(n, 0);
		d.assign(n, 0);
		goal.assign(n, 0);
	}

	void arc(int a, int b, int c) { adj[a].push_back(Arc{b, c}); }

	// solve computes distances to go by Bellman-Ford, independently of
	// anything in the code under test.
	void solve() {
		dist.assign(n, GInf);
		steps.assign(n, GInf);
		for (int i = 0; i < n; i++)
			if (goal[i])
				dist[i] = steps[i] = 0;
		for (bool ch = true; ch; ) {
			ch = false;
			for (int i = 0; i < n; i++)
				for (auto &a : adj[i]) {
					if (dist[a.to] < GInf && dist[a.to] + a.cost < dist[i]) {
						dist[i] = dist[a.to] + a.cost;
						ch = true;
					}
					if (steps[a.to] < GInf && steps[a.to] + 1 < steps[i]) {
						steps[i] = steps[a.to] + 1;
						ch = true;
					}
				}
		}
	}

	// consistent reports whether h is consistent.
	bool consistent() const {
		for (int i = 0; i < n; i++) {
			if (goal[i] && h[i] != 0)
				return false;
			for (auto &a : adj[i])
				if (h[i] > a.cost + h[a.to])
					return false;
		}
		return true;
	}

	bool admissible() const {
		for (int i = 0; i < n; i++)
			if (h[i] > dist[i])
				return false;
		return true;
	}

	std::vector<char> reachable() const {
		std::vector<char> r(n, 0);
		std::vector<int> st(1, start);
		r[start] = 1;
		while (st.size()) {
			int v = st.back();
			st.pop_back();
			for (auto &a : adj[v])
				if (!r[a.to]) {
					r[a.to] = 1;
					st.push_back(a.to);
				}
		}
		return r;
	}

	// safe: a goal is reachable from every reachable state.
	bool safe() const {
		auto r = reachable();
		for (int i = 0; i < n; i++)
			if (r[i] && dist[i] >= GInf)
				return false;
		return true;
	}

	// reversible: every arc leaving a non-goal vertex has a reverse arc
	// (or leads to a goal).
	bool reversible() const {
		for (int i = 0; i < n; i++)
			for (auto &a : adj[i]) {
				bool ok = goal[i] || goal[a.to];
				for (auto &b : adj[a.to])
					ok = ok || b.to == i;
				if (!ok)
					return false;
			}
		return true;
	}

	// acyclic: the part reachable without passing through a goal has no cycle.
	bool acyclic() const {
		std::vector<int> col(n, 0);
		return !dfscycle(start, col);
	}

	bool dfscycle(int v, std::vector<int> &col) const {
		col[v] = 1;
		for (auto &a : adj[v]) {
			if (col[a.to] == 1)
				return true;
			if (col[a.to] == 0 && dfscycle(a.to, col))
				return true;
		}
		col[v] = 2;
		return false;
	}

	std::string str() const {
		std::string s = mc::strf("n=%d start=%d goals={", n, start);
		for (int i = 0; i < n; i++)
			if (goal[i])
				s += mc::strf("%d ", i);
		s += "} arcs:";
		for (int i = 0; i < n; i++)
			for (auto &a : adj[i])
				s += mc::strf(" %d->%d:%d", i, a.to, a.cost);
		s += " h=";
		for (int i = 0; i < n; i++)
			s += mc::strf("%d,", h[i]);
		s += " d=";
		for (int i = 0; i < n; i++)
			s += mc::strf("%d,", d[i]);
		return s;
	}
};

// GD is a search domain over a Graph.  C is the cost type.  When InPlace,
// applying an operator modifies the given state and is undone when the edge
// is destructed, as the tiles domains do.
template <class C, bool InPlace = false> struct GD {
	typedef C Cost;
	typedef int Oper;
	enum { Nop = -1 };

	const Graph *g;
	const uint64_t *hashtab;	// hash of each vertex
	uint64_t magic;
	// byindex: operators are the indices of the arcs, so that an operator
	// means something else in each state; otherwise they are the vertices
	// that the arcs lead to.
	bool byindex;

	// instrumentation
	uint64_t nexp, ngen, maxexp;
	bool tracing;
	std::vector<int> trace;	// vertices in order of expansion
	std::vector<int> goaltests;
	std::vector<int> gens;	// vertices in order of generation
	void (*onexpand)(GD*);

	GD(const Graph &gr, const uint64_t *ht) : g(&gr), hashtab(ht), magic(0x5eed), byindex(ht[0] != ht[2]),
		nexp(0), ngen(0), maxexp(1000000), tracing(false), onexpand(NULL) { }

	struct State {
		int v;
		State() : v(-7) { }
		explicit State(int vv) : v(vv) { }
	};

	struct PackedState {
		int v;
		PackedState() : v(-9) { }
		unsigned long hash(GD *d) const {
			if (d->magic != 0x5eed)
				mc::fail("domain-pointer", "hash called with a pointer that is not the domain");
			return d->hashtab[v];
		}
		bool eq(const GD *d, const PackedState &o) const {
			if (d->magic != 0x5eed)
				mc::fail("domain-pointer", "eq called with a pointer that is not the domain");
			return v == o.v;
		}
	};

	State initialstate() const { return State(g->start); }

	Cost h(const State &s) const { chk(s); return Cost(g->h[s.v]); }
	Cost d(const State &s) const { chk(s); return Cost(g->d[s.v]); }
	bool isgoal(const State &s) { chk(s); if (tracing) goaltests.push_back(s.v); return g->goal[s.v]; }

	void chk(const State &s) const {
		if (s.v < 0 || s.v >= g->n)
			mc::fail("bad-state", "a state (%d) that the domain never produced was used", s.v);
	}

	struct Operators {
		GD *d;
		int v;
		Operators(GD &dd, const State &s) : d(&dd), v(s.v) {
			d->chk(s);
			d->nexp++;
			if (d->nexp > d->maxexp)
				mc::fail("nontermination", "%llu expansions and still running",
					(unsigned long long) d->nexp);
			if (d->tracing)
				d->trace.push_back(v);
			if (d->onexpand)
				d->onexpand(d);
		}
		unsigned int size() const { return d->g->adj[v].size(); }
		Oper operator[](unsigned int i) const {
			return d->byindex ? (Oper) i : d->g->adj[v][i].to;
		}
	};

	struct EdgeOut {
		Cost cost;
		Oper revop;
		Cost revcost;
		State state;
		EdgeOut(GD &d, State &s, Oper op) : revop(Nop), revcost(-1) {
			state = State(d.apply(s, op, cost, revop, revcost));
		}
	};

	struct EdgeIn {
		Cost cost;
		Oper revop;
		Cost revcost;
		State &state;
		int old;
		EdgeIn(GD &d, State &s, Oper op) : revop(Nop), revcost(-1), state(s), old(s.v) {
			state.v = d.apply(s, op, cost, revop, revcost);
		}
		~EdgeIn() { state.v = old; }
	};

	typedef typename std::conditional<InPlace, EdgeIn, EdgeOut>::type Edge;

	// target gives the vertex that an operator leads to, -1 if there is none.
	static int target(const Graph &g, int v, Oper op, bool byindex, int &cost) {
		for (size_t i = 0; i < g.adj[v].size(); i++) {
			auto &a = g.adj[v][i];
			if ((byindex ? (int) i : a.to) == op) {
				cost = a.cost;
				return a.to;
			}
		}
		return -1;
	}

	// apply returns the vertex that the operator leads to.
	int apply(State &s, Oper op, Cost &cost, Oper &revop, Cost &revcost) {
		chk(s);
		ngen++;
		int c = 0, t = target(*g, s.v, op, byindex, c);
		if (t < 0)
			mc::fail("bad-operator", "operator %d applied in state %d where it is not applicable", op, s.v);
		if (tracing)
			gens.push_back(t);
		cost = Cost(c);
		for (size_t i = 0; i < g->adj[t].size(); i++)
			if (g->adj[t][i].to == s.v) {
				revop = byindex ? (int) i : s.v;
				revcost = Cost(g->adj[t][i].cost);
				break;
			}
		return t;
	}

	void pack(PackedState &dst, State &src) { chk(src); dst.v = src.v; }

	State &unpack(State &buf, PackedState &pkd) {
		buf.v = pkd.v;
		return buf;
	}

	Cost pathcost(const std::vector<State> &, const std::vector<Oper> &) { return Cost(0); }

	static void dumpstate(FILE *, State &) { }
};

// checkpath verifies that path and ops are a real solution and returns its
// cost.  path[0] is the goal, path.back() the start.
template <class D>
long checkpath(const D &d, const std::vector<typename D::State> &path,
		const std::vector<typename D::Oper> &ops) {
	const Graph &g = *d.g;
	if (path.size() == 0) {
		MC_CHECK(ops.size() == 0, "path", "no path but %zu operators", ops.size());
		return -1;
	}
	MC_CHECK(ops.size() + 1 == path.size(), "path", "%zu states but %zu operators", path.size(), ops.size());
	MC_CHECK(path.back().v == g.start, "path", "path starts in %d", path.back().v);
	MC_CHECK(path[0].v >= 0 && path[0].v < g.n && g.goal[path[0].v], "path",
		"path ends in %d, not a goal", path[0].v);
	long c = 0;
	for (size_t i = ops.size(); i-- > 0; ) {
		int s = path[i + 1].v, t = path[i].v;
		int ec = -1, to = D::target(g, s, ops[i], d.byindex, ec);
		MC_CHECK(to >= 0, "path", "operator %d not applicable in %d", (int) ops[i], s);
		MC_CHECK(t == to, "path", "operator %d leads from %d to %d but next state is %d", (int) ops[i], s, to, t);
		c += ec;
	}
	return c;
}

// fill new memory with a pattern, so that code that reads fields it never
// initialised is caught deterministically.
#ifdef MC_POISON
#include <new>
#include <cstdlib>
static int mcpoison = 0xA5;
void *operator new(size_t n) {
	void *p = malloc(n);
	if (!p)
		throw std::bad_alloc();
	memset(p, mcpoison, n < 4096 ? n : 4096);
	return p;
}
void *operator new[](size_t n) {
	void *p = malloc(n);
	if (!p)
		throw std::bad_alloc();
	memset(p, mcpoison, n < 200000 ? n : 200000);
	return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
