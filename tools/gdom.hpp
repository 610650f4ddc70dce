// gdom.hpp: a tiny explicit graph domain for demonstrations.
#pragma once
#include "search/main.hpp"
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>

template <class C> struct Gdom {
	typedef C Cost;
	typedef int Oper;
	enum { Nop = -1 };
	struct Arc { int from, to; double cost; };
	std::vector<std::vector<Arc> > adj;
	std::vector<double> hs, ds;
	std::vector<int> goals;
	unsigned long hashmul;
	std::vector<int> trace;	// expanded states

	Gdom(std::initializer_list<double> h, std::initializer_list<Arc> arcs, std::initializer_list<int> gs) :
			adj(h.size()), hs(h), ds(h), goals(h.size(), 0), hashmul(1) {
		for (auto &a : arcs) adj[a.from].push_back(a);
		for (int g : gs) goals[g] = 1;
	}
	Gdom(int n) : adj(n), hs(n, 0), ds(n, 0), goals(n, 0), hashmul(1) { }
	void arc(int a, int b, double c) { adj[a].push_back(Arc{a, b, c}); }
	void edge(int a, int b, double c) { arc(a, b, c); arc(b, a, c); }

	struct State { int v; };
	struct PackedState {
		int v;
		unsigned long hash(Gdom *d) const { return v * d->hashmul; }
		bool eq(const Gdom *, const PackedState &o) const { return v == o.v; }
	};
	State initialstate() const { State s; s.v = 0; return s; }
	Cost h(const State &s) const { return Cost(hs[s.v]); }
	Cost d(const State &s) const { return Cost(ds[s.v]); }
	bool isgoal(const State &s) const { return goals[s.v]; }
	struct Operators {
		const Gdom &d; int v;
		Operators(Gdom &dd, const State &s) : d(dd), v(s.v) { dd.trace.push_back(v); }
		unsigned int size() const { return d.adj[v].size(); }
		Oper operator[](unsigned int i) const { return d.adj[v][i].to; }
	};
	struct Edge {
		Cost cost; Oper revop; Cost revcost; State state;
		Edge(Gdom &d, State &s, Oper op) : revop(Nop), revcost(-1) {
			for (auto &a : d.adj[s.v])
				if (a.to == op) cost = Cost(a.cost);
			for (auto &a : d.adj[op])
				if (a.to == s.v) { revop = s.v; revcost = Cost(a.cost); }
			state.v = op;
		}
	};
	void pack(PackedState &dst, State &src) { dst.v = src.v; }
	State &unpack(State &buf, PackedState &p) { buf.v = p.v; return buf; }
	Cost pathcost(const std::vector<State>&, const std::vector<Oper>&) { return Cost(0); }
	static void dumpstate(FILE *, State &) { }

	// cost checks a path and returns its cost, -1 if there is none, -2 if it is broken.
	double cost(const std::vector<State> &p, const std::vector<Oper> &ops) const {
		if (p.empty()) return -1;
		if (p.back().v != 0 || !goals[p[0].v] || ops.size() + 1 != p.size()) return -2;
		double c = 0;
		for (size_t i = ops.size(); i-- > 0; ) {
			double ec = -1;
			for (auto &a : adj[p[i+1].v])
				if (a.to == ops[i] && a.to == p[i].v) ec = a.cost;
			if (ec < 0) return -2;
			c += ec;
		}
		return c;
	}
};

// Gidx is the same, with the index of the arc in its state as the operator.
template <class C> struct Gidx : public Gdom<C> {
	using Gdom<C>::Gdom;
	typedef typename Gdom<C>::State State;
	typedef C Cost;
	struct Operators {
		const Gidx &d; int v;
		Operators(Gidx &dd, const State &s) : d(dd), v(s.v) { dd.trace.push_back(v); }
		unsigned int size() const { return d.adj[v].size(); }
		int operator[](unsigned int i) const { return i; }
	};
	struct Edge {
		Cost cost; int revop; Cost revcost; State state;
		Edge(Gidx &d, State &s, int op) : revop(-1), revcost(-1) {
			cost = Cost(d.adj[s.v].at(op).cost);
			state.v = d.adj[s.v].at(op).to;
			for (size_t i = 0; i < d.adj[state.v].size(); i++)
				if (d.adj[state.v][i].to == s.v) { revop = i; revcost = Cost(d.adj[state.v][i].cost); }
		}
	};
	struct PackedState {
		int v;
		unsigned long hash(Gidx *d) const { return v * d->hashmul; }
		bool eq(const Gidx *, const PackedState &o) const { return v == o.v; }
	};
	void pack(PackedState &dst, State &src) { dst.v = src.v; }
	State &unpack(State &buf, PackedState &p) { buf.v = p.v; return buf; }
	double cost(const std::vector<State> &p, const std::vector<int> &ops) const {
		if (p.empty()) return -1;
		if (p.back().v != 0 || !this->goals[p[0].v] || ops.size() + 1 != p.size()) return -2;
		double c = 0;
		for (size_t i = ops.size(); i-- > 0; ) {
			auto &a = this->adj[p[i+1].v];
			if (ops[i] < 0 || ops[i] >= (int) a.size() || a[ops[i]].to != p[i].v) return -2;
			c += a[ops[i]].cost;
		}
		return c;
	}
};

template <class D> static SearchAlgorithm<D> *demoalg(std::vector<const char*> a) {
	a.insert(a.begin(), "demo");
	int n = a.size();
	a.push_back(NULL);
	const char **v = new const char*[n + 1];
	for (int i = 0; i <= n; i++) v[i] = a[i];
	return getsearch<D>(n, v);
}

#define EXPECT(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
