// domain.hpp: explores the states of a real search domain through the
// interface that the searches use, in lock step with a reference model.
#pragma once
#include "mc.hpp"
#include <cassert>
#include <fstream>
#include <iostream>
#include <sstream>
#include "search/main.hpp"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include <queue>
#include <string>
#include <unordered_map>
#include <vector>

// Fatal errors of the domain must not happen on well-formed instances. When
// fatalok is set they are thrown instead.
struct Fatal { std::string msg; };
static bool fatalok;

__attribute__((noreturn)) static void onfatal(const char *fmt, va_list ap) {
	char buf[1024];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	if (fatalok)
		throw Fatal{buf};
	mc::fail("fatal", "fatal error: %s", buf);
}

void fatal(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}

void fatalx(int, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}

// memfile gives a stream to read the text from.
struct Memfile {
	FILE *f;
	std::string text;
	Memfile(const std::string &t) : text(t) { f = fmemopen((void*) text.data(), text.size() ? text.size() : 1, "r"); }
	~Memfile() { fclose(f); }
	operator FILE*() { return f; }
};

// dumped gives what a printing function writes.
template <class F> static std::string dumped(const F &fn) {
	static FILE *f;
	static char *buf;
	static size_t sz;
	if (!f)
		f = open_memstream(&buf, &sz);
	fseek(f, 0, SEEK_SET);
	fn(f);
	fflush(f);
	return std::string(buf, ftell(f));
}

struct Next {
	std::string key;
	double cost;
	bool operator<(const Next &o) const { return key != o.key ? key < o.key : cost < o.cost; }
};

static inline bool near(double a, double b, double tol = 1e-5) {
	if (a == b)
		return true;
	return fabs(a - b) <= tol * (1 + std::max(fabs(a), fabs(b)));
}

// Model is the reference for a domain; states are named by keys.
template <class D> struct Model {
	virtual ~Model() { }
	virtual std::string key(D&, typename D::State&) = 0;	// from the real state
	virtual std::string start() = 0;
	virtual std::vector<Next> succ(const std::string&) = 0;
	virtual bool goal(const std::string&) = 0;
	// h and d give the estimates the domain defines, NAN if only admissibility is required.
	virtual double h(const std::string&) { return NAN; }
	virtual double d(const std::string&) { return NAN; }
	// may reversing an operator of state a give state b?
	virtual bool reversed(const std::string &a, const std::string &b) { return a == b; }
	bool admissible, dadmissible, complete, consistent;
	bool dups;	// may the domain have several operators to the same state?
	Model() : admissible(true), dadmissible(false), complete(true), consistent(false), dups(false) { }
};

// noop: operator == on the operators
template <class D, class O> static bool isnop(const O &o) { return o == O(D::Nop); }

template <class D> struct Explored {
	std::vector<std::string> keys;
	std::vector<std::unique_ptr<typename D::PackedState>> packed;
	std::unordered_map<std::string, int> index;
	std::vector<double> h, d, dist, ddist;
	std::vector<bool> goal;
	struct Arc { int to; double cost; };
	std::vector<std::vector<Arc>> rev;
	bool all;
};

// statesequal is -1 if the domain cannot compare states.
template <class S> static auto statesequal(const S &a, const S &b, int) -> decltype(int(a == b)) { return a == b; }
template <class S> static int statesequal(const S&, const S&, long) { return -1; }

// explore visits up to max states breadth first.
template <class D> static void explore(D &dom, Model<D> &m, size_t max, Explored<D> &x, bool pairs = true) {
	typedef typename D::State State;
	typedef typename D::PackedState Packed;
	typedef typename D::Operators Operators;
	typedef typename D::Edge Edge;
	typedef typename D::Oper Oper;

	auto add = [&](const std::string &k, std::unique_ptr<Packed> &p) {
		auto it = x.index.find(k);
		if (it != x.index.end())
			return it->second;
		int i = x.keys.size();
		x.index[k] = i;
		x.keys.push_back(k);
		x.packed.push_back(std::move(p));
		x.rev.emplace_back();
		return i;
	};

	State s0 = dom.initialstate();
	std::unique_ptr<Packed> p0(new Packed());
	dom.pack(*p0, s0);
	std::string k0 = m.key(dom, s0);
	MC_CHECK(k0 == m.start(), "start", "the initial state is %s, not %s", k0.c_str(), m.start().c_str());
	add(k0, p0);
	{	// the start that searches see is the initial state itself
		double h = dom.h(s0), d = dom.d(s0);
		x.h.push_back(h);
		x.d.push_back(d);
		x.goal.push_back(dom.isgoal(s0));
	}
	x.all = true;
	std::vector<std::vector<std::pair<int,double>>> fwd;

	for (size_t i = 0; i < x.keys.size(); i++) {
		if (i >= max) {
			x.all = false;
			break;
		}
		mc::states();
		State buf;
		State &s = dom.unpack(buf, *x.packed[i]);
		const std::string key = x.keys[i];
		std::string k = m.key(dom, s);
		MC_CHECK(k == key, "pack", "packing and unpacking %s gives %s", key.c_str(), k.c_str());
		bool g = m.goal(key);
		MC_CHECK(dom.isgoal(s) == g, "goal", "isgoal is %d for %s", !g, key.c_str());
		MC_CHECK(x.goal[i] == g, "goal", "isgoal was %d for %s when it was generated", !g, key.c_str());
		double h = dom.h(s), d = dom.d(s);
		MC_CHECK(near(h, x.h[i]) && near(d, x.d[i]), "estimates",
			"h and d of %s are %g and %g, but were %g and %g when it was generated", key.c_str(), h, d, x.h[i], x.d[i]);
		MC_CHECK(h >= 0 && d >= 0, "estimates", "h and d of %s are %g and %g", key.c_str(), h, d);
		double wh = m.h(key), wd = m.d(key);
		MC_CHECK(std::isnan(wh) || near(h, wh), "heuristic", "h is %g, not %g, for %s", h, wh, key.c_str());
		MC_CHECK(std::isnan(wd) || near(d, wd), "distance", "d is %g, not %g, for %s", d, wd, key.c_str());
		MC_CHECK(!g || (near(h, 0) && near(d, 0)), "heuristic", "h %g and d %g of the goal %s", h, d, key.c_str());

		std::vector<Next> want = m.succ(key), got;
		std::sort(want.begin(), want.end());
		std::vector<Oper> opers;
		{
			Operators ops(dom, s);
			for (unsigned int o = 0; o < ops.size(); o++)
				opers.push_back(ops[o]);
		}
		for (size_t a = 0; a < opers.size(); a++)
		for (size_t b = 0; b < a; b++)
			MC_CHECK(!(opers[a] == opers[b]), "operators", "operator %zu of %s is listed twice", b, key.c_str());
		fwd.emplace_back();
		for (size_t o = 0; o < opers.size(); o++) {
			mc::transitions();
			{
				Edge e(dom, s, opers[o]);
				std::unique_ptr<Packed> pp(new Packed());
				Packed &p = *pp;
				dom.pack(p, e.state);	// before anything else touches the state
				std::string k2 = m.key(dom, e.state);
				double c = e.cost;
				got.push_back(Next{k2, c});
				double h2 = dom.h(e.state), d2 = dom.d(e.state);
				bool g2 = dom.isgoal(e.state);
				if (m.consistent)
					MC_CHECK(h <= c + h2 + 1e-4, "consistent", "h %g of %s, but %g + %g by way of %s", h, key.c_str(), c, h2, k2.c_str());
				bool fresh = !x.index.count(k2);
				int j = add(k2, pp);
				x.rev[j].push_back(typename Explored<D>::Arc{(int) i, c});
				fwd[i].push_back(std::make_pair(j, c));
				if (fresh) {
					x.h.push_back(h2);
					x.d.push_back(d2);
					x.goal.push_back(g2);
				} else {
					MC_CHECK(near(h2, x.h[j]) && near(d2, x.d[j]), "estimates", "h and d of %s are %g and %g from %s, but %g and %g otherwise",
						k2.c_str(), h2, d2, key.c_str(), x.h[j], x.d[j]);
					MC_CHECK(g2 == x.goal[j], "goal", "isgoal of %s is %d from %s", k2.c_str(), g2, key.c_str());
					MC_CHECK(p.eq(&dom, *x.packed[j]) && x.packed[j]->eq(&dom, p), "eq", "%s does not equal itself", k2.c_str());
					MC_CHECK(p.hash(&dom) == x.packed[j]->hash(&dom), "hash", "%s has two hash values", k2.c_str());
					MC_CHECK(j == (int) i || (!p.eq(&dom, *x.packed[i]) && !x.packed[i]->eq(&dom, p)), "eq", "%s equals %s", k2.c_str(), key.c_str());
				}
				k = m.key(dom, e.state);
				MC_CHECK(k == k2, "pack", "packing %s changed it to %s", k2.c_str(), k.c_str());
				if (!(e.revop == Oper(D::Nop))) {
					bool avail = false;
					{
						Operators ops(dom, e.state);
						for (unsigned int r = 0; r < ops.size(); r++)
							avail |= ops[r] == e.revop;
					}
					if (avail) {
						double rc = e.revcost;
						Oper rop = e.revop;
						{
							Edge r(dom, e.state, rop);
							std::string k3 = m.key(dom, r.state);
							MC_CHECK(m.reversed(key, k3), "reverse", "the reverse of operator %zu of %s leads from %s to %s", o, key.c_str(), k2.c_str(), k3.c_str());
							MC_CHECK(near(r.cost, rc), "reverse", "the reverse of operator %zu of %s costs %g, not %g", o, key.c_str(), (double) r.cost, rc);
							double h3 = dom.h(r.state);
							MC_CHECK(k3 != key || near(h3, h), "reverse", "h of %s is %g after going forth and back", key.c_str(), h3);
						}
						k = m.key(dom, e.state);
						MC_CHECK(k == k2, "undo", "undoing an operator gives %s, not %s", k.c_str(), k2.c_str());
						MC_CHECK(near(dom.h(e.state), h2), "undo", "undoing an operator changes h of %s", k2.c_str());
					}
				}
			}
			k = m.key(dom, s);
			MC_CHECK(k == key, "undo", "undoing operator %zu gives %s, not %s", o, k.c_str(), key.c_str());
			MC_CHECK(near(dom.h(s), h) && near(dom.d(s), d), "undo", "undoing operator %zu changes h of %s from %g to %g", o, key.c_str(), h, (double) dom.h(s));
		}
		std::sort(got.begin(), got.end());
		if (!m.dups)
			MC_CHECK(got.size() == want.size(), "successors", "%s has %zu successors, not %zu", key.c_str(), got.size(), want.size());
		else {
			auto same = [](const Next &a, const Next &b) { return a.key == b.key && near(a.cost, b.cost); };
			got.erase(std::unique(got.begin(), got.end(), same), got.end());
			want.erase(std::unique(want.begin(), want.end(), same), want.end());
			MC_CHECK(got.size() == want.size(), "successors", "%s has %zu distinct successors, not %zu", key.c_str(), got.size(), want.size());
		}
		for (size_t j = 0; j < got.size(); j++) {
			MC_CHECK(got[j].key == want[j].key, "successors", "from %s the domain gives %s, the reference %s", key.c_str(), got[j].key.c_str(), want[j].key.c_str());
			MC_CHECK(near(got[j].cost, want[j].cost), "cost", "from %s to %s costs %g, not %g", key.c_str(), got[j].key.c_str(), got[j].cost, want[j].cost);
		}
		mc::validated();
	}

	// Every two states: equal states only if the same.
	if (pairs) {
		size_t lim = std::min(x.keys.size(), (size_t) 300);
		for (size_t i = 0; i < lim; i++)
		for (size_t j = 0; j < i; j++)
			MC_CHECK(!x.packed[i]->eq(&dom, *x.packed[j]), "eq", "%s equals %s", x.keys[i].c_str(), x.keys[j].c_str());
	}
	else {
		size_t lim = std::min(x.keys.size(), (size_t) 2000);
		for (size_t i = 0; i < lim; i++)
		for (size_t j = 0; j < i; j++) {
			if (j == 8 && i > 16)
				j = i - 8;
			MC_CHECK(!x.packed[i]->eq(&dom, *x.packed[j]), "eq", "%s equals %s", x.keys[i].c_str(), x.keys[j].c_str());
		}
	}
	// States that are unpacked are equal when they are the same.
	for (size_t i = 0; i < std::min(x.keys.size(), (size_t) 500); i++)
		for (size_t j = 0; j <= i; j++) {
			if (j == 6 && i > 12)
				j = i - 6;
			State bi, bj;
			State &s = dom.unpack(bi, *x.packed[i]), &t = dom.unpack(bj, *x.packed[j]);
			int e = statesequal(s, t, 0), r = statesequal(t, s, 0);
			if (e < 0)
				break;
			MC_CHECK(e == (i == j) && r == (i == j), "equal", "%s and %s are %sequal", x.keys[i].c_str(), x.keys[j].c_str(), i == j ? "not " : "");
		}
	std::unordered_map<unsigned long, std::vector<int>> byhash;
	for (size_t i = 0; i < x.keys.size(); i++)
		byhash[x.packed[i]->hash(&dom)].push_back(i);
	for (auto &b : byhash)
		for (size_t i = 0; i < b.second.size() && i < 100; i++)
		for (size_t j = 0; j < i; j++)
			MC_CHECK(!x.packed[b.second[i]]->eq(&dom, *x.packed[b.second[j]]), "eq", "%s equals %s", x.keys[b.second[i]].c_str(), x.keys[b.second[j]].c_str());

	// True distances.
	x.dist.assign(x.keys.size(), INFINITY);
	x.ddist.assign(x.keys.size(), INFINITY);
	if (!x.all)
		return;
	for (int pass = 0; pass < 2; pass++) {
		auto &dist = pass ? x.ddist : x.dist;
		typedef std::pair<double,int> P;
		std::priority_queue<P, std::vector<P>, std::greater<P>> q;
		for (size_t i = 0; i < x.keys.size(); i++)
			if (x.goal[i]) {
				dist[i] = 0;
				q.push(P(0, i));
			}
		while (!q.empty()) {
			P p = q.top();
			q.pop();
			if (p.first > dist[p.second])
				continue;
			for (auto &a : x.rev[p.second]) {
				double nd = p.first + (pass ? 1 : a.cost);
				if (nd < dist[a.to]) {
					dist[a.to] = nd;
					q.push(P(nd, a.to));
				}
			}
		}
		for (size_t i = 0; i < x.keys.size(); i++) {
			if (pass == 0 && m.admissible)
				MC_CHECK(x.h[i] <= dist[i] + 1e-4 * (1 + dist[i]), "admissible", "h is %g, but a goal is %g from %s", x.h[i], dist[i], x.keys[i].c_str());
			if (pass == 1 && m.dadmissible)
				MC_CHECK(x.d[i] <= dist[i] + 1e-4, "admissible", "d is %g, but a goal is %g steps from %s", x.d[i], dist[i], x.keys[i].c_str());
		}
	}
}

// solve runs an algorithm and checks its answer: optimal if tol is 1, a valid
// path otherwise.  The path is checked by the domain's own pathcost and against the model.
template <class D> static double solve(D &dom, Model<D> &m, std::vector<const char*> args, double opt, double bound, size_t maxexp = 1000000, bool mayfail = false) {
	args.insert(args.begin(), "x");
	std::string lim = mc::strf("%zu", maxexp);
	args.push_back("-expd");
	args.push_back(lim.c_str());
	int argc = args.size();
	args.push_back(NULL);
	std::unique_ptr<SearchAlgorithm<D>> a(getsearch<D>(argc, args.data()));
	typename D::State s0 = dom.initialstate();
	a->search(dom, s0);
	auto &r = a->res;
	MC_CHECK(r.path.empty() == std::isinf(opt) || (mayfail && r.path.empty()), "solve", "%s found %s, but the optimum is %g", args[1], r.path.empty() ? "nothing" : "a path", opt);
	if (r.path.empty())
		return -1;
	MC_CHECK(r.path.size() == r.ops.size() + 1, "solve", "%s: %zu states but %zu operators", args[1], r.path.size(), r.ops.size());
	double c = 0;
	std::string at = m.key(dom, r.path.back());
	MC_CHECK(at == m.start(), "solve", "%s: the path starts at %s", args[1], at.c_str());
	for (size_t i = r.ops.size(); i-- > 0; ) {
		std::string to = m.key(dom, r.path[i]);
		double best = INFINITY;
		for (auto &n : m.succ(at))
			if (n.key == to)
				best = std::min(best, n.cost);
		MC_CHECK(!std::isinf(best), "solve", "%s: the path goes from %s to %s", args[1], at.c_str(), to.c_str());
		c += best;
		at = to;
	}
	MC_CHECK(m.goal(at), "solve", "%s: the path ends at %s", args[1], at.c_str());
	double pc = dom.pathcost(r.path, r.ops);
	MC_CHECK(near(pc, c, 1e-4), "pathcost", "%s: pathcost is %g, but the path costs %g", args[1], pc, c);
	MC_CHECK(c <= opt * bound + 1e-3 * (1 + opt), "solve", "%s: cost %g, the optimum is %g", args[1], c, opt);
	MC_CHECK(c >= opt - 1e-3 * (1 + opt), "solve", "%s: cost %g is less than the optimum %g", args[1], c, opt);
	return c;
}
