// C14: simple temporal networks keep the tightest bounds.
#include <map>
#include <memory>
#include <algorithm>
#include "seq.hpp"
#include "structs/stn.hpp"

static int nadds, nincons, nundo, ngrow, neq, ncopy;

typedef Stn::Constraint Con;

static const Stn::Time Big = 1l << 60;

// Ref is the set of constraints t_j - t_i in [a, b], with t_0 = 0.
struct Ref {
	int n;	// nodes, zero included
	std::vector<Con> cs;

	// bounds computes the implied bounds by Bellman-Ford; false if inconsistent.
	bool bounds(std::vector<long> &lo, std::vector<long> &hi) const {
		const long Inf = 1l << 40;
		// dist[u][v]: t_v - t_u <= dist
		std::vector<std::vector<long>> d(n, std::vector<long>(n, Inf));
		for (int i = 0; i < n; i++)
			d[i][i] = 0;
		for (auto &c : cs) {
			if (c.b < Big)
				d[c.i][c.j] = std::min(d[c.i][c.j], (long) c.b);
			if (c.a > -Big)
				d[c.j][c.i] = std::min(d[c.j][c.i], (long) -c.a);
		}
		for (int k = 0; k < n; k++)
			for (int i = 0; i < n; i++)
				for (int j = 0; j < n; j++)
					if (d[i][k] < Inf && d[k][j] < Inf)
						d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
		for (int i = 0; i < n; i++)
			if (d[i][i] < 0)
				return false;
		lo.assign(n, -Big);
		hi.assign(n, Big);
		for (int i = 0; i < n; i++) {
			if (d[0][i] < Inf)
				hi[i] = d[0][i];
			if (d[i][0] < Inf)
				lo[i] = -d[i][0];
		}
		return true;
	}
};

static std::string tstr(Stn::Time t) {
	return t > Big ? "inf" : t < -Big ? "-inf" : mc::strf("%ld", (long) t);
}

static std::string cstr(const Con &c) {
	return mc::strf("[t%u-t%u in %s..%s]", c.j, c.i, tstr(c.a).c_str(), tstr(c.b).c_str());
}

static void compare(const Stn &s, const Ref &r, const char *when) {
	std::vector<long> lo, hi;
	bool ok = r.bounds(lo, hi);
	MC_CHECK(ok, "harness", "the reference became inconsistent");
	MC_CHECK((int) s.nnodes() == r.n, "nodes", "%s: %u nodes, not %d", when, s.nnodes(), r.n);
	for (int i = 0; i < r.n; i++) {
		Stn::Time l = s.lower(i), u = s.upper(i);
		// a network without an absolute bound may hold values near the ends of the time line
		bool lok = lo[i] == -Big ? l < -Big : l == lo[i], uok = hi[i] == Big ? u > Big : u == hi[i];
		MC_CHECK(lok, "bounds", "%s: earliest time of %d is %s, not %s", when, i, tstr(l).c_str(), tstr(lo[i] == -Big ? -2 * Big : lo[i]).c_str());
		MC_CHECK(uok, "bounds", "%s: latest time of %d is %s, not %s", when, i, tstr(u).c_str(), tstr(hi[i] == Big ? 2 * Big : hi[i]).c_str());
	}
}

// The alphabet.  Negative numbers are other operations.
struct Op {
	enum { Add, Undo, Grow, Copy } kind;
	Con c;
	const char *what;
};
static std::vector<Op> alphabet(int size) {
	std::vector<Op> v;
	auto add = [&](const Con &c, const char *w) { v.push_back(Op{Op::Add, c, w}); };
	add(Stn::NoEarlier(1, 2), "NoEarlier");
	add(Stn::NoLater(2, 6), "NoLater");
	add(Stn::Before(1, 2, 3), "Before");
	add(Stn::After(1, 3, 2), "After");
	add(Con(2, 3, -1, 4), "");
	add(Stn::InWindow(3, 1, 5), "InWindow");
	v.push_back(Op{Op::Undo, Con(), ""});
	add(Con(3, 1, 2, 2), "");
	add(Con(1, 3, -2, 1), "");
	v.push_back(Op{Op::Grow, Con(), ""});
	add(Stn::Before(2, 1, -5), "Before");
	add(Stn::NoLater(1, -1), "NoLater");
	add(Con(2, 0, -4, 0), "");
	v.push_back(Op{Op::Copy, Con(), ""});
	add(Con(3, 2, -3, -2), "");
	add(Con(1, 1, 0, 1), "");
	add(Con(2, 2, 1, 3), "");
	add(Stn::After(3, 2, 1), "After");
	add(Stn::NoEarlier(3, 7), "NoEarlier");
	add(Con(1, 2, 0, 3), "");
	if ((int) v.size() > size)
		v.resize(size);
	return v;
}

static const std::vector<Op> *alpha;

static std::string opstr(const Op &o) {
	switch (o.kind) {
	case Op::Add: return "add" + std::string(o.what) + cstr(o.c);
	case Op::Undo: return "undo";
	case Op::Grow: return "grow";
	default: return "copy";
	}
}

static bool run(const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = "3 events:";
		for (int o : s)
			t += " " + opstr((*alpha)[o]);
		return t;
	}))
		return true;
	std::unique_ptr<Stn> n(new Stn(3));
	Ref r;
	r.n = 4;
	std::vector<std::unique_ptr<Stn>> saved;	// the network before each constraint that holds
	int grown = 0;
	std::vector<int> grownat;
	for (int k : s) {
		const Op &o = (*alpha)[k];
		switch (o.kind) {
		case Op::Add: {
			std::unique_ptr<Stn> before(new Stn(*n));
			r.cs.push_back(o.c);
			std::vector<long> lo, hi;
			bool cons = r.bounds(lo, hi);
			bool got = n->add(o.c);
			mc::count(nadds);
			MC_CHECK(got == cons, "consistency", "add returned %d for %s, but the constraints are%s consistent", got,
				cstr(o.c).c_str(), cons ? "" : " not");
			if (!got) {
				mc::count(nincons);
				r.cs.pop_back();
				MC_CHECK(n->eq(*before) && before->eq(*n), "restore", "a refused constraint changed the network");
			} else {
				saved.push_back(std::move(before));
				grownat.push_back(grown);
			}
			break;
		}
		case Op::Undo:
			if (saved.empty())
				return false;
			n->undo();
			r.cs.pop_back();
			mc::count(nundo);
			if (grownat.back() == grown)
				MC_CHECK(n->eq(*saved.back()) && saved.back()->eq(*n), "undo", "undo does not give the network back");
			saved.pop_back();
			grownat.pop_back();
			break;
		case Op::Grow:
			n->grow(1);
			r.n++;
			grown++;
			mc::count(ngrow);
			break;
		case Op::Copy: {
			std::unique_ptr<Stn> c(new Stn(*n));
			MC_CHECK(c->eq(*n) && n->eq(*c), "copy", "a copy is not equal");
			// the copy must not depend on the original
			n->add(Con(1, 2, 1, 1));
			n.swap(c);
			mc::count(ncopy);
			break;
		}
		}
	}
	compare(*n, r, "after");
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	// unwinding everything
	while (saved.size()) {
		n->undo();
		r.cs.pop_back();
		compare(*n, r, "unwinding");
		saved.pop_back();
	}
	return true;
}

// eq distinguishes networks with different constraints.
static void eqpairs(uint64_t chunk, uint64_t nchunks) {
	auto a = alphabet(100);
	std::vector<Con> cs;
	for (auto &o : a)
		if (o.kind == Op::Add)
			cs.push_back(o.c);
	cs.push_back(Con(2, 3, -1, 5));
	cs.push_back(Con(2, 3, -2, 4));
	size_t N = cs.size();
	auto arcs = [&](size_t x, size_t y) {
		std::vector<std::vector<long>> v;
		for (const Con *c : { &cs[x], &cs[y] }) {
			if (c->b < Big)
				v.push_back({ (long) c->i, (long) c->j, (long) c->b });
			if (c->a > -Big)
				v.push_back({ (long) c->j, (long) c->i, (long) -c->a });
		}
		std::sort(v.begin(), v.end());
		return v;
	};
	for (size_t k = chunk; k < N * N; k += nchunks)
		for (size_t l = 0; l < N * N; l++) {
			if (!mc::begin([&] { return mc::strf("eq of %s%s and %s%s", cstr(cs[k / N]).c_str(), cstr(cs[k % N]).c_str(),
					cstr(cs[l / N]).c_str(), cstr(cs[l % N]).c_str()); }))
				continue;
			Stn x(3), y(3);
			if (!x.add(cs[k / N]) || !x.add(cs[k % N]) || !y.add(cs[l / N]) || !y.add(cs[l % N]))
				continue;
			mc::count(neq);
			bool e = x.eq(y), f = y.eq(x);
			MC_CHECK(e == f, "eq", "eq is not symmetric");
			if (k == l)
				MC_CHECK(e, "eq", "equal histories compare different");
			if (arcs(k / N, k % N) != arcs(l / N, l % N))
				MC_CHECK(!e, "eq", "networks with different constraints compare equal");
			mc::states();
			mc::transitions(2);
		}
}

// every network of 3 events in which each pair has one of a few constraints,
// added in order and in reverse
static void nets(uint64_t chunk, uint64_t nchunks) {
	static const int ps[6][2] = { {0, 1}, {0, 2}, {0, 3}, {1, 2}, {2, 3}, {1, 3} };
	static const long ab[6][2] = { {-Big, Big}, {2, 5}, {-3, -1}, {0, Big}, {-Big, 1}, {3, 3} };
	mc::Product p;
	p.add(6, 6);
	for (uint64_t k = chunk; k < p.size(); k += nchunks) {
		p.set(k);
		for (int rev = 0; rev < (mc::thorough ? 6 : 2); rev++) {
			if (!mc::begin([&] {
				std::string t = mc::strf("order %d:", rev);
				for (int i = 0; i < 6; i++)
					t += mc::strf(" [t%d-t%d in %s..%s]", ps[i][1], ps[i][0], tstr(ab[p[i]][0] * (p[i] == 0 || p[i] == 4 ? 2 : 1)).c_str(),
						tstr(ab[p[i]][1] * (p[i] == 0 || p[i] == 3 ? 2 : 1)).c_str());
				return t;
			}))
				continue;
			Stn s(3);
			Ref r;
			r.n = 4;
			int taken = 0;
			for (int q = 0; q < 6; q++) {
				int i = rev == 0 ? q : rev == 1 ? 5 - q : (q * 5 + rev) % 6;
				if (p[i] == 0)
					continue;
				Con c(ps[i][0], ps[i][1], ab[p[i]][0] == -Big ? Stn::neginf() : ab[p[i]][0], ab[p[i]][1] == Big ? Stn::inf() : ab[p[i]][1]);
				r.cs.push_back(c);
				std::vector<long> lo, hi;
				bool cons = r.bounds(lo, hi);
				bool got = s.add(c);
				mc::count(nadds);
				MC_CHECK(got == cons, "consistency", "add returned %d for %s, but the constraints are%s consistent", got,
					cstr(c).c_str(), cons ? "" : " not");
				if (!got) {
					r.cs.pop_back();
					mc::count(nincons);
				} else
					taken++;
				compare(s, r, "after");
			}
			mc::states(7);
			mc::transitions(6);
			mc::nontrivial();
			while (taken-- > 0) {
				s.undo();
				r.cs.pop_back();
				compare(s, r, "unwinding");
			}
		}
	}
}

// longer runs: networks of 5 to 14 events around a schedule, with one undo in a few steps, tightened bit by bit
static void runs(uint64_t chunk, uint64_t nchunks) {
	uint64_t k = 0;
	for (int n : { 5, 8, 14 })
	for (int a : { 1, 2, 3, 5 })
	for (int b : { 1, 2, 4, 7 })
	for (int sched = 0; sched < 4; sched++)
	for (int slack : { 0, 1, 4, 9 })
	for (int undo : { 3, 5, 99 }) {
		if (k++ % nchunks != chunk)
			continue;
		if (!mc::begin([&] { return mc::strf("%d events, strides %d and %d, schedule %d, slack %d, undo every %d", n, a, b, sched, slack, undo); }))
			continue;
		auto t = [&](int i) { return i == 0 ? 0 : sched == 0 ? 0 : sched == 1 ? 5 * i : sched == 2 ? i * 7 % 23 : -3 * (i % 4) + i; };
		Stn s(n);
		Ref r;
		r.n = n + 1;
		std::vector<std::unique_ptr<Stn>> saved;
		int grown = 0;
		for (int q = 0; q < 40; q++) {
			if (q == 20) {
				s.grow(2);
				r.n += 2;
				n += 2;
				grown = saved.size();
			}
			if (q % undo == undo - 1 && saved.size()) {
				s.undo();
				r.cs.pop_back();
				mc::count(nundo);
				if ((int) saved.size() > grown)
					MC_CHECK(s.eq(*saved.back()), "undo", "undo at step %d does not give the network back", q);
				saved.pop_back();
				grown = std::min(grown, (int) saved.size());
				compare(s, r, "undone");
				continue;
			}
			int i = q * a % (n + 1), j = (q * b + q / 5 + 1) % (n + 1), w = t(j) - t(i);
			// two-sided, one-sided, or off the schedule
			Con c(i, j, q % 4 == 1 ? Stn::neginf() : Stn::Time(w - slack + q % 3 + (q % 11 == 10 ? 12 : 0)),
				q % 4 == 2 ? Stn::inf() : Stn::Time(w + slack + q % 5 + (q % 11 == 10 ? 12 : 0)));
			if (c.a > c.b)
				continue;
			std::unique_ptr<Stn> before(new Stn(s));
			r.cs.push_back(c);
			std::vector<long> lo, hi;
			bool cons = r.bounds(lo, hi), got = s.add(c);
			mc::count(nadds);
			MC_CHECK(got == cons, "consistency", "add returned %d at step %d for %s, but the constraints are%s consistent", got,
				q, cstr(c).c_str(), cons ? "" : " not");
			if (!got) {
				r.cs.pop_back();
				mc::count(nincons);
				MC_CHECK(s.eq(*before), "restore", "a refused constraint changed the network");
			} else
				saved.push_back(std::move(before));
			compare(s, r, "after");
			mc::states();
			mc::transitions();
		}
		mc::nontrivial();
		n -= 2;
		while (saved.size()) {
			s.undo();
			r.cs.pop_back();
			compare(s, r, "unwinding");
			if ((int) saved.size() > grown)
				MC_CHECK(s.eq(*saved.back()), "undo", "unwinding does not give the network back");
			saved.pop_back();
		}
	}
}

// networks of hundreds of events: chains, stars and ladders of windows, added in several orders, one tightened
// in the middle, then undone.  The bounds are known without Floyd and Warshall.
static void huge(int n, int shape, int order) {
	if (!mc::begin([&] { return mc::strf("%d events, shape %d, order %d", n, shape, order); }))
		return;
	Stn s(n);
	std::vector<Con> cs;
	for (int i = 1; i <= n; i++) {
		int from = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? i / 2 : i > 1 ? i - 2 : 0;
		if (i % 7 == 3)
			cs.push_back(Con(i, from, -(2 + i % 5), -(1 + i % 2)));
		else
			cs.push_back(Con(from, i, 1 + i % 2, 2 + i % 5));
	}
	// Bellman and Ford's bounds of a set of constraints
	auto bounds = [&](const std::vector<Con> &cs, std::vector<long> &lo, std::vector<long> &hi) {
		const long Inf = 1l << 40;
		std::vector<long> to(n + 1, Inf), from(n + 1, Inf);	// distances from and to the origin
		to[0] = from[0] = 0;
		for (bool more = true; more; ) {
			more = false;
			for (auto &c : cs) {
				auto relax = [&](std::vector<long> &d, int u, int v, long w) {
					if (d[u] < Inf && d[u] + w < d[v]) {
						d[v] = d[u] + w;
						more = true;
					}
				};
				relax(to, c.i, c.j, c.b);
				relax(to, c.j, c.i, -c.a);
				relax(from, c.j, c.i, c.b);
				relax(from, c.i, c.j, -c.a);
			}
			if (to[0] < 0 || from[0] < 0)
				return false;
		}
		lo.assign(n + 1, -Big);
		hi.assign(n + 1, Big);
		for (int i = 0; i <= n; i++) {
			if (to[i] < Inf) hi[i] = to[i];
			if (from[i] < Inf) lo[i] = -from[i];
		}
		return true;
	};
	auto check = [&](const std::vector<Con> &cs, const char *when) {
		std::vector<long> lo, hi;
		MC_CHECK(bounds(cs, lo, hi), "harness", "the reference became inconsistent");
		MC_CHECK((int) s.nnodes() == n + 1, "nodes", "%s: %u nodes, not %d", when, s.nnodes(), n + 1);
		for (int i = 0; i <= n; i++) {
			Stn::Time l = s.lower(i), u = s.upper(i);
			MC_CHECK(lo[i] == -Big ? l < -Big : l == lo[i], "bounds", "%s: earliest time of %d is %s, not %ld", when, i, tstr(l).c_str(), lo[i]);
			MC_CHECK(hi[i] == Big ? u > Big : u == hi[i], "bounds", "%s: latest time of %d is %s, not %ld", when, i, tstr(u).c_str(), hi[i]);
		}
	};
	std::vector<Con> in;
	int step = order == 2 ? 7 : 1;
	while (n % step == 0 && step > 1)
		step += 2;
	for (int q = 0; q < n; q++) {
		const Con &c = cs[order == 0 ? q : order == 1 ? n - 1 - q : (long) q * step % n];
		in.push_back(c);
		mc::count(nadds);
		MC_CHECK(s.add(c), "consistency", "step %d: %s is refused", q, cstr(c).c_str());
		if (q % 97 == 96)
			check(in, "adding");
	}
	check(in, "added");
	Stn all(s);
	mc::count(ncopy);
	MC_CHECK(all.eq(s), "eq", "a copy is not equal");
	for (int i : { 1, n / 2, n - 1, n }) {
		std::vector<long> lo, hi;
		bounds(in, lo, hi);
		// pin an event, then ask for the impossible, then undo
		std::vector<Con> more(in);
		Con pin(0, i, lo[i], lo[i]);
		more.push_back(pin);
		MC_CHECK(s.add(pin), "consistency", "%s is refused", cstr(pin).c_str());
		check(more, "pinned");
		Con bad(0, i, lo[i] + 1, lo[i] + 9);
		mc::count(nincons);
		MC_CHECK(!s.add(bad), "consistency", "%s is taken", cstr(bad).c_str());
		check(more, "refused");
		s.undo();
		mc::count(nundo);
		MC_CHECK(s.eq(all), "undo", "undo does not give the network back");
		check(in, "undone");
	}
	for (int q = n; q-- > 0; ) {
		s.undo();
		in.pop_back();
		mc::count(nundo);
		if (q % 97 == 0)
			check(in, "unwinding");
	}
	mc::states(n);
	mc::transitions(2 * n);
	mc::nontrivial();
}

void mc_setup() {
	nadds = mc::counter("constraints added");
	nincons = mc::counter("inconsistent constraints");
	nundo = mc::counter("undone constraints");
	ngrow = mc::counter("networks grown");
	ncopy = mc::counter("copies");
	neq = mc::counter("comparisons");
	static std::vector<Op> a = alphabet(100);
	alpha = &a;
	mc::suite("seq", "3 events: every sequence of 4 (thorough 5) operations out of 20: constraints, undo, grow, copy", 64,
		[](uint64_t c) {
			mc::seqs(a.size(), mc::thorough ? 5 : 4, c, 64, run);
		});
	mc::suite("seq14", "3 events: every sequence of 5 (thorough 6) operations out of 14", 64,
		[](uint64_t c) {
			mc::seqs(14, mc::thorough ? 6 : 5, c, 64, run);
		});
	mc::suite("nets", "every network of 3 events with one of 6 constraints on each of the 6 pairs, added in 2 (thorough 6) orders, then unwound", 64,
		[](uint64_t c) { nets(c, 64); });
	mc::suite("runs", "2304 runs of 40 steps over networks of 5 to 14 events: constraints around a schedule, undo, grow", 64,
		[](uint64_t c) { runs(c, 64); });
	mc::suite("huge", "networks of 100 to 700 events: chains, stars, trees and ladders, added in 3 orders, pinned, unwound", 48,
		[](uint64_t c) {
			static const int ns[] = { 100, 256, 300, 700 };
			huge(ns[c % 4], c / 4 % 4, c / 16);
		});
	mc::suite("eq", "eq over every two networks of two constraints out of 18", 64,
		[](uint64_t c) { eqpairs(c, 64); });
}
MC_MAIN
