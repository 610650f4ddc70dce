// C11: the priority queues under every search are priority queues.
#include <cstdarg>
#include <map>
#include <set>
#include "seq.hpp"
#include "search/search.hpp"
#include "structs/binheap.hpp"
#include "structs/intpq.hpp"

static int npops, nseqs, nperm, nties, nlong;

double walltime() { return 0; }
double cputime() { return 0; }
void fatal(const char *fmt, ...) { mc::fail("fatal", "fatal error: %s", fmt); }

struct E {
	int id, p, t;	// key and tie key
	int ind;
	IntpqEntry<E> ent;
};

// ---- the binary heap

struct HOps {
	static bool pred(E *a, E *b) { return a->p < b->p; }
	static void setind(E *e, int i) { e->ind = i; }
};
typedef BinHeap<HOps, E*> Heap;

enum { K = 5 };

struct HeapModel {
	Heap h;
	E e[64];
	std::set<int> in;
	int n;

	HeapModel(int nn = K) : n(nn) {
		for (int i = 0; i < n; i++) {
			e[i].id = i;
			e[i].p = 0;
			e[i].ind = -1;
		}
	}

	int minp() {
		int m = 1 << 30;
		for (int i : in)
			m = std::min(m, e[i].p);
		return m;
	}

	void check(const char *when) {
		MC_CHECK(h.size() == (long) in.size(), "size", "%s: size %ld, not %zu", when, h.size(), in.size());
		MC_CHECK(h.empty() == in.empty(), "size", "%s: empty() is wrong", when);
		for (int i = 0; i < n; i++) {
			if (!in.count(i)) {
				MC_CHECK(e[i].ind == -1, "index", "%s: element %d is out but has index %d", when, i, e[i].ind);
				continue;
			}
			MC_CHECK(e[i].ind >= 0 && e[i].ind < h.size() && h.at(e[i].ind) == &e[i], "index",
				"%s: element %d has index %d, where there is another", when, i, e[i].ind);
		}
		if (!in.empty()) {
			E *f = *h.front();
			MC_CHECK(f->p == minp(), "front", "%s: front has key %d, the least is %d", when, f->p, minp());
		} else
			MC_CHECK(!h.front(), "front", "%s: a front of an empty heap", when);
	}

	void pop() {
		boost::optional<E*> o = h.pop();
		mc::count(npops);
		if (in.empty()) {
			MC_CHECK(!o, "pop", "popped from an empty heap");
			return;
		}
		MC_CHECK(o, "pop", "nothing popped from a heap of %zu", in.size());
		E *x = *o;
		MC_CHECK(in.count(x->id), "pop", "popped element %d, which is not in", x->id);
		MC_CHECK(x->p == minp(), "order", "popped key %d, the least is %d", x->p, minp());
		in.erase(x->id);
	}

	void drain() {
		while (in.size()) {
			pop();
			check("draining");
		}
		pop();
	}
};

// op: 0..9 pushupdate(e, p) or update; 10.. others
static std::string hopname(int o) {
	if (o < 12)
		return mc::strf("set(%d,%d) ", o / 3, o % 3);
	static const char *n[] = { "pop ", "clear ", "append ", "rekey+reinit " };
	return n[o - 12];
}

static bool heapseq(const std::vector<int> &s) {
	// the sequence is legal by construction; check after the last operation
	bool ok = mc::begin([&] {
		std::string t = "binheap:";
		for (int o : s)
			t += " " + hopname(o);
		return t;
	});
	if (!ok)
		return true;
	HeapModel m(4);
	int lim = s.size();
	for (int k = 0; k < lim; k++) {
		int o = s[k];
		if (o < 12) {
			E &e = m.e[o / 3];
			e.p = o % 3;
			if (k & 1) {
				m.h.pushupdate(&e, e.ind);
			} else if (e.ind < 0)
				m.h.push(&e);
			else
				m.h.update(e.ind);
			m.in.insert(e.id);
		} else if (o == 12) {
			m.pop();
		} else if (o == 13) {
			m.h.clear();
			for (int i : m.in)
				m.e[i].ind = -1;
			m.in.clear();
		} else if (o == 14) {
			std::vector<E*> v;
			for (int i = 3; i >= 0; i--)
				if (!m.in.count(i)) {
					m.e[i].p = (i * 2 + k) % 3;
					v.push_back(&m.e[i]);
					m.in.insert(i);
				}
			m.h.append(v);
		} else {
			for (int i : m.in)
				m.e[i].p = (m.e[i].p * 2 + i + 1) % 3;
			m.h.reinit();
		}
	}
	m.check("after");
	m.drain();
	mc::count(nseqs);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// perms pushes every arrangement of keys, then changes one element, pops
// everything; also builds the same heap with append.
static void heapperms(int n, int nkeys, uint64_t chunk, uint64_t nchunks) {
	mc::Product p;
	p.add(nkeys, n);
	for (uint64_t k = chunk; k < p.size(); k += nchunks) {
		p.set(k);
		for (int how = 0; how < 2; how++)
			for (int chg = -1; chg < n; chg++)
				for (int np = 0; np < (chg < 0 ? 1 : nkeys + 1); np++) {
					if (!mc::begin([&] {
						std::string t = how ? "append" : "push";
						for (int i = 0; i < n; i++)
							t += mc::strf(" %d", p[i]);
						return t + mc::strf(", then element %d becomes %d", chg, np * 2 - 1);
					}))
						continue;
					HeapModel m(n);
					std::vector<E*> v;
					for (int i = 0; i < n; i++) {
						m.e[i].p = 2 * p[i];
						m.in.insert(i);
						if (how)
							v.push_back(&m.e[i]);
						else
							m.h.push(&m.e[i]);
					}
					if (how)
						m.h.append(v);
					if (chg >= 0) {
						m.e[chg].p = np * 2 - 1;
						m.h.update(m.e[chg].ind);
					}
					m.check("built");
					m.drain();
					mc::count(nperm);
					mc::states(n);
					mc::transitions(n);
					mc::nontrivial();
				}
	}
}

// ---- the open lists

struct OOps {
	static bool pred(E *a, E *b) { return a->p != b->p ? a->p < b->p : a->t > b->t; }
	static void setind(E *e, int i) { e->ind = i; }
	static int getind(const E *e) { return e->ind; }
	static int prio(E *e) { return e->p; }
	static int tieprio(E *e) { return e->t; }
};

static const int prios[] = { 0, 1, 120 }, ties[] = { 0, 2, 150 };

template <class C> struct OpenModel {
	OpenList<OOps, E, C> l;
	E e[32];
	std::set<int> in, once;
	int n;
	OpenModel(int nn) : n(nn) {
		for (int i = 0; i < n; i++) {
			e[i].id = i;
			e[i].p = e[i].t = 0;
			e[i].ind = -1;
		}
	}
	void check() {
		MC_CHECK(l.empty() == in.empty(), "empty", "empty() is %d with %zu elements in", l.empty(), in.size());
		for (int i = 0; i < n; i++)
			MC_CHECK(l.mem(&e[i]) == (in.count(i) > 0), "mem", "mem(%d) is %d", i, l.mem(&e[i]));
	}
	void set(int i, int p, int t) {
		bool was = once.count(i);	// re-opened, as searches do it, if it is not in any more
		once.insert(i);
		if (was)
			l.pre_update(&e[i]);
		e[i].p = p;
		e[i].t = t;
		if (was)
			l.post_update(&e[i]);
		else
			l.push(&e[i]);
		in.insert(i);
	}
	void pop() {
		E *x = l.pop();
		mc::count(npops);
		MC_CHECK(x && x >= e && x < e + n && in.count(x->id), "pop", "popped something that is not in");
		for (int i : in) {
			MC_CHECK(!OOps::pred(&e[i], x), "order", "popped (%d,%d), but (%d,%d) is in", x->p, x->t, e[i].p, e[i].t);
			if (i != x->id && e[i].p == x->p && e[i].t == x->t)
				mc::count(nties);
		}
		in.erase(x->id);
	}
};

template <class C> static bool openseq(const char *kind, int lim, const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = std::string(kind) + " open list:";
		for (int o : s)
			t += o < 27 ? mc::strf(" set(%d: %d,%d)", o / 9, prios[o / 3 % 3], ties[o % 3]) : o == 27 ? " pop" : " clear";
		return t;
	}))
		return true;
	OpenModel<C> m(3);
	for (int o : s) {
		if (o < 27)
			m.set(o / 9, prios[o / 3 % 3], ties[o % 3]);
		else if (o == 27) {
			if (m.in.empty())
				return false;
			m.pop();
		} else {
			m.l.clear();
			m.in.clear();
			for (int i = 0; i < 3; i++)
				m.e[i].ind = -1;
		}
	}
	m.check();
	while (!m.in.empty()) {
		m.pop();
		m.check();
	}
	mc::count(nseqs);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// many elements in few buckets: every arrangement, one removed and put back
template <class C> static void openmany(const char *kind, int n, uint64_t chunk, uint64_t nchunks) {
	mc::Product p;
	p.add(4, n);
	for (uint64_t k = chunk; k < p.size(); k += nchunks) {
		p.set(k);
		for (int chg = -1; chg < n; chg++)
			for (int to = 0; to < (chg < 0 ? 1 : 4); to++) {
				if (!mc::begin([&] {
					std::string t = std::string(kind) + " open list, keys (prio,tie):";
					for (int i = 0; i < n; i++)
						t += mc::strf(" (%d,%d)", p[i] / 2, p[i] % 2);
					return t + mc::strf(" then %d becomes (%d,%d)", chg, to / 2, to % 2);
				}))
					continue;
				OpenModel<C> m(n);
				for (int i = 0; i < n; i++)
					m.set(i, p[i] / 2, p[i] % 2);
				if (chg >= 0)
					m.set(chg, to / 2, to % 2);
				m.check();
				while (!m.in.empty()) {
					m.pop();
					m.check();
				}
				mc::count(nperm);
				mc::states(n);
				mc::transitions(n);
				mc::nontrivial();
			}
	}
}

// ---- the integer priority queue

struct IOps { static IntpqEntry<E> &entry(E *e) { return e->ent; } };

static bool intpqseq(unsigned sz, const std::vector<int> &s) {
	static const int pr[] = { 0, 1, 4 };
	if (!mc::begin([&] {
		std::string t = mc::strf("intpq(%u):", sz);
		for (int o : s)
			t += o < 12 ? mc::strf(" push(%d,%d)", o / 3, pr[o % 3]) : o < 16 ? mc::strf(" rm(%d)", o - 12) : o == 16 ? " pop" : " clear";
		return t;
	}))
		return true;
	Intpq<IOps, E> q(sz);
	E e[4];
	std::set<int> in;
	for (int i = 0; i < 4; i++)
		e[i].id = i;
	auto pop = [&] {
		E *x = q.pop();
		mc::count(npops);
		if (in.empty()) {
			MC_CHECK(!x, "pop", "popped from an empty queue");
			return;
		}
		MC_CHECK(x && x >= e && x < e + 4 && in.count(x->id), "pop", "popped something that is not in");
		for (int i : in)
			MC_CHECK(x->p <= e[i].p, "order", "popped %d, but %d is in", x->p, e[i].p);
		in.erase(x->id);
	};
	for (int o : s) {
		if (o < 12) {
			int i = o / 3;
			if (in.count(i))
				return false;
			e[i].p = pr[o % 3];
			q.push(&e[i], e[i].p);
			in.insert(i);
		} else if (o < 16) {
			if (!in.count(o - 12))
				return false;
			q.rm(&e[o - 12], e[o - 12].p);
			in.erase(o - 12);
		} else if (o == 16) {
			pop();
		} else {
			q.clear();
			in.clear();
			for (int i = 0; i < 4; i++)
				e[i].ent = IntpqEntry<E>();
		}
	}
	auto check = [&] {
		MC_CHECK(q.empty() == in.empty(), "empty", "empty() is %d with %zu in", q.empty(), in.size());
		for (int i = 0; i < 4; i++)
			MC_CHECK(q.mem(&e[i]) == (in.count(i) > 0), "mem", "mem(%d) is %d", i, q.mem(&e[i]));
	};
	check();
	while (in.size()) {
		pop();
		check();
	}
	pop();
	mc::count(nseqs);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// Long runs: 160 operations on up to 32 elements.  At step j, every pe-th time the best is popped; otherwise element
// a*j mod n gets a key that goes through the residues of m, on top of the last key popped if it is monotone.
struct Run {
	int n, a, m, pe;
	bool mono;
	std::string str() const { return mc::strf("%d elements, stride %d, keys mod %d, pop every %d%s", n, a, m, pe, mono ? ", monotone" : ""); }
};

template <class F> static void runs(uint64_t chunk, uint64_t nchunks, F f) {
	uint64_t k = 0;
	for (int n : { 9, 20, 32 })
		for (int a : { 1, 3, 7, 11 })
			for (int m : { 2, 5, 17, 64, 199 })
				for (int pe : { 2, 3, 4, 9 })
					for (bool mono : { false, true })
						if (k++ % nchunks == chunk)
							f(Run{ n, a, m, pe, mono });
}

template <class C> static void openrun(const char *kind, const Run &r) {
	if (!mc::begin([&] { return std::string(kind) + " open list, " + r.str(); }))
		return;
	OpenModel<C> m(r.n);
	int base = 0;
	for (int j = 0; j < 160; j++) {
		if (j % r.pe == r.pe - 1) {
			if (m.in.empty())
				continue;
			if (r.mono) {
				base = 1 << 30;
				for (int i : m.in)
					base = std::min(base, m.e[i].p);
			}
			m.pop();
		} else
			m.set(r.a * j % r.n, base + (j * 13 + j / 7) % r.m, j * 5 % 23);
		m.check();
	}
	while (!m.in.empty()) {
		m.pop();
		m.check();
	}
	mc::count(nlong);
	mc::states(160);
	mc::transitions(160);
	mc::nontrivial();
}

static void heaprun(const Run &r) {
	if (!mc::begin([&] { return "binary heap, " + r.str(); }))
		return;
	HeapModel m(r.n);
	int base = 0;
	for (int j = 0; j < 160; j++) {
		int i = r.a * j % r.n, p = base + (j * 13 + j / 7) % r.m;
		if (j % r.pe == r.pe - 1) {
			if (m.in.empty())
				continue;
			auto x = m.h.pop();
			MC_CHECK(x, "pop", "nothing popped");
			int id = (*x)->id;
			MC_CHECK(m.in.count(id), "pop", "popped something that is not in");
			for (int i : m.in)
				MC_CHECK(m.e[i].p >= m.e[id].p, "order", "popped %d, but %d is in", m.e[id].p, m.e[i].p);
			m.in.erase(id);
			if (r.mono)
				base = m.e[id].p;
		} else if (j % 15 == 14) {
			for (auto x : m.h.data())
				x->p = base + (x->p * 7 + x->id) % r.m;
			m.h.reinit();
		} else {
			m.e[i].p = p;
			m.h.pushupdate(&m.e[i], m.in.count(i) ? m.e[i].ind : -1);
			m.in.insert(i);
		}
		m.check("after a step");
	}
	m.drain();
	mc::count(nlong);
	mc::states(160);
	mc::transitions(160);
	mc::nontrivial();
}

static void intpqrun(unsigned sz, const Run &r) {
	if (!mc::begin([&] { return mc::strf("intpq(%u), ", sz) + r.str(); }))
		return;
	Intpq<IOps, E> q(sz);
	E e[32];
	std::set<int> in;
	for (int i = 0; i < r.n; i++)
		e[i].id = i;
	int base = 0;
	auto pop = [&] {
		E *x = q.pop();
		mc::count(npops);
		MC_CHECK(x && x >= e && x < e + r.n && in.count(x->id), "pop", "popped something that is not in");
		for (int i : in)
			MC_CHECK(x->p <= e[i].p, "order", "popped %d, but %d is in", x->p, e[i].p);
		in.erase(x->id);
		if (r.mono)
			base = x->p;
	};
	for (int j = 0; j < 160; j++) {
		int i = r.a * j % r.n;
		if (j % r.pe == r.pe - 1) {
			if (in.size())
				pop();
		} else {
			if (in.count(i))
				q.rm(&e[i], e[i].p);
			e[i].p = base + (j * 13 + j / 7) % r.m;
			q.push(&e[i], e[i].p);
			in.insert(i);
		}
		MC_CHECK(q.empty() == in.empty(), "empty", "empty() is %d with %zu in", q.empty(), in.size());
		for (int i = 0; i < r.n; i++)
			MC_CHECK(q.mem(&e[i]) == (in.count(i) > 0), "mem", "mem(%d) is %d", i, q.mem(&e[i]));
	}
	while (in.size())
		pop();
	MC_CHECK(q.empty() && !q.pop(), "pop", "popped from an empty queue");
	mc::count(nlong);
	mc::states(160);
	mc::transitions(160);
	mc::nontrivial();
}

// priorities around the sizes of integers
static void intpqwide(const std::vector<int> &key, unsigned sz) {
	static const unsigned wide[] = { 0, 1, 127, 128, 255, 256, 32768, 65535, 65536, 65537, 131072, 200000 };
	if (!mc::begin([&] {
		std::string t = mc::strf("intpq(%u), priorities", sz);
		for (int k : key)
			t += mc::strf(" %u", wide[k]);
		return t;
	}))
		return;
	int n = key.size();
	for (int gone = -1; gone < n; gone++) {
		Intpq<IOps, E> q(sz);
		E e[4];
		std::set<int> in;
		for (int i = 0; i < n; i++) {
			e[i].id = i;
			e[i].p = wide[key[i]];
			q.push(&e[i], e[i].p);
			in.insert(i);
		}
		if (gone >= 0) {
			q.rm(&e[gone], e[gone].p);
			in.erase(gone);
		}
		bool again = false;
		while (in.size()) {
			E *x = q.pop();
			mc::count(npops);
			MC_CHECK(x && x >= e && x < e + n && in.count(x->id), "pop", "popped something that is not in");
			for (int i : in)
				MC_CHECK(x->p <= e[i].p, "order", "popped %d, but %d is in", x->p, e[i].p);
			in.erase(x->id);
			for (int i = 0; i < n; i++)
				MC_CHECK(q.mem(&e[i]) == (in.count(i) > 0), "mem", "mem(%d) is %d", i, q.mem(&e[i]));
			if (gone >= 0 && !again) {	// back in, perhaps below what was popped
				again = true;
				q.push(&e[gone], e[gone].p);
				in.insert(gone);
			}
		}
		MC_CHECK(q.empty() && !q.pop(), "pop", "popped from an empty queue");
		mc::states(n);
		mc::transitions(n);
	}
	mc::count(nseqs);
	mc::nontrivial();
}

// n elements, in stride order, every third one given another key, taken out again: popped in order, each once
template <class L> struct Huge {
	std::vector<E> e;
	L l;
	Huge(int n) : e(n) {}
	static int key(int i, int n, int pat) {
		return pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (long) i * 7919 % n : i % 300;
	}
	template <class Push, class Change, class Pop> void run(int pat, Push push, Change change, Pop pop) {
		int n = e.size();
		for (int i = 0; i < n; i++) {
			e[i].id = i;
			e[i].p = key(i, n, pat);
			e[i].t = i % 5;
			e[i].ind = -1;
			push(&e[i]);
		}
		for (int i = 0; i < n; i += 3)
			change(&e[i], i % 2 ? e[i].p / 2 : e[i].p + n / 3);
		std::vector<char> out(n, 0);
		E *last = NULL;
		for (int i = 0; i < n; i++) {
			E *x = pop();
			MC_CHECK(x && x >= &e[0] && x <= &e[n - 1] && !out[x->id], "pop", "popped something that is not in, after %d", i);
			out[x->id] = 1;
			MC_CHECK(!last || last->p <= x->p, "order", "popped %d after %d", x->p, last->p);
			last = x;
			mc::count(npops);
		}
		mc::count(nlong);
		mc::states(n);
		mc::transitions(n);
		mc::nontrivial();
	}
};

template <class C> static void hugeopen(const char *kind, int n, int pat) {
	if (!mc::begin([&] { return mc::strf("%s open list of %d elements, pattern %d", kind, n, pat); }))
		return;
	typedef OpenList<OOps, E, C> L;
	Huge<L> h(n);
	h.run(pat, [&](E *x) { h.l.push(x); }, [&](E *x, int p) {
		MC_CHECK(h.l.mem(x), "mem", "element %d is not in", x->id);
		h.l.pre_update(x);
		x->p = p;
		h.l.post_update(x);
	}, [&] { return h.l.empty() ? NULL : h.l.pop(); });
	MC_CHECK(h.l.empty(), "empty", "not empty at the end");
}

static void hugeheap(int n, int pat) {
	if (!mc::begin([&] { return mc::strf("binary heap of %d elements, pattern %d", n, pat); }))
		return;
	Huge<Heap> h(n);
	h.run(pat, [&](E *x) { h.l.push(x); }, [&](E *x, int p) {
		MC_CHECK(x->ind >= 0 && x->ind < h.l.size() && h.l.at(x->ind) == x, "index", "element %d has a wrong index", x->id);
		x->p = p;
		h.l.update(x->ind);
	}, [&]() -> E* {
		auto x = h.l.pop();
		return x ? *x : NULL;
	});
	MC_CHECK(h.l.empty(), "empty", "not empty at the end");
}

static void hugeintpq(int n, int pat) {
	if (!mc::begin([&] { return mc::strf("integer queue of %d elements, pattern %d", n, pat); }))
		return;
	Huge<Intpq<IOps, E>> h(n);
	h.run(pat, [&](E *x) { h.l.push(x, x->p); }, [&](E *x, int p) {
		h.l.rm(x, x->p);
		x->p = p;
		h.l.push(x, x->p);
	}, [&] { return h.l.pop(); });
	MC_CHECK(h.l.empty(), "empty", "not empty at the end");
}

void mc_setup() {
	npops = mc::counter("pops checked against every element");
	nseqs = mc::counter("operation sequences");
	nperm = mc::counter("arrangements of keys");
	nties = mc::counter("ties seen");
	nlong = mc::counter("long heaps");
	mc::suite("heapseq", "binary heap: every sequence of 5 (thorough 6) operations from 16 on 4 elements and 3 keys", 64,
		[](uint64_t c) {
			mc::seqs(16, mc::thorough ? 6 : 5, c, 64, heapseq);
		});
	mc::suite("heapperm", "binary heap: every arrangement of up to 7 keys from 4 (thorough 8), one changed, built by push and by append", 64,
		[](uint64_t c) {
			for (int n = 1; n <= (mc::thorough ? 8 : 6); n++)
				heapperms(n, 4, c, 64);
			heapperms(7, 3, c, 64);
			heapperms(10, 2, c, 64);
		});
	mc::suite("heapbig", "binary heap: 40 elements, keys in every rotation of 8 patterns, every element changed to every key", 40,
		[](uint64_t c) {
			for (int pat = 0; pat < 8; pat++)
				for (int chg = 0; chg < 40; chg++)
					for (int to = -1; to < 41; to += 3) {
						if (!mc::begin([&] { return mc::strf("40 elements, rotation %d of pattern %d, %d becomes %d",
								(int) c, pat, chg, to); }))
							continue;
						HeapModel m(40);
						for (int i = 0; i < 40; i++) {
							int r = (i + c) % 40;
							m.e[i].p = pat < 2 ? (pat ? 39 - r : r) : (r * (2 * pat - 1)) % (37 - pat);
							m.h.push(&m.e[i]);
							m.in.insert(i);
						}
						m.e[chg].p = to;
						m.h.update(m.e[chg].ind);
						m.check("changed");
						m.drain();
						mc::count(nlong);
						mc::states(40);
						mc::transitions(40);
						mc::nontrivial();
					}
		});
	mc::suite("long", "heap, both open lists and integer queue: 480 runs each of 160 operations on 9 to 32 elements", 64,
		[](uint64_t c) {
			runs(c, 64, [](const Run &r) {
				heaprun(r);
				openrun<int>("bucket", r);
				openrun<double>("heap", r);
				intpqrun(1, r);
				intpqrun(50, r);
			});
		});
	mc::suite("openint", "bucketed open list: every sequence of 4 (thorough 5) operations from 29 on 3 elements, 9 keys", 64,
		[](uint64_t c) {
			mc::seqs(29, mc::thorough ? 5 : 4, c, 64, [](const std::vector<int> &s) { return openseq<int>("bucket", 29, s); });
		});
	mc::suite("openheap", "heap open list: every sequence of 4 (thorough 5) operations from 29 on 3 elements, 9 keys", 64,
		[](uint64_t c) {
			mc::seqs(29, mc::thorough ? 5 : 4, c, 64, [](const std::vector<int> &s) { return openseq<double>("heap", 29, s); });
		});
	mc::suite("openmany", "both open lists: every arrangement of up to 6 (thorough 7) elements over 4 keys, one changed", 64,
		[](uint64_t c) {
			for (int n = 1; n <= (mc::thorough ? 8 : 6); n++) {
				openmany<int>("bucket", n, c, 64);
				openmany<double>("heap", n, c, 64);
			}
		});
	mc::suite("huge", "heap, both open lists and integer queue: 300 to 140000 elements in 4 patterns, every third one changed", 16,
		[](uint64_t c) {
			int n = c % 4 == 0 ? 300 : c % 4 == 1 ? 33000 : c % 4 == 2 ? 70000 : 140000, pat = c / 4;
			hugeheap(n, pat);
			hugeopen<int>("bucket", n, pat);
			hugeopen<double>("heap", n, pat);
			hugeintpq(n, pat);
		});
	mc::suite("intpqwide", "integer queue: every 3 (thorough 4) elements with 12 priorities from 0 to 200000, one removed, put back", 64,
		[](uint64_t c) {
			int n = mc::thorough ? 4 : 3;
			mc::Product p;
			p.add(12, n);
			for (uint64_t k = c; k < p.size(); k += 64) {
				p.set(k);
				std::vector<int> v;
				for (int i = 0; i < n; i++)
					v.push_back(p[i]);
				intpqwide(v, k % 3 == 0 ? 1 : k % 3 == 1 ? 1024 : 70000);
			}
		});
	mc::suite("intpq", "integer queue of 1 to 3 initial buckets: every sequence of 5 (thorough 6) operations from 18 on 4 elements", 64,
		[](uint64_t c) {
			for (unsigned sz = 1; sz <= 3; sz++)
				mc::seqs(18, mc::thorough ? 6 : 5, c, 64, [sz](const std::vector<int> &s) { return intpqseq(sz, s); });
		});
}
MC_MAIN
