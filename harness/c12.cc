// C12: the hash tables are exact sets and maps, whatever the hash function.
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include "seq.hpp"
#include "search/closedlist.hpp"
#include "structs/htable.hpp"

static int nseqs, nfinds, niters, nlong, nstats;

static std::map<std::string, std::string> printed;
void dfpair(FILE *f, const char *key, const char *fmt, ...) {
	char buf[256];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	printed[key] = buf;
}

static unsigned long hashfn(int kind, int k) {
	switch (kind) {
	case 0: return 0;
	case 1: return k % 2;
	case 2: return k;
	case 3: return ~0ul - k;
	default: return (unsigned long) k * 0x9E3779B97F4A7C15ul;
	}
}

struct Dom {
	int kind;
	struct PackedState {
		int v;
		unsigned long hash(Dom *d) const { return hashfn(d->kind, v); }
		bool eq(const Dom *d, const PackedState &o) const {
			MC_CHECK(d != NULL && d->kind >= 0 && d->kind < 5, "domain", "eq is not given the domain");
			return v == o.v;
		}
	};
};

struct N {
	ClosedEntry<N, Dom> ent;
	Dom::PackedState st;
	static ClosedEntry<N, Dom> &closedentry(N *n) { return n->ent; }
	static Dom::PackedState &key(N *n) { return n->st; }
};

struct ClosedModel {
	Dom d;
	ClosedList<N, N, Dom> l;
	std::vector<N> n;
	std::set<int> in;
	ClosedModel(int kind, int sz, int nn) : l(sz), n(nn) {
		d.kind = kind;
		l.init(d);
		for (int i = 0; i < nn; i++)
			n[i].st.v = i;
	}
	void add(int i, bool withhash) {
		if (withhash)
			l.add(&n[i], n[i].st.hash(&d));
		else
			l.add(&n[i]);
		in.insert(i);
	}
	void rm(int i, bool withhash) {
		Dom::PackedState k;
		k.v = i;
		N *p = withhash ? l.remove(k, k.hash(&d)) : l.remove(k);
		MC_CHECK(p == (in.count(i) ? &n[i] : NULL), "remove", "remove(%d) returned %s", i, p ? "a wrong node" : "nothing");
		in.erase(i);
	}
	void check() {
		MC_CHECK(l.getFill() == in.size(), "fill", "fill is %lu, not %zu", l.getFill(), in.size());
		MC_CHECK(l.empty() == in.empty(), "fill", "empty() is %d", l.empty());
		for (int i = 0; i < (int) n.size(); i++) {
			Dom::PackedState k;
			k.v = i;
			mc::count(nfinds);
			N *want = in.count(i) ? &n[i] : NULL;
			N *p = l.find(k), *q = l.find(k, k.hash(&d));
			MC_CHECK(p == want && q == want, "find", "find(%d) returned %s", i, want ? "nothing or another node" : "a node");
		}
		std::set<int> seen;
		for (N *p : l) {
			mc::count(niters);
			MC_CHECK(p && p >= &n[0] && p <= &n.back(), "iterate", "a wrong node while iterating");
			MC_CHECK(seen.insert(p->st.v).second, "iterate", "node %d twice while iterating", p->st.v);
			MC_CHECK(in.count(p->st.v), "iterate", "node %d while iterating is not in", p->st.v);
		}
		MC_CHECK(seen == in, "iterate", "iterated over %zu of %zu nodes", seen.size(), in.size());
	}
	void stats() {
		printed.clear();
		l.prstats(stdout, "x ");
		mc::count(nstats);
		MC_CHECK(printed["x fill"] == mc::strf("%zu", in.size()), "stats", "fill %s for %zu", printed["x fill"].c_str(), in.size());
		unsigned long b = strtoul(printed["x buckets"].c_str(), NULL, 10);
		MC_CHECK(b > 0, "stats", "no buckets");
		std::map<unsigned long, int> f;
		int m = 0;
		for (int i : in)
			m = std::max(m, ++f[hashfn(d.kind, i) % b]);
		MC_CHECK(printed["x max bucket fill"] == mc::strf("%d", m), "stats", "max bucket fill %s, not %d of %lu buckets",
			printed["x max bucket fill"].c_str(), m, b);
	}
};

static bool closedseq(int kind, int sz, const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = mc::strf("closed list of %d buckets, hash %d:", sz, kind);
		for (int o : s)
			t += o < 6 ? mc::strf(" add(%d)", o) : o < 12 ? mc::strf(" remove(%d)", o - 6) : " clear";
		return t;
	}))
		return true;
	ClosedModel m(kind, sz, 6);
	for (size_t k = 0; k < s.size(); k++) {
		int o = s[k];
		if (o < 6) {
			if (m.in.count(o))
				return false;
			m.add(o, k & 1);
		} else if (o < 12)
			m.rm(o - 6, k & 1);
		else {
			m.l.clear();
			m.in.clear();
		}
	}
	m.check();
	m.stats();
	mc::count(nseqs);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// n elements, then each of them removed, then put back
static void closedlong(int kind, int sz, int n) {
	for (int gone = 0; gone < n; gone += 1 + n / 12) {
		if (!mc::begin([&] { return mc::strf("closed list of %d buckets, hash %d, %d nodes, removing %d and its successors", sz, kind, n, gone); }))
			continue;
		ClosedModel m(kind, sz, n);
		for (int i = 0; i < n; i++)
			m.add((i * 7 + gone) % n == i ? i : i, i & 1);
		m.check();
		m.stats();
		for (int i = gone; i < n; i += 3)
			m.rm(i, i & 1);
		m.check();
		m.stats();
		for (int i = gone; i < n; i += 3)
			m.add(i, true);
		m.check();
		m.l.resize(sz + n);
		m.check();
		m.stats();
		mc::count(nlong);
		mc::states(n);
		mc::transitions(n);
		mc::nontrivial();
	}
}

// ---- Htable: keys may repeat

static int hkind;
struct H {
	HtableEntry<H> ent;
	int key;
};
struct HOps {
	static int key(H *h) { return h->key; }
	static unsigned long hash(int k) { return hashfn(hkind, k); }
	static HtableEntry<H> &entry(H *h) { return h->ent; }
};

template <int FF> static bool htseq(int kind, int sz, const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = mc::strf("htable<fill %d> of %d buckets, hash %d:", FF, sz, kind);
		for (int o : s)
			t += o < 6 ? mc::strf(" add(%d: key %d)", o, o % 4) : o < 10 ? mc::strf(" rm(key %d)", o - 6) : " clear";
		return t;
	}))
		return true;
	hkind = kind;
	Htable<HOps, int, H, FF> t(sz);
	H e[6];
	std::set<int> in;
	for (int i = 0; i < 6; i++)
		e[i].key = i % 4;
	auto find = [&](int key) {
		int cnt = 0;
		for (int i : in)
			cnt += e[i].key == key;
		H *p = t.find(key), *q = t.find(key, HOps::hash(key));
		mc::count(nfinds);
		MC_CHECK((p != NULL) == (cnt > 0) && p == q, "find", "find(%d) returned %s with %d elements of that key", key, p ? "one" : "nothing", cnt);
		if (p)
			MC_CHECK(p >= e && p < e + 6 && in.count(p - e) && p->key == key, "find", "find(%d) returned an element that is not in", key);
		return p;
	};
	for (size_t k = 0; k < s.size(); k++) {
		int o = s[k];
		if (o < 6) {
			if (in.count(o))
				return false;
			if (k & 1)
				t.add(&e[o]);
			else
				t.add(&e[o], HOps::hash(e[o].key));
			in.insert(o);
		} else if (o < 10) {
			int key = o - 6, cnt = 0;
			for (int i : in)
				cnt += e[i].key == key;
			bool r = k & 1 ? t.rm(key) : t.rm(key, HOps::hash(key));
			MC_CHECK(r == (cnt > 0), "rm", "rm(%d) returned %d with %d elements of that key", key, r, cnt);
			if (cnt == 1) {
				for (int i = 0; i < 6; i++)
					if (e[i].key == key)
						in.erase(i);
			} else if (cnt == 2) {
				// one of the two is left
				H *p = t.find(key);
				MC_CHECK(p && p->key == key, "rm", "rm(%d) removed both elements", key);
				for (int i = 0; i < 6; i++)
					if (e[i].key == key && &e[i] != p)
						in.erase(i);
			}
		} else {
			t.clear();
			in.clear();
		}
	}
	for (int key = 0; key < 5; key++)
		find(key);
	printed.clear();
	t.prstats(stdout, "y ");
	MC_CHECK(printed["y fill"] == mc::strf("%zu", in.size()), "stats", "fill %s for %zu", printed["y fill"].c_str(), in.size());
	// every element can be taken out again
	for (int key = 0; key < 4; key++) {
		int cnt = 0;
		for (int i : in)
			cnt += e[i].key == key;
		for (; cnt > 0; cnt--)
			MC_CHECK(t.rm(key), "rm", "%d elements of key %d could not be removed", cnt, key);
		MC_CHECK(!t.rm(key) && !t.find(key), "rm", "an element of key %d remains", key);
	}
	mc::count(nseqs);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// n nodes in one table, checked one by one without a set
static void closedhuge(int kind, int sz, int n) {
	if (!mc::begin([&] { return mc::strf("closed list of %d buckets, hash %d, %d nodes", sz, kind, n); }))
		return;
	Dom d;
	d.kind = kind;
	ClosedList<N, N, Dom> l(sz);
	l.init(d);
	std::vector<N> nodes(n);
	auto check = [&](int from, int step, const char *when) {
		unsigned long want = 0;
		for (int i = 0; i < n; i++) {
			Dom::PackedState k;
			k.v = i;
			bool in = i < from || i % step != 0;
			want += in;
			MC_CHECK(l.find(k) == (in ? &nodes[i] : NULL), "find", "%s: find(%d)", when, i);
			mc::count(nfinds);
		}
		MC_CHECK(l.getFill() == want, "fill", "%s: fill is %lu, not %lu", when, l.getFill(), want);
		std::vector<char> seen(n, 0);
		unsigned long cnt = 0;
		for (N *p : l) {
			MC_CHECK(p && p >= &nodes[0] && p <= &nodes.back() && !seen[p->st.v], "iterate", "%s: a wrong node while iterating", when);
			seen[p->st.v] = 1;
			cnt++;
		}
		MC_CHECK(cnt == want, "iterate", "%s: iterated over %lu of %lu nodes", when, cnt, want);
		mc::count(niters, cnt);
	};
	for (int i = 0; i < n; i++) {
		nodes[i].st.v = i;
		if (i % 2)
			l.add(&nodes[i]);
		else
			l.add(&nodes[i], nodes[i].st.hash(&d));
	}
	check(n, 1, "filled");
	for (int i = 0; i < n; i += 5) {
		Dom::PackedState k;
		k.v = i;
		MC_CHECK(l.remove(k) == &nodes[i], "remove", "remove(%d)", i);
		MC_CHECK(!l.remove(k), "remove", "remove(%d) twice", i);
	}
	check(0, 5, "removed");
	l.resize(2 * n + 1);
	check(0, 5, "resized");
	l.clear();
	MC_CHECK(l.empty() && l.getFill() == 0 && !(l.begin() != l.end()), "fill", "not empty after clear");
	mc::count(nlong);
	mc::states(n);
	mc::transitions(n);
	mc::nontrivial();
}

static void hthuge(int kind, int sz, int n) {
	if (!mc::begin([&] { return mc::strf("htable of %d buckets, hash %d, %d elements", sz, kind, n); }))
		return;
	hkind = kind;
	Htable<HOps, int, H> t(sz);
	std::vector<H> e(n);
	for (int i = 0; i < n; i++) {
		e[i].key = i;
		t.add(&e[i]);
	}
	for (int i = 0; i < n; i++)
		MC_CHECK(t.find(i) == &e[i], "find", "find(%d)", i);
	for (int i = 0; i < n; i += 5)
		MC_CHECK(t.rm(i) && !t.rm(i), "rm", "rm(%d)", i);
	for (int i = 0; i < n; i++)
		MC_CHECK(t.find(i) == (i % 5 ? &e[i] : NULL), "find", "find(%d) after removals", i);
	mc::count(nfinds, 2 * n);
	mc::count(nlong);
	mc::states(n);
	mc::transitions(n);
	mc::nontrivial();
}

void mc_setup() {
	nseqs = mc::counter("operation sequences");
	nfinds = mc::counter("lookups checked");
	niters = mc::counter("nodes iterated over");
	nlong = mc::counter("long tables");
	nstats = mc::counter("statistics checked");
	mc::suite("closed", "closed list: every sequence of 6 (thorough 7) operations from 13 on 6 nodes, 5 hash functions, 1 to 3 initial buckets", 64,
		[](uint64_t c) {
			for (int kind = 0; kind < 5; kind++)
				for (int sz = 1; sz <= 3; sz++)
					if (mc::thorough || (kind + sz) % 2 || kind == 0)
						mc::seqs(13, mc::thorough ? 7 : 6, c, 64, [=](const std::vector<int> &s) { return closedseq(kind, sz, s); });
		});
	mc::suite("closedlong", "closed list: 1 to 120 nodes, 5 hash functions, 1 to 64 initial buckets, removals and growth", 120,
		[](uint64_t c) {
			for (int kind = 0; kind < 5; kind++)
				for (int sz : {1, 2, 7, 64})
					closedlong(kind, sz, c + 1);
		});
	mc::suite("huge", "closed list and Htable: 700 to 90000 nodes, 3 hash functions, 1 to 100000 initial buckets, removals and growth", 36,
		[](uint64_t c) {
			int kind = 2 + c % 3, n = c / 3 % 4 == 0 ? 700 : c / 3 % 4 == 1 ? 9000 : c / 3 % 4 == 2 ? 35000 : 90000;
			int sz = c / 12 == 0 ? 1 : c / 12 == 1 ? 1024 : 100000;
			closedhuge(kind, sz, n);
			hthuge(kind, sz, n);
		});
	mc::suite("htable", "Htable: every sequence of 6 (thorough 7) operations from 11 on 6 elements with 4 keys, 5 hash functions, 1 to 3 initial buckets", 64,
		[](uint64_t c) {
			for (int kind = 0; kind < 5; kind++)
				for (int sz = 1; sz <= 3; sz++) {
					mc::seqs(11, mc::thorough ? 7 : 6, c, 64, [=](const std::vector<int> &s) { return htseq<2>(kind, sz, s); });
					if (sz == 1)
						mc::seqs(11, mc::thorough ? 7 : 6, c, 64, [=](const std::vector<int> &s) { return htseq<1>(kind, sz, s); });
				}
		});
	mc::suite("htlong", "Htable: 1 to 120 elements, 5 hash functions", 120,
		[](uint64_t c) {
			for (int kind = 0; kind < 5; kind++)
				for (int sz : {1, 3, 50}) {
					int n = c + 1;
					if (!mc::begin([&] { return mc::strf("htable of %d buckets, hash %d, %d elements", sz, kind, n); }))
						continue;
					hkind = kind;
					Htable<HOps, int, H> t(sz);
					std::vector<H> e(n);
					for (int i = 0; i < n; i++) {
						e[i].key = i;
						t.add(&e[i]);
					}
					for (int i = 0; i <= n; i++)
						MC_CHECK(t.find(i) == (i < n ? &e[i] : NULL), "find", "find(%d)", i);
					for (int i = 0; i < n; i += 2)
						MC_CHECK(t.rm(i), "rm", "rm(%d)", i);
					for (int i = 0; i <= n; i++)
						MC_CHECK(t.find(i) == (i < n && i % 2 ? &e[i] : NULL), "find", "find(%d) after removals", i);
					mc::count(nlong);
					mc::states(n);
					mc::transitions(n);
					mc::nontrivial();
				}
		});
}
MC_MAIN
