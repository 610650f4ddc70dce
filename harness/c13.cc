// C13: k-d trees find a nearest point; disjoint sets are a partition; pools
// hand out disjoint memory.
#include <cmath>
#include <map>
#include <set>
#include <algorithm>
#include "seq.hpp"
#include "structs/kdtree.hpp"
#include "structs/djset.hpp"
#include "utils/pool.hpp"

static int nnear, ntrees, nties, nparts, npools, niter;

template <unsigned K> static void tree(const std::vector<int> &pts, int side, bool check2) {
	// pts are indices into the side^K lattice; queries are the points of
	// the twice finer lattice around it
	if (!mc::begin([&] {
		std::string s = mc::strf("%u-d tree of", K);
		for (int p : pts) {
			s += " (";
			for (unsigned i = 0, q = p; i < K; i++, q /= side)
				s += mc::strf(i ? ",%u" : "%u", q % side);
			s += ")";
		}
		return s;
	}))
		return;
	Kdtree<K, int> t;
	std::vector<std::vector<double>> P;
	for (size_t i = 0; i < pts.size(); i++) {
		double pt[K];
		int q = pts[i];
		for (unsigned k = 0; k < K; k++, q /= side)
			pt[k] = q % side;
		t.insert(pt, i);
		P.push_back(std::vector<double>(pt, pt + K));
	}
	MC_CHECK(t.size() == pts.size(), "size", "size %lu, not %zu", t.size(), pts.size());
	MC_CHECK(t.depth() <= pts.size() && (t.depth() > 30 || (1ul << t.depth()) > pts.size()), "depth", "depth %u of %zu points", t.depth(), pts.size());
	std::set<int> seen;
	for (auto n : t) {
		mc::count(niter);
		MC_CHECK(n->data >= 0 && n->data < (int) P.size() && seen.insert(n->data).second, "iterate", "data %d twice", n->data);
		for (unsigned k = 0; k < K; k++)
			MC_CHECK(n->point[k] == P[n->data][k], "iterate", "point %d has moved", n->data);
	}
	MC_CHECK(seen.size() == P.size(), "iterate", "iterated over %zu of %zu points", seen.size(), P.size());
	int qs = 2 * side + 1, nq = 1;
	for (unsigned k = 0; k < K; k++)
		nq *= qs;
	for (int q = 0; q < nq; q++) {
		double pt[K];
		int r = q;
		for (unsigned k = 0; k < K; k++, r /= qs)
			pt[k] = (r % qs - 1) / 2.0 + (check2 ? 0.1 * (k + 1) : 0);
		auto n = t.nearest(pt);
		mc::count(nnear);
		MC_CHECK(n || P.empty(), "nearest", "nothing is nearest to query %d", q);
		if (!n)
			continue;
		double best = INFINITY;
		int cnt = 0;
		for (auto &p : P) {
			double d = 0;
			for (unsigned k = 0; k < K; k++)
				d += (p[k] - pt[k]) * (p[k] - pt[k]);
			if (d < best) { best = d; cnt = 0; }
			cnt += d == best;
		}
		if (cnt > 1)
			mc::count(nties);
		double d = 0;
		for (unsigned k = 0; k < K; k++)
			d += (n->point[k] - pt[k]) * (n->point[k] - pt[k]);
		MC_CHECK(n->data >= 0 && n->data < (int) P.size() && n->point[0] == P[n->data][0], "nearest", "a node that was not inserted");
		MC_CHECK(d == best, "nearest", "query (%g,%g): the answer is %g away (squared), the nearest point %g", pt[0], K > 1 ? pt[1] : 0, d, best);
	}
	mc::count(ntrees);
	mc::states(nq);
	mc::transitions(pts.size());
	if (pts.size() > 2)
		mc::nontrivial();
}

// djset: every sequence of joins among n sets, checked by finds in every order
static bool djseq(int n, const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = mc::strf("%d sets:", n);
		for (int o : s)
			t += o < n * n ? mc::strf(" join(%d,%d)", o / n, o % n) : mc::strf(" clear all");
		return t;
	}))
		return true;
	std::vector<Djset> d(n);
	std::vector<int> cls(n);
	auto fresh = [&] {
		for (int i = 0; i < n; i++)
			cls[i] = i;
	};
	fresh();
	static int mark[64];
	for (int i = 0; i < n; i++)
		d[i].aux = &mark[i];
	for (int o : s) {
		if (o == n * n) {
			for (auto &x : d)
				x.clear();
			fresh();
			continue;
		}
		int a = o / n, b = o % n;
		d[a].join(d[b]);
		int ca = cls[a], cb = cls[b];
		for (int &c : cls)
			if (c == cb)
				c = ca;
	}
	for (int i = 0; i < n; i++)
		for (int j = n - 1; j >= 0; j--) {
			bool same = d[i].find() == d[j].find();
			MC_CHECK(same == (cls[i] == cls[j]), "partition", "%d and %d are%s in one set", i, j, same ? "" : " not");
		}
	for (int i = 0; i < n; i++) {
		Djset *f = d[i].find();
		MC_CHECK(f >= &d[0] && f < &d[0] + n && cls[f - &d[0]] == cls[i], "canonical", "the representative of %d is not of its set", i);
		MC_CHECK(d[i].aux == &mark[i], "aux", "aux was touched");
	}
	mc::count(nparts);
	mc::states(n);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

static int nctor, ndtor;
template <int Sz> struct Obj {
	unsigned char b[Sz];
	Obj() { nctor++; memset(b, 0x11, Sz); }
	~Obj() { ndtor++; }
};

// pool: every sequence of construct, get, destruct and put
template <int Sz> static bool poolseq(int blksz, const std::vector<int> &s) {
	if (!mc::begin([&] {
		std::string t = mc::strf("pool of %d-byte objects, blocks of %d:", Sz, blksz);
		for (int o : s)
			t += o == 0 ? " construct" : o == 1 ? " get" : mc::strf(o % 2 ? " put(%d)" : " destruct(%d)", o / 2 - 1);
		return t;
	}))
		return true;
	typedef Obj<Sz> O;
	nctor = ndtor = 0;
	int wantc = 0, wantd = 0;
	Pool<O> *p = new Pool<O>(blksz);
	std::vector<O*> live;
	std::vector<int> tag;
	int next = 1;
	size_t most = 0;
	for (int o : s) {
		if (o < 2) {
			O *x = o == 0 ? p->construct() : p->get();
			wantc += o == 0;
			MC_CHECK(x, "pool", "no object");
			MC_CHECK((uintptr_t) x % alignof(O) == 0, "pool", "misaligned object");
			if (o == 0)
				for (int i = 0; i < Sz; i++)
					MC_CHECK(x->b[i] == 0x11, "pool", "object not constructed");
			live.push_back(x);
			tag.push_back(next);
			memset(x->b, next++, Sz);
			most = std::max(most, live.size());
		} else {
			size_t i = o / 2 - 1;
			if (i >= live.size())
				return false;
			if (o % 2)
				p->put(live[i]);
			else {
				p->destruct(live[i]);
				wantd++;
			}
			live.erase(live.begin() + i);
			tag.erase(tag.begin() + i);
		}
		for (size_t i = 0; i < live.size(); i++)
			for (int k = 0; k < Sz; k++)
				MC_CHECK(live[i]->b[k] == tag[i], "pool", "byte %d of a live object was overwritten", k);
	}
	MC_CHECK(nctor == wantc && ndtor == wantd, "pool", "%d constructions and %d destructions, not %d and %d", nctor, ndtor, wantc, wantd);
	MC_CHECK(p->blocks() <= 1 + (most + blksz - 1) / blksz && p->blocks() * blksz >= most, "pool", "%lu blocks for at most %zu objects of %d in a block",
		p->blocks(), most, blksz);
	delete p;
	mc::count(npools);
	mc::states(s.size() + 1);
	mc::transitions(s.size());
	if (s.size() > 2)
		mc::nontrivial();
	return true;
}

// n points: the tree is complete, and a few queries are answered right
template <unsigned K> static void hugetree(int n, int a, int pat) {
	if (!mc::begin([&] { return mc::strf("%u-d tree of %d points, stride %d, pattern %d", K, n, a, pat); }))
		return;
	Kdtree<K, int> t;
	std::vector<std::vector<double>> P(n, std::vector<double>(K));
	for (int i = 0; i < n; i++) {
		double pt[K];
		long q = pat == 0 ? (long) i * a % n : pat == 1 ? (long) i * i % n : (long) (i % 2 ? i : n - i) * a % n;
		for (unsigned k = 0; k < K; k++, q = q * 31 + a)
			pt[k] = P[i][k] = k == 0 ? q % 61 : q % 53;
		t.insert(pt, i);
	}
	MC_CHECK(t.size() == (unsigned long) n, "size", "size %lu, not %d", t.size(), n);
	MC_CHECK(t.depth() <= (unsigned) n && (1ul << std::min(t.depth(), 40u)) > (unsigned long) n, "depth", "depth %u of %d points", t.depth(), n);
	std::vector<char> seen(n, 0);
	int cnt = 0;
	for (auto x : t) {
		MC_CHECK(x->data >= 0 && x->data < n && !seen[x->data], "iterate", "data %d twice", x->data);
		seen[x->data] = 1;
		cnt++;
		for (unsigned k = 0; k < K; k++)
			MC_CHECK(x->point[k] == P[x->data][k], "iterate", "point %d has moved", x->data);
	}
	mc::count(niter, cnt);
	MC_CHECK(cnt == n, "iterate", "iterated over %d of %d points", cnt, n);
	for (int q = 0; q < 60; q++) {
		double pt[K];
		for (unsigned k = 0; k < K; k++)
			pt[k] = (q * (k ? 11 : 7) % 65) - 1.5 + q % 2 * 0.5;
		auto x = t.nearest(pt);
		MC_CHECK(x && x->data >= 0 && x->data < n, "nearest", "nothing is nearest");
		auto dist = [&](const double *p) {
			double d = 0;
			for (unsigned k = 0; k < K; k++)
				d += (p[k] - pt[k]) * (p[k] - pt[k]);
			return d;
		};
		double best = INFINITY;
		for (auto &p : P)
			best = std::min(best, dist(&p[0]));
		MC_CHECK(dist(&x->point[0]) == best, "nearest", "query %d: the answer is %g away (squared), the nearest point %g", q, dist(&x->point[0]), best);
		mc::count(nnear);
	}
	mc::count(ntrees);
	mc::states(n);
	mc::transitions(n);
	mc::nontrivial();
}

// n objects at once, some put back and taken again: no two share a byte
template <int Sz> static void hugepool(int blksz, int n, int back) {
	if (!mc::begin([&] { return mc::strf("pool of %d-byte objects, blocks of %d, %d objects, every %d. put back", Sz, blksz, n, back); }))
		return;
	typedef Obj<Sz> O;
	nctor = ndtor = 0;
	Pool<O> p(blksz);
	std::vector<O*> live;
	auto all = [&](const char *when) {
		std::vector<O*> s(live);
		std::sort(s.begin(), s.end());
		for (size_t i = 1; i < s.size(); i++)
			MC_CHECK((char*) s[i] - (char*) s[i-1] >= Sz, "pool", "%s: two objects overlap", when);
		for (size_t i = 0; i < live.size(); i++)
			for (int k = 0; k < Sz; k++)
				MC_CHECK(live[i]->b[k] == (i * 7 + k) % 251, "pool", "%s: byte %d of object %zu was overwritten", when, k, i);
	};
	auto fill = [&](size_t i) {
		for (int k = 0; k < Sz; k++)
			live[i]->b[k] = (i * 7 + k) % 251;
	};
	for (int i = 0; i < n; i++) {
		live.push_back(p.construct());
		fill(i);
	}
	all("constructed");
	MC_CHECK(p.blocks() * blksz >= (unsigned long) n && p.blocks() <= 1ul + (n + blksz - 1) / blksz, "pool", "%lu blocks of %d for %d objects", p.blocks(), blksz, n);
	unsigned long b = p.blocks();
	int m = 0;
	for (int i = 0; i < n; i += back, m++)
		p.destruct(live[i]);
	for (int i = 0; i < n; i += back) {
		live[i] = p.construct();
		fill(i);
	}
	all("put back and taken again");
	MC_CHECK(p.blocks() == b, "pool", "%lu blocks after reuse, not %lu", p.blocks(), b);
	MC_CHECK(nctor == n + m && ndtor == m, "pool", "%d constructions and %d destructions, not %d and %d", nctor, ndtor, n + m, m);
	mc::count(npools);
	mc::states(n);
	mc::transitions(n);
	mc::nontrivial();
}

void mc_setup() {
	ntrees = mc::counter("k-d trees");
	nnear = mc::counter("nearest-point queries");
	nties = mc::counter("queries with several nearest points");
	niter = mc::counter("nodes iterated over");
	nparts = mc::counter("join sequences");
	npools = mc::counter("pool sequences");
	mc::suite("kd2", "2-d trees: every insertion order of up to 5 (thorough 6) points of a 3x3 lattice, repeats included", 81,
		[](uint64_t c) {
			for (int n = 0; n <= (mc::thorough ? 6 : 5); n++) {
				mc::Product p;
				p.add(9, n);
				for (uint64_t k = c; k < p.size(); k += 81) {
					p.set(k);
					std::vector<int> v;
					for (int i = 0; i < n; i++)
						v.push_back(p[i]);
					tree<2>(v, 3, k & 1);
				}
			}
		});
	mc::suite("kd2b", "2-d trees of 16 points of a 7x7 lattice: every stride and offset", 49,
		[](uint64_t c) {
			for (int a = 1; a < 49; a++)
				for (int n = 7; n <= 49; n += 7) {
					std::vector<int> v;
					for (int i = 0; i < n; i++)
						v.push_back((c + i * a + i * i * (a % 3)) % 49);
					tree<2>(v, 7, a & 1);
				}
		});
	mc::suite("kd3", "3-d trees: every insertion order of up to 5 (thorough 6) points of a 2x2x2 lattice", 64,
		[](uint64_t c) {
			for (int n = 0; n <= (mc::thorough ? 6 : 5); n++) {
				mc::Product p;
				p.add(8, n);
				for (uint64_t k = c; k < p.size(); k += 64) {
					p.set(k);
					std::vector<int> v;
					for (int i = 0; i < n; i++)
						v.push_back(p[i]);
					tree<3>(v, 2, k & 1);
				}
			}
		});
	mc::suite("kd1", "1-d trees: every insertion order of up to 6 (thorough 7) points out of 6", 36,
		[](uint64_t c) {
			for (int n = 0; n <= (mc::thorough ? 7 : 6); n++) {
				mc::Product p;
				p.add(6, n);
				for (uint64_t k = c; k < p.size(); k += 36) {
					p.set(k);
					std::vector<int> v;
					for (int i = 0; i < n; i++)
						v.push_back(p[i]);
					tree<1>(v, 6, k & 1);
				}
			}
		});
	mc::suite("huge", "k-d trees of 250 to 3000 points, pools of 100 to 70000 objects, in part", 24,
		[](uint64_t c) {
			static const int ns[] = { 250, 257, 300, 700, 1500, 3000 };
			int n = ns[c % 6], a = c / 6 == 0 ? 1 : c / 6 == 1 ? 7 : c / 6 == 2 ? 101 : 0;
			for (int pat = 0; pat < 3; pat++) {
				hugetree<1>(n, a, pat);
				hugetree<2>(n, a, pat);
				hugetree<3>(n, a, pat);
			}
			static const int bs[] = { 1, 2, 3, 127, 256, 1024 };
			for (int m : { 100, 300, 1000, 70000 })
				if (m < 70000 || bs[c % 6] > 1) {
					hugepool<1>(bs[c % 6], m, 1 + c / 6);
					hugepool<24>(bs[c % 6], m, 1 + c / 6);
				}
		});
	mc::suite("djset", "disjoint sets: every sequence of up to 5 joins of 4 sets, 4 joins of 6 sets, with clear", 64,
		[](uint64_t c) {
			mc::seqs(17, mc::thorough ? 6 : 5, c, 64, [](const std::vector<int> &s) { return djseq(4, s); });
			mc::seqs(37, mc::thorough ? 4 : 3, c, 64, [](const std::vector<int> &s) { return djseq(6, s); });
		});
	mc::suite("kdlong", "2- and 3-d trees of 64 to 216 points of an 11x11 or 6x6x6 lattice: every stride, sorted and folded orders", 48,
		[](uint64_t c) {
			for (int n : { 64, 100, 121 })
				for (int a = 1 + c; a < 121; a += 48)
					for (int fold = 0; fold < 3; fold++) {
						std::vector<int> v;
						for (int i = 0; i < n; i++) {
							int x = i * a % 121;
							v.push_back(fold == 0 ? x : fold == 1 ? x / 11 % 5 * 11 + x % 11 : std::min(x, 120 - x));
						}
						tree<2>(v, 11, a & 1);
					}
			for (int n : { 64, 216 })
				for (int a = 1 + c; a < 216; a += 96) {
					std::vector<int> v;
					for (int i = 0; i < n; i++)
						v.push_back(i * a % 216);
					tree<3>(v, 6, a & 1);
				}
		});
	mc::suite("djset-long", "disjoint sets: 40 sets, 20 to 80 joins by strides", 39,
		[](uint64_t c) {
			for (int b = 0; b < 40; b++)
				for (int m : { 20, 38, 80 })
					for (int half : { 1, 2, 4 }) {
						std::vector<int> s;
						for (int i = 0; i < m; i++) {
							int x = i * (c + 1) % 40, y = (i * (c + 1) * (half == 2 ? 3 : 1) + b) / half % 40;
							s.push_back(i % 2 ? x * 40 + y : y * 40 + x);
						}
						djseq(40, s);
					}
		});
	mc::suite("djset-trees", "disjoint sets: every sequence of joins that unites something: of 6 sets, and of 8 sets of which pairs are already joined", 64,
		[](uint64_t c) {
			uint64_t k = 0;
			// joins goes on from the sequence s, of which the classes are cls.
			std::function<void(int, std::vector<int>&, std::vector<int>)> joins =
				[&](int n, std::vector<int> &s, std::vector<int> cls) {
				bool one = true;
				for (int x : cls)
					one = one && x == cls[0];
				if (one) {
					djseq(n, s);
					return;
				}
				for (int a = 0; a < n; a++)
				for (int b = 0; b < n; b++) {
					if (cls[a] == cls[b])
						continue;
					if (s.size() == (n == 6 ? 2u : 5u) && k++ % 64 != c)
						continue;
					std::vector<int> nxt(cls);
					for (int &x : nxt)
						if (x == cls[b])
							x = cls[a];
					s.push_back(a * n + b);
					joins(n, s, nxt);
					s.pop_back();
				}
			};
			std::vector<int> s;
			joins(6, s, {0, 1, 2, 3, 4, 5});
			for (int m = 0; m < (mc::thorough ? 16 : 4); m++) {
				s.clear();
				std::vector<int> cls;
				for (int i = 0; i < 8; i += 2) {
					s.push_back(m >> i/2 & 1 ? (i + 1) * 8 + i : i * 8 + i + 1);
					cls.push_back(i);
					cls.push_back(i);
				}
				joins(8, s, cls);
			}
		});
	mc::suite("pool", "pools: every sequence of 8 (thorough 9) operations, objects of 1 to 24 bytes, blocks of 1 to 4", 16,
		[](uint64_t c) {
			int dep = mc::thorough ? 9 : 7;
			for (int b = 1; b <= 4; b++) {
				mc::seqs(10, dep, c, 16, [b](const std::vector<int> &s) { return poolseq<1>(b, s); });
				mc::seqs(10, dep, c, 16, [b](const std::vector<int> &s) { return poolseq<24>(b, s); });
			}
		});
}
MC_MAIN
