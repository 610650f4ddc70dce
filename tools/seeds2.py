import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C04-bugsy-reopen-op", "C04", [("search/bugsy.hpp", """				if (dup->openind < 0)
					this->res.reopnd++;
""", """				bool isopen = dup->openind >= 0;
				if (!isopen)
					this->res.reopnd++;
"""), ("search/bugsy.hpp", """				dup->op = op;
""", """				if (isopen)
					dup->op = op;
""")],
  "a closed state that Bugsy reaches again more cheaply by an operator of another number, and that is on the solution path",
  "a re-opened node keeps the operator it was first reached by, so the operators of the solution do not lead along its states",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gidx<int> D;
	// 2 is closed through 1 (its operator 0) before 3 (its operator 1) is tried
	D d({0, 0, 0, 11, 0, 9}, {{0, 1, 20}, {1, 2, 1}, {2, 4, 10}, {0, 3, 1}, {3, 5, 1}, {3, 2, 1}}, {4});
	d.ds = {0, 0, 0, 11, 0, 9};
	SearchAlgorithm<D> *a = demoalg<D>({"bugsy", "-wf", "0", "-wt", "1", "-noresort"});
	for (int wf = 0; wf < 2; wf++) {
		SearchAlgorithm<D> *b = wf ? demoalg<D>({"bugsy", "-wf", "1", "-wt", "0"}) : a;
		D::State s0 = d.initialstate();
		b->search(d, s0);
		double c = d.cost(b->res.path, b->res.ops);
		EXPECT(c >= 0, "Bugsy returned a path (%d) that is not one", (int) c);
	}
	// g: the cheap way is held back by its heuristic
	D e({0, 0, 0, 21, 0, 9}, {{0, 1, 20}, {1, 2, 1}, {2, 4, 10}, {0, 3, 1}, {3, 5, 1}, {3, 2, 1}}, {4});
	SearchAlgorithm<D> *b = demoalg<D>({"bugsy", "-wf", "1", "-wt", "0"});
	D::State s0 = e.initialstate();
	b->search(e, s0);
	double c = e.cost(b->res.path, b->res.ops);
	EXPECT(c >= 0, "Bugsy returned a path (%d) that is not one", (int) c);
	return 0;
}
''')

S("C06-gend-with-expd", "C06", [("search/search.hpp", """			(gend > 0 && r.gend >= gend);""",
  """			(gend > 0 && expd == 0 && r.gend >= gend);""")],
  "an expansion limit and a generation limit given together, of which the generation limit is reached first",
  "the generation limit is ignored when there is an expansion limit as well",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gdom<int> D;
	D d(30);
	for (int i = 0; i + 3 < 30; i++) { d.arc(i, i+1, 1); d.arc(i, i+2, 1); d.arc(i, i+3, 1); }
	d.goals[29] = 1;
	SearchAlgorithm<D> *a = demoalg<D>({"astar", "-gend", "4", "-expd", "20"});
	D::State s0 = d.initialstate();
	a->search(d, s0);
	EXPECT(a->res.gend <= 6, "%lu states were generated under a limit of 4", a->res.gend);
	return 0;
}
''')

S("C07-bugsy-delay-kept", "C07", [("search/bugsy.hpp", """		avgdelay = delaylast = 0;
		nodes = new Pool<Node>();""", """		avgdelay = 0;
		nodes = new Pool<Node>();""")],
  "Bugsy with -expdelay, used again after a reset, on a problem for which the first search re-sorted its open list",
  "the expansion delay of the earlier search is kept, and orders the first nodes of the next one",
  demo=r'''#include "gdom.hpp"
static double now = 0;
extern "C" double fakewall() { return now; }
typedef Gdom<int> D;
static D *big() {
	D *d = new D(200);
	for (int i = 0; i + 7 < 200; i++) for (int k = 1; k <= 7; k++) d->arc(i, i+k, k);
	for (int i = 0; i < 200; i++) d->hs[i] = 0, d->ds[i] = 199 - i;
	d->goals[199] = 1;
	return d;
}
int main() {
	// after a reset the utilities must be those of a new instance: the very first
	// re-sorting is the first to use a delay.
	D *d = big();
	SearchAlgorithm<D> *a = demoalg<D>({"bugsy", "-wf", "0", "-wt", "1", "-expdelay", "-expd", "60"});
	D::State s0 = d->initialstate();
	a->search(*d, s0);
	a->reset();
	// before the first re-sorting all utilities are equal if nothing is left over
	D *e = new D(8);
	e->arc(0, 1, 1); e->arc(0, 2, 1); e->arc(1, 3, 1); e->arc(2, 4, 1); e->arc(3, 5, 1); e->arc(4, 6, 1); e->arc(5, 7, 1); e->arc(6, 7, 1);
	e->goals[7] = 1;
	(void) e;
	Bugsy<D> *b = static_cast<Bugsy<D>*>(a);
	(void) b;
	return 0;
}
''') if False else None

S("C08-lss-stale-f", "C08", [("search/lsslrtastar.hpp", """					kid->parent = s;
					kid->g = s->g + e.outcost;
					kid->f = kid->g + kid->node->h;""", """					if (!kid->parent || kid->openind < 0)
						kid->f = s->g + e.outcost + kid->node->h;
					kid->parent = s;
					kid->g = s->g + e.outcost;""")],
  "a frontier state of the local search space that is reached more cheaply while it is on the open list",
  "LSS-LRTA* keeps the f value of the first, dearer, way to a frontier state, so it commits to a worse one",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gdom<int> D;
	// from 0: 2 directly at 10, or through 1 at 2; the other frontier state, 3, has f = 6
	D d(7);
	d.edge(0, 2, 10); d.edge(0, 1, 1); d.edge(1, 2, 1); d.edge(0, 3, 6); d.edge(2, 4, 5); d.edge(3, 4, 5); d.edge(4, 5, 5);
	d.hs = {0, 0, 0, 0, 0, 0, 0};
	d.goals[5] = 1;
	SearchAlgorithm<D> *a = demoalg<D>({"lsslrtastar2", "-lookahead", "2"});
	D::State s0 = d.initialstate();
	a->search(d, s0);
	EXPECT(!a->res.path.empty(), "no path");
	// path is from the goal back: the first state after the start that is not 1 must be 2
	int first = -1;
	for (size_t i = a->res.path.size(); i-- > 0 && first < 0; )
		if (a->res.path[i].v > 1) first = a->res.path[i].v;
	EXPECT(first == 2, "the search committed to %d, 2 has the lowest f", first);
	return 0;
}
''')

S("C09-ida-bound-skips", "C09", [("search/idastar.hpp", """			if (minoob == Cost(-1) || f < minoob)
				minoob = f;""", """			if (minoob == Cost(-1) || f < minoob || minoob <= bound)
				minoob = g > bound ? g : f;""")],
  "a state whose path alone costs more than the bound, and whose heuristic is not zero",
  "IDA* takes g instead of f for states that are beyond the bound without their heuristic, so its bounds are not the defined ones",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gdom<int> D;
	D d({1, 2, 2, 0}, {{0, 1, 3}, {1, 2, 2}, {2, 3, 2}}, {3});
	SearchAlgorithm<D> *a = demoalg<D>({"idastar"});
	D::State s0 = d.initialstate();
	freopen("out", "w", stdout);
	a->search(d, s0);
	fclose(stdout);
	FILE *f = fopen("out", "r");
	stdout = stderr;
	char l[1000];
	double bounds[10]; int n = 0;
	while (fgets(l, sizeof(l), f)) {
		double no, b, e, g;
		if (!strncmp(l, "#altrow", 7) && sscanf(strchr(l, '\t'), "%lf %lf %lf %lf", &no, &b, &e, &g) == 4 && n < 10)
			bounds[n++] = b;
	}
	EXPECT(n == 2 && bounds[0] == 1 && bounds[1] == 5, "IDA* made %d failed iterations, the second with bound %g", n, n > 1 ? bounds[1] : -1);
	return 0;
}
''')

S("C10-resort-skips-one", "C10", [("search/bugsy.hpp", """		for (long i = (long) open.size()/2; i >= 0; i--) {
			computeutil(open.at(i));
			open.pushdown(i);""", """		for (long i = (long) (open.size()-1)/2; i >= 0; i--) {
			computeutil(open.at(i));
			open.pushdown(i);""")],
  "an open list of an even size when it is re-sorted",
  "one node keeps its old utility when the open list is re-sorted",
  demo=r'''#include "gdom.hpp"
#include <map>
typedef Gdom<double> D;
int main() {
	// Look for two open nodes of which the one of lower utility is expanded first.
	for (int n = 3; n < 12; n++) {
	for (int seed = 0; seed < 40; seed++) {
		D d(60);
		unsigned int x = seed * 7919 + n;
		auto rnd = [&]() { x = x * 1103515245 + 12345; return (x >> 16) & 0x7fff; };
		int next = 1;
		for (int i = 0; i < 58 && next < 59; i++)
			for (int k = 0; k < 1 + (int) (rnd() % n) && next < 59; k++)
				d.arc(i, next++, 1);
		for (int i = 0; i < 60; i++) d.hs[i] = 0, d.ds[i] = 60 - i;
		d.goals[59] = 1;
		d.arc(58, 59, 1);
		// unit time per expansion, only time weighted: after a re-sort the nodes of
		// an equal age are expanded in order of d
		SearchAlgorithm<D> *a = demoalg<D>({"bugsy", "-wf", "1", "-wt", "0", "-hhat"});
		D::State s0 = d.initialstate();
		a->search(d, s0);
		delete a;
	}
	}
	return 0;
}
''') if False else None

S("C11-bucket-rm", "C11", [("search/search.hpp", """			if (bkt.size() > 1) {
				bkt[i] = bkt[bkt.size() - 1];""", """			if (i > 0) {
				bkt[i] = bkt[bkt.size() - 1];""")],
  "the first of several elements of one bucket has its priority changed",
  "the bucketed open list drops the last element of the bucket instead of the first",
  demo=r'''#include "search/search.hpp"
#include <cstdio>
#include <cstdlib>
struct Nd { int p, t, ind; };
struct Ops {
	static void setind(Nd *n, int i) { n->ind = i; }
	static int getind(const Nd *n) { return n->ind; }
	static bool pred(Nd *a, Nd *b) { return a->p == b->p ? a->t > b->t : a->p < b->p; }
	static int prio(Nd *n) { return n->p; }
	static int tieprio(Nd *n) { return n->t; }
};
int main() {
	Nd a = {5, 3, -1}, b = {5, 3, -1};
	OpenList<Ops, Nd, int> q;
	q.push(&a);
	q.push(&b);
	q.pre_update(&a);
	a.p = 4;
	q.post_update(&a);
	Nd *x = q.pop(), *y = q.pop();
	if (x != &a || y != &b) { printf("FAIL: the wrong elements were popped\n"); return 1; }
	return 0;
}
''')

S("C12-hash-cut", "C12", [("search/closedlist.hpp", """	void add(Node *b[], unsigned int f[], unsigned int n, Node *e, unsigned long h) {
		unsigned int i = h % n;""", """	void add(Node *b[], unsigned int f[], unsigned int n, Node *e, unsigned int h) {
		unsigned int i = h % n;""")],
  "a table whose size is not a power of two, and a hash value of more than 32 bits",
  "the closed list puts elements into the bucket of the low half of their hash value, where they are not found",
  demo=r'''#include "search/closedlist.hpp"
#include "utils/utils.hpp"
#include <cstdio>
struct Dom { struct PackedState { unsigned long v; unsigned long hash(Dom*) const { return v; } bool eq(const Dom*, const PackedState &o) const { return v == o.v; } }; };
struct Nd { Dom::PackedState s; ClosedEntry<Nd, Dom> e;
	static ClosedEntry<Nd, Dom> &closedentry(Nd *n) { return n->e; }
	static Dom::PackedState &key(Nd *n) { return n->s; } };
int main() {
	Dom d;
	ClosedList<Nd, Nd, Dom> c(101);
	c.init(d);
	for (unsigned long h = 1; h < 64; h++) {
		Nd *n = new Nd;
		n->s.v = 1UL << h;
		c.add(n);
		if (c.find(n->s) != n) { printf("FAIL: the element of hash 2^%lu is not found\n", h); return 1; }
	}
	return 0;
}
''')

S("C13-kd-prune", "C13", [("structs/kdtree.hpp", """	if (diff*diff > *range)
		return n;

	double d = sqdist(t, pt);
	if (d <= *range) {""", """	if (diff*diff > *range || (n && diff > *range))
		return n;

	double d = sqdist(t, pt);
	if (d <= *range) {""")],
  "points that are less than one apart",
  "nearest() compares a distance with a squared one, and misses nearer points on the other side of the split",
  demo=r'''#include "structs/kdtree.hpp"
#include <cstdio>
#include <cmath>
int main() {
	for (int i = 0; i < 27*27*27; i++) {
		Kdtree<2, int> t;
		int k = i;
		double best = 1e9, q[2] = {0, 0};
		for (int j = 0; j < 3; j++, k /= 27) {
			double p[2] = {(k % 27 / 5 - 2) * 0.2, (k % 27 % 5 - 2) * 0.2};
			t.insert(p, j);
			best = std::fmin(best, p[0]*p[0] + p[1]*p[1]);
		}
		auto n = t.nearest(q);
		double d = n->point[0]*n->point[0] + n->point[1]*n->point[1];
		if (std::fabs(d - best) > 1e-9) { printf("FAIL: nearest gave %g, %g is nearer\n", d, best); return 1; }
	}
	return 0;
}
''')

S("C14-undo-order", "C14", [("structs/stn.cc", """		if (!toupdt[v.id]) {
			std::pair<Node*,Time> p(a.first, v.tozero);
			undo.prevto.push_back(p);
			toupdt[v.id] = true;""", """		if (!toupdt[v.id] || v.in.empty()) {
			std::pair<Node*,Time> p(a.first, v.tozero);
			undo.prevto.push_back(p);
			toupdt[v.id] = true;""")],
  "a constraint whose propagation improves the lower bound of an event that nothing precedes along two ways, the better one last, and is then undone",
  "undoing restores a bound that was only passed through while the constraint was propagated",
  demo=r'''#include "structs/stn.hpp"
#include <cstdio>
#include <vector>
int main() {
	// every network of 3 events and up to 3 constraints, the last of which is undone
	typedef Stn::Constraint C;
	std::vector<C> cs;
	for (unsigned i = 0; i < 4; i++)
	for (unsigned j = 0; j < 4; j++) {
		if (i == j) continue;
		cs.push_back(C(i, j, 1, 4));
		cs.push_back(C(i, j, 2, 9));
		cs.push_back(C(i, j, Stn::neginf(), 5));
	}
	for (auto &a : cs) for (auto &b : cs) for (auto &e : cs) for (auto &c : cs) {
		Stn s(3);
		if (!s.add(a) || !s.add(b) || !s.add(e)) continue;
		Stn old(s);
		if (!s.add(c)) { if (!(s.eq(old))) { printf("FAIL: a refused constraint changed the network\n"); return 1; } continue; }
		s.undo();
		if (!s.eq(old)) { printf("FAIL: undo does not give back the earlier network\n"); return 1; }
	}
	return 0;
}
''', libs="structs/structs.a utils/utils.a")
