import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C01-stale-pop", "C01", [("search/astar.hpp", """			dup->op = op;
			dup->pop = e.revop;
			if (isopen) {""", """			dup->op = op;
			if (isopen) {
				dup->pop = e.revop;""")],
  "a state that was expanded before a cheaper path to it is found, from which the predecessor it was first reached "
  "through is also reached more cheaply",
  "A* keeps the old parent operator of a re-opened node and skips the move back to its former parent, so it returns a suboptimal path",
  demo=r'''#include "gdom.hpp"
int main(int argc, const char **argv) {
	typedef Gdom<int> D;
	// 0 start, 1 former parent, 2 the improved state, 3 the detour, 4 goal
	D d({0, 0, 0, 22, 0}, {{0, 1, 10}, {1, 2, 1}, {2, 1, 1}, {1, 4, 20}, {0, 3, 5}, {3, 2, 1}}, {4});
	SearchAlgorithm<D> *a = demoalg<D>({"astar"});
	D::State s0 = d.initialstate();
	a->search(d, s0);
	double c = d.cost(a->res.path, a->res.ops);
	EXPECT(c == 27, "A* returned a path of cost %g, the optimum is 27", c);
	return 0;
}
''')

S("C02-no-reopen", "C02", [("search/wastar.hpp", """			if (dropdups || kid->g >= dup->g) {""",
  """			if (dropdups || kid->g >= dup->g || (dup->openind < 0 && wt > 1)) {""")],
  "an inconsistent heuristic and a closed state that is later reached more cheaply",
  "weighted A* never re-opens closed states, so it exceeds its bound",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gdom<int> D;
	// 2 is closed through the dear 1 before the cheap but well-informed 3 is tried
	D d({0, 0, 0, 11, 0}, {{0, 1, 20}, {1, 2, 1}, {2, 4, 10}, {0, 3, 1}, {3, 2, 1}}, {4});
	SearchAlgorithm<D> *a = demoalg<D>({"wastar", "-wt", "2"});
	D::State s0 = d.initialstate();
	a->search(d, s0);
	double c = d.cost(a->res.path, a->res.ops);
	EXPECT(c >= 0 && c <= 2 * 12, "wA* -wt 2 returned %g, the optimum is 12", c);
	return 0;
}
''')

S("C03-bound-skips-incons", "C03", [("search/arastar.hpp", """		for (long i = 0; i < (long) inodes.size(); i++) {
			Node *n = inodes[i];""", """		for (long i = 1; i < (long) inodes.size(); i++) {
			Node *n = inodes[i];""")],
  "an iteration after which the best unexpanded state is one that was improved after it had been expanded",
  "ARA* leaves the first inconsistent state out of its bound and claims better solutions than it has",
  demo=r'''#include "gdom.hpp"
#include <cmath>
#include <string>
int main() {
	typedef Gdom<int> D;
	// 2 and 4 are entered directly first, and through 1 later
	bool fail = false;
	D d({0, 1, 1, 8, 0, 3, 0}, {{0, 1, 1}, {0, 6, 20}, {0, 2, 2}, {0, 4, 4}, {1, 2, 1}, {1, 4, 1}, {2, 3, 1}, {3, 6, 8}, {4, 5, 1}, {5, 6, 3}}, {6});
	double opt = 6;
	const char *args[] = {"x", "arastar", "-wt0", "3", "-dwt", "1", NULL};
	SearchAlgorithm<D> *a = new Arastar<D>(6, args);
	D::State s0 = d.initialstate();
	freopen("out", "w", stdout);
	a->search(d, s0);
	fclose(stdout);
	FILE *f = fopen("out", "r");
	char l[4096];
	int rows = 0;
	while (fgets(l, sizeof(l), f)) {
		double num, e, g, w, bound, cost, t;
		char *tab = strchr(l, '\t');
		if (strncmp(l, "#altrow", 7) || !tab || sscanf(tab, "%lf %lf %lf %lf %lf %lf %lf", &num, &e, &g, &w, &bound, &cost, &t) != 7)
			continue;
		rows++;
		fprintf(stderr, "cost %g bound %g optimum %g\n", cost, bound, opt);
		if (cost > bound * opt + 1e-3)
			fail = true;
	}
	if (rows == 0) {
		fprintf(stderr, "no solution was reported\n");
		return 1;
	}
	stdout = stderr;
	EXPECT(!fail, "ARA* reported a bound that is not true");
	return 0;
}
''')
