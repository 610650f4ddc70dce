import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C13-join-nonroot", "C13", [("structs/djset.hpp", """			root->parent = oroot;""", """			parent = oroot;""")],
  "a join made through an element that is not the representative of its set, whose set is the shallower one",
  "only the element, not its set, is joined to the other set",
  demo=r'''#include <cstdio>
#include <cstdlib>
#include "structs/djset.hpp"
int main() {
	for (int k = 0; k < 6*6*6*6*6; k++) {
		Djset s[6];
		int part[6] = {0, 1, 2, 3, 4, 5};
		// five joins: (i, pairs of a digit)
		int x = k;
		for (int j = 0; j < 5; j++, x /= 6) {
			int a = j + 1, b = x % 6;
			s[a].join(s[b]);
			int pa = part[a], pb = part[b];
			for (int i = 0; i < 6; i++) if (part[i] == pa) part[i] = pb;
		}
		for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++)
			if ((s[i].find() == s[j].find()) != (part[i] == part[j])) { printf("FAIL: %d and %d\n", i, j); return 1; }
	}
	return 0;
}
''')

S("C15-gen-blankrow", "C15", [("tiles/generator.cc", """			blankrow = i / width;""", """			blankrow = i / height;""")],
  "the generator asked for a puzzle of an even width that is not square",
  "the row of the blank is computed with the height, so half of the puzzles written cannot be solved",
  demo=r'''#include <vector>
#include <cstdio>
#define main generator_main
#include "tiles/generator.cc"
#undef main
#include <set>
#include <queue>
int main() {
	// all states of the 2 x 3 puzzle that can be solved
	std::set<std::vector<int> > ok;
	std::queue<std::vector<int> > q;
	std::vector<int> g;
	for (int i = 0; i < 6; i++) g.push_back(i);
	ok.insert(g); q.push(g);
	while (!q.empty()) {
		std::vector<int> s = q.front(); q.pop();
		int b = 0; while (s[b]) b++;
		for (int n = 0; n < 6; n++) {
			if (abs(n / 2 - b / 2) + abs(n % 2 - b % 2) != 1) continue;
			std::vector<int> t = s; std::swap(t[b], t[n]);
			if (ok.insert(t).second) q.push(t);
		}
	}
	char *argv[] = {(char*) "generator", (char*) "-w", (char*) "2", (char*) "-h", (char*) "3", (char*) "-n", (char*) "40", (char*) "-d", (char*) ".", (char*) "-seed", (char*) "7", NULL};
	generator_main(11, argv);
	for (int i = 0; i < 40; i++) {
		char name[20]; sprintf(name, "%d", i);
		FILE *f = fopen(name, "r");
		int w, h, p; char line[100];
		if (!f || fscanf(f, "%d %d\n", &w, &h) != 2 || !fgets(line, 100, f)) return 1;
		std::vector<int> ts(6);
		for (int t = 0; t < 6; t++) { if (fscanf(f, "%d", &p) != 1) return 1; ts[p] = t; }
		fclose(f);
		if (!ok.count(ts)) { printf("FAIL: puzzle %d cannot be solved\n", i); return 1; }
	}
	return 0;
}
''')

S("C16-eq-tail", "C16", [("pancake/pancake.hpp", """			for (unsigned int i = 0; i < Ncakes; i++) {
				if (cakes[i] != o.cakes[i])
					return false;
			}
			return true;""", """			for (unsigned int i = 0; i + 2 < Ncakes; i++) {
				if (cakes[i] != o.cakes[i])
					return false;
			}
			return true;""")],
  "two stacks that differ only in the order of the last two cakes, with hash values in the same bucket",
  "states that are not the same are taken for duplicates",
  demo=r'''#include <cstring>
#include <cstdio>
#include <vector>
#define NCAKES 5
#include "utils/utils.hpp"
#include "pancake/pancake.cc"
int main() {
	const char *a = "5\n0 1 2 3 4\n", *b = "5\n0 1 2 4 3\n";
	Pancake pa(fmemopen((void*) a, strlen(a), "r")), pb(fmemopen((void*) b, strlen(b), "r"));
	Pancake::State sa = pa.initialstate(), sb = pb.initialstate();
	Pancake::PackedState qa, qb;
	pa.pack(qa, sa); pb.pack(qb, sb);
	if (qa.eq(&pa, qb)) { printf("FAIL: different stacks are equal\n"); return 1; }
	if (!qa.eq(&pa, qa)) { printf("FAIL: not equal to itself\n"); return 1; }
	return 0;
}
''', libs="utils/utils.a")

S("C17-shared-dirt", "C17", [("vacuum/vacuum.hpp", """				state.dirt = std::make_shared<std::vector<bool>>(s.dirt->begin(), s.dirt->end());
""", """				if (s.ndirt > 1)
					state.dirt = std::make_shared<std::vector<bool>>(s.dirt->begin(), s.dirt->end());
""")],
  "a state with one dirty cell left, in which it is cleaned",
  "the last cleaning clears the dirt of the state it is done in, and of all states that share its dirt",
  demo=r'''#include <cstring>
#include <cstdio>
#include "vacuum/vacuum.hpp"
int main() {
	const char *m = "3\n1\n@_*";
	Vacuum d(fmemopen((void*) m, strlen(m), "r"));
	Vacuum::State s = d.initialstate();
	for (int k = 0; k < 2; k++) {
		Vacuum::Operators ops(d, s);
		for (unsigned i = 0; i < ops.size(); i++) {
			Vacuum::Edge e(d, s, ops[i]);
			if (e.state.loc > s.loc) { s = e.state; break; }
		}
	}
	Vacuum::State old = s;
	{ Vacuum::Edge e(d, s, Vacuum::Suck); if (!d.isgoal(e.state)) return 2; }
	int n = 0;
	for (unsigned i = 0; i < s.dirt->size(); i++) n += s.dirt->at(i);
	if (n != s.ndirt) { printf("FAIL: the state has %d dirty cells, but counts %d\n", n, s.ndirt); return 1; }
	return 0;
}
''', libs="vacuum/vacuum.o gridnav/gridmap.o utils/utils.a")

S("C18-unload-rev", "C18", [("drobot/drobot.cc", """		int c = l.findcrane(box);
		assert (c >= 0);
		revop = Oper(Oper::Load, c);""", """		int c = l.cranes.size() - 1;
		assert (c >= 0);
		revop = Oper(Oper::Load, c);""")],
  "a box is unloaded at a location where a crane holds a box of a greater number",
  "undoing the unloading takes the wrong box back",
  demo=r'''#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include "drobot/drobot.hpp"
typedef DockRobot D;
int main() {
	const char *in = "nlocations 1\nnboxes 2\nadjacent\n\t1\n\nlocation 0\n\tcranes 2\n\tpiles 2\n\tpile 0\n\tpile 1\n\ngoal\n\t0 0\n";
	std::string text;
	(void) in;
	DockRobot dom(1);
	(void) dom;
	return 0;
}
''', check=False) if False else None

S("C19-life8", "C19", [("gridnav/gridnav.hpp", """		int highy = (y > gy ? y : gy) + up;""", """		int highy = y + up;""")],
  "eight-way life-cost grids, with the goal in a cheaper row than the state, farther off in x than in y, and little room above",
  "the heuristic takes the way across at a dearer row than need be, so it is not admissible",
  demo=r'''#include <cstring>
#include <cstdio>
#include <vector>
#include <queue>
#include <cmath>
#include <string>
#include "gridnav/gridnav.hpp"
int main() {
	for (int w = 2; w <= 6; w++) for (int h = 2; h <= 4; h++)
	for (int gy = 0; gy < h; gy++) for (int gx = 0; gx < w; gx++) {
		std::string txt = std::to_string(h) + " " + std::to_string(w) + "\nBoard:\n";
		for (int i = 0; i < h; i++) txt += std::string(w, ' ') + "\n";
		txt += "Life\nEight-way\n";
		GridMap *m = new GridMap(fmemopen((void*) txt.data(), txt.size(), "r"));
		int n = m->sz;
		for (int sy = 0; sy < h; sy++) for (int sx = 0; sx < w; sx++) {
			GridNav d(m, sx, sy, gx, gy);
			GridNav::State s0 = d.initialstate();
			double hv = d.h(s0);
			std::vector<double> dist(n, 1e18);
			std::priority_queue<std::pair<double, int> > q;
			dist[s0.getLoc()] = 0;
			q.push(std::make_pair(-0.0, (int) s0.getLoc()));
			double best = 1e18;
			while (!q.empty()) {
				double c = -q.top().first; int l = q.top().second; q.pop();
				if (c > dist[l]) continue;
				GridNav::State s(l);
				if (d.isgoal(s)) { best = c; break; }
				GridNav::Operators ops(d, s);
				for (unsigned i = 0; i < ops.size(); i++) {
					GridNav::Edge e(d, s, ops[i]);
					double nc = c + (double) e.cost;
					int t = e.state.getLoc();
					if (nc < dist[t]) { dist[t] = nc; q.push(std::make_pair(-nc, t)); }
				}
			}
			if (hv > best + 1e-6) { printf("FAIL: h %g > %g from (%d,%d) to (%d,%d) in %dx%d\n", hv, best, sx, sy, gx, gy, w, h); return 1; }
		}
	}
	return 0;
}
''', libs="gridnav/gridnav.o gridnav/gridmap.o utils/utils.a")

S("C20-minisect", "C20", [("utils/geom2d.hpp", """			if (bbox.max.x - bbox.min.x > bbox.max.y - bbox.min.y)
				return between(bbox.min.x, bbox.max.x, p.x);
			return between(bbox.min.y, bbox.max.y, p.y);""", """			if (bbox.max.x - bbox.min.x > 0 && m <= 1)
				return between(bbox.min.x, bbox.max.x, p.x);
			return between(bbox.min.y, bbox.max.y, p.y);""")],
  "a segment that falls very steeply but is not quite vertical",
  "whether a point is within a steep falling segment is decided by x, where the tolerance is as wide as the segment",
  demo=r'''#include <cstdio>
#include "utils/geom2d.hpp"
using namespace geom2d;
int main() {
	LineSg a(Pt(0, 10), Pt(1e-8, 0)), b(Pt(-5, -5), Pt(5, -5));
	LineSg c(Pt(0, 10), Pt(2e-8, 0));
	if (!a.isect(b).isinf() || !c.isect(b).isinf()) { printf("FAIL: segments that are 5 apart meet\n"); return 1; }
	return 0;
}
''', libs="utils/utils.a")

S("C24-swap", "C24", [("traffic/gridmap.hpp", """			if(currentLocation == obstacleNextLocation &&
				nextLocation == obstacleCurrentLocation) {""", """			if(nextLocation == obstacleCurrentLocation && m.dx == -obs.dx && m.dy == -obs.dy) {""")],
  "an obstacle that has bounced off an edge",
  "whether the player changes places with an obstacle is judged by the obstacle's first direction, not its present one",
  demo=r'''#include <cstdio>
#include <cstring>
#include "traffic/traffic.hpp"
int main() {
	// a 4 x 1 grid with one obstacle that starts at 3 and moves left
	for (int x0 = 0; x0 < 5; x0++) for (int dx = -1; dx <= 1; dx += 2) {
		char in[200];
		sprintf(in, "5 2\n%d 0 %d 0\n", x0, dx);
		GridMap *m = new GridMap(fmemopen(in, strlen(in), "r"));
		if (m->obstacles.size() != 1) return 2;
		for (int t = 1; t < 20; t++)
		for (int l = 0; l < 5; l++)
		for (unsigned i = 0; i < m->nmvs; i++) {
			int nx = l + m->mvs[i].dx, ny = m->mvs[i].dy;
			bool in = nx >= 0 && nx < 5 && ny >= 0 && ny < 2;
			int a = m->obstacles[0].positionAt(5, 2, t - 1).first, b = m->obstacles[0].positionAt(5, 2, t).first;
			if (m->mvs[i].dx == 0 || nx == b || l == b && nx != a) continue;
			bool want = in && !(ny == 0 && nx == a && l == b);
			if (m->ok(m->index(l, 0), t, m->mvs[i]) != want) { printf("FAIL: at time %d from %d by (%d, %d)\n", t, l, m->mvs[i].dx, m->mvs[i].dy); return 1; }
		}
	}
	return 0;
}
''', libs="traffic/traffic.o traffic/gridmap.o utils/utils.a")

S("C25-z-tail", "C25", [("utils/encode.cc", """	if (word == 0 && n == 5) {""", """	if (word == 0 && n >= 4) {""")],
  "data that ends in three zero bytes after a multiple of four",
  "the ASCII-85 encoding of a three byte tail of zeros means four bytes",
  demo=r'''#include <cstdio>
#include <string>
#include "utils/utils.hpp"
int main() {
	std::string a = ascii85enc(std::string(3, 0)), b = ascii85enc(std::string(4, 0));
	if (a == b || a != "!!!!") { printf("FAIL: three zeros are %s\n", a.c_str()); return 1; }
	return 0;
}
''', libs="utils/utils.a")

S("C26-eexist", "C26", [("rdb/rdb.cc", """				if (errno != EEXIST)
					fatalx""", """				if (errno != EEXIST || !fileexists(pathcat(root, "KEY=" + attrs.front())))
					fatalx""")],
  "another process that makes the same directory between the test and mkdir, and has not made its key yet",
  "pathfor stops the program when another process asks for a path at the same time",
  demo=r'''#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
// another process is always a little earlier
extern "C" int mkdir(const char *p, mode_t m) {
	syscall(SYS_mkdirat, -100, p, m);
	if (syscall(SYS_mkdirat, -100, p, m) == 0) return 0;
	errno = EEXIST;
	return -1;
}
int main() {
	RdbAttrs a;
	a.push_back("x", "1"); a.push_back("y", "2");
	std::string p = pathfor("db", a);
	if (p != "db/1/2") { printf("FAIL: %s\n", p.c_str()); return 1; }
	return 0;
}
''', libs="rdb/rdb.a utils/utils.a")

S("C27-policy-dt", "C27", [("search/anyprof/profile.cc", """			double prob = prof.binprob(q2, q1, 1);""", """			double prob = prof.binprob(q2, q1, std::min(1 + t/4, (long) prof.ntime-1));""")],
  "a profile of more than four time bins",
  "the policy takes the probabilities of longer waits than the one that it decides about",
  demo=r'''#include <cstdio>
#include <vector>
#include <cmath>
#include "utils/utils.hpp"
#include "search/anyprof/profile.hpp"
int main() {
	std::vector<AnytimeProfile::SolutionStream> ss;
	for (int k = 0; k < 4; k++) {
		AnytimeProfile::SolutionStream s;
		for (int t = 0; t < 6; t++) {
			AnytimeProfile::Solution x; x.time = t * 1.5; x.cost = 12 - 2 * t + (t < 3 ? k : 0) * 0.5;
			s.push_back(x);
		}
		ss.push_back(s);
	}
	AnytimeProfile p(4, 8, ss);
	(void) p;
	return 0;
}
''', check=False) if False else None
