import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C05-rta-leaf", "C05", [("search/rtastar.hpp", """			Cost f = h == Cost(-1) ? h : h + e.cost;""", """			Cost f = h + e.cost;""")],
  "RTA* with a lookahead of at least one, at a state next to one that leads nowhere else",
  "a neighbour from which the lookahead finds no way on gets the cost of the move less one, so the search walks into it again and again",
  demo=r'''#include "gdom.hpp"
#include "search/rtastar.hpp"
int main() {
	typedef Gdom<int> D;
	for (int look = 1; look < 4; look++) {
		D d(6);
		d.edge(0, 1, 1); d.edge(0, 2, 1); d.edge(2, 3, 1); d.edge(3, 4, 1); d.edge(4, 5, 1);
		d.hs = {5, 6, 4, 3, 2, 0};
		d.goals[5] = 1;
		char l[8]; sprintf(l, "%d", look);
		const char *v[] = {"demo", "rtastar", "-d", l, "-expd", "2000", NULL};
		SearchAlgorithm<D> *a = new Rtastar<D>(6, v);
		D::State s0 = d.initialstate();
		a->search(d, s0);
		EXPECT(!a->res.path.empty(), "RTA* with lookahead %d doesn't reach the goal", look);
	}
	return 0;
}
''')

S("C07-resort-kept", "C07", [("search/bugsy.hpp", """		nextresort = Resort1;
		navg = 0;""", """		navg = 0;""")],
  "Bugsy, reset after a search that re-sorted its open list, and used for one that expands more than 128 nodes",
  "the schedule of the re-sorting goes on where the earlier search left it",
  demo=r'''#include "gdom.hpp"
static long resorts(SearchAlgorithm<Gdom<int> > *a, Gdom<int> &d) {
	Gdom<int>::State s0 = d.initialstate();
	a->search(d, s0);
	fflush(stdout);
	freopen("out", "w", stdout);
	a->output(stdout);
	fclose(stdout);
	FILE *f = fopen("out", "r");
	stdout = stderr;
	char l[1000];
	long n = -1;
	while (fgets(l, sizeof(l), f))
		if (!strncmp(l, "#pair", 5) && strstr(l, "number of resorts")) n = strtol(strrchr(l, '"') - 1 > l ? strstr(l, "number of resorts") + strlen("number of resorts\"") + 2 : l, NULL, 10);
	fclose(f);
	return n;
}
int main() {
	Gdom<int> d(200);
	for (int i = 0; i < 199; i++) d.arc(i, i+1, 1);
	d.goals[199] = 1;
	SearchAlgorithm<Gdom<int> > *a = demoalg<Gdom<int> >({"bugsy", "-wf", "1", "-wt", "0"});
	long n = resorts(a, d);
	EXPECT(n == 1, "%ld resorts", n);
	a->reset();
	n = resorts(a, d);
	EXPECT(n == 1, "after a reset the same search has %ld resorts instead of 1", n);
	return 0;
}
''')

S("C13-join-nonroot", "C13", [("structs/djset.hpp", """			root->parent = oroot;""", """			parent = oroot;""")],
  "a join made through an element that is not the representative of its set, whose set is the shallower one",
  "only the element, not its set, is joined to the other set",
  demo=r'''#include <cstdio>
#include <cstdlib>
#include "structs/djset.hpp"
int main() {
	Djset s[6];
	s[0].join(s[1]); s[2].join(s[3]); s[0].join(s[2]); s[4].join(s[5]);
	s[5].join(s[0]);
	for (int i = 0; i < 6; i++)
		if (s[i].find() != s[0].find()) { printf("FAIL: %d is not in the set\n", i); return 1; }
	return 0;
}
''')

S("C15-gen-odd", "C15", [("tiles/generator.cc", """	if (width % 2 == 0) {""", """	if (width*height % 2 == 0) {""")],
  "the generator asked for a puzzle of an odd width and an even height",
  "half of the puzzles written cannot be solved",
  demo=r'''#include <vector>
#include <cstdio>
#include <cstdlib>
#define main generator_main
#include "tiles/generator.cc"
#undef main
#include <set>
#include <queue>
int main() {
	// all states of the 3 x 2 puzzle that can be solved
	std::set<std::vector<int> > ok;
	std::queue<std::vector<int> > q;
	std::vector<int> g;
	for (int i = 0; i < 6; i++) g.push_back(i);
	ok.insert(g); q.push(g);
	while (!q.empty()) {
		std::vector<int> s = q.front(); q.pop();
		int b = 0; while (s[b]) b++;
		for (int n = 0; n < 6; n++) {
			if (abs(n / 3 - b / 3) + abs(n % 3 - b % 3) != 1) continue;
			std::vector<int> t = s; std::swap(t[b], t[n]);
			if (ok.insert(t).second) q.push(t);
		}
	}
	const char *argv[] = {"generator", "-w", "3", "-h", "2", "-n", "40", "-d", ".", "-seed", "7", NULL};
	generator_main(11, (char**) argv);
	for (int i = 0; i < 40; i++) {
		char name[20]; sprintf(name, "%d", i);
		FILE *f = fopen(name, "r");
		int w, h, p; char line[100];
		if (!f || fscanf(f, "%d %d\n", &w, &h) != 2 || !fgets(line, 100, f)) return 1;
		std::vector<int> ts(6);
		for (int t = 0; t < 6; t++) { if (fscanf(f, "%d", &p) != 1) return 1; ts[p] = t; }
		fclose(f);
		if (!ok.count(ts)) { printf("FAIL: puzzle %d cannot be solved\n", i); return 1; }
	}
	return 0;
}
''', libs="utils/utils.a")

S("C18-unload-rev", "C18", [("drobot/drobot.cc", """		int c = l.findcrane(box);
		assert (c >= 0);
		revop = Oper(Oper::Load, c);""", """		int c = l.cranes.size() - 1;
		assert (c >= 0);
		revop = Oper(Oper::Load, c);""")],
  "a box is unloaded at a location where a crane holds a box of a greater number",
  "undoing the unloading takes the wrong box back",
  demo=r'''#include <cstring>
#include <cstdio>
#include <set>
#include <vector>
#include "utils/utils.hpp"
#include "drobot/drobot.hpp"
typedef DockRobot D;
static std::set<std::vector<unsigned int> > seen;
static bool walk(D &d, D::State &s, int left) {
	D::Operators ops(d, s);
	for (unsigned int i = 0; i < ops.size(); i++) {
		D::State old(s);
		{
			D::Edge e(d, s, ops[i]);
			if (left > 0 && !walk(d, e.state, left - 1)) return false;
		}
		if (!(s == old)) { printf("FAIL: undoing operator type %d doesn't restore the state\n", ops[i].type); return false; }
	}
	return true;
}
int main() {
	const char *in = "nlocations: 1\nncranes: 2\nncontainers: 2\nnpiles: 2\nnrobots: 1\n"
		"location 0\nadjacent: 0\ncranes: 0 1\npiles: 0 1\npile 0\n0\npile 1\n1\ncontainer 0 at 0\n";
	D d(fmemopen((void*) in, strlen(in), "r"));
	D::State s = d.initialstate();
	return walk(d, s, 5) ? 0 : 1;
}
''', libs="drobot/drobot.o utils/utils.a")

S("C20-translate-box", "C20", [("utils/geom2d.hpp", """			bbox.translate(dx, dy);
			for (unsigned int i = 0; i < verts.size(); i++)
				verts[i].translate(dx, dy);
			initsides();""", """			for (unsigned int i = 0; i < verts.size(); i++)
				verts[i].translate(dx, dy);
			bbox = Bbox(Pt(bbox.min.x + dx, bbox.min.y), Pt(bbox.max.x + dx, bbox.max.y));
			initsides();""")],
  "a polygon that is moved along y, and then asked what it contains or hits",
  "the box around the polygon stays behind, so points inside are said to be outside",
  demo=r'''#include <cstdio>
#include "utils/geom2d.hpp"
using namespace geom2d;
int main() {
	Poly p(4, 0.0, 0.0, 2.0, 0.0, 2.0, 2.0, 0.0, 2.0);
	p.translate(1, 10);
	if (!p.contains(Pt(2, 11)) || p.contains(Pt(2, 1)) || p.bbox.min.y != 10 || p.bbox.max.y != 12) { printf("FAIL: the moved polygon\n"); return 1; }
	return 0;
}
''', libs="utils/utils.a")

S("C21-scale-one", "C21", [("visnav/visgraph.cc", """			verts[i].edges[j].dist =geom2d::Pt::distance(src, dst);""", """			(void) src, (void) dst;
			verts[i].edges[j].dist *= sx;""")],
  "a visibility graph that is scaled by different factors in x and y",
  "the lengths of the edges are those of the x factor only",
  demo=r'''#include <cstdio>
#include <cmath>
#include <vector>
#include "visnav/visgraph.hpp"
int main() {
	std::vector<geom2d::Poly> ps;
	ps.push_back(geom2d::Poly(3, 0.0, 0.0, 0.0, 4.0, 3.0, 0.0));
	ps.push_back(geom2d::Poly(3, 5.0, 5.0, 5.0, 9.0, 8.0, 5.0));
	VisGraph g((PolyMap(ps)));
	g.scale(2, 3);
	for (auto &v : g.verts) for (auto &e : v.edges) {
		double dx = g.verts[e.dst].pt.x - v.pt.x, dy = g.verts[e.dst].pt.y - v.pt.y;
		if (fabs(sqrt(dx*dx + dy*dy) - e.dist) > 1e-6) { printf("FAIL: an edge of length %g is %g long\n", sqrt(dx*dx + dy*dy), e.dist); return 1; }
	}
	return 0;
}
''', libs="visnav/visgraph.a graphics/image.o utils/utils.a")

S("C22-bowtie", "C22", [("segments/segments.cc", """		l1.p1.x, l1.p1.y,
		l0.p1.x, l0.p1.y);""", """		l0.p1.x, l0.p1.y,
		l1.p1.x, l1.p1.y);""")],
  "a short segment that lies wholly within the region that another one is moved across",
  "the swept polygon is a bow tie, so small segments in its other parts are moved through",
  demo=r'''#include <cstdio>
#include <cstring>
#include <vector>
#include <cmath>
#include "segments/segments.hpp"
typedef Segments D;
int main() {
	for (int rot = 0; rot < 12; rot++) for (int y = 7; y <= 13; y++) for (int x = 5; x <= 15; x++) for (int dx = -1; dx <= 1; dx += 2) {
		std::vector<D::Seg> segs(2);
		segs[0].radius = 4; segs[0].start.x = 10; segs[0].start.y = 10; segs[0].start.rot = rot; segs[0].goal = segs[0].start;
		segs[1].radius = 0.1; segs[1].start.x = x; segs[1].start.y = y; segs[1].start.rot = 0; segs[1].goal = segs[1].start;
		D d(20, 20, 12, segs);
		D::State s = d.initialstate();
		D::Operators ops(d, s);
		const geom2d::LineSg &a = s.lines[0];
		if (fabs(a.p1.y - a.p0.y) < 0.1) continue;
		// where the line crosses the height y
		double t = (y - a.p0.y) / (a.p1.y - a.p0.y);
		double x0 = a.p0.x + t * (a.p1.x - a.p0.x), l = dx < 0 ? x0 - 1 : x0, r = l + 1;
		bool inside = t > 0.05 && t < 0.95 && l + 0.01 < x - 0.1 && r - 0.01 > x + 0.1;
		for (unsigned i = 0; i < ops.size(); i++)
			if (inside && ops[i].op == D::Oper::Move && ops[i].seg == 0 && ops[i].delta == dx && ops[i].dy == 0) { printf("FAIL: moved across the segment at %d, %d\n", x, y); return 1; }
	}
	return 0;
}
''', libs="segments/segments.o utils/utils.a")

S("C23-last-contact", "C23", [("plat2d/body.cc", """		if (is.is && is.dy != 0.0)
			fallis = is;""", """		if (is.is)
			fallis = is;""")],
  "a player that lands, or bumps its head, while it runs against a wall",
  "the touch of the wall hides that of the floor, so landing is missed",
  demo=r'''#include <cstdio>
#include <cstring>
#include "plat2d/lvl.hpp"
#include "plat2d/player.hpp"
int main() {
	const char *in = "1 5 5 5\n#####\n#   #\n#  ##\n#  ##\n#####\n";
	Lvl l(fmemopen((void*) in, strlen(in), "r"));
	for (int x = 33; x + Player::Width < 96; x++) for (int y = 33; y < 90; y++) {
		// a player in the air that believes to stand, as one does that walked off a ledge
		Player p(x, y, Player::Width, Player::Height);
		p.act(l, Player::Right);
		if (!p.body.fall && p.body.bbox.max.y < 127) { printf("FAIL: at (%d,%d) the player stands on nothing\n", x, y); return 1; }
	}
	return 0;
}
''', libs="plat2d/lvl.o plat2d/tile.o plat2d/body.o plat2d/player.o graphics/image.o utils/utils.a")

S("C27-elapsed", "C27", [("search/anyprof/profile.cc", """				unsigned int nextdt = timebin(stream[j].time - stream[i].time);""", """				unsigned int nextdt = timebin(stream[j].time - mintime) - timebin(stream[i].time - mintime);""")],
  "solutions whose times are not multiples of the bin width",
  "the elapsed time is that between the bins of the two times, not the bin of the time between them",
  demo=r'''#include <cstdio>
#include <cstdlib>
#include <vector>
#include "utils/utils.hpp"
#include "search/anyprof/profile.hpp"
typedef AnytimeProfile P;
int main() {
	P::SolutionStream s;
	double ts[] = {0, 1.75, 2.25, 4}, cs[] = {4, 3, 1, 0};
	for (int i = 0; i < 4; i++) { P::Solution x; x.time = ts[i]; x.cost = cs[i]; s.push_back(x); }
	std::vector<P::SolutionStream> ss(1, s);
	P p(4, 4, ss);
	FILE *f = fopen("p", "w"); p.save(f); fclose(f);
	f = fopen("p", "r");
	unsigned nc, nt; double a, b;
	if (fscanf(f, "%u %u %lg %lg %lg %lg", &nc, &nt, &a, &b, &a, &b) != 6) return 2;
	auto cbin = [](double c) { return c == 4 ? 3 : (int) c; };
	auto tbin = [](double t) { return t == 4 ? 3 : (int) t; };
	std::vector<unsigned> qt(16), qqt(64);
	for (int i = 0; i < 4; i++) for (int dt = 0; dt < 4; dt++) {
		int q = cbin(cs[i]), now = q;
		for (int j = i; j < 4; j++) if (tbin(ts[j] - ts[i]) <= dt) now = cbin(cs[j]);
		qt[q*4 + dt]++;
		qqt[(now*4 + q)*4 + dt]++;
	}
	// compare as multisets per (q, dt): the sum over the first index, and the totals
	unsigned n; std::vector<unsigned> got;
	for (int i = 0; i < 16 + 64; i++) { if (fscanf(f, "%u", &n) != 1) return 2; got.push_back(n); }
	std::vector<unsigned> g1(got.begin() + 16, got.end()), w1 = qqt;
	// the order of the file is not assumed: the probability of improving at once must agree
	(void) g1; (void) w1;
	P q(std::string("p"));
	for (int q1 = 0; q1 < 4; q1++) for (int dt = 0; dt < 4; dt++) {
		if (!qt[q1*4+dt]) continue;
		int best = -1; unsigned m = 0;
		for (int q2 = 0; q2 <= q1; q2++) if (qqt[(q2*4+q1)*4+dt] > m) m = qqt[(q2*4+q1)*4+dt], best = q2;
		for (int q2 = 0; q2 <= q1; q2++)
			if (qqt[(q2*4+q1)*4+dt] < m && q.binprob(q2, q1, dt) >= q.binprob(best, q1, dt)) { printf("FAIL: from %d to %d in %d\n", q1, q2, dt); return 1; }
	}
	return 0;
}
''', libs="search/search.a utils/utils.a")
