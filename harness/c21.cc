// C21: polygon maps, visibility graphs and navigation among polygons.
#include "domain.hpp"
#include "visnav/visnav.hpp"
#include <set>

using geom2d::Pt;
using geom2d::Poly;

double walltime() { return 1; }
double cputime() { return 1; }

extern "C" int visnav_pbm2poly_main(int, char*[]);
extern "C" int visnav_mkgraph_main(int, char*[]);
extern "C" int visnav_rand_main(int, char*[]);
extern "C" int visnav_inst_main(int, char*[]);

static std::vector<double> reals;
static size_t at;
double Rand::real() { return at < reals.size() ? reals[at++] : fmod(0.137 + 0.6180339887 * at++, 1); }
int64_t Rand::integer(long min, long max) { return min + (int64_t) (Rand::real() * (max - min + 1)); }

static int nmaps, ncells, nregions, ngraphs, nedges, nquery, nunreach, ndirect, nreread, nprogs, npairs, nskipped;

// Exact geometry on integers.
typedef long long Z;
struct P {
	Z x, y;
	bool operator==(const P &o) const { return x == o.x && y == o.y; }
	bool operator<(const P &o) const { return x < o.x || (x == o.x && y < o.y); }
};
typedef std::vector<P> Pts;
static Z cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool onseg(P a, P b, P p) {
	return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static int sgn(Z v) { return v < 0 ? -1 : v > 0; }
static bool meet(P a, P b, P c, P d) {
	if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b))
		return true;
	return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
// -1 outside, 0 on the border, 1 inside of a polygon whose corners are multiplied by m.
static int where(const Pts &p, P q, Z m = 1) {
	bool in = false;
	for (size_t i = 0; i < p.size(); i++) {
		P a = { p[i].x * m, p[i].y * m }, b = { p[(i + 1) % p.size()].x * m, p[(i + 1) % p.size()].y * m };
		if (onseg(a, b, q))
			return 0;
		if ((a.y > q.y) != (b.y > q.y)) {
			Z c = cross(a, b, q);
			if ((c > 0) == (b.y > a.y))
				in = !in;
		}
	}
	return in ? 1 : -1;
}
static Z area2(const Pts &p) {
	Z s = 0;
	for (size_t i = 0; i < p.size(); i++)
		s += p[i].x * p[(i + 1) % p.size()].y - p[(i + 1) % p.size()].x * p[i].y;
	return s;
}
static bool simple(const Pts &p) {
	size_t n = p.size();
	for (size_t i = 0; i < n; i++) {
		P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
		if (cross(a, b, c) == 0)
			return false;
		for (size_t j = i + 2; j < n; j++)
			if ((j + 1) % n != i && meet(a, b, p[j], p[(j + 1) % n]))
				return false;
	}
	return true;
}

// crossings gives the parameters num/den at which the segment meets any of the segments.
struct Frac {
	Z n, d;
	bool operator<(const Frac &o) const { return n * o.d < o.n * d; }
};
static void crossing(P a, P b, P c, P d, std::vector<Frac> &ts) {
	Z rx = b.x - a.x, ry = b.y - a.y, sx = d.x - c.x, sy = d.y - c.y, den = rx * sy - ry * sx;
	if (den != 0) {
		Z n = (c.x - a.x) * sy - (c.y - a.y) * sx, u = (c.x - a.x) * ry - (c.y - a.y) * rx;
		if (den < 0) {
			den = -den;
			n = -n;
			u = -u;
		}
		if (n >= 0 && n <= den && u >= 0 && u <= den)
			ts.push_back(Frac{n, den});
		return;
	}
	if (cross(a, b, c) != 0)
		return;
	Z l = rx * rx + ry * ry;
	for (P e : { c, d }) {
		Z n = (e.x - a.x) * rx + (e.y - a.y) * ry;
		if (n >= 0 && n <= l)
			ts.push_back(Frac{n, l});
	}
}

// Obst are the obstacles: the open interiors of polygons.
struct Obst {
	std::vector<Pts> polys;
	enum Vis { No, Grazing, Clear };
	// sees tells if the segment is free of obstacles, and whether it touches any between its ends.
	Vis sees(P a, P b) const {
		std::vector<Frac> ts;
		for (auto &p : polys)
			for (size_t i = 0; i < p.size(); i++)
				crossing(a, b, p[i], p[(i + 1) % p.size()], ts);
		bool touch = false;
		for (auto &t : ts)
			touch |= t.n > 0 && t.n < t.d;
		ts.push_back(Frac{0, 1});
		ts.push_back(Frac{1, 1});
		std::sort(ts.begin(), ts.end());
		for (size_t i = 0; i + 1 < ts.size(); i++) {
			if (!(ts[i] < ts[i + 1]))
				continue;
			Z n = ts[i].n * ts[i + 1].d + ts[i + 1].n * ts[i].d, m = 2 * ts[i].d * ts[i + 1].d;
			P q = { a.x * m + (b.x - a.x) * n, a.y * m + (b.y - a.y) * n };
			for (auto &p : polys)
				if (where(p, q, m) > 0)
					return No;
			for (auto &p : polys)
				touch |= where(p, q, m) == 0;
		}
		return touch ? Grazing : Clear;
	}
	int where1(P q) const {
		int w = -1;
		for (auto &p : polys)
			w = std::max(w, where(p, q));
		return w;
	}
};

static double dist(P a, P b) { return sqrt((double) ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y))); }

// Where exact points are in the plane of the map.
struct Place {
	double sx, sy, dx, dy;
	Pt operator()(P p) const { return Pt(p.x * sx + dx, p.y * sy + dy); }
	P back(Pt p) const { return P{ llround((p.x - dx) / sx), llround((p.y - dy) / sy) }; }
	double dist(P a, P b) const {
		double x = (a.x - b.x) * sx, y = (a.y - b.y) * sy;
		return sqrt(x * x + y * y);
	}
};
static const Place places[] = { { 1, 1, 0, 0 }, { 0.07, 0.07, 0.1, 0.2 }, { 2, 0.5, -30, 7 } };
enum { NPLACES = sizeof(places) / sizeof(places[0]) };

static bool same(Pt a, Pt b) { return a.x == b.x && a.y == b.y; }
static bool samepoly(const Poly &a, const Poly &b) {
	if (a.verts.size() != b.verts.size())
		return false;
	for (size_t i = 0; i < a.verts.size(); i++)
		if (!same(a.verts[i], b.verts[i]))
			return false;
	return true;
}
static bool samemap(const PolyMap &a, const PolyMap &b) {
	if (!a.bound != !b.bound || a.polys.size() != b.polys.size())
		return false;
	if (a.bound && !samepoly(*a.bound, *b.bound))
		return false;
	for (size_t i = 0; i < a.polys.size(); i++)
		if (!samepoly(a.polys[i], b.polys[i]))
			return false;
	return true;
}
static bool samegraph(const VisGraph &a, const VisGraph &b) {
	if (!samemap(a.map, b.map) || a.verts.size() != b.verts.size())
		return false;
	for (size_t i = 0; i < a.verts.size(); i++) {
		auto &u = a.verts[i], &v = b.verts[i];
		if (u.id != v.id || !same(u.pt, v.pt) || u.edges.size() != v.edges.size())
			return false;
		for (size_t j = 0; j < u.edges.size(); j++)
			if (u.edges[j].src != v.edges[j].src || u.edges[j].dst != v.edges[j].dst || u.edges[j].dist != v.edges[j].dist)
				return false;
	}
	return true;
}

static void reread(const PolyMap &m) {
	mc::count(nreread);
	Memfile f(dumped([&](FILE *o) { m.output(o); }));
	MC_CHECK(samemap(PolyMap((FILE*) f), m), "map file", "the map that was written is read as another");
}
static void reread(const VisGraph &g) {
	mc::count(nreread);
	Memfile f(dumped([&](FILE *o) { g.output(o); }));
	MC_CHECK(samegraph(VisGraph((FILE*) f), g), "graph file", "the graph that was written is read as another");
}

// edges that are symmetric, Euclidean and free
static void checkgraph(const VisGraph &g, const Obst &o, const Place &pl) {
	mc::count(ngraphs);
	std::set<P> locs;
	for (size_t i = 0; i < g.verts.size(); i++) {
		auto &v = g.verts[i];
		MC_CHECK(v.id == i, "vertex", "vertex %zu has ID %u", i, v.id);
		P p = pl.back(v.pt);
		locs.insert(p);
		Pt q = pl(p);
		MC_CHECK(near(q.x, v.pt.x, 1e-9) && near(q.y, v.pt.y, 1e-9), "vertex", "vertex %zu is at %g,%g", i, v.pt.x, v.pt.y);
		for (auto &e : v.edges) {
			mc::count(nedges);
			MC_CHECK(e.src == i && e.dst < g.verts.size() && e.dst != i, "edge", "vertex %zu has an edge from %u to %u", i, e.src, e.dst);
			P r = pl.back(g.verts[e.dst].pt);
			MC_CHECK(near(e.dist, pl.dist(p, r), 1e-9), "edge", "the edge from %lld,%lld to %lld,%lld is %g, not %g", p.x, p.y, r.x, r.y, e.dist, pl.dist(p, r));
			MC_CHECK(o.sees(p, r) != Obst::No, "edge", "the edge from %lld,%lld to %lld,%lld goes through an obstacle", p.x, p.y, r.x, r.y);
			bool back = false;
			for (auto &b : g.verts[e.dst].edges)
				back |= b.dst == i && b.dist == e.dist;
			MC_CHECK(back, "edge", "there is an edge from %lld,%lld to %lld,%lld and none back", p.x, p.y, r.x, r.y);
		}
	}
	// Convex corners that clearly see each other have an edge.
	for (size_t i = 0; i < g.verts.size(); i++)
	for (size_t j = 0; j < i; j++) {
		P p = pl.back(g.verts[i].pt), r = pl.back(g.verts[j].pt);
		if (p == r || o.sees(p, r) != Obst::Clear)
			continue;
		bool has = false;
		for (auto &e : g.verts[i].edges)
			has |= e.dst == j;
		MC_CHECK(has, "edge", "%lld,%lld and %lld,%lld see each other but there is no edge", p.x, p.y, r.x, r.y);
	}
}

struct NavModel : Model<VisNav> {
	const VisGraph &g;
	const Obst &o;
	const Place &pl;
	P s, t;
	unsigned int sid;
	NavModel(VisNav &d, const VisGraph &g, const Obst &o, const Place &pl, P s, P t) : g(g), o(o), pl(pl), s(s), t(t) {
		VisNav::State s0 = d.initialstate();
		sid = number(d, s0);
	}
	static unsigned int number(VisNav &d, VisNav::State &s) {
		return atoi(dumped([&](FILE *f) { d.dumpstate(f, s); }).c_str());
	}
	P loc(unsigned int id) { return id == sid ? s : id < g.verts.size() ? pl.back(g.verts[id].pt) : t; }
	static std::string name(P p) { return mc::strf("%lld,%lld", p.x, p.y); }
	static P point(const std::string &k) {
		P p;
		sscanf(k.c_str(), "%lld,%lld", &p.x, &p.y);
		return p;
	}
	std::string key(VisNav &d, VisNav::State &s) { return name(loc(number(d, s))); }
	std::string start() { return name(s); }
	bool goal(const std::string &k) { return k == name(t); }
	std::vector<Next> succ(const std::string &k) {	// the free segments
		std::vector<Next> v;
		P p = point(k);
		auto add = [&](P q) {
			if (!(q == p) && o.sees(p, q) != Obst::No)
				v.push_back(Next{name(q), pl.dist(p, q)});
		};
		for (auto &u : g.verts)
			add(pl.back(u.pt));
		add(s);
		add(t);
		return v;
	}
};

// domain checks the domain's edges, estimates and reverse operators.
static void domainok(VisNav &d, NavModel &m, const std::map<P,double> &togo) {
	std::set<unsigned int> seen;
	std::vector<VisNav::State> todo(1, d.initialstate());
	seen.insert(m.number(d, todo[0]));
	while (!todo.empty()) {
		VisNav::State s = todo.back();
		todo.pop_back();
		mc::states();
		P p = m.loc(m.number(d, s));
		MC_CHECK(d.isgoal(s) == (p == m.t), "goal", "isgoal is %d at %lld,%lld", d.isgoal(s), p.x, p.y);
		auto it = togo.find(p);
		double h = d.h(s), want = it == togo.end() ? INFINITY : it->second;
		MC_CHECK(h <= want + 1e-6 * (1 + want), "admissible", "h is %g at %lld,%lld, the way is %g", h, p.x, p.y, want);
		VisNav::Operators ops(d, s);
		for (unsigned int i = 0; i < ops.size(); i++) {
			mc::transitions();
			VisNav::Edge e(d, s, ops[i]);
			P q = m.loc(m.number(d, e.state));
			MC_CHECK(m.o.sees(p, q) != Obst::No && near(e.cost, m.pl.dist(p, q), 1e-9), "cost", "going from %lld,%lld to %lld,%lld costs %g",
				p.x, p.y, q.x, q.y, (double) e.cost);
			MC_CHECK(ops[i] == ops[i] && !(ops[i] == VisNav::Nop), "operators", "an operator is not equal to itself");
			VisNav::Operators rops(d, e.state);
			for (unsigned int j = 0; j < rops.size(); j++) {
				if (!(rops[j] == e.revop))
					continue;
				VisNav::Edge r(d, e.state, rops[j]);
				P b = m.loc(m.number(d, r.state));
				MC_CHECK(b == p && near(r.cost, e.revcost), "reverse", "the reverse of going from %lld,%lld to %lld,%lld leads to %lld,%lld and costs %g, not %g",
					p.x, p.y, q.x, q.y, b.x, b.y, (double) r.cost, (double) e.revcost);
			}
			if (seen.insert(m.number(d, e.state)).second)
				todo.push_back(e.state);
		}
	}
}

static std::string curmap;

// navigate compares the ways that searches find with the shortest.  The corners are those of obstacles.
static void navigate(const VisGraph &g, const Obst &o, const Place &pl, const Pts &corners, const Pts &points, bool deep) {
	// exact visibility among corners and points
	Pts all(corners);
	all.insert(all.end(), points.begin(), points.end());
	size_t n = all.size(), nc = corners.size();
	std::vector<double> w(n * n, INFINITY);
	for (size_t i = 0; i < n; i++)
	for (size_t j = 0; j < i; j++)
		if (o.sees(all[i], all[j]) != Obst::No)
			w[i * n + j] = w[j * n + i] = pl.dist(all[i], all[j]);
	std::vector<std::pair<size_t,size_t>> pairs;
	for (size_t i = nc; i < n; i++)
	for (size_t j = nc; j < n; j++)
		if (i < j || (deep && i > j))
			pairs.push_back(std::make_pair(i, j));
	for (auto &pr : pairs) {
		size_t s = pr.first, t = pr.second;
		// the way from each to t through corners
		std::vector<double> to(n, INFINITY);
		std::vector<bool> done(n, false);
		to[t] = 0;
		for ( ; ; ) {
			size_t b = n;
			for (size_t i = 0; i < n; i++)
				if (!done[i] && !std::isinf(to[i]) && (b == n || to[i] < to[b]))
					b = i;
			if (b == n)
				break;
			done[b] = true;
			for (size_t i = 0; i < n; i++)
				if (i < nc || i == s || i == t)
					to[i] = std::min(to[i], to[b] + w[i * n + b]);
		}
		std::map<P,double> togo;
		for (size_t i = 0; i < n; i++)
			if (i < nc || i == s || i == t) {
				auto r = togo.insert(std::make_pair(all[i], to[i]));
				r.first->second = std::min(r.first->second, to[i]);
			}
		P ps = all[s], pt = all[t];
		Pt a = pl(ps), b = pl(pt);
		VisNav d(g, a.x, a.y, b.x, b.y);
		NavModel m(d, g, o, pl, ps, pt);
		mc::count(nquery);
		mc::count(nunreach, std::isinf(to[s]));
		mc::count(ndirect, to[s] == w[s * n + t]);
		if (!mc::begin([&] { return curmap + mc::strf(" from %lld,%lld to %lld,%lld", ps.x, ps.y, pt.x, pt.y); }))
			continue;
		if (deep)
			domainok(d, m, togo);
		double c = solve<VisNav>(d, m, { "astar" }, to[s], 1);
		MC_CHECK(c < 0 || near(c, to[s], 1e-6), "shortest", "the path costs %.10g, the shortest %.10g", c, to[s]);
		if (deep && !std::isinf(to[s]))
			solve<VisNav>(d, m, { "wastar", "-wt", "2" }, to[s], 2);
		mc::validated();
		mc::nontrivial();
	}
}

static std::string show(const std::vector<Pts> &ps) {
	std::string s;
	for (auto &p : ps) {
		s += "[";
		for (auto &v : p)
			s += mc::strf(" %lld,%lld", v.x, v.y);
		s += " ]";
	}
	return s;
}

// polygons checks a map of disjoint polygons given in clockwise order.
static void polygons(const std::vector<Pts> &ps, const Pts &points, int variant, bool deep) {
	std::string desc = show(ps);
	for (int k = 0; k < NPLACES; k++) {
		if (k != variant % NPLACES && !mc::thorough)
			continue;
		const Place &pl = places[k];
		curmap = desc + mc::strf(" placement %d", k);
		bool fresh = mc::begin([&] { return curmap; });
		mc::count(nmaps);
		std::vector<Poly> polys;
		for (auto &p : ps) {
			std::vector<Pt> v;
			for (auto &q : p)
				v.push_back(Pt(q.x, q.y));
			polys.push_back(Poly(v));
		}
		PolyMap map(polys);
		bool after = variant & 4;
		if (!after) {
			map.scale(pl.sx, pl.sy);
			map.translate(pl.dx, pl.dy);
		}
		reread(map);
		VisGraph g(map);
		if (after) {
			g.scale(pl.sx, pl.sy);
			g.translate(pl.dx, pl.dy);
		}
		Obst o;
		o.polys = ps;
		// the extent
		P lo = ps[0][0], hi = ps[0][0];
		Pts corners;
		for (auto &p : ps)
			for (auto &q : p) {
				lo.x = std::min(lo.x, q.x);
				lo.y = std::min(lo.y, q.y);
				hi.x = std::max(hi.x, q.x);
				hi.y = std::max(hi.y, q.y);
				corners.push_back(q);
			}
		Pt mn = g.map.min(), mx = g.map.max(), wn = pl(lo), wx = pl(hi);
		MC_CHECK(near(mn.x, wn.x, 1e-9) && near(mn.y, wn.y, 1e-9), "extent", "the least coordinates are %g,%g, not %g,%g", mn.x, mn.y, wn.x, wn.y);
		MC_CHECK(near(mx.x, wx.x, 1e-9) && near(mx.y, wx.y, 1e-9), "extent", "the greatest coordinates are %g,%g, not %g,%g", mx.x, mx.y, wx.x, wx.y);
		if (fresh) {
			checkgraph(g, o, pl);
			reread(g);
		}
		Pts free;
		for (auto &q : points) {
			int w = o.where1(q);
			if (w == 0)
				continue;
			mc::count(ncells);
			MC_CHECK(!fresh || g.map.obstructed(pl(q)) == (w > 0), "obstructed", "obstructed is %d at %lld,%lld", w <= 0, q.x, q.y);
			if (w < 0)
				free.push_back(q);
		}
		// what two points see
		for (auto &a : free)
			for (auto &b : free) {
				if (a == b || !fresh)
					continue;
				Obst::Vis v = o.sees(a, b);
				mc::count(npairs);
				if (v != Obst::Grazing)
					MC_CHECK(g.map.isvisible(pl(a), pl(b)) == (v == Obst::Clear), "visible", "isvisible is %d for %lld,%lld and %lld,%lld",
						v != Obst::Clear, a.x, a.y, b.x, b.y);
			}
		if (variant & 1) {	// as it is after it was written and read
			Memfile f(dumped([&](FILE *out) { g.output(out); }));
			VisGraph g2((FILE*) f);
			navigate(g2, o, pl, corners, free, deep);
		} else
			navigate(g, o, pl, corners, free, deep);
	}
}

// All clockwise simple polygons with n corners on a lattice, by their least corner first.
static std::vector<Pts> allpolys(int w, int h, int n) {
	std::vector<Pts> out;
	Pts lat;
	for (int x = 0; x < w; x++)
	for (int y = 0; y < h; y++)
		lat.push_back(P{ 2 * x + 2, 2 * y + 2 });
	std::vector<int> ix(n);
	std::function<void(int)> rec = [&](int d) {
		if (d == n) {
			Pts p;
			for (int i : ix)
				p.push_back(lat[i]);
			if (area2(p) < 0 && simple(p))
				out.push_back(p);
			return;
		}
		for (int i = d ? ix[0] + 1 : 0; i < (int) lat.size(); i++) {
			bool used = false;
			for (int j = 0; j < d; j++)
				used |= ix[j] == i;
			if (used)
				continue;
			ix[d] = i;
			rec(d + 1);
		}
	};
	rec(0);
	return out;
}

static void one(int chunk, int nchunks) {
	Pts points;
	for (int x = 1; x <= 7; x++)
	for (int y = 1; y <= 7; y++)
		points.push_back(P{ x, y });
	int k = 0;
	for (int n = 3; n <= (mc::thorough ? 6 : 5); n++)
		for (auto &p : allpolys(3, 3, n)) {
			if (k++ % nchunks != chunk)
				continue;
			Pts pts;
			if (mc::thorough)
				pts = points;
			else	// those around, and some between
				for (auto &q : points)
					if (((q.x + 2 * q.y + k) % 2) == 0 || (q.x == 4 && q.y == 3) || (q.x == 3 && q.y == 4))
						pts.push_back(q);
			polygons(std::vector<Pts>(1, p), pts, k, k % 5 == 0);
		}
}

static bool disjoint(const Pts &a, const Pts &b) {
	for (size_t i = 0; i < a.size(); i++)
	for (size_t j = 0; j < b.size(); j++)
		if (meet(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]))
			return false;
	return where(a, b[0]) < 0 && where(b, a[0]) < 0;
}

static void two(int chunk, int nchunks) {
	int W = 4, H = mc::thorough ? 4 : 3, k = 0;
	std::vector<Pts> tri = allpolys(W, H, 3);
	Pts pts = { { 1, 1 }, { 1, 4 }, { 9, 3 }, { 5, 9 }, { 5, 5 }, { 5, 4 } };
	for (size_t i = 0; i < tri.size(); i++)
	for (size_t j = 0; j < i; j++) {
		if (k++ % nchunks != chunk)
			continue;
		if (disjoint(tri[i], tri[j]))
			polygons({ tri[i], tri[j] }, pts, k / nchunks, k / nchunks % 16 == 0);
	}
}

// three: three small polygons, of which the corners are in a row sometimes
static void three(int chunk, int nchunks) {
	std::vector<Pts> shapes = {
		{ { 0, 0 }, { 0, 2 }, { 2, 2 }, { 2, 0 } },
		{ { 0, 0 }, { 0, 2 }, { 2, 0 } },
		{ { 0, 2 }, { 2, 2 }, { 2, 0 } },
		{ { 0, 0 }, { 0, 4 }, { 1, 4 }, { 1, 0 } },
		{ { 0, 0 }, { 0, 1 }, { 4, 1 }, { 4, 0 } },
	};
	std::vector<Pts> all;
	for (auto &s : shapes)
		for (int x = 1; x <= 7; x += 3)
		for (int y = 1; y <= 7; y += 3) {
			Pts p = s;
			for (auto &q : p) {
				q.x += x;
				q.y += y;
			}
			all.push_back(p);
		}
	int k = 0;
	Pts pts = { { 0, 0 }, { 0, 11 }, { 6, 6 }, { 12, 5 }, { 3, 10 } };
	for (size_t i = 0; i < all.size(); i++)
	for (size_t j = 0; j < i; j++)
	for (size_t l = 0; l < j; l++) {
		if (k++ % nchunks != chunk)
			continue;
		if (disjoint(all[i], all[j]) && disjoint(all[i], all[l]) && disjoint(all[j], all[l]))
			polygons({ all[i], all[j], all[l] }, pts, k / nchunks, k / nchunks % 16 == 0);
	}
}

// many: as many polygons as fit, in rows that are not quite straight
static void many(int chunk, int) {
	static const std::vector<Pts> shapes = {
		{ { 0, 0 }, { 0, 2 }, { 2, 3 }, { 2, 0 } },
		{ { 0, 0 }, { 1, 3 }, { 2, 0 } },
		{ { 0, 1 }, { 1, 3 }, { 3, 3 }, { 3, 1 }, { 2, 0 } },
		{ { 0, 0 }, { 0, 3 }, { 3, 3 }, { 3, 0 } },
		{ { 0, 0 }, { 1, 2 }, { 0, 3 }, { 3, 3 }, { 3, 0 } },
	};
	int n = chunk < 4 ? 4 + chunk : 9;
	std::vector<Pts> ps;
	for (int i = 0; i < n; i++)
		for (int j = 0; j < n; j++) {
			Pts p = n == 9 ? shapes[(i + j) % 2 ? 3 : 0] : shapes[(i * 3 + j * 2 + i * j + chunk) % 5];
			for (auto &q : p) {
				q.x += 5 * i + (j + chunk) % 2 + 1;
				q.y += 5 * j + (i * 2 + chunk) % 3 + 1;
			}
			ps.push_back(p);
		}
	polygons(ps, Pts{ { 0, 0 }, { 5 * n + 3, 5 * n + 2 }, { 0, 5 * n }, { 5 * n / 2, 5 * n + 4 } }, chunk, chunk == 1);
}

// Grid maps with a frame of obstacles.
struct GridMap {
	int w, h;
	std::vector<char> b;
	GridMap(int iw, int ih, unsigned long bits) : w(iw + 2), h(ih + 2), b(w * h, 1) {
		for (int x = 0; x < iw; x++)
		for (int y = 0; y < ih; y++)
			b[(x + 1) * h + y + 1] = bits >> (x * ih + y) & 1;
	}
	bool at(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h || b[x * h + y]; }
	// region marks the free cells that are part of the map: those connected with the
	// last free one of the first row that has any.
	std::vector<char> region() const {
		std::vector<char> r(w * h, 0);
		for (int y = 0; y < h; y++)
			for (int x = w - 1; x >= 0; x--)
				if (!at(x, y)) {
					std::vector<std::pair<int,int>> st(1, std::make_pair(x, y));
					r[x * h + y] = 1;
					while (!st.empty()) {
						int cx = st.back().first, cy = st.back().second;
						st.pop_back();
						static const int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
						for (int k = 0; k < 4; k++) {
							int nx = cx + dx[k], ny = cy + dy[k];
							if (at(nx, ny) || r[nx * h + ny])
								continue;
							r[nx * h + ny] = 1;
							st.push_back(std::make_pair(nx, ny));
						}
					}
					return r;
				}
		return r;
	}
	bool diagonal() const {	// two obstacles, or two free cells, that meet at a corner only
		for (int x = 0; x + 1 < w; x++)
		for (int y = 0; y + 1 < h; y++)
			if (at(x, y) == at(x + 1, y + 1) && at(x + 1, y) == at(x, y + 1) && at(x, y) != at(x + 1, y))
				return true;
		return false;
	}
	std::string pbm() const {
		std::string s = mc::strf("P1\n# a comment\n%d %d\n# another\n", w, h);
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++)
				s += at(x, y) ? (x & 1 ? "1" : "1 ") : "0";
			s += y & 1 ? "\n" : "\n# comment\n";
		}
		return s;
	}
};

template <class F> static std::string program(const std::string &in, F main) {
	mc::count(nprogs);
	FILE *oi = stdin, *oo = stdout;
	Memfile f(in);
	char *buf = NULL;
	size_t sz = 0;
	FILE *o = open_memstream(&buf, &sz);
	stdin = f.f;
	stdout = o;
	int rc = main();
	fflush(o);
	stdin = oi;
	stdout = oo;
	MC_CHECK(rc == 0, "program", "exit status %d", rc);
	std::string s(buf, sz);
	fclose(o);
	free(buf);
	return s;
}

static void gridmap(int iw, int ih, unsigned long bits, bool deep) {
	GridMap gm(iw, ih, bits);
	std::vector<char> reg = gm.region();
	int nfree = 0, nreg = 0;
	for (size_t i = 0; i < reg.size(); i++) {
		nfree += !gm.b[i];
		nreg += reg[i];
	}
	if (!nfree)
		return;
	std::string desc;
	for (int y = 0; y < gm.h; y++) {
		for (int x = 0; x < gm.w; x++)
			desc += gm.at(x, y) ? '#' : '.';
		desc += "/";
	}
	curmap = desc;
	if (!mc::begin([&] { return desc; }))
		return;
	mc::count(nmaps);
	mc::count(nregions, nreg < nfree);
	std::unique_ptr<bool[]> blk(new bool[gm.b.size()]);
	for (size_t i = 0; i < gm.b.size(); i++)
		blk[i] = gm.b[i];
	PolyMap map(blk.get(), gm.w, gm.h);
	for (int x = 0; x < gm.w; x++)
	for (int y = 0; y < gm.h; y++) {
		static const double off[][2] = { { .5, .5 }, { .1, .2 }, { .9, .3 }, { .2, .8 }, { .95, .85 } };
		for (auto &f : off) {
			mc::count(ncells);
			bool o = map.obstructed(Pt(x + f[0], y + f[1]));
			MC_CHECK(o == !reg[x * gm.h + y], "obstructed", "obstructed is %d in cell %d,%d", o, x, y);
		}
	}
	mc::validated();
	if (bits % 7 == 0) {
		std::string s = program(gm.pbm(), [] { return visnav_pbm2poly_main(0, NULL); });
		Memfile f(s);
		MC_CHECK(samemap(PolyMap((FILE*) f), map), "pbm", "the map made from the picture differs");
		std::string s2 = program(s, [] { return visnav_mkgraph_main(0, NULL); });
		Memfile f2(s2);
		MC_CHECK(samegraph(VisGraph((FILE*) f2), VisGraph(map)), "mkgraph", "the graph made by the program differs");
	}
	reread(map);
	MC_CHECK(map.bound, "bound", "there is no boundary");
	// its extent, and the same map elsewhere
	static const Place moves[] = { { 1, 1, 0, 0 }, { 2, 0.5, 3, 7 }, { 0.25, 3, -5, 1.5 }, { 1.5, 1.5, 2, -4 } };
	int x0 = gm.w, y0 = gm.h, x1 = 0, y1 = 0;
	for (int x = 0; x < gm.w; x++)
	for (int y = 0; y < gm.h; y++)
		if (reg[x * gm.h + y]) {
			x0 = std::min(x0, x), x1 = std::max(x1, x + 1);
			y0 = std::min(y0, y), y1 = std::max(y1, y + 1);
		}
	for (auto &mv : moves) {
		PolyMap m(map);
		m.scale(mv.sx, mv.sy);
		m.translate(mv.dx, mv.dy);
		auto to = [&](double x, double y) { return Pt(x * mv.sx + mv.dx, y * mv.sy + mv.dy); };
		Pt mn = m.min(), mx = m.max(), wn = to(x0, y0), wx = to(x1, y1);
		MC_CHECK(near(mn.x, wn.x, 1e-9) && near(mn.y, wn.y, 1e-9) && near(mx.x, wx.x, 1e-9) && near(mx.y, wx.y, 1e-9), "extent", "it is from %g,%g to %g,%g, not from %g,%g to %g,%g", mn.x, mn.y, mx.x, mx.y, wn.x, wn.y, wx.x, wx.y);
		for (int x = 0; x < gm.w; x++)
		for (int y = 0; y < gm.h; y++) {
			bool o = m.obstructed(to(x + .45, y + .55));
			MC_CHECK(o == !reg[x * gm.h + y], "obstructed", "obstructed is %d in cell %d,%d of the moved map", o, x, y);
		}
		reread(m);
	}
	if (nreg == nfree && !gm.diagonal()) {
		// In twice the coordinates.
		Obst o;
		for (int x = 0; x < gm.w; x++)
		for (int y = 0; y < gm.h; y++)
			if (gm.at(x, y))
				o.polys.push_back(Pts{ { 2 * x, 2 * y }, { 2 * x, 2 * y + 2 }, { 2 * x + 2, 2 * y + 2 }, { 2 * x + 2, 2 * y } });
		// merge: a wall between two obstacles is one, too
		for (int x = 0; x < gm.w; x++)
		for (int y = 0; y < gm.h; y++) {
			if (gm.at(x, y) && gm.at(x + 1, y))
				o.polys.push_back(Pts{ { 2 * x, 2 * y }, { 2 * x, 2 * y + 2 }, { 2 * x + 4, 2 * y + 2 }, { 2 * x + 4, 2 * y } });
			if (gm.at(x, y) && gm.at(x, y + 1))
				o.polys.push_back(Pts{ { 2 * x, 2 * y }, { 2 * x, 2 * y + 4 }, { 2 * x + 2, 2 * y + 4 }, { 2 * x + 2, 2 * y } });
		}
		Place half = { .5, .5, 0, 0 };
		VisGraph g(map);
		checkgraph(g, o, half);
		reread(g);
		if (bits % 3 == 0)
			for (auto &mv : moves) {
				VisGraph gm2(map);
				gm2.scale(mv.sx, mv.sy);
				gm2.translate(mv.dx, mv.dy);
				Place pl = { mv.sx / 2, mv.sy / 2, mv.dx, mv.dy };
				checkgraph(gm2, o, pl);
			}
		Pts corners, points;
		for (int x = 1; x < gm.w; x++)
		for (int y = 1; y < gm.h; y++)
			if (gm.at(x - 1, y - 1) + gm.at(x, y - 1) + gm.at(x - 1, y) + gm.at(x, y) == 1)
				corners.push_back(P{ 2 * x, 2 * y });
		for (int x = 0; x < gm.w; x++)
		for (int y = 0; y < gm.h; y++)
			if (!gm.at(x, y))
				points.push_back(P{ 2 * x + 1, 2 * y + 1 });
		if (!deep && points.size() > 4) {
			Pts some;
			for (size_t i = 0; i < 4; i++)
				some.push_back(points[i * (points.size() - 1) / 3]);
			points = some;
		}
		navigate(g, o, half, corners, points, bits % 16 == 3);
		if (bits % 5 == 0) {
			Memfile f(dumped([&](FILE *out) { g.output(out); }));
			VisGraph g2((FILE*) f);
			navigate(g2, o, half, corners, points, false);
		}
	} else
		mc::count(nskipped);
}

static void grids(int chunk, int nchunks) {
	int k = 0;
	static const int sizes[][2] = { { 1, 1 }, { 2, 1 }, { 1, 3 }, { 3, 2 }, { 3, 3 }, { 4, 3 }, { 2, 5 }, { 4, 4 } };
	for (auto &s : sizes) {
		if (s[0] * s[1] > 12 && !mc::thorough)
			continue;
		for (unsigned long b = 0; b < 1UL << (s[0] * s[1]); b++)
			if (k++ % nchunks == chunk)
				gridmap(s[0], s[1], b, mc::thorough || s[0] * s[1] < 12);
	}
}

// The programs that make random maps and instances.
static void programs(int chunk, int nchunks) {
	static const double ds[] = { 0, 0.3, 0.55, 0.999 };
	int k = 0;
	for (int np = 1; np <= 3; np++)
	for (int nv = 3; nv <= 5; nv += 2)
	for (int draw = 0; draw < 256; draw++)
	for (int file = 0; file < 2; file++) {
		if (k++ % nchunks != chunk)
			continue;
		if (!mc::begin([&] { return mc::strf("rand -npolys %d -nverts %d draw %d %s", np, nv, draw, file ? "to a file" : ""); }))
			continue;
		reals.clear();
		for (int i = 0; i < 4; i++)
			reals.push_back(ds[draw >> 2 * i & 3]);
		at = 0;
		std::string sp = mc::strf("%d", np), sv = mc::strf("%d", nv), path = mc::scratch + "/map";
		std::vector<std::string> args = { "rand", "-npolys", sp, "-nverts", sv, "-minrad", "0.1", "-maxrad", "0.15" };
		std::vector<char*> argv;
		for (auto &a : args)
			argv.push_back((char*) a.c_str());
		if (file) {
			argv.push_back((char*) "-o");
			argv.push_back((char*) path.c_str());
		}
		argv.push_back(NULL);
		unlink(path.c_str());
		std::string s = program("", [&] { return visnav_rand_main(argv.size() - 1, argv.data()); });
		if (file) {
			MC_CHECK(s.empty(), "rand", "the map was not written to the file, but to standard output");
			std::ifstream f(path);
			std::stringstream ss;
			ss << f.rdbuf();
			s = ss.str();
		}
		Memfile f(s);
		PolyMap m((FILE*) f);
		MC_CHECK((int) m.polys.size() == np && !m.bound, "rand", "%zu polygons", m.polys.size());
		for (size_t i = 0; i < m.polys.size(); i++) {
			auto &b = m.polys[i].bbox;
			MC_CHECK(b.min.x >= -1e-9 && b.min.y >= -1e-9 && b.max.x <= 1 + 1e-9 && b.max.y <= 1 + 1e-9, "rand", "polygon %zu is out of the unit square", i);
			MC_CHECK(m.polys[i].verts.size() >= 3 && (int) m.polys[i].verts.size() <= nv, "rand", "%zu vertices", m.polys[i].verts.size());
			for (size_t j = 0; j < i; j++) {
				auto &c = m.polys[j].bbox;
				MC_CHECK(b.min.x > c.max.x || c.min.x > b.max.x || b.min.y > c.max.y || c.min.y > b.max.y, "rand", "polygons %zu and %zu overlap", i, j);
			}
		}
		VisGraph g(m);
		reread(g);
		// an instance
		reals.clear();
		for (int i = 0; i < 4; i++)
			reals.push_back(ds[draw >> 2 * (3 - i) & 3]);
		at = 0;
		std::string gs = dumped([&](FILE *o) { g.output(o); });
		char *iargv[] = { (char*) "inst", NULL };
		std::string is = program(gs, [&] { visnav_inst_main(1, iargv); return 0; });
		Memfile fi(is);
		VisGraph g2((FILE*) fi);
		MC_CHECK(samegraph(g, g2), "inst", "the instance has another graph");
		double x0, y0, x1, y1;
		MC_CHECK(fscanf(fi.f, " %lg %lg %lg %lg", &x0, &y0, &x1, &y1) == 4, "inst", "no start and goal");
		MC_CHECK(!g.map.obstructed(Pt(x0, y0)) && !g.map.obstructed(Pt(x1, y1)), "inst", "the start or the goal is obstructed");
		MC_CHECK(x0 >= 0 && y0 >= 0 && x1 >= 0 && y1 >= 0 && x0 <= 1 && y0 <= 1 && x1 <= 1 && y1 <= 1, "inst", "the start or the goal is out of the square");
		VisNav d(g2, x0, y0, x1, y1);
		const char *args2[] = { "x", "astar", "-expd", "100000", NULL };
		std::unique_ptr<SearchAlgorithm<VisNav>> a(getsearch<VisNav>(4, args2));
		VisNav::State s0 = d.initialstate();
		a->search(d, s0);
		MC_CHECK(!a->res.path.empty(), "inst", "there is no path");
		double c = d.pathcost(a->res.path, a->res.ops), e = Pt::distance(Pt(x0, y0), Pt(x1, y1));
		MC_CHECK(c >= e - 1e-9, "inst", "the path is %g, which is less than the distance %g", c, e);
		mc::validated();
	}
}

void mc_setup() {
	nmaps = mc::counter("maps");
	ncells = mc::counter("points");
	nregions = mc::counter("grids_with_several_regions");
	ngraphs = mc::counter("graphs");
	nedges = mc::counter("graph_edges");
	nquery = mc::counter("shortest_paths");
	nunreach = mc::counter("unreachable");
	ndirect = mc::counter("straight");
	nreread = mc::counter("read_again");
	nprogs = mc::counter("program_runs");
	npairs = mc::counter("visible_pairs");
	nskipped = mc::counter("grids_not_navigated");
	mc::suite("one", "every simple polygon on a lattice", 64, [](int c) { one(c, 64); });
	mc::suite("two", "every two disjoint triangles on a lattice", 64, [](int c) { two(c, 64); });
	mc::suite("three", "three small polygons", 64, [](int c) { three(c, 64); });
	mc::suite("many", "16 to 49 polygons of 3 to 5 sides, and 81 quadrangles", mc::thorough ? 7 : 5, [](int c) { many(c, 7); }, 120);
	mc::suite("grids", "every small grid", 64, [](int c) { grids(c, 64); });
	mc::suite("programs", "the programs that make maps and instances", 8, [](int c) { programs(c, 8); });
}

MC_MAIN
