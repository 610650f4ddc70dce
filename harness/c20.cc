// C20: plane geometry agrees with exact arithmetic.
#include "mc.hpp"
#include "utils/utils.hpp"
#include "utils/geom2d.hpp"
#include <algorithm>
#include <cmath>
#include <set>

using namespace geom2d;

void fatal(const char *fmt, ...) { mc::fail("fatal", "fatal error: %s", fmt); }
void fatalx(int, const char *fmt, ...) { mc::fail("fatal", "fatal error: %s", fmt); }
double walltime() { return 1; }
double cputime() { return 1; }

static std::vector<double> reals;
static size_t at;
double Rand::real() { return at < reals.size() ? reals[at++] : 0; }

static int npairs, nhits, noverlaps, npolys, ninside, nqueries, nhulls, narcs, narchits, nunclear;

// Exact geometry on integers.
typedef long long Z;
struct P {
	Z x, y;
	bool operator==(const P &o) const { return x == o.x && y == o.y; }
	bool operator!=(const P &o) const { return !(*this == o); }
	bool operator<(const P &o) const { return x < o.x || (x == o.x && y < o.y); }
};
static Z cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static Z dotp(P a, P b, P c) { return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y); }
static int sgn(Z v) { return v < 0 ? -1 : v > 0; }
static bool onseg(P a, P b, P p) {
	return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool meet(P a, P b, P c, P d) {
	if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b))
		return true;
	return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
static bool parallel(P a, P b, P c, P d) { return (b.x - a.x) * (d.y - c.y) == (b.y - a.y) * (d.x - c.x); }

// Where an exact point lies in the plane of the code: a similarity transformation.
struct Xform {
	double a, b, dx, dy;	// (x, y) -> (ax - by + dx, bx + ay + dy)
	Pt operator()(double x, double y) const { return Pt(a * x - b * y + dx, b * x + a * y + dy); }
	Pt operator()(P p) const { return (*this)(p.x, p.y); }
	double scale() const { return sqrt(a * a + b * b); }
};
static const Xform xforms[] = {
	{ 1, 0, 0, 0 }, { 0.37, 0, 7.3, -2.7 }, { 0.8, 0.6, 0, 0 }, { -0.6, 0.8, 100, 50 }, { 0, 1, -3, 0 }, { 0.1, 0.03, 0.5, 0.5 },
};
enum { NX = sizeof(xforms) / sizeof(xforms[0]) };

static bool near(Pt a, Pt b) { return fabs(a.x - b.x) < 1e-7 && fabs(a.y - b.y) < 1e-7; }

// The distance of a point from a segment.
static double away(Pt a, Pt b, Pt p) {
	double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
	double t = l == 0 ? 0 : ((p.x - a.x) * dx + (p.y - a.y) * dy) / l;
	t = std::max(0.0, std::min(1.0, t));
	return hypot(a.x + t * dx - p.x, a.y + t * dy - p.y);
}

static void segs(const Xform &f, P a, P b, P c, P d) {
	if (!mc::begin([&] { return mc::strf("(%lld,%lld)-(%lld,%lld) and (%lld,%lld)-(%lld,%lld) in map %d", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, (int) (&f - xforms)); }))
		return;
	mc::states();
	mc::count(npairs);
	mc::transitions();
	LineSg l(f(a), f(b)), o(f(c), f(d));
	bool m = meet(a, b, c, d);
	Pt p = l.isect(o);
	if (m) {
		mc::nontrivial();
		mc::count(nhits);
		if (parallel(a, b, c, d))
			mc::count(noverlaps);
		MC_CHECK(!p.isinf(), "isect", "segments that intersect have no intersection");
		MC_CHECK(away(f(a), f(b), p) < 1e-7 && away(f(c), f(d), p) < 1e-7, "isect", "intersection %.17g %.17g is not on both", p.x, p.y);
	} else {
		MC_CHECK(p.isinf(), "isect", "segments that do not intersect do so at %.17g %.17g", p.x, p.y);
	}
	MC_CHECK(l.hits(o) == m, "hits", "hits is %d", l.hits(o));
	MC_CHECK(l.bbox.hits(o.bbox) || !m || &f > xforms + 1, "bbox", "bounding boxes of intersecting segments do not hit");
	if (a == b || c == d)
		return;
	// the infinite lines
	Pt q = l.Line::isect(o);
	if (parallel(a, b, c, d)) {
		MC_CHECK(q.isinf(), "line", "parallel lines intersect at %.17g %.17g", q.x, q.y);
	} else {
		double k = (double) cross(a, c, d) / (cross(a, c, d) - cross(b, c, d));
		Pt e = f(a.x + k * (b.x - a.x), a.y + k * (b.y - a.y));
		MC_CHECK(near(q, e), "line", "lines intersect at %.17g %.17g, not %.17g %.17g", q.x, q.y, e.x, e.y);
	}
	MC_CHECK(l.Line::contains(f(c)) == (cross(a, b, c) == 0), "line", "contains is wrong");
	if (!l.isvertical() && cross(a, b, c) != 0)
		MC_CHECK(l.isabove(f(c)) == (f(c).y > l.p0.y + (l.p1.y - l.p0.y) * (f(c).x - l.p0.x) / (l.p1.x - l.p0.x)), "line", "isabove is wrong");
	if (cross(a, b, c) == 0)
		MC_CHECK(l.within(f(c)) == onseg(a, b, c), "within", "within is wrong");
}

static P lat(int i, int n) { return P{i % n, i / n}; }

static void segpairs(int n, uint64_t c, int nf) {
	for (int i = c; i < n * n * n * n; i += 64)
	for (int j = 0; j < n * n * n * n; j++)
	for (int f = 0; f < nf; f++)
		segs(xforms[f], lat(i % (n * n), n), lat(i / (n * n), n), lat(j % (n * n), n), lat(j / (n * n), n));
}

static void points() {
	for (int i = -12; i <= 12; i++)
	for (int j = -12; j <= 12; j++)
		if (mc::begin([&] { return mc::strf("the point %d %d", i, j); })) {
			mc::states();
			Pt p(i, j);
			double a = atan2(j, i);
			MC_CHECK(fabs(Pt::angle(p) - (a < 0 ? a + 2 * M_PI : a)) < 1e-12, "point", "angle %g", p.angle());
			MC_CHECK(Pt::distance(p, Pt(3, -2)) == sqrt((i - 3) * (i - 3) + (j + 2) * (j + 2)), "point", "distance");
			MC_CHECK(Pt::dot(p, Pt(3, -2)) == 3 * i - 2 * j && Pt::sub(p, Pt(3, -2)) == Pt(i - 3, j + 2), "point", "dot or sub");
			MC_CHECK(!(p == Pt(i + 1, j)) && p != Pt(i, j + 1) && p == Pt(i + 1e-10, j), "point", "equality");
			for (int k = 0; k < 8; k++) {
				Pt q(p);
				q.rotate(k * M_PI / 4);
				MC_CHECK(fabs(hypot(q.x, q.y) - hypot(i, j)) < 1e-9, "point", "rotation changes the length");
				if (i || j)
					MC_CHECK(fabs(remainder(q.angle() - p.angle() - k * M_PI / 4, 2 * M_PI)) < 1e-9, "point", "rotation by %d/8 goes from %g to %g", k, p.angle(), q.angle());
			}
			for (int k = 0; k < 64; k++) {
				P u{k % 8 - 4, k / 8 - 4}, v{0, 0}, w{i, j};
				if (u == v || w == v)
					continue;
				double turn = atan2(-u.x * j + (double) u.y * i, -u.x * i - u.y * j);	// from v - u to w - v
				MC_CHECK(fabs(remainder(Pt::cwangle(Pt(u.x, u.y), Pt(0, 0), p) + turn, 2 * M_PI)) < 1e-9, "point", "cwangle");
			}
			if (i || j) {
				LineSg l(Pt(1, 2), Pt(1 + i, 2 + j));
				MC_CHECK(fabs(l.length() - hypot(i, j)) < 1e-12 && near(l.midpt(), Pt(1 + i / 2.0, 2 + j / 2.0)), "segment", "length or midpoint");
				for (int k = 0; k <= 6; k++)
					MC_CHECK(near(l.along(k), Pt(1 + k * i / hypot(i, j), 2 + k * j / hypot(i, j))), "segment", "along %d", k);
			}
		}
	for (int a = -3; a <= 3; a++)
	for (int b = -9; b <= 9; b++)
	for (int c = -9; c <= 9; c++)
		if (a && mc::begin([&] { return mc::strf("%dx^2 + %dx + %d", a, b, c); })) {
			mc::states();
			double s[2];
			unsigned n = QuadEq(a, b, c).solutions(s);
			int disc = b * b - 4 * a * c;
			MC_CHECK(n == (disc < 0 ? 0u : disc == 0 ? 1u : 2u), "quadratic", "%u solutions", n);
			for (unsigned k = 0; k < n; k++)
				MC_CHECK(fabs(a * s[k] * s[k] + b * s[k] + c) < 1e-9, "quadratic", "%g is no solution", s[k]);
			MC_CHECK(n < 2 || s[0] != s[1], "quadratic", "the same solution twice");
		}
}

static void boxes(uint64_t ch) {
	for (int i = ch; i < 256; i += 16)
	for (int j = 0; j < 256; j++)
		if (mc::begin([&] { return mc::strf("boxes %d and %d", i, j); })) {
			mc::states();
			P a = lat(i % 16, 4), b = lat(i / 16, 4), c = lat(j % 16, 4), d = lat(j / 16, 4);
			Bbox x(a.x, a.y, b.x, b.y), y(Pt(c.x, c.y), Pt(d.x, d.y));
			Z x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
			Z u0 = std::min(c.x, d.x), u1 = std::max(c.x, d.x), v0 = std::min(c.y, d.y), v1 = std::max(c.y, d.y);
			MC_CHECK(x.min.x == x0 && x.max.x == x1 && x.min.y == y0 && x.max.y == y1, "bbox", "wrong extent");
			bool h = x0 <= u1 && u0 <= x1 && y0 <= v1 && v0 <= y1;
			MC_CHECK(x.hits(y) == h && y.hits(x) == h, "bbox", "hits is %d", x.hits(y));
			MC_CHECK(x.contains(Pt(c.x, c.y)) == (x0 <= c.x && c.x <= x1 && y0 <= c.y && c.y <= y1), "bbox", "contains");
			MC_CHECK((x == y) == (x0 == u0 && x1 == u1 && y0 == v0 && y1 == v1), "bbox", "equality");
			MC_CHECK(x.center() == Pt((x0 + x1) / 2.0, (y0 + y1) / 2.0), "bbox", "center");
			std::vector<Pt> ps = { Pt(a.x, a.y), Pt(c.x, c.y), Pt(b.x, b.y), Pt(d.x, d.y) };
			Bbox z(ps);
			MC_CHECK(z == Bbox(std::min(x0, u0), std::min(y0, v0), std::max(x1, u1), std::max(y1, v1)), "bbox", "of four points");
			z.translate(2, -3);
			MC_CHECK(z == Bbox(std::min(x0, u0) + 2, std::min(y0, v0) - 3, std::max(x1, u1) + 2, std::max(y1, v1) - 3), "bbox", "translate");
		}
}

// Whether a closed chain is a simple polygon (vertices may be collinear).
static bool simple(const std::vector<P> &v) {
	int n = v.size();
	for (int i = 0; i < n; i++) {
		P a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n];
		if (a == b || onseg(a, b, c) || onseg(b, c, a))
			return false;
		for (int j = i + 2; j < n; j++)
			if ((j + 1) % n != i && meet(a, b, v[j], v[(j + 1) % n]))
				return false;
	}
	return true;
}

// Twice the signed area: positive if counterclockwise.
static Z area(const std::vector<P> &v) {
	Z s = 0;
	for (size_t i = 0; i < v.size(); i++) {
		P a = v[i], b = v[(i + 1) % v.size()];
		s += a.x * b.y - a.y * b.x;
	}
	return s;
}

static std::vector<P> corners(const std::vector<P> &v) {
	std::vector<P> r;
	int n = v.size();
	for (int i = 0; i < n; i++)
		if (cross(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) != 0)
			r.push_back(v[i]);
	return r;
}

static bool border(const std::vector<P> &v, P p) {
	for (size_t i = 0; i < v.size(); i++)
		if (onseg(v[i], v[(i + 1) % v.size()], p))
			return true;
	return false;
}

// Inside, for points that are not on the border: the winding number.
static bool inside(const std::vector<P> &v, P p) {
	int w = 0;
	for (size_t i = 0; i < v.size(); i++) {
		P a = v[i], b = v[(i + 1) % v.size()];
		if (a.y <= p.y && b.y > p.y && cross(a, b, p) > 0)
			w++;
		if (b.y <= p.y && a.y > p.y && cross(a, b, p) < 0)
			w--;
	}
	return w != 0;
}

static std::string show(const std::vector<P> &v) {
	std::string s;
	for (P p : v)
		s += mc::strf(" (%lld,%lld)", p.x, p.y);
	return s;
}

static void sameverts(const Poly &p, const std::vector<P> &v, const Xform &f, const char *what) {
	MC_CHECK(p.verts.size() == v.size() && p.sides.size() == v.size(), what, "%zu vertices, %zu sides, not %zu", p.verts.size(), p.sides.size(), v.size());
	Bbox bb;
	for (size_t i = 0; i < v.size(); i++) {
		Pt q = f(v[i]);
		MC_CHECK(near(p.verts[i], q), what, "vertex %zu is %.17g %.17g", i, p.verts[i].x, p.verts[i].y);
		MC_CHECK(near(p.sides[i].p0, q) && near(p.sides[i].p1, f(v[(i + 1) % v.size()])), what, "side %zu", i);
		bb.min.x = std::min(bb.min.x, q.x);
		bb.max.x = std::max(bb.max.x, q.x);
		bb.min.y = std::min(bb.min.y, q.y);
		bb.max.y = std::max(bb.max.y, q.y);
	}
	MC_CHECK(near(bb.min, p.bbox.min) && near(bb.max, p.bbox.max), what, "bounding box");
}

// v is on a lattice four times as fine as f's.
static void polygon(const std::vector<P> &w, const Xform &g, bool deep) {
	if (!mc::begin([&] { return mc::strf("polygon%s in map %d", show(w).c_str(), (int) (&g - xforms)); }))
		return;
	mc::states();
	mc::count(npolys);
	Xform f = { g.a / 4, g.b / 4, g.dx, g.dy };
	std::vector<P> v = corners(w), full;
	for (P &p : v)
		p = P{4 * p.x, 4 * p.y};
	std::vector<Pt> pts;
	for (P p : w)
		pts.push_back(g(p));
	Poly poly(pts);
	// outside the lattice it keeps vertices that are collinear but for rounding
	bool exact = &g == xforms || v.size() == w.size();
	if (exact)
		sameverts(poly, v, f, "vertices");
	if (exact)
		for (size_t i = 0; i < v.size(); i++) {
			Z t = cross(v[(i + v.size() - 1) % v.size()], v[i], v[(i + 1) % v.size()]);
			MC_CHECK(poly.isreflex(i) == (t < 0), "isreflex", "vertex %zu", i);
		}
	Z hi = 0;
	for (P p : v)
		hi = std::max(hi, std::max(p.x, p.y));
	Z step = hi > 400 ? 7 : 1;
	for (Z x = -2; x <= hi + 2; x += step)
	for (Z y = -2; y <= hi + 2; y += step) {
		P q{x, y};
		if ((!deep && (x & 1) != (y & 1)) || border(v, q))
			continue;
		bool in = inside(v, q);
		mc::count(nqueries);
		mc::count(ninside, in);
		mc::transitions();
		MC_CHECK(poly.contains(f(q)) == in, "contains", "the polygon %s (%g,%g)", in ? "does not contain" : "contains", x / 4.0, y / 4.0);
	}
	// segments against its sides
	for (Z i = 0; i < 36; i++)
	for (Z j = 0; j < 36; j++) {
		Z st = hi <= 12 ? 4 : (hi + 12) / 5;	// the points go beyond the polygon
		P a{(i % 6) * st - 6 + (i & 2), (i / 6) * st - 6}, b{(j % 6) * st - 6, (j / 6) * st - 6 + (j & 2)};
		if (a == b || (!deep && (i + j) % 5))
			continue;
		mc::transitions();
		LineSg l(f(a), f(b));
		unsigned nmeet = 0;
		bool overlap = false;
		double best = Infinity;
		for (size_t k = 0; k < v.size(); k++) {
			P c = v[k], d = v[(k + 1) % v.size()];
			if (!meet(a, b, c, d))
				continue;
			nmeet++;
			if (parallel(a, b, c, d)) {
				overlap = true;
				continue;
			}
			double s = (double) cross(a, c, d) / (cross(a, c, d) - cross(b, c, d));
			best = std::min(best, s * l.length());
		}
		MC_CHECK(poly.hits(l) == (nmeet > 0), "polyhits", "hits is %d for (%g,%g)-(%g,%g)", poly.hits(l), a.x / 4.0, a.y / 4.0, b.x / 4.0, b.y / 4.0);
		std::vector<Pt> is = poly.isects(l);
		MC_CHECK(is.size() == nmeet || !exact, "isects", "%zu intersections with (%g,%g)-(%g,%g), not %u", is.size(), a.x / 4.0, a.y / 4.0, b.x / 4.0, b.y / 4.0, nmeet);
		for (Pt q : is) {
			double m = Infinity;
			for (auto &s : poly.sides)
				m = std::min(m, away(s.p0, s.p1, q));
			MC_CHECK(m < 1e-7 && away(l.p0, l.p1, q) < 1e-7, "isects", "intersection %g %g is not on both", q.x, q.y);
		}
		Pt m = poly.minisect(l);
		MC_CHECK(m.isinf() == (nmeet == 0), "minisect", "%g %g with %u intersections", m.x, m.y, nmeet);
		if (nmeet > 0 && !overlap)
			MC_CHECK(fabs(Pt::distance(m, l.p0) - best) < 1e-7, "minisect", "at distance %g, not %g", Pt::distance(m, l.p0), best);
	}
	// reading, writing and moving
	char *buf = NULL;
	size_t n = 0;
	FILE *o = open_memstream(&buf, &n);
	poly.output(o);
	fclose(o);
	FILE *in = fmemopen(buf, n, "r");
	Poly back(in);
	fclose(in);
	free(buf);
	MC_CHECK(back.verts.size() == poly.verts.size(), "input", "%zu vertices are read back", back.verts.size());
	for (size_t i = 0; i < back.verts.size(); i++)
		MC_CHECK(back.verts[i].x == poly.verts[i].x && back.verts[i].y == poly.verts[i].y, "input", "vertex %zu is read back as %.17g %.17g, not %.17g %.17g", i,
			back.verts[i].x, back.verts[i].y, poly.verts[i].x, poly.verts[i].y);
	if (exact && g.b == 0) {
		poly.translate(1, -2);
		Xform h = f;
		h.dx += 1, h.dy -= 2;
		sameverts(poly, v, h, "translate");
		poly.scale(2, 2);
		Xform k = { 2 * h.a, 0, 2 * h.dx, 2 * h.dy };
		sameverts(poly, v, k, "scale");
		Poly p3(back);
		p3.scale(1, 3);
		for (size_t i = 0; i < v.size(); i++)
			MC_CHECK(near(p3.verts[i], Pt(f(v[i]).x, 3 * f(v[i]).y)), "scale", "vertex %zu scaled by 1 and 3", i);
	}
}

static void chains(int side, int n, uint64_t c, uint64_t nch, int nf, bool deep) {
	uint64_t total = 1;
	for (int i = 0; i < n; i++)
		total *= side * side;
	for (uint64_t k = c; k < total; k += nch) {
		std::vector<P> v;
		uint64_t q = k;
		for (int i = 0; i < n; i++, q /= side * side)
			v.push_back(lat(q % (side * side), side));
		if (!simple(v))
			continue;
		for (int f = 0; f < nf; f++)
			polygon(v, xforms[f], deep);
	}
}

// big gives polygons of 8 to 31 vertices: combs, saws, stairs, spirals and stars, turned, mirrored and from several
// starting vertices.
static void big(uint64_t c, uint64_t nch, bool huge = false) {
	std::vector<std::vector<P>> all;
	for (Z teeth : huge ? std::vector<Z>{ 40, 66, 90 } : std::vector<Z>{ 2, 3, 4, 5, 6, 7 })
		for (int kind = 0; kind < 4; kind++) {
			std::vector<P> v = { { 0, 0 }, { 2 * teeth - 1, 0 } };
			for (Z i = teeth; i-- > 0; ) {
				Z top = 2 + i * (kind + 1) % 5;
				if (kind == 0) {	// square teeth
					v.push_back(P{2 * i + 1, top + 1});
					v.push_back(P{2 * i, top + 1});
					if (i > 0) {
						v.push_back(P{2 * i, 1});
						v.push_back(P{2 * i - 1, 1});
					}
				} else if (kind == 1) {	// saw
					v.push_back(P{2 * i, top + 1});
					if (i > 0)
						v.push_back(P{2 * i - 1, 1});
				} else if (kind == 2) {	// stairs
					v.push_back(P{2 * i + 1, teeth - i + 1});
					v.push_back(P{2 * i - (i > 0), teeth - i + 1});
				} else {	// slanted teeth
					v.push_back(P{2 * i + 2, top + 2});
					v.push_back(P{2 * i + 1, top + 2});
					if (i > 0)
						v.push_back(P{2 * i - 1, 1});
				}
			}
			all.push_back(v);
		}
	for (Z turns = huge ? 30 : 2; turns <= (huge ? 35 : 4); turns++) {	// spirals: a corridor of width 1
		Z n = 4 * turns;
		std::vector<P> out, in;
		for (Z t = 0; t < turns; t++) {
			out.insert(out.end(), { P{2 * t - (t > 0) * 2, 2 * t}, P{n - 2 * t, 2 * t}, P{n - 2 * t, n - 2 * t}, P{2 * t, n - 2 * t} });
			in.insert(in.end(), { P{2 * t - (t > 0) * 2, 2 * t + 1}, P{n - 2 * t - 1, 2 * t + 1}, P{n - 2 * t - 1, n - 2 * t - 1}, P{2 * t + 1, n - 2 * t - 1} });
		}
		out.insert(out.end(), in.rbegin(), in.rend());
		all.push_back(out);
	}
	static const P dirs[] = { {5, 0}, {5, 2}, {4, 4}, {1, 5}, {0, 6}, {-2, 5}, {-4, 3}, {-5, 1}, {-6, 0}, {-4, -2}, {-3, -3}, {-2, -5}, {0, -5}, {2, -6}, {3, -3}, {5, -1} };
	for (int m = 0; m < (huge ? 0 : 32); m++) {	// stars around (6,6): some of the points come closer
		std::vector<P> v;
		for (int i = 0; i < 16; i++) {
			int s = m >> i % 5 & 1;
			if (s && i % 2 == 0)
				continue;
			v.push_back(P{6 + (s ? dirs[i].x / 2 : dirs[i].x), 6 + (s ? dirs[i].y / 2 : dirs[i].y)});
		}
		all.push_back(v);
	}
	uint64_t k = 0;
	for (auto &w : all) {
		if (!simple(w))
			continue;
		Z hi = 0;
		for (P p : w)
			hi = std::max(hi, std::max(p.x, p.y));
		for (int turn = 0; turn < 8; turn++)
			for (int from = 0; from < 3; from++) {
				if (k++ % nch != c)
					continue;
				std::vector<P> v(w);
				for (P &p : v) {
					if (turn & 1)
						p.x = hi - p.x;
					if (turn & 2)
						p.y = hi - p.y;
					if (turn & 4)
						std::swap(p.x, p.y);
				}
				std::rotate(v.begin(), v.begin() + from * v.size() / 3, v.end());
				if (area(v) < 0)
					std::reverse(v.begin(), v.end());
				polygon(v, xforms[0], !huge);
			}
	}
}

static void hull(const std::vector<P> &ps, const Xform &f) {
	if (!mc::begin([&] { return "hull of" + show(ps) + mc::strf(" in map %d", (int) (&f - xforms)); }))
		return;
	mc::states();
	std::vector<P> s(ps);
	std::sort(s.begin(), s.end());
	// Andrew's chains, strict, counterclockwise
	std::vector<P> h(2 * s.size() + 2);
	size_t k = 0;
	for (size_t i = 0; i < s.size(); h[k++] = s[i++])
		while (k >= 2 && cross(h[k - 2], h[k - 1], s[i]) <= 0)
			k--;
	size_t lo = k + 1;
	for (size_t i = s.size() - 1; i-- > 0; h[k++] = s[i])
		while (k >= lo && cross(h[k - 2], h[k - 1], s[i]) <= 0)
			k--;
	h.resize(k - 1);
	if (h.size() < 3)
		return;
	if (&f != xforms)	// where rounding may take collinear points apart
		for (size_t i = 0; i < s.size(); i++)
			for (size_t j = 0; j < i; j++)
				for (size_t l = 0; l < j; l++)
					if (cross(s[i], s[j], s[l]) == 0)
						return;
	mc::count(nhulls);
	mc::nontrivial();
	std::vector<Pt> pts;
	for (P p : ps)
		pts.push_back(f(p));
	Poly poly = Poly::giftwrap(pts);
	MC_CHECK(poly.verts.size() == h.size(), "hull", "%zu vertices, not %zu", poly.verts.size(), h.size());
	size_t off = 0;
	while (off < h.size() && !near(poly.verts[off], f(h[0])))
		off++;
	for (size_t i = 0; i < h.size(); i++)	// clockwise
		MC_CHECK(near(poly.verts[(off + h.size() - i) % h.size()], f(h[i])), "hull", "(%lld,%lld) is out of place", h[i].x, h[i].y);
}

// drawn draws a polygon of n vertices from the numbers in rs.
static void drawn(unsigned n, const std::vector<double> &rs) {
	mc::states();
	reals = rs;
	at = 0;
	Poly p = Poly::random(n, 2, 3, 0.5);
	MC_CHECK(p.verts.size() == n, "random", "%zu vertices, not %u", p.verts.size(), n);
	mc::nontrivial();
	for (unsigned i = 0; i < n; i++) {
		bool was = false;
		for (unsigned j = 0; j < n; j++)
			was |= near(p.verts[i], Pt(1.5 + reals[2 * j], 2.5 + reals[2 * j + 1]));
		MC_CHECK(was, "random", "vertex %u was not drawn", i);
		for (unsigned j = 0; j < i; j++)
			MC_CHECK(!near(p.verts[i], p.verts[j]), "random", "vertices %u and %u are the same", i, j);
	}
	std::vector<P> v;
	for (unsigned i = 0; i < n; i++)
		v.push_back(P{(Z) llround(p.verts[i].x * 1e6), (Z) llround(p.verts[i].y * 1e6)});
	MC_CHECK(simple(v), "random", "the sides cross:%s", show(v).c_str());
	MC_CHECK(area(v) < 0, "random", "not clockwise:%s", show(v).c_str());
}

static void randoms(unsigned n, uint64_t ch) {
	// the vertices sorted by x get heights from a few levels, made distinct; each order of drawing
	std::vector<int> ord;
	for (unsigned i = 0; i < n; i++)
		ord.push_back(i);
	uint64_t k = 0;
	do {
		uint64_t total = 1;
		for (unsigned i = 0; i < n; i++)
			total *= 3;
		for (uint64_t y = 0; y < total; y++) {
			if (k++ % 16 != ch)
				continue;
			if (!mc::begin([&] { return mc::strf("random polygon %lu of %u vertices", k - 1, n); }))
				continue;
			std::vector<double> rs;
			uint64_t q = y;
			for (unsigned i = 0; i < n; i++, q /= 3) {
				rs.push_back((ord[i] + 0.5) / n);
				rs.push_back((q % 3 + 0.5) / 3.2 + ord[i] * ord[i] * 0.0017);
			}
			drawn(n, rs);
		}
	} while (std::next_permutation(ord.begin(), ord.end()));
}

// many gives hulls of hundreds of points, random polygons of hundreds of vertices.
static void many() {
	for (int n : { 20, 65, 130, 150 })
		for (int kind = 0; kind < 4; kind++)
			for (int order = 0; order < 3; order++) {
				std::vector<P> ps;
				for (Z i = -n; i <= n; i++) {
					ps.push_back(P{i, i * i});	// on the hull
					if (kind == 1)
						ps.push_back(P{i, n * n + i % 3});	// mostly inside
					if (kind == 2)
						ps.push_back(P{i, 3 * n * n - i * i});
					if (kind == 3)
						ps.push_back(P{i % 7, i * i / 2 + n});
				}
				std::sort(ps.begin(), ps.end());
				ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
				if (order == 1)
					std::reverse(ps.begin(), ps.end());
				if (order == 2)	// from the middle to the ends
					std::sort(ps.begin(), ps.end(), [](P a, P b) { return llabs(a.x) * 2 + (a.x < 0) < llabs(b.x) * 2 + (b.x < 0) || (a.x == b.x && a.y < b.y); });
				hull(ps, xforms[0]);
			}
	for (unsigned n : { 20, 65, 130, 270, 300 })
		for (unsigned mul : { 1, 7, 11, 29 })
			for (unsigned ymul : { 1, 13, 37 }) {
				if (!mc::begin([&] { return mc::strf("random polygon of %u vertices, strides %u and %u", n, mul, ymul); }))
					continue;
				std::vector<double> rs;
				for (unsigned i = 0; i < n; i++) {
					rs.push_back((i * mul % n + 0.5) / n);
					double h = (i + 1) * (i + ymul) * 0.6180339887498949;	// no three in a line
					rs.push_back(h - floor(h));
				}
				drawn(n, rs);
			}
	if (mc::begin([&] { return std::string("the constructor of listed coordinates, and triangles"); })) {
		mc::states();
		Poly a(3, 0.0, 0.0, 2.0, 0.0, 0.0, 3.0), b(5, 0.0, 0.0, 4.0, 0.0, 4.0, 4.0, 2.0, 6.0, 0.0, 4.0);
		sameverts(a, { {0, 0}, {2, 0}, {0, 3} }, xforms[0], "listed");
		sameverts(b, { {0, 0}, {4, 0}, {4, 4}, {2, 6}, {0, 4} }, xforms[0], "listed");
		for (int h = 1; h <= 4; h++)
		for (int w = 1; w <= 3; w++)
		for (int r = 0; r < 8; r++) {
			mc::transitions();
			double H = h * 2, W = w * M_PI / 8, R = r * M_PI / 4;
			Pt c(r - 3, h + w);
			Poly t = Poly::triangle(c, H, W, R);
			MC_CHECK(t.verts.size() == 3, "triangle", "%zu vertices", t.verts.size());
			// an isosceles triangle: the angle W at the top, of height H, turned by R about its middle
			double side = H / 2 * tan(W / 2) * 2;
			Pt want[3] = { Pt(H / 2, 0), Pt(-H / 2, side), Pt(-H / 2, -side) };
			for (Pt q : want) {
				q = Pt(q.x * cos(R) - q.y * sin(R) + c.x, q.x * sin(R) + q.y * cos(R) + c.y);
				bool found = false;
				for (Pt p : t.verts)
					found |= near(p, q);
				MC_CHECK(found, "triangle", "%g %g is not a vertex of the triangle at %g %g, height %g, angle %g, turned by %g", q.x, q.y, c.x, c.y, H, W, R);
			}
			MC_CHECK(t.contains(c), "triangle", "its middle is outside");
		}
	}
}

// Arcs: eighths of turns around lattice points.
static void arc(P c, double r, int t0, int dt, P a, P b) {
	if (!mc::begin([&] { return mc::strf("arc at (%lld,%lld) radius %g from %d/8 for %d/8 and (%lld,%lld)-(%lld,%lld)/4", c.x, c.y, r, t0, dt, a.x, a.y, b.x, b.y); }))
		return;
	mc::states();
	mc::count(narcs);
	mc::transitions();
	Arc arc(Pt(c.x, c.y), r, t0 * M_PI / 4, dt * M_PI / 4);
	MC_CHECK(near(arc.start(), Pt(c.x + r * cos(t0 * M_PI / 4), c.y + r * sin(t0 * M_PI / 4))) &&
		near(arc.end(), Pt(c.x + r * cos((t0 + dt) * M_PI / 4), c.y + r * sin((t0 + dt) * M_PI / 4))), "arc", "start or end");
	LineSg l(Pt(a.x / 4.0, a.y / 4.0), Pt(b.x / 4.0, b.y / 4.0));
	// the points of the circle on the line, and whether they are clearly on both
	double x0 = l.p0.x - c.x, y0 = l.p0.y - c.y, dx = l.p1.x - l.p0.x, dy = l.p1.y - l.p0.y;
	double A = dx * dx + dy * dy, B = x0 * dx + y0 * dy, C = x0 * x0 + y0 * y0 - r * r;
	double D = B * B - A * C;
	std::vector<Pt> want;
	bool clear = fabs(D) > 1e-6;
	if (D > 0)
		for (int s = -1; s <= 1; s += 2) {
			double u = (-B + s * sqrt(D)) / A;
			double x = x0 + u * dx, y = y0 + u * dy;
			double turn = atan2(y, x) - t0 * M_PI / 4, len = dt * M_PI / 4;
			if (dt < 0)
				turn = -turn, len = -len;
			turn = fmod(turn, 2 * M_PI);
			if (turn < 0)
				turn += 2 * M_PI;
			bool near_end = fabs(turn - len) < 1e-6 || turn < 1e-6 || turn > 2 * M_PI - 1e-6;
			bool on = turn < len, in = u > 0 && u < 1, edge = fabs(u) < 1e-6 || fabs(u - 1) < 1e-6;
			if (near_end && (in || edge) && abs(dt) < 8)
				clear = false;
			if (edge && (on || near_end))
				clear = false;
			if ((on || abs(dt) == 8) && in)
				want.push_back(Pt(c.x + x, c.y + y));
		}
	if (!clear) {
		mc::count(nunclear);
		return;
	}
	Pt is[2];
	unsigned n = arc.isects(l, is);
	MC_CHECK(n == want.size(), "arc", "%u intersections, not %zu", n, want.size());
	mc::count(narchits, n > 0);
	mc::nontrivial(n > 0);
	for (auto &w : want)
		MC_CHECK(near(w, is[0]) || (n > 1 && near(w, is[1])), "arc", "no intersection at %g %g", w.x, w.y);
	MC_CHECK(arc.hits(l) == (n > 0), "arc", "hits");
	// moved along
	arc.translate(3, -4);
	l = LineSg(Pt(l.p0.x + 3, l.p0.y - 4), Pt(l.p1.x + 3, l.p1.y - 4));
	MC_CHECK(arc.isects(l, is) == n && near(arc.c, Pt(c.x + 3, c.y - 4)), "arc", "translated, it has other intersections");
	Pt s = arc.start();
	arc.rotate(M_PI / 2);
	MC_CHECK(near(arc.start(), s), "arc", "rotation about its start moves the start");
	auto turned = [&](Pt p) { return Pt(s.x - (p.y - s.y), s.y + (p.x - s.x)); };
	LineSg t(turned(l.p0), turned(l.p1));
	MC_CHECK(arc.isects(t, is) == n, "arc", "rotated, it has other intersections");
}

static void arcs(uint64_t ch) {
	static const double rs[] = { 1, 1.3, 0.6, 1.5 };
	static const int dts[] = { 1, 2, 3, 4, 7, 8, -1, -2, -3, -5, -8 };
	uint64_t k = 0;
	for (int t0 = 0; t0 <= 16; t0++)
	for (int dt : dts)
	for (int r = 0; r < 4; r++)
	for (int i = 0; i < 49; i++) {
		if (k++ % 64 != ch)
			continue;
		for (int j = 0; j < 49; j++) {
			P a{(i % 7) * 3 - 9, (i / 7) * 3 - 9}, b{(j % 7) * 3 - 9, (j / 7) * 3 - 9};
			if (a != b && ((i * 7 + j + r) % 5 == 0 || mc::thorough))
				arc(P{0, 0}, rs[r], t0, dt, a, b);
		}
	}
}

void mc_setup() {
	npairs = mc::counter("segment_pairs");
	nhits = mc::counter("segment_pairs_that_meet");
	noverlaps = mc::counter("overlapping_or_touching_parallel_pairs");
	npolys = mc::counter("polygons");
	nqueries = mc::counter("points_tested_against_polygons");
	ninside = mc::counter("points_inside");
	nhulls = mc::counter("hulls");
	narcs = mc::counter("arc_and_segment_pairs");
	narchits = mc::counter("arcs_hit");
	nunclear = mc::counter("arcs_touched_at_an_end_or_tangent");
	mc::suite("segs3", "every two segments on a 3x3 lattice in six placements of the plane", 64, [](uint64_t c) { segpairs(3, c, NX); });
	mc::suite("segs4", "every two segments on a 4x4 lattice", 64, [](uint64_t c) { segpairs(4, c, mc::thorough ? NX : 2); });
	if (mc::thorough)
		mc::suite("segs5", "every two segments on a 5x5 lattice", 64, [](uint64_t c) { segpairs(5, c, 3); });
	mc::suite("points", "points, directions and quadratic equations", 1, [](uint64_t) { points(); });
	mc::suite("boxes", "every two boxes on a 4x4 lattice", 16, [](uint64_t c) { boxes(c); });
	for (int n = 3; n <= (mc::thorough ? 6 : 5); n++)
		mc::suite(mc::strf("poly3x3n%d", n).c_str(), mc::strf("every simple polygon of %d vertices on a 3x3 lattice", n).c_str(), 64,
			[n](uint64_t c) { chains(3, n, c, 64, n == 3 ? NX : n == 4 ? 3 : 1, n <= 4 || mc::thorough); });
	mc::suite("poly4x4n3", "every triangle on a 4x4 lattice", 64, [](uint64_t c) { chains(4, 3, c, 64, 2, true); });
	if (mc::thorough)
		mc::suite("poly4x4n4", "every quadrilateral on a 4x4 lattice", 64, [](uint64_t c) { chains(4, 4, c, 64, 1, true); });
	mc::suite("polybig", "combs, saws, stairs, spirals and stars of 8 to 31 vertices, turned, mirrored and from three starting vertices", 64, [](uint64_t c) { big(c, 64); });
	mc::suite("hull", "the hull of every set of points of a 3x3 lattice, in both orders, in six placements", 16, [](uint64_t c) {
		for (int m = c; m < 512; m += 16)
			for (int f = 0; f < NX; f++)
				for (int rev = 0; rev < 3; rev++) {
					std::vector<P> v;
					for (int i = 0; i < 9; i++)
						if (m >> i & 1)
							v.push_back(lat(i, 3));
					if (rev == 1)
						std::reverse(v.begin(), v.end());
					if (rev == 2)
						std::sort(v.begin(), v.end(), [](P a, P b) { return (a.x * 5 + a.y * 3) % 7 < (b.x * 5 + b.y * 3) % 7; });
					if (v.size() >= 3)
						hull(v, xforms[f]);
				}
	});
	mc::suite("random", "random polygons for every order and height class of up to 5 (thorough: 6) draws", 16 * (mc::thorough ? 4 : 3), [](uint64_t c) { randoms(3 + c / 16, c % 16); });
	mc::suite("polyhuge", "combs, saws, stairs and spirals of 80 to 360 vertices, turned, mirrored and from three starting vertices", 64, [](uint64_t c) { big(c, 64, true); });
	mc::suite("many", "hulls of up to 600 points, random polygons of up to 300 vertices, listed coordinates and triangles", 1, [](uint64_t) { many(); });
	mc::suite("arcs", "arcs of eighths of turns and segments on a lattice", 64, [](uint64_t c) { arcs(c); });
}

MC_MAIN
