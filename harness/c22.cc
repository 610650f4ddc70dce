// C22: segments that a gripper moves and turns among one another.
#include "domain.hpp"
#include "segments/segments.hpp"
#include <set>

double walltime() { return 1; }
double cputime() { return 1; }
extern "C" int segments_mkinst_main(int, const char*[]);

static std::vector<double> reals;
static size_t at;
double Rand::real() { return at < reals.size() ? reals[at++] : fmod(0.137 + 0.6180339887 * at++, 1); }
int64_t Rand::integer(long min, long max) { return min + (int64_t) (Rand::real() * (max - min + 1)); }

static int nworlds, nstates, nunclear, nblocked, nfree, nsolves, nunsolv, nreread, ninsts;

struct V { double x, y; };
static V operator-(V a, V b) { return V{ a.x - b.x, a.y - b.y }; }
static double cross(V a, V b) { return a.x * b.y - a.y * b.x; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y; }

struct Line { V a, b; };

// A convex region: half planes n.p <= c, and maybe a disc.
struct Region {
	struct Half { V n; double c; };
	std::vector<Half> halves;
	bool disc;
	V center;
	double r;
	std::vector<Line> edges;	// crossing one of these is a hit, too
	Region() : disc(false) { }

	// meets tells if the segment comes within the region grown by eps.
	bool meets(const Line &l, double eps) const {
		double t0 = 0, t1 = 1;
		V d = l.b - l.a;
		for (auto &h : halves) {
			double s = h.c + eps - dot(h.n, l.a), v = dot(h.n, d);	// t * v <= s
			if (fabs(v) < 1e-12) {
				if (s < 0)
					return false;
			} else if (v > 0)
				t1 = std::min(t1, s / v);
			else
				t0 = std::max(t0, s / v);
		}
		if (disc) {
			double rr = r + eps;
			V f = l.a - center;
			double a = dot(d, d), b = dot(f, d), c = dot(f, f) - rr * rr, q = b * b - a * c;
			if (rr < 0 || q < 0)
				return false;
			t0 = std::max(t0, (-b - sqrt(q)) / a);
			t1 = std::min(t1, (-b + sqrt(q)) / a);
		}
		return t0 <= t1;
	}
};

// crosses tells if two segments cross with some margin.
static bool crosses(const Line &l, const Line &m, double eps) {
	V d = l.b - l.a, e = m.b - m.a;
	double ld = sqrt(dot(d, d)), le = sqrt(dot(e, e));
	if (ld < 1e-9 || le < 1e-9)
		return false;
	double a = cross(d, m.a - l.a) / ld, b = cross(d, m.b - l.a) / ld, c = cross(e, l.a - m.a) / le, f = cross(e, l.b - m.a) / le;
	return ((a > eps && b < -eps) || (a < -eps && b > eps)) && ((c > eps && f < -eps) || (c < -eps && f > eps));
}

// overlaps tells if two segments on one line have some length in common.
static bool overlaps(const Line &l, const Line &m, double eps) {
	V d = l.b - l.a;
	double ld = sqrt(dot(d, d));
	if (ld < 1e-9 || fabs(cross(d, m.a - l.a)) / ld > 1e-9 || fabs(cross(d, m.b - l.a)) / ld > 1e-9)
		return false;
	double a = dot(d, m.a - l.a) / ld, b = dot(d, m.b - l.a) / ld;
	return std::min(ld, std::max(a, b)) - std::max(0.0, std::min(a, b)) > eps;
}

// hull gives the convex region of a convex polygon in either order; a flat one is within 1e-9 of its line.
static Region hull(const std::vector<V> &ps) {
	Region r;
	double area = 0;
	for (size_t i = 0; i < ps.size(); i++)
		area += cross(ps[i], ps[(i + 1) % ps.size()]);
	V lo = ps[0], hi = ps[0];
	for (auto &p : ps) {
		lo.x = std::min(lo.x, p.x);
		lo.y = std::min(lo.y, p.y);
		hi.x = std::max(hi.x, p.x);
		hi.y = std::max(hi.y, p.y);
	}
	r.halves.push_back(Region::Half{ { 1, 0 }, hi.x });
	r.halves.push_back(Region::Half{ { -1, 0 }, -lo.x });
	r.halves.push_back(Region::Half{ { 0, 1 }, hi.y });
	r.halves.push_back(Region::Half{ { 0, -1 }, -lo.y });
	for (size_t i = 0; i < ps.size(); i++) {
		V a = ps[i], b = ps[(i + 1) % ps.size()], d = b - a;
		double l = sqrt(dot(d, d));
		if (l < 1e-9)
			continue;
		r.edges.push_back(Line{ a, b });
		V n = { d.y / l, -d.x / l };	// to the right
		if (area < 0)
			n = V{ -n.x, -n.y };
		if (fabs(area) > 1e-9)
			r.halves.push_back(Region::Half{ n, dot(n, a) });
		else {
			r.halves.push_back(Region::Half{ n, dot(n, a) });
			r.halves.push_back(Region::Half{ V{ -n.x, -n.y }, -dot(n, a) });
		}
	}
	return r;
}

enum Hit { Miss, Unclear, Touch };
static const double Eps = 1e-6;

static Hit hits(const std::vector<Region> &rs, const Line &l) {
	bool may = false;
	for (auto &r : rs) {
		if (r.meets(l, -Eps))
			return Touch;
		for (auto &e : r.edges)
			if (crosses(e, l, Eps) || overlaps(e, l, Eps))
				return Touch;
		may |= r.meets(l, Eps);
	}
	return may ? Unclear : Miss;
}

struct Ps {
	int x, y, rot;
	bool operator==(const Ps &o) const { return x == o.x && y == o.y && rot == o.rot; }
};

struct World {
	int w, h, n;
	struct S { double r; Ps start, goal; };
	std::vector<S> segs;

	Line line(int i, Ps p) const {
		double t = 2 * M_PI * p.rot / n, c = segs[i].r * cos(t), s = segs[i].r * sin(t);
		return Line{ V{ p.x + c, p.y + s }, V{ p.x - c, p.y - s } };
	}
	std::vector<Line> walls() const {
		V a = { 0, 0 }, b = { (double) w, 0 }, c = { (double) w, (double) h }, d = { 0, (double) h };
		return { { a, b }, { b, c }, { c, d }, { d, a } };
	}
	// swept gives the region that a segment covers.
	std::vector<Region> swept(int i, Ps p, int dx, int dy, int dr) const {
		Line l = line(i, p);
		std::vector<Region> rs;
		if (dr == 0) {
			Ps q = { p.x + dx, p.y + dy, p.rot };
			Line m = line(i, q);
			rs.push_back(hull({ l.a, m.a, m.b, l.b }));
			return rs;
		}
		Line m = line(i, Ps{ p.x, p.y, (p.rot + dr + n) % n });
		for (int k = 0; k < 2; k++) {
			V c = { (double) p.x, (double) p.y }, e0 = (k ? l.b : l.a) - c;
			double t = dr * 2 * M_PI / n;
			V e1 = { e0.x * cos(t) - e0.y * sin(t), e0.x * sin(t) + e0.y * cos(t) };
			Region r;
			r.disc = true;
			r.center = c;
			r.r = segs[i].r;
			V n0 = { e0.y / r.r, -e0.x / r.r }, n1 = { -e1.y / r.r, e1.x / r.r };	// outside of a counterclockwise sector
			if (dr < 0) {
				n0 = V{ -n0.x, -n0.y };
				n1 = V{ -n1.x, -n1.y };
			}
			r.halves.push_back(Region::Half{ n0, dot(n0, c) });
			r.halves.push_back(Region::Half{ n1, dot(n1, c) });
			r.edges.push_back(Line{ c, V{ c.x + e0.x, c.y + e0.y } });
			r.edges.push_back(Line{ c, V{ c.x + e1.x, c.y + e1.y } });
			rs.push_back(r);
		}
		rs[0].edges.push_back(l);
		rs[0].edges.push_back(m);
		return rs;
	}
	// clear tells if the poses are all apart from one another and the walls.
	bool clear(const std::vector<Ps> &ps) const {
		for (size_t i = 0; i < ps.size(); i++) {
			Line l = line(i, ps[i]);
			std::vector<Region> r(1, hull({ l.a, l.b }));
			for (auto &wl : walls())
				if (hits(r, wl) != Miss)
					return false;
			if (ps[i].x <= 0 || ps[i].y <= 0 || ps[i].x >= w || ps[i].y >= h)
				return false;
			for (size_t j = 0; j < i; j++)
				if (hits(r, line(j, ps[j])) != Miss)
					return false;
		}
		return true;
	}
	std::string text() const {
		std::string s = mc::strf("# seed: 1\n%d %d %d\n%zu\n", w, h, n, segs.size());
		for (auto &g : segs)
			s += mc::strf("%.17g %d %d %d %d %d %d\n", g.r, g.start.x, g.start.y, g.start.rot, g.goal.x, g.goal.y, g.goal.rot);
		return s;
	}
	std::string str() const {
		std::string s = mc::strf("%dx%d with %d angles:", w, h, n);
		for (auto &g : segs)
			s += mc::strf(" (%g %d,%d,%d to %d,%d,%d)", g.r, g.start.x, g.start.y, g.start.rot, g.goal.x, g.goal.y, g.goal.rot);
		return s;
	}
	std::vector<Segments::Seg> real() const {
		Segments d0 = dom();
		return seg(d0);
	}
	Segments dom() const { Memfile f(text()); return Segments((FILE*) f); }
	static std::vector<Segments::Seg> seg(const Segments &d) {
		Segments::State a = d.initialstate();
		Segments::State b = d.goalstate();
		std::vector<Segments::Seg> v;
		for (size_t i = 0; i < a.poses.size(); i++) {
			Segments::Seg s;
			s.start = a.poses[i];
			s.goal = b.poses[i];
			v.push_back(s);
		}
		return v;
	}
};

struct Unclear0 { };

struct Ref : Model<Segments> {
	const World &w;
	Ref(const World &w) : w(w) {
		dadmissible = true;
		dups = true;	// turning by half a turn either way is the same
	}
	static std::string name(int gx, int gy, const std::vector<Ps> &ps) {
		std::string s = mc::strf("%d,%d", gx, gy);
		for (auto &p : ps)
			s += mc::strf(" %d,%d,%d", p.x, p.y, p.rot);
		return s;
	}
	static void parse(const std::string &k, int &gx, int &gy, std::vector<Ps> &ps) {
		const char *c = k.c_str();
		int n;
		sscanf(c, "%d,%d%n", &gx, &gy, &n);
		Ps p;
		for (c += n; sscanf(c, " %d,%d,%d%n", &p.x, &p.y, &p.rot, &n) == 3; c += n)
			ps.push_back(p);
	}
	std::string key(Segments &d, Segments::State &s) {
		std::vector<Ps> ps;
		for (auto &p : s.poses)
			ps.push_back(Ps{ (int) p.x, (int) p.y, (int) p.rot });
		std::string k = name(s.x, s.y, ps);
		// the lines are where the poses are
		MC_CHECK(s.lines.size() == ps.size(), "lines", "%zu lines", s.lines.size());
		unsigned int left = 0;
		for (size_t i = 0; i < ps.size(); i++) {
			Line l = w.line(i, ps[i]);
			auto &m = s.lines[i];
			MC_CHECK(near(m.p0.x, l.a.x, 1e-9) && near(m.p0.y, l.a.y, 1e-9) && near(m.p1.x, l.b.x, 1e-9) && near(m.p1.y, l.b.y, 1e-9),
				"lines", "line %zu of %s goes from %g,%g to %g,%g", i, k.c_str(), m.p0.x, m.p0.y, m.p1.x, m.p1.y);
			left += !(ps[i] == w.segs[i].goal);
		}
		MC_CHECK(s.nleft == left, "nleft", "%u are left in %s", s.nleft, k.c_str());
		return k;
	}
	std::string start() {
		std::vector<Ps> ps;
		for (auto &s : w.segs)
			ps.push_back(s.start);
		return name(0, 0, ps);
	}
	// The gripper stays where it is.
	bool reversed(const std::string &a, const std::string &b) { return a.substr(a.find(' ')) == b.substr(b.find(' ')); }
	bool goal(const std::string &k) {
		int gx, gy;
		std::vector<Ps> ps;
		parse(k, gx, gy, ps);
		for (size_t i = 0; i < ps.size(); i++)
			if (!(ps[i] == w.segs[i].goal))
				return false;
		return true;
	}
	std::vector<Next> succ(const std::string &k) {
		int gx, gy;
		std::vector<Ps> ps;
		parse(k, gx, gy, ps);
		std::vector<Next> v;
		mc::count(nstates);
		for (size_t i = 0; i < ps.size(); i++)
			for (int op = 0; op < 10; op++) {
				static const int mv[8][2] = { { -1, -1 }, { -1, 0 }, { -1, 1 }, { 0, -1 }, { 0, 1 }, { 1, -1 }, { 1, 0 }, { 1, 1 } };
				int dr = op == 8 ? 1 : op == 9 ? -1 : 0, dx = dr ? 0 : mv[op][0], dy = dr ? 0 : mv[op][1];
				std::vector<Region> rs = w.swept(i, ps[i], dx, dy, dr);
				bool blocked = false;
				auto see = [&](const Line &l) {
					Hit h = hits(rs, l);
					if (h == Touch)
						blocked = true;
					return h;
				};
				bool unclear = false;
				for (auto &l : w.walls())
					unclear |= see(l) == Unclear;
				for (size_t j = 0; j < ps.size(); j++)
					if (j != i)
						unclear |= see(w.line(j, ps[j])) == Unclear;
				if (blocked) {
					mc::count(nblocked);
					continue;
				}
				if (unclear)
					throw Unclear0();
				mc::count(nfree);
				std::vector<Ps> qs = ps;
				qs[i].x += dx;
				qs[i].y += dy;
				qs[i].rot = (qs[i].rot + dr + w.n) % w.n;
				double c = hypot(gx - ps[i].x, gy - ps[i].y) + (dr ? 1 : hypot(dx, dy));
				v.push_back(Next{ name(qs[i].x, qs[i].y, qs), c });
			}
		return v;
	}
};

static std::string captured(const std::function<void()> &f) {
	FILE *oo = stdout;
	char *buf = NULL;
	size_t sz = 0;
	FILE *o = open_memstream(&buf, &sz);
	stdout = o;
	f();
	fflush(o);
	stdout = oo;
	std::string s(buf, sz);
	fclose(o);
	free(buf);
	return s;
}

// roundtrip checks what the program prints for an instance and its solution.
static void roundtrip(Segments &d, const World &w) {
	const char *args[] = { "x", "astar", "-expd", "1000000", NULL };
	std::unique_ptr<SearchAlgorithm<Segments>> a(getsearch<Segments>(4, args));
	Segments::State s0 = d.initialstate();
	a->search(d, s0);
	std::string out = dumped([&](FILE *f) { dfheader(f); });
	std::string other = captured([&] { out += dumped([&](FILE *f) { d.prinitial(f); }); });
	MC_CHECK(other.empty(), "prinitial", "prinitial writes to standard output instead of the given file");
	if (!a->res.path.empty())
		out += captured([&] { d.pathcost(a->res.path, a->res.ops); });
	out += dumped([&](FILE *f) { dffooter(f); });
	Memfile f(out);
	Segments::Solution s = Segments::readdf(f, NULL);
	mc::count(nreread);
	MC_CHECK(s.width == w.w && s.height == w.h && s.nangles == w.n, "readdf", "%d by %d with %d angles", s.width, s.height, s.nangles);
	MC_CHECK(s.segs.size() == w.segs.size(), "readdf", "%zu segments", s.segs.size());
	auto same = [](decltype(s.segs[0].start) &p, Ps q) { return (int) p.x == q.x && (int) p.y == q.y && (int) p.rot == q.rot; };
	for (size_t i = 0; i < s.segs.size(); i++)
		MC_CHECK(near(s.segs[i].radius, w.segs[i].r, 1e-5) && same(s.segs[i].start, w.segs[i].start) && same(s.segs[i].goal, w.segs[i].goal),
			"readdf", "segment %zu differs", i);
	MC_CHECK(s.ops.size() == a->res.ops.size(), "readdf", "%zu of %zu operators", s.ops.size(), a->res.ops.size());
	for (size_t i = 0; i < s.ops.size(); i++)
		MC_CHECK(s.ops[i] == a->res.ops[a->res.ops.size() - 1 - i], "readdf", "operator %zu differs", i);
}

static void check(const World &w, int variant, size_t max) {
	if (!mc::begin([&] { return w.str(); }))
		return;
	mc::count(nworlds);
	try {
		Segments d = w.dom();
		if (variant & 1) {	// the other way to make one
			Memfile f("");
			std::vector<Segments::Seg> ss = World::seg(d);
			for (size_t i = 0; i < ss.size(); i++)
				ss[i].radius = w.segs[i].r;
			d = Segments(w.w, w.h, w.n, ss);
		}
		Ref m(w);
		Explored<Segments> x;
		explore<Segments>(d, m, max, x, variant % 8 == 0);
		if (x.all && variant % 3 == 0) {
			double opt = x.dist[0];
			mc::count(nsolves);
			mc::count(nunsolv, std::isinf(opt));
			solve<Segments>(d, m, { "astar" }, opt, 1);
			if (!std::isinf(opt)) {
				solve<Segments>(d, m, { "wastar", "-wt", "3" }, opt, 3);
				roundtrip(d, w);
			}
		}
		mc::nontrivial();
	} catch (Unclear0 &) {
		mc::count(nunclear);
	}
}

static std::vector<Ps> poses(const World &w, int i) {
	std::vector<Ps> v;
	for (int x = 1; x < w.w; x++)
	for (int y = 1; y < w.h; y++)
	for (int r = 0; r < w.n; r++) {
		World o = w;
		o.segs = { w.segs[i] };
		if (o.clear({ Ps{ x, y, r } }))
			v.push_back(Ps{ x, y, r });
	}
	return v;
}

static const double radii[] = { 0.8, 1.3, 0.35, 1.9 };
static const int sizes[][2] = { { 2, 2 }, { 3, 2 }, { 2, 4 }, { 3, 4 }, { 4, 4 }, { 5, 3 }, { 4, 6 } };
static const int angles[] = { 2, 4, 6, 8, 16 };

static void singles(int chunk, int nchunks) {
	int k = 0;
	for (auto &z : sizes)
	for (int n : angles)
	for (double r : radii) {
		World w;
		w.w = z[0];
		w.h = z[1];
		w.n = n;
		w.segs.resize(1);
		w.segs[0].r = r;
		std::vector<Ps> ps = poses(w, 0);
		for (auto &a : ps)
			for (auto &b : ps) {
				if (k++ % nchunks != chunk)
					continue;
				if (!mc::thorough && ps.size() > 30 && k / nchunks % 17)
					continue;
				w.segs[0].start = a;
				w.segs[0].goal = b;
				check(w, k / nchunks, 100000);
			}
	}
}

static void pairs(int chunk, int nchunks) {
	static const int zs[][2] = { { 3, 3 }, { 3, 4 }, { 4, 3 }, { 4, 4 }, { 5, 3 } };
	int k = 0;
	for (auto &z : zs)
	for (int n : { 2, 4, 6, 8 })
	for (double r0 : { 0.8, 1.3, 0.35 })
	for (double r1 : { 0.8, 1.3, 1.9 }) {
		World w;
		w.w = z[0];
		w.h = z[1];
		w.n = n;
		w.segs.resize(2);
		w.segs[0].r = r0;
		w.segs[1].r = r1;
		std::vector<Ps> a = poses(w, 0), b = poses(w, 1);
		std::vector<std::pair<Ps,Ps>> ok;
		for (auto &p : a)
			for (auto &q : b)
				if (w.clear({ p, q }))
					ok.push_back(std::make_pair(p, q));
		if (ok.empty())
			continue;
		int num = mc::thorough ? 24 : 6;
		for (int i = 0; i < num; i++) {
			if (k++ % nchunks != chunk)
				continue;
			auto &s = ok[i * ok.size() / num], &t = ok[(i * 7 + 3) % num * ok.size() / num + ok.size() / (2 * num)];
			w.segs[0].start = s.first;
			w.segs[1].start = s.second;
			w.segs[0].goal = t.first;
			w.segs[1].goal = t.second;
			check(w, k / nchunks + i, mc::thorough ? 20000 : 1500);
		}
	}
}

// Every two clear poses of two segments, and what moves they have, without going on.
static void arrangements(int chunk, int nchunks) {
	int k = 0;
	for (int n : { 2, 4, 6, 8, 12 })
	for (double r0 : { 0.8, 1.3, 1.9 })
	for (double r1 : { 0.8, 1.3, 0.35 }) {
		World w;
		w.w = 5;
		w.h = 4;
		w.n = n;
		w.segs.resize(2);
		w.segs[0].r = r0;
		w.segs[1].r = r1;
		std::vector<Ps> a = poses(w, 0), b = poses(w, 1);
		for (auto &p : a)
			for (auto &q : b) {
				if (k++ % nchunks != chunk)
					continue;
				if (!w.clear({ p, q }))
					continue;
				w.segs[0].start = p;
				w.segs[1].start = q;
				w.segs[0].goal = q.rot % 2 ? p : a[0];
				w.segs[1].goal = b[0];
				check(w, k / nchunks | 2, 1);
			}
	}
}

static void triples(int chunk, int nchunks) {
	int k = 0;
	for (int n : { 4, 8 })
	for (int perm = 0; perm < 3; perm++) {
		World w;
		w.w = 4;
		w.h = 3;
		w.n = n;
		w.segs.resize(3);
		for (int i = 0; i < 3; i++)
			w.segs[i].r = radii[(i + perm) % 3];
		std::vector<Ps> a[3];
		for (int i = 0; i < 3; i++)
			a[i] = poses(w, i);
		std::vector<std::vector<Ps>> ok;
		for (auto &p : a[0])
			for (auto &q : a[1])
				for (auto &r : a[2])
					if (w.clear({ p, q, r }))
						ok.push_back({ p, q, r });
		if (ok.empty())
			continue;
		for (int i = 0; i < 64; i++) {
			if (k++ % nchunks != chunk)
				continue;
			auto &s = ok[i * ok.size() / 64], &t = ok[(i * 29 + 7) % 64 * ok.size() / 64];
			for (int j = 0; j < 3; j++) {
				w.segs[j].start = s[j];
				w.segs[j].goal = t[j];
			}
			check(w, k / nchunks, mc::thorough ? 5000 : 200);
		}
	}
}

// Large work spaces and fine angles, in part.
static void wide(int chunk, int nchunks) {
	int k = 0;
	static const int at[][2] = { { 254, 2 }, { 257, 60 }, { 2, 254 }, { 60, 257 }, { 298, 298 }, { 130, 126 }, { 3, 3 } };
	for (auto &p : at)
	for (int n : { 8, 130, 360, 1000 })
	for (int rot : { 0, 126, 254, 358, 999 })
	for (int ns = 1; ns <= 2; ns++) {
		if (rot >= n || k++ % nchunks != chunk)
			continue;
		World w;
		w.w = 300 + k % 2;
		w.h = 301;
		w.n = n;
		w.segs.resize(ns);
		w.segs[0].r = 0.8;
		w.segs[0].start = Ps{ p[0], p[1], rot };
		w.segs[0].goal = Ps{ p[0] + 1 - 2 * (k / nchunks % 2), p[1], (rot + 3) % n };
		if (ns > 1) {
			w.segs[1].r = 1.3;
			w.segs[1].start = Ps{ 150, 257, (rot + 1) % n };
			w.segs[1].goal = Ps{ 150, 258, rot };
		}
		check(w, k / nchunks, mc::thorough ? 3000 : 400);
	}
}

// Instances that the program makes.
static void insts(int chunk, int nchunks) {
	static const double ds[] = { 0.05, 0.4, 0.6, 0.95 };
	int k = 0;
	for (int ns = 1; ns <= 3; ns++)
	for (int n : { 4, 8 })
	for (int draw = 0; draw < 4096; draw++) {
		if (k++ % nchunks != chunk)
			continue;
		if (!mc::begin([&] { return mc::strf("mkinst -nsegs %d -nangles %d draw %d", ns, n, draw); }))
			continue;
		reals.clear();
		for (int i = 0; i < 6; i++)
			reals.push_back(ds[draw >> 2 * i & 3]);
		at = 0;
		std::string a = mc::strf("%d", ns), b = mc::strf("%d", n);
		const char *argv[] = { "mkinst", "-nsegs", a.c_str(), "-width", "6", "-height", "9", "-nangles", b.c_str(), "-minr", "0.5", "-maxr", "1.6", "-seed", "1", NULL };
		std::string s = captured([&] { segments_mkinst_main(15, argv); });
		mc::count(ninsts);
		World w;
		std::istringstream in(s);
		std::string line;
		std::getline(in, line);
		MC_CHECK(line.compare(0, 6, "# seed") == 0, "mkinst", "the first line is %s", line.c_str());
		size_t m = 0;
		MC_CHECK(in >> w.w >> w.h >> w.n >> m && w.w == 6 && w.h == 9 && w.n == n && (int) m == ns, "mkinst", "the header is wrong: %s", s.c_str());
		std::vector<Ps> st, gl;
		for (size_t i = 0; i < m; i++) {
			World::S g;
			MC_CHECK(in >> g.r >> g.start.x >> g.start.y >> g.start.rot >> g.goal.x >> g.goal.y >> g.goal.rot, "mkinst", "segment %zu is malformed: %s", i, s.c_str());
			MC_CHECK(g.r >= 0.5 && g.r <= 1.6, "mkinst", "the radius is %g", g.r);
			MC_CHECK(g.start.rot >= 0 && g.start.rot < n && g.goal.rot >= 0 && g.goal.rot < n, "mkinst", "the rotation is out of range: %s", s.c_str());
			w.segs.push_back(g);
			st.push_back(g.start);
			gl.push_back(g.goal);
		}
		MC_CHECK(w.clear(st), "mkinst", "the starts collide: %s", s.c_str());
		MC_CHECK(w.clear(gl), "mkinst", "the goals collide: %s", s.c_str());
		// The first draws give the first segment, as nothing is in its way.
		double r = ds[draw & 3] * 1.1 + 0.5;
		int c = ceil(r);
		Ps p = { c + (int) (ds[draw >> 4 & 3] * (6 - 2 * c + 1)), c + (int) (ds[draw >> 6 & 3] * (9 - 2 * c + 1)), (int) (ds[draw >> 2 & 3] * n) };
		MC_CHECK(near(w.segs[0].r, r) && w.segs[0].start == p, "mkinst", "the first segment is not the one drawn: %s", s.c_str());
		Memfile f(s);
		Segments d((FILE*) f);
		Ref ref(w);
		MC_CHECK(ref.start() == [&] { auto st = d.initialstate(); return ref.key(d, st); }(), "mkinst", "the instance is read as another");
		mc::validated();
	}
}

void mc_setup() {
	nworlds = mc::counter("worlds");
	nstates = mc::counter("reference_expansions");
	nunclear = mc::counter("worlds_where_something_touches");
	nblocked = mc::counter("blocked_moves");
	nfree = mc::counter("free_moves");
	nsolves = mc::counter("solved");
	nunsolv = mc::counter("unsolvable");
	nreread = mc::counter("solutions_read_again");
	ninsts = mc::counter("instances_made");
	mc::suite("single", "one segment in small worlds, every start and goal", 64, [](int c) { singles(c, 64); });
	mc::suite("arrangements", "every arrangement of two segments and what moves it has", 64, [](int c) { arrangements(c, 64); });
	mc::suite("pairs", "the state spaces of two segments", 64, [](int c) { pairs(c, 64); });
	mc::suite("triples", "the state spaces of three segments, in part", 64, [](int c) { triples(c, 64); });
	mc::suite("wide", "one and two segments in work spaces of 300 by 301 with up to 1000 angles, in part", 64, [](int c) { wide(c, 64); });
	mc::suite("mkinst", "instances made from every few draws", 16, [](int c) { insts(c, 16); });
}

MC_MAIN
