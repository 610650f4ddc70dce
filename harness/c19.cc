// C19: grid path finding: maps, moves, costs, estimates, file formats.
#include "domain.hpp"
#include "gridnav/gridnav.hpp"
#include <set>
#ifdef SCEN
#include "gridnav/scenario.hpp"
#endif

static int nexp, nsolves, nunsolv, nmaps;

double walltime() { return 1; }
double cputime() { return 1; }

enum Mv { Four, Eight, Octile };

// Grid is the reference: rows from the top as the program numbers them.
struct Grid {
	int w, h;
	std::vector<std::string> rows;
	Mv mv;
	bool life;
	bool at(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
	// may one go from (x,y) to (nx,ny), as far as the terrain goes?
	bool enter(int x, int y, int nx, int ny) const {
		if (!at(nx, ny))
			return false;
		char f = rows[y][x], t = rows[ny][nx];
		if (t == '#' || t == '@' || t == 'O' || t == 'T')
			return false;
		if (f == 'W')
			return t == 'W';
		return t != 'W';
	}
	std::string ruml() const {
		std::string s = mc::strf("%d %d\nBoard:\n", h, w);
		for (int y = h - 1; y >= 0; y--)	// the first line is the last row
			s += rows[y] + "\n";
		s += life ? "Life\n" : "Unit\n";
		s += mv == Four ? "Four-way\n" : "Eight-way\n";
		return s;
	}
	std::string sturtevant() const {
		std::string s = mc::strf("type octile\nheight %d\nwidth %d\nmap\n", h, w);
		for (auto &r : rows)
			s += r + "\n";
		return s;
	}
	std::string str() const {
		if (rows.size() > 240)
			return mc::strf("map of %dx%d cells, %d", w, h, (int) mv);
		std::string s = mv == Four ? "four-way " : mv == Eight ? "eight-way " : "octile ";
		s += life ? "life " : "unit ";
		for (auto &r : rows)
			s += r + "/";
		return s;
	}
};

template <class D> struct Ref : Model<D> {
	const Grid &g;
	int x0, y0, x1, y1;
	Ref(const Grid &g, int x0, int y0, int x1, int y1) : g(g), x0(x0), y0(y0), x1(x1), y1(y1) {
		this->dadmissible = !g.life;
	}
	static std::string name(int x, int y) { return mc::strf("%d,%d", x, y); }
	std::string key(D &d, typename D::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); });
		int x, y;
		if (sscanf(o.c_str(), "%d, %d", &x, &y) != 2)
			return "unreadable: " + o;
		return name(x - 1, y - 1);	// the border
	}
	std::string start() { return name(x0, y0); }
	std::vector<Next> succ(const std::string &k) {
		int x, y;
		sscanf(k.c_str(), "%d,%d", &x, &y);
		std::vector<Next> v;
		double mul = g.life ? g.h - 1 - y : 1;	// life costs count rows from the last one
		for (int dx = -1; dx <= 1; dx++)
		for (int dy = -1; dy <= 1; dy++) {
			if ((!dx && !dy) || !g.enter(x, y, x + dx, y + dy))
				continue;
			if (dx && dy) {
				if (g.mv == Four)
					continue;
				if (g.mv == Octile && (!g.enter(x, y, x + dx, y) || !g.enter(x, y, x, y + dy)))
					continue;
			}
			v.push_back(Next{name(x + dx, y + dy), mul * (dx && dy ? sqrt(2.0) : 1)});
		}
		return v;
	}
	bool goal(const std::string &k) { return k == name(x1, y1); }
};

static GridMap *load(const Grid &g) {
	Memfile f(g.mv == Octile ? g.sturtevant() : g.ruml());
	void *mem = operator new(sizeof(GridMap));
	memset(mem, 0xA5, sizeof(GridMap));	// nothing may depend on what was there
	GridMap *m = new (mem) GridMap(f.f);
	MC_CHECK((int) m->w == g.w + 2 && (int) m->h == g.h + 2, "map", "the map is %u by %u", m->w, m->h);
	MC_CHECK(m->lifecost == g.life, "map", "lifecost is %d", m->lifecost);
	for (int y = -1; y <= g.h; y++)
	for (int x = -1; x <= g.w; x++) {
		if (g.at(x, y) && strchr("WS", g.rows[y][x]))
			continue;
		int i = m->index(x + 1, y + 1);
		bool blk = !g.at(x, y) || !g.enter(x, y, x, y);
		MC_CHECK(m->blkd(i) == blk, "map", "%d,%d is %sblocked", x, y, blk ? "not " : "");
		MC_CHECK(m->coord(i) == std::make_pair(x + 1, y + 1), "map", "coordinates of %d,%d", x, y);
	}
	mc::count(nmaps);
	return m;
}

static void one(const Grid &g, GridMap *m, int x0, int y0, int x1, int y1, bool solves) {
	if (!mc::begin([&] { return mc::strf("%s from %d,%d to %d,%d", g.str().c_str(), x0, y0, x1, y1); }))
		return;
	GridNav d(m, x0, y0, x1, y1);
	Ref<GridNav> r(g, x0, y0, x1, y1);
	Explored<GridNav> x;
	explore<GridNav>(d, r, 100000, x);
	mc::count(nexp);
	if (std::isinf(x.dist[0]))
		mc::count(nunsolv);
	else if (x.dist[0] > 0)
		mc::nontrivial();

	// staying put
	GridNav::State s = d.initialstate();
	auto id = d.ident(s);
	{
		GridNav::Edge e(d, s, id.first);
		MC_CHECK(r.key(d, e.state) == r.start(), "ident", "the identity moves");
	}
	if (!solves)
		return;
	solve<GridNav>(d, r, {"astar"}, x.dist[0], 1);
	solve<GridNav>(d, r, {"wastar", "-wt", "1.5"}, x.dist[0], 1.5);
	solve<GridNav>(d, r, {"arastar", "-wt0", "3", "-dwt", "1"}, x.dist[0], 1);
	solve<GridNav>(d, r, {"speedy"}, x.dist[0], 1e9);
	mc::count(nsolves, 4);
}

static bool standable(char c) { return !strchr("#@OT", c); }

static void allpairs(const Grid &g, unsigned every, bool solves) {
	std::unique_ptr<GridMap> m;
	unsigned k = 0;
	for (int s = 0; s < g.w * g.h; s++)
	for (int t = 0; t < g.w * g.h; t++) {
		int x0 = s % g.w, y0 = s / g.w, x1 = t % g.w, y1 = t / g.w;
		if (!standable(g.rows[y0][x0]) || !standable(g.rows[y1][x1]))
			continue;
		if (k++ % every)
			continue;
		if (!m)
			m.reset(load(g));
		one(g, m.get(), x0, y0, x1, y1, solves);
	}
}

static Grid mk(int w, int h, Mv mv, bool life, const char *abc, uint64_t c) {
	Grid g{w, h, std::vector<std::string>(h, std::string(w, ' ')), mv, life};
	for (int i = 0; i < w * h; i++, c /= strlen(abc))
		g.rows[i / w][i % w] = abc[c % strlen(abc)];
	return g;
}

// Larger maps: mazes, rooms, diagonals and terrains.
static void maps(uint64_t chunk, uint64_t nchunks) {
	static const int z[][2] = { { 40, 30 }, { 130, 9 }, { 3, 260 }, { 17, 33 }, { 300, 4 }, { 24, 24 } };
	uint64_t k = 0;
	for (auto &x : z)
		for (int kind = 0; kind < 5; kind++)
			for (int mv = 0; mv < 5; mv++, k++) {
				if (k % nchunks != chunk)
					continue;
				bool oct = mv == 4;
				Grid g{x[0], x[1], std::vector<std::string>(x[1], std::string(x[0], oct ? '.' : ' ')), oct ? Octile : mv & 1 ? Eight : Four, !oct && (mv & 2)};
				for (int j = 0; j < g.h; j++)
					for (int i = 0; i < g.w; i++) {
						bool b = kind == 0 ? j % 2 && i != (j / 2 % 2 ? 0 : g.w - 1)	// a hairpin
							: kind == 1 ? (i % 8 == 5 && j % 5 != 2) || (j % 8 == 6 && i % 9 != 4)	// rooms
							: kind == 2 ? (i + j) % 5 == 0 && i % 7	// diagonals
							: kind == 3 ? (i * 31 + j * 17 + i * j * 7) % 11 < 3	// scattered
							: false;
						if (b)
							g.rows[j][i] = oct ? "@OT"[(i + j) % 3] : '#';
						else if (oct && kind > 2)
							g.rows[j][i] = ".GSW"[(i / 3 + j / 5) % 4];
					}
				std::vector<int> fr;
				for (int i = 0; i < g.w * g.h; i++)
					if (standable(g.rows[i / g.w][i % g.w]))
						fr.push_back(i);
				std::unique_ptr<GridMap> m(load(g));
				for (int v = 0; v < (mc::thorough ? 6 : 2); v++) {
					int s = fr[fr.size() * v / 7], t = fr[fr.size() - 1 - fr.size() * v / 9];
					one(g, m.get(), s % g.w, s / g.w, t % g.w, t / g.w, true);
				}
			}
}

// Maps with more cells than 16 bits can number.
static void giant(uint64_t c) {
	static const int z[][2] = { { 300, 250 }, { 140, 500 } };
	int mv = c / 2;
	bool oct = mv == 2;
	Grid g{z[c % 2][0], z[c % 2][1], std::vector<std::string>(z[c % 2][1], std::string(z[c % 2][0], oct ? '.' : ' ')), oct ? Octile : mv ? Eight : Four, false};
	for (int y = 0; y < g.h; y++)
		for (int x = 0; x < g.w; x++)
			if ((x % 10 == 7 && y % 9 != 3) || (y % 9 == 4 && x % 10 != 2))
				g.rows[y][x] = oct ? '@' : '#';
	auto open = [&](int x) {	// a free cell close by
		while (!standable(g.rows[x / g.w][x % g.w]))
			x++;
		return x;
	};
	std::unique_ptr<GridMap> m(load(g));
	int s = open(g.w + 5), t = open(g.w * (g.h - 2) - 40);
	one(g, m.get(), s % g.w, s / g.w, t % g.w, t / g.w, true);
}

static uint64_t power(uint64_t b, int e) {
	uint64_t r = 1;
	while (e--)
		r *= b;
	return r;
}

static void costs() {
	for (int u = -6; u <= 12; u++)
	for (int s = -6; s <= 12; s++) {
		if (!mc::begin([&] { return mc::strf("costs with %d units and %d diagonals", u, s); }))
			continue;
		typedef GridNav::Cost C;
		C a(u, s);
		const double r2 = sqrt(2.0);
		MC_CHECK(near(a, u + s * r2, 1e-12), "cost", "value %g", (double) a);
		for (int v = -6; v <= 12; v++)
		for (int t = -6; t <= 12; t++) {
			C b(v, t), p = a + b, m = a - b, pa = a, ma = a, c;
			pa += b;
			ma -= b;
			c = b;
			MC_CHECK(p == C(u + v, s + t) && pa == p, "cost", "sum with %d,%d", v, t);
			MC_CHECK(m == C(u - v, s - t) && ma == m, "cost", "difference with %d,%d", v, t);
			MC_CHECK(near(p, u + v + (s + t) * r2, 1e-12) && near(m, u - v + (s - t) * r2, 1e-12) && (double) pa == (double) p && (double) ma == (double) m,
				"cost", "value of the sum or difference with %d,%d", v, t);
			MC_CHECK(c == b && (double) c == (double) b, "cost", "assignment");
			// sign of (u-v) + (s-t) sqrt 2, exactly
			long x = u - v, y = s - t;
			int sg = x >= 0 && y >= 0 ? (x || y) : x <= 0 && y <= 0 ? -1 : x > 0 ? (x * x > 2 * y * y ? 1 : -1) : (2 * y * y > x * x ? 1 : -1);
			MC_CHECK((a < b) == (sg < 0) && (a > b) == (sg > 0) && (a <= b) == (sg <= 0) && (a >= b) == (sg >= 0) &&
				(a == b) == (sg == 0) && (a != b) == (sg != 0), "cost", "comparison with %d,%d", v, t);
			mc::states();
		}
	}
}

static void seeds() {
	for (int w = 1; w <= 5; w += 2)
	for (int h = 1; h <= 6; h += 1)
	for (int p = 0; p <= 4; p++)
	for (int k = 0; k < 4; k++)
	for (int seed = 1; seed < 40; seed += 6) {
		if (!mc::begin([&] { return mc::strf("seed instance %d %dx%d prob %g kind %d", seed, w, h, p * 0.25, k); }))
			continue;
		Memfile f(mc::strf("seed %d %d %d %g\n%s\n%s\n0 0\n%d 0\n", seed, w, h, p * 0.25, k & 1 ? "Eightway" : "Fourway", k & 2 ? "Life" : "Unit", w - 1));
		GridMap m(f.f);
		GridMap u = GridMap::uniform(w, h, p * 0.25, seed);
		MC_CHECK((int) m.w == w + 2 && (int) m.h == h + 2 && m.sz == m.w * m.h, "seed", "the map is %u by %u", m.w, m.h);
		MC_CHECK(m.lifecost == (k >= 2) && m.nmvs == (k & 1 ? 8u : 4u), "seed", "lifecost %d, %u moves", m.lifecost, m.nmvs);
		Grid g{w, h, std::vector<std::string>(h, std::string(w, ' ')), k & 1 ? Eight : Four, k >= 2};
		for (int y = -1; y <= h; y++)
		for (int x = -1; x <= w; x++) {
			int i = m.index(x + 1, y + 1);
			MC_CHECK(m.blkd(i) == u.blkd(i), "seed", "%d,%d differs from the uniform map of that seed", x, y);
			if (!g.at(x, y))
				MC_CHECK(m.blkd(i), "seed", "the border is free");
			else if (p == 0 || p == 4)
				MC_CHECK(m.blkd(i) == (p == 4), "seed", "probability %d, but a cell is %sblocked", p / 4, p ? "not " : "");
			if (g.at(x, y) && m.blkd(i))
				g.rows[y][x] = '#';
		}
		unsigned a, b;
		MC_CHECK(fscanf(f, " %u %u", &a, &b) == 2 && a == 0 && b == 0, "seed", "the start does not follow");
		for (int i = 0; i < w * h; i++)
			if (g.rows[i / w][i % w] == ' ') {
				GridNav d(&m, i % w, i / w, 0, 0);
				Ref<GridNav> r(g, i % w, i / w, 0, 0);
				Explored<GridNav> x;
				explore<GridNav>(d, r, 1000, x);
				break;
			}
	}
}

#ifdef SCEN
static void scenario(uint64_t c) {
	Grid g = mk(3, 2, Octile, false, ".@W", c);
	std::string text = "version 1\n";
	struct E { int x0, y0, x1, y1; double opt; };
	std::vector<E> ents;
	std::unique_ptr<GridMap> m;
	for (int s = 0; s < 6; s++)
	for (int t = 0; t < 6; t++) {
		int x0 = s % 3, y0 = s / 3, x1 = t % 3, y1 = t / 3;
		if (!standable(g.rows[y0][x0]) || !standable(g.rows[y1][x1]))
			continue;
		if (!m)
			m.reset(load(g));
		GridNav d(m.get(), x0, y0, x1, y1);
		Ref<GridNav> r(g, x0, y0, x1, y1);
		Explored<GridNav> x;
		explore<GridNav>(d, r, 1000, x);
		double opt = std::isinf(x.dist[0]) ? 0 : x.dist[0];
		if (opt == 0 && s != t && ents.size() % 2)	// unsolvable ones, but not too many
			continue;
		ents.push_back(E{x0, y0, x1, y1, opt});
		text += mc::strf("%d\tmap%d\t3\t2\t%d\t%d\t%d\t%d\t%.8f\n", (int) opt / 4, (int) (c & 1), x0, y0, x1, y1, opt);
	}
	std::string dir = mc::scratch;
	FILE *f = fopen((dir + mc::strf("/map%d", (int) (c & 1))).c_str(), "w");
	fputs(g.sturtevant().c_str(), f);
	fclose(f);
	std::string out;
	{
		FILE *old = stdout;
		std::string root = dir;
		const char *av[] = { "x", "astar", "-maproot", root.c_str(), NULL };
		out = dumped([&](FILE *o) {
			stdout = o;
			std::istringstream in(text);
			Scenario sc(4, av);
			sc.run(in);
			stdout = old;
		});
	}
	std::istringstream is(out);
	std::string line;
	size_t row = 0;
	while (std::getline(is, line)) {
		if (line.compare(0, 7, "#altrow"))
			continue;
		std::vector<std::string> v;
		std::istringstream ls(line);
		std::string tok;
		while (std::getline(ls, tok, '\t'))
			v.push_back(tok);
		MC_CHECK(v.size() >= 14, "scenario", "row %s", line.c_str());
		MC_CHECK(row < ents.size(), "scenario", "too many rows");
		E &e = ents[row];
		// name, num, bucket, w, h, x0, y0, x1, y1, opt, expd, gend, cost, length
		size_t b = v.size() - 15;
		auto num = [&](int i) { return strtod(v[b + i].c_str(), NULL); };
		MC_CHECK(num(0) == row && num(2) == 3 && num(3) == 2 && num(4) == e.x0 && num(5) == e.y0 && num(6) == e.x1 && num(7) == e.y1,
			"scenario", "entry %zu: %s", row, line.c_str());
		bool same = e.x0 == e.x1 && e.y0 == e.y1;
		MC_CHECK(near(num(11), e.opt || same ? e.opt : -1, 1e-4), "scenario", "entry %zu: cost %g, the optimum is %g", row, num(11), e.opt);
		row++;
	}
	MC_CHECK(row == ents.size(), "scenario", "%zu rows for %zu entries", row, ents.size());
}
#endif

void mc_setup() {
	nexp = mc::counter("problems explored");
	nmaps = mc::counter("maps loaded");
	nsolves = mc::counter("searches");
	nunsolv = mc::counter("problems without a solution");
#ifndef SCEN
	mc::suite("ruml33", "every 3x3 map, four-way and eight-way, unit and life costs, every start and every 3rd (thorough: every) goal", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 512 * 4; m += 64)
			allpairs(mk(3, 3, m & 1 ? Eight : Four, m & 2, " #", m >> 2), mc::thorough ? 1 : 4, false);
	});
	mc::suite("solve33", "searches on every 3x3 map", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 512 * 4; m += 64)
			allpairs(mk(3, 3, m & 1 ? Eight : Four, m & 2, " #", m >> 2), mc::thorough ? 7 : 67, true);
	});
	mc::suite("ruml24", "every 2x4 and 4x2 map", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 256 * 8; m += 64)
			allpairs(mk(m & 4 ? 2 : 4, m & 4 ? 4 : 2, m & 1 ? Eight : Four, m & 2, " #", m >> 3), mc::thorough ? 1 : 5, false);
	});
	mc::suite("wide", "empty grids up to 8x6 and ones with a wall: every start and goal", 64, [](uint64_t c) {
		uint64_t k = 0;
		for (int w = 1; w <= 8; w++)
		for (int h = 1; h <= 6; h++)
		for (int m = 0; m < 4; m++)
		for (int wall = 0; wall < 4; wall++, k++) {
			if (k % 64 != c)
				continue;
			Grid g = mk(w, h, m & 1 ? Eight : Four, m & 2, " ", 0);
			if (wall) {
				for (int y = 0; y < h; y++)
					if (wall == 1 ? y != h - 1 : wall == 2 ? y != 0 : y != h / 2)
						g.rows[y][w / 2] = '#';
			}
			allpairs(g, mc::thorough ? 2 : w * h > 12 ? 23 : 3, false);
		}
	}, 60);
	mc::suite("maps", "mazes, rooms, diagonals and terrains of up to 300x4, 40x30 and 3x260 cells", 64, [](uint64_t c) { maps(c, 64); }, 60);
	mc::suite("giant", "a map of 75000 and one of 70000 cells, four-way, eight-way and octile", 6, giant, 120);
	mc::suite("terrain22", "every 2x2 octile map over seven terrains", 32, [](uint64_t c) {
		for (uint64_t m = c; m < 2401; m += 32)
			allpairs(mk(2, 2, Octile, false, ".GSWT@O", m), 1, true);
	});
	mc::suite("terrain23", "every 3x2 octile map over free, blocked, swamp and water", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 4096; m += 64)
			allpairs(mk(3, 2, Octile, false, ".@SW", m), mc::thorough ? 1 : 7, false);
	});
	mc::suite("terrain33", "every 3x3 octile map of free and blocked cells", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 512; m += 64)
			allpairs(mk(3, 3, Octile, false, ".@", m), mc::thorough ? 1 : 5, false);
	});
	mc::suite("costs", "cost arithmetic: every two of 361 values", 1, [](uint64_t) { costs(); });
	mc::suite("seeds", "seed instances: sizes, densities, movement and cost types", 1, [](uint64_t) { seeds(); });
#else
	mc::suite("scenario", "scenario files over every 3x2 octile map of free, blocked and water cells", 64, [](uint64_t c) {
		for (uint64_t m = c; m < 729; m += 64)
			if (mc::begin([&] { return mc::strf("scenario on map %d: %s", (int) m, mk(3, 2, Octile, false, ".@W", m).str().c_str()); }))
				scenario(m);
	});
#endif
}

MC_MAIN
