// C28: the programs that convert and generate maps and instances.
#include "mc.hpp"
#include "proc.hpp"
#include "utils/utils.hpp"
#include "gridnav/gridmap.hpp"
#include "visnav/polymap.hpp"
#include "rdb/rdb.hpp"
#include <algorithm>
#include <dirent.h>
#include <map>
#include <memory>
#include <set>

typedef std::vector<std::string> Args;

extern "C" int gridnav_2poly_main(int, char**);
extern "C" int plat2d_2poly_main(int, char**);
extern "C" int gridnav_ppm2grid_main(int, char**);
extern "C" int gridnav_mkseedinst_main(int, char**);
extern "C" int gridnav_randinst_main(int, char**);
extern "C" int gridnav_scenario2rdb_main(int, char**);

static int nprogs, nmaps, ncells, nscripts, nentries, nregions, nrejected;

// Random integers are those of a script, or, after its end, all in turn. What was
// asked for is seen by the parent process.
struct Asked {
	int on;
	int n;
	int script[16], len;
	int range[16];
};
static Asked *asked;

int64_t Rand::integer(long min, long max) {
	if (!asked || !asked->on) {
		if (min == max)
			return min;
		return bits() % ((max + 1) - min) + min;
	}
	int i = asked->n++;
	if (i > 10000)
		_exit(99);
	long range = max - min + 1;
	if (i < 16)
		asked->range[i] = range;
	if (i < asked->len)
		return min + asked->script[i];
	// An odometer: any two successive numbers get all their values.
	static long turn;
	static bool odd;
	odd = !odd;
	if (odd)
		return min + turn % range;
	return min + turn++ / range % range;
}

// Processes do not share what was asked for.
static void newasked() {
	static pid_t owner;
	if (owner == getpid())
		return;
	owner = getpid();
	asked = (Asked*) mmap(NULL, sizeof(Asked), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static Ran run(const char *name, int (*prog)(int, char**), const std::string &in, Args args = Args()) {
	mc::count(nprogs);
	args.insert(args.begin(), name);
	std::vector<char*> av;
	for (auto &a : args)
		av.push_back(&a[0]);
	av.push_back(NULL);
	return runmain(in, [&] { return prog(args.size(), av.data()); });
}

static std::string okout(const char *name, int (*prog)(int, char**), const std::string &in, Args args = Args()) {
	Ran r = run(name, prog, in, args);
	MC_CHECK(r.sig == 0 && r.status == 0, "exit", "%s: exit status %d, signal %d: %s", name, r.status, r.sig, (r.err + r.out).c_str());
	return r.out;
}

struct Mem {
	FILE *f;
	std::string text;
	Mem(const std::string &t) : text(t) { f = fmemopen((void*) text.data(), text.size() ? text.size() : 1, "r"); }
	~Mem() { fclose(f); }
};

static void put(const std::string &path, const std::string &text) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size())
		abort();
	fclose(f);
}

// Cells has a character for each cell, the first row first.
struct Cells {
	int w, h;
	std::string c;
	char &at(int x, int y) { return c[y * w + x]; }
	bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
	std::string lines() {
		std::string s;
		for (int y = 0; y < h; y++)
			s += c.substr(y * w, w) + "\n";
		return s;
	}
	std::string str() {
		std::string s = lines();
		std::replace(s.begin(), s.end(), '\n', '/');
		return s;
	}
};

// The number of regions of free cells.
static int regions(int w, int h, const std::vector<char> &blkd) {
	std::vector<char> seen(blkd);
	int n = 0;
	for (int s = 0; s < w * h; s++) {
		if (seen[s])
			continue;
		n++;
		std::vector<int> st(1, s);
		seen[s] = 1;
		while (!st.empty()) {
			int x = st.back() / h, y = st.back() % h;
			st.pop_back();
			static const int d[][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } };
			for (auto &v : d) {
				int nx = x + v[0], ny = y + v[1];
				if (nx < 0 || ny < 0 || nx >= w || ny >= h || seen[nx * h + ny])
					continue;
				seen[nx * h + ny] = 1;
				st.push_back(nx * h + ny);
			}
		}
	}
	return n;
}

// The map of polygons is that of the blocked cells, [x * h + y], with y upwards.
static void polys(const std::string &out, int w, int h, const std::vector<char> &blkd) {
	Mem m(out);
	PolyMap got(m.f);
	std::unique_ptr<bool[]> b(new bool[w * h]);
	for (int i = 0; i < w * h; i++)
		b[i] = blkd[i];
	PolyMap want(b.get(), w, h);
	bool one = regions(w, h, blkd) == 1;
	mc::count(nregions, one);
	for (int x = 0; x < w; x++)
	for (int y = 0; y < h; y++) {
		static const double off[][2] = { { .5, .5 }, { .1, .2 }, { .9, .3 }, { .2, .8 } };
		for (auto &f : off) {
			geom2d::Pt p(x + f[0], y + f[1]);
			mc::count(ncells);
			bool o = got.obstructed(p);
			if (one)
				MC_CHECK(o == !!blkd[x * h + y], "cell", "the point %g,%g is%s obstructed", p.x, p.y, o ? "" : " not");
			MC_CHECK(o == want.obstructed(p), "polygons", "the point %g,%g is%s obstructed", p.x, p.y, o ? "" : " not");
		}
	}
	mc::validated();
}

// All maps of these cells.
template <class F> static void allcells(int w, int h, const char *kinds, uint64_t chunk, uint64_t nchunks, F fn, unsigned long step = 1) {
	unsigned long k = strlen(kinds), n = 1;
	for (int i = 0; i < w * h; i++)
		n *= k;
	for (unsigned long v = chunk * step; v < n; v += nchunks * step) {
		Cells c = { w, h, std::string(w * h, ' ') };
		unsigned long r = v;
		for (int i = 0; i < w * h; i++, r /= k)
			c.c[i] = kinds[r % k];
		fn(c, v / step / nchunks);
	}
}

// The text of a map. The characters are space or #.
static std::string ruml(Cells &c, unsigned long variant) {
	return mc::strf("%d %d\nBoard:\n", c.h, c.w) + c.lines() + (variant & 1 ? "Life\n" : "Unit\n") + (variant & 2 ? "Eight-way\n" : "Four-way\n");
}
static std::string octile(Cells &c) {
	std::string s = c.lines();
	int k = 0;
	for (char &ch : s)
		if (ch != '\n')
			ch = ch == ' ' ? ".G"[k++ % 2] : "@OTS"[k++ % 3];
	return mc::strf("type octile\nheight %d\nwidth %d\nmap\n", c.h, c.w) + s;
}

static void grid2poly(Cells c, unsigned long i) {
	for (int sturtevant = 0; sturtevant < 2; sturtevant++) {
		if (!mc::begin([&] { return mc::strf("%s %s", sturtevant ? "octile" : "board", c.str().c_str()); }))
			continue;
		mc::count(nmaps);
		// The cells as the map has them: with a border, and y from the last line of a board.
		int w = c.w + 2, h = c.h + 2;
		std::vector<char> b(w * h, 1);
		for (int x = 0; x < c.w; x++)
		for (int y = 0; y < c.h; y++)
			b[(x + 1) * h + (sturtevant ? y : c.h - 1 - y) + 1] = c.at(x, y) != ' ';
		std::string out = okout("2poly", gridnav_2poly_main, sturtevant ? octile(c) : ruml(c, i));
		if (c.c.find(' ') == std::string::npos)
			continue;
		polys(out, w, h, b);
		mc::states(1);
		mc::nontrivial();
	}
}

static void lvl2poly(Cells c) {
	if (!mc::begin([&] { return c.str(); }))
		return;
	mc::count(nmaps);
	Cells l = { c.w + 2, c.h + 2, std::string((c.w + 2) * (c.h + 2), '#') };
	for (int x = 0; x < c.w; x++)
	for (int y = 0; y < c.h; y++)
		l.at(x + 1, y + 1) = c.at(x, y);
	std::vector<char> b(l.w * l.h);
	for (int x = 0; x < l.w; x++)
	for (int y = 0; y < l.h; y++)	// the first line is at the top
		b[x * l.h + l.h - 1 - y] = l.at(x, y) == '#';
	std::string out = okout("2poly", plat2d_2poly_main, mc::strf("1 %d %d 0\n", l.w, l.h) + l.lines());
	if (c.c.find_first_not_of('#') == std::string::npos)
		return;
	polys(out, l.w, l.h, b);
	mc::states(1);
	mc::nontrivial();
}

// A picture: w is white, b black, and the others are neither.
static void picture(Cells c, unsigned long variant) {
	static const unsigned maxs[] = { 255, 1, 65535, 15 };
	for (unsigned max : maxs) {
		if (!mc::begin([&] { return mc::strf("max=%u variant=%lu %s", max, variant % 6, c.str().c_str()); }))
			continue;
		mc::count(nmaps);
		std::string s = "P3\n";
		if (variant % 3 == 1)
			s += "# CREATOR: a drawing program 5 5\n";
		s += mc::strf("%d %d\n", c.w, c.h);
		if (variant % 3 == 2)
			s += "# 7\n#\n";
		s += mc::strf("%u\n", max);
		for (size_t i = 0; i < c.c.size(); i++) {
			unsigned r = max, g = max, b = max;
			switch (c.c[i]) {
			case 'b': r = g = b = 0; break;
			case 'r': r = max - 1; break;
			case 'g': g = 0; break;
			case 'l': b = max - 1; break;
			}
			s += mc::strf("%u %u %u", r, g, b);
			s += variant % 2 ? "\n" : (int) (i + 1) % c.w ? "  " : " \n";
		}
		std::string out = okout("ppm2grid", gridnav_ppm2grid_main, s);
		// The program prints the board, the rest is put in by hand.
		std::string text = out + "Unit\nFour-way\n";
		Mem m(text);
		int rc = 0;
		Ran r = runmain("", [&] {
			GridMap map(m.f);
			if ((int) map.w != c.w + 2 || (int) map.h != c.h + 2)
				return 2;
			for (int x = 0; x < c.w; x++)
			for (int y = 0; y < c.h; y++)
				if (map.blkd(map.index(x + 1, c.h - y)) != (c.at(x, y) != 'w'))
					return 3;
			return rc;
		});
		MC_CHECK(r.status == 0, "board", "the map is not that of the picture (%d %s): %s", r.status, r.err.c_str(), out.c_str());
		mc::states(1);
		mc::validated();
		mc::nontrivial();
	}
}

static void badpictures() {
	static const char *bad[] = { "", "P6\n1 1\n255\n1 1 1\n", "P3\n", "P3\n2 1\n255\n1 1 1\n", "P3\nx\n255\n1 1 1\n", "P3\n1 1\n255\n1 1\n" };
	for (auto b : bad) {
		if (!mc::begin([&] { return std::string("not a picture: ") + b; }))
			continue;
		Ran r = run("ppm2grid", gridnav_ppm2grid_main, b);
		mc::count(nrejected);
		mc::states(1);
		MC_CHECK(r.sig == 0 && r.status != 0, "accepted", "exit status %d, signal %d: %s", r.status, r.sig, r.out.c_str());
	}
}

// Reference: may one get from the first to the last cell of the first row?
static bool solvable(GridMap &m, bool eightway) {
	int w = m.w, h = m.h;
	std::vector<char> seen(w * h);
	std::vector<int> st;
	if (m.blkd(m.index(1, 1)) || m.blkd(m.index(w - 2, 1)))
		return false;
	st.push_back(m.index(1, 1));
	seen[st[0]] = 1;
	while (!st.empty()) {
		int x = st.back() % w, y = st.back() / w;
		st.pop_back();
		if (x == w - 2 && y == 1)
			return true;
		for (int dx = -1; dx <= 1; dx++)
		for (int dy = -1; dy <= 1; dy++) {
			if (!eightway && dx && dy)
				continue;
			int i = m.index(x + dx, y + dy);
			if (x + dx < 1 || y + dy < 1 || x + dx > w - 2 || y + dy > h - 2 || seen[i] || m.blkd(i))
				continue;
			seen[i] = 1;
			st.push_back(i);
		}
	}
	return false;
}

static void seedinst(int w, int h, const char *prob, bool eightway, bool life, uint64_t seed, int order) {
	if (!mc::begin([&] { return mc::strf("%dx%d probability %s%s%s seed %lu order %d", w, h, prob, eightway ? " eight-way" : "", life ? " life" : "", (unsigned long) seed, order); }))
		return;
	std::vector<Args> opts = { { "-width", mc::strf("%d", w) }, { "-height", mc::strf("%d", h) }, { "-prob", prob }, { "-seed", mc::strf("%lu", (unsigned long) seed) } };
	if (eightway)
		opts.push_back({ "-eightway" });
	if (life)
		opts.push_back({ "-lifecost" });
	std::rotate(opts.begin(), opts.begin() + order % opts.size(), opts.end());
	Args args;
	for (auto &o : opts)
		args.insert(args.end(), o.begin(), o.end());
	std::string out = okout("mkseedinst", gridnav_mkseedinst_main, "", args);
	// The first seed, from the given one on, with a map that can be solved.
	double p = strtod(prob, NULL);
	uint64_t s = seed;
	for (;; s++) {
		GridMap m = GridMap::uniform(w, h, p, s);
		if (solvable(m, eightway))
			break;
	}
	GridMap want = GridMap::uniform(w, h, p, s);
	// As it is read back
	std::string text = out;
	Mem m(text);
	Ran r = runmain("", [&] {
		GridMap map(m.f);
		int x0, y0, x1, y1;
		if (fscanf(m.f, "%d %d %d %d", &x0, &y0, &x1, &y1) != 4)
			return 2;
		if (map.w != want.w || map.h != want.h)
			return 3;
		for (unsigned i = 0; i < map.sz; i++)
			if (map.blkd(i) != want.blkd(i))
				return 4;
		if (map.lifecost != life)
			return 5;
		if (map.nmvs != (eightway ? 8u : 4u))
			return 6;
		if (x0 != 0 || y0 != 0 || x1 != w - 1 || y1 != 0)
			return 7;
		return 0;
	});
	MC_CHECK(r.status == 0 && r.sig == 0, "instance", "the instance read back is not the one asked for (%d %s): %s", r.status, r.err.c_str(), out.c_str());
	double pr;
	unsigned long sr;
	unsigned wr, hr;
	MC_CHECK(sscanf(out.c_str(), "seed %lu %u %u %lf", &sr, &wr, &hr, &pr) == 4 && sr == s && pr == p, "header", "seed %lu probability %s: %s", (unsigned long) s, prob, out.c_str());
	mc::states(1);
	mc::validated();
	mc::count(nmaps);
	if (s != seed)
		mc::nontrivial();
}

// Random instances of a map: all scripts of random numbers.
static void randinst(Cells c, bool sturtevant, int len, unsigned long variant) {
	if (c.c.find(' ') == std::string::npos)
		return;
	std::string map = sturtevant ? octile(c) : ruml(c, variant);
	std::string path = mc::scratch + "/map";
	newasked();
	put(path, map);
	std::set<std::vector<int>> got;
	std::vector<int> script(len);
	bool all = true;
	for (;;) {
		bool ok = mc::begin([&] {
			std::string s;
			for (int v : script)
				s += mc::strf(" %d", v);
			return mc::strf("%s %s random:%s", sturtevant ? "octile" : "board", c.str().c_str(), s.c_str());
		});
		std::vector<int> ranges(len, 0);
		asked->on = 1;
		asked->n = 0;
		asked->len = len;
		for (int i = 0; i < len; i++)
			asked->script[i] = script[i];
		for (int &r : asked->range)
			r = 0;
		Ran r = run("randinst", gridnav_randinst_main, "", variant & 4 ? Args{ "-m", path, "-s", "7" } : Args{ "-s", "99", "-m", path });
		asked->on = 0;
		mc::count(nscripts);
		if (ok) {
			MC_CHECK(r.sig == 0 && r.status == 0, "exit", "exit status %d, signal %d: %s", r.status, r.sig, (r.err + r.out).c_str());
			MC_CHECK(r.out.compare(0, map.size(), map) == 0, "map", "the map is not repeated: %s", r.out.c_str());
			std::string rest = r.out.size() > map.size() ? r.out.substr(map.size()) : "";
			std::vector<int> v(4);
			char ch;
			MC_CHECK(sscanf(rest.c_str(), "%d %d %d %d %c", &v[0], &v[1], &v[2], &v[3], &ch) == 4, "locations", "the map is followed by %s", rest.c_str());
			for (int i = 0; i < 4; i += 2) {
				MC_CHECK(c.in(v[i], v[i + 1]), "outside", "the location %d,%d is outside of the map", v[i], v[i + 1]);
				MC_CHECK(c.at(v[i], sturtevant ? v[i + 1] : c.h - 1 - v[i + 1]) == ' ', "blocked", "the location %d,%d is blocked", v[i], v[i + 1]);
			}
			got.insert(v);
			mc::states(1);
			mc::transitions(asked->n);
			mc::validated();
			if (asked->n > 4)
				mc::nontrivial();
		} else
			all = false;
		// the next script
		int i = len - 1;
		while (i >= 0 && (script[i] + 1 >= asked->range[i]))
			script[i--] = 0;
		if (i < 0)
			break;
		script[i]++;
	}
	if (!all || !mc::begin([&] { return mc::strf("%s %s all locations", sturtevant ? "octile" : "board", c.str().c_str()); }))
		return;
	size_t nfree = std::count(c.c.begin(), c.c.end(), ' ');
	MC_CHECK(got.size() == nfree * nfree, "locations", "only %zu of %zu pairs of locations are chosen", got.size(), nfree * nfree);
	mc::count(nmaps);
}

// Random instances of a large map: all pairs of numbers for the one, and for the other location.
static void randlarge(Cells c, bool sturtevant, unsigned long variant) {
	std::string map = sturtevant ? octile(c) : ruml(c, variant);
	std::string path = mc::scratch + "/map";
	bool ok = mc::begin([&] { return mc::strf("%s %dx%d, variant %lu", sturtevant ? "octile" : "board", c.w, c.h, variant); });
	if (!ok)
		return;
	newasked();
	put(path, map);
	int fx = c.c.find(' ') % c.w, fy = c.c.find(' ') / c.w;
	if (!sturtevant)
		fy = c.h - 1 - fy;
	std::set<std::pair<int, int>> got[2];
	for (int which = 0; which < 2; which++) {
		int ranges[4] = { 1, 1, 1, 1 }, a = 0, b = 0;
		for (;;) {
			int script[4] = { which ? fx : a, which ? fy : b, which ? a : 0, which ? b : 0 };
			asked->on = 1;
			asked->n = 0;
			asked->len = which ? 4 : 2;
			for (int i = 0; i < 4; i++)
				asked->script[i] = script[i];
			for (int &r : asked->range)
				r = 0;
			Ran r = run("randinst", gridnav_randinst_main, "", { "-m", path });
			asked->on = 0;
			mc::count(nscripts);
			for (int i = 0; i < 4; i++)
				ranges[i] = std::max(ranges[i], asked->range[i]);
			MC_CHECK(r.sig == 0 && r.status == 0, "exit", "exit status %d, signal %d: %s", r.status, r.sig, r.err.c_str());
			MC_CHECK(r.out.compare(0, map.size(), map) == 0, "map", "the map is not repeated: %s", r.out.c_str());
			std::string rest = r.out.substr(map.size());
			int v[4];
			char ch;
			MC_CHECK(sscanf(rest.c_str(), "%d %d %d %d %c", &v[0], &v[1], &v[2], &v[3], &ch) == 4, "locations", "the map is followed by %s", rest.c_str());
			for (int i = 0; i < 4; i += 2) {
				MC_CHECK(c.in(v[i], v[i + 1]), "outside", "the location %d,%d is outside of the map", v[i], v[i + 1]);
				MC_CHECK(c.at(v[i], sturtevant ? v[i + 1] : c.h - 1 - v[i + 1]) == ' ', "blocked", "the location %d,%d is blocked", v[i], v[i + 1]);
				got[i / 2].insert(std::make_pair(v[i], v[i + 1]));
			}
			mc::states();
			mc::transitions(asked->n);
			if (++b < ranges[which * 2 + 1])
				continue;
			b = 0;
			if (++a >= ranges[which * 2])
				break;
		}
	}
	size_t nfree = std::count(c.c.begin(), c.c.end(), ' ');
	for (int i = 0; i < 2; i++)
		MC_CHECK(got[i].size() == nfree, "locations", "only %zu of %zu cells are chosen as a %s", got[i].size(), nfree, i ? "goal" : "start");
	mc::count(nmaps);
	mc::validated();
	mc::nontrivial();
}

// Cells in a pattern, that are, for most, in one piece.
static Cells pattern(int w, int h, int which) {
	Cells c = { w, h, std::string(w * h, ' ') };
	for (int y = 0; y < h; y++)
		for (int x = 0; x < w; x++) {
			bool b = false;
			switch (which) {
			case 0: break;				// one room
			case 1: b = (x * 7 + y * 3) % 11 == 0; break;	// scattered
			case 2: b = x % 4 == 3 && y != (x / 4 % 2 ? 0 : h - 1); break;	// there and back
			case 3: b = x % 2 && y % 2; break;	// a lattice
			case 4: b = x == w - 1 || y == h - 1 || (x == w / 2 && y); break;
			case 5: b = x != 0 && x != w - 1 && y != 0 && y != h - 1; break;	// around a block
			}
			if (b)
				c.at(x, y) = '#';
		}
	return c;
}

static const int larges[][2] = { { 300, 1 }, { 1, 300 }, { 259, 2 }, { 40, 30 }, { 17, 31 } };

static std::map<std::string, std::string> pairs;
static void pairline(std::vector<std::string> &toks, void*) {
	if (toks.size() == 3 && toks[0] == "#pair") {
		if (pairs.count(toks[1]))
			mc::fail("twice", "two values of %s", toks[1].c_str());
		pairs[toks[1]] = toks[2];
	}
}

static void rmtree(const std::string &p) {
	if (p.compare(0, mc::scratch.size(), mc::scratch) != 0 || p.find("..") != std::string::npos)
		abort();
	struct stat st;
	if (lstat(p.c_str(), &st))
		return;
	if (!S_ISDIR(st.st_mode)) {
		unlink(p.c_str());
		return;
	}
	std::vector<std::string> names;
	DIR *d = opendir(p.c_str());
	while (struct dirent *e = readdir(d))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
			names.push_back(e->d_name);
	closedir(d);
	for (auto &n : names)
		rmtree(p + "/" + n);
	rmdir(p.c_str());
}

static void scenario(const std::vector<std::vector<std::string>> &entries, const char *version, const char *sep, bool lastnl, const char *name) {
	if (!mc::begin([&] {
		std::string s = mc::strf("%s: version %s", name, version);
		for (auto &e : entries) {
			s += " /";
			for (auto &v : e)
				s += " " + v;
		}
		return s;
	}))
		return;
	std::string root = mc::scratch + "/root", dir = mc::scratch + "/scen", file = dir + "/" + name;
	rmtree(root);
	rmtree(dir);
	mkdir(dir.c_str(), 0700);
	std::string text = std::string("version ") + version + "\n";
	for (size_t i = 0; i < entries.size(); i++) {
		for (size_t j = 0; j < entries[i].size(); j++)
			text += (j ? sep : "") + entries[i][j];
		if (i + 1 < entries.size() || lastnl)
			text += "\n";
	}
	put(file, text);
	std::string out = okout("scenario2rdb", gridnav_scenario2rdb_main, "", { root, file });
	// one line for each entry
	std::vector<std::string> paths;
	for (size_t i = 0, k; (k = out.find('\n', i)) != std::string::npos; i = k + 1)
		paths.push_back(out.substr(i, k - i));
	MC_CHECK(paths.size() == entries.size() && (out.empty() || out.back() == '\n'), "paths", "%zu paths for %zu entries: %s", paths.size(), entries.size(), out.c_str());
	MC_CHECK(std::set<std::string>(paths.begin(), paths.end()).size() == paths.size(), "paths", "a path is used twice: %s", out.c_str());
	for (size_t i = 0; i < paths.size(); i++) {
		mc::count(nentries);
		auto &e = entries[i];
		auto base = [](const std::string &s) { return s.substr(s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1); };
		// It is where the attributes say,
		RdbAttrs attrs;
		attrs.push_back("scenario file", name);
		attrs.push_back("bucket", e[0]);
		attrs.push_back("map", base(e[1]));
		attrs.push_back("num", mc::strf("%zu", i));
		std::vector<std::string> found = withattrs(root, attrs);
		MC_CHECK(found.size() == 1 && found[0] == paths[i], "attributes", "%zu files have the attributes of entry %zu, its path is %s", found.size(), i, paths[i].c_str());
		// and has the values.
		FILE *f = fopen(paths[i].c_str(), "r");
		MC_CHECK(f, "missing", "there is no file %s", paths[i].c_str());
		std::string content;
		int ch;
		while ((ch = fgetc(f)) != EOF)
			content.push_back(ch);
		rewind(f);
		pairs.clear();
		dfread(f, pairline);
		fclose(f);
		MC_CHECK(content.find("#start data file format 4\n") == 0, "header", "%s", content.c_str());
		std::string end = "#end data file format 4\n";
		MC_CHECK(content.size() > end.size() && content.compare(content.size() - end.size(), end.size(), end) == 0, "footer", "%s", content.c_str());
		std::map<std::string, std::string> want = {
			{ "scenario file", file }, { "num", mc::strf("%zu", i) }, { "map", e[1] }, { "optimal cost", e[8] },
			{ "start x", e[4] }, { "start y", e[5] }, { "goal x", e[6] }, { "goal y", e[7] },
		};
		for (auto &w : want)
			MC_CHECK(pairs.count(w.first) && pairs[w.first] == w.second, "value", "%s is %s, should be %s", w.first.c_str(), pairs.count(w.first) ? pairs[w.first].c_str() : "missing", w.second.c_str());
		mc::states(1);
		mc::validated();
	}
	if (entries.size() > 1)
		mc::nontrivial();
	// There are no other files
	MC_CHECK(withattrs(root, RdbAttrs()).size() == entries.size(), "files", "there are %zu files", withattrs(root, RdbAttrs()).size());
	rmtree(root);
	rmtree(dir);
}

static void scenarios(uint64_t chunk, uint64_t nchunks) {
	std::vector<std::vector<std::string>> kinds = {
		{ "0", "a.map", "4", "4", "1", "2", "3", "0", "2.41421356" },
		{ "0", "maps/dao/a.map", "4", "4", "0", "0", "0", "0", "0" },
		{ "1", "a.map", "4", "4", "1", "2", "3", "0", "2.41421356" },
		{ "12", "/abs/b_100%.map", "512", "768", "511", "10", "20", "767", "1000.5" },
		{ "0", "100%s.map", "4", "4", "3", "2", "1", "0", "7" },
	};
	static const char *names[] = { "a.map.scen", "50%done.scen" };
	static const char *versions[] = { "1", "1.0" };
	uint64_t k = 0;
	int deep = mc::thorough ? 4 : 3;
	for (int n = 0; n <= deep; n++) {
		uint64_t total = 1;
		for (int i = 0; i < n; i++)
			total *= kinds.size();
		for (uint64_t v = 0; v < total; v++)
		for (auto name : names)
		for (auto version : versions) {
			if (k++ % nchunks != chunk)
				continue;
			std::vector<std::vector<std::string>> es;
			uint64_t r = v;
			for (int i = 0; i < n; i++, r /= kinds.size())
				es.push_back(kinds[r % kinds.size()]);
			scenario(es, version, k / nchunks % 2 ? "\t" : " ", k / nchunks % 3, name);
		}
	}
	if (chunk)
		return;
	for (const char *text : { "", "version 2\n", "1\n0 a.map 1 1 0 0 0 0 0\n" }) {
		if (!mc::begin([&] { return std::string("not a scenario: ") + text; }))
			continue;
		std::string file = mc::scratch + "/bad.scen";
		put(file, text);
		Ran r = run("scenario2rdb", gridnav_scenario2rdb_main, "", { mc::scratch + "/root", file });
		mc::count(nrejected);
		mc::states(1);
		MC_CHECK(r.sig == 0 && r.status != 0, "accepted", "exit status %d, signal %d: %s", r.status, r.sig, r.out.c_str());
	}
}

// Scenarios with many entries.
static void longscenarios(uint64_t chunk, uint64_t nchunks) {
	for (uint64_t k = 0; k < 6; k++) {
		if (k % nchunks != chunk)
			continue;
		int n = k < 3 ? 12 : 300;
		std::vector<std::vector<std::string>> es;
		for (int i = 0; i < n; i++) {
			std::string map = k % 3 == 0 ? "a.map" : k % 3 == 1 ? mc::strf("m%d.map", i % 17) : mc::strf("maps/%s/m%d.map", std::string(60, 'x').c_str(), i);
			es.push_back({ mc::strf("%d", i / 10), map, "1024", "1024", mc::strf("%d", i * 3), mc::strf("%d", 1023 - i), mc::strf("%d", i), mc::strf("%d", i * 2 + 1), mc::strf("%d.%08d", i * 11, i * 12345) });
		}
		scenario(es, "1", k % 2 ? "\t" : " ", true, "long.scen");
	}
}

void mc_setup() {
	nprogs = mc::counter("programs_run");
	nmaps = mc::counter("maps");
	ncells = mc::counter("points_in_cells");
	nscripts = mc::counter("sequences_of_random_numbers");
	nentries = mc::counter("scenario_entries");
	nregions = mc::counter("maps_in_one_piece");
	nrejected = mc::counter("files_rejected");
	mc::suite("grid", "gridnav/2poly: every map of up to 3x3 (thorough: 4x3), and of one row or column of up to 6", 32, [](uint64_t c) {
		for (int w = 1; w <= (mc::thorough ? 4 : 3); w++)
		for (int h = 1; h <= 3; h++)
			allcells(w, h, " #", c, 32, grid2poly);
		for (int n = 4; n <= 6; n++) {
			allcells(1, n, " #", c, 32, grid2poly);
			allcells(n, 1, " #", c, 32, grid2poly);
		}
		allcells(4, 2, " #", c, 32, grid2poly);
		allcells(2, 4, " #", c, 32, grid2poly);
	}, 30);
	mc::suite("level", "plat2d/2poly: every level of up to 3x3 (thorough: 4x3), with tiles of every kind in those of up to 4", 32, [](uint64_t c) {
		for (int w = 1; w <= (mc::thorough ? 4 : 3); w++)
		for (int h = 1; h <= 3; h++) {
			allcells(w, h, " #", c, 32, [](Cells c, unsigned long) { lvl2poly(c); });
			if (w * h <= 4)
				allcells(w, h, " #wdDuU", c, 32, [](Cells c, unsigned long) { lvl2poly(c); }, mc::thorough ? 1 : w * h < 4 ? 1 : 7);
		}
	}, 30);
	mc::suite("picture", "gridnav/ppm2grid: every picture of up to 3x2 and 2x3 of 5 colours (3 by 2: of 3), 4 depths", 32, [](uint64_t c) {
		for (int w = 1; w <= 3; w++)
		for (int h = 1; h <= 3; h++) {
			if (w * h <= 3)
				allcells(w, h, "wbrgl", c, 32, picture);
			else if (w * h <= 6)
				allcells(w, h, "wbr", c, 32, picture);
		}
		if (c == 0)
			badpictures();
	}, 30);
	mc::suite("seed", "gridnav/mkseedinst: sizes up to 4x4, 5 probabilities, all options, 24 (thorough: 200) seeds", 32, [](uint64_t c) {
		static const char *probs[] = { "0.05", "0.35", "0.5", "0.123456789", "0.4499999999999" };
		uint64_t k = 0;
		for (int w = 1; w <= 4; w++)
		for (int h = 1; h <= 4; h++)
		for (auto p : probs)
		for (int o = 0; o < 4; o++)
		for (int s = 0; s < (mc::thorough ? 200 : 24); s++)
			if (k++ % 32 == c)
				seedinst(w, h, p, o & 1, o & 2, s < 2 ? s : s == 2 ? 12345678901234567890ul : s * 1000003ul, s);
	}, 30);
	mc::suite("random", "gridnav/randinst: every sequence of random numbers for every map of up to 3x2 and 2x3, with retries for those of up to 2x2", 32, [](uint64_t c) {
		for (int w = 1; w <= 3; w++)
		for (int h = 1; h <= 3; h++) {
			if (w * h > 6)
				continue;
			for (int f = 0; f < 2; f++) {
				allcells(w, h, " #", c, 32, [=](Cells c, unsigned long i) { randinst(c, f, 4, i); });
				if (w * h <= (mc::thorough ? 6 : 4))
					allcells(w, h, " #", c, 32, [=](Cells c, unsigned long i) { randinst(c, f, mc::thorough && w * h <= 4 ? 8 : 6, i); });
			}
		}
	}, 60);
	mc::suite("scenario", "gridnav/scenario2rdb: every list of up to 3 (thorough: 4) of 5 entries", 16, [](uint64_t c) { scenarios(c, 16); }, 60);
	mc::suite("large", "all programs: maps, levels and pictures of up to 300 by 2 and 40 by 30 in 6 patterns, scenarios of up to 300 entries", 32, [](uint64_t c) {
		uint64_t k = 0;
		for (auto &l : larges)
			for (int which = 0; which < 6; which++) {
				Cells m = pattern(l[0], l[1], which);
				if (m.c.find(' ') == std::string::npos)
					continue;
				if (k++ % 32 == c) {
					grid2poly(m, k);
					lvl2poly(m);
				}
				if (k++ % 32 == c) {
					Cells p = m;
					for (size_t i = 0; i < p.c.size(); i++)
						p.c[i] = p.c[i] == ' ' ? 'w' : "brgl"[i % 4];
					picture(p, k);
				}
				for (int f = 0; f < 2; f++)
					if (k++ % 32 == c)
						randlarge(m, f, k);
			}
		for (auto &l : larges)
			for (auto p : { "0.001", "0.05", "0.35" })
				for (int o = 0; o < 4; o++)
					if (k++ % 32 == c && !(p[3] != '0' && l[0] * l[1] > 1 && l[0] > 20))
						seedinst(l[0], l[1], p, o & 1, o & 2, k, k);
		longscenarios(c, 32);
	}, 120);
}
MC_MAIN
