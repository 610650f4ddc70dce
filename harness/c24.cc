// C24: the traffic domain.
#include "domain.hpp"
#include "traffic/traffic.hpp"
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

static int nlate, nexp, nsolves, nhits, nedge, nunsolv, nrand, nwait;
extern "C" int traffic_randinst_main(int, const char*[]);

double walltime() { return 1; }

// The generator gives up a search after 300 s: here, after a twentieth of a second.
extern "C" int setitimer(__itimer_which_t which, const struct itimerval *v, struct itimerval *old) {
	struct itimerval sooner = *v;
	if (v->it_value.tv_sec || v->it_value.tv_usec) {
		sooner.it_value.tv_sec = 0;
		sooner.it_value.tv_usec = 50000;
	}
	return syscall(SYS_setitimer, which, &sooner, old);
}
double cputime() { return 1; }

struct Obst { int x, y, dx, dy; };

struct Inst {
	int w, h, sx, sy, gx, gy;
	std::vector<Obst> obs;
	std::string text() const {
		std::string s = mc::strf("%d %d %d %d\n%d %d\n", sx, sy, gx, gy, w, h);
		for (auto &o : obs)
			s += mc::strf("%d %d %d %d\n", o.x, o.y, o.dx, o.dy);
		return s;
	}
	std::string str() const {
		std::string s = mc::strf("%dx%d from %d,%d to %d,%d", w, h, sx, sy, gx, gy);
		for (auto &o : obs)
			s += mc::strf(" %d,%d:%+d%+d", o.x, o.y, o.dx, o.dy);
		return s;
	}
};

// bounce moves by one step in 0..n-1
static void bounce(int n, int &x, int &d) {
	if (n == 1)
		return;
	if (x + d < 0 || x + d >= n)
		d = -d;
	x += d;
}

// All obstacles over time, until they repeat.
struct Track {
	int period;
	std::vector<std::vector<std::pair<int,int>>> at;	// at[t][obstacle]
	Track(const Inst &in) {
		int a = std::max(1, 2 * (in.w - 1)), b = std::max(1, 2 * (in.h - 1));
		period = a;
		while (period % b)
			period += a;
		std::vector<Obst> o = in.obs;
		for (int t = 0; t <= period; t++) {
			at.emplace_back();
			for (auto &i : o) {
				at.back().push_back(std::make_pair(i.x, i.y));
				bounce(in.w, i.x, i.dx);
				bounce(in.h, i.y, i.dy);
			}
		}
		if (at[0] != at[period])
			abort();
	}
	const std::vector<std::pair<int,int>> &operator[](int t) const { return at[t % period]; }
};

typedef std::pair<int,int> Pos;

struct Ref : Model<Traffic> {
	const Inst &in;
	Track tr;
	std::vector<std::vector<int>> dist;	// [time in the period][place]: without being sent back
	Ref(const Inst &i) : in(i), tr(i) {
		admissible = false;	// being sent back may lead closer to the goal
		dups = true;		// so that it can be sent back in several ways
		dist.assign(tr.period, std::vector<int>(in.w * in.h, -1));
		std::vector<std::vector<std::vector<Pos>>> rev(tr.period, std::vector<std::vector<Pos>>(in.w * in.h));
		std::vector<std::pair<int,int>> q;
		for (int t = 0; t < tr.period; t++) {
			for (int p = 0; p < in.w * in.h; p++)
				for (auto &n : moves(Pos(p % in.w, p / in.w), t))
					if (!n.second)
						rev[(t + 1) % tr.period][n.first.second * in.w + n.first.first].push_back(Pos(t, p));
			dist[t][in.gy * in.w + in.gx] = 0;
			q.push_back(Pos(t, in.gy * in.w + in.gx));
		}
		for (size_t i = 0; i < q.size(); i++)
			for (auto &r : rev[q[i].first][q[i].second])
				if (dist[r.first][r.second] < 0) {
					dist[r.first][r.second] = dist[q[i].first][q[i].second] + 1;
					q.push_back(r);
				}
	}
	// moves gives the places, and whether an obstacle is hit there.
	std::vector<std::pair<Pos,bool>> moves(Pos p, int t) const {
		static const int dx[] = { 0, 0, -1, 1, 0 }, dy[] = { 1, -1, 0, 0, 0 };
		std::vector<std::pair<Pos,bool>> v;
		for (int i = 0; i < 5; i++) {
			Pos n(p.first + dx[i], p.second + dy[i]);
			if (n.first < 0 || n.second < 0 || n.first >= in.w || n.second >= in.h)
				continue;
			bool swap = false, hit = false;
			for (size_t o = 0; o < in.obs.size(); o++) {
				swap |= tr[t][o] == n && tr[t + 1][o] == p;
				hit |= tr[t + 1][o] == n;
			}
			if (swap)
				mc::count(nedge);
			else
				v.push_back(std::make_pair(n, hit));
		}
		return v;
	}
	static std::string name(int x, int y, int t) { return mc::strf("%d, %d @ %d", x, y, t); }
	std::string key(Traffic &d, Traffic::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); });
		while (!o.empty() && o.back() == '\n')
			o.pop_back();
		return o;
	}
	std::string start() { return name(in.sx, in.sy, 0); }
	std::vector<Next> succ(const std::string &k) {
		int x, y, t;
		if (sscanf(k.c_str(), "%d, %d @ %d", &x, &y, &t) != 3)
			mc::fail("state", "%s is not a state", k.c_str());
		std::vector<Next> v;
		for (auto &n : moves(Pos(x, y), t)) {
			mc::count(nhits, n.second);
			v.push_back(Next{ n.second ? start() : name(n.first.first, n.first.second, t + 1), 1 });
		}
		return v;
	}
	bool goal(const std::string &k) {
		int x, y, t;
		sscanf(k.c_str(), "%d, %d @ %d", &x, &y, &t);
		return x == in.gx && y == in.gy;
	}
};

// Much later the moves are the same as at the same time of the period.
static void late(const Inst &in, Traffic &d, Ref &m) {
	static const int from[] = { 31, 63, 127, 255, 1023, 4095, 65535, 1000000 };
	for (int t0 : from)
		for (int t = t0; t < t0 + 3; t++)
			for (int p = 0; p < in.w * in.h; p += 1 + in.w * in.h / 16) {
				Traffic::State s(p, t);
				std::string k = m.key(d, s);
				MC_CHECK(k == m.name(p % in.w, p / in.w, t), "late", "place %d at %d is %s", p, t, k.c_str());
				std::multiset<std::string> want, got;
				for (auto &n : m.succ(k))
					want.insert(n.key);
				Traffic::Operators ops(d, s);
				for (unsigned int i = 0; i < ops.size(); i++) {
					Traffic::Edge e(d, s, ops[i]);
					MC_CHECK(e.cost == Traffic::Cost(1), "late", "operator %d at %s costs %g", ops[i], k.c_str(), (double) e.cost);
					got.insert(m.key(d, e.state));
				}
				std::string w, g;
				for (auto &x : want)
					w += x + "; ";
				for (auto &x : got)
					g += x + "; ";
				MC_CHECK(got == want, "late", "the successors of %s are %s not %s", k.c_str(), g.c_str(), w.c_str());
				mc::transitions(got.size());
				mc::count(nlate);
			}
}

static void one(const Inst &in, bool solves, int most = 0) {
	if (!mc::begin([&] { return in.str(); }))
		return;
	Memfile f(in.text());
	Traffic d((FILE*) f);
	std::string o = dumped([&](FILE *f) { d.output(f); });
	Inst got;
	std::istringstream is(o);
	is >> got.sx >> got.sy >> got.gx >> got.gy >> got.w >> got.h;
	Obst ob;
	while (is >> ob.x >> ob.y >> ob.dx >> ob.dy)
		got.obs.push_back(ob);
	MC_CHECK(is.eof() && got.text() == in.text(), "output", "%s is printed as %s", in.text().c_str(), o.c_str());

	Ref m(in);
	for (size_t i = 0; i < in.obs.size(); i++)
		for (int t = 0; t <= 2 * m.tr.period + 1; t++) {
			auto p = d.map->obstacles[i].positionAt(in.w, in.h, t);
			MC_CHECK(p == m.tr[t][i], "obstacle", "obstacle %zu is at %d,%d at time %d, not %d,%d", i, p.first, p.second, t, m.tr[t][i].first, m.tr[t][i].second);
		}
	Explored<Traffic> x;
	late(in, d, m);
	explore<Traffic>(d, m, most ? most : in.w * in.h * (m.tr.period + 2), x, false);
	mc::count(nexp);
	for (size_t i = 0; i < x.keys.size() && i < x.h.size(); i++) {
		int px, py, t;
		sscanf(x.keys[i].c_str(), "%d, %d @ %d", &px, &py, &t);
		int best = m.dist[t % m.tr.period][py * in.w + px];
		MC_CHECK(x.h[i] >= 0 && (best < 0 || (x.h[i] <= best && x.d[i] <= best)), "admissible", "h is %g and d %g at %s, but the goal is %d steps off",
			x.h[i], x.d[i], x.keys[i].c_str(), best);
	}
	int opt = m.dist[0][in.sy * in.w + in.sx];
	if (opt > abs(in.sx - in.gx) + abs(in.sy - in.gy))
		mc::nontrivial();
	if (!solves)
		return;
	static const std::vector<std::vector<const char*>> algs = {
		{ "astar" }, { "wastar", "-wt", "2" }, { "greedy" }, { "speedy" }, { "idastar" }, { "arastar", "-wt0", "3", "-dwt", "1" },
		{ "bugsy", "-wf", "1", "-wt", "0" },
	};
	FILE *oo = stdout;
	for (auto &a : algs) {
		std::string n = a[0];
		if (opt < 0 && n == "idastar")
			continue;	// deepens without end
		if (most && (n == "idastar" || n == "greedy" || n == "speedy"))
			continue;	// for too long
		bool exact = n == "astar" || n == "idastar" || n == "arastar";
		char *buf = NULL;
		size_t sz = 0;
		stdout = open_memstream(&buf, &sz);
		// Waiting need not end: a search that minds only h may wait forever.
		bool endless = n == "greedy" || n == "speedy";
		double c = solve<Traffic>(d, m, a, opt < 0 ? INFINITY : opt, exact ? 1 : n == "wastar" ? 2 : 1e9, opt < 0 ? 500 : endless ? 2000 : 1000000, endless);
		fclose(stdout);
		stdout = oo;
		std::string text(buf, sz);
		free(buf);
		mc::count(nsolves);
		if (opt < 0 || c < 0) {
			mc::count(nunsolv, opt < 0);
			continue;
		}
		size_t k = text.find("\"controls\"\t\"");
		MC_CHECK(k != std::string::npos, "controls", "no controls in %s", text.c_str());
		k += strlen("\"controls\"\t\"");
		auto v = controlvec(text.substr(k, text.find('"', k) - k));
		MC_CHECK((int) v.size() == (int) c, "controls", "%zu controls for a path of %g steps", v.size(), c);
		Pos p(in.sx, in.sy);
		int t = 0;
		for (auto op : v) {	// S N W E NOP
			static const int dx[] = { 0, 0, -1, 1, 0 }, dy[] = { 1, -1, 0, 0, 0 };
			MC_CHECK(op < 5, "controls", "control %u", op);
			mc::count(nwait, op == 4);
			Pos to(p.first + dx[op], p.second + dy[op]);
			bool ok = false;
			for (auto &n : m.moves(p, t))
				if (n.first == to) {
					ok = true;
					p = n.second ? Pos(in.sx, in.sy) : to;
					t = n.second ? 0 : t + 1;
					break;
				}
			MC_CHECK(ok, "controls", "control %u is not possible at %d,%d at %d", op, p.first, p.second, t);
		}
		MC_CHECK(p == Pos(in.gx, in.gy), "controls", "the controls lead to %d,%d", p.first, p.second);
	}
}

static Obst obst(int w, int h, int i) {
	return Obst{ i / 9 % w, i / 9 / w, i % 3 - 1, i / 3 % 3 - 1 };
}

// Every start, goal and n obstacles.
static void all(int w, int h, int n, bool solves, uint64_t chunk, uint64_t nchunks, uint64_t step = 1) {
	Inst in;
	in.w = w;
	in.h = h;
	int no = w * h * 9;
	uint64_t k = 0;
	std::vector<int> ix(n, 0);
	for (;;) {
		for (int s = 0; s < w * h; s++)
			for (int g = 0; g < w * h; g++, k++) {
				if (k % step || k / step % nchunks != chunk)
					continue;
				in.sx = s % w;
				in.sy = s / w;
				in.gx = g % w;
				in.gy = g / w;
				in.obs.clear();
				for (int i : ix)
					in.obs.push_back(obst(w, h, i));
				one(in, solves);
			}
		int i = 0;	// the next multiset
		while (i < n && ix[i] == no - 1)
			i++;
		if (i == n)
			break;
		ix[i]++;
		for (int j = 0; j < i; j++)
			ix[j] = ix[i];
	}
}

// Larger grids, some obstacles that start anywhere.
static void large(uint64_t chunk, uint64_t nchunks) {
	static const int z[][2] = { { 90, 1 }, { 1, 70 }, { 40, 2 }, { 2, 33 }, { 17, 5 }, { 6, 20 }, { 12, 12 }, { 33, 9 }, { 200, 2 }, { 1, 300 } };
	uint64_t k = 0;
	for (auto &x : z)
		for (int n = 0; n <= 40; n += n < 4 ? 1 : 9)
			for (int v = 0; v < (mc::thorough ? 24 : 4); v++, k++) {
				if (k % nchunks != chunk)
					continue;
				Inst in;
				in.w = x[0];
				in.h = x[1];
				int sz = in.w * in.h, s = v & 1 ? sz - 1 : v * 7 % sz, g = v & 1 ? v * 5 % sz : sz - 1;
				in.sx = s % in.w;
				in.sy = s / in.w;
				in.gx = g % in.w;
				in.gy = g / in.w;
				for (int i = 0; i < n; i++)
					in.obs.push_back(obst(in.w, in.h, (i * 389 + v * 97 + i * i * 31) % (sz * 9)));
				one(in, true, 3000);
			}
}

// The generator's instances can be solved, and are the same for the same seed.
static void generated(uint64_t chunk) {
	FILE *oo = stdout, *oe = stderr;
	for (int w = 2; w <= 5; w++)
		for (int h = 2; h <= 5; h++)
			for (int n = 0; n <= 3; n++)
				for (int seed = chunk; seed < (mc::thorough ? 64 : 16); seed += 8) {
					if (!mc::begin([&] { return mc::strf("randinst %d %d %d %d", w, h, n, seed); }))
						continue;
					std::string out[2];
					bool gaveup = false;
					for (auto &o : out) {
						std::string a[] = { std::to_string(w), std::to_string(h), std::to_string(n), std::to_string(seed) };
						const char *argv[] = { "randinst", a[0].c_str(), a[1].c_str(), a[2].c_str(), a[3].c_str(), NULL };
						char *buf = NULL, *eb = NULL;
						size_t sz = 0, es = 0;
						stderr = open_memstream(&eb, &es);
						stdout = open_memstream(&buf, &sz);
						traffic_randinst_main(5, argv);
						fclose(stdout);
						stdout = oo;
						o.assign(buf, sz);
						free(buf);
						fclose(stderr);
						stderr = oe;
						gaveup |= es > 0;
						free(eb);
					}
					// When it gives up depends on the time.
					MC_CHECK(gaveup || out[0] == out[1], "same", "the same seed gives %s and %s", out[0].c_str(), out[1].c_str());
					Inst in;
					std::istringstream is(out[0]);
					is >> in.sx >> in.sy >> in.gx >> in.gy >> in.w >> in.h;
					Obst ob;
					while (is >> ob.x >> ob.y >> ob.dx >> ob.dy) {
						MC_CHECK(ob.x >= 0 && ob.y >= 0 && ob.x < w && ob.y < h && abs(ob.dx) <= 1 && abs(ob.dy) <= 1, "generated", "an obstacle at %d,%d", ob.x, ob.y);
						in.obs.push_back(ob);
					}
					MC_CHECK(is.eof() && in.w == w && in.h == h && (int) in.obs.size() == n, "generated", "the instance is %s", out[0].c_str());
					MC_CHECK(in.sx == 0 && in.sy == 0 && in.gx == w - 1 && in.gy == h - 1, "generated", "from %d,%d to %d,%d", in.sx, in.sy, in.gx, in.gy);
					Ref m(in);
					MC_CHECK(m.dist[0][0] >= 0, "generated", "the instance has no solution: %s", out[0].c_str());
					mc::count(nrand);
					mc::validated();
				}
}

void mc_setup() {
	nexp = mc::counter("instances");
	nlate = mc::counter("late_states");
	nsolves = mc::counter("searches");
	nunsolv = mc::counter("searches_of_unsolvable_instances");
	nhits = mc::counter("moves_that_are_sent_back");
	nedge = mc::counter("moves_refused_for_swapping_places");
	nwait = mc::counter("waits_in_paths");
	nrand = mc::counter("generated_instances");
	mc::suite("one", "every start, goal and obstacle in grids up to 4x3 (thorough: 4x4)", 32, [](uint64_t c) {
		for (int w = 1; w <= 4; w++)
			for (int h = 1; h <= (mc::thorough || w < 4 ? 4 : 3); h++)
				all(w, h, 1, true, c, 32);
	}, 60);
	mc::suite("none", "every start and goal in grids up to 5x5 without obstacles", 4, [](uint64_t c) {
		for (int w = 1; w <= 5; w++)
			for (int h = 1; h <= 5; h++)
				all(w, h, 0, true, c, 4);
	}, 60);
	mc::suite("two", "every two obstacles, start and goal in grids up to 3x2 (every 7th of those in 3x2 and 2x3; thorough: all)", 64, [](uint64_t c) {
		static const int z[][2] = { { 1, 2 }, { 2, 1 }, { 3, 1 }, { 1, 3 }, { 2, 2 }, { 3, 2 }, { 2, 3 } };
		for (auto &x : z)
			all(x[0], x[1], 2, true, c, 64, x[0] * x[1] == 6 && !mc::thorough ? 7 : 1);
	}, 60);
	mc::suite("more", "two obstacles in 3x3 and 4x3, three in 2x2: every 1999th (thorough: 101st)", 64, [](uint64_t c) {
		all(3, 3, 2, true, c, 64, mc::thorough ? 101 : 1999);
		all(4, 3, 2, true, c, 64, mc::thorough ? 499 : 9973);
		all(2, 2, 3, true, c, 64, mc::thorough ? 101 : 1999);
	}, 60);
	mc::suite("large", "grids from 90x1 to 33x9 and 200x2 with up to 40 obstacles, up to 3000 states of each", 32, [](uint64_t c) { large(c, 32); }, 60);
	mc::suite("generated", "instances of the generator for grids from 2x2 to 5x5, with up to 3 obstacles", 8, generated, 60);
}

MC_MAIN
