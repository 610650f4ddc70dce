// C23: the platform game: motion, states, heuristic, searches.
#include "domain.hpp"
#include "plat2d/plat2d.hpp"
#include "search/rrt.hpp"
#include <set>

double walltime() { return 1; }
double cputime() { return 1; }

static int nlevels, nmoves, nblocked, nlanded, nbumped, nfreemv, nsolves, nunsolv, nlevsolv, nh, nrev, nrrt, nwater;

// Level is a grid of tiles, with a wall around it.
struct Level {
	int w, h;	// with the wall
	std::vector<std::string> rows;
	bool solid(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h || rows[y][x] == '#'; }
	char tile(double px, double py) const { return rows[(int) (py / 32)][(int) (px / 32)]; }
	bool water(double px, double py) const {
		char c = tile(px, py);
		return c == 'w' || c == 'D' || c == 'U';
	}
	std::string text() const {
		std::string s = mc::strf("1 %d %d 0\n", w, h);
		for (auto &r : rows)
			s += r + "\n";
		return s;
	}
	std::string str() const {
		std::string s;
		for (auto &r : rows)
			s += r + "/";
		return s;
	}
	bool find(char a, char b, int &gx, int &gy) const {
		for (gy = 0; gy < h; gy++)
			for (gx = 0; gx < w; gx++)
				if (rows[gy][gx] == a || rows[gy][gx] == b)
					return true;
		return false;
	}
};

// The player: a box of 21 by 29 pixels.
struct Pl {
	double x, y, dy;
	int jf;
	bool fall;
};
static const double PW = 21, PH = 29, Speed = 3.25, Jump = 8, MaxFall = 12;

static std::string show(const Pl &p) { return mc::strf("%g,%g dy %g jump %d %s", p.x, p.y, p.dy, p.jf, p.fall ? "falling" : "on the ground"); }
static bool same(const Pl &a, const Pl &b) {
	return near(a.x, b.x, 1e-9) && near(a.y, b.y, 1e-9) && fabs(a.dy - b.dy) < 1e-9 && a.jf == b.jf && a.fall == b.fall;
}

// overlap of the box at (x,y) with solid tiles: how deep, in x or in y.
static double depth(const Level &l, double x, double y, bool inx) {
	double worst = 0;
	for (int i = (int) floor(x / 32) - 1; i <= (x + PW) / 32 + 1; i++)
	for (int j = (int) floor(y / 32) - 1; j <= (y + PH) / 32 + 1; j++) {
		if (!l.solid(i, j))
			continue;
		double ox = std::min(x + PW, 32.0 * (i + 1)) - std::max(x, 32.0 * i);
		double oy = std::min(y + PH, 32.0 * (j + 1)) - std::max(y, 32.0 * j);
		if (ox > 1e-9 && oy > 1e-9)
			worst = std::max(worst, inx ? ox : oy);
	}
	return worst;
}
static bool overlaps(const Level &l, double x0, double y0, double x1, double y1) {
	for (int i = (int) floor(x0 / 32) - 1; i <= x1 / 32 + 1; i++)
	for (int j = (int) floor(y0 / 32) - 1; j <= y1 / 32 + 1; j++)
		if (l.solid(i, j) && x0 < 32 * (i + 1) - 1e-9 && x1 > 32 * i + 1e-9 && y0 < 32 * (j + 1) - 1e-9 && y1 > 32 * j + 1e-9)
			return true;
	return false;
}

// piece gives the next part of a motion: to the next whole pixel, or what is left.
static double piece(double at, double left) {
	if (left == 0)
		return 0;
	double d = left > 0 ? ceil(at) - at : at - floor(at);
	if (d == 0)
		d = 1;
	d = std::min(d, fabs(left));
	return left > 0 ? d : -d;
}

// controls gives the velocities of the frame.
static void controls(const Level &l, Pl &p, int a, double &dx) {
	if (!(a & 4) && p.fall) {
		if (p.dy < 0)
			p.dy = std::min(0.0, p.dy + (8 - p.jf));	// the jump is cut short
		p.jf = 0;
	} else if ((a & 4) && !p.fall) {
		p.dy = -Jump;
		p.fall = true;
		p.jf = 8;
	}
	dx = (a & 1 ? -Speed : 0) + (a & 2 ? Speed : 0);
	if (l.water(p.x + PW / 2, p.y + PH / 2))
		dx *= 0.7;
}

// settle gives the state of the motion after it went.
static void settle(const Level &l, Pl &p, bool contact) {
	if (p.dy > 0 && contact && p.fall)
		p.fall = false;
	else if (p.dy < 0 && contact) {
		p.dy = 0;
		p.fall = true;
	}
	if (!contact && !p.fall) {
		p.dy = 0;
		p.fall = true;
	}
	if (p.fall && p.dy < MaxFall)
		p.dy = std::min(MaxFall + 0.0, p.dy + (l.water(p.x + PW / 2, p.y + PH / 2) ? 0.25 : 0.5));
	if (p.jf > 0)
		p.jf--;
}

// act is the reference: both ways at once in pieces of at most a pixel, each stopped by what is in its way.
static Pl act(const Level &l, Pl p, int a) {
	double vx, tx, ty;
	controls(l, p, a, vx);
	double vy = p.dy;
	bool contact = false;
	tx = fabs(vx);
	ty = fabs(vy);
	while (tx > 0 || ty > 0) {
		double dx = piece(p.x, vx), dy = piece(p.y, vy);
		tx -= fabs(dx);
		ty -= fabs(dy);
		if (dy != 0) {
			double o = depth(l, p.x, p.y + dy, false);
			if (o > 0)
				contact = true;
			dy -= dy > 0 ? o : -o;
		}
		if (dx != 0) {
			double o = depth(l, p.x + dx, p.y + dy, true);
			dx -= dx > 0 ? o : -o;
		}
		p.x += dx;
		p.y += dy;
		vx -= dx;
		vy -= dy;
	}
	settle(l, p, contact);
	return p;
}

// lawful checks a frame for what must hold in any case.
static void lawful(const Level &l, const Pl &s, int a, const Pl &n) {
	std::string desc;
	auto d = [&] { return (desc = mc::strf("%d at %s leads to %s", a, show(s).c_str(), show(n).c_str())).c_str(); };
	Pl p = s;
	double vx;
	controls(l, p, a, vx);
	double vy = p.dy, dx = n.x - s.x, dy = n.y - s.y;
	MC_CHECK(!overlaps(l, n.x, n.y, n.x + PW, n.y + PH), "penetrate", "%s: into a block", d());
	MC_CHECK(dx * vx >= -1e-9 && dy * vy >= -1e-9 && fabs(dx) <= fabs(vx) + 1e-9 && fabs(dy) <= fabs(vy) + 1e-9, "speed",
		"%s: the velocity was %g,%g", d(), vx, vy);
	double x0 = std::min(s.x, s.x + vx), x1 = std::max(s.x, s.x + vx) + PW, y0 = std::min(s.y, s.y + vy), y1 = std::max(s.y, s.y + vy) + PH;
	if (!overlaps(l, x0, y0, x1, y1)) {
		mc::count(nfreemv);
		MC_CHECK(near(dx, vx, 1e-9) && near(dy, vy, 1e-9), "free motion", "%s: nothing was in the way of %g,%g", d(), vx, vy);
	}
	bool stopx = fabs(dx) < fabs(vx) - 1e-9, stopy = fabs(dy) < fabs(vy) - 1e-9;
	double ya = std::min(s.y, n.y), yb = std::max(s.y, n.y) + PH, xa = std::min(s.x, n.x), xb = std::max(s.x, n.x) + PW;
	if (stopx) {
		mc::count(nblocked);
		double e = vx > 0 ? n.x + PW : n.x;
		MC_CHECK(overlaps(l, e - 1, ya - 1, e + 1, yb + 1), "stopped", "%s: it was stopped and nothing is beside it", d());
	}
	if (stopy) {
		double e = vy > 0 ? n.y + PH : n.y;
		MC_CHECK(overlaps(l, xa - 1, e - 1, xb + 1, e + 1), "stopped", "%s: it was stopped and nothing is above or below it", d());
		mc::count(vy > 0 ? nlanded : nbumped);
		if (!stopx && dx == 0)
			MC_CHECK(near(e, 32 * round(e / 32), 1e-9), "flush", "%s: it is not flush with what stopped it", d());
	}
	p.x = n.x;
	p.y = n.y;
	// It may have been stopped for a part of the frame only.
	Pl q = p;
	settle(l, p, stopy);
	settle(l, q, true);
	bool sure = vx == 0 || !overlaps(l, x0, y0, x1, y1);
	MC_CHECK(same(p, n) || (!sure && same(q, n)), "settle", "%s: it should be %s", d(), show(p).c_str());
}

// from and to the real player
static Pl pl(const Player &p) {
	MC_CHECK(near(p.body.bbox.max.x - p.body.bbox.min.x, PW, 1e-9) && near(p.body.bbox.max.y - p.body.bbox.min.y, PH, 1e-9), "size", "the player is %g by %g",
		p.body.bbox.max.x - p.body.bbox.min.x, p.body.bbox.max.y - p.body.bbox.min.y);
	return Pl{ p.body.bbox.min.x, p.body.bbox.min.y, p.body.dy, p.jframes, p.body.fall };
}

struct Key {
	double x, y, dy;
	int o;
	bool operator==(const Key &k) const { return x == k.x && y == k.y && dy == k.dy && o == k.o; }
};
struct KeyHash {
	size_t operator()(const Key &k) const {
		auto mix = [](double d) { uint64_t u; d += 0.0; memcpy(&u, &d, 8); return u; };
		uint64_t h = mix(k.x) * 0x9E3779B97F4A7C15ULL;
		h = (h ^ h >> 29 ^ mix(k.y)) * 0xBF58476D1CE4E5B9ULL;
		h = (h ^ h >> 31 ^ mix(k.dy)) * 0x94D049BB133111EBULL;
		return h ^ h >> 32 ^ k.o;
	}
};
static double rnd(double d) { return round(d * 1e7) / 1e7; }
static Key key(const Pl &p) { return Key{ rnd(p.x), rnd(p.y), rnd(p.dy), p.jf * 2 + p.fall }; }

// Space is the state space from the start: of the reference, as far as max states.
struct Space {
	std::vector<Pl> states;
	std::unordered_map<Key,int,KeyHash> index;
	std::vector<std::vector<int>> rev;
	std::vector<int> depth;
	std::vector<std::unique_ptr<Plat2d::PackedState>> packed;
	bool all;
};

static const int acts[] = { 1, 2, 4, 5, 6, 0 };	// the last is not among those of the domain

static void explorelevel(const Level &l, Plat2d &d, size_t max, Space &sp) {
	auto add = [&](const Pl &p, std::unique_ptr<Plat2d::PackedState> &pk, int dep) {
		auto r = sp.index.insert(std::make_pair(key(p), (int) sp.states.size()));
		if (r.second) {
			sp.states.push_back(p);
			sp.rev.emplace_back();
			sp.depth.push_back(dep);
			sp.packed.push_back(std::move(pk));
		}
		return r.first->second;
	};
	int sx, sy;
	l.find('u', 'U', sx, sy);
	Pl start = { sx * 32.0 + 7, sy * 32.0 + 2, 0, 0, false };
	Plat2d::State s0 = d.initialstate();
	MC_CHECK(same(pl(s0.player), start), "start", "the player starts at %s", show(pl(s0.player)).c_str());
	std::unique_ptr<Plat2d::PackedState> pk(new Plat2d::PackedState());
	d.pack(*pk, s0);
	add(start, pk, 0);
	sp.all = true;
	for (size_t i = 0; i < sp.states.size(); i++) {
		if (i >= max) {
			sp.all = false;
			break;
		}
		mc::states();
		Pl p = sp.states[i];
		Plat2d::State buf, &s = d.unpack(buf, *sp.packed[i]);
		MC_CHECK(same(pl(s.player), p), "pack", "%s is unpacked as %s", show(p).c_str(), show(pl(s.player)).c_str());
		std::vector<int> ops;
		{
			Plat2d::Operators os(d, s);
			for (unsigned int o = 0; o < os.size(); o++)
				ops.push_back(os[o]);
		}
		std::set<int> reach, listed;
		for (int o : ops) {
			mc::transitions();
			mc::count(nmoves);
			MC_CHECK(o > 0 && o < 8, "operators", "operator %d", o);
			Plat2d::Edge e(d, s, o);
			Pl n = pl(e.state.player), want = act(l, p, o);
			lawful(l, p, o, n);
			MC_CHECK(same(n, want), "motion", "%d at %s leads to %s, not %s", o, show(p).c_str(), show(n).c_str(), show(want).c_str());
			MC_CHECK(e.cost == 1, "cost", "a frame costs %d", e.cost);
			std::unique_ptr<Plat2d::PackedState> q(new Plat2d::PackedState());
			d.pack(*q, e.state);
			Plat2d::PackedState *qp = q.get();
			size_t had = sp.states.size();
			int j = add(want, q, sp.depth[i] + 1);
			if (sp.states.size() == had) {	// seen before
				MC_CHECK(qp->eq(&d, *sp.packed[j]), "eq", "%s is not equal to itself", show(n).c_str());
				if (qp->x == sp.packed[j]->x && qp->y == sp.packed[j]->y && qp->dy == sp.packed[j]->dy)
					MC_CHECK(qp->hash(&d) == sp.packed[j]->hash(&d), "hash", "%s has two hash values", show(n).c_str());
			}
			if (j != (int) i)
				MC_CHECK(!sp.packed[j]->eq(&d, *sp.packed[i]), "eq", "%s equals %s", show(n).c_str(), show(p).c_str());
			sp.rev[j].push_back(i);
			listed.insert(j);
			MC_CHECK(same(pl(s.player), p), "edge", "%d at %s changed the state to %s", o, show(p).c_str(), show(pl(s.player)).c_str());
			if (e.revop != Plat2d::Nop) {
				mc::count(nrev);
				Plat2d::Edge r(d, e.state, e.revop);
				MC_CHECK(same(pl(r.state.player), p), "reverse", "%d at %s leads to %s, but its reverse to %s", o, show(p).c_str(),
					show(n).c_str(), show(pl(r.state.player)).c_str());
				MC_CHECK(r.cost == e.revcost, "reverse", "the reverse costs %d, not %d", r.cost, e.revcost);
			}
		}
		// Each frame that begins with some control is among them.
		for (int o : acts) {
			Pl want = act(l, p, o);
			if (o == 0) {
				auto id = d.ident(s);
				bool stays = same(want, p);
				MC_CHECK(stays ? id.first == 0 && id.second == 1 : id.first == Plat2d::Nop, "ident", "the identity at %s is %d", show(p).c_str(), id.first);
				continue;
			}
			auto it = sp.index.find(key(want));
			MC_CHECK(it != sp.index.end() && listed.count(it->second), "operators", "no operator of %s has the effect of %d, which leads to %s",
				show(p).c_str(), o, show(want).c_str());
		}
		mc::validated();
	}
}

// goals checks the level as one of reaching the goal.
static void goals(const Level &l, Plat2d &d, Space &sp, int variant) {
	int gx, gy;
	l.find('d', 'D', gx, gy);
	size_t n = sp.states.size();
	std::vector<int> dist(n, -1);
	std::vector<int> q;
	int opt = -1;
	for (size_t i = 0; i < n; i++) {
		Pl &p = sp.states[i];
		bool g = (int) ((p.x + PW / 2) / 32) == gx && (int) ((p.y + PH / 2) / 32) == gy;
		Plat2d::State buf, &s = d.unpack(buf, *sp.packed[i]);
		MC_CHECK(d.isgoal(s) == g, "goal", "isgoal is %d at %s", !g, show(p).c_str());
		if (g) {
			dist[i] = 0;
			q.push_back(i);
			if (opt < 0 || sp.depth[i] < opt)
				opt = sp.depth[i];
		}
	}
	for (size_t k = 0; k < q.size(); k++)
		for (int j : sp.rev[q[k]])
			if (dist[j] < 0) {
				dist[j] = dist[q[k]] + 1;
				q.push_back(j);
			}
	for (size_t i = 0; i < n; i++) {
		Plat2d::State buf, &s = d.unpack(buf, *sp.packed[i]);
		int h = d.h(s);
		mc::count(nh);
		MC_CHECK(d.d(s) == h && d.h(s) == h, "heuristic", "h is %d, then %d, at %s", h, d.h(s), show(sp.states[i]).c_str());
		MC_CHECK(h >= 0 && (dist[i] != 0 || h == 0), "heuristic", "h is %d at the goal %s", h, show(sp.states[i]).c_str());
		if (dist[i] >= 0)
			MC_CHECK(h <= dist[i], "admissible", "h is %d, but the goal is %d frames from %s", h, dist[i], show(sp.states[i]).c_str());
	}
	mc::count(nlevsolv, opt >= 0);
	if (!sp.all)
		return;
	// searches
	std::vector<std::vector<const char*>> algs = { { "astar" } };
	if (opt >= 0 && variant % 4 == 0) {
		algs.push_back({ "wastar", "-wt", "2" });
		algs.push_back({ "greedy" });
	}
	if (opt >= 0 && variant % 4 == 2)
		algs.push_back({ "rrt", "-s", "7" });
	for (auto &a : algs) {
		std::vector<const char*> args(a);
		args.insert(args.begin(), "x");
		if (a[0] != std::string("rrt")) {
			args.push_back("-expd");
			args.push_back("3000000");
		}
		int argc = args.size();
		args.push_back(NULL);
		auto make = [&] {
			return a[0] == std::string("rrt") ? new RRT<Plat2d>(argc, args.data()) : getsearch<Plat2d>(argc, args.data());
		};
		std::unique_ptr<SearchAlgorithm<Plat2d>> s(make());
		Plat2d::State s0 = d.initialstate();
		s->search(d, s0);
		mc::count(nsolves);
		auto &r = s->res;
		MC_CHECK(r.path.empty() == (opt < 0), "solve", "%s found %s, but the optimum is %d", args[1], r.path.empty() ? "nothing" : "a path", opt);
		if (opt < 0) {
			mc::count(nunsolv);
			continue;
		}
		MC_CHECK(r.path.size() == r.ops.size() + 1, "solve", "%s: %zu states and %zu operators", args[1], r.path.size(), r.ops.size());
		Pl p = sp.states[0];
		MC_CHECK(same(pl(r.path.back().player), p), "solve", "%s: the path does not begin at the start", args[1]);
		for (size_t i = r.ops.size(); i-- > 0; ) {
			p = act(l, p, r.ops[i]);
			MC_CHECK(same(pl(r.path[i].player), p), "solve", "%s: the path goes to %s instead of %s", args[1], show(pl(r.path[i].player)).c_str(), show(p).c_str());
		}
		MC_CHECK((int) ((p.x + PW / 2) / 32) == gx && (int) ((p.y + PH / 2) / 32) == gy, "solve", "%s: the path ends at %s", args[1], show(p).c_str());
		int c = r.ops.size();
		if (a[0] == std::string("astar"))
			MC_CHECK(c == opt, "optimal", "%s: %d frames, the optimum is %d", args[1], c, opt);
		if (a[0] == std::string("wastar"))
			MC_CHECK(c <= 2 * opt, "bound", "%s: %d frames, the optimum is %d", args[1], c, opt);
		// what is printed for the path
		FILE *oo = stdout;
		char *buf = NULL;
		size_t sz = 0;
		FILE *o = open_memstream(&buf, &sz);
		stdout = o;
		int pc = d.pathcost(r.path, r.ops, true);
		fflush(o);
		stdout = oo;
		std::string text(buf, sz);
		fclose(o);
		free(buf);
		MC_CHECK(pc == c, "pathcost", "%s: pathcost is %d, not %d", args[1], pc, c);
		size_t k = text.find("\"controls\"\t\"");
		MC_CHECK(k != std::string::npos, "controls", "no controls in %s", text.c_str());
		k += strlen("\"controls\"\t\"");
		std::vector<unsigned int> v = controlvec(text.substr(k, text.find('"', k) - k));
		std::vector<unsigned int> want(r.ops.rbegin(), r.ops.rend());
		MC_CHECK(v == want, "controls", "%s: %zu controls are read, not the %zu of the path", args[1], v.size(), want.size());
		if (a[0] == std::string("rrt")) {
			mc::count(nrrt);
			std::string out = dumped([&](FILE *f) {
				stdout = f;
				s->output(f);
				stdout = oo;
			});
			MC_CHECK(out.find("\"RRT seed\"\t\"7\"") != std::string::npos, "rrt", "the seed given is not used: %s", out.c_str());
			std::unique_ptr<SearchAlgorithm<Plat2d>> s2(make());
			Plat2d::State s1 = d.initialstate();
			s2->search(d, s1);
			MC_CHECK(s2->res.ops == r.ops, "rrt", "the same seed gives another path");
		}
	}
}

// The free tiles of a level, if they are connected.
static std::vector<std::pair<int,int>> freetiles(const Level &l) {
	std::vector<std::pair<int,int>> v;
	int total = 0;
	for (int y = 0; y < l.h; y++)
		for (int x = 0; x < l.w; x++)
			if (!l.solid(x, y)) {
				total++;
				if (v.empty())
					v.push_back(std::make_pair(x, y));
			}
	std::set<std::pair<int,int>> seen(v.begin(), v.end());
	for (size_t i = 0; i < v.size(); i++) {
		static const int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
		for (int k = 0; k < 4; k++) {
			auto p = std::make_pair(v[i].first + dx[k], v[i].second + dy[k]);
			if (!l.solid(p.first, p.second) && seen.insert(p).second)
				v.push_back(p);
		}
	}
	if ((int) v.size() != total)
		v.clear();
	return v;
}

static Level level(int iw, int ih, unsigned long bits) {
	Level l;
	l.w = iw + 2;
	l.h = ih + 2;
	l.rows.assign(l.h, std::string(l.w, '#'));
	for (int y = 0; y < ih; y++)
		for (int x = 0; x < iw; x++)
			l.rows[y + 1][x + 1] = bits >> (y * iw + x) & 1 ? '#' : ' ';
	return l;
}

// start runs the level from one start, for each goal.
static void start(Level l, std::pair<int,int> s, const std::vector<std::pair<int,int>> &goalsat, size_t max, int variant) {
	Space sp;
	bool first = true;
	bool wet = false;
	for (auto &r : l.rows)
		wet |= r.find('w') != std::string::npos;
	l.rows[s.second][s.first] = l.rows[s.second][s.first] == 'w' ? 'U' : 'u';
	for (auto &g : goalsat) {
		if (g == s)
			continue;
		Level m = l;
		m.rows[g.second][g.first] = m.rows[g.second][g.first] == 'w' ? 'D' : 'd';
		if (!mc::begin([&] { return m.str(); }))
			continue;
		mc::count(nlevels);
		mc::count(nwater, wet);
		Memfile f(m.text());
		Plat2d d((FILE*) f);
		MC_CHECK((int) d.gx == g.first && (int) d.gy == g.second && (int) d.x0 == s.first && (int) d.y0 == s.second, "read", "the start is %u,%u and the goal %u,%u",
			d.x0, d.y0, d.gx, d.gy);
		MC_CHECK((int) d.lvl.width() == m.w && (int) d.lvl.height() == m.h, "read", "the level is %u by %u", d.lvl.width(), d.lvl.height());
		for (int x = 0; x < m.w; x++)
			for (int y = 0; y < m.h; y++)
				MC_CHECK(d.lvl.blocked(x, y) == m.solid(x, y) && d.lvl.at(x, y).tile.c == m.rows[y][x], "read", "the tile at %d,%d is '%c'", x, y, d.lvl.at(x, y).tile.c);
		if (first)
			explorelevel(m, d, max, sp);
		first = false;
		goals(m, d, sp, variant++);
		mc::nontrivial();
	}
}

static void scratch() {
	if (chdir(mc::scratch.c_str()) != 0)
		abort();
}

static void dry(int chunk, int nchunks) {
	scratch();
	static const int sizes[][2] = { { 2, 1 }, { 1, 2 }, { 3, 1 }, { 1, 3 }, { 1, 4 }, { 2, 2 }, { 3, 2 }, { 2, 3 } };
	int k = 0;
	for (auto &z : sizes)
		for (unsigned long b = 0; b < 1UL << (z[0] * z[1]); b++) {
			Level l = level(z[0], z[1], b);
			auto fr = freetiles(l);
			if (fr.size() < 2)
				continue;
			for (auto &s : fr) {
				if (k++ % nchunks != chunk)
					continue;
				start(l, s, fr, mc::thorough ? 3000000 : 400000, k / nchunks);
			}
		}
}

// Larger levels, not in all.
static void large(int chunk, int nchunks) {
	scratch();
	static const char *maps[] = {
		"     #    # # ", "    ##     #  ", " # #   #   #  ", "       ## ##  ",
	};
	int k = 0;
	for (auto m : maps)
		for (int w = 3; w <= 5; w++) {
			Level l = level(w, 3, 0);
			for (int i = 0; i < w * 3 && i < 14; i++)
				if (m[i] == '#')
					l.rows[1 + i / w][1 + i % w] = '#';
			auto fr = freetiles(l);
			for (auto &s : fr) {
				if (k++ % nchunks != chunk)
					continue;
				std::vector<std::pair<int,int>> gs = { fr[0], fr[fr.size() / 2], fr.back() };
				start(l, s, gs, mc::thorough ? 200000 : 8000, 1);
			}
		}
}

// Long corridors and wide shafts, in part: tiles and positions beyond the sizes of small integers.
static void wide(int chunk, int nchunks) {
	scratch();
	int k = 0;
	static const int sizes[][2] = { { 300, 1 }, { 280, 3 }, { 1, 300 }, { 3, 280 } };
	for (auto &z : sizes)
		for (int at : { 3, 125, 252, 270 })
			for (int v = 0; v < 2; v++) {
				if (k++ % nchunks != chunk)
					continue;
				Level l = level(z[0], z[1], 0);
				for (int i = 5; v && i < std::max(z[0], z[1]); i += 7)	// bumps
					if (z[0] > 1 && z[1] > 1)
						l.rows[z[0] > z[1] ? z[1] : 1 + i][z[0] > z[1] ? 1 + i : 1 + i % z[0]] = '#';
				std::pair<int,int> s(z[0] > z[1] ? 1 + at : 1, z[0] > z[1] ? z[1] == 1 ? 1 : 2 : 1 + at);
				if (l.rows[s.second][s.first] == '#')
					s.first++;
				std::vector<std::pair<int,int>> gs = { s, { z[0], 1 } };
				start(l, s, gs, mc::thorough ? 30000 : 2500, k);
			}
}

// Deep shafts, in which falling becomes as fast as it can.
static void shafts(int chunk, int nchunks) {
	scratch();
	int k = 0;
	for (int w = 1; w <= 2; w++)
		for (int h = 7; h <= (mc::thorough ? 16 : 13); h += 3)
			for (int v = 0; v < 4; v++) {	// dry; a pool at its end, at its middle; a ledge
				if (v == 3 && w == 1)
					continue;
				Level l = level(w, h, 0);
				if (v == 1 || v == 2)
					for (int y = v == 1 ? h - 2 : h / 2; y < (v == 1 ? h : h / 2 + 2); y++)
						for (int x = 0; x < w; x++)
							l.rows[1 + y][1 + x] = 'w';
				if (v == 3)
					l.rows[1 + h - 3][2] = '#';
				auto fr = freetiles(l);
				for (size_t i : { (size_t) 0, fr.size() / 2 }) {
					if (k++ % nchunks != chunk)
						continue;
					start(l, fr[i], { fr.back() }, mc::thorough ? 200000 : w == 1 ? 30000 : 12000, k);
				}
			}
}

static void water(int chunk, int nchunks) {
	scratch();
	int k = 0;
	static const int sizes[][2] = { { 2, 1 }, { 1, 3 }, { 2, 2 }, { 3, 2 } };
	for (auto &z : sizes) {
		unsigned long total = 1;
		for (int i = 0; i < z[0] * z[1]; i++)
			total *= 3;
		for (unsigned long b = 0; b < total; b++) {
			Level l = level(z[0], z[1], 0);
			unsigned long r = b;
			bool wet = false;
			for (int i = 0; i < z[0] * z[1]; i++, r /= 3) {
				l.rows[1 + i / z[0]][1 + i % z[0]] = " #w"[r % 3];
				wet |= r % 3 == 2;
			}
			auto fr = freetiles(l);
			if (!wet || fr.size() < 2)
				continue;
			for (auto &s : fr) {
				if (k++ % nchunks != chunk)
					continue;
				std::vector<std::pair<int,int>> gs = { fr[0], fr.back() };
				start(l, s, gs, mc::thorough ? 30000 : 1000, 1);
			}
		}
	}
}

// Levels that are not well formed are refused; controls are read as they were written.
static void other(int chunk, int nchunks) {
	scratch();
	if (chunk == 0) {
		struct { const char *about; std::string text; bool ok; } ls[] = {
			{ "two starts", "1 4 3 0\n####\n#uu#\n####\n", false },
			{ "two goals", "1 5 3 0\n#####\n#udd#\n#####\n", false },
			{ "no start", "1 4 3 0\n####\n#d #\n####\n", false },
			{ "no goal", "1 4 3 0\n####\n# u#\n####\n", false },
			{ "wide", "1 5 3 0\n#####\n#u d#\n#####\n", true },
			{ "tall", "1 3 5 0\n###\n#u#\n# #\n#d#\n###\n", true },
			{ "depth", "2 4 3 0\n####\n#ud#\n####\n", false },
			{ "tile", "1 4 3 0\n####\n#ux#\n####\n", false },
			{ "short", "1 4 3 0\n####\n#ud#\n###\n", false },
			{ "end", "1 4 4 0\n####\n#ud#\n####\n", false },
		};
		for (auto &x : ls) {
			if (!mc::begin([&] { return x.about; }))
				continue;
			fatalok = true;
			bool ok = true;
			Memfile f(x.text);
			try {
				Plat2d d((FILE*) f);
			} catch (Fatal &e) {
				ok = false;
			}
			fatalok = false;
			MC_CHECK(ok == x.ok, "refuse", "the level with %s was %s", x.about, ok ? "accepted" : "refused");
			mc::nontrivial();
		}
	}
	// all short sequences, and long runs
	for (int len = 0; len <= (mc::thorough ? 8 : 6); len++) {
		long total = 1;
		for (int i = 0; i < len; i++)
			total *= 5;
		for (long c = chunk; c < total; c += nchunks) {
			if (!mc::begin([&] { return mc::strf("controls %d/%ld", len, c); }))
				continue;
			std::vector<unsigned int> v;
			for (long i = 0, r = c; i < len; i++, r /= 5)
				v.push_back(acts[r % 5]);
			MC_CHECK(controlvec(controlstr(v)) == v, "controls", "controls %d/%ld are read as others", len, c);
		}
	}
	for (int n = chunk; n < 600; n += nchunks)
		for (int a : acts) {
			if (!mc::begin([&] { return mc::strf("%d times %d", n, a); }))
				continue;
			std::vector<unsigned int> v(n, a);
			v.push_back(6);
			MC_CHECK(controlvec(controlstr(v)) == v, "controls", "%d times %d is read as other controls", n, a);
		}
}

void mc_setup() {
	nlevels = mc::counter("levels");
	nmoves = mc::counter("frames");
	nblocked = mc::counter("frames_stopped_sideways");
	nlanded = mc::counter("frames_stopped_below");
	nbumped = mc::counter("frames_stopped_above");
	nfreemv = mc::counter("frames_with_nothing_in_the_way");
	nsolves = mc::counter("searches");
	nunsolv = mc::counter("unsolvable");
	nlevsolv = mc::counter("levels_with_reachable_goal");
	nh = mc::counter("estimates");
	nrev = mc::counter("reversed_frames");
	nrrt = mc::counter("rrt_searches");
	nwater = mc::counter("levels_with_water");
	mc::suite("dry", "all small levels without water, every start and goal, all states", 128, [](int c) { dry(c, 128); });
	mc::suite("large", "some larger levels, in part", 64, [](int c) { large(c, 64); });
	mc::suite("shafts", "deep shafts, dry, with water, and with a ledge", 24, [](int c) { shafts(c, 24); });
	mc::suite("wide", "corridors and shafts of 280 and 300 tiles, in part", 32, [](int c) { wide(c, 32); });
	mc::suite("water", "all small levels with water, in part", 64, [](int c) { water(c, 64); });
	mc::suite("other", "malformed levels and control strings", 16, [](int c) { other(c, 16); });
}

MC_MAIN
