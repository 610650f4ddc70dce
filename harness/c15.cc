// C15: the sliding-tiles domain is the sliding-tiles puzzle.
#include "domain.hpp"
#include "tiles/mdist.hpp"
#include "tiles/pdb.hpp"
#include <set>

enum { W = WIDTH, H = HEIGHT, N = W * H };

static int ngoals, nsolves, npdb, nbad;

double walltime() { return 1; }
double cputime() { return 1; }

typedef std::vector<int> Board;	// tile at each position

static std::string name(const Board &b) {
	std::string s;
	for (int t : b)
		s += 'a' + t;
	return s;
}

// inst gives the instance file: the position of each tile.
static std::string inst(const Board &init, const Board &goal) {
	std::string s = mc::strf("%d %d\nstarting positions for each tile:\n", W, H);
	for (int g = 0; g < 2; g++) {
		const Board &b = g ? goal : init;
		if (g)
			s += "goal positions:\n";
		std::vector<int> pos(N);
		for (int i = 0; i < N; i++)
			pos[b[i]] = i;
		for (int i = 0; i < N; i++)
			s += mc::strf("%d\n", pos[i]);
	}
	return s;
}

struct Ref : Model<TilesMdist> {
	Board init, fin;
	std::vector<int> gpos;
	Ref(const Board &i, const Board &g) : init(i), fin(g), gpos(N) {
		for (int p = 0; p < N; p++)
			gpos[g[p]] = p;
		consistent = true;
		dadmissible = true;
	}
	std::string key(TilesMdist &d, TilesMdist::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); }), k;
		const char *p = o.c_str();
		for (int i = 0; i < N; i++) {
			char *e;
			long v = strtol(p, &e, 10);
			if (e == p || v < 0 || v >= N)
				return "unreadable: " + o;
			k += 'a' + v;
			p = e;
		}
		return k;
	}
	std::string start() { return name(init); }
	std::vector<Next> succ(const std::string &k) {
		std::vector<Next> v;
		int b = k.find('a');
		static const int dx[4] = { 1, -1, 0, 0 }, dy[4] = { 0, 0, 1, -1 };
		for (int m = 0; m < 4; m++) {
			int x = b % W + dx[m], y = b / W + dy[m];
			if (x < 0 || x >= W || y < 0 || y >= H)
				continue;
			std::string n = k;
			std::swap(n[b], n[y * W + x]);
			v.push_back(Next{n, 1});
		}
		return v;
	}
	bool goal(const std::string &k) { return k == name(fin); }
	double h(const std::string &k) {
		int s = 0;
		for (int p = 0; p < N; p++) {
			int t = k[p] - 'a';
			if (t)
				s += abs(p % W - gpos[t] % W) + abs(p / W - gpos[t] / W);
		}
		return s;
	}
	double d(const std::string &k) { return h(k); }
};

static std::vector<Board> goals() {
	std::vector<Board> g;
	Board b(N);
	for (int i = 0; i < N; i++)
		b[i] = i;
	g.push_back(b);				// blank first
	for (int i = 0; i < N; i++)
		b[i] = (i + 1) % N;
	g.push_back(b);				// blank last
	for (int m : { 5, 7 }) {		// scrambled
		for (int i = 0; i < N; i++)
			b[i] = (i * m + 3) % N;
		std::set<int> s(b.begin(), b.end());
		if ((int) s.size() == N)
			g.push_back(b);
	}
	for (int i = 0; i < N; i++)
		b[i] = N - 1 - i;
	g.push_back(b);
	return g;
}

// walk takes k deterministic moves away from b.
static Board walk(const Board &b0, int k, unsigned salt) {
	Ref r(b0, b0);
	std::string cur = name(b0), prev;
	unsigned x = salt * 2654435761u + 12345;
	for (int i = 0; i < k; i++) {
		auto v = r.succ(cur);
		x = x * 1664525u + 1013904223u;
		std::string n = v[(x >> 16) % v.size()].key;
		if (n == prev)
			n = v[((x >> 16) + 1) % v.size()].key;
		prev = cur;
		cur = n;
	}
	Board b(N);
	for (int i = 0; i < N; i++)
		b[i] = cur[i] - 'a';
	return b;
}

static void space(int gi, const Board &init, const Board &goal, size_t max) {
	if (!mc::begin([&] { return mc::strf("%dx%d from %s to %s", W, H, name(init).c_str(), name(goal).c_str()); }))
		return;
	Memfile f(inst(init, goal));
	TilesMdist d(f);
	Ref r(init, goal);
	Explored<TilesMdist> x;
	explore<TilesMdist>(d, r, max, x);
	if (x.all)
		mc::nontrivial();
	mc::count(ngoals);
}

static void solves(const Board &goal, size_t chunk, size_t nchunks) {
	// Every state up to a distance from the goal is a start.
	Ref r(goal, goal);
	std::vector<std::pair<std::string,int>> q{{name(goal), 0}};
	std::set<std::string> seen{name(goal)};
	int maxd = N == 9 ? (mc::thorough ? 12 : 8) : (mc::thorough ? 8 : 5);
	for (size_t i = 0; i < q.size(); i++) {
		auto p = q[i];
		if (p.second < maxd)
			for (auto &n : r.succ(p.first))
				if (seen.insert(n.key).second)
					q.push_back({n.key, p.second + 1});
		if (i % nchunks != chunk)
			continue;
		if (!mc::begin([&] { return mc::strf("solving %dx%d from %s to %s", W, H, p.first.c_str(), name(goal).c_str()); }))
			continue;
		Board b(N);
		for (int k = 0; k < N; k++)
			b[k] = p.first[k] - 'a';
		Memfile f(inst(b, goal));
		TilesMdist d(f);
		Ref m(b, goal);
		solve<TilesMdist>(d, m, {"astar"}, p.second, 1);
		solve<TilesMdist>(d, m, {"idastar"}, p.second, 1);
		solve<TilesMdist>(d, m, {"wastar", "-wt", "2"}, p.second, 2);
		solve<TilesMdist>(d, m, {"greedy"}, p.second, 1e9);
		mc::count(nsolves, 4);
	}
}

// Sizes that do not fit the program.
static void badsizes() {
	for (int w = 1; w <= 6; w++)
	for (int h = 1; h <= 6; h++) {
		if (w * h > N)
			continue;
		if (!mc::begin([&] { return mc::strf("a %dx%d instance given to a %dx%d program", w, h, W, H); }))
			continue;
		std::string s = mc::strf("%d %d\nstarting positions for each tile:\n", w, h);
		for (int g = 0; g < 2; g++) {
			for (int i = 0; i < w * h; i++)
				s += mc::strf("%d\n", i);
			if (!g)
				s += "goal positions:\n";
		}
		Memfile f(s);
		bool refused = false;
		fatalok = true;
		try {
			TilesMdist d(f);
		} catch (Fatal&) {
			refused = true;
		}
		fatalok = false;
		MC_CHECK(refused == (w != W || h != H), "size", "a %dx%d instance is %s", w, h, refused ? "refused" : "accepted");
		mc::count(nbad);
	}
}

// A pattern database addresses every placement of its tiles separately.
static void pdbs(int k) {
	if (!mc::begin([&] { return mc::strf("%d-tile patterns on %dx%d", k, W, H); }))
		return;
	Tiles::Tile pat[N];
	for (int i = 0; i < k; i++)
		pat[i] = i + 1;
	fflush(stdout);
	int out = dup(1), nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	SparsePdb sp(k, pat);
	CompactPdb cp(k, pat);
	fflush(stdout);
	dup2(out, 1);
	close(out);
	close(nul);
	unsigned long want = 1;
	for (int i = 0; i < k; i++)
		want *= N - i;
	Pdb *ps[2] = { &sp, &cp };
	for (int w = 0; w < 2; w++) {
		Pdb &p = *ps[w];
		MC_CHECK(p.numentries() == want, "pdb", "%lu entries, not %lu", p.numentries(), want);
		std::set<unsigned char*> at;
		std::vector<int> pos(k, 0);
		for (;;) {
			std::set<int> distinct(pos.begin(), pos.end());
			if ((int) distinct.size() == k) {
				Tiles::Pos a[N];
				unsigned char c[N];
				for (int i = 0; i < k; i++)
					a[i] = c[i] = pos[i];
				unsigned char *x = p.poscost(a);
				MC_CHECK(x == p.poscost(c), "pdb", "two addresses of one placement");
				MC_CHECK(*x == 0, "pdb", "an entry is %d at first", *x);
				MC_CHECK(at.insert(x).second, "pdb", "two placements share an entry");
				mc::states();
			}
			int i = 0;
			while (i < k && ++pos[i] == N)
				pos[i++] = 0;
			if (i == k)
				break;
		}
		MC_CHECK(at.size() == want, "pdb", "%zu placements", at.size());
		if (w)
			MC_CHECK(*at.rbegin() - *at.begin() + 1 == (long) want, "pdb", "the compact table is not dense");
		for (auto x : at)	// writable and separate
			*x = (uintptr_t) x * 31 >> 3;
		for (auto x : at)
			MC_CHECK(*x == (unsigned char) ((uintptr_t) x * 31 >> 3), "pdb", "entries overlap");
	}
	mc::count(npdb);
}

void mc_setup() {
	ngoals = mc::counter("instances explored");
	nsolves = mc::counter("searches");
	npdb = mc::counter("patterns");
	nbad = mc::counter("sizes tried");
	static std::vector<Board> g = goals();
	if (N == 9) {
		mc::suite("all", "every state reachable from a start, for several goals (181440 states each)", g.size() * (mc::thorough ? 2 : 1), [](uint64_t c) {
			const Board &goal = g[c % g.size()];
			space(c, walk(goal, 12 + 3 * c, c), goal, 1000000);
		}, 120);
	} else {
		mc::suite("part", "states breadth first from starts 0 to 60 moves from several goals", 12, [](uint64_t c) {
			for (size_t i = 0; i < g.size(); i++)
				space(c, walk(g[i], c * 5, c + i), g[i], mc::thorough ? 20000 : 1500);
		}, 60);
	}
	mc::suite("solve", "A*, IDA*, weighted A* and greedy search from every state near the goal", 16, [](uint64_t c) {
		for (auto &b : g)
			solves(b, c, 16);
	});
	mc::suite("sizes", "instances of every size up to 6 by 6", 1, [](uint64_t) { badsizes(); });
	mc::suite("pdb", "pattern databases: every placement of 1 to 4 tiles", mc::thorough ? 4 : 3, [](uint64_t c) { pdbs(c + 1); }, 60);
}

MC_MAIN
