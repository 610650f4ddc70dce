// C17: the vacuum world.
#include "domain.hpp"
#include "vacuum/vacuum.hpp"
#include <set>

static int nexp, nsolves, nunsolv, nplans;

double walltime() { return 1; }
double cputime() { return 1; }

struct Ref : Model<Vacuum> {
	std::vector<std::string> rows;
	std::vector<std::pair<int,int>> dirt;
	int w, h_, x0, y0;
	Ref(const std::vector<std::string> &r) : rows(r), w(r[0].size()), h_(r.size()) {
		for (int y = 0; y < h_; y++)
		for (int x = 0; x < w; x++) {
			if (rows[y][x] == '*')
				dirt.push_back(std::make_pair(x, y));
			if (rows[y][x] == '@') {
				x0 = x;
				y0 = y;
			}
		}
		dadmissible = true;
	}
	// a state is "x,y:" and a 0 or 1 for each dirty cell
	std::string name(int x, int y, const std::string &bits) { return mc::strf("%d,%d:%s", x, y, bits.c_str()); }
	std::string key(Vacuum &d, Vacuum::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); });
		int x, y, en, nd, n = 0;
		if (sscanf(o.c_str(), "(%d, %d), energy=%d, ndirt=%d%n", &x, &y, &en, &nd, &n) != 4)
			return "unreadable: " + o;
		std::string bits;
		for (char c : o.substr(n))
			if (c != ' ')
				bits += c;
		int cnt = std::count(bits.begin(), bits.end(), '1');
		if (cnt != nd)
			return "wrong ndirt: " + o;
		return name(x - 1, y - 1, bits);	// there is a border
	}
	std::string start() { return name(x0, y0, std::string(dirt.size(), '1')); }
	std::vector<Next> succ(const std::string &k) {
		int x, y, n;
		sscanf(k.c_str(), "%d,%d:%n", &x, &y, &n);
		std::string bits = k.substr(n);
		std::vector<Next> v;
		for (size_t i = 0; i < dirt.size(); i++)
			if (dirt[i] == std::make_pair(x, y) && bits[i] == '1') {
				std::string b = bits;
				b[i] = '0';
				v.push_back(Next{name(x, y, b), 1});
			}
		static const int dx[4] = { 1, -1, 0, 0 }, dy[4] = { 0, 0, 1, -1 };
		for (int m = 0; m < 4; m++) {
			int nx = x + dx[m], ny = y + dy[m];
			if (nx >= 0 && nx < w && ny >= 0 && ny < h_ && rows[ny][nx] != '#')
				v.push_back(Next{name(nx, ny, bits), 1});
		}
		return v;
	}
	bool goal(const std::string &k) { return k.find('1', k.find(':')) == std::string::npos; }
};

template <class Alg> static void follow(Vacuum &d, Ref &m, const std::vector<std::string> &rows, std::vector<const char*> args, double opt);

static void one(const std::vector<std::string> &rows, bool solves, size_t most = 1000000) {
	int w = rows[0].size(), h = rows.size();
	std::string text = mc::strf("%d\n%d\n", w, h), flat;
	for (auto &r : rows) {
		text += r + "\n";
		flat += r + "/";
	}
	if (!mc::begin([&] { return mc::strf("%dx%d %s", w, h, flat.substr(0, 2000).c_str()); }))
		return;
	Memfile f(text);
	Vacuum d(f);
	Ref m(rows);
	Explored<Vacuum> x;
	explore<Vacuum>(d, m, most, x);
	mc::count(nexp);
	if (!x.all && w * h > 300)	// too much to clean
		return;
	if (!x.all) {
		solve<Vacuum>(d, m, {"greedy"}, m.dirt.size(), 1e9);	// at least one step for each
		follow<Greedy<Vacuum>>(d, m, rows, {"x", "greedy"}, NAN);
		mc::nontrivial();
		return;
	}
	if (std::isinf(x.dist[0]))
		mc::count(nunsolv);
	else
		mc::nontrivial();
	if (!solves)
		return;
	solve<Vacuum>(d, m, {"astar"}, x.dist[0], 1);
	solve<Vacuum>(d, m, {"wastar", "-wt", "3"}, x.dist[0], 3);
	solve<Vacuum>(d, m, {"greedy"}, x.dist[0], 1e9);
	if (!std::isinf(x.dist[0]))
		solve<Vacuum>(d, m, {"idastar"}, x.dist[0], 1);
	mc::count(nsolves, 3);

	follow<Astar<Vacuum>>(d, m, rows, {"x", "astar"}, x.dist[0]);
}

// The printed plan cleans the world.
template <class Alg> static void follow(Vacuum &d, Ref &m, const std::vector<std::string> &rows, std::vector<const char*> args, double opt) {
	int w = rows[0].size(), h = rows.size();
	int n = args.size();
	args.push_back(NULL);
	Alg a(n, args.data());
	auto s0 = d.initialstate();
	a.search(d, s0);
	std::string plan = dumped([&](FILE *f) { d.printpath(f, a.res.ops); });
	int px = m.x0, py = m.y0, steps = 0;
	std::set<std::pair<int,int>> left(m.dirt.begin(), m.dirt.end());
	for (size_t i = 0; i < plan.size(); i += 2) {
		char c = plan[i];
		MC_CHECK(i + 1 < plan.size() && plan[i+1] == '\n', "plan", "a line of the plan is not one letter");
		if (c == 'V') {
			MC_CHECK(left.erase(std::make_pair(px, py)), "plan", "step %d cleans %d,%d, which is clean", steps, px, py);
		} else {
			MC_CHECK(strchr("NSEW", c), "plan", "step %d is %c", steps, c);
			px += (c == 'E') - (c == 'W');
			py += (c == 'S') - (c == 'N');
			MC_CHECK(px >= 0 && py >= 0 && px < w && py < h && rows[py][px] != '#', "plan", "step %d moves to %d,%d", steps, px, py);
		}
		steps++;
	}
	if (a.res.path.size()) {
		MC_CHECK(left.empty(), "plan", "the printed plan leaves %zu cells dirty", left.size());
		MC_CHECK(std::isnan(opt) || steps == (int) opt, "plan", "the printed plan has %d steps, not %g", steps, opt);
		mc::count(nplans);
	}
}

// Every world of w by h cells.
static void worlds(int w, int h, uint64_t chunk, uint64_t nchunks, bool solves) {
	int n = w * h;
	uint64_t per = 1;
	for (int i = 1; i < n; i++)
		per *= 3;
	for (uint64_t c = chunk; c < per * n; c += nchunks) {
		std::vector<std::string> rows(h, std::string(w, '_'));
		uint64_t x = c / n;
		for (int i = 0; i < n; i++) {
			char &ch = rows[i / w][i % w];
			if (i == (int) (c % n)) {
				ch = '@';
				continue;
			}
			ch = "_*#"[x % 3];
			x /= 3;
		}
		one(rows, solves);
	}
}

void mc_setup() {
	nexp = mc::counter("worlds explored");
	nsolves = mc::counter("searches");
	nunsolv = mc::counter("worlds that cannot be cleaned");
	nplans = mc::counter("plans followed");
	static const int sz[][2] = { { 1, 1 }, { 2, 1 }, { 1, 3 }, { 4, 1 }, { 2, 2 }, { 3, 2 }, { 2, 3 }, { 7, 1 } };
	for (int i = 0; i < 8; i++)
		mc::suite(mc::strf("w%dx%d", sz[i][0], sz[i][1]).c_str(), "every world of this size: each cell free, dirty, blocked or the start", i < 5 ? 1 : 8,
			[=](uint64_t c) { worlds(sz[i][0], sz[i][1], c, i < 5 ? 1 : 8, true); });
	if (mc::thorough) {
		mc::suite("w3x3", "every 3x3 world", 64, [](uint64_t c) { worlds(3, 3, c, 64, false); });
		mc::suite("w4x2", "every 4x2 world", 64, [](uint64_t c) { worlds(4, 2, c, 64, true); });
	}
	mc::suite("big", "larger worlds with fixed layouts", 4, [](uint64_t c) {
		static const char *big[4][4] = {
			{ "@__*", "_#_#", "*__*", "_#__" }, { "*_*_", "_##_", "*@_*", "____" },
			{ "****", "*@**", "****", NULL }, { "*#*_*", "__@__", "*_#_*", NULL } };
		std::vector<std::string> rows;
		for (int i = 0; i < 4 && big[c][i]; i++)
			rows.push_back(big[c][i]);
		one(rows, true);
	}, 60);
	mc::suite("corridors", "corridors of 20 to 60 cells with up to 9 dirty cells", 16, [](uint64_t c) {
		for (int v = c; v < 64; v += 16) {
			int n = 20 + v % 5 * 10, nd = 4 + v % 6;
			std::string row(n, '_');
			for (int i = 0; i < nd; i++)
				row[(i * (v + 3) * 7 + v) % n] = '*';
			row[(v * 11 + 5) % n] = '@';
			std::vector<std::string> rows;
			if (v & 1)
				for (char ch : row)
					rows.push_back(std::string(1, ch));
			else if (v & 2) {	// a hairpin
				rows = { row.substr(0, n / 2), std::string(n / 2 - 1, '#') + '_', std::string(row.rbegin(), row.rbegin() + n / 2) };
			} else
				rows.push_back(row);
			one(rows, true, 40000);
		}
	}, 60);
	mc::suite("dirty", "worlds of up to 40x30 cells with up to 400 dirty ones, and of 66500 cells with 7, in part", 16, [](uint64_t c) {
		static const int z[][2] = { { 9, 7 }, { 16, 16 }, { 40, 30 }, { 3, 50 } };
		for (int v = c; v < 34; v += 16) {
			bool huge = v >= 32;	// numbers of cells that need more than 16 bits
			int w = huge ? v == 32 ? 300 : 7 : z[v % 4][0], h = huge ? v == 32 ? 230 : 9500 : z[v % 4][1], every = huge ? 9973 : 3 + v / 4 % 3;
			std::vector<std::string> rows(h, std::string(w, '_'));
			for (int y = 0; y < h; y++)
				for (int x = 0; x < w; x++) {
					if ((x * 7 + y * 13 + v) % every == 0)
						rows[y][x] = '*';
					if (v & 8 && y % 4 == 1 && x != y % 7 % w)
						rows[y][x] = '#';
				}
			rows[(h - 1) / 4 * 4][w / 3] = '@';
			one(rows, !huge, huge ? 12 : 1500);
		}
	}, 60);
	mc::suite("charger", "a world with a charger", 1, [](uint64_t) {
		one({ "@:*" }, true);
	});
}

MC_MAIN
