// C29: the programs that solve instances.
#include "mc.hpp"
#include "proc.hpp"
#include <cassert>
#include <cmath>
#include <algorithm>
#include <array>
#include <deque>
#include <iostream>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <unordered_map>

static int nruns, nsolved, nunsolved, nlimited, ninsts, nerrors, nlvl;

#if defined(DOM_TILES)
#include "tiles/mdist.hpp"
typedef TilesMdist D;
#define PROG tiles_main_mdist_main
#elif defined(DOM_PANCAKE)
#include "pancake/pancake.hpp"
typedef Pancake D;
#define PROG pancake_main_main
#elif defined(DOM_DROBOT)
#include "drobot/drobot.hpp"
typedef DockRobot D;
#define PROG drobot_main_main
#elif defined(DOM_VACUUM)
#include "vacuum/vacuum.hpp"
typedef Vacuum D;
#define PROG vacuum_main_main
extern "C" int vacuum_main_cs730_main(int, char**);
#elif defined(DOM_GRIDNAV)
#include "gridnav/gridnav.hpp"
typedef GridNav D;
#define PROG gridnav_main_gridnav_main
extern "C" int gridnav_main_scenario_main(int, char**);
#elif defined(DOM_PLAT2D)
#include "plat2d/plat2d.hpp"
typedef Plat2d D;
#define PROG plat2d_main_main
#elif defined(DOM_SEGMENTS)
#include "segments/segments.hpp"
typedef Segments D;
#define PROG segments_main_main
#elif defined(DOM_TRAFFIC)
#include "traffic/traffic.hpp"
typedef Traffic D;
#define PROG traffic_main_traffic_main
#elif defined(DOM_VISNAV)
#include "visnav/visnav.hpp"
typedef VisNav D;
#define PROG visnav_main_main
#endif
extern "C" int PROG(int, char**);

typedef std::vector<std::string> Args;

static Ran run(int (*prog)(int, char**), const std::string &in, Args args) {
	mc::count(nruns);
	args.insert(args.begin(), "solver");
	std::vector<char*> av;
	for (auto &a : args)
		av.push_back(&a[0]);
	av.push_back(NULL);
	return runmain(in, [&] {
		if (chdir(mc::scratch.c_str()) != 0)
			_exit(98);
		return prog(args.size(), av.data());
	}, 60);
}

struct Mem {
	FILE *f;
	std::string text;
	Mem(const std::string &t) : text(t) { f = fmemopen((void*) text.data(), text.size() ? text.size() : 1, "r"); }
	~Mem() { fclose(f); }
};

static void put(const std::string &path, const std::string &text) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size())
		abort();
	fclose(f);
}

// The cost of the best way to a goal, from the domain's own moves.
struct Opt {
	double cost;
	size_t states;
	bool complete;
	std::string h, d;
};

static Opt optimum(D &d, size_t max) {
	Opt r = { INFINITY, 0, true, "", "" };
	std::deque<std::unique_ptr<D::PackedState>> st;
	std::vector<double> g;
	std::unordered_map<unsigned long, std::vector<int>> idx;
	auto look = [&](std::unique_ptr<D::PackedState> p) {
		auto &b = idx[p->hash(&d)];
		for (int i : b)
			if (st[i]->eq(&d, *p))
				return i;
		b.push_back(st.size());
		st.push_back(std::move(p));
		g.push_back(INFINITY);
		return (int) st.size() - 1;
	};
	typedef std::pair<double,int> P;
	std::priority_queue<P, std::vector<P>, std::greater<P>> q;
	{
		D::State s0 = d.initialstate();
		r.h = mc::strf("%f", (double) d.h(s0));
		r.d = mc::strf("%f", (double) d.d(s0));
		std::unique_ptr<D::PackedState> p(new D::PackedState());
		d.pack(*p, s0);
		g[look(std::move(p))] = 0;
		q.push(P(0, 0));
	}
	while (!q.empty()) {
		P p = q.top();
		q.pop();
		if (p.first > g[p.second])
			continue;
		D::State buf, &s = d.unpack(buf, *st[p.second]);
		r.states++;
		if (d.isgoal(s)) {
			r.cost = p.first;
			return r;
		}
		if (r.states > max) {
			r.complete = false;
			return r;
		}
		D::Operators ops(d, s);
		for (size_t i = 0; i < ops.size(); i++) {
			D::Edge e(d, s, ops[i]);
			std::unique_ptr<D::PackedState> k(new D::PackedState());
			d.pack(*k, e.state);
			double c = p.first + (double) e.cost;
			int j = look(std::move(k));
			if (c < g[j]) {
				g[j] = c;
				q.push(P(c, j));
			}
		}
	}
	return r;
}

// What the program printed.
struct Out {
	std::map<std::string, std::string> pairs;
	std::map<std::string, std::vector<std::string>> rows;
};

static Out parse(const Ran &r) {
	Out o;
	const std::string &s = r.out;
	std::vector<std::string> lines;
	for (size_t i = 0, k; i < s.size(); i = k + 1) {
		k = s.find('\n', i);
		MC_CHECK(k != std::string::npos, "format", "the last line does not end: %s", s.substr(i).c_str());
		lines.push_back(s.substr(i, k - i));
	}
	MC_CHECK(lines.size() > 2 && lines[0] == "#start data file format 4", "format", "the datafile doesn't start: %s", s.substr(0, 100).c_str());
	MC_CHECK(lines.back() == "#end data file format 4", "format", "the datafile doesn't end: %s", s.size() > 200 ? s.substr(s.size() - 200).c_str() : s.c_str());
	for (size_t i = 1; i + 1 < lines.size(); i++) {
		auto &l = lines[i];
		if (l.compare(0, 8, "#pair  \"") == 0) {
			size_t k = l.find("\"\t\"", 8);
			MC_CHECK(k != std::string::npos && l.size() > k + 3 && l.back() == '"', "format", "bad line: %s", l.c_str());
			std::string key = l.substr(8, k - 8);
			// A closed list that is used twice is described twice.
			static const char *const multi[] = { "closed ", "open list", "seen ", "node " };
			bool may = false;
			for (auto m : multi)
				may |= key.compare(0, strlen(m), m) == 0;
			MC_CHECK(may || !o.pairs.count(key), "format", "two values of %s", key.c_str());
			o.pairs[key] = l.substr(k + 3, l.size() - k - 4);
		} else if (l.compare(0, 11, "#altcols  \"") == 0 || l.compare(0, 10, "#altrow  \"") == 0) {
			size_t b = l.find('"') + 1, e = l.find('"', b);
			MC_CHECK(e != std::string::npos, "format", "bad line: %s", l.c_str());
			o.rows[l.substr(b, e - b)].push_back(l);
		} else
			MC_CHECK(false, "format", "bad line: %s", l.c_str());
	}
	for (auto k : { "wall start date", "wall start time", "machine id", "initial heuristic", "initial distance", "algorithm", "final sol cost", "final sol length",
			"total nodes expanded", "total nodes generated", "total wall time", "total raw cpu time", "wall finish time", "wall finish date" })
		MC_CHECK(o.pairs.count(k), "missing", "there is no %s", k);
	return o;
}

enum { Complete = 1, Optimal = 2, NeedCons = 4, Tree = 8, Realtime = 16, Anytime = 32 };
struct Spec {
	Args args;
	int flags;
	double bound;	// 0: none
};
static const std::vector<Spec> specs = {
	{{"astar"}, Complete | Optimal, 1},
	{{"idastar"}, Complete | Optimal | Tree, 1},
	{{"wastar", "-wt", "1.5"}, Complete, 1.5},
	{{"wastar", "-wt", "3", "-dropdups"}, Complete, 0},
	{{"greedy"}, Complete, 0},
	{{"speedy", "-dropdups"}, Complete, 0},
	{{"bugsy", "-wf", "1", "-wt", "0"}, Complete | Optimal, 1},
	{{"bugsy", "-wf", "1", "-wt", "2", "-expdelay", "-hhat", "-dhat", "-noresort"}, Complete, 0},
	{{"bugsy-slim", "-wf", "1", "-wt", "1"}, Complete, 0},
	{{"arastar", "-wt0", "3", "-dwt", "0.5"}, Complete | Optimal | NeedCons | Anytime, 1},
	{{"arastarnora", "-wt0", "3", "-dwt", "1", "-lambda", "100"}, Complete | Anytime, 0},
	{{"beam", "-width", "2"}, 0, 0},
	{{"beam", "-width", "5000"}, 0, 0},
	{{"lsslrtastar2", "-lookahead", "3"}, Realtime, 0},
	{{"fhatlrtastar", "-lookahead", "2"}, Realtime, 0},
	{{"dtastar-dump", "-lookahead", "2", "-samplep", "0.000000001", "-horizon", "2"}, Realtime, 0},
	{{"astar-dump"}, Complete | Optimal, 1},
};

struct Config {
	bool lvl;		// there is an option -lvl
	bool consistent;	// the heuristic
	bool slow;		// only the first algorithms
	bool tree;		// IDA* is possible
	bool reversible;	// every state that can be reached can reach a goal if any can
	bool infinite;		// a search that isn't guided by the cost may never end
	std::map<std::string, std::string> want;	// pairs of the instance
	std::function<void(bool)> after;	// checks what else was written
	bool unit = false;	// each move costs 1
};

static std::string join(const Args &a) {
	std::string s;
	for (auto &w : a)
		s += " " + w;
	return s;
}

static void check(const Ran &r, const Config &cf, const Opt &opt, const Spec &sp, bool limited, Out &o) {
	MC_CHECK(r.sig == 0 && r.status == 0, "exit", "exit status %d, signal %d: %s", r.status, r.sig, r.err.c_str());
	o = parse(r);
	MC_CHECK(o.pairs["initial heuristic"] == opt.h, "report", "the initial heuristic is %s, not %s", o.pairs["initial heuristic"].c_str(), opt.h.c_str());
	MC_CHECK(o.pairs["initial distance"] == opt.d, "report", "the initial distance is %s, not %s", o.pairs["initial distance"].c_str(), opt.d.c_str());
	MC_CHECK(o.pairs["algorithm"] == sp.args[0], "report", "the algorithm is %s", o.pairs["algorithm"].c_str());
	for (auto &w : cf.want)
		MC_CHECK(o.pairs.count(w.first) && o.pairs[w.first] == w.second, "report", "%s is %s, not %s", w.first.c_str(),
			o.pairs.count(w.first) ? o.pairs[w.first].c_str() : "missing", w.second.c_str());
	double c = strtod(o.pairs["final sol cost"].c_str(), NULL);
	long len = strtol(o.pairs["final sol length"].c_str(), NULL, 10);
	double tol = 1e-3 * (1 + fabs(c)) ;
	bool solved = len > 0;
	MC_CHECK(solved ? c >= 0 : c == -1, "report", "the solution has %ld states and cost %g", len, c);
	mc::count(solved ? nsolved : nunsolved);
	mc::count(nlimited, limited);
	if (solved) {
		MC_CHECK(c >= opt.cost - tol, "cost", "the cost is %g, less than the optimal %g", c, opt.cost);
		if (sp.bound && !limited && ((sp.flags & NeedCons) == 0 || cf.consistent))
			MC_CHECK(c <= sp.bound * opt.cost + tol, "cost", "the cost is %g, the optimal %g", c, opt.cost);
		MC_CHECK(opt.cost < 1e-9 || len > 1, "report", "the cost is %g but the length %ld", c, len);
		MC_CHECK(!cf.unit || fabs(c + 1 - len) < 1e-3, "report", "the cost of moves of 1 is %g but the length %ld", c, len);
	} else
		MC_CHECK(limited || std::isinf(opt.cost) || !(sp.flags & Complete), "unsolved", "there is no solution, the optimal has cost %g", opt.cost);
	if (sp.flags & Anytime) {
		auto &in = o.rows["incumbent"];
		MC_CHECK(!solved || in.size() >= 2, "report", "there is no incumbent, but a solution");
	}
	if (cf.after)
		cf.after(solved);
	mc::validated();
}

static void instance(const std::string &name, const std::string &text, D &d, const Config &cf, size_t max, uint64_t k) {
	Opt opt = { 0 };
	bool have = false, usable = true;
	// One case: the program reads the instance from its input, and maybe from a file too.
	auto runs = [&](const Spec &sp, Args args, int limit, int fromfile) {
		if (!mc::begin([&] { return name + join(args) + (fromfile ? " and from a file" : ""); }))
			return;
		if (!have) {
			have = true;
			opt = optimum(d, max);
			usable = opt.complete;
			mc::count(ninsts, usable);
			mc::states(opt.states);
		}
		if (!usable || ((sp.flags & Tree) && (!cf.tree || std::isinf(opt.cost) || opt.states > 300)) ||
				((sp.flags & Realtime) && (!cf.reversible || std::isinf(opt.cost))))
			return;
		Out o;
		Ran r = run(PROG, text, args);
		check(r, cf, opt, sp, limit > 0, o);
		mc::states(1);
		mc::nontrivial(opt.cost > 0);
		long ex = strtol(o.pairs["total nodes expanded"].c_str(), NULL, 10);
		MC_CHECK(!limit || (sp.flags & Realtime) || ex <= limit, "limit", "%ld nodes are expanded, the limit is %d", ex, limit);
		if (!fromfile)
			return;
		std::string path = mc::scratch + "/instance";
		put(path, text);
		args.insert(args.begin() + (fromfile == 2 ? 1 : args.size()), { "-lvl", path });
		Out l;
		r = run(PROG, "nothing to see here", args);
		check(r, cf, opt, sp, limit > 0, l);
		mc::states(1);
		mc::count(nlvl);
		MC_CHECK(l.pairs["level"] == path, "level", "the level is %s", l.pairs["level"].c_str());
		for (auto key : { "final sol cost", "final sol length", "total nodes expanded", "total nodes generated", "total nodes duplicated", "total nodes reopened" })
			if (sp.args[0].find("bugsy") == std::string::npos && sp.args[0].find("nora") == std::string::npos)
				MC_CHECK(l.pairs[key] == o.pairs[key], "level", "from a file, %s is %s, not %s", key, l.pairs[key].c_str(), o.pairs[key].c_str());
	};
	for (size_t i = 0; i < specs.size(); i++) {
		const Spec &sp = specs[i];
		if (cf.slow && !mc::thorough && (i * 7 + k) % 2)
			continue;
		Args args = sp.args;
		bool limit = (sp.flags & Realtime) || (cf.infinite && (sp.args[0] == "greedy" || sp.args[0] == "speedy" || sp.args[0] == "beam"));
		if (limit)
			args.insert(args.end(), { "-expd", "1500" });
		runs(sp, args, limit ? 1500 : 0, cf.lvl && (i + k) % 3 == 0 ? 1 + k % 2 : 0);
	}
	for (int lim : { 1, 3 })
	for (size_t i : { 0, 2, 4 }) {
		if (cf.slow && !mc::thorough && (i + lim + k) % 2)
			continue;
		Args args = specs[i].args;
		args.insert(args.end(), { "-expd", mc::strf("%d", lim) });
		runs(specs[i], args, lim, 0);
	}
}

// What is not an instance, or a command, ends with an error.
static void errors(const std::string &good, const std::vector<std::string> &bad, bool lvl) {
	struct Case { std::string in; Args args; };
	std::vector<Case> cs = {
		{ good, {} },
		{ good, { "nosuchalgorithm" } },
		{ good, { "wastar" } },
		{ "", { "astar" } },
	};
	for (auto &b : bad)
		cs.push_back({ b, { "astar" } });
	if (lvl) {
		cs.push_back({ good, { "astar", "-lvl", mc::scratch + "/nosuchfile" } });
	}
	for (auto &c : cs) {
		if (!mc::begin([&] { return "an error:" + join(c.args) + ": " + c.in; }))
			continue;
		Ran r = run(PROG, c.in, c.args);
		mc::count(nerrors);
		mc::states(1);
		MC_CHECK(r.sig == 0, "crash", "signal %d: %s", r.sig, r.err.c_str());
		MC_CHECK(r.status != 0, "accepted", "it exits with 0: %s", r.out.c_str());
		MC_CHECK(r.err != "", "silent", "it exits with %d and no message", r.status);
		MC_CHECK(r.out.find("\"final sol cost\"") == std::string::npos, "accepted", "%s", r.out.c_str());
	}
}

static void epsfile(const char *name) {
	std::string p = mc::scratch + "/" + name;
	FILE *f = fopen(p.c_str(), "r");
	MC_CHECK(f, "picture", "there is no %s", name);
	char buf[32] = "";
	size_t n = fread(buf, 1, 4, f);
	fclose(f);
	unlink(p.c_str());
	MC_CHECK(n == 4 && !memcmp(buf, "%!PS", 4), "picture", "%s has %s", name, buf);
}

#if defined(DOM_TILES)
typedef std::vector<int> Board;
static std::string text(const Board &b, const Board &g) {
	std::string s = "3 3\nstarting positions for each tile:\n";
	for (int i = 0; i < 9; i++)
		s += mc::strf("%d\n", (int) (std::find(b.begin(), b.end(), i) - b.begin()));
	s += "goal positions:\n";
	for (int i = 0; i < 9; i++)
		s += mc::strf("%d\n", (int) (std::find(g.begin(), g.end(), i) - g.begin()));
	return s;
}
static std::string flat(const Board &b) {
	std::string s;
	for (int i : b)
		s += '0' + i;
	return s;
}
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (Board g : { Board({ 0, 1, 2, 3, 4, 5, 6, 7, 8 }), Board({ 1, 2, 3, 8, 0, 4, 7, 6, 5 }) }) {
		// All boards that are up to depth moves away, and a few more
		std::set<Board> seen = { g };
		std::vector<std::pair<Board,int>> q = { { g, 0 } };
		for (size_t i = 0; i < q.size() && q[i].second < 12; i++) {
			Board b = q[i].first;
			int e = std::find(b.begin(), b.end(), 0) - b.begin();
			for (int to : { e - 3, e - 1, e + 1, e + 3 }) {
				if (to < 0 || to > 8 || (to / 3 != e / 3 && to % 3 != e % 3))
					continue;
				std::swap(b[e], b[to]);
				if (seen.insert(b).second)
					q.push_back({ b, q[i].second + 1 });
				std::swap(b[e], b[to]);
			}
		}
		for (size_t i = 0; i < q.size(); i++) {
			if (q[i].second > (mc::thorough ? 6 : 2) && i % (mc::thorough ? 31 : 131))
				continue;
			if (k++ % n != c)
				continue;
			std::string t = text(q[i].first, g);
			Mem m(t);
			D d(m.f);
			Config cf = { true, true, false, true, true, false };
			cf.unit = true;
			instance("tiles " + flat(q[i].first) + " to " + flat(g), t, d, cf, 100000, k);
		}
	}
	if (c == 0)
		errors(text({ 1, 0, 2, 3, 4, 5, 6, 7, 8 }, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }), { "3 3\nstarting positions for each tile:\n0\n1\n" }, true);
}
static void large(uint64_t c, uint64_t n) {
	static const Board starts[] = { { 8, 6, 7, 2, 5, 4, 3, 0, 1 }, { 6, 4, 7, 8, 5, 0, 3, 2, 1 }, { 7, 2, 4, 5, 0, 6, 8, 3, 1 }, { 1, 2, 5, 3, 4, 8, 6, 7, 0 }, { 3, 1, 2, 6, 4, 5, 7, 8, 0 } };
	uint64_t k = 0;
	for (auto &b : starts) {
		if (k++ % n != c)
			continue;
		Board g = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
		std::string t = text(b, g);
		Mem m(t);
		D d(m.f);
		Config cf = { true, true, false, true, true, false };
		cf.unit = true;
		instance("tiles " + flat(b) + " to " + flat(g), t, d, cf, 200000, k);
	}
}
#elif defined(DOM_PANCAKE)
static void suite(uint64_t c, uint64_t n) {
	if (NCAKES != 4)
		return;
	std::vector<int> b = { 0, 1, 2, 3 };
	uint64_t k = 0;
	do {
		if (k++ % n != c)
			continue;
		std::string t = mc::strf("4\n%d %d %d %d\n", b[0], b[1], b[2], b[3]);
		Mem m(t);
		D d(m.f);
		Config cf = { false, true, false, true, true, false };
		cf.unit = true;
		instance("pancakes " + t.substr(2), t, d, cf, 100000, k);
	} while (std::next_permutation(b.begin(), b.end()));
	if (c == 0)
		errors("4\n0 1 3 2\n", { "4\n0 1\n" }, false);
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (int v = 0; NCAKES > 4 && v < 24; v++) {
		if (k++ % n != c)
			continue;
		std::vector<int> b;
		for (int i = 0; i < NCAKES; i++)
			b.push_back(i);
		for (int i = NCAKES; i-- > 1; )
			std::swap(b[i], b[(v * 7 + i * (v + 3)) % (i + 1)]);
		std::string t = mc::strf("%d\n", NCAKES);
		for (int x : b)
			t += mc::strf("%d ", x);
		t += "\n";
		Mem m(t);
		D d(m.f);
		Config cf = { false, true, false, true, true, false };
		cf.unit = true;
		instance("pancakes " + t.substr(2), t, d, cf, 100000, k);
	}
}
#elif defined(DOM_DROBOT)
static std::string text(int l0, int l1, bool onebelow, int g0, int g1, int adj) {
	// Two locations, one crane and two piles in each, two boxes.
	std::string s = "nlocations: 2\nncranes: 2\nncontainers: 2\nnpiles: 4\nnrobots: 1\n\n";
	for (int l = 0; l < 2; l++)
		s += mc::strf("location %d\nadjacent: %s\ncranes: %d\npiles: %d %d\n", l, l ? (adj ? "2 0" : "1 0") : (adj ? "0 0.5" : "0 1"), l, 2 * l, 2 * l + 1);
	std::string p[4];
	if (l0 == l1)
		p[2 * l0] = onebelow ? "1 0" : "0 1";
	else {
		p[2 * l0] = "0";
		p[2 * l1] = "1";
	}
	for (int i = 0; i < 4; i++)
		s += mc::strf("pile %d\n%s\n", i, p[i].c_str());
	s += "\n";
	if (g0 >= 0)
		s += mc::strf("container 0 at %d\n", g0);
	if (g1 >= 0)
		s += mc::strf("container 1 at %d\n", g1);
	return s;
}
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (int v = 0; v < 8; v++)
	for (int g0 = -1; g0 < 2; g0++)
	for (int g1 = -1; g1 < 2; g1++)
	for (int adj = 0; adj < 2; adj++) {
		if (k++ % n != c || (!mc::thorough && k % 3))
			continue;
		std::string t = text(v & 1, v >> 1 & 1, v >> 2, g0, g1, adj);
		Mem m(t);
		D d(m.f);
		Config cf = { false, false, true, true, true, false };
		instance(mc::strf("boxes at %d and %d%s, goals %d and %d, travel %d", v & 1, v >> 1 & 1, v >> 2 ? ", 1 below" : "", g0, g1, adj), t, d, cf, 100000, k);
	}
	if (c == 0)
		errors(text(0, 0, true, 1, 0, 0), { "nlocations: 2\nncranes: 2\nncontainers: 2\n", "nlocations: two\n" }, false);
}
static void large(uint64_t c, uint64_t n) {
	// Three locations in a triangle, six boxes in piles.
	static const char *piles[][3] = { { "0 1 2", "3 4 5", "" }, { "5 4 3 2 1 0", "", "" }, { "0 3", "1 4", "2 5" } };
	static const char *goals[] = { "container 0 at 2\n", "container 2 at 1\ncontainer 3 at 2\n", "container 5 at 2\ncontainer 0 at 0\n" };
	uint64_t k = 0;
	for (auto &p : piles)
		for (auto g : goals) {
			if (k++ % n != c)
				continue;
			std::string t = "nlocations: 3\nncranes: 3\nncontainers: 6\nnpiles: 3\nnrobots: 1\n\n";
			for (int l = 0; l < 3; l++)
				t += mc::strf("location %d\nadjacent: %s\ncranes: %d\npiles: %d\n", l, l == 0 ? "0 1 3" : l == 1 ? "1 0 1" : "3 1 0", l, l);
			for (int i = 0; i < 3; i++)
				t += mc::strf("pile %d\n%s\n", i, p[i]);
			t += std::string("\n") + g;
			Mem m(t);
			D d(m.f);
			Config cf = { false, false, true, true, true, false };
			instance(mc::strf("six boxes %s/%s/%s, goals ", p[0], p[1], p[2]) + g, t, d, cf, 60000, k);
		}
}
#elif defined(DOM_VACUUM)
// The plan of the other program
static void cs730(const std::string &name, const std::string &t, D &d) {
	for (auto alg : { "astar", "greedy" }) {
		if (!mc::begin([&] { return name + " cs730 " + alg; }))
			continue;
		Opt opt = optimum(d, 100000);
		Ran r = run(vacuum_main_cs730_main, t, { alg });
		MC_CHECK(r.sig == 0 && r.status == 0, "exit", "exit status %d, signal %d: %s", r.status, r.sig, r.err.c_str());
		std::vector<std::string> lines;
		for (size_t i = 0, k; (k = r.out.find('\n', i)) != std::string::npos; i = k + 1)
			lines.push_back(r.out.substr(i, k - i));
		unsigned long gen, exp;
		char ch;
		MC_CHECK(lines.size() >= 2 && sscanf(lines[lines.size() - 2].c_str(), "%lu nodes generate%c", &gen, &ch) == 2 && ch == 'd' &&
			sscanf(lines.back().c_str(), "%lu nodes expande%c", &exp, &ch) == 2 && ch == 'd', "plan", "it prints %s", r.out.c_str());
		size_t len = lines.size() - 2;
		MC_CHECK(std::isinf(opt.cost) ? len == 0 : alg[0] == 'a' ? len == (size_t) opt.cost : len >= (size_t) opt.cost, "plan", "the plan has %zu steps, the optimum %g", len, opt.cost);
		MC_CHECK(len == 0 || exp > 0, "plan", "%lu nodes are expanded", exp);
		mc::states(1);
		mc::validated();
	}
}
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const int sizes[][2] = { { 1, 2 }, { 2, 1 }, { 3, 1 }, { 2, 2 }, { 3, 2 } };
	for (auto &z : sizes) {
		int cells = z[0] * z[1], total = 1;
		for (int i = 0; i < cells; i++)
			total *= 3;
		for (int at = 0; at < cells; at++)
		for (int v = 0; v < total; v++) {
			std::string t = mc::strf("%d\n%d\n", z[0], z[1]), flat;
			bool dirty = false, ok = true;
			for (int i = 0, r = v; i < cells; i++, r /= 3) {
				char ch = " #*"[r % 3];
				if (i == at) {
					ok = r % 3 == 0;
					ch = '@';
				}
				if (ch == ' ')
					ch = '_';
				dirty |= ch == '*';
				flat += ch;
			}
			if (!ok || !dirty || k++ % n != c || (cells > 4 && k % (mc::thorough ? 5 : 41)))
				continue;
			for (int y = 0; y < z[1]; y++)
				t += flat.substr(y * z[0], z[0]) + "\n";
			Mem m(t);
			D d(m.f);
			Config cf = { false, true, k % 5 != 0, true, true, false };
			cf.unit = true;
			std::string name = mc::strf("vacuum %dx%d %s", z[0], z[1], flat.c_str());
			instance(name, t, d, cf, 100000, k);
			cs730(name, t, d);
		}
	}
	if (c == 0)
		errors("2\n1\n@*\n", { "2\n", "2\n1\n@x\n" }, false);
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const char *rooms[] = {
		"@_____________________________*",
		"@_#____*/__#_##__/__#_#___/____#___/*_##___*",
		"_________*/_#######__/_#@____#__/_#####_#__/_______#_*",
		"*/_/_/_/_/_/@/_/_/_/_/*",
		"@___/____/____/___*",
		"@#*/__#/___",
	};
	for (auto r : rooms)
		for (int tree = 0; tree < 2; tree++) {
			if (k++ % n != c)
				continue;
			std::string rows;
			int w = 0, h = 1;
			for (const char *p = r; *p; p++) {
				rows += *p == '/' ? '\n' : *p;
				h += *p == '/';
			}
			w = rows.find('\n') == std::string::npos ? rows.size() : rows.find('\n');
			std::string t = mc::strf("%d\n%d\n", w, h) + rows + "\n";
			Mem m(t);
			D d(m.f);
			Config cf = { false, true, false, true, true, false };
			cf.unit = true;
			if (tree)
				cs730(mc::strf("vacuum %s", r), t, d);
			else
				instance(mc::strf("vacuum %s", r), t, d, cf, 100000, k);
		}
}
#elif defined(DOM_GRIDNAV)
// Names that begin or end others
static const char *const mapname[] = { "m", "m1", "sub/m" };

static void scenario(const std::vector<std::string> &maps, const std::vector<std::array<int,3>> &entries, const std::vector<double> &costs, int entry) {
	std::string in = "version 1.0\n", names;
	std::vector<std::string> lines;
	for (size_t i = 0; i < entries.size(); i++) {
		auto &e = entries[i];
		in += mc::strf("%zu\t%s\t3\t2\t%d\t%d\t%d\t%d\t%.8g\n", i / 2, mapname[e[0]], e[1] % 3, e[1] / 3, e[2] % 3, e[2] / 3, costs[i]);
		names += mc::strf(" %s %d-%d", mapname[e[0]], e[1], e[2]);
	}
	if (!mc::begin([&] { return mc::strf("scenario, entry %d:", entry) + names; }))
		return;
	mkdir((mc::scratch + "/maps").c_str(), 0700);
	mkdir((mc::scratch + "/maps/sub").c_str(), 0700);
	for (size_t i = 0; i < maps.size(); i++)
		put(mc::scratch + "/maps/" + mapname[i], maps[i]);
	Args args = { "astar", "-maproot", mc::scratch + "/maps" };
	if (entry >= 0)
		args.insert(args.end(), { "-entry", mc::strf("%d", entry) });
	Ran r = run(gridnav_main_scenario_main, in, args);
	MC_CHECK(r.sig == 0 && r.status == 0, "exit", "exit status %d, signal %d: %s", r.status, r.sig, r.err.c_str());
	MC_CHECK(r.out.find(mc::strf("#pair  \"number of entries\"\t\"%zu\"\n", entries.size())) != std::string::npos, "scenario", "the number of entries is missing: %s", r.out.c_str());
	std::vector<std::string> rows;
	for (size_t i = 0, k; (k = r.out.find('\n', i)) != std::string::npos; i = k + 1)
		if (r.out.compare(i, 13, "#altrow  \"run") == 0)
			rows.push_back(r.out.substr(i, k - i));
	MC_CHECK(rows.size() == (entry < 0 ? entries.size() : entry < (int) entries.size()), "scenario", "there are %zu rows", rows.size());
	for (size_t i = 0; i < rows.size(); i++) {
		size_t w = entry < 0 ? i : entry;
		auto &e = entries[w];
		long v[8];
		double opt, cost;
		unsigned long exp, gen, len;
		MC_CHECK(sscanf(rows[i].c_str(), "#altrow  \"run\" %ld %ld %ld %ld %ld %ld %ld %ld %lf %lu %lu %lf %lu", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, &opt, &exp, &gen, &cost, &len) == 13,
			"scenario", "bad row %s", rows[i].c_str());
		MC_CHECK(v[0] == (long) w && v[1] == (long) w / 2 && v[2] == 3 && v[3] == 2 && v[4] == e[1] % 3 && v[5] == e[1] / 3 && v[6] == e[2] % 3 && v[7] == e[2] / 3, "scenario", "wrong row %s", rows[i].c_str());
		double want = costs[w] == 0 && e[1] != e[2] ? -1 : costs[w];
		MC_CHECK(fabs(cost - want) < 0.011 && fabs(opt - costs[w]) < 1e-3 && (len > 0) == (want >= 0), "scenario", "the cost of entry %zu should be %g: %s", w, want, rows[i].c_str());
	}
	mc::states(1);
	mc::validated();
	mc::nontrivial();
}
static void scenarios() {
	std::vector<std::string> maps = { "type octile\nheight 2\nwidth 3\nmap\n...\n...\n", "type octile\nheight 2\nwidth 3\nmap\n.@.\n...\n", "type octile\nheight 2\nwidth 3\nmap\n.T.\nG@G\n" };
	std::vector<std::array<int,3>> es = { { 0, 0, 5 }, { 1, 0, 2 }, { 2, 0, 5 }, { 1, 3, 3 }, { 2, 2, 5 } };
	std::vector<double> cs;
	for (auto &e : es) {
		Mem m(maps[e[0]]);
		GridMap map(m.f);
		D d(&map, e[1] % 3, e[1] / 3, e[2] % 3, e[2] / 3);
		Opt o = optimum(d, 1000);
		cs.push_back(std::isinf(o.cost) ? 0 : o.cost);
	}
	for (size_t a = 0; a < es.size(); a++)
	for (size_t b = 0; b <= es.size(); b++)
	for (size_t c = 0; c <= es.size(); c++)
	for (int entry = -1; entry < 4; entry++) {
		if (b == es.size() && c < es.size())
			continue;
		std::vector<std::array<int,3>> e;
		std::vector<double> cost;
		for (size_t i : { a, b, c })
			if (i < es.size()) {
				e.push_back(es[i]);
				cost.push_back(cs[i]);
			}
		scenario(maps, e, cost, entry);
	}
	// an optimal cost that is wrong is noticed
	for (size_t i = 0; i < es.size(); i++)
	for (double listed : { 0.0, 0.5, 1.0, 2.0, 3.0, cs[i] - 1, cs[i] - 0.5, cs[i] - 0.02, cs[i] + 0.02, cs[i] + 0.5, cs[i] * 2, 1000.0 }) {
		if (!mc::begin([&] { return mc::strf("scenario of entry %zu with the cost %g", i, listed); }))
			continue;
		if (listed < 0 || fabs(listed - cs[i]) < 0.015)
			continue;
		auto &e = es[i];
		put(mc::scratch + "/m0", maps[e[0]]);
		Ran r = run(gridnav_main_scenario_main, mc::strf("version 1.0\n0 m0 3 2 %d %d %d %d %g\n", e[1] % 3, e[1] / 3, e[2] % 3, e[2] / 3, listed), { "astar", "-maproot", mc::scratch + "/" });
		MC_CHECK(r.sig == 0 && r.status != 0, "accepted", "a wrong cost is accepted: %s", r.out.c_str());
		mc::count(nerrors);
		mc::states(1);
	}
}
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const char *mvs[] = { "Four-way", "Eight-way" }, *costs[] = { "Unit", "Life" };
	static const int sizes[][2] = { { 1, 3 }, { 3, 2 }, { 2, 3 } };
	for (auto &z : sizes)
	for (int v = 0; v < 1 << z[0] * z[1]; v++)
	for (int s = 0; s < z[0] * z[1]; s++)
	for (int g = 0; g < z[0] * z[1]; g++) {
		int w = z[0], h = z[1];
		std::string b, flat;
		for (int i = 0; i < w * h; i++)
			flat += v >> i & 1 ? '#' : ' ';
		// cell i is in line i / w, which has y = h - 1 - i / w
		if (k++ % n != c || (w * h > 3 && k / n % (mc::thorough ? 3 : 40)))
			continue;
		for (int y = 0; y < h; y++)
			b += flat.substr(y * w, w) + "\n";
		int sx = s % w, sy = h - 1 - s / w, gx = g % w, gy = h - 1 - g / w;
		std::string t = mc::strf("%d %d\nBoard:\n%s%s\n%s\n%d %d %d %d\n", h, w, b.c_str(), costs[k / 2 % 2], mvs[k % 2], sx, sy, gx, gy);
		std::string name = mc::strf("grid %dx%d %s %s %s %d,%d to %d,%d", w, h, flat.c_str(), costs[k / 2 % 2], mvs[k % 2], sx, sy, gx, gy);
		if (flat[s] == '#' || flat[g] == '#') {
			if (!mc::begin([&] { return name + " is blocked"; }))
				continue;
			Ran r = run(PROG, t, { "astar" });
			MC_CHECK(r.sig == 0 && r.status != 0, "accepted", "a blocked location is accepted");
			mc::count(nerrors);
			mc::states(1);
			continue;
		}
		Mem m(t);
		GridMap map(m.f);
		D d(&map, sx, sy, gx, gy);
		// The moves of a row of a map with life costs are free: an agent may go to and fro.
		Config cf = { true, k / 2 % 2 == 0, false, true, k / 2 % 2 == 0, false };
		cf.unit = k % 2 == 0 && k / 2 % 2 == 0;
		cf.want = { { "start x", mc::strf("%d", sx) }, { "start y", mc::strf("%d", sy) }, { "goal x", mc::strf("%d", gx) }, { "goal y", mc::strf("%d", gy) } };
		instance(name, t, d, cf, 100000, k);
	}
	if (c == 0)
		errors("1 2\nBoard:\n  \nUnit\nFour-way\n0 0 1 0\n", { "1 2\nBoard:\n  \nUnit\nFour-way\n", "x\n" }, true);
	if (c == 1)
		scenarios();
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const int sizes[][2] = { { 40, 30 }, { 300, 2 }, { 2, 300 }, { 17, 23 } };
	for (auto &z : sizes)
	for (int which = 0; which < 3; which++)
	for (int mv = 0; mv < 4; mv++)
	for (int ends = 0; ends < 2; ends++) {
		if (k++ % n != c)
			continue;
		int w = z[0], h = z[1];
		std::string b;
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++)
				b += (x || y) && (x != w - 1 || y != h - 1) && (which == 1 ? (x * 7 + y * 3) % 11 == 5 : which == 2 ? x % 4 == 2 && y != (x / 4 % 2 ? 0 : h - 1) : false) ? '#' : ' ';
			b += '\n';
		}
		int sx = ends ? w - 1 : 0, sy = ends ? 0 : h - 1, gx = w - 1 - sx, gy = h - 1 - sy;
		std::string t = mc::strf("%d %d\nBoard:\n%s%s\n%s\n%d %d %d %d\n", h, w, b.c_str(), mv & 1 ? "Life" : "Unit", mv & 2 ? "Eight-way" : "Four-way", sx, sy, gx, gy);
		Mem m(t);
		GridMap map(m.f);
		D d(&map, sx, sy, gx, gy);
		Config cf = { true, !(mv & 1), false, true, !(mv & 1), false };
		cf.unit = mv == 0;
		cf.want = { { "start x", mc::strf("%d", sx) }, { "start y", mc::strf("%d", sy) }, { "goal x", mc::strf("%d", gx) }, { "goal y", mc::strf("%d", gy) } };
		instance(mc::strf("grid %dx%d pattern %d moves %d from %d,%d", w, h, which, mv, sx, sy), t, d, cf, 100000, k);
	}
}
#elif defined(DOM_PLAT2D)
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const char *lvls[] = { "ud", "u d", "d u", "u/d", "d/u", "  d/u##", "u  /##d", "uwd", "U d", "U/D", "u d/###", "d/ / / / / / /u" };
	for (auto l : lvls) {
		if (k++ % n != c)
			continue;
		std::vector<std::string> rows(1);
		for (const char *p = l; *p; p++)
			if (*p == '/')
				rows.push_back("");
			else
				rows.back() += *p;
		int w = rows[0].size() + 2, h = rows.size() + 2;
		std::string t = mc::strf("1 %d %d 0\n", w, h) + std::string(w, '#') + "\n";
		for (auto &r : rows)
			t += "#" + r + "#\n";
		t += std::string(w, '#') + "\n";
		Mem m(t);
		D d(m.f);
		Config cf = { true, false, true, false, false, false };
		cf.after = [](bool) { epsfile("map.eps"); };
		cf.unit = true;
		for (int v = 0; v < (mc::thorough ? 4 : 2); v++)
			instance(std::string("level ") + l, t, d, cf, 8000, k + v);
	}
	if (c == 0)
		errors("1 4 3 0\n####\n#ud#\n####\n", { "1 4 3 0\n####\n#u", "2 4 3 0\n" }, true);
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const char *lvls[] = {
		"u                  d",
		"            /            /u          d",
		"            /            /        ####/     ##     /   #       d/u ##  ##  ##",
		"u   /    /    /    /    /    /    /   d",
	};
	for (auto l : lvls) {
		if (k++ % n != c)
			continue;
		std::vector<std::string> rows(1);
		for (const char *p = l; *p; p++)
			if (*p == '/')
				rows.push_back("");
			else
				rows.back() += *p;
		size_t w = 0;
		for (auto &r : rows)
			w = std::max(w, r.size());
		std::string t = mc::strf("1 %zu %zu 0\n", w + 2, rows.size() + 2) + std::string(w + 2, '#') + "\n";
		for (auto &r : rows)
			t += "#" + r + std::string(w - r.size(), ' ') + "#\n";
		t += std::string(w + 2, '#') + "\n";
		Mem m(t);
		D d(m.f);
		Config cf = { true, false, true, false, false, false };
		cf.after = [](bool) { epsfile("map.eps"); };
		cf.unit = true;
		instance(std::string("level ") + l, t, d, cf, 60000, k);
	}
}
#elif defined(DOM_SEGMENTS)
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (int g = 0; g < 36; g++)
	for (int two = 0; two < 2; two++) {
		if (k++ % n != c || (!mc::thorough && two && k % 4))
			continue;
		int gx = g % 3 + 1, gy = g / 3 % 3 + 1, rot = g / 9;
		std::string t = mc::strf("# seed: 1\n4 4 4\n%d\n0.6 1 1 0 %d %d %d\n", 1 + two, gx, gy, rot);
		if (two)
			t += "0.4 3 3 1 3 2 0\n";
		Mem m(t);
		D d(m.f);
		Config cf = { false, false, true, false, true, false };
		instance(mc::strf("segment to %d,%d,%d%s", gx, gy, rot, two ? " and another" : ""), t, d, cf, mc::thorough ? 6000 : 1500, k);
	}
	if (c == 0)
		errors("# seed: 1\n4 4 4\n1\n0.6 1 1 0 2 1 0\n", { "# seed: 1\n4 4 4\n1\n0.6 1\n" }, false);
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (auto l : { "# seed: 1\n12 9 8\n1\n0.6 1 1 0 10 7 5\n", "# seed: 1\n30 3 4\n1\n0.6 1 1 0 28 1 2\n", "# seed: 1\n5 5 16\n2\n0.6 1 1 0 3 3 9\n0.4 3 1 2 3 1 2\n" }) {
		if (k++ % n != c)
			continue;
		std::string t = l;
		Mem m(t);
		D d(m.f);
		Config cf = { false, false, false, false, true, false };
		instance(mc::strf("segments %s", l), t, d, cf, 20000, k);
	}
}
#elif defined(DOM_TRAFFIC)
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (int gx = 0; gx < 3; gx++)
	for (int gy = 0; gy < 2; gy++)
	for (int o = 0; o < 24; o++)
	for (int p = 0; p < 24; p += 5) {
		auto obst = [](int o) { return mc::strf("%d %d %d %d\n", o % 3, o / 3 % 2, o / 6 % 2, (o / 6 % 2) == 0 ? 1 : o / 12 % 2); };
		if (k++ % n != c || o % 6 == 0 || p % 6 == 0 || (!mc::thorough && k % 3))
			continue;
		std::string t = mc::strf("0 0 %d %d\n3 2\n", gx, gy) + obst(o) + (p ? obst(p) : "");
		Mem m(t);
		D d(m.f);
		Config cf = { true, false, k % 4 != 0, false, false, true };
		instance("traffic " + t, t, d, cf, 400, k);
	}
	if (c == 0)
		errors("0 0 1 1\n3 2\n2 0 0 1\n", { "0 0 1\n" }, true);
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	static const int sizes[][2] = { { 20, 14 }, { 2, 40 }, { 40, 2 } };
	for (auto &z : sizes)
	for (int v = 0; v < 3; v++) {
		if (k++ % n != c)
			continue;
		std::string t = mc::strf("0 0 %d %d\n%d %d\n", z[0] - 1, z[1] - 1, z[0], z[1]);
		for (int i = 0; i < v * 12; i++) {
			int x = (i * 5 + 3) % z[0], y = (i * 7 + 5) % z[1];
			if (x || y)
				t += mc::strf("%d %d %d %d\n", x, y, i % 3 - 1, i % 3 == 1 ? 1 : i % 2);
		}
		Mem m(t);
		D d(m.f);
		Config cf = { true, false, false, false, false, true };
		instance(mc::strf("traffic %dx%d, %d obstacles", z[0], z[1], v * 12), t, d, cf, 60000, k);
	}
}
#elif defined(DOM_VISNAV)
static void suite(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	// Maps of cells with a border, [x * h + y].
	static const char *maps[] = { "    ", " # # ", "   # #   ", "  #   ", "    #    " };
	static const int sizes[][2] = { { 2, 2 }, { 1, 5 }, { 3, 3 }, { 2, 3 }, { 3, 3 } };
	for (int mi : { 0, 3, 4 }) {
		int w = sizes[mi][0] + 2, h = sizes[mi][1] + 2;
		std::unique_ptr<bool[]> b(new bool[w * h]);
		std::vector<std::pair<double,double>> pts;
		for (int x = 0; x < w; x++)
		for (int y = 0; y < h; y++) {
			bool in = x && y && x < w - 1 && y < h - 1;
			b[x * h + y] = !in || maps[mi][(x - 1) * (h - 2) + y - 1] == '#';
			if (!b[x * h + y]) {
				pts.push_back(std::make_pair(x + .5, y + .5));
				pts.push_back(std::make_pair(x + .25, y + .75));
			}
		}
		PolyMap pm(b.get(), w, h);
		VisGraph g(pm);
		char *buf = NULL;
		size_t sz = 0;
		FILE *f = open_memstream(&buf, &sz);
		g.output(f);
		fclose(f);
		std::string gt(buf, sz);
		free(buf);
		for (auto &s : pts)
		for (auto &e : pts) {
			if (k++ % n != c || k % (mc::thorough ? 2 : 9))
				continue;
			std::string t = gt + mc::strf("%g %g %g %g\n", s.first, s.second, e.first, e.second);
			Mem m(gt);
			VisGraph vg(m.f);
			D d(vg, s.first, s.second, e.first, e.second);
			Config cf = { false, true, true, true, true, false };
			cf.want = { { "x0", mc::strf("%g", s.first) }, { "y0", mc::strf("%g", s.second) }, { "x1", mc::strf("%g", e.first) }, { "y1", mc::strf("%g", e.second) } };
			cf.after = [](bool) { epsfile("path.eps"); };
			instance(mc::strf("map %s %g,%g to %g,%g", maps[mi], s.first, s.second, e.first, e.second), t, d, cf, 100000, k);
		}
		if (c == 0 && mi == 0)
			errors(gt + "1.5 1.5 2.5 2.5\n", { gt, gt + "1.5 1.5 2.5\n", "x" }, false);
	}
}
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (int which = 0; which < 3; which++) {
		const int w = which == 1 ? 40 : 16, h = which == 1 ? 5 : 12;
		std::unique_ptr<bool[]> b(new bool[w * h]);
		for (int x = 0; x < w; x++)
		for (int y = 0; y < h; y++)
			b[x * h + y] = !x || !y || x == w - 1 || y == h - 1 || (which == 2 ? x % 4 == 3 && y != (x / 4 % 2 ? 1 : h - 2) : x % 3 == 0 && y % 3 == 0);
		PolyMap pm(b.get(), w, h);
		VisGraph g(pm);
		char *buf = NULL;
		size_t sz = 0;
		FILE *f = open_memstream(&buf, &sz);
		g.output(f);
		fclose(f);
		std::string gt(buf, sz);
		free(buf);
		for (int ends = 0; ends < 4; ends++) {
			if (k++ % n != c)
				continue;
			double x0 = ends & 1 ? w - 1.5 : 1.5, y0 = ends & 2 ? h - 1.5 : 1.25, x1 = w - x0, y1 = h - 1.75;
			std::string t = gt + mc::strf("%g %g %g %g\n", x0, y0, x1, y1);
			Mem m(gt);
			VisGraph vg(m.f);
			D d(vg, x0, y0, x1, y1);
			Config cf = { false, true, false, true, true, false };
			cf.want = { { "x0", mc::strf("%g", x0) }, { "y0", mc::strf("%g", y0) }, { "x1", mc::strf("%g", x1) }, { "y1", mc::strf("%g", y1) } };
			cf.after = [](bool) { epsfile("path.eps"); };
			instance(mc::strf("large map %d, from %g,%g", which, x0, y0), t, d, cf, 100000, k);
		}
	}
}
#endif

void mc_setup() {
	nruns = mc::counter("programs_run");
	ninsts = mc::counter("instances");
	nsolved = mc::counter("solved");
	nunsolved = mc::counter("not_solved");
	nlimited = mc::counter("with_a_limit");
	nerrors = mc::counter("errors");
	nlvl = mc::counter("instances_from_files");
	mc::suite(
#if defined(DOM_TILES)
		"tiles", "3x3 boards up to 12 moves from two goals",
#elif defined(DOM_PANCAKE)
		"pancake", "every stack of 4",
#elif defined(DOM_DROBOT)
		"drobot", "2 locations, 2 boxes",
#elif defined(DOM_VACUUM)
		"vacuum", "rooms of up to 3x2",
#elif defined(DOM_GRIDNAV)
		"gridnav", "maps of up to 3x2, and scenarios of up to 3 entries",
#elif defined(DOM_PLAT2D)
		"plat2d", "12 levels",
#elif defined(DOM_SEGMENTS)
		"segments", "one and two segments",
#elif defined(DOM_TRAFFIC)
		"traffic", "a 3x2 grid with one or two obstacles",
#elif defined(DOM_VISNAV)
		"visnav", "3 maps",
#endif
		16, [](uint64_t c) { suite(c, 16); }, 120);
	mc::suite("large", "instances of hundreds to tens of thousands of states", 32, [](uint64_t c) { large(c, 32); }, 120);
}
MC_MAIN
