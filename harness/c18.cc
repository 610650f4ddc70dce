// C18: the dock robot domain.
#include "domain.hpp"
#include "drobot/drobot.hpp"
#include <set>

static int nexp, nsolves, nfull;

double walltime() { return 1; }
double cputime() { return 1; }

struct Inst {
	int nlocs, nboxes;
	std::vector<std::vector<double>> adj;
	std::vector<int> cranes;		// at each location
	std::vector<std::vector<std::vector<int>>> piles;	// of each location, bottom first
	std::vector<int> goal;			// -1 is anywhere

	std::string text() const {
		std::string s;
		int nc = 0, np = 0;
		for (int l = 0; l < nlocs; l++) {
			nc += cranes[l];
			np += piles[l].size();
		}
		s += mc::strf("nlocations: %d\nncranes: %d\nncontainers: %d\nnpiles: %d\nnrobots: 1\n\n", nlocs, nc, nboxes, np);
		int c = 0, p = 0;
		for (int l = 0; l < nlocs; l++) {
			s += mc::strf("location %d\nadjacent:", l);
			for (double a : adj[l])
				s += mc::strf(" %g", a);
			s += "\ncranes:";
			for (int i = 0; i < cranes[l]; i++)
				s += mc::strf(" %d", c++);
			s += "\npiles:";
			for (size_t i = 0; i < piles[l].size(); i++)
				s += mc::strf(" %d", p++);
			s += "\n";
		}
		p = 0;
		for (int l = 0; l < nlocs; l++)
			for (auto &pl : piles[l]) {
				s += mc::strf("pile %d\n", p++);
				for (size_t i = 0; i < pl.size(); i++)
					s += mc::strf(i ? " %d" : "%d", pl[i]);
				s += "\n";
			}
		s += "\n";
		for (int b = 0; b < nboxes; b++)
			if (goal[b] >= 0)
				s += mc::strf("container %d at %d\n", b, goal[b]);
		return s;
	}
	std::string str() const {
		std::string s;
		for (int l = 0; l < nlocs; l++) {
			s += mc::strf(" loc%d(cranes=%d", l, cranes[l]);
			for (auto &p : piles[l]) {
				s += " [";
				for (int b : p)
					s += mc::strf("%d", b);
				s += "]";
			}
			s += ")";
		}
		s += " goals";
		for (int g : goal)
			s += mc::strf(" %d", g);
		s += mc::strf(" adj %g %g", adj[0][1], adj[1][0]);
		return s;
	}
};

struct St {
	int rloc, rbox;
	std::vector<std::set<int>> cranes;
	std::vector<std::set<std::vector<int>>> piles;
	std::string name() const {
		std::string s = mc::strf("robot@%d:%d", rloc, rbox);
		for (size_t l = 0; l < cranes.size(); l++) {
			s += " (";
			for (int b : cranes[l])
				s += mc::strf(" %d", b);
			for (auto &p : piles[l]) {
				s += " [";
				for (int b : p)
					s += mc::strf(" %d", b);
				s += "]";
			}
			s += ")";
		}
		return s;
	}
};

struct Ref : Model<DockRobot> {
	const Inst &in;
	std::map<std::string, St> st;
	Ref(const Inst &i) : in(i) { dadmissible = true; }

	std::string reg(const St &s) {
		std::string n = s.name();
		st[n] = s;
		return n;
	}
	int left(const St &s) const {
		int n = 0;
		for (int b = 0; b < in.nboxes; b++) {
			if (in.goal[b] < 0)
				continue;
			int at = s.rbox == b ? s.rloc : -1;
			for (int l = 0; l < in.nlocs; l++) {
				if (s.cranes[l].count(b))
					at = l;
				for (auto &p : s.piles[l])
					if (std::count(p.begin(), p.end(), b))
						at = l;
			}
			n += at != in.goal[b];
		}
		return n;
	}
	std::string key(DockRobot &d, DockRobot::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); });
		St r;
		r.cranes.resize(in.nlocs);
		r.piles.resize(in.nlocs);
		r.rloc = r.rbox = -9;
		int nl = -1, loc = -1;
		std::istringstream is(o);
		std::string line;
		while (std::getline(is, line)) {
			int v;
			if (sscanf(line.c_str(), "robot location: %d", &v) == 1) r.rloc = v;
			else if (sscanf(line.c_str(), "robot contents: %d", &v) == 1) r.rbox = v;
			else if (sscanf(line.c_str(), "out of place boxes: %d", &v) == 1) nl = v;
			else if (sscanf(line.c_str(), "loc %d:", &v) == 1) loc = v;
			else if (sscanf(line.c_str(), " crane: %d", &v) == 1) {
				if (loc < 0 || loc >= in.nlocs || !r.cranes[loc].insert(v).second)
					return "bad cranes: " + o;
			} else if (line.find("pile:") != std::string::npos) {
				std::istringstream ps(line.substr(line.find(':') + 1));
				std::vector<int> p;
				while (ps >> v)
					p.push_back(v);
				if (p.empty() || loc < 0 || loc >= in.nlocs || !r.piles[loc].insert(p).second)
					return "bad piles: " + o;
			}
		}
		std::string n = r.name();
		int want = left(r);
		if (want != nl)
			return mc::strf("%s with %d out of place boxes, not %d", n.c_str(), nl, want);
		return n;
	}
	std::string start() {
		St s;
		s.rloc = 0;
		s.rbox = -1;
		s.cranes.resize(in.nlocs);
		s.piles.resize(in.nlocs);
		for (int l = 0; l < in.nlocs; l++)
			for (auto &p : in.piles[l])
				if (p.size())
					s.piles[l].insert(p);
		return reg(s);
	}
	std::vector<Next> succ(const std::string &k) {
		if (!st.count(k))
			mc::fail("successors", "%s is not a reachable state", k.c_str());
		const St s = st[k];
		int l = s.rloc;
		std::vector<Next> v;
		auto put = [&](const St &n, double c) { v.push_back(Next{reg(n), c}); };
		for (int b : s.cranes[l]) {
			St t = s;
			t.cranes[l].erase(b);
			for (auto &p : s.piles[l]) {	// onto a pile
				St n = t;
				n.piles[l].erase(p);
				auto q = p;
				q.push_back(b);
				n.piles[l].insert(q);
				put(n, 0.05 * (p.size() + 1));
			}
			if (s.piles[l].size() < in.piles[l].size()) {	// onto the ground
				St n = t;
				n.piles[l].insert(std::vector<int>(1, b));
				put(n, 0.05);
			}
			if (s.rbox < 0) {
				St n = t;
				n.rbox = b;
				put(n, 0.01);
			}
		}
		if ((int) s.cranes[l].size() < in.cranes[l]) {
			for (auto &p : s.piles[l]) {
				St n = s;
				n.piles[l].erase(p);
				auto q = p;
				n.cranes[l].insert(q.back());
				q.pop_back();
				if (q.size())
					n.piles[l].insert(q);
				put(n, 0.05 * (p.size() + 1));
			}
			if (s.rbox >= 0) {
				St n = s;
				n.cranes[l].insert(s.rbox);
				n.rbox = -1;
				put(n, 0.01);
			}
		}
		for (int m = 0; m < in.nlocs; m++)
			if (m != l) {
				St n = s;
				n.rloc = m;
				put(n, in.adj[l][m]);
			}
		return v;
	}
	bool goal(const std::string &k) { return left(st[k]) == 0; }
};

static void one(const Inst &in, bool solves, size_t most = 6000) {
	if (!mc::begin([&] { return in.str(); }))
		return;
	Memfile f(in.text());
	DockRobot d(f);
	Ref m(in);
	Explored<DockRobot> x;
	explore<DockRobot>(d, m, most, x, false);
	mc::count(nexp);
	if (x.all)
		mc::count(nfull);
	if (x.all && x.dist[0] > 0 && !std::isinf(x.dist[0]))
		mc::nontrivial();
	// States that are unpacked are equal when they are the same.
	for (size_t i = 0; i < x.packed.size() && i < 48; i++) {
		DockRobot::State si, sj;
		auto &s = d.unpack(si, *x.packed[i]);
		for (size_t j = i < 12 ? 0 : i - 12; j <= i; j++) {
			auto &t = d.unpack(sj, *x.packed[j]);
			MC_CHECK((s == t) == (i == j) && (t == s) == (i == j), "equal", "%s and %s are %sequal", x.keys[i].c_str(), x.keys[j].c_str(), i == j ? "not " : "");
		}
	}
	if (!solves || !x.all)
		return;
	solve<DockRobot>(d, m, {"astar"}, x.dist[0], 1);
	solve<DockRobot>(d, m, {"wastar", "-wt", "2"}, x.dist[0], 2);
	solve<DockRobot>(d, m, {"greedy"}, x.dist[0], 1e9);
	if (x.dist[0] < 1.3) {	// few enough iterations
		solve<DockRobot>(d, m, {"idastar"}, x.dist[0], 1);
		mc::count(nsolves);
	}
	mc::count(nsolves, 3);
}

static std::vector<std::vector<double>> adjs(int n, int kind) {
	std::vector<std::vector<double>> a(n, std::vector<double>(n, 0));
	for (int i = 0; i < n; i++)
	for (int j = 0; j < n; j++)
		if (i != j)
			a[i][j] = kind == 0 ? 1 : kind == 1 ? 0.25 * (1 + (i * 3 + j) % 4) : (i < j ? 0.125 : 2) * (abs(i - j) == 1 ? 1 : 4);
	return a;
}

// Every way of putting the boxes on the piles in every order.
static void arrange(Inst &in, std::vector<std::pair<int,int>> &where, std::vector<bool> &placed, int left,
		size_t pi, const std::function<void()> &fn) {
	if (pi == where.size()) {
		if (left == 0)
			fn();
		return;
	}
	arrange(in, where, placed, left, pi + 1, fn);
	for (int b = 0; b < in.nboxes; b++) {
		if (placed[b])
			continue;
		placed[b] = true;
		in.piles[where[pi].first][where[pi].second].push_back(b);
		arrange(in, where, placed, left - 1, pi, fn);
		in.piles[where[pi].first][where[pi].second].pop_back();
		placed[b] = false;
	}
}

static void family(int nlocs, int nboxes, std::vector<int> cranes, std::vector<int> npiles, int adjkind, int goalstep, uint64_t chunk, uint64_t nchunks) {
	Inst in;
	in.nlocs = nlocs;
	in.nboxes = nboxes;
	in.adj = adjs(nlocs, adjkind);
	in.cranes = cranes;
	in.piles.resize(nlocs);
	std::vector<std::pair<int,int>> where;
	for (int l = 0; l < nlocs; l++) {
		in.piles[l].resize(npiles[l]);
		for (int p = 0; p < npiles[l]; p++)
			where.push_back(std::make_pair(l, p));
	}
	std::vector<bool> placed(nboxes, false);
	int ngoals = 1;
	for (int b = 0; b < nboxes; b++)
		ngoals *= nlocs + 1;
	uint64_t k = 0;
	arrange(in, where, placed, nboxes, 0, [&] {
		uint64_t k0 = k;
		k += ngoals;
		for (uint64_t j = (k0 + goalstep - 1) / goalstep * goalstep; j < k; j += goalstep) {
			if ((j / goalstep) % nchunks != chunk)
				continue;
			int g = j - k0;
			in.goal.clear();
			for (int b = 0, x = g; b < nboxes; b++, x /= nlocs + 1)
				in.goal.push_back(x % (nlocs + 1) - 1);
			one(in, true);
		}
	});
}

// Many locations: with few boxes, in part.
static void many(uint64_t c) {
	Inst in;
	in.nlocs = c & 1 ? 300 : 40;
	in.nboxes = 3 + c / 2 * 3;
	in.adj = adjs(in.nlocs, c % 3);
	in.cranes.assign(in.nlocs, 1);
	in.piles.assign(in.nlocs, std::vector<std::vector<int>>(1));
	for (int b = 0; b < in.nboxes; b++) {
		in.piles[b < 2 ? 0 : b * 97 % in.nlocs][0].push_back(b);
		in.goal.push_back(in.nlocs - 1 - b * 31 % in.nlocs);
	}
	one(in, false, c & 1 ? 20 : 250);
}

void mc_setup() {
	nexp = mc::counter("instances explored");
	nfull = mc::counter("instances explored completely");
	nsolves = mc::counter("searches");
	mc::suite("l2b2", "2 locations, 2 boxes, 1 crane each, 2 and 1 piles: every arrangement and goal, 3 travel costs", 24,
		[](uint64_t c) { family(2, 2, {1, 1}, {2, 1}, c % 3, 1, c / 3, 8); });
	mc::suite("l2b2c", "2 locations, 2 boxes, 2 cranes and 1, 1 pile each: every arrangement and goal, 3 travel costs", 24,
		[](uint64_t c) { family(2, 2, {2, 1}, {1, 1}, c % 3, 1, c / 3, 8); });
	mc::suite("l2b3", "2 locations, 3 boxes, 1 or 2 cranes, 3 and 1 piles: every arrangement, every 17th goal (thorough: every one)", 64,
		[](uint64_t c) { family(2, 3, {1, 2}, {3, 1}, c % 3, mc::thorough ? 1 : 17, c / 3, 22); }, 60);
	mc::suite("l3b2", "3 locations, 2 boxes, 1 crane each, 1 pile each: every arrangement, every 5th goal (thorough: every one)", 24,
		[](uint64_t c) { family(3, 2, {1, 1, 1}, {1, 1, 1}, c % 3, mc::thorough ? 1 : 5, c / 3, 8); });
	mc::suite("l2b4", "2 locations, 4 boxes, 1 crane each, 3 and 2 piles: some arrangements, up to 6000 states", 16,
		[](uint64_t c) { family(2, 4, {1, 1}, {3, 2}, c % 3, mc::thorough ? 499 : 7919, c / 3, 6); }, 60);
	mc::suite("l2b4c", "2 locations, 4 boxes, 4 cranes and 1, 4 and 1 piles: some arrangements, up to 6000 states", 16,
		[](uint64_t c) { family(2, 4, {4, 1}, {4, 1}, c % 3, mc::thorough ? 997 : 19997, c / 3, 6); }, 60);
	mc::suite("l3b4", "3 locations, 4 boxes, 2, 1 and 3 cranes, 2, 3 and 1 piles: some arrangements, up to 6000 states", 24,
		[](uint64_t c) { family(3, 4, {2, 1, 3}, {2, 3, 1}, c % 3, mc::thorough ? 997 : 9973, c / 3, 8); }, 60);
	mc::suite("l4b3", "4 locations, 3 boxes, 1, 2, 1 and 3 cranes, 1, 2, 2 and 1 piles: some arrangements, up to 6000 states", 24,
		[](uint64_t c) { family(4, 3, {1, 2, 1, 3}, {1, 2, 2, 1}, c % 3, mc::thorough ? 97 : 997, c / 3, 8); }, 60);
	mc::suite("l2b6", "2 locations, 6 boxes, 1 or 6 cranes and 1, 6 and 2 piles or 2 and 1: some arrangements, up to 6000 states", 24,
		[](uint64_t c) { family(2, 6, {c & 1 ? 6 : 1, 1}, {c & 2 ? 6 : 2, c & 2 ? 2 : 1}, c % 3, c & 2 ? (mc::thorough ? 29999999 : 299999999) : (mc::thorough ? 1000003 : 9999991), c / 4, 6); }, 60);
	mc::suite("many", "40 and 300 locations with 3 or 6 boxes: the first 250 or 20 states", 4, many, 120);
	mc::suite("nocrane", "a location without cranes, one without piles", 8,
		[](uint64_t c) { family(2, 2, c & 1 ? std::vector<int>{0, 1} : std::vector<int>{1, 0}, c & 2 ? std::vector<int>{2, 1} : std::vector<int>{2, 0}, c >> 2, 1, 0, 1); });
}

MC_MAIN
