// C16: the pancake domain is the pancake puzzle.
#include "domain.hpp"
#include "pancake/pancake.hpp"
#include <set>

enum { N = NCAKES };

static int nexp, nsolves;

double walltime() { return 1; }
double cputime() { return 1; }

struct Ref : Model<Pancake> {
	std::string init;
	Ref(const std::string &i) : init(i) {
		consistent = true;
		dadmissible = true;
	}
	std::string key(Pancake &d, Pancake::State &s) {
		std::string o = dumped([&](FILE *f) { d.dumpstate(f, s); }), k;
		const char *p = o.c_str();
		for (int i = 0; i < N; i++) {
			char *e;
			long v = strtol(p, &e, 10);
			if (e == p || v < 0 || v >= N)
				return "unreadable: " + o;
			k += '0' + v;
			p = e;
		}
		return k;
	}
	std::string start() { return init; }
	std::vector<Next> succ(const std::string &k) {
		std::vector<Next> v;
		for (int n = 2; n <= N; n++)
			v.push_back(Next{std::string(k.rend() - n, k.rend()) + k.substr(n), 1});
		return v;
	}
	bool goal(const std::string &k) {
		for (int i = 0; i < N; i++)
			if (k[i] != '0' + i)
				return false;
		return true;
	}
	double h(const std::string &k) {
		int g = k[N-1] != '0' + N - 1;
		for (int i = 0; i + 1 < N; i++)
			g += abs(k[i] - k[i+1]) != 1;
		return g;
	}
	double d(const std::string &k) { return h(k); }
};

static std::string inst(const std::string &k) {
	std::string s = mc::strf("%d\n", (int) N);
	for (char c : k)
		s += mc::strf("%d ", c - '0');
	return s + "\n";
}

static std::string perm(uint64_t c) {
	std::string left, k;
	for (int i = 0; i < N; i++)
		left += '0' + i;
	for (int i = N; i > 0; i--) {
		k += left[c % i];
		left.erase(c % i, 1);
		c /= i;
	}
	return k;
}

// many: pancakes by the dozen, as the solvers of the repository are built for.
static void many() {
	std::string sorted;
	for (int i = 0; i < N; i++)
		sorted += '0' + i;
	// flips gives the stack after n flips, of which the sizes go by strides.
	auto flips = [=](int n, int a, int b) {
		std::string k = sorted;
		for (int i = 0; i < n; i++)
			std::reverse(k.begin(), k.begin() + 2 + (i * i * a + i * b + a) % (N - 1));
		return k;
	};
	mc::suite("many", "states breadth first from stacks 0 to 80 flips from the goal", 16, [=](uint64_t c) {
		for (int b : { 1, 5, 29 }) {
			std::string k = flips(c < 8 ? c : 5 * c, c + 1, b);
			if (!mc::begin([&] { return mc::strf("part of the space of start %s", k.c_str()); }))
				continue;
			Memfile f(inst(k));
			Pancake d(f);
			Ref m(k);
			Explored<Pancake> x;
			explore<Pancake>(d, m, mc::thorough ? 2000 : 200, x);
			mc::count(nexp);
			mc::nontrivial();
		}
	}, 60);
	mc::suite("manysolve", "A*, IDA*, weighted A* and greedy search from stacks up to 5 flips from the goal", 16, [=](uint64_t c) {
		for (int n = 0; n <= 5; n++)
			for (int b = 0; b < 6; b++) {
				std::string k = flips(n, c * 3 + 2, b * 7 + 1);
				Ref m(k);
				// only where the gap heuristic tells that no flip can be saved
				if (!mc::begin([&] { return mc::strf("solving %s", k.c_str()); }) || m.h(k) != n)
					continue;
				Memfile f(inst(k));
				Pancake d(f);
				solve<Pancake>(d, m, {"astar"}, n, 1);
				solve<Pancake>(d, m, {"idastar"}, n, 1);
				solve<Pancake>(d, m, {"wastar", "-wt", "1.5"}, n, 1.5);
				solve<Pancake>(d, m, {"greedy"}, n, 1e9);
				mc::count(nsolves, 4);
			}
	}, 60);
}

void mc_setup() {
	nexp = mc::counter("spaces explored");
	nsolves = mc::counter("searches");
	if (N > 8) {
		many();
		return;
	}
	uint64_t total = 1;
	for (int i = 2; i <= N; i++)
		total *= i;
	mc::suite("space", "every state reachable from a start, for several starts (all starts of up to 5 cakes)", 16, [=](uint64_t c) {
		uint64_t step = N <= 5 ? 1 : total / (mc::thorough ? 32 : 16);
		for (uint64_t p = c * step; p < total; p += 16 * step) {
			std::string k = perm(p);
			if (!mc::begin([&] { return mc::strf("the space of start %s", k.c_str()); }))
				continue;
			Memfile f(inst(k));
			Pancake d(f);
			Ref m(k);
			Explored<Pancake> x;
			explore<Pancake>(d, m, 100000, x);
			MC_CHECK(x.keys.size() == total, "space", "%zu states", x.keys.size());
			mc::count(nexp);
			mc::nontrivial();
		}
	}, 60);
	mc::suite("solve", "A*, IDA*, weighted A* and greedy search from every start of up to 5 cakes, every 61st otherwise (thorough: every 7th)", 16, [=](uint64_t c) {
		static std::map<std::string, int> dist;
		Ref m("");
		if (dist.empty()) {
			std::vector<std::string> q(1);
			for (int i = 0; i < N; i++)
				q[0] += '0' + i;
			dist[q[0]] = 0;
			for (size_t i = 0; i < q.size(); i++) {
				std::string at = q[i];
				for (auto &n : m.succ(at))
					if (!dist.count(n.key)) {
						dist[n.key] = dist[at] + 1;
						q.push_back(n.key);
					}
			}
		}
		uint64_t step = N <= 5 ? 1 : mc::thorough ? 7 : 61;
		for (uint64_t p = c * step; p < total; p += 16 * step) {
			std::string k = perm(p);
			if (!mc::begin([&] { return mc::strf("solving %s", k.c_str()); }))
				continue;
			Memfile f(inst(k));
			Pancake d(f);
			m.init = k;
			solve<Pancake>(d, m, {"astar"}, dist[k], 1);
			solve<Pancake>(d, m, {"idastar"}, dist[k], 1);
			solve<Pancake>(d, m, {"wastar", "-wt", "1.5"}, dist[k], 1.5);
			solve<Pancake>(d, m, {"greedy"}, dist[k], 1e9);
			mc::count(nsolves, 4);
		}
	}, 60);
	mc::suite("sizes", "instances of the wrong size", 1, [](uint64_t) {
		for (int n = 1; n <= 12; n++) {
			if (!mc::begin([&] { return mc::strf("%d cakes given to a program for %d", n, (int) N); }))
				continue;
			std::string s = mc::strf("%d\n", n);
			for (int i = 0; i < n; i++)
				s += mc::strf("%d ", i);
			Memfile f(s);
			bool refused = false;
			fatalok = true;
			try {
				Pancake d(f);
			} catch (Fatal&) {
				refused = true;
			}
			fatalok = false;
			MC_CHECK(refused == (n != N), "size", "%d cakes are %s", n, refused ? "refused" : "accepted");
		}
	});
}

MC_MAIN
