// C15: the generator writes solvable puzzles, and can write each of them.
#include "mc.hpp"
#include "utils/utils.hpp"
#include <set>
#include <vector>

static int nruns, nrejected, nwritten;

void fatal(const char *fmt, ...) { mc::fail("fatal", "fatal error: %s", fmt); }
void fatalx(int, const char *fmt, ...) { mc::fail("fatal", "fatal error: %s", fmt); }
double walltime() { return 1; }
double cputime() { return 1; }

extern "C" int tiles_generator_main(int, char*[]);

// The random numbers are the choices of the explorer; after them they follow a fixed sequence.
static std::vector<unsigned> choices;
static size_t at;
static uint64_t lcg;

uint64_t Rand::bits() {
	if (at < choices.size())
		return choices[at++];
	at++;
	lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL;
	return lcg >> 33;
}

// solvable by the parity of the permutation and the way of the blank.
static bool solvable(const std::vector<int> &pos, int w) {
	int n = pos.size();
	std::vector<bool> seen(n, false);
	int parity = 0;
	for (int i = 0; i < n; i++) {
		for (int j = i, len = 0; !seen[j]; j = pos[j], len++) {
			seen[j] = true;
			if (len > 0)
				parity ^= 1;
		}
	}
	int b = pos[0];	// the goal has it at 0
	return (parity & 1) == ((b % w + b / w) & 1);
}

static std::vector<int> readinst(const std::string &p, int w, int h) {
	FILE *f = fopen(p.c_str(), "r");
	MC_CHECK(f, "write", "%s was not written", p.c_str());
	int fw, fh;
	MC_CHECK(fscanf(f, "%d %d starting positions for each tile:", &fw, &fh) == 2 && fw == w && fh == h, "write", "bad header");
	std::vector<int> pos(w * h);
	std::set<int> s;
	for (auto &x : pos) {
		MC_CHECK(fscanf(f, " %d", &x) == 1 && x >= 0 && x < w * h, "write", "bad position");
		s.insert(x);
	}
	MC_CHECK((int) s.size() == w * h, "write", "two tiles at one position");
	char lbl[64];
	MC_CHECK(fscanf(f, " goal positions%1[:]", lbl) == 1, "write", "no goal positions");
	for (int i = 0; i < w * h; i++) {
		int x;
		MC_CHECK(fscanf(f, " %d", &x) == 1 && x == i, "write", "goal position of %d is %d", i, x);
	}
	fclose(f);
	return pos;
}

static std::vector<int> runone(int w, int h, int n, const std::string &dir = mc::scratch) {
	std::string W = mc::strf("%d", w), H = mc::strf("%d", h), cnt = mc::strf("%d", n);
	const char *av[] = { "generator", "-w", W.c_str(), "-h", H.c_str(), "-n", cnt.c_str(), "-d", dir.c_str(), "-seed", "7", NULL };
	at = 0;
	lcg = 99;
	static int err = -1;
	if (err < 0) {
		err = open("/dev/null", O_WRONLY);
		dup2(err, 2);
	}
	int r = tiles_generator_main(11, (char**) av);
	MC_CHECK(r == 0, "run", "the generator returned %d", r);
	fflush(NULL);
	mc::count(nruns);
	std::vector<int> first;
	for (int i = 0; i < n; i++) {
		auto pos = readinst(dir + mc::strf("/%d", i), w, h);
		unlink((dir + mc::strf("/%d", i)).c_str());
		std::string s;
		for (int x : pos)
			s += mc::strf(" %d", x);
		MC_CHECK(solvable(pos, w), "solvable", "an unsolvable %dx%d puzzle was written: tiles at%s", w, h, s.c_str());
		mc::count(nwritten);
		if (i == 0)
			first = pos;
	}
	return first;
}

static void all(int w, int h) {
	std::set<std::vector<int>> seen;
	int n = w * h;
	size_t total = 1;
	for (int i = 2; i <= n; i++)
		total *= i;
	for (size_t c = 0; c < total; c++) {
		if (!mc::begin([&] { return mc::strf("%dx%d, shuffle %zu", w, h, c); }))
			continue;
		size_t x = c;
		choices.clear();
		for (int i = 2; i <= n; i++) {
			choices.push_back(x % i);
			x /= i;
		}
		seen.insert(runone(w, h, 1));
		if (at > choices.size())
			mc::count(nrejected);
		mc::states();
	}
	if (mc::begin([&] { return mc::strf("%dx%d, all of the above", w, h); }))
		MC_CHECK(seen.size() == total / 2 || seen.empty(), "all", "only %zu of the %zu solvable puzzles can be written", seen.size(), total / 2);
}

void mc_setup() {
	nruns = mc::counter("runs");
	nrejected = mc::counter("runs that rejected a shuffle");
	nwritten = mc::counter("puzzles");
	static const int sz[][2] = { { 2, 2 }, { 3, 2 }, { 2, 3 }, { 2, 4 }, { 4, 2 } };
	mc::suite("gen", "the generator under every outcome of its first shuffle: 2x2, 3x2, 2x3 (thorough: 4x2, 2x4)", mc::thorough ? 5 : 3,
		[](uint64_t c) { all(sz[c][0], sz[c][1]); }, 120);
	mc::suite("gensizes", "the generator for every size up to 6x6, 30 puzzles each", 36, [](uint64_t c) {
		int w = c % 6 + 1, h = c / 6 + 1;
		if (w < 2 || h < 2)
			return;
		if (!mc::begin([&] { return mc::strf("%dx%d, 30 puzzles", w, h); }))
			return;
		choices.clear();
		runone(w, h, 30);
	});
	mc::suite("gendirs", "the generator writing into directories with names of up to 200 bytes", 1, [](uint64_t) {
		choices.clear();
		for (int n = 1; n <= 200; n += 3) {
			if (!mc::begin([&] { return mc::strf("a directory name of %d bytes", n); }))
				continue;
			std::string d = mc::scratch + "/" + std::string(n, 'd');
			mkdir(d.c_str(), 0700);
			runone(3, 3, 12, d);
			rmdir(d.c_str());
		}
		if (mc::begin([&] { return std::string("1100 puzzles"); }))
			runone(3, 3, 1100);
	});
}

MC_MAIN
