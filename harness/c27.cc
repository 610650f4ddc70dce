// C27: profiles of anytime searches, and the policies that stop them.
#include "algos.hpp"
#include "proc.hpp"
#include "search/anyprof/profile.hpp"
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include <map>
#include <set>
#include <unistd.h>
#include <sys/stat.h>

extern "C" int search_anyprof_mkprof_main(int, const char*[]);
extern "C" int search_anyprof_bestwt_main(int, const char*[]);
extern "C" int search_anyprof_sptcounts_main(int, const char*[]);
extern "C" int search_anyprof_sptpolicy_main(int, const char*[]);
extern "C" int search_learnh_hlms_main(int, const char*[]);

static int nprofiles, npolicies, nstops, nreads, nruns, nearly, nprograms, nsamples, nset;
static Capture *cap;
#define START if (!cap) cap = new Capture

// The random draws of hlms, which runs in a process of its own.
struct Draws {
	long given[64], ranges[64];
	size_t ngiven, n;
};
static Draws *draws;
static void newdraws() {
	static pid_t owner;
	if (owner == getpid())
		return;
	owner = getpid();
	draws = (Draws*) mmap(NULL, sizeof(Draws), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
int64_t Rand::integer(long min, long max) {
	if (!draws || min == max)
		return min;
	size_t i = draws->n++;
	if (i >= 64)
		_exit(99);
	draws->ranges[i] = max - min + 1;
	return min + (i < draws->ngiven ? draws->given[i] : 0);
}

// The LAPACK routine: least squares by the normal equations.
extern "C" void dgels_(char *trans, int *m, int *n, int *nrhs, double *a, int *lda, double *b, int *ldb, double *work, int *lwork, int *info) {
	*info = 0;
	if (*lwork == -1) {
		*work = 8;
		return;
	}
	int N = *n;
	if (*trans != 'N' || *nrhs != 1 || *lda < *m || *ldb < *m || N > 8)
		mc::fail("leastsquares", "wrong arguments");
	long double M[8][9];
	for (int i = 0; i < N; i++) {
		for (int j = 0; j < N; j++) {
			M[i][j] = 0;
			for (int r = 0; r < *m; r++)
				M[i][j] += (long double) a[i * *lda + r] * a[j * *lda + r];
		}
		M[i][N] = 0;
		for (int r = 0; r < *m; r++)
			M[i][N] += (long double) a[i * *lda + r] * b[r];
	}
	for (int i = 0; i < N; i++) {
		int p = i;
		for (int r = i; r < N; r++)
			if (fabsl(M[r][i]) > fabsl(M[p][i]))
				p = r;
		for (int c = 0; c <= N; c++)
			std::swap(M[i][c], M[p][c]);
		if (fabsl(M[i][i]) < 1e-9) {
			*info = i + 1;
			return;
		}
		for (int r = 0; r < N; r++)
			if (r != i) {
				long double f = M[r][i] / M[i][i];
				for (int c = i; c <= N; c++)
					M[r][c] -= f * M[i][c];
			}
	}
	for (int i = 0; i < N; i++)
		b[i] = M[i][N] / M[i][i];
}

// A stream of solutions in whole units of cost and time.
struct Sol {
	int c, t;
};
typedef std::vector<Sol> Stream;

struct Scale {
	double cm, ca, tm, ta;
};
static const Scale scales[] = { { 1, 0, 1, 0 }, { 2, 100, 0.25, 0.5 }, { 12345.678, 7654321.25, 0.0123456789, 1e-3 } };

static std::string show(const std::vector<Stream> &ss) {
	std::string s;
	for (auto &st : ss) {
		s += " (";
		for (auto &x : st)
			s += mc::strf(" %d@%d", x.c, x.t);
		s += " )";
	}
	return s;
}

// What a profile ought to be.
struct Ref {
	int nc, nt, minc, maxc, mint, maxt;
	bool ambiguous;		// a value at the edge of bins whose width is rounded
	std::vector<std::vector<long>> n;	// [cost bin][elapsed]
	std::vector<std::vector<std::vector<double>>> p;	// [from][elapsed][to]

	int bin(int x, int range, int bins, bool exact) {
		if (x == range)
			return bins - 1;
		if (x != 0 && x * bins % range == 0 && !(exact && fmod(range * 1024.0, bins) == 0))
			ambiguous = true;
		return x * bins / range;
	}

	Ref(int c, int t, const std::vector<Stream> &ss, bool exact) : nc(c), nt(t), minc(1 << 30), maxc(-1), mint(1 << 30), maxt(-1), ambiguous(false) {
		for (auto &s : ss)
			for (auto &x : s) {
				minc = std::min(minc, x.c);
				maxc = std::max(maxc, x.c);
				mint = std::min(mint, x.t);
				maxt = std::max(maxt, x.t);
			}
		n.assign(nc, std::vector<long>(nt, 0));
		std::vector<std::vector<std::vector<long>>> m(nc, std::vector<std::vector<long>>(nt, std::vector<long>(nc, 0)));
		// After each time, the bin of the best solution so far.
		for (auto &s : ss)
			for (size_t i = 0; i < s.size(); i++) {
				int from = bin(s[i].c - minc, maxc - minc, nc, exact);
				for (int dt = 0; dt < nt; dt++) {
					int to = from;
					for (size_t j = i + 1; j < s.size(); j++)
						if (bin(s[j].t - s[i].t, maxt - mint, nt, exact) <= dt)
							to = bin(s[j].c - minc, maxc - minc, nc, exact);
					n[from][dt]++;
					m[from][dt][to]++;
				}
			}
		double small = 2;
		for (int f = 0; f < nc; f++)
			for (int dt = 0; dt < nt; dt++)
				for (int to = 0; to < nc; to++)
					if (m[f][dt][to] > 0)
						small = std::min(small, m[f][dt][to] / (double) n[f][dt]);
		p.assign(nc, std::vector<std::vector<double>>(nt, std::vector<double>(nc, 0)));
		for (int f = 0; f < nc; f++)
			for (int dt = 0; dt < nt; dt++) {
				double sum = 0;
				for (int to = 0; to <= f; to++)
					sum += p[f][dt][to] = small / 2 + (n[f][dt] ? m[f][dt][to] / (double) n[f][dt] : 0);
				for (int to = 0; to <= f; to++)
					p[f][dt][to] /= sum;
			}
	}

	// policy gives, for each bin of cost and time, 1 for stop, 0 for go, -1 for either.
	std::vector<std::vector<int>> policy(const Scale &sc, double wf, double wt) const {
		std::vector<std::vector<int>> pol(nc, std::vector<int>(nt, 1));
		std::vector<std::vector<double>> v(nc, std::vector<double>(nt));
		double qw = (maxc - minc) * sc.cm / nc, tw = (maxt - mint) * sc.tm / nt;
		auto util = [&](int q, int t) {
			return -(wf * (sc.ca + sc.cm * minc + qw * (q + .5)) + wt * (sc.ta + sc.tm * mint + tw * (t + .5)));
		};
		for (int t = nt - 1; t >= 0; t--)
			for (int q = 0; q < nc; q++) {
				double stop = util(q, t), go = -HUGE_VAL;
				v[q][t] = stop;
				if (t == nt - 1 || q == 0)
					continue;	// there is nothing to wait for
				go = 0;
				for (int to = 0; to <= q; to++)
					go += p[q][1][to] * v[to][t + 1];
				double tol = 1e-9 * (fabs(stop) + 1);
				pol[q][t] = go > stop + tol ? 0 : go < stop - tol ? 1 : -1;
				v[q][t] = std::max(go, stop);
			}
		return pol;
	}
};

static std::vector<AnytimeProfile::SolutionStream> real(const std::vector<Stream> &ss, const Scale &sc) {
	std::vector<AnytimeProfile::SolutionStream> r;
	for (auto &s : ss) {
		r.emplace_back();
		for (auto &x : s)
			r.back().push_back(AnytimeProfile::Solution{ sc.ca + sc.cm * x.c, sc.ta + sc.tm * x.t });
	}
	return r;
}

static void sameprofile(const char *what, const AnytimeProfile &a, const Ref &r, const Scale &sc) {
	MC_CHECK((int) a.ncost == r.nc && (int) a.ntime == r.nt, "bins", "%s: %u bins of cost, %u of time", what, a.ncost, a.ntime);
	auto eq = [](double x, double y) { return x == y || fabs(x - y) <= 1e-13 * fabs(y); };
	MC_CHECK(eq(a.mincost, sc.ca + sc.cm * r.minc) && eq(a.maxcost, sc.ca + sc.cm * r.maxc) && eq(a.mintime, sc.ta + sc.tm * r.mint) && eq(a.maxtime, sc.ta + sc.tm * r.maxt),
		"range", "%s: costs %.17g to %.17g, times %.17g to %.17g", what, a.mincost, a.maxcost, a.mintime, a.maxtime);
	for (int f = 0; f < r.nc; f++)
		for (int dt = 0; dt < r.nt; dt++) {
			MC_CHECK(a.qtcount(f, dt) == r.n[f][dt], "count", "%s: bin %d after %d: %u seen, not %ld", what, f, dt, a.qtcount(f, dt), r.n[f][dt]);
			double sum = 0;
			for (int to = 0; to < r.nc; to++) {
				double p = a.binprob(to, f, dt);
				sum += p;
				MC_CHECK(fabs(p - r.p[f][dt][to]) < 1e-12, "probability", "%s: from %d to %d after %d: %.17g, not %.17g", what, f, to, dt, p, r.p[f][dt][to]);
			}
			MC_CHECK(fabs(sum - 1) < 1e-12, "probability", "%s: from %d after %d: the sum is %.17g", what, f, dt, sum);
		}
	MC_CHECK(a.binprob(r.nc, 0, 0) == 0 && a.binprob(0, r.nc, 0) == 0 && a.binprob(0, 0, r.nt) == 0, "probability", "%s: outside of the bins it is not 0", what);
}

static const double weights[][2] = { { 1, 0 }, { 0, 1 }, { 1, 1 }, { 1, 3 }, { 5, 0.25 } };

static void checkpolicy(const char *what, const AnytimeMonitor &mon, const Ref &r, const Scale &sc, double wf, double wt) {
	auto pol = r.policy(sc, wf, wt);
	double minc = sc.ca + sc.cm * r.minc, maxc = sc.ca + sc.cm * r.maxc, mint = sc.ta + sc.tm * r.mint, maxt = sc.ta + sc.tm * r.maxt;
	double qw = (maxc - minc) / r.nc, tw = (maxt - mint) / r.nt;
	if (r.maxc > r.minc && r.maxt > r.mint)
		for (int q = 0; q < r.nc; q++)
			for (int t = 0; t < r.nt; t++)
				for (double dq : { .01, .5, .99 })
					for (double dt : { .01, .5, .99 }) {
						if (pol[q][t] < 0)
							continue;
						bool s = mon.stop(minc + qw * (q + dq), mint + tw * (t + dt));
						MC_CHECK(s == (pol[q][t] == 1), "policy", "%s: weights %g %g, bin %d at %d (%g %g): %s", what, wf, wt, q, t, dq, dt, s ? "stop" : "go");
						mc::count(s ? nstops : npolicies, 1);
					}
	MC_CHECK(!mon.stop(minc - 1, mint) && !mon.stop(minc, mint - 1) && !mon.stop(minc - 1, maxt + 1) && !mon.stop(maxc + 1, mint - 1), "range", "%s: stops below the range", what);
	MC_CHECK(mon.stop(maxc, mint) && mon.stop(minc, maxt) && mon.stop(maxc + 1, mint) && mon.stop(minc, maxt + 1), "range", "%s: goes on at the end of the range", what);
	MC_CHECK(fabs(mon.deltat() - tw) <= 1e-13 * fabs(tw), "deltat", "%s: deltat is %g", what, mon.deltat());
}

static bool profile(const std::vector<Stream> &ss, int nc, int nt, int scale, const std::string &name = "") {
	const Scale &sc = scales[scale];
	Ref r(nc, nt, ss, scale == 0);
	if (r.ambiguous) {
		mc::count(nset);
		return false;
	}
	if (!mc::begin([&] { return mc::strf("%d x %d bins, scale %d:", nc, nt, scale) + (name.empty() ? show(ss) : name); }))
		return true;
	mc::states();
	mc::count(nprofiles);
	AnytimeProfile p(nc, nt, real(ss, sc));
	cap->text();
	sameprofile("made", p, r, sc);
	std::string text = [&] {
		char *b = NULL;
		size_t n = 0;
		FILE *f = open_memstream(&b, &n);
		p.save(f);
		fclose(f);
		std::string s(b, n);
		free(b);
		return s;
	}();
	FILE *in = fmemopen((void*) text.data(), text.size(), "r");
	AnytimeProfile q(in);
	fclose(in);
	sameprofile("read back", q, r, sc);
	mc::count(nreads);
	for (auto &w : weights) {
		checkpolicy("made", AnytimeMonitor(p, w[0], w[1]), r, sc, w[0], w[1]);
		mc::transitions();
	}
	checkpolicy("read back", AnytimeMonitor(q, 1, 3), r, sc, 1, 3);
	mc::validated();
	if (r.maxc > r.minc && nc > 1 && nt > 1)
		mc::nontrivial();
	return true;
}

// Every stream of up to len solutions that improve over time.
static std::vector<Stream> streams(int len, int costs, int times) {
	std::vector<Stream> out;
	std::function<void(Stream)> rec = [&](Stream s) {
		if (s.size())
			out.push_back(s);
		if ((int) s.size() == len)
			return;
		for (int t = s.size() ? s.back().t + 1 : 0; t < times; t++)
			for (int c = s.size() ? s.back().c : costs; c >= 1; c--) {
				Stream n = s;
				n.push_back(Sol{ c, t });
				rec(n);
			}
	};
	rec(Stream());
	return out;
}

static void singles(uint64_t c, uint64_t n) {
	START;
	auto all = streams(4, 4, 6);
	for (size_t i = c; i < all.size(); i += n)
		for (int nc = 1; nc <= 6; nc++)
			for (int nt = 1; nt <= 6; nt++)
				for (int sc = 0; sc < 3; sc++)
					profile({ all[i] }, nc, nt, sc);
}

static void pairs(uint64_t c, uint64_t n) {
	START;
	auto all = streams(3, 4, 5);
	uint64_t step = mc::thorough ? 1 : 7;
	for (uint64_t k = 0, m = 0; k < all.size() * all.size(); k += step, m++) {
		if (m % n != c)
			continue;
		size_t i = k / all.size(), j = k % all.size();
		for (int nc = 2; nc <= 4; nc++)
			for (int nt = 2; nt <= 4; nt++)
				profile({ all[i], all[j] }, nc, nt, 0);
	}
}

static void triples(uint64_t c, uint64_t n) {
	START;
	auto all = streams(2, 3, 3);
	for (uint64_t k = c; k < all.size() * all.size() * all.size(); k += n)
		for (int nc = 2; nc <= 3; nc++)
			for (int nt = 2; nt <= 3; nt++)
				profile({ all[k % all.size()], all[k / all.size() % all.size()], all[k / all.size() / all.size()], {} }, nc, nt, k % 3);
}

// Many bins, many solutions, many streams.
static void wide(uint64_t c, uint64_t n) {
	START;
	const int N = 300;
	static const int bins[][2] = { { 300, 1 }, { 300, 2 }, { 300, 3 }, { 1, 300 }, { 2, 300 }, { 3, 300 }, { 256, 4 }, { 4, 256 }, { 30, 60 }, { 100, 100 }, { 3, 3 } };
	uint64_t k = 0;
	for (int shape = 0; shape < 6; shape++) {
		std::vector<Stream> ss;
		switch (shape) {
		case 0:	// one long stream
			ss.emplace_back();
			for (int i = 0; i <= N; i++)
				ss[0].push_back(Sol{ N + 1 - i, i });
			break;
		case 1:	// that keeps each solution for a while
			ss.emplace_back();
			for (int i = 0; i <= N; i += 1 + i % 4)
				ss[0].push_back(Sol{ N + 1 - i * i / N, i });
			ss[0].push_back(Sol{ 1, N });
			break;
		case 2:	// many short ones
			for (int i = 0; i < N; i++)
				ss.push_back({ { N + 1, 0 }, { N - i, 1 + i * 7 % (N - 1) }, { 1, N } });
			break;
		case 3:	// one falls at once, one late
			ss.push_back({ { N + 1, 0 }, { 1, 1 } });
			ss.push_back({ { N + 1, 0 }, { N, N - 1 }, { 1, N } });
			ss.push_back({ { 200, 10 }, { 100, 250 } });
			break;
		case 4:	// more than a small count holds
			for (int i = 0; i < 70000; i++)
				ss.push_back(i % 7 ? Stream{ { N + 1, 0 }, { 1, 150 } } : i % 2 ? Stream{ { N + 1, 0 }, { 150, N } } : Stream{ { 150, 20 } });
			break;
		case 5:
			for (int i = 0; i <= N; i++)
				ss.push_back({ { N + 1 - i, i } });
			break;
		}
		for (auto &b : bins) {
			if (shape == 4 && b[0] * b[1] > 1000)
				continue;
			if (k++ % n == c && !profile(ss, b[0], b[1], 0, mc::strf(" shape %d", shape)))
				abort();	// choose others
		}
	}
}

// The programs.

static void rmtree(const std::string &p) { rmrecur(p); }

static void put(const std::string &path, const std::string &text) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f)
		abort();
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}

static std::string slurp(const std::string &path) {
	FILE *f = fopen(path.c_str(), "r");
	if (!f)
		return "";
	std::string s;
	for (int ch; (ch = fgetc(f)) != EOF; )
		s.push_back(ch);
	fclose(f);
	return s;
}

static int call(int (*fn)(int, const char*[]), const std::vector<std::string> &words, std::string &out) {
	std::vector<const char*> av;
	for (auto &w : words)
		av.push_back(w.c_str());
	av.push_back(NULL);
	Ran r = runmain("", [&] { return fn(words.size(), av.data()); });
	out = r.out;
	mc::count(nprograms);
	return r.sig ? -r.sig : r.status;
}

static void makeprofiles(uint64_t c, uint64_t n) {
	START;
	if (chdir(mc::scratch.c_str()) != 0)
		abort();
	auto all = streams(2, 3, 3);
	uint64_t step = mc::thorough ? 1 : 5;
	for (uint64_t k = 0, m = 0; k < all.size() * all.size(); k += step, m++) {
		if (m % n != c)
			continue;
		int nc = 2 + k % 2, nt = 2 + k / 2 % 2, scale = k / 4 % 3;
		const Scale &sc = scales[scale];
		std::vector<Stream> ss = { all[k % all.size()], all[k / all.size()] };
		Ref r(nc, nt, ss, scale == 0);
		if (r.ambiguous || !mc::begin([&] { return mc::strf("%d x %d bins, scale %d:", nc, nt, scale) + show(ss); }))
			continue;
		mc::states();
		rmtree("db");
		mkdir("db", 0777);
		for (int i = 0; i < 3; i++) {
			RdbAttrs a;
			a.push_back("domain", "d");
			a.push_back("alg", i < 2 ? "arastar" : "other");
			a.push_back("num", i == 0 ? "1" : "2");
			std::string text = "#start data file format 4\n#altcols  \"incumbent\"\t\"num\"\t\"nodes expanded\"\n#altrow  \"else\"\t1\t2\t3\t4\t5\t6\t7\n";
			for (auto &x : ss[i % 2])
				text += mc::strf("#altrow  \"%s\"\t1\t2\t3\t4\t5\t%.17g\t%.17g\n", i == 1 ? "sol" : "incumbent", sc.ca + sc.cm * x.c, sc.ta + sc.tm * x.t);
			put(pathfor("db", a), text + "#end data file format 4\n");
		}
		std::string out;
		int rc = call(search_anyprof_mkprof_main, { "mkprof", "db", mc::strf("%d", nc), mc::strf("%d", nt), "alg=arastar", "domain=d" }, out);
		MC_CHECK(rc == 0, "mkprof", "it exits with %d: %s", rc, out.c_str());
		RdbAttrs want;
		want.push_back("alg", "arastar.profile");
		want.push_back("domain", "d");
		want.push_back("cost bins", mc::strf("%d", nc));
		want.push_back("time bins", mc::strf("%d", nt));
		auto paths = withattrs("db", want);
		MC_CHECK(paths.size() == 1, "mkprof", "%zu profiles are found: %s", paths.size(), out.c_str());
		AnytimeProfile p(paths[0]);
		sameprofile("mkprof", p, r, sc);
		// The plots of it.
		rc = call(search_anyprof_sptcounts_main, { "sptcounts", paths[0] }, out);
		MC_CHECK(rc == 0, "sptcounts", "it exits with %d", rc);
		std::set<std::string> have;
		for (auto &l : splitlines(out)) {
			unsigned t, q, cnt;
			char close;
			if (sscanf(l.c_str(), " (%u %u %u%c", &t, &q, &cnt, &close) == 4)
				have.insert(mc::strf("%u %u %u", t, q, cnt));
		}
		for (int q = 0; q < nc; q++)
			for (int t = 0; t < nt; t++)
				MC_CHECK(have.count(mc::strf("%d %d %ld", t, q, r.n[q][t])), "sptcounts", "no point for %d %d %ld: %s", t, q, r.n[q][t], out.c_str());
		MC_CHECK((int) have.size() == nc * nt, "sptcounts", "%zu points", have.size());
		for (auto &w : weights) {
			rc = call(search_anyprof_sptpolicy_main, { "sptpolicy", paths[0], mc::strf("%g", w[0]), mc::strf("%g", w[1]) }, out);
			MC_CHECK(rc == 0, "sptpolicy", "it exits with %d", rc);
			if (r.maxc == r.minc || r.maxt == r.mint)
				continue;
			auto pol = r.policy(sc, w[0], w[1]);
			int going = 0, points = 0;
			for (auto &l : splitlines(out)) {
				double t, q;
				if (l.find("(go-pts") != std::string::npos)
					going = 1;
				if (sscanf(l.c_str(), " (%lg %lg)", &t, &q) != 2)
					continue;
				points++;
				// the centre of a bin
				double tb = ((t - sc.ta) / sc.tm - r.mint) / (r.maxt - r.mint) * nt, qb = ((q - sc.ca) / sc.cm - r.minc) / (r.maxc - r.minc) * nc;
				MC_CHECK(fabs(tb - floor(tb) - .5) < .05 && fabs(qb - floor(qb) - .5) < .05 && tb > 0 && tb < nt && qb > 0 && qb < nc, "sptpolicy", "the point %g %g", t, q);
				int x = pol[(int) qb][(int) tb];
				MC_CHECK(x < 0 || x == !going, "sptpolicy", "weights %g %g: bin %d at %d is among those that %s", w[0], w[1], (int) qb, (int) tb, going ? "go" : "stop");
			}
			MC_CHECK(points == nc * nt, "sptpolicy", "%d points", points);
		}
		mc::validated();
	}
}

static void bestweights(uint64_t c, uint64_t n) {
	START;
	if (chdir(mc::scratch.c_str()) != 0)
		abort();
	static const double ws[] = { 1.5, 1, 3 }, costs[] = { 10, 4, 5 }, times[] = { 1, 4 };
	static const double uw[][2] = { { 1, 1 }, { 1, 0 }, { 0, 1 }, { 1, 3 } };
	for (int files = 1; files <= 3; files++) {
		int total = 1;
		for (int i = 0; i < files; i++)
			total *= 18;
		for (int k = 0; k < total; k += files == 3 && !mc::thorough ? 5 : 1) {
			if (k % n != c)
				continue;
			if (!mc::begin([&] { return mc::strf("%d files, %d", files, k); }))
				continue;
			mc::states();
			rmtree("db");
			mkdir("db", 0777);
			std::vector<std::vector<double>> fs;
			for (int i = 0, x = k; i < files; i++, x /= 18) {
				double w = ws[x % 3], co = costs[x / 3 % 3], t = times[x / 9 % 2];
				fs.push_back({ w, co, t });
				RdbAttrs a;
				a.push_back("alg", "wastar");
				a.push_back("num", mc::strf("%d", i));
				put(pathfor("db", a), mc::strf("#start data file format 4\n#pair  \"final sol cost\"\t\"%g\"\n#pair  \"weight\"\t\"%g\"\n#pair  \"wt\"\t\"9\"\n"
					"#altrow  \"weight\"\t77\n#pair  \"total wall time\"\t\"%g\"\n#end data file format 4\n", co, w, t));
			}
			for (auto &u : uw) {
				std::map<double, std::pair<double, int>> sum;
				for (auto &f : fs) {
					sum[f[0]].first += u[0] * f[1] + u[1] * f[2];
					sum[f[0]].second++;
				}
				double least = HUGE_VAL;
				for (auto &s : sum)
					least = std::min(least, s.second.first / s.second.second);
				std::string out;
				call(search_anyprof_bestwt_main, { "bestwt", mc::strf("%g", u[0]), mc::strf("%g", u[1]), "db", "alg=wastar" }, out);
				double w = strtod(out.c_str(), NULL);
				MC_CHECK(sum.count(w), "bestwt", "it prints %s", out.c_str());
				MC_CHECK(sum[w].first / sum[w].second <= least + 1e-9, "bestwt", "it prints %g, whose average is %g, not %g", w, sum[w].first / sum[w].second, least);
			}
			mc::validated();
			mc::nontrivial(files > 1);
		}
	}
}

static void samples(uint64_t c, uint64_t n) {
	START;
	if (chdir(mc::scratch.c_str()) != 0)
		abort();
	for (int sz = 4; sz <= 5; sz++)
		for (int total = 4; total <= (mc::thorough ? 8 : 7); total++)
			for (int which = 0; which < 2; which++)
				for (int files = 1; files <= 2; files++) {
					if ((uint64_t) (((sz * 9 + total) * 2 + which) * 2 + files) % n != c)
						continue;
					if (!mc::begin([&] { return mc::strf("%d of %d records in %d files for %s", sz, total, files, which ? "d" : "h"); }))
						continue;
					// record i: g, h, D, d, h*, d*
					std::vector<std::vector<double>> rec;
					for (int i = 0; i < total; i++)
						rec.push_back({ double(i * i % 7 + 1), double((i * 5 + 2) % 11), double(i * i * i % 13 + 3), double((i + 4) * (i + 1) % 17), double(100 + i), double(200 + 3 * i % 10 + 10 * i) });
					rmtree("db");
					mkdir("db", 0777);
					std::map<std::string, std::vector<int>> where;
					for (int f = 0; f < files; f++) {
						RdbAttrs a;
						a.push_back("num", mc::strf("%d", f));
						std::string p = pathfor("db", a), text = "#start data file format 4\n#altrow  \"other\"\t1\t2\t3\t4\t5\t6\n";
						for (int i = f; i < total; i += files) {
							text += "#altrow  \"path\"";
							for (double x : rec[i])
								text += mc::strf("\t%g", x);
							text += "\n";
						}
						put(p, text + "#end data file format 4\n");
					}
					// every outcome of the draws
					std::vector<double> kept(total, 0);
					std::vector<long> next;
					for (bool more = true; more; ) {
						newdraws();
						draws->n = 0;
						draws->ngiven = next.size();
						for (size_t i = 0; i < next.size(); i++)
							draws->given[i] = next[i];
						std::string out;
						call(search_learnh_hlms_main, { "hlms", mc::strf("%d", sz), which ? "d" : "h", "db" }, out);
						mc::states();
						double prob = 1;
						std::vector<long> ranges(draws->ranges, draws->ranges + draws->n);
						for (long r : ranges)
							prob /= r;
						std::vector<int> rows;
						for (auto &l : splitlines(slurp("lms.spt"))) {
							double target, est;
							if (sscanf(l.c_str(), " (%lg %lg)", &target, &est) != 2)
								continue;
							int found = -1;
							for (int i = 0; i < total; i++)
								if (rec[i][which ? 5 : 4] == target)
									found = i;
							MC_CHECK(found >= 0, "hlms", "a point at %g", target);
							MC_CHECK(!std::count(rows.begin(), rows.end(), found), "hlms", "record %d is there twice", found);
							rows.push_back(found);
							kept[found] += prob;
						}
						MC_CHECK((int) rows.size() == std::min(sz, total), "hlms", "%zu points", rows.size());
						// The fit.
						double x[4];
						MC_CHECK(sscanf(out.c_str(), "%lf,%lf,%lf,%lf", x, x + 1, x + 2, x + 3) == 4, "hlms", "it prints %s", out.c_str());
						// The error is orthogonal to each feature: h, g, d, D.
						static const int feat[] = { 1, 0, 3, 2 };
						for (int j = 0; j < 4; j++) {
							double dot = 0, mag = 0;
							for (int r : rows) {
								double est = 0;
								for (int i = 0; i < 4; i++)
									est += x[i] * rec[r][feat[i]];
								dot += (est - rec[r][which ? 5 : 4]) * rec[r][feat[j]];
								mag += fabs(rec[r][feat[j]]) * 40;
							}
							MC_CHECK(fabs(dot) <= 1e-6 * mag + 1e-6, "hlms", "%s is not the least squares fit: feature %d has %g", out.c_str(), j, dot);
						}
						mc::count(nsamples);
						mc::validated();
						// the next outcome
						next.resize(ranges.size(), 0);
						more = false;
						for (size_t i = next.size(); i-- > 0; ) {
							if (++next[i] < ranges[i]) {
								more = true;
								break;
							}
							next[i] = 0;
						}
					}
					for (int i = 0; i < total; i++)
						MC_CHECK(fabs(kept[i] - std::min(1.0, sz / (double) total)) < 1e-9, "hlms", "record %d is kept with probability %g", i, kept[i]);
					mc::nontrivial(total > sz);
				}
}

// The searches that stop by a policy.

typedef GD<int> D;
static double secs;	// that an expansion takes

struct Full {
	std::vector<int> trace;
	std::vector<long> cost;	// of the incumbent before each expansion and after the last, or -1
	long final;
};

static void tick(D *d) { mcclock = 1000 + secs * d->nexp; }

static Full fullrun(const Graph &g, const Args &args) {
	Full f;
	D d(g, hashes(1));
	d.maxexp = 20000;
	d.tracing = true;
	d.onexpand = tick;
	mcclock = 1000;
	mctick = 0;
	Args a(args);
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	f.final = runsearch<D>(*alg, d);
	cap->text();
	f.trace = d.trace;
	// The cost of the incumbent is that of the goal when it was chosen.
	std::vector<long> best(g.n, GInf);
	best[g.start] = 0;
	long inc = -1;
	for (int v : f.trace) {
		f.cost.push_back(inc);
		if (g.goal[v])
			inc = best[v];
		for (auto &a : g.adj[v])
			best[a.to] = std::min(best[a.to], best[v] + a.cost);
	}
	f.cost.push_back(inc);
	return f;
}

template <class Stop> static void stopped(const Graph &g, const Args &args, const Full &f, const Stop &stop) {
	D d(g, hashes(1));
	d.maxexp = 20000;
	d.tracing = true;
	d.onexpand = tick;
	mcclock = 1000;
	mctick = 0;
	Args a(args);
	std::unique_ptr<SearchAlgorithm<D>> alg(make<D>(a));
	cap->text();
	long c = runsearch<D>(*alg, d);
	std::string out = cap->text(), conv;
	size_t k = 0;
	while (k < f.trace.size() && !(f.cost[k] >= 0 && stop(f.cost[k], secs * k)))
		k++;
	MC_CHECK(d.trace.size() == k, "stop", "%zu expansions, but the policy stops after %zu of %zu (incumbent %ld)", d.trace.size(), k, f.trace.size(), f.cost[k]);
	for (size_t i = 0; i < k; i++)
		MC_CHECK(d.trace[i] == f.trace[i], "trace", "expansion %zu is of %d, not %d", i, d.trace[i], f.trace[i]);
	MC_CHECK(c <= f.cost[k] && (c < 0) == (f.cost[k] < 0), "incumbent", "it returns a path of cost %ld, not %ld", c, f.cost[k]);
	MC_CHECK(dfvalue(out, "converged", conv) && (conv == "no" || k == f.trace.size() || c == g.dist[g.start]), "converged", "converged is %s: %s", conv.c_str(), out.c_str());
	mc::count(nruns);
	if (k < f.trace.size()) {
		mc::count(nearly);
		mc::nontrivial();
	}
}

static void policies(const Graph &g, uint64_t variant) {
	static const char *wts[][2] = { { "3", "1" }, { "5", "0.5" }, { "2", "0.25" } };
	auto w = wts[variant % 3];
	static const std::vector<std::vector<Stream>> profs = {
		{ { { 12, 1 }, { 6, 8 } }, { { 10, 2 }, { 8, 4 }, { 2, 12 } } },
		{ { { 16, 0 }, { 15, 3 } }, { { 16, 5 }, { 1, 21 } } },
		{ { { 20, 0 }, { 10, 1 }, { 5, 2 }, { 1, 16 } } },
		{ { { 9, 3 }, { 3, 5 } }, { { 7, 2 } }, { { 9, 6 }, { 8, 18 } } },
	};
	secs = 1;
	Full f;
	bool have = false;
	for (size_t pi = 0; pi < profs.size(); pi++)
		for (auto &u : { std::make_pair("1", "1"), std::make_pair("4", "0.5"), std::make_pair("0.2", "3") }) {
			if ((variant + pi) % 2 && !mc::thorough)
				continue;
			const int nc = 4, nt = pi % 2 ? 3 : 8;
			if (!mc::begin([&] { return mc::strf("arastarmon -wt0 %s -dwt %s -wf %s -wt %s, profile %zu, ", w[0], w[1], u.first, u.second, pi) + g.str(); }))
				continue;
			if (!have)
				f = fullrun(g, { "x", "arastar", "-wt0", w[0], "-dwt", w[1] });
			have = true;
			std::string path = mc::scratch + mc::strf("/prof%zu", pi);
			static std::set<std::string> made;
			if (made.insert(path).second) {
				AnytimeProfile p(nc, nt, real(profs[pi], scales[0]));
				FILE *o = fopen(path.c_str(), "w");
				p.save(o);
				fclose(o);
				cap->text();
			}
			Ref r(nc, nt, profs[pi], true);
			auto pol = r.policy(scales[0], atof(u.first), atof(u.second));
			bool unclear = r.ambiguous;
			for (auto &row : pol)
				for (int x : row)
					unclear |= x < 0;
			if (unclear)
				abort();	// choose others
			stopped(g, { "x", "arastarmon", "-wt0", w[0], "-dwt", w[1], "-p", path.c_str(), "-wf", u.first, "-wt", u.second }, f, [&](double c, double t) {
				if (c < r.minc || t < r.mint)
					return false;
				if (c >= r.maxc || t >= r.maxt)
					return true;
				return pol[(int) ((c - r.minc) * nc / (r.maxc - r.minc))][(int) ((t - r.mint) * nt / (r.maxt - r.mint))] == 1;
			});
		}
	for (const char *lambda : { "0.25", "1", "3" })
		for (auto &u : { std::make_pair("1", "1"), std::make_pair("4", "0.5"), std::make_pair("0.5", "4") }) {
			if (!mc::begin([&] { return mc::strf("arastarnora -wt0 %s -dwt %s -wf %s -wt %s -lambda %s, ", w[0], w[1], u.first, u.second, lambda) + g.str(); }))
				continue;
			if (!have)
				f = fullrun(g, { "x", "arastar", "-wt0", w[0], "-dwt", w[1] });
			have = true;
			stopped(g, { "x", "arastarnora", "-wt0", w[0], "-dwt", w[1], "-lambda", lambda, "-wf", u.first, "-wt", u.second }, f, [&](double c, double t) {
				return t * atof(u.second) * atof(lambda) >= c * atof(u.first);
			});
		}
}

void mc_setup() {
	nprofiles = mc::counter("profiles");
	npolicies = mc::counter("bins_in_which_to_go_on");
	nstops = mc::counter("bins_in_which_to_stop");
	nreads = mc::counter("profiles_read_back");
	nset = mc::counter("set_aside_by_rounding");
	nprograms = mc::counter("programs_run");
	nsamples = mc::counter("outcomes_of_sampling");
	nruns = mc::counter("searches_with_a_policy");
	nearly = mc::counter("searches_stopped_early");
	mc::suite("singles", "every stream of up to 4 solutions over 4 costs and 6 times, up to 6x6 bins, in 3 scales", 32, [](uint64_t c) { singles(c, 32); });
	mc::suite("pairs", "every 7th (thorough: every) two streams of up to 3 solutions over 4 costs and 5 times, 2x2 to 4x4 bins", 32, [](uint64_t c) { pairs(c, 32); });
	mc::suite("triples", "every three streams of up to 2 solutions over 3 costs and 3 times", 32, [](uint64_t c) { triples(c, 32); });
	mc::suite("wide", "up to 300 bins of cost or of time, streams of 300 solutions, and 70000 streams", 16, [](uint64_t c) { wide(c, 16); });
	mc::suite("mkprof", "the programs that make and show profiles", 16, [](uint64_t c) { makeprofiles(c, 16); });
	mc::suite("bestwt", "up to 3 datafiles of 3 weights, 3 costs and 2 times", 16, [](uint64_t c) { bestweights(c, 16); });
	mc::suite("hlms", "every sample of 4 or 5 of up to 7 (thorough: 8) records", 8, [](uint64_t c) { samples(c, 8); });
	mc::suite("layer", "searches that stop by a policy: layered graphs, 2x2 with shortcuts, costs {1,4}, h in {0,h*}", 64, [](uint64_t c) {
		START;
		uint64_t k = 0;
		layered(2, 2, {1, 4}, true, c, 64, [&](Graph &g) {
			heuristics(g, 2, [&](Graph &g) {
				if (k++ % (mc::thorough ? 1 : 7) == 0)
					policies(g, k);
			});
		});
	});
	mc::suite("rungs", "searches that stop by a policy: rungs that are entered dearly first and improved later", 64, [](uint64_t c) {
		START;
		mc::Product p;
		p.add(4);	// h of the cheap entrance
		p.add(3);	// direct arc
		p.add(2);	// cost of the dear entrance
		p.add(3);	// h of the rung
		p.add(3);	// h of its tail
		p.add(2);	// cost of the tail
		p.add(3);	// h of the second rung
		p.add(3);	// of its tail
		static const int h1[] = { 0, 1, 2, 4 }, direct[] = { 0, 12, 20 }, hr[] = { 0, 2, 1 }, cost[] = { 3, 8 };
		for (uint64_t k = c; k < p.size(); k += 64) {
			p.set(k);
			Graph g;
			g.init(7);
			g.goal[6] = 1;
			g.arc(0, 1, 1);
			g.h[1] = h1[p[0]];
			if (p[1])
				g.arc(0, 6, direct[p[1]]);
			for (int i = 0; i < 2; i++) {
				int r = 2 + 2 * i, tail = cost[i ? 1 : p[5]];
				g.arc(0, r, 2 + 2 * p[2]);
				g.arc(1, r, 1);
				g.arc(r, r + 1, 1);
				g.arc(r + 1, 6, tail);
				g.h[r] = hr[p[i ? 6 : 3]];
				int x = p[i ? 7 : 4];
				g.h[r + 1] = x == 0 ? tail : x == 1 ? tail / 2 : 0;
			}
			g.solve();
			policies(g, k);
		}
	});
}

MC_MAIN
