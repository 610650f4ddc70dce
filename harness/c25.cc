// C25: encodings, datafiles, checked arithmetic, numbers, ranks, hashes, random numbers.
#include "mc.hpp"
#include "utils/utils.hpp"
#include "utils/safeops.hpp"
#include <algorithm>
#include <cmath>
#include <climits>
#include <cstdarg>
#include <functional>
#include <limits>
#include <map>
#include <set>

struct Fatal { std::string msg; };
static bool fatalok;
static void onfatal(const char *fmt, va_list ap) {
	char buf[1024];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	if (fatalok)
		throw Fatal{buf};
	mc::fail("fatal", "fatal error: %s", buf);
}
void fatal(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}
void fatalx(int, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}
template <class F> static bool dies(const F &f) {
	fatalok = true;
	bool died = false;
	try {
		f();
	} catch (Fatal &) {
		died = true;
	}
	fatalok = false;
	return died;
}
template <class F> static std::string written(const F &fn) {
	char *buf = NULL;
	size_t sz = 0;
	FILE *f = open_memstream(&buf, &sz);
	try {
		fn(f);
	} catch (...) {
		fclose(f);
		free(buf);
		throw;
	}
	fclose(f);
	std::string s(buf, sz);
	free(buf);
	return s;
}

static int nb64, nrl, na85, npairs, nrows, nrefused, nlines, ntok, nsafe, nover, nperm, npart, nhash, nrand, nnum, nquad;

static std::string hex(const std::string &s) {
	std::string r;
	for (size_t i = 0; i < s.size() && i < 40; i++)
		r += mc::strf("%02x", s[i] & 0xFF);
	return r + (s.size() > 40 ? mc::strf("... (%zu)", s.size()) : "");
}

// Encodings.

static std::string ref64(const std::string &s) {
	static const char *tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	unsigned long acc = 0;
	int bits = 0;
	for (unsigned char c : s) {
		acc = acc << 8 | c;
		bits += 8;
		while (bits >= 6) {
			bits -= 6;
			r.push_back(tab[acc >> bits & 63]);
		}
	}
	if (bits)
		r.push_back(tab[acc << (6 - bits) & 63]);
	while (r.size() % 4)
		r.push_back('=');
	return r;
}

// unrun undoes PackBits: n >= 0 is n+1 bytes as they are, n < 0 is 1-n times one byte.
static bool unrun(const std::string &s, std::string &r) {
	for (size_t i = 0; i < s.size(); ) {
		int n = (signed char) s[i++];
		if (n < 0) {
			if (i >= s.size())
				return false;
			r.append(1 - n, s[i++]);
		} else {
			if (i + n + 1 > s.size())
				return false;
			r.append(s, i, n + 1);
			i += n + 1;
		}
	}
	return true;
}

static bool un85(const std::string &s, std::string &r) {
	for (size_t i = 0; i < s.size(); ) {
		if (s[i] == 'z') {
			r.append(4, '\0');
			i++;
			continue;
		}
		size_t n = std::min((size_t) 5, s.size() - i);
		if (n < 2)
			return false;
		uint64_t w = 0;
		for (size_t j = 0; j < 5; j++) {
			int d = j < n ? s[i + j] - '!' : 84;
			if (d < 0 || d > 84)
				return false;
			w = w * 85 + d;
		}
		if (w > 0xFFFFFFFFu)
			return false;
		for (size_t j = 0; j + 1 < n; j++)
			r.push_back(w >> (24 - 8 * j) & 0xFF);
		i += n;
	}
	return true;
}

static void encoded(const std::string &s) {
	if (!mc::begin([&] { return hex(s); }))
		return;
	std::string e = base64enc(s);
	MC_CHECK(e == ref64(s), "base64", "the base64 of %s is %s, not %s", hex(s).c_str(), e.c_str(), ref64(s).c_str());
	MC_CHECK(base64dec(e) == s, "base64", "%s is decoded as %s", e.c_str(), hex(base64dec(e)).c_str());
	mc::count(nb64);
	std::string r = runlenenc(s), u;
	MC_CHECK(unrun(r, u) && u == s, "run length", "the runs of %s are %s, which mean %s", hex(s).c_str(), hex(r).c_str(), hex(u).c_str());
	MC_CHECK(runlendec(r) == s, "run length", "the runs %s are decoded as %s", hex(r).c_str(), hex(runlendec(r)).c_str());
	MC_CHECK(r.size() <= s.size() + s.size() / 64 + 1, "run length", "%zu bytes become %zu", s.size(), r.size());
	mc::count(nrl);
	mc::states();
	std::string a = ascii85enc(s), v;
	MC_CHECK(un85(a, v) && v == s, "ascii85", "the ascii85 of %s is %s, which means %s", hex(s).c_str(), a.c_str(), hex(v).c_str());
	mc::count(na85);
	MC_CHECK(runlendec(base64dec(base64enc(runlenenc(s)))) == s, "controls", "%s is not read as it was written", hex(s).c_str());
	if (r.size() < s.size())
		mc::nontrivial();
	mc::validated();
}

static void bytes(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	if (c == 0)
		encoded("");
	for (int len = 1; len <= 2; len++)
		for (unsigned i = 0; i < (len == 1 ? 256u : 65536u); i++) {
			if (k++ % n != c)
				continue;
			std::string s;
			for (int j = 0; j < len; j++)
				s.push_back(i >> (8 * j));
			encoded(s);
		}
	static const unsigned char some[] = { 0, 1, 0x7F, 0x80, 0xFF, 'a', 0x55, 0xAA };
	for (int len = 3; len <= (mc::thorough ? 7 : 5); len++)
		for (uint64_t i = 0; i < 1ULL << (3 * len); i++) {
			if (k++ % n != c)
				continue;
			std::string s;
			for (int j = 0; j < len; j++)
				s.push_back(some[i >> (3 * j) & 7]);
			encoded(s);
		}
	for (int len = 6; len <= (mc::thorough ? 18 : 14); len++)
		for (uint64_t i = 0; i < 1ULL << len; i++) {
			if (k++ % n != c)
				continue;
			std::string s;
			for (int j = 0; j < len; j++)
				s.push_back(i >> j & 1 ? 4 : 6);
			encoded(s);
		}
}

// Every sequence of runs, and of stretches without runs, of the lengths at which something changes.
static void runs(uint64_t c, uint64_t n) {
	static const int lens[] = { 1, 2, 3, 4, 63, 64, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 380, 381, 382, 509 };
	const int nl = sizeof(lens) / sizeof(lens[0]);
	uint64_t k = 0;
	for (int parts = 1; parts <= 3; parts++) {
		uint64_t total = 1;
		for (int i = 0; i < parts; i++)
			total *= 2 * nl;
		for (uint64_t x = 0; x < total; x++) {
			if (k++ % n != c || (parts == 3 && !mc::thorough && x % 3))
				continue;
			std::string s;
			uint64_t r = x;
			for (int i = 0; i < parts; i++, r /= 2 * nl) {
				int l = lens[r % nl];
				bool run = r / nl % 2;
				for (int j = 0; j < l; j++)
					s.push_back(run ? 'a' + i : (j & 1 ? 0x80 : 0) + j % 5 + 8 * i);
			}
			encoded(s);
		}
	}
}

// Datafiles.

struct Seen { std::vector<std::vector<std::string>> lines; };
static void see(std::vector<std::string> &l, void *p) { ((Seen*) p)->lines.push_back(l); }
static std::vector<std::vector<std::string>> readback(const std::string &text, std::string *echo = NULL) {
	Seen s;
	FILE *f = fmemopen((void*) text.data(), text.size(), "r");
	if (echo)
		*echo = written([&](FILE *e) { dfread(f, see, &s, e); });
	else
		dfread(f, see, &s);
	fclose(f);
	return s.lines;
}
static std::string join(const std::vector<std::vector<std::string>> &v) {
	std::string r;
	for (auto &l : v) {
		for (auto &t : l)
			r += "[" + t + "]";
		r += "/";
	}
	return r;
}
static std::string letters(int n, int from) {
	std::string s;
	for (int i = 0; i < n; i++)
		s.push_back((i + from) % 11 == 10 ? ' ' : 'a' + (i + from) % 26);
	return s;
}

static void pairs(uint64_t c, uint64_t n) {
	for (int k = 1; k <= 300; k++) {
		if (k % n != c)
			continue;
		for (int v = 0; v <= 560; v++) {
			if (v > 4 && v < 225 - k && !mc::thorough)
				continue;
			if (v > 275 && v % 31 && !mc::thorough)
				continue;
			if (!mc::begin([&] { return mc::strf("a pair of %d and %d characters", k, v); }))
				continue;
			std::string key = letters(k, 0), val = letters(v, 3);
			std::string out;
			mc::states();
			if (dies([&] { out = written([&](FILE *f) { dfpair(f, key.c_str(), "%s", val.c_str()); }); })) {
				MC_CHECK(k > 200, "refused", "the pair is refused");
				mc::count(nrefused);
				continue;
			}
			std::string want = "#pair  \"" + key + "\"\t\"" + val + "\"\n";
			MC_CHECK(out == want, "pair", "it is written as %s", out.c_str());
			auto l = readback(out);
			MC_CHECK((l == std::vector<std::vector<std::string>>{ { "#pair", key, val } }), "pair", "it is read as %s", join(l).c_str());
			mc::count(npairs);
			mc::nontrivial();
		}
	}
}

static void rows(uint64_t c, uint64_t n) {
	// columns of each kind
	static const double dbl[] = { 0, 1, -1.5, 1e300, 1e-7, 123456789, 3.25 };
	static const long lng[] = { 0, 1, -1, LONG_MAX, LONG_MIN, 42, 100 };
	static const unsigned long uns[] = { 0, 1, ULONG_MAX, 7, 99, 1000000, 12345 };
	uint64_t k = 0;
	auto text = [&](char f, int i) {
		char b[400];
		if (f == 'g')
			snprintf(b, sizeof(b), "%g", dbl[i]);
		else if (f == 'f')
			snprintf(b, sizeof(b), "%f", dbl[i]);
		else if (f == 'd')
			snprintf(b, sizeof(b), "%ld", lng[i]);
		else
			snprintf(b, sizeof(b), "%lu", uns[i]);
		return std::string(b);
	};
	for (int i = 0; i < 7; i++)
		for (int f = 0; f < 64; f++)
			for (int nm = 1; nm <= 260; nm++) {
				// Names such that the line ends near the size of the buffer, and short ones.
				if (k++ % n != c)
					continue;
				std::string fmt;
				size_t len = 10 + nm + 1;
				for (int j = 0, r = f; j < 3; j++, r /= 4) {
					fmt.push_back("gfdu"[r % 4]);
					len += 1 + text(fmt[j], (i + j) % 7).size();
				}
				if (nm > 3 && (len < 250 || len > 262))
					continue;
				if (!mc::begin([&] { return mc::strf("a row of name of %d, %s %d", nm, fmt.c_str(), i); }))
					continue;
				mc::states();
				std::string name = letters(nm, 0), out;
				std::vector<std::string> want = { "#altrow", name };
				std::string line = "#altrow  \"" + name + "\"";
				for (int j = 0; j < 3; j++) {
					want.push_back(text(fmt[j], (i + j) % 7));
					line += "\t" + want.back();
				}
				bool died = dies([&] {
					out = written([&](FILE *o) {
						// Each of the columns has one of two types.
						bool d[3];
						for (int j = 0; j < 3; j++)
							d[j] = fmt[j] == 'g' || fmt[j] == 'f';
						double x[3];
						unsigned long y[3];
						for (int j = 0; j < 3; j++) {
							x[j] = dbl[(i + j) % 7];
							y[j] = fmt[j] == 'd' ? (unsigned long) lng[(i + j) % 7] : uns[(i + j) % 7];
						}
						const char *a = name.c_str(), *b = fmt.c_str();
						switch (d[0] * 4 + d[1] * 2 + d[2]) {
						case 0: dfrow(o, a, b, y[0], y[1], y[2]); break;
						case 1: dfrow(o, a, b, y[0], y[1], x[2]); break;
						case 2: dfrow(o, a, b, y[0], x[1], y[2]); break;
						case 3: dfrow(o, a, b, y[0], x[1], x[2]); break;
						case 4: dfrow(o, a, b, x[0], y[1], y[2]); break;
						case 5: dfrow(o, a, b, x[0], y[1], x[2]); break;
						case 6: dfrow(o, a, b, x[0], x[1], y[2]); break;
						case 7: dfrow(o, a, b, x[0], x[1], x[2]); break;
						}
					});
				});
				if (died) {
					MC_CHECK(line.size() > 200, "refused", "the row is refused: %s", line.c_str());
					mc::count(nrefused);
					continue;
				}
				MC_CHECK(out == line + "\n", "row", "it is written as %s", out.c_str());
				auto l = readback(out);
				MC_CHECK(l == std::vector<std::vector<std::string>>{ want }, "row", "it is read as %s", join(l).c_str());
				mc::count(nrows);
			}
	// headers
	for (int nm = 1; nm <= 80; nm++)
		for (int a = 1; a <= 120; a++) {
			if (k++ % n != c)
				continue;
			if (!mc::begin([&] { return mc::strf("the header of a name of %d and columns of %d", nm, a); }))
				continue;
			mc::states();
			std::string name = letters(nm, 0), x = letters(a, 1), y = letters((a * 7 + nm) % 40 + 1, 2), out;
			std::string line = "#altcols  \"" + name + "\"\t\"" + name + " " + x + "\"\t\"" + name + " " + y + "\"";
			if (dies([&] { out = written([&](FILE *o) { dfrowhdr(o, name.c_str(), 2, x.c_str(), y.c_str()); }); })) {
				MC_CHECK(line.size() > 200, "refused", "the header is refused: %s", line.c_str());
				mc::count(nrefused);
				continue;
			}
			MC_CHECK(out == line + "\n", "header", "it is written as %s", out.c_str());
			auto l = readback(out);
			MC_CHECK((l == std::vector<std::vector<std::string>>{ { "#altcols", name, name + " " + x, name + " " + y } }), "header", "it is read as %s", join(l).c_str());
			mc::count(nrows);
		}
}

// Files of a few lines: just the lines of the three kinds are seen.
static void files(uint64_t c, uint64_t n) {
	struct { const char *text; std::vector<std::string> want; } ls[] = {
		{ "", {} },
		{ "#pair  \"k\"\t\"v\"", { "#pair", "k", "v" } },
		{ "#pair\t\"a key\"  \"a value\"", { "#pair", "a key", "a value" } },
		{ "#pair  \"k\"\t\"\"", { "#pair", "k", "" } },
		{ "#altcols  \"n\"\t\"n a\"\t\"n b\"", { "#altcols", "n", "n a", "n b" } },
		{ "#altrow  \"n\"\t1\t-2.5e+10", { "#altrow", "n", "1", "-2.5e+10" } },
		{ "#altrow  \"n\"\t1\t2 ", { "#altrow", "n", "1", "2" } },
		{ "#altrow  \"n\"", { "#altrow", "n" } },
		{ "#altcols\t\"n\"\t\"n a\"", { "#altcols", "n", "n a" } },
		{ "#altrow\t\"n\"   7", { "#altrow", "n", "7" } },
		{ "some text", {} },
		{ " #pair  \"k\"\t\"v\"", {} },
		{ "pair  \"k\"\t\"v\"", {} },
		{ "#pair  \"k\"\t\"v\"\r", { "#pair", "k", "v" } },
		{ "#", {} },
		{ "#start data file format 4", {} },
	};
	const int nl = sizeof(ls) / sizeof(ls[0]);
	for (int len = 1; len <= (mc::thorough ? 5 : 4); len++) {
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= nl;
		for (uint64_t x = c; x < total * 2; x += n) {
			if (!mc::begin([&] { return mc::strf("file %d/%lu", len, (unsigned long) x); }))
				continue;
			mc::states();
			std::string text;
			std::vector<std::vector<std::string>> want;
			uint64_t r = x / 2;
			for (int i = 0; i < len; i++, r /= nl) {
				auto &l = ls[r % nl];
				text += l.text;
				if (i < len - 1 || x % 2)
					text += "\n";
				if (l.want.size())
					want.push_back(l.want);
			}
			if (text.empty())
				continue;
			std::string echo;
			auto got = readback(text, &echo);
			MC_CHECK(got == want, "read", "%s is read as %s, not %s", text.c_str(), join(got).c_str(), join(want).c_str());
			if (text.back() != '\n')
				text.push_back('\n');
			// An empty last line without its end is no line.
			MC_CHECK(echo == text || echo + "\n" == text, "echo", "%s is echoed as %s", text.c_str(), echo.c_str());
			mc::count(nlines, len);
			mc::validated();
		}
	}
	if (c != 0)
		return;
	// the head and foot of a file
	if (mc::begin([] { return "head and foot"; })) {
		std::string out = written([](FILE *f) {
			dfheader(f);
			dffooter(f);
		});
		auto l = readback(out);
		std::map<std::string, std::string> m;
		for (auto &x : l) {
			MC_CHECK(x.size() == 3 && x[0] == "#pair", "head", "a line of the head is %s", join({ x }).c_str());
			m[x[1]] = x[2];
		}
		static const std::string a = "#start data file format 4\n", b = "#end data file format 4\n";
		MC_CHECK(out.substr(0, a.size()) == a && out.size() > b.size() && out.substr(out.size() - b.size()) == b, "head", "the file is %s", out.c_str());
		for (auto k : { "wall start date", "wall start time", "machine id", "wall finish time", "wall finish date", "max virtual kilobytes" })
			MC_CHECK(m.count(k) && m[k].size(), "head", "no %s in %s", k, out.c_str());
		MC_CHECK(atof(m["wall start time"].c_str()) <= atof(m["wall finish time"].c_str()), "head", "it ends before it starts: %s", out.c_str());
		MC_CHECK(strtoul(m["max virtual kilobytes"].c_str(), NULL, 10) > 100, "head", "the memory is %s", m["max virtual kilobytes"].c_str());
	}
	// a quote that is not closed
	for (const char *t : { "#pair  \"k\"\t\"v", "#pair  \"k", "#altrow \"" }) {
		if (!mc::begin([&] { return t; }))
			continue;
		MC_CHECK(dies([&] { readback(t); }), "refuse", "%s is read", t);
		mc::count(nrefused);
	}
}

// Lines and tokens: every string of up to a few of the characters that matter.
static void toks(uint64_t c, uint64_t n) {
	static const char alpha[] = "ab \t\"\n";
	const int na = 6;
	for (int len = 0; len <= (mc::thorough ? 8 : 7); len++) {
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= na;
		for (uint64_t x = c; x < total; x += n) {
			std::string s;
			uint64_t r = x;
			for (int i = 0; i < len; i++, r /= na)
				s.push_back(alpha[r % na]);
			if (!mc::begin([&] { return hex(s); }))
				continue;
			mc::states();
			// Only where quotes are apart from other tokens.
			bool apart = true, in = false;
			std::vector<std::string> want;
			std::string t;
			bool has = false;
			for (size_t i = 0; i < s.size(); i++) {
				if (s[i] == '"') {
					if (!in && i > 0 && !isspace(s[i - 1]))
						apart = false;
					if (in && i + 1 < s.size() && !isspace(s[i + 1]))
						apart = false;
					if (in) {
						want.push_back(t);
						t.clear();
						has = false;
					} else
						has = false;
					in = !in;
				} else if (!in && isspace(s[i])) {
					if (has)
						want.push_back(t);
					t.clear();
					has = false;
				} else {
					t.push_back(s[i]);
					has = true;
				}
			}
			if (has && !in)
				want.push_back(t);
			if (in)
				MC_CHECK(dies([&] { tokens(s); }), "tokens", "%s, whose quote is open, has tokens", s.c_str());
			else if (apart) {
				auto got = tokens(s);
				MC_CHECK(got == want, "tokens", "the tokens of %s are %s", s.c_str(), join({ got }).c_str());
				// one after another
				std::vector<char> buf(s.begin(), s.end());
				buf.push_back('\0');
				char *p = buf.data(), *end = p + s.size();
				std::vector<std::string> one;
				while (p < end) {
					char *v = gettoken(p);
					if (!v)
						break;
					one.push_back(v);
					p = v + strlen(v) + 1;
				}
				MC_CHECK(one == want, "gettoken", "the tokens of %s, one by one, are %s", s.c_str(), join({ one }).c_str());
				mc::count(ntok, want.size());
			}
			// its lines
			std::vector<std::string> lines, wantl;
			std::string l;
			for (char ch : s) {
				if (ch == '\n') {
					wantl.push_back(l);
					l.clear();
				} else
					l.push_back(ch);
			}
			if (l.size())
				wantl.push_back(l);
			if (s.size()) {
				FILE *f = fmemopen((void*) s.data(), s.size(), "r");
				while (boost::optional<std::string> o = readline(f))
					lines.push_back(*o);
				fclose(f);
			}
			MC_CHECK(lines == wantl, "lines", "the lines of %s are %s", hex(s).c_str(), join({ lines }).c_str());
			mc::count(nlines, lines.size());
			for (size_t i = 0; i <= s.size(); i++) {
				std::string pre = s.substr(0, i);
				MC_CHECK(hasprefix(s.c_str(), pre.c_str()), "prefix", "%s does not begin with %s", s.c_str(), pre.c_str());
				if (i < s.size()) {
					pre.push_back(s[i] == 'a' ? 'b' : 'a');
					MC_CHECK(!hasprefix(s.c_str(), pre.c_str()), "prefix", "%s begins with %s", s.c_str(), pre.c_str());
				}
			}
			MC_CHECK(!hasprefix(s.c_str(), (s + "a").c_str()), "prefix", "%s begins with more", s.c_str());
		}
	}
}

// Checked arithmetic.

template <class N> static void safepair(N a, N b, const char *type) {
	typedef __int128 W;
	W lo = std::numeric_limits<N>::min(), hi = std::numeric_limits<N>::max();
	mc::transitions(4);
	for (int op = 0; op < 4; op++) {
		W r = 0;
		bool bad = false;
		switch (op) {
		case 0: r = (W) a + b; break;
		case 1: r = (W) a - b; break;
		case 2: r = (W) a * (W) b; break;
		case 3:
			bad = b == 0;
			if (!bad)
				r = (W) a / (W) b;
			break;
		}
		// The product of two 64 bit numbers fits into 128 bits if they are not both unsigned and large.
		if (op == 2 && !std::numeric_limits<N>::is_signed && sizeof(N) == 8) {
			unsigned __int128 u = (unsigned __int128) a * (unsigned __int128) b;
			bad = u > (unsigned __int128) hi;
			r = bad ? 0 : (W) u;
		}
		bad |= r < lo || r > hi;
		bool threw = false, over = false;
		N got = 0;
		try {
			got = op == 0 ? safe::add(a, b) : op == 1 ? safe::sub(a, b) : op == 2 ? safe::mul(a, b) : safe::div(a, b);
		} catch (const safe::BadFlow<N> &e) {
			threw = true;
			over = e.over;
			MC_CHECK(e.a == a && e.b == b && e.op[0] == "+-*/"[op], "exception", "the exception of %s %lld %c %lld has %lld %s %lld", type, (long long) a, "+-*/"[op], (long long) b,
				(long long) e.a, e.op, (long long) e.b);
		}
		MC_CHECK(threw == bad, "checked", "%s %lld %c %lld %s", type, (long long) a, "+-*/"[op], (long long) b, threw ? "throws" : "does not throw");
		if (bad) {
			mc::count(nover);
			if (op != 3 && !(op == 2 && sizeof(N) == 8))
				MC_CHECK(over == (r > hi), "checked", "%s %lld %c %lld throws for %s", type, (long long) a, "+-*/"[op], (long long) b, over ? "overflow" : "underflow");
		} else
			MC_CHECK((W) got == r, "checked", "%s %lld %c %lld is %lld", type, (long long) a, "+-*/"[op], (long long) b, (long long) got);
		if (op == 2)
			MC_CHECK(safe::can_mul(a, b) == !bad, "can_mul", "can_mul of %s %lld and %lld is %d", type, (long long) a, (long long) b, bad);
		mc::count(nsafe);
	}
}

template <class N> static void safesome(const char *type) {
	std::set<N> vals;
	N lo = std::numeric_limits<N>::min(), hi = std::numeric_limits<N>::max();
	for (int i = 0; i < 5; i++) {
		vals.insert(lo + i);
		vals.insert(hi - i);
		vals.insert((N) i);
		vals.insert((N) (0 - i));
		vals.insert(hi / 2 + (i - 2));
		vals.insert(lo / 2 + (std::numeric_limits<N>::is_signed ? i - 2 : i));
		vals.insert(hi / 3 + (i - 2));
	}
	for (int b = 0; b < (int) sizeof(N) * 8 - 1; b++)
		for (int d = -1; d <= 1; d++) {
			N v = (N) 1 << b;
			vals.insert(v + d);
			if (std::numeric_limits<N>::is_signed)
				vals.insert(-v + d);
		}
	for (N a : vals) {
		if (!mc::begin([&] { return mc::strf("%s %lld", type, (long long) a); }))
			continue;
		for (N b : vals)
			safepair<N>(a, b, type);
		mc::validated();
	}
}

template <class N> static void safeall(const char *type, uint64_t c, uint64_t n) {
	int lo = std::numeric_limits<N>::min(), hi = std::numeric_limits<N>::max();
	for (int a = lo + (int) c; a <= hi; a += n) {
		if (!mc::begin([&] { return mc::strf("%s %d", type, a); }))
			continue;
		mc::states();
		for (int b = lo; b <= hi; b++)
			safepair<N>(a, b, type);
		mc::validated();
	}
}

// Numbers.

static void numbers() {
	for (int b = 0; b <= 32; b++) {
		if (!mc::begin([&] { return mc::strf("the %d-bit numbers", b); }))
			continue;
		for (int64_t d = -64; d <= 64; d++) {
			int64_t v = (1LL << b) + d;
			if (v < 0 || v > 0xFFFFFFFFLL)
				continue;
			unsigned bits = 0;
			while (v >> bits)
				bits++;
			MC_CHECK(ilog2(v) == bits, "ilog2", "%lld has %u bits", (long long) v, ilog2(v));
			mc::count(nnum);
		}
	}
	for (unsigned v = 0; v < (mc::thorough ? 1u << 26 : 1u << 20); v++) {
		if (v % 65536 == 0 && !mc::begin([&] { return mc::strf("the numbers from %u", v); })) {
			v += 65535;
			continue;
		}
		unsigned bits = v ? 32 - __builtin_clz(v) : 0;
		MC_CHECK(ilog2(v) == bits, "ilog2", "%u has %u bits", v, ilog2(v));
	}
	for (unsigned b = 0; b <= 40; b++) {
		if (!mc::begin([&] { return mc::strf("powers of %u", b); }))
			continue;
		unsigned __int128 p = 1;
		for (unsigned e = 0; p <= ULONG_MAX && e < 70; e++, p *= b) {
			MC_CHECK(ipow(b, e) == (unsigned long) p, "ipow", "%u to the %u is %lu", b, e, ipow(b, e));
			mc::count(nnum);
		}
	}
	for (unsigned x = 0; x <= 20; x++) {
		if (!mc::begin([&] { return mc::strf("%u falling", x); }))
			continue;
		unsigned long p = 1;
		for (unsigned k = 0; k <= x + 2; k++) {
			MC_CHECK(fallfact(x, k) == p, "fallfact", "%u to the %u falling is %lu, not %lu", x, k, fallfact(x, k), p);
			mc::count(nnum);
			p *= k <= x ? x - k : 0;
		}
	}
	// commas
	static const unsigned long nums[] = { 0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 123456789, 1000000000, ULONG_MAX };
	for (unsigned long v : nums) {
		if (!mc::begin([&] { return mc::strf("commas of %lu", v); }))
			continue;
		std::string s = std::to_string(v), w;
		for (size_t i = 0; i < s.size(); i++) {
			if (i && (s.size() - i) % 3 == 0)
				w.push_back(',');
			w.push_back(s[i]);
		}
		MC_CHECK(commas("%lu", v) == w, "commas", "%lu is %s", v, commas("%lu", v).c_str());
		if (v < 1e15)
			MC_CHECK(commas("%.2f", (double) v) == w + ".00", "commas", "%lu is %s", v, commas("%.2f", (double) v).c_str());
		mc::count(nnum);
	}
	// the normal distribution: its values, and the integral of the density is the distribution
	for (double mu : { -2.0, 0.0, 0.5, 3.0 })
		for (double sd : { 0.25, 1.0, 2.0 }) {
			if (!mc::begin([&] { return mc::strf("normal %g %g", mu, sd); }))
				continue;
			Normal d(mu, sd);
			for (int i = -12; i <= 12; i++) {
				double x = mu + sd * i / 4.0, z = i / 4.0;
				double cdf = 0.5 * erfc(-z / sqrt(2.0)), pdf = exp(-z * z / 2) / (sd * sqrt(2 * M_PI));
				MC_CHECK(fabs(d.cdf(x) - cdf) < 1e-12 && fabs(normcdf(mu, sd, x) - cdf) < 1e-12 && fabs(phi(z) - cdf) < 1e-12, "normal", "the distribution at %g is %g, %g, %g, not %g",
					x, d.cdf(x), normcdf(mu, sd, x), phi(z), cdf);
				MC_CHECK(fabs(d.pdf(x) - pdf) < 1e-12, "normal", "the density at %g is %g, not %g", x, d.pdf(x), pdf);
				double in = integrate([&](double t) { return d.pdf(t); }, mu, x < mu ? mu : x, sd / 64);
				if (x >= mu)
					MC_CHECK(fabs(in - (cdf - 0.5)) < 1e-4, "integrate", "the integral to %g is %g, not %g", x, in, cdf - 0.5);
				mc::count(nquad);
			}
		}
	for (double a = -2; a <= 2; a += 0.5)
		for (double len = 0; len <= 3; len += 0.125)
			for (double step : { 0.1, 0.25, 0.3, 1.0, 5.0 }) {
				if (!mc::begin([&] { return mc::strf("integral from %g over %g by %g", a, len, step); }))
					continue;
				auto f = [](double x) { return 3 * x - 1; };
				double b = a + len, want = 1.5 * (b * b - a * a) - len, got = integrate(f, a, b, step);
				MC_CHECK(fabs(got - want) < 1e-9, "integrate", "the integral is %g, not %g", got, want);
				mc::count(nquad);
			}
}

// Ranks: of all permutations, and of all parts of them.
static void ranks(uint64_t c) {
	for (unsigned n = 1; n <= (mc::thorough ? 9u : 8u); n++)
		for (unsigned k = 1; k <= n; k++) {
			if ((n + k) % 8 != c)
				continue;
			if (!mc::begin([&] { return mc::strf("%u of %u", k, n); }))
				continue;
			Ranker full(n), part(n, k);
			unsigned long total = 1;
			for (unsigned i = 0; i < k; i++)
				total *= n - i;
			std::vector<bool> seen(total);
			std::vector<unsigned> p(k);
			unsigned long count = 0;
			// lexicographic order
			std::function<void(unsigned, unsigned)> rec = [&](unsigned i, unsigned used) {
				if (i == k) {
					unsigned long r = part.rank(p.data());
					MC_CHECK(r < total, "rank", "the rank of number %lu of the %u of %u is %lu", count, k, n, r);
					MC_CHECK(!seen[r], "rank", "two of the %u of %u have rank %lu", k, n, r);
					MC_CHECK(r == count, "rank", "number %lu of the %u of %u has rank %lu", count, k, n, r);
					seen[r] = true;
					if (k == n)
						MC_CHECK(full.rank(p.data()) == r, "rank", "the permutation with rank %lu has rank %lu of the other ranker", r, full.rank(p.data()));
					count++;
					mc::states();
					mc::count(k == n ? nperm : npart);
					return;
				}
				for (unsigned v = 0; v < n; v++)
					if (!(used >> v & 1)) {
						p[i] = v;
						rec(i + 1, used | 1u << v);
					}
			};
			rec(0, 0);
			MC_CHECK(count == total, "rank", "%lu of %lu", count, total);
			mc::validated();
		}
	// parts of the 16 and 25 tiles
	for (unsigned n : { 16u, 25u })
		for (unsigned k = 1; k <= 3; k++) {
			if (k % 8 != c || !mc::begin([&] { return mc::strf("%u of %u", k, n); }))
				continue;
			Ranker part(n, k);
			std::vector<unsigned> p(k);
			unsigned long count = 0;
			std::function<void(unsigned, unsigned)> rec = [&](unsigned i, unsigned used) {
				if (i == k) {
					MC_CHECK(part.rank(p.data()) == count, "rank", "number %lu of the %u of %u has rank %lu", count, k, n, part.rank(p.data()));
					count++;
					mc::count(npart);
					return;
				}
				for (unsigned v = 0; v < n; v++)
					if (!(used >> v & 1)) {
						p[i] = v;
						rec(i + 1, used | 1u << v);
					}
			};
			rec(0, 0);
		}
}

// The hash depends on the bytes only, and on each of them.
static void hashes(uint64_t c) {
	std::vector<unsigned char> buf(160);
	for (unsigned len = 0; len <= 64; len++) {
		if (len % 8 != c)
			continue;
		if (!mc::begin([&] { return mc::strf("%u bytes", len); }))
			continue;
		for (int content = 0; content < 4; content++) {
			std::vector<unsigned char> s(len);
			for (unsigned i = 0; i < len; i++)
				s[i] = content == 0 ? 0 : content == 1 ? 0xFF : content == 2 ? i * 37 + 1 : i;
			unsigned long h = 0;
			for (unsigned off = 0; off < 16; off++)
				for (int around : { 0, 0xFF, 0x5A }) {
					std::fill(buf.begin(), buf.end(), around);
					std::copy(s.begin(), s.end(), buf.begin() + off);
					unsigned long g = hashbytes(buf.data() + off, len);
					if (off == 0 && around == 0)
						h = g;
					MC_CHECK(g == h, "hash", "the hash of %u bytes depends on where they are, or on what is around", len);
					mc::count(nhash);
					mc::states();
				}
			std::set<unsigned long> others = { h };
			for (unsigned i = 0; i < len * 8; i++) {
				s[i / 8] ^= 1 << i % 8;
				unsigned long g = hashbytes(s.data(), len);
				MC_CHECK(others.insert(g).second, "hash", "the hash of %u bytes does not depend on bit %u", len, i);
				s[i / 8] ^= 1 << i % 8;
			}
		}
		mc::validated();
	}
}

// Large ones of each kind.
static void large(uint64_t c, uint64_t n) {
	uint64_t k = 0;
	for (size_t len : { 1000, 4095, 4096, 4097, 32767, 32769, 65535, 65536, 65537, 70003, 200001 })
		for (int content = 0; content < 6; content++) {
			if (k++ % n != c)
				continue;
			std::string s;
			for (size_t i = 0; i < len; i++)
				switch (content) {
				case 0: s.push_back(0); break;
				case 1: s.push_back(i & 1 ? 0x7F : 0x80); break;
				case 2: s.push_back(i * i >> 3); break;
				case 3: s.push_back(i / 300 % 2 ? 7 : i); break;	// runs and stretches without
				case 4: s.push_back(i / 3); break;
				case 5: s.push_back(i % 1000 < 999 ? 'x' : i / 1000); break;
				}
			encoded(s);
		}
	// files of many lines, long lines, lines of many tokens
	for (int shape = 0; shape < 6; shape++) {
		if (k++ % n != c || !mc::begin([&] { return mc::strf("large file %d", shape); }))
			continue;
		std::string text = "#start data file format 4\n";
		std::vector<std::vector<std::string>> want;
		int lines = shape == 0 ? 300 : shape == 1 ? 70000 : shape == 2 ? 20 : 5;
		for (int i = 0; i < lines; i++) {
			std::vector<std::string> w;
			if (shape < 2)
				w = i % 3 ? std::vector<std::string>{ "#altrow", "r", mc::strf("%d", i), "2.5" } : std::vector<std::string>{ "#pair", mc::strf("key %d", i), mc::strf("value %d", i * 7) };
			else if (shape == 2)
				w = { "#pair", letters(i * 30 + 1, i), letters(70 * i + 1, 2 * i) };
			else if (shape == 3)
				w = { "#pair", letters(5000 + i, i), letters(70000 + i, 2 * i) };
			else {
				w = { "#altrow", "r" };
				for (int j = 0; j < (shape == 4 ? 300 : 70000); j++)
					w.push_back(mc::strf("%d", i + j));
			}
			text += w[0] + "  \"" + w[1] + "\"";
			for (size_t j = 2; j < w.size(); j++)
				text += w[0] == "#pair" ? "\t\"" + w[j] + "\"" : "\t" + w[j];
			text += "\n";
			if (i % 7 == 3)
				text += "a line that is not for us\n";
			want.push_back(w);
		}
		text += "#end data file format 4\n";
		std::string echo;
		auto got = readback(text, &echo);
		MC_CHECK(got.size() == want.size(), "read", "%zu lines are read, not %zu", got.size(), want.size());
		for (size_t i = 0; i < got.size(); i++)
			MC_CHECK(got[i] == want[i], "read", "line %zu of %zu tokens is read as one of %zu, %s", i, want[i].size(), got[i].size(), got[i].size() > 1 ? got[i][1].substr(0, 50).c_str() : "");
		MC_CHECK(echo == text, "echo", "%zu bytes are echoed as %zu", text.size(), echo.size());
		mc::count(nlines, lines);
		mc::states();
		mc::validated();
	}
	// a row of many columns
	if (k++ % n == c && mc::begin([] { return "a row of 60 columns"; })) {
		std::string fmt(60, 'd'), line = "#altrow  \"n\"", hdr = "#altcols  \"n\"";
		for (int i = 0; i < 60; i++)
			line += mc::strf("\t%d", i);
		for (int i = 0; i < 20; i++)
			hdr += mc::strf("\t\"n %c\"", 'a' + i);
		std::string out = written([&](FILE *o) {
			dfrow(o, "n", fmt.c_str(), 0l, 1l, 2l, 3l, 4l, 5l, 6l, 7l, 8l, 9l, 10l, 11l, 12l, 13l, 14l, 15l, 16l, 17l, 18l, 19l, 20l, 21l, 22l, 23l, 24l, 25l, 26l, 27l, 28l, 29l,
				30l, 31l, 32l, 33l, 34l, 35l, 36l, 37l, 38l, 39l, 40l, 41l, 42l, 43l, 44l, 45l, 46l, 47l, 48l, 49l, 50l, 51l, 52l, 53l, 54l, 55l, 56l, 57l, 58l, 59l);
		});
		MC_CHECK(out == line + "\n", "row", "it is written as %s", out.c_str());
		out = written([&](FILE *o) {
			dfrowhdr(o, "n", 20, "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t");
		});
		MC_CHECK(out == hdr + "\n", "header", "it is written as %s", out.c_str());
		mc::count(nrows, 2);
		mc::states();
		mc::validated();
	}
	// ranks of large permutations
	for (unsigned sz : { 9u, 10u, 11u, 12u, 13u, 15u, 16u, 17u, 20u })
		for (unsigned part : { sz, sz - 1, sz / 2, 3u }) {
			if (k++ % n != c || !mc::begin([&] { return mc::strf("large: %u of %u", part, sz); }))
				continue;
			Ranker r(sz, part), full(sz);
			std::set<unsigned long> seen;
			std::set<std::vector<unsigned>> perms;
			for (unsigned v = 0; v < 400; v++) {
				std::vector<unsigned> p(sz);
				for (unsigned i = 0; i < sz; i++)
					p[i] = i;
				if (v == 1)
					std::reverse(p.begin(), p.end());
				for (unsigned i = sz; v > 1 && i-- > 1; )
					std::swap(p[i], p[(v * 5 + i * (v + 3) + v / 7) % (i + 1)]);
				p.resize(part);
				unsigned long want = 0;
				for (unsigned i = 0; i < part; i++) {
					unsigned less = p[i];
					for (unsigned j = 0; j < i; j++)
						less -= p[j] < p[i];
					want = want * (sz - i) + less;
				}
				MC_CHECK(r.rank(p.data()) == want, "rank", "the rank of the %u of %u is %lu, not %lu", part, sz, r.rank(p.data()), want);
				if (part == sz)
					MC_CHECK(full.rank(p.data()) == want, "rank", "the rank of all %u is %lu, not %lu", sz, full.rank(p.data()), want);
				MC_CHECK(seen.insert(want).second == perms.insert(p).second, "rank", "two of the %u of %u have rank %lu", part, sz, want);
				mc::count(part == sz ? nperm : npart);
				mc::states();
			}
			mc::validated();
		}
	// hashes of long strings
	for (unsigned len : { 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 1024u, 4097u, 66000u }) {
		if (k++ % n != c || !mc::begin([&] { return mc::strf("large: the hash of %u bytes", len); }))
			continue;
		std::vector<unsigned char> s(len), buf(len + 40);
		for (unsigned i = 0; i < len; i++)
			s[i] = i * 37 + i / 256;
		unsigned long h = hashbytes(s.data(), len);
		for (unsigned off = 0; off < 16; off++)
			for (int around : { 0, 0xFF }) {
				std::fill(buf.begin(), buf.end(), around);
				std::copy(s.begin(), s.end(), buf.begin() + off);
				MC_CHECK(hashbytes(buf.data() + off, len) == h, "hash", "the hash of %u bytes depends on where they are, or on what is around", len);
				mc::count(nhash);
				mc::states();
			}
		for (unsigned i = 0; i < len; i += len > 5000 ? 61 : 1) {
			s[i] ^= 1 << i % 8;
			MC_CHECK(hashbytes(s.data(), len) != h, "hash", "the hash of %u bytes does not depend on byte %u", len, i);
			s[i] ^= 1 << i % 8;
		}
		mc::validated();
	}
}

static void randoms(uint64_t c) {
	for (uint64_t seed = c; seed < 256; seed += 8) {
		if (!mc::begin([&] { return mc::strf("seed %lu", (unsigned long) seed); }))
			continue;
		uint64_t sd = seed * 0x123456789ULL;
		Rand a(sd), b(sd), o(sd + 1);
		MC_CHECK(a.seed() == sd, "random", "the seed is %lu", (unsigned long) a.seed());
		bool differ = false;
		std::set<uint64_t> vals;
		for (int i = 0; i < 200; i++) {
			uint64_t x = a.bits();
			MC_CHECK(x == b.bits(), "random", "the same seed gives two sequences");
			differ |= x != o.bits();
			vals.insert(x);
		}
		MC_CHECK(differ, "random", "two seeds give the same sequence");
		MC_CHECK(vals.size() == 200, "random", "%zu of 200 values differ", vals.size());
		for (int i = 0; i < 200; i++) {
			double r = a.real();
			MC_CHECK(r >= 0 && r <= 1, "random", "the number is %g", r);
			MC_CHECK(r == b.real(), "random", "the same seed gives two sequences");
		}
		for (long lo = -6; lo <= 6; lo++)
			for (long hi = lo; hi <= 6; hi++) {
				std::set<long> got;
				for (int i = 0; i < 400; i++) {
					long v = a.integer(lo, hi);
					MC_CHECK(v >= lo && v <= hi, "random", "a number from %ld to %ld is %ld", lo, hi, v);
					MC_CHECK(v == b.integer(lo, hi), "random", "the same seed gives two sequences");
					got.insert(v);
				}
				MC_CHECK((long) got.size() == hi - lo + 1, "random", "of the numbers from %ld to %ld only %zu come", lo, hi, got.size());
				mc::count(nrand);
			}
		mc::validated();
	}
}

void mc_setup() {
	nb64 = mc::counter("strings_base64");
	nrl = mc::counter("strings_run_length");
	na85 = mc::counter("strings_ascii85");
	npairs = mc::counter("pairs");
	nrows = mc::counter("rows_and_headers");
	nrefused = mc::counter("refused");
	nlines = mc::counter("lines");
	ntok = mc::counter("tokens");
	nsafe = mc::counter("checked_operations");
	nover = mc::counter("checked_operations_that_overflow");
	nnum = mc::counter("numbers");
	nquad = mc::counter("integrals");
	nperm = mc::counter("permutations_ranked");
	npart = mc::counter("parts_ranked");
	nhash = mc::counter("hashes");
	nrand = mc::counter("random_ranges");
	mc::suite("bytes", "every string of up to 2 bytes, of up to 5 of 8 bytes (thorough: 7), of up to 14 of 2 (thorough: 18)", 32, [](uint64_t c) { bytes(c, 32); });
	mc::suite("runs", "every sequence of up to three stretches, with and without runs, of 21 lengths around the limits", 32, [](uint64_t c) { runs(c, 32); });
	mc::suite("pairs", "pairs with every length of key and value around the size of the buffer (thorough: every length)", 16, [](uint64_t c) { pairs(c, 16); });
	mc::suite("rows", "rows of every three kinds of columns, headers; of every length around the size of the buffer", 16, [](uint64_t c) { rows(c, 16); });
	mc::suite("files", "every file of up to 4 (thorough: 5) of 14 lines", 16, [](uint64_t c) { files(c, 16); });
	mc::suite("tokens", "every string of up to 7 (thorough: 8) of 6 characters", 16, [](uint64_t c) { toks(c, 16); });
	mc::suite("safe8", "every two numbers of 8 bits", 8, [](uint64_t c) {
		safeall<int8_t>("int8", c, 8);
		safeall<uint8_t>("uint8", c, 8);
	});
	mc::suite("safe", "every two of the numbers around powers of two and the limits, of 16, 32 and 64 bits", 6, [](uint64_t c) {
		switch (c) {
		case 0: safesome<int>("int"); break;
		case 1: safesome<unsigned>("unsigned"); break;
		case 2: safesome<long>("long"); break;
		case 3: safesome<unsigned long>("unsigned long"); break;
		case 4: safesome<short>("short"); break;
		case 5: safesome<unsigned short>("unsigned short"); break;
		}
	});
	mc::suite("numbers", "logarithms, powers, falling factorials, commas, the normal distribution, integrals", 1, [](uint64_t) { numbers(); });
	mc::suite("ranks", "every permutation of up to 8 (thorough: 9), and every part of it", 8, ranks);
	mc::suite("hashes", "up to 64 bytes at 16 alignments, each bit changed", 8, hashes);
	mc::suite("large", "strings of up to 200001 bytes, files of up to 70000 lines, lines of up to 70000 tokens, rows of 60 columns, ranks of up to 20, hashes of up to 66000 bytes", 16, [](uint64_t c) { large(c, 16); });
	mc::suite("random", "256 seeds", 8, randoms);
}

MC_MAIN
