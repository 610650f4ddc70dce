// C26: the results database and the files under it.
#include "mc.hpp"
#include "utils/utils.hpp"
#include "rdb/rdb.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <grp.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <ucontext.h>

extern "C" int rdb_pathfor_main(int, const char*[]);
extern "C" int rdb_withattrs_main(int, const char*[]);
extern "C" int rdb_pathattrs_main(int, const char*[]);
extern "C" int rdb_addattrs_main(int, const char*[]);
extern "C" int rdb_dfcmplt_main(int, char*[]);

struct Fatal { std::string msg; };
static bool fatalok;
static void onfatal(const char *fmt, va_list ap) {
	char buf[1024];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	if (fatalok)
		throw Fatal{buf};
	mc::fail("fatal", "fatal error: %s", buf);
}
void fatal(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}
void fatalx(int, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	onfatal(fmt, ap);
}
static int warned;
void warn(const char*, ...) { warned++; }
void warnx(int, const char*, ...) { warned++; }

static int nops, nargs, nadds, nqueries, nconfl, nsched, nstates, ncrash, nfault, nfiles, nrm, nens, npaths, nlists;

// The file operations of the code, each a point at which another process may go on, or this one may be stopped.

static std::string top;	// nothing outside may be changed
static std::function<void(const std::string&)> point;	// called before an operation
static std::function<void(const std::string&)> result;	// called after it
static std::function<FILE*(FILE*, const char*)> wrapfile;	// for what is written

static void guard(const char *op, const char *path) {
	if (top.empty())
		return;
	std::string p = path, dir;
	size_t k = p.rfind('/', p.size() > 1 && p.back() == '/' ? p.size() - 2 : std::string::npos);
	dir = k == std::string::npos ? "." : k == 0 ? "/" : p.substr(0, k);
	char buf[PATH_MAX];
	std::string base = k == std::string::npos ? p : p.substr(k + 1);
	while (base.size() && base.back() == '/')
		base.pop_back();
	if (!realpath(dir.c_str(), buf))
		return;	// it fails
	std::string r = buf;
	if (base == "..")
		r = r.substr(0, r.rfind('/'));
	if (r != top && r.compare(0, top.size() + 1, top + "/") != 0)
		mc::fail("escape", "%s of %s, which is outside of %s", op, path, top.c_str());
}
static void before(const char *op, const char *path) {
	if (point)
		point(std::string(op) + " " + path);
}
static int after(const char *op, const char *path, int r) {
	int e = errno;
	if (result)
		result(mc::strf("%s %s: %d %d", op, path, r, r < 0 ? e : 0));
	errno = e;
	return r;
}

extern "C" {
int stat(const char *p, struct stat *sb) noexcept {
	before("stat", p);
	int r = fstatat(AT_FDCWD, p, sb, 0);
	return after(r == 0 && S_ISDIR(sb->st_mode) ? "statdir" : "stat", p, r);
}
int lstat(const char *p, struct stat *sb) noexcept {
	before("lstat", p);
	int r = fstatat(AT_FDCWD, p, sb, AT_SYMLINK_NOFOLLOW);
	return after(r == 0 && S_ISDIR(sb->st_mode) ? "statdir" : "lstat", p, r);
}
int access(const char *p, int m) noexcept {
	before("access", p);
	return after("access", p, faccessat(AT_FDCWD, p, m, 0));
}
int mkdir(const char *p, mode_t m) noexcept {
	guard("mkdir", p);
	before("mkdir", p);
	return after("mkdir", p, mkdirat(AT_FDCWD, p, m));
}
static int removed(const char *op, const char *p, int how) {
	guard(op, p);
	before("remove", p);
	if (how < 0) {
		struct stat sb;
		if (fstatat(AT_FDCWD, p, &sb, AT_SYMLINK_NOFOLLOW) != 0)
			return after("remove", p, -1);
		how = S_ISDIR(sb.st_mode) ? AT_REMOVEDIR : 0;
	}
	return after("remove", p, unlinkat(AT_FDCWD, p, how));
}
int remove(const char *p) noexcept { return removed("remove", p, -1); }
int unlink(const char *p) noexcept { return removed("unlink", p, 0); }
int rmdir(const char *p) noexcept { return removed("rmdir", p, AT_REMOVEDIR); }
int rename(const char *a, const char *b) noexcept {
	guard("rename", a);
	guard("rename", b);
	before("rename", b);
	int r = after("rename", b, renameat(AT_FDCWD, a, AT_FDCWD, b));
	before("renamed", b);
	return r;
}
DIR *opendir(const char *p) {
	before("list", p);
	int fd = open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	DIR *d = fd < 0 ? NULL : fdopendir(fd);
	if (result) {
		std::string names;
		if (d) {
			std::set<std::string> s;
			while (struct dirent *e = readdir(d))
				s.insert(e->d_name);
			for (auto &n : s)
				names += n + " ";
			rewinddir(d);
		}
		after("list", (std::string(p) + " " + names).c_str(), d ? 0 : -1);
	}
	return d;
}
FILE *fopen(const char *p, const char *m) {
	bool w = m[0] != 'r';
	if (w)
		guard("fopen", p);
	before(w ? "create" : "open", p);
	int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(m, '+'))
		fl = (fl & ~O_ACCMODE) | O_RDWR;
	int fd = open(p, fl, 0666);
	after(w ? "create" : "open", p, fd < 0 ? -1 : 0);
	FILE *f = fd < 0 ? NULL : fdopen(fd, m);
	if (f && w && wrapfile)
		return wrapfile(f, p);
	return f;
}
}

// Without the points.
struct Quiet {
	std::function<void(const std::string&)> p, r;
	Quiet() { p.swap(point); r.swap(result); }
	~Quiet() { p.swap(point); r.swap(result); }
};

static void rmtree(const std::string &p) {
	Quiet q;
	struct stat sb;
	if (fstatat(AT_FDCWD, p.c_str(), &sb, AT_SYMLINK_NOFOLLOW) != 0)
		return;
	if (!S_ISDIR(sb.st_mode)) {
		unlinkat(AT_FDCWD, p.c_str(), 0);
		return;
	}
	chmod(p.c_str(), 0700);
	std::vector<std::string> ns;
	if (DIR *d = opendir(p.c_str())) {
		while (struct dirent *e = readdir(d))
			if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
				ns.push_back(e->d_name);
		closedir(d);
	}
	for (auto &n : ns)
		rmtree(p + "/" + n);
	unlinkat(AT_FDCWD, p.c_str(), AT_REMOVEDIR);
}

// listing gives all that is under the path, sorted, directories with a slash.
static void listing(const std::string &p, const std::string &rel, std::set<std::string> &v) {
	std::vector<std::pair<std::string,int>> ns;
	if (DIR *d = opendir(p.c_str())) {
		while (struct dirent *e = readdir(d))
			if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
				struct stat sb;
				fstatat(AT_FDCWD, (p + "/" + e->d_name).c_str(), &sb, AT_SYMLINK_NOFOLLOW);
				ns.push_back(std::make_pair(e->d_name, S_ISDIR(sb.st_mode) ? 1 : S_ISLNK(sb.st_mode) ? 2 : 0));
			}
		closedir(d);
	}
	for (auto &n : ns) {
		v.insert(rel + n.first + (n.second == 1 ? "/" : n.second == 2 ? "@" : ""));
		if (n.second == 1)
			listing(p + "/" + n.first, rel + n.first + "/", v);
	}
}
static std::set<std::string> listing(const std::string &p) {
	Quiet q;
	std::set<std::string> v;
	listing(p, "", v);
	return v;
}
static std::string show(const std::set<std::string> &v) {
	std::string s;
	for (auto &x : v)
		s += x + " ";
	return s;
}
static std::string slurp(const std::string &p, bool *ok = NULL) {
	Quiet q;
	std::string s;
	int fd = open(p.c_str(), O_RDONLY);
	if (ok)
		*ok = fd >= 0;
	char buf[4096];
	ssize_t n;
	while (fd >= 0 && (n = read(fd, buf, sizeof(buf))) > 0)
		s.append(buf, n);
	if (fd >= 0)
		close(fd);
	return s;
}
static void spit(const std::string &p, const std::string &s) {
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size())
		mc::fail("harness", "cannot write %s: %s", p.c_str(), strerror(errno));
	close(fd);
}
template <class F> static std::string printed(const F &fn) {
	FILE *oo = stdout;
	char *buf = NULL;
	size_t sz = 0;
	stdout = open_memstream(&buf, &sz);
	fn();
	fclose(stdout);
	stdout = oo;
	std::string s(buf, sz);
	free(buf);
	return s;
}

// unprivileged leaves the rights of the super user, in a scratch directory.
static void unprivileged() {
	static bool done;
	if (done)
		return;
	done = true;
	std::string up = mc::scratch.substr(0, mc::scratch.rfind('/'));
	if (geteuid() == 0) {
		chmod(up.c_str(), 0711);
		if (chown(mc::scratch.c_str(), 65534, 65534) != 0 || setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
			abort();
	}
	if (chdir(mc::scratch.c_str()) != 0)
		abort();
	char buf[PATH_MAX];
	if (!realpath(".", buf))
		abort();
	rmtree(std::string(buf) + "/db");
	top = buf;
	umask(022);
}

typedef std::vector<std::pair<std::string,std::string>> Attrs;
static std::string str(const Attrs &a) {
	std::string s;
	for (auto &p : a)
		s += (s.size() ? " " : "") + p.first + "=" + p.second;
	return s;
}
static RdbAttrs real(const Attrs &a) {
	RdbAttrs r;
	for (auto &p : a)
		r.push_back(p.first, p.second);
	return r;
}
static Attrs back(RdbAttrs r) {
	Attrs a;
	while (r.size() > 0) {
		std::string k = r.front();
		a.push_back(std::make_pair(k, r.lookup(k)));
		r.pop_front();
	}
	return a;
}

// Attribute lists: every sequence of operations.
static void lists(uint64_t c, uint64_t n) {
	static const char *keys[] = { "a", "b", "key" };
	const int nk = 3, alpha = 3 * nk + 1;
	for (int len = 0; len <= (mc::thorough ? 6 : 5); len++) {
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= alpha;
		for (uint64_t x = c; x < total; x += n) {
			if (!mc::begin([&] { return mc::strf("list %d/%lu", len, (unsigned long) x); }))
				continue;
			RdbAttrs r;
			Attrs m;
			uint64_t y = x;
			for (int i = 0; i < len; i++, y /= alpha) {
				int op = y % alpha;
				std::string k = keys[op % nk], v = mc::strf("%d", i);
				auto at = std::find_if(m.begin(), m.end(), [&](const std::pair<std::string,std::string> &p) { return p.first == k; });
				bool has = at != m.end();
				mc::transitions();
				if (op == 3 * nk) {
					if (m.size()) {
						r.pop_front();
						m.erase(m.begin());
					}
				} else if (op / nk == 0) {
					MC_CHECK(r.push_back(k, v) == !has, "list", "push_back of %s gives %d", k.c_str(), has);
					if (!has)
						m.push_back(std::make_pair(k, v));
				} else if (op / nk == 1) {
					MC_CHECK(r.push_front(k, v) == !has, "list", "push_front of %s gives %d", k.c_str(), has);
					if (!has)
						m.insert(m.begin(), std::make_pair(k, v));
				} else {
					MC_CHECK(r.rm(k) == has, "list", "rm of %s gives %d", k.c_str(), !has);
					if (has)
						m.erase(at);
				}
				MC_CHECK(r.size() == m.size(), "list", "the size is %u, not %zu", r.size(), m.size());
				for (auto q : keys) {
					bool in = false;
					for (auto &p : m)
						if (p.first == q) {
							in = true;
							MC_CHECK(r.lookup(q) == p.second, "list", "%s is %s, not %s", q, r.lookup(q).c_str(), p.second.c_str());
						}
					MC_CHECK(r.mem(q) == in, "list", "mem of %s is %d", q, !in);
				}
				MC_CHECK(m.empty() || r.front() == m[0].first, "list", "the front is %s", r.front().c_str());
				MC_CHECK(r.string() == str(m), "list", "the list is %s, not %s", r.string().c_str(), str(m).c_str());
				auto ks = r.getkeys();
				MC_CHECK(ks.size() == m.size(), "list", "there are %zu keys", ks.size());
				for (size_t j = 0; j < m.size(); j++)
					MC_CHECK(ks[j] == m[j].first, "list", "key %zu is %s", j, ks[j].c_str());
			}
			MC_CHECK(back(r) == m, "list", "it comes out as %s", str(back(r)).c_str());
			mc::count(nops, len);
			mc::states();
		}
	}
}

// Command lines: every sequence of words.
static void args(uint64_t c, uint64_t n) {
	static const char *words[] = { "a", "bc", "a=1", "b=", "=2", "a==", "k l=m n", "=", "b=x=y", "" };
	const int nw = 10;
	for (int len = 0; len <= 5; len++) {
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= nw;
		for (uint64_t x = c; x < total; x += n) {
			std::vector<const char*> av;
			uint64_t y = x;
			std::string line;
			for (int i = 0; i < len; i++, y /= nw) {
				av.push_back(words[y % nw]);
				line += (i ? "|" : "") + std::string(words[y % nw]);
			}
			if (!mc::begin([&] { return line; }))
				continue;
			// A key is all words up to the =, with spaces between; the rest of the word is the value.
			Attrs want;
			std::string key;
			bool some = false;
			for (std::string w : av) {
				size_t e = w.find('=');
				if (e == std::string::npos) {
					key += (some ? " " : "") + w;
					some = true;
					continue;
				}
				if (e > 0)
					key += (some ? " " : "") + w.substr(0, e);
				bool dup = false;
				for (auto &p : want)
					dup |= p.first == key;
				if (!dup)
					want.push_back(std::make_pair(key, w.substr(e + 1)));
				key.clear();
				some = false;
			}
			av.push_back(NULL);
			Attrs got = back(attrargs(len, av.data()));
			MC_CHECK(got == want, "arguments", "%s gives %s, not %s", line.c_str(), str(got).c_str(), str(want).c_str());
			mc::count(nargs);
			mc::states();
		}
	}
}

// The reference database.
struct Node {
	bool file;
	std::string key;
	std::map<std::string, Node> kids;
	Node() : file(false) { }
};

enum { Fine, Conflict };
// place gives the path for the attributes, relative to the root, with what is made for it; Conflict if it meets a file.
static int place(Node &root, Attrs a, std::vector<std::string> &path, Attrs &full) {
	Node *n = &root;
	while (a.size()) {
		if (n->file)
			return Conflict;
		if (n->key.empty())
			n->key = a[0].first;
		size_t i = 0;
		while (i < a.size() && a[i].first != n->key)
			i++;
		std::string v = "UNSPECIFIED";
		if (i < a.size()) {
			v = a[i].second;
			a.erase(a.begin() + i);
		}
		path.push_back(v);
		full.push_back(std::make_pair(n->key, v));
		n = &n->kids[v];
	}
	return Fine;
}
static Node *at(Node &root, const std::vector<std::string> &path) {
	Node *n = &root;
	for (auto &p : path)
		n = &n->kids[p];
	return n;
}

struct Case {
	std::string root;	// as it is given
	bool mains;
};

static std::string joined(const std::vector<std::string> &v) {
	std::string s;
	for (auto &p : v)
		s += "/" + p;
	return s;
}

static void scenario(const std::vector<Attrs> &adds, const std::vector<Attrs> &queries, const Case &cs) {
	std::string dir = top + "/db";
	rmtree(dir);
	mkdirat(AT_FDCWD, dir.c_str(), 0777);
	if (chdir(cs.root[0] == '.' ? dir.c_str() : top.c_str()) != 0)
		abort();
	if (cs.root == "MONKEY=db") {	// a root that looks like a key
		dir = top + "/MONKEY=db";
		rmtree(dir);
		mkdirat(AT_FDCWD, dir.c_str(), 0777);
	}
	std::string root = cs.root == "ABS" ? dir : cs.root;
	std::string rootslash = root.back() == '/' ? root.substr(0, root.size() - 1) : root;
	Node model;
	std::vector<std::pair<std::string, Attrs>> files;
	for (auto &a : adds) {
		Node trial = model;
		std::vector<std::string> path;
		Attrs full;
		if (place(trial, a, path, full) == Conflict) {
			// It may not make its way through a file.
			fatalok = true;
			bool died = false;
			std::string p;
			try {
				p = pathfor(root, real(a));
			} catch (Fatal &) {
				died = true;
			}
			fatalok = false;
			MC_CHECK(died, "conflict", "a path through a file: %s for %s", p.c_str(), str(a).c_str());
			mc::count(nconfl);
			break;
		}
		Node *n = at(trial, path);
		if (!n->key.empty()) {	// fewer attributes than there are directories
			mc::count(nconfl);
			break;
		}
		std::string p;
		if (cs.mains) {
			std::vector<std::string> words = { "pathfor", root };
			for (auto &x : a)
				words.push_back(x.first + "=" + x.second);
			std::vector<const char*> av;
			for (auto &w : words)
				av.push_back(w.c_str());
			av.push_back(NULL);
			p = printed([&] { rdb_pathfor_main(words.size(), av.data()); });
			MC_CHECK(p.size() && p.back() == '\n', "pathfor", "pathfor prints %s", p.c_str());
			p.pop_back();
		} else
			p = pathfor(root, real(a));
		mc::transitions();
		MC_CHECK(p == rootslash + joined(path), "pathfor", "the path for %s is %s, not %s", str(a).c_str(), p.c_str(), (rootslash + joined(path)).c_str());
		MC_CHECK(pathfor(root, real(a)) == p, "pathfor", "a second time the path for %s is %s", str(a).c_str(), pathfor(root, real(a)).c_str());
		spit(p, "x");
		model = trial;
		bool fresh = !n->file;
		at(model, path)->file = true;
		if (fresh)
			files.push_back(std::make_pair(rootslash + joined(path), full));
		mc::count(nadds);
	}
	// Nothing but the files, their directories and keys.
	std::set<std::string> want;
	std::function<void(Node&, std::string)> walk = [&](Node &n, std::string rel) {
		if (!n.key.empty())
			want.insert(rel + "KEY=" + n.key);
		for (auto &k : n.kids) {
			want.insert(rel + k.first + (k.second.file ? "" : "/"));
			walk(k.second, rel + k.first + "/");
		}
	};
	walk(model, "");
	auto have = listing(dir);
	MC_CHECK(have == want, "tree", "the tree is %s, not %s", show(have).c_str(), show(want).c_str());
	for (auto &f : files) {
		Attrs got;
		if (cs.mains) {
			const char *av[] = { "pathattrs", f.first.c_str(), NULL };
			std::string o = printed([&] { rdb_pathattrs_main(2, av); });
			MC_CHECK(o == str(f.second) + "\n", "pathattrs", "pathattrs of %s prints %s", f.first.c_str(), o.c_str());
		}
		got = back(pathattrs(f.first));
		MC_CHECK(got == f.second, "pathattrs", "the attributes of %s are %s, not %s", f.first.c_str(), str(got).c_str(), str(f.second).c_str());
	}
	for (auto &q : queries) {
		std::vector<std::string> got;
		if (cs.mains) {
			std::vector<std::string> words = { "withattrs", root };
			for (auto &x : q)
				words.push_back(x.first + "=" + x.second);
			std::vector<const char*> av;
			for (auto &w : words)
				av.push_back(w.c_str());
			av.push_back(NULL);
			std::string o = printed([&] { rdb_withattrs_main(words.size(), av.data()); }), l;
			for (char ch : o)
				if (ch == '\n') {
					got.push_back(l);
					l.clear();
				} else
					l.push_back(ch);
			MC_CHECK(l.empty(), "withattrs", "withattrs prints %s", o.c_str());
		} else
			got = withattrs(root, real(q));
		std::set<std::string> g(got.begin(), got.end());
		MC_CHECK(g.size() == got.size(), "withattrs", "a file is given twice for %s", str(q).c_str());
		size_t known = 0;
		for (auto &f : files) {
			bool has = true, other = false;
			for (auto &x : q) {
				bool in = false;
				for (auto &y : f.second)
					if (y.first == x.first) {
						in = true;
						other |= y.second != x.second;
					}
				has &= in;
			}
			bool given = g.count(f.first);
			known += given;
			MC_CHECK(!other || !given, "withattrs", "for %s the file %s is given", str(q).c_str(), f.first.c_str());
			MC_CHECK(other || !has || given, "withattrs", "for %s the file %s is not given", str(q).c_str(), f.first.c_str());
		}
		MC_CHECK(known == got.size(), "withattrs", "for %s it gives what was not put there", str(q).c_str());
		mc::count(nqueries);
	}
	mc::states();
	mc::validated();
	if (files.size() > 1)
		mc::nontrivial();
}

// Every attribute list over the keys: each subset, order and values.
static std::vector<Attrs> attrlists(std::vector<std::string> keys, std::vector<std::string> vals, size_t min, size_t max, bool orders) {
	std::vector<Attrs> out;
	std::function<void(Attrs)> rec = [&](Attrs a) {
		if (a.size() >= min)
			out.push_back(a);
		if (a.size() == max)
			return;
		size_t from = 0;
		if (!orders)
			for (size_t i = 0; i < keys.size(); i++)
				if (a.size() && a.back().first == keys[i])
					from = i + 1;
		for (size_t i = from; i < keys.size(); i++) {
			bool in = false;
			for (auto &p : a)
				in |= p.first == keys[i];
			if (in)
				continue;
			for (auto &v : vals) {
				Attrs b = a;
				b.push_back(std::make_pair(keys[i], v));
				rec(b);
			}
		}
	};
	rec(Attrs());
	return out;
}

static void sequences(const std::vector<Attrs> &alpha, const std::vector<Attrs> &queries, int len, uint64_t step, uint64_t c, uint64_t n) {
	unprivileged();
	static const Case cases[] = { { "ABS", false }, { "db", false }, { ".", false }, { "db/", false }, { "ABS", true }, { ".", true }, { "MONKEY=db", false } };
	uint64_t total = 1;
	for (int i = 0; i < len; i++)
		total *= alpha.size();
	for (uint64_t x = 0, k = 0; x < total; x += step, k++) {
		if (k % n != c)
			continue;
		std::vector<Attrs> adds;
		uint64_t y = x;
		for (int i = 0; i < len; i++, y /= alpha.size())
			adds.push_back(alpha[y % alpha.size()]);
		const Case &cs = cases[len == 1 ? 0 : (k / n) % 7];
		auto desc = [&](const Case &cs) {
			std::string s = cs.root + (cs.mains ? " programs" : "");
			for (auto &a : adds)
				s += " (" + str(a) + ")";
			return s;
		};
		if (len == 1) {
			for (auto &cc : cases)
				if (mc::begin([&] { return desc(cc); }))
					scenario(adds, queries, cc);
		} else if (mc::begin([&] { return desc(cs); }))
			scenario(adds, queries, cs);
	}
}

// Several processes at once, and processes that are stopped: each is run as a coroutine, up to its next file operation.

struct Proc {
	ucontext_t ctx;
	std::vector<char> stack;
	bool started, done, dead;
	std::string next;	// its next operation
	std::string trace;	// what it has seen
	std::string path;	// its result
	Attrs attrs;
};
static ucontext_t sched;
static Proc *running;
static std::string racedir;

static void procmain() {
	running->path = pathfor(racedir, real(running->attrs));
	running->done = true;
	for (;;)
		swapcontext(&running->ctx, &sched);
}

struct Race {
	std::vector<Attrs> pre;		// put there before
	std::vector<Attrs> attrs;	// of the processes
	bool crash;
	std::vector<Proc> procs;
	std::vector<int> path;
	std::set<std::string> seen;
	int crashes;

	std::string desc() const {
		std::string s = crash ? "one may stop:" : "";
		for (auto &a : pre)
			s += " [" + str(a) + "]";
		for (auto &a : attrs)
			s += " (" + str(a) + ")";
		return s;
	}

	void reset() {
		racedir = top + "/db";
		rmtree(racedir);
		mkdirat(AT_FDCWD, racedir.c_str(), 0777);
		for (auto &a : pre)
			spit(pathfor(racedir, real(a)), "x");
		if (procs.empty())
			procs.resize(attrs.size());
		for (size_t i = 0; i < attrs.size(); i++) {
			Proc &p = procs[i];
			if (p.stack.empty())
				p.stack.resize(256 << 10);
			p.started = p.done = p.dead = false;
			p.trace.clear();
			p.next = "start";
			p.path.clear();
			p.attrs = attrs[i];
			getcontext(&p.ctx);
			p.ctx.uc_stack.ss_sp = p.stack.data();
			p.ctx.uc_stack.ss_size = p.stack.size();
			p.ctx.uc_link = NULL;
			makecontext(&p.ctx, procmain, 0);
		}
		crashes = 0;
	}

	void step(int t) {
		if (t >= (int) procs.size()) {
			procs[t - procs.size()].dead = true;
			crashes++;
			return;
		}
		running = &procs[t];
		point = [](const std::string &op) {
			running->next = op;
			swapcontext(&running->ctx, &sched);
		};
		result = [](const std::string &r) { running->trace += r + ";"; };
		swapcontext(&sched, &running->ctx);
		point = nullptr;
		result = nullptr;
	}

	std::string schedule() const {
		std::string s;
		for (int t : path)
			s += t < (int) procs.size() ? mc::strf("%d", t) : mc::strf("stop%d ", t - (int) procs.size());
		return s;
	}

	void finish() {
		std::set<std::string> ls = listing(racedir);
		std::map<std::string, int> keys;
		for (auto &l : ls) {
			size_t k = l.find("KEY=");
			if (k != std::string::npos)
				MC_CHECK(++keys[l.substr(0, k)] == 1, "race", "schedule %s leaves two keys: %s", schedule().c_str(), show(ls).c_str());
		}
		auto one = [&](const Attrs &a, const std::string &p) {
			std::vector<std::string> dirs;
			struct stat sb;
			std::string d = p.substr(0, p.rfind('/'));
			MC_CHECK(fstatat(AT_FDCWD, d.c_str(), &sb, 0) == 0 && S_ISDIR(sb.st_mode), "race", "schedule %s: there is no directory for %s: %s", schedule().c_str(), p.c_str(),
				show(ls).c_str());
			spit(p, "x");
			Attrs got = back(pathattrs(p)), rest;
			for (auto &x : got)
				if (x.second != "UNSPECIFIED")
					rest.push_back(x);
			Attrs b;
			for (auto &x : a)
				if (x.second != "UNSPECIFIED")
					b.push_back(x);
			std::sort(b.begin(), b.end());
			std::sort(rest.begin(), rest.end());
			MC_CHECK(b == rest, "race", "schedule %s: the path %s for %s has the attributes %s", schedule().c_str(), p.c_str(), str(a).c_str(), str(got).c_str());
			MC_CHECK(pathfor(racedir, real(a)) == p, "race", "schedule %s: later the path for %s is %s, not %s", schedule().c_str(), str(a).c_str(),
				pathfor(racedir, real(a)).c_str(), p.c_str());
			auto fs = withattrs(racedir, real(a));
			MC_CHECK(std::count(fs.begin(), fs.end(), p) == 1, "race", "schedule %s: %s is not found by %s", schedule().c_str(), p.c_str(), str(a).c_str());
		};
		for (auto &p : procs)
			if (p.done)
				one(p.attrs, p.path);
		// Those that were stopped can be run again.
		for (auto &p : procs)
			if (!p.done)
				one(p.attrs, pathfor(racedir, real(p.attrs)));
		for (auto &a : pre)
			one(a, pathfor(racedir, real(a)));
		mc::count(nsched);
		mc::validated();
	}

	// explore continues from the state after path: each process in turn, or its end.
	void explore(bool there = false) {
		if (!there) {
			reset();
			for (int t : path)
				step(t);
		}
		std::string key;
		bool any = false;
		for (auto &p : procs) {
			key += mc::strf("%d%d|%s|%s|", p.done, p.dead, p.next.c_str(), p.dead ? "" : p.trace.c_str());
			any |= !p.done && !p.dead;
		}
		key += show(listing(racedir));
		if (!seen.insert(key).second)
			return;
		mc::states();
		mc::count(nstates);
		if (!any) {
			finish();
			return;
		}
		std::vector<int> next;
		for (size_t i = 0; i < procs.size(); i++)
			if (!procs[i].done && !procs[i].dead) {
				next.push_back(i);
				if (crash && crashes == 0 && procs[i].next != "start")
					next.push_back(i + procs.size());
			}
		bool here = true;
		for (int t : next) {
			mc::transitions();
			if (t >= (int) procs.size())
				mc::count(ncrash);
			path.push_back(t);
			if (here)	// the first goes on from this very state
				step(t);
			explore(here);
			here = false;
			path.pop_back();
		}
	}
};

static void races(uint64_t c, uint64_t n) {
	unprivileged();
	if (chdir(top.c_str()) != 0)
		abort();
	std::vector<Race> rs;
	auto a = [](std::vector<std::string> v) {
		static const char *keys[] = { "a", "b", "c" };
		Attrs r;
		for (size_t i = 0; i < v.size(); i++)
			if (v[i] != "")
				r.push_back(std::make_pair(keys[i], v[i]));
		return r;
	};
	std::vector<std::vector<Attrs>> pres = { { }, { a({ "1", "1" }) }, { a({ "2", "1" }) }, { a({ "1", "1", "1" }) }, { a({ "3", "1", "1" }) } };
	std::vector<Attrs> full;
	for (auto x : { "1", "2" })
		for (auto y : { "1", "2" })
			full.push_back(a({ x, y }));
	std::vector<Attrs> full3;
	for (auto x : { "1", "2" })
		for (auto y : { "1", "2" })
			for (auto z : { "1", "2" })
				full3.push_back(a({ x, y, z }));
	for (int crash = 0; crash < 2; crash++) {
		for (auto &x : full) {
			for (auto &y : full)
				for (int p = 0; p < 3; p++) {
					Race r;
					r.pre = pres[p];
					r.attrs = { x, y };
					r.crash = crash;
					rs.push_back(r);
					if ((!crash && p == 0) || mc::thorough) {
						r.attrs = { x, y, full[0] };
						rs.push_back(r);
					}
				}
			Race r;
			r.attrs = { x };
			r.crash = crash;
			rs.push_back(r);
		}
		for (auto &x : full3)
			for (auto &y : full3)
				for (int p = 0; p < 5; p++) {
					if (p == 1 || p == 2)
						continue;	// too few attributes
					Race r;
					r.pre = pres[p];
					r.attrs = { x, y };
					r.crash = crash;
					rs.push_back(r);
				}
		// One lacks an attribute that the database has already.
		for (auto &x : full3)
			for (auto &y : { a({ "", "1", "1" }), a({ "1", "", "1" }), a({ "", "2", "1" }), a({ "", "", "1" }) }) {
				Race r;
				r.pre = { a({ "1", "1", "1" }), a({ "2", "1", "1" }), a({ "UNSPECIFIED", "1", "1" }), a({ "1", "UNSPECIFIED", "1" }), a({ "UNSPECIFIED", "UNSPECIFIED", "3" }) };
				r.attrs = { x, y };
				r.crash = crash;
				rs.push_back(r);
			}
	}
	for (size_t i = 0; i < rs.size(); i++) {
		if (i % n != c || !mc::begin([&] { return rs[i].desc(); }))
			continue;
		rs[i].explore();
		mc::nontrivial();
	}
}

// addattrs: what it writes, and what is left of the file when it is stopped or cannot write.

struct Cookie {
	FILE *f;
};
static int eventno, eventstop, faultno, faultat;	// counting file operations and writes
static bool torn;

static void stopped(const std::string&) {
	if (++eventno == eventstop)
		_exit(42);
}

static FILE *cookiefile(FILE *f, const char *p) {
	cookie_io_functions_t io = { };
	io.write = [](void *c, const char *b, size_t n) -> ssize_t {
		stopped("write");
		if (++faultno == faultat) {
			errno = ENOSPC;
			return 0;
		}
		int fd = fileno(((Cookie*) c)->f);
		if (eventno + 1 == eventstop && torn)
			n = (n + 1) / 2;
		ssize_t r = write(fd, b, n);
		if (eventno + 1 == eventstop && torn)
			_exit(42);
		return r < 0 ? 0 : r;
	};
	io.close = [](void *c) {
		fclose(((Cookie*) c)->f);
		delete (Cookie*) c;
		return 0;
	};
	FILE *w = fopencookie(new Cookie{ f }, "w", io);
	static char buf[1 << 16];
	setvbuf(w, buf, _IOFBF, 16);	// so that there are many writes
	return w;
}

static int addattrs(const std::string &file, const Attrs &a, int stop, int fault, bool tear) {
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		eventno = faultno = 0;
		eventstop = stop;
		faultat = fault;
		torn = tear;
		point = stopped;
		wrapfile = cookiefile;
		std::vector<std::string> words = { "addattrs", file };
		for (auto &x : a)
			words.push_back(x.first + "=" + x.second);
		std::vector<const char*> av;
		for (auto &w : words)
			av.push_back(w.c_str());
		av.push_back(NULL);
		fatalok = true;
		int r = 1;
		try {
			r = rdb_addattrs_main(words.size(), av.data());
		} catch (Fatal &) {
			r = 43;
		}
		_exit(r);
	}
	int st;
	if (waitpid(pid, &st, 0) != pid)
		abort();
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static void adding(uint64_t c, uint64_t n) {
	unprivileged();
	if (chdir(top.c_str()) != 0)
		abort();
	static const char *ls[] = {
		"#start data file format 4", "#pair  \"k\"\t\"v\"", "#pair  \"a\"\t\"old\"", "#pair  \"two words\"\t\"x\"", "#altcols  \"n\"\t\"n a\"", "#altrow  \"n\"\t1", "text", "",
	};
	const int nl = 8;
	std::vector<Attrs> as = { { }, { { "a", "1" } }, { { "b", "2" } }, { { "a", "1" }, { "b", "2" } }, { { "b", "long value here" }, { "a", "1" }, { "c", "" } }, { { "two words", "3" }, { "z", "4" } } };
	uint64_t k = 0;
	std::string f = top + "/data", tmp = f + "~";
	for (int len = 0; len <= 3; len++) {
		int total = 1;
		for (int i = 0; i < len; i++)
			total *= nl;
		for (int x = 0; x < total; x++)
			for (auto &a : as) {
				if (k++ % n != c || (len == 3 && !mc::thorough && k % 5))
					continue;
				std::string text, want;
				std::vector<int> lines;
				for (int i = 0, y = x; i < len; i++, y /= nl)
					lines.push_back(y % nl);
				bool added = false;
				for (int l : lines) {
					text += std::string(ls[l]) + "\n";
					if (!added && !strncmp(ls[l], "#pair", 5)) {
						added = true;
						for (auto &p : a) {
							bool has = false;
							for (int m : lines)
								has |= !strncmp(ls[m], ("#pair  \"" + p.first + "\"").c_str(), p.first.size() + 9);
							if (!has)
								want += "#pair  \"" + p.first + "\"\t\"" + p.second + "\"\n";
						}
					}
					want += std::string(ls[l]) + "\n";
				}
				if (!mc::begin([&] { return mc::strf("add %s to %s", str(a).c_str(), text.c_str()); }))
					continue;
				mc::states();
				unlinkat(AT_FDCWD, tmp.c_str(), 0);
				spit(f, text);
				int r = addattrs(f, a, 0, 0, false);
				MC_CHECK(r == 0, "addattrs", "it exits with %d", r);
				MC_CHECK(slurp(f) == want, "addattrs", "the file is %s, not %s", slurp(f).c_str(), want.c_str());
				bool tmpleft;
				slurp(tmp, &tmpleft);
				MC_CHECK(!tmpleft, "addattrs", "a temporary file is left");
				mc::count(nfiles);
				if (a.empty() || (want == text && len > 1))
					continue;
				mc::nontrivial();
				// Stopped before each operation, and in the middle of each write.
				for (int tear = 0; tear < 2; tear++)
					for (int stop = 1;; stop++) {
						unlinkat(AT_FDCWD, tmp.c_str(), 0);
						spit(f, text);
						r = addattrs(f, a, stop, 0, tear);
						std::string is = slurp(f);
						MC_CHECK(is == text || is == want, "stopped", "when it is stopped at operation %d the file is %s", stop, is.c_str());
						mc::count(ncrash);
						mc::transitions();
						if (r == 0)
							break;
						MC_CHECK(r == 42, "stopped", "it exits with %d", r);
						r = addattrs(f, a, 0, 0, false);	// and again
						is = slurp(f);
						MC_CHECK(r == 0 && is == want, "stopped", "run again after operation %d the file is %s", stop, is.c_str());
					}
				// The disk is full at each write.
				for (int fault = 1;; fault++) {
					unlinkat(AT_FDCWD, tmp.c_str(), 0);
					spit(f, text);
					r = addattrs(f, a, 0, fault, false);
					std::string is = slurp(f);
					MC_CHECK(is == text || is == want, "full", "when write %d fails the file is %s", fault, is.c_str());
					mc::transitions();
					if (r == 0) {
						MC_CHECK(is == want, "full", "write %d fails and it exits with 0", fault);
						break;
					}
					mc::count(nfault);
				}
			}
	}
}

// dfcmplt: whether a datafile is complete.
static void complete(uint64_t c, uint64_t n) {
	unprivileged();
	if (chdir(top.c_str()) != 0)
		abort();
	static const char *ls[] = { "#start data file format 4", "#end data file format 4", "#pair  \"k\"\t\"v\"", "", "#start data file format 4 ", "#end data file format" };
	const int nl = 6;
	uint64_t k = 0;
	for (int len = 0; len <= 4; len++) {
		int total = 1;
		for (int i = 0; i < len; i++)
			total *= nl;
		for (int x = 0; x < total; x++) {
			if (k++ % n != c)
				continue;
			std::string text;
			for (int i = 0, y = x; i < len; i++, y /= nl)
				text += std::string(ls[y % nl]) + "\n";
			if (!mc::begin([&] { return text; }))
				continue;
			mc::states();
			bool want = len > 0 && x % nl == 0;
			int last = x;
			for (int i = 1; i < len; i++)
				last /= nl;
			want = want && last == 1;
			spit(top + "/data", text);
			char prog[] = "dfcmplt";
			std::string f = top + "/data";
			std::vector<char> fn(f.begin(), f.end());
			fn.push_back('\0');
			char *av[] = { prog, fn.data(), NULL };
			int r = rdb_dfcmplt_main(2, av);
			MC_CHECK((r == 0) == want, "complete", "%s is %s", text.c_str(), r ? "not complete" : "complete");
			FILE *oi = stdin;
			stdin = fopen(f.c_str(), "r");
			r = rdb_dfcmplt_main(1, av);
			fclose(stdin);
			stdin = oi;
			MC_CHECK((r == 0) == want, "complete", "%s is %s on standard input", text.c_str(), r ? "not complete" : "complete");
			mc::count(nfiles);
		}
	}
	if (c == 0 && mc::begin([] { return "a file that is not there"; })) {
		rmtree(top + "/db");
		std::string f = top + "/db/x/y/z";
		std::vector<char> fn(f.begin(), f.end());
		fn.push_back('\0');
		char prog[] = "dfcmplt";
		char *av[] = { prog, fn.data(), NULL };
		MC_CHECK(rdb_dfcmplt_main(2, av) != 0, "complete", "what is not there is complete");
		MC_CHECK(show(listing(top + "/db")) == "x/ x/y/ ", "complete", "there is %s", show(listing(top + "/db")).c_str());
	}
}

// Removing: every small tree, with links to what is outside of it.
static void removing(uint64_t c, uint64_t n) {
	unprivileged();
	if (chdir(top.c_str()) != 0)
		abort();
	// what an entry can be: a leaf, or a directory with two leaves
	static const char *leaves[] = { "", "f", "d", "lf", "ld", "lx", "lu", "hid" };
	const int nleaf = 8;
	std::vector<std::string> ents;
	for (auto l : leaves)
		ents.push_back(l);
	for (int i = 0; i < nleaf; i++)
		for (int j = i; j < nleaf; j++)
			ents.push_back(std::string("D") + leaves[i] + "," + leaves[j]);
	ents.push_back("Ro");	// a directory that may not be changed, with a file
	std::string tree = top + "/tree", out = top + "/outside";
	auto leaf = [&](const std::string &kind, const std::string &p) {
		if (kind == "f")
			spit(p, "x");
		else if (kind == "hid")
			spit(p.substr(0, p.rfind('/')) + "/." + p.substr(p.rfind('/') + 1), "x");
		else if (kind == "d")
			mkdirat(AT_FDCWD, p.c_str(), 0777);
		else if (kind == "lf")
			symlinkat((out + "/file").c_str(), AT_FDCWD, p.c_str());
		else if (kind == "ld")
			symlinkat((out + "/dir").c_str(), AT_FDCWD, p.c_str());
		else if (kind == "lx")
			symlinkat("nowhere", AT_FDCWD, p.c_str());
		else if (kind == "lu")
			symlinkat("..", AT_FDCWD, p.c_str());
	};
	uint64_t k = 0;
	for (size_t i = 0; i < ents.size(); i++)
		for (size_t j = i; j < ents.size(); j++)
			for (int how = 0; how < 3; how++) {	// the path as it is given: with a slash at its end, relative
				if (k++ % n != c)
					continue;
				if (!mc::begin([&] { return mc::strf("remove %s and %s, %d", ents[i].c_str(), ents[j].c_str(), how); }))
					continue;
				mc::states();
				rmtree(tree);
				rmtree(out);
				mkdirat(AT_FDCWD, tree.c_str(), 0777);
				mkdirat(AT_FDCWD, out.c_str(), 0777);
				spit(out + "/file", "x");
				mkdirat(AT_FDCWD, (out + "/dir").c_str(), 0777);
				spit(out + "/dir/inner", "x");
				bool fixed = false;
				for (int e = 0; e < 2; e++) {
					const std::string &kind = ents[e ? j : i];
					std::string p = tree + (e ? "/two" : "/one");
					if (kind[0] == 'D') {
						mkdirat(AT_FDCWD, p.c_str(), 0777);
						size_t comma = kind.find(',');
						leaf(kind.substr(1, comma - 1), p + "/x");
						leaf(kind.substr(comma + 1), p + "/y");
					} else if (kind == "Ro") {
						mkdirat(AT_FDCWD, p.c_str(), 0777);
						spit(p + "/x", "x");
						chmod(p.c_str(), 0555);
						fixed = geteuid() != 0;
					} else
						leaf(kind, p);
				}
				auto o0 = listing(out);
				warned = 0;
				bool ok = rmrecur(how == 0 ? tree : how == 1 ? tree + "/" : "tree");
				auto l = listing(tree);
				bool gone = faccessat(AT_FDCWD, tree.c_str(), F_OK, AT_SYMLINK_NOFOLLOW) != 0;
				MC_CHECK(listing(out) == o0, "remove", "what links lead to is now %s", show(listing(out)).c_str());
				MC_CHECK(ok == !fixed, "remove", "it gives %d", ok);
				MC_CHECK(gone == ok, "remove", "it gives %d, and there is %s", ok, show(l).c_str());
				if (fixed) {
					MC_CHECK(warned > 0, "remove", "there is no warning");
					for (auto &x : l)
						MC_CHECK(x == "one/" || x == "two/" || x == "one/x" || x == "two/x", "remove", "%s is left", x.c_str());
				}
				mc::count(nrm);
				mc::validated();
			}
	if (c == 0 && mc::begin([] { return "remove what is not there, a file, a link"; })) {
		rmtree(tree);
		MC_CHECK(rmrecur(tree), "remove", "removing what is not there fails");
		spit(tree, "x");
		MC_CHECK(rmrecur(tree) && faccessat(AT_FDCWD, tree.c_str(), F_OK, 0) != 0, "remove", "the file is not removed");
		leaf("ld", tree);
		auto o0 = listing(out);
		MC_CHECK(rmrecur(tree) && faccessat(AT_FDCWD, tree.c_str(), F_OK, 0) != 0 && listing(out) == o0, "remove", "removing a link: outside there is %s", show(listing(out)).c_str());
	}
}

// Paths: every string over a few characters.
static void paths(uint64_t c, uint64_t n) {
	unprivileged();
	rmtree(top + "/db");
	mkdirat(AT_FDCWD, (top + "/db").c_str(), 0777);
	if (chdir((top + "/db").c_str()) != 0)
		abort();
	uint64_t k = 0;
	for (int len = 0; len <= (mc::thorough ? 9 : 8); len++) {
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= 3;
		for (uint64_t x = 0; x < total; x++) {
			if (k++ % n != c)
				continue;
			std::string s;
			for (uint64_t i = 0, y = x; (int) i < len; i++, y /= 3)
				s.push_back("a/."[y % 3]);
			if (!mc::begin([&] { return s; }))
				continue;
			mc::states();
			size_t sl = s.rfind('/');
			std::string base = sl == std::string::npos ? s : s.substr(sl + 1);
			if (base.empty())
				base = ".";
			std::string dir = sl == std::string::npos ? "." : sl == 0 ? "/" : s.substr(0, sl);
			MC_CHECK(basename(s) == base, "basename", "of %s is %s, not %s", s.c_str(), basename(s).c_str(), base.c_str());
			MC_CHECK(dirname(s) == dir, "dirname", "of %s is %s, not %s", s.c_str(), dirname(s).c_str(), dir.c_str());
			std::string want = s + (s.empty() || s.back() == '/' ? "" : "/") + "b.c";
			MC_CHECK(pathcat(s, "b.c") == want, "pathcat", "of %s and b.c is %s", s.c_str(), pathcat(s, "b.c").c_str());
			MC_CHECK(pathcatn(2, s.c_str(), "b.c") == want, "pathcatn", "of %s and b.c is %s", s.c_str(), pathcatn(2, s.c_str(), "b.c").c_str());
			MC_CHECK(pathcatn(3, "r", s.c_str(), "b.c") == (s.empty() ? std::string("r/b.c") : s.back() == '/' ? "r/" + s + "b.c" : "r/" + s + "/b.c"), "pathcatn", "of r, %s and b.c is %s", s.c_str(),
				pathcatn(3, "r", s.c_str(), "b.c").c_str());
			mc::count(npaths);
		}
	}
	// Directories are made for it, and nothing else.
	static const char *parts[] = { "a", "b", ".", "a b", "" };
	for (int len = 1; len <= 5; len++) {
		int total = 1;
		for (int i = 0; i < len; i++)
			total *= 5;
		for (int x = 0; x < total * 4; x++) {
			if (k++ % n != c)
				continue;
			std::string s;
			std::set<std::string> want;
			std::vector<std::string> pre;
			int y = x / 4;
			std::string at;
			for (int i = 0; i < len; i++, y /= 5) {
				std::string p = parts[y % 5];
				s += (i ? "/" : "") + p;
				if (i < len - 1 && p != "." && p != "") {
					at += p + "/";
					want.insert(at);
				}
			}
			if (s.empty() || s[0] == '/')
				continue;
			std::string given = x % 2 ? top + "/db/" + s : s;
			if (!mc::begin([&] { return "directory of " + s + (x & 2 ? " twice" : ""); }))
				continue;
			mc::states();
			rmtree(top + "/db");
			mkdirat(AT_FDCWD, (top + "/db").c_str(), 0777);
			if (chdir((top + "/db").c_str()) != 0)
				abort();
			if (x & 2) {
				mkdirat(AT_FDCWD, "a", 0777);
				spit("a/f", "x");
				want.insert("a/");
				want.insert("a/f");
			}
			ensuredir(given);
			ensuredir(given);
			auto have = listing(top + "/db");
			MC_CHECK(have == want, "ensuredir", "of %s makes %s, not %s", given.c_str(), show(have).c_str(), show(want).c_str());
			// and what is in it
			for (auto &h : have) {
				std::string p = top + "/db/" + h;
				bool isd = h.back() == '/';
				MC_CHECK(fileexists(p) && isdir(p) == isd, "exists", "%s is %d, a directory %d", p.c_str(), fileexists(p), isdir(p));
				MC_CHECK(!fileexists(p + (isd ? "no" : "no/no") ) || !isd, "exists", "%sno is there", p.c_str());
			}
			std::set<std::string> l1, l2, top1;
			for (auto &e : readdir(top + "/db", false))
				l1.insert(e);
			for (auto &e : readdir(x & 1 ? top + "/db/" : top + "/db"))
				l2.insert(e);
			for (auto &h : have) {
				std::string f = h.substr(0, h.find('/'));
				top1.insert(f);
			}
			MC_CHECK(l1 == top1, "readdir", "gives %s, not %s", show(l1).c_str(), show(top1).c_str());
			std::set<std::string> t2;
			for (auto &t : top1)
				t2.insert(top + "/db/" + t);
			MC_CHECK(l2 == t2, "readdir", "gives %s, not %s", show(l2).c_str(), show(t2).c_str());
			mc::count(nens);
			if (x & 2)
				continue;
			// the same when another process makes each directory first, or all that are above the file
			for (int all = 0; all < 2; all++) {
				rmtree(top + "/db");
				mkdirat(AT_FDCWD, (top + "/db").c_str(), 0777);
				if (chdir((top + "/db").c_str()) != 0)
					abort();
				point = [&](const std::string &op) {
					if (op.compare(0, 6, "mkdir ") != 0)
						return;
					if (all)
						for (auto &w : want)
							mkdirat(AT_FDCWD, (top + "/db/" + w).c_str(), 0777);
					else
						mkdirat(AT_FDCWD, op.substr(6).c_str(), 0777);
				};
				ensuredir(given);
				point = nullptr;
				have = listing(top + "/db");
				MC_CHECK(have == want, "ensuredir", "of %s makes %s, not %s, with another process", given.c_str(), show(have).c_str(), show(want).c_str());
			}
		}
	}
}

// Long lists, long names, many files.
static void large(uint64_t c, uint64_t n) {
	unprivileged();
	static const Case cases[] = { { "ABS", false }, { "db", true }, { ".", false } };
	uint64_t k = 0;
	for (int shape = 0; shape < 8; shape++)
		for (auto &cs : cases) {
			if (k++ % n != c || !mc::begin([&] { return mc::strf("large %d, %s", shape, cs.root.c_str()); }))
				continue;
			std::vector<Attrs> adds, queries = { Attrs() };
			auto key = [&](int i) { return mc::strf("k%d", i); };
			switch (shape) {
			case 0:	// many values of one key
			case 1:	// and of another below
				for (int i = 0; i < 300; i++) {
					Attrs a = { { "num", mc::strf("%d", i) } };
					if (shape)
						a.insert(a.begin() + i % 2, { "alg", i % 3 ? "astar" : "greedy" });
					adds.push_back(a);
					if (i % 60 == 7)
						queries.push_back({ { "num", mc::strf("%d", i) } });
				}
				queries.push_back({ { "alg", "astar" } });
				break;
			case 2:	// long lists
			case 3:	// in other orders
				for (int v = 0; v < 6; v++) {
					Attrs a;
					for (int i = 0; i < 40; i++) {
						int j = shape == 2 ? i : (i * 7 + v * 3) % 40;
						a.push_back({ key(j), mc::strf("%d", j * v % 5) });
					}
					adds.push_back(a);
					queries.push_back(a);
					queries.push_back({ a[39], a[20], a[3] });
				}
				break;
			case 4:	// long names
				for (int v = 0; v < 12; v++) {
					Attrs a;
					for (int i = 0; i < 5; i++)
						a.push_back({ std::string(200, 'a' + i), std::string(250 + v % 4, 'p' + (v >> i & 1)) });
					adds.push_back(a);
					queries.push_back(a);
					queries.push_back({ a[4] });
				}
				break;
			case 5:	// keys that are missing, and keys that are new
				for (int v = 0; v < 30; v++) {
					Attrs a;
					for (int i = 0; i < 12; i++)
						if ((v * 5 + i) % 3)
							a.push_back({ key(i), "x" });
					a.push_back({ "num", mc::strf("%d", v) });
					adds.push_back(a);
					queries.push_back({ a[0], a[1] });
				}
				break;
			case 6:	// a wide tree
				for (int v = 0; v < 256; v++) {
					Attrs a;
					for (int i = 0; i < 4; i++)
						a.push_back({ key(i), mc::strf("%d", v >> 2 * i & 3) });
					std::rotate(a.begin(), a.begin() + (v ? v % 4 : 0), a.end());
					adds.push_back(a);
				}
				for (int i = 0; i < 4; i++)
					for (int j = 0; j < 4; j++)
						queries.push_back({ { key(i), "1" }, { key(j), j == i ? "1" : "3" } });
				for (auto &q : queries)
					if (q.size() == 2 && q[0].first == q[1].first)
						q.pop_back();
				break;
			case 7:	// values that look alike
				for (int i = 0; i < 120; i++)
					adds.push_back({ { "map", mc::strf("m%d%s", i / 3, i % 3 == 0 ? "" : i % 3 == 1 ? "0" : " ") }, { "KEY", "KEYS=" } });
				queries.push_back({ { "map", "m1" } });
				queries.push_back({ { "map", "m10" } });
				break;
			}
			scenario(adds, queries, cs);
		}
	// a list of hundreds
	if (k++ % n == c && mc::begin([] { return "a list of 600"; })) {
		RdbAttrs r;
		Attrs m;
		auto same = [&] {
			MC_CHECK(r.size() == m.size() && r.string() == str(m), "list", "the list is %s", r.string().substr(0, 2000).c_str());
			for (auto &p : m)
				MC_CHECK(r.mem(p.first) && r.lookup(p.first) == p.second, "list", "%s is %s", p.first.c_str(), r.lookup(p.first).c_str());
		};
		for (int i = 0; i < 600; i++) {
			std::string key = mc::strf("key %d", i), v = mc::strf("%d", i * 3);
			bool front = i % 5 == 4;
			MC_CHECK(front ? r.push_front(key, v) : r.push_back(key, v), "list", "%s is refused", key.c_str());
			MC_CHECK(!r.push_back(mc::strf("key %d", i / 2), "x"), "list", "it is there twice");
			m.insert(front ? m.begin() : m.end(), { key, v });
		}
		same();
		for (int i = 0; i < 600; i += 7) {
			std::string key = mc::strf("key %d", i);
			MC_CHECK(r.rm(key) && !r.mem(key), "list", "%s stays", key.c_str());
			m.erase(std::find_if(m.begin(), m.end(), [&](const std::pair<std::string, std::string> &p) { return p.first == key; }));
		}
		same();
		for (int i = 0; i < 50; i++) {
			r.pop_front();
			m.erase(m.begin());
		}
		same();
		std::vector<std::string> words;
		std::vector<const char*> av;
		for (auto &p : m)
			words.push_back(p.first + "=" + p.second);
		for (auto &w : words)
			av.push_back(w.c_str());
		av.push_back(NULL);
		MC_CHECK(back(attrargs(words.size(), av.data())) == m, "arguments", "%zu arguments are another list", words.size());
		mc::states();
		mc::validated();
	}
}

void mc_setup() {
	nops = mc::counter("list_operations");
	nargs = mc::counter("command_lines");
	nadds = mc::counter("adds");
	nqueries = mc::counter("queries");
	nconfl = mc::counter("adds_that_conflict");
	nstates = mc::counter("states_of_races");
	nsched = mc::counter("ends_of_races");
	ncrash = mc::counter("stops");
	nfault = mc::counter("failed_writes");
	nfiles = mc::counter("datafiles");
	nrm = mc::counter("trees_removed");
	nens = mc::counter("directories_ensured");
	npaths = mc::counter("paths");
	nlists = mc::counter("listings");
	mc::suite("lists", "every sequence of up to 5 (thorough: 6) of 10 operations on an attribute list", 8, [](uint64_t c) { lists(c, 8); });
	mc::suite("args", "every command line of up to 5 of 9 words", 8, [](uint64_t c) { args(c, 8); });
	mc::suite("adds1", "every list of up to 3 of 3 attributes, in every order, by every way to name the root", 8, [](uint64_t c) {
		sequences(attrlists({ "a", "b", "c" }, { "1", "2" }, 1, 3, true), attrlists({ "a", "b", "c" }, { "1", "2", "UNSPECIFIED" }, 0, 3, false), 1, 1, c, 8);
		sequences(attrlists({ "a", "two words" }, { "1", "x y", "-1", "a=b" }, 1, 2, true), attrlists({ "a", "two words" }, { "1", "x y", "-1", "a=b" }, 0, 2, false), 1, 1, c, 8);
		sequences(attrlists({ "a", "KEY" }, { "MONKEY=1", ".5", "KEY" }, 1, 2, true), attrlists({ "a", "KEY", "1" }, { "MONKEY=1", ".5", "KEY", "1" }, 0, 2, false), 1, 1, c, 8);
	}, 60);
	mc::suite("adds2", "every two of these", 32, [](uint64_t c) {
		sequences(attrlists({ "a", "b", "c" }, { "1", "2" }, 1, 3, true), attrlists({ "a", "b", "c" }, { "1", "2", "UNSPECIFIED" }, 0, 3, false), 2, mc::thorough ? 1 : 3, c, 32);
		sequences(attrlists({ "a", "KEY" }, { "MONKEY=1", ".5", "KEY" }, 1, 2, true), attrlists({ "a", "KEY", "1" }, { "MONKEY=1", ".5", "KEY", "1" }, 0, 2, false), 2, 1, c, 32);
	}, 60);
	mc::suite("adds3", "every three lists of up to 2 of 2 attributes; every 101st (thorough: 5th) of up to 3 of 3", 32, [](uint64_t c) {
		sequences(attrlists({ "a", "b" }, { "1", "2" }, 1, 2, true), attrlists({ "a", "b" }, { "1", "2" }, 0, 2, false), 3, 1, c, 32);
		sequences(attrlists({ "a", "b", "c" }, { "1", "2" }, 1, 3, true), attrlists({ "a", "b", "c" }, { "1", "2" }, 0, 3, false), 3, mc::thorough ? 5 : 101, c, 32);
	}, 60);
	mc::suite("large", "300 files of a key, 40 attributes, names of 250 characters, lists of 600", 16, [](uint64_t c) { large(c, 16); }, 60);
	mc::suite("races", "every interleaving of two, and of three, processes that look for paths, one of which may stop", 32, [](uint64_t c) { races(c, 32); }, 60);
	mc::suite("addattrs", "files of up to 3 of 8 lines, 6 lists of attributes: each operation at which it is stopped, each write that fails", 32, [](uint64_t c) { adding(c, 32); }, 60);
	mc::suite("complete", "every datafile of up to 4 of 6 lines", 4, [](uint64_t c) { complete(c, 4); });
	mc::suite("removing", "every tree of two entries of 45 kinds, with links", 16, [](uint64_t c) { removing(c, 16); });
	mc::suite("paths", "every path of up to 8 (thorough: 9) of 3 characters, every way of up to 5 directories", 8, [](uint64_t c) { paths(c, 8); });
}

MC_MAIN
