// proc.hpp: runs the main function of a program in a process of its own.
#pragma once
#include "mc.hpp"
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Ran {
	int status;	// the exit status, or -1
	int sig;	// the signal that ended it, or 0
	std::string out, err;
};

static inline std::string slurpfd(int fd) {
	std::string s;
	off_t n = lseek(fd, 0, SEEK_END);
	s.resize(n);
	if (n && pread(fd, &s[0], n, 0) != n)
		s.resize(0);
	return s;
}

// A program gets its standard streams, and its own copy of all variables. It is
// ended if it takes longer than the given number of seconds of CPU time.
template <class F> static Ran runmain(const std::string &in, F fn, int cpu = 20) {
	fflush(NULL);
	static int fds[3] = { -1, -1, -1 };
	static pid_t owner;
	if (owner != getpid()) {
		owner = getpid();
		for (int &f : fds) {
			if (f >= 0)
				close(f);
			f = memfd_create("mc", 0);
		}
	}
	for (int f : fds) {
		if (ftruncate(f, 0) < 0)
			abort();
		lseek(f, 0, SEEK_SET);
	}
	if (in.size() && pwrite(fds[0], in.data(), in.size(), 0) != (ssize_t) in.size())
		abort();
	pid_t p = fork();
	if (p < 0)
		abort();
	if (p == 0) {
		for (int i = 0; i < 3; i++)
			dup2(fds[i], i);
		stdin = fdopen(0, "r");
		stdout = fdopen(1, "w");
		stderr = fdopen(2, "w");
		setvbuf(stderr, NULL, _IONBF, 0);
		struct rlimit l = { (rlim_t) cpu, (rlim_t) cpu };
		setrlimit(RLIMIT_CPU, &l);
		int rc = fn();
		fflush(NULL);
		_exit(rc & 0xff);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0)
		;
	Ran r;
	r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	r.out = slurpfd(fds[1]);
	r.err = slurpfd(fds[2]);
	return r;
}
