// Runs a program built next to the harness.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace prog {

inline std::string slurp(const std::string &p) {
	std::string s;
	FILE *f = fopen(p.c_str(), "rb");
	if (!f) return s;
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
	fclose(f);
	return s;
}

inline void spew(const std::string &p, const std::string &s) {
	FILE *f = fopen(p.c_str(), "wb");
	if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); abort(); }
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}

struct Out {
	int status = 0;	// exit status; 1000 + signal; -1 when it used too much CPU
	std::string out, err;
	bool ok() const { return status == 0; }
	// clean is true if the program ended by itself without a memory error.
	bool clean() const { return status >= 0 && status < 1000 && status != 66 && err.find("AddressSanitizer") == std::string::npos; }
};

struct Limits { unsigned nofile = 0; };
inline Limits &limits() { static Limits l; return l; }

inline std::string dir() {
	const char *d = getenv("VERIF_BINDIR");
	if (!d) { fprintf(stderr, "VERIF_BINDIR is not set\n"); abort(); }
	return d;
}

// run runs the program in the scratch directory, which is the current one.
// Its files of input and output lie beside that directory.
inline Out run(const std::string &name, const std::vector<std::string> &args, const std::string &in = "", unsigned cpu = 20) {
	std::string path = dir() + "/" + name, base = pbt::scratch() + ".run";
	spew(base + "in", in);
	std::vector<char*> argv;
	argv.push_back((char*) path.c_str());
	for (auto &a : args) argv.push_back((char*) a.c_str());
	argv.push_back(NULL);
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		int i = open((base + "in").c_str(), O_RDONLY);
		int o = open((base + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		int e = open((base + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (i < 0 || o < 0 || e < 0) _exit(3);
		dup2(i, 0); dup2(o, 1); dup2(e, 2);
		struct rlimit rl = { cpu, cpu + 1 };
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit fs = { 64 << 20, 64 << 20 };
		setrlimit(RLIMIT_FSIZE, &fs);
		if (limits().nofile) {
			struct rlimit nf = { limits().nofile, limits().nofile };
			setrlimit(RLIMIT_NOFILE, &nf);
		}
		setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=66", 1);
		execv(path.c_str(), argv.data());
		_exit(127);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	Out r;
	r.out = slurp(base + "out");
	r.err = slurp(base + "err");
	if (WIFSIGNALED(st)) r.status = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? -1 : 1000 + WTERMSIG(st);
	else r.status = WEXITSTATUS(st);
	if (r.status == 127) { fprintf(stderr, "cannot run %s\n", path.c_str()); abort(); }
	return r;
}

inline std::vector<std::string> lines(const std::string &s) {
	std::vector<std::string> v;
	size_t b = 0;
	while (b < s.size()) {
		size_t e = s.find('\n', b);
		if (e == std::string::npos) e = s.size();
		v.push_back(s.substr(b, e - b));
		b = e + 1;
	}
	return v;
}

// shown abbreviates text for a message.
inline std::string shown(const std::string &s, size_t n = 400) {
	std::string r;
	for (unsigned char ch : s.substr(0, n)) r += ch == '\n' ? std::string("|") : ch >= 32 && ch < 127 ? std::string(1, (char) ch) : pbt::strf("\\x%02x", ch);
	return r;
}

// A pair of a datafile.
inline bool pairline(const std::string &l, std::string &k, std::string &v) {
	if (l.compare(0, 8, "#pair  \"") != 0 || l.size() < 13 || l.back() != '"') return false;
	size_t mid = l.find("\"\t\"", 8);
	if (mid == std::string::npos) return false;
	k = l.substr(8, mid - 8);
	v = l.substr(mid + 3, l.size() - mid - 4);
	return true;
}

// The value of a key in a datafile; "" if it has none.
inline std::string value(const std::string &text, const std::string &key) {
	std::string k, v, r;
	for (auto &l : lines(text)) if (pairline(l, k, v) && k == key) r = v;
	return r;
}

}
