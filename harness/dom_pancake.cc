// P18: pancakes, against a model of the puzzle.
#include "domcheck.hpp"
#include "pancake/pancake.hpp"
#include <numeric>
#include <sys/wait.h>

static const int N = NCAKES;
typedef std::vector<int> Stack;

static std::string enc(const Stack &b) {
	std::string s;
	for (int i = 0; i < N; i++) s += strf(i ? " %d" : "%d", b[i]);
	return s;
}
static Stack dec(const std::string &k) {
	Stack b;
	const char *p = k.c_str();
	for (int i = 0; i < N; i++) { char *e; b.push_back((int) strtol(p, &e, 10)); p = e; }
	return b;
}
static int gaps(const Stack &s) {
	int g = s[N-1] != N - 1;	// the plate
	for (int i = 0; i + 1 < N; i++) g += abs(s[i] - s[i+1]) != 1;
	return g;
}
static bool sorted(const Stack &s) {
	for (int i = 0; i < N; i++) if (s[i] != i) return false;
	return true;
}

struct PancakeA : AdapterBase {
	typedef Pancake D;
	D &d;
	PancakeA(D &dd) : d(dd) { }
	std::string key(D::State &s) {
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		d.dumpstate(f, s);
		fclose(f);
		std::string k(buf, n);
		free(buf);
		return enc(dec(k));
	}
	std::vector<MSucc> succs(const std::string &k) {
		std::vector<MSucc> r;
		for (int n = 2; n <= N; n++) {
			Stack t = dec(k);
			std::reverse(t.begin(), t.begin() + n);
			r.push_back(MSucc(enc(t), 1));
		}
		return r;
	}
	bool goal(const std::string &k) { return sorted(dec(k)); }
	void checkh(Case &c, D::State &s, const std::string &k) {
		int want = gaps(dec(k));
		CHECK((int) d.h(s) == want, "there are %d gaps in %s, h is %d", want, k.c_str(), (int) d.h(s));
		CHECK((int) d.d(s) == want, "there are %d gaps in %s, d is %d", want, k.c_str(), (int) d.d(s));
	}
};

// Fewest flips that sort, by iterative deepening on the gaps counted afresh.
static bool dfs(Stack &s, int left) {
	int g = gaps(s);
	if (g == 0) return true;
	if (g > left) return false;
	for (int n = 2; n <= N; n++) {
		std::reverse(s.begin(), s.begin() + n);
		bool ok = dfs(s, left - 1);
		std::reverse(s.begin(), s.begin() + n);
		if (ok) return true;
	}
	return false;
}
static int flips(Stack s) {
	for (int b = gaps(s);; b++) if (dfs(s, b)) return b;
}

static std::string instance(const Stack &s) {
	return strf("%d\n", N) + enc(s) + "\n";
}

static Stack gen(Case &c) {
	Stack s(N);
	std::iota(s.begin(), s.end(), 0);
	if (c.chance(2, 3)) for (int i = N - 1; i > 0; i--) std::swap(s[i], s[i - (int) c.draw(i + 1)]);
	else for (int i = (int) c.size(0, 12); i > 0; i--) std::reverse(s.begin(), s.begin() + 2 + c.draw(N - 1));
	return s;
}

PROP(pancake_walk, 500, 10000, "a walk of at least three flips") {
	Stack start = gen(c);
	std::string text = instance(start);
	c.desc("%s", text.c_str());
	TextFile f(text);
	Pancake d(f.f);
	PancakeA a(d);
	DomCheck<PancakeA> dc(c, a);
	Pancake::State s = d.initialstate();
	CHECK(a.key(s) == enc(start), "the instance read starts at %s, not %s", a.key(s).c_str(), enc(start).c_str());
	int depth = (int) c.size(0, N > 20 ? 6 : 25);
	dc.walk(s, enc(start), depth);
	if (depth >= 3) c.nontrivial();
	c.label("edges", dc.nedges);
}

PROP(pancake_solve, 200, 4000, "at least three flips needed") {
	Stack start(N);
	std::iota(start.begin(), start.end(), 0);
	if (N <= 8 && c.flip()) start = gen(c);
	else for (int i = (int) c.range(0, N > 20 ? 5 : 7); i > 0; i--) std::reverse(start.begin(), start.begin() + 2 + c.draw(N - 1));
	std::string text = instance(start);
	c.desc("%s", text.c_str());
	TextFile f(text);
	Pancake d(f.f);
	PancakeA a(d);
	int opt = flips(start);
	if (opt >= 3) c.nontrivial();
	Pancake::State s = d.initialstate();
	CHECK((int) d.h(s) <= opt, "h is %d, %d flips sort the stack", (int) d.h(s), opt);
	solvecheck(c, a, opt, true);
}

PROP(pancake_reject, 40, 300, "always") {
	c.nontrivial();
	Stack start = gen(c);
	std::string s = instance(start);
	if (c.flip()) {
		int n = c.flip() ? N + 1 + (int) c.size(0, 9) : N - 1 - (int) c.draw(N - 1);
		s = strf("%d\n", n) + enc(start) + " 7 7 7 7 7 7 7 7 7 7\n";
	} else {
		size_t sp = c.draw(N), at = s.find('\n');
		for (size_t i = 0; i < sp; i++) at = s.find(' ', at + 1);
		s.resize(at + 1);
	}
	c.desc("%s", s.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(s); Pancake d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_pancake, 480, 9000, "at least three flips needed") {
	Stack start = gen(c);
	std::string text = instance(start);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.ida = true;
	if (c.chance(1, 8)) { clirefuse(c, "prog_pancake_solver", text, t); return; }
	TextFile f(text);
	Pancake d(f.f);
	Pancake::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	int opt = flips(start);
	clisolve(c, "prog_pancake_solver", text, opt, t);
	if (opt >= 3) c.nontrivial();
}
#endif
