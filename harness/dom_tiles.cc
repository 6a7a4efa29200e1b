// P17: sliding tiles, against a model of the puzzle.
#include "domcheck.hpp"
#include "tiles/mdist.hpp"
#include "tiles/pdb.hpp"
#include <cstring>
#include <functional>
#include <map>
#include <numeric>
#include <sys/wait.h>
#include <unordered_map>

static const int W = WIDTH, H = HEIGHT, N = WIDTH * HEIGHT;
typedef std::vector<int> Board;	// tile at each position

// Only the boards of 3x3 and 4x4 can be packed.
static const bool PACKS = N == 9 || N == 16;

static std::string enc(const Board &b) {
	std::string s;
	for (int i = 0; i < N; i++) s += strf(i ? " %d" : "%d", b[i]);
	return s;
}
static Board dec(const std::string &k) {
	Board b;
	const char *p = k.c_str();
	for (int i = 0; i < N; i++) { char *e; b.push_back((int) strtol(p, &e, 10)); p = e; }
	return b;
}
static int blank(const Board &b) { return (int) (std::find(b.begin(), b.end(), 0) - b.begin()); }

static std::vector<int> neighbours(int p) {
	std::vector<int> r;
	int x = p % W, y = p / W;
	static const int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
	for (int i = 0; i < 4; i++) {
		int nx = x + dx[i], ny = y + dy[i];
		if (nx >= 0 && nx < W && ny >= 0 && ny < H) r.push_back(ny * W + nx);
	}
	return r;
}
static std::vector<Board> moves(const Board &b) {
	std::vector<Board> r;
	int z = blank(b);
	for (int p : neighbours(z)) {
		Board n = b;
		std::swap(n[z], n[p]);
		r.push_back(n);
	}
	return r;
}

struct TilesA : AdapterBase {
	typedef TilesMdist D;
	D &d;
	Board goalb;
	TilesA(D &dd, const Board &g) : d(dd), goalb(g) { }
	static bool packs() { return PACKS; }

	std::string key(D::State &s) {
		D::State copy(s);
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		d.dumpstate(f, copy);
		fclose(f);
		std::string k;
		char *save = nullptr;
		for (char *t = strtok_r(buf, " \t\n", &save); t; t = strtok_r(nullptr, " \t\n", &save)) k += (k.empty() ? "" : " ") + std::string(t);
		free(buf);
		return k;
	}
	std::vector<MSucc> succs(const std::string &k) {
		std::vector<MSucc> r;
		for (auto &b : moves(dec(k))) r.push_back(MSucc(enc(b), 1));
		return r;
	}
	bool goal(const std::string &k) { return dec(k) == goalb; }

	int manhattan(const Board &b) {
		std::vector<int> at(N);
		for (int i = 0; i < N; i++) at[goalb[i]] = i;
		int sum = 0;
		for (int i = 0; i < N; i++)
			if (b[i]) sum += abs(i % W - at[b[i]] % W) + abs(i / W - at[b[i]] / W);
		return sum;
	}
	void checkh(Case &c, D::State &s, const std::string &k) {
		int want = manhattan(dec(k));
		CHECK((int) d.h(s) == want, "the Manhattan distance of %s is %d, h is %d", k.c_str(), want, (int) d.h(s));
		CHECK((int) d.d(s) == want, "the Manhattan distance of %s is %d, d is %d", k.c_str(), want, (int) d.d(s));
	}
};

// Distance between two boards no further apart than 2 * depth, from both
// sides; -1 if further apart.
static int bidist(const Board &a, const Board &b, int depth) {
	if (a == b) return 0;
	std::unordered_map<std::string, int> seen[2];
	std::vector<Board> front[2] = { { a }, { b } };
	auto raw = [](const Board &x) { return std::string(x.begin(), x.end()); };
	seen[0][raw(a)] = 0;
	seen[1][raw(b)] = 0;
	int d[2] = { 0, 0 };
	for (int i = 0; i < 2 * depth; i++) {
		int s = i % 2;
		std::vector<Board> next;
		d[s]++;
		int best = -1;
		for (auto &x : front[s])
			for (auto &y : moves(x)) {
				if (!seen[s].insert(std::make_pair(raw(y), d[s])).second) continue;
				next.push_back(y);
				auto it = seen[1-s].find(raw(y));
				if (it != seen[1-s].end() && (best < 0 || d[s] + it->second < best)) best = d[s] + it->second;
			}
		if (best >= 0) return best;
		front[s].swap(next);
	}
	return -1;
}

static std::string instance(const Board &start, const Board &goal, Case &c) {
	std::vector<int> sp(N), gp(N);
	for (int i = 0; i < N; i++) { sp[start[i]] = i; gp[goal[i]] = i; }
	std::string s = strf("%d %d\n", W, H);
	s += "starting positions for each tile:\n";
	for (int t = 0; t < N; t++) s += strf("%d\n", sp[t]);
	s += "goal positions:\n";
	for (int t = 0; t < N; t++) s += strf("%d\n", gp[t]);
	return s;
}

static Board gengoal(Case &c) {
	Board g(N);
	std::iota(g.begin(), g.end(), 0);
	if (c.chance(1, 2))
		for (int i = N - 1; i > 0; i--) std::swap(g[i], g[i - (int) c.draw(i + 1)]);
	return g;
}

static Board scramble(Case &c, Board b, int steps) {
	int last = -1;
	for (int i = 0; i < steps; i++) {
		auto ns = neighbours(blank(b));
		int z = blank(b), p = ns[c.draw(ns.size())];
		if (p == last) p = ns[(std::find(ns.begin(), ns.end(), p) - ns.begin() + 1) % ns.size()];
		std::swap(b[z], b[p]);
		last = z;
	}
	return b;
}

// A pattern database keeps one entry for each placement of its tiles.
static void patterns(Case &c, Pdb &db, int k, bool compact) {
	unsigned long n = 1;
	for (int i = 0; i < k; i++) n *= N - i;
	CHECK(db.numentries() == n, "%lu entries for %d tiles", db.numentries(), k);
	std::map<unsigned char *, std::vector<Tiles::Pos>> owner;
	std::vector<Tiles::Pos> at(k);
	unsigned char *lo = NULL, *hi = NULL;
	std::vector<bool> used(N);
	std::function<void(int)> place = [&](int i) {
		if (i < k) {
			for (int p = 0; p < N; p++) if (!used[p]) {
				used[p] = true;
				at[i] = p;
				place(i + 1);
				used[p] = false;
			}
			return;
		}
		std::vector<unsigned char> small(at.begin(), at.end());
		unsigned char *e = db.poscost(at.data());
		CHECK(e == db.poscost(small.data()), "a placement has two entries");
		CHECK(owner.emplace(e, at).second, "two placements share an entry");
		*e = (unsigned char) (1 + owner.size() % 250);
		if (!lo || e < lo) lo = e;
		if (!hi || e > hi) hi = e;
	};
	place(0);
	CHECK(owner.size() == n, "%zu placements, %lu entries", owner.size(), n);
	if (compact) CHECK((unsigned long) (hi - lo) == n - 1, "%lu entries spread over %zu", n, (size_t) (hi - lo) + 1);
	size_t j = 0;
	std::vector<bool> u(N);
	std::function<void(int)> look = [&](int i) {
		if (i < k) {
			for (int p = 0; p < N; p++) if (!u[p]) { u[p] = true; at[i] = p; look(i + 1); u[p] = false; }
			return;
		}
		j++;
		CHECK(*db.poscost(at.data()) == 1 + j % 250, "an entry is overwritten");
	};
	look(0);
}
// The same for more tiles, all entries put in order instead of looked up.
static void manypatterns(Case &c, Pdb &db, int k, bool compact) {
	unsigned long n = 1;
	for (int i = 0; i < k; i++) n *= N - i;
	CHECK(db.numentries() == n, "%lu entries for %d tiles", db.numentries(), k);
	std::vector<unsigned char *> all;
	all.reserve(n);
	std::vector<Tiles::Pos> at(k);
	unsigned used = 0;
	std::function<void(int)> place = [&](int i) {
		if (i == k) { all.push_back(db.poscost(at.data())); return; }
		for (int p = 0; p < N; p++) if (!(used & 1u << p)) {
			used |= 1u << p;
			at[i] = p;
			place(i + 1);
			used &= ~(1u << p);
		}
	};
	place(0);
	std::sort(all.begin(), all.end());
	CHECK(all.size() == n && std::adjacent_find(all.begin(), all.end()) == all.end(), "two placements of %d tiles share an entry", k);
	if (compact) CHECK((unsigned long) (all.back() - all[0]) == n - 1, "%lu entries spread over %zu", n, (size_t) (all.back() - all[0]) + 1);
}

PROP(tiles_patterns, 160, 3000, "at least two tiles") {
	int k = (int) c.size(1, N > 15 ? 3 : 4);
	bool many = N <= 16 && c.chance(1, 12);
	bool compact = c.flip();
	if (many) k = N > 15 ? (compact ? 4 : c.flip() ? 6 : 5) : (int) c.range(5, std::min(N - 1, 7));
	std::vector<Tiles::Tile> pat;
	std::vector<int> all(N - 1);
	std::iota(all.begin(), all.end(), 1);
	for (int i = 0; i < k; i++) { size_t j = c.draw(all.size()); pat.push_back(all[j]); all.erase(all.begin() + j); }
	if (k >= 2) c.nontrivial();
	auto check = many ? manypatterns : patterns;
	if (many) c.label("many tiles");
	if (compact) { CompactPdb db(k, pat.data()); check(c, db, k, true); }
	else { SparsePdb db(k, pat.data()); check(c, db, k, false); }
	c.label(compact ? "compact" : "sparse");
}

// The packing of bare boards, which the packing of states builds on.
#if WIDTH * HEIGHT == 9 || WIDTH * HEIGHT == 16
PROP(tiles_packing, 300, 6000, "always") {
	c.nontrivial();
	Board b = scramble(c, gengoal(c), (int) c.size(0, 200)), o = scramble(c, b, (int) c.range(0, 2));
	Tiles::Tile ts[N], us[N], back[N];
	for (int i = 0; i < N; i++) { ts[i] = b[i]; us[i] = o[i]; back[i] = 77; }
	PackedTiles<N> p, q, r;
	p.pack(ts);
	q.pack(us);
	r.pack(ts);
	int z = p.unpack(back);
	CHECK(std::equal(ts, ts + N, back) && z == blank(b), "%s unpacks otherwise, or has its blank at %d", enc(b).c_str(), z);
	CHECK(p.eq(NULL, r) && p.hash(NULL) == r.hash(NULL), "equal boards pack otherwise");
	CHECK(p.eq(NULL, q) == (b == o), "%s and %s pack %s", enc(b).c_str(), enc(o).c_str(), b == o ? "otherwise" : "alike");
}
#endif

PROP(tiles_walk, 1000, 20000, "a walk of at least five moves") {
	Board goal = gengoal(c);
	Board start = c.chance(1, 4) ? goal : scramble(c, goal, (int) c.size(0, 200));
	std::string text = instance(start, goal, c);
	c.desc("%s", text.c_str());
	TextFile f(text);
	TilesMdist d(f.f);
	TilesA a(d, goal);
	DomCheck<TilesA> dc(c, a);
	TilesMdist::State s = d.initialstate();
	CHECK(a.key(s) == enc(start), "the instance read starts at %s, not %s", a.key(s).c_str(), enc(start).c_str());
	int depth = (int) c.size(0, 30);
	dc.walk(s, enc(start), depth);
	if (depth >= 5) c.nontrivial();
	c.label("edges", dc.nedges);
}

PROP(tiles_solve, 300, 6000, "a start at least six moves from the goal") {
	Board goal = gengoal(c);
	int half = 9;
	Board start = scramble(c, goal, (int) c.range(0, 2 * half));
	std::string text = instance(start, goal, c);
	c.desc("%s", text.c_str());
	TextFile f(text);
	TilesMdist d(f.f);
	TilesA a(d, goal);
	int opt = bidist(start, goal, half);
	CHECK(opt >= 0, "harness: too far");
	if (opt >= 6) c.nontrivial();
	{
		TilesMdist::State s = d.initialstate();
		CHECK((int) d.h(s) <= opt, "h is %d, the goal is %d moves away", (int) d.h(s), opt);
	}
#ifndef ONLY_IDASTAR
	solvecheck(c, a, opt, true);
#else
	{
		double got = solve(c, a, { "solver", "idastar" });
		CHECK(got == opt, "idastar found a solution of %g moves, the shortest has %d", got, opt);
	}
#endif
}

#if WIDTH == 3 && HEIGHT == 3
// Every solvable 3x3 board, numbered, with its distance to the goal.
static int rank9(const char *b) {
	int r = 0;
	unsigned used = 0;
	for (int i = 0; i < 9; i++) {
		r = r * (9 - i) + b[i] - __builtin_popcount(used & ((1u << b[i]) - 1));
		used |= 1u << b[i];
	}
	return r;
}
static const std::vector<signed char> &table(int goalblank, Board &stdgoal) {
	static std::map<int, std::vector<signed char>> tables;
	stdgoal.clear();
	for (int i = 0, t = 1; i < N; i++) stdgoal.push_back(i == goalblank ? 0 : t++);
	auto &tab = tables[goalblank];
	if (tab.empty()) {
		tab.assign(362880, -1);
		struct B9 { char t[9]; };
		std::vector<B9> q(1);
		for (int i = 0; i < N; i++) q[0].t[i] = (char) stdgoal[i];
		tab[rank9(q[0].t)] = 0;
		std::vector<int> nbs[9];
		for (int i = 0; i < N; i++) nbs[i] = neighbours(i);
		for (size_t i = 0; i < q.size(); i++) {
			B9 cur = q[i];
			int dist = tab[rank9(cur.t)], z = 0;
			while (cur.t[z]) z++;
			for (int p : nbs[z]) {
				B9 y = cur;
				std::swap(y.t[z], y.t[p]);
				signed char &slot = tab[rank9(y.t)];
				if (slot < 0) { slot = (signed char) (dist + 1); q.push_back(y); }
			}
		}
	}
	return tab;
}

PROP(tiles_exact, 200, 4000, "a start at least eight moves from the goal") {
	Board goal = gengoal(c), start = goal;
	if (!c.chance(1, 4)) {
		// Any board with the same parity.
		for (int i = N - 1; i > 0; i--) std::swap(start[i], start[i - (int) c.draw(i + 1)]);
	} else start = scramble(c, goal, (int) c.size(0, 60));
	Board stdgoal;
	auto &tab = table(blank(goal), stdgoal);
	std::vector<int> rename(N);
	for (int i = 0; i < N; i++) rename[goal[i]] = stdgoal[i];
	auto dist = [&](const Board &b) {
		char r[9];
		for (int i = 0; i < N; i++) r[i] = (char) rename[b[i]];
		return (int) tab[rank9(r)];
	};
	if (dist(start) < 0) {
		// Unsolvable: make it solvable by swapping two tiles.
		int i = 0, j;
		while (start[i] == 0) i++;
		j = i + 1;
		while (start[j] == 0) j++;
		std::swap(start[i], start[j]);
	}
	int opt = dist(start);
	CHECK(opt >= 0, "harness: not solvable");
	if (opt >= 8) c.nontrivial();
	std::string text = instance(start, goal, c);
	c.desc("%s", text.c_str());
	TextFile f(text);
	TilesMdist d(f.f);
	TilesA a(d, goal);
	// h along a walk, against the true distance.
	TilesMdist::State s = d.initialstate();
	Board b = start;
	for (int i = 0; i < 60; i++) {
		int dd = dist(b);
		CHECK((int) d.h(s) <= dd, "h of %s is %d, the goal is %d moves away", enc(b).c_str(), (int) d.h(s), dd);
		TilesMdist::Operators ops(d, s);
		TilesMdist::Oper op = ops[c.draw(ops.size())];
		TilesMdist::PackedState p;
		{
			TilesMdist::Edge e(d, s, op);
			d.pack(p, e.state);
			b = dec(a.key(e.state));
		}
		TilesMdist::State buf, &u = d.unpack(buf, p);
		s = u;
		CHECK(dec(a.key(s)) == b, "unpacked, %s is %s", enc(b).c_str(), a.key(s).c_str());
	}
	if (opt <= 24 || c.chance(1, 3)) solvecheck(c, a, opt, opt <= 22);
}
#endif

// Instances that must be refused.
PROP(tiles_reject, 40, 300, "always") {
	c.nontrivial();
	Board goal = gengoal(c), start = scramble(c, goal, 20);
	std::vector<int> sp(N), gp(N);
	for (int i = 0; i < N; i++) { sp[start[i]] = i; gp[goal[i]] = i; }
	int w = W, h = H, cut = -1;
	int kind = (int) c.draw(5);
	switch (kind) {
	case 0: w = c.flip() ? W + 1 : W - 1; break;
	case 1: h = c.flip() ? H + 1 : H - 1; break;
	case 2: sp[c.draw(N)] = N + (int) c.size(0, 100000); break;
	case 3: gp[c.draw(N)] = N + (int) c.size(0, 100000); break;
	case 4: cut = (int) c.draw(2 * N); break;
	}
	std::string s = strf("%d %d\nstarting positions for each tile:\n", w, h);
	for (int t = 0; t < 2 * N && t != cut; t++) {
		if (t == N) s += "goal positions:\n";
		s += strf("%d\n", t < N ? sp[t] : gp[t-N]);
	}
	c.desc("%s", s.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(s); TilesMdist d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_tiles, 600, 12000, "a start at least six moves from the goal") {
	Board goal = gengoal(c);
	Board start = scramble(c, goal, (int) c.range(0, 18));
	std::string text = instance(start, goal, c);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.ida = t.lvl = true;
	if (c.chance(1, 8)) { clirefuse(c, "prog_tiles_solver", text, t); return; }
	TextFile f(text);
	TilesMdist d(f.f);
	TilesMdist::State s = d.initialstate();
	t.h0 = d.h(s);
	t.d0 = d.d(s);
	int opt = bidist(start, goal, 9);
	CHECK(opt >= 0, "harness: too far");
	clisolve(c, "prog_tiles_solver", text, opt, t);
	if (opt >= 6) c.nontrivial();
}

// Memory runs out in the middle of a search: the datafile is still complete.
PROP(cli_memory, 6, 60, "memory ran out") {
	Board goal(N), start(N);
	for (int i = 0; i < N; i++) goal[i] = i;
	start = scramble(c, goal, 1000 + (int) c.draw(2000));
	std::string text = instance(start, goal, c);
	static const char *algs[] = { "astar", "speedy" };
	std::vector<std::string> args = { algs[c.chance(1, 4)], "-mem", strf("%dM", 10 + (int) c.draw(20)), "-wf", "1", "-wt", "0", "-wt0", "1", "-dwt", "0.1" };
	c.desc("%s%s\n", text.c_str(), words(args).c_str());
	prog::Out o = prog::run("prog_tiles_solver", args, text, 60);
	CHECK(o.ok(), "%s ended with %d: %s", words(args).c_str(), o.status, prog::shown(o.err).c_str());
	wellformed(c, o.out, words(args));
	double cost = number(c, o.out, "final sol cost"), len = number(c, o.out, "final sol length");
	CHECK(number(c, o.out, "memory limit") == atof(args[2].c_str()) * 1e6, "the memory limit is %s", prog::value(o.out, "memory limit").c_str());
	if (times(o.out, "out of memory")) {
		CHECK(prog::value(o.out, "out of memory") == "true", "out of memory: %s", prog::value(o.out, "out of memory").c_str());
		CHECK(cost == -1 && len == 0, "out of memory, and a solution of cost %g and length %g", cost, len);
		c.nontrivial();
	} else CHECK(cost >= 0 && len == cost + 1, "cost %g and length %g", cost, len);
}

// Time runs out: the search ends soon after, and not before.
PROP(cli_timelimit, 12, 80, "time ran out") {
	Board goal(N), start(N);
	for (int i = 0; i < N; i++) goal[i] = i;
	start = scramble(c, goal, 2000 + (int) c.draw(2000));
	std::string text = instance(start, goal, c);
	static const char *algs[] = { "idastar", "idastar", "astar", "arastar" };
	bool cpu = c.flip();
	std::vector<std::string> args = { algs[c.draw(4)], cpu ? "-cputime" : "-walltime", "1", "-wf", "0", "-wt", "1", "-wt0", "2", "-dwt", "0.1" };
	if (c.flip()) {
		args.push_back(cpu ? "-walltime" : "-cputime");
		args.push_back("50");
	}
	bool anytime = args[0] == "arastar";
	std::string what = words(args);
	c.desc("%s%s\n", text.c_str(), what.c_str());
	prog::Out o = prog::run("prog_tiles_solver", args, text, 100);
	CHECK(o.ok(), "%s ended with %d: %s", what.c_str(), o.status, prog::shown(o.err).c_str());
	wellformed(c, o.out, what);
	double cost = number(c, o.out, "final sol cost"), len = number(c, o.out, "final sol length");
	double wall = number(c, o.out, "total wall time"), rawcpu = number(c, o.out, "total raw cpu time");
	CHECK(times(o.out, "cpu time limit") == (cpu || args.size() > 11) && times(o.out, "wall time limit") == (!cpu || args.size() > 11), "%s: the limits are not printed", what.c_str());
	CHECK(number(c, o.out, cpu ? "cpu time limit" : "wall time limit") == 1, "%s: the limit is not printed", what.c_str());
	CHECK(rawcpu <= wall + 0.5, "%g s of processor time in %g s", rawcpu, wall);
	if (len > 0) CHECK(cost >= 0 && len == cost + 1, "cost %g and length %g", cost, len);
	double t = cpu ? rawcpu : wall;
	// Processor time is not lost to other work on the machine.
	if (cpu) CHECK(t < 8, "%s: stopped after %g s of processor time", what.c_str(), t);
	else CHECK(t < 45, "%s: stopped after %g s", what.c_str(), t);
	if (len == 0 || (anytime && t > 0.9)) {
		CHECK(t > 0.9, "%s: stopped after only %g s", what.c_str(), t);
		c.label(cpu ? "processor time" : "wall time");
		c.nontrivial();
	}
}
#endif
