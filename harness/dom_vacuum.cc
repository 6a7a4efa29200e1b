// P20: vacuum world, against a model of its rules.
#include "domcheck.hpp"
#include "vacuum/vacuum.hpp"
#include <cstring>
#include <sys/wait.h>

struct Model {
	int w, h;
	std::vector<std::string> cell;
	std::vector<std::pair<int, int>> dirt;	// in reading order
	int x0, y0;
};

struct VState {
	int x, y;
	std::string dirt;	// '1' where it is left
};
static std::string enc(const VState &s) { return strf("%d %d %s", s.x, s.y, s.dirt.c_str()); }
static VState dec(const std::string &k) {
	VState s;
	char buf[1024] = "";
	sscanf(k.c_str(), "%d %d %1023s", &s.x, &s.y, buf);
	s.dirt = buf;
	return s;
}

struct VacA : AdapterBase {
	typedef Vacuum D;
	D &d;
	const Model &m;
	VacA(D &dd, const Model &mm) : d(dd), m(mm) { }
	bool consistent() const { return false; }
	bool greedy = false;	// walks clean what they meet
	template<class Os> size_t choose(Case &c, Os &ops) {
		if (greedy && c.chance(3, 4))
			for (size_t i = 0; i < ops.size(); i++) if (ops[i] > 3) return i;
		return c.draw(ops.size());
	}
	std::string key(D::State &s) {
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		d.dumpstate(f, s);
		fclose(f);
		VState v;
		int energy, nd, used = 0;
		std::string r = "bad state";
		if (sscanf(buf, "(%d, %d), energy=%d, ndirt=%d%n", &v.x, &v.y, &energy, &nd, &used) == 4) {
			v.x--;
			v.y--;
			int left = 0;
			for (char *p = buf + used; *p; p++) if (*p == '0' || *p == '1') { v.dirt += *p; left += *p == '1'; }
			r = left == nd ? enc(v) : strf("%d dirt left, %d counted", left, nd);
		}
		free(buf);
		return r;
	}
	std::vector<MSucc> succs(const std::string &k) {
		std::vector<MSucc> r;
		VState s = dec(k);
		static const int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
		for (int i = 0; i < 4; i++) {
			VState t = s;
			t.x += dx[i];
			t.y += dy[i];
			if (t.x < 0 || t.y < 0 || t.x >= m.w || t.y >= m.h || m.cell[t.y][t.x] == '#') continue;
			r.push_back(MSucc(enc(t), 1));
		}
		for (size_t i = 0; i < m.dirt.size(); i++)
			if (s.dirt[i] == '1' && m.dirt[i] == std::make_pair(s.x, s.y)) {
				VState t = s;
				t.dirt[i] = '0';
				r.push_back(MSucc(enc(t), 1));
			}
		return r;
	}
	bool goal(const std::string &k) { return dec(k).dirt.find('1') == std::string::npos; }
	template<class O> static bool operless(const O &x, const O &y) { return x < y; }
};

static Model gen(Case &c, int maxside, int maxdirt) {
	Model m;
	m.w = (int) c.range(1, maxside);
	m.h = (int) c.range(1, maxside);
	m.cell.assign(m.h, std::string(m.w, '_'));
	unsigned wall = (unsigned) c.draw(4);
	std::vector<std::pair<int, int>> open;
	for (int y = 0; y < m.h; y++)
		for (int x = 0; x < m.w; x++) {
			if (c.chance(wall, 10)) m.cell[y][x] = '#';
			else if (c.chance(1, 12)) m.cell[y][x] = ':';
			if (m.cell[y][x] == '_') open.push_back(std::make_pair(x, y));
		}
	if (open.empty()) { m.cell[0][0] = '_'; open.push_back(std::make_pair(0, 0)); }
	size_t si = c.draw(open.size());
	m.x0 = open[si].first;
	m.y0 = open[si].second;
	m.cell[m.y0][m.x0] = '@';
	open.erase(open.begin() + si);
	for (int n = (int) c.range(0, maxdirt); n > 0 && !open.empty(); n--) {
		size_t i = c.draw(open.size());
		m.cell[open[i].second][open[i].first] = '*';
		open.erase(open.begin() + i);
	}
	for (int y = 0; y < m.h; y++)
		for (int x = 0; x < m.w; x++)
			if (m.cell[y][x] == '*') m.dirt.push_back(std::make_pair(x, y));
	return m;
}

static std::string text(const Model &m, bool nl) {
	std::string s = strf("%d\n%d\n", m.w, m.h);
	for (int y = 0; y < m.h; y++) s += m.cell[y] + (y + 1 < m.h || nl ? "\n" : "");
	return s;
}
static std::string start(const Model &m) { return enc(VState{ m.x0, m.y0, std::string(m.dirt.size(), '1') }); }

PROP(vacuum_space, 1000, 20000, "at least 50 reachable states") {
	Model m = gen(c, 5, 4);
	std::string t = text(m, c.flip());
	c.desc("%s", t.c_str());
	TextFile f(t);
	Vacuum d(f.f);
	VacA a(d, m);
	DomCheck<VacA> dc(c, a);
	Space<VacA> sp;
	sp.build(a, start(m), 2000);
	if (sp.keys.size() >= 50) c.nontrivial();
	sweep(c, a, dc, sp, 60);
	solvecheck(c, a, sp.opt(), sp.keys.size() <= 60 && sp.opt() < 12);
	c.label("edges", dc.nedges);
}

PROP(vacuum_walk, 1000, 20000, "a walk of at least five steps") {
	Model m = gen(c, 14, 20);
	std::string t = text(m, c.flip());
	c.desc("%s", t.c_str());
	TextFile f(t);
	Vacuum d(f.f);
	VacA a(d, m);
	DomCheck<VacA> dc(c, a);
	Vacuum::State s = d.initialstate();
	int depth = (int) c.size(0, 40);
	if (depth >= 5) c.nontrivial();
	dc.walks(s, start(m), depth, 2);
}

// Large rooms with much dirt; the walk goes where the dirt is.
PROP(vacuum_large, 200, 4000, "a walk of at least fifty steps past more than thirty spots of dirt") {
	Model m = gen(c, 5, 0);
	bool square = c.chance(1, 3);
	m.w = (int) (square ? c.range(10, 60) : c.range(60, 500));
	m.h = (int) (square ? c.range(10, 60) : c.range(1, 3));
	if (!square && c.flip()) std::swap(m.w, m.h);
	m.cell.assign(m.h, std::string(m.w, '_'));
	Rand r(c.draw(1ul << 32));
	double wall = c.draw(4) * 0.08;
	m.x0 = (int) c.draw(m.w);
	m.y0 = (int) c.draw(m.h);
	int n = (int) c.range(0, 200);
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (r.real() < wall) m.cell[y][x] = '#';
	for (int i = 0; i < n; i++) m.cell[r.bits() % m.h][r.bits() % m.w] = '*';
	if (c.flip())	// much of it near the start
		for (int i = 0; i < 40; i++)
			m.cell[std::max(0, std::min<int>(m.h - 1, m.y0 + (int) (r.bits() % 9) - 4))][std::max(0, std::min<int>(m.w - 1, m.x0 + (int) (r.bits() % 9) - 4))] = '*';
	m.cell[m.y0][m.x0] = '@';
	m.dirt.clear();
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (m.cell[y][x] == '*') m.dirt.push_back(std::make_pair(x, y));
	std::string t = text(m, c.flip());
	c.desc("%s", t.c_str());
	TextFile f(t);
	Vacuum d(f.f);
	VacA a(d, m);
	a.greedy = true;
	DomCheck<VacA> dc(c, a);
	Vacuum::State s = d.initialstate();
	int depth = (int) c.range(10, 100);
	if (depth >= 50 && m.dirt.size() > 30) c.nontrivial();
	dc.walks(s, start(m), depth, 3);
}

// Long rooms with little dirt, the whole space of them.
PROP(vacuum_far, 150, 3000, "two spots of dirt more than sixty cells apart") {
	Model m;
	m.w = (int) c.range(1, 3);
	m.h = (int) c.range(20, 300);
	if (c.flip()) std::swap(m.w, m.h);
	m.cell.assign(m.h, std::string(m.w, '_'));
	for (int k = (int) c.range(0, 3); k > 0; k--) m.cell[c.draw(m.h)][c.draw(m.w)] = '#';
	m.x0 = (int) c.draw(m.w);
	m.y0 = (int) c.draw(m.h);
	for (int k = (int) c.range(1, 2); k > 0; k--) m.cell[c.draw(m.h)][c.draw(m.w)] = '*';
	m.cell[m.y0][m.x0] = '@';
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (m.cell[y][x] == '*') m.dirt.push_back(std::make_pair(x, y));
	std::string t = text(m, c.flip());
	c.desc("%s", t.c_str());
	if (m.dirt.size() == 2 && std::abs(m.dirt[0].first - m.dirt[1].first) + std::abs(m.dirt[0].second - m.dirt[1].second) > 60) c.nontrivial();
	TextFile f(t);
	Vacuum d(f.f);
	VacA a(d, m);
	DomCheck<VacA> dc(c, a);
	Space<VacA> sp;
	sp.build(a, start(m), 4000);
	if (sp.whole) c.label("whole spaces");
	sweep(c, a, dc, sp, 20);
	solvecheck(c, a, sp.opt(), false);
}

// The plan written out cleans everything.
PROP(vacuum_plan, 400, 8000, "a plan of at least four steps") {
	Model m = gen(c, 6, 4);
	std::string t = text(m, true);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Vacuum d(f.f);
	VacA a(d, m);
	const char *argv[] = { "vacuum", "astar", nullptr };
	Astar<Vacuum> alg(2, argv);
	Vacuum::State s0 = d.initialstate();
	alg.search(d, s0);
	if (alg.res.path.empty()) return;
	if (alg.res.ops.size() >= 4) c.nontrivial();
	char *buf = nullptr;
	size_t n = 0;
	FILE *o = open_memstream(&buf, &n);
	d.printpath(o, alg.res.ops);
	fclose(o);
	std::string plan(buf, n);
	free(buf);
	VState v = dec(start(m));
	char *save = nullptr;
	size_t steps = 0;
	std::string copy = plan;
	for (char *p = strtok_r(&copy[0], "\n", &save); p; p = strtok_r(nullptr, "\n", &save), steps++) {
		std::string op = p;
		VState to = v;
		if (op == "N") to.y--;
		else if (op == "S") to.y++;
		else if (op == "W") to.x--;
		else if (op == "E") to.x++;
		else if (op == "V") {
			bool ok = false;
			for (size_t i = 0; i < m.dirt.size(); i++)
				if (m.dirt[i] == std::make_pair(v.x, v.y) && v.dirt[i] == '1') { to.dirt[i] = '0'; ok = true; }
			CHECK(ok, "sucking at %d,%d, where there is no dirt: %s", v.x, v.y, plan.c_str());
		} else c.fail("the plan has the step [%s]", p);
		bool allowed = false;
		for (auto &ms : a.succs(enc(v))) allowed |= ms.key == enc(to);
		CHECK(allowed, "the plan's step %s from %s is not allowed", p, enc(v).c_str());
		v = to;
	}
	CHECK(steps == alg.res.ops.size(), "%zu steps printed of %zu", steps, alg.res.ops.size());
	CHECK(a.goal(enc(v)), "the plan ends at %s", enc(v).c_str());
}

PROP(vacuum_reject, 60, 1000, "always") {
	c.nontrivial();
	Model m = gen(c, 6, 4);
	std::string t = text(m, true);
	size_t board = t.size() - m.h * (m.w + 1);
	switch (c.draw(4)) {
	case 0: t.resize(c.draw(t.size() - 1)); break;
	case 1: t[board + c.draw(m.h) * (m.w + 1) + c.draw(m.w)] = "x.?\xff"[c.draw(4)]; break;
	case 2: for (char &ch : t) if (ch == '@') ch = '_'; break;
	case 3: t.insert(board + m.w, "_"); if (m.h == 1) t = "x" + t; break;
	}
	c.desc("%s", t.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(t); Vacuum d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_vacuum, 600, 12000, "a plan of at least four steps") {
	Model m = gen(c, 5, 3);
	std::string text = ::text(m, c.flip());
	c.desc("%s", text.c_str());
	CliTraits t;
	t.unit = false;
	if (c.chance(1, 8)) { clirefuse(c, "prog_vacuum_solver", text, t); return; }
	TextFile f(text);
	Vacuum d(f.f);
	VacA a(d, m);
	Space<VacA> sp;
	sp.build(a, start(m), 3000);
	if (!sp.whole) c.discard();
	double opt = sp.opt();
	t.realtime = opt < INFINITY;
	if (!t.realtime && sp.keys.size() > 500) c.discard();
	t.ida = sp.keys.size() <= 60 && opt < 12;
	Vacuum::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	if (c.flip()) {
		CliRun r = clisolve(c, "prog_vacuum_solver", text, opt, t);
		if (r.len >= 5) c.nontrivial();
		return;
	}
	// The other program writes out the plan.
	SolveAlg alg = clialg(c, t);
	std::string what = "vacuum_cs730 " + words(alg.args);
	c.desc("%s\n", what.c_str());
	prog::Out o = prog::run("prog_vacuum_cs730", alg.args, text);
	CHECK(o.ok(), "%s ended with %d: %s", what.c_str(), o.status, prog::shown(o.err).c_str());
	VState v = dec(start(m));
	double cost = 0;
	size_t steps = 0;
	unsigned long gend = 0, expd = 0;
	bool gotg = false, gote = false;
	for (auto &op : prog::lines(o.out)) {
		if (op.empty() || op[0] == '#') continue;	// rows of anytime searches
		if (sscanf(op.c_str(), "%lu nodes gen", &gend) == 1 && op == strf("%lu nodes generated", gend)) { gotg = true; continue; }
		if (sscanf(op.c_str(), "%lu nodes exp", &expd) == 1 && op == strf("%lu nodes expanded", expd)) { gote = true; continue; }
		CHECK(!gotg && !gote, "%s: after the counts there is %s", what.c_str(), op.c_str());
		VState to = v;
		if (op == "N") to.y--;
		else if (op == "S") to.y++;
		else if (op == "W") to.x--;
		else if (op == "E") to.x++;
		else if (op == "V") { for (size_t i = 0; i < m.dirt.size(); i++) if (m.dirt[i] == std::make_pair(v.x, v.y)) to.dirt[i] = '0'; }
		else c.fail("%s: the plan has the step [%s]", what.c_str(), op.c_str());
		double best = INFINITY;
		for (auto &ms : a.succs(enc(v))) if (ms.key == enc(to)) best = std::min(best, ms.cost);
		CHECK(best < INFINITY, "%s: the step %s from %s is not allowed", what.c_str(), op.c_str(), enc(v).c_str());
		cost += best;
		v = to;
		steps++;
	}
	CHECK(gotg && gote, "%s: no counts: %s", what.c_str(), prog::shown(o.out).c_str());
	if (opt == INFINITY) { CHECK(steps == 0, "%s: a plan where there is none", what.c_str()); return; }
	if (steps == 0 && alg.args[0] == "beam") return;	// its beam may miss every goal
	CHECK(a.goal(enc(v)), "%s: the plan ends at %s", what.c_str(), enc(v).c_str());
	CHECK(cost >= opt - 1e-6, "%s: cost %g, the cheapest costs %g", what.c_str(), cost, opt);
	if (alg.optimal) CHECK(near(cost, opt), "%s: cost %g, the cheapest costs %g", what.c_str(), cost, opt);
	if (steps >= 4) c.nontrivial();
	c.label("cs730");
}
#endif
