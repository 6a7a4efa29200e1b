// P19: grid path-finding, against a model of maps and moves.
#include <map>
#include "domcheck.hpp"
#include "gridnav/gridnav.hpp"
#include "gridnav/scenario.hpp"
#include <cstring>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

enum Kind { FOUR, EIGHT, OCTILE };

// A map; the cell of the coordinates that instances use.
struct Model {
	int w, h;
	std::vector<std::string> cell;	// by y, then x
	Kind kind;
	bool life;
	int x0, y0, x1, y1;

	char at(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h ? 0 : cell[y][x]; }
	static bool open(char c) { return c == ' ' || c == '.' || c == 'G'; }
	// Whether a step from terrain f onto terrain t is allowed.
	static bool enter(char f, char t) {
		if (t == 'W') return f == 'W';
		if (f == 'W') return false;
		return open(t) || t == 'S';
	}
	double unit(int y) const { return life ? h - 1 - y : 1; }

	struct Step { int x, y; double cost; };
	std::vector<Step> steps(int x, int y) const {
		std::vector<Step> r;
		for (int dx = -1; dx <= 1; dx++)
			for (int dy = -1; dy <= 1; dy++) {
				if (!dx && !dy) continue;
				bool diag = dx && dy;
				if (diag && kind == FOUR) continue;
				if (!at(x + dx, y + dy) || !enter(at(x, y), at(x + dx, y + dy))) continue;
				if (diag && kind == OCTILE && (!enter(at(x, y), at(x + dx, y)) || !enter(at(x, y), at(x, y + dy)))) continue;
				r.push_back(Step{ x + dx, y + dy, (diag ? std::sqrt(2.0) : 1) * unit(y) });
			}
		return r;
	}
	// Cost of the cheapest path from the start to each cell.
	std::vector<double> dists() const {
		std::vector<double> dist(w * h, INFINITY);
		typedef std::pair<double, int> P;
		std::priority_queue<P, std::vector<P>, std::greater<P>> q;
		dist[y0 * w + x0] = 0;
		q.push(P(0, y0 * w + x0));
		while (!q.empty()) {
			P p = q.top();
			q.pop();
			if (p.first > dist[p.second]) continue;
			for (auto &e : steps(p.second % w, p.second / w)) {
				double nd = p.first + e.cost;
				if (nd < dist[e.y * w + e.x]) { dist[e.y * w + e.x] = nd; q.push(P(nd, e.y * w + e.x)); }
			}
		}
		return dist;
	}
	// Cell the instance's text shows at the given line and column.
	std::string text() const {
		std::string s;
		if (kind == OCTILE) {
			s = strf("type octile\nheight %d\nwidth %d\nmap\n", h, w);
			for (int y = 0; y < h; y++) s += cell[y] + "\n";
			return s;
		}
		s = strf("%d %d\nBoard:\n", h, w);
		for (int y = h - 1; y >= 0; y--) s += cell[y] + "\n";
		s += life ? "Life\n" : "Unit\n";
		s += kind == EIGHT ? "Eight-way\n" : "Four-way\n";
		return s;
	}
};

static std::string enc(int x, int y) { return strf("%d %d", x, y); }

struct GridA : AdapterBase {
	typedef GridNav D;
	D &d;
	const Model &m;
	GridA(D &dd, const Model &mm) : d(dd), m(mm) { }
	bool consistent() const { return !m.life; }
	std::string key(D::State &s) {
		char buf[128];
		memset(buf, 0, sizeof buf);
		FILE *f = fmemopen(buf, sizeof buf, "w");
		d.dumpstate(f, s);
		fclose(f);
		int x, y;
		if (sscanf(buf, "%d, %d", &x, &y) != 2) return "bad state";
		return enc(x - 1, y - 1);
	}
	std::vector<MSucc> succs(const std::string &k) {
		int x = -1, y = -1;
		sscanf(k.c_str(), "%d %d", &x, &y);
		std::vector<MSucc> r;
		for (auto &s : m.steps(x, y)) r.push_back(MSucc(enc(s.x, s.y), s.cost));
		return r;
	}
	bool goal(const std::string &k) { return k == enc(m.x1, m.y1); }
};

static Model gen(Case &c) {
	Model m;
	m.kind = (Kind) c.draw(3);
	m.life = m.kind != OCTILE && c.flip();
	m.w = (int) c.size(1, 12);
	m.h = (int) c.size(1, 12);
	int style = (int) c.draw(4);
	unsigned wall = style == 0 ? 0 : style == 1 ? 2 : 4;
	for (int y = 0; y < m.h; y++) {
		std::string row;
		for (int x = 0; x < m.w; x++) {
			char ch;
			bool blocked = c.chance(wall, 10);
			if (m.kind != OCTILE) ch = blocked ? '#' : ' ';
			else if (blocked) ch = "@OT"[c.draw(3)];
			else if (style == 3 && c.chance(1, 2)) ch = "SW.G"[c.draw(4)];
			else ch = c.chance(1, 6) ? 'G' : '.';
			row += ch;
		}
		m.cell.push_back(row);
	}
	std::vector<std::pair<int, int>> ok;
	for (int y = 0; y < m.h; y++)
		for (int x = 0; x < m.w; x++)
			if (Model::open(m.cell[y][x]) || m.cell[y][x] == 'S' || m.cell[y][x] == 'W') ok.push_back(std::make_pair(x, y));
	if (ok.empty()) { m.cell[0][0] = m.kind == OCTILE ? '.' : ' '; ok.push_back(std::make_pair(0, 0)); }
	auto s = c.pick(ok), g = c.pick(ok);
	m.x0 = s.first; m.y0 = s.second; m.x1 = g.first; m.y1 = g.second;
	return m;
}

// The map read agrees with the text, cell by cell.
static void samemap(Case &c, const GridMap &map, const Model &m) {
	for (int y = -1; y <= m.h; y++)
		for (int x = -1; x <= m.w; x++) {
			char ch = m.at(x, y);
			if (ch == 'S' || ch == 'W') continue;	// passable from some cells only
			bool blkd = map.blkd(map.index(x + 1, y + 1));
			CHECK(blkd == !Model::open(ch), "cell %d,%d (%c) is %sblocked", x, y, ch ? ch : '-', blkd ? "" : "not ");
		}
}

PROP(grid_moves, 2000, 40000, "at least 12 reachable cells") {
	Model m = gen(c);
	std::string text = m.text();
	c.desc("%s%d %d %d %d\n", text.c_str(), m.x0, m.y0, m.x1, m.y1);
	std::unique_ptr<GridMap> map;
	if (c.flip()) {
		TextFile f(text + strf("\n%d %d %d %d\n", m.x0, m.y0, m.x1, m.y1));
		// What the memory held before must not matter.
		void *mem = ::operator new(sizeof(GridMap));
		memset(mem, c.flip() ? 0xff : 1, sizeof(GridMap));
		map.reset(new (mem) GridMap(f.f));
		int x0, y0, x1, y1;
		CHECK(fscanf(f.f, " %d %d %d %d", &x0, &y0, &x1, &y1) == 4 && x0 == m.x0 && y0 == m.y0 && x1 == m.x1 && y1 == m.y1,
			"the locations that follow the map are not left to be read");
	} else {
		std::string path = pbt::scratch() + "/map";
		FILE *f = fopen(path.c_str(), "w");
		fputs(text.c_str(), f);
		fclose(f);
		map.reset(new GridMap(path));
		unlink(path.c_str());
	}
	samemap(c, *map, m);
	GridNav d(map.get(), m.x0, m.y0, m.x1, m.y1);
	GridA a(d, m);
	DomCheck<GridA> dc(c, a);
	Space<GridA> sp;
	sp.build(a, enc(m.x0, m.y0), 1000);
	if (sp.keys.size() >= 12) c.nontrivial();
	sweep(c, a, dc, sp, 60);
	GridNav::State s = d.initialstate();
	dc.walk(s, sp.keys[0], (int) c.size(0, 12));
	solvecheck(c, a, sp.opt(), sp.keys.size() <= 10 && sp.opt() < INFINITY);
	c.label("edges", dc.nedges);
}

// Large maps: long and narrow ones, and ones of up to 170,000 cells.
PROP(grid_large, 160, 3000, "the cheapest path takes at least 100 steps") {
	Model m;
	m.kind = (Kind) c.draw(3);
	m.life = m.kind != OCTILE && c.flip();
	bool square = c.chance(1, 4);
	m.w = (int) (square ? c.range(40, 420) : c.range(100, 700));
	m.h = (int) (square ? c.range(40, 420) : c.range(1, 8));
	if (!square && c.flip()) std::swap(m.w, m.h);
	Rand r(c.draw(1ul << 32));
	double prob = c.pick(std::vector<double>{ 0, 0.02, 0.1, 0.3 });
	std::vector<std::pair<int, int>> ok;
	for (int y = 0; y < m.h; y++) {
		m.cell.push_back(std::string(m.w, m.kind == OCTILE ? '.' : ' '));
		for (int x = 0; x < m.w; x++) {
			double u = r.real();
			if (u < prob) m.cell[y][x] = m.kind == OCTILE ? "@OTW"[(int) (u / prob * 4)] : '#';
			else if (m.kind == OCTILE && u < 0.5) m.cell[y][x] = "SG"[u < 0.3];
			if (Model::open(m.cell[y][x])) ok.push_back(std::make_pair(x, y));
		}
	}
	if (ok.empty()) c.discard();
	// From one end to the other, more often than not.
	auto s0 = c.flip() ? ok[c.draw(std::min<size_t>(ok.size(), 9))] : c.pick(ok), g0 = c.flip() ? ok[ok.size() - 1 - c.draw(std::min<size_t>(ok.size(), 9))] : c.pick(ok);
	if (c.flip()) std::swap(s0, g0);
	m.x0 = s0.first; m.y0 = s0.second; m.x1 = g0.first; m.y1 = g0.second;
	c.desc("%d by %d cells, %g blocked, kind %d%s, from %d %d to %d %d\n", m.w, m.h, prob, m.kind, m.life ? ", life" : "", m.x0, m.y0, m.x1, m.y1);
	TextFile f(m.text());
	GridMap map(f.f);
	samemap(c, map, m);
	GridNav d(&map, m.x0, m.y0, m.x1, m.y1);
	GridA a(d, m);
	DomCheck<GridA> dc(c, a);
	GridNav::State s = d.initialstate();
	dc.walk(s, enc(m.x0, m.y0), (int) c.range(0, 60));
	GridNav back(&map, m.x1, m.y1, m.x0, m.y0);
	m.x0 = g0.first; m.y0 = g0.second; m.x1 = s0.first; m.y1 = s0.second;
	GridA aback(back, m);
	DomCheck<GridA> dcback(c, aback);
	s = back.initialstate();
	dcback.walk(s, enc(m.x0, m.y0), (int) c.range(0, 60));
	m.x0 = s0.first; m.y0 = s0.second; m.x1 = g0.first; m.y1 = g0.second;
	std::vector<double> dist = m.dists();
	double opt = dist[m.y1 * m.w + m.x1];
	s = d.initialstate();
	if (opt < INFINITY) CHECK((double) d.h(s) <= opt * (1 + 1e-9) + 1e-6, "h is %g, the cheapest path costs %g", (double) d.h(s), opt);
	static const std::vector<std::vector<std::string>> algs = { { "astar" }, { "wastar", "-wt", "1.5" }, { "greedy" }, { "speedy" } };
	std::vector<std::string> args = c.pick(algs);
	args.insert(args.begin(), "solver");
	c.desc("%s\n", args[1].c_str());
	unsigned long len = 0;
	double cost = solve(c, a, args, &len);
	CHECK((cost < 0) == (opt == INFINITY), "the solution costs %g, the cheapest %g", cost, opt);
	if (opt == INFINITY) return;
	CHECK(cost >= opt * (1 - 1e-9) - 1e-6, "the solution costs %g, the cheapest %g", cost, opt);
	double bound = args[1] == "astar" ? 1 : args[1] == "wastar" ? 1.5 : INFINITY;
	if (bound < INFINITY) CHECK(cost <= bound * opt * (1 + 1e-9) + 1e-6, "%s finds a solution of cost %g, the cheapest costs %g", args[1].c_str(), cost, opt);
	if (len >= 100) c.nontrivial();
}

// Estimates on open maps, where they are tightest.
PROP(grid_estimate, 600, 12000, "life costs") {
	Model m;
	m.kind = (Kind) c.draw(3);
	m.life = m.kind != OCTILE && c.chance(3, 4);
	m.w = (int) c.range(1, 14);
	m.h = (int) c.range(1, 14);
	m.cell.assign(m.h, std::string(m.w, m.kind == OCTILE ? '.' : ' '));
	m.x1 = (int) c.draw(m.w); m.y1 = (int) c.draw(m.h);
	m.x0 = (int) c.draw(m.w); m.y0 = (int) c.draw(m.h);
	std::string text = m.text();
	c.desc("%s%d %d %d %d\n", text.c_str(), m.x0, m.y0, m.x1, m.y1);
	if (m.life) c.nontrivial();
	TextFile f(text);
	GridMap map(f.f);
	GridNav d(&map, m.x0, m.y0, m.x1, m.y1);
	GridA a(d, m);
	Space<GridA> sp;
	sp.build(a, enc(m.x0, m.y0), 1000);
	DomCheck<GridA> dc(c, a);
	sweep(c, a, dc, sp, 0);
	// On an open map of unit cost the estimate is exact.
	if (!m.life && m.kind != EIGHT) {
		GridNav::State s = d.initialstate();
		CHECK(near((double) d.h(s), sp.opt()), "on an open map h is %g, the distance %g", (double) d.h(s), sp.opt());
	}
}

// Maps described by a seed.
PROP(grid_seeded, 500, 8000, "some cells blocked and some not") {
	unsigned long seed = c.draw(~0ul);
	int w = (int) c.size(1, 30), h = (int) c.size(1, 30);
	if (c.chance(1, 6)) (c.flip() ? w : h) = (int) c.range(200, 700);
	double prob = c.pick(std::vector<double>{ 0.35, 0, 1, 0.5, 0.2, 0.01, 0.99 });
	Model m;
	m.w = w; m.h = h;
	m.kind = c.flip() ? EIGHT : FOUR;
	m.life = c.flip();
	std::string text = strf("seed %lu %d %d %.17g\n%s\n%s\n", seed, w, h, prob, m.kind == EIGHT ? "Eightway" : "Fourway", m.life ? "Life" : "Unit");
	c.desc("%s", text.c_str());
	m.cell.assign(h, std::string(w, ' '));
	// Columns first, one draw for each cell.
	Rand r(seed);
	int nblkd = 0;
	for (int x = 0; x < w; x++)
		for (int y = 0; y < h; y++)
			if (r.real() < prob) { m.cell[y][x] = '#'; nblkd++; }
	if (prob == 0) CHECK(nblkd == 0, "blocked with probability zero");
	if (prob == 1) CHECK(nblkd == w * h, "not blocked with probability one");
	if (nblkd && nblkd < w * h) c.nontrivial();
	void *mem = ::operator new(sizeof(GridMap));
	memset(mem, c.flip() ? 0xff : 1, sizeof(GridMap));
	TextFile f(text);
	std::unique_ptr<GridMap> map(new (mem) GridMap(f.f));
	samemap(c, *map, m);
	GridMap u = GridMap::uniform(w, h, prob, seed);
	samemap(c, u, m);
	m.x0 = (int) c.draw(w); m.y0 = (int) c.draw(h);
	m.x1 = (int) c.draw(w); m.y1 = (int) c.draw(h);
	if (m.cell[m.y0][m.x0] == '#' || m.cell[m.y1][m.x1] == '#') return;
	GridNav d(map.get(), m.x0, m.y0, m.x1, m.y1);
	GridA a(d, m);
	Space<GridA> sp;
	sp.build(a, enc(m.x0, m.y0), 2000);
	DomCheck<GridA> dc(c, a);
	sweep(c, a, dc, sp, 10);
}

// Maps that must be refused, or read without harm.
PROP(grid_reject, 200, 3000, "always") {
	c.nontrivial();
	Model m = gen(c);
	std::string text = m.text();
	bool refuse = true;
	switch (c.draw(4)) {
	case 0: {	// cut off
		size_t end = text.size() - (m.kind == OCTILE ? 2 : 12);
		text.resize(c.draw(end) + 1);
		break;
	}
	case 1: {	// a character that is no cell
		size_t at = text.find(m.kind == OCTILE ? "map\n" : "Board:\n") + (m.kind == OCTILE ? 4 : 7);
		size_t x = c.draw(m.w), y = c.draw(m.h);
		static const unsigned char chs[] = { 'x', 0xff, 0x80, '~', 1, 'Z' };
		int i = (int) c.draw(sizeof chs);
		text[at + y * (m.w + 1) + x] = (char) chs[i];
		if (m.kind == OCTILE) { refuse = false; m.cell[y][x] = 'O'; m.x0 = m.y0 = -1; }
		break;
	}
	case 2: {	// a line too long
		size_t at = text.find(m.kind == OCTILE ? "map\n" : "Board:\n") + (m.kind == OCTILE ? 4 : 7);
		text.insert(at + c.draw(m.h) * (m.w + 1), m.kind == OCTILE ? "." : " ");
		break;
	}
	case 3:	// no header
		text = strf("%c", "bxz\n -"[c.draw(6)]) + text;
		break;
	}
	c.desc("%s", text.c_str());
	std::string err;
	int st = c.sub([&]() {
		TextFile f(text);
		GridMap map(f.f);
		if (m.x0 < 0)
			for (int y = 0; y < m.h; y++)
				for (int x = 0; x < m.w; x++)
					if (m.cell[y][x] == 'O' && !map.blkd(map.index(x + 1, y + 1))) _exit(33);
		_exit(0);
	}, &err);
	CHECK(err.find("AddressSanitizer") == std::string::npos && !WIFSIGNALED(st), "reading fails badly (status %x): %s", st, err.c_str());
	CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 33), "an unknown cell is not blocked");
	if (refuse) CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "the map is not refused (status %x)", st);
}

// Sums of costs are exact.
PROP(grid_cost, 200, 4000, "always") {
	c.nontrivial();
	long u = 0, s = 0;
	GridNav::Cost x(0);
	int n = (int) c.size(1, 30);
	for (int i = 0; i < n; i++) {
		int du = (int) c.range(0, 50), ds = (int) c.range(0, 50);
		GridNav::Cost y(du, ds);
		CHECK(near((double) y, du + ds * std::sqrt(2.0)), "cost %d + %d√2 is %g", du, ds, (double) y);
		switch (c.draw(4)) {
		case 0: x += y; u += du; s += ds; break;
		case 1: x = x + y; u += du; s += ds; break;
		case 2: x -= y; u -= du; s -= ds; break;
		case 3: x = x - y; u -= du; s -= ds; break;
		}
		double v = u + s * std::sqrt(2.0);
		CHECK(near((double) x, v), "the sum is %g, not %g", (double) x, v);
		CHECK(x == GridNav::Cost((int) u, (int) s) && !(x != GridNav::Cost((int) u, (int) s)), "equal costs differ");
		int pu = c.flip() ? 0 : 1 << c.draw(14), ps = c.flip() ? 0 : 1 << c.draw(14);
		CHECK((x == GridNav::Cost((int) u + pu, (int) s + ps)) == !(pu || ps) && (x != GridNav::Cost((int) u + pu, (int) s - ps)) == (pu || ps), "costs %d and %d apart", pu, ps);
		CHECK((x == y) == (u == du && s == ds), "%g %s %g", (double) x, x == y ? "==" : "!=", (double) y);
		if (std::fabs(v - (double) y) > 1e-6) {
			bool lt = v < (double) y;
			CHECK((x < y) == lt && (x <= y) == lt && (x > y) == !lt && (x >= y) == !lt, "order of %g and %g", v, (double) y);
		}
	}
}

// Lists of moves written out as text.
PROP(grid_controls, 150, 3000, "at least ten moves") {
	std::vector<unsigned int> v;
	int n = (int) c.size(0, 400);
	while ((int) v.size() < n) {
		unsigned op = (unsigned) c.draw(9);
		for (int k = (int) c.size(1, c.chance(1, 10) ? 600 : 5); k > 0; k--) v.push_back(op);
	}
	if (n >= 10) c.nontrivial();
	std::string s = controlstr(v);
	for (char ch : s) CHECK(ch > ' ' && ch < 127, "a control string has the character %d", ch);
	CHECK(controlvec(s) == v, "%zu controls do not read back", v.size());
}

// Scenario files: entries are solved and compared with the stated optimum.
PROP(grid_scenario, 600, 9000, "an entry with a path of at least three steps") {
	std::string dir = pbt::scratch() + "/maps", out = pbt::scratch() + "/out";
	pbt::clearscratch();
	mkdir(dir.c_str(), 0755);
	mkdir((dir + "/x").c_str(), 0755);
	mkdir((dir + "/y").c_str(), 0755);
	FILE *f;
	std::vector<Model> ms((size_t) c.range(1, 3));
	std::vector<std::vector<std::pair<int, int>>> opens(ms.size());
	static const char *const namesets[3][3] = { { "a.map", "b.map", "another.map" }, { "a.map", "x/a.map", "y/a.map" }, { "x/a.map", "x/aa.map", "y/a.map" } };
	const char *const *names = namesets[c.draw(3)];
	for (size_t i = 0; i < ms.size(); i++) {
		Model &m = ms[i];
		m = gen(c);
		m.kind = OCTILE;
		m.life = false;
		for (auto &r : m.cell) for (char &ch : r) { if (ch == ' ') ch = '.'; if (ch == '#') ch = '@'; }
		f = fopen((dir + "/" + names[i]).c_str(), "w");
		fputs(m.text().c_str(), f);
		fclose(f);
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (Model::open(m.cell[y][x])) opens[i].push_back(std::make_pair(x, y));
		if (opens[i].empty()) c.discard();
		c.desc("%s: %s", names[i], m.text().c_str());
	}
	struct Entry { int map, x0, y0, x1, y1; double opt; };
	std::vector<Entry> es;
	int n = (int) c.range(1, 6), wrong = c.chance(1, 4) ? (int) c.draw(n) : -1;
	int only = c.chance(1, 4) ? (int) c.draw(n + 1) : -1;
	std::string scen = "version 1.0\n";
	for (int i = 0; i < n; i++) {
		int mi = (int) c.draw(ms.size());
		Model &m = ms[mi];
		auto s = c.pick(opens[mi]), g = c.pick(opens[mi]);
		m.x0 = s.first; m.y0 = s.second; m.x1 = g.first; m.y1 = g.second;
		std::vector<double> dist = m.dists();
		double opt = dist[m.y1 * m.w + m.x1];
		if (opt < INFINITY && opt >= 3) c.nontrivial();
		es.push_back(Entry{ mi, m.x0, m.y0, m.x1, m.y1, opt });
		double stated = opt == INFINITY ? 0 : opt;
		if (i == wrong) stated = stated < 1 || c.flip() ? stated + 1 : c.flip() ? stated - 0.5 : 0;
		scen += strf("%d\t%s\t%d\t%d\t%d\t%d\t%d\t%d\t%.8f\n", (int) (stated / 4), names[mi], m.w, m.h, m.x0, m.y0, m.x1, m.y1, stated);
	}
	c.desc("%s", scen.c_str());
	std::vector<std::string> args = { "scenario_solver", c.flip() ? "astar" : "wastar", "-wt", "1", "-maproot", c.flip() ? dir : dir + "/" };
	if (only >= 0) { args.push_back("-entry"); args.push_back(strf("%d", only)); }
	std::vector<const char*> argv;
	for (auto &s : args) argv.push_back(s.c_str());
	argv.push_back(nullptr);
	std::string err;
	int st = c.sub([&]() {
		if (!freopen(out.c_str(), "w", stdout)) _exit(3);
		std::istringstream in(scen);
		Scenario s((int) args.size(), argv.data());
		s.run(in);
		fflush(stdout);
	}, &err);
	bool refuse = wrong >= 0 && (only < 0 || only == wrong);
	CHECK(err.find("AddressSanitizer") == std::string::npos && !WIFSIGNALED(st), "the run fails badly (status %x): %s", st, err.c_str());
	if (refuse) {
		CHECK(WEXITSTATUS(st) != 0, "a wrong optimal cost is not noticed");
		return;
	}
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the run fails (status %x): %s", st, err.c_str());
	f = fopen(out.c_str(), "r");
	std::vector<std::vector<std::string>> rows;
	char line[4096];
	std::map<std::string, std::string> pairs;
	while (fgets(line, sizeof line, f)) {
		char k[200], v[200];
		if (sscanf(line, "#pair  \"%199[^\"]\"\t\"%199[^\"]\"", k, v) == 2) pairs[k] = v;
		std::vector<std::string> fs;
		std::string cur;
		for (char *p = line; *p && *p != '\n'; p++) { if (*p == '\t') { fs.push_back(cur); cur.clear(); } else cur += *p; }
		fs.push_back(cur);
		if (fs.size() > 1 && fs[0] == "#altrow  \"run\"") rows.push_back(fs);
	}
	fclose(f);
	size_t r = 0;
	for (int i = 0; i < n; i++) {
		if (only >= 0 && i != only) continue;
		CHECK(r < rows.size(), "entry %d has no row", i);
		auto &v = rows[r++];
		CHECK(v.size() == 16, "a row of %zu fields", v.size());
		CHECK(atoi(v[1].c_str()) == i, "row %s, not %d", v[1].c_str(), i);
		int want[] = { ms[es[i].map].w, ms[es[i].map].h, es[i].x0, es[i].y0, es[i].x1, es[i].y1 };
		for (int k = 0; k < 6; k++) CHECK(atoi(v[3 + k].c_str()) == want[k], "field %d of row %d is %s, not %d", k, i, v[3 + k].c_str(), want[k]);
		double cost = atof(v[12].c_str());
		if (es[i].opt == INFINITY) CHECK(cost == -1, "no path, cost %g", cost);
		else CHECK(std::fabs(cost - es[i].opt) <= 1e-3 * std::max(1.0, es[i].opt), "cost %g, the cheapest is %g", cost, es[i].opt);
	}
	CHECK(r == rows.size(), "%zu rows for %zu entries", rows.size(), r);
	unsigned long expd = 0, gend = 0;
	double wall = 0;
	for (auto &v : rows) {
		expd += strtoul(v[10].c_str(), nullptr, 10);
		gend += strtoul(v[11].c_str(), nullptr, 10);
		wall += atof(v[14].c_str());
		CHECK((atof(v[12].c_str()) < 0) == (v[13] == "0"), "a path of %s states with cost %s", v[13].c_str(), v[12].c_str());
	}
	CHECK(pairs["total nodes expanded"] == strf("%lu", expd), "%s expansions in all, %lu in the rows", pairs["total nodes expanded"].c_str(), expd);
	CHECK(pairs["total nodes generated"] == strf("%lu", gend), "%s generated in all, %lu in the rows", pairs["total nodes generated"].c_str(), gend);
	CHECK(pairs["number of entries"] == strf("%d", n), "%s entries, there are %d", pairs["number of entries"].c_str(), n);
	CHECK(pairs.count("total wall time") && std::fabs(atof(pairs["total wall time"].c_str()) - wall) < 1e-5 * (1 + n), "%s s in all, %g in the rows",
		pairs["total wall time"].c_str(), wall);
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_gridnav, 720, 15000, "a path of at least four steps") {
	Model m = gen(c);
	if (!Model::open(m.cell[m.y0][m.x0]) || !Model::open(m.cell[m.y1][m.x1])) c.discard();
	std::string text = m.text() + strf("%d %d %d %d\n", m.x0, m.y0, m.x1, m.y1);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.lvl = true;
	t.consistent = !m.life;
	t.realtime = t.unit = false;
	if (c.chance(1, 8)) { clirefuse(c, "prog_gridnav_solver", text, t); return; }
	if (c.chance(1, 8)) {	// from or to a blocked cell
		int bx = -1, by = -1;
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (!Model::open(m.cell[y][x]) && !strchr("SWT", m.cell[y][x])) { bx = x; by = y; }
		if (bx < 0) c.discard();
		text = m.text() + (c.flip() ? strf("%d %d %d %d\n", bx, by, m.x1, m.y1) : strf("%d %d %d %d\n", m.x0, m.y0, bx, by));
		prog::Out o = prog::run("prog_gridnav_solver", { "astar" }, text);
		CHECK(o.status > 0 && o.clean(), "a blocked location: status %d: %s", o.status, prog::shown(o.err).c_str());
		c.label("blocked");
		return;
	}
	TextFile f(text);
	GridMap map(f.f);
	GridNav d(&map, m.x0, m.y0, m.x1, m.y1);
	GridA a(d, m);
	Space<GridA> sp;
	sp.build(a, enc(m.x0, m.y0), 100000);
	GridNav::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	CliRun r = clisolve(c, "prog_gridnav_solver", text, sp.opt(), t);
	const char *keys[] = { "start x", "start y", "goal x", "goal y" };
	int vals[] = { m.x0, m.y0, m.x1, m.y1 };
	for (int i = 0; i < 4; i++) CHECK(number(c, r.o.out, keys[i]) == vals[i], "%s is %s", keys[i], prog::value(r.o.out, keys[i]).c_str());
	if (r.len >= 5) c.nontrivial();
}
#endif

#ifdef EPS
#include "pictures.hpp"

PROP(eps_gridnav, 600, 8000, "at least one open and one blocked cell within the map") {
	Model m = gen(c);
	std::string text = m.text();
	unsigned cell = c.flip() ? 1 : (unsigned) c.range(1, 5);
	bool print = c.flip();
	std::vector<std::string> args;
	if (cell > 1) { args.push_back("-cellsz"); args.push_back(strf("%u", cell)); }
	if (print) args.push_back("-p");
	bool file = print || c.flip(), map = c.flip();
	if (file) { args.push_back("-o"); args.push_back("picture.eps"); }
	pbt::clearscratch();
	if (map) { prog::spew("a-map", text); args.insert(c.flip() ? args.end() : args.begin(), "a-map"); }
	for (auto &a : args) c.desc("%s ", a.c_str());
	c.desc("\n%s", text.c_str());
	prog::Out o = prog::run("prog_gridnav_draw", args, map ? "" : text);
	CHECK(o.ok(), "draw ended with %d: %s", o.status, prog::shown(o.err).c_str());
	std::string eps = file ? prog::slurp("picture.eps") : o.out;
	// The map has a border of one blocked cell.
	auto blkd = [&](int x, int y) { return !m.at(x - 1, y - 1) || !(Model::open(m.at(x - 1, y - 1)) || m.at(x - 1, y - 1) == 'S' || m.at(x - 1, y - 1) == 'W'); };
	auto undecided = [&](int x, int y) { char ch = m.at(x - 1, y - 1); return ch == 'S' || ch == 'W'; };
	unsigned w = m.w + 2, h = m.h + 2;
	ps::Mat base;
	ps::Doc d = document(c, eps, w * cell, h * cell, false, -1, base);
	CHECK(d.title == (map ? "a-map" : "<untitled>"), "the title is %s", d.title.c_str());
	CHECK(d.marks.size() == 1, "%zu marks", d.marks.size());
	std::vector<unsigned char> px = pixelsof(c, d.marks[0], w * cell, h * cell, base);
	unsigned blocked = 0, open = 0;
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
		if (undecided(x, y)) continue;
		(blkd(x, y) ? blocked : open)++;
		for (unsigned j = 0; j < cell; j++) for (unsigned i = 0; i < cell; i++) {
			// The map's first line is at the picture's top.
			unsigned char *p = &px[3 * ((h - 1 - y) * cell + j) * w * cell + 3 * (x * cell + i)];
			bool white = p[0] == 255 && p[1] == 255 && p[2] == 255;
			CHECK(white != blkd(x, y), "cell %u,%u is %s but its pixel is %d %d %d", x, y, blkd(x, y) ? "blocked" : "open", p[0], p[1], p[2]);
		}
	}
	if (blocked > 2 * w + 2 * h - 4 && open) c.nontrivial();
	if (print) {
		auto ls = prog::lines(o.out);
		CHECK(ls.size() == h, "%zu lines are printed", ls.size());
		for (unsigned y = 0; y < h; y++) {
			CHECK(ls[y].size() == w, "line %u has %zu characters", y, ls[y].size());
			for (unsigned x = 0; x < w; x++) if (!undecided(x, y)) CHECK((ls[y][x] == '#') == blkd(x, y), "line %u is %s", y, ls[y].c_str());
		}
	} else if (file) CHECK(o.out.empty(), "something is printed: %s", prog::shown(o.out).c_str());
}
#endif
