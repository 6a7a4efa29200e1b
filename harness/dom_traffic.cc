// P24: traffic, against a model of moving obstacles.
#include "domcheck.hpp"
#include "traffic/traffic.hpp"
#include <cstring>
#include <sys/wait.h>

struct Obs { int x, y, dx, dy; };

struct Model {
	int w, h, x0, y0, x1, y1;
	std::vector<Obs> obs;

	// Steps one cell back and forth between walls.
	static int bounce(int p, int v, int n, int t) {
		if (n == 1) return 0;
		// Where it was at each time so far, and the way it went.
		typedef std::vector<std::pair<int, int>> Way;
		static std::map<std::pair<int, std::pair<int, int>>, Way> ways;
		if (ways.size() > 5000) ways.clear();
		Way &way = ways[std::make_pair(p, std::make_pair(v, n))];
		if (way.empty()) way.push_back(std::make_pair(p, v));
		while ((int) way.size() <= t) {
			int at = way.back().first, dir = way.back().second;
			for (int k = 0; k < abs(v); k++) {
				int step = dir > 0 ? 1 : -1;
				if (at + step < 0 || at + step >= n) { dir = -dir; step = -step; }
				at += step;
			}
			way.push_back(std::make_pair(at, dir));
		}
		return way[t].first;
	}
	std::pair<int, int> at(const Obs &o, int t) const {
		return std::make_pair(bounce(o.x, o.dx, w, t), bounce(o.y, o.dy, h, t));
	}
};

static std::string enc(int x, int y, int t) { return strf("%d %d %d", x, y, t); }

struct TrafficA : AdapterBase {
	typedef Traffic D;
	D &d;
	const Model &m;
	int horizon;
	TrafficA(D &dd, const Model &mm, int hor) : d(dd), m(mm), horizon(hor) { }
	bool infinite() const { return true; }
	// Colliding leads back to the start, which is never on a cheapest path.
	bool nothstar(const std::string &to) const { return to == enc(m.x0, m.y0, 0); }
	bool stopat(const std::string &k) const {
		int x, y, t;
		sscanf(k.c_str(), "%d %d %d", &x, &y, &t);
		return t >= horizon;
	}
	std::string key(D::State &s) {
		char buf[128];
		memset(buf, 0, sizeof buf);
		FILE *f = fmemopen(buf, sizeof buf, "w");
		d.dumpstate(f, s);
		fclose(f);
		int x, y, t;
		if (sscanf(buf, "%d, %d @ %d", &x, &y, &t) != 3) return "bad state";
		return enc(x, y, t);
	}
	std::vector<MSucc> succs(const std::string &k) {
		int x = 0, y = 0, t = 0;
		sscanf(k.c_str(), "%d %d %d", &x, &y, &t);
		std::vector<MSucc> r;
		static const int dx[] = { 0, 1, -1, 0, 0 }, dy[] = { 0, 0, 0, 1, -1 };
		for (int i = 0; i < 5; i++) {
			int nx = x + dx[i], ny = y + dy[i];
			if (nx < 0 || ny < 0 || nx >= m.w || ny >= m.h) continue;
			bool swap = false, hit = false;
			for (auto &o : m.obs) {
				auto p = m.at(o, t), q = m.at(o, t + 1);
				swap |= p == std::make_pair(nx, ny) && q == std::make_pair(x, y);
				hit |= q == std::make_pair(nx, ny);
			}
			if (swap) continue;
			r.push_back(MSucc(hit ? enc(m.x0, m.y0, 0) : enc(nx, ny, t + 1), 1));
		}
		return r;
	}
	bool goal(const std::string &k) {
		int x = -1, y = -1, t;
		sscanf(k.c_str(), "%d %d %d", &x, &y, &t);
		return x == m.x1 && y == m.y1;
	}
};

static Model gen(Case &c, int maxside) {
	Model m;
	m.w = (int) c.range(1, maxside);
	m.h = (int) c.range(1, maxside);
	m.x0 = (int) c.draw(m.w); m.y0 = (int) c.draw(m.h);
	m.x1 = (int) c.draw(m.w); m.y1 = (int) c.draw(m.h);
	int n = (int) c.size(0, m.w * m.h / 2 + 1);
	int fast = c.chance(1, 6) ? 3 : 1;
	for (int i = 0; i < n; i++) {
		Obs o;
		o.x = (int) c.draw(m.w);
		o.y = (int) c.draw(m.h);
		o.dx = (int) c.range(0, 2 * fast) - fast;
		o.dy = (int) c.range(0, 2 * fast) - fast;
		m.obs.push_back(o);
	}
	return m;
}
static std::string text(const Model &m) {
	std::string s = strf("%d %d %d %d\n%d %d\n", m.x0, m.y0, m.x1, m.y1, m.w, m.h);
	for (auto &o : m.obs) s += strf("%d %d %d %d\n", o.x, o.y, o.dx, o.dy);
	return s;
}

// Fewest steps to the goal, or -1 if there is no way in the given time.
static int fewest(TrafficA &a, const Model &m, int limit) {
	std::set<std::string> layer = { enc(m.x0, m.y0, 0) };
	for (int t = 0; t <= limit; t++) {
		std::set<std::string> next;
		for (auto &k : layer) {
			if (a.goal(k)) return t;
			for (auto &s : a.succs(k)) if (!a.nothstar(s.key)) next.insert(s.key);
		}
		layer.swap(next);
	}
	return -1;
}

PROP(traffic_space, 1200, 30000, "at least 50 states and two moving obstacles") {
	Model m = gen(c, 6);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Traffic d(f.f);
	TrafficA a(d, m, 10);
	DomCheck<TrafficA> dc(c, a);
	Space<TrafficA> sp;
	sp.build(a, enc(m.x0, m.y0, 0), 100000);
	if (sp.keys.size() >= 50 && m.obs.size() >= 2) c.nontrivial();
	sweep(c, a, dc, sp, 80);
	int opt = fewest(a, m, 30);
	if (opt >= 0) solvecheck(c, a, opt, false);
	c.label("edges", dc.nedges);
	c.label(opt >= 0 ? "solvable" : "no way in time");
}

// Sums of costs are exact.
PROP(traffic_cost, 200, 4000, "always") {
	c.nontrivial();
	long u = 0, s = 0;
	Traffic::Cost x(0);
	int n = (int) c.size(1, 30);
	for (int i = 0; i < n; i++) {
		int du = (int) c.range(0, 50), ds = (int) c.range(0, 50);
		Traffic::Cost y(du, ds);
		CHECK(near((double) y, du + ds * std::sqrt(2.0)), "cost %d + %d√2 is %g", du, ds, (double) y);
		switch (c.draw(4)) {
		case 0: x += y; u += du; s += ds; break;
		case 1: x = x + y; u += du; s += ds; break;
		case 2: x -= y; u -= du; s -= ds; break;
		case 3: x = x - y; u -= du; s -= ds; break;
		}
		double v = u + s * std::sqrt(2.0);
		CHECK(near((double) x, v), "the sum is %g, not %g", (double) x, v);
		CHECK(x == Traffic::Cost((int) u, (int) s) && !(x != Traffic::Cost((int) u, (int) s)), "equal costs differ");
		CHECK((x == y) == (u == du && s == ds), "%g %s %g", (double) x, x == y ? "==" : "!=", (double) y);
		if (std::fabs(v - (double) y) > 1e-6) {
			bool lt = v < (double) y;
			CHECK((x < y) == lt && (x <= y) == lt && (x > y) == !lt && (x >= y) == !lt, "order of %g and %g", v, (double) y);
		}
	}
}

// Obstacles over a long time, through the moves that avoid them.
PROP(traffic_walk, 700, 20000, "a walk of at least ten steps among moving obstacles") {
	Model m = gen(c, 12);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Traffic d(f.f);
	TrafficA a(d, m, 1000000);
	DomCheck<TrafficA> dc(c, a);
	Traffic::State s = d.initialstate();
	int depth = (int) (c.chance(1, 6) ? c.range(60, 300) : c.size(0, 60));
	if (depth >= 10 && !m.obs.empty()) c.nontrivial();
	dc.walk(s, enc(m.x0, m.y0, 0), depth);
}

// Large maps, crowded ones, and times far off.
PROP(traffic_large, 200, 5000, "a walk of at least fifty steps") {
	Model m;
	m.w = (int) (c.flip() ? c.range(1, 300) : c.range(1, 20));
	m.h = (int) (c.flip() ? c.range(1, 300) : c.range(1, 20));
	m.x0 = (int) c.draw(m.w); m.y0 = (int) c.draw(m.h);
	m.x1 = (int) c.draw(m.w); m.y1 = (int) c.draw(m.h);
	int n = (int) c.range(0, 150), near = c.flip() ? 12 : 300;
	for (int i = 0; i < n; i++) {
		Obs o;
		o.x = std::max(0, std::min<int>(m.w - 1, m.x0 - near + (int) c.draw(2 * near + 1)));
		o.y = std::max(0, std::min<int>(m.h - 1, m.y0 - near + (int) c.draw(2 * near + 1)));
		o.dx = (int) c.range(0, 2) - 1;
		o.dy = (int) c.range(0, 2) - 1;
		if (c.chance(1, 10)) { o.dx *= 1 + (int) c.draw(5); o.dy *= 1 + (int) c.draw(5); }
		m.obs.push_back(o);
	}
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Traffic d(f.f);
	TrafficA a(d, m, 1000000);
	DomCheck<TrafficA> dc(c, a);
	Traffic::State s = d.initialstate();
	int depth = (int) c.range(20, 200);
	if (depth >= 50) c.nontrivial();
	dc.walk(s, enc(m.x0, m.y0, 0), depth);
}

PROP(traffic_obstacles, 200, 4000, "an obstacle that bounces") {
	int w = (int) (c.chance(1, 3) ? c.range(1, 300) : c.range(1, 12)), h = (int) (c.chance(1, 3) ? c.range(1, 300) : c.range(1, 12));
	Model m;
	m.w = w; m.h = h;
	Obs o = { (int) c.draw(w), (int) c.draw(h), (int) c.range(0, 4) - 2, (int) c.range(0, 4) - 2 };
	GridMap::Obstacle ob(o.x, o.y, o.dx, o.dy);
	if ((o.dx && w > 1) || (o.dy && h > 1)) c.nontrivial();
	for (int t = 0; t < 3000; t += t < 700 ? 1 : 7) {
		auto want = m.at(o, t);
		auto got = ob.positionAt(w, h, t);
		CHECK(got.first == want.first && got.second == want.second, "on a map of %dx%d the obstacle %d,%d moving %d,%d is at %d,%d after %d steps, not %d,%d",
			w, h, o.x, o.y, o.dx, o.dy, got.first, got.second, t, want.first, want.second);
	}
}

// An instance written out reads back the same.
PROP(traffic_output, 150, 3000, "at least two obstacles") {
	Model m = gen(c, 30);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	if (m.obs.size() >= 2) c.nontrivial();
	TextFile f(t);
	Traffic d(f.f);
	char *buf = nullptr;
	size_t n = 0;
	FILE *o = open_memstream(&buf, &n);
	d.output(o);
	fclose(o);
	std::string out(buf, n);
	free(buf);
	TextFile g(out);
	Traffic e(g.f);
	CHECK(e.start == d.start && e.finish == d.finish, "the locations change: %s", out.c_str());
	CHECK(e.map->w == (unsigned) m.w && e.map->h == (unsigned) m.h, "the size changes: %s", out.c_str());
	CHECK(e.map->obstacles.size() == m.obs.size() && d.map->obstacles.size() == m.obs.size(), "%zu obstacles, then %zu: %s", m.obs.size(), e.map->obstacles.size(), out.c_str());
	for (size_t i = 0; i < m.obs.size(); i++)
		for (int t = 0; t < 5; t++)
			CHECK(e.map->obstacles[i].positionAt(m.w, m.h, t) == m.at(m.obs[i], t), "obstacle %zu is elsewhere: %s", i, out.c_str());
	if (m.w * m.h == 0) return;
	// Controls as text.
	std::vector<unsigned int> v;
	for (int k = (int) c.size(0, 300); k > 0; k--) v.push_back((unsigned) c.draw(5));
	CHECK(controlvec(controlstr(v)) == v, "controls do not read back");
}

PROP(traffic_reject, 30, 300, "always") {
	c.nontrivial();
	Model m = gen(c, 6);
	std::string t = text(m);
	size_t l1 = t.find('\n'), l2 = t.find('\n', l1 + 1);
	size_t cut = c.draw(l2 - 1);
	while (cut > 0 && t[cut-1] != ' ' && t[cut-1] != '\n') cut--;
	t.resize(cut);
	t += c.flip() ? "" : "x";
	c.desc("%s", t.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(t); Traffic d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_traffic, 600, 12000, "a way of at least four steps") {
	Model m = gen(c, 6);
	std::string text = ::text(m);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.lvl = t.infinite = true;
	t.realtime = false;
	if (c.chance(1, 8)) { clirefuse(c, "prog_traffic_solver", text, t); return; }
	TextFile f(text);
	Traffic d(f.f);
	TrafficA a(d, m, 40);
	int opt = fewest(a, m, 30);
	if (opt < 0) c.discard();
	Traffic::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	CliRun r = clisolve(c, "prog_traffic_solver", text, opt, t);
	if (r.cost < 0) return;
	// The controls printed lead to the goal.
	auto ops = controlvec(prog::value(r.o.out, "controls"));
	CHECK(ops.size() + 1 == r.len, "%zu controls for a path of %zu states", ops.size(), r.len);
	Traffic::State at = d.initialstate();
	std::string k = a.key(at);
	for (unsigned op : ops) {
		Traffic::State copy = at;
		Traffic::Edge e(d, copy, (Traffic::Oper) op);
		std::string to = a.key(e.state);
		bool allowed = false;
		for (auto &ms : a.succs(k)) allowed |= ms.key == to;
		CHECK(allowed, "the control %u from %s to %s is not allowed", op, k.c_str(), to.c_str());
		at = e.state;
		k = to;
	}
	CHECK(a.goal(k), "the controls lead to %s", k.c_str());
	if (opt >= 4) c.nontrivial();
}
#endif
