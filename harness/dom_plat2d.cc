// P23: the platform game, against a simulation of its rules.
#include "domcheck.hpp"
#include "plat2d/plat2d.hpp"
#include <array>
#include <cstring>
#include <deque>
#include <sys/wait.h>

struct Model {
	int w, h;
	std::vector<std::string> row;
	char at(int x, int y) const { return row[y][x]; }
	std::string text() const {
		std::string s = strf(" 1 %d %d 0\n", w, h);
		for (auto &r : row) s += r + "\n";
		return s;
	}
	std::pair<int, int> find(const char *set) const {
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (strchr(set, at(x, y))) return std::make_pair(x, y);
		return std::make_pair(-1, -1);
	}
};

static bool water(char ch) { return ch == 'w' || ch == 'U' || ch == 'D'; }

struct Body1 { double x, y, dy; bool fall; int jf; };

static Body1 bodyof(const Player &p) {
	return Body1{ p.body.bbox.min.x, p.body.bbox.min.y, p.body.dy, p.body.fall, p.jframes };
}
static std::string show(const Body1 &b) { return strf("at %.17g,%.17g dy %g fall %d jump frames %d", b.x, b.y, b.dy, b.fall, b.jf); }
static bool same(const Body1 &a, const Body1 &b, double tol = 1e-6) {
	return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(a.dy - b.dy) <= tol && a.fall == b.fall && a.jf == b.jf;
}

static const double PW = 21, PH = 29, TS = 32, Run = 3.25, Jmp = 8, Fastest = 12;

// How far a box of width w at a reaches into the tile's range that starts at o.
static double reach(double a, double w, double o) {
	double b = a + w;
	if (b > o && b <= o + TS) return b - o;
	if (o + TS > a && o + TS <= b) return o + TS - a;
	return 0;
}

// One frame by the rules; overlaps up to eps count as none.
struct Sim {
	const Model &m;
	double eps;
	Sim(const Model &mm, double e) : m(mm), eps(e) { }

	void overlap(double x, double y, double &ox, double &oy) const {
		ox = oy = 0;
		for (int ty = 0; ty < m.h; ty++)
			for (int tx = 0; tx < m.w; tx++) {
				if (m.at(tx, ty) != '#') continue;
				double rx = reach(x, PW, tx * TS), ry = reach(y, PH, ty * TS);
				if (rx <= eps || ry <= eps) continue;
				ox = std::max(ox, rx);
				oy = std::max(oy, ry);
			}
	}
	char major(double x, double y) const {
		x += PW / 2;
		y += PH / 2;
		return x < 0 || y < 0 || x >= m.w * TS || y >= m.h * TS ? 0 : m.at((int) (x / TS), (int) (y / TS));
	}
	// To the next whole coordinate, at most a pixel and at most v.
	static double part(double loc, double v) {
		if (v == 0) return 0;
		double d = v > 0 ? std::ceil(loc) - loc : std::floor(loc) - loc;
		if (d == 0) d = v > 0 ? 1 : -1;
		return std::fabs(d) > std::fabs(v) ? v : d;
	}
	Body1 act(Body1 b, unsigned c) const {
		bool jump = c & 4;
		if (!jump && b.fall) {
			// Letting go of jump slows the rise.
			if (b.dy < 0) b.dy = std::min(0.0, b.dy + 8 - b.jf);
			b.jf = 0;
		} else if (jump && !b.fall) {
			b.dy = -Jmp;
			b.fall = true;
			b.jf = 8;
		}
		double vx = (c & 1 ? -Run : 0) + (c & 2 ? Run : 0);
		if (vx != 0 && water(major(b.x, b.y))) vx = vx < 0 ? -0.7 * Run : 0.7 * Run;
		double vy = b.dy, lx = std::fabs(vx), ly = std::fabs(vy);
		double sx = vx > 0 ? 1 : -1, sy = vy > 0 ? 1 : -1;
		bool stopped = false;
		while (lx > 0 || ly > 0) {
			double dx = part(b.x, vx), dy = part(b.y, vy), ox = 0, oy = 0, t;
			lx -= std::fabs(dx);
			ly -= std::fabs(dy);
			if (dy != 0) overlap(b.x, b.y + dy, t, oy);
			if (oy > 0) stopped = true;
			if (dx != 0) overlap(b.x + dx, b.y + (dy < 0 ? dy + oy : dy - oy), ox, t);
			dx -= sx * ox;
			dy -= sy * oy;
			vx -= dx;
			vy -= dy;
			b.x += dx;
			b.y += dy;
		}
		if (b.dy > 0 && stopped && b.fall) b.fall = false;
		else if (b.dy < 0 && stopped) { b.dy = 0; b.fall = true; }
		if (!stopped && !b.fall) { b.dy = 0; b.fall = true; }
		if (b.fall && b.dy < Fastest) b.dy = std::min(Fastest, b.dy + (water(major(b.x, b.y)) ? 0.25 : 0.5));
		if (b.jf > 0) b.jf--;
		return b;
	}
};

static Model gen(Case &c, int maxw, int maxh) {
	Model m;
	m.w = 3 + (int) c.size(0, maxw - 3);
	m.h = 3 + (int) c.size(0, maxh - 3);
	if (m.w == 3 && m.h == 3) m.w = 4;
	int solid = (int) c.draw(4), wet = (int) c.draw(4);
	for (int y = 0; y < m.h; y++) {
		std::string r;
		for (int x = 0; x < m.w; x++) {
			bool edge = x == 0 || y == 0 || x == m.w - 1 || y == m.h - 1;
			r += edge || c.chance(solid, 10) ? '#' : c.chance(wet, 6) ? 'w' : ' ';
		}
		m.row.push_back(r);
	}
	int x0, y0, x1, y1;
	do {
		x0 = c.range(1, m.w - 2); y0 = c.range(1, m.h - 2);
		x1 = c.range(1, m.w - 2); y1 = c.range(1, m.h - 2);
		if (x0 == x1 && y0 == y1) { if (m.w > 3) { x0 = 1; x1 = m.w - 2; } else { y0 = 1; y1 = m.h - 2; } }
	} while (false);
	m.row[y0][x0] = m.row[y0][x0] == 'w' ? 'U' : 'u';
	m.row[y1][x1] = m.row[y1][x1] == 'w' ? 'D' : 'd';
	return m;
}

static std::unique_ptr<Plat2d> open(const Model &m) {
	TextFile f(m.text());
	return std::unique_ptr<Plat2d>(new Plat2d(f.f));
}

// Checks one state, and each of its successors against the simulation.
static void state(Case &c, const Model &m, Plat2d &d, Plat2d::State &s) {
	Body1 b = bodyof(s.player);
	std::string at = show(b);
	auto goal = m.find("dD");
	bool isgoal = (int) ((b.x + PW / 2) / TS) == goal.first && (int) ((b.y + PH / 2) / TS) == goal.second;
	CHECK(d.isgoal(s) == isgoal, "%s is %sa goal", at.c_str(), isgoal ? "" : "not ");
	int h = d.h(s);
	CHECK(h >= 0, "%s: h is %d", at.c_str(), h);
	CHECK(h > 0 || isgoal, "%s: h is 0", at.c_str());
	if (isgoal) CHECK(h == 0, "%s: h of a goal is %d", at.c_str(), h);

	Plat2d::PackedState p, q;
	memset(&p, 0, sizeof p);
	memset(&q, 0xff, sizeof q);
	d.pack(p, s);
	Plat2d::State buf, &u = d.unpack(buf, p);
	CHECK(same(bodyof(u.player), b, 0), "packed and unpacked, %s becomes %s", at.c_str(), show(bodyof(u.player)).c_str());
	CHECK(d.h(u) == h && d.isgoal(u) == isgoal, "%s: the estimate or goal changes with packing", at.c_str());
	d.pack(q, u);
	CHECK(p.eq(&d, q) && p.hash(&d) == q.hash(&d), "%s packed twice differs", at.c_str());

	Plat2d::Operators ops(d, s);
	std::set<int> seen;
	std::map<int, Body1> next;
	for (unsigned i = 0; i < ops.size(); i++) {
		int op = ops[i];
		CHECK(op > 0 && op < 8 && (op & 3) != 3 && seen.insert(op).second, "operator %d is offered", op);
		Plat2d::Edge e(d, s, op);
		Body1 to = bodyof(e.state.player);
		next[op] = to;
		CHECK(e.cost == 1, "a frame costs %d", e.cost);
		CHECK(same(bodyof(s.player), b, 0), "the state changed");
		static const double eps[] = { 0, 1e-9, 1e-7 };
		bool ok = false;
		for (double z : eps) ok = ok || same(Sim(m, z).act(b, (unsigned) op), to);
		CHECK(ok, "%s, operator %d leads to %s, the rules to %s", at.c_str(), op, show(to).c_str(), show(Sim(m, 0).act(b, (unsigned) op)).c_str());
		// Never within a block, never faster than the limits.
		double ox, oy;
		Sim(m, 1e-6).overlap(to.x, to.y, ox, oy);
		CHECK(ox == 0 && oy == 0, "%s, operator %d leads into a block: %s", at.c_str(), op, show(to).c_str());
		CHECK(std::fabs(to.x - b.x) <= Run + 1e-6 && std::fabs(to.y - b.y) <= Fastest + 1e-6, "%s to %s is too far for a frame", at.c_str(), show(to).c_str());
		if (e.revop != Plat2d::Nop) {
			Plat2d::Edge r(d, e.state, e.revop);
			CHECK(same(bodyof(r.state.player), b), "%s, operator %d leads to %s, its reverse %d leads back to %s",
				at.c_str(), op, show(to).c_str(), e.revop, show(bodyof(r.state.player)).c_str());
			CHECK(r.cost == e.revcost, "the reverse costs %d, not %d", r.cost, e.revcost);
		}
	}
	// What is left out makes no difference.
	for (int op = 1; op <= 6; op++) {
		if ((op & 3) == 3 || seen.count(op)) continue;
		Plat2d::Edge e(d, s, op);
		bool found = false;
		for (auto &n : next) found = found || same(n.second, bodyof(e.state.player));
		CHECK(found, "%s: operator %d leads to %s, but is not offered", at.c_str(), op, show(bodyof(e.state.player)).c_str());
	}
	auto id = d.ident(s);
	if (id.first != Plat2d::Nop) CHECK(same(Sim(m, 0).act(b, (unsigned) id.first), b) || same(Sim(m, 1e-7).act(b, (unsigned) id.first), b), "%s: operator %d is no identity", at.c_str(), id.first);
}

PROP(plat_frames, 2000, 40000, "at least 30 frames, some of them rising") {
	Model m = c.flip() ? gen(c, 8, 8) : gen(c, 5, 26);
	c.desc("%s", m.text().c_str());
	auto d = open(m);
	Plat2d::State s = d->initialstate();
	auto st = m.find("uU");
	CHECK(s.player.body.bbox.min.x == st.first * TS + 7 && s.player.body.bbox.min.y == st.second * TS + 2 && s.player.body.dy == 0,
		"the player starts %s", show(bodyof(s.player)).c_str());
	int n = 1 + (int) c.size(0, 120), rising = 0, wet = 0, fast = 0;
	int hold = 0, op = 0;
	for (int i = 0; i < n; i++) {
		state(c, m, *d, s);
		Plat2d::Operators ops(*d, s);
		if (hold == 0) { op = (int) c.draw(5); hold = (int) c.draw(15); } else hold--;
		Plat2d::Edge e(*d, s, ops[op % ops.size()]);
		s = e.state;
		rising += s.player.body.dy < 0;
		fast += s.player.body.dy >= 11.5;
		wet += water(Sim(m, 0).major(s.player.body.bbox.min.x, s.player.body.bbox.min.y));
	}
	if (n >= 30 && rising) c.nontrivial();
	if (wet) c.label("in water");
	if (fast) c.label("at the highest speed");
}

typedef std::array<long, 5> Key;
static Key keyof(const Player &p) {
	Body1 b = bodyof(p);
	return Key{ { std::lround(b.x * 1e5), std::lround(b.y * 1e5), std::lround(b.dy * 1e5), b.fall, b.jf } };
}

// The states within reach, layer by layer; every operator of every state.
PROP(plat_space, 800, 15000, "the goal is at least ten frames away") {
	Model m = gen(c, 7, 6);
	c.desc("%s", m.text().c_str());
	auto d = open(m);
	std::map<Key, int> id;
	std::vector<Plat2d::State> ss;
	std::vector<std::vector<int>> pred;
	std::vector<int> depth, todo;
	Plat2d::State s0 = d->initialstate();
	id[keyof(s0.player)] = 0;
	ss.push_back(s0);
	pred.push_back({});
	depth.push_back(0);
	int first = -1;
	bool whole = true;
	const size_t cap = 6000;
	for (size_t i = 0; i < ss.size(); i++) {
		if (first < 0 && d->isgoal(ss[i])) first = depth[i];
		if (i >= cap) { whole = false; break; }
		if (i % 97 == 0) state(c, m, *d, ss[i]);
		Plat2d::Operators ops(*d, ss[i]);
		for (unsigned j = 0; j < ops.size(); j++) {
			Plat2d::Edge e(*d, ss[i], ops[j]);
			auto it = id.insert(std::make_pair(keyof(e.state.player), (int) ss.size()));
			if (it.second) { ss.push_back(e.state); pred.push_back({}); depth.push_back(depth[i] + 1); }
			pred[it.first->second].push_back((int) i);
		}
	}
	// Frames to the goal within what was seen: the estimate may not exceed them.
	std::vector<int> togo(ss.size(), -1);
	std::deque<int> q;
	for (size_t i = 0; i < ss.size(); i++) if (d->isgoal(ss[i])) { togo[i] = 0; q.push_back((int) i); }
	while (!q.empty()) {
		int i = q.front();
		q.pop_front();
		for (int p : pred[i]) if (togo[p] < 0) { togo[p] = togo[i] + 1; q.push_back(p); }
	}
	for (size_t i = 0; i < ss.size(); i++) {
		if (togo[i] < 0) continue;
		int h = d->h(ss[i]);
		CHECK(h <= togo[i], "%s: h is %d, the goal is %d frames away", show(bodyof(ss[i].player)).c_str(), h, togo[i]);
	}
	// A* takes as few frames.
	if (first < 0 && !whole) { c.label("goal out of sight"); return; }
	// Rounding tells states apart that are one here: there may be many more.
	const char *argv[] = { "plat2d", "astar", "-expd", first < 0 ? "8000" : "200000", nullptr };
	Astar<Plat2d> a(4, argv);
	a.search(*d, s0);
	if (first < 0) { CHECK(a.res.path.empty(), "a path to a goal that cannot be reached"); c.label("unsolvable"); return; }
	if (a.res.path.empty() && a.res.expd >= 200000) { c.label("A* gave up"); return; }
	CHECK(!a.res.path.empty(), "A* finds no path, one takes %d frames", first);
	CHECK((int) a.res.ops.size() == first, "A* takes %zu frames, %d are enough", a.res.ops.size(), first);
	// The path, by the rules.
	Plat2d::State s = s0;
	for (size_t i = a.res.ops.size(); i-- > 0; ) {
		Plat2d::Edge e(*d, s, a.res.ops[i]);
		s = e.state;
		CHECK(same(bodyof(s.player), bodyof(a.res.path[i].player)), "the path says %s, the operators lead to %s", show(bodyof(a.res.path[i].player)).c_str(), show(bodyof(s.player)).c_str());
	}
	CHECK(d->isgoal(s), "the path ends at %s", show(bodyof(s.player)).c_str());
	CHECK(d->pathcost(a.res.path, a.res.ops) == first, "the domain says the path of %d frames costs otherwise", first);
	if (first >= 10) c.nontrivial();
}

// States that are equal have the same hash.
PROP(plat_equal, 300, 10000, "at least 50 states were met again") {
	Model m = gen(c, 6, 5);
	c.desc("%s", m.text().c_str());
	auto d = open(m);
	// The same place by different ways.
	std::map<Key, std::vector<Plat2d::PackedState>> met;
	unsigned again = 0;
	for (int t = 0; t < 6; t++) {
		Plat2d::State s = d->initialstate();
		int op = 0, hold = 0;
		for (int i = 0; i < 60; i++) {
			Plat2d::Operators ops(*d, s);
			if (hold == 0) { op = (int) c.draw(4) % 3; hold = (int) c.draw(8); } else hold--;
			Plat2d::Edge e(*d, s, ops[op % ops.size()]);
			s = e.state;
			Plat2d::PackedState p;
			d->pack(p, s);
			for (auto &o : met[keyof(s.player)]) {
				again++;
				if (p.eq(d.get(), o)) CHECK(p.hash(d.get()) == o.hash(d.get()), "equal states have different hashes: x %.17g and %.17g, y %.17g and %.17g, dy %.17g and %.17g",
					p.x, o.x, p.y, o.y, p.dy, o.dy);
			}
			met[keyof(s.player)].push_back(p);
		}
	}
	if (again >= 50) c.nontrivial();
}

PROP(plat_controls, 400, 10000, "at least ten frames") {
	std::vector<unsigned> v;
	int n = (int) c.size(0, 300);
	while ((int) v.size() < n) {
		unsigned op = (unsigned) c.draw(8);
		int k = 1 + (int) c.draw(c.chance(1, 6) ? 300 : 10);
		while (k-- > 0) v.push_back(op);
	}
	std::string s = controlstr(v);
	CHECK(controlvec(s) == v, "%zu frames do not survive as %s", v.size(), s.c_str());
	if (v.size() >= 10) c.nontrivial();
}

PROP(plat_reject, 150, 3000, "always") {
	c.nontrivial();
	Model m = gen(c, 6, 6);
	std::string t = m.text(), head = strf(" 1 %d %d 0\n", m.w, m.h);
	auto s = m.find("uU"), g = m.find("dD");
	auto put = [&](int x, int y, char ch) { t[head.size() + (size_t) y * (m.w + 1) + x] = ch; };
	switch (c.draw(7)) {
	case 0: put(s.first, s.second, ' '); break;
	case 1: put(g.first, g.second, ' '); break;
	case 2: put(0, 0, 'u'); break;
	case 3: put(m.w - 1, m.h - 1, 'd'); break;
	case 4: put(c.range(0, m.w - 1), c.range(0, m.h - 1), "x?\xff\t"[c.draw(4)]); break;
	case 5: t.resize(c.draw(t.size() - 1)); break;
	case 6: t[1] = '2'; break;
	}
	c.desc("%s", t.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(t); Plat2d d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the level is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_plat2d, 360, 7200, "the goal is at least ten frames away") {
	Model m = gen(c, 6, 5);
	std::string text = m.text();
	c.desc("%s", text.c_str());
	CliTraits t;
	t.lvl = true;
	t.realtime = false;
	t.rrt = true;
	t.budget = 200000;	// rounding multiplies states
	if (c.chance(1, 8)) { clirefuse(c, "prog_plat2d_solver", text, t); return; }
	auto d = open(m);
	std::map<Key, int> id;
	std::vector<Plat2d::State> ss;
	std::vector<int> depth;
	Plat2d::State s0 = d->initialstate();
	id[keyof(s0.player)] = 0;
	ss.push_back(s0);
	depth.push_back(0);
	int first = -1;
	for (size_t i = 0; i < ss.size() && first < 0; i++) {
		if (d->isgoal(ss[i])) first = depth[i];
		if (i >= 3000) break;
		Plat2d::Operators ops(*d, ss[i]);
		for (unsigned j = 0; j < ops.size(); j++) {
			Plat2d::Edge e(*d, ss[i], ops[j]);
			if (id.insert(std::make_pair(keyof(e.state.player), (int) ss.size())).second) { ss.push_back(e.state); depth.push_back(depth[i] + 1); }
		}
	}
	if (first < 0) c.discard();
	t.h0 = (double) d->h(s0);
	t.d0 = (double) d->d(s0);
	CliRun r = clisolve(c, "prog_plat2d_solver", text, first, t);
	if (first >= 10) c.nontrivial();
	CHECK(!prog::slurp("map.eps").empty(), "there is no picture of the map");
	if (r.cost < 0) return;
	if (r.alg == "rrt") CHECK(!prog::slurp("rrt.eps").empty() && number(c, r.o.out, "KD-tree size") <= 3001 && number(c, r.o.out, "RRT seed") < 1000, "rrt says\n%s", r.o.out.c_str());
	auto u = m.find("uU"), g = m.find("dD");
	CHECK(number(c, r.o.out, "initial x loc") == u.first && number(c, r.o.out, "initial y loc") == u.second, "the start is given otherwise:\n%s", r.o.out.c_str());
	double fx = number(c, r.o.out, "final x loc"), fy = number(c, r.o.out, "final y loc");
	CHECK((int) ((fx + PW / 2) / TS) == g.first && (int) ((fy + PH / 2) / TS) == g.second, "the player ends at %g,%g", fx, fy);
}
#endif

#ifdef EPS
#include "pictures.hpp"
#include "graphics/image.hpp"

// The drawing program: tiles as pixels, doors as triangles.
PROP(eps_level, 400, 4000, "a tile of water, and a door in water") {
	Model m = gen(c, 8, 6);
	std::string text = m.text();
	c.desc("%s", text.c_str());
	pbt::clearscratch();
	if (c.chance(1, 8)) {
		static const std::vector<std::vector<std::string>> bad = { { }, { "-o" }, { "-q", "level.eps" }, { "level.eps", "-o", "level.eps" } };
		prog::Out u = prog::run("prog_plat2d_draw", c.pick(bad), text);
		CHECK(u.clean() && !u.ok() && !u.out.empty(), "unusable arguments end with %d", u.status);
		CHECK(prog::slurp("level.eps").empty(), "refused, yet there is a picture");
	}
	prog::Out o = prog::run("prog_plat2d_draw", { "-o", "level.eps" }, text);
	CHECK(o.ok() && o.out.empty(), "draw ended with %d: %s", o.status, prog::shown(o.err).c_str());
	unsigned W = m.w * 32, H = m.h * 32;
	ps::Mat base;
	ps::Doc d = document(c, prog::slurp("level.eps"), W, H, true, -1, base);
	CHECK(d.title == "level.eps", "the title is %s", d.title.c_str());
	CHECK(!d.marks.empty() && d.marks[0].kind == ps::Mark::Img, "no pixels");
	std::vector<unsigned char> px = pixelsof(c, d.marks[0], W, H, base);
	bool wet = false;
	for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) {
		char ch = m.at(x / 32, m.h - 1 - y / 32);
		const unsigned char *p = &px[3 * ((size_t) y * W + x)];
		int r = p[0], g = p[1], b = p[2], want = ch == '#' ? 0 : water(ch) ? 0xff : 0xffffff;
		CHECK((r << 16 | g << 8 | b) == want, "pixel %u,%u of a tile '%c' is %d %d %d", x, y, ch, r, g, b);
		wet |= ch == 'w';
	}
	// The doors, in any order.
	std::set<std::pair<int, int>> seen;
	bool sunk = false;
	size_t doors = 0;
	for (auto &r : m.row) for (char ch : r) doors += strchr("uUdD", ch) != NULL;
	CHECK(d.marks.size() == 1 + doors, "%zu marks for %zu doors", d.marks.size(), doors);
	for (size_t i = 1; i < d.marks.size(); i++) {
		const ps::Mark &k = d.marks[i];
		CHECK(k.kind == ps::Mark::Stroke && k.path.size() == 4 && k.path[3].kind == ps::Seg::Close && samemat(k.ctm, base), "mark %zu is no triangle", i);
		double x = (k.path[1].p.x + k.path[2].p.x) / 2, y = (k.path[0].p.y + k.path[1].p.y) / 2;
		int tx = (int) floor(x / 32), ty = m.h - 1 - (int) floor(y / 32);
		CHECK(tx >= 0 && ty >= 0 && tx < m.w && ty < m.h && strchr("uUdD", m.at(tx, ty)), "a door is drawn at %g,%g", x, y);
		CHECK(seen.insert({ tx, ty }).second, "two doors at %d,%d", tx, ty);
		double cx = tx * 32 + 16, cy = (m.h - 1 - ty) * 32 + 16, up = strchr("uU", m.at(tx, ty)) ? 16 : -16;
		double half = 32 * tan(M_PI / 8);
		auto is = [&](const ps::Pt &p, double ex, double ey) { return std::fabs(p.x - ex) < 0.01 && std::fabs(p.y - ey) < 0.01; };
		const ps::Pt &a = k.path[0].p, &b = k.path[1].p, &e = k.path[2].p;
		CHECK(is(a, cx, cy + up) && ((is(b, cx - half, cy - up) && is(e, cx + half, cy - up)) || (is(e, cx - half, cy - up) && is(b, cx + half, cy - up))),
			"the door at %d,%d is drawn %g,%g %g,%g %g,%g", tx, ty, a.x, a.y, b.x, b.y, e.x, e.y);
		sunk |= water(m.at(tx, ty));
	}
	if (wet && sunk) c.nontrivial();
}

// The picture of the map: every tile's center has its color.
PROP(eps_map, 1600, 8000, "a blocked tile away from the border") {
	Model m = gen(c, 9, 7);
	// One region.
	auto u = m.find("uU"), g = m.find("dD");
	std::set<std::pair<int, int>> reach = { g };
	std::deque<std::pair<int, int>> todo(1, g);
	while (!todo.empty()) {
		auto p = todo.front();
		todo.pop_front();
		static const int dx[] = { 0, 0, 1, -1 }, dy[] = { 1, -1, 0, 0 };
		for (int i = 0; i < 4; i++) {
			auto q = std::make_pair(p.first + dx[i], p.second + dy[i]);
			if (m.at(q.first, q.second) != '#' && reach.insert(q).second) todo.push_back(q);
		}
	}
	int inner = 0;
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
		if (m.at(x, y) != '#' && !reach.count({ x, y })) {
			if (m.at(x, y) == ' ' || m.at(x, y) == 'w') m.row[y][x] = '#';
			else c.discard();
		}
		if (x && y && x < m.w - 1 && y < m.h - 1) inner += m.at(x, y) == '#';
	}
	if (inner) c.nontrivial();
	c.desc("%s", m.text().c_str());
	auto d = open(m);
	pbt::clearscratch();
	std::unique_ptr<Image> img(d->drawmap());
	img->saveeps("map.eps");
	ps::Mat base;
	double W = m.w * 32, H = m.h * 32;
	ps::Doc doc = document(c, prog::slurp("map.eps"), W, H, false, -1, base);
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
		ps::Pt p = { x * 32 + 16.5, (m.h - 1 - y) * 32 + 15.5 };
		const double *rgb = NULL;
		for (auto &k : doc.marks) {
			CHECK(k.kind == ps::Mark::Fill && samemat(k.ctm, base), "something is not filled");
			// Within by the corners of the path, arcs finely divided.
			std::vector<ps::Pt> v = ps::walk(k.path, ps::Mat(), 64);
			bool in = false;
			for (size_t i = 0, j = v.size() - 1; i < v.size(); j = i++)
				if ((v[i].y > p.y) != (v[j].y > p.y) && p.x < (v[j].x - v[i].x) * (p.y - v[i].y) / (v[j].y - v[i].y) + v[i].x) in = !in;
			if (in) rgb = k.rgb;
		}
		char ch = m.at(x, y);
		double want[3] = { 1, 1, 1 };
		if (ch == '#') want[0] = want[1] = want[2] = 0;
		else if (std::make_pair(x, y) == u) want[1] = want[2] = 0;
		else if (std::make_pair(x, y) == g) want[2] = 0.2;
		CHECK(rgb && nearly(rgb[0], want[0]) && nearly(rgb[1], want[1]) && nearly(rgb[2], want[2]), "the tile '%c' at %d,%d is %g %g %g", ch, x, y, rgb ? rgb[0] : -1, rgb ? rgb[1] : -1, rgb ? rgb[2] : -1);
	}
}
#endif
