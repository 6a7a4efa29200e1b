// P25: moving and turning segments among one another, against a model that
// follows each motion in small steps.
#include "domcheck.hpp"
#include "prog.hpp"
#include "segments/segments.hpp"

typedef std::decay<decltype(Segments::Seg::goal)>::type Pose;

struct V { double x, y; };
static V operator-(V a, V b) { return V{ a.x - b.x, a.y - b.y }; }
static double cross(V a, V b) { return a.x * b.y - a.y * b.x; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y; }
static double len(V a) { return std::sqrt(dot(a, a)); }

static double ptseg(V p, V a, V b) {
	V d = b - a;
	double l = dot(d, d), t = l > 0 ? dot(p - a, d) / l : 0;
	t = std::max(0.0, std::min(1.0, t));
	return len(p - V{ a.x + t * d.x, a.y + t * d.y });
}
static const double Margin = 1e-5;

struct Ln { V a, b; };

// Whether they cross each other, well inside of both.
static bool crossing(const Ln &s, const Ln &t) {
	V ds = s.b - s.a, dt = t.b - t.a;
	double ls = len(ds), lt = len(dt);
	if (ls < Margin || lt < Margin) return false;
	double p = cross(ds, t.a - s.a) / ls, q = cross(ds, t.b - s.a) / ls;
	double u = cross(dt, s.a - t.a) / lt, v = cross(dt, s.b - t.a) / lt;
	return p * q < 0 && u * v < 0 && std::fabs(p) > Margin && std::fabs(q) > Margin && std::fabs(u) > Margin && std::fabs(v) > Margin;
}
static double dist(const Ln &s, const Ln &t) {
	V ds = s.b - s.a, dt = t.b - t.a;
	double p = cross(ds, t.a - s.a), q = cross(ds, t.b - s.a), u = cross(dt, s.a - t.a), v = cross(dt, s.b - t.a);
	if (p * q < 0 && u * v < 0) return 0;
	return std::min(std::min(ptseg(t.a, s.a, s.b), ptseg(t.b, s.a, s.b)), std::min(ptseg(s.a, t.a, t.b), ptseg(s.b, t.a, t.b)));
}

enum { CLEAR, HIT, CLOSE };

struct Sg { double r; int x0, y0, a0, x1, y1, a1; };

struct Model {
	int w, h, n;
	std::vector<Sg> segs;

	Ln line(int i, double x, double y, double rot) const {
		double t = 2 * M_PI * rot / n, r = segs[i].r;
		return Ln{ V{ x + r * cos(t), y + r * sin(t) }, V{ x - r * cos(t), y - r * sin(t) } };
	}
	// Motion of segment i from the pose, by dx, dy and da; does it meet t on the way?
	int meets(int i, int x, int y, int a, int dx, int dy, int da, const Ln &t, double lo = 0, double hi = 1, int depth = 0) const {
		double mid = (lo + hi) / 2;
		Ln at = line(i, x + dx * mid, y + dy * mid, a + da * mid);
		if (crossing(at, t)) return HIT;
		if (depth == 0 && (crossing(line(i, x, y, a), t) || crossing(line(i, x + dx, y + dy, a + da), t))) return HIT;
		double reach = (hi - lo) / 2 * (len(V{ (double) dx, (double) dy }) + segs[i].r * std::abs(da) * 2 * M_PI / n);
		if (dist(at, t) > reach + Margin) return CLEAR;
		if (depth == 12) return CLOSE;
		int l = meets(i, x, y, a, dx, dy, da, t, lo, mid, depth + 1);
		if (l == HIT) return HIT;
		int r = meets(i, x, y, a, dx, dy, da, t, mid, hi, depth + 1);
		return r == HIT ? HIT : std::max(l, r);
	}
	std::string text(bool comments) const {
		std::string s = comments ? "# seed: 12\n# another\n" : "";
		s += strf("%d %d %d\n%zu\n", w, h, n, segs.size());
		for (auto &g : segs) s += strf("%.17g %d %d %d %d %d %d\n", g.r, g.x0, g.y0, g.a0, g.x1, g.y1, g.a1);
		return s;
	}
	std::vector<Ln> walls() const {
		double W = w, H = h;
		return { Ln{ { 0, 0 }, { W, 0 } }, Ln{ { W, 0 }, { W, H } }, Ln{ { W, H }, { 0, H } }, Ln{ { 0, H }, { 0, 0 } } };
	}
};

// A state: the gripper, and every pose.
struct St {
	int x, y;
	std::vector<int> p;	// x, y, rot of each
	std::string key() const {
		std::string s = strf("%d,%d", x, y);
		for (size_t i = 0; i < p.size(); i += 3) s += strf(" %d,%d@%d", p[i], p[i + 1], p[i + 2]);
		return s;
	}
};
static St dec(const std::string &k) {
	St s;
	const char *p = k.c_str();
	int n;
	sscanf(p, "%d,%d%n", &s.x, &s.y, &n);
	p += n;
	int x, y, r;
	while (sscanf(p, " %d,%d@%d%n", &x, &y, &r, &n) == 3) { s.p.push_back(x); s.p.push_back(y); s.p.push_back(r); p += n; }
	return s;
}

struct Op { int seg, dx, dy, da; };

struct SegA : AdapterBase {
	typedef Segments D;
	D &d;
	const Model &m;
	unsigned long hits = 0, clears = 0, close = 0;
	SegA(D &dd, const Model &mm) : d(dd), m(mm) { }
	bool consistent() const { return false; }
	// The gripper is not moved back.
	bool revs() const { return false; }
	static std::string skey(const Segments::State &s) {
		St t;
		t.x = (int) s.x; t.y = (int) s.y;
		for (auto &p : s.poses) { t.p.push_back((int) p.x); t.p.push_back((int) p.y); t.p.push_back((int) p.rot); }
		return t.key();
	}
	std::string key(Segments::State &s) { return skey(s); }
	// What the model says of the operator: CLOSE if it is too close to tell.
	int legal(const St &s, const Op &o) const {
		size_t k = 3 * o.seg;
		int worst = CLEAR;
		auto one = [&](const Ln &t) {
			if (worst == HIT) return;
			int r = m.meets(o.seg, s.p[k], s.p[k + 1], s.p[k + 2], o.dx, o.dy, o.da, t);
			if (r == HIT) worst = HIT;
			else if (r == CLOSE) worst = CLOSE;
		};
		for (auto &t : m.walls()) one(t);
		for (size_t j = 0; j < m.segs.size(); j++)
			if ((int) j != o.seg) one(m.line((int) j, s.p[3 * j], s.p[3 * j + 1], s.p[3 * j + 2]));
		return worst;
	}
	St apply(St s, const Op &o) const {
		size_t k = 3 * o.seg;
		s.p[k] += o.dx;
		s.p[k + 1] += o.dy;
		s.p[k + 2] = (s.p[k + 2] + o.da + m.n) % m.n;
		s.x = s.p[k];
		s.y = s.p[k + 1];
		return s;
	}
	double cost(const St &s, const Op &o) const {
		size_t k = 3 * o.seg;
		return len(V{ (double) s.x - s.p[k], (double) s.y - s.p[k + 1] }) + (o.dx && o.dy ? std::sqrt(2.0) : 1);
	}
	std::vector<Op> ops() const {
		std::vector<Op> r;
		for (int i = 0; i < (int) m.segs.size(); i++) {
			r.push_back(Op{ i, 0, 0, -1 });
			r.push_back(Op{ i, 0, 0, 1 });
			for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) if (dx || dy) r.push_back(Op{ i, dx, dy, 0 });
		}
		return r;
	}
	Segments::State make(const St &s) const {
		std::vector<Pose> ps;
		for (size_t i = 0; i < s.p.size(); i += 3) ps.push_back(Pose((unsigned) s.p[i], (unsigned) s.p[i + 1], (unsigned) s.p[i + 2]));
		return Segments::State(d, ps, (unsigned) s.x, (unsigned) s.y);
	}
	static Segments::Oper oper(const Op &o) {
		return o.da ? Segments::Oper(Segments::Oper::Rotate, (unsigned) o.seg, o.da, 0) : Segments::Oper(Segments::Oper::Move, (unsigned) o.seg, o.dx, o.dy);
	}
	std::map<std::string, std::vector<MSucc>> memo;
	std::vector<MSucc> succs(const std::string &key) {
		auto it = memo.find(key);
		if (it != memo.end()) return it->second;
		St s = dec(key);
		std::vector<MSucc> r;
		std::unique_ptr<Segments::State> st;
		std::unique_ptr<Segments::Operators> have;
		for (auto &o : ops()) {
			int l = legal(s, o);
			if (l == CLOSE) {
				// Too close to tell: as the domain sees it.
				close++;
				if (!have) { st.reset(new Segments::State(make(s))); have.reset(new Segments::Operators(d, *st)); }
				l = HIT;
				for (unsigned i = 0; i < have->size(); i++) if ((*have)[i] == oper(o)) l = CLEAR;
			} else if (l == HIT) hits++;
			else clears++;
			if (l == CLEAR) r.push_back(MSucc(apply(s, o).key(), cost(s, o)));
		}
		memo[key] = r;
		return r;
	}
	bool goal(const std::string &k) {
		St s = dec(k);
		for (size_t i = 0; i < m.segs.size(); i++)
			if (s.p[3 * i] != m.segs[i].x1 || s.p[3 * i + 1] != m.segs[i].y1 || s.p[3 * i + 2] != m.segs[i].a1) return false;
		return true;
	}
	// The lines of the state are those of its poses, and undoing an operator
	// restores all poses.
	template<class S> void checkh(Case &c, S &s, const std::string &k) {
		St t = dec(k);
		CHECK(s.lines.size() == m.segs.size(), "%zu lines for %zu segments", s.lines.size(), m.segs.size());
		for (size_t i = 0; i < s.lines.size(); i++) {
			Ln l = m.line((int) i, t.p[3 * i], t.p[3 * i + 1], t.p[3 * i + 2]);
			CHECK(near(s.lines[i].p0.x, l.a.x) && near(s.lines[i].p0.y, l.a.y) && near(s.lines[i].p1.x, l.b.x) && near(s.lines[i].p1.y, l.b.y),
				"%s: line %zu is %g,%g - %g,%g, not %g,%g - %g,%g", k.c_str(), i, s.lines[i].p0.x, s.lines[i].p0.y, s.lines[i].p1.x, s.lines[i].p1.y, l.a.x, l.a.y, l.b.x, l.b.y);
		}
		CHECK((double) d.d(s) >= 0 && (!goal(k) || d.d(s) == 0), "%s: the distance estimate is %g", k.c_str(), (double) d.d(s));
		Segments::Operators ops(d, s);
		for (unsigned i = 0; i < ops.size(); i++) {
			Segments::Edge e(d, s, ops[i]);
			Segments::Edge r(d, e.state, e.revop);
			St a = dec(skey(r.state));
			CHECK(a.p == t.p, "undoing an operator of %s gives %s", k.c_str(), a.key().c_str());
			CHECK(near((double) r.cost, (double) e.revcost), "undoing an operator of %s costs %g, the edge says %g", k.c_str(), (double) r.cost, (double) e.revcost);
			bool ok = legal(dec(skey(e.state)), Op{ (int) ops[i].seg, 0, 0, 0 }) != HIT;
			CHECK(ok, "from %s, %s is reached where segments cross", k.c_str(), skey(e.state).c_str());
			Segments::Operators back(d, e.state);
			// Along the same way back; where it is too close to tell it may differ.
			Op o = { (int) ops[i].seg, ops[i].op == Segments::Oper::Move ? ops[i].delta : 0, ops[i].op == Segments::Oper::Move ? ops[i].dy : 0, ops[i].op == Segments::Oper::Rotate ? ops[i].delta : 0 };
			if (legal(t, o) != CLEAR) continue;
			bool found = false;
			for (unsigned j = 0; j < back.size(); j++) found |= back[j] == e.revop;
			CHECK(found, "from %s to %s: the reverse operator is not applicable", k.c_str(), skey(e.state).c_str());
		}
	}
	template<class O> static bool operless(const O &x, const O &y) {
		if (x.op != y.op) return x.op < y.op;
		if (x.seg != y.seg) return x.seg < y.seg;
		if (x.delta != y.delta) return x.delta < y.delta;
		return x.op == O::Move && x.dy < y.dy;
	}
};

// A place for segment i, clear of the walls and of the others placed.
static bool place(Case &c, const Model &m, int i, std::vector<Ln> &lines, int &x, int &y, int &a) {
	for (int t = 0; t < 30; t++) {
		x = c.range(1, m.w - 1);
		y = c.range(1, m.h - 1);
		a = (int) c.draw(m.n);
		Ln l = m.line(i, x, y, a);
		bool ok = true;
		for (auto &o : m.walls()) ok = ok && dist(l, o) > 0.01;
		ok = ok && l.a.x > 0 && l.a.x < m.w && l.a.y > 0 && l.a.y < m.h && l.b.x > 0 && l.b.x < m.w && l.b.y > 0 && l.b.y < m.h;
		for (auto &o : lines) ok = ok && dist(l, o) > 0.001;
		if (ok) { lines.push_back(l); return true; }
	}
	return false;
}

static Model gen(Case &c, int maxw, int maxsegs, int maxn) {
	Model m;
	m.w = c.range(2, maxw);
	m.h = c.range(2, maxw);
	m.n = 2 * (1 + (int) c.size(0, maxn / 2 - 1));
	int want = 1 + (int) c.draw(maxsegs);
	std::vector<Ln> at, to;
	for (int i = 0; i < want; i++) {
		Sg g;
		// Short ones fit into the ways of long ones.
		static const double scale[] = { 0.15, 0.5, 0.95, 1.6, 2.5, 6 };
		g.r = scale[c.draw(6)] * (0.5 + 0.5 * c.real());
		g.r = std::min(g.r, std::max(m.w, m.h) / 2.0);
		m.segs.push_back(g);
		Sg &s = m.segs.back();
		bool a = place(c, m, i, at, s.x0, s.y0, s.a0);
		bool b = a && place(c, m, i, to, s.x1, s.y1, s.a1);
		if (a && !b) at.pop_back();
		if (!a || !b) { m.segs.pop_back(); break; }
	}
	if (m.segs.empty()) c.discard();
	return m;
}

static std::string startkey(const Model &m) {
	St s;
	s.x = s.y = 0;
	for (auto &g : m.segs) { s.p.push_back(g.x0); s.p.push_back(g.y0); s.p.push_back(g.a0); }
	return s.key();
}

PROP(segments_moves, 4000, 120000, "at least one motion is blocked and eight are free") {
	Model m = gen(c, 9, 6, 24);
	std::string t = m.text(c.chance(1, 3));
	c.desc("%s", t.c_str());
	TextFile f(t);
	Segments d(f.f);
	SegA a(d, m);
	DomCheck<SegA> dc(c, a);
	Segments::State s = d.initialstate();
	std::string k0 = startkey(m);
	CHECK(a.key(s) == k0, "the start state is %s, not %s", a.key(s).c_str(), k0.c_str());
	dc.walk(s, k0, 1 + (int) c.draw(8));
	Segments::State g = d.goalstate();
	St want = dec(k0);
	for (size_t i = 0; i < m.segs.size(); i++) { want.p[3*i] = m.segs[i].x1; want.p[3*i+1] = m.segs[i].y1; want.p[3*i+2] = m.segs[i].a1; }
	CHECK(a.key(g) == want.key(), "the goal state is %s, not %s", a.key(g).c_str(), want.key().c_str());
	CHECK(d.isgoal(g), "the goal state is no goal");
	// The description written is the instance.
	char *buf = nullptr;
	size_t n = 0;
	FILE *o = open_memstream(&buf, &n);
	d.prinitial(o);
	fclose(o);
	std::string desc(buf, n);
	free(buf);
	TextFile df(desc);
	Segments::Solution sol = Segments::readdf(df.f, nullptr);
	bool same = sol.segs.size() == m.segs.size() && desc.find("#pair") != std::string::npos;
	if (same) same = sol.width == m.w && sol.height == m.h && sol.nangles == m.n;
	for (size_t i = 0; same && i < m.segs.size(); i++) {
		auto &x = m.segs[i];
		same = near(sol.segs[i].radius, x.r, 1e-4) && sol.segs[i].start == Pose(x.x0, x.y0, x.a0) && sol.segs[i].goal == Pose(x.x1, x.y1, x.a1);
	}
	CHECK(same, "the instance is described as %s", desc.c_str());
	if (a.hits >= 1 && a.clears >= 8) c.nontrivial();
	if (a.hits > 8) c.label("many blocked");
	if (a.close) c.label("some too close to tell");
}

// The domain made from values is the one read from a file.
// Many segments, wide fields and fine angles.
PROP(segments_large, 100, 3000, "at least seven segments, and twenty motions free") {
	Model m = gen(c, (int) c.pick(std::vector<int>{ 12, 30, 90 }), 14, 80);
	std::string t = m.text(c.chance(1, 3));
	c.desc("%s", t.c_str());
	TextFile f(t);
	Segments d(f.f);
	SegA a(d, m);
	DomCheck<SegA> dc(c, a);
	Segments::State s = d.initialstate();
	dc.walks(s, startkey(m), 3 + (int) c.draw(12), 2);
	if (m.segs.size() >= 7 && a.clears >= 20) c.nontrivial();
}

// Wide, sparse fields: bringing one segment after the other where it belongs,
// straight, bounds what is left to pay and to do.
PROP(segments_far, 2000, 40000, "a plan of at least twenty steps") {
	Model m = gen(c, (int) c.pick(std::vector<int>{ 12, 40, 100 }), 3, 100);
	for (auto &g : m.segs) if (c.flip()) { g.x1 = g.x0; g.y1 = g.y0; }
	std::string t = m.text(false);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Segments d(f.f);
	SegA a(d, m);
	std::vector<std::pair<std::string, double>> way;
	St s = dec(startkey(m));
	for (size_t k = 0; k < m.segs.size(); k++) {
		auto &g = m.segs[k];
		auto sgn = [](int v) { return v < 0 ? -1 : v > 0; };
		int turn = (g.a1 - g.a0 + m.n) % m.n, dir = 2 * turn <= m.n ? 1 : -1;
		for (;;) {
			Op o{ (int) k, 0, 0, s.p[3*k + 2] != g.a1 ? dir : 0 };
			if (!o.da) { o.dx = sgn(g.x1 - s.p[3*k]); o.dy = sgn(g.y1 - s.p[3*k + 1]); }
			if (!o.da && !o.dx && !o.dy) break;
			if (a.legal(s, o) != CLEAR) c.discard();
			way.push_back(std::make_pair(s.key(), a.cost(s, o)));
			s = a.apply(s, o);
		}
	}
	if (way.size() >= 20) c.nontrivial();
	double left = 0;
	for (size_t i = way.size(); i-- > 0;) {
		left += way[i].second;
		Segments::State st = a.make(dec(way[i].first));
		CHECK((double) d.h(st) <= left * (1 + 1e-9) + 1e-9, "h of %s is %g, it is solved for %g", way[i].first.c_str(), (double) d.h(st), left);
		CHECK((double) d.d(st) <= (double) (way.size() - i), "%s is %g steps from the goal, it is solved in %zu", way[i].first.c_str(), (double) d.d(st), way.size() - i);
	}
}

PROP(segments_values, 1200, 10000, "at least eight motions free") {
	Model m = gen(c, 7, 4, 16);
	std::string t = m.text(false);
	c.desc("%s", t.c_str());
	std::vector<Segments::Seg> segs;
	for (auto &g : m.segs) {
		Segments::Seg s;
		s.radius = g.r;
		s.start = Pose((unsigned) g.x0, (unsigned) g.y0, (unsigned) g.a0);
		s.goal = Pose((unsigned) g.x1, (unsigned) g.y1, (unsigned) g.a1);
		segs.push_back(s);
	}
	Segments d((unsigned) m.w, (unsigned) m.h, (unsigned) m.n, segs);
	SegA a(d, m);
	DomCheck<SegA> dc(c, a);
	Segments::State s = d.initialstate();
	dc.walk(s, startkey(m), 1 + (int) c.draw(5));
	if (a.clears >= 8) c.nontrivial();
}

PROP(segments_solve, 500, 4000, "the cheapest solution costs at least two") {
	Model m = gen(c, c.flip() ? 3 : 4, 2, 8);
	std::string t = m.text(false);
	c.desc("%s", t.c_str());
	TextFile f(t);
	Segments d(f.f);
	SegA a(d, m);
	Space<SegA> sp;
	sp.build(a, startkey(m), 3000);
	if (!sp.whole) c.label("not whole");
	DomCheck<SegA> dc(c, a);
	sweep(c, a, dc, sp, 10);
	if (sp.whole) {
		solvecheck(c, a, sp.opt(), sp.opt() < 4);
		if (sp.opt() < INFINITY && sp.opt() >= 2) c.nontrivial();
		if (sp.opt() == INFINITY) c.label("unsolvable");
	}
}

// The solver's datafile tells the instance and a plan for it.
PROP(segments_output, 200, 5000, "the plan has at least three steps") {
	Model m = gen(c, 5, 2, 6);
	for (auto &g : m.segs) g.r = atof(strf("%.4g", g.r).c_str());
	std::string t = m.text(true);
	c.desc("%s", t.c_str());
	prog::Out o = prog::run("prog_segments_solver", { c.flip() ? "greedy" : "speedy" }, t);
	CHECK(o.ok() && o.clean(), "status %d: %s", o.status, o.err.c_str());
	std::string copy = o.out;
	TextFile f(copy);
	char *buf = nullptr;
	size_t n = 0;
	FILE *echo = open_memstream(&buf, &n);
	Segments::Solution sol = Segments::readdf(f.f, c.flip() ? echo : nullptr);
	fclose(echo);
	std::string echoed(buf, n);
	free(buf);
	CHECK(echoed.empty() || echoed == o.out, "the file is echoed as %s", echoed.c_str());
	CHECK(sol.width == m.w && sol.height == m.h && sol.nangles == m.n, "read back %d, %d, %d", sol.width, sol.height, sol.nangles);
	CHECK(sol.segs.size() == m.segs.size(), "%zu segments read back of %zu:\n%s", sol.segs.size(), m.segs.size(), o.out.c_str());
	for (size_t i = 0; i < m.segs.size(); i++) {
		auto &g = m.segs[i];
		auto &s = sol.segs[i];
		CHECK(near(s.radius, g.r) && s.start == Pose(g.x0, g.y0, g.a0) && s.goal == Pose(g.x1, g.y1, g.a1), "segment %zu is read back otherwise:\n%s", i, o.out.c_str());
	}
	// Replay the plan.
	TextFile f2(t);
	Segments d(f2.f);
	SegA a(d, m);
	St s = dec(startkey(m));
	double cost = 0, said = NAN;
	for (auto &op : sol.ops) {
		Op p = { (int) op.seg, 0, 0, 0 };
		if (op.op == Segments::Oper::Move) { p.dx = op.delta; p.dy = op.dy; }
		else p.da = op.delta;
		CHECK(a.legal(s, p) != HIT, "the plan is blocked at %s", s.key().c_str());
		cost += a.cost(s, p);
		s = a.apply(s, p);
	}
	std::string k, v;
	for (auto &l : prog::lines(o.out)) if (prog::pairline(l, k, v) && k == "final sol cost") said = atof(v.c_str());
	if (said == -1) { CHECK(sol.ops.empty(), "operators without a solution"); return; }
	CHECK(a.goal(s.key()), "the plan ends at %s", s.key().c_str());
	CHECK(near(cost, said, 1e-5), "the plan costs %g, the program says %g", cost, said);
	if (sol.ops.size() >= 3) c.nontrivial();
}

// The generator's instances hold to its options.
PROP(segments_mkinst, 200, 5000, "at least two segments") {
	int w = c.range(4, 40), h = c.range(4, 40), n = 2 * c.range(1, 20), k = c.range(1, 5);
	double lo = 0.1 + c.real(), hi = lo + 0.1 + c.real() * std::max(0.0, std::min(w, h) / 2.0 - 2.2);
	// All of the same whole size, they come to lie along the edges.
	bool whole = c.chance(1, 3);
	if (whole) lo = hi = c.range(1, std::max(1, std::min(w, h) / 2 - 1));
	if (std::ceil(hi) * 2 > std::min(w, h)) c.discard();
	unsigned long seed = 1 + c.draw(1000000);
	std::vector<std::string> args = { "-nsegs", strf("%d", k), "-width", strf("%d", w), "-height", strf("%d", h), "-nangles", strf("%d", n),
		"-maxr", strf("%.17g", hi), "-minr", strf("%.17g", lo), "-seed", strf("%lu", seed) };
	std::string what;
	for (auto &x : args) what += x + " ";
	c.desc("mkinst %s\n", what.c_str());
	prog::Out o = prog::run("prog_segments_mkinst", args, "", 3);
	if (o.status == -1 && k == 1 && hi <= std::min(w, h) / 2.0 - 1) {	// there is place for one
		o = prog::run("prog_segments_mkinst", args, "", 30);
		CHECK(o.status != -1, "no end in thirty seconds");
	}
	if (o.status == -1) c.discard();	// no place for all
	CHECK(o.ok() && o.clean(), "status %d: %s", o.status, o.err.c_str());
	prog::Out o2 = prog::run("prog_segments_mkinst", args);
	CHECK(o2.out == o.out, "the same seed gives another instance");
	Model m;
	std::string body;
	for (auto &l : prog::lines(o.out)) if (l[0] != '#') body += l + "\n";
	int k2 = 0, used = 0;
	CHECK(sscanf(body.c_str(), "%d %d %d %d%n", &m.w, &m.h, &m.n, &k2, &used) == 4 && m.w == w && m.h == h && m.n == n && k2 == k, "the head is %s", prog::shown(o.out).c_str());
	const char *p = body.c_str() + used;
	for (int i = 0; i < k; i++) {
		Sg g;
		int u = 0;
		CHECK(sscanf(p, " %lg %d %d %d %d %d %d%n", &g.r, &g.x0, &g.y0, &g.a0, &g.x1, &g.y1, &g.a1, &u) == 7, "segment %d is missing:\n%s", i, o.out.c_str());
		p += u;
		CHECK(g.r >= lo - 1e-3 && g.r <= hi + 1e-3, "radius %g is not in %g to %g", g.r, lo, hi);
		m.segs.push_back(g);
	}
	for (int end = 0; end < 2; end++) {
		std::vector<Ln> ls;
		for (int i = 0; i < k; i++) {
			Sg &g = m.segs[i];
			int x = end ? g.x1 : g.x0, y = end ? g.y1 : g.y0, a = end ? g.a1 : g.a0;
			CHECK(a >= 0 && a < n, "angle %d of %d", a, n);
			Ln l = m.line(i, x, y, a);
			for (V v : { l.a, l.b })
				CHECK(v.x > -1e-3 && v.y > -1e-3 && v.x < w + 1e-3 && v.y < h + 1e-3, "segment %d sticks out at %g,%g", i, v.x, v.y);
			if (whole)
				for (V v : { l.a, l.b })
					CHECK(v.x > 1e-6 && v.y > 1e-6 && v.x < w - 1e-6 && v.y < h - 1e-6, "segment %d touches the edge at %g,%g", i, v.x, v.y);
			for (auto &t : ls) CHECK(!crossing(l, t), "segment %d crosses another", i);
			ls.push_back(l);
		}
	}
	TextFile f(o.out);
	Segments d(f.f);
	Segments::State s = d.initialstate();
	CHECK(SegA::skey(s) == startkey(m), "the instance is read otherwise");
	if (k >= 2) c.nontrivial();
}

PROP(segments_reject, 150, 1000, "always") {
	c.nontrivial();
	Model m = gen(c, 6, 3, 8);
	std::string t = m.text(c.flip());
	switch (c.draw(3)) {
	case 0: {
		// Cut off within the segments' lines, or before.
		size_t end = t.find_last_of("0123456789");
		while (end > 0 && t[end - 1] != ' ') end--;
		size_t b = t.find(strf("%d %d %d\n", m.w, m.h, m.n));
		t.resize(b + c.draw(end - b));
		break;
	}
	case 1: m.n++; t = m.text(false); break;
	case 2: { size_t p = t.find_last_of(' '); t.insert(p + 1, "x"); break; }
	}
	c.desc("%s", t.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(t); Segments d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_segments, 480, 9000, "the cheapest solution costs at least two") {
	Model m = gen(c, c.flip() ? 3 : 4, 2, 8);
	std::string text = m.text(false);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.unit = t.realtime = false;
	t.tol = 2e-6;
	if (c.chance(1, 8)) { clirefuse(c, "prog_segments_solver", text, t); return; }
	TextFile f(text);
	Segments d(f.f);
	SegA a(d, m);
	Space<SegA> sp;
	sp.build(a, startkey(m), 3000);
	if (!sp.whole) c.discard();
	Segments::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	t.admissible = a.admissible();
	t.consistent = a.consistent();
	clisolve(c, "prog_segments_solver", text, sp.opt(), t);
	if (sp.opt() < INFINITY && sp.opt() >= 2) c.nontrivial();
}
#endif
