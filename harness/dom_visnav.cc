// P22: polygon maps, visibility graphs and routes through them, against exact
// arithmetic on integers.
#include "domcheck.hpp"
#include "genpoly.hpp"
#include "prog.hpp"
#include "visnav/visnav.hpp"
#include <algorithm>
#include <array>

using ref::P;
using ref::Ring;
typedef long long L;

struct Model {
	std::vector<Ring> polys;	// clockwise
	Ring bound;	// counter-clockwise, if not empty
	std::set<P> pinch;	// where two corners of one obstacle touch
	double unit = 1;
	int ox = 0, oy = 0;

	double X(const P &p) const { return ox + unit * p.x; }
	double Y(const P &p) const { return oy + unit * p.y; }
	geom2d::Pt pt(const P &p) const { return geom2d::Pt(X(p), Y(p)); }
	static std::string ring(const Model &m, const Ring &r) {
		std::string s = strf("%zu", r.size());
		for (auto &p : r) s += strf(" %.17g %.17g", m.X(p), m.Y(p));
		return s + "\n";
	}
	std::string text() const {
		std::string s;
		if (!bound.empty()) s += "bound: " + ring(*this, bound);
		s += strf("%zu polygons\n", polys.size());
		for (auto &r : polys) s += ring(*this, r);
		return s;
	}

	// -1 within an obstacle, 0 on its boundary, 1 free
	int free(const P &p) const {
		int f = 1;
		for (auto &r : polys) f = std::min(f, -ref::side(r, p));
		if (!bound.empty()) f = std::min(f, ref::side(bound, p));
		return f;
	}

	// -1 if the open segment passes through an obstacle, 0 if it touches one, 1 if it is clear.
	int sees(const P &a, const P &b) const {
		int v = 1;
		for (auto &p : pinch) if (!(p == a) && !(p == b) && ref::on(a, b, p)) return -1;
		for (size_t k = 0; k <= polys.size(); k++) {
			if (k == polys.size() && bound.empty()) break;
			const Ring &r = k < polys.size() ? polys[k] : bound;
			// The segment is cut where it meets the ring: fractions of its length.
			std::vector<std::pair<L, L>> t = { { 0, 1 }, { 1, 1 } };
			L ll = ref::dot(a, b, b);
			for (size_t i = 0; i < r.size(); i++) {
				const P &c = r[i], &d = r[(i + 1) % r.size()];
				if (!ref::meet(a, b, c, d)) continue;
				if (ref::parallel(a, b, c, d)) {
					for (const P &e : { c, d }) if (ref::on(a, b, e)) t.push_back({ ref::dot(a, b, e), ll });
				} else {
					L den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
					L num = (c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x);
					if (den < 0) { den = -den; num = -num; }
					t.push_back({ num, den });
				}
			}
			std::sort(t.begin(), t.end(), [](const std::pair<L, L> &p, const std::pair<L, L> &q) { return p.first * q.second < q.first * p.second; });
			for (size_t i = 0; i + 1 < t.size(); i++) {
				if (t[i].first * t[i + 1].second == t[i + 1].first * t[i].second) continue;
				L n = t[i].first * t[i + 1].second + t[i + 1].first * t[i].second, d = 2 * t[i].second * t[i + 1].second;
				if (t[i].first > 0) v = std::min(v, 0);
				Ring big;
				for (auto &p : r) big.push_back(P{ (p.x - a.x) * d, (p.y - a.y) * d });
				int s = ref::side(big, P{ (b.x - a.x) * n, (b.y - a.y) * n });
				if (k == polys.size()) s = -s;
				if (s > 0) return -1;
				if (s == 0) v = 0;
			}
		}
		return v;
	}
	std::vector<P> convex() const {	// corners that a shortest route may turn at
		std::vector<P> o;
		for (size_t k = 0; k <= polys.size(); k++) {
			if (k == polys.size() && bound.empty()) break;
			const Ring &r = k < polys.size() ? polys[k] : bound;
			for (size_t i = 0; i < r.size(); i++)
				if (ref::cross(r[(i + r.size() - 1) % r.size()], r[i], r[(i + 1) % r.size()]) < 0) o.push_back(r[i]);
		}
		return o;
	}
	P lo() const { P l{ 1 << 30, 1 << 30 }; for (auto &r : bound.empty() ? polys : std::vector<Ring>{ bound }) for (auto &p : r) { l.x = std::min(l.x, p.x); l.y = std::min(l.y, p.y); } return l; }
	P hi() const { P h{ -(1 << 30), -(1 << 30) }; for (auto &r : bound.empty() ? polys : std::vector<Ring>{ bound }) for (auto &p : r) { h.x = std::max(h.x, p.x); h.y = std::max(h.y, p.y); } return h; }
	double dist(const P &a, const P &b) const { return unit * std::sqrt((double) ref::dot(a, b, b)); }
};

static bool apart(const Ring &a, const Ring &b) {
	for (size_t i = 0; i < a.size(); i++)
		for (size_t j = 0; j < b.size(); j++)
			if (ref::meet(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return false;
	return ref::side(a, b[0]) < 0 && ref::side(b, a[0]) < 0;
}

// Reads back what the repository wrote of a polygon.
static Ring ringof(Case &c, const geom2d::Poly &p) {
	Ring r;
	for (auto &v : p.verts) {
		P q{ std::llround(v.x), std::llround(v.y) };
		CHECK(q.x == v.x && q.y == v.y, "a bitmap has a corner at %.17g,%.17g", v.x, v.y);
		r.push_back(q);
	}
	return r;
}

struct Bits {
	int w, h;
	std::vector<char> b;	// column after column
	char &at(int x, int y) { return b[x * h + y]; }
	std::string show() { std::string s; for (int y = h - 1; y >= 0; y--) { for (int x = 0; x < w; x++) s += at(x, y) ? '#' : '.'; s += '\n'; } return s; }
};

// Within a solid border, one region.
static Bits genbits(Case &c, int most) {
	Bits m;
	m.w = 3 + (int) c.size(0, most - 3);
	m.h = 3 + (int) c.size(0, most - 3);
	m.b.assign(m.w * m.h, 1);
	int p = 1 + (int) c.draw(6);
	for (int x = 1; x < m.w - 1; x++) for (int y = 1; y < m.h - 1; y++) m.at(x, y) = c.chance(p, 12);
	int sx = c.range(1, m.w - 2), sy = c.range(1, m.h - 2);
	m.at(sx, sy) = 0;
	std::vector<char> in(m.w * m.h, 0);
	std::vector<std::pair<int, int>> q = { { sx, sy } };
	while (!q.empty()) {
		int x = q.back().first, y = q.back().second;
		q.pop_back();
		if (m.at(x, y) || in[x * m.h + y]) continue;
		in[x * m.h + y] = 1;
		q.push_back({ x + 1, y }); q.push_back({ x - 1, y }); q.push_back({ x, y + 1 }); q.push_back({ x, y - 1 });
	}
	for (size_t i = 0; i < in.size(); i++) m.b[i] = !in[i];
	return m;
}

static PolyMap polymap(Bits &b) {
	std::unique_ptr<bool[]> v(new bool[b.b.size()]);
	for (size_t i = 0; i < b.b.size(); i++) v[i] = b.b[i];
	return PolyMap(v.get(), b.w, b.h);
}

static Model modelof(Case &c, Bits &b, const PolyMap &m) {
	Model o;
	CHECK((bool) m.bound, "the map has no bound");
	o.bound = ringof(c, *m.bound);
	for (auto &p : m.polys) o.polys.push_back(ringof(c, p));
	for (int x = 1; x < b.w; x++) for (int y = 1; y < b.h; y++) {
		int s = b.at(x, y) + 2 * b.at(x - 1, y) + 4 * b.at(x, y - 1) + 8 * b.at(x - 1, y - 1);
		if (s == 6 || s == 9) o.pinch.insert(P{ x, y });
	}
	return o;
}

static Ring flip(Ring r) { std::reverse(r.begin(), r.end()); return r; }

static Model gen(Case &c, bool large = false) {
	if (!large && c.chance(1, 4)) {
		Bits b = genbits(c, 8);
		PolyMap m = polymap(b);
		return modelof(c, b, m);
	}
	Model m;
	static const double units[] = { 1, 1, 0.5, 0.25, 3 };
	m.unit = units[c.draw(5)];
	if (c.chance(1, 3)) { m.ox = c.range(0, 20) - 10; m.oy = c.range(0, 20) - 10; }
	int k = 8;
	auto one = [&](int size, Ring &r) {
		try { r = ref::corners(genring(c, size)); } catch (pbt::Discard) { return false; }
		return r.size() >= 3 && ref::simple(r);
	};
	if (c.chance(1, 3)) {
		Ring r;
		if (large) {
			if (one(200, r)) { m.bound = flip(r); k = 200; }
		} else if (one(9, r)) { m.bound = flip(r); k = 9; }
	}
	int n = (int) (large ? c.range(8, 40) : c.size(0, 6)), most = 5;
	if (large) { k = m.bound.empty() ? (int) c.range(30, 250) : 200; most = (int) c.range(5, 30); }
	for (int i = 0; i < n; i++) {
		Ring r;
		if (!one(1 + (int) c.draw(most), r)) continue;
		L dx = c.range(0, 2 * k) - k, dy = c.range(0, 2 * k) - k;
		for (auto &p : r) { p.x += dx; p.y += dy; }
		bool fits = true;
		for (auto &o : m.polys) fits = fits && apart(o, r);
		if (!m.bound.empty()) {
			for (size_t j = 0; j < r.size(); j++) {
				fits = fits && ref::side(m.bound, r[j]) > 0;
				for (size_t l = 0; l < m.bound.size(); l++) fits = fits && !ref::meet(r[j], r[(j + 1) % r.size()], m.bound[l], m.bound[(l + 1) % m.bound.size()]);
			}
		}
		if (fits) m.polys.push_back(r);
	}
	if (m.polys.empty() && m.bound.empty()) m.polys.push_back(Ring{ P{ 0, 0 }, P{ 0, 1 }, P{ 1, 0 } });
	return m;
}

static bool genfree(Case &c, const Model &m, P &p) {
	P l = m.lo(), h = m.hi();
	if (m.bound.empty()) { l.x -= 2; l.y -= 2; h.x += 2; h.y += 2; }
	for (int i = 0; i < 20; i++) {
		p = P{ l.x + (L) c.draw(h.x - l.x + 1), l.y + (L) c.draw(h.y - l.y + 1) };
		if (m.free(p) > 0) return true;
	}
	return false;
}
// Free points in the middle of cells: all coordinates are doubled.
static void finer(Model &m) {
	auto f = [](Ring &r) { for (auto &p : r) { p.x *= 2; p.y *= 2; } };
	for (auto &r : m.polys) f(r);
	f(m.bound);
	std::set<P> q;
	for (auto &p : m.pinch) q.insert(P{ 2 * p.x, 2 * p.y });
	m.pinch = q;
	m.unit /= 2;
}

static PolyMap open(const Model &m) { TextFile f(m.text()); return PolyMap(f.f); }

static double route(const Model &m, const P &s, const P &g) {
	std::vector<P> v = m.convex();
	v.push_back(s);
	v.push_back(g);
	std::vector<double> d(v.size(), INFINITY);
	std::vector<char> done(v.size(), 0);
	d[v.size() - 2] = 0;
	for (;;) {
		size_t b = v.size();
		for (size_t i = 0; i < v.size(); i++) if (!done[i] && d[i] < INFINITY && (b == v.size() || d[i] < d[b])) b = i;
		if (b == v.size() || b == v.size() - 1) break;
		done[b] = 1;
		for (size_t i = 0; i < v.size(); i++) {
			if (done[i] || v[i] == v[b]) continue;
			double e = d[b] + m.dist(v[b], v[i]);
			if (e < d[i] && m.sees(v[b], v[i]) >= 0) d[i] = e;
		}
	}
	return d.back();
}

static void unchanged(Case &c, const Model &m, const PolyMap &p, const char *what) {
	CHECK((bool) p.bound == !m.bound.empty() && p.polys.size() == m.polys.size(), "%s has %sbound and %zu polygons", what, p.bound ? "a " : "no ", p.polys.size());
	for (size_t k = 0; k <= m.polys.size(); k++) {
		if (k == m.polys.size() && m.bound.empty()) break;
		const Ring &r = k < m.polys.size() ? m.polys[k] : m.bound;
		const geom2d::Poly &q = k < m.polys.size() ? p.polys[k] : *p.bound;
		CHECK(q.verts.size() == r.size(), "%s: polygon %zu has %zu corners, not %zu", what, k, q.verts.size(), r.size());
		for (size_t i = 0; i < r.size(); i++)
			CHECK(near(q.verts[i].x, m.X(r[i]), 1e-9) && near(q.verts[i].y, m.Y(r[i]), 1e-9), "%s: corner %zu of polygon %zu is at %g,%g not %g,%g", what, i, k, q.verts[i].x, q.verts[i].y, m.X(r[i]), m.Y(r[i]));
	}
	P lo = m.lo(), hi = m.hi();
	geom2d::Pt a = p.min(), b = p.max();
	CHECK(near(a.x, m.X(lo), 1e-9) && near(a.y, m.Y(lo), 1e-9) && near(b.x, m.X(hi), 1e-9) && near(b.y, m.Y(hi), 1e-9), "%s reaches from %g,%g to %g,%g, not from %g,%g to %g,%g",
		what, a.x, a.y, b.x, b.y, m.X(lo), m.Y(lo), m.X(hi), m.Y(hi));
}

// The graph against the map; extra are the points added.
static void graph(Case &c, const Model &m, const VisGraph &g, const std::vector<P> &extra, double tol = 1e-9) {
	unchanged(c, m, g.map, "the graph's map");
	std::vector<P> at(g.verts.size());
	std::map<P, int> corner;
	for (auto &r : m.polys) for (auto &p : r) corner[p]++;
	for (auto &p : m.bound) corner[p]++;
	for (auto &p : extra) corner[p]++;
	std::map<P, int> seen;
	for (size_t i = 0; i < g.verts.size(); i++) {
		const VisGraph::Vert &v = g.verts[i];
		CHECK(v.id == i, "vertex %zu has the number %u", i, v.id);
		at[i] = P{ std::llround((v.pt.x - m.ox) / m.unit), std::llround((v.pt.y - m.oy) / m.unit) };
		CHECK(near(v.pt.x, m.X(at[i])) && near(v.pt.y, m.Y(at[i])) && ++seen[at[i]] <= corner[at[i]], "vertex %zu at %g,%g is no corner", i, v.pt.x, v.pt.y);
	}
	for (auto &p : m.convex()) CHECK(seen.count(p), "the corner at %g,%g is missing", m.X(p), m.Y(p));
	for (size_t i = 0; i < extra.size(); i++) CHECK(at[at.size() - extra.size() + i] == extra[i], "the point added is not the last vertex");
	std::set<std::pair<unsigned, unsigned>> es;
	for (size_t i = 0; i < g.verts.size(); i++)
		for (auto &e : g.verts[i].edges) {
			CHECK(e.src == i && e.dst < g.verts.size() && e.dst != i, "vertex %zu has an edge from %u to %u", i, e.src, e.dst);
			es.insert({ e.src, e.dst });
			CHECK(std::fabs(e.dist - m.dist(at[i], at[e.dst])) <= tol * std::max(1.0, e.dist), "the edge from %g,%g to %g,%g has length %.17g, not %.17g", m.X(at[i]), m.Y(at[i]), m.X(at[e.dst]), m.Y(at[e.dst]), e.dist, m.dist(at[i], at[e.dst]));
			CHECK(m.sees(at[i], at[e.dst]) >= 0, "the edge from %g,%g to %g,%g passes through an obstacle", m.X(at[i]), m.Y(at[i]), m.X(at[e.dst]), m.Y(at[e.dst]));
		}
	for (auto &e : es) CHECK(es.count({ e.second, e.first }), "there is an edge from %u to %u but none back", e.first, e.second);
	for (size_t i = 0; i < at.size(); i++)
		for (size_t j = i + 1; j < at.size(); j++)
			if (!es.count({ (unsigned) i, (unsigned) j }) && !(at[i] == at[j]))
				CHECK(m.sees(at[i], at[j]) <= 0, "nothing is between %g,%g and %g,%g, but there is no edge", m.X(at[i]), m.Y(at[i]), m.X(at[j]), m.Y(at[j]));
}

static std::string text(const VisGraph &g) {
	char *buf; size_t n;
	FILE *f = open_memstream(&buf, &n);
	g.output(f);
	fclose(f);
	std::string s(buf, n);
	free(buf);
	return s;
}

PROP(polymap_queries, 12000, 60000, "at least two polygons, or a bound") {
	bool large = c.chance(1, 60);
	Model m = gen(c, large);
	if (!large && c.flip()) finer(m);
	c.desc("%s", m.text().c_str());
	PolyMap p = open(m);
	unchanged(c, m, p, "the map");
	{	// written and read back
		char *buf; size_t n;
		FILE *f = open_memstream(&buf, &n);
		p.output(f);
		fclose(f);
		std::string s(buf, n);
		free(buf);
		TextFile t(s);
		PolyMap q(t.f);
		unchanged(c, m, q, "the map read back");
	}
	P lo = m.lo(), hi = m.hi();
	std::vector<P> fr;
	L step = large ? 1 + (hi.x - lo.x) / 25 : 1;
	if (large) c.label("large");
	for (L x = lo.x - 1; x <= hi.x + 1; x += step)
		for (L y = lo.y - 1; y <= hi.y + 1; y += step) {
			int f = m.free(P{ x, y });
			if (f == 0) continue;
			if (f > 0) fr.push_back(P{ x, y });
			CHECK(p.obstructed(m.pt(P{ x, y })) == (f < 0), "%g,%g is %s, but obstructed says otherwise", m.X(P{ x, y }), m.Y(P{ x, y }), f < 0 ? "within an obstacle" : "free");
		}
	for (int i = 0; i < 60 && fr.size() > 1; i++) {
		P a = fr[c.draw(fr.size())], b = fr[c.draw(fr.size())];
		if (a == b) continue;
		int s = m.sees(a, b);
		bool v = p.isvisible(m.pt(a), m.pt(b));
		CHECK(s == 0 || v == (s > 0), "%g,%g and %g,%g are %s from each other, isvisible says otherwise", m.X(a), m.Y(a), m.X(b), m.Y(b), s > 0 ? "visible" : "hidden");
	}
	// Scaled and moved.
	static const double f[] = { 1, 2, 0.5, 7 };
	double sx = f[c.draw(4)], sy = f[c.draw(4)], dx = c.range(0, 10) - 5, dy = c.range(0, 10) - 5;
	p.scale(sx, sy);
	p.translate(dx, dy);
	geom2d::Pt a = p.min(), b = p.max();
	CHECK(near(a.x, sx * m.X(lo) + dx, 1e-9) && near(a.y, sy * m.Y(lo) + dy, 1e-9) && near(b.x, sx * m.X(hi) + dx, 1e-9) && near(b.y, sy * m.Y(hi) + dy, 1e-9),
		"scaled by %g,%g and moved by %g,%g the map reaches from %g,%g to %g,%g", sx, sy, dx, dy, a.x, a.y, b.x, b.y);
	for (int i = 0; i < 20 && fr.size() > 1; i++) {
		P q = fr[c.draw(fr.size())], r = fr[c.draw(fr.size())];
		geom2d::Pt qq(sx * m.X(q) + dx, sy * m.Y(q) + dy), rr(sx * m.X(r) + dx, sy * m.Y(r) + dy);
		CHECK(!p.obstructed(qq), "scaled and moved, %g,%g is no longer free", qq.x, qq.y);
		if (q == r) continue;
		int s = m.sees(q, r);
		CHECK(s == 0 || p.isvisible(qq, rr) == (s > 0), "scaled and moved, what %g,%g and %g,%g see of each other changes", m.X(q), m.Y(q), m.X(r), m.Y(r));
	}
	if (m.polys.size() >= 2 || !m.bound.empty()) c.nontrivial();
	if (!m.bound.empty()) c.label("bounded");
	if (!m.pinch.empty()) c.label("corners touch");
}

PROP(bitmaps, 12000, 80000, "at least one obstacle apart from the border") {
	Bits b = genbits(c, c.chance(1, 50) ? 60 : 14);
	c.desc("%s", b.show().c_str());
	PolyMap p = polymap(b);
	modelof(c, b, p);
	L area = 0;
	for (int x = 0; x < b.w; x++)
		for (int y = 0; y < b.h; y++)
			for (int i = 0; i < 5; i++) {
				static const double o[5][2] = { { .5, .5 }, { .125, .25 }, { .875, .375 }, { .25, .875 }, { .75, .625 } };
				CHECK(p.obstructed(geom2d::Pt(x + o[i][0], y + o[i][1])) == (bool) b.at(x, y), "the cell %d,%d is %s, the map says otherwise at %g,%g", x, y, b.at(x, y) ? "blocked" : "free", x + o[i][0], y + o[i][1]);
			}
	for (char v : b.b) area += !v;
	L got = ref::area2(ringof(c, *p.bound));
	for (auto &q : p.polys) got += ref::area2(ringof(c, q));
	CHECK(got == 2 * area, "the polygons leave an area of %g, %lld cells are free", got / 2.0, area);
	if (p.polys.size() >= 1) c.nontrivial();
	// The same by the program, with comments.
	if (c.chance(1, 12)) {
		std::string s = "P1\n";
		if (c.flip()) s += "# a comment\n";
		s += strf("%d %d\n", b.w, b.h);
		if (c.flip()) s += "# 1 0\n#\n";
		bool sp = c.flip();
		for (int y = 0; y < b.h; y++) { for (int x = 0; x < b.w; x++) { s += b.at(x, y) ? '1' : '0'; if (sp && x < b.w - 1) s += ' '; } s += '\n'; if (c.chance(1, 8)) s += "# 1\n"; }
		prog::Out o = prog::run("prog_pbm2poly", {}, s);
		CHECK(o.ok(), "pbm2poly ends with %d: %s", o.status, o.err.c_str());
		char *buf; size_t n;
		FILE *f = open_memstream(&buf, &n);
		p.output(f);
		fclose(f);
		std::string want(buf, n);
		free(buf);
		CHECK(o.out == want, "pbm2poly writes\n%snot\n%s", o.out.c_str(), want.c_str());
	}
}

PROP(routes, 15000, 120000, "a route that turns at least once") {
	bool large = c.chance(1, 200);
	if (large) c.label("large");
	Model m = gen(c, large);
	if (!large && !m.bound.empty() && c.flip()) finer(m);
	P s, g;
	if (!genfree(c, m, s) || !genfree(c, m, g)) c.discard();
	if (s == g) c.discard();
	c.desc("%s%g,%g to %g,%g\n", m.text().c_str(), m.X(s), m.Y(s), m.X(g), m.Y(g));
	VisGraph v(open(m));
	graph(c, m, v, { });
	std::string t = text(v);
	TextFile f(t);
	VisGraph w(f.f);
	graph(c, m, w, { }, 1e-5);
	CHECK(text(w) == t, "read back and written again the graph differs:\n%s\n%s", t.c_str(), text(w).c_str());
	bool back = c.flip();
	VisNav d(back ? w : v, m.X(s), m.Y(s), m.X(g), m.Y(g));
	VisGraph &u = back ? w : v;
	u.add(m.pt(s));
	u.add(m.pt(g));
	graph(c, m, u, { s, g }, 1e-5);
	double best = route(m, s, g);
	const char *argv[] = { "visnav", "astar", nullptr };
	Astar<VisNav> a(2, argv);
	VisNav::State s0 = d.initialstate();
	a.search(d, s0);
	if (best == INFINITY) { CHECK(a.res.path.empty(), "a route where there is none"); c.label("no route"); return; }
	CHECK(!a.res.path.empty(), "no route, one of length %g exists", best);
	double len = 0;
	unsigned cur = u.verts.size() - 2;
	for (size_t i = a.res.ops.size(); i-- > 0; ) {
		const VisGraph::Edge *e = a.res.ops[i].edge;
		CHECK(e && e->src == cur, "the route continues at %u, not %u", e ? e->src : 0, cur);
		cur = e->dst;
		len += geom2d::Pt::distance(u.verts[e->src].pt, u.verts[e->dst].pt);
	}
	CHECK(cur == u.verts.size() - 1, "the route ends at %u", cur);
	CHECK(near(len, best, back ? 1e-4 : 1e-8), "the route has length %.17g, the shortest %.17g", len, best);
	CHECK(near(d.pathcost(a.res.path, a.res.ops), len, 1e-4), "the domain says the route of length %g costs %g", len, d.pathcost(a.res.path, a.res.ops));
	if (a.res.ops.size() > 1) c.nontrivial();
	if (!m.bound.empty()) c.label("bounded");
	if (!m.pinch.empty()) c.label("corners touch");
}

PROP(scaling, 1500, 40000, "at least ten edges") {
	Model m = gen(c);
	static const double f[] = { 1, 2, 0.5, 7, 1.0 / 3 };
	double sx = f[c.draw(5)], sy = f[c.draw(5)], dx = c.range(0, 10) - 5, dy = c.range(0, 10) - 5;
	c.desc("%sscaled %g,%g and moved %g,%g\n", m.text().c_str(), sx, sy, dx, dy);
	VisGraph v(open(m)), o(v);
	v.scale(sx, sy);
	v.translate(dx, dy);
	unsigned edges = 0;
	CHECK(v.verts.size() == o.verts.size(), "vertices are lost");
	for (size_t i = 0; i < v.verts.size(); i++) {
		geom2d::Pt p(o.verts[i].pt.x * sx + dx, o.verts[i].pt.y * sy + dy);
		CHECK(near(v.verts[i].pt.x, p.x, 1e-9) && near(v.verts[i].pt.y, p.y, 1e-9), "vertex %zu is at %g,%g, not %g,%g", i, v.verts[i].pt.x, v.verts[i].pt.y, p.x, p.y);
		CHECK(v.verts[i].edges.size() == o.verts[i].edges.size(), "edges are lost");
		for (auto &e : v.verts[i].edges) {
			edges++;
			double x = v.verts[e.src].pt.x - v.verts[e.dst].pt.x, y = v.verts[e.src].pt.y - v.verts[e.dst].pt.y;
			CHECK(near(e.dist, std::sqrt(x * x + y * y), 1e-9), "an edge of length %g says %g", std::sqrt(x * x + y * y), e.dist);
		}
	}
	for (size_t k = 0; k < m.polys.size(); k++)
		for (size_t i = 0; i < m.polys[k].size(); i++) {
			const geom2d::Pt &q = v.map.polys[k].verts[i];
			CHECK(near(q.x, sx * m.X(m.polys[k][i]) + dx, 1e-9) && near(q.y, sy * m.Y(m.polys[k][i]) + dy, 1e-9), "corner %zu of polygon %zu is at %g,%g", i, k, q.x, q.y);
		}
	if (edges >= 10) c.nontrivial();
}

// The programs: a map becomes a graph, an instance and a route.
PROP(visnav_programs, 240, 2500, "a route that turns at least once") {
	Model m = gen(c);
	P s, g;
	if (!genfree(c, m, s) || !genfree(c, m, g) || s == g) c.discard();
	c.desc("%s%g,%g to %g,%g\n", m.text().c_str(), m.X(s), m.Y(s), m.X(g), m.Y(g));
	prog::Out o = prog::run("prog_mkgraph", {}, m.text());
	CHECK(o.ok(), "mkgraph ends with %d: %s", o.status, o.err.c_str());
	std::string want = text(VisGraph(open(m)));
	CHECK(o.out == want, "mkgraph writes\n%snot\n%s", o.out.c_str(), want.c_str());
	double best = route(m, s, g);
	prog::Out r = prog::run("prog_visnav_solver", { c.flip() ? "astar" : "wastar", "-wt", "1" }, o.out + strf("%.17g %.17g %.17g %.17g\n", m.X(s), m.Y(s), m.X(g), m.Y(g)));
	CHECK(r.ok(), "visnav_solver ends with %d: %s", r.status, r.err.c_str());
	double got = -1;
	sscanf(prog::value(r.out, "final sol cost").c_str(), "%lg", &got);
	if (best < INFINITY) CHECK(near(got, best, 1e-4), "the solver finds a route of length %g, the shortest has %.17g:\n%s", got, best, r.out.c_str());
	else CHECK(got == -1, "the solver finds a route where there is none");
	if (best < INFINITY && best > m.dist(s, g) * (1 + 1e-9)) c.nontrivial();
}

// A search that gives up leaves no route, and says so.
PROP(no_route, 30, 400, "always") {
	c.nontrivial();
	Model m;
	int k = 2 + (int) c.draw(6);
	m.polys.push_back(Ring{ P{ 0, 0 }, P{ 0, k }, P{ k, k }, P{ k, 0 } });
	std::vector<std::string> args = { c.flip() ? "astar" : "idastar", "-expd", "1" };
	c.desc("%s%s\n", m.text().c_str(), args[0].c_str());
	prog::Out r = prog::run("prog_visnav_solver", args, text(VisGraph(open(m))) + strf("%g %g %d %d\n", -1.0, k / 2.0, k + 1, k / 2 + 1));
	CHECK(r.clean() && r.ok(), "without a route visnav_solver ends with %d: %s", r.status, r.err.c_str());
	double v = 0;
	CHECK(sscanf(prog::value(r.out, "final sol cost").c_str(), "%lg", &v) == 1 && v == -1, "a route after one expansion:\n%s", r.out.c_str());
	CHECK(r.out.find("#end data file") != std::string::npos, "the output is cut short");
}

PROP(random_maps, 40, 1200, "at least three polygons") {
	int n = 1 + (int) c.size(0, 14), nv = 3 + (int) c.draw(6);
	double lo = 0.01 + 0.01 * c.draw(5), hi = lo + 0.01 * (1 + c.draw(4));
	if (c.chance(1, 5)) { n = (int) c.range(15, 60); lo = 0.01; hi = 0.05; }
	std::vector<std::string> args = { "-npolys", strf("%d", n), "-nverts", strf("%d", nv), "-minrad", strf("%g", lo), "-maxrad", strf("%g", hi) };
	bool file = c.flip();
	if (file) { args.push_back("-o"); args.push_back("map"); }
	pbt::clearscratch();
	prog::Out o = prog::run("prog_visnav_rand", args, "", 10);
	c.desc("%d polygons of up to %d corners, radius %g to %g%s", n, nv, lo, hi, file ? ", to a file" : "");
	CHECK(o.ok(), "rand ends with %d: %s", o.status, o.err.c_str());
	std::string t = file ? prog::slurp("map") : o.out;
	CHECK(!t.empty() && (!file || o.out.empty()), "the map is not where it should be");
	TextFile f(t);
	PolyMap p(f.f);
	CHECK((int) p.polys.size() == n, "%zu polygons, not %d", p.polys.size(), n);
	for (size_t i = 0; i < p.polys.size(); i++) {
		const geom2d::Bbox &b = p.polys[i].bbox;
		CHECK(b.min.x >= -1e-6 && b.min.y >= -1e-6 && b.max.x <= 1 + 1e-6 && b.max.y <= 1 + 1e-6, "polygon %zu lies outside of the unit square", i);
		CHECK(b.max.x - b.min.x <= 2 * hi + 1e-5 && b.max.y - b.min.y <= 2 * hi + 1e-5, "polygon %zu is too large", i);
		CHECK(p.polys[i].verts.size() >= 3 && (int) p.polys[i].verts.size() <= nv, "polygon %zu has %zu corners", i, p.polys[i].verts.size());
		for (size_t j = 0; j < i; j++) {
			const geom2d::Bbox &d = p.polys[j].bbox;
			CHECK(b.min.x >= d.max.x - 1e-5 || d.min.x >= b.max.x - 1e-5 || b.min.y >= d.max.y - 1e-5 || d.min.y >= b.max.y - 1e-5, "polygons %zu and %zu overlap", i, j);
		}
	}
	if (n >= 3) c.nontrivial();
	// An instance on it.
	prog::Out g = prog::run("prog_mkgraph", {}, t);
	CHECK(g.ok(), "mkgraph ends with %d: %s", g.status, g.err.c_str());
	prog::Out i = prog::run("prog_visnav_inst", {}, g.out);
	CHECK(i.ok(), "inst ends with %d: %s", i.status, i.err.c_str());
	CHECK(i.out.compare(0, g.out.size(), g.out) == 0, "inst writes another graph");
	double x0, y0, x1, y1;
	int k = 0;
	CHECK(sscanf(i.out.c_str() + g.out.size(), " %lg %lg %lg %lg %n", &x0, &y0, &x1, &y1, &k) == 4 && i.out.size() == g.out.size() + k, "inst writes no start and goal");
	CHECK(x0 >= 0 && x0 <= 1 && y0 >= 0 && y0 <= 1 && x1 >= 0 && x1 <= 1 && y1 >= 0 && y1 <= 1, "the start or goal lies outside of the unit square");
	// Printed to six digits they may fall on a boundary, but not well within.
	auto deep = [&](double x, double y) {
		for (double a : { -1e-5, 1e-5 }) for (double b : { -1e-5, 1e-5 }) if (!p.obstructed(geom2d::Pt(x + a, y + b))) return false;
		return true;
	};
	CHECK(!deep(x0, y0) && !deep(x1, y1), "the start or goal lies within an obstacle");
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_visnav, 480, 9000, "a route that turns at least once") {
	Model m = gen(c);
	P s, g;
	if (!genfree(c, m, s) || !genfree(c, m, g) || s == g) c.discard();
	c.desc("%s%g,%g to %g,%g\n", m.text().c_str(), m.X(s), m.Y(s), m.X(g), m.Y(g));
	VisGraph v(open(m));
	std::string text = ::text(v) + strf("%.17g %.17g %.17g %.17g\n", m.X(s), m.Y(s), m.X(g), m.Y(g));
	CliTraits t;
	t.unit = t.realtime = false;
	t.tol = 1e-4;
	if (c.chance(1, 8)) { clirefuse(c, "prog_visnav_solver", text, t); return; }
	t.h0 = m.dist(s, g);
	double best = route(m, s, g);
	CliRun r = clisolve(c, "prog_visnav_solver", text, best, t);
	const char *keys[] = { "x0", "y0", "x1", "y1" };
	double vals[] = { m.X(s), m.Y(s), m.X(g), m.Y(g) };
	for (int i = 0; i < 4; i++) CHECK(near(number(c, r.o.out, keys[i]), vals[i], 1e-5), "%s is %s", keys[i], prog::value(r.o.out, keys[i]).c_str());
	if (best < INFINITY && best > m.dist(s, g) * (1 + 1e-9)) c.nontrivial();
}
#endif

#ifdef EPS
#include "pictures.hpp"

static bool nearby(const ps::Pt &a, const ps::Pt &b) { return std::fabs(a.x - b.x) < 0.02 && std::fabs(a.y - b.y) < 0.02; }

// A picture of 400 by 400 onto which the map is scaled.
struct Canvas {
	double x0 = INFINITY, y0 = INFINITY, s = 1;
	Canvas(const Model &m) {
		double x1 = -INFINITY, y1 = -INFINITY;
		auto see = [&](const P &p) {
			x0 = std::min(x0, m.X(p)); x1 = std::max(x1, m.X(p));
			y0 = std::min(y0, m.Y(p)); y1 = std::max(y1, m.Y(p));
		};
		for (auto &r : m.polys) for (auto &p : r) see(p);
		for (auto &p : m.bound) see(p);
		s = std::min(400 / (x1 - x0), 400 / (y1 - y0));
	}
	ps::Pt at(double x, double y) const { return { (x - x0) * s, (y - y0) * s }; }
};

// drawn checks the map and the graph; red lines are left in rest.
static void drawn(Case &c, const ps::Doc &d, const Model &m, const VisGraph &v, const Canvas &cv, const ps::Mat &base, bool labels, std::vector<ps::Mark> &rest) {
	std::vector<Ring> rings = m.polys;
	if (!m.bound.empty()) rings.push_back(m.bound);
	std::vector<bool> gotring(rings.size(), false), gotvert(v.verts.size(), false), gotlabel(v.verts.size(), false);
	auto nearest = [&](const ps::Pt &p) {
		size_t b = 0;
		double bd = INFINITY;
		for (size_t i = 0; i < v.verts.size(); i++) {
			ps::Pt q = cv.at(v.verts[i].pt.x, v.verts[i].pt.y);
			double dd = hypot(q.x - p.x, q.y - p.y);
			if (dd < bd) bd = dd, b = i;
		}
		CHECK(bd < 0.05, "there is no vertex at %g,%g", p.x, p.y);
		return b;
	};
	std::set<std::pair<unsigned, unsigned>> edges, lines;
	for (auto &x : v.verts) for (auto &e : x.edges) edges.insert(std::minmax(e.src, e.dst));
	for (auto &k : d.marks) {
		CHECK(samemat(k.ctm, base), "drawn with another transformation");
		if (k.kind == ps::Mark::Show) {
			CHECK(labels, "a label is drawn");
			size_t i = (size_t) atol(k.text.c_str());
			CHECK(i < v.verts.size() && k.text == strf("%zu", i) && !gotlabel[i], "a label says \"%s\"", k.text.c_str());
			ps::Pt q = cv.at(v.verts[i].pt.x, v.verts[i].pt.y);
			CHECK(hypot(k.at.x - q.x, k.at.y - q.y) < 10, "label %zu is at %g,%g and its vertex at %g,%g", i, k.at.x, k.at.y, q.x, q.y);
			gotlabel[i] = true;
		} else if (k.path.back().kind == ps::Seg::Close) {
			bool any = false;
			for (size_t r = 0; r < rings.size() && !any; r++) {
				size_t n = rings[r].size();
				if (gotring[r] || k.path.size() != n + 1) continue;
				for (int dir = 0; dir < 2 && !any; dir++) for (size_t off = 0; off < n && !any; off++) {
					bool same = true;
					for (size_t i = 0; i < n && same; i++) {
						const P &p = rings[r][dir ? (off + n - i) % n : (off + i) % n];
						same = nearby(k.path[i].p, cv.at(m.X(p), m.Y(p)));
					}
					if (same) { any = true; gotring[r] = true; }
				}
			}
			CHECK(any && k.kind == ps::Mark::Stroke, "a polygon of %zu corners from %g,%g is drawn", k.path.size() - 1, k.path[0].p.x, k.path[0].p.y);
		} else if (k.path.back().kind == ps::Seg::Arc) {
			gotvert[nearest(k.path.back().p)] = true;
		} else {
			CHECK(k.path.size() == 2 && k.path[1].kind == ps::Seg::Line, "a path of %zu parts", k.path.size());
			if (k.rgb[0] == 1 && k.rgb[1] == 0 && k.rgb[2] == 0) { rest.push_back(k); continue; }
			std::pair<unsigned, unsigned> e = std::minmax((unsigned) nearest(k.path[0].p), (unsigned) nearest(k.path[1].p));
			CHECK(edges.count(e), "a line is drawn from vertex %u to %u, where there is no edge", e.first, e.second);
			lines.insert(e);
		}
	}
	for (size_t i = 0; i < rings.size(); i++) CHECK(gotring[i], "polygon %zu is not drawn", i);
	CHECK(lines.size() == edges.size(), "%zu edges of %zu are drawn", lines.size(), edges.size());
	for (size_t i = 0; i < v.verts.size(); i++) CHECK(gotvert[i], "vertex %zu is not drawn", i);
	if (labels) for (size_t i = 0; i < v.verts.size(); i++) CHECK(gotlabel[i], "vertex %zu has no label", i);
}

// Vertices that are drawn at distinct places.
static bool spread(const VisGraph &v, const Canvas &cv) {
	for (size_t i = 0; i < v.verts.size(); i++)
		for (size_t j = 0; j < i; j++)
			if (hypot(v.verts[i].pt.x - v.verts[j].pt.x, v.verts[i].pt.y - v.verts[j].pt.y) * cv.s < 0.5) return false;
	return true;
}

PROP(eps_graph, 400, 4000, "at least ten edges") {
	Model m = gen(c);
	if (m.polys.empty() && m.bound.empty()) c.discard();
	VisGraph v(open(m));
	Canvas cv(m);
	if (!spread(v, cv)) c.discard();
	std::string text = ::text(v);
	bool echo = c.flip(), labels = c.flip(), file = c.flip();
	pbt::clearscratch();
	std::vector<std::string> args = { "-o", "graph.eps" };
	if (echo) args.insert(c.flip() ? args.begin() : args.end(), "-e");
	if (labels) args.insert(c.flip() ? args.begin() : args.end(), "-l");
	if (file) { prog::spew("in.graph", text); args.push_back("-i"); args.push_back("in.graph"); }
	c.desc("%s", m.text().c_str());
	for (auto &a : args) c.desc("%s ", a.c_str());
	prog::Out o = prog::run("prog_visnav_draw", args, file ? "" : text);
	CHECK(o.ok(), "draw ended with %d: %s", o.status, prog::shown(o.err).c_str());
	CHECK(o.out == (echo ? text : ""), "it prints\n%s", prog::shown(o.out).c_str());
	ps::Mat base;
	ps::Doc d = document(c, prog::slurp("graph.eps"), 400, 400, true, 36, base);
	std::vector<ps::Mark> red;
	drawn(c, d, m, v, cv, base, labels, red);
	CHECK(red.empty(), "red lines in the picture of a graph");
	if (labels) {
		auto ls = prog::lines(o.err);
		CHECK(ls.size() == v.verts.size(), "%zu locations are given for %zu vertices", ls.size(), v.verts.size());
		for (size_t i = 0; i < ls.size(); i++) {
			double x, y;
			unsigned id;
			CHECK(sscanf(ls[i].c_str(), "%u: %lg, %lg", &id, &x, &y) == 3 && id == i && near(x, v.verts[i].pt.x, 1e-4) && near(y, v.verts[i].pt.y, 1e-4), "location %zu is given as %s", i, ls[i].c_str());
		}
	}
	size_t n = 0;
	for (auto &x : v.verts) n += x.edges.size();
	if (n >= 20) c.nontrivial();
}

PROP(eps_route, 400, 4000, "a route that turns at least once") {
	Model m = gen(c);
	P s, g;
	if (m.polys.empty() && m.bound.empty()) c.discard();
	if (!genfree(c, m, s) || !genfree(c, m, g) || s == g) c.discard();
	c.desc("%s%g,%g to %g,%g\n", m.text().c_str(), m.X(s), m.Y(s), m.X(g), m.Y(g));
	VisGraph v(open(m));
	Canvas cv(m);
	std::string text = ::text(v) + strf("%.17g %.17g %.17g %.17g\n", m.X(s), m.Y(s), m.X(g), m.Y(g));
	pbt::clearscratch();
	prog::Out o = prog::run("prog_visnav_solver", { "astar" }, text);
	CHECK(o.ok(), "the solver ended with %d: %s", o.status, prog::shown(o.err).c_str());
	ps::Mat base;
	ps::Doc d = document(c, prog::slurp("path.eps"), 400, 400, true, 36, base);
	double cost = atof(prog::value(o.out, "final sol cost").c_str());
	VisGraph w(open(m));
	w.add(m.pt(s));
	w.add(m.pt(g));
	std::vector<ps::Mark> red;
	if (spread(w, cv)) drawn(c, d, m, w, cv, base, false, red);
	else for (auto &k : d.marks) if (k.rgb[0] == 1 && k.rgb[1] == 0 && k.rgb[2] == 0) red.push_back(k);
	if (cost < 0) { CHECK(red.empty(), "a route is drawn where there is none"); return; }
	// One line from the start to the goal, or back, as long as the cost.
	CHECK(!red.empty(), "no route is drawn");
	ps::Pt a = cv.at(m.X(s), m.Y(s)), b = cv.at(m.X(g), m.Y(g));
	bool back = !nearby(red[0].path[0].p, a);
	if (back) std::swap(a, b);
	double len = 0;
	for (size_t i = 0; i < red.size(); i++) {
		const ps::Pt &p = red[i].path[0].p, &q = red[i].path[1].p;
		CHECK(nearby(p, i ? red[i - 1].path[1].p : a), "the route's part %zu begins at %g,%g", i, p.x, p.y);
		len += hypot(p.x - q.x, p.y - q.y);
	}
	CHECK(nearby(red.back().path[1].p, b), "the route ends at %g,%g", red.back().path[1].p.x, red.back().path[1].p.y);
	CHECK(std::fabs(len - cost * cv.s) < 0.1 + 1e-3 * len, "the route is %g long, its cost is %g", len / cv.s, cost);
	if (red.size() > 1) c.nontrivial();
}
#endif
