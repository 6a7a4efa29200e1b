// P31: plane geometry, against exact arithmetic on integers.
#include "genpoly.hpp"
#include "utils/geom2d.hpp"
#include <functional>
#include <boost/cstdint.hpp>
#include "utils/utils.hpp"
#include <cstring>

using pbt::Case;
using pbt::strf;
using ref::Ring;
namespace g = geom2d;

static g::Pt pt(const ref::P &p) { return g::Pt((double) p.x, (double) p.y); }
static bool near(double a, double b, double tol = 1e-6) { return fabs(a - b) <= tol * (1 + fabs(b)); }
static double dist(const g::Pt &a, const g::Pt &b) { return hypot(a.x - b.x, a.y - b.y); }
// Distance of q to the segment ab.
static double off(const g::Pt &a, const g::Pt &b, const g::Pt &q) {
	double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
	double t = l == 0 ? 0 : ((q.x - a.x) * dx + (q.y - a.y) * dy) / l;
	t = std::min(1.0, std::max(0.0, t));
	return hypot(a.x + t * dx - q.x, a.y + t * dy - q.y);
}
static std::string show(const Ring &r) { std::string s; for (auto &p : r) s += strf(" (%lld,%lld)", p.x, p.y); return s; }
static int scale(Case &c) { static const int k[] = { 3, 8, 50 }; return k[c.draw(3)]; }

PROP(geom_segments, 120000, 3000000, "segments that meet, or lie on one line") {
	int k = scale(c);
	ref::P a = genpt(c, k), b = genpt(c, k), p = genpt(c, k), q = genpt(c, k);
	if (c.chance(1, 4)) {	// on one line
		ref::P d = genpt(c, 3);
		long s = c.range(-4, 4), t = c.range(-4, 4), u = c.range(-4, 4);
		b = ref::P{a.x + s * d.x, a.y + s * d.y};
		p = ref::P{a.x + t * d.x, a.y + t * d.y};
		q = ref::P{a.x + u * d.x, a.y + u * d.y};
		if (c.chance(1, 6)) { p.x++; q.x++; }
	} else if (c.chance(1, 6)) p = a;
	c.desc("(%lld,%lld)-(%lld,%lld) and (%lld,%lld)-(%lld,%lld)", a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y);
	bool want = ref::meet(a, b, p, q);
	bool oneline = ref::cross(a, b, p) == 0 && ref::cross(a, b, q) == 0;
	if (want || oneline) c.nontrivial();
	if (oneline && want) c.label("meeting on one line");
	g::LineSg l(pt(a), pt(b)), m(pt(p), pt(q));
	CHECK(l.hits(m) == want, "the segments %s, but hits says otherwise", want ? "meet" : "do not meet");
	CHECK(m.hits(l) == want, "the segments %s, but hits says otherwise the other way around", want ? "meet" : "do not meet");
	for (int i = 0; i < 2; i++) {
		g::Pt is = i ? m.isect(l) : l.isect(m);
		CHECK(is.isinf() != want, "the segments %s, but isect gives (%g, %g)", want ? "meet" : "do not meet", is.x, is.y);
		if (want) CHECK(off(pt(a), pt(b), is) < 1e-6 && off(pt(p), pt(q), is) < 1e-6, "isect gives (%g, %g), which is not on both", is.x, is.y);
	}
	CHECK(near(l.length(), hypot(b.x - a.x, b.y - a.y)), "length %g", l.length());
	CHECK(l.midpt().x * 2 == a.x + b.x && l.midpt().y * 2 == a.y + b.y, "midpoint (%g, %g)", l.midpt().x, l.midpt().y);
	CHECK(l.isvertical() == (a.x == b.x), "isvertical is wrong");
	if (!(a == b)) {
		double d = c.range(-40, 200) / 8.0, len = hypot(b.x - a.x, b.y - a.y);
		g::Pt al = l.along(d);
		CHECK(near(al.x, a.x + d * (b.x - a.x) / len) && near(al.y, a.y + d * (b.y - a.y) / len), "along %g is (%g, %g)", d, al.x, al.y);
	}

	// The lines through them.
	if (a == b || p == q) return;
	g::Line ll(pt(a), pt(b)), ml(pt(p), pt(q));
	for (int i = 0; i < 2; i++) {
		g::Pt is = i ? ml.isect(ll) : ll.isect(ml);
		bool par = ref::parallel(a, b, p, q);
		CHECK(is.isinf() == par, "lines that are%s parallel: isect gives (%g, %g)", par ? "" : " not", is.x, is.y);
		if (!par) {
			auto w = ref::point(a, b, p, q);
			CHECK(near(is.x, w.first) && near(is.y, w.second), "lines: isect gives (%g, %g), not (%g, %g)", is.x, is.y, w.first, w.second);
		}
	}
	CHECK(ll.contains(pt(p)) == (ref::cross(a, b, p) == 0), "line: contains is wrong");
	if (a.x != b.x && ref::cross(a, b, p) != 0)
		CHECK(ll.isabove(pt(p)) == ((ref::cross(a, b, p) > 0) == (b.x > a.x)), "line: isabove is wrong");
	if (ref::cross(a, b, p) == 0) CHECK(l.within(pt(p)) == ref::on(a, b, p), "within is wrong");
}

PROP(geom_boxes, 60000, 1200000, "boxes that meet") {
	int k = scale(c);
	ref::P a = genpt(c, k), b = genpt(c, k), p = genpt(c, k), q = genpt(c, k), z = genpt(c, k);
	c.desc("(%lld,%lld)-(%lld,%lld) and (%lld,%lld)-(%lld,%lld)", a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y);
	ref::L x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
	ref::L u0 = std::min(p.x, q.x), u1 = std::max(p.x, q.x), v0 = std::min(p.y, q.y), v1 = std::max(p.y, q.y);
	g::Bbox s = c.flip() ? g::Bbox(pt(a), pt(b)) : g::Bbox((double) a.x, (double) a.y, (double) b.x, (double) b.y), t(pt(p), pt(q));
	CHECK(s.min.x == x0 && s.max.x == x1 && s.min.y == y0 && s.max.y == y1, "the box is (%g,%g)-(%g,%g)", s.min.x, s.min.y, s.max.x, s.max.y);
	bool want = std::max(x0, u0) <= std::min(x1, u1) && std::max(y0, v0) <= std::min(y1, v1);
	if (want) c.nontrivial();
	CHECK(s.hits(t) == want && t.hits(s) == want, "the boxes %s", want ? "meet" : "do not meet");
	bool in = x0 <= z.x && z.x <= x1 && y0 <= z.y && z.y <= y1;
	CHECK(s.contains(pt(z)) == in, "(%lld,%lld) is %s", z.x, z.y, in ? "inside" : "outside");
	CHECK(s.center().x * 2 == x0 + x1 && s.center().y * 2 == y0 + y1, "the centre is (%g, %g)", s.center().x, s.center().y);
	CHECK((s == t) == (x0 == u0 && x1 == u1 && y0 == v0 && y1 == v1), "== is wrong");
	g::Bbox mv(s);
	mv.translate((double) z.x, (double) z.y);
	CHECK(mv.min.x == x0 + z.x && mv.max.x == x1 + z.x && mv.min.y == y0 + z.y && mv.max.y == y1 + z.y, "translated to (%g,%g)-(%g,%g)", mv.min.x, mv.min.y, mv.max.x, mv.max.y);
	std::vector<g::Pt> v = { pt(a), pt(b), pt(p), pt(q) };
	g::Bbox all(v);
	CHECK(all.min.x == std::min(x0, u0) && all.max.x == std::max(x1, u1) && all.min.y == std::min(y0, v0) && all.max.y == std::max(y1, v1),
		"the box of the points is (%g,%g)-(%g,%g)", all.min.x, all.min.y, all.max.x, all.max.y);
}

PROP(geom_points, 60000, 1200000, "three different points") {
	int k = scale(c);
	ref::P a = genpt(c, k), b = genpt(c, k), d = genpt(c, k);
	c.desc("(%lld,%lld) (%lld,%lld) (%lld,%lld)", a.x, a.y, b.x, b.y, d.x, d.y);
	if (!(a == b) && !(b == d) && !(a == d)) c.nontrivial();
	g::Pt p = pt(a), q = pt(b);
	CHECK(near(g::Pt::distance(p, q), hypot(b.x - a.x, b.y - a.y)), "distance");
	CHECK(g::Pt::dot(p, q) == (double) (a.x * b.x + a.y * b.y), "dot product");
	g::Pt m = g::Pt::sub(p, q);
	CHECK(m.x == a.x - b.x && m.y == a.y - b.y, "difference");
	CHECK((p == q) == (a == b) && (p != q) == !(a == b), "equality");
	if (a.x || a.y) {
		double t = g::Pt::angle(p), r = hypot(a.x, a.y);
		CHECK(t >= 0 && t <= 2 * M_PI && near(r * cos(t), a.x) && near(r * sin(t), a.y), "angle %g", t);
	}
	double th = (c.real() * 2 - 1) * 7;
	g::Pt rot(p);
	rot.rotate(th);
	CHECK(near(rot.x, a.x * cos(th) - a.y * sin(th)) && near(rot.y, a.x * sin(th) + a.y * cos(th)), "rotated by %g: (%g, %g)", th, rot.x, rot.y);
	g::Pt sc(p);
	sc.scale(2, -3);
	sc.translate((double) b.x, (double) b.y);
	CHECK(sc.x == 2 * a.x + b.x && sc.y == -3 * a.y + b.y, "scaled and translated to (%g, %g)", sc.x, sc.y);
	if (!(a == b) && !(b == d)) {
		// clockwise turn from a-b to b-d
		double got = g::Pt::cwangle(p, q, pt(d));
		double cr = (double) ref::cross(a, b, d), dt = (double) ((b.x - a.x) * (d.x - b.x) + (b.y - a.y) * (d.y - b.y));
		double n = hypot(cr, dt);
		CHECK(fabs(got) <= M_PI + 1e-9 && near(n * sin(-got), cr) && near(n * cos(got), dt), "turn %g", got);
	}
}

PROP(geom_polygons, 48000, 900000, "at least five corners, or a corner inside a side") {
	int k = scale(c);
	Ring r = genring(c, k), cs = corners(r);
	c.desc("%s", show(r).c_str());
	if (cs.size() >= 5 || cs.size() < r.size()) c.nontrivial();
	if (cs.size() < r.size()) c.label("corner inside a side");
	std::vector<g::Pt> vs;
	for (auto &p : r) vs.push_back(pt(p));
	g::Poly poly(vs);
	CHECK(poly.verts.size() == cs.size(), "%zu corners, not %zu", poly.verts.size(), cs.size());
	for (size_t i = 0; i < cs.size(); i++) {
		CHECK(poly.verts[i] == pt(cs[i]), "corner %zu is (%g, %g)", i, poly.verts[i].x, poly.verts[i].y);
		const ref::P &u = cs[(i + cs.size() - 1) % cs.size()], &w = cs[(i + 1) % cs.size()];
		CHECK(poly.isreflex((unsigned) i) == (ref::cross(u, cs[i], w) < 0), "isreflex is wrong for corner %zu", i);
		bool found = false;
		for (auto &s : poly.sides) found |= s.p0 == pt(cs[i]) && s.p1 == pt(w);
		CHECK(found, "no side leaves corner %zu", i);
	}
	CHECK(poly.sides.size() == cs.size(), "%zu sides", poly.sides.size());
	ref::L x0 = 1000, x1 = -1000, y0 = 1000, y1 = -1000;
	for (auto &p : r) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
	CHECK(poly.bbox.min.x == x0 && poly.bbox.max.x == x1 && poly.bbox.min.y == y0 && poly.bbox.max.y == y1, "the box is wrong");

	// Points, those level with corners included; twice the scale, to have some between.
	Ring r2;
	for (auto &p : r) r2.push_back(ref::P{2 * p.x, 2 * p.y});
	for (int i = 0; i < 12; i++) {
		ref::P p = genpt(c, 2 * k + 1);
		if (c.flip()) p.y = r2[c.draw(r2.size())].y;
		if (c.chance(1, 6)) p.x = r2[c.draw(r2.size())].x;
		int s = ref::side(r2, p);
		if (s == 0) continue;
		g::Pt q(p.x / 2.0, p.y / 2.0);
		CHECK(poly.contains(q) == (s > 0), "(%g, %g) is %s", q.x, q.y, s > 0 ? "inside" : "outside");
		c.label(s > 0 ? "points inside" : "points outside");
	}

	// Segments.
	for (int i = 0; i < 6; i++) {
		ref::P a = genpt(c, k + 2), b = genpt(c, k + 2);
		if (c.chance(1, 4)) a = r[c.draw(r.size())];
		if (a == b) continue;
		g::LineSg l(pt(a), pt(b));
		size_t n = 0;
		bool along = false;
		double best = INFINITY;
		for (size_t j = 0; j < cs.size(); j++) {
			const ref::P &u = cs[j], &w = cs[(j + 1) % cs.size()];
			if (!ref::meet(a, b, u, w)) continue;
			n++;
			if (ref::parallel(a, b, u, w)) { along = true; continue; }
			auto x = ref::point(a, b, u, w);
			best = std::min(best, hypot(x.first - a.x, x.second - a.y));
		}
		CHECK(poly.hits(l) == (n > 0), "(%lld,%lld)-(%lld,%lld) meets %zu sides, hits says %d", a.x, a.y, b.x, b.y, n, poly.hits(l));
		std::vector<g::Pt> is = poly.isects(l);
		CHECK(is.size() == n, "(%lld,%lld)-(%lld,%lld) meets %zu sides, isects gives %zu", a.x, a.y, b.x, b.y, n, is.size());
		for (auto &x : is) {
			double d = INFINITY;
			for (auto &s : poly.sides) d = std::min(d, off(s.p0, s.p1, x));
			CHECK(d < 1e-6 && off(l.p0, l.p1, x) < 1e-6, "(%g, %g) is not on both", x.x, x.y);
		}
		g::Pt first = poly.minisect(l);
		CHECK(first.isinf() == (n == 0), "minisect gives (%g, %g)", first.x, first.y);
		if (n && !along) CHECK(near(dist(first, l.p0), best), "the first of %zu is at distance %g, not %g", n, dist(first, l.p0), best);
		c.label(n ? "segments that meet the polygon" : "segments that do not");
	}

	// Moved and scaled.
	ref::P t = genpt(c, 10);
	double sx = c.range(1, 4) / 2.0, sy = c.range(1, 4) / 2.0;
	g::Poly mv(poly);
	mv.translate((double) t.x, (double) t.y);
	mv.scale(sx, sy);
	CHECK(mv.sides.size() == cs.size(), "moving changes the number of sides");
	for (size_t i = 0; i < cs.size(); i++) {
		g::Pt w((cs[i].x + t.x) * sx, (cs[i].y + t.y) * sy);
		CHECK(mv.verts[i] == w, "moved corner %zu is (%g, %g)", i, mv.verts[i].x, mv.verts[i].y);
		bool found = false;
		for (auto &s : mv.sides) found |= s.p0 == w;
		CHECK(found, "no moved side starts at corner %zu", i);
	}
	CHECK(near(mv.bbox.min.x, (x0 + t.x) * sx) && near(mv.bbox.max.x, (x1 + t.x) * sx) && near(mv.bbox.min.y, (y0 + t.y) * sy)
		&& near(mv.bbox.max.y, (y1 + t.y) * sy), "the moved box is wrong");

	// Written and read.
	if (c.chance(1, 8)) {
		char buf[4096];
		FILE *f = fmemopen(buf, sizeof buf, "w+");
		mv.output(f);
		rewind(f);
		g::Poly rd(f);
		fclose(f);
		CHECK(rd.verts.size() == mv.verts.size() && rd.sides.size() == mv.sides.size() && rd.bbox == mv.bbox, "read back it has %zu corners", rd.verts.size());
		for (size_t i = 0; i < cs.size(); i++) CHECK(rd.verts[i] == mv.verts[i], "read back corner %zu is (%g, %g)", i, rd.verts[i].x, rd.verts[i].y);
		c.label("read back");
	}
}

static bool inarc(double t0, double dt, double t, double slack) {
	double lo = std::min(t0, t0 + dt) - slack, hi = std::max(t0, t0 + dt) + slack;
	for (int k = -4; k <= 4; k++) if (t + 2 * M_PI * k >= lo && t + 2 * M_PI * k <= hi) return true;
	return false;
}

PROP(geom_arcs, 120000, 3000000, "a segment that meets the circle") {
	int k = (int) c.range(3, 12);
	ref::P cc = genpt(c, k), a = genpt(c, 2 * k), b = genpt(c, 2 * k);
	double r = c.range(1, 40) / 4.0;
	int n = 4 * (int) c.range(1, 12);
	double t0, dt;
	bool grid = c.flip();
	if (grid) {	// as in the segments domain
		t0 = 2 * M_PI / n * (double) c.draw(n) + (c.flip() ? M_PI : 0);
		dt = 2 * M_PI / n * (c.flip() ? 1 : -1) * (double) c.range(1, 3);
	} else { t0 = c.real() * 4 * M_PI - M_PI; dt = (c.real() * 4 - 2) * M_PI; }
	if (fabs(dt) >= 2 * M_PI - 1e-3) dt *= 0.9;
	if (a == b) c.discard();
	c.desc("centre (%lld,%lld) radius %g from %.17g by %.17g, segment (%lld,%lld)-(%lld,%lld)", cc.x, cc.y, r, t0, dt, a.x, a.y, b.x, b.y);
	g::Arc arc(pt(cc), r, t0, dt);
	g::LineSg l(pt(a), pt(b));
	g::Pt st = arc.start(), en = arc.end();
	CHECK(near(st.x, cc.x + r * cos(t0)) && near(st.y, cc.y + r * sin(t0)), "it starts at (%g, %g)", st.x, st.y);
	CHECK(near(en.x, cc.x + r * cos(t0 + dt)) && near(en.y, cc.y + r * sin(t0 + dt)), "it ends at (%g, %g)", en.x, en.y);

	// Where the line meets the circle: solve |a + u (b - a) - c|^2 = r^2.
	double dx = b.x - a.x, dy = b.y - a.y, fx = a.x - cc.x, fy = a.y - cc.y;
	double A = dx * dx + dy * dy, B = fx * dx + fy * dy, C = fx * fx + fy * fy - r * r, D = B * B - A * C;
	std::vector<g::Pt> sure, maybe;
	const double M = 1e-6;
	if (D > -M) {
		double sq = sqrt(std::max(0.0, D));
		for (int s = -1; s <= 1; s += 2) {
			double u = (-B + s * sq) / A;
			g::Pt x(a.x + u * dx, a.y + u * dy);
			double t = atan2(x.y - cc.y, x.x - cc.x);
			double um = M / sqrt(A);
			if (u < -um || u > 1 + um || !inarc(t0, dt, t, M)) continue;
			maybe.push_back(x);
			if (D > M && u > um && u < 1 - um && inarc(t0, dt, t, -M)) sure.push_back(x);
		}
	}
	if (D > 0 && !maybe.empty()) c.nontrivial();
	g::Pt is[2];
	unsigned cnt = arc.isects(l, is);
	CHECK(cnt <= 2, "%u intersections", cnt);
	for (unsigned i = 0; i < cnt; i++) {
		double d = INFINITY;
		for (auto &m : maybe) d = std::min(d, dist(m, is[i]));
		CHECK(d < 1e-3 && (D < M * 100 || d < 1e-5), "(%g, %g) is not on both", is[i].x, is[i].y);
	}
	for (auto &m : sure) {
		double d = INFINITY;
		for (unsigned i = 0; i < cnt; i++) d = std::min(d, dist(m, is[i]));
		CHECK(d < 1e-5, "the intersection (%g, %g) is missing", m.x, m.y);
	}
	CHECK(arc.hits(l) == (cnt > 0), "hits disagrees with isects");
	c.label(sure.empty() ? "no sure intersection" : "sure intersections");

	// Moved and turned about its start.
	double th = (c.real() * 2 - 1) * 3;
	g::Arc mv(arc);
	mv.translate(3, -4);
	CHECK(near(mv.start().x, st.x + 3) && near(mv.end().y, en.y - 4), "translated wrongly");
	mv.rotate(th);
	CHECK(near(mv.start().x, st.x + 3) && near(mv.start().y, st.y - 4), "turning moves its start to (%g, %g)", mv.start().x, mv.start().y);
	double ex = en.x - st.x, ey = en.y - st.y;
	CHECK(near(mv.end().x, st.x + 3 + ex * cos(th) - ey * sin(th)) && near(mv.end().y, st.y - 4 + ex * sin(th) + ey * cos(th)),
		"turned by %g it ends at (%g, %g)", th, mv.end().x, mv.end().y);
	CHECK(near(mv.bbox.min.x, mv.c.x - mv.r) && near(mv.bbox.max.y, mv.c.y + mv.r), "the moved box is wrong");
}

PROP(geom_quadratics, 60000, 1200000, "two roots") {
	long k = c.range(1, 9) * (c.flip() ? -1 : 1), r = c.range(-30, 30), s = c.range(-30, 30), up = c.flip() ? c.range(1, 50) : 0;
	// A power of two scales the roots, exactly.
	double u = c.chance(1, 3) ? std::ldexp(1, (int) c.range(-20, 20)) : 1;
	double z[2] = { NAN, NAN };
	if (up) {	// k ((x - r)^2 + up), without roots
		g::QuadEq q((double) k, (double) (-2 * k * r) * u, (double) (k * (r * r + up)) * u * u);
		CHECK(q.solutions(z) == 0 && q.discriminant() < 0, "roots where there are none");
		return;
	}
	c.desc("%ld (x - %g) (x - %g)", k, r * u, s * u);
	g::QuadEq q((double) k, (double) (-k * (r + s)) * u, (double) (k * r * s) * u * u);
	unsigned n = q.solutions(z);
	CHECK(n == (r == s ? 1u : 2u), "%u roots", n);
	if (n == 2) c.nontrivial();
	if (u != 1) c.label("scaled");
	if (n == 2 && z[0] > z[1]) std::swap(z[0], z[1]);
	CHECK(near(z[0] / u, std::min(r, s)) && near((n == 2 ? z[1] : z[0]) / u, std::max(r, s)), "roots %g and %g", z[0], z[1]);
}

PROP(geom_hull, 24000, 480000, "points that are not all corners of the hull") {
	int k = scale(c), n = (int) c.range(3, 20);
	std::vector<g::Pt> v;
	Ring all;
	for (int i = 0; i < n; i++) {
		all.push_back(!all.empty() && c.chance(1, 10) ? all[c.draw(all.size())] : genpt(c, k));
		v.push_back(pt(all.back()));
	}
	c.desc("%s", show(all).c_str());
	Ring h = ref::hull(all);
	if (h.size() < 3) c.discard();
	if (h.size() < all.size()) c.nontrivial();
	g::Poly p = g::Poly::giftwrap(v);
	CHECK(p.verts.size() == h.size(), "the hull has %zu corners, not %zu", p.verts.size(), h.size());
	size_t at = 0;
	while (at < h.size() && !(p.verts[at] == pt(h[0]))) at++;
	CHECK(at < h.size(), "(%lld, %lld) is not a corner", h[0].x, h[0].y);
	for (size_t i = 0; i < h.size(); i++)
		CHECK(p.verts[(at + i) % h.size()] == pt(h[i]), "corner %zu after it is not (%lld, %lld)", i, h[i].x, h[i].y);
}

PROP(geom_random, 12000, 240000, "at least five points") {
	randgen = Rand(c.draw(UINT64_MAX));
	unsigned n = (unsigned) c.range(3, 20);
	double x = (double) c.range(-20, 20), y = (double) c.range(-20, 20), r = c.range(1, 40) / 4.0;
	if (n >= 5) c.nontrivial();
	g::Poly p = g::Poly::random(n, x, y, r);
	CHECK(p.verts.size() == n, "%zu corners, not %u", p.verts.size(), n);
	double area = 0;
	for (size_t i = 0; i < n; i++) {
		CHECK(fabs(p.verts[i].x - x) <= r && fabs(p.verts[i].y - y) <= r, "a corner is out of bounds");
		area += p.verts[i].x * p.verts[(i + 1) % n].y - p.verts[i].y * p.verts[(i + 1) % n].x;
		for (size_t j = i + 2; j < n; j++) {
			if (i == 0 && j == n - 1) continue;
			auto o = [&](const g::Pt &a, const g::Pt &b, const g::Pt &q) { return (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x); };
			const g::Pt &a = p.verts[i], &b = p.verts[i + 1], &s = p.verts[j], &t = p.verts[(j + 1) % n];
			CHECK(!(o(a, b, s) * o(a, b, t) < 0 && o(s, t, a) * o(s, t, b) < 0), "sides %zu and %zu cross", i, j);
		}
	}
	CHECK(area < 0, "it is not clockwise");
}
