// Exact plane geometry on integers, to compare with.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <set>
#include <utility>
#include <vector>

namespace ref {

typedef long long L;
struct P { L x, y; };
inline bool operator==(const P &a, const P &b) { return a.x == b.x && a.y == b.y; }
inline bool operator<(const P &a, const P &b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
typedef __int128 W;	// of products of scaled coordinates
inline W cross(const P &o, const P &a, const P &b) { return (W) (a.x - o.x) * (b.y - o.y) - (W) (a.y - o.y) * (b.x - o.x); }
inline W dot(const P &o, const P &a, const P &b) { return (W) (a.x - o.x) * (b.x - o.x) + (W) (a.y - o.y) * (b.y - o.y); }
inline int sgn(W v) { return (v > 0) - (v < 0); }

// Is p on the closed segment ab?
inline bool on(const P &a, const P &b, const P &p) {
	return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x)
		&& std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
// Do the closed segments meet?
inline bool meet(const P &a, const P &b, const P &c, const P &d) {
	if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return true;
	return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
inline bool parallel(const P &a, const P &b, const P &c, const P &d) {
	return (b.x - a.x) * (d.y - c.y) == (b.y - a.y) * (d.x - c.x);
}
// The point where the lines through ab and cd meet; they are not parallel.
inline std::pair<double, double> point(const P &a, const P &b, const P &c, const P &d) {
	L den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
	L num = (c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x);
	return std::make_pair(a.x + (double) (b.x - a.x) * num / den, a.y + (double) (b.y - a.y) * num / den);
}

typedef std::vector<P> Ring;

// 1 inside, 0 on the boundary, -1 outside.
inline int side(const Ring &r, const P &p) {
	bool in = false;
	for (size_t i = 0; i < r.size(); i++) {
		const P &a = r[i], &b = r[(i + 1) % r.size()];
		if (on(a, b, p)) return 0;
		if ((a.y > p.y) != (b.y > p.y)) {	// crosses the ray to the right?
			W s = cross(a, b, p);
			if ((b.y > a.y) == (s > 0)) in = !in;
		}
	}
	return in ? 1 : -1;
}
inline L area2(const Ring &r) {
	L s = 0;
	for (size_t i = 0; i < r.size(); i++) { const P &a = r[i], &b = r[(i + 1) % r.size()]; s += a.x * b.y - a.y * b.x; }
	return s;
}
// Sides meet only where neighbours share a corner, and no corner is a spike.
inline bool simple(const Ring &r) {
	size_t n = r.size();
	if (n < 3 || area2(r) == 0) return false;
	for (size_t i = 0; i < n; i++) {
		const P &a = r[i], &b = r[(i + 1) % n], &c = r[(i + 2) % n];
		if (a == b) return false;
		if (cross(a, b, c) == 0 && dot(b, a, c) > 0) return false;
		for (size_t j = i + 2; j < n; j++) {
			if (i == 0 && j == n - 1) continue;
			if (meet(a, b, r[j], r[(j + 1) % n])) return false;
		}
	}
	return true;
}
// The corners, without those in the middle of a side.
inline Ring corners(const Ring &r) {
	Ring o;
	size_t n = r.size();
	for (size_t i = 0; i < n; i++)
		if (cross(r[(i + n - 1) % n], r[i], r[(i + 1) % n]) != 0) o.push_back(r[i]);
	return o;
}
// The corners of the hull, clockwise, none in the middle of a side.
inline Ring hull(Ring p) {
	std::sort(p.begin(), p.end());
	p.erase(std::unique(p.begin(), p.end()), p.end());
	Ring h;
	for (int pass = 0; pass < 2; pass++) {
		size_t base = h.size();
		for (auto &q : p) {
			while (h.size() >= base + 2 && cross(h[h.size() - 2], h.back(), q) >= 0) h.pop_back();
			h.push_back(q);
		}
		h.pop_back();
		std::reverse(p.begin(), p.end());
	}
	return h;
}

}
