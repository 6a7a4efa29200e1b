// Generators of integer points and simple polygons.
#pragma once
#include "geomref.hpp"
#include "pbt.hpp"

static inline ref::P genpt(pbt::Case &c, int k) { ref::P p; p.x = c.range(0, 2 * k) - k; p.y = c.range(0, 2 * k) - k; return p; }

// A simple polygon, clockwise, corners within k of the origin; collinear vertices included.
static inline ref::Ring genring(pbt::Case &c, int k) {
	using namespace ref;
	Ring r;
	switch (c.draw(4)) {
	case 0: {	// any few points
		int n = (int) c.range(3, 6);
		for (int i = 0; i < n; i++) r.push_back(genpt(c, k));
		break;
	}
	case 1: {	// around a centre
		int n = (int) c.range(3, 14);
		for (int i = 0; i < n; i++) r.push_back(genpt(c, k));
		std::sort(r.begin(), r.end(), [](const P &a, const P &b) {
			double s = atan2(2 * a.y - 1, 2 * a.x - 1), t = atan2(2 * b.y - 1, 2 * b.x - 1);
			return s != t ? s < t : a < b; });
		r.erase(std::unique(r.begin(), r.end(), [](const P &a, const P &b) {
			return (2 * a.y - 1) * (2 * b.x - 1) == (2 * b.y - 1) * (2 * a.x - 1) && (2 * a.y - 1) * (2 * b.y - 1) > 0; }), r.end());
		break;
	}
	case 2: {	// columns of varying height, and perhaps depth
		int n = (int) c.range(1, 6), w = std::max(1, 2 * k / n);
		bool both = c.flip();
		Ring top, bot;
		for (int i = 0; i < n; i++) {
			int h = (int) c.range(1, k), d = both ? -(int) c.range(1, k) : 0;
			top.push_back(P{-k + i * w, h}); top.push_back(P{-k + (i + 1) * w, h});
			bot.push_back(P{-k + i * w, d}); bot.push_back(P{-k + (i + 1) * w, d});
		}
		r = top;
		r.insert(r.end(), bot.rbegin(), bot.rend());
		r.erase(std::unique(r.begin(), r.end()), r.end());
		if (r.size() > 1 && r.front() == r.back()) r.pop_back();
		if (c.flip()) for (auto &p : r) std::swap(p.x, p.y);
		break;
	}
	default: {	// a hull, with points added on its sides
		Ring p;
		int n = (int) c.range(3, 10);
		for (int i = 0; i < n; i++) p.push_back(genpt(c, k));
		p = hull(p);
		for (size_t i = 0; i < p.size(); i++) {
			const P &a = p[i], &b = p[(i + 1) % p.size()];
			r.push_back(a);
			if ((a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0 && c.flip()) r.push_back(P{(a.x + b.x) / 2, (a.y + b.y) / 2});
		}
	}
	}
	if (r.size() < 3 || !simple(r)) c.discard();
	if (area2(r) > 0) std::reverse(r.begin(), r.end());
	return r;
}
