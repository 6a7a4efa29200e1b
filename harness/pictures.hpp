// Checks of what a picture paints.
#pragma once
#include "pbt.hpp"
#include "prog.hpp"
#include "psread.hpp"
#include <algorithm>
#include <set>

// Numbers are written with six digits.
static inline bool nearly(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(1.0, std::fabs(b)); }
static inline bool nearly(const ps::Pt &a, const ps::Pt &b) { return nearly(a.x, b.x) && nearly(a.y, b.y); }
static inline bool samemat(const ps::Mat &a, const ps::Mat &b) {
	return nearly(a.a, b.a) && nearly(a.b, b.b) && nearly(a.c, b.c) && nearly(a.d, b.d) && nearly(a.e, b.e) && nearly(a.f, b.f);
}

// document reads a picture of the given size; base becomes the
// transformation of the picture to the page.
static inline ps::Doc document(pbt::Case &c, const std::string &eps, double w, double h, bool letter, int margin, ps::Mat &base) {
	ps::Doc d = ps::read(eps);
	CHECK(d.err.empty(), "the picture cannot be read: %s\n%s", d.err.c_str(), prog::shown(eps.substr(0, 3000)).c_str());
	if (margin < 0) margin = letter ? 36 : 0;
	base = ps::Mat();
	if (letter) {
		// As large as fits within the margins, and in the middle.
		double s = std::min((612.0 - 2 * margin) / w, (792.0 - 2 * margin) / h);
		base.a = base.d = s;
		base.e = (612 - w * s) / 2;
		base.f = (792 - h * s) / 2;
		CHECK(d.box[0] == 0 && d.box[1] == 0 && d.box[2] == 612 && d.box[3] == 792, "the box is %ld %ld %ld %ld", d.box[0], d.box[1], d.box[2], d.box[3]);
	} else {
		base.e = base.f = margin;
		CHECK(d.box[0] == 0 && d.box[1] == 0 && d.box[2] == (long) w + 2 * margin && d.box[3] == (long) h + 2 * margin, "the box is %ld %ld %ld %ld", d.box[0], d.box[1], d.box[2], d.box[3]);
	}
	return d;
}

// pixelsof gives the components of the pixels by rows, from the bottom.
static inline std::vector<unsigned char> pixelsof(pbt::Case &c, const ps::Mark &m, unsigned w, unsigned h, const ps::Mat &base) {
	CHECK(m.kind == ps::Mark::Img, "there is no image");
	CHECK(m.n == w && m.m == h, "the image has %u by %u pixels, not %u by %u", m.n, m.m, w, h);
	std::vector<unsigned char> v((size_t) w * h * 3);
	std::vector<bool> set((size_t) w * h, false);
	ps::Mat im, b;
	CHECK(m.im.inverse(im) && base.inverse(b), "the image is flattened");
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++) {
			ps::Pt u = im.at(x + 0.5, y + 0.5), p = m.ctm.at(u.x, u.y), q = b.at(p.x, p.y);
			double tol = 1e-4 * (std::max(w, h) + 1);
			CHECK(std::fabs(q.x - 0.5 - std::floor(q.x)) < tol && std::fabs(q.y - 0.5 - std::floor(q.y)) < tol && q.x > 0 && q.y > 0 && q.x < w && q.y < h, "pixel %u,%u is drawn at %g,%g", x, y, q.x, q.y);
			size_t to = (size_t) std::floor(q.y) * w + (size_t) std::floor(q.x);
			CHECK(!set[to], "two pixels are drawn at %g,%g", q.x, q.y);
			set[to] = true;
			for (int k = 0; k < 3; k++) v[to * 3 + k] = (unsigned char) m.bytes[((size_t) y * w + x) * 3 + k];
		}
	return v;
}

static inline void lineis(pbt::Case &c, const ps::Mark &m, const ps::Pt &a, const ps::Pt &b) {
	CHECK(m.path.size() == 2 && m.path[0].kind == ps::Seg::Move && m.path[1].kind == ps::Seg::Line, "the path is no line");
	const ps::Pt &p = m.path[0].p, &q = m.path[1].p;
	CHECK((nearly(p, a) && nearly(q, b)) || (nearly(p, b) && nearly(q, a)), "the line is from %g,%g to %g,%g, not %g,%g to %g,%g", p.x, p.y, q.x, q.y, a.x, a.y, b.x, b.y);
}

static inline void polyis(pbt::Case &c, const ps::Mark &m, const std::vector<ps::Pt> &pts) {
	CHECK(m.path.size() == pts.size() + 1 && m.path.back().kind == ps::Seg::Close, "the path has %zu parts for %zu corners", m.path.size(), pts.size());
	for (size_t i = 0; i < pts.size(); i++) {
		CHECK(m.path[i].kind == (i ? ps::Seg::Line : ps::Seg::Move), "part %zu of the path", i);
		CHECK(nearly(m.path[i].p, pts[i]), "corner %zu is %g,%g, not %g,%g", i, m.path[i].p.x, m.path[i].p.y, pts[i].x, pts[i].y);
	}
}
