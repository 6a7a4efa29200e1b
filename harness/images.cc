// P36: pictures, read back by an interpreter of the language they are written in.
#include "pbt.hpp"
#include "pictures.hpp"
#include "genpoly.hpp"
#include "graphics/image.hpp"
#include "graphics/scene.hpp"
#include <functional>
#include <memory>
using namespace pbt;

static double real(Case &c, double lo, double hi) { return lo + (hi - lo) * c.real(); }
static double coord(Case &c) {
	switch (c.draw(4)) {
	case 0: return (double) c.range(0, 600);
	case 1: return real(c, -50, 700);
	case 2: return real(c, 0, 1) * pow(10, (double) c.range(0, 7)) * (c.flip() ? 1 : -1);
	default: return c.range(0, 4000) / 8.0;
	}
}
static Color color(Case &c, double rgb[3]) {
	for (int i = 0; i < 3; i++) rgb[i] = c.flip() ? (double) c.draw(256) / 255 : c.chance(1, 8) ? real(c, -1, 2) : real(c, 0, 1);
	Color k(rgb[0], rgb[1], rgb[2]);
	for (int i = 0; i < 3; i++) rgb[i] = std::min(1.0, std::max(0.0, rgb[i]));
	return k;
}
static std::string caption(Case &c) {
	std::string s;
	int n = (int) c.draw(12);
	for (int i = 0; i < n; i++) s.push_back(c.chance(1, 3) ? "()\\%/<>[]{}~"[c.draw(12)] : (char) (' ' + c.draw(95)));
	return s;
}

// What a component should paint.
struct Want {
	int kind;	// 0 line, 1 circle, 2 arc, 3 polygon, 4 text
	double rgb[3], width;
	std::vector<ps::Pt> pts;
	double r, t0, dt;
	std::string text, font;
	double size, align;
};

static Want genwant(Case &c, int kinds) {
	Want w;
	w.kind = (int) c.draw(kinds);
	static const double widths[] = { 1, 0.2, 3, 0.1, 12.5 };
	w.width = (w.kind == 1 || w.kind == 3) && c.chance(1, 3) ? -(double) c.draw(2) : widths[c.draw(5)];
	switch (w.kind) {
	case 0: w.pts = { { coord(c), coord(c) }, { coord(c), coord(c) } }; break;
	case 1: w.pts = { { coord(c), coord(c) } }; w.r = c.flip() ? (double) c.range(1, 40) : real(c, 0.1, 30); break;
	case 2:
		w.pts = { { coord(c), coord(c) } };
		w.r = c.flip() ? (double) c.range(1, 40) : real(c, 0.1, 30);
		w.t0 = c.flip() ? (double) c.range(0, 16) * M_PI / 8 : real(c, -4, 7);
		w.dt = c.flip() ? ((double) c.range(0, 31) - 16) * M_PI / 8 : real(c, -6.2, 6.2);
		break;
	case 3: {
		int n = (int) (c.chance(1, 12) ? c.range(9, 150) : c.range(3, 8));
		for (int i = 0; i < n; i++) w.pts.push_back({ coord(c), coord(c) });
		break;
	}
	default:
		w.pts = { { coord(c), coord(c) } };
		w.text = caption(c);
		w.font = c.flip() ? "Times-Roman" : "Helvetica";
		w.size = c.flip() ? 12 : real(c, 1, 40);
		w.align = c.draw(3) / 2.0;
	}
	return w;
}
static std::string told(const Want &w) {
	static const char *names[] = { "line", "circle", "arc", "polygon", "text" };
	std::string s = strf("%s width %g", names[w.kind], w.width);
	for (auto &p : w.pts) s += strf(" %g,%g", p.x, p.y);
	if (w.kind == 1 || w.kind == 2) s += strf(" r %g", w.r);
	if (w.kind == 2) s += strf(" from %g by %g", w.t0, w.dt);
	if (w.kind == 4) s += strf(" \"%s\" %s %g aligned %g", w.text.c_str(), w.font.c_str(), w.size, w.align);
	return s + strf(" color %g %g %g\n", w.rgb[0], w.rgb[1], w.rgb[2]);
}
static geom2d::Pt pt(const ps::Pt &p) { return geom2d::Pt(p.x, p.y); }
static geom2d::Poly poly(const Want &w) {
	std::vector<geom2d::Pt> v;
	for (auto &p : w.pts) v.push_back(pt(p));
	return geom2d::Poly(v);
}
static Image::Drawable *make(const Want &w, const Color &k) {
	switch (w.kind) {
	case 0: return new Image::Line(pt(w.pts[0]), pt(w.pts[1]), k, w.width);
	case 1: return new Image::Pt(pt(w.pts[0]), k, w.r, w.width);
	case 2: return new Image::Arc(geom2d::Arc(pt(w.pts[0]), w.r, w.t0, w.dt), k, w.width);
	case 3: return new Image::Poly(poly(w), k, w.width);
	}
	Image::Text *t = new Image::Text(w.text.c_str(), pt(w.pts[0]));
	t->sz = w.size;
	t->font = w.font;
	t->c = k;
	t->pos = w.align == 0 ? Image::Text::Left : w.align == 1 ? Image::Text::Right : Image::Text::Centered;
	return t;
}

static void compare(Case &c, const ps::Mark &m, const Want &w, const ps::Mat &base) {
	std::string t = told(w);
	const char *s = t.c_str();
	CHECK(samemat(m.ctm, base), "drawn with another transformation: %s", s);
	for (int i = 0; i < 3; i++) CHECK(nearly(m.rgb[i], w.rgb[i]), "the color is %g %g %g: %s", m.rgb[0], m.rgb[1], m.rgb[2], s);
	if (w.kind == 4) {
		CHECK(m.kind == ps::Mark::Show, "no text is shown: %s", s);
		CHECK(m.text == w.text, "the text is \"%s\": %s", m.text.c_str(), s);
		CHECK(m.font == w.font && nearly(m.size, w.size), "the font is %s at %g: %s", m.font.c_str(), m.size, s);
		CHECK(nearly(m.at, w.pts[0]) && nearly(m.align, w.align), "the text is at %g,%g aligned %g: %s", m.at.x, m.at.y, m.align, s);
		return;
	}
	bool fill = w.width <= 0;
	CHECK(m.kind == (fill ? ps::Mark::Fill : ps::Mark::Stroke), "it is %s: %s", m.kind == ps::Mark::Fill ? "filled" : "not filled", s);
	if (!fill) CHECK(nearly(m.width, w.width), "the line's width is %g: %s", m.width, s);
	if (w.kind == 0) {
		lineis(c, m, w.pts[0], w.pts[1]);
	} else if (w.kind == 3) {
		polyis(c, m, w.pts);
	} else {
		size_t n = m.path.size();
		CHECK(n >= 1 && m.path[n - 1].kind == ps::Seg::Arc, "the path does not end with an arc: %s", s);
		const ps::Seg &a = m.path[n - 1];
		CHECK(nearly(a.p, w.pts[0]) && nearly(a.r, w.r), "the arc is around %g,%g with %g: %s", a.p.x, a.p.y, a.r, s);
		double t0 = w.kind == 1 ? 0 : w.t0 * 180 / M_PI, dt = w.kind == 1 ? 360 : w.dt * 180 / M_PI;
		CHECK(std::fabs(std::fabs(a.a1 - a.a0) - std::fabs(dt)) < 0.01, "the arc sweeps %g degrees: %s", a.a1 - a.a0, s);
		if (w.kind == 2) {
			if (std::fabs(dt) > 0.01) CHECK((a.a1 > a.a0) == (dt > 0), "the arc runs the other way: %s", s);
			CHECK(std::fabs(std::remainder(a.a0 - t0, 360)) < 0.01, "the arc starts at %g: %s", a.a0, s);
		}
		// What comes before leads to the start of the arc only.
		ps::Pt from = { a.p.x + a.r * cos(a.a0 * M_PI / 180), a.p.y + a.r * sin(a.a0 * M_PI / 180) };
		double far = std::max(std::fabs(a.p.x), std::fabs(a.p.y)) + a.r;
		for (size_t i = 0; i + 1 < n; i++) {
			CHECK(m.path[i].kind == ps::Seg::Move || m.path[i].kind == ps::Seg::Line, "the path before the arc: %s", s);
			CHECK(std::fabs(m.path[i].p.x - from.x) <= 1e-5 * far + a.r * 1e-4 + 1e-4 && std::fabs(m.path[i].p.y - from.y) <= 1e-5 * far + a.r * 1e-4 + 1e-4, "a line leads from %g,%g to the arc's start: %s", m.path[i].p.x, m.path[i].p.y, s);
		}
	}
}

static std::string written(std::function<void(FILE*)> fn) {
	char *buf = NULL;
	size_t n = 0;
	FILE *f = open_memstream(&buf, &n);
	fn(f);
	fclose(f);
	std::string s(buf, n);
	free(buf);
	return s;
}

PROP(image_marks, 6000, 200000, "at least two components, or pixels of two colors") {
	unsigned w = (unsigned) c.range(1, 40), h = (unsigned) c.range(1, 40);
	if (c.chance(1, 4)) { w = (unsigned) c.range(1, 900); h = (unsigned) c.range(1, 900 * 8 / w + 1); }
	if (c.chance(1, 30)) { w = (unsigned) c.range(900, 9000); h = (unsigned) c.range(1, 2); if (c.flip()) std::swap(w, h); }
	std::string title = c.chance(1, 4) ? caption(c) : "a title";
	if (title.empty()) title = "<untitled>";
	std::unique_ptr<Image> img(c.chance(1, 4) ? new Image(w, h) : new Image(w, h, title.c_str()));
	if (img->title != title) { CHECK(img->title == "<untitled>", "the title is %s", img->title.c_str()); title = img->title; }
	std::string text = strf("%ux%u title \"%s\"\n", w, h, title.c_str());
	// Pixels: white unless they were set.
	std::vector<double> want((size_t) w * h * 3, 1.0);
	bool pixels = c.flip();
	std::set<std::vector<double>> shades;
	if (pixels) {
		int n = (int) c.range(1, 30);
		for (int i = 0; i < n; i++) {
			double rgb[3];
			Color k = color(c, rgb);
			shades.insert(std::vector<double>(rgb, rgb + 3));
			// A box of one color.
			unsigned x = (unsigned) c.draw(w), y = (unsigned) c.draw(h);
			unsigned bw = c.flip() ? 1 : (unsigned) c.range(1, w - x), bh = c.flip() ? 1 : (unsigned) c.range(1, h - y);
			text += strf("box %u,%u %ux%u of %g %g %g\n", x, y, bw, bh, rgb[0], rgb[1], rgb[2]);
			for (unsigned j = y; j < y + bh; j++) for (unsigned l = x; l < x + bw; l++) {
				img->setpixel(l, j, k);
				for (int b = 0; b < 3; b++) want[((size_t) j * w + l) * 3 + b] = rgb[b];
			}
		}
	}
	std::vector<Want> ws;
	int n = (int) c.draw(6);
	for (int i = 0; i < n; i++) {
		Want x = genwant(c, 5);
		Color k = color(c, x.rgb);
		ws.push_back(x);
		text += told(x);
		img->add(make(x, k));
	}
	bool letter = c.flip();
	int margin = c.chance(1, 3) ? -1 : (int) c.range(0, 80);
	text += strf("%s margin %d\n", letter ? "letter" : "plain", margin);
	c.desc("%s", text.c_str());
	if (ws.size() >= 2 || shades.size() >= 2) c.nontrivial();

	std::string eps = written([&](FILE *f) {
		if (margin < 0 && !letter) img->writeeps(f);
		else if (margin < 0) img->writeeps(f, true);
		else img->writeeps(f, letter, margin);
	});
	ps::Mat base;
	ps::Doc d = document(c, eps, w, h, letter, margin, base);
	CHECK(d.title == title, "the title is \"%s\"", d.title.c_str());
	size_t at = 0;
	if (pixels) {
		CHECK(!d.marks.empty() && d.marks[0].kind == ps::Mark::Img, "the pixels are not drawn first");
		std::vector<unsigned char> got = pixelsof(c, d.marks[0], w, h, base);
		for (size_t i = 0; i < got.size(); i++)
			CHECK(std::fabs(got[i] - 255 * want[i]) < 1, "pixel %zu,%zu component %zu is %d, not %g", i / 3 % w, i / 3 / w, i % 3, got[i], 255 * want[i]);
		at = 1;
	}
	CHECK(d.marks.size() == at + ws.size(), "%zu marks are painted, not %zu", d.marks.size(), at + ws.size());
	for (size_t i = 0; i < ws.size(); i++) compare(c, d.marks[at + i], ws[i], base);

	// The same again, and in a file.
	clearscratch();
	if (margin < 0 && !letter) img->saveeps("picture.eps");
	else img->saveeps("picture.eps", letter, margin);
	CHECK(prog::slurp("picture.eps") == eps, "the file differs from what is written otherwise");
	c.label(pixels ? "pixels" : "no pixels");
}

// A scene keeps its components when it is saved.
PROP(scene_save, 1500, 40000, "at least two components") {
	unsigned w = (unsigned) c.range(1, 800), h = (unsigned) c.range(1, 800);
	Scene sc(w, h);
	std::vector<Want> ws;
	std::string text = strf("%ux%u\n", w, h);
	int n = (int) c.draw(6);
	for (int i = 0; i < n; i++) {
		Want x = genwant(c, 4);
		Color k = color(c, x.rgb);
		if (x.kind == 2 && std::max(std::fabs(x.pts[0].x), std::fabs(x.pts[0].y)) > 1000) x.pts[0] = { 10, 20 };
		ws.push_back(x);
		text += told(x);
		switch (x.kind) {
		case 0: sc.add(new Scene::Line(geom2d::LineSg(pt(x.pts[0]), pt(x.pts[1])), k, x.width)); break;
		case 1: sc.add(new Scene::Pt(pt(x.pts[0]), k, x.r, x.width)); break;
		case 2: sc.add(new Scene::Arc(geom2d::Arc(pt(x.pts[0]), x.r, x.t0, x.dt), k, x.width)); break;
		default: sc.add(new Scene::Poly(poly(x), k, x.width));
		}
	}
	c.desc("%s", text.c_str());
	if (ws.size() >= 2) c.nontrivial();
	clearscratch();
	int times = (int) c.range(1, 2);
	for (int t = 0; t < times; t++) {
		sc.save("scene.eps");
		ps::Mat base;
		ps::Doc d = document(c, prog::slurp("scene.eps"), w, h, false, -1, base);
		CHECK(d.marks.size() == ws.size(), "%zu marks are painted, not %zu", d.marks.size(), ws.size());
		for (size_t i = 0; i < ws.size(); i++) compare(c, d.marks[i], ws[i], base);
	}
	sc.clear();
	CHECK(sc.comps.empty(), "a cleared scene has components");
}
