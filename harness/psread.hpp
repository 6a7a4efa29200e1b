// Reads the part of PostScript that the pictures of this repository use, and
// says what it paints.  Written from the language's definition.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace ps {

struct Pt { double x, y; };

// A transformation: x' = a*x + c*y + e, y' = b*x + d*y + f.
struct Mat {
	double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0;
	Pt at(double x, double y) const { return { a * x + c * y + e, b * x + d * y + f }; }
	// then gives m followed by this.
	Mat after(const Mat &m) const {
		Mat r;
		r.a = a * m.a + c * m.b; r.b = b * m.a + d * m.b;
		r.c = a * m.c + c * m.d; r.d = b * m.c + d * m.d;
		r.e = a * m.e + c * m.f + e; r.f = b * m.e + d * m.f + f;
		return r;
	}
	bool inverse(Mat &r) const {
		double det = a * d - b * c;
		if (std::fabs(det) < 1e-12) return false;
		r.a = d / det; r.b = -b / det; r.c = -c / det; r.d = a / det;
		r.e = -(r.a * e + r.c * f); r.f = -(r.b * e + r.d * f);
		return true;
	}
};

struct Seg {
	enum { Move, Line, Arc, Close } kind;
	Pt p;	// where it ends (Move, Line), or the center
	double r, a0, a1;	// in degrees; a1 < a0 if clockwise
};

struct Mark {
	enum { Fill, Stroke, Show, Img } kind;
	double rgb[3];
	double width;	// of lines
	std::vector<Seg> path;	// in user space
	Mat ctm;
	std::string text, font;
	double size;
	Pt at;	// the text's reference point
	double align;	// how much of the text's width lies left of it
	// Pixels: n columns, m rows, three bytes each, and the map from
	// user space to columns and rows.
	unsigned n, m;
	std::string bytes;
	Mat im;
};

struct Doc {
	std::string err;	// empty if it can be read
	std::vector<std::string> comments;	// of the header
	std::string title;
	long box[4];
	bool hasbox = false;
	unsigned pages = 0;
	std::vector<Mark> marks;
};

struct Obj {
	enum { Num, Name, Str, Proc, Arr, Filt, File, Font, Buf, Wid } kind;
	double num = 0;	// also the multiple of a text's width (Wid)
	std::string s;
	std::vector<Obj> body;
	std::vector<std::string> filters;
};

struct Reader {
	const std::string &in;
	size_t at = 0;
	Doc doc;
	std::vector<Obj> st;
	std::map<std::string, Obj> dict;
	struct G { Mat ctm; double rgb[3] = { 0, 0, 0 }; double width = 1; std::vector<Seg> path; bool cur = false; Pt pt = { 0, 0 }; Obj font; bool hasfont = false; double align = 0; } g;
	std::vector<G> saved;

	Reader(const std::string &s) : in(s) {}

	bool fail(const std::string &m) {
		if (doc.err.empty()) {
			size_t ln = 1;
			for (size_t i = 0; i < at && i < in.size(); i++) ln += in[i] == '\n';
			doc.err = "line " + std::to_string(ln) + ": " + m;
		}
		return false;
	}
	static bool white(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' || c == '\0'; }
	static bool delim(char c) { return strchr("()<>[]{}/%", c) && c; }

	void skip() {
		while (at < in.size()) {
			if (white(in[at])) at++;
			else if (in[at] == '%') { while (at < in.size() && in[at] != '\n' && in[at] != '\r') at++; }
			else break;
		}
	}
	bool word(std::string &w) {
		w.clear();
		while (at < in.size() && !white(in[at]) && !delim(in[at])) w.push_back(in[at++]);
		return !w.empty();
	}
	// token reads one object; an executable name has kind Name and num 1.
	bool token(Obj &o) {
		o = Obj();
		skip();
		if (at >= in.size()) return false;
		char c = in[at];
		if (c == '/') {
			at++;
			o.kind = Obj::Name;
			if (!word(o.s)) return fail("an empty name");
			return true;
		}
		if (c == '(') {
			at++;
			o.kind = Obj::Str;
			int depth = 1;
			while (true) {
				if (at >= in.size()) return fail("a string that does not end");
				char x = in[at++];
				if (x == '(') depth++;
				if (x == ')' && --depth == 0) break;
				if (x == '\\') {
					if (at >= in.size()) return fail("a string that does not end");
					char y = in[at++];
					if (y >= '0' && y <= '7') {
						int v = y - '0';
						for (int k = 0; k < 2 && at < in.size() && in[at] >= '0' && in[at] <= '7'; k++) v = v * 8 + in[at++] - '0';
						o.s.push_back((char) v);
					} else if (y == '\n') ;
					else o.s.push_back(y == 'n' ? '\n' : y == 't' ? '\t' : y == 'r' ? '\r' : y == 'b' ? '\b' : y == 'f' ? '\f' : y);
					continue;
				}
				o.s.push_back(x);
			}
			return true;
		}
		if (c == '{' || c == '[') {
			at++;
			o.kind = c == '{' ? Obj::Proc : Obj::Arr;
			char end = c == '{' ? '}' : ']';
			while (true) {
				skip();
				if (at >= in.size()) return fail("a group that does not end");
				if (in[at] == end) { at++; return true; }
				Obj e;
				if (!token(e)) return false;
				o.body.push_back(e);
			}
		}
		std::string w;
		if (!word(w)) return fail(std::string("unexpected ") + c);
		char *e = nullptr;
		double v = strtod(w.c_str(), &e);
		bool numeric = *e == '\0' && w.find_first_not_of("0123456789+-.eE") == std::string::npos;
		if (numeric) { o.kind = Obj::Num; o.num = v; return true; }
		o.kind = Obj::Name;
		o.s = w;
		o.num = 1;
		return true;
	}

	bool need(size_t n) { return st.size() >= n || fail("too few operands"); }
	bool nums(size_t n, std::vector<double> &v) {
		if (!need(n)) return false;
		v.clear();
		for (size_t i = st.size() - n; i < st.size(); i++) {
			if (st[i].kind != Obj::Num) return fail("an operand is no number");
			v.push_back(st[i].num);
		}
		st.resize(st.size() - n);
		return true;
	}
	void paint(int kind) {
		Mark m;
		m.kind = kind ? Mark::Stroke : Mark::Fill;
		memcpy(m.rgb, g.rgb, sizeof g.rgb);
		m.width = g.width;
		m.path = g.path;
		m.ctm = g.ctm;
		doc.marks.push_back(m);
		g.path.clear();
		g.cur = false;
	}

	bool decode(const Obj &f, size_t want, std::string &out) {
		// Filters are applied in the order they were attached.
		std::string data;
		for (size_t k = 0; k < f.filters.size(); k++) {
			const std::string &n = f.filters[k];
			std::string dst;
			if (n == "ASCII85Decode") {
				unsigned long v = 0;
				int cnt = 0;
				bool fromfile = k == 0;
				size_t p = 0, *pos = fromfile ? &at : &p;
				const std::string &src = fromfile ? in : data;
				while (true) {
					if (*pos >= src.size()) return fail("the image data does not end");
					char c = src[(*pos)++];
					if (white(c)) continue;
					if (c == '~') {
						if (*pos >= src.size() || src[*pos] != '>') return fail("~ within the image data");
						(*pos)++;
						break;
					}
					if (c == 'z' && cnt == 0) { dst.append(4, '\0'); continue; }
					if (c < '!' || c > 'u') return fail("bad image data");
					v = v * 85 + (c - '!');
					if (++cnt == 5) {
						if (v > 0xFFFFFFFFul) return fail("bad image data");
						for (int i = 3; i >= 0; i--) dst.push_back((char) (v >> (8 * i)));
						v = 0, cnt = 0;
					}
				}
				if (cnt == 1) return fail("a lone character ends the image data");
				if (cnt) {
					int keep = cnt - 1;
					for (; cnt < 5; cnt++) v = v * 85 + 84;
					for (int i = 0; i < keep; i++) dst.push_back((char) (v >> (8 * (3 - i))));
				}
			} else if (n == "RunLengthDecode") {
				if (k == 0) return fail("run lengths straight from the file");
				size_t i = 0;
				bool eod = false;
				while (i < data.size() && !eod) {
					unsigned char l = data[i++];
					if (l == 128) eod = true;
					else if (l < 128) {
						if (i + l + 1 > data.size()) return fail("a run of the image data is cut off");
						dst.append(data, i, l + 1u);
						i += l + 1u;
					} else {
						if (i >= data.size()) return fail("a run of the image data is cut off");
						dst.append(257 - l, data[i++]);
					}
				}
			} else return fail("filter " + n);
			data = dst;
		}
		if (data.size() < want) return fail("the image has " + std::to_string(data.size()) + " bytes, it needs " + std::to_string(want));
		if (data.size() > want) return fail("the image has " + std::to_string(data.size()) + " bytes, it needs only " + std::to_string(want));
		out = data;
		return true;
	}

	bool image() {
		if (!need(7)) return false;
		Obj *o = &st[st.size() - 7];
		// width height bits matrix source multiple components
		if (o[0].kind != Obj::Num || o[1].kind != Obj::Num || o[2].kind != Obj::Num || o[3].kind != Obj::Arr || o[4].kind != Obj::Proc) return fail("operands of colorimage");
		if (o[5].kind != Obj::Name || o[5].s != "false" || o[6].kind != Obj::Num || o[6].num != 3 || o[2].num != 8) return fail("only eight bits of three components are understood");
		if (o[3].body.size() != 6) return fail("the image's matrix");
		double v[6];
		for (int i = 0; i < 6; i++) {
			if (o[3].body[i].kind != Obj::Num) return fail("the image's matrix");
			v[i] = o[3].body[i].num;
		}
		std::vector<Obj> body = o[4].body;
		if (body.size() != 4 || body[0].kind != Obj::Name || body[1].kind != Obj::Name || body[2].s != "readstring" || body[3].s != "pop") return fail("the image's data procedure is not understood");
		if (!dict.count(body[0].s) || dict[body[0].s].kind != Obj::Filt) return fail("the image has no data source");
		if (!dict.count(body[1].s) || dict[body[1].s].kind != Obj::Buf) return fail("the image has no buffer");
		Mark m;
		m.kind = Mark::Img;
		m.n = (unsigned) o[0].num;
		m.m = (unsigned) o[1].num;
		m.im.a = v[0]; m.im.b = v[1]; m.im.c = v[2]; m.im.d = v[3]; m.im.e = v[4]; m.im.f = v[5];
		m.ctm = g.ctm;
		if (dict[body[1].s].num < 1) return fail("the image's buffer is empty");
		// Filters see what is behind the operator and one white space.
		if (at < in.size() && white(in[at])) at++;
		if (!decode(dict[body[0].s], (size_t) m.n * m.m * 3, m.bytes)) return false;
		// A buffer of another size would read past the end.
		if (m.bytes.size() % (size_t) dict[body[1].s].num) return fail("rows and buffer do not match");
		st.resize(st.size() - 7);
		doc.marks.push_back(m);
		return true;
	}

	bool exec(const std::string &w) {
		std::vector<double> v;
		if (w == "false" || w == "true") { Obj o; o.kind = Obj::Name; o.s = w; st.push_back(o); return true; }
		if (w == "translate") { if (!nums(2, v)) return false; Mat m; m.e = v[0]; m.f = v[1]; g.ctm = g.ctm.after(m); return true; }
		if (w == "scale") { if (!nums(2, v)) return false; Mat m; m.a = v[0]; m.d = v[1]; g.ctm = g.ctm.after(m); return true; }
		if (w == "gsave") { saved.push_back(g); return true; }
		if (w == "grestore") { if (saved.empty()) return fail("grestore without gsave"); g = saved.back(); saved.pop_back(); return true; }
		if (w == "setrgbcolor") { if (!nums(3, v)) return false; for (int i = 0; i < 3; i++) g.rgb[i] = v[i]; return true; }
		if (w == "setlinewidth") { if (!nums(1, v)) return false; g.width = v[0]; return true; }
		if (w == "newpath") { g.path.clear(); g.cur = false; return true; }
		if (w == "moveto" || w == "lineto" || w == "rmoveto") {
			if (w == "rmoveto" && st.size() >= 2 && st[st.size() - 2].kind == Obj::Wid) {
				double dx = st[st.size() - 2].num;
				if (st.back().kind != Obj::Num || st.back().num != 0) return fail("a text is moved up or down");
				if (!g.cur) return fail("no current point");
				st.resize(st.size() - 2);
				g.align -= dx;
				return true;
			}
			if (!nums(2, v)) return false;
			if (w[0] != 'm' && !g.cur) return fail("no current point");
			Seg s;
			s.kind = w == "lineto" ? Seg::Line : Seg::Move;
			s.p = { v[0], v[1] };
			if (w[0] == 'r') { s.p.x += g.pt.x; s.p.y += g.pt.y; }
			if (s.kind == Seg::Move && !g.path.empty() && g.path.back().kind == Seg::Move) g.path.pop_back();
			g.path.push_back(s);
			g.cur = true;
			g.pt = s.p;
			g.align = 0;
			return true;
		}
		if (w == "arc" || w == "arcn") {
			if (!nums(5, v)) return false;
			Seg s;
			s.kind = Seg::Arc;
			s.p = { v[0], v[1] };
			s.r = v[2];
			s.a0 = v[3];
			s.a1 = v[4];
			if (w == "arc") while (s.a1 < s.a0) s.a1 += 360;
			else while (s.a1 > s.a0) s.a1 -= 360;
			// A line leads to the arc's start.
			Pt from = { s.p.x + s.r * std::cos(s.a0 * M_PI / 180), s.p.y + s.r * std::sin(s.a0 * M_PI / 180) };
			Seg l;
			l.kind = g.cur ? Seg::Line : Seg::Move;
			l.p = from;
			g.path.push_back(l);
			g.path.push_back(s);
			g.cur = true;
			g.pt = { s.p.x + s.r * std::cos(s.a1 * M_PI / 180), s.p.y + s.r * std::sin(s.a1 * M_PI / 180) };
			return true;
		}
		if (w == "closepath") {
			Seg s;
			s.kind = Seg::Close;
			if (g.cur) g.path.push_back(s);
			return true;
		}
		if (w == "stroke") { paint(1); return true; }
		if (w == "fill") { paint(0); return true; }
		if (w == "findfont") {
			if (!need(1) || st.back().kind != Obj::Name) return fail("findfont needs a name");
			st.back().kind = Obj::Font;
			st.back().num = 1;
			return true;
		}
		if (w == "scalefont") {
			if (!nums(1, v)) return false;
			if (!need(1) || st.back().kind != Obj::Font) return fail("scalefont needs a font");
			st.back().num *= v[0];
			return true;
		}
		if (w == "setfont") {
			if (!need(1) || st.back().kind != Obj::Font) return fail("setfont needs a font");
			g.font = st.back();
			g.hasfont = true;
			st.pop_back();
			return true;
		}
		if (w == "dup") { if (!need(1)) return false; st.push_back(st.back()); return true; }
		if (w == "pop") { if (!need(1)) return false; st.pop_back(); return true; }
		if (w == "neg") {
			if (!need(1) || (st.back().kind != Obj::Num && st.back().kind != Obj::Wid)) return fail("neg");
			st.back().num = -st.back().num;
			return true;
		}
		if (w == "div") {
			if (!nums(1, v)) return false;
			if (v[0] == 0 || !need(1) || (st.back().kind != Obj::Num && st.back().kind != Obj::Wid)) return fail("div");
			st.back().num /= v[0];
			return true;
		}
		if (w == "stringwidth") {
			if (!need(1) || st.back().kind != Obj::Str || !g.hasfont) return fail("stringwidth");
			st.back().kind = Obj::Wid;
			st.back().num = 1;
			Obj y;
			y.kind = Obj::Num;
			st.push_back(y);
			return true;
		}
		if (w == "show") {
			if (!need(1) || st.back().kind != Obj::Str) return fail("show needs a string");
			if (!g.hasfont || !g.cur) return fail("show needs a font and a point");
			Mark m;
			m.kind = Mark::Show;
			memcpy(m.rgb, g.rgb, sizeof g.rgb);
			m.ctm = g.ctm;
			m.text = st.back().s;
			m.font = g.font.s;
			m.size = g.font.num;
			m.at = g.pt;
			m.align = g.align;
			doc.marks.push_back(m);
			st.pop_back();
			g.path.clear();
			Seg s;
			s.kind = Seg::Move;
			s.p = g.pt;
			g.path.push_back(s);
			return true;
		}
		if (w == "currentfile") { Obj o; o.kind = Obj::File; st.push_back(o); return true; }
		if (w == "filter") {
			if (!need(2) || st.back().kind != Obj::Name) return fail("filter needs a name");
			std::string n = st.back().s;
			st.pop_back();
			if (st.back().kind != Obj::File && st.back().kind != Obj::Filt) return fail("filter needs a file");
			st.back().kind = Obj::Filt;
			st.back().filters.push_back(n);
			return true;
		}
		if (w == "string") { if (!nums(1, v)) return false; Obj o; o.kind = Obj::Buf; o.num = v[0]; st.push_back(o); return true; }
		if (w == "def") {
			if (!need(2) || st[st.size() - 2].kind != Obj::Name) return fail("def needs a name");
			dict[st[st.size() - 2].s] = st.back();
			st.resize(st.size() - 2);
			return true;
		}
		if (w == "colorimage") return image();
		if (w == "showpage") { doc.pages++; return true; }
		return fail("unknown operator " + w);
	}

	Doc &read() {
		if (in.compare(0, 11, "%!PS-Adobe-") != 0) { fail("the document does not begin with %!PS-Adobe-"); return doc; }
		// The header's comments.
		size_t p = 0;
		while (p < in.size() && in[p] == '%') {
			size_t e = in.find('\n', p);
			if (e == std::string::npos) e = in.size();
			std::string l = in.substr(p, e - p);
			doc.comments.push_back(l);
			if (l.compare(0, 9, "%%Title: ") == 0) doc.title = l.substr(9);
			if (l.compare(0, 14, "%%BoundingBox:") == 0) {
				char tail = 0;
				if (doc.hasbox) fail("two bounding boxes");
				doc.hasbox = sscanf(l.c_str() + 14, "%ld %ld %ld %ld%c", &doc.box[0], &doc.box[1], &doc.box[2], &doc.box[3], &tail) == 4;
			}
			p = e + 1;
			if (l == "%%EndComments") break;
		}
		if (doc.comments.back() != "%%EndComments") fail("the header's comments do not end");
		if (!doc.hasbox) fail("there is no bounding box");
		Obj o;
		while (doc.err.empty() && token(o)) {
			if (doc.pages) { fail("something follows showpage"); break; }
			if (o.kind == Obj::Name && o.num == 1) {
				if (!exec(o.s)) break;
			} else st.push_back(o);
		}
		if (doc.err.empty()) {
			if (doc.pages != 1) fail("the page is not shown once");
			if (!st.empty()) fail("operands are left over");
			if (!saved.empty()) fail("gsave without grestore");
		}
		return doc;
	}
};

inline Doc read(const std::string &s) { return Reader(s).read(); }

// walk gives points along a path, and where each stretch begins.
inline std::vector<Pt> walk(const std::vector<Seg> &path, const Mat &m, unsigned perarc = 8) {
	std::vector<Pt> v;
	Pt start = { 0, 0 };
	auto add = [&](Pt p) {
		Pt q = m.at(p.x, p.y);
		if (v.empty() || std::fabs(v.back().x - q.x) > 1e-3 || std::fabs(v.back().y - q.y) > 1e-3) v.push_back(q);
	};
	for (auto &s : path) {
		if (s.kind == Seg::Move) { start = s.p; add(s.p); }
		else if (s.kind == Seg::Line) add(s.p);
		else if (s.kind == Seg::Close) add(start);
		else for (unsigned i = 0; i <= perarc; i++) {
			double a = (s.a0 + (s.a1 - s.a0) * i / perarc) * M_PI / 180;
			add({ s.p.x + s.r * std::cos(a), s.p.y + s.r * std::sin(a) });
		}
	}
	return v;
}

}
