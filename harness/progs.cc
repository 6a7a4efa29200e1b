// P37: the programs that make and convert instances.
#include "genpoly.hpp"
#include "prog.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <sys/stat.h>

using pbt::Case;
using pbt::strf;
using ref::P;
using ref::Ring;

static std::string join(const std::vector<std::string> &v) {
	std::string s;
	for (auto &x : v) s += x + " ";
	return s;
}

static prog::Out runok(Case &c, const std::string &p, const std::vector<std::string> &args, const std::string &in = "") {
	auto r = prog::run(p, args, in);
	CHECK(r.ok(), "%s %sended with %d: %s", p.c_str(), join(args).c_str(), r.status, prog::shown(r.err).c_str());
	return r;
}

// A grid of cells, column after column from the lower left one.
struct Grid {
	int w, h;
	std::vector<char> b;
	char &at(int x, int y) { return b[x * h + y]; }
	std::string show() { std::string s; for (int y = h - 1; y >= 0; y--) { for (int x = 0; x < w; x++) s += at(x, y) ? '#' : ' '; s += '\n'; } return s; }
};

static Grid gengrid(Case &c, int mostw, int mosth) {
	Grid g;
	g.w = (int) c.range(1, mostw);
	g.h = (int) c.range(1, mosth);
	g.b.resize(g.w * g.h);
	int p = (int) c.draw(9);
	for (auto &x : g.b) x = c.chance(p, 12);
	return g;
}

// Keeps what can be reached by straight steps from a cell, and a solid border.
static void oneregion(Case &c, Grid &g) {
	if (g.w < 3) { g.b.resize(3 * g.h, 1); g.w = 3; }
	if (g.h < 3) { Grid n = g; n.h = 3; n.b.assign(n.w * 3, 1); for (int x = 0; x < g.w; x++) for (int y = 0; y < g.h; y++) n.at(x, y) = g.at(x, y); g = n; }
	for (int x = 0; x < g.w; x++) for (int y = 0; y < g.h; y++) if (x == 0 || y == 0 || x == g.w - 1 || y == g.h - 1) g.at(x, y) = 1;
	int sx = c.range(1, g.w - 2), sy = c.range(1, g.h - 2);
	g.at(sx, sy) = 0;
	std::vector<char> in(g.w * g.h, 0);
	std::vector<std::pair<int, int>> q = { { sx, sy } };
	while (!q.empty()) {
		int x = q.back().first, y = q.back().second;
		q.pop_back();
		if (g.at(x, y) || in[x * g.h + y]) continue;
		in[x * g.h + y] = 1;
		q.push_back({ x + 1, y }); q.push_back({ x - 1, y }); q.push_back({ x, y + 1 }); q.push_back({ x, y - 1 });
	}
	for (size_t i = 0; i < in.size(); i++) if (!in[i]) g.b[i] = 1;
}

static bool nums(const std::string &s, std::vector<long> &v) {
	std::istringstream in(s);
	long x;
	v.clear();
	while (in >> x) v.push_back(x);
	return in.eof();
}

PROP(tiles_generator, 400, 3000, "at least three puzzles of at least 3x3 tiles") {
	pbt::clearscratch();
	int w = (int) c.range(2, 6), h = (int) c.range(2, 6), n = c.chance(1, 10) ? (int) c.range(70, 130) : (int) c.size(1, 12);
	unsigned long seed = c.chance(1, 4) ? c.draw(20) : c.draw(1ul << 62);
	std::string dirs[2] = { std::string("d"), std::string(1 + c.size(0, 150), 'e') };
	c.desc("%dx%d n %d seed %lu, directory's name of %zu\n", w, h, n, seed, dirs[1].size());
	prog::limits().nofile = 64;
	std::map<std::string, std::string> files[2];
	for (int t = 0; t < 2; t++) {
		mkdir(dirs[t].c_str(), 0700);
		std::vector<std::string> args = { "-w", strf("%d", w), "-h", strf("%d", h), "-n", strf("%d", n), "-d", dirs[t], "-seed", strf("%lu", seed) };
		runok(c, "prog_tiles_generator", args);
		for (int i = 0; i < n; i++) {
			std::string p = strf("%s/%d", dirs[t].c_str(), i), s = prog::slurp(p);
			CHECK(!s.empty(), "there is no puzzle %d", i);
			files[t][strf("%d", i)] = s;
		}
		CHECK(prog::slurp(strf("%s/%d", dirs[t].c_str(), n)).empty(), "there are more than %d puzzles", n);
	}
	prog::limits() = prog::Limits();
	CHECK(files[0] == files[1], "the same seed makes different puzzles");
	std::set<std::string> kinds;
	for (auto &f : files[0]) {
		auto l = prog::lines(f.second);
		std::vector<long> v;
		CHECK((int) l.size() == 2 * w * h + 3, "puzzle %s has %zu lines", f.first.c_str(), l.size());
		CHECK(nums(l[0], v) && v == std::vector<long>({ w, h }), "puzzle %s begins %s", f.first.c_str(), l[0].c_str());
		CHECK(l[1] == "starting positions for each tile:" && l[2 + w * h] == "goal positions:", "puzzle %s is malformed: %s", f.first.c_str(), prog::shown(f.second).c_str());
		std::vector<int> pos;
		std::set<int> used;
		for (int i = 0; i < w * h; i++) {
			CHECK(nums(l[2 + i], v) && v.size() == 1 && v[0] >= 0 && v[0] < w * h, "puzzle %s: tile %d is at %s", f.first.c_str(), i, l[2 + i].c_str());
			CHECK(used.insert((int) v[0]).second, "puzzle %s: two tiles are at %ld", f.first.c_str(), v[0]);
			pos.push_back((int) v[0]);
			CHECK(nums(l[3 + w * h + i], v) && v == std::vector<long>({ i }), "puzzle %s: the goal of tile %d is %s", f.first.c_str(), i, l[3 + w * h + i].c_str());
		}
		// Every move swaps the blank with a tile and moves it by one cell.
		int odd = 0;
		std::vector<bool> seen(w * h, false);
		for (int i = 0; i < w * h; i++) {
			int len = 0;
			for (int j = i; !seen[j]; j = pos[j]) { seen[j] = true; len++; }
			if (len > 0) odd ^= (len - 1) & 1;
		}
		int dist = pos[0] / w + pos[0] % w;
		CHECK(odd == (dist & 1), "puzzle %s of %dx%d is not solvable: %s", f.first.c_str(), w, h, prog::shown(f.second).c_str());
		kinds.insert(f.second);
	}
	if (w * h >= 9 && n >= 3) { CHECK(kinds.size() > 1, "%d puzzles are all the same", n); if (h > 2 && w > 2) c.nontrivial(); }
	c.label(w % 2 ? "odd width" : h % 2 ? "even width, odd height" : "even width and height");
}

PROP(tiles_generator_usage, 12, 60, "every case") {
	static const std::vector<std::vector<std::string>> bad = { { }, { "-w", "3" }, { "-w", "3", "-h", "3" }, { "-h", "3", "-d", "." }, { "-w" }, { "-w", "3", "-h", "3", "-d" }, { "-w", "3", "-h", "3", "-d", "nosuchdirectory", "-seed", "1" } };
	auto &a = bad[c.draw(bad.size())];
	auto r = prog::run("prog_tiles_generator", a);
	CHECK(r.clean() && r.status != 0, "generator %sended with %d: %s", join(a).c_str(), r.status, prog::shown(r.err).c_str());
	c.desc("%s\n", join(a).c_str());
	c.nontrivial();
}

// The generator of the repository's grids, to know the map of a seed.
struct Ranq {
	uint64_t v;
	Ranq(uint64_t seed) : v(4101842887655102017ull ^ seed) { if (!v) v = 4101842887655102017ull; v = bits(); }
	uint64_t bits() { v ^= v >> 21; v ^= v << 35; v ^= v >> 4; v *= 2685821657736338717ull; return v; }
	double real() { return bits() * 5.42101086242752217e-20; }
};

static bool connected(Grid &g, int x0, int y0, int x1, int y1, bool eight) {
	if (g.at(x0, y0) || g.at(x1, y1)) return false;
	std::vector<char> in(g.w * g.h, 0);
	std::vector<std::pair<int, int>> q = { { x0, y0 } };
	in[x0 * g.h + y0] = 1;
	while (!q.empty()) {
		auto p = q.back();
		q.pop_back();
		for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
			int x = p.first + dx, y = p.second + dy;
			if ((!dx && !dy) || (dx && dy && !eight) || x < 0 || y < 0 || x >= g.w || y >= g.h || g.at(x, y) || in[x * g.h + y]) continue;
			in[x * g.h + y] = 1;
			q.push_back({ x, y });
		}
	}
	return in[x1 * g.h + y1];
}

PROP(grid_seeds, 500, 3000, "some seed before the one used does not give a solvable map") {
	int w = (int) c.range(1, 14), h = (int) c.range(1, 14);
	double prob = c.range(1, 13) / 20.0;
	if (w > 8 && prob > 0.45) prob = 0.4;
	if (w > 3 && prob > 0.55) prob = 0.5;
	bool eight = c.flip(), life = c.flip();
	unsigned long seed = c.chance(1, 2) ? c.draw(1000) : c.draw(1ul << 63);
	std::vector<std::string> args = { "-width", strf("%d", w), "-height", strf("%d", h), "-prob", strf("%g", prob), "-seed", strf("%lu", seed) };
	if (eight) args.push_back("-eightway");
	if (life) args.push_back("-lifecost");
	c.desc("%s\n", join(args).c_str());
	auto r = runok(c, "prog_mkseedinst", args);
	auto l = prog::lines(r.out);
	CHECK(l.size() == 5, "the instance is %s", prog::shown(r.out).c_str());
	unsigned long got;
	int gw, gh;
	double gp;
	CHECK(sscanf(l[0].c_str(), "seed %lu %d %d %lf", &got, &gw, &gh, &gp) == 4, "the instance begins %s", l[0].c_str());
	CHECK(gw == w && gh == h && std::fabs(gp - prob) < 1e-9, "the instance begins %s", l[0].c_str());
	CHECK(l[1] == (eight ? "Eightway" : "Fourway") && l[2] == (life ? "Life" : "Unit"), "the instance is %s", prog::shown(r.out).c_str());
	CHECK(l[3] == "0 0" && l[4] == strf("%d 0", w - 1), "the instance is %s", prog::shown(r.out).c_str());
	CHECK(got >= seed, "seed %lu, from %lu", got, seed);
	CHECK(got - seed < 100000, "seed %lu, from %lu", got, seed);
	// The first seed from the given one with a way.
	for (unsigned long s = seed; s <= got; s++) {
		Ranq rng(s);
		Grid g;
		g.w = w; g.h = h;
		g.b.resize(w * h);
		for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) g.at(x, y) = rng.real() < prob;
		bool ok = connected(g, 0, 0, w - 1, 0, eight);
		// With one column the start is the goal, and so no way is taken.
		CHECK(ok || s < got, "the map of the seed has no way from the start to the goal:\n%s", g.show().c_str());
		CHECK(!ok || s == got, "the map of seed %lu was passed over:\n%s", s, g.show().c_str());
	}
	if (got > seed) c.nontrivial();
}

static std::string plain(Grid &g, bool eight, bool life) {
	std::string s = strf("%d %d\nBoard:\n", g.h, g.w);
	for (int y = g.h - 1; y >= 0; y--) {
		for (int x = 0; x < g.w; x++) s += g.at(x, y) ? '#' : ' ';
		s += '\n';
	}
	return s + (life ? "Life\n" : "Unit\n") + (eight ? "Eight-way\n" : "Four-way\n");
}

PROP(grid_locations, 400, 3000, "both blocked and open cells") {
	pbt::clearscratch();
	Grid g = gengrid(c, 9, 9);
	if (std::count(g.b.begin(), g.b.end(), 0) == 0) g.b[c.draw(g.b.size())] = 0;
	bool eight = c.flip(), life = c.flip();
	unsigned long seed = c.draw(1ul << 40);
	std::string text = plain(g, eight, life);
	c.desc("%sseed %lu\n", text.c_str(), seed);
	prog::spew("map", text);
	std::string first;
	for (int t = 0; t < 2; t++) {
		auto r = runok(c, "prog_gridnav_randinst", { "-s", strf("%lu", seed), "-m", "map" });
		if (t == 0) first = r.out;
		CHECK(r.out == first, "the same seed gives another instance");
	}
	CHECK(first.compare(0, text.size(), text) == 0, "the instance is not the map and two locations: %s", prog::shown(first).c_str());
	std::vector<long> v;
	CHECK(nums(first.substr(text.size()), v) && v.size() == 4, "after the map there is %s", prog::shown(first.substr(text.size())).c_str());
	for (int i = 0; i < 2; i++) {
		long x = v[2 * i], y = v[2 * i + 1];
		CHECK(x >= 0 && y >= 0 && x < g.w && y < g.h, "location %ld,%ld is outside the map", x, y);
		CHECK(!g.at((int) x, (int) y), "location %ld,%ld is blocked", x, y);
	}
	if (g.b.size() > 3 && std::count(g.b.begin(), g.b.end(), 1) > 0) c.nontrivial();
}

PROP(grid_pictures, 400, 3000, "an open and a blocked cell") {
	Grid g = gengrid(c, 9, 9);
	std::string s = "P3\n";
	if (c.flip()) s += "# made by hand\n";
	s += strf("%d %d\n255\n", g.w, g.h);
	bool broad = c.flip();
	for (int y = g.h - 1; y >= 0; y--) {
		for (int x = 0; x < g.w; x++) {
			int v[3] = { 255, 255, 255 };
			if (g.at(x, y)) do { for (int &k : v) k = c.chance(1, 3) ? 255 : (int) c.draw(256); } while (v[0] == 255 && v[1] == 255 && v[2] == 255 && (v[c.draw(3)] = 0, false));
			s += strf("%d %d %d%s", v[0], v[1], v[2], broad && x % 2 == 0 ? "  " : "\n");
		}
		s += '\n';
	}
	c.desc("%s", s.c_str());
	auto r = runok(c, "prog_ppm2grid", { }, s);
	std::string want = strf("%d %d\nBoard:\n", g.h, g.w) + g.show();
	CHECK(r.out == want, "the picture became\n%snot\n%s", r.out.c_str(), want.c_str());
	if (std::count(g.b.begin(), g.b.end(), 1) > 0 && std::count(g.b.begin(), g.b.end(), 0) > 0) c.nontrivial();
	// Cut short, it is refused.
	size_t cut = s.find("255\n") + 4;
	auto q = prog::run("prog_ppm2grid", { }, s.substr(0, c.flip() ? c.draw(cut) : cut + c.draw((s.size() - cut) / 2 + 1)));
	CHECK(q.clean() && q.status != 0, "a picture that is cut short ended with %d", q.status);
}

// Reads polygons and compares them with the cells they should cover.
static void polygons(Case &c, const std::string &text, Grid &g, bool ext) {
	std::istringstream in(text);
	std::string word;
	std::vector<Ring> rings;
	in >> word;
	CHECK(word == "bound:", "the map is %s", prog::shown(text).c_str());
	size_t npoly = 0;
	for (size_t k = 0; k <= npoly; k++) {
		if (k == 1 && rings.size() == 1 && word == "bound:") {
			CHECK((bool) (in >> npoly >> word) && word == "polygons", "the map is %s", prog::shown(text).c_str());
			if (npoly == 0) break;
		}
		size_t n;
		CHECK((bool) (in >> n) && n >= 3 && n < 100000, "the map is %s", prog::shown(text).c_str());
		Ring r;
		for (size_t i = 0; i < n; i++) {
			double x, y;
			CHECK((bool) (in >> x >> y), "the map is %s", prog::shown(text).c_str());
			CHECK(x == std::floor(x) && y == std::floor(y), "a corner is at %g,%g", x, y);
			r.push_back(P{ (long long) x, (long long) y });
		}
		rings.push_back(r);
		if (k == 0) npoly = 1;
	}
	CHECK(!(in >> word), "after the map there is %s", word.c_str());
	int e = ext ? 1 : 0;
	for (int x = 0; x < g.w; x++) for (int y = 0; y < g.h; y++) {
		P m{ 2 * (x + e) + 1, 2 * (y + e) + 1 };
		bool open = true;
		for (size_t i = 0; i < rings.size(); i++) {
			Ring big;
			for (auto &p : rings[i]) big.push_back(P{ 2 * p.x, 2 * p.y });
			int s = ref::side(big, m);
			if (i == 0 ? s <= 0 : s >= 0) open = false;
		}
		CHECK(open == !g.at(x, y), "cell %d,%d is %s, its polygon map says otherwise:\n%s%s", x, y, g.at(x, y) ? "blocked" : "open", g.show().c_str(), text.c_str());
	}
}

PROP(polygon_maps, 500, 4000, "at least two obstacles or a map that is wider than tall") {
	Grid g = gengrid(c, 11, 11);
	oneregion(c, g);
	bool lvl = c.flip();
	std::string s;
	if (lvl) {
		s = strf(" 1 %d %d 0\n", g.w, g.h);
		std::vector<std::pair<int, int>> open;
		for (int x = 0; x < g.w; x++) for (int y = 0; y < g.h; y++) if (!g.at(x, y)) open.push_back({ x, y });
		auto u = open[c.draw(open.size())], d = open[c.draw(open.size())];
		for (int y = g.h - 1; y >= 0; y--) {
			for (int x = 0; x < g.w; x++) {
				char ch = g.at(x, y) ? '#' : std::make_pair(x, y) == u ? 'u' : std::make_pair(x, y) == d ? 'd' : c.chance(1, 8) ? 'w' : ' ';
				s += ch;
			}
			s += '\n';
		}
	} else {
		s = plain(g, c.flip(), c.flip());
	}
	c.desc("%s", s.c_str());
	auto r = runok(c, lvl ? "prog_plat2d_2poly" : "prog_grid2poly", { }, s);
	polygons(c, r.out, g, !lvl);
	c.label(lvl ? "level" : "grid");
	c.nontrivial();
}

struct Obs { int x, y, dx, dy; };

static int bounce(int p, int v, int n, int t) {
	if (n == 1) return 0;
	int dir = v;
	for (int i = 0; i < t; i++) for (int k = 0; k < abs(v); k++) {
		int step = dir > 0 ? 1 : -1;
		if (p + step < 0 || p + step >= n) { dir = -dir; step = -step; }
		p += step;
	}
	return p;
}

PROP(traffic_instances, 120, 2500, "an obstacle that moves") {
	int w = (int) c.range(1, 8), h = (int) c.range(1, 8), n = (int) c.size(0, w * h / 5), seed = (int) c.draw(1000000);
	if (w * h == 1) { w = 2; }
	if (w == 1 || h == 1) n = std::min(n, 1);	// so that there is a way
	std::vector<std::string> args = { strf("%d", w), strf("%d", h), strf("%d", n), strf("%d", seed) };
	c.desc("%s\n", join(args).c_str());
	auto r = prog::run("prog_traffic_randinst", args, "", 2);
	if (r.status == -1) c.discard();	// no solvable one was found
	CHECK(r.ok(), "randinst %sended with %d: %s", join(args).c_str(), r.status, prog::shown(r.err).c_str());
	auto again = runok(c, "prog_traffic_randinst", args);
	// What the search says of its limits may come first.
	std::string text;
	for (auto &l : prog::lines(r.out)) if (l[0] != '#') text += l + "\n";
	std::string text2;
	for (auto &l : prog::lines(again.out)) if (l[0] != '#') text2 += l + "\n";
	CHECK(text == text2, "the same seed gives another instance");
	std::vector<long> v;
	CHECK(nums(text, v) && v.size() == 6 + 4 * (size_t) n, "the instance is %s", prog::shown(text).c_str());
	CHECK(v[0] == 0 && v[1] == 0 && v[2] == w - 1 && v[3] == h - 1 && v[4] == w && v[5] == h, "the instance is %s", prog::shown(text).c_str());
	std::vector<Obs> obs;
	for (int i = 0; i < n; i++) {
		Obs o = { (int) v[6 + 4 * i], (int) v[7 + 4 * i], (int) v[8 + 4 * i], (int) v[9 + 4 * i] };
		CHECK(o.x >= 0 && o.x < w && o.y >= 0 && o.y < h, "an obstacle at %d,%d is outside", o.x, o.y);
		CHECK(abs(o.dx) <= 1 && abs(o.dy) <= 1, "an obstacle moves by %d,%d", o.dx, o.dy);
		if (o.dx || o.dy) c.nontrivial();
		obs.push_back(o);
	}
	// Whether there is a way: obstacles repeat with this period.
	auto at = [&](const Obs &o, int t) { return std::make_pair(bounce(o.x, o.dx, w, t), bounce(o.y, o.dy, h, t)); };
	std::set<std::pair<int, int>> layer = { { 0, 0 } };
	bool there = false;
	for (int t = 0; t < 60 * (w + h) && !there; t++) {
		if (layer.count({ w - 1, h - 1 })) there = true;
		std::set<std::pair<int, int>> next;
		for (auto &p : layer) {
			static const int dx[] = { 0, 1, -1, 0, 0 }, dy[] = { 0, 0, 0, 1, -1 };
			for (int i = 0; i < 5; i++) {
				auto q = std::make_pair(p.first + dx[i], p.second + dy[i]);
				if (q.first < 0 || q.second < 0 || q.first >= w || q.second >= h) continue;
				bool bad = false;
				for (auto &o : obs) {
					auto a = at(o, t), b = at(o, t + 1);
					bad |= b == q || (a == q && b == p);
				}
				if (!bad) next.insert(q);
			}
		}
		layer.swap(next);
	}
	CHECK(there, "there is no way to the goal:\n%s", text.c_str());
}

static std::string genname(Case &c) {
	static const std::string ch = "abcXY019 .-_%dsn,";
	std::string s;
	for (size_t i = 0, n = 1 + c.size(0, 10); i < n; i++) s += ch[c.draw(ch.size())];
	if (s[0] == '.' || s[0] == ' ') s = "m" + s.substr(1);
	while (!s.empty() && s.back() == ' ') s.back() = 'x';
	for (char &x : s) if (x == ' ') x = '_';	// words of a line
	return s;
}

PROP(scenario_entries, 300, 2000, "at least two entries") {
	pbt::clearscratch();
	struct E { std::string bucket, map, w, h, x0, y0, x1, y1, cost; };
	std::vector<E> es;
	int n = (int) c.size(0, 7);
	std::string file = genname(c) + ".scen", s = "version 1\n", root = "root";
	for (int i = 0; i < n; i++) {
		E e = { strf("%d", (int) c.draw(100)), (c.flip() ? "maps/" : "") + genname(c) + ".map", "512", "512", strf("%d", (int) c.draw(512)), strf("%d", (int) c.draw(512)),
			strf("%d", (int) c.draw(512)), strf("%d", (int) c.draw(512)), strf("%d.%06d", (int) c.draw(300), (int) c.draw(1000000)) };
		s += e.bucket + "\t" + e.map + "\t" + e.w + "\t" + e.h + "\t" + e.x0 + "\t" + e.y0 + "\t" + e.x1 + "\t" + e.y1 + "\t" + e.cost + "\n";
		es.push_back(e);
	}
	c.desc("%s: %s", file.c_str(), s.c_str());
	prog::spew(file, s);
	auto r = runok(c, "prog_scenario2rdb", { root, file });
	auto paths = prog::lines(r.out);
	CHECK((int) paths.size() == n, "%d entries gave %zu paths", n, paths.size());
	std::set<std::string> distinct;
	for (int i = 0; i < n; i++) {
		const E &e = es[i];
		CHECK(distinct.insert(paths[i]).second, "two entries have the path %s", paths[i].c_str());
		CHECK(paths[i].compare(0, root.size() + 1, root + "/") == 0, "the path is %s", paths[i].c_str());
		std::string base = e.map.substr(e.map.rfind('/') == std::string::npos ? 0 : e.map.rfind('/') + 1);
		// The attributes make up the path, in this order.
		CHECK(paths[i] == root + "/" + file + "/" + e.bucket + "/" + base + "/" + strf("%d", i), "the path is %s", paths[i].c_str());
		std::string t = prog::slurp(paths[i]);
		auto l = prog::lines(t);
		CHECK(l.size() >= 2 && l[0] == "#start data file format 4" && l.back() == "#end data file format 4", "%s holds %s", paths[i].c_str(), prog::shown(t).c_str());
		const std::pair<const char*, std::string> want[] = { { "scenario file", file }, { "num", strf("%d", i) }, { "map", e.map }, { "optimal cost", e.cost },
			{ "start x", e.x0 }, { "start y", e.y0 }, { "goal x", e.x1 }, { "goal y", e.y1 } };
		for (auto &w : want) CHECK(prog::value(t, w.first) == w.second, "%s: %s is %s, not %s", paths[i].c_str(), w.first, prog::value(t, w.first).c_str(), w.second.c_str());
	}
	if (n >= 2) c.nontrivial();
}

// A request that cannot be understood is refused and makes nothing; a plea for help is not.
PROP(generator_usage, 160, 400, "every case") {
	struct { const char *prog; std::vector<std::string> args; int status; } const uses[] = {
		{ "prog_mkseedinst", { "-h" }, 0 }, { "prog_mkseedinst", { "-zzz" }, 1 }, { "prog_mkseedinst", { "-seed", "1", "7" }, 1 },
		{ "prog_gridnav_randinst", { "-h" }, 0 }, { "prog_gridnav_randinst", { }, 1 }, { "prog_gridnav_randinst", { "-s", "5" }, 1 },
		{ "prog_gridnav_randinst", { "-m", "map", "-zzz" }, 1 }, { "prog_gridnav_randinst", { "-s", "seed", "-m", "map" }, 1 },
		{ "prog_gridnav_randinst", { "-m", "nosuchmap" }, 1 }, { "prog_traffic_randinst", { "-h" }, 0 },
		{ "prog_scenario2rdb", { }, 1 }, { "prog_scenario2rdb", { "root" }, 1 }, { "prog_scenario2rdb", { "root", "nosuchfile" }, 1 },
		{ "prog_ppm2grid", { "-zzz" }, 1 }, { "prog_grid2poly", { "-zzz" }, 1 }, { "prog_plat2d_2poly", { "-zzz" }, 1 },
	};
	pbt::clearscratch();
	prog::spew("map", "3 3\n   \n   \n   \nBoard:\n");
	auto &u = uses[c.draw(sizeof uses / sizeof *uses)];
	c.desc("%s %s\n", u.prog, join(u.args).c_str());
	auto r = prog::run(u.prog, u.args);
	CHECK(r.clean(), "%s %sended badly: %s", u.prog, join(u.args).c_str(), prog::shown(r.err).c_str());
	std::string all = r.out + r.err;
	if (u.status == 0) CHECK(r.status == 0 && all.find("sage") != std::string::npos, "%s %sended with %d: %s", u.prog, join(u.args).c_str(), r.status, prog::shown(all).c_str());
	else CHECK(r.status != 0 && !all.empty(), "%s %swas not refused: %s", u.prog, join(u.args).c_str(), prog::shown(all).c_str());
	c.nontrivial();
}
