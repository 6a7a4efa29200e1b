// P39: the sampling-based planner, on worlds made of affine steps.
#include "pbt.hpp"
#include "prog.hpp"
#include "pictures.hpp"
#include <cmath>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <sys/wait.h>
#include "utils/utils.hpp"
#include "search/rrt.hpp"
#include <memory>

using pbt::Case;
using pbt::strf;

// Each operator maps a place of the unit cube to another; the images of
// different operator sequences differ, so that no two nodes are in one place.
struct Step { double m[3][3], b[3]; double x0, y0, x1, y1; };	// not from within the box
struct Spec {
	int k = 2;
	std::vector<Step> steps;
	double start[3], glo[3], ghi[3];
	unsigned w, h;
	int back;	// the step that is said to be the reverse
	bool applies(int op, const double *p) const {
		const Step &s = steps[op];
		if (p[0] > s.x0 && p[0] < s.x1 && p[1] > s.y0 && p[1] < s.y1) return false;
		return true;
	}
	void act(int op, const double *p, double *q) const {
		const Step &s = steps[op];
		for (int i = 0; i < k; i++) {
			q[i] = s.b[i];
			for (int j = 0; j < k; j++) q[i] += s.m[i][j] * p[j];
		}
	}
	bool goal(const double *p) const {
		for (int i = 0; i < k; i++) if (p[i] < glo[i] || p[i] > ghi[i]) return false;
		return true;
	}
};

template<int KK> struct World {
	typedef double Cost;
	typedef int Oper;
	static const Oper Nop = -1;
	struct State {
		static const int K = KK;
		double p[KK];
		int tag = 77;
		void vector(const World *, double v[]) const { for (int i = 0; i < KK; i++) v[i] = p[i]; }
	};
	struct PackedState {
		double q[KK];
		bool eq(const World *, const PackedState &o) const { return !memcmp(q, o.q, sizeof q); }
		unsigned long hash(const World *) const { return 3; }
	};
	const Spec &spec;
	size_t asked = 0, taken = 0;
	std::string err;
	World(const Spec &s) : spec(s) { }
	State initialstate() { State s; for (int i = 0; i < KK; i++) s.p[i] = spec.start[i]; return s; }
	Cost h(State &) { return 0; }
	Cost d(State &) { return 0; }
	bool isgoal(State &s) { return spec.goal(s.p); }
	struct Operators {
		Operators(World &d, State &s) {
			d.asked++;
			if (s.tag != 77) d.err = "an unset state is expanded";
			for (size_t i = 0; i < d.spec.steps.size(); i++) if (d.spec.applies((int) i, s.p)) ops.push_back((int) i);
		}
		unsigned size() const { return (unsigned) ops.size(); }
		Oper operator[](unsigned i) const { return ops.at(i); }
		std::vector<int> ops;
	};
	struct Edge {
		Cost cost, revcost;
		Oper revop;
		State state;
		Edge(World &d, State &s, Oper op) : cost(1), revcost(1), revop(d.spec.back) {
			d.taken++;
			if (!d.spec.applies(op, s.p)) d.err = strf("operator %d is taken where it does not apply", op);
			d.spec.act(op, s.p, state.p);
		}
	};
	void pack(PackedState &dst, State &src) { memcpy(dst.q, src.p, sizeof dst.q); }
	State &unpack(State &buf, PackedState &pkd) { memcpy(buf.p, pkd.q, sizeof pkd.q); return buf; }
	Cost pathcost(const std::vector<State> &, const std::vector<Oper> &ops) { return (Cost) ops.size(); }
	Image *drawmap() const { return new Image(spec.w, spec.h); }
};

static Spec gen(Case &c) {
	Spec s;
	s.k = c.flip() ? 2 : 3;
	int n = 1 + (int) c.size(0, 5);
	for (int i = 0; i < n; i++) {
		Step t;
		// The rows are positive and leave room, so that the unit cube stays within itself.
		for (int r = 0; r < 3; r++) {
			double sum = 0;
			for (int j = 0; j < 3; j++) { t.m[r][j] = j == r ? 0.3 + c.real() * 0.5 : c.real() * 0.1; if (j < s.k) sum += t.m[r][j]; }
			t.b[r] = (1 - sum) * c.real();
		}
		t.x0 = t.y0 = t.x1 = t.y1 = 2;
		if (i && c.flip()) { t.x0 = c.real(); t.y0 = c.real(); t.x1 = t.x0 + c.real(); t.y1 = t.y0 + c.real(); }
		s.steps.push_back(t);
	}
	bool none = c.chance(1, 5);
	double sz = c.chance(1, 3) ? 0.02 + c.real() * 0.1 : 0.1 + c.real() * 0.3;
	for (int i = 0; i < 3; i++) {
		s.start[i] = c.real();
		s.glo[i] = none ? 3 : c.real() * (1 - sz);
		s.ghi[i] = s.glo[i] + sz;
	}
	if (!none && c.chance(3, 4)) {
		// A goal around a place that a few steps lead to.
		double p[3], q[3], r = 0.002 + c.real() * 0.05;
		memcpy(p, s.start, sizeof p);
		int len = 1 + (int) c.size(1, 9);
		for (int i = 0; i < len; i++) {
			int op = (int) c.draw(n);
			if (!s.applies(op, p)) continue;
			s.act(op, p, q);
			memcpy(p, q, sizeof p);
		}
		for (int i = 0; i < s.k; i++) { s.glo[i] = p[i] - r; s.ghi[i] = p[i] + r; }
	}
	s.w = 1 + (unsigned) c.draw(600);
	s.h = 1 + (unsigned) c.draw(600);
	s.back = (int) c.draw(n + 1) - 1;
	return s;
}
static std::string told(const Spec &s) {
	std::string t = strf("%d dimensions, picture %u by %u, reverse %d\nstart", s.k, s.w, s.h, s.back);
	for (int i = 0; i < s.k; i++) t += strf(" %g", s.start[i]);
	t += "\ngoal";
	for (int i = 0; i < s.k; i++) t += strf(" %g-%g", s.glo[i], s.ghi[i]);
	for (auto &x : s.steps) {
		t += "\nstep";
		for (int i = 0; i < s.k; i++) { for (int j = 0; j < s.k; j++) t += strf(" %.3g", x.m[i][j]); t += strf(" + %.3g,", x.b[i]); }
		t += strf(" not in %g,%g-%g,%g", x.x0, x.y0, x.x1, x.y1);
	}
	return t + "\n";
}

// The planner by its definition: grow the node nearest to each sample by the
// operator, not yet used there, that leads nearest to it.
struct Tree {
	struct N { double p[3]; int parent, op; std::vector<bool> used; };
	std::vector<N> nodes;
	std::vector<int> ops;	// from the start, if a goal was found
	bool solved = false, decided = true;
	size_t expd = 0;
	Tree(const Spec &s, uint64_t seed, size_t limit) {
		Rand rng(seed);
		N r;
		for (int i = 0; i < s.k; i++) r.p[i] = s.start[i];
		r.parent = r.op = -1;
		r.used.assign(s.steps.size(), false);
		nodes.push_back(r);
		while (expd < limit && !solved) {
			double pt[3];
			for (int i = 0; i < s.k; i++) pt[i] = rng.real();
			auto dist = [&](const double *p) { double d = 0; for (int i = 0; i < s.k; i++) d += (p[i] - pt[i]) * (p[i] - pt[i]); return d; };
			size_t best = 0;
			double bd = INFINITY, second = INFINITY;
			for (size_t i = 0; i < nodes.size(); i++) {
				double d = dist(nodes[i].p);
				if (d < bd) { second = bd; bd = d; best = i; } else second = std::min(second, d);
			}
			if (second - bd < 1e-12) decided = false;
			expd++;
			N kid;
			kid.op = -1;
			double kd = INFINITY, ks = INFINITY;
			for (size_t o = 0; o < s.steps.size() && !solved; o++) {
				if (!s.applies((int) o, nodes[best].p) || nodes[best].used[o]) continue;
				double q[3];
				s.act((int) o, nodes[best].p, q);
				if (s.goal(q)) {
					ops.push_back((int) o);
					for (int i = (int) best; nodes[i].parent >= 0; i = nodes[i].parent) ops.push_back(nodes[i].op);
					solved = true;
					break;
				}
				double d = dist(q);
				ks = std::min(ks, std::max(d, kd));
				if (d < kd) { kd = d; kid.op = (int) o; memcpy(kid.p, q, sizeof q); }
			}
			if (ks - kd < 1e-12) decided = false;
			if (solved || kid.op < 0) continue;
			nodes[best].used[kid.op] = true;
			kid.parent = (int) best;
			kid.used.assign(s.steps.size(), false);
			nodes.push_back(kid);
		}
	}
};

template<int KK> static void replay(Case &c, const Spec &s, World<KK> &w, Result<World<KK>> &res) {
	auto &path = res.path;
	auto &ops = res.ops;
	if (path.empty()) { CHECK(ops.empty(), "operators without a path"); return; }
	CHECK(path.size() == ops.size() + 1, "%zu operators for %zu states", ops.size(), path.size());
	for (int i = 0; i < KK; i++) CHECK(path.back().p[i] == s.start[i], "the path does not begin at the start");
	for (size_t i = ops.size(); i-- > 0; ) {
		CHECK(ops[i] >= 0 && ops[i] < (int) s.steps.size() && s.applies(ops[i], path[i + 1].p), "operator %d of the path does not apply", ops[i]);
		double q[3];
		s.act(ops[i], path[i + 1].p, q);
		for (int k = 0; k < KK; k++) CHECK(q[k] == path[i].p[k], "operator %d does not lead to the path's next state", ops[i]);
	}
	CHECK(w.isgoal(path.front()), "the path does not end at a goal");
}

// The picture shows the tree: a line for each node but the root, and a dot for each.
// Nodes may be too close to tell apart, so several may take one mark for theirs.
static void picture(Case &c, const Spec &s, const Tree &t) {
	ps::Mat base;
	ps::Doc d = document(c, prog::slurp("rrt.eps"), s.w, s.h, false, -1, base);
	size_t n = t.nodes.size(), lines = 0, dots = 0;
	auto at = [&](int i) { ps::Pt p = { t.nodes[i].p[0] * s.w, t.nodes[i].p[1] * s.h }; return p; };
	auto close = [&](const ps::Pt &a, const ps::Pt &b) { return std::fabs(a.x - b.x) < 1e-4 * s.w && std::fabs(a.y - b.y) < 1e-4 * s.h; };
	std::vector<int> gotline(n, 0), gotdot(n, 0);
	for (auto &m : d.marks) {
		CHECK(!m.path.empty(), "a mark without a path");
		bool found = false;
		if (m.path.back().kind == ps::Seg::Arc) {
			dots++;
			for (size_t i = 0; i < n; i++) if (close(m.path.back().p, at((int) i))) found = gotdot[i] = true;
			CHECK(found, "a dot at %g,%g", m.path.back().p.x, m.path.back().p.y);
		} else {
			lines++;
			CHECK(m.path.size() == 2, "a path of %zu parts", m.path.size());
			const ps::Pt &p = m.path[0].p, &q = m.path[1].p;
			for (size_t i = 1; i < n; i++) {
				ps::Pt a = at((int) i), b = at(t.nodes[i].parent);
				if ((close(p, a) && close(q, b)) || (close(p, b) && close(q, a))) found = gotline[i] = true;
			}
			CHECK(found, "a line from %g,%g to %g,%g", p.x, p.y, q.x, q.y);
		}
	}
	for (size_t i = 0; i < n; i++) CHECK(gotdot[i] && (!i || gotline[i]), "node %zu is not drawn", i);
	CHECK(lines == n - 1 && dots == n, "%zu lines and %zu dots for %zu nodes", lines, dots, n);
}

static std::string output(std::function<void()> fn) {
	fflush(stdout);
	int old = dup(1), fd = open("out", O_RDWR | O_CREAT | O_TRUNC, 0666);
	dup2(fd, 1);
	fn();
	fflush(stdout);
	dup2(old, 1);
	close(old);
	close(fd);
	return prog::slurp("out");
}

template<int KK> static void run(Case &c, const Spec &s) {
	uint64_t seed = c.chance(1, 6) ? (c.flip() ? ~0ul : 1ul << 63) : c.draw(100000);
	size_t limit = 1 + c.size(0, 400);
	bool gendlimit = c.chance(1, 6);
	std::string seedarg = strf("%lu", (unsigned long) seed), limarg = strf("%zu", gendlimit ? 100000000 : limit);
	const char *argv[] = { "rrt", "-expd", limarg.c_str(), "-s", seedarg.c_str(), nullptr };
	c.desc("%sseed %s, at most %zu%s\n", told(s).c_str(), seedarg.c_str(), limit, gendlimit ? " generations" : "");
	std::string genarg = strf("%zu", limit);
	const char *gargv[] = { "rrt", "-gend", genarg.c_str(), "-s", seedarg.c_str(), nullptr };
	Tree t(s, seed, limit);
	World<KK> w(s);
	auto s0 = w.initialstate(), keep = s0;
	RRT<World<KK>> r(5, gendlimit ? gargv : argv);
	int times = c.chance(1, 4) ? 2 : 1;
	for (int i = 0; i < times; i++) {
		pbt::clearscratch();
		w.asked = w.taken = 0;
		r.search(w, s0);
		CHECK(w.err.empty(), "%s", w.err.c_str());
		CHECK(!memcmp(s0.p, keep.p, sizeof s0.p), "the start state was changed");
		replay(c, s, w, r.res);
		CHECK(r.res.expd == w.asked, "%lu expansions for %zu", r.res.expd, w.asked);
		CHECK(r.res.gend >= w.taken, "%lu generations for %zu", r.res.gend, w.taken);
		CHECK(gendlimit || r.res.expd <= limit, "%lu expansions, the limit is %zu", r.res.expd, limit);
		if (gendlimit) {
			CHECK(r.res.gend < limit + s.steps.size(), "%lu generations, the limit is %zu", r.res.gend, limit);
			t = Tree(s, seed, r.res.expd);
		} else if (r.res.path.empty()) CHECK(r.res.expd == limit, "it stops without a solution after %lu of %zu expansions", r.res.expd, limit);
		if (!t.decided) c.discard();
		CHECK(t.solved == !r.res.path.empty(), "it finds %s path", r.res.path.empty() ? "no" : "a");
		CHECK(t.expd == r.res.expd, "%lu expansions, %zu by the definition", r.res.expd, t.expd);
		CHECK(std::vector<int>(r.res.ops.begin(), r.res.ops.end()) == t.ops, "the path has %zu operators, by the definition %zu, or others", r.res.ops.size(), t.ops.size());
		picture(c, s, t);
		if (c.chance(1, 8) || i + 1 < times) {
			std::string o = output([&] { r.output(stdout); });
			CHECK(prog::value(o, "RRT seed") == seedarg, "the seed is given as %s", prog::value(o, "RRT seed").c_str());
			CHECK(prog::value(o, "KD-tree size") == strf("%zu", t.nodes.size()), "the size is given as %s, not %zu", prog::value(o, "KD-tree size").c_str(), t.nodes.size());
			unsigned long depth = strtoul(prog::value(o, "KD-tree depth").c_str(), NULL, 10);
			CHECK(depth <= t.nodes.size() && depth >= 1 && (depth > 60 || (1ul << depth) > t.nodes.size()), "the depth of %zu nodes is given as %lu", t.nodes.size(), depth);
			CHECK(prog::value(o, "total nodes expanded") == strf("%zu", t.expd), "expansions are given as %s", prog::value(o, "total nodes expanded").c_str());
		}
		if (i + 1 < times) r.reset();
	}
	if (t.solved && t.ops.size() >= 3) c.nontrivial();
	if (times == 2) c.label("reset");
}

PROP(rrt_tree, 20000, 600000, "a solution of at least three steps") {
	Spec s = gen(c);
	if (s.k == 2) run<2>(c, s);
	else run<3>(c, s);
}

PROP(rrt_seed, 40, 400, "every case") {
	Spec s = gen(c);
	s.k = 2;
	c.nontrivial();
	static const char *bad[] = { "x", "seed", "", "-", "two" };
	const char *arg = bad[c.draw(5)];
	const char *argv[] = { "rrt", "-s", arg, nullptr };
	c.desc("seed \"%s\"\n", arg);
	std::string err;
	int st = c.sub([&] { RRT<World<2>> r(3, argv); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && !err.empty() && err.find("AddressSanitizer") == std::string::npos, "a seed that is no number is not refused (status %x): %s", st, err.c_str());
}
