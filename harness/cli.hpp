// P38: the solver programs, run on generated instances with generated
// algorithms and options, against the cost that the harness's model knows.
#pragma once
#include "domcheck.hpp"
#include "prog.hpp"
#include <cctype>

struct CliTraits {
	bool admissible = true, consistent = true, infinite = false;
	bool ida = false;	// small enough for iterative deepening
	bool realtime = true;	// every state can still reach the goal
	bool lvl = false;	// takes the instance from -lvl as well
	bool rrt = false;	// has the sampling-based planner
	bool unit = true;	// every step costs one
	double h0 = NAN, d0 = NAN;	// the start's estimates
	double tol = 1e-6;
	size_t budget = 0;	// most expansions, if the space is large
};

struct CliRun {
	prog::Out o;
	double cost = NAN;
	size_t len = 0;	// states on the path
	std::string alg;
};

static inline std::string words(const std::vector<std::string> &v) {
	std::string s;
	for (auto &x : v) s += (s.empty() ? "" : " ") + x;
	return s;
}

// Every line of a datafile has one of its forms, and rows have the columns announced.
static inline void wellformed(Case &c, const std::string &out, const std::string &what) {
	CHECK(!out.empty() && out.back() == '\n', "%s: the output does not end with a line: %s", what.c_str(), prog::shown(out).c_str());
	auto ls = prog::lines(out);
	CHECK(ls.size() > 2 && ls[0] == "#start data file format 4", "%s: the output begins %s", what.c_str(), prog::shown(ls[0]).c_str());
	CHECK(ls.back() == "#end data file format 4", "%s: the output ends %s", what.c_str(), prog::shown(ls.back()).c_str());
	std::map<std::string, size_t> cols;
	for (size_t i = 1; i + 1 < ls.size(); i++) {
		const std::string &l = ls[i];
		std::string k, v;
		if (l.compare(0, 5, "#pair") == 0) {
			CHECK(prog::pairline(l, k, v) && !k.empty() && k.find('"') == std::string::npos && v.find('"') == std::string::npos, "%s: line %zu is no pair: %s", what.c_str(), i, prog::shown(l).c_str());
		} else if (l.compare(0, 8, "#altcols") == 0 || l.compare(0, 7, "#altrow") == 0) {
			bool head = l[4] == 'c';
			size_t at = head ? 8 : 7;
			CHECK(l.compare(at, 3, "  \"") == 0, "%s: line %zu is %s", what.c_str(), i, prog::shown(l).c_str());
			size_t q = l.find('"', at + 3);
			CHECK(q != std::string::npos, "%s: line %zu is %s", what.c_str(), i, prog::shown(l).c_str());
			std::string name = l.substr(at + 3, q - at - 3);
			size_t n = 0, p = q + 1;
			while (p < l.size()) {
				CHECK(l[p] == '\t', "%s: line %zu is %s", what.c_str(), i, prog::shown(l).c_str());
				size_t e = l.find('\t', p + 1);
				if (e == std::string::npos) e = l.size();
				std::string f = l.substr(p + 1, e - p - 1);
				if (head) CHECK(f.size() >= 2 && f[0] == '"' && f.back() == '"', "%s: column %s", what.c_str(), f.c_str());
				else {
					char *end = nullptr;
					strtod(f.c_str(), &end);
					CHECK(end != f.c_str() && *end == '\0', "%s: the field %s of line %zu is no number", what.c_str(), f.c_str(), i);
				}
				n++;
				p = e;
			}
			if (head) cols[name] = n;
			else {
				CHECK(cols.count(name), "%s: rows without columns: %s", what.c_str(), prog::shown(l).c_str());
				CHECK(cols[name] == n, "%s: %zu fields under %zu columns: %s", what.c_str(), n, cols[name], prog::shown(l).c_str());
			}
		} else {
			c.fail("%s: line %zu is %s", what.c_str(), i, prog::shown(l).c_str());
		}
	}
}

static inline size_t times(const std::string &out, const std::string &key) {
	size_t n = 0;
	std::string k, v;
	for (auto &l : prog::lines(out)) n += prog::pairline(l, k, v) && k == key;
	return n;
}
static inline double number(Case &c, const std::string &out, const std::string &key) {
	size_t n = times(out, key);
	CHECK(n == 1, "\"%s\" is given %zu times in\n%s", key.c_str(), n, out.c_str());
	std::string v = prog::value(out, key);
	char *end = nullptr;
	double x = strtod(v.c_str(), &end);
	CHECK(end != v.c_str() && *end == '\0', "\"%s\" is \"%s\"", key.c_str(), v.c_str());
	return x;
}

// The algorithm and its options; see pickalg for the first of them.
static inline SolveAlg clialg(Case &c, const CliTraits &t) {
	SolveAlg s;
	s.optimal = false;
	s.bound = INFINITY;
	if (c.chance(3, 5)) {
		s = pickalg(c, t.ida, t.admissible, t.consistent, t.infinite);
		s.args.erase(s.args.begin());
		return s;
	}
	std::vector<int> ks = { 0, 1, 2, 3 };
	if (!t.infinite) ks.push_back(4);
	if (t.realtime && !t.infinite) { ks.push_back(5); ks.push_back(6); }
	if (t.rrt) ks.push_back(7);
	switch (c.pick(ks)) {
	case 0: s.args = { "astar-dump" }; s.optimal = t.admissible; break;
	case 1: s.args = { "wastar", "-wt", "2", "-dropdups" }; break;
	case 2: s.args = { "arastarnora", "-wt0", "2", "-dwt", "0.25", "-lambda", c.flip() ? "1e-9" : "0.001" }; break;
	case 3: s.args = { "bugsy", "-wf", "1", "-wt", "0", "-expdelay" }; s.optimal = t.admissible; break;
	case 4: s.args = { "beam", "-width", strf("%d", 2 + (int) c.draw(60)) }; break;
	case 5: s.args = { "lsslrtastar2", "-lookahead", strf("%d", 1 + (int) c.draw(12)) }; break;
	case 7: s.args = { "rrt", "-s", strf("%ld", (long) c.draw(1000)) }; break;
	case 6: s.args = { "fhatlrtastar", "-lookahead", strf("%d", 1 + (int) c.draw(12)) }; break;
	}
	return s;
}

static inline CliRun clisolve(Case &c, const std::string &name, const std::string &text, double opt, const CliTraits &t) {
	SolveAlg s = clialg(c, t);
	CliRun r;
	r.alg = s.args[0];
	// Options may stand anywhere after the name of the algorithm.
	bool file = t.lvl && c.flip();
	long expd = c.chance(1, 6) ? 1 + (long) c.size(0, 40) : (long) t.budget;
	if (r.alg == "rrt" && (!expd || expd > 3000)) expd = 3000;
	if (expd) {
		std::vector<std::string> e = { "-expd", strf("%ld", expd) };
		s.args.insert(c.flip() ? s.args.end() : s.args.begin() + 1, e.begin(), e.end());
	}
	if (file) {
		prog::spew("instance", text);
		std::vector<std::string> e = { "-lvl", "instance" };
		s.args.insert(c.flip() ? s.args.end() : s.args.begin() + 1, e.begin(), e.end());
	}
	std::string what = name.substr(5) + " " + words(s.args);
	c.desc("%s\n", what.c_str());
	r.o = prog::run(name, s.args, file ? "" : text, 60);
	CHECK(r.o.ok(), "%s ended with %d: %s", what.c_str(), r.o.status, prog::shown(r.o.err).c_str());
	const std::string &out = r.o.out;
	wellformed(c, out, what);
	CHECK(prog::value(out, "algorithm") == r.alg, "%s: the algorithm is %s", what.c_str(), prog::value(out, "algorithm").c_str());
	if (t.lvl) CHECK(prog::value(out, "level") == (file ? "instance" : ""), "%s: the level is %s", what.c_str(), prog::value(out, "level").c_str());
	r.cost = number(c, out, "final sol cost");
	r.len = (size_t) number(c, out, "final sol length");
	double h = number(c, out, "initial heuristic"), d = number(c, out, "initial distance");
	if (t.h0 == t.h0) CHECK(near(h, t.h0, t.tol), "%s: the start's estimate is given as %g, not %g", what.c_str(), h, t.h0);
	if (t.d0 == t.d0) CHECK(near(d, t.d0, t.tol), "%s: the start's distance is given as %g, not %g", what.c_str(), d, t.d0);
	double ex = number(c, out, "total nodes expanded"), ge = number(c, out, "total nodes generated");
	double cpu = number(c, out, "total raw cpu time"), wall = number(c, out, "total wall time");
	CHECK(ex >= 0 && ge >= 0 && cpu >= 0 && wall >= 0 && cpu < 100, "%s: %g expanded, %g generated in %g s of %g", what.c_str(), ex, ge, cpu, wall);
	number(c, out, "total nodes duplicated");
	number(c, out, "total nodes reopened");
	if (expd) CHECK(number(c, out, "expanded limit") == expd, "%s: the limit is %s", what.c_str(), prog::value(out, "expanded limit").c_str());
	else CHECK(times(out, "expanded limit") == 0, "%s: a limit is given", what.c_str());
	c.label(r.alg.c_str());
	if (r.cost == -1 && r.len == 0) {
		CHECK(opt == INFINITY || expd || r.alg == "beam", "%s found no solution, one costs %g", what.c_str(), opt);
		if (opt == INFINITY) c.label("unsolvable");
		return r;
	}
	CHECK(r.cost >= 0 && r.len >= 1, "%s: a solution of cost %g with %zu states", what.c_str(), r.cost, r.len);
	CHECK(opt < INFINITY, "%s found a solution of cost %g where there is none", what.c_str(), r.cost);
	CHECK(r.cost >= opt - t.tol * std::max(1.0, opt), "%s: cost %g, the cheapest costs %g", what.c_str(), r.cost, opt);
	if (prog::value(out, "converged") == "yes" && t.admissible && t.consistent) CHECK(near(r.cost, opt, t.tol), "%s: converged at cost %g, the cheapest costs %g", what.c_str(), r.cost, opt);
	// An anytime search that is stopped may not be there yet.
	bool stopped = expd && (r.alg == "arastar" || r.alg == "arastarnora");
	if (s.optimal && !stopped) CHECK(near(r.cost, opt, t.tol), "%s: cost %g, the cheapest costs %g", what.c_str(), r.cost, opt);
	else if (s.bound < INFINITY && !stopped) CHECK(r.cost <= s.bound * opt * (1 + 1e-6) + t.tol, "%s: cost %g, the cheapest costs %g", what.c_str(), r.cost, opt);
	if (t.unit) CHECK(near(r.cost, r.len - 1.0), "%s: a path of %zu states costs %g", what.c_str(), r.len, r.cost);
	else CHECK((r.len == 1) == (r.cost == 0) || r.cost < 1e-5, "%s: a path of %zu states costs %g", what.c_str(), r.len, r.cost);
	if (r.len > 1) CHECK(ex >= 1 && ge >= 1, "%s: %g nodes expanded and %g generated", what.c_str(), ex, ge);
	return r;
}

// What cannot be run is refused, and without a crash.
static inline void clirefuse(Case &c, const std::string &name, const std::string &text, const CliTraits &t) {
	std::vector<std::string> args;
	std::string in = text;
	switch (c.draw(t.lvl ? 10 : 9)) {
	case 0: break;
	case 1: { static const char *n[] = { "nosuchsearch", "astarx", "ASTAR", "-expd", "rtastar2", "" }; args = { n[c.draw(6)] }; break; }
	case 2: args = { "wastar" }; break;
	case 3: args = { "beam" }; break;
	case 4: args = { "lsslrtastar2" }; break;
	case 5: args = { "fhatlrtastar", "-lookahead" }; break;
	case 6: args = { "astar", "-mem", "5X" }; break;
	case 7: args = { "astar" }; in = ""; break;
	case 8: args = { "wastar", "-wt" }; break;
	case 9: args = { "astar", "-lvl", "no/such/file" }; break;
	}
	c.desc("%s %s\n", name.c_str(), words(args).c_str());
	prog::Out o = prog::run(name, args, in);
	CHECK(o.status > 0 && o.clean(), "%s %s ended with %d: %s", name.c_str(), words(args).c_str(), o.status, prog::shown(o.err).c_str());
	CHECK(o.out.find("final sol cost") == std::string::npos, "%s %s reports a solution", name.c_str(), words(args).c_str());
	c.label("refused");
}
