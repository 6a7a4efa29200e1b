// P01-P10: the search algorithms on explicit graphs.
#include <functional>
#include "graph.hpp"
#include "search/anyprof/profile.hpp"
#include <boost/optional.hpp>
#include "rdb/rdb.hpp"
#include "search/lsslrtastar.hpp"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include "utils/utils.hpp"

using pbt::Case;
using pbt::strf;

typedef std::vector<std::string> Args;

Searcher *search_int_copy(const Args&);
Searcher *search_int_inplace(const Args&);
Searcher *search_dbl_copy(const Args&);
Searcher *search_dbl_inplace(const Args&);

MkSearcher *variants(bool integer) {
	static MkSearcher i[] = { search_int_copy, search_int_inplace }, d[] = { search_dbl_copy, search_dbl_inplace };
	return integer ? i : d;
}

enum Kind { ASTAR, DUMP, WASTAR, GREEDY, SPEEDY, BUGSY, SLIM, IDA, ARA, MON, NORA, BEAM, LSS, FHAT, DTDUMP, DTA, NKINDS };
static const char *const names[] = { "astar", "astar-dump", "wastar", "greedy", "speedy", "bugsy", "bugsy-slim", "idastar",
	"arastar", "arastarmon", "arastarnora", "beam", "lsslrtastar2", "fhatlrtastar", "dtastar-dump", "dtastar" };

struct Alg {
	Kind kind;
	Args args;
	bool dropdups = false;
	double wt = 1;
	int lookahead = 0;
	bool timed = false;	// its choices depend on the clock
	bool dynamic = false;	// so does its look-ahead
	bool realtime() const { return kind >= LSS; }
	bool anytime() const { return kind == ARA || kind == MON || kind == NORA; }
	const char *name() const { return names[kind]; }
};

// A profile for arastarmon, made by the profile code itself once per worker.
static std::string profilefile() {
	std::string path = pbt::scratch() + "/prof";
	static bool made = false;
	if (!made || access(path.c_str(), R_OK) != 0) {
		std::vector<AnytimeProfile::SolutionStream> ss;
		for (int s = 0; s < 6; s++) {
			AnytimeProfile::SolutionStream st;
			double cost = 60 + 10 * s, t = 0.001;
			for (int i = 0; i < 6; i++) {
				AnytimeProfile::Solution sol = { cost, t };
				st.push_back(sol);
				cost -= 4 + s;
				t += 0.002 + 0.001 * i;
			}
			ss.push_back(st);
		}
		AnytimeProfile p(5, 6, ss);
		FILE *f = fopen(path.c_str(), "w");
		p.save(f);
		fclose(f);
		made = true;
	}
	return path;
}

// Training data for dtastar: the root of its database, and a level. There
// are six, with estimates and values of different size and shape.
static std::pair<std::string, std::string> training(int k) {
	static std::string dir[6];
	static std::string lvl[6];
	std::string root = pbt::scratch() + strf("/training%d", k);
	if (lvl[k].empty() || access(lvl[k].c_str(), R_OK) != 0) {
		static const char *const doms[][2] = { { "plat2d", "plat2d" }, { "grid_instances", "gridnav" }, { "tiles_instances", "tiles" } };
		RdbAttrs la, da;
		la.push_back("domain", doms[k % 3][0]);
		da.push_back("alg", "dtastar-dump");
		switch (k % 3) {
		case 0:
			da.push_back("type", "training");
			break;
		case 1:
			da.push_back("type", "cpp-seedinst");
			for (auto &p : { std::make_pair("costs", "Unit"), std::make_pair("moves", "Four-way"), std::make_pair("prob", "0.35") }) {
				la.push_back(p.first, p.second);
				da.push_back(p.first, p.second);
			}
			break;
		case 2:
			da.push_back("moved", "random_walk");
			da.push_back("length", "1000000");
			break;
		}
		for (auto &p : { std::make_pair(k % 3 == 2 ? "rows" : "width", "7"), std::make_pair(k % 3 == 2 ? "cols" : "height", "9") }) {
			la.push_back(p.first, p.second);
			da.push_back(p.first, p.second);
		}
		la.push_back("num", "0");
		mkdir(root.c_str(), 0777);
		for (int f = 0; f < 2; f++) {
			RdbAttrs at = da;
			at.push_back("num", strf("%d", f));
			FILE *o = fopen(pathfor((root + "/" + doms[k % 3][1]).c_str(), at).c_str(), "w");
			dfheader(o);
			dfrowhdr(o, "sample", 3, "h", "depth", "f");
			dfrowhdr(o, "branching", 1, "nkids");
			static const int top[] = { 10, 40, 4, 100, 25, 1 }, deep[] = { 3, 1, 4, 2, 6, 2 };
			for (int i = 0; i < 30 + 10 * k; i++) {
				dfrow(o, "branching", "u", (unsigned long) (1 + (i * 7 + k) % 4));
				double h = (i * 13 + f) % (top[k] + 1) * (k == 4 ? 0.75 : 1), v = h;
				for (int d = 1; d <= deep[k]; d++) {
					v += (i + d * k) % 3;
					dfrow(o, "sample", "gug", h, (unsigned long) d, v);
				}
			}
			dffooter(o);
			fclose(o);
		}
		lvl[k] = pathfor((pbt::scratch() + "/levels").c_str(), la);
		FILE *o = fopen(lvl[k].c_str(), "w");
		fclose(o);
		dir[k] = root;
	}
	return std::make_pair(dir[k], lvl[k]);
}

// The dynamic look-ahead keeps the table that it makes from training data
// below /tmp: here, below a directory of the harness's own.
#define PATHFOR _Z7pathforRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE8RdbAttrs
#define WRAPS(a) WRAPS1(a)
#define WRAPS1(a) __wrap_ ## a
#define REALS(a) REALS1(a)
#define REALS1(a) __real_ ## a
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::string REALS(PATHFOR)(const std::string &root, RdbAttrs attrs);
extern "C" std::string WRAPS(PATHFOR)(const std::string &root, RdbAttrs attrs) {
	if (root != "/tmp") return REALS(PATHFOR)(root, attrs);
	std::string dir = pbt::scratch() + "/lookahead-cache";
	mkdir(dir.c_str(), 0777);
	return REALS(PATHFOR)(dir, attrs);
}
#pragma clang diagnostic pop

static void dropcache() {
	std::string err, dir = pbt::scratch() + "/lookahead-cache";
	if (access(dir.c_str(), F_OK) != 0) return;
	std::string cmd = "rm -r -- '" + dir + "'";
	if (system(cmd.c_str()) != 0) abort();
}

// A domain for the dynamic look-ahead: the attributes of levels and of data.
struct DynDom {
	const char *level, *data;
	std::vector<std::pair<std::string, std::string>> la, da;
};
static DynDom dyndom(int k, const std::string &alg) {
	DynDom d;
	d.da.push_back({"alg", alg});
	d.da.push_back({"onestep", "no"});
	auto both = [&](const char *key, const char *val) { d.la.push_back({key, val}); d.da.push_back({key, val}); };
	switch (k) {
	case 0: case 1:
		d.level = d.data = k ? "traffic" : "plat2d";
		d.da.push_back({"type", "training"});
		both("width", "7");
		both("height", "9");
		if (k) both("obstacles", "12");
		break;
	case 2:
		d.level = "grid_instances";
		d.data = "gridnav";
		d.la.push_back({"obstacles", "uniform"});
		d.da.push_back({"type", "cpp-seedinst"});
		both("costs", "Life");
		both("moves", "Eight-way");
		both("prob", "0.2");
		both("width", "30");
		both("height", "40");
		break;
	case 3:
		d.level = "grid_instances";
		d.data = "gridnav";
		d.la.push_back({"obstacles", "hog2"});
		d.da.push_back({"type", "cpp-seedinst"});
		for (auto &p : { std::make_pair("costs", "Unit"), std::make_pair("moves", "Four-way"), std::make_pair("prob", "0.35"), std::make_pair("width", "5000"), std::make_pair("height", "5000") })
			d.da.push_back({p.first, p.second});
		break;
	case 4:
		d.level = "tiles_instances";
		d.data = "tiles";
		d.da.push_back({"model", "random_walk"});
		d.da.push_back({"length", "1000000"});
		both("rows", "4");
		both("cols", "4");
		break;
	}
	return d;
}
static std::string dynlevel(const std::string &root, const DynDom &d) {
	RdbAttrs a;
	a.push_back("domain", d.level);
	for (auto &p : d.la) a.push_back(p.first, p.second);
	a.push_back("num", "0");
	std::string path = pathfor(root + "/levels", a);
	fclose(fopen(path.c_str(), "w"));
	return path;
}
static void dynfile(const std::string &root, const DynDom &d, unsigned int size, int n, double time) {
	RdbAttrs a;
	for (auto &p : d.da) a.push_back(p.first, p.second);
	a.push_back("lookahead", strf("%u", size));
	a.push_back("num", strf("%d", n));
	FILE *o = fopen(pathfor(root + "/" + d.data, a).c_str(), "w");
	dfheader(o);
	dfpair(o, "max step cpu time", "%g", time * 3);
	if (time >= 0) dfpair(o, "mean step cpu time", "%.17g", time);
	dfpair(o, "min step cpu time", "%g", time / 3);
	dffooter(o);
	fclose(o);
}
// The options for a dynamic look-ahead of at most eight states.
static const int DynMax = 8;
static Args dynopts(const std::string &alg) {
	static std::map<std::string, std::string> lvl;
	std::string root = pbt::scratch() + "/dyn";
	if (lvl[alg].empty() || access(lvl[alg].c_str(), R_OK) != 0) {
		mkdir(root.c_str(), 0777);
		mkdir((root + "/levels").c_str(), 0777);
		DynDom d = dyndom(0, alg);
		static const int size[] = { 8, 1, 3, 5, 2 };
		for (int n : size) dynfile(root, d, (unsigned) n, 0, n * 1.07e-5 + 3.3e-7);
		lvl[alg] = dynlevel(root, d);
	}
	return { "-dynlss", root, "-lvl", lvl[alg] };
}

static std::string num(double x) { return strf("%g", x); }

static Alg genalg(Case &c, unsigned long mask) {
	std::vector<Kind> ks;
	for (int k = 0; k < NKINDS; k++) if (mask >> k & 1) ks.push_back((Kind) k);
	Alg a;
	a.kind = c.pick(ks);
	std::vector<Args> opts;
	auto dd = [&]() { if (c.flip()) { a.dropdups = true; opts.push_back({"-dropdups"}); } };
	switch (a.kind) {
	case WASTAR: {
		static const double ws[] = { 1, 1.5, 2, 3, 1.1, 10, 1.0001 };
		a.wt = ws[c.draw(7)];
		opts.push_back({"-wt", num(a.wt)});
		dd();
		break;
	}
	case GREEDY: case SPEEDY:
		dd();
		break;
	case BUGSY: {
		double wf = c.draw(3), wt = c.draw(3);
		opts.push_back({"-wf", num(wf)});
		opts.push_back({"-wt", num(wt)});
		a.timed = wt > 0;
		static const char *fl[] = { "-noresort", "-expdelay", "-hhat", "-dhat", "-interph" };
		for (const char *f : fl) if (c.chance(1, 3)) opts.push_back({f});
		if (c.chance(1, 5)) opts.push_back({"-hlms", strf("%g,%g,%g,%g", c.draw(3) * 0.5, c.draw(3) * 0.5, c.draw(3) * 0.5, c.draw(3) * 0.5)});
		if (c.chance(1, 5)) opts.push_back({"-dlms", strf("%g,%g,%g,%g", c.draw(3) * 0.5, c.draw(3) * 0.5, c.draw(3) * 0.5, c.draw(3) * 0.5)});
		dd();
		break;
	}
	case SLIM:
		opts.push_back({"-wf", num(c.draw(3))});
		opts.push_back({"-wt", num(c.draw(3))});
		break;
	case MON:
		opts.push_back({"-p", profilefile()});
		opts.push_back({"-wf", num(1 + c.draw(3))});
		opts.push_back({"-wt", num(c.draw(3) * 1000)});
	case NORA: case ARA: {
		static const double w0[] = { 1, 1.5, 2, 3, 5, 20 }, dw[] = { 0.2, 0.5, 1, 3, 0.05 };
		a.wt = w0[c.draw(6)];
		opts.push_back({"-wt0", num(a.wt)});
		opts.push_back({"-dwt", num(a.wt >= 5 ? dw[1 + c.draw(3)] : dw[c.draw(5)])});
		if (a.kind == NORA) opts.push_back({"-lambda", num(c.flip() ? 1e-9 : 1000 * (1 + c.draw(10)))});
		break;
	}
	case BEAM: {
		static const int wd[] = { 1, 2, 3, 5, 8, 20, 1000 };
		opts.push_back({"-width", strf("%d", wd[c.draw(7)])});
		dd();
		break;
	}
	case DTA: {
		static const double ws[] = { 1, 0.001, 1e-6, 1000, 1e6 };
		std::pair<std::string, std::string> t = training((int) c.draw(6));
		opts.push_back({"-root", t.first});
		opts.push_back({"-lvl", t.second});
		opts.push_back({"-wf", num(c.pick(std::vector<double>(ws, ws + 5)))});
		opts.push_back({"-wt", num(c.pick(std::vector<double>(ws, ws + 5)))});
		opts.push_back({"-grainsize", strf("%ld", c.chance(1, 4) ? 1000 : c.range(1, 6))});
		if (c.flip()) opts.push_back({"-learnfull"});
		a.lookahead = (int) (c.chance(1, 5) ? 1000 : c.range(1, 12));
		opts.push_back({"-lookahead", strf("%d", a.lookahead)});
		break;
	}
	case DTDUMP:
		opts.push_back({"-samplep", num(c.flip() ? 1 : 0.25)});
		opts.push_back({"-horizon", strf("%ld", c.range(1, 3))});
	case LSS: case FHAT:
		a.lookahead = (int) (c.chance(1, 5) ? 1000 : c.range(1, 12));
		opts.push_back({"-lookahead", strf("%d", a.lookahead)});
		if (a.kind != DTDUMP && c.flip()) opts.push_back({"-onestep"});
		if (a.kind == LSS) {
			if (c.chance(1, 3)) opts.push_back({"-complete"});
			if (c.chance(1, 3)) opts.push_back({"-wt", num(1 + c.draw(3))});
		}
		if (c.chance(1, 8)) {
			a.lookahead = std::max(DynMax, a.lookahead);
			a.dynamic = true;
			std::string alg = names[a.kind];
			for (auto &o : opts) if (o[0] == "-complete") alg = "lsslrtastar-complete";
			opts.push_back(dynopts(alg));
			opts.push_back({"-gscale", num(c.pick(std::vector<double>{ 1e-6, 1e-5, 3e-5, 1e-3 }))});
			dropcache();
		}
		break;
	default:
		break;
	}
	a.args = { "solver", names[a.kind] };
	while (!opts.empty()) {
		size_t i = c.draw(opts.size());
		a.args.insert(a.args.end(), opts[i].begin(), opts[i].end());
		opts.erase(opts.begin() + i);
	}
	return a;
}

static const unsigned long
	Realtime = 1ul << LSS | 1ul << FHAT | 1ul << DTDUMP | 1ul << DTA,
	Anytime = 1ul << ARA | 1ul << MON | 1ul << NORA,
	BestFirst = 1ul << ASTAR | 1ul << DUMP | 1ul << WASTAR | 1ul << GREEDY | 1ul << SPEEDY | 1ul << BUGSY | 1ul << SLIM,
	All = (1ul << NKINDS) - 1;

// Options of the graphs an algorithm can be run on.
static GenOpts graphfor(Case &c, const Alg &a) {
	GenOpts o;
	o.integer = c.flip();
	o.big = true;
	// Those that reopen states in whatever order can take very long.
	o.huge = a.kind == ASTAR || a.kind == DUMP || a.kind == WASTAR || a.kind == BEAM || a.anytime();
	if (a.realtime()) {
		o.positive = o.safe = o.needsol = true;
		o.heur = 2;
		o.big = false;
		o.nmax = 25;
		o.nod = a.kind == FHAT && c.chance(1, 3);
	} else if (a.kind == IDA) {
		o.nmax = 10;
		o.maxdeg = 3;
		o.positive = true;
		o.big = false;
	} else if (a.anytime()) {
		o.heur = 2;
		o.nmax = 64;
		o.trade = true;
	}
	return o;
}

static const unsigned long IdaStop = 60000;

static RunOpts runopts(const Alg &a) {
	RunOpts r;
	// These may not end on every graph; the others must.
	if (a.kind == IDA) r.stop = IdaStop;
	if (a.kind == FHAT) r.maxhashes = 3000000;
	return r;
}

// The states round which a search that was given up went again and again
// (a hundred times at least), or none.
static std::vector<int> circles(const Graph &g, const Outcome &o) {
	std::vector<int> at { g.start };
	for (int op : o.moves) {
		const GEdge *e = g.find(at.back(), op);
		if (!e) return {};
		at.push_back(e->to);
	}
	size_t n = at.size();
	for (size_t len = 1; len <= (size_t) g.n && 100 * len < n; len++) {
		size_t i = n - 100 * len;
		while (i + len < n && at[i] == at[i + len]) i++;
		if (i + len == n) return std::vector<int>(at.end() - len, at.end());
	}
	return {};
}

static Outcome run(Case &c, Searcher &s, const Graph &g, const Alg &a, RunOpts r) {
	vclock = 1000;
	randgen = Rand(12345);
	Outcome o = s.search(g, r);
	if (o.timedout && a.kind == FHAT) {
		std::vector<int> circle = circles(g, o);
		if (circle.empty()) c.fail("%s does not end", a.name());
		// With distances of 0 its order is that of f, and it may not;
		// otherwise see the finding fhat-circles.
		bool dists = false;
		for (int u = 0; u < g.n; u++) if (g.reach[u] && g.d[u] != 0) dists = true;
		if (!dists) c.fail("%s goes round %zu states for ever", a.name(), circle.size());
		c.label("went in circles");
		c.discard();
	}
	return o;
}

static void describe(Case &c, const Graph &g, const Alg &a, bool inplace) {
	c.desc("%s, %s costs, states %s\n%s", argstr(a.args).c_str(), g.integer ? "integer" : "real",
		inplace ? "edited in place" : "copied", g.str().c_str());
}

PROP(valid_solution, 60000, 1500000, "a solution of at least two steps was found after meeting a state again, or a limit stopped the search") {
	Alg a = genalg(c, All);
	GenOpts go = graphfor(c, a);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	bool lim = c.chance(1, 4);
	if (lim) {
		a.args.push_back(c.flip() ? "-expd" : "-gend");
		a.args.push_back(strf("%ld", c.range(1, 2 * g.n + 2)));
	}
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	if (o.timedout) { c.label("IDA* gave up"); c.discard(); }
	double cost = checkpath(c, g, o, a.name());
	if (o.found && a.anytime()) {
		auto rows = dfrows(o.out, "incumbent");
		CHECK(!rows.empty(), "%s returns a solution it did not report", a.name());
		// The path may be cheaper than reported, as its prefix improved since.
		CHECK(cost <= strtod(rows.back().at(5).c_str(), nullptr) * (1 + 1e-5) + 1e-9,
			"%s reports cost %s for a path that costs %g", a.name(), rows.back().at(5).c_str(), cost);
	}
	c.label(a.name());
	if (o.found) c.label("solved");
	if ((o.found && o.ops.size() >= 2 && (o.dups > 0 || a.realtime() || a.kind == IDA)) || (lim && !o.found && g.solvable()))
		c.nontrivial();
}

// The rows of training data on the path that was found.
static void pathrows(Case &c, const Graph &g, const Outcome &o, double cost) {
	auto rows = dfrows(o.out, "path");
	CHECK(rows.size() == o.path.size(), "%zu states of a path of %zu were dumped", rows.size(), o.path.size());
	double rest = 0;
	for (size_t i = 0; i < rows.size(); i++) {	// from the goal back
		size_t k = o.path.size() - 1 - i;
		auto v = [&](int j) { return strtod(rows[i].at(j).c_str(), nullptr); };
		auto is = [&](double x, double y) { return std::fabs(x - y) <= 1e-4 * std::max(1.0, std::fabs(y)); };
		CHECK(is(v(4), rest), "dumped h* of path state %zu is %g, the rest of the path costs %g", k, v(4), rest);
		CHECK(is(v(0), cost - rest), "dumped g of path state %zu is %g, it is reached with %g", k, v(0), cost - rest);
		CHECK(is(v(1), g.h[o.path[k]]), "dumped h of state %d is %g, not %g", o.path[k], v(1), g.h[o.path[k]]);
		CHECK(is(v(3), g.integer ? (int) g.d[o.path[k]] : g.d[o.path[k]]), "dumped d of state %d is %g, not %g", o.path[k], v(3), g.d[o.path[k]]);
		CHECK(v(5) == (double) i, "dumped d* of path state %zu is %g, not %zu", k, v(5), i);
		CHECK(v(2) == (double) k, "dumped depth of path state %zu is %g", k, v(2));
		if (k > 0) rest += g.find(o.path[k-1], o.ops[k-1])->cost;
	}
}

PROP(optimal, 60000, 1500000, "the cheapest solution takes at least two steps and not every operator lies on it") {
	static const unsigned long opt = 1ul << ASTAR | 1ul << DUMP | 1ul << IDA | 1ul << WASTAR | 1ul << BUGSY;
	std::vector<Kind> ks;
	for (int k = 0; k < NKINDS; k++) if (opt >> k & 1) ks.push_back((Kind) k);
	Alg a;
	a.kind = c.pick(ks);
	a.args = { "solver", names[a.kind] };
	if (a.kind == WASTAR) a.args.insert(a.args.end(), { "-wt", "1" });
	if (a.kind == BUGSY) {
		a.args.insert(a.args.end(), { "-wf", strf("%ld", c.range(1, 3)), "-wt", "0" });
		if (c.flip()) a.args.push_back("-noresort");
		if (c.flip()) a.args.push_back("-expdelay");
		a.args.insert(a.args.end(), { "-cputime", "0" });	// flags are not read when last
	}
	GenOpts go = graphfor(c, a);
	go.heur = 1;
	go.needsol = true;
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	if (o.timedout) { c.label("IDA* gave up"); c.discard(); }
	double cost = checkpath(c, g, o, a.name());
	CHECK(o.found, "%s found no solution, one of cost %g exists", a.name(), g.opt());
	CHECK(std::fabs(cost - g.opt()) < 1e-6, "%s found a solution of cost %g, the cheapest costs %g", a.name(), cost, g.opt());
	if (a.kind == DUMP) {
		pathrows(c, g, o, cost);
	}
	c.label(a.name());
	if (!g.consistent) c.label("inconsistent heuristic");
	if (o.reopnd) c.label("states reopened");
	if (o.ops.size() >= 2 && o.gend > o.ops.size()) c.nontrivial();
}

PROP(wastar_bound, 50000, 1200000, "the weight exceeds 1 and the solution takes at least two steps") {
	Alg a = genalg(c, 1ul << WASTAR);
	GenOpts go = graphfor(c, a);
	go.heur = 1;
	go.needsol = true;
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0));
	Outcome o = run(c, *s, g, a, runopts(a));
	double cost = checkpath(c, g, o, a.name());
	CHECK(o.found, "no solution found, one of cost %g exists", g.opt());
	// Dropping duplicates drops cheaper routes to open states too, so it voids the bound.
	if (!a.dropdups) CHECK(cost <= a.wt * g.opt() + 1e-6, "weight %g: the solution costs %g, the cheapest %g", a.wt, cost, g.opt());
	if (cost > g.opt() + 1e-6) c.label("suboptimal");
	if (a.dropdups) {
		c.label("dropdups");
		std::set<int> seen(o.expanded.begin(), o.expanded.end());
		CHECK(seen.size() == o.expanded.size(), "told to drop duplicates, yet %zu expansions of %zu states", o.expanded.size(), seen.size());
	}
	if (a.wt > 1 && o.ops.size() >= 2) c.nontrivial();
}

PROP(anytime, 40000, 1000000, "at least two incumbents were reported") {
	Alg a = genalg(c, Anytime);
	GenOpts go = graphfor(c, a);
	// The bounds are only promised for consistent heuristics.
	if (c.chance(1, 6)) go.heur = (int) c.draw(2);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xff));
	RunOpts ro = runopts(a);
	Outcome o = run(c, *s, g, a, ro);
	double cost = checkpath(c, g, o, a.name());
	if (!g.solvable()) {
		CHECK(!o.found, "a solution to a problem without one");
		return;
	}
	CHECK(o.found, "no solution found, one of cost %g exists", g.opt());
	auto rows = dfrows(o.out, "incumbent");
	CHECK(!rows.empty(), "no incumbent was reported");
	double last = INFINITY, lastwt = INFINITY;
	for (size_t i = 0; i < rows.size(); i++) {
		CHECK(rows[i].size() == 7, "an incumbent row has %zu fields", rows[i].size());
		auto v = [&](int j) { return strtod(rows[i][j].c_str(), nullptr); };
		c.desc("incumbent %g: expd %g gend %g weight %g bound %g cost %g\n", v(0), v(1), v(2), v(3), v(4), v(5));
		CHECK(v(0) == (double) i + 1, "incumbent %zu is numbered %g", i + 1, v(0));
		CHECK(v(5) < last, "incumbent %zu costs %g, the one before %g", i + 1, v(5), last);
		last = v(5);
		CHECK(v(3) >= 1 && v(3) <= lastwt && v(3) <= a.wt * (1 + 1e-5), "incumbent %zu has weight %g after %g", i + 1, v(3), lastwt);
		lastwt = v(3);
		CHECK(v(4) >= 1 - 1e-5 && v(4) <= v(3) * (1 + 1e-5), "incumbent %zu has bound %g with weight %g", i + 1, v(4), v(3));
		CHECK(v(5) >= g.opt() - 1e-4 * (1 + g.opt()), "incumbent %zu costs %g, the cheapest solution %g", i + 1, v(5), g.opt());
		if (g.consistent)
			CHECK(v(5) <= v(4) * g.opt() * (1 + 3e-5) + 1e-6, "incumbent %zu costs %g, its bound is %g, the cheapest solution costs %g", i + 1, v(5), v(4), g.opt());
	}
	CHECK(cost <= last * (1 + 1e-5) + 1e-9, "the path costs %g, the last incumbent %g", cost, last);
	std::string conv = dfget(o.out, "converged");
	CHECK(conv == "yes" || conv == "no", "converged is \"%s\"", conv.c_str());
	if (g.consistent && (a.kind == ARA || conv == "yes"))
		CHECK(std::fabs(cost - g.opt()) < 1e-6, "it ended with a solution of cost %g, the cheapest costs %g", cost, g.opt());
	if (conv == "no") c.label("stopped early or exhausted");
	if (!g.consistent) c.label("inconsistent heuristic");
	c.label(a.name());
	if (rows.size() >= 2) c.nontrivial();
	if (rows.size() >= 3) c.label("three or more incumbents");
}

PROP(complete, 50000, 1200000, "no goal can be reached, or the solution takes at least three steps, or the start is a goal") {
	Alg a = genalg(c, BestFirst | 1ul << ARA | 1ul << IDA);
	GenOpts go = graphfor(c, a);
	if (a.kind == IDA) {
		// Only where the tree of paths is finite.
		go.dag = true;
		go.nmax = 14;
	}
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0xb7));
	RunOpts ro;
	Outcome o = run(c, *s, g, a, ro);
	checkpath(c, g, o, a.name());
	CHECK(o.found == g.solvable(), "%s found %s solution, there is %s", a.name(), o.found ? "a" : "no", g.solvable() ? "one" : "none");
	if (g.goal[g.start])
		CHECK(o.path.size() == 1 && o.ops.empty(), "the start is a goal, the path has %zu states", o.path.size());
	if (!g.solvable() && a.kind != IDA) {
		// Everything reachable must have been looked at.
		std::set<int> seen(o.expanded.begin(), o.expanded.end());
		CHECK((int) seen.size() == g.nreach(), "%zu of %d reachable states were expanded before giving up", seen.size(), g.nreach());
	}
	c.label(a.name());
	c.label(g.solvable() ? "solvable" : "unsolvable");
	if (!g.solvable() || o.ops.size() >= 3 || g.goal[g.start]) c.nontrivial();
}

// A claim of having converged, however the search ended.
static void checkconverged(Case &c, const Graph &g, const Outcome &o) {
	if (dfget(o.out, "converged") != "yes") return;
	if (!g.solvable()) return;
	CHECK(o.found, "it says that it converged, without a solution, the cheapest costs %g", g.opt());
	CHECK(std::fabs(o.domcost - g.opt()) < 1e-6, "it says that it converged, to a solution of cost %g, the cheapest costs %g", o.domcost, g.opt());
	c.label("converged");
}

PROP(limits, 50000, 1200000, "the limit was reached, or lay just beyond what the search needed") {
	Alg a = genalg(c, All);
	GenOpts go = graphfor(c, a);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	Alg free = a;
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s0(mksearcher(g.integer, inplace, free.args, 0xb7));
	Outcome o0 = run(c, *s0, g, free, runopts(free));
	if (o0.timedout && a.kind != IDA) c.fail("%s does not end", a.name());
	int which = (int) c.draw(3);
	if (which == 2) {
		// A time limit, expiring during some expansion.
		if (o0.timedout) c.discard();
		a.args.push_back("-walltime");
		a.args.push_back("10000");
		std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0xb7));
		RunOpts ro = runopts(a);
		ro.alarmat = 1 + (long) c.draw(o0.expanded.size() + 2);
		c.desc("time is up at expansion %ld\n", ro.alarmat);
		Outcome o = run(c, *s, g, a, ro);
		checkpath(c, g, o, a.name());
		checkconverged(c, g, o);
		struct itimerval tv;
		struct sigaction sa;
		getitimer(ITIMER_REAL, &tv);
		sigaction(SIGALRM, nullptr, &sa);
		CHECK(tv.it_value.tv_sec == 0 && tv.it_value.tv_usec == 0, "a timer is left running");
		CHECK(sa.sa_handler == SIG_DFL, "the alarm handler is left installed");
		if ((long) o0.expanded.size() < ro.alarmat) {
			CHECK(o.path == o0.path && o.ops == o0.ops && o.expd == o0.expd && o.gend == o0.gend, "an unused time limit changed the result");
		} else {
			if (a.kind != DTDUMP)
				CHECK((long) o.expanded.size() <= ro.alarmat, "%zu expansions, time was up at %ld", o.expanded.size(), ro.alarmat);
			c.label("time limit hit");
			c.nontrivial();
		}
		unsigned long e, gn, m, cpu, wall;
		s->limits(e, gn, m, cpu, wall);
		CHECK(e == 0 && gn == 0 && m == 0 && cpu == 0 && wall == 10000, "limits are %lu %lu %lu %lu %lu", e, gn, m, cpu, wall);
		CHECK(dfget(o.stats, "wall time limit") == "10000", "the time limit is printed as %s", dfget(o.stats, "wall time limit").c_str());
		return;
	}
	bool expd = which == 0;
	unsigned long used = expd ? o0.expd : o0.gend, lim;
	if (c.chance(1, 3)) lim = used + 1 + c.draw(2);
	else lim = 1 + c.draw(used + 1);
	std::vector<std::string> extra = { expd ? "-expd" : "-gend", strf("%lu", lim) };
	a.args.insert(c.flip() ? a.args.end() : a.args.begin() + 2, extra.begin(), extra.end());
	c.desc("limit %s %lu (the search needs %lu)\n", extra[0].c_str(), lim, used);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0xb7));
	RunOpts ro = runopts(a);
	Outcome o = run(c, *s, g, a, ro);
	checkpath(c, g, o, a.name());
	checkconverged(c, g, o);
	unsigned long e, gn, m, cpu, wall;
	s->limits(e, gn, m, cpu, wall);
	CHECK(e == (expd ? lim : 0) && gn == (expd ? 0 : lim) && m == 0 && cpu == 0 && wall == 0,
		"limits set are %lu %lu %lu %lu %lu", e, gn, m, cpu, wall);
	std::string pr = dfget(o.stats, expd ? "expanded limit" : "generated limit");
	CHECK(o.timedout || pr == strf("%lu", lim), "the limit is printed as \"%s\"", pr.c_str());
	if (!o.timedout) {
		if (a.kind == DTDUMP) {
			// It looks around each step after the search proper.
		} else if (expd) {
			CHECK(o.expd <= lim && o.expanded.size() <= lim, "%lu (%zu) expansions with a limit of %lu", o.expd, o.expanded.size(), lim);
		} else {
			CHECK(o.gend <= lim + g.maxdeg(), "%lu generated with a limit of %lu and up to %d operators", o.gend, lim, g.maxdeg());
			CHECK(o.to.size() <= lim + g.maxdeg() + o.ops.size(), "%zu transitions with a limit of %lu", o.to.size(), lim);
		}
	}
	if (!o0.timedout && lim > used) {
		CHECK(o.path == o0.path && o.ops == o0.ops && o.expd == o0.expd && o.gend == o0.gend && o.dups == o0.dups && o.reopnd == o0.reopnd,
			"a limit that is not reached changed the result");
		c.label("limit not reached");
		c.nontrivial();
	} else if (lim <= used) {
		c.label("limit reached");
		c.nontrivial();
	}
	c.label(a.name());
}

PROP(limit_options, 400, 4000, "a memory limit was given") {
	Alg a = genalg(c, BestFirst);
	unsigned long want[5] = { 0, 0, 0, 0, 0 };
	static const char *opt[] = { "-expd", "-gend", "-mem", "-cputime", "-walltime" };
	static const struct { const char *s; unsigned long f; } suf[] = { { "", 1 }, { "K", 1000 }, { "M", 1000000 }, { "G", 1000000000 } };
	for (int i = 0; i < 5; i++) {
		if (!c.flip()) continue;
		std::string v;
		if (i == 2) {
			int k = (int) c.draw(4);
			unsigned long n = 40000000000ul / suf[k].f + c.draw(1000);
			want[i] = n * suf[k].f;
			v = strf("%lu%s", n, suf[k].s);
			if (k == 3 && c.flip()) { v = strf("%lu.5G", n); want[i] += 500000000; }
		} else {
			want[i] = 1 + c.draw(1000000);
			v = strf("%lu", want[i]);
		}
		size_t at = c.flip() ? a.args.size() : 2;
		a.args.insert(a.args.begin() + at, { opt[i], v });
	}
	c.desc("%s\n", argstr(a.args).c_str());
	std::string err;
	int st = c.sub([&]() {
		std::unique_ptr<Searcher> s(mksearcher(true, false, a.args, 0xb7));
		unsigned long g[5];
		s->limits(g[0], g[1], g[2], g[3], g[4]);
		for (int i = 0; i < 5; i++)
			if (g[i] != want[i]) { fprintf(stderr, "%s is %lu, not %lu\n", opt[i], g[i], want[i]); _exit(3); }
		if (aslimit != want[2]) { fprintf(stderr, "the address space was limited to %lu, not %lu\n", aslimit, want[2]); _exit(3); }
		_exit(0);
	}, &err);
	CHECK(st == 0, "limits: status %d: %s", st, err.c_str());
	if (want[2]) c.nontrivial();
}

PROP(statistics, 50000, 1200000, "at least five expansions and one duplicate") {
	Alg a = genalg(c, BestFirst | Anytime | 1ul << IDA | 1ul << BEAM | 1ul << LSS | 1ul << FHAT | 1ul << DTA);
	GenOpts go = graphfor(c, a);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	if (c.chance(1, 5)) {
		a.args.push_back("-expd");
		a.args.push_back(strf("%ld", c.range(1, g.n + 3)));
	}
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	if (o.timedout) c.discard();
	checkpath(c, g, o, a.name());
	size_t edges = o.to.size();
	if (a.realtime() && o.found) edges -= o.ops.size();	// the path is rebuilt afterwards
	CHECK(o.expd == o.expanded.size(), "%lu expansions reported, %zu states were expanded", o.expd, o.expanded.size());
	CHECK(o.gend == edges, "%lu generated states reported, %zu transitions were made", o.gend, edges);
	std::set<int> exp(o.expanded.begin(), o.expanded.end());
	unsigned long known = 0;
	std::set<int> seen { g.start };
	for (int v : o.to) if (!seen.insert(v).second) known++;
	if (!a.anytime() && a.kind != IDA && !a.realtime()) {
		CHECK(o.dups == known, "%lu duplicates reported, %lu transitions led to known states", o.dups, known);
		unsigned long again = o.expanded.size() - exp.size();
		CHECK(again <= o.reopnd && o.reopnd <= o.dups, "%lu states reopened, %lu expanded again, %lu duplicates", o.reopnd, again, o.dups);
		if (!o.found && a.kind != BEAM && a.args[a.args.size()-2] != "-expd")
			CHECK(again == o.reopnd, "%lu states reopened, %lu expanded again until there were no more", o.reopnd, again);
		std::string fill = dfget(o.stats, "closed fill");
		CHECK(fill == strf("%zu", seen.size()), "closed list fill is printed as \"%s\", there are %zu states", fill.c_str(), seen.size());
	} else if (a.kind == IDA) {
		CHECK(o.dups == 0 && o.reopnd == 0, "IDA* reports duplicates");
	} else if (a.anytime()) {
		// The known states are forgotten whenever the weight is lowered.
		CHECK(a.wt == 1 ? o.dups == known : o.dups <= known, "%lu duplicates reported, %lu transitions led to known states", o.dups, known);
	} else if (a.realtime()) {
		CHECK(exp.size() == o.expanded.size(), "a state was expanded twice");
		if (a.kind == LSS && g.integer && o.found && dfget(o.stats, "num steps") == "1") {
			// Only cheaper paths to known states count here.
			std::vector<double> gs(g.n, INFINITY);
			std::vector<int> parent(g.n, -1);
			unsigned long dups = 0;
			gs[g.start] = 0;
			for (int u : o.expanded) for (auto &e : g.adj[u]) {
				if (e.to == parent[u] || gs[u] + e.cost >= gs[e.to]) continue;
				if (parent[e.to] >= 0) dups++;
				gs[e.to] = gs[u] + e.cost;
				parent[e.to] = u;
			}
			CHECK(o.dups == dups, "%lu duplicates reported, %lu cheaper paths were found to known states", o.dups, dups);
			if (dups) c.label("cheaper path within the look-ahead");
		}
		std::string fill = dfget(o.stats, "num steps");
		CHECK(!fill.empty(), "no number of steps");
	}
	auto eq = [&](const char *key, unsigned long v) {
		std::string t = dfget(o.stats, key);
		CHECK(t == strf("%lu", v), "\"%s\" is printed as \"%s\", not %lu", key, t.c_str(), v);
	};
	eq("total nodes expanded", o.expd);
	eq("total nodes generated", o.gend);
	eq("total nodes duplicated", o.dups);
	eq("total nodes reopened", o.reopnd);
	eq("final sol length", o.rawpath);
	double wall = strtod(dfget(o.stats, "total wall time").c_str(), nullptr);
	CHECK(std::fabs(wall - 1e-5 * o.expanded.size()) < 2e-6 * (1 + wall), "wall time %g printed, %g passed", wall, 1e-5 * o.expanded.size());
	double cpu = strtod(dfget(o.stats, "total raw cpu time").c_str(), nullptr);
	CHECK(std::fabs(cpu - 0.5e-5 * o.expanded.size()) < 2e-6 * (1 + cpu), "processor time %g printed, %g passed", cpu, 0.5e-5 * o.expanded.size());
	// Another search, and the sum.
	if (c.chance(1, 3)) {
		GenOpts g2 = go;
		g2.big = false;
		Graph h = gengraph(c, g2);
		std::unique_ptr<Searcher> s2(mksearcher(g.integer, inplace, a.args, 0xb7));
		Outcome p;
		if (h.integer == g.integer) {
			p = run(c, *s2, h, a, runopts(a));
			if (!p.timedout) {
				Outcome q = s->addstats(*s2);
				CHECK(q.expd == o.expd + p.expd && q.gend == o.gend + p.gend && q.dups == o.dups + p.dups && q.reopnd == o.reopnd + p.reopnd,
					"sums of statistics: %lu %lu %lu %lu, of %lu %lu %lu %lu and %lu %lu %lu %lu", q.expd, q.gend, q.dups, q.reopnd,
					o.expd, o.gend, o.dups, o.reopnd, p.expd, p.gend, p.dups, p.reopnd);
				double all = 1e-5 * (o.expanded.size() + p.expanded.size()), w = strtod(dfget(q.stats, "total wall time").c_str(), nullptr),
					u = strtod(dfget(q.stats, "total raw cpu time").c_str(), nullptr);
				CHECK(std::fabs(w - all) < 4e-6 * (1 + w) && std::fabs(u - all / 2) < 4e-6 * (1 + u), "wall time %g and processor time %g summed, %g and %g passed",
					w, u, all, all / 2);
			}
		}
	}
	c.label(a.name());
	if (o.reopnd) c.label("reopened");
	if (o.expd >= 5 && (known > 0 || a.kind == IDA)) c.nontrivial();
}

static void same(Case &c, const Outcome &o, const Outcome &p, const char *what) {
	CHECK(o.path == p.path && o.ops == p.ops, "%s: paths of %zu and %zu states, or different ones", what, o.path.size(), p.path.size());
	CHECK(o.expd == p.expd && o.gend == p.gend && o.dups == p.dups && o.reopnd == p.reopnd,
		"%s: expanded %lu and %lu, generated %lu and %lu, duplicates %lu and %lu, reopened %lu and %lu", what,
		p.expd, o.expd, p.gend, o.gend, p.dups, o.dups, p.reopnd, o.reopnd);
	CHECK(o.expanded == p.expanded, "%s: different states were expanded", what);
	CHECK(o.rawpath == p.rawpath && o.rawops == p.rawops, "%s: results of different size", what);
}

static std::map<std::string, std::string> pairs(const std::string &text) {
	std::map<std::string, std::string> m;
	size_t at = 0;
	while ((at = text.find("#pair", at)) != std::string::npos) {
		size_t end = text.find('\n', at);
		std::string line = text.substr(at, end == std::string::npos ? end : end - at);
		at += 5;
		size_t a = line.find('"'), b = line.find('"', a + 1);
		if (a == std::string::npos || b == std::string::npos) continue;
		std::string key = line.substr(a + 1, b - a - 1);
		if (key.compare(0, 7, "closed ") == 0 || key.compare(0, 6, "nodes ") == 0 || key.compare(0, 4, "lss ") == 0) continue;
		m[key] = line.substr(b + 1);
	}
	return m;
}

PROP(reset_determinism, 40000, 1000000, "the object was reused after a search that expanded at least three states") {
	Alg a = genalg(c, All);
	GenOpts go = graphfor(c, a);
	bool inplace = c.flip();
	long rounds = c.range(2, 4);
	if (c.chance(1, 3)) {
		a.args.push_back("-expd");
		a.args.push_back(strf("%ld", c.range(1, 30)));
	}
	// A time limit, which in some of the searches expires.
	bool timed = c.chance(1, 4);
	Alg untimed = a;
	if (timed) {
		a.args.push_back("-walltime");
		a.args.push_back("10000");
	}
	int fill1 = (int) c.draw(3) * 0x7f, fill2 = (int) c.draw(3) * 0x55;
	newfill = (unsigned char) fill1;
	std::unique_ptr<Searcher> s(mksearcher(go.integer, inplace, a.args, fill1));
	std::vector<Graph> gs(rounds);	// outlive the searches
	bool used = false;
	for (long r = 0; r < rounds; r++) {
		if (r > 0 && c.chance(1, 3)) gs[r] = gs[r-1];
		else gs[r] = gengraph(c, go);
		Graph &g = gs[r];
		if (r == 0) describe(c, g, a, inplace);
		else c.desc("then, after a reset:\n%s", g.str().c_str());
		RunOpts ro = runopts(a);
		if (timed) {
			// The harness stops a search that does not end without
			// its timer being released.
			std::unique_ptr<Searcher> pre(mksearcher(go.integer, inplace, untimed.args, fill2));
			if (run(c, *pre, g, untimed, ro).timedout) c.discard();
		}
		if (timed && c.flip()) {
			ro.alarmat = c.range(1, 12);
			c.desc("time is up at expansion %ld\n", ro.alarmat);
		}
		newfill = (unsigned char) fill1;
		Outcome o = run(c, *s, g, a, ro);
		newfill = (unsigned char) fill2;
		std::unique_ptr<Searcher> f(mksearcher(go.integer, inplace, a.args, fill2));
		Outcome p = run(c, *f, g, a, ro);
		newfill = 0xb7;
		if (o.timedout && p.timedout) c.discard();
		same(c, o, p, r == 0 ? "two runs of the same search" : "a reset search and a new one");
		checkpath(c, g, o, a.name());
		CHECK(o.out == p.out, "%s prints\n%s\nand not\n%s", r == 0 ? "the second run" : "a reset search", o.out.c_str(), p.out.c_str());
		// What is reported, but for the shape of hash tables, which may stay larger, and the times of day.
		std::map<std::string, std::string> po = pairs(o.stats), pp = pairs(p.stats);
		for (auto &kv : pp) {
			std::string was = po.count(kv.first) ? po[kv.first] : "nothing";
			CHECK(was == kv.second, "%s reports \"%s\" to be %s, a new one %s", r == 0 ? "another search" : "a reset search", kv.first.c_str(), was.c_str(), kv.second.c_str());
		}
		if (used) c.nontrivial();
		if (o.expd >= 3) used = true;
		s->reset();
	}
	c.label(a.name());
}

// The dynamic look-ahead against the table it is made from: it has no more
// states than can be searched in the time there is, or the next size of those.
PROP(dynamic_lookahead, 1500, 30000, "three sizes, and a start that can choose among them") {
	static const char *const algs[] = { "lsslrtastar2", "fhatlrtastar", "dtastar-dump", "dtastar" };
	std::string alg = algs[c.draw(4)];
	struct Clock { Clock() { oneclock = true; } ~Clock() { oneclock = false; } } clock;
	DynDom d = dyndom((int) c.draw(5), alg);
	pbt::clearscratch();
	std::string root = pbt::scratch() + "/data";
	mkdir(root.c_str(), 0777);
	mkdir((root + "/levels").c_str(), 0777);
	// Sizes ascend with their times, files do not.
	int n = 1 + (int) c.size(0, 7);
	double unit = std::pow(10, -(double) c.range(1, 6));
	std::vector<unsigned int> size;
	std::vector<double> time;
	unsigned int sz = 0;
	double t = 0;
	for (int i = 0; i < n; i++) {
		sz += 1 + (unsigned) c.draw(c.chance(1, 4) ? 4000 : 6);
		t += unit * (1 + c.draw(40) * 0.2371);
		size.push_back(sz);
		time.push_back(t);
		c.desc("%u states in %.9g; ", sz, t);
	}
	std::vector<int> left(n);
	for (int i = 0; i < n; i++) left[i] = i;
	while (!left.empty()) {
		size_t j = c.draw(left.size());
		int i = left[j];
		left.erase(left.begin() + j);
		int files = 1 + (int) c.draw(3), top = (int) c.draw(files);
		for (int f = 0; f < files; f++)
			dynfile(root, d, size[i], f, f == top ? time[i] : c.chance(1, 4) ? -1 : time[i] * c.real() * 0.99);
	}
	if (c.flip()) {	// not of this kind
		DynDom o = d;
		size_t k = c.draw(o.da.size());
		o.da[k].second += "x";
		dynfile(root, o, 1 + (unsigned) c.draw(50), 0, t * 3);
	}
	std::string level = dynlevel(root, d);
	unsigned int lim0 = 1 + (unsigned) c.draw(20);
	double gscale = unit * (0.05 + c.real() * 4);
	Args args = { "solver", alg, "-lookahead", strf("%u", lim0), "-dynlss", root, "-lvl", level, "-gscale", strf("%.17g", gscale) };
	gscale = strtod(args.back().c_str(), nullptr);
	std::vector<const char*> av;
	for (auto &x : args) av.push_back(x.c_str());
	c.desc("\n%s\n", argstr(args).c_str());
	// One from the data, then others from what the first left in its cache.
	int rounds = (int) c.range(1, 3);
	bool choice = false;
	struct Step { double dt, g; };
	std::vector<Step> hist;
	bool small = c.flip();	// moves whose time is known exactly
	for (int k = (int) c.range(1, 12); k > 0; k--)
		hist.push_back({ gscale * c.draw(60) * 0.05, small ? 0.05 + c.real() * 0.95 : c.chance(1, 3) ? 1 + (double) c.draw(5) : 0.3 + c.real() * 8 });
	std::vector<unsigned int> first;
	unsigned long missed0 = 0;
	for (int r = 0; r < rounds; r++) {
		vclock = 1000;
		LookaheadLimit *l = LookaheadLimit::fromArgs((int) av.size(), av.data());
		std::vector<unsigned int> got;
		auto count = [&]() {
			unsigned int k = 0;
			while (!l->stop() && k < 200000) k++;
			return k;
		};
		l->start(0);
		unsigned int k0 = count();
		CHECK(k0 == lim0, "the first look-ahead is %u, not %u", k0, lim0);
		double dlo = 0, dhi = 0;
		unsigned long mlo = 0, mhi = 0;
		for (size_t i = 0; i < hist.size(); i++) {
			vclock += hist[i].dt;
			double g = hist[i].g;
			if (i == 0) dlo = dhi = vclock;
			mlo += vclock > dhi + 1e-9;
			mhi += vclock > dlo - 1e-9 && i > 0;
			// It may be a bit more conservative than the cost of the move.
			dhi += g * gscale;
			dlo += (g > 1 ? g - 1 : g) * gscale;
			l->start(g);
			unsigned int k = count();
			got.push_back(k);
			size_t a = 0, b = 0;
			while (a + 1 < size.size() && time[a+1] <= dlo - vclock - 1e-9) a++;
			while (b + 1 < size.size() && time[b] < dhi - vclock + 1e-9) b++;
			if (r == 0) c.desc("start(%.6g) at %.9g: %u; ", g, vclock - 1000, k);
			auto it = std::find(size.begin(), size.end(), k);
			CHECK(it != size.end(), "a look-ahead of %u, which is not in the table", k);
			CHECK(k >= size[a] && k <= size[b], "a look-ahead of %u where there is time for %.9g to %.9g: between %u and %u", k, dlo - vclock, dhi - vclock, size[a], size[b]);
			if (n >= 3 && b - a < (size_t) n - 1) choice = true;
		}
		std::string out;
		char *buf = nullptr;
		size_t len = 0;
		FILE *f = open_memstream(&buf, &len);
		l->output(f);
		fclose(f);
		out.assign(buf, len);
		free(buf);
		unsigned long missed = strtoul(dfget(out, "num missed deadlines").c_str(), nullptr, 10);
		CHECK(missed >= mlo && missed <= mhi, "%lu missed deadlines, not %lu to %lu", missed, mlo, mhi);
		CHECK(dfget(out, "initial lookahead") == strf("%u", lim0), "prints %s", out.c_str());
		if (r == 0) { first = got; missed0 = missed; }
		else for (size_t i = 0; i < got.size(); i++)
			CHECK(got[i] == first[i] && missed == missed0, "from the cached table the look-ahead of start %zu is %u, and was %u", i, got[i], first[i]);
	}
	if (choice) c.nontrivial();
}

static const std::vector<std::string> grain1000 = { "-grainsize", "1000" };

PROP(realtime, 40000, 1000000, "at least two planning steps were made") {
	Alg a = genalg(c, Realtime);
	GenOpts go = graphfor(c, a);
	go.nmax = 35;
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	checkpath(c, g, o, a.name());
	CHECK(o.found, "%s did not reach a goal", a.name());
	c.label(a.name());
	if (a.kind == DTDUMP) {
		if (o.ops.size() >= 2) c.nontrivial();
		return;
	}
	auto has = [&](const std::string &x) { return std::find(a.args.begin(), a.args.end(), x) != a.args.end(); };
	if (a.kind == DTA && !a.dynamic && a.lookahead >= 1000 && std::search(a.args.begin(), a.args.end(), grain1000.begin(), grain1000.end()) != a.args.end() && !o.ops.empty()) {
		// Seeing all there is, and with the estimates still right.
		double cost = 0, best = g.opt();
		for (size_t i = 0; i < (has("-learnfull") ? o.ops.size() : 1); i++) cost += g.find(o.path[i], o.ops[i])->cost;
		int at = has("-learnfull") ? o.path.back() : o.path[1];
		CHECK(std::fabs(cost + g.hstar[at] - best) < 1e-6 * (1 + best), "looking everywhere, dtastar goes %sby a way of %g, there is one of %g", has("-learnfull") ? "" : "first ", cost + g.hstar[at], best);
		c.label("dtastar sees everything");
	}
	std::string st = dfget(o.stats, "num steps");
	unsigned long steps = strtoul(st.c_str(), nullptr, 10);
	CHECK(!st.empty() && (steps > 0) == (o.path.size() > 1), "%s steps to go %zu states", st.c_str(), o.path.size());
	// DTA* also looks at the successors it chooses from.
	CHECK(o.expanded.size() <= steps * (a.lookahead + (a.kind == DTA)), "%zu expansions in %lu steps that look %d ahead", o.expanded.size(), steps, a.lookahead);
	CHECK(steps <= o.ops.size(), "%lu steps to make %zu moves", steps, o.ops.size());
	for (auto &x : a.args) if (x == "-onestep" || a.kind == DTA)
		CHECK(steps == o.ops.size(), "%lu steps for %zu moves one at a time", steps, o.ops.size());
	if (steps) {
		double mn = strtod(dfget(o.stats, "min step length").c_str(), nullptr), mx = strtod(dfget(o.stats, "max step length").c_str(), nullptr),
			mean = strtod(dfget(o.stats, "mean step length").c_str(), nullptr);
		CHECK(std::fabs(mean * steps - o.ops.size()) < 1e-3 * (1 + o.ops.size()), "mean step length %g over %lu steps, %zu moves", mean, steps, o.ops.size());
		CHECK(mn >= 1 && mn <= mean * (1 + 1e-5) && mean <= mx * (1 + 1e-5), "step lengths %g..%g, mean %g", mn, mx, mean);
		// All but the least and the greatest lie between them.
		double rest = o.ops.size() - (steps > 1 ? mn + mx : mn);
		CHECK(steps > 1 ? (steps - 2) * mn <= rest && rest <= (steps - 2) * mx : mn == mx && rest == 0, "%lu steps of lengths %g..%g make %zu moves",
			steps, mn, mx, o.ops.size());
		// The time passes with the expansions.
		for (const char *clock : { "wall", "cpu" }) {
			auto t = [&](const char *key) { return dfget(o.stats, strf("%s %s time", key, clock).c_str()); };
			if (t("first emit").empty() && a.kind == DTA && clock[0] == 'c') continue;
			double first = strtod(t("first emit").c_str(), nullptr), least = strtod(t("min step").c_str(), nullptr), most = strtod(t("max step").c_str(), nullptr),
				avg = strtod(t("mean step").c_str(), nullptr), all = (clock[0] == 'w' ? 1e-5 : 0.5e-5) * o.expanded.size(), eps = 2e-6 * steps;
			CHECK(!t("first emit").empty() && first >= least - 2e-6 && first <= most + 2e-6, "the first %s time is %g, steps took %g..%g", clock, first, least, most);
			CHECK(std::fabs(avg * steps - all) < eps, "%lu steps of %g on the %s clock, %g passed", steps, avg, clock, all);
			rest = all - (steps > 1 ? least + most : least);
			CHECK(steps > 1 ? rest >= (steps - 2) * least - eps - 4e-6 && rest <= (steps - 2) * most + eps + 4e-6 : std::fabs(rest) < 2e-6,
				"%lu steps took %g..%g on the %s clock, %g passed", steps, least, most, clock, all);
			CHECK(most <= (clock[0] == 'w' ? 1e-5 : 0.5e-5) * (a.lookahead + (a.kind == DTA)) + 3e-6, "a step took %g on the %s clock, with look-ahead %d",
				most, clock, a.lookahead);
		}
	}
	if (steps >= 2) c.nontrivial();
	if (steps >= 6) c.label("six or more steps");
}

// The finding fhat-circles: values need not grow along a circle that looks
// short to f-hat, so that it is followed for ever.
PROP(fhat_circles, 64, 64, "every case is") {
	Graph g;
	g.n = 7;
	g.start = 3;
	g.adj = {
		{ { 1, 10, 0, -1, -1 }, { 2, 1, 3, -1, -1 } },
		{ { 2, 1, 1, -1, -1 }, { 3, 10, 4, -1, -1 } },
		{ { 3, 1, 2, -1, -1 }, { 4, 1, 5, -1, -1 } },
		{ { 5, 14, 3, -1, -1 }, { 6, 1, 6, -1, -1 } },
		{ { 6, 1, 4, -1, -1 }, { 5, 1, 7, -1, -1 } },
		{ { 6, 1, 0, -1, -1 } },
		{ { 1, 1, 1, -1, -1 } },
	};
	g.goal = { 0, 0, 0, 0, 0, 1, 0 };
	g.h = { 3, 0, 2, 1, 1, 0, 0 };
	g.d = { 0, 0, 0, 0, 7, 0, 0 };
	bool zero = c.flip(), inplace = c.flip();
	if (zero) g.d.assign(g.n, 0);
	g.solve();
	Alg a;
	a.kind = FHAT;
	a.lookahead = 1000;
	a.args = { "solver", "fhatlrtastar", "-lookahead", "1000", "-onestep" };
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(true, inplace, a.args, 0xb7));
	vclock = 1000;
	randgen = Rand(12345);
	Outcome o = s->search(g, runopts(a));
	c.nontrivial();
	if (o.timedout) {
		std::vector<int> circle = circles(g, o);
		if (circle.size() == 4 && !zero)
			c.known("fhat-circles", "fhatlrtastar -onestep goes round states 3, 6, 1, 2 for ever although 2 is two steps from a goal");
		c.fail("fhatlrtastar does not end");
	}
	checkpath(c, g, o, "fhatlrtastar");
	CHECK(o.found, "fhatlrtastar did not reach a goal");
}

// Best-first search by the rules: the state that is least by the keys, one
// after the other, is expanded next; with a cheaper path it is queued again.
namespace {

struct RefBest {
	const Graph &g;
	bool drop;
	Kind kind;
	double wt;
	std::vector<int> expanded, path;
	unsigned long dups = 0, reopened = 0;
	bool found = false, tie = false;
	// Of utility: the weight of cost (that of time is wt), the time an
	// expansion takes and the number of expansions that a step takes.
	double wf = 1, timeper = 0, delay = 1;
	bool noresort = false;
	// Corrections by the errors and delays seen up to the last sorting.
	bool expdelay = false, hhat = false, dhat = false, interph = false;
	double avg = 0, herr = 0, derr = 0, herrlast = 0, derrlast = 0, errs = 0;
	unsigned long next = 128, delaysum = 0, resorts = 0;

	RefBest(const Graph &gr, Kind k, double w, bool d) : g(gr), drop(d), kind(k), wt(w) { }

	struct N { double g = 0, h = 0, d = 0; unsigned long at = 0; int parent = -1, pop = -1; bool known = false, open = false; };

	double steps(const N &n) const { return dhat ? n.d / (1 - derrlast) : n.d; }
	double togo(const N &n) const {
		if (!hhat) return n.h;
		double hh = n.h + steps(n) * herrlast, w = wf / (wf + wt);
		return interph ? w * n.h + (1 - w) * hh : hh;
	}

	int order(const std::vector<N> &ns, int a, int b) const {
		double ga = ns[a].g, gb = ns[b].g, ha = ns[a].h, hb = ns[b].h, tol = 1e-9;
		auto cmp = [&tol](double x, double y) { return std::fabs(x - y) < tol ? 0 : x < y ? -1 : 1; };
		switch (kind) {
		case GREEDY: return cmp(ha, hb);
		case SPEEDY: return cmp(g.d[a], g.d[b]);
		case WASTAR:
			if (int c = cmp(ga + wt * ha, gb + wt * hb)) return c;
			break;
		case BUGSY: case SLIM: {
			bool late = timeper > 0 || noresort || interph;	// mixing two estimates rounds
			double da = steps(ns[a]), db = steps(ns[b]);
			if (late) tol = 1e-5 * (1 + wt * timeper * delay * std::fabs(da - db));	// time is only nearly exact
			int c = cmp(wf * (ga + togo(ns[a])) + wt * timeper * delay * da, wf * (gb + togo(ns[b])) + wt * timeper * delay * db);
			if (c || late) return c;
		}
		default:
			break;
		}
		if (int c = cmp(ga + ha, gb + hb)) return c;
		return cmp(gb, ga);
	}

	void search(size_t most) {
		std::vector<N> ns(g.n);
		ns[g.start].known = ns[g.start].open = true;
		ns[g.start].h = g.h[g.start];
		ns[g.start].d = g.d[g.start];
		while (!tie && expanded.size() < most) {
			int u = -1;
			for (int v = 0; v < g.n; v++)
				if (ns[v].open && (u < 0 || order(ns, v, u) < 0)) u = v;
			if (u < 0) return;
			for (int v = 0; v < g.n; v++)
				if (v != u && ns[v].open && order(ns, v, u) == 0) tie = true;
			ns[u].open = false;
			if (g.goal[u]) {
				found = true;
				for (; u >= 0; u = ns[u].parent) path.push_back(u);
				std::reverse(path.begin(), path.end());
				return;
			}
			expanded.push_back(u);
			delaysum += expanded.size() - ns[u].at;
			avg += (expanded.size() - ns[u].at - avg) / expanded.size();
			bool kids = false;
			double bestf = 0, bestd = 0, f = ns[u].g + ns[u].h, d = ns[u].d;
			for (auto &e : g.adj[u]) {
				if (e.id == ns[u].pop) continue;
				N &k = ns[e.to];
				double ng = ns[u].g + e.cost;
				double kf = ng + std::max(g.h[e.to], ns[u].h - e.cost), kd = std::max(g.d[e.to], ns[u].d - 1);
				if (!kids || kf < bestf) { kids = true; bestf = kf; bestd = kd; }
				if (k.known) {
					dups++;
					if (drop || ng >= k.g) continue;
					if (!k.open) reopened++;
				} else {
					k.h = g.h[e.to];
					k.d = g.d[e.to];
					k.at = expanded.size();
					if (kind == BUGSY || kind == SLIM) {
						k.h = std::max(k.h, ns[u].h - e.cost);
						k.d = std::max(k.d, ns[u].d - 1);
					}
				}
				k.known = k.open = true;
				k.g = ng;
				k.parent = u;
				k.pop = e.rev;
			}
			if (kids) {
				errs++;
				herr += (std::max(0.0, bestf - f) - herr) / errs;
				derr += (std::max(0.0, bestd + 1 - d) - derr) / errs;
			}
			if (!noresort && expanded.size() >= next) {
				timeper = 1e-5;
				herrlast = herr;
				derrlast = derr;
				if (expdelay) delay = avg > 0 ? avg : 1;
				if (dhat && derrlast > 0.9) { tie = true; return; }	// makes no sense
				if (kind == SLIM) delay = delaysum / (double) (expanded.size() - (resorts ? next / 2 : 0));
				delaysum = 0;
				next *= 2;
				resorts++;
			}
		}
	}
};

std::string list(const std::vector<int> &v) {
	std::string t;
	for (size_t i = 0; i < v.size() && i < 80; i++) t += strf(" %d", v[i]);
	return t;
}

}

PROP(bestfirst_order, 40000, 1000000, "at least five expansions and one duplicate, without ties") {
	static const Kind kinds[] = { ASTAR, WASTAR, GREEDY, SPEEDY, BUGSY, SLIM };
	Alg a;
	a.kind = kinds[c.draw(6)];
	GenOpts go;
	go.integer = c.chance(1, 4);
	go.uniquecosts = !go.integer;
	go.nmax = 80;
	bool util = a.kind == BUGSY || a.kind == SLIM;
	bool lengthy = util && c.flip();
	if (lengthy) go.nmax = 1000;
	Graph g = gengraph(c, go);
	if (lengthy && c.flip()) {
		// Few goals, to have much to sort.
		for (int u = 0; u < g.n; u++) if (g.goal[u] && !c.chance(1, 4)) g.goal[u] = 0;
		g.solve();
	}
	if (c.flip()) {
		// Estimates that differ, good or not.
		std::vector<int> p(g.n);
		for (int u = 0; u < g.n; u++) p[u] = u;
		for (int u = g.n - 1; u > 0; u--) std::swap(p[u], p[c.draw(u + 1)]);
		(a.kind == SPEEDY ? g.d : g.h).assign(p.begin(), p.end());
		g.solve();
	}
	double wt = 1;
	if (a.kind == WASTAR) wt = c.pick(std::vector<double>{ 1, 1.5, 2, 3, 10 });
	double wf = c.draw(4);
	bool noresort = a.kind == BUGSY && c.chance(1, 4);
	if (util) wt = noresort ? 0 : c.pick(std::vector<double>{ 0, 1e4, 1e5, 1e6 });
	bool drop = c.chance(1, 3), inplace = c.flip();
	a.args = { "solver", a.name() };
	if (a.kind == WASTAR) { a.args.push_back("-wt"); a.args.push_back(num(wt)); }
	if (util) for (auto &x : { std::string("-wf"), num(wf), std::string("-wt"), num(wt) }) a.args.push_back(x);
	if (noresort) a.args.push_back("-noresort");
	bool expdelay = false, hhat = false, dhat = false, interph = false;
	if (a.kind == BUGSY && !noresort && c.flip()) {
		expdelay = c.flip(); hhat = c.flip(); dhat = c.flip();
		if (wf + wt > 0) interph = c.chance(1, 3);
		if (expdelay) a.args.push_back("-expdelay");
		if (hhat) a.args.push_back("-hhat");
		if (dhat) a.args.push_back("-dhat");
		if (interph) a.args.push_back("-interph");
	}
	if (a.kind == SLIM) drop = true;
	else if (drop && a.kind != ASTAR) a.args.push_back("-dropdups"); else drop = false;
	describe(c, g, a, inplace);
	RefBest r(g, a.kind, wt, drop);
	r.wf = wf;
	r.noresort = noresort;
	r.expdelay = expdelay;
	r.hhat = hhat || interph;
	r.dhat = dhat;
	r.interph = interph;
	r.search(20000);
	if (r.expanded.size() >= 20000) c.discard();
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, RunOpts());
	checkpath(c, g, o, a.name());
	if (r.tie) {
		// All up to the tie is settled.
		CHECK(o.expanded.size() >= r.expanded.size() - 1, "%s expands%s and ends, by its order it should expand%s", a.name(), list(o.expanded).c_str(), list(r.expanded).c_str());
		std::vector<int> a1(o.expanded.begin(), o.expanded.begin() + r.expanded.size() - 1), b1(r.expanded.begin(), r.expanded.end() - 1);
		CHECK(a1 == b1, "%s expands%s, by its order it should start with%s", a.name(), list(o.expanded).c_str(), list(b1).c_str());
		c.label("tied");
		return;
	}
	CHECK(o.expanded == r.expanded, "%s expands%s, by its order it should expand%s", a.name(), list(o.expanded).c_str(), list(r.expanded).c_str());
	CHECK(o.found == r.found, "%s finds %s, its order leads to %s", a.name(), o.found ? "a goal" : "no goal", r.found ? "one" : "none");
	CHECK(!o.found || o.path == r.path, "%s returns%s, the cheapest paths found make%s", a.name(), list(o.path).c_str(), list(r.path).c_str());
	CHECK(o.dups == r.dups && o.reopnd == r.reopened, "%s counts %lu duplicates and %lu reopened, there were %lu and %lu", a.name(), o.dups, o.reopnd, r.dups, r.reopened);
	if (util) {
		auto told = pairs(o.stats);
		for (auto &t : told) t.second.erase(0, t.second.find_first_not_of("\t\" "));
		CHECK(strtoul(told["number of resorts"].c_str(), nullptr, 10) == r.resorts, "%s says it sorted %s times, %lu are due", a.name(), told["number of resorts"].c_str(), r.resorts);
		double delay = strtod(told["mean expansion delay"].c_str(), nullptr), want = r.resorts ? r.delay : 0;
		if (expdelay) want = r.avg;
		if (r.hhat) CHECK(std::fabs(strtod(told["mean single-step h error"].c_str(), nullptr) - r.herr) <= 1e-4 * (1 + r.herr), "bugsy gives %s as the mean error of h, it is %g", told["mean single-step h error"].c_str(), r.herr);
		if (dhat) CHECK(std::fabs(strtod(told["mean single-step d error"].c_str(), nullptr) - r.derr) <= 1e-4 * (1 + r.derr), "bugsy gives %s as the mean error of d, it is %g", told["mean single-step d error"].c_str(), r.derr);
		if (a.kind == SLIM || expdelay) CHECK(std::fabs(delay - want) <= 1e-4 * (1 + want), "%s says a state waits for %s expansions, in the mean it is %g", a.name(), told["mean expansion delay"].c_str(), want);
	}
	if (r.expanded.size() >= 5 && r.dups) c.nontrivial();
	c.label(a.name());
	if (r.reopened) c.label("reopened");
	if (r.resorts && (hhat || dhat || interph || expdelay)) c.label("sorted by corrected estimates");
	if (util && r.resorts) c.label(r.resorts > 1 ? "sorted again and again" : "sorted again");
}

// The iterations of IDA*.
PROP(idastar_iterations, 20000, 500000, "at least three iterations and ten expansions") {
	GenOpts go;
	go.integer = c.flip();
	go.uniquecosts = !go.integer;
	go.nmax = 16;
	go.maxdeg = 3;
	go.positive = true;
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	Alg a;
	a.kind = IDA;
	a.args = { "solver", a.name() };
	describe(c, g, a, inplace);
	struct It { double bound; unsigned long expd, gend; };
	std::vector<It> its;
	unsigned long expd = 0, gend = 0;
	double bound = g.h[g.start], next;
	bool goal = false;
	std::vector<int> path, best;
	std::function<void(int, int, double)> dfs = [&](int u, int pop, double cost) {
		if (goal || expd > 20000) return;
		double f = cost + g.h[u];
		if (f > bound) { if (next < 0 || f < next) next = f; return; }
		path.push_back(u);
		if (g.goal[u]) {
			goal = true;
			best = path;
		} else {
			expd++;
			for (auto &e : g.adj[u]) {
				if (goal) break;
				if (e.id == pop) continue;
				gend++;
				dfs(e.to, e.rev, cost + e.cost);
			}
		}
		path.pop_back();
	};
	for (;;) {
		next = -1;
		dfs(g.start, -1, 0);
		if (expd > 20000) c.discard();
		if (goal) break;
		its.push_back({ bound, expd, gend });
		if (next < 0) break;
		bound = next;
	}
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, RunOpts());
	double cost = checkpath(c, g, o, a.name());
	CHECK(o.found == goal, "idastar finds %s, its iterations lead to %s", o.found ? "a goal" : "no goal", goal ? "one" : "none");
	// In the last iteration the order of the operators decides.
	CHECK(!goal || cost <= bound + 1e-9, "idastar's solution costs %g, beyond its last bound %g", cost, bound);
	auto rows = dfrows(o.out, "iter");
	CHECK(rows.size() == its.size(), "idastar reports %zu iterations, there are %zu", rows.size(), its.size());
	for (size_t i = 0; i < its.size(); i++) {
		CHECK(rows[i].size() >= 4 && strtol(rows[i][0].c_str(), nullptr, 10) == (long) i, "row %zu of the iterations is numbered %s", i, rows[i].empty() ? "" : rows[i][0].c_str());
		double b = strtod(rows[i][1].c_str(), nullptr);
		CHECK(std::fabs(b - its[i].bound) <= 1e-5 * (1 + its[i].bound), "iteration %zu has the bound %s, not %g", i, rows[i][1].c_str(), its[i].bound);
		CHECK(strtoul(rows[i][2].c_str(), nullptr, 10) == its[i].expd && strtoul(rows[i][3].c_str(), nullptr, 10) == its[i].gend,
			"after iteration %zu %s were expanded and %s generated, not %lu and %lu", i, rows[i][2].c_str(), rows[i][3].c_str(), its[i].expd, its[i].gend);
	}
	if (its.size() >= 3 && o.expd >= 10) c.nontrivial();
}

// LSS-LRTA* step by step: which states it expands and the way it goes. False
// where that depends on how ties are broken.
namespace {

struct RefLss {
	const Graph &g;
	int lookahead;
	bool onestep, complete;
	std::vector<double> h;
	std::vector<char> seen;
	std::vector<int> expanded, path;
	int steps = 0, learned = 0;
	bool tie = false;

	RefLss(const Graph &gr, int l, bool one, bool comp) : g(gr), lookahead(l), onestep(one), complete(comp), h(gr.h), seen(gr.n) { }

	struct N { double g = 0, f = 0; int parent = -1; bool known = false, open = false, closed = false; };

	// The order is by f, then high g.
	bool before(const N &a, const N &b) {
		if (std::fabs(a.f - b.f) > 1e-7) return a.f < b.f;
		if (std::fabs(a.f - b.f) > 1e-12 || std::fabs(a.g - b.g) < 1e-7) tie = true;
		return a.g > b.g;
	}

	bool search() {
		int cur = g.start;
		path = { cur };
		while (!g.goal[cur] && !tie && steps < 3000) {
			steps++;
			std::vector<N> ns(g.n);
			ns[cur].known = ns[cur].open = true;
			ns[cur].f = h[cur];
			int goal = -1;
			auto least = [&] {
				int best = -1;
				for (int u = 0; u < g.n; u++)
					if (ns[u].open && (best < 0 || before(ns[u], ns[best]))) best = u;
				return best;
			};
			for (int i = 0; i < lookahead && !tie; i++) {
				int u = least();
				if (u < 0) break;
				ns[u].open = false;
				ns[u].closed = true;
				if (g.goal[u]) { goal = u; break; }
				if (!seen[u]) expanded.push_back(u);
				seen[u] = true;
				for (auto &e : g.adj[u]) {
					if (e.to == ns[u].parent) continue;
					N &k = ns[e.to];
					double ng = ns[u].g + e.cost;
					if (k.known && std::fabs(k.g - ng) < 1e-7 && k.parent != u) tie = true;
					if (!k.known || k.g > ng) {
						if (k.closed) tie = true;	// inconsistent by rounding
						k.known = k.open = true;
						k.g = ng;
						k.f = ng + h[e.to];
						k.parent = u;
					}
					if (g.goal[e.to] && goal >= 0 && goal != e.to && std::fabs(ns[goal].g - k.g) < 1e-7) tie = true;
					if (g.goal[e.to] && (goal < 0 || k.g < ns[goal].g)) goal = e.to;
				}
			}
			int to = goal;
			if (goal < 0) {
				// What is left of the way, by way of the frontier.
				std::vector<double> nh(g.n, HUGE_VAL);
				for (bool more = true; more; ) {
					more = false;
					for (int u = 0; u < g.n; u++) if (ns[u].closed)
						for (auto &e : g.adj[u]) {
							double b = e.cost + (ns[e.to].closed ? nh[e.to] : h[e.to]);
							if (b < nh[u]) { nh[u] = b; more = true; }
						}
				}
				int front = least();
				if (front < 0) return false;
				if (complete) {
					double minf = ns[front].f;
					for (int u = 0; u < g.n; u++) {
						if (u == cur || !ns[u].closed) continue;
						if (ns[u].f != minf && std::fabs(ns[u].f - minf) < 1e-7) tie = true;
						if (ns[u].f == minf) continue;
						if (to < 0) { to = u; continue; }
						double df = ns[u].f - ns[to].f;
						if (df && std::fabs(df) < 1e-7) tie = true;
						if (df > 0 || (df == 0 && before(ns[u], ns[to]))) to = u;
					}
				}
				if (to < 0) to = front;
				for (int u = 0; u < g.n; u++) if (nh[u] < HUGE_VAL) {
					if (nh[u] > h[u] + 1e-9) learned++;
					h[u] = std::max(nh[u], g.h[u]);
				}
			}
			if (to == cur || tie) return false;
			std::vector<int> way;
			for (int u = to; u != cur; u = ns[u].parent) way.push_back(u);
			std::reverse(way.begin(), way.end());
			if (onestep) way.resize(1);
			path.insert(path.end(), way.begin(), way.end());
			cur = path.back();
		}
		return !tie && g.goal[cur];
	}
};

}

PROP(realtime_lss, 30000, 600000, "at least two planning steps were made and something was learned, without ties") {
	GenOpts go;
	go.integer = c.chance(1, 5);
	go.uniquecosts = !go.integer;
	go.positive = go.safe = go.needsol = true;
	go.heur = 2;
	go.nmax = 60;
	// Without estimates of distance f-hat has nothing to correct f by.
	bool fhat = go.nod = c.chance(1, 3);
	Graph g = gengraph(c, go);
	Alg a;
	a.kind = fhat ? FHAT : LSS;
	a.lookahead = (int) (c.chance(1, 12) ? 1000 : c.chance(1, 4) ? 1 : c.range(1, 6));
	bool onestep = c.flip(), complete = !fhat && c.chance(1, 3), inplace = c.flip();
	a.args = { "solver", a.name(), "-lookahead", strf("%d", a.lookahead) };
	if (onestep) a.args.push_back("-onestep");
	if (complete) a.args.push_back("-complete");
	describe(c, g, a, inplace);
	if (!g.consistent) c.discard();
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	checkpath(c, g, o, a.name());
	CHECK(o.found, "%s did not reach a goal", a.name());
	RefLss r(g, a.lookahead, onestep, complete);
	if (!r.search()) { c.label("tied"); return; }
	auto str = [&](const std::vector<int> &v) { std::string t; for (int u : v) t += strf(" %d", u); return t; };
	CHECK(o.path == r.path, "it goes%s, by its rules it should go%s", str(o.path).c_str(), str(r.path).c_str());
	std::vector<int> ex;
	for (int u : o.expanded) if (!g.goal[u]) ex.push_back(u);
	CHECK(ex == r.expanded, "it expands%s, by its rules it should expand%s", str(ex).c_str(), str(r.expanded).c_str());
	if (r.steps >= 2 && r.learned) c.nontrivial();
	if (r.learned && r.path.size() > (size_t) g.n) c.label("longer than the number of states");
	c.label(fhat ? "fhat" : complete ? "complete" : "any");
}

// A reference beam search. Sets *tie when the outcome depends on how ties are broken.
static void refbeam(const Graph &g, int width, bool drop, std::vector<int> &expanded, bool &found, bool *tie) {
	struct N { double f = 0, g = 0; int pop = -1; bool known = false, open = false; };
	std::vector<N> ns(g.n);
	std::vector<int> open { g.start };
	ns[g.start].known = ns[g.start].open = true;
	ns[g.start].f = g.h[g.start];
	found = false;
	auto pred = [&](int a, int b) { return ns[a].f != ns[b].f ? ns[a].f < ns[b].f : ns[a].g > ns[b].g; };
	while (!open.empty()) {
		std::sort(open.begin(), open.end(), pred);
		for (size_t i = 1; i < open.size(); i++)
			if (!pred(open[i-1], open[i])) *tie = true;
		std::vector<int> beam(open.begin(), open.begin() + std::min<size_t>(width, open.size()));
		for (int u : open) ns[u].open = false;
		open.clear();
		for (int u : beam) {
			if (g.goal[u]) { found = true; return; }
			expanded.push_back(u);
			for (auto &e : g.adj[u]) {
				if (e.id == ns[u].pop) continue;
				double ng = ns[u].g + e.cost;
				N &k = ns[e.to];
				if (k.known) {
					if (drop || ng >= k.g) continue;
					k.f = k.f - k.g + ng;
				} else {
					k.known = true;
					k.f = ng + g.h[e.to];
				}
				k.g = ng;
				k.pop = e.rev;
				if (!k.open) { k.open = true; open.push_back(e.to); }
			}
		}
	}
}

PROP(beam, 50000, 1200000, "some layer was cut to the width, or a solution of at least three layers was found") {
	GenOpts go;
	go.integer = c.chance(1, 4);
	go.uniquecosts = !go.integer;
	go.big = go.huge = true;
	Graph g = gengraph(c, go);
	int width = (int) (c.chance(1, 4) ? g.n + c.draw(3) : g.n > 100 && c.flip() ? c.range(100, 1200) : c.range(1, 6));
	bool drop = c.flip(), inplace = c.flip();
	Alg a;
	a.kind = BEAM;
	a.args = { "solver", "beam", "-width", strf("%d", width) };
	if (drop) a.args.push_back("-dropdups");
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, RunOpts());
	checkpath(c, g, o, "beam");
	CHECK(!o.found || g.solvable(), "a solution to a problem without one");
	if (width >= g.n)
		CHECK(o.found == g.solvable(), "width %d, %d states, a solution is %sfound, there is %s", width, g.n, o.found ? "" : "not ", g.solvable() ? "one" : "none");
	if (drop) {
		std::set<int> seen(o.expanded.begin(), o.expanded.end());
		CHECK(seen.size() == o.expanded.size(), "told to drop duplicates, yet %zu expansions of %zu states", o.expanded.size(), seen.size());
	}
	bool tie = false, found = false;
	std::vector<int> exp;
	refbeam(g, width, drop, exp, found, &tie);
	if (!tie) {
		c.label("compared with the reference");
		CHECK(o.found == found, "a solution is %sfound, the reference %s", o.found ? "" : "not ", found ? "finds one" : "does not");
		if (exp != o.expanded) {
			std::string x, y;
			for (int v : exp) x += strf(" %d", v);
			for (int v : o.expanded) y += strf(" %d", v);
			c.fail("expanded%s, the best of each layer are%s", y.c_str(), x.c_str());
		}
	}
	if ((int) exp.size() > width && !tie) c.nontrivial();
	if (o.ops.size() >= 3) c.nontrivial();
}

PROP(beam_options, 60, 300, "the width is missing or not positive") {
	int k = (int) c.draw(4);
	Args a = { "solver", "beam" };
	if (k == 1) a.insert(a.end(), { "-width", "0" });
	if (k == 2) a.insert(a.end(), { "-width", "-3" });
	if (k == 3) a.push_back("-width");
	int fill = (int) c.draw(3) * 0x7f;
	c.desc("%s, new memory holds %d\n", argstr(a).c_str(), fill);
	std::string err;
	int st = c.sub([&]() {
		newfill = (unsigned char) fill;
		Searcher *s = search_int_copy(a);
		(void) s;
		_exit(0);
	}, &err);
	CHECK(st > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 1, "beam search without a proper width was not refused (status %d)", st);
	c.nontrivial();
}

// Training data: the path found by A*.
PROP(dump_path, 12000, 300000, "a solution of at least three steps after meeting a state again") {
	Alg a = genalg(c, 1ul << DUMP);
	GenOpts go = graphfor(c, a);
	go.heur = (int) c.draw(3);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	double cost = checkpath(c, g, o, a.name());
	if (o.found) pathrows(c, g, o, cost);
	else CHECK(dfrows(o.out, "path").empty(), "no solution, yet a path is dumped");
	if (o.found && o.ops.size() >= 3 && o.dups) c.nontrivial();
}

// Training data: the least f that a look-ahead of each depth backs up.
PROP(dump_samples, 20000, 500000, "at least two states were sampled at a horizon of at least two, short of the goal") {
	Alg a;
	a.kind = DTDUMP;
	long horizon = c.range(1, 4);
	bool all = c.chance(3, 4);
	a.args = { "solver", "dtastar-dump", "-horizon", strf("%ld", horizon), "-samplep", all ? "1" : "0.5", "-lookahead", strf("%ld", c.range(1, 10)) };
	GenOpts go = graphfor(c, a);
	go.heur = (int) c.range(1, 2);
	Graph g = gengraph(c, go);
	bool inplace = c.flip();
	describe(c, g, a, inplace);
	std::unique_ptr<Searcher> s(mksearcher(g.integer, inplace, a.args, (int) c.draw(2) * 0xb7));
	Outcome o = run(c, *s, g, a, runopts(a));
	checkpath(c, g, o, a.name());
	CHECK(o.found, "no goal was reached");
	auto rows = dfrows(o.out, "sample"), kids = dfrows(o.out, "branching");
	size_t n = kids.size();
	CHECK(rows.size() == n * horizon, "%zu states are sampled with %zu rows, for depths up to %ld", n, rows.size(), horizon);
	if (all) CHECK(n == o.ops.size(), "%zu of %zu states are sampled", n, o.ops.size());
	else CHECK(n <= o.ops.size(), "%zu states of %zu are sampled", n, o.ops.size());
	bool deep = false;
	for (size_t i = 0; i < n; i++) {
		auto le = [&](double x, double y) { return x <= y + 1e-5 * std::max(1.0, std::fabs(y)); };
		double last = 0;
		for (long j = 0; j < horizon; j++) {
			auto &r = rows[i * horizon + j];
			double h = strtod(r.at(0).c_str(), nullptr), f = strtod(r.at(2).c_str(), nullptr);
			CHECK(r.at(1) == strf("%ld", j + 1), "depth %ld is printed as %s", j + 1, r[1].c_str());
			CHECK(le(h, f), "f is %g where h is %g", f, h);
			CHECK(le(last, f), "f falls from %g to %g at depth %ld", last, f, j + 1);
			last = f;
			if (!all) continue;
			int v = o.path[i];
			double opt = g.hstar[v];
			CHECK(le(g.h[v], h) && le(f, opt), "state %d: h is %g, f at depth %ld is %g, the cheapest way to a goal costs %g", v, h, j + 1, f, opt);
			if (g.consistent) CHECK(le(h, g.h[v]), "state %d: h is %g, not %g", v, h, g.h[v]);
		}
		if (!all) continue;
		int v = o.path[i];
		CHECK(kids[i].at(0) == strf("%zu", g.adj[v].size()), "state %d has %s successors, not %zu", v, kids[i][0].c_str(), g.adj[v].size());
		if (!g.consistent) continue;
		// Bounds: the cheapest of all walks of each length, and of those
		// that nothing cheaper leads past.
		const double Inf = INFINITY;
		std::vector<double> best(g.n, Inf);
		best[v] = 0;
		for (bool more = true; more; ) {
			more = false;
			for (int u = 0; u < g.n; u++) for (auto &e : g.adj[u])
				if (best[u] + e.cost < best[e.to]) { best[e.to] = best[u] + e.cost; more = true; }
		}
		std::vector<double> walk(g.n, Inf);
		std::vector<char> cheap(g.n, 0);
		walk[v] = 0;
		cheap[v] = 1;
		double lowdone = Inf, highdone = Inf;
		for (long j = 1; j <= horizon; j++) {
			std::vector<double> w2(g.n, Inf);
			std::vector<char> c2(g.n, 0);
			for (int u = 0; u < g.n; u++) {
				if (g.goal[u]) continue;
				for (auto &e : g.adj[u]) {
					w2[e.to] = std::min(w2[e.to], walk[u] + e.cost);
					if (cheap[u] && best[u] + e.cost == best[e.to]) c2[e.to] = 1;
				}
			}
			walk.swap(w2);
			cheap.swap(c2);
			double low = lowdone, high = highdone;
			for (int u = 0; u < g.n; u++) {
				low = std::min(low, walk[u] + g.h[u]);
				if (cheap[u]) high = std::min(high, best[u] + g.h[u]);
				if (!g.goal[u]) continue;
				lowdone = std::min(lowdone, walk[u]);
				if (cheap[u]) highdone = std::min(highdone, best[u]);
			}
			double f = strtod(rows[i * horizon + j - 1].at(2).c_str(), nullptr);
			CHECK(le(low, f) && le(f, high), "state %d: the least f at depth %ld is %g, it is at least %g and at most %g", v, j, f, low, high);
			if (high == low) c.label("exact");
			if (j >= 2 && high < g.hstar[v]) deep = true;
		}
	}
	if (n >= 2 && deep) c.nontrivial();
	if (!g.consistent) c.label("inconsistent heuristic");
}
