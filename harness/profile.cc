// P35: profiles of anytime searches, and the stopping policies made from them.
#include <cmath>
#include <climits>
#include <cfloat>
#include <cstring>
#include <map>
#include <sys/stat.h>
#include <sys/wait.h>
#include "pbt.hpp"
#include "prog.hpp"
#include <boost/cstdint.hpp>
#include <boost/optional.hpp>
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include "search/anyprof/profile.hpp"
#include <algorithm>
#include <memory>

using pbt::Case;
using pbt::strf;
typedef AnytimeProfile::Solution Sol;
typedef AnytimeProfile::SolutionStream Stream;
typedef std::vector<Stream> Streams;

static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

// Streams of whole costs and times, from better to worse; unit scales them.
static Streams gen(Case &c, bool ties) {
	Streams ss;
	int n = 1 + (int) c.size(0, 7);
	long top = c.range(0, 40), span = c.range(1, 60);
	for (int i = 0; i < n; i++) {
		Stream s;
		int k = (int) c.size(0, 8);
		if (!i && !k) k = 1;
		long q = 1 + top - (long) c.draw(top / 2 + 1), t = (long) c.draw(span);
		for (int j = 0; j < k; j++) {
			Sol x;
			x.cost = q;
			x.time = t;
			s.push_back(x);
			q = std::max(0L, q - c.range(0, 8));
			t += c.range(ties ? 0 : 1, 12);
		}
		ss.push_back(s);
	}
	return ss;
}
static std::string told(const Streams &ss) {
	std::string s;
	for (auto &x : ss) {
		s += "stream";
		for (auto &y : x) s += strf(" %.17g at %.17g,", y.cost, y.time);
		s += "\n";
	}
	return s;
}

// The same by counting, from whole numbers; decided is false if rounding
// could put a number in either of two bins.
struct Model {
	unsigned nc, nt;
	long minc = LONG_MAX, maxc = LONG_MIN, mint = LONG_MAX, maxt = LONG_MIN;
	std::vector<std::vector<unsigned>> n;	// by cost bin and time bin
	std::vector<std::vector<std::vector<unsigned>>> m;	// and next cost bin
	bool decided = true;
	double small = INFINITY;

	unsigned bin(long x, long range, unsigned bins) {
		if (x == range) return bins - 1;
		double w = range / (double) bins;
		if (x * bins % range == 0 && w * bins != range) decided = false;
		if (x * bins % range == 0 && std::floor(x / w) != x * bins / range) decided = false;
		return (unsigned) (x * bins / range);
	}
	Model(const Streams &ss, unsigned c, unsigned t) : nc(c), nt(t) {
		for (auto &s : ss) for (auto &x : s) {
			minc = std::min(minc, (long) x.cost); maxc = std::max(maxc, (long) x.cost);
			mint = std::min(mint, (long) x.time); maxt = std::max(maxt, (long) x.time);
		}
		n.assign(nc, std::vector<unsigned>(nt, 0));
		m.assign(nc, std::vector<std::vector<unsigned>>(nt, std::vector<unsigned>(nc, 0)));
		for (auto &s : ss) for (size_t i = 0; i < s.size(); i++) {
			unsigned q = bin((long) s[i].cost - minc, maxc - minc, nc);
			for (unsigned d = 0; d < nt; d++) {
				// The best that is known after a time in bin d.
				size_t j = i;
				for (size_t k = i + 1; k < s.size(); k++) if (bin((long) (s[k].time - s[i].time), maxt - mint, nt) <= d) j = k;
				n[q][d]++;
				m[q][d][bin((long) s[j].cost - minc, maxc - minc, nc)]++;
			}
		}
		for (auto &a : m) for (size_t d = 0; d < nt; d++) for (unsigned x : a[d]) if (x) small = std::min(small, x / (double) n[&a - &m[0]][d]);
	}
	// Half of the smallest frequency is added for each cost that is no worse.
	double prob(unsigned q2, unsigned q1, unsigned d) const {
		if (q2 > q1) return 0;
		double p = n[q1][d] ? m[q1][d][q2] / (double) n[q1][d] : 0;
		return (p + small / 2) / ((n[q1][d] ? 1 : 0) + (q1 + 1) * small / 2);
	}
};

static void proper(Case &c, const AnytimeProfile &p) {
	for (unsigned q = 0; q < p.ncost; q++) for (unsigned d = 0; d < p.ntime; d++) {
		double sum = 0;
		for (unsigned r = 0; r < p.ncost; r++) {
			double x = p.binprob(r, q, d);
			CHECK(x >= 0 && x <= 1, "the probability of %u after %u at %u is %g", r, q, d, x);
			CHECK(r <= q || x == 0, "a worse cost %u after %u has probability %g", r, q, x);
			sum += x;
		}
		CHECK(near(sum, 1), "the probabilities after %u at %u sum to %g", q, d, sum);
	}
	CHECK(p.binprob(p.ncost, 0, 0) == 0 && p.binprob(0, p.ncost, 0) == 0 && p.binprob(0, 0, p.ntime) == 0, "a bin beyond the last has a probability");
}

static void same(Case &c, const AnytimeProfile &p, const Model &m, const char *what) {
	CHECK(p.ncost == m.nc && p.ntime == m.nt, "%s: %u by %u bins", what, p.ncost, p.ntime);
	CHECK(p.mincost == m.minc && p.maxcost == m.maxc && p.mintime == m.mint && p.maxtime == m.maxt, "%s: costs from %g to %g, times from %g to %g", what, p.mincost, p.maxcost, p.mintime, p.maxtime);
	for (unsigned q = 0; q < m.nc; q++) for (unsigned d = 0; d < m.nt; d++) {
		CHECK(p.qtcount(q, d) == m.n[q][d], "%s: %u solutions in %u, %u, not %u", what, p.qtcount(q, d), q, d, m.n[q][d]);
		for (unsigned r = 0; r < m.nc; r++) CHECK(near(p.binprob(r, q, d), m.prob(r, q, d)), "%s: the probability of cost %u after %u at %u is %g, not %g", what, r, q, d, p.binprob(r, q, d), m.prob(r, q, d));
	}
}

static void saved(const AnytimeProfile &p, const std::string &path) {
	FILE *f = fopen(path.c_str(), "w");
	p.save(f);
	fclose(f);
}

PROP(profile_counts, 60000, 2400000, "at least two cost and time bins in use") {
	Streams ss = gen(c, true);
	unsigned nc = 1 + (unsigned) c.size(0, 11), nt = 1 + (unsigned) c.size(0, 11);
	c.desc("%u by %u bins\n%s", nc, nt, told(ss).c_str());
	Model m(ss, nc, nt);
	if (!m.decided) c.discard();
	AnytimeProfile p(nc, nt, ss);
	same(c, p, m, "made");
	proper(c, p);
	if (nc > 1 && nt > 1 && m.maxc > m.minc && m.maxt > m.mint) c.nontrivial();
	// The order of the streams does not matter.
	if (c.chance(1, 4)) {
		std::reverse(ss.begin(), ss.end());
		AnytimeProfile r(nc, nt, ss);
		same(c, r, m, "reversed");
	}
}

// Any numbers.
static Streams genreal(Case &c) {
	Streams ss;
	int n = 1 + (int) c.size(0, 7);
	double cs = pow(10, (double) c.range(0, 8) - 4), ts = pow(10, (double) c.range(0, 8) - 5);
	double base = c.flip() ? 0 : cs * (double) c.draw(100000);
	bool tight = c.flip();
	for (int i = 0; i < n; i++) {
		Stream s;
		int k = (int) c.size(1, 8);
		double q = base + cs * (1 + c.real() * 9), t = ts * c.real();
		if (tight && c.flip()) q = base + cs * 10;
		for (int j = 0; j < k; j++) {
			Sol x;
			x.cost = q;
			x.time = t;
			s.push_back(x);
			q = tight && c.flip() ? std::nextafter(q, 0) : std::max(0.0, q - cs * c.real());
			t = tight && c.flip() ? std::nextafter(t, INFINITY) : t + ts * c.real();
		}
		ss.push_back(s);
	}
	return ss;
}

PROP(profile_any, 30000, 1200000, "at least three solutions") {
	Streams ss = genreal(c);
	unsigned nc = 1 + (unsigned) c.size(0, 11), nt = 1 + (unsigned) c.size(0, 11);
	c.desc("%u by %u bins\n%s", nc, nt, told(ss).c_str());
	size_t k = 0;
	for (auto &s : ss) k += s.size();
	if (k >= 3) c.nontrivial();
	AnytimeProfile p(nc, nt, ss);
	proper(c, p);
	double lo = INFINITY, hi = -INFINITY, t0 = INFINITY, t1 = -INFINITY;
	for (auto &s : ss) for (auto &x : s) { lo = std::min(lo, x.cost); hi = std::max(hi, x.cost); t0 = std::min(t0, x.time); t1 = std::max(t1, x.time); }
	CHECK(p.mincost == lo && p.maxcost == hi && p.mintime == t0 && p.maxtime == t1, "costs from %g to %g, times from %g to %g", p.mincost, p.maxcost, p.mintime, p.maxtime);
	// Every solution is counted once for each time.
	for (unsigned d = 0; d < nt; d++) {
		size_t n = 0;
		for (unsigned q = 0; q < nc; q++) n += p.qtcount(q, d);
		CHECK(n == k, "%zu solutions of %zu are counted in time bin %u", n, k, d);
	}
	pbt::clearscratch();
	saved(p, "profile");
	std::unique_ptr<AnytimeProfile> r;
	if (c.flip()) r.reset(new AnytimeProfile(std::string("profile")));
	else {
		FILE *f = fopen("profile", "r");
		r.reset(new AnytimeProfile(f));
		fclose(f);
	}
	CHECK(r->ncost == nc && r->ntime == nt, "read as %u by %u bins", r->ncost, r->ntime);
	CHECK(r->mincost == lo && r->maxcost == hi && r->mintime == t0 && r->maxtime == t1, "read with costs from %.17g to %.17g, times from %.17g to %.17g, written with %.17g to %.17g and %.17g to %.17g", r->mincost, r->maxcost, r->mintime, r->maxtime, lo, hi, t0, t1);
	for (unsigned q = 0; q < nc; q++) for (unsigned d = 0; d < nt; d++) {
		CHECK(r->qtcount(q, d) == p.qtcount(q, d), "read with %u solutions in %u, %u, written with %u", r->qtcount(q, d), q, d, p.qtcount(q, d));
		for (unsigned x = 0; x < nc; x++) CHECK(near(r->binprob(x, q, d), p.binprob(x, q, d)), "read with the probability %g, written with %g", r->binprob(x, q, d), p.binprob(x, q, d));
	}
	// No question makes the policy fail, and at the last moment it stops.
	AnytimeMonitor mon(*r, c.draw(5), c.draw(5));
	for (int i = 0; i < 8; i++) {
		double q = c.flip() ? lo + (hi - lo) * c.real() : c.flip() ? std::nextafter(hi, lo) : std::nextafter(lo, hi);
		double t = c.flip() ? t0 + (t1 - t0) * c.real() : c.flip() ? std::nextafter(t1, t0) : std::nextafter(t0, t1);
		mon.stop(q, t);
		CHECK(mon.stop(q, t1), "the policy goes on at the largest time");
	}
	if (t1 > t0) CHECK(near(mon.deltat(), (t1 - t0) / nt), "time steps of %g", mon.deltat());
}

// What is cut off is refused.
PROP(profile_refuse, 150, 2000, "always") {
	c.nontrivial();
	Streams ss = gen(c, false);
	unsigned nc = 1 + (unsigned) c.draw(4), nt = 1 + (unsigned) c.draw(4);
	AnytimeProfile p(nc, nt, ss);
	pbt::clearscratch();
	saved(p, "profile");
	std::string s = prog::slurp("profile");
	size_t end = s.find_last_not_of("\n \t");
	while (end && !isspace(s[end])) end--;
	bool none = c.chance(1, 8);
	size_t cut = c.draw(end + 1);
	c.desc("%zu of %zu bytes:\n%s\n", none ? 0 : cut, s.size(), s.substr(0, cut).c_str());
	prog::spew("profile", s.substr(0, cut));
	std::string err;
	int st = c.sub([&] { AnytimeProfile r(std::string(none ? "no-such-profile" : "profile")); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 66 && !err.empty(), "reading it ends with %d: %s", st, err.c_str());
}

// stops is the policy by the definition: 1 stop, 0 go on, -1 either.
static std::vector<std::vector<int>> stops(const AnytimeProfile &p, double wf, double wt) {
	unsigned nc = p.ncost, nt = p.ntime;
	double qw = (p.maxcost - p.mincost) / nc, tw = (p.maxtime - p.mintime) / nt;
	std::vector<std::vector<double>> v(nc, std::vector<double>(nt));
	std::vector<std::vector<int>> s(nc, std::vector<int>(nt, 1));
	for (unsigned t = nt; t-- > 0; ) for (unsigned q = 0; q < nc; q++) {
		double stop = -(wf * (p.mincost + (q + 0.5) * qw) + wt * (p.mintime + (t + 0.5) * tw));
		v[q][t] = stop;
		if (q == 0 || t == nt - 1) continue;
		double go = 0;
		for (unsigned r = 0; r <= q; r++) go += p.binprob(r, q, 1) * v[r][t + 1];
		v[q][t] = std::max(go, stop);
		s[q][t] = near(go, stop) ? -1 : stop > go;
	}
	return s;
}

PROP(profile_policy, 60000, 2000000, "a policy that both stops and goes on before the end") {
	Streams ss = gen(c, true);
	unsigned nc = 1 + (unsigned) c.size(0, 9), nt = 1 + (unsigned) c.size(0, 9);
	static const double ws[] = { 1, 3, 10, 0.5, 0.01, 0, 0.1 };
	double wf = ws[c.draw(c.flip() ? 3 : 7)], wt = ws[c.flip() ? 4 + c.draw(3) : c.draw(7)];
	c.desc("%u by %u bins, cost weighs %g and time %g\n%s", nc, nt, wf, wt, told(ss).c_str());
	AnytimeProfile p(nc, nt, ss);
	AnytimeMonitor mon(p, wf, wt);
	if (p.maxcost == p.mincost || p.maxtime == p.mintime) return;
	auto s = stops(p, wf, wt);
	double qw = (p.maxcost - p.mincost) / nc, tw = (p.maxtime - p.mintime) / nt;
	bool st = false, go = false;
	for (unsigned q = 0; q < nc; q++) for (unsigned t = 0; t < nt; t++) {
		if (s[q][t] < 0) continue;
		double at[3] = { 0.5, 0.01, 0.99 }, x = at[c.draw(3)], y = at[c.draw(3)];
		double cost = p.mincost + (q + x) * qw, time = p.mintime + (t + y) * tw;
		CHECK(mon.stop(cost, time) == (s[q][t] == 1), "with cost %g at %g, in bin %u, %u, it %s", cost, time, q, t, s[q][t] ? "goes on" : "stops");
		if (q && t < nt - 1) (s[q][t] ? st : go) = true;
	}
	if (st && go) c.nontrivial();
}

// The programs, on a database of runs.
PROP(profile_programs, 300, 10000, "at least two runs with at least two solutions each") {
	pbt::clearscratch();
	Streams ss = gen(c, true);
	unsigned nc = 1 + (unsigned) c.draw(6), nt = 1 + (unsigned) c.draw(6);
	c.desc("%u by %u bins\n%s", nc, nt, told(ss).c_str());
	bool old = c.flip();
	size_t long_ = 0;
	std::vector<std::string> paths;
	for (size_t i = 0; i < ss.size(); i++) {
		long_ += ss[i].size() >= 2;
		// Two sizes of problems, and another algorithm's runs.
		for (int other = 0; other < (c.chance(1, 3) ? 2 : 1); other++) {
			RdbAttrs a;
			a.push_back("alg", other ? "wastar" : "arastar");
			a.push_back("num", strf("%zu", i));
			std::string path = pathfor("root", a);
			std::string s = "#start data file format 4\n#altcols  \"" + std::string(old ? "sol" : "incumbent") + "\"\t\"num\"\t\"nodes expanded\"\t\"nodes generated\"\t\"weight\"\t\"solution bound\"\t\"solution cost\"\t\"wall time\"\n"
				"#altcols  \"other\"\t\"a\"\n#altrow  \"other\"\t7\n";
			for (size_t j = 0; j < ss[i].size(); j++)
				s += strf("#altrow  \"%s\"\t%zu\t%zu\t%zu\t3\t1.5\t%g\t%g\n", old ? "sol" : "incumbent", j, j + 5, j * 3, ss[i][j].cost + 100 * other, ss[i][j].time);
			s += "#pair  \"final sol cost\"\t\"3\"\n#end data file format 4\n";
			prog::spew(path, s);
		}
	}
	if (long_ >= 2) c.nontrivial();
	size_t total = 0;
	for (auto &s : ss) total += s.size();
	Model m(ss, nc, nt);
	prog::Out o = prog::run("prog_mkprof", { "root", strf("%u", nc), strf("%u", nt), "alg=arastar" });
	CHECK(o.ok(), "mkprof ended with %d: %s", o.status, prog::shown(o.err).c_str());
	std::string path;
	bool counted = false;
	for (auto &l : prog::lines(o.out)) {
		if (l.compare(0, 18, "saving profile to ") == 0) path = l.substr(18);
		counted |= l == strf("%zu solutions", total);
	}
	CHECK(!path.empty() && counted, "mkprof prints\n%s", o.out.c_str());
	// It can be found again.
	RdbAttrs a;
	a.push_back("alg", "arastar.profile");
	std::vector<std::string> found = withattrs("root", a);
	CHECK(found.size() == 1 && found[0] == path, "%zu profiles are in the database", found.size());
	AnytimeProfile p(path);
	if (m.decided) same(c, p, m, "written by mkprof");
	else proper(c, p);

	o = prog::run("prog_sptcounts", { path });
	CHECK(o.ok(), "sptcounts ended with %d: %s", o.status, prog::shown(o.err).c_str());
	std::vector<bool> seen(nc * nt, false);
	for (auto &l : prog::lines(o.out)) {
		unsigned t, q, n;
		int len = 0;
		if (sscanf(l.c_str(), " (%u %u %u)%n", &t, &q, &n, &len) != 3 || (size_t) len != l.size()) continue;
		CHECK(t < nt && q < nc && !seen[q * nt + t] && n == p.qtcount(q, t), "sptcounts prints %s", l.c_str());
		seen[q * nt + t] = true;
	}
	for (size_t i = 0; i < seen.size(); i++) CHECK(seen[i], "no count of bin %zu", i);

	double wf = 1 + (double) c.draw(4), wt = (double) c.draw(8) / 4;
	o = prog::run("prog_sptpolicy", { path, strf("%g", wf), strf("%g", wt) });
	CHECK(o.ok(), "sptpolicy ended with %d: %s", o.status, prog::shown(o.err).c_str());
	if (p.maxcost > p.mincost && p.maxtime > p.mintime) {
		auto s = stops(p, wf, wt);
		double qw = (p.maxcost - p.mincost) / nc, tw = (p.maxtime - p.mintime) / nt;
		int part = -1;
		seen.assign(nc * nt, false);
		for (auto &l : prog::lines(o.out)) {
			if (l.find("(stop-pts") != std::string::npos) part = 1;
			if (l.find("(go-pts") != std::string::npos) part = 0;
			double t, q;
			int len = 0;
			if (sscanf(l.c_str(), " (%lg %lg)%n", &t, &q, &len) != 2 || (size_t) len != l.size()) continue;
			int i = (int) floor((q - p.mincost) / qw), j = (int) floor((t - p.mintime) / tw);
			CHECK(i >= 0 && j >= 0 && i < (int) nc && j < (int) nt && !seen[i * nt + j], "sptpolicy prints %s", l.c_str());
			seen[i * nt + j] = true;
			CHECK(std::fabs(q - (p.mincost + (i + 0.5) * qw)) < 0.26 * qw && std::fabs(t - (p.mintime + (j + 0.5) * tw)) < 0.26 * tw, "the policy of bin %d,%d is asked for at %g,%g, not its middle", i, j, q, t);
			CHECK(s[i][j] < 0 || s[i][j] == part, "with cost %g at %g the policy is to %s, sptpolicy says otherwise", q, t, s[i][j] ? "stop" : "go on");
		}
		for (size_t i = 0; i < seen.size(); i++) CHECK(seen[i], "the policy of bin %zu is not printed", i);
	}
	// What is missing is said.
	if (c.chance(1, 4)) {
		static const std::vector<std::vector<std::string>> bad = { { }, { "root" }, { "root", "3" }, { "root", "x", "3", "alg=arastar" }, { "root", "3", "y", "alg=arastar" }, { "root", "3", "3" }, { "root", "3", "3", "alg=none" }, { "root", "0", "3", "alg=arastar" }, { "root", "3", "0", "alg=arastar" }, { "root", "-2", "3", "alg=arastar" } };
		auto &b = bad[c.draw(bad.size())];
		o = prog::run("prog_mkprof", b);
		CHECK(o.status > 0 && o.clean(), "mkprof with %zu arguments ended with %d: %s", b.size(), o.status, prog::shown(o.err).c_str());
	}
}

PROP(profile_bestwt, 300, 10000, "at least two weights, one with two runs") {
	pbt::clearscratch();
	double wf = (double) c.draw(5), wt = (double) c.draw(5) / 2;
	int n = 1 + (int) c.size(0, 9);
	std::map<double, std::vector<double>> runs;
	std::string all;
	bool broken = c.chance(1, 12);
	for (int i = 0; i < n; i++) {
		static const double weights[] = { 1, 1.5, 2, 3, 5, 10.25 };
		double w = weights[c.draw(6)], cost = (double) c.range(0, 50), time = c.range(0, 400) / 8.0;
		// Runs of the other algorithm must not count.
		bool other = c.chance(1, 5) && i;
		RdbAttrs a;
		a.push_back("alg", other ? "astar" : "wastar");
		a.push_back("num", strf("%d", i));
		std::string path = pathfor("root", a), s = "#start data file format 4\n";
		std::vector<std::string> ps = { strf("#pair  \"weight\"\t\"%g\"\n", w), strf("#pair  \"final sol cost\"\t\"%f\"\n", cost), strf("#pair  \"total wall time\"\t\"%f\"\n", time), "#pair  \"total nodes\"\t\"x\"\n" };
		if (broken && i == 0) ps.erase(ps.begin() + c.draw(3));
		for (size_t k = ps.size(); k > 1; k--) std::swap(ps[k - 1], ps[k - 1 - c.draw(k)]);
		for (auto &x : ps) s += x;
		prog::spew(path, s + "#end data file format 4\n");
		all += strf("%s weight %g cost %g time %g\n", other ? "astar" : "wastar", w, cost, time);
		if (!other) runs[w].push_back(wf * cost + wt * time);
	}
	c.desc("cost weighs %g and time %g\n%s", wf, wt, all.c_str());
	std::vector<std::string> args = { strf("%g", wf), strf("%g", wt), "root", "alg=wastar" };
	if (c.chance(1, 12)) {
		static const std::vector<std::vector<std::string>> bad = { { }, { "1" }, { "1", "2" }, { "x", "1", "root" }, { "1", "x", "root" }, { "1", "1", "root", "alg=none" }, { "1", "1", "empty" } };
		mkdir("empty", 0777);
		auto &b = bad[c.draw(bad.size())];
		c.desc("with %zu arguments\n", b.size());
		prog::Out o = prog::run("prog_bestwt", b);
		CHECK(o.status > 0 && o.clean(), "bestwt ended with %d: %s", o.status, prog::shown(o.err).c_str());
		return;
	}
	prog::Out o = prog::run("prog_bestwt", args);
	if (broken) { CHECK(o.status > 0 && o.clean(), "a run without all values: bestwt ended with %d: %s", o.status, prog::shown(o.err).c_str()); return; }
	CHECK(o.ok(), "bestwt ended with %d: %s", o.status, prog::shown(o.err).c_str());
	double best = INFINITY, got = NAN, gotavg = INFINITY;
	bool pairs = false;
	CHECK(sscanf(o.out.c_str(), "%lg", &got) == 1 && o.out == strf("%g\n", got), "it prints %s", o.out.c_str());
	for (auto &r : runs) {
		double sum = 0;
		for (double x : r.second) sum += x;
		double avg = sum / r.second.size();
		best = std::min(best, avg);
		if (r.first == got) gotavg = avg;
		pairs |= r.second.size() > 1;
	}
	CHECK(near(gotavg, best), "weight %g costs %g, the best %g", got, gotavg, best);
	if (runs.size() > 1 && pairs) c.nontrivial();
}
