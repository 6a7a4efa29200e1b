// P40: least-squares fits, and the program that learns from path data.
#include <boost/cstdint.hpp>
#include <boost/optional.hpp>
#include "pbt.hpp"
#include "prog.hpp"
#include "rdb/rdb.hpp"
#include "search/learnh/leastsquares.hpp"
#include "utils/utils.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

using pbt::Case;
using pbt::strf;

typedef std::vector<std::vector<double>> Mat;

// fit solves the normal equations of whole numbers. It is false if the
// columns are dependent, or so near it that the fit is not well determined.
static bool fit(const Mat &a, const std::vector<double> &b, std::vector<double> &x) {
	size_t n = a[0].size(), m = a.size();
	std::vector<std::vector<long double>> g(n, std::vector<long double>(n + 1, 0));
	for (size_t i = 0; i < n; i++) {
		for (size_t j = 0; j < n; j++) for (size_t k = 0; k < m; k++) g[i][j] += (long double) a[k][i] * a[k][j];
		for (size_t k = 0; k < m; k++) g[i][n] += (long double) a[k][i] * b[k];
	}
	long double top = 0;
	for (size_t i = 0; i < n; i++) top = std::max(top, g[i][i]);
	for (size_t i = 0; i < n; i++) {
		size_t p = i;
		for (size_t r = i; r < n; r++) if (fabsl(g[r][i]) > fabsl(g[p][i])) p = r;
		if (fabsl(g[p][i]) <= 1e-6L * top) return false;
		std::swap(g[p], g[i]);
		for (size_t r = 0; r < n; r++) {
			if (r == i) continue;
			long double q = g[r][i] / g[i][i];
			for (size_t j = i; j <= n; j++) g[r][j] -= q * g[i][j];
		}
	}
	x.resize(n);
	for (size_t i = 0; i < n; i++) x[i] = (double) (g[i][n] / g[i][i]);
	return true;
}

static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

PROP(least_squares, 3000, 100000, "more rows than columns, and no exact solution") {
	int n = (int) c.range(1, 6), m = c.chance(1, 20) ? (int) c.range(41, 600) : (int) c.size(1, 40);
	if (c.chance(3, 4)) m = std::max(m, n);
	long span = c.range(1, 50);
	Mat a(m, std::vector<double>(n));
	std::vector<double> b(m), flat, x(n + 2, 12345), truth(n);
	bool planted = c.chance(1, 3);
	for (auto &t : truth) t = (double) c.range(-9, 9);
	for (int i = 0; i < m; i++) {
		for (int j = 0; j < n; j++) { a[i][j] = (double) c.range(-span, span); flat.push_back(a[i][j]); }
		b[i] = planted ? 0 : (double) c.range(-99, 99);
		if (planted) for (int j = 0; j < n; j++) b[i] += a[i][j] * truth[j];
		std::string s;
		for (double v : a[i]) s += strf(" %g", v);
		c.desc("%s | %g\n", s.c_str(), b[i]);
	}
	std::vector<double> flat2 = flat, b2 = b, want;
	bool ok = leastsquares(m, n, flat2.data(), b2.data(), x.data());
	CHECK(flat2 == flat && b2 == b, "the problem was changed");
	CHECK(x[n] == 12345 && x[n+1] == 12345, "more than %d numbers were stored", n);
	if (m < n) {
		CHECK(!ok, "%d rows are said to determine %d numbers", m, n);
		c.label("underdetermined");
		return;
	}
	if (!fit(a, b, want)) { c.label("dependent columns"); return; }
	CHECK(ok, "the fit failed");
	for (int i = 0; i < n; i++) CHECK(near(x[i], want[i], 1e-7), "x%d is %.12g, it should be %.12g", i, x[i], want[i]);
	if (planted) for (int i = 0; i < n; i++) CHECK(near(x[i], truth[i], 1e-7), "x%d is %.12g, it should be %.12g", i, x[i], truth[i]);
	double res = 0;
	for (int i = 0; i < m; i++) {
		double r = b[i];
		for (int j = 0; j < n; j++) r -= a[i][j] * x[j];
		res += r * r;
	}
	if (m > n && res > 1e-3) c.nontrivial();
}

struct Row { double g, h, D, d, hs, ds; };

PROP(hlms, 300, 6000, "at least two files of data match, and the sample is full") {
	pbt::clearscratch();
	bool forh = c.flip();
	int nfiles = (int) c.range(1, 4);
	std::vector<Row> all;
	bool anyother = false;
	int matching = 0, id = 0;
	bool bare = c.chance(1, 4);	// no attributes are asked for
	std::vector<std::pair<std::string, std::vector<Row>>> files;
	for (int f = 0; f < nfiles; f++) {
		bool other = !bare && c.chance(1, 4);
		RdbAttrs at;
		at.push_back("alg", other ? "greedy" : "astar-dump");
		at.push_back("num", strf("%d", f));
		std::string path = pathfor("root", at), s = "#start data file format 4\n#pair  \"alg\"\t\"astar-dump\"\n";
		s += "#altcols  \"path\"\t\"g\"\t\"h\"\t\"D\"\t\"d\"\t\"h*\"\t\"d*\"\n#altcols  \"sample\"\t\"h\"\t\"depth\"\t\"f\"\t\"x\"\t\"y\"\t\"z\"\n";
		int k = (int) c.size(0, 25);
		for (int i = 0; i < k; i++) {
			Row r;
			r.g = (double) c.draw(60);
			r.h = (double) c.draw(60);
			r.D = (double) c.draw(40);
			r.d = (double) c.draw(40);
			// Each target tells its row.
			r.hs = 3 * id + (double) c.draw(3);
			r.ds = 5 * id + (double) c.draw(5);
			id++;
			if (c.chance(1, 8)) s += strf("#altrow  \"sample\"\t%g\t%g\t%g\t%g\t%g\t%g\n", r.d, r.D, r.h, r.g, r.ds, r.hs);
			s += strf("#altrow  \"path\"\t%g\t%g\t%g\t%g\t%g\t%g\n", r.g, r.h, r.D, r.d, r.hs, r.ds);
			if (!other) all.push_back(r);
		}
		s += "#end data file format 4\n";
		prog::spew(path, s);
		if (other) anyother = true; else matching++;
	}
	size_t t = all.size();
	size_t sz = (size_t) c.range(1, 2 * t + 3);
	std::vector<std::string> args = { strf("%zu", sz), forh ? "h" : "d", "root" };
	if (!bare) args.push_back("alg=astar-dump");
	std::string told;
	for (auto &r : all) told += strf("%g %g %g %g %g %g\n", r.g, r.h, r.D, r.d, r.hs, r.ds);
	c.desc("%s\n%s", prog::shown(pbt::strf("%zu %s", sz, args[1].c_str())).c_str(), told.c_str());
	prog::Out o = prog::run("prog_hlms", args);
	CHECK(o.clean(), "hlms ended badly with %d: %s", o.status, prog::shown(o.err).c_str());
	size_t m = std::min(sz, t);
	if (m < 4) {
		CHECK(!o.ok(), "four numbers were learned from %zu records", m);
		return;
	}
	std::vector<double> x(4);
	std::vector<double> pt, pe;
	bool script = prog::slurp("lms.spt").size() > 0;
	for (auto &l : prog::lines(prog::slurp("lms.spt"))) {
		double p, e;
		int len = 0;
		if (sscanf(l.c_str(), " (%lf %lf)%n", &p, &e, &len) == 2 && (size_t) len == l.size()) { pt.push_back(p); pe.push_back(e); }
	}
	if (o.ok()) {
		int len = 0;
		CHECK(sscanf(o.out.c_str(), "%lf,%lf,%lf,%lf\n%n", &x[0], &x[1], &x[2], &x[3], &len) == 4 && (size_t) len == o.out.size(), "hlms prints %s", prog::shown(o.out).c_str());
		CHECK(script && pt.size() == m, "a sample of %zu shows %zu points", m, pt.size());
	}
	std::vector<Row> chosen = all;
	if (sz < t) {
		if (!o.ok()) return;
		std::map<double, Row> by;
		for (auto &r : all) by[forh ? r.hs : r.ds] = r;
		chosen.clear();
		std::set<double> seen;
		for (double p : pt) {
			CHECK(by.count(p), "there is no record of %g", p);
			CHECK(seen.insert(p).second, "the record of %g is used twice", p);
			chosen.push_back(by[p]);
		}
	}
	Mat a;
	std::vector<double> b, want;
	for (auto &r : chosen) { a.push_back({ r.h, r.g, r.d, r.D }); b.push_back(forh ? r.hs : r.ds); }
	if (!fit(a, b, want)) { c.label("dependent columns"); return; }
	CHECK(o.ok(), "hlms ended with %d: %s", o.status, prog::shown(o.err).c_str());
	for (int i = 0; i < 4; i++) CHECK(std::fabs(x[i] - want[i]) <= 1e-6 + 1e-6 * std::fabs(want[i]), "number %d is %g, it should be %g", i, x[i], want[i]);
	std::multimap<double, double> shown;
	for (size_t i = 0; i < pt.size(); i++) shown.emplace(pt[i], pe[i]);
	for (size_t i = 0; i < a.size(); i++) {
		double e = 0;
		for (int j = 0; j < 4; j++) e += a[i][j] * want[j];
		auto it = shown.find(b[i]);
		CHECK(it != shown.end() && std::fabs(it->second - e) <= 1e-5 + 1e-6 * std::fabs(e), "the estimate for %g is not shown as %g", b[i], e);
	}
	if (sz < t) c.label("sampled");
	if (anyother) c.label("other data in the database");
	if (matching >= 2 && sz <= t) c.nontrivial();
}

// Which records are kept does not depend on where they are.
PROP(hlms_reservoir, 8, 60, "always") {
	c.nontrivial();
	pbt::clearscratch();
	size_t t = (size_t) c.range(300, 600), sz = (size_t) c.range(60, 120);
	RdbAttrs at;
	at.push_back("alg", "astar-dump");
	std::string s = "#start data file format 4\n#altcols  \"path\"\t\"g\"\t\"h\"\t\"D\"\t\"d\"\t\"h*\"\t\"d*\"\n";
	for (size_t i = 0; i < t; i++) s += strf("#altrow  \"path\"\t%lu\t%lu\t%lu\t%lu\t%zu\t0\n", c.draw(90), c.draw(90), c.draw(90), c.draw(90), i);
	prog::spew(pathfor("root", at), s + "#end data file format 4\n");
	c.desc("%zu of %zu records\n", sz, t);
	prog::Out o = prog::run("prog_hlms", { strf("%zu", sz), "h", "root" });
	CHECK(o.ok(), "hlms ended with %d: %s", o.status, prog::shown(o.err).c_str());
	double mean = 0, n = 0;
	int part[4] = { 0, 0, 0, 0 };
	for (auto &l : prog::lines(prog::slurp("lms.spt"))) {
		double p, e;
		if (sscanf(l.c_str(), " (%lf %lf)", &p, &e) != 2) continue;
		mean += p / t;
		n++;
		part[std::min(3, (int) (4 * p / t))]++;
	}
	CHECK(n == sz, "%g records are kept", n);
	mean /= n;
	// More than five standard deviations either way.
	CHECK(std::fabs(mean - 0.5) < 5.5 * std::sqrt(1 / 12.0 / sz), "the records kept lie at %g of the way on average", mean);
	for (int k = 0; k < 4; k++) CHECK(std::fabs(part[k] - sz / 4.0) < 5.5 * std::sqrt(sz * 0.1875), "%d of %zu records kept are from quarter %d", part[k], sz, k + 1);
}

PROP(hlms_reject, 40, 300, "always") {
	c.nontrivial();
	pbt::clearscratch();
	static const std::vector<std::vector<std::string>> bad = {
		{ }, { "10" }, { "10", "h" }, { "10", "x", "root" }, { "many", "h", "root" }, { "0", "h", "root" }, { "-4", "d", "root" }, { "10", "hd", "root" }, { "", "h", "root" },
	};
	RdbAttrs at;
	at.push_back("alg", "astar-dump");
	std::string s;
	for (int i = 0; i < 12; i++) s += strf("#altrow  \"path\"\t%lu\t%lu\t%lu\t%lu\t%d\t0\n", c.draw(90), c.draw(90), c.draw(90), c.draw(90), i);
	prog::spew(pathfor("root", at), "#start data file format 4\n" + s + "#end data file format 4\n");
	auto a = c.pick(bad);
	std::string told;
	for (auto &x : a) told += " " + x;
	c.desc("hlms%s\n", told.c_str());
	prog::Out o = prog::run("prog_hlms", a);
	CHECK(o.clean() && !o.ok(), "hlms%s ended with %d: %s", told.c_str(), o.status, prog::shown(o.err).c_str());
}
