#include "graph.hpp"
#include <sys/resource.h>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <new>
#include <queue>
#include <sstream>

using pbt::Case;
using pbt::strf;

unsigned char newfill = 0xb7;
double vclock = 1000;
bool oneclock;

void *operator new(size_t n) {
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	memset(p, newfill, n);
	return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// walltime() and cputime() of utils/time.cc are replaced by virtual clocks, of
// which that of the processor is half as fast.
extern "C" double __wrap__Z8walltimev() { return vclock; }
extern "C" double __wrap__Z7cputimev() { return oneclock ? vclock : 7 + vclock / 2; }

static const double Inf = std::numeric_limits<double>::infinity();

void Graph::solve() {
	hstar.assign(n, Inf);
	std::vector<std::vector<std::pair<int, double>>> rev(n);
	for (int u = 0; u < n; u++)
		for (auto &e : adj[u]) rev[e.to].push_back({u, e.cost});
	typedef std::pair<double, int> P;
	std::priority_queue<P, std::vector<P>, std::greater<P>> q;
	for (int u = 0; u < n; u++)
		if (goal[u]) { hstar[u] = 0; q.push({0, u}); }
	while (!q.empty()) {
		P p = q.top();
		q.pop();
		if (p.first > hstar[p.second]) continue;
		for (auto &r : rev[p.second])
			if (p.first + r.second < hstar[r.first]) {
				hstar[r.first] = p.first + r.second;
				q.push({hstar[r.first], r.first});
			}
	}
	reach.assign(n, 0);
	std::vector<int> st{start};
	reach[start] = 1;
	while (!st.empty()) {
		int u = st.back();
		st.pop_back();
		for (auto &e : adj[u]) if (!reach[e.to]) { reach[e.to] = 1; st.push_back(e.to); }
	}
}

std::string Graph::str() const {
	std::string s = strf("%d states, start %d, hash kind %d\n", n, start, hashkind);
	for (int u = 0; u < n && u < 60; u++) {
		s += strf("  %d%s h=%g d=%g h*=%g:", u, goal[u] ? " GOAL" : "", h[u], d[u], hstar[u]);
		for (auto &e : adj[u])
			s += strf(" op%d->%d cost %g%s", e.id, e.to, e.cost, e.rev >= 0 ? strf(" (rev op%d)", e.rev).c_str() : "");
		s += "\n";
	}
	return s;
}

Graph gengraph(Case &c, const GenOpts &o) {
	Graph g;
	g.integer = o.integer;
	int maxdeg = o.maxdeg;
	if (o.big && c.chance(1, 25)) {
		if (o.huge && c.chance(1, 16)) {
			g.n = (int) c.range(1000, 4000);
			maxdeg = c.flip() ? 40 : o.maxdeg;
		} else {
			g.n = (int) c.range(150, 500);
		}
	} else {
		g.n = (int) c.size(1, o.nmax);
	}
	g.adj.resize(g.n);
	g.hashkind = (int) c.draw(4);
	if (g.n > 100 && g.hashkind == 2) g.hashkind = 0;
	if (g.n > 500) g.hashkind = g.hashkind == 1 ? 0 : g.hashkind;

	int costkind = (int) c.draw(o.uniquecosts ? 1 : 5);
	if (!o.trade && !o.safe && !o.uniquecosts && (!o.integer || g.n <= 100) && c.chance(1, 30)) costkind = 5;
	auto cost = [&]() -> double {
		if (o.uniquecosts) return (1 + c.draw(1 << 16)) / 4096.0;
		long v = 1;
		switch (costkind) {
		case 0: v = 1; break;
		case 1: v = c.range(1, 3); break;
		case 2: v = c.range(0, 4); break;
		case 3: v = 1 + c.draw(20); break;
		case 5: v = 1 + c.draw(1 << (!o.integer && c.flip() ? 20 : 9)); break;	// open lists of integers hold a bucket per cost
		case 4: v = c.chance(1, 6) ? c.range(10, 40) : c.range(0, 3); break;
		}
		if (o.positive && v < 1) v = 1;
		if (o.integer) return v;
		double x = v;
		if (costkind > 0) x = v / 2.0 + c.draw(4) / 8.0;
		if (o.positive && x <= 0) x = 0.125;
		return x;
	};
	auto add = [&](int u, int v, double w) {
		for (auto &e : g.adj[u]) if (e.to == v && !c.chance(1, 4)) return -1;
		GEdge e;
		e.to = v;
		e.cost = w;
		e.id = (int) g.adj[u].size() * 3 + (u % 5);
		e.rev = -1;
		e.revcost = -1;
		g.adj[u].push_back(e);
		return e.id;
	};
	auto link = [&](int u, int v) {
		double w = cost(), r = c.chance(1, 4) ? cost() : w;
		int a = add(u, v, w), b = add(v, u, r);
		if (a >= 0 && b >= 0 && !c.chance(1, 5))
			for (auto &e : g.adj[u]) if (e.id == a) { e.rev = b; e.revcost = r; }
		if (a >= 0 && b >= 0 && !c.chance(1, 5))
			for (auto &e : g.adj[v]) if (e.id == b) { e.rev = a; e.revcost = w; }
	};
	int style = o.trade && c.chance(2, 3) ? 9 : (int) c.draw(5);
	int lanes = 1;
	std::vector<int> lane(g.n, 0);
	if (o.dag) {
		for (int u = 0; u < g.n; u++) {
			long k = c.range(0, std::min(maxdeg, 3));
			for (long i = 0; i < k && u + 1 < g.n; i++)
				add(u, (int) std::min<long>(g.n - 1, u + 1 + c.draw(c.flip() ? 3 : g.n - u - 1)), cost());
		}
	} else if (style == 0 || style == 1) {
		for (int u = 0; u < g.n; u++) {
			long k = c.range(0, style == 0 ? maxdeg : std::max(1, maxdeg / 2));
			for (long i = 0; i < k; i++) {
				int v = (int) c.draw(g.n);
				if (style == 0) add(u, v, cost());
				else if (v != u) link(u, v);
			}
		}
	} else if (style == 2) {
		int w = std::max(1, (int) std::sqrt((double) g.n)), ht = g.n / w;
		for (int y = 0; y < ht; y++) for (int x = 0; x < w; x++) {
			if (x + 1 < w && !c.chance(1, 8)) link(y*w + x, y*w + x + 1);
			if (y + 1 < ht && !c.chance(1, 8)) link(y*w + x, (y+1)*w + x);
		}
	} else if (style == 9) {
		// Lanes from state 0 to the last, each with a cost per step and its
		// own accuracy of the heuristic, and a few links between lanes.
		if (g.n < 12) g.n = 12 + g.n, g.adj.resize(g.n), lane.assign(g.n, 0);
		lanes = (int) c.range(2, 4);
		double dear = c.range(1, 4);
		std::vector<int> last(lanes, 0);
		for (int u = 1; u < g.n - 1; u++) {
			int l = (int) c.draw(lanes);
			lane[u] = l;
			double w = cost() * (l + 1 > dear ? 1 : 1 + l);
			add(last[l], u, w);
			if (c.chance(1, 4)) add(u, last[l], w);
			if (c.chance(1, 5)) add(u, 1 + (int) c.draw(g.n - 2), cost());
			last[l] = u;
		}
		for (int l = 0; l < lanes; l++) add(last[l], g.n - 1, cost());
	} else if (style == 3) {
		// Layers with forward edges of different lengths and a few back.
		for (int u = 0; u + 1 < g.n; u++) {
			long k = c.range(1, std::min(maxdeg, 4));
			for (long i = 0; i < k; i++)
				add(u, (int) std::min<long>(g.n - 1, u + 1 + c.draw(4)), cost());
			if (c.chance(1, 5)) add(u, (int) c.draw(u + 1), cost());
		}
	} else {
		// A chain with shortcuts and detours.
		for (int u = 0; u + 1 < g.n; u++) {
			if (c.flip()) link(u, u + 1);
			else add(u, u + 1, cost());
			if (c.chance(1, 3)) add(u, (int) c.draw(g.n), cost());
		}
	}
	g.start = style != 9 && c.chance(1, 3) ? (int) c.draw(g.n) : 0;
	if (o.dag) g.start = 0;
	g.goal.assign(g.n, 0);
	g.solve();
	if (o.needsol || c.chance(3, 4)) {
		std::vector<int> r;
		for (int u = 0; u < g.n; u++) if (g.reach[u]) r.push_back(u);
		// The farther the better: prefer late states.
		int k = (int) r.size();
		g.goal[r[k - 1 - c.draw(c.flip() ? k : std::min(k, 3))]] = 1;
	}
	long extra = c.chance(1, 4) ? c.range(0, 2) : 0;
	for (long i = 0; i < extra; i++) g.goal[c.draw(g.n)] = 1;
	if (o.safe) {
		// From where no goal can be reached, add a way.
		bool any = false;
		for (int u = 0; u < g.n; u++) any |= g.goal[u];
		if (!any) g.goal[g.start] = 1;
		for (;;) {
			g.solve();
			int bad = -1;
			for (int u = 0; u < g.n && bad < 0; u++) if (g.hstar[u] == Inf) bad = u;
			if (bad < 0) break;
			std::vector<int> good;
			for (int u = 0; u < g.n; u++) if (g.hstar[u] < Inf) good.push_back(u);
			int v = c.pick(good);
			bool dup = true;
			while (dup) {
				size_t before = g.adj[bad].size();
				add(bad, v, cost());
				dup = g.adj[bad].size() == before;
			}
		}
	}
	g.solve();

	// Heuristic.
	double far = 0;
	for (double x : g.hstar) if (x < Inf) far = std::max(far, x);
	double unit = o.integer ? 1 : 1 / 64.0;
	auto down = [&](double x) { return std::floor(x / unit) * unit; };
	int hk = o.heur == 0 ? (int) c.draw(5) : o.heur == 1 ? 1 + (int) c.draw(4) : 2 + (int) c.draw(3);
	g.h.assign(g.n, 0);
	if (o.uniquecosts) unit = 1 / 4096.0;
	switch (hk) {
	case 0:	// anything
		for (int u = 0; u < g.n; u++) g.h[u] = (double) c.draw(o.integer ? 21 : 169) * (o.integer ? 1 : 0.125);
		break;
	case 1:	// admissible, inconsistent
		for (int u = 0; u < g.n; u++) {
			double lim = g.hstar[u] < Inf ? g.hstar[u] : 20;
			long k = (long) c.draw(4);
			g.h[u] = k == 0 ? 0 : k == 1 ? down(lim) : k == 2 ? down(lim / 2) : down(lim * c.real());
		}
		break;
	case 2:	// perfect
		for (int u = 0; u < g.n; u++) g.h[u] = g.hstar[u] < Inf ? g.hstar[u] : far;
		break;
	case 3: // scaled
	case 4: {
		long k = c.range(0, 4);
		for (int u = 0; u < g.n; u++) {
			double lim = g.hstar[u] < Inf ? g.hstar[u] : far;
			g.h[u] = hk == 3 ? down(lim * k / 4) : down(lim * c.draw(5) / 4);
		}
		break;
	}
	}
	if (style == 9 && hk >= 2) {
		std::vector<double> acc(lanes);
		for (auto &x : acc) x = c.range(0, 4) / 4.0;
		for (int u = 0; u < g.n; u++) g.h[u] = down((g.hstar[u] < Inf ? g.hstar[u] : far) * acc[lane[u]]);
	}
	if (hk >= 3 && (style == 9 || c.flip())) {
		// Close under consistency by lowering: keeps misleading basins.
		for (bool more = true; more; ) {
			more = false;
			for (int u = 0; u < g.n; u++)
				for (auto &e : g.adj[u])
					if (g.h[u] > g.h[e.to] + e.cost) {
						g.h[u] = g.h[e.to] + e.cost;
						more = true;
					}
		}
	}
	if (hk >= 2) {
		// Close under consistency, which keeps admissibility.
		std::vector<int> st;
		for (int u = 0; u < g.n; u++) st.push_back(u);
		while (!st.empty()) {
			int u = st.back();
			st.pop_back();
			for (auto &e : g.adj[u])
				if (g.h[e.to] < g.h[u] - e.cost) {
					g.h[e.to] = g.h[u] - e.cost;
					st.push_back(e.to);
				}
		}
	}
	g.admissible = g.consistent = true;
	for (int u = 0; u < g.n; u++) {
		if (g.h[u] > g.hstar[u]) g.admissible = false;
		for (auto &e : g.adj[u]) if (g.h[u] > e.cost + g.h[e.to]) g.consistent = false;
	}
	g.consistent = g.consistent && g.admissible;
	if ((o.heur >= 1 && !g.admissible) || (o.heur == 2 && !g.consistent)) c.fail("HARNESS: bad heuristic made");

	// Distance estimate: steps to a goal, scaled, or anything.
	int dk = (int) c.draw(3);
	g.d.assign(g.n, 0);
	if (dk == 0) {
		std::vector<int> dist(g.n, -1), q;
		for (int u = 0; u < g.n; u++) if (g.goal[u]) { dist[u] = 0; q.push_back(u); }
		std::vector<std::vector<int>> rev(g.n);
		for (int u = 0; u < g.n; u++) for (auto &e : g.adj[u]) rev[e.to].push_back(u);
		for (size_t i = 0; i < q.size(); i++)
			for (int p : rev[q[i]]) if (dist[p] < 0) { dist[p] = dist[q[i]] + 1; q.push_back(p); }
		for (int u = 0; u < g.n; u++) g.d[u] = dist[u] < 0 ? g.n : dist[u];
	} else if (dk == 1) {
		g.d = g.h;
	} else {
		for (int u = 0; u < g.n; u++) g.d[u] = (double) c.draw(12);
	}
	if (o.nod) std::fill(g.d.begin(), g.d.end(), 0);
	return g;
}

Searcher *mksearcher(bool integer, bool inplace, const std::vector<std::string> &args, int fill) {
	unsigned char save = newfill;
	newfill = (unsigned char) fill;
	Searcher *s = variants(integer)[inplace](args);
	newfill = save;
	return s;
}

std::string argstr(const std::vector<std::string> &a) {
	std::string s;
	for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + a[i];
	return s;
}

double checkpath(Case &c, const Graph &g, const Outcome &o, const char *what) {
	CHECK(o.err.empty(), "%s: %s", what, o.err.c_str());
	if (!o.found) {
		CHECK(o.rawops == 0, "%s: no path is reported, yet %zu operators are", what, o.rawops);
		return -1;
	}
	CHECK(o.rawops + 1 == o.rawpath, "%s: a path of %zu states has %zu operators", what, o.rawpath, o.rawops);
	CHECK(o.path.front() == g.start, "%s: the path starts at %d, not %d", what, o.path.front(), g.start);
	CHECK(g.goal[o.path.back()], "%s: the path ends at %d, not a goal", what, o.path.back());
	double sum = 0;
	for (size_t i = 0; i < o.ops.size(); i++) {
		const GEdge *e = g.find(o.path[i], o.ops[i]);
		CHECK(e, "%s: step %zu: operator %d is not applicable in state %d", what, i, o.ops[i], o.path[i]);
		CHECK(e->to == o.path[i+1], "%s: step %zu: operator %d leads from %d to %d, the path says %d",
			what, i, o.ops[i], o.path[i], e->to, o.path[i+1]);
		sum += e->cost;
	}
	CHECK(std::fabs(sum - o.domcost) < 1e-6, "%s: the steps cost %g, the problem says %g", what, sum, o.domcost);
	return sum;
}

// The quoted and bare fields of a datafile line.
static std::vector<std::string> fields(const std::string &line) {
	std::vector<std::string> f;
	size_t i = 0;
	while (i < line.size()) {
		if (isspace((unsigned char) line[i])) { i++; continue; }
		size_t j;
		if (line[i] == '"') {
			j = line.find('"', i + 1);
			if (j == std::string::npos) j = line.size();
			f.push_back(line.substr(i + 1, j - i - 1));
			i = j + 1;
		} else {
			for (j = i; j < line.size() && !isspace((unsigned char) line[j]); j++) ;
			f.push_back(line.substr(i, j - i));
			i = j;
		}
	}
	return f;
}

std::string dfget(const std::string &text, const std::string &key) {
	std::istringstream in(text);
	std::string line;
	while (std::getline(in, line)) {
		if (line.compare(0, 5, "#pair") != 0) continue;
		auto f = fields(line);
		if (f.size() == 3 && f[1] == key) return f[2];
	}
	return "";
}

std::vector<std::vector<std::string>> dfrows(const std::string &text, const std::string &name) {
	std::vector<std::vector<std::string>> rows;
	std::istringstream in(text);
	std::string line;
	while (std::getline(in, line)) {
		if (line.compare(0, 7, "#altrow") != 0) continue;
		auto f = fields(line);
		if (f.size() < 2 || f[1] != name) continue;
		f.erase(f.begin(), f.begin() + 2);
		rows.push_back(f);
	}
	return rows;
}
int ghashkind;
unsigned long ghashes, gmaxhashes;

// Memory limits are recorded, not set: the sanitizer needs its address space.
unsigned long aslimit;
extern "C" int __real_setrlimit(__rlimit_resource_t, const struct rlimit*);
extern "C" int __wrap_setrlimit(__rlimit_resource_t r, const struct rlimit *l) {
	if (r != RLIMIT_AS) return __real_setrlimit(r, l);
	aslimit = l->rlim_cur;
	return 0;
}
