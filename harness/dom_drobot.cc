// P21: the dock robot, against a model of its rules.
#include "domcheck.hpp"
#include "drobot/drobot.hpp"
#include <cstring>
#include <sstream>
#include <sys/wait.h>

struct Model {
	int nlocs, nboxes, npiles, nrcranes;
	std::vector<std::vector<double>> dist;
	std::vector<int> cranes, piles;	// how many at each location
	std::vector<int> pileloc;
	std::vector<std::vector<int>> stack;	// by pile
	std::vector<int> goal;	// or -1
};

struct DState {
	int rloc, rbox;
	std::vector<std::vector<int>> held;	// boxes on cranes, by location
	std::vector<std::vector<std::vector<int>>> piles;
	void canon() {
		for (auto &h : held) std::sort(h.begin(), h.end());
		for (auto &p : piles) std::sort(p.begin(), p.end());
	}
};
static std::string enc(DState s) {
	s.canon();
	std::string r = strf("%d %d", s.rloc, s.rbox);
	for (size_t l = 0; l < s.held.size(); l++) {
		r += " L";
		for (int b : s.held[l]) r += strf(" c%d", b);
		for (auto &p : s.piles[l]) {
			r += " p";
			for (size_t i = 0; i < p.size(); i++) r += strf(i ? ",%d" : "%d", p[i]);
		}
	}
	return r;
}
static DState dec(const std::string &k) {
	DState s;
	std::istringstream in(k);
	in >> s.rloc >> s.rbox;
	std::string t;
	while (in >> t) {
		if (t == "L") { s.held.push_back({}); s.piles.push_back({}); }
		else if (t[0] == 'c') s.held.back().push_back(atoi(t.c_str() + 1));
		else {
			std::vector<int> p;
			for (const char *q = t.c_str() + 1; *q;) { char *e; p.push_back((int) strtol(q, &e, 10)); q = *e == ',' ? e + 1 : e; }
			s.piles.back().push_back(p);
		}
	}
	return s;
}

struct RobotA : AdapterBase {
	typedef DockRobot D;
	D &d;
	const Model &m;
	RobotA(D &dd, const Model &mm) : d(dd), m(mm) { }
	double heps() const { return 1e-4; }
	double tol() const { return 1e-4; }
	template<class O> static bool operless(const O &x, const O &y) {
		return std::make_pair((int) x.type, std::make_pair(x.x, x.y)) < std::make_pair((int) y.type, std::make_pair(y.x, y.y));
	}
	bool consistent() const { return false; }
	// Handling boxes rather than driving about.
	template<class Os> size_t choose(Case &c, Os &ops) {
		std::vector<size_t> here;
		if (c.chance(3, 4))
			for (size_t i = 0; i < ops.size(); i++) if (ops[i].type != D::Oper::Move) here.push_back(i);
		return here.empty() ? c.draw(ops.size()) : c.pick(here);
	}
	std::string key(D::State &s) {
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		d.dumpstate(f, s);
		fclose(f);
		DState v;
		v.rloc = v.rbox = -100;
		int left = -1;
		std::istringstream in(std::string(buf, n));
		free(buf);
		std::string line;
		while (std::getline(in, line)) {
			if (sscanf(line.c_str(), "robot location: %d", &v.rloc) == 1) continue;
			if (sscanf(line.c_str(), "robot contents: %d", &v.rbox) == 1) continue;
			if (sscanf(line.c_str(), "out of place boxes: %d", &left) == 1) continue;
			int b;
			if (sscanf(line.c_str(), "loc %d:", &b) == 1) { v.held.push_back({}); v.piles.push_back({}); continue; }
			if (v.held.empty()) continue;
			if (sscanf(line.c_str(), " crane: %d", &b) == 1) { v.held.back().push_back(b); continue; }
			size_t at = line.find("pile:");
			if (at != std::string::npos) {
				std::vector<int> p;
				std::istringstream ps(line.substr(at + 5));
				while (ps >> b) p.push_back(b);
				v.piles.back().push_back(p);
			}
		}
		std::string k = enc(v);
		if (left != misplaced(v)) k += strf(" (%d boxes out of place, it says %d)", misplaced(v), left);
		return k;
	}
	int misplaced(const DState &s) const {
		int n = 0;
		std::vector<int> at(m.nboxes, -1);
		for (size_t l = 0; l < s.held.size(); l++) {
			for (int b : s.held[l]) if (b >= 0 && b < m.nboxes) at[b] = (int) l;
			for (auto &p : s.piles[l]) for (int b : p) if (b >= 0 && b < m.nboxes) at[b] = (int) l;
		}
		if (s.rbox >= 0) at[s.rbox] = s.rloc;
		for (int b = 0; b < m.nboxes; b++) n += m.goal[b] >= 0 && at[b] != m.goal[b];
		return n;
	}
	bool goal(const std::string &k) { return misplaced(dec(k)) == 0; }
	std::vector<MSucc> succs(const std::string &k) {
		std::vector<MSucc> r;
		DState s = dec(k);
		int l = s.rloc;
		bool freecrane = (int) s.held[l].size() < m.cranes[l];
		// Put a box from a crane onto a pile, or where there is none yet.
		for (size_t c = 0; c < s.held[l].size(); c++) {
			for (size_t p = 0; p < s.piles[l].size(); p++) {
				DState t = s;
				t.piles[l][p].push_back(s.held[l][c]);
				t.held[l].erase(t.held[l].begin() + c);
				r.push_back(MSucc(enc(t), 0.05 * (s.piles[l][p].size() + 1)));
			}
			if ((int) s.piles[l].size() < m.piles[l]) {
				DState t = s;
				t.piles[l].push_back({ s.held[l][c] });
				t.held[l].erase(t.held[l].begin() + c);
				r.push_back(MSucc(enc(t), 0.05));
			}
		}
		// Lift the top box of a pile with a free crane.
		if (freecrane)
			for (size_t p = 0; p < s.piles[l].size(); p++) {
				DState t = s;
				int b = t.piles[l][p].back();
				t.piles[l][p].pop_back();
				if (t.piles[l][p].empty()) t.piles[l].erase(t.piles[l].begin() + p);
				t.held[l].push_back(b);
				r.push_back(MSucc(enc(t), 0.05 * (s.piles[l][p].size() + 1)));
			}
		if (freecrane && s.rbox >= 0) {
			DState t = s;
			t.held[l].push_back(s.rbox);
			t.rbox = -1;
			r.push_back(MSucc(enc(t), 0.01));
		}
		if (s.rbox < 0)
			for (size_t c = 0; c < s.held[l].size(); c++) {
				DState t = s;
				t.rbox = s.held[l][c];
				t.held[l].erase(t.held[l].begin() + c);
				r.push_back(MSucc(enc(t), 0.01));
			}
		for (int to = 0; to < m.nlocs; to++)
			if (to != l) {
				DState t = s;
				t.rloc = to;
				r.push_back(MSucc(enc(t), m.dist[l][to]));
			}
		return r;
	}
};

static Model gen(Case &c, int maxlocs, int maxboxes, int maxcranes = 2, int maxpiles = 3) {
	Model m;
	m.nlocs = (int) c.range(1, maxlocs);
	m.nboxes = (int) c.range(1, maxboxes);
	bool symmetric = c.flip();
	static const double ds[] = { 1, 2, 0.5, 10, 3, 0.25, 100 };
	m.dist.assign(m.nlocs, std::vector<double>(m.nlocs, 0));
	for (int i = 0; i < m.nlocs; i++)
		for (int j = 0; j < m.nlocs; j++)
			if (i != j) m.dist[i][j] = symmetric && j < i ? m.dist[j][i] : ds[c.draw(7)];
	m.nrcranes = 0;
	for (int i = 0; i < m.nlocs; i++) {
		m.cranes.push_back((int) c.range(1, maxcranes));
		if (c.chance(1, 8)) m.cranes.back() = 0;
		m.nrcranes += m.cranes.back();
		int np = (int) c.range(1, maxpiles);
		if (i > 0 && c.chance(1, 8)) np = 0;
		m.piles.push_back(np);
		for (int p = 0; p < np; p++) m.pileloc.push_back(i);
	}
	m.npiles = (int) m.pileloc.size();
	m.stack.resize(m.npiles);
	std::vector<int> order;
	for (int b = 0; b < m.nboxes; b++) order.insert(order.begin() + c.draw(order.size() + 1), b);
	for (int b : order) m.stack[c.draw(m.npiles)].push_back(b);
	for (int b = 0; b < m.nboxes; b++) m.goal.push_back(c.chance(1, 5) ? -1 : (int) c.draw(m.nlocs));
	return m;
}

static std::string text(const Model &m) {
	std::string s = strf("nlocations: %d\nncranes: %d\nncontainers: %d\nnpiles: %d\nnrobots: 1\n\n", m.nlocs, m.nrcranes, m.nboxes, m.npiles);
	int cr = 0;
	for (int l = 0; l < m.nlocs; l++) {
		s += strf("location %d\n\tadjacent:", l);
		for (int j = 0; j < m.nlocs; j++) s += strf(" %g", m.dist[l][j]);
		s += "\n\tcranes:";
		for (int i = 0; i < m.cranes[l]; i++) s += strf(" %d", cr++);
		s += "\n\tpiles:";
		for (int p = 0; p < m.npiles; p++) if (m.pileloc[p] == l) s += strf(" %d", p);
		s += "\n";
	}
	s += "\n";
	for (int p = 0; p < m.npiles; p++) {
		s += strf("pile %d\n\t", p);
		for (int b : m.stack[p]) s += strf(" %d", b);
		s += "\n";
	}
	s += "\n";
	for (int b = 0; b < m.nboxes; b++)
		if (m.goal[b] >= 0) s += strf("container %d at %d\n", b, m.goal[b]);
	return s;
}
static std::string start(const Model &m) {
	DState s;
	s.rloc = 0;
	s.rbox = -1;
	s.held.resize(m.nlocs);
	s.piles.resize(m.nlocs);
	for (int p = 0; p < m.npiles; p++) if (!m.stack[p].empty()) s.piles[m.pileloc[p]].push_back(m.stack[p]);
	return enc(s);
}

PROP(drobot_space, 500, 8000, "at least 100 reachable states") {
	Model m = gen(c, 3, 3);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	DockRobot d(f.f);
	RobotA a(d, m);
	DomCheck<RobotA> dc(c, a);
	Space<RobotA> sp;
	sp.build(a, start(m), 3000);
	if (sp.keys.size() >= 100) c.nontrivial();
	if (sp.whole) c.label("whole spaces");
	sweep(c, a, dc, sp, 60);
	if (sp.whole) solvecheck(c, a, sp.opt(), false);
	c.label("edges", dc.nedges);
}

// The estimate of steps never exceeds the fewest steps to a goal.
PROP(drobot_steps, 500, 3000, "at least 100 reachable states") {
	Model m = gen(c, 4, 2);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	DockRobot d(f.f);
	RobotA a(d, m);
	Space<RobotA> sp;
	sp.build(a, start(m), 3000);
	if (!sp.whole) c.discard();
	if (sp.keys.size() >= 100) c.nontrivial();
	for (auto &es : sp.adj) for (auto &e : es) e.second = 1;
	sp.dijkstra(a);
	std::string k = sp.keys[0];
	DockRobot::State s = d.initialstate();
	for (int i = 0; i < 40; i++) {
		double steps = sp.hstar[sp.id.at(k)], est = (double) d.d(s);
		CHECK(est <= steps * (1 + 1e-6) + 1e-4, "the steps left are estimated at %g, the goal is %g steps away from %s", est, steps, k.c_str());
		DockRobot::Operators ops(d, s);
		if (ops.size() == 0) break;
		DockRobot::Oper op = ops[c.draw(ops.size())];
		DockRobot::State copy(s), next;
		{
			DockRobot::Edge e(d, copy, op);
			next = e.state;
		}
		s = next;
		k = a.key(s);
	}
}

PROP(drobot_walk, 500, 6000, "a walk of at least five steps") {
	Model m = gen(c, 6, 10);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	DockRobot d(f.f);
	RobotA a(d, m);
	DomCheck<RobotA> dc(c, a);
	DockRobot::State s = d.initialstate();
	int depth = (int) c.size(0, 40);
	if (depth >= 5) c.nontrivial();
	dc.walks(s, start(m), depth, 2);
}

// Many locations, boxes, cranes and piles.
PROP(drobot_large, 150, 3000, "a walk of at least twenty steps") {
	Model m = gen(c, 14, 40, 8, c.flip() ? 10 : 2);
	if (c.flip()) {	// where the robot is, a crowd
		m.nrcranes += 9 - m.cranes[0];
		m.cranes[0] = 9;
	}
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	DockRobot d(f.f);
	RobotA a(d, m);
	DomCheck<RobotA> dc(c, a);
	DockRobot::State s = d.initialstate();
	int depth = (int) c.range(10, 50);
	if (depth >= 20) c.nontrivial();
	dc.walks(s, start(m), depth, 2);
}

// A box or two and many locations: the way around may be the short one.
PROP(drobot_far, 240, 4000, "at least eight locations") {
	Model m = gen(c, 12, 1, 1, 1);
	std::string t = text(m);
	c.desc("%s", t.c_str());
	TextFile f(t);
	DockRobot d(f.f);
	RobotA a(d, m);
	DomCheck<RobotA> dc(c, a);
	Space<RobotA> sp;
	sp.build(a, start(m), 3000);
	if (m.nlocs >= 8) c.nontrivial();
	if (sp.whole) c.label("whole spaces");
	sweep(c, a, dc, sp, 10);
	if (sp.whole) solvecheck(c, a, sp.opt(), false);
	for (auto &es : sp.adj) for (auto &e : es) e.second = 1;
	sp.dijkstra(a);
	DockRobot::State s = d.initialstate();
	double steps = sp.hstar[0], est = (double) d.d(s);
	CHECK(!sp.whole || est <= steps * (1 + 1e-6) + 1e-4, "the steps left are estimated at %g, the goal is %g steps away", est, steps);
}

PROP(drobot_reject, 60, 1000, "always") {
	c.nontrivial();
	Model m = gen(c, 3, 3);
	switch (c.draw(6)) {
	case 0: m.nlocs++; m.dist.clear(); break;
	case 1: m.goal[c.draw(m.nboxes)] = m.nlocs + (int) c.size(0, 9); break;
	case 2: {
		int b = m.nboxes + (int) c.size(0, 1000);
		m.stack[c.draw(m.npiles)].push_back(b);
		break;
	}
	case 3: m.nrcranes = -1; break;
	case 4: m.npiles = -1; break;
	case 5: m.nboxes = -1; break;
	}
	std::string t;
	if (m.dist.empty()) {
		// One location more than the distances are for.
		m.nlocs--;
		m.dist.assign(m.nlocs, std::vector<double>(m.nlocs, 1));
		t = text(m);
		t = strf("nlocations: %d", m.nlocs + 1) + t.substr(t.find('\n'));
	} else if (m.nrcranes < 0) { m.nrcranes = 1; t = text(m); size_t at = t.find("nrobots: 1"); t.replace(at, 10, "nrobots: 2"); }
	else if (m.npiles < 0) { m.npiles = (int) m.pileloc.size(); t = text(m) + strf("pile %d\n 0\n", m.npiles + (int) c.size(0, 9)); }
	else if (m.nboxes < 0) { m.nboxes = (int) m.goal.size(); t = text(m) + strf("location %d\n", m.nlocs + (int) c.size(0, 9)); }
	else t = text(m);
	c.desc("%s", t.c_str());
	std::string err;
	int st = c.sub([&]() { TextFile f(t); DockRobot d(f.f); }, &err);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && err.find("AddressSanitizer") == std::string::npos,
		"the instance is not refused (status %x): %s", st, err.c_str());
}

#ifdef CLI
#include "cli.hpp"

PROP(cli_drobot, 720, 12000, "the cheapest plan costs at least two") {
	Model m = gen(c, 3, 3);
	std::string text = ::text(m);
	c.desc("%s", text.c_str());
	CliTraits t;
	t.unit = false;
	t.tol = 2e-6;
	if (c.chance(1, 8)) { clirefuse(c, "prog_drobot_solver", text, t); return; }
	TextFile f(text);
	DockRobot d(f.f);
	RobotA a(d, m);
	Space<RobotA> sp;
	sp.build(a, start(m), 3000);
	if (!sp.whole) c.discard();
	double opt = sp.opt();
	t.realtime = opt < INFINITY;
	for (double h : sp.hstar) if (h == INFINITY) t.realtime = false;
	t.admissible = a.admissible();
	t.consistent = a.consistent();
	DockRobot::State s = d.initialstate();
	t.h0 = (double) d.h(s);
	t.d0 = (double) d.d(s);
	clisolve(c, "prog_drobot_solver", text, opt, t);
	if (opt < INFINITY && opt >= 2) c.nontrivial();
}
#endif
