// Checks shared by the domain harnesses: a domain of the repository against an
// independent model of its rules.
//
// An adapter A provides
//	typedef ... D;			the domain of the repository
//	D &d;
//	std::string key(D::State&)	a state written out canonically
//	std::vector<MSucc> succs(const std::string &key)	what the rules allow
//	bool goal(const std::string &key)
// and may override what AdapterBase says.
#pragma once
#include "pbt.hpp"
#include "search/search.hpp"
#include "search/idastar.hpp"
#include "search/astar.hpp"
#include "search/wastar.hpp"
#include "search/greedy.hpp"
#include "search/bugsy.hpp"
#include "search/arastar.hpp"
#include "utils/utils.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <vector>

using pbt::Case;
using pbt::strf;

struct MSucc {
	std::string key;
	double cost;
	MSucc(const std::string &k, double c) : key(k), cost(c) { }
};

static inline bool near(double a, double b, double tol = 1e-6) {
	return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

static inline std::string show(const std::vector<std::pair<std::string, double>> &v) {
	std::string s;
	for (auto &p : v) s += strf("\n    %s cost %g", p.first.c_str(), p.second);
	return s.empty() ? " nothing" : s;
}

template<class A> struct DomCheck {
	typedef typename A::D D;
	typedef typename D::State State;
	typedef typename D::PackedState PackedState;
	typedef typename D::Operators Operators;
	typedef typename D::Edge Edge;
	typedef typename D::Oper Oper;

	Case &c;
	A &a;
	unsigned long nstates = 0, nedges = 0, nrev = 0;

	DomCheck(Case &cc, A &aa) : c(cc), a(aa) { }

	// Checks what the domain says of a state, and its successors.
	void state(State &s, const std::string &k) {
		nstates++;
		std::string got = a.key(s);
		CHECK(got == k, "state is\n%s\nnot\n%s", got.c_str(), k.c_str());
		CHECK((bool) a.d.isgoal(s) == a.goal(k), "%s is %sa goal, the domain says otherwise", k.c_str(), a.goal(k) ? "" : "not ");
		double h = (double) a.d.h(s);
		CHECK(h >= 0, "%s: h is %g", k.c_str(), h);
		if (a.goal(k)) CHECK(near(h, 0, a.tol()), "h of goal %s is %g", k.c_str(), h);
		a.checkh(c, s, k);
		CHECK(a.key(s) == k, "asking for h changed the state to %s from %s", a.key(s).c_str(), k.c_str());

		// Packing is lossless, and keeps the estimates.
		if (A::packs()) {
			std::unique_ptr<PackedState> p(new PackedState);
			a.d.pack(*p, s);
			State buf, &u = a.d.unpack(buf, *p);
			CHECK(a.key(u) == k, "packed and unpacked, %s became %s", k.c_str(), a.key(u).c_str());
			CHECK(near((double) a.d.h(u), h, a.tol()), "%s: h is %g, after packing %g", k.c_str(), h, (double) a.d.h(u));
			CHECK((bool) a.d.isgoal(u) == a.goal(k), "%s: goal status changes with packing", k.c_str());
			std::unique_ptr<PackedState> q(new PackedState);
			a.d.pack(*q, u);
			CHECK(p->eq(&a.d, *q) && q->eq(&a.d, *p), "%s packed twice is not equal", k.c_str());
			CHECK(p->hash(&a.d) == q->hash(&a.d), "%s packed twice has two hashes", k.c_str());
		}

		std::vector<std::pair<std::string, double>> have, want;
		{
			Operators ops(a.d, s);
			CHECK(a.key(s) == k, "making operators changed the state to %s", a.key(s).c_str());
			std::set<Oper, OperLess<Oper>> seen;
			for (unsigned int i = 0; i < ops.size(); i++) {
				Oper op = ops[i];
				CHECK(!(op == D::Nop), "%s: the no-op is offered", k.c_str());
				CHECK(seen.insert(op).second, "%s: an operator is offered twice", k.c_str());
				std::string kk;
				{
					Edge e(a.d, s, op);
					kk = a.key(e.state);
					if (!a.skipsucc(kk)) have.push_back(std::make_pair(kk, (double) e.cost));
					nedges++;
					if (a.revs() && !(e.revop == D::Nop)) {
						nrev++;
						bool offered = false;
						{
							Operators kops(a.d, e.state);
							for (unsigned int j = 0; j < kops.size() && !offered; j++) offered = kops[j] == e.revop;
						}
						CHECK(offered, "from %s to %s: the reverse operator is not applicable", k.c_str(), kk.c_str());
						Oper rop = e.revop;
						{
							Edge r(a.d, e.state, rop);
							CHECK(a.key(r.state) == k, "the reverse operator leads from %s to %s, not back to %s", kk.c_str(), a.key(r.state).c_str(), k.c_str());
							CHECK(near((double) r.cost, (double) e.revcost, a.tol()), "from %s to %s: the reverse operator costs %g, the edge says %g",
								k.c_str(), kk.c_str(), (double) r.cost, (double) e.revcost);
						}
						CHECK(a.key(e.state) == kk, "undoing a transition left %s, not %s", a.key(e.state).c_str(), kk.c_str());
					}
				}
				CHECK(a.key(s) == k, "after the transition to %s was undone the state is %s, not %s", kk.c_str(), a.key(s).c_str(), k.c_str());
				CHECK(near((double) a.d.h(s), h, a.tol()), "after a transition was undone h is %g, not %g: %s", (double) a.d.h(s), h, k.c_str());
			}
		}
		for (auto &m : a.succs(k)) want.push_back(std::make_pair(m.key, m.cost));
		std::sort(have.begin(), have.end());
		std::sort(want.begin(), want.end());
		bool same = have.size() == want.size();
		for (size_t i = 0; same && i < have.size(); i++)
			same = have[i].first == want[i].first && near(have[i].second, want[i].second, a.tol());
		CHECK(same, "successors of %s are%s\n  the rules allow%s", k.c_str(), show(have).c_str(), show(want).c_str());
	}

	// Several walks from one state, compared with each other too.
	void walks(State &s, const std::string &k, int depth, int n) {
		for (int i = 0; i < n; i++) walk(s, k, depth);
	}

	template<class O> struct OperLess {
		bool operator()(const O &x, const O &y) const { return A::operless(x, y); }
	};

	// The states of the walk so far, packed.
	std::vector<std::pair<std::string, std::unique_ptr<PackedState>>> trail;

	void remember(State &s, const std::string &k) {
		if (!A::packs()) return;
		std::unique_ptr<PackedState> p(new PackedState);
		a.d.pack(*p, s);
		size_t n = trail.size(), far = n > 1000 ? n - 1000 : 0;
		for (size_t i = far; i < n; i++) {
			bool eq = trail[i].second->eq(&a.d, *p);
			CHECK(eq == p->eq(&a.d, *trail[i].second), "whether %s equals %s depends on the order", k.c_str(), trail[i].first.c_str());
			CHECK(eq == (trail[i].first == k), "packed, %s and %s are %s", trail[i].first.c_str(), k.c_str(), eq ? "equal" : "different");
			if (eq) CHECK(trail[i].second->hash(&a.d) == p->hash(&a.d), "%s, met again, has another hash", k.c_str());
		}
		trail.push_back(std::make_pair(k, std::move(p)));
	}

	// A random walk through nested live transitions.
	void walk(State &s, const std::string &k, int depth) {
		state(s, k);
		remember(s, k);
		if (depth == 0) return;
		Operators ops(a.d, s);
		if (ops.size() == 0) return;
		Oper op = ops[a.choose(c, ops)];
		double h = (double) a.d.h(s);
		{
			Edge e(a.d, s, op);
			std::string kk = a.key(e.state);
			if (!a.skipsucc(kk)) {
				walk(e.state, kk, depth - 1);
				CHECK(a.key(e.state) == kk, "coming back along a path the state is %s, it was %s", a.key(e.state).c_str(), kk.c_str());
			}
		}
		CHECK(a.key(s) == k, "coming back along a path the state is %s, it was %s", a.key(s).c_str(), k.c_str());
		CHECK(near((double) a.d.h(s), h, a.tol()), "coming back along a path h is %g, it was %g, for %s", (double) a.d.h(s), h, k.c_str());
	}
};

// The states reachable in the model, up to a number of them.
template<class A> struct Space {
	std::map<std::string, int> id;
	std::vector<std::string> keys;
	std::vector<std::vector<std::pair<int, double>>> adj;
	std::vector<double> hstar, gstar;
	bool whole = true;

	void build(A &a, const std::string &k0, size_t cap) {
		id[k0] = 0;
		keys.push_back(k0);
		for (size_t i = 0; i < keys.size(); i++) {
			if (i >= cap) { whole = false; break; }
			adj.push_back({});
			if (a.stopat(keys[i])) continue;
			auto ms = a.succs(keys[i]);
			for (auto &m : ms) {
				auto it = id.insert(std::make_pair(m.key, (int) keys.size()));
				if (it.second) keys.push_back(m.key);
				adj[i].push_back(std::make_pair(it.first->second, m.cost));
			}
		}
		adj.resize(keys.size());
		dijkstra(a);
	}
	void dijkstra(A &a) {
		int n = (int) keys.size();
		std::vector<std::vector<std::pair<int, double>>> rev(n);
		for (int i = 0; i < n; i++) for (auto &e : adj[i]) if (!a.nothstar(keys[e.first])) rev[e.first].push_back(std::make_pair(i, e.second));
		hstar.assign(n, INFINITY);
		gstar.assign(n, INFINITY);
		std::vector<int> goals;
		for (int i = 0; i < n; i++) if (a.goal(keys[i])) goals.push_back(i);
		run(rev, goals, hstar);
		run(adj, std::vector<int>(1, 0), gstar);
	}
	void run(const std::vector<std::vector<std::pair<int, double>>> &g, const std::vector<int> &from, std::vector<double> &dist) {
		typedef std::pair<double, int> P;
		std::priority_queue<P, std::vector<P>, std::greater<P>> q;
		for (int f : from) { dist[f] = 0; q.push(P(0, f)); }
		while (!q.empty()) {
			P p = q.top();
			q.pop();
			if (p.first > dist[p.second]) continue;
			for (auto &e : g[p.second])
				if (p.first + e.second < dist[e.first]) {
					dist[e.first] = p.first + e.second;
					q.push(P(dist[e.first], e.first));
				}
		}
	}
	// Cost of the cheapest solution from the first state.
	double opt() const { return hstar[0]; }
};

// Walks the domain over a whole space: every state is packed as it is first
// met, checked against the model, and its estimate against the true cost.
// Searches is how many of the states are checked in full.
template<class A> void sweep(Case &c, A &a, DomCheck<A> &dc, const Space<A> &sp, size_t full) {
	typedef typename A::D D;
	typedef typename D::PackedState PackedState;
	typedef typename D::State State;
	std::map<std::string, std::unique_ptr<PackedState>> packed;
	std::vector<std::string> q;
	{
		State s0 = a.d.initialstate();
		std::string k0 = a.key(s0);
		CHECK(k0 == sp.keys[0], "the start state is %s, not %s", k0.c_str(), sp.keys[0].c_str());
		packed[k0].reset(new PackedState);
		a.d.pack(*packed[k0], s0);
		q.push_back(k0);
	}
	std::vector<int> path;
	for (size_t i = 0; i < q.size(); i++) {
		PackedState &p = *packed[q[i]];
		State buf, &s = a.d.unpack(buf, p);
		int id = sp.id.at(q[i]);
		double h = (double) a.d.h(s);
		if (sp.whole && a.admissible())
			CHECK(h <= sp.hstar[id] * (1 + 1e-9) + a.heps(), "h of %s is %g, the true cost is %g", q[i].c_str(), h, sp.hstar[id]);
		if (a.stopat(q[i])) continue;
		if (i < full) dc.state(s, q[i]);
		typename D::Operators ops(a.d, s);
		for (unsigned int j = 0; j < ops.size(); j++) {
			typename D::Edge e(a.d, s, ops[j]);
			std::string k = a.key(e.state);
			auto it = sp.id.find(k);
			if (it == sp.id.end()) {
				CHECK(!sp.whole || a.skipsucc(k), "from %s the domain reaches %s, which the rules do not allow", q[i].c_str(), k.c_str());
				continue;
			}
			auto &slot = packed[k];
			if (slot) continue;
			slot.reset(new PackedState);
			a.d.pack(*slot, e.state);
			q.push_back(k);
		}
	}
	if (sp.whole) CHECK(q.size() == sp.keys.size(), "the domain reaches %zu states, the rules %zu", q.size(), sp.keys.size());
	// Different states are not equal once packed.
	for (size_t i = 1; i < q.size(); i++)
		CHECK(!packed[q[i]]->eq(&a.d, *packed[q[i-1]]), "packed, %s and %s are equal", q[i].c_str(), q[i-1].c_str());
	for (int t = 0; t < 40 && q.size() > 1; t++) {
		size_t i = c.draw(q.size()), j = c.draw(q.size());
		bool eq = packed[q[i]]->eq(&a.d, *packed[q[j]]);
		CHECK(eq == (i == j), "packed, %s and %s are %s", q[i].c_str(), q[j].c_str(), eq ? "equal" : "different");
		if (eq) CHECK(packed[q[i]]->hash(&a.d) == packed[q[j]]->hash(&a.d), "equal states, different hashes");
	}
}

struct SolveAlg {
	std::vector<std::string> args;
	bool optimal;
	double bound;	// times the optimal cost
};

// An algorithm and its options.
// On infinite spaces those that follow the estimate alone need not end.
static inline SolveAlg pickalg(Case &c, bool ida, bool admissible, bool consistent, bool infinite) {
	SolveAlg r;
	r.optimal = false;
	r.bound = INFINITY;
	int pick = (int) c.draw(ida ? 8 : 7);
	if (infinite && (pick == 2 || pick == 3)) pick = 0;
	switch (pick) {
	case 0: r.args = { "astar" }; r.optimal = true; break;
	case 1: { static const char *w[] = { "1", "1.5", "3" }; int i = (int) c.draw(3); r.args = { "wastar", "-wt", w[i] }; r.bound = atof(w[i]); break; }
	case 2: r.args = { "greedy" }; break;
	case 3: r.args = { "speedy" }; break;
	case 4: r.args = { "bugsy", "-wf", "1", "-wt", "0", "-cputime", "0" }; r.optimal = true; break;
	case 5: r.args = { "arastar", "-wt0", "3", "-dwt", "0.5" }; r.optimal = consistent; break;
	case 6: r.args = { "astar" }; r.optimal = true; break;
	case 7: r.args = { "idastar" }; r.optimal = true; break;
	}
	if (!admissible) { r.optimal = false; r.bound = INFINITY; }
	r.args.insert(r.args.begin(), "solver");
	return r;
}

template<class D> SearchAlgorithm<D> *newsearch(int argc, const char *argv[]) {
	std::string n = argv[1];
	if (n == "idastar") return new Idastar<D>(argc, argv);
#ifndef ONLY_IDASTAR
	if (n == "astar") return new Astar<D>(argc, argv);
	if (n == "wastar") return new Wastar<D>(argc, argv);
	if (n == "greedy") return new Greedy<D>(argc, argv);
	if (n == "speedy") return new Greedy<D, true>(argc, argv);
	if (n == "bugsy") return new Bugsy<D>(argc, argv);
	if (n == "arastar") return new Arastar<D>(argc, argv);
#endif
	return nullptr;
}

// Runs a search of the repository on the domain; the path must follow the
// model's rules. Returns the cost, or -1 without a solution.
template<class A> double solve(Case &c, A &a, const std::vector<std::string> &args, unsigned long *len = nullptr) {
	typedef typename A::D D;
	typedef typename D::State State;
	std::vector<const char*> argv;
	std::string what;
	for (auto &x : args) { argv.push_back(x.c_str()); what += x + " "; }
	argv.push_back(nullptr);
	std::unique_ptr<SearchAlgorithm<D>> alg(newsearch<D>((int) args.size(), argv.data()));
	CHECK(alg.get(), "no such algorithm");
	State s0 = a.d.initialstate();
	std::string k0 = a.key(s0);
	alg->search(a.d, s0);
	auto &path = alg->res.path;
	auto &ops = alg->res.ops;
	if (path.empty()) return -1;
	CHECK(path.size() == ops.size() + 1, "%s: %zu states and %zu operators", what.c_str(), path.size(), ops.size());
	CHECK(a.key(path.back()) == k0, "%s: the path starts at %s, not %s", what.c_str(), a.key(path.back()).c_str(), k0.c_str());
	double sum = 0;
	for (size_t i = path.size() - 1; i > 0; i--) {
		std::string from = a.key(path[i]), to = a.key(path[i-1]);
		double best = INFINITY;
		for (auto &m : a.succs(from)) if (m.key == to) best = std::min(best, m.cost);
		CHECK(best < INFINITY, "%s: step from %s to %s is not allowed", what.c_str(), from.c_str(), to.c_str());
		State copy = path[i];
		typename D::Edge e(a.d, copy, ops[i-1]);
		CHECK(a.key(e.state) == to, "%s: the operator leads from %s to %s, the path says %s", what.c_str(), from.c_str(), a.key(e.state).c_str(), to.c_str());
		sum += (double) e.cost;
	}
	CHECK(a.goal(a.key(path.front())), "%s: the path ends at %s, not a goal", what.c_str(), a.key(path.front()).c_str());
	double pc = (double) a.d.pathcost(path, ops);
	CHECK(near(pc, sum, a.tol()), "%s: the path costs %g, the domain says %g", what.c_str(), sum, pc);
	if (len) *len = ops.size();
	return sum;
}

// Solves with a random algorithm and compares with the cheapest cost.
template<class A> void solvecheck(Case &c, A &a, double opt, bool ida) {
	SolveAlg s = pickalg(c, ida, a.admissible(), a.consistent(), a.infinite());
	std::string what;
	for (size_t i = 1; i < s.args.size(); i++) what += s.args[i] + " ";
	c.desc("%s\n", what.c_str());
	double cost = solve(c, a, s.args);
	if (opt == INFINITY) {
		CHECK(cost < 0, "%s found a solution of cost %g to an unsolvable problem", what.c_str(), cost);
		return;
	}
	CHECK(cost >= 0, "%s found no solution, one costs %g", what.c_str(), opt);
	CHECK(cost >= opt - a.tol() * std::max(1.0, opt), "%s found a solution of cost %g, cheaper than the cheapest, %g", what.c_str(), cost, opt);
	if (s.optimal) CHECK(near(cost, opt, a.tol()), "%s found a solution of cost %g, the cheapest costs %g", what.c_str(), cost, opt);
	else if (s.bound < INFINITY) CHECK(cost <= s.bound * opt * (1 + 1e-9) + a.tol(), "%s found a solution of cost %g, the cheapest costs %g", what.c_str(), cost, opt);
	c.label(s.args[1].c_str());
}

// Defaults for adapters.
struct AdapterBase {
	static bool packs() { return true; }
	bool revs() const { return true; }
	bool admissible() const { return true; }
	bool consistent() const { return true; }
	bool infinite() const { return false; }
	// Transitions that the estimate need not reckon with.
	bool nothstar(const std::string&) const { return false; }
	bool stopat(const std::string&) const { return false; }
	bool skipsucc(const std::string&) const { return false; }
	double heps() const { return 1e-6; }
	double tol() const { return 1e-6; }
	template<class S> void checkh(Case&, S&, const std::string&) { }
	// Which operator a walk takes.
	template<class Os> size_t choose(Case &c, Os &ops) { return c.draw(ops.size()); }
	template<class O> static bool operless(const O &x, const O &y) { return x < y; }
};

// A temporary file holding text, open for reading.
struct TextFile {
	FILE *f;
	std::string copy;
	TextFile(const std::string &s) : copy(s) { f = fmemopen(copy.empty() ? nullptr : &copy[0], copy.empty() ? 1 : copy.size(), copy.empty() ? "w+" : "r"); }
	~TextFile() { if (f) fclose(f); }
};
