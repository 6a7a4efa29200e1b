// P15: simple temporal networks, against Floyd-Warshall over the accepted constraints.
#include "pbt.hpp"
#include <cstring>
#include <memory>
#include <random>
#include "structs/stn.hpp"

namespace {

typedef long long ll;
const ll INF = 1ll << 60;

struct Model {
	int n;	// nodes, including zero
	std::vector<std::vector<Stn::Constraint>> log;	// one entry per accepted constraint
	// dist[i][j]: least upper bound on t(j) - t(i)
	bool solve(std::vector<std::vector<ll>> &d, const std::vector<Stn::Constraint> &extra) const {
		d.assign(n, std::vector<ll>(n, INF));
		for (int i = 0; i < n; i++) d[i][i] = 0;
		auto addc = [&](const Stn::Constraint &k) {
			if (k.b < Stn::inf()) d[k.i][k.j] = std::min(d[k.i][k.j], (ll) k.b);
			if (k.a > Stn::neginf()) d[k.j][k.i] = std::min(d[k.j][k.i], (ll) -k.a);
		};
		for (auto &l : log) for (auto &k : l) addc(k);
		for (auto &k : extra) addc(k);
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
			if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
		for (int i = 0; i < n; i++) if (d[i][i] < 0) return false;
		return true;
	}
};

void checkbounds(pbt::Case &c, const Stn &s, const Model &m) {
	std::vector<std::vector<ll>> d;
	CHECK(m.solve(d, {}), "the harness model is inconsistent");
	CHECK((int) s.nnodes() == m.n, "the network has %u nodes, should have %d", s.nnodes(), m.n);
	for (int i = 0; i < m.n; i++) {
		// A bound that does not exist is represented by a huge number
		// (infinity less finite arc lengths).
		ll up = d[0][i], lo = d[i][0];
		if (up < INF) CHECK(s.upper(i) == up, "latest time of %d is %ld, should be %lld", i, s.upper(i), up);
		else CHECK(s.upper(i) > Stn::inf() - (1l << 50), "latest time of %d is %ld, should be unbounded", i, s.upper(i));
		if (lo < INF) CHECK(s.lower(i) == -lo, "earliest time of %d is %ld, should be %lld", i, s.lower(i), -lo);
		else CHECK(s.lower(i) < Stn::neginf() + (1l << 50), "earliest time of %d is %ld, should be unbounded", i, s.lower(i));
	}
}

Stn::Constraint genconstraint(pbt::Case &c, int n, int mag) {
	auto t = [&] { return (Stn::Time) c.range(0, 2 * mag) - (c.chance(1, 2) ? mag : 0); };
	int i = c.draw(n), j = c.draw(n);
	if (i == j && !c.chance(1, 10)) j = (i + 1) % n;
	switch (c.range(0, 6)) {
	case 0: case 1: {
		Stn::Time a = t(), b = a + c.range(0, mag) - (c.chance(1, 12) ? mag : 0);
		return Stn::Constraint(i, j, a, b);
	}
	case 2: return Stn::Before(i, j, t());
	case 3: return Stn::After(i, j, t());
	case 4: return Stn::NoEarlier(j, t());
	case 5: return Stn::NoLater(j, t());
	default: { Stn::Time a = t(); return Stn::InWindow(j, a, a + c.range(0, mag)); }
	}
}

std::string dump(const Stn &s) {
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	s.output(f);
	fclose(f);
	std::string r(buf, len);
	free(buf);
	return r;
}

// Networks of up to a hundred events. Differences are between two arbitrary
// times of the events, most of the time, so that they can be met.
PROP(stn_large, 800, 20000, "at least twenty accepted constraints with an undo or a rejection") {
	int nodes = (int) c.range(9, 100);
	Stn s(nodes);
	Model m;
	m.n = nodes + 1;
	std::mt19937_64 r(c.draw(1ul << 32));
	std::vector<long> at(m.n);
	for (int i = 1; i < m.n; i++) at[i] = (long) (r() % 1000);
	int acc = 0, undone = 0, rej = 0, nops = (int) c.size(1, 150);
	bool chain = c.flip();	// constraints between neighbours, so that changes travel far
	c.desc("large stn n=%d chain=%d:", nodes, chain);
	std::vector<std::vector<ll>> d(m.n, std::vector<ll>(m.n, INF));
	for (int i = 0; i < m.n; i++) d[i][i] = 0;
	std::vector<std::vector<std::vector<ll>>> before;
	std::vector<std::string> text;
	auto arc = [&](int i, int j, ll w) {	// closes d under one more arc; false if there is a negative cycle
		if (d[j][i] < INF && d[j][i] + w < 0) return false;
		if (w >= d[i][j]) return true;
		for (int a = 0; a < m.n; a++) if (d[a][i] < INF) for (int b = 0; b < m.n; b++)
			if (d[j][b] < INF) d[a][b] = std::min(d[a][b], d[a][i] + w + d[j][b]);
		return true;
	};
	for (int o = 0; o < nops; o++) {
		if (!before.empty() && c.chance(1, 6)) {
			int k = (int) std::min<size_t>(before.size(), 1 + c.draw(4));
			c.desc(" undo*%d", k);
			for (; k > 0; k--) {
				s.undo();
				undone++;
				d = before.back();
				CHECK(dump(s) == text.back(), "undoing did not restore the network's printed form");
				before.pop_back();
				text.pop_back();
			}
		} else {
			int i = (int) (r() % m.n), j = chain ? (i + 1) % m.n : (int) (r() % m.n);
			if (c.flip()) std::swap(i, j);
			long dist = at[j] - at[i];
			Stn::Time a = dist - (long) (r() % 60), b = dist + (long) (r() % 60);
			if (c.chance(1, 20)) { a -= 100; b -= 100; }
			if (c.chance(1, 3)) a = Stn::neginf(); else if (c.chance(1, 3)) b = Stn::inf();
			c.desc(" add(%d,%d)", i, j);
			std::string t = dump(s);
			auto d0 = d;
			bool want = (b == Stn::inf() || arc(i, j, b)) && (a == Stn::neginf() || arc(j, i, -a));
			CHECK(s.add(Stn::Constraint(i, j, a, b)) == want, "constraint [%ld,%ld] from %d to %d %s although the constraints are %ssatisfiable", a, b, i, j, want ? "rejected" : "accepted", want ? "" : "not ");
			if (want) {
				acc++;
				before.push_back(d0);
				text.push_back(t);
			} else {
				rej++;
				d = d0;
				CHECK(dump(s) == t, "a rejected constraint changed the network's printed form");
			}
		}
		for (int i = 0; i < m.n; i++) {
			if (d[0][i] < INF) CHECK(s.upper(i) == d[0][i], "latest time of %d is %ld, should be %lld", i, s.upper(i), d[0][i]);
			else CHECK(s.upper(i) > Stn::inf() - (1l << 50), "latest time of %d is %ld, should be unbounded", i, s.upper(i));
			if (d[i][0] < INF) CHECK(s.lower(i) == -d[i][0], "earliest time of %d is %ld, should be %lld", i, s.lower(i), -d[i][0]);
			else CHECK(s.lower(i) < Stn::neginf() + (1l << 50), "earliest time of %d is %ld, should be unbounded", i, s.lower(i));
		}
	}
	if (acc >= 20 && (undone || rej)) c.nontrivial();
}

PROP(stn, 60000, 1500000, "at least three accepted constraints with an undo or a rejection") {
	int nodes = c.size(1, 8);
	int mag = c.pick(std::vector<int>{4, 20, 1000000});
	std::unique_ptr<Stn> s(new Stn(nodes));
	Model m;
	m.n = nodes + 1;
	int nops = c.size(1, 40), acc = 0, undone = 0, rej = 0;
	std::vector<std::unique_ptr<Stn>> snaps;	// copy taken before each accepted constraint
	c.desc("stn n=%d:", nodes);
	checkbounds(c, *s, m);
	for (int o = 0; o < nops; o++) {
		switch (c.range(0, 9)) {
		default: {
			Stn::Constraint k = genconstraint(c, m.n, mag);
			c.desc(" add(%u,%u,[%s,%s])", k.i, k.j, k.a == Stn::neginf() ? "-inf" : pbt::strf("%ld", k.a).c_str(), k.b == Stn::inf() ? "inf" : pbt::strf("%ld", k.b).c_str());
			std::vector<std::vector<ll>> d;
			bool want = m.solve(d, {k});
			std::unique_ptr<Stn> before(new Stn(*s));
			std::string text = dump(*s);
			bool got = s->add(k);
			CHECK(got == want, "constraint %s although the constraints are %ssatisfiable", got ? "accepted" : "rejected", want ? "" : "not ");
			if (got) {
				acc++;
				m.log.push_back({k});
				snaps.push_back(std::move(before));
			} else {
				rej++;
				CHECK(s->eq(*before) && before->eq(*s), "a rejected constraint changed the network");
				CHECK(dump(*s) == text, "a rejected constraint changed the network's printed form");
			}
			break;
		}
		case 6: case 7: {
			if (m.log.empty()) break;
			int k = 1 + c.draw(std::min<size_t>(m.log.size(), 4));
			c.desc(" undo*%d", k);
			for (; k > 0; k--) {
				s->undo();
				m.log.pop_back();
				undone++;
				CHECK(s->eq(*snaps.back()), "undoing did not restore the network");
				CHECK(dump(*s) == dump(*snaps.back()), "undoing did not restore the network's printed form");
				snaps.pop_back();
			}
			break;
		}
		case 8: {	// a copy is equal, and independent in both directions
			Stn cp(*s);
			CHECK(cp.eq(*s) && s->eq(cp), "a copy differs from its original");
			std::string text = dump(*s);
			CHECK(dump(cp) == text, "a copy prints differently from its original");
			Stn::Constraint k = genconstraint(c, m.n, mag);
			std::vector<std::vector<ll>> d;
			bool want = m.solve(d, {k});
			CHECK(cp.add(k) == want, "a copy judges a constraint wrongly");
			CHECK(dump(*s) == text, "changing a copy changed the original");
			if (want) {
				Model mm = m;
				mm.log.push_back({k});
				checkbounds(c, cp, mm);
				CHECK(!cp.eq(*s) && !s->eq(cp), "networks with different constraints compare equal");
				cp.undo();
			}
			CHECK(cp.eq(*s), "undo on a copy did not restore it");
			if (!m.log.empty()) { cp.undo(); CHECK(!cp.eq(*s), "networks with different constraints compare equal"); CHECK(dump(*s) == text, "undo on a copy changed the original"); }
			// two different additions to the same network
			Stn x(*s), y(*s);
			Stn::Constraint k1 = genconstraint(c, m.n, mag), k2 = genconstraint(c, m.n, mag);
			std::vector<std::vector<ll>> d1, d2;
			if (m.solve(d1, {k1}) && m.solve(d2, {k2})) {
				x.add(k1);
				y.add(k2);
				if (d1 != d2) CHECK(!x.eq(y) && !y.eq(x), "networks with different constraints, (%u,%u,[%ld,%ld]) and (%u,%u,[%ld,%ld]), compare equal", k1.i, k1.j, k1.a, k1.b, k2.i, k2.j, k2.a, k2.b);
				else c.label("same closure");
				// assignment is a copy, too
				x = y;
				CHECK(x.eq(y) && dump(x) == dump(y), "an assigned network differs from its original");
				std::string ytext = dump(y);
				x.undo();
				CHECK(dump(y) == ytext, "changing an assigned network changed the original");
				CHECK(dump(x) == text, "undo on an assigned network did not restore it");
			}
			if (c.flip()) { c.desc(" copy"); s.reset(new Stn(*s)); }
			break;
		}
		case 9: {
			if (!c.chance(1, 2) || m.n > 12) break;
			int k = c.range(1, 3);
			c.desc(" grow(%d)", k);
			s->grow(k);
			m.n += k;
			for (auto &x : snaps) x->grow(k);
			break;
		}
		}
		checkbounds(c, *s, m);
	}
	while (!m.log.empty()) {
		s->undo();
		m.log.pop_back();
		checkbounds(c, *s, m);
	}
	if (acc >= 3 && (undone || rej)) c.nontrivial();
}

}
