// P13: hash table and closed list. P14: k-d tree. P16: union-find and pool.
#include "pbt.hpp"
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <stack>
#include <pthread.h>
#include <random>
#include "structs/htable.hpp"
#include "structs/kdtree.hpp"
#include "structs/djset.hpp"
#include "utils/pool.hpp"
#include "search/closedlist.hpp"

namespace {

unsigned long hashmode(int mode, unsigned long k) {
	switch (mode) {
	case 0: return k;
	case 1: return 7;	// everything collides
	case 2: return k % 3;
	case 3: return k * 0x9e3779b97f4a7c15ul;
	default: return k << 60 | (k & 1);	// differ in high bits only
	}
}

// value of a "key<tab>value" line printed by a statistics routine
bool dfvalue(const std::string &s, const char *key, std::string &val) {
	std::string k = std::string("\"") + key + "\"";
	size_t i = s.find(k);
	if (i == std::string::npos) return false;
	size_t a = s.find('"', i + k.size());
	if (a == std::string::npos) return false;
	size_t b = s.find('"', a + 1);
	val = s.substr(a + 1, b - a - 1);
	return true;
}

// --- the hash table

struct HElm {
	unsigned long key;
	int id;
	HtableEntry<HElm> ent;
};

int hmode;

struct HOps {
	static unsigned long key(HElm *e) { return e->key; }
	static unsigned long hash(unsigned long k) { return hashmode(hmode, k); }
	static HtableEntry<HElm> &entry(HElm *e) { return e->ent; }
};

template<int Fill> void htabletest(pbt::Case &c) {
	hmode = c.range(0, 4);
	Htable<HOps, unsigned long, HElm, Fill> tab(c.pick(std::vector<unsigned>{1, 2, 7, 16, 1024}));
	std::deque<HElm> store;
	std::multimap<unsigned long, HElm*> in;
	int nkeys = c.pick(std::vector<int>{4, 12, 60});
	int nops = c.size(1, 120), dels = 0;
	c.desc("htable hash=%d:", hmode);
	for (int n = 0; n < nops; n++) {
		unsigned long k = c.range(0, nkeys - 1);
		switch (c.range(0, 7)) {
		case 0: case 1: case 2: case 3: {
			if (in.count(k) && !c.chance(1, 8)) break;
			c.desc(" add(%lu)", k);
			store.push_back(HElm());
			HElm *e = &store.back();
			e->key = k;
			e->id = store.size();
			if (c.flip()) tab.add(e); else tab.add(e, HOps::hash(k));
			in.insert(std::make_pair(k, e));
			break;
		}
		case 4: case 5: case 6: {
			c.desc(" rm(%lu)", k);
			HElm *f = tab.find(k);
			bool r = c.flip() ? tab.rm(k) : tab.rm(k, HOps::hash(k));
			CHECK(r == (in.count(k) > 0), "rm(%lu) returned %d with %zu such entries", k, r, in.count(k));
			if (r) {
				dels++;
				// which of several equal entries goes is not specified, but
				// with one entry it must be that one; with more, one is gone.
				for (auto it = in.lower_bound(k); it != in.upper_bound(k); ++it)
					if (it->second == f) { in.erase(it); break; }
			}
			break;
		}
		case 7:
			if (!c.chance(1, 6)) break;
			c.desc(" clear");
			tab.clear();
			in.clear();
			break;
		}
		for (int j = 0; j < nkeys; j++) {
			HElm *f = (j & 1) ? tab.find(j) : tab.find(j, HOps::hash(j));
			bool want = in.count(j) > 0;
			CHECK((f != NULL) == want, "key %d is %s but find says otherwise (after %d operations)", j, want ? "present" : "absent", n + 1);
			if (f) {
				CHECK(f->key == (unsigned long) j, "find(%d) returned an entry for %lu", j, f->key);
				bool member = false;
				for (auto it = in.lower_bound(j); it != in.upper_bound(j); ++it) member |= it->second == f;
				CHECK(member, "find(%d) returned an entry that is not in the table", j);
			}
		}
		if (c.chance(1, 10)) {
			char *buf = NULL; size_t len = 0;
			FILE *f = open_memstream(&buf, &len);
			tab.prstats(f, "p ");
			fclose(f);
			std::string s(buf, len), v;
			free(buf);
			CHECK(dfvalue(s, "p fill", v), "statistics lack the fill");
			CHECK(strtoul(v.c_str(), NULL, 10) == in.size(), "fill printed as %s, should be %zu", v.c_str(), in.size());
		}
	}
	if (nops >= 10 && dels > 0) c.nontrivial();
}

PROP(htable, 30000, 800000, "at least 10 operations including a successful removal") {
	if (c.flip()) htabletest<2>(c); else htabletest<1>(c);
}

// --- the closed list

struct Dom {
	int mode;
	struct PackedState {
		unsigned long k;
		unsigned long hash(Dom *d) { return hashmode(d->mode, k); }
		bool eq(Dom*, const PackedState &o) const { return k == o.k; }
	};
};

struct CNode {
	Dom::PackedState key_;
	ClosedEntry<CNode, Dom> ent;
	int id;
	static Dom::PackedState &key(CNode *n) { return n->key_; }
	static ClosedEntry<CNode, Dom> &closedentry(CNode *n) { return n->ent; }
};

PROP(closedlist, 30000, 800000, "at least 10 operations including a successful removal or an explicit resize") {
	Dom d;
	d.mode = c.range(0, 4);
	unsigned long hint = c.pick(std::vector<unsigned long>{1, 2, 7, 16, 60});
	ClosedList<CNode, CNode, Dom> cl(hint);
	cl.init(d);
	std::deque<CNode> store;
	std::map<unsigned long, CNode*> in;
	int nkeys = c.pick(std::vector<int>{4, 12, 60});
	int nops = c.size(1, 120), hard = 0;
	c.desc("closed list hash=%d hint=%lu:", d.mode, hint);
	for (int n = 0; n < nops; n++) {
		unsigned long k = c.range(0, nkeys - 1);
		Dom::PackedState ps = { k };
		switch (c.range(0, 8)) {
		case 0: case 1: case 2: case 3: case 4: {
			if (in.count(k)) break;	// callers add a key only after find failed
			c.desc(" add(%lu)", k);
			store.push_back(CNode());
			CNode *e = &store.back();
			e->key_ = ps;
			if (c.flip()) cl.add(e); else cl.add(e, ps.hash(&d));
			in[k] = e;
			break;
		}
		case 5: case 6: {
			c.desc(" rm(%lu)", k);
			CNode *r = c.flip() ? cl.remove(ps) : cl.remove(ps, ps.hash(&d));
			CNode *w = in.count(k) ? in[k] : NULL;
			CHECK(r == w, "remove(%lu) returned %s", k, r ? "a wrong entry" : "nothing for a present key");
			if (w) { hard++; in.erase(k); }
			break;
		}
		case 7: {
			unsigned sz = c.pick(std::vector<unsigned>{1, 3, 5, 17, 200});
			c.desc(" resize(%u)", sz);
			cl.resize(sz);
			hard++;
			break;
		}
		case 8:
			if (!c.chance(1, 6)) break;
			c.desc(" clear");
			cl.clear();
			in.clear();
			break;
		}
		for (int j = 0; j < nkeys; j++) {
			Dom::PackedState q = { (unsigned long) j };
			CNode *f = (j & 1) ? cl.find(q) : cl.find(q, q.hash(&d));
			CNode *w = in.count(j) ? in[j] : NULL;
			CHECK(f == w, "find(%d) is %s but the key is %s", j, f ? "an entry" : "nothing", w ? "present" : "absent");
		}
		CHECK(cl.getFill() == in.size(), "fill is %lu, should be %zu", cl.getFill(), in.size());
		CHECK(cl.empty() == in.empty(), "empty() is wrong");
		if (c.chance(1, 4)) {
			std::set<CNode*> got;
			unsigned cnt = 0;
			for (auto it = cl.begin(); it != cl.end(); ++it) {
				CHECK(++cnt <= in.size(), "iteration visits more than the %zu entries", in.size());
				CNode *e = *it;
				CHECK(e && in.count(e->key_.k) && in[e->key_.k] == e, "iteration visits an entry that is not in the list");
				got.insert(e);
			}
			CHECK(got.size() == in.size(), "iteration visited %zu of %zu entries", got.size(), in.size());
		}
		if (c.chance(1, 10)) {
			char *buf = NULL; size_t len = 0;
			FILE *f = open_memstream(&buf, &len);
			cl.prstats(f, "c ");
			fclose(f);
			std::string s(buf, len), v;
			free(buf);
			CHECK(dfvalue(s, "c fill", v) && strtoul(v.c_str(), NULL, 10) == in.size(), "fill printed as %s, should be %zu", v.c_str(), in.size());
			CHECK(dfvalue(s, "c buckets", v), "no bucket count printed");
			unsigned long nb = strtoul(v.c_str(), NULL, 10);
			std::map<unsigned long, unsigned> cnt;
			unsigned m = 0;
			for (auto &e : in) m = std::max(m, ++cnt[hashmode(d.mode, e.first) % nb]);
			CHECK(dfvalue(s, "c max bucket fill", v) && strtoul(v.c_str(), NULL, 10) == m, "max bucket fill printed as %s, should be %u of %lu buckets", v.c_str(), m, nb);
		}
	}
	if (nops >= 10 && hard > 0) c.nontrivial();
}

// --- both with thousands of entries, so that they grow again and again

PROP(tables_large, 1000, 20000, "three thousand or more entries were held, some were removed, and the table grew") {
	Dom d;
	hmode = d.mode = c.pick(std::vector<int>{0, 3, 4});
	unsigned long hint = c.pick(std::vector<unsigned long>{1, 7, 100, 5000});
	ClosedList<CNode, CNode, Dom> cl(hint);
	cl.init(d);
	Htable<HOps, unsigned long, HElm> tab(hint);
	std::deque<CNode> cs;
	std::deque<HElm> hs;
	std::map<unsigned long, std::pair<CNode*, HElm*>> in;
	std::mt19937_64 r(c.draw(1ul << 32));
	unsigned long nkeys = c.pick(std::vector<unsigned long>{2000, 10000, 1ul << 20, ~0ul});
	if (d.mode == 4) nkeys = 600;	// they all collide
	size_t most = 0, gone = 0;
	c.desc("large tables, hash=%d, hint=%lu:", d.mode, hint);
	auto check = [&](unsigned long k) {
		Dom::PackedState q = { k };
		auto it = in.find(k);
		CHECK(cl.find(q) == (it == in.end() ? NULL : it->second.first), "closed list of %zu: key %lu is %s but find says otherwise", in.size(), k, it == in.end() ? "absent" : "present");
		CHECK(tab.find(k) == (it == in.end() ? NULL : it->second.second), "hash table of %zu: key %lu is %s but find says otherwise", in.size(), k, it == in.end() ? "absent" : "present");
	};
	for (int n = (int) c.size(2, 10); n > 0; n--) {
		int cnt = (int) c.size(1, 8000), op = (int) c.draw(6);
		c.desc(" %s*%d", op < 4 ? "add" : op == 4 ? "remove" : "clear", cnt);
		if (op == 5 && c.flip()) { cl.clear(); tab.clear(); in.clear(); }
		else for (int i = 0; i < cnt; i++) {
			unsigned long k = r() % nkeys;
			Dom::PackedState q = { k };
			auto it = in.find(k);
			if (op < 4 && it == in.end()) {
				cs.push_back(CNode());
				hs.push_back(HElm());
				cs.back().key_ = q;
				hs.back().key = k;
				cl.add(&cs.back());
				tab.add(&hs.back());
				in[k] = std::make_pair(&cs.back(), &hs.back());
			} else if (op >= 4) {
				if (op == 5 && it == in.end() && !in.empty()) { it = in.lower_bound(k); if (it == in.end()) it = in.begin(); k = q.k = it->first; }
				CNode *w = it == in.end() ? NULL : it->second.first;
				CHECK(cl.remove(q) == w, "closed list of %zu: remove(%lu) returned the wrong entry", in.size(), k);
				CHECK(tab.rm(k) == (w != NULL), "hash table of %zu: rm(%lu) is wrong", in.size(), k);
				if (w) { in.erase(it); gone++; }
			}
		}
		most = std::max(most, in.size());
		for (auto &e : in) check(e.first);
		for (int i = 0; i < 200; i++) check(r() % nkeys);
		CHECK(cl.getFill() == in.size(), "fill is %lu, should be %zu", cl.getFill(), in.size());
		size_t seen = 0;
		for (auto it = cl.begin(); it != cl.end(); ++it) {
			CNode *e = *it;
			auto f = in.find(e->key_.k);
			CHECK(f != in.end() && f->second.first == e && ++seen <= in.size(), "iteration visits a wrong entry, or one twice");
		}
		CHECK(seen == in.size(), "iteration visited %zu of %zu entries", seen, in.size());
	}
	if (most >= 3000 && gone > 0) c.nontrivial();
}

// --- the k-d tree

template<unsigned K> void kdround(pbt::Case &c, Kdtree<K, int> &t, int most);

template<unsigned K> void kdtest(pbt::Case &c, int most) {
	Kdtree<K, int> t;
	for (int rounds = c.chance(1, 4) ? 2 : 1; rounds > 0; rounds--) {
		kdround<K>(c, t, most);
		if (rounds > 1 || c.flip()) {
			t.clear();
			c.desc(" clear");
			CHECK(t.size() == 0 && t.depth() == 0, "a cleared tree has %lu points and depth %u", t.size(), t.depth());
			CHECK(t.begin() == t.end(), "a cleared tree has points to visit");
			double p[K] = { };
			CHECK(!t.nearest(p), "a cleared tree has a nearest point");
		}
	}
}

template<unsigned K> void kdround(pbt::Case &c, Kdtree<K, int> &t, int most) {
	std::vector<std::vector<double>> pts;
	int mode = c.range(0, 3);
	int n = c.size(0, most);
	bool sorted = most > 1000 && mode == 3 && c.flip();
	std::mt19937_64 rnd(most > 80 ? c.draw(1ul << 32) : 0);
	auto coord = [&](unsigned dim) -> double {
		if (most > 80) {	// too many to choose one by one
			long x = (long) (rnd() % 2000000);
			switch (mode) {
			case 0: return x % 40;
			case 1: return x % 4001 / 4.0 - 500;
			case 2: return dim == 0 ? x % 3000 : 1.5;
			default: return sorted ? (double) pts.size() : x / 1000.0;
			}
		}
		switch (mode) {
		case 0: return c.range(0, 3);	// a small lattice: many ties
		case 1: return c.range(-20, 20) / 4.0;
		case 2: return dim == 0 ? c.range(-50, 50) : 1.5;	// collinear
		default: return (c.real() - 0.5) * 1000;
		}
	};
	auto dist = [&](const double *a, const double *b) {
		double s = 0;
		for (unsigned i = 0; i < K; i++) s += (a[i] - b[i]) * (a[i] - b[i]);
		return s;
	};
	c.desc("kdtree K=%u mode=%d n=%d", K, mode, n);
	for (int i = 0; i <= n; i++) {
		// query now and then while the tree grows
		int nq = i == n ? (most > 80 ? 60 : 6) : (most > 80 ? i % 97 == 0 : c.chance(1, 6)) ? 1 : 0;
		for (int q = 0; q < nq; q++) {
			double p[K];
			for (unsigned d = 0; d < K; d++) p[d] = coord(d) + ((most > 80 ? q % 5 == 0 : c.chance(1, 5)) ? 0.5 : 0);
			if (most > 80 ? q % 6 == 0 : c.chance(1, 6)) p[0] += 1000;	// far outside
			auto *r = t.nearest(p);
			if (pts.empty()) { CHECK(!r, "nearest of an empty tree is not empty"); continue; }
			CHECK(r, "nearest found nothing among %zu points", pts.size());
			double best = INFINITY;
			for (auto &x : pts) best = std::min(best, dist(x.data(), p));
			double got = dist(r->point, p);
			CHECK(got == best, "nearest returned a point at squared distance %.17g, but one is at %.17g", got, best);
			CHECK(r->data >= 0 && r->data < (int) pts.size(), "bad data in the node returned");
			CHECK(memcmp(pts[r->data].data(), r->point, sizeof p) == 0, "the node returned carries another point's data");
			if (pts.size() >= 5) c.nontrivial();
		}
		if (i == n) break;
		double p[K];
		if (!pts.empty() && (most > 80 ? rnd() % 8 == 0 : c.chance(1, 8))) {	// the same point again
			auto &o = pts[most > 80 ? rnd() % pts.size() : c.draw(pts.size())];
			for (unsigned d = 0; d < K; d++) p[d] = o[d];
		} else for (unsigned d = 0; d < K; d++) p[d] = coord(d);
		t.insert(p, i);
		pts.push_back(std::vector<double>(p, p + K));
		CHECK(t.size() == pts.size(), "size is %lu after %zu insertions", t.size(), pts.size());
	}
	std::vector<bool> seen(pts.size(), false);
	unsigned cnt = 0;
	for (auto it = t.begin(); it != t.end(); ++it) {
		CHECK(++cnt <= pts.size(), "iteration visits more than the %zu points", pts.size());
		int i = (*it)->data;
		CHECK(i >= 0 && i < (int) pts.size() && !seen[i], "iteration visits a point twice or a wrong one");
		seen[i] = true;
		CHECK(memcmp(pts[i].data(), (*it)->point, K * sizeof(double)) == 0, "iteration visits a point with other coordinates");
	}
	CHECK(cnt == pts.size(), "iteration visited %u of %zu points", cnt, pts.size());
	unsigned dep = t.depth();
	CHECK(dep <= pts.size() && (pts.empty() || (1ul << std::min(dep, 40u)) > pts.size()), "depth %u is impossible for %zu points", dep, pts.size());
}

PROP(kdtree, 30000, 800000, "a nearest query against five or more points") {
	switch (c.range(0, 3)) {
	case 0: kdtest<2>(c, 80); break;
	case 1: kdtest<1>(c, 80); break;
	case 2: kdtest<3>(c, 80); break;
	default: kdtest<5>(c, 80); break;
	}
}

PROP(kdtree_large, 1200, 30000, "a nearest query against five or more points") {
	if (c.flip()) kdtest<2>(c, 3000); else kdtest<4>(c, 3000);
}

// --- union-find

PROP(djset, 20000, 600000, "at least two joins of different sets and a find through another element") {
	int n = c.size(1, 60);
	std::deque<Djset> s(n);
	std::vector<int> part(n);
	for (int i = 0; i < n; i++) part[i] = i;
	int nops = c.size(1, 120), joins = 0;
	c.desc("djset n=%d:", n);
	int dummy;
	for (int i = 0; i < n; i++) {
		CHECK(s[i].aux == NULL, "aux is not initially null");
		s[i].aux = &dummy + i;
	}
	for (int o = 0; o < nops; o++) {
		int a = c.draw(n), b = c.draw(n);
		switch (c.range(0, 5)) {
		case 0: case 1: case 2: {
			c.desc(" join(%d,%d)", a, b);
			if (part[a] != part[b]) joins++;
			s[a].join(s[b]);
			int pa = part[a], pb = part[b];
			for (int i = 0; i < n; i++) if (part[i] == pb) part[i] = pa;
			break;
		}
		case 3: case 4:
			CHECK((s[a].find() == s[b].find()) == (part[a] == part[b]), "elements %d and %d are %sjoined, but find disagrees", a, b, part[a] == part[b] ? "" : "not ");
			break;
		case 5: {	// clear the members of a whole set
			if (!c.chance(1, 5)) break;
			c.desc(" clear(%d)", a);
			int pa = part[a];
			std::vector<int> mem;
			for (int i = 0; i < n; i++) if (part[i] == pa) mem.push_back(i);
			for (int i : mem) s[i].clear();
			// give each its own name again
			std::set<int> used;
			for (int i = 0; i < n; i++) if (part[i] != pa) used.insert(part[i]);
			for (int i : mem) { int x = i; while (used.count(x)) x += n; part[i] = x; used.insert(x); }
			break;
		}
		}
	}
	for (int a = 0; a < n; a++) {
		Djset *r = s[a].find();
		CHECK(r >= &s[0] || true, " ");
		int ri = -1;
		for (int i = 0; i < n; i++) if (&s[i] == r) ri = i;
		CHECK(ri >= 0 && part[ri] == part[a], "the representative of %d is not in its set", a);
		for (int b = 0; b < n; b++)
			CHECK((r == s[b].find()) == (part[a] == part[b]), "elements %d and %d: find disagrees with the joins made", a, b);
		CHECK(s[a].aux == &dummy + a, "aux was touched");
	}
	if (joins >= 2) c.nontrivial();
}

// Large sets: the work (and the stack) of a find must stay small however
// the sets were joined.
void djset_large_body(pbt::Case &c) {
	unsigned n = 200000 + c.range(0, 3) * 100000;
	int how = c.range(0, 4);
	bool swap = c.flip();
	c.desc("djset_large n=%u how=%d swap=%d", n, how, swap);
	std::vector<Djset> s(n);
	auto join = [&](unsigned a, unsigned b) { if (swap) s[b].join(s[a]); else s[a].join(s[b]); };
	switch (how) {
	case 0:	// a chain, front to back
		for (unsigned i = 1; i < n; i++) join(i - 1, i);
		break;
	case 1:	// a chain, back to front
		for (unsigned i = n - 1; i > 0; i--) join(i - 1, i);
		break;
	case 2:	// pairs, then join each pair with all so far through its second member
		for (unsigned i = 0; i + 1 < n; i += 2) join(i, i + 1);
		for (unsigned i = 2; i + 1 < n; i += 2) join(i + 1, i - 2);
		break;
	case 3:	// the same through the first member
		for (unsigned i = 0; i + 1 < n; i += 2) join(i, i + 1);
		for (unsigned i = 2; i + 1 < n; i += 2) join(i, i - 1);
		break;
	case 4:	// a balanced tournament
		for (unsigned st = 1; st < n; st *= 2) for (unsigned i = 0; i + st < n; i += 2 * st) join(i, i + st);
		break;
	}
	if (n % 2 && (how == 2 || how == 3)) join(n - 1, 0);
	Djset *r = s[0].find();
	for (unsigned i = 0; i < n; i += 997) CHECK(s[i].find() == r, "element %u is not in the joint set", i);
	CHECK(s[n - 1].find() == r, "last element is not in the joint set");
	c.nontrivial();
}

// Run on a small stack: with union by rank a find visits at most lg n links.
PROP(djset_large, 24, 400, "200,000 or more elements joined into one set") {
	struct Arg { pbt::Case *c; std::string msg; bool failed; } a = { &c, "", false };
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 256 << 10);
	pthread_t th;
	int r = pthread_create(&th, &at, [](void *p) -> void* {
		Arg *a = (Arg*) p;
		try { djset_large_body(*a->c); } catch (pbt::Failure &f) { a->failed = true; a->msg = f.msg; }
		return NULL;
	}, &a);
	if (r != 0) c.discard();
	pthread_join(th, NULL);
	if (a.failed) c.fail("%s", a.msg.c_str());
}

// --- the pool

int ctors, dtors;
template<unsigned Sz> struct PObj {
	PObj() : serial(++ctors) { memset(pad, 0x5a, sizeof pad); }
	~PObj() { dtors++; }
	unsigned serial;
	unsigned char pad[Sz];
};

template<unsigned Sz> void pooltest(pbt::Case &c) {
	ctors = dtors = 0;
	typedef PObj<Sz> Obj;
	unsigned blksz = c.pick(std::vector<unsigned>{1, 2, 3, 16, 1024});
	struct Live { Obj *o; unsigned serial; unsigned char tag; };
	std::vector<Live> live;
	std::map<uintptr_t, uintptr_t> ranges;	// start -> end of live objects
	{
	Pool<Obj> pool(blksz);
	unsigned peak = 0;
	int nops = c.size(1, 150), made = 0, gone = 0;
	c.desc("pool obj=%zu blk=%u:", sizeof(Obj), blksz);
	for (int n = 0; n < nops; n++) {
		bool put = c.chance(2, 5) && !live.empty();
		if (!put) {
			c.desc(" new");
			Obj *o = pool.construct();
			CHECK(o, "no object");
			CHECK(ctors == ++made, "constructor ran %d times for %d objects", ctors, made);
			uintptr_t b = (uintptr_t) o, e = b + sizeof(Obj);
			CHECK(b % alignof(Obj) == 0, "misaligned object");
			auto it = ranges.lower_bound(e);
			if (it != ranges.begin()) { --it; CHECK(it->second <= b, "a new object overlaps a live one"); }
			ranges[b] = e;
			unsigned char tag = c.draw(256);
			memset(o->pad, tag, Sz);
			live.push_back(Live{o, o->serial, tag});
		} else {
			size_t i = c.draw(live.size());
			c.desc(" free(%zu)", i);
			Live l = live[i];
			live.erase(live.begin() + i);
			ranges.erase((uintptr_t) l.o);
			pool.destruct(l.o);
			CHECK(dtors == ++gone, "destructor ran %d times for %d objects", dtors, gone);
		}
		if (live.size() > peak) peak = live.size();
		for (auto &l : live) {
			CHECK(l.o->serial == l.serial, "a live object was overwritten");
			for (unsigned j = 0; j < Sz; j++) CHECK(l.o->pad[j] == l.tag, "a live object was overwritten");
		}
		// released storage is reused: no more blocks than the most objects alive at once need
		unsigned long need = std::max(1u, (peak + blksz - 1) / blksz);
		CHECK(pool.blocks() <= need + 1, "%lu blocks of %u for at most %u live objects", pool.blocks(), blksz, peak);
	}
	if (made >= 5 && gone >= 2) c.nontrivial();
	}
}

PROP(pool, 20000, 600000, "at least five objects made and two released") {
	switch (c.range(0, 3)) {
	case 0: pooltest<4>(c); break;
	case 1: pooltest<1>(c); break;
	case 2: pooltest<20>(c); break;
	default: pooltest<100>(c); break;
	}
}

}
