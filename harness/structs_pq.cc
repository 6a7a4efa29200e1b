// P11: the binary heap. P12: the bucketed integer queue and the open lists.
// Stateful, model-based: random operation sequences against a plain vector.
#include "pbt.hpp"
#include <cassert>
#include <cstring>
#include <deque>
#include <set>
#include <memory>
#include <random>
#include "structs/binheap.hpp"
#include "structs/intpq.hpp"
#include "search/search.hpp"

namespace {

struct Elm {
	int id, prio, tie;
	int ind = -1;
	IntpqEntry<Elm> ent;
};

struct HeapOps {
	static bool pred(Elm *a, Elm *b) { return a->prio < b->prio; }
	static void setind(Elm *e, int i) { e->ind = i; }
};

int genprio(pbt::Case &c, int mode) {
	switch (mode) {
	case 0: return c.range(0, 3);	// many ties
	case 1: return c.range(0, 40);
	default: return c.range(0, 5000);
	}
}

PROP(binheap, 30000, 1500000, "at least 8 operations, with a pop or update on a heap of three or more elements") {
	int mode = c.range(0, 2);
	BinHeap<HeapOps, Elm*> heap;
	std::deque<Elm> store;
	std::vector<Elm*> in;	// model: the elements in the heap
	int nops = c.size(1, 90), hard = 0;
	auto fresh = [&] {
		store.push_back(Elm());
		Elm *e = &store.back();
		e->id = store.size() - 1;
		e->prio = genprio(c, mode);
		return e;
	};
	auto least = [&] {
		int m = in[0]->prio;
		for (Elm *e : in) m = std::min(m, e->prio);
		return m;
	};
	auto popcheck = [&] {
		boost::optional<Elm*> p = heap.pop();
		if (in.empty()) {
			CHECK(!p, "pop of an empty heap returned an element");
			return;
		}
		CHECK((bool) p, "pop returned nothing with %zu elements held", in.size());
		Elm *e = *p;
		size_t i = 0;
		while (i < in.size() && in[i] != e) i++;
		CHECK(i < in.size(), "pop returned an element that is not in the heap");
		CHECK(e->prio == least(), "pop returned priority %d, but %d is held", e->prio, least());
		CHECK(e->ind < 0, "a popped element is reported at position %d", e->ind);
		in.erase(in.begin() + i);
	};
	c.desc("binheap ops:");
	for (int n = 0; n < nops; n++) {
		int op = c.range(0, 9);
		if (in.size() >= 3 && op >= 3 && op <= 7) hard++;
		switch (op) {
		case 0: case 1: case 2: {
			Elm *e = fresh();
			c.desc(" push(%d)", e->prio);
			if (c.flip()) heap.push(e); else heap.pushupdate(e, e->ind);
			in.push_back(e);
			break;
		}
		case 3: case 4:
			c.desc(" pop");
			popcheck();
			break;
		case 5: case 6: {	// change a key and update
			if (in.empty()) break;
			Elm *e = in[c.draw(in.size())];
			int old = e->prio;
			e->prio = genprio(c, mode);
			c.desc(" update(%d->%d)", old, e->prio);
			if (c.flip()) heap.update(e->ind); else heap.pushupdate(e, e->ind);
			break;
		}
		case 7: {	// append several
			std::vector<Elm*> v;
			for (int k = c.range(0, 6); k > 0; k--) v.push_back(fresh());
			c.desc(" append(%zu)", v.size());
			heap.append(v);
			in.insert(in.end(), v.begin(), v.end());
			break;
		}
		case 8:	{ // change many keys in place, drop some, and restore the order
			c.desc(" reinit");
			for (Elm *e : heap.data())
				if (c.chance(1, 2)) e->prio = genprio(c, mode);
			if (heap.data().size() > 0 && c.chance(1, 3)) {
				size_t i = c.draw(heap.data().size());
				Elm *e = heap.data()[i];
				heap.data()[i] = heap.data().back();
				heap.data().pop_back();
				e->ind = -1;
				for (size_t k = 0; k < in.size(); k++) if (in[k] == e) { in.erase(in.begin() + k); break; }
			}
			heap.reinit();
			break;
		}
		case 9:
			if (!c.chance(1, 4)) break;
			c.desc(" clear");
			heap.clear();
			for (Elm *e : in) e->ind = -1;
			in.clear();
			break;
		}
		CHECK((size_t) heap.size() == in.size(), "size is %ld, should be %zu", heap.size(), in.size());
		CHECK(heap.empty() == in.empty(), "empty() is wrong");
		boost::optional<Elm*> f = heap.front();
		CHECK((bool) f == !in.empty(), "front() is wrong about emptiness");
		if (f) CHECK((*f)->prio == least(), "front has priority %d, but %d is held", (*f)->prio, least());
		for (Elm *e : in) {
			CHECK(e->ind >= 0 && e->ind < heap.size(), "element %d is held but reported at position %d of %ld", e->id, e->ind, heap.size());
			CHECK(heap.at(e->ind) == e, "position %d reported to element %d holds another", e->ind, e->id);
		}
	}
	while (!in.empty()) popcheck();
	popcheck();
	if (nops >= 8 && hard > 0) c.nontrivial();
}

// --- the intrusive integer priority queue

struct IntOps {
	static IntpqEntry<Elm> &entry(Elm *e) { return e->ent; }
};

// Heaps of thousands of elements, changed many at a time.
PROP(binheap_large, 1500, 40000, "the heap held two thousand or more elements and some were updated in place") {
	BinHeap<HeapOps, Elm*> heap;
	std::deque<Elm> store;
	std::set<std::pair<int, int>> in;	// priority and number
	std::mt19937_64 r(c.draw(1ul << 32));
	int mode = (int) c.draw(3), most = 0, hard = 0;
	auto prio = [&] { return (int) (r() % (mode == 0 ? 10 : mode == 1 ? 1000 : 1000000000)); };
	auto popcheck = [&] {
		boost::optional<Elm*> p = heap.pop();
		CHECK((bool) p == !in.empty(), "pop with %zu elements held returned %s", in.size(), p ? "one" : "none");
		if (!p) return;
		CHECK((*p)->prio == in.begin()->first, "pop returned priority %d, but %d is held", (*p)->prio, in.begin()->first);
		CHECK((*p)->ind < 0, "a popped element is reported at position %d", (*p)->ind);
		CHECK(in.erase(std::make_pair((*p)->prio, (*p)->id)) == 1, "pop returned an element that is not in the heap");
	};
	c.desc("large binheap:");
	for (int n = (int) c.size(2, 12); n > 0; n--) {
		int k = (int) c.size(1, 6000), op = (int) c.draw(6);
		c.desc(" %s*%d", op < 2 ? "push" : op == 2 ? "pop" : op == 3 ? "update" : op == 4 ? "append" : "reinit", k);
		std::vector<Elm*> fresh;
		if (op < 2 || op == 4) for (int i = 0; i < k; i++) {
			store.push_back(Elm());
			Elm *e = &store.back();
			e->id = (int) store.size() - 1;
			e->prio = prio();
			if (op == 4) fresh.push_back(e); else if (op == 0) heap.push(e); else heap.pushupdate(e, e->ind);
			in.insert(std::make_pair(e->prio, e->id));
		}
		if (op == 4) heap.append(fresh);
		if (op == 2) for (int i = 0; i < k && !in.empty(); i++) popcheck();
		if ((op == 3 || op == 5) && !in.empty()) {
			for (int i = 0; i < k; i++) {
				Elm *e = heap.at(r() % heap.size());
				in.erase(std::make_pair(e->prio, e->id));
				e->prio = prio();
				in.insert(std::make_pair(e->prio, e->id));
				if (op == 3) heap.update(e->ind);
			}
			if (op == 5) heap.reinit();
			else if (in.size() >= 2000) hard++;
		}
		most = std::max<int>(most, in.size());
		CHECK((size_t) heap.size() == in.size(), "size is %ld, should be %zu", heap.size(), in.size());
		if (!in.empty()) CHECK((*heap.front())->prio == in.begin()->first, "front has priority %d, but %d is held", (*heap.front())->prio, in.begin()->first);
		for (long i = 0; i < heap.size(); i++)
			CHECK(heap.at(i)->ind == i, "the element at position %ld is reported at %d", i, heap.at(i)->ind);
	}
	while (!in.empty()) popcheck();
	popcheck();
	if (most >= 2000 && hard) c.nontrivial();
}

PROP(intpq, 20000, 800000, "at least 8 operations, with a pop or removal from a queue of three or more elements") {
	int mode = c.range(0, 2);
	Intpq<IntOps, Elm> q(c.pick(std::vector<unsigned>{1024, 1, 2, 10}));
	std::deque<Elm> store;
	std::vector<Elm*> in, out;
	int nops = c.size(1, 90), hard = 0;
	auto least = [&] {
		int m = in[0]->prio;
		for (Elm *e : in) m = std::min(m, e->prio);
		return m;
	};
	auto popcheck = [&] {
		Elm *e = q.pop();
		if (in.empty()) { CHECK(!e, "pop of an empty queue returned an element"); return; }
		CHECK(e, "pop returned nothing with %zu elements held", in.size());
		size_t i = 0;
		while (i < in.size() && in[i] != e) i++;
		CHECK(i < in.size(), "pop returned an element that is not in the queue");
		CHECK(e->prio == least(), "pop returned priority %d, but %d is held", e->prio, least());
		in.erase(in.begin() + i);
		out.push_back(e);
	};
	c.desc("intpq ops:");
	for (int n = 0; n < nops; n++) {
		int op = c.range(0, 9);
		if (in.size() >= 3 && op >= 4 && op <= 8) hard++;
		switch (op) {
		case 0: case 1: case 2: case 3: {
			Elm *e;
			if (!out.empty() && c.chance(1, 3)) {	// push one again that was taken out
				size_t i = c.draw(out.size());
				e = out[i];
				out.erase(out.begin() + i);
			} else {
				store.push_back(Elm());
				e = &store.back();
				e->id = store.size() - 1;
			}
			e->prio = genprio(c, mode);
			c.desc(" push(%d)", e->prio);
			q.push(e, e->prio);
			in.push_back(e);
			break;
		}
		case 4: case 5:
			c.desc(" pop");
			popcheck();
			break;
		case 6: case 7: case 8: {	// remove, perhaps push with another priority
			if (in.empty()) break;
			size_t i = c.draw(in.size());
			Elm *e = in[i];
			c.desc(" rm(%d)", e->prio);
			q.rm(e, e->prio);
			CHECK(!q.mem(e), "an element just removed is still a member");
			if (c.flip()) {
				e->prio = genprio(c, mode);
				c.desc(" push(%d)", e->prio);
				q.push(e, e->prio);
			} else {
				in.erase(in.begin() + i);
				out.push_back(e);
			}
			break;
		}
		case 9:
			if (!c.chance(1, 4)) break;
			c.desc(" clear");
			q.clear();
			in.clear();
			out.clear();	// marks of dropped elements are unspecified
			break;
		}
		CHECK(q.empty() == in.empty(), "empty() is wrong with %zu held", in.size());
		for (Elm *e : in) CHECK(q.mem(e), "an element held is not a member");
		for (Elm *e : out) CHECK(!q.mem(e), "an element taken out is a member");
	}
	while (!in.empty()) popcheck();
	popcheck();
	CHECK(q.empty(), "queue not empty after draining");
	if (nops >= 8 && hard > 0) c.nontrivial();
}

// --- open lists

struct Node {
	int id;
	double dprio;
	int prio_, tie_;
	int ind = -1;
	static bool pred(Node *a, Node *b) { return a->prio_ != b->prio_ ? a->prio_ < b->prio_ : a->tie_ > b->tie_; }
	static void setind(Node *n, int i) { n->ind = i; }
	static int getind(const Node *n) { return n->ind; }
	static int prio(Node *n) { return n->prio_; }
	static int tieprio(Node *n) { return n->tie_; }
};

template<class Cost> void openlist(pbt::Case &c) {
	int mode = c.range(0, 2), tmode = c.range(0, 2);
	OpenList<Node, Node, Cost> open;
	std::deque<Node> store;
	std::vector<Node*> in, out;
	int nops = c.size(1, 90), hard = 0;
	auto best = [&] {
		Node *b = in[0];
		for (Node *n : in) if (Node::pred(n, b)) b = n;
		return b;
	};
	auto popcheck = [&] {
		Node *b = best();
		int bp = b->prio_, bt = b->tie_;
		Node *e = open.pop();
		size_t i = 0;
		while (i < in.size() && in[i] != e) i++;
		CHECK(i < in.size(), "pop returned a node that is not in the open list");
		CHECK(e->prio_ == bp && e->tie_ == bt, "pop returned (%d, %d) but (%d, %d) is held", e->prio_, e->tie_, bp, bt);
		in.erase(in.begin() + i);
		out.push_back(e);
	};
	c.desc("open list ops:");
	for (int n = 0; n < nops; n++) {
		int op = c.range(0, 9);
		if (in.size() >= 3 && op >= 4 && op <= 8) hard++;
		switch (op) {
		case 0: case 1: case 2: case 3: {
			Node *e;
			if (!out.empty() && c.chance(1, 3)) {
				size_t i = c.draw(out.size());
				e = out[i];
				out.erase(out.begin() + i);
			} else {
				store.push_back(Node());
				e = &store.back();
				e->id = store.size() - 1;
			}
			e->prio_ = genprio(c, mode) % 700;
			e->tie_ = genprio(c, tmode) % 700;
			c.desc(" push(%d,%d)", e->prio_, e->tie_);
			open.push(e);
			in.push_back(e);
			break;
		}
		case 4: case 5:
			if (in.empty()) break;
			c.desc(" pop");
			popcheck();
			break;
		case 6: case 7: case 8: {	// change keys the way the searches do
			bool member = out.empty() || !c.chance(1, 4);
			if (member && in.empty()) break;
			size_t i = member ? c.draw(in.size()) : c.draw(out.size());
			Node *e = member ? in[i] : out[i];
			open.pre_update(e);
			e->prio_ = genprio(c, mode) % 700;
			if (c.flip()) e->tie_ = genprio(c, tmode) % 700;
			open.post_update(e);
			c.desc(" %s(%d,%d)", member ? "update" : "update-absent", e->prio_, e->tie_);
			if (!member) {	// an update of an absent node pushes it
				in.push_back(e);
				out.erase(out.begin() + i);
			}
			break;
		}
		case 9:
			if (!c.chance(1, 4)) break;
			c.desc(" clear");
			open.clear();
			in.clear();
			out.clear();
			break;
		}
		CHECK(open.empty() == in.empty(), "empty() is wrong with %zu held", in.size());
		for (Node *e : in) CHECK(open.mem(e), "a node held is not a member");
		for (Node *e : out) CHECK(!open.mem(e), "a node taken out is a member");
	}
	while (!in.empty()) popcheck();
	CHECK(open.empty(), "open list not empty after draining");
	if (nops >= 8 && hard > 0) c.nontrivial();
}

PROP(openlist_int, 20000, 800000, "at least 8 operations, with a pop or update on a list of three or more nodes") { openlist<int>(c); }
PROP(openlist_generic, 20000, 800000, "at least 8 operations, with a pop or update on a list of three or more nodes") { openlist<double>(c); }

}
