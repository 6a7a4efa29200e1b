// The search domain made of a Graph, and SearcherT; included by each variant.
#pragma once
#include "graph.hpp"
#include "search/main.hpp"
#include "utils/utils.hpp"
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

struct GRec {
	const Graph *g;
	RunOpts opts;
	std::vector<int> expanded, from, to;
	std::vector<const void*> open;	// outstanding edges that edit a state in place
	std::string err;

	void bad(const char *fmt, int a, int b) {
		if (err.empty()) err = pbt::strf(fmt, a, b);
	}
};

struct GiveUp { };

extern int ghashkind;
// The hashes computed in this search, and how many may be (0: any number).
extern unsigned long ghashes, gmaxhashes;

template<class CostT, bool InPlace> struct GDom {
	typedef CostT Cost;
	typedef int Oper;
	static const Oper Nop = -1;

	struct State {
		State() : at(-12345), tag(0x5a5a) { }
		int at, tag;
		bool eq(const GDom*, const State &o) const { return at == o.at; }
		// The domain is not looked at: some searches never tell their
		// tables which domain they serve (no domain of the repository
		// looks at it either).
		unsigned long hash(const GDom*) const {
			if (++ghashes > gmaxhashes && gmaxhashes)
				throw GiveUp();
			switch (ghashkind) {
			case 1: return at % 5;
			case 2: return 7;
			case 3: return (unsigned long) at << 32;
			}
			return at * 0x9E3779B97F4A7C15ul >> 11;
		}
	};
	typedef State PackedState;

	GRec *rec;

	GDom(GRec *r) : rec(r) { }

	bool ok(const State &s, const char *who) const {
		if (s.tag != 0x5a5a || s.at < 0 || s.at >= rec->g->n) {
			rec->bad((std::string(who) + " of a bad state %d (tag %x)").c_str(), s.at, s.tag);
			throw GiveUp();
		}
		return true;
	}
	State initialstate() { State s; s.at = rec->g->start; return s; }
	Cost h(State &s) const { ok(s, "h"); return (Cost) rec->g->h[s.at]; }
	Cost d(State &s) const { ok(s, "d"); return (Cost) rec->g->d[s.at]; }
	bool isgoal(State &s) const { ok(s, "isgoal"); return rec->g->goal[s.at]; }

	struct Operators {
		Operators(const GDom &d, const State &s) {
			d.ok(s, "operators");
			d.rec->expanded.push_back(s.at);
			vclock += d.rec->opts.tick;
			if (d.rec->opts.alarmat >= 0 && (long) d.rec->expanded.size() == d.rec->opts.alarmat)
				raise(SIGALRM);
			for (auto &e : d.rec->g->adj[s.at]) ops.push_back(e.id);
		}
		unsigned int size() const { return ops.size(); }
		Oper operator[](unsigned int i) const { return ops.at(i); }
	private:
		std::vector<int> ops;
	};

	struct EdgeBase {
		Cost cost, revcost;
		Oper revop;
		int old, dst;
		GRec *rec;
		EdgeBase(GDom &d, State &s, Oper op) : rec(d.rec) {
			d.ok(s, "transition");
			const GEdge *e = d.rec->g->find(s.at, op);
			if (!e) {
				d.rec->bad("operator %d is not applicable in state %d", op, s.at);
				throw GiveUp();
			}
			old = s.at;
			cost = (Cost) e->cost;
			revcost = (Cost) e->revcost;
			revop = e->rev;
			dst = e->to;
			rec->from.push_back(s.at);
			rec->to.push_back(e->to);
			if (rec->opts.stop && rec->to.size() > rec->opts.stop)
				throw GiveUp();
		}
	};
	struct EdgeIn : EdgeBase {
		State &state;
		EdgeIn(GDom &d, State &s, Oper op) : EdgeBase(d, s, op), state(s) {
			state.at = this->dst;
			this->rec->open.push_back(this);
		}
		~EdgeIn() {
			if (this->rec->open.empty() || this->rec->open.back() != this)
				this->rec->bad("transition %d -> %d undone out of order", this->old, this->dst);
			else
				this->rec->open.pop_back();
			if (state.at != this->dst)
				this->rec->bad("state is %d, not %d, when its transition is undone", state.at, this->dst);
			state.at = this->old;
		}
	};
	struct EdgeOut : EdgeBase {
		State state;
		EdgeOut(GDom &d, State &s, Oper op) : EdgeBase(d, s, op) { state.at = this->dst; }
	};
	typedef typename std::conditional<InPlace, EdgeIn, EdgeOut>::type Edge;

	void pack(PackedState &dst, State &src) const { ok(src, "pack"); dst = src; }
	State &unpack(State &buf, PackedState &pkd) const {
		if (!InPlace)
			return pkd;
		buf = pkd;
		return buf;
	}
	void dumpstate(FILE *f, State &s) { fprintf(f, "%d\n", s.at); }
	Cost pathcost(const std::vector<State> &path, const std::vector<Oper> &ops) {
		Cost sum(0);
		for (size_t i = ops.size(); i-- > 0; ) {
			const GEdge *e = rec->g->find(path[i+1].at, ops[i]);
			if (e) sum += (Cost) e->cost;
		}
		return sum;
	}
};
template<class C, bool I> const typename GDom<C, I>::Oper GDom<C, I>::Nop;

struct CaptureOut {
	int fd, save;
	CaptureOut() {
		fflush(stdout);
		fd = memfd_create("out", 0);
		save = dup(1);
		dup2(fd, 1);
	}
	std::string done() {
		if (fd < 0) return "";
		fflush(stdout);
		dup2(save, 1);
		close(save);
		off_t n = lseek(fd, 0, SEEK_END);
		std::string s(n, '\0');
		if (n > 0 && pread(fd, &s[0], n, 0) != n) s = "";
		close(fd);
		fd = -1;
		return s;
	}
	~CaptureOut() { done(); }
};

template<class D> struct SearcherT : Searcher {
	std::vector<std::string> args;
	std::vector<const char*> argv;
	std::unique_ptr<SearchAlgorithm<D>> alg;
	// The problem outlives a search, until the next one.
	GRec rec;
	std::unique_ptr<D> dom;

	SearcherT(const std::vector<std::string> &a) : args(a) {
		for (auto &s : args) argv.push_back(s.c_str());
		argv.push_back(nullptr);
		alg.reset(getsearch<D>((int) args.size(), argv.data()));
	}

	Outcome get() {
		Outcome o;
		o.rawpath = alg->res.path.size();
		o.rawops = alg->res.ops.size();
		o.found = o.rawpath > 0;
		for (size_t i = o.rawpath; i-- > 0; ) o.path.push_back(alg->res.path[i].at);
		for (size_t i = o.rawops; i-- > 0; ) o.ops.push_back(alg->res.ops[i]);
		o.expd = alg->res.expd;
		o.gend = alg->res.gend;
		o.dups = alg->res.dups;
		o.reopnd = alg->res.reopnd;
		return o;
	}

	Outcome search(const Graph &g, const RunOpts &ro) override {
		rec = GRec();
		rec.g = &g;
		ghashkind = g.hashkind;
		rec.opts = ro;
		ghashes = 0;
		gmaxhashes = ro.maxhashes;
		dom.reset(new D(&rec));
		typename D::State s0 = dom->initialstate();
		CaptureOut cap;
		bool gaveup = false;
		try {
			alg->search(*dom, s0);
		} catch (GiveUp&) {
			gaveup = true;
		}
		gmaxhashes = 0;
		std::string out = cap.done();
		Outcome o = get();
		if (gaveup) o.moves.assign(alg->res.ops.begin(), alg->res.ops.end());
		o.out = out;
		o.timedout = gaveup && rec.err.empty();
		if (o.found && o.rawops + 1 == o.rawpath && rec.err.empty())
			o.domcost = (double) dom->pathcost(alg->res.path, alg->res.ops);
		if (!gaveup) {
			if (s0.at != g.start) rec.bad("the start state is now %d, it was %d", s0.at, g.start);
			if (!rec.open.empty()) rec.bad("%d transitions were not undone", (int) rec.open.size(), 0);
		}
		o.expanded = rec.expanded;
		o.from = rec.from;
		o.to = rec.to;
		o.err = rec.err;
		if (ro.stats && !gaveup) {
			CaptureOut c2;
			alg->output(stdout);
			o.stats = c2.done();
		}
		return o;
	}
	void reset() override { alg->reset(); }
	void limits(unsigned long &expd, unsigned long &gend, unsigned long &mem, unsigned long &cpu, unsigned long &wall) override {
		expd = alg->lim.expd; gend = alg->lim.gend; mem = alg->lim.mem; cpu = alg->lim.cputime; wall = alg->lim.walltime;
	}
	Outcome addstats(Searcher &o) override {
		Result<D> sum = alg->res;
		sum.add(dynamic_cast<SearcherT<D>&>(o).alg->res);
		Outcome r;
		r.expd = sum.expd; r.gend = sum.gend; r.dups = sum.dups; r.reopnd = sum.reopnd;
		CaptureOut cap;
		sum.output(stdout);
		r.stats = cap.done();
		return r;
	}
};
