// Explicit random graphs as search problems, and type-erased searches on them.
#pragma once
#include "pbt.hpp"
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <vector>

struct GEdge {
	int to;
	double cost;
	int id;		// operator, unique among the edges leaving a node
	int rev;	// operator leading back from to, or -1
	double revcost;	// its cost, or -1
};

struct Graph {
	int n = 0, start = 0;
	std::vector<std::vector<GEdge>> adj;
	std::vector<char> goal;
	std::vector<double> h, d;
	int hashkind = 0;
	// What is known of the heuristic and the shape.
	bool integer = true, admissible = false, consistent = false, safe = false, dag = false;
	// Exact remaining costs, and the number of nodes reachable from the start.
	std::vector<double> hstar;
	std::vector<char> reach;

	const GEdge *find(int u, int op) const {
		for (auto &e : adj[u]) if (e.id == op) return &e;
		return nullptr;
	}
	bool solvable() const { return hstar[start] < std::numeric_limits<double>::infinity(); }
	double opt() const { return hstar[start]; }
	int nreach() const { int k = 0; for (char r : reach) k += r; return k; }
	int maxdeg() const { size_t m = 0; for (auto &a : adj) m = std::max(m, a.size()); return (int) m; }
	void solve();
	std::string str() const;
};

struct GenOpts {
	int nmax = 40;
	bool integer = true;
	bool positive = false;		// no zero-cost edges
	int heur = 0;			// 0 any, 1 admissible, 2 consistent
	bool trade = false;	// prefer structures in which greed misleads
	bool safe = false;		// the goal can be reached from every node
	bool needsol = false;
	bool dag = false;
	bool big = false;		// sometimes several hundred nodes
	bool huge = false;		// and sometimes several thousand
	bool uniquecosts = false;	// costs that rarely tie
	int maxdeg = 5;
	bool nod = false;	// distances are all estimated as 0
};

Graph gengraph(pbt::Case &c, const GenOpts &o);

// What one run of a search did.
struct Outcome {
	bool found = false;
	std::vector<int> path, ops;	// from the start to the goal
	double domcost = -1;		// cost by the problem's own pathcost
	unsigned long expd = 0, gend = 0, dups = 0, reopnd = 0;
	std::vector<int> expanded;	// states whose operators were asked for, in order
	std::vector<int> from, to;	// transitions made, in order
	std::string err;		// misuse of the problem by the search
	std::string out, stats;		// printed while searching, and by output()
	size_t rawpath = 0, rawops = 0;
	bool timedout = false;
	std::vector<int> moves;	// of a search that was given up, as it has them
};

struct RunOpts {
	long alarmat = -1;	// raise SIGALRM at this expansion
	double tick = 1e-5;	// virtual seconds per expansion
	bool stats = true;
	unsigned long maxhashes = 0;	// give up after hashing this many states, 0 is never
	unsigned long stop = 0;	// give up after this many transitions, 0 is never
};

struct Searcher {
	virtual ~Searcher() { }
	virtual Outcome search(const Graph&, const RunOpts&) = 0;
	virtual void reset() = 0;
	virtual void limits(unsigned long &expd, unsigned long &gend, unsigned long &mem, unsigned long &cpu, unsigned long &wall) = 0;
	// Adds the statistics of the last search of o to those of this one.
	virtual Outcome addstats(Searcher &o) = 0;
};

typedef Searcher *(*MkSearcher)(const std::vector<std::string> &args);
MkSearcher *variants(bool integer);	// two: states copied, states edited in place
Searcher *mksearcher(bool integer, bool inplace, const std::vector<std::string> &args, int fill);

// new memory is filled with this byte
extern unsigned char newfill;
extern double vclock;
extern bool oneclock;	// processor time passes just like time
extern unsigned long aslimit;

std::string argstr(const std::vector<std::string> &a);
// checkpath checks that the outcome is a valid solution (or none), and
// returns its cost, or -1.
double checkpath(pbt::Case &c, const Graph &g, const Outcome &o, const char *what);
// The value of a datafile pair in text, or "".
std::string dfget(const std::string &text, const std::string &key);
std::vector<std::vector<std::string>> dfrows(const std::string &text, const std::string &name);
