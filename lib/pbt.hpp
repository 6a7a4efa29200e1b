// A small property-based testing library.
//
// A property is a function of a Case. Every random decision goes through
// Case::draw, so a case *is* its finite sequence of choices: the sequence is
// recorded in memory shared with the parent (hence survives a crash of the
// code under test), it can be replayed exactly, and it is shrunk by editing
// the sequence and running the property again.  An exhausted sequence
// yields zeros, and generators map zero to their simplest value.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct KnownFailure { std::string id, msg; };
struct Discard { };

struct Case {
	// draw returns a value in [0, n); zero is the simplest.
	uint64_t draw(uint64_t n);
	// range returns a value in [lo, hi]; lo is the simplest.
	long range(long lo, long hi) { return lo + (long) draw((uint64_t) (hi - lo) + 1); }
	// size returns a value in [lo, hi] with small values more likely.
	long size(long lo, long hi);
	// chance is true with probability num/den; false is the simplest.
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
	bool flip() { return draw(2) == 1; }
	// real returns a value in [0, 1).
	double real() { return draw(1ull << 30) / (double) (1ull << 30); }
	template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

	void fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
	// known reports a failure that may be listed as a known finding.
	void known(const char *id, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
	void discard() { throw Discard(); }
	// label counts how often something was exercised.
	void label(const char *name, unsigned long n = 1);
	// nontrivial marks this case as non-trivial by the property's rule.
	void nontrivial() { nontriv = true; }
	// desc appends to the human-readable account of the case.
	void desc(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

	// sub runs f in a forked child and returns its wait status;
	// -1 means that it used more than the CPU limit. Choices drawn and
	// failures raised in the child are not propagated; use it for calls
	// expected to end the process. err receives the start of its stderr.
	int sub(const std::function<void()> &f, std::string *err = nullptr);

	bool nontriv = false;
	bool generating = true;
	uint64_t rng[4];
	std::vector<uint64_t> input;
	size_t pos = 0;
};

typedef void (*PropFn)(Case&);

struct Prop {
	const char *name;
	PropFn fn;
	unsigned long quick, thorough;	// number of cases
	const char *rule;	// what makes a case non-trivial
	double cpulimit;	// per case, in seconds
};

int reg(const char *name, PropFn fn, unsigned long quick, unsigned long thorough,
	const char *rule, double cpulimit = 20);

// scratch returns a directory, private to this worker, that exists.
const std::string &scratch();
// Empties the scratch directory.
void clearscratch();

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP defines and registers a property.
#define PROP(name, quick, thorough, rule) \
	static void name(pbt::Case &c); \
	static int PBT_CAT(reg_, name) = pbt::reg(#name, name, quick, thorough, rule); \
	static void name(pbt::Case &c)

#define CHECK(cond, ...) do { if (!(cond)) c.fail(__VA_ARGS__); } while (0)
