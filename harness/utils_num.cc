// P28: ranks and combinatorics. P30: checked arithmetic. P33: random numbers and hashes.
#include "pbt.hpp"
#include <functional>
#include <boost/cstdint.hpp>
#include "utils/utils.hpp"
#include "utils/safeops.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <numeric>
#include <set>

typedef __int128 I;
using pbt::Case;
using pbt::strf;

//---------------------------------------------------------------- P30

// An operand: special values and their neighbours, small, powers of two, any.
template<class N> static N operand(Case &c) {
	typedef std::numeric_limits<N> L;
	N v = 0;
	switch (c.draw(5)) {
	case 0: v = (N) c.range(-3 * (L::is_signed ? 1 : 0), 12); break;
	case 1: { // near an end
		N d = (N) c.draw(4);
		v = c.flip() ? (N) (L::max() - d) : (N) (L::min() + d);
		break;
	}
	case 2: { // around a power of two, either sign
		I p = (I) 1 << c.draw(sizeof(N) * 8);
		p += (long) c.range(-1, 1);
		if (L::is_signed && c.flip()) p = -p;
		v = (N) p;
		break;
	}
	case 3: v = (N) ((I) c.draw(UINT64_MAX)); break;
	default: { // around a quotient of the extremes
		N d = (N) c.range(1, 100);
		I q = (I) (c.flip() ? L::max() : L::min()) / d;
		q += (long) c.range(-1, 1);
		v = (N) q;
	}
	}
	return v;
}

template<class N> static std::string show(N v) {
	return std::numeric_limits<N>::is_signed ? strf("%lld", (long long) v) : strf("%llu", (unsigned long long) v);
}

template<class N> static void one(Case &c, const char *ty, int op, N a, N b) {
	typedef std::numeric_limits<N> L;
	static const char *ops = "+-*/";
	bool undefined = op == 3 && b == 0;
	I want = 0;
	bool fits = false;
	if (!undefined) {
		I x = a, y = b;
		if (op == 2 && sizeof(N) == 8 && !L::is_signed) {
			unsigned __int128 p = (unsigned __int128) a * b;
			fits = p <= (unsigned __int128) L::max();
			want = (I) p;
		} else {
			want = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
			fits = want >= (I) L::min() && want <= (I) L::max();
		}
	}
	bool threw = false;
	N got = 0;
	try {
		got = op == 0 ? safe::add(a, b) : op == 1 ? safe::sub(a, b) : op == 2 ? safe::mul(a, b) : safe::div(a, b);
	} catch (const safe::BadFlow<N> &e) {
		threw = true;
		CHECK(e.a == a && e.b == b, "%s: the error for %s %c %s holds other operands", ty, show(a).c_str(), ops[op], show(b).c_str());
	}
	CHECK(threw == !fits, "%s: %s %c %s %s", ty, show(a).c_str(), ops[op], show(b).c_str(),
		threw ? "is refused though it is representable" : "is accepted though it is not representable");
	if (fits) CHECK((I) got == want, "%s: %s %c %s gives %s", ty, show(a).c_str(), ops[op], show(b).c_str(), show(got).c_str());
	if (op == 2)
		CHECK(safe::can_mul(a, b) == fits, "%s: can_mul(%s, %s) is wrong", ty, show(a).c_str(), show(b).c_str());
	c.label(fits ? "representable" : "refused");
}

template<class N> static void random(Case &c, const char *ty) {
	for (int i = 0; i < 20; i++) {
		N a = operand<N>(c), b = operand<N>(c);
		int op = (int) c.draw(4);
		one<N>(c, ty, op, a, b);
	}
}

PROP(safe_random, 24000, 960000, "twenty operations on operands of one type") {
	c.nontrivial();
	switch (c.draw(8)) {
	case 0: random<int8_t>(c, "int8"); break;
	case 1: random<uint8_t>(c, "uint8"); break;
	case 2: random<int16_t>(c, "int16"); break;
	case 3: random<uint16_t>(c, "uint16"); break;
	case 4: random<int32_t>(c, "int32"); break;
	case 5: random<uint32_t>(c, "uint32"); break;
	case 6: random<int64_t>(c, "int64"); break;
	default: random<uint64_t>(c, "uint64"); break;
	}
}

// Every pair of operands of the narrowest types.
PROP(safe_exhaustive, 1, 1, "all 65536 operand pairs of both 8-bit types") {
	for (int op = 0; op < 4; op++)
	for (int a = 0; a < 256; a++)
	for (int b = 0; b < 256; b++) {
		one<int8_t>(c, "int8", op, (int8_t) a, (int8_t) b);
		one<uint8_t>(c, "uint8", op, (uint8_t) a, (uint8_t) b);
	}
	c.nontrivial();
}

//---------------------------------------------------------------- P28

// The number of arrangements of k of n.
static unsigned long arrangements(unsigned n, unsigned k) {
	unsigned long r = 1;
	for (unsigned i = 0; i < k; i++) r *= n - i;
	return r;
}

// Number of arrangements that come before this one in dictionary order.
static unsigned long lexrank(unsigned n, const std::vector<unsigned> &p) {
	unsigned long r = 0;
	for (unsigned i = 0; i < p.size(); i++) {
		unsigned smaller = p[i];
		for (unsigned j = 0; j < i; j++) smaller -= p[j] < p[i];
		r = r * (n - i) + smaller;
	}
	return r;
}

static std::vector<unsigned> arrangement(Case &c, unsigned n, unsigned k) {
	std::vector<unsigned> all(n);
	std::iota(all.begin(), all.end(), 0);
	for (unsigned i = 0; i < k; i++) std::swap(all[i], all[i + c.draw(n - i)]);
	all.resize(k);
	return all;
}

PROP(rank_random, 16000, 640000, "at least five elements placed") {
	unsigned n = (unsigned) c.size(1, 20), k = c.flip() ? n : (unsigned) c.range(1, n);
	if (c.chance(1, 8)) { n = (unsigned) c.range(21, 1000); k = (unsigned) c.range(1, 6); }
	Ranker r = k == n && c.flip() ? Ranker(n) : Ranker(n, k);
	if (k >= 5) c.nontrivial();
	for (int i = 0; i < 4; i++) {
		std::vector<unsigned> p = arrangement(c, n, k);
		std::vector<unsigned> copy(p);
		unsigned long want = lexrank(n, p), got = r.rank(p.data());
		std::string s;
		for (unsigned v : p) s += strf(" %u", v);
		CHECK(got == want, "of %u elements,%s has rank %lu, not %lu", n, s.c_str(), got, want);
		CHECK(p == copy, "ranking changed the array");
	}
}

// All arrangements: a bijection onto 0..count-1.
PROP(rank_all, 180, 360, "at least 100 arrangements") {
	unsigned n = (unsigned) c.range(1, 7), k = (unsigned) c.range(1, n);
	unsigned long cnt = arrangements(n, k);
	if (cnt >= 100) c.nontrivial();
	std::vector<unsigned> p(n);
	std::iota(p.begin(), p.end(), 0);
	Ranker r(n, k);
	std::vector<int> seen(cnt, 0);
	do {
		// the first k, counted once for each order of the rest
		if (!std::is_sorted(p.begin() + k, p.end())) continue;
		unsigned long x = r.rank(p.data());
		CHECK(x < cnt, "rank %lu of %lu arrangements (%u of %u)", x, cnt, k, n);
		CHECK(!seen[x]++, "two arrangements of %u of %u have rank %lu", k, n, x);
	} while (std::next_permutation(p.begin(), p.end()));
	for (unsigned long i = 0; i < cnt; i++) CHECK(seen[i], "no arrangement of %u of %u has rank %lu", k, n, i);
	CHECK(fallfact(n, k) == cnt, "fallfact(%u, %u) is %lu, not %lu", n, k, fallfact(n, k), cnt);
}

PROP(combinatorics, 16000, 640000, "values beyond 2^32") {
	unsigned long r;
	unsigned x = (unsigned) c.size(0, 60), n = (unsigned) c.range(0, 25);
	if (c.chance(1, 6)) { x = (unsigned) c.draw(1ul << 32); n = (unsigned) c.range(0, 2); }
	unsigned __int128 f = 1;
	bool fits = true;
	for (unsigned i = 0; i < n; i++) {
		f *= i > x ? 0 : x - i;
		if (f > ULONG_MAX) fits = false;
		if (i >= x) break;
	}
	if (fits) {
		if (n > x) f = 0;
		r = fallfact(x, n);
		CHECK(r == (unsigned long) f, "%u to the %u falling is %lu, not %lu", x, n, r, (unsigned long) f);
		if (f >> 32) c.nontrivial();
		c.label("falling factorials");
	}

	unsigned b = (unsigned) c.size(0, 70), e = (unsigned) c.range(0, 64);
	if (c.chance(1, 6)) { b = (unsigned) c.draw(1ul << 32); e = (unsigned) c.range(0, 2); }
	unsigned __int128 pw = 1;
	fits = true;
	for (unsigned i = 0; i < e && fits; i++) { pw *= b; fits = pw <= ULONG_MAX; }
	if (fits) {
		r = ipow(b, e);
		CHECK(r == (unsigned long) pw, "%u to the %u is %lu, not %lu", b, e, r, (unsigned long) pw);
		if (pw >> 32) c.nontrivial();
		c.label("powers");
	}

	// The number of bits needed to write v.
	unsigned v = (unsigned) c.draw(1ul << 32) >> c.draw(32);
	if (c.flip()) v = (unsigned) (1ul << c.draw(32)) - (unsigned) c.draw(2);
	unsigned bits = 0;
	for (unsigned t = v; t; t >>= 1) bits++;
	CHECK(ilog2(v) == bits, "ilog2(%u) is %u, not %u", v, ilog2(v), bits);
}

static double span(Case &c, double lo, double hi) { return lo + (hi - lo) * c.real(); }

PROP(normal, 12000, 480000, "a point within six standard deviations") {
	double mu = c.flip() ? 0 : span(c, -1000, 1000), sd = c.flip() ? 1 : exp(span(c, -6, 6));
	double z = span(c, -8, 8), x = mu + z * sd;
	z = (x - mu) / sd;
	if (fabs(z) <= 6) c.nontrivial();
	c.desc("mean %.17g deviation %.17g at %.17g", mu, sd, x);
	double want = 0.5 * erfc(-z / sqrt(2.0));
	double tol = 1e-9 + 1e-12 * fabs(mu / sd);
	CHECK(fabs(normcdf(mu, sd, x) - want) < tol, "normcdf is %.17g, not %.17g", normcdf(mu, sd, x), want);
	CHECK(fabs(phi(z) - want) < 1e-9, "phi(%g) is %.17g, not %.17g", z, phi(z), want);
	Normal n(mu, sd);
	CHECK(fabs(n.cdf(x) - want) < tol, "cdf is %.17g, not %.17g", n.cdf(x), want);
	double d = exp(-z * z / 2) / (sd * sqrt(2 * M_PI));
	CHECK(fabs(n.pdf(x) - d) * sd < tol, "pdf is %.17g, not %.17g", n.pdf(x), d);
	// the density integrates to the difference of the cumulative values
	if (c.chance(1, 8)) {
		double a = mu + span(c, -4, 4) * sd, b = a + span(c, 0, 4) * sd;
		double got = integrate([&](double t) { return n.pdf(t); }, a, b, sd / 100);
		double diff = n.cdf(b) - n.cdf(a);
		CHECK(fabs(got - diff) < 1e-4, "the density integrates to %.17g between %.17g and %.17g, not %.17g", got, a, b, diff);
		c.label("integrated densities");
	}
}

// The trapezoid rule: exact for lines, off by a known amount for parabolas.
PROP(integral, 12000, 480000, "at least three steps and a partial one") {
	double a = (double) c.range(-50, 50), b = a + c.draw(4000) / 64.0, h = c.range(1, 256) / 64.0;
	double p = (double) c.range(-5, 5), q = (double) c.range(-5, 5), r = (double) c.range(-5, 5);
	c.desc("%g x^2 + %g x + %g from %g to %g in steps of %g", p, q, r, a, b, h);
	unsigned long calls = 0;
	double lo = b, hi = a;
	double got = integrate([&](double t) {
		calls++; lo = std::min(lo, t); hi = std::max(hi, t);
		return p * t * t + q * t + r;
	}, a, b, h);
	auto F = [&](double t) { return p * t * t * t / 3 + q * t * t / 2 + r * t; };
	double exact = F(b) - F(a);
	double full = floor((b - a) / h), rest = (b - a) - full * h;
	double err = p * (full * h * h * h + rest * rest * rest) / 6;	// over by f'' h^3 / 12 in each step
	CHECK(fabs(got - (exact + err)) < 1e-7 * (1 + fabs(exact)), "the integral is %.17g, not %.17g", got, exact + err);
	CHECK(b == a || (lo == a && hi == b), "looked from %g to %g", lo, hi);
	if (full >= 3 && rest > 0) c.nontrivial();
}

//---------------------------------------------------------------- P33

PROP(rand_range, 16000, 640000, "a range of at least two values") {
	uint64_t seed = c.flip() ? c.draw(100) : c.draw(UINT64_MAX);
	Rand r(seed), twin(seed);
	CHECK(r.seed() == seed, "the seed is %lu, not %lu", r.seed(), seed);
	long lo, hi;
	switch (c.draw(5)) {
	case 0: lo = c.range(-20, 20); hi = lo + c.range(0, 30); break;
	case 1: lo = LONG_MIN + (long) c.draw(3); hi = LONG_MAX - (long) c.draw(3); break;
	case 2: lo = LONG_MAX - (long) c.draw(20); hi = LONG_MAX; break;
	case 3: lo = LONG_MIN; hi = LONG_MIN + (long) c.draw(20); break;
	default: lo = (long) c.draw(UINT64_MAX); hi = (long) c.draw(UINT64_MAX); if (lo > hi) std::swap(lo, hi);
	}
	c.desc("seed %lu, between %ld and %ld", seed, lo, hi);
	uint64_t width = (uint64_t) hi - (uint64_t) lo;
	if (width) c.nontrivial();
	bool small = width <= 30;
	std::set<long> seen;
	int n = small ? 1500 : 60;
	bool upper = false, lower = false;
	for (int i = 0; i < n; i++) {
		long v = r.integer(lo, hi), w = twin.integer(lo, hi);
		CHECK(v >= lo && v <= hi, "%ld is not between %ld and %ld", v, lo, hi);
		CHECK(v == w, "the same seed gives %ld and %ld", v, w);
		if (small) seen.insert(v);
		((uint64_t) v - (uint64_t) lo > width / 2 ? upper : lower) = true;
	}
	// Missing one of 31 values in 1500 draws, or a half in 60, has a chance below 1e-17.
	if (small) CHECK(seen.size() == width + 1, "only %zu of %lu values came up in %d draws", seen.size(), width + 1, n);
	else CHECK(upper && lower, "only one half of the range came up in %d draws", n);
}

PROP(rand_stream, 12000, 480000, "at least 100 numbers") {
	uint64_t seed = c.chance(1, 8) ? 4101842887655102017ull + c.draw(2) : c.flip() ? c.draw(100) : c.draw(UINT64_MAX);
	Rand r(seed), twin(seed), other(seed + 1);
	int n = (int) c.size(1, 400);
	c.desc("seed %lu, %d numbers", seed, n);
	if (n >= 100) c.nontrivial();
	std::set<uint64_t> bits;
	uint64_t ones = 0, zeros = 0;
	int same = 0;
	double sum = 0;
	for (int i = 0; i < n; i++) {
		switch (c.draw(3)) {
		case 0: {
			uint64_t a = r.bits(), b = twin.bits();
			CHECK(a == b, "the same seed gives different bits");
			CHECK(bits.insert(a).second, "number %d repeats an earlier one", i);
			ones |= a; zeros |= ~a;
			same += a == other.bits();
			break;
		}
		case 1: {
			double a = r.real(), b = twin.real();
			CHECK(a == b, "the same seed gives different reals");
			CHECK(a >= 0 && a <= 1, "the real %.17g is not in the unit interval", a);
			sum += a;
			break;
		}
		default: {
			long a = r.integer(-1000, 1000), b = twin.integer(-1000, 1000);
			CHECK(a == b, "the same seed gives different integers");
		}
		}
	}
	if (bits.size() >= 100) CHECK(ones == UINT64_MAX && zeros == UINT64_MAX, "some bit never changes");
	CHECK(same <= 1, "two seeds give the same sequence");
}

PROP(hash_bytes, 16000, 640000, "at least thirteen bytes") {
	unsigned n = (unsigned) c.size(0, 100);
	std::vector<unsigned char> data(n);
	bool few = c.flip();
	for (auto &b : data) b = (unsigned char) (few ? c.draw(2) : c.draw(256));
	if (n >= 13) c.nontrivial();
	// room around it, for other bytes
	std::vector<uint64_t> room1(32), room2(32);
	unsigned char *p1 = (unsigned char*) room1.data(), *p2 = (unsigned char*) room2.data();
	for (unsigned i = 0; i < 256; i++) p1[i] = (unsigned char) c.draw(256);
	memset(p2, (int) c.draw(256), 256);
	unsigned o1 = (unsigned) c.range(0, 40), o2 = (unsigned) c.range(0, 40);
	memcpy(p1 + o1, data.data(), n);
	memcpy(p2 + o2, data.data(), n);
	unsigned long h1 = hashbytes(p1 + o1, n), h2 = hashbytes(p2 + o2, n);
	CHECK(h1 == h2, "the same %u bytes hash to %lx at offset %u and %lx at offset %u", n, h1, o1, h2, o2);
	CHECK(memcmp(p1 + o1, data.data(), n) == 0, "hashing changed the bytes");
	CHECK(hashbytes(p1 + o1, n) == h1, "hashing again gives another value");
	if (n > 0) {
		// Every byte counts: of two different changes, one changes the hash
		// (that neither does has a chance below 1e-18).
		unsigned i = (unsigned) c.draw(n);
		unsigned char old = p1[o1 + i];
		p1[o1 + i] = (unsigned char) (old ^ (1 + c.draw(255)));
		bool a = hashbytes(p1 + o1, n) == h1;
		p1[o1 + i] = (unsigned char) (old + 1);
		bool b = hashbytes(p1 + o1, n) == h1;
		p1[o1 + i] = old;
		CHECK(!a || !b, "byte %u of %u does not count", i, n);
		CHECK(hashbytes(p1 + o1, n - 1) != h1 || hashbytes(p2 + o2, n - 1) != h1, "the length %u does not count", n);
	}
}
