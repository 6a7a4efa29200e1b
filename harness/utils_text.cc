// P26: datafiles. P27: encodings. P29: file-system helpers. P32: strings.
#include "pbt.hpp"
#include <functional>
#include <boost/cstdint.hpp>
#include "utils/utils.hpp"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using pbt::Case;
using pbt::strf;

static std::string quoted(const std::string &s) {
	std::string r;
	for (unsigned char ch : s) r += ch >= 32 && ch < 127 ? std::string(1, (char) ch) : strf("\\x%02x", ch);
	return r;
}

// Text without double quotes, newlines and NULs.
static std::string text(Case &c, size_t n) {
	static const std::string plain = "abcxyz012 -_=.:%s\\/'\t#";
	std::string s;
	int kind = (int) c.draw(3);
	for (size_t i = 0; i < n; i++) {
		char ch;
		if (kind == 0) ch = 'a';
		else if (kind == 1) ch = plain[c.draw(plain.size())];
		else ch = (char) (1 + c.draw(255));
		if (ch == '"' || ch == '\n') ch = 'q';
		s += ch;
	}
	return s;
}

// A length, with those that make a line of 240 to 270 more likely.
static size_t length(Case &c, size_t used) {
	switch (c.draw(4)) {
	case 0: return (size_t) c.size(0, 20);
	case 1: { long n = 240 + (long) c.draw(30) - (long) used; return n < 0 ? 0 : (size_t) n; }
	case 2: return (size_t) c.size(0, 300);
	default: return (size_t) c.size(0, 2000);
	}
}

//---------------------------------------------------------------- P26

static void row(FILE *f, const std::string &name, const std::string &fmt, const std::vector<double> &g, const std::vector<long> &d) {
	// The arguments of each column, in order; at most eight columns.
	struct A { bool fl; double g; long d; } a[8] = { };
	for (size_t i = 0; i < fmt.size(); i++) { a[i].fl = fmt[i] == 'g' || fmt[i] == 'f'; a[i].g = g[i]; a[i].d = d[i]; }
	// On this ABI floating-point and integer arguments travel separately, in their own order.
	double gs[8]; long ds[8];
	int ng = 0, nd = 0;
	for (size_t i = 0; i < fmt.size(); i++) if (a[i].fl) gs[ng++] = a[i].g; else ds[nd++] = a[i].d;
	while (ng < 8) gs[ng++] = 0;
	while (nd < 8) ds[nd++] = 0;
	// Three integer registers are taken by f, name and fmt, so at most three integers follow.
	dfrow(f, name.c_str(), fmt.c_str(), ds[0], ds[1], ds[2], gs[0], gs[1], gs[2], gs[3], gs[4], gs[5], gs[6], gs[7]);
}

struct Record { std::vector<std::string> toks; };

static void keep(std::vector<std::string> &line, void *p) { ((std::vector<Record>*) p)->push_back(Record{line}); }

static double number(Case &c) {
	switch (c.draw(5)) {
	case 0: return (double) c.range(-1000, 1000);
	case 1: return (double) c.range(-1000000, 1000000) / 1024;
	case 2: { double v = c.flip() ? DBL_MAX : DBL_MIN; return c.flip() ? -v : v; }
	case 3: return ldexp(c.real(), (int) c.range(-1000, 1000));
	default: { static const double v[] = { 0, -0.0, INFINITY, -INFINITY, 1e15, 1e-5, 123456.5, 1e300 }; return v[c.draw(8)]; }
	}
}

PROP(datafile_records, 12000, 480000, "a line of at least 250 bytes") {
	char *buf = NULL;
	size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	std::string want;
	std::vector<Record> recs;
	int n = (int) c.size(1, 6);
	bool big = false;
	for (int i = 0; i < n; i++) {
		std::string line;
		Record rec;
		switch (c.draw(4)) {
		case 0: case 1: {
			std::string key = text(c, length(c, 11)), val = text(c, length(c, key.size() + 12));
			line = "#pair  \"" + key + "\"\t\"" + val + "\"\n";
			rec.toks = { "#pair", key, val };
			c.desc("pair %zu+%zu;", key.size(), val.size());
			// several ways to format the same value
			switch (c.draw(3)) {
			case 0: dfpair(f, key.c_str(), "%s", val.c_str()); break;
			case 1: { size_t k = val.size() / 2; dfpair(f, key.c_str(), "%s%s", val.substr(0, k).c_str(), val.substr(k).c_str()); break; }
			default: {
				long d = (long) c.draw(UINT64_MAX); double g = number(c);
				line = "#pair  \"" + key + "\"\t\"" + val + strf("%ld %g %u", d, g, (unsigned) d) + "\"\n";
				rec.toks[2] = val + strf("%ld %g %u", d, g, (unsigned) d);
				dfpair(f, key.c_str(), "%s%ld %g %u", val.c_str(), d, g, (unsigned) d);
			}
			}
			c.label("pairs");
			break;
		}
		case 2: {
			std::string name = text(c, length(c, 12)), col[8];
			unsigned k = (unsigned) c.range(0, 8);
			line = "#altcols  \"" + name + "\"";
			rec.toks = { "#altcols", name };
			for (unsigned j = 0; j < k; j++) {
				col[j] = text(c, (size_t) c.size(0, 60));
				line += "\t\"" + name + " " + col[j] + "\"";
				rec.toks.push_back(name + " " + col[j]);
			}
			line += "\n";
			c.desc("header of %u columns, %zu bytes;", k, line.size());
			dfrowhdr(f, name.c_str(), k, col[0].c_str(), col[1].c_str(), col[2].c_str(), col[3].c_str(),
				col[4].c_str(), col[5].c_str(), col[6].c_str(), col[7].c_str());
			c.label("headers");
			break;
		}
		default: {
			std::string name = text(c, length(c, 12)), fmt;
			std::vector<double> g;
			std::vector<long> d;
			line = "#altrow  \"" + name + "\"";
			rec.toks = { "#altrow", name };
			int k = (int) c.range(0, 8), ints = 0;
			for (int j = 0; j < k; j++) {
				char t = "gfdu"[c.draw(4)];
				if ((t == 'd' || t == 'u') && ++ints > 3) t = 'g';
				fmt += t;
				g.push_back(number(c));
				d.push_back(c.flip() ? (long) c.draw(UINT64_MAX) : c.range(-100, 100));
				std::string v = t == 'g' ? strf("%g", g[j]) : t == 'f' ? strf("%f", g[j]) : t == 'd' ? strf("%ld", d[j]) : strf("%lu", d[j]);
				line += "\t" + v;
				rec.toks.push_back(v);
			}
			line += "\n";
			c.desc("row %s, %zu bytes;", fmt.c_str(), line.size());
			row(f, name, fmt, g, d);
			c.label("rows");
		}
		}
		want += line;
		recs.push_back(rec);
		big |= line.size() >= 250;
	}
	if (big) c.nontrivial();
	fflush(f);
	std::string got(buf, len);
	size_t at = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin();
	CHECK(got == want, "wrote %zu bytes, not %zu; they differ from byte %zu: \"%s\" instead of \"%s\"", got.size(), want.size(), at,
		quoted(got.substr(at > 20 ? at - 20 : 0, 60)).c_str(), quoted(want.substr(at > 20 ? at - 20 : 0, 60)).c_str());
	fclose(f);
	free(buf);

	// And reading it gives the values back. Other lines are passed over.
	std::string in, echo;
	for (size_t i = 0, j = 0; i < want.size(); i = j) {
		j = want.find('\n', i) + 1;
		if (c.chance(1, 4)) in += "some \"other line\n";
		in += want.substr(i, j - i);
	}
	if (c.flip() && !in.empty()) in.resize(in.size() - 1);	// no newline at the end
	FILE *src = fmemopen((void*) in.data(), in.size(), "r");
	char *ebuf = NULL; size_t elen = 0;
	FILE *ef = c.flip() ? open_memstream(&ebuf, &elen) : NULL;
	std::vector<Record> seen;
	dfread(src, keep, &seen, ef);
	fclose(src);
	CHECK(seen.size() == recs.size(), "read %zu records, not %zu", seen.size(), recs.size());
	for (size_t i = 0; i < recs.size(); i++) {
		CHECK(seen[i].toks.size() == recs[i].toks.size(), "record %zu: read %zu fields, not %zu", i, seen[i].toks.size(), recs[i].toks.size());
		for (size_t j = 0; j < recs[i].toks.size(); j++)
			CHECK(seen[i].toks[j] == recs[i].toks[j], "record %zu field %zu: read \"%s\", not \"%s\"", i, j,
				quoted(seen[i].toks[j]).c_str(), quoted(recs[i].toks[j]).c_str());
	}
	if (ef) {
		fclose(ef);
		std::string e(ebuf, elen);
		if (in.back() != '\n') in += '\n';
		CHECK(e == in, "the echo differs from the input");
		free(ebuf);
	}
}

// Rows of many columns, and files of many lines.
PROP(datafile_wide, 1500, 40000, "a record of more than forty fields, or more than a hundred records") {
	std::string in;
	std::vector<Record> recs, seen;
	int n = (int) (c.chance(1, 10) ? c.range(100, 2000) : c.size(1, 8));
	bool wide = n > 100;
	for (int i = 0; i < n; i++) {
		Record r;
		if (c.chance(1, 4)) {
			char *buf = NULL;
			size_t len = 0;
			FILE *f = open_memstream(&buf, &len);
			double g[24];
			for (double &v : g) v = number(c);
			std::string fmt((size_t) c.range(8, 24), 'g'), line = "#altrow  \"r\"";
			dfrow(f, "r", fmt.c_str(), g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11],
				g[12], g[13], g[14], g[15], g[16], g[17], g[18], g[19], g[20], g[21], g[22], g[23]);
			fclose(f);
			std::string got(buf, len);
			free(buf);
			r.toks = { "#altrow", "r" };
			for (size_t j = 0; j < fmt.size(); j++) { r.toks.push_back(strf("%g", g[j])); line += "\t" + r.toks.back(); }
			CHECK(got == line + "\n", "wrote \"%s\", not \"%s\"", quoted(got).c_str(), quoted(line).c_str());
			in += got;
		} else {
			static const char *kinds[] = { "#pair", "#altcols", "#altrow" };
			r.toks = { kinds[c.draw(3)] };
			in += r.toks[0];
			int k = (int) (c.flip() && n < 100 ? c.range(40, 400) : c.range(1, 9));
			wide |= k > 40;
			for (int j = 0; j < k; j++) {
				bool q = c.flip();
				std::string t = strf("%s%ld", q ? "a " : "", (long) c.draw(1000000));
				in += std::string((size_t) c.range(1, 2), c.flip() ? ' ' : '\t') + (q ? "\"" + t + "\"" : t);
				r.toks.push_back(t);
			}
			in += '\n';
		}
		recs.push_back(r);
		if (c.chance(1, 6)) in += "12 13 #pair\n\n";
	}
	if (wide) c.nontrivial();
	c.desc("%d records, %zu bytes", n, in.size());
	FILE *src = fmemopen((void*) in.data(), in.size(), "r");
	dfread(src, keep, &seen, NULL);
	fclose(src);
	CHECK(seen.size() == recs.size(), "read %zu records, not %zu", seen.size(), recs.size());
	for (size_t i = 0; i < recs.size(); i++)
		CHECK(seen[i].toks == recs[i].toks, "record %zu: %zu fields are read of %zu, or others", i, seen[i].toks.size(), recs[i].toks.size());
}

// A whole file, also when what is written is looked at before it is closed.
PROP(datafile_file, 600, 16000, "at least three records") {
	std::string path = pbt::scratch() + "/df";
	FILE *f = fopen(path.c_str(), "w");
	int n = (int) c.size(0, 10);
	if (n >= 3) c.nontrivial();
	dfheader(f);
	for (int i = 0; i < n; i++) dfpair(f, "k", "%d", i);
	if (c.flip()) dfprocstatus(f);
	dffooter(f);
	fclose(f);
	f = fopen(path.c_str(), "r");
	char line[4096];
	std::vector<std::string> lines;
	while (fgets(line, sizeof line, f)) lines.push_back(line);
	fclose(f);
	CHECK(lines.size() >= 2, "only %zu lines", lines.size());
	CHECK(lines.front() == "#start data file format 4\n", "starts with %s", lines.front().c_str());
	CHECK(lines.back() == "#end data file format 4\n", "ends with %s", lines.back().c_str());
	int k = 0;
	std::map<std::string, int> cnt;
	for (size_t i = 1; i + 1 < lines.size(); i++) {
		const std::string &l = lines[i];
		CHECK(l.compare(0, 8, "#pair  \"") == 0 && l.size() >= 13 && l.compare(l.size() - 2, 2, "\"\n") == 0, "line %zu is %s", i, l.c_str());
		size_t mid = l.find("\"\t\"");
		CHECK(mid != std::string::npos && std::count(l.begin(), l.end(), '"') == 4, "line %zu is %s", i, l.c_str());
		std::string key = l.substr(8, mid - 8), val = l.substr(mid + 3, l.size() - mid - 5);
		cnt[key]++;
		if (key == "k") { CHECK(val == strf("%d", k), "the value %s instead of %d", val.c_str(), k); k++; }
		if (key == "max virtual kilobytes") CHECK(strtol(val.c_str(), NULL, 10) > 0, "%s kilobytes", val.c_str());
	}
	CHECK(k == n, "%d of %d pairs", k, n);
	for (const char *key : { "wall start date", "wall start time", "machine id", "wall finish time", "wall finish date" })
		CHECK(cnt[key] == 1, "%d pairs for %s", cnt[key], key);
}

//---------------------------------------------------------------- P27

static std::string bytes(Case &c) {
	std::string s;
	int kind = (int) c.draw(4);
	size_t n = (size_t) (c.chance(1, 50) ? c.range(1000, 20000) : c.chance(1, 5) ? c.range(0, 1000) : c.size(0, 300));
	while (s.size() < n) {
		if (kind == 0) s += (char) c.draw(256);
		else if (kind == 1) s += (char) (c.draw(2) ? 0 : 255);
		else if (kind == 2) {	// runs, with lengths around the limits
			long k = c.flip() ? c.range(1, 5) : c.range(124, 132);
			if (c.chance(1, 6)) k = 250 + (long) c.draw(10);
			s.append((size_t) k, (char) (c.flip() ? c.draw(256) : c.draw(3)));
		} else {	// stretches without a run
			long k = c.flip() ? c.range(1, 5) : c.range(124, 132);
			for (long i = 0; i < k; i++) s += (char) (i % 2 ? 'a' : 'b' + i % 7);
		}
	}
	return s;
}

PROP(encode_runlen, 12000, 480000, "at least 127 bytes") {
	std::string s = bytes(c);
	if (s.size() >= 127) c.nontrivial();
	std::string e = runlenenc(s);
	// A decoder for PostScript's RunLengthDecode filter.
	std::string d;
	for (size_t i = 0; i < e.size(); ) {
		unsigned n = (unsigned char) e[i++];
		CHECK(n != 128, "an end mark amid the data");
		if (n < 128) {
			CHECK(i + n + 1 <= e.size(), "a literal of %u beyond the end", n + 1);
			d.append(e, i, n + 1);
			i += n + 1;
		} else {
			CHECK(i < e.size(), "a run without its byte");
			d.append(257 - n, e[i++]);
		}
	}
	CHECK(d == s, "%zu bytes encode to something that decodes to %zu bytes: \"%.60s...\"", s.size(), d.size(), quoted(s).c_str());
	CHECK(runlendec(e) == s, "%zu bytes do not survive encoding and decoding", s.size());
	CHECK(e.size() <= s.size() + s.size() / 64 + 2, "%zu bytes grow to %zu", s.size(), e.size());
	// And what is all the same gets short.
	std::string same((size_t) c.range(3, 2000), (char) c.draw(256));
	e = runlenenc(same);
	CHECK(e.size() <= 3 * (same.size() / 100 + 1), "%zu equal bytes encode to %zu", same.size(), e.size());
	CHECK(runlendec(e) == same, "%zu equal bytes do not survive encoding and decoding", same.size());
}

static const char *b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

PROP(encode_base64, 12000, 480000, "a tail of one or two bytes") {
	std::string s = bytes(c), want;
	if (s.size() % 3) c.nontrivial();
	// Bit by bit.
	unsigned acc = 0; int nb = 0;
	for (unsigned char ch : s) {
		acc = acc << 8 | ch; nb += 8;
		while (nb >= 6) { want += b64[acc >> (nb - 6) & 63]; nb -= 6; }
	}
	if (nb) want += b64[acc << (6 - nb) & 63];
	while (want.size() % 4) want += '=';
	std::string e = base64enc(s);
	CHECK(e == want, "%zu bytes encode to \"%s\", not \"%s\"", s.size(), quoted(e).c_str(), want.c_str());
	CHECK(base64dec(e) == s, "%zu bytes do not survive encoding and decoding", s.size());
}

PROP(encode_ascii85, 12000, 480000, "a tail of one to three bytes") {
	std::string s = bytes(c);
	if (s.size() % 4) c.nontrivial();
	std::string e = ascii85enc(s);
	std::string d;
	unsigned long acc = 0; int n = 0;
	for (char ch : e) {
		if (ch == 'z') {
			CHECK(n == 0, "a z inside a group");
			d.append(4, '\0');
			continue;
		}
		CHECK(ch >= '!' && ch <= 'u', "the character \\x%02x", (unsigned char) ch);
		acc = acc * 85 + (unsigned) (ch - '!');
		if (++n == 5) {
			CHECK(acc <= 0xffffffffu, "a group beyond 2^32");
			for (int k = 3; k >= 0; k--) d += (char) (acc >> 8 * k);
			acc = 0; n = 0;
		}
	}
	CHECK(n != 1, "a single character at the end");
	if (n) {
		int k = n;
		for (; n < 5; n++) acc = acc * 85 + 84;
		CHECK(acc <= 0xffffffffu, "a group beyond 2^32");
		for (int b = 3; b > 4 - k; b--) d += (char) (acc >> 8 * b);
	}
	CHECK(d == s, "%zu bytes do not decode to themselves: \"%s\"", s.size(), quoted(e).c_str());
}

//---------------------------------------------------------------- P32

PROP(string_tokens, 12000, 480000, "at least two tokens, one of them quoted") {
	int n = (int) c.size(0, 8), nq = 0;
	bool many = c.chance(1, 60), longer = !many && c.chance(1, 60);
	if (many) n = (int) c.range(50, 400);
	std::vector<std::string> want;
	std::string s;
	auto space = [&](bool some) {
		int k = (int) c.range(some, 3);
		for (int i = 0; i < k; i++) s += " \t \n\v\f\r"[c.draw(7)];
	};
	space(false);
	bool closed = true;	// a quoted token need not be followed by space
	for (int i = 0; i < n; i++) {
		if (i) space(!closed);
		std::string t;
		int k = (int) (longer && c.flip() ? c.range(100, 2000) : c.size(0, 12));
		bool q = c.flip();
		for (int j = 0; j < k; j++) {
			char ch = c.flip() ? (char) ('a' + c.draw(26)) : (char) (1 + c.draw(255));
			if (ch == '"') ch = 'q';
			if (!q && isspace((unsigned char) ch)) ch = '_';
			t += ch;
		}
		if (t.empty()) q = true;
		s += q ? "\"" + t + "\"" : t;
		closed = q;
		nq += q;
		want.push_back(t);
	}
	space(false);
	c.desc("\"%.400s\"", quoted(s).c_str());
	if (many || longer) c.label("long");
	if (n >= 2 && nq) c.nontrivial();
	std::vector<std::string> got = tokens(s);
	CHECK(got.size() == want.size(), "%zu tokens, not %zu", got.size(), want.size());
	for (size_t i = 0; i < want.size(); i++)
		CHECK(got[i] == want[i], "token %zu is \"%s\", not \"%s\"", i, quoted(got[i]).c_str(), quoted(want[i]).c_str());

	// One at a time; how a token ends shows where the next can start.
	std::vector<char> buf(s.begin(), s.end());
	buf.push_back('\0');
	char *left = buf.data(), *end = buf.data() + s.size();
	for (size_t i = 0; i <= want.size(); i++) {
		char *t = left < end ? gettoken(left, (unsigned) c.draw(2)) : NULL;
		if (i == want.size()) { CHECK(!t, "a token too many: \"%s\"", t); break; }
		CHECK(t, "no token %zu", i);
		CHECK(t >= left && t <= end, "token %zu is outside the string", i);
		CHECK(want[i] == t, "token %zu is \"%s\", not \"%s\"", i, quoted(t).c_str(), quoted(want[i]).c_str());
		left = t + strlen(t) + 1;
	}

	// An unclosed quote is an error.
	if (c.chance(1, 20)) {
		std::string bad = s + (s.empty() ? "\"" : " \"") + (c.flip() ? "abc" : "");
		std::string err;
		int st = c.sub([&] { tokens(bad); _exit(77); }, &err);
		CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77, "a missing quote is not refused");
		CHECK(err.find("quote") != std::string::npos, "a missing quote is refused with \"%s\"", err.c_str());
	}
}

PROP(string_prefix, 8000, 320000, "a prefix of at least two characters") {
	std::string a = text(c, (size_t) (c.chance(1, 8) ? c.range(20, 600) : c.size(0, 20))), b;
	int kind = (int) c.draw(3);
	if (kind == 0) b = a.substr(0, c.draw(a.size() + 1));
	else if (kind == 1) { b = a.substr(0, c.draw(a.size() + 1)); if (!b.empty()) b[c.draw(b.size())] ^= 1; }
	else b = a + text(c, (size_t) c.size(0, 3));
	if (b.find('\0') != std::string::npos) c.discard();
	if (b.size() >= 2) c.nontrivial();
	bool want = a.compare(0, b.size(), b) == 0;
	CHECK(hasprefix(a.c_str(), b.c_str()) == want, "\"%s\" %s \"%s\"", quoted(a).c_str(), want ? "has not the prefix" : "has the prefix", quoted(b).c_str());
}

PROP(string_commas, 12000, 480000, "a number of at least four digits") {
	std::string plain, got;
	double d = ldexp(c.real() * (c.flip() ? -1 : 1), (int) c.range(0, 100));
	long l = (long) c.draw(UINT64_MAX) >> c.draw(64);
	switch (c.draw(6)) {
	case 0: plain = strf("%d", (int) l); got = commas("%d", (int) l); break;
	case 1: plain = strf("%ld", l); got = commas("%ld", l); break;
	case 2: plain = strf("%lu", (unsigned long) l); got = commas("%lu", (unsigned long) l); break;
	case 3: plain = strf("%u", (unsigned) l); got = commas("%u", (unsigned) l); break;
	case 4: plain = strf("%f", d); got = commas("%f", d); break;
	default: { int p = (int) c.range(0, 6); plain = strf("%.*f", p, d); got = commas("%.*f", p, d); }
	}
	// Every third digit, counted from the point.
	size_t point = std::min(plain.find('.'), plain.size()), first = plain[0] == '-';
	std::string want;
	for (size_t i = 0; i < plain.size(); i++) {
		if (i > first && i < point && (point - i) % 3 == 0) want += ',';
		want += plain[i];
	}
	if (point - first >= 4) c.nontrivial();
	CHECK(got == want, "%s becomes %s, not %s", plain.c_str(), got.c_str(), want.c_str());
}

PROP(string_errors, 1000, 24000, "a message of at least ten characters") {
	std::string msg = text(c, (size_t) c.size(0, 240)), want = msg, err;
	if (msg.size() >= 10) c.nontrivial();
	int num = (int) c.range(1, 40), kind = (int) c.draw(4);
	int st = c.sub([&] {
		switch (kind) {
		case 0: warn("%s", msg.c_str()); break;
		case 1: if (msg.size() < 150) warnx(num, "%s", msg.c_str()); else _exit(78); break;
		case 2: fatal("%s", msg.c_str()); break;
		default: if (msg.size() < 150) fatalx(num, "%s", msg.c_str()); else _exit(78);
		}
		_exit(77);
	}, &err);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 78) c.discard();
	if (kind == 1 || kind == 3) want += std::string(": ") + strerror(num);
	CHECK(WIFEXITED(st) && (kind < 2 ? WEXITSTATUS(st) == 77 : WEXITSTATUS(st) == 1), "ends with status %d", st);
	size_t k = std::min(want.size(), (size_t) 200);
	CHECK(err.compare(0, k, want, 0, k) == 0, "prints \"%s\", not \"%s\"", quoted(err).c_str(), quoted(want).c_str());
}

//---------------------------------------------------------------- P29

static std::string component(Case &c) {
	static const char *special[] = { ".", "..", "a", "...", ".hidden", "a b", "-", "KEY=a" };
	if (c.chance(1, 3)) return special[c.draw(8)];
	std::string s;
	int n = (int) c.range(1, 6);
	for (int i = 0; i < n; i++) s += "abcdXYZ019._-= "[c.draw(15)];
	return s;
}

static std::string rawpath(Case &c) {
	std::string s;
	int n = (int) c.size(0, 5);
	if (c.chance(1, 3)) s.append((size_t) c.range(1, 3), '/');
	for (int i = 0; i < n; i++) {
		if (i) s.append(c.chance(1, 4) ? (size_t) c.range(2, 3) : 1, '/');
		s += component(c);
	}
	if (n && c.chance(1, 4)) s.append((size_t) c.range(1, 2), '/');
	return s;
}

// The names that a path goes through; whether it starts at the root.
static std::pair<bool, std::vector<std::string>> meaning(const std::string &p) {
	std::pair<bool, std::vector<std::string>> m;
	m.first = !p.empty() && p[0] == '/';
	size_t i = 0;
	while (i < p.size()) {
		size_t j = std::min(p.find('/', i), p.size());
		std::string s = p.substr(i, j - i);
		if (!s.empty() && s != ".") m.second.push_back(s);
		i = j + 1;
	}
	return m;
}

PROP(fs_paths, 16000, 640000, "a path with at least one slash") {
	std::string p = rawpath(c);
	c.desc("\"%s\"", p.c_str());
	if (p.find('/') != std::string::npos) c.nontrivial();
	std::string d = dirname(p), b = basename(p);
	size_t slash = p.rfind('/');
	CHECK(!d.empty() && !b.empty(), "an empty part");
	CHECK(b.find('/') == std::string::npos, "the last entry is \"%s\"", b.c_str());
	if (slash == std::string::npos) {
		CHECK(d == ".", "the directory of \"%s\" is \"%s\"", p.c_str(), d.c_str());
		CHECK(b == (p.empty() ? "." : p), "the last entry of \"%s\" is \"%s\"", p.c_str(), b.c_str());
	} else {
		std::string after = p.substr(slash + 1);
		CHECK(b == (after.empty() ? "." : after), "the last entry of \"%s\" is \"%s\"", p.c_str(), b.c_str());
		CHECK(meaning(d) == meaning(p.substr(0, slash + 1)), "the directory of \"%s\" is \"%s\"", p.c_str(), d.c_str());
	}
	// Joined again, they name the same place.
	std::string j = pathcat(d, b);
	CHECK(meaning(j) == meaning(p), "\"%s\" splits and joins to \"%s\"", p.c_str(), j.c_str());

	// Joining in general.
	std::string q = rawpath(c);
	while (!q.empty() && q[0] == '/') q.erase(0, 1);
	auto w = meaning(p);
	auto m2 = meaning(q);
	w.second.insert(w.second.end(), m2.second.begin(), m2.second.end());
	CHECK(meaning(pathcat(p, q)) == w, "\"%s\" and \"%s\" join to \"%s\"", p.c_str(), q.c_str(), pathcat(p, q).c_str());
	std::string r = component(c), n3 = pathcatn(3, p.c_str(), q.c_str(), r.c_str());
	if (r != ".") w.second.push_back(r);
	CHECK(meaning(n3) == w, "\"%s\", \"%s\" and \"%s\" join to \"%s\"", p.c_str(), q.c_str(), r.c_str(), n3.c_str());
}

PROP(fs_lines, 12000, 480000, "at least two lines") {
	std::string s;
	std::vector<std::string> want;
	int n = (int) (c.chance(1, 60) ? c.range(100, 300) : c.size(0, 8));
	if (n >= 2) c.nontrivial();
	for (int i = 0; i < n; i++) {
		std::string l;
		if (n < 50 && c.chance(1, 100)) l.assign((size_t) c.range(1000, 20000), c.pick(std::vector<char>{'a', ' ', '\t', '\r'}));
		int k = (int) c.size(0, 40);
		for (int j = 0; j < k; j++) { char ch = (char) (1 + c.draw(255)); l += ch == '\n' ? 'x' : ch; }
		if (c.chance(1, 8)) l += '\r';
		bool last = i == n - 1, cr = c.chance(1, 4) || (!l.empty() && l.back() == '\r'), nl = !last || c.flip();
		s += l;
		if (cr) s += '\r';
		if (nl) s += '\n';
		else if (l.empty() && !cr) continue;	// nothing at all
		want.push_back(l);
	}
	c.desc("\"%.400s\"", quoted(s).c_str());
	std::string path = pbt::scratch() + "/lines";
	FILE *f = fopen(path.c_str(), "w");
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
	f = fopen(path.c_str(), "r");
	for (size_t i = 0; i <= want.size(); i++) {
		auto l = readline(f);
		if (i == want.size()) { CHECK(!l, "a line too many"); break; }
		CHECK((bool) l, "only %zu of %zu lines", i, want.size());
		CHECK(*l == want[i], "line %zu is \"%s\", not \"%s\"", i, quoted(*l).c_str(), quoted(want[i]).c_str());
	}
	CHECK(!readline(f), "a line after the end");
	fclose(f);
}

// A model of a directory tree: path -> kind ('d', 'f', or 'l' for a link to the directory "out").
struct Tree {
	std::string root;
	std::map<std::string, char> m;
	static size_t count(const std::string &dir) {
		size_t n = 0;
		DIR *d = opendir(dir.c_str());
		while (struct dirent *e = d ? ::readdir(d) : NULL) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			n++;
			if (e->d_type == DT_DIR) n += count(dir + "/" + e->d_name);
		}
		if (d) closedir(d);
		return n;
	}
	void check(Case &c, const char *after) {
		for (auto &e : m) {
			struct stat sb;
			std::string p = root + "/" + e.first;
			CHECK(lstat(p.c_str(), &sb) == 0, "after %s, %s is gone", after, e.first.c_str());
			char k = S_ISDIR(sb.st_mode) ? 'd' : S_ISLNK(sb.st_mode) ? 'l' : 'f';
			CHECK(k == e.second, "after %s, %s is of another kind", after, e.first.c_str());
		}
		size_t n = count(root);
		CHECK(n == m.size(), "after %s there are %zu entries, not %zu", after, n, m.size());
	}
};

PROP(fs_tree, 1000, 40000, "at least four entries made") {
	pbt::clearscratch();
	Tree t;
	t.root = pbt::scratch() + "/root";
	mkdir(t.root.c_str(), 0777);
	// the directory that links point to, with something in it
	mkdir((t.root + "/out").c_str(), 0777);
	fclose(fopen((t.root + "/out/keep").c_str(), "w"));
	t.m["out"] = 'd'; t.m["out/keep"] = 'f';
	CHECK(chdir(t.root.c_str()) == 0, "no scratch directory");
	auto name = [&] { return std::string(1, (char) ('a' + c.draw(3))) + (c.chance(1, 5) ? " x" : ""); };
	int n = (int) c.size(1, 14), made = 0;
	for (int i = 0; i < n; i++) {
		std::string rel;
		int depth = (int) c.range(1, 4);
		for (int k = 0; k < depth; k++) rel += (k ? "/" : "") + name();
		// the part of it that is already there
		bool blocked = false, viaLink = false;
		std::string up;
		for (size_t k = 0; k < rel.size(); k++) if (rel[k] == '/') {
			std::string pre = rel.substr(0, k);
			if (t.m.count(pre) && t.m[pre] == 'f') blocked = true;
			if (t.m.count(pre) && t.m[pre] == 'l') viaLink = true;
		}
		std::string path = c.flip() ? rel : t.root + "/" + rel;
		if (blocked) {	// nothing is below a file
			CHECK(!fileexists(path), "fileexists of %s, below a file, is wrong", path.c_str());
			CHECK(!isdir(path), "isdir of %s, below a file, is wrong", path.c_str());
			c.label("below a file");
		}
		if (blocked || viaLink) continue;
		std::string dir = rel.find('/') == std::string::npos ? "" : rel.substr(0, rel.rfind('/'));
		switch (c.draw(6)) {
		case 0: case 1: case 2: {	// make the parents, and then a file, a directory or a link
			bool slash = c.chance(1, 5);	// all of it is the directory then
			ensuredir(slash ? path + "/" : path);
			std::string upto = slash ? rel : dir;
			if (slash && t.m.count(rel) && t.m[rel] != 'd') break;
			for (size_t k = 1; k <= upto.size(); k++)
				if (k == upto.size() || upto[k] == '/') { if (!t.m.count(upto.substr(0, k))) made++; t.m[upto.substr(0, k)] = 'd'; }
			if (!t.m.count(rel)) {
				made++;
				if (c.chance(1, 4)) {
					CHECK(symlink((t.root + "/out").c_str(), (t.root + "/" + rel).c_str()) == 0, "no link");
					t.m[rel] = 'l';
				} else if (c.flip()) {
					FILE *f = fopen(path.c_str(), "w");
					CHECK(f, "after ensuredir, %s cannot be made", path.c_str());
					fclose(f);
					t.m[rel] = 'f';
				}
			}
			t.check(c, ("ensuredir " + path).c_str());
			break;
		}
		case 3: {
			bool ok = rmrecur(path);
			CHECK(ok, "rmrecur of %s fails", path.c_str());
			for (auto it = t.m.begin(); it != t.m.end(); )
				if (it->first == rel || it->first.compare(0, rel.size() + 1, rel + "/") == 0) it = t.m.erase(it); else ++it;
			t.check(c, ("rmrecur " + path).c_str());
			c.label("removals");
			break;
		}
		case 4: {
			CHECK(fileexists(path) == (t.m.count(rel) > 0), "fileexists of %s is wrong", path.c_str());
			bool d = t.m.count(rel) && t.m[rel] != 'f';
			CHECK(isdir(path) == d, "isdir of %s is wrong", path.c_str());
			break;
		}
		default: {
			if (!t.m.count(rel) || t.m[rel] != 'd') { rel = ""; path = c.flip() ? t.root : "."; }
			std::set<std::string> want;
			std::string pre = rel.empty() ? "" : rel + "/";
			for (auto &e : t.m)
				if (e.first.size() > pre.size() && e.first.compare(0, pre.size(), pre) == 0 && e.first.find('/', pre.size()) == std::string::npos)
					want.insert(e.first.substr(pre.size()));
			bool cat = c.flip(), slash = c.flip();
			std::vector<std::string> got = readdir(slash ? path + "/" : path, cat);
			std::set<std::string> gs;
			for (auto &e : got) {
				if (cat) {
					CHECK(e.compare(0, path.size() + 1, path + "/") == 0, "listing %s gives %s", path.c_str(), e.c_str());
					gs.insert(e.substr(path.size() + 1));
				} else gs.insert(e);
			}
			CHECK(got.size() == want.size() && gs == want, "listing %s gives %zu entries, not %zu", path.c_str(), got.size(), want.size());
			c.label("listings");
		}
		}
	}
	if (made >= 4) c.nontrivial();
	CHECK(chdir(pbt::scratch().c_str()) == 0, "no scratch directory");
	pbt::clearscratch();
}

// Directories with many entries, and deep ones.
PROP(fs_large, 60, 2400, "at least 100 entries in a directory") {
	pbt::clearscratch();
	std::string root = pbt::scratch() + "/root";
	int depth = (int) c.size(1, 60);
	std::string deep = root;
	for (int i = 0; i < depth; i++) deep = pathcat(deep, c.pick(std::vector<std::string>{"d", "dir", "a b", "..x"}));
	ensuredir(deep + "/x");
	struct stat sb;
	CHECK(stat(deep.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "%d levels are not made", depth);
	int n = (int) c.size(0, 700);
	if (n >= 100) c.nontrivial();
	c.desc("%d entries %d levels down", n, depth);
	std::set<std::string> want;
	for (int i = 0; i < n; i++) {
		std::string b = strf("%d", i) + (c.chance(1, 4) ? std::string((size_t) c.range(1, 150), 'n') : "");
		want.insert(b);
		std::string p = pathcat(deep, b);
		if (c.chance(1, 8)) { ensuredir(p + "/x"); continue; }
		FILE *f = fopen(p.c_str(), "w");
		CHECK(f, "cannot make %s", p.c_str());
		fclose(f);
	}
	std::vector<std::string> got = readdir(deep, false);
	CHECK(got.size() == want.size() && std::set<std::string>(got.begin(), got.end()) == want, "a listing gives %zu entries, not %zu", got.size(), want.size());
	for (auto &b : want) CHECK(fileexists(pathcat(deep, b)), "%s is not seen", b.c_str());
	std::string gone = c.flip() ? root : deep;
	CHECK(rmrecur(gone), "removing fails");
	CHECK(stat(gone.c_str(), &sb) != 0, "after removing it, it is there");
	CHECK(gone == root || stat(dirname(gone).c_str(), &sb) == 0, "the directory above is gone, too");
	pbt::clearscratch();
}
