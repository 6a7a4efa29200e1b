// P34: the results database.
#include "pbt.hpp"
#include "prog.hpp"
#include <functional>
#include <boost/cstdint.hpp>
#include <boost/optional.hpp>
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include <algorithm>
#include <map>
#include <set>

using pbt::Case;
using pbt::strf;
using prog::shown;

typedef std::map<std::string, std::string> Map;
typedef std::vector<std::pair<std::string, std::string>> Pairs;

static std::string word(Case &c, bool key) {
	static const std::vector<std::string> odd = { " ", "=", ".", "-", "KEY=", "KEY", "key", "~", "*", "\\", "\xc3\xa9", "#", "%s", "..", "_", "'", ":", "0.5" };
	std::string s;
	do {
		int n = 1 + (int) c.draw(4);
		s = "";
		for (int i = 0; i < n; i++)
			if (c.chance(1, 3)) s += c.pick(odd);
			else s += (char) ('a' + c.draw(4));
	} while (false);
	if (!key && (s == "." || s == ".." || s.compare(0, 4, "KEY=") == 0)) s = "v" + s;
	return s;
}

static std::vector<std::string> words(Case &c, size_t n, bool key) {
	std::vector<std::string> v;
	while (v.size() < n) {
		std::string w = word(c, key);
		while (std::find(v.begin(), v.end(), w) != v.end() || w == "UNSPECIFIED") w += (char) ('a' + v.size());
		v.push_back(w);
	}
	return v;
}

template<class T> static void shuffle(Case &c, std::vector<T> &v) {
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[i - 1 - c.draw(i)]);
}

static Pairs pairsof(RdbAttrs a) {
	Pairs p;
	for (auto &k : a.getkeys()) p.push_back({ k, a.lookup(k) });
	return p;
}

static std::string show(const Pairs &p) {
	std::string s = "{";
	for (auto &x : p) s += " '" + x.first + "'='" + x.second + "'";
	return s + " }";
}
static Pairs listof(const Map &m) { return Pairs(m.begin(), m.end()); }

static RdbAttrs attrsof(const Pairs &p) {
	RdbAttrs a;
	for (auto &x : p) a.push_back(x.first, x.second);
	return a;
}

//---------------------------------------------------------------- attributes

PROP(rdb_attrs, 6000, 240000, "at least five operations that change the list") {
	RdbAttrs a;
	Pairs m;
	bool many = c.chance(1, 8);
	std::vector<std::string> keys = words(c, 1 + c.draw(many ? 30 : 6), true);
	int n = (int) c.size(1, many ? 120 : 40), changed = 0;
	for (int i = 0; i < n; i++) {
		std::string k = c.pick(keys), v = strf("v%d", i);
		auto it = std::find_if(m.begin(), m.end(), [&](const std::pair<std::string, std::string> &x) { return x.first == k; });
		bool has = it != m.end();
		switch (c.draw(5)) {
		case 0:
			c.desc("push_back %s=%s; ", k.c_str(), v.c_str());
			CHECK(a.push_back(k, v) == !has, "push_back of a key that is %spresent", has ? "" : "not ");
			if (!has) { m.push_back({ k, v }); changed++; }
			break;
		case 1:
			c.desc("push_front %s=%s; ", k.c_str(), v.c_str());
			CHECK(a.push_front(k, v) == !has, "push_front of a key that is %spresent", has ? "" : "not ");
			if (!has) { m.insert(m.begin(), { k, v }); changed++; }
			break;
		case 2:
			c.desc("rm %s; ", k.c_str());
			CHECK(a.rm(k) == has, "rm of a key that is %spresent", has ? "" : "not ");
			if (has) { m.erase(it); changed++; }
			break;
		case 3:
			if (m.empty()) break;
			c.desc("pop_front; ");
			CHECK(a.front() == m[0].first, "the front is %s, not %s", a.front().c_str(), m[0].first.c_str());
			a.pop_front();
			m.erase(m.begin());
			changed++;
			break;
		default:
			CHECK(a.mem(k) == has, "mem(%s)", k.c_str());
			if (has) CHECK(a.lookup(k) == it->second, "lookup(%s)=%s instead of %s", k.c_str(), a.lookup(k).c_str(), it->second.c_str());
		}
		CHECK(a.size() == m.size(), "%u attributes, not %zu", a.size(), m.size());
		CHECK(pairsof(a) == m, "the attributes are %s, not %s", show(pairsof(a)).c_str(), show(m).c_str());
		std::string s;
		for (auto &x : m) s += (s.empty() ? "" : " ") + x.first + "=" + x.second;
		CHECK(a.string() == s, "the string is '%s', not '%s'", a.string().c_str(), s.c_str());
	}
	if (changed >= 5) c.nontrivial();
}

PROP(rdb_args, 20000, 800000, "at least two pairs, and a key of several words or given twice") {
	int n = (int) (c.chance(1, 20) ? c.draw(80) : c.draw(9));
	std::vector<std::string> args;
	Pairs want;
	std::string key;
	bool pending = false, special = false;
	for (int i = 0; i < n; i++) {
		std::string w;
		for (int j = (int) (c.chance(1, 40) ? c.range(20, 400) : c.draw(3)); j > 0; j--) w += (char) ('a' + c.draw(3));
		if (c.chance(2, 5)) {	// a word of a key
			if (w.empty()) w = "w";
			args.push_back(w);
			key += w + " ";
			pending = true;
			continue;
		}
		std::string v;
		for (int j = (int) (c.chance(1, 40) ? c.range(20, 400) : c.draw(4)); j > 0; j--) v += "ab= x"[c.draw(5)];
		args.push_back(w + "=" + v);
		std::string k = key + w;
		if (w.empty() && !k.empty()) k.resize(k.size() - 1);
		if (std::find_if(want.begin(), want.end(), [&](const std::pair<std::string, std::string> &x) { return x.first == k; }) != want.end()) special = true;
		else want.push_back({ k, v });
		if (pending) special = true;
		key = "";
		pending = false;
	}
	if (want.size() >= 2 && special) c.nontrivial();
	std::vector<const char*> argv;
	for (auto &x : args) { argv.push_back(x.c_str()); c.desc("[%s] ", x.c_str()); }
	argv.push_back(NULL);
	RdbAttrs a = attrargs((int) args.size(), argv.data());
	CHECK(pairsof(a) == want, "the arguments give %s instead of %s", show(pairsof(a)).c_str(), show(want).c_str());
}

//---------------------------------------------------------------- the tree

struct Db {
	std::string root;
	std::vector<std::string> keys;
	std::vector<std::vector<std::string>> vals;
	bool byalg;
	std::vector<std::vector<size_t>> keysof;	// the keys of each value of key 0, if byalg
	struct File { Map m; std::string path, id; bool written; };
	std::vector<File> files;

	Db(Case &c) {
		static const std::vector<std::string> roots = { "db", "db/", "x/db", "./db", "aKEY=b", "KEY=x/db", "x/d=1/db/" };
		root = c.pick(roots);
		for (size_t i = 1; i < root.size(); i++)
			if (root[i] == '/' && i + 1 < root.size()) mkdir(root.substr(0, i).c_str(), 0700);
		if (c.flip()) mkdir(root.c_str(), 0700);
		byalg = c.flip();
		keys = words(c, 1 + (c.chance(1, 12) ? c.draw(24) : c.draw(5)), true);
		for (size_t i = 0; i < keys.size(); i++) vals.push_back(words(c, 1 + (c.chance(1, 40) ? c.draw(60) : c.draw(3)), false));
		if (!byalg) return;
		for (size_t i = 0; i < vals[0].size(); i++) {
			std::vector<size_t> ks = { 0 };
			for (size_t k = 1; k < keys.size(); k++)
				if (c.flip()) ks.push_back(k);
			keysof.push_back(ks);
		}
	}

	Map attrs(Case &c) {
		Map m;
		size_t a = c.draw(vals[0].size());
		m[keys[0]] = vals[0][a];
		if (byalg) for (size_t k : keysof[a]) { if (k) m[keys[k]] = c.pick(vals[k]); }
		else for (size_t k = 1; k < keys.size(); k++) m[keys[k]] = c.pick(vals[k]);
		return m;
	}

	// query draws attributes to look for.
	Map query(Case &c) {
		Map q;
		int kind = (int) c.draw(4);
		if (kind <= 1 && !files.empty()) {	// some of those of a file
			for (auto &x : c.pick(files).m)
				if (c.flip()) q[x.first] = x.second;
		} else {
			for (size_t k = 0; k < keys.size(); k++)
				if (c.flip()) q[keys[k]] = c.chance(1, 6) ? "none" : c.pick(vals[k]);
		}
		if (c.chance(1, 10)) q["absent"] = "1";
		return q;
	}
};

static bool matches(const Map &m, const Map &q) {
	for (auto &x : q) {
		auto it = m.find(x.first);
		if (it == m.end() || it->second != x.second) return false;
	}
	return true;
}

static Pairs inorder(Case &c, const Map &m) {
	Pairs p = listof(m);
	shuffle(c, p);
	return p;
}

static void store(Case &c, Db &db, const Map &m, const std::string &path) {
	for (auto &f : db.files) {
		if (f.m == m) {
			CHECK(f.path == path, "the attributes %s had path %s and now have %s", show(listof(m)).c_str(), f.path.c_str(), path.c_str());
			if (!f.written && c.flip()) { prog::spew(path, f.id); f.written = true; }
			return;
		}
		CHECK(f.path != path, "%s is the path of %s and of %s", path.c_str(), show(listof(m)).c_str(), show(listof(f.m)).c_str());
	}
	struct stat sb;
	CHECK(stat(path.c_str(), &sb) != 0, "the path %s of new attributes %s exists", path.c_str(), show(listof(m)).c_str());
	std::string d = path.substr(0, path.rfind('/'));
	CHECK(stat(d.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "%s is no directory", d.c_str());
	Db::File f = { m, path, strf("file %zu", db.files.size()), !c.chance(1, 6) };
	if (f.written) prog::spew(path, f.id);
	db.files.push_back(f);
}

static void found(Case &c, Db &db, const Map &q, const std::vector<std::string> &paths) {
	std::set<std::string> got, want;
	for (auto &p : paths) {
		struct stat sb;
		CHECK(stat(p.c_str(), &sb) == 0 && S_ISREG(sb.st_mode), "%s is no file", p.c_str());
		std::string id = prog::slurp(p);
		CHECK(got.insert(id).second, "%s is found twice", p.c_str());
	}
	for (auto &f : db.files) {
		if (!f.written) continue;
		bool m = matches(f.m, q);
		if (m) want.insert(f.id);
		CHECK(m || !got.count(f.id), "%s, with %s, is found for %s", f.path.c_str(), show(listof(f.m)).c_str(), show(listof(q)).c_str());
		CHECK(!m || got.count(f.id), "%s, with %s, is not found for %s", f.path.c_str(), show(listof(f.m)).c_str(), show(listof(q)).c_str());
	}
	CHECK(got == want, "a file that was not stored is found for %s", show(listof(q)).c_str());
	if (want.size() && want.size() < db.files.size()) c.label("queries with some of the files");
}

static void attributes(Case &c, const Db::File &f, const Pairs &p) {
	Map got;
	for (auto &x : p) {
		CHECK(got.insert(x).second, "%s has %s twice", f.path.c_str(), x.first.c_str());
		if (!f.m.count(x.first))
			CHECK(x.second == "UNSPECIFIED", "%s, stored with %s, has %s=%s", f.path.c_str(), show(listof(f.m)).c_str(), x.first.c_str(), x.second.c_str());
	}
	for (auto &x : f.m)
		CHECK(got.count(x.first) && got[x.first] == x.second, "%s, stored with %s, has %s", f.path.c_str(), show(listof(f.m)).c_str(), show(p).c_str());
}

PROP(rdb_tree, 10000, 300000, "at least three files, of which a query finds some but not all") {
	pbt::clearscratch();
	Db db(c);
	c.desc("root %s, %s; ", db.root.c_str(), db.byalg ? "keys decided by the first key's value" : "the same keys everywhere");
	bool part = false;
	int n = (int) (c.chance(1, 60) ? c.range(60, 200) : c.size(1, 24));
	for (int i = 0; i < n; i++) {
		int op = (int) c.draw(n > 24 ? 3 : 4);
		if (op <= 1 || db.files.empty()) {
			Map m = !db.files.empty() && c.chance(1, 5) ? c.pick(db.files).m : db.attrs(c);
			Pairs p = inorder(c, m);
			if (db.byalg && c.flip()) {	// the usual order
				auto it = std::find_if(p.begin(), p.end(), [&](const std::pair<std::string, std::string> &x) { return x.first == db.keys[0]; });
				std::swap(*it, p[0]);
			}
			c.desc("store %s; ", show(p).c_str());
			store(c, db, m, pathfor(db.root, attrsof(p)));
		} else if (op == 2) {
			Map q = db.query(c);
			c.desc("find %s; ", show(listof(q)).c_str());
			std::vector<std::string> got = withattrs(db.root, attrsof(inorder(c, q)));
			found(c, db, q, got);
			if (got.size() && got.size() < db.files.size()) part = true;
		} else {
			const Db::File &f = c.pick(db.files);
			if (!f.written) continue;
			attributes(c, f, pairsof(pathattrs(f.path)));
		}
	}
	for (auto &f : db.files) {
		if (!f.written) continue;
		CHECK(prog::slurp(f.path) == f.id, "%s was overwritten", f.path.c_str());
		attributes(c, f, pairsof(pathattrs(f.path)));
	}
	found(c, db, Map(), withattrs(db.root, RdbAttrs()));
	if (db.files.size() >= 3 && part) c.nontrivial();
}

//---------------------------------------------------------------- programs

static std::vector<std::string> argsof(const std::string &first, const Pairs &p) {
	std::vector<std::string> a = { first };
	for (auto &x : p) a.push_back(x.first + "=" + x.second);
	return a;
}

static void ran(Case &c, const prog::Out &o, const char *what) {
	CHECK(o.status >= 0, "%s did not end", what);
	CHECK(o.clean(), "%s failed: status %d, %s", what, o.status, shown(o.err).c_str());
}

PROP(rdb_programs, 600, 10000, "at least two files and a query") {
	pbt::clearscratch();
	Db db(c);
	for (auto &k : db.keys)	// an argument's key ends at the first =
		for (auto &ch : k) if (ch == '=') ch = '+';
	std::set<std::string> uniq(db.keys.begin(), db.keys.end());
	if (uniq.size() != db.keys.size()) c.discard();
	int n = (int) c.size(1, 8), queries = 0;
	for (int i = 0; i < n; i++) {
		int op = (int) c.draw(4);
		if (op <= 1 || db.files.empty()) {
			Map m = db.attrs(c);
			Pairs p = inorder(c, m);
			prog::Out o = prog::run("prog_rdb_pathfor", argsof(db.root, p));
			ran(c, o, "pathfor");
			c.desc("pathfor %s %s: %s; ", db.root.c_str(), show(p).c_str(), o.out.c_str());
			CHECK(o.ok() && o.out.size() > 1 && o.out.back() == '\n', "pathfor: status %d, output %s", o.status, o.out.c_str());
			store(c, db, m, o.out.substr(0, o.out.size() - 1));
		} else if (op == 2) {
			Map q = db.query(c);
			prog::Out o = prog::run("prog_rdb_withattrs", argsof(db.root, inorder(c, q)));
			ran(c, o, "withattrs");
			c.desc("withattrs %s; ", show(listof(q)).c_str());
			CHECK(o.ok(), "withattrs: status %d", o.status);
			found(c, db, q, prog::lines(o.out));
			queries++;
		} else {
			const Db::File &f = c.pick(db.files);
			if (!f.written) continue;
			prog::Out o = prog::run("prog_rdb_pathattrs", { f.path });
			ran(c, o, "pathattrs");
			CHECK(o.ok() && o.out == pathattrs(f.path).string() + "\n", "pathattrs: status %d, output %s", o.status, o.out.c_str());
		}
	}
	if (db.files.size() >= 2 && queries) c.nontrivial();
}

static std::string field(Case &c) {
	std::string s = word(c, true);
	for (auto &ch : s) if (ch == '"') ch = 'q';
	return s;
}

PROP(rdb_addattrs, 600, 10000, "at least one attribute added and one already there, or two added") {
	pbt::clearscratch();
	std::string path = "data file";
	Map have;
	FILE *f = fopen(path.c_str(), "w");
	// A header writes pairs.
	bool bare = c.chance(1, 5);
	if (!bare) dfheader(f);
	else fputs("#start data file format 4\n", f);
	if (bare && c.flip()) dfrowhdr(f, "row", 2, "x", "y");
	if (bare) c.label("no header");
	for (int i = bare && c.flip() ? 0 : (int) c.draw(5); i > 0; i--) {
		std::string k = field(c), v = field(c);
		have[k] = v;
		dfpair(f, k.c_str(), "%s", v.c_str());
		if (c.flip()) dfrowhdr(f, "row", 2, "x", "y");
		if (c.flip()) dfrow(f, "row", "uf", 3ul, 0.5);
	}
	if (bare) { if (c.flip()) fputs("#end data file format 4\n", f); }
	else if (c.flip()) dffooter(f);
	fclose(f);
	std::string before = prog::slurp(path);
	Pairs add;
	Map want;
	std::vector<std::string> args = { path };
	bool dup = false;
	for (int i = (int) c.draw(6); i > 0; i--) {
		std::string k = !have.empty() && c.chance(1, 3) ? std::next(have.begin(), c.draw(have.size()))->first : field(c), v = field(c);
		for (auto &ch : k) if (ch == '=') ch = '+';
		if (have.count(k)) dup = true;
		args.push_back(k + "=" + v);
		bool again = false;
		for (auto &x : add) again = again || x.first == k;
		if (!again && !have.count(k)) add.push_back({ k, v });
		c.desc("%s=%s ", k.c_str(), v.c_str());
	}
	prog::Out o = prog::run("prog_rdb_addattrs", args);
	ran(c, o, "addattrs");
	CHECK(o.ok(), "addattrs: status %d, %s", o.status, shown(o.err).c_str());
	std::string after = prog::slurp(path);
	std::vector<std::string> a = prog::lines(before), b = prog::lines(after);
	size_t first = 0;
	while (first < a.size() && a[first].compare(0, 5, "#pair") != 0 && a[first].compare(0, 4, "#end") != 0) first++;
	CHECK(b.size() == a.size() + add.size(), "%zu lines became %zu; there are %zu new attributes", a.size(), b.size(), add.size());
	for (size_t i = 0; i < b.size(); i++) {
		if (i >= first && i < first + add.size()) {
			std::string k, v;
			CHECK(prog::pairline(b[i], k, v), "line %zu is %s", i, b[i].c_str());
			CHECK(k == add[i - first].first && v == add[i - first].second, "the added pair is %s, not %s %s", b[i].c_str(), add[i - first].first.c_str(), add[i - first].second.c_str());
		} else {
			size_t j = i < first ? i : i - add.size();
			CHECK(b[i] == a[j], "line %zu was %s and became %s", j, a[j].c_str(), b[i].c_str());
		}
	}
	if (add.size() >= 2 || (add.size() && dup)) c.nontrivial();
}

PROP(rdb_complete, 600, 10000, "a file that is not empty") {
	pbt::clearscratch();
	mkdir("d", 0700);
	std::string path = "d/f";
	static const std::string start = "#start data file format 4\n", end = "#end data file format 4\n";
	std::string s;
	switch (c.draw(8)) {
	case 0: s = ""; break;
	case 1: s = end; break;
	case 2: s = start; break;
	case 3: s = start.substr(0, c.draw(start.size())) + "x\n" + end; break;
	default: s = start;
	}
	for (int i = (int) c.draw(4); i > 0; i--) s += c.flip() ? "#pair  \"a\"\t\"b\"\n" : c.flip() ? start : c.flip() ? end : "\n";
	if (c.flip()) s += end;
	if (c.chance(1, 4)) s = s.substr(0, c.draw(s.size() + 1));
	if (s.size()) c.nontrivial();
	std::vector<std::string> l = prog::lines(s);
	bool want = l.size() >= 1 && l[0] + "\n" == start && l.back() + "\n" == end;
	if (want && s.back() != '\n') c.discard();	// whether the last newline must be there is not said
	c.desc("%s", shown(s).c_str());
	prog::spew(path, s);
	prog::Out o = c.flip() ? prog::run("prog_rdb_dfcmplt", { path }) : prog::run("prog_rdb_dfcmplt", { }, s);
	ran(c, o, "dfcmplt");
	CHECK(o.status == (want ? 0 : 1), "dfcmplt: status %d for %s", o.status, shown(s).c_str());
	CHECK(prog::slurp(path) == s, "the file was changed");
	c.label(want ? "complete" : "incomplete");
	// A file that is not there is incomplete, and its directory is made.
	std::string np = "d/n1/n2/f";
	o = prog::run("prog_rdb_dfcmplt", { np });
	ran(c, o, "dfcmplt");
	struct stat sb;
	CHECK(o.status == 1, "dfcmplt: status %d for a file that is not there", o.status);
	CHECK(stat("d/n1/n2", &sb) == 0 && S_ISDIR(sb.st_mode), "the directory was not made");
	CHECK(stat(np.c_str(), &sb) != 0, "the file was made");
}
