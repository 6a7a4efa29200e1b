// P41: files that cannot be opened.
#include "prog.hpp"
#include <cerrno>
#include <sys/stat.h>

using pbt::Case;
using pbt::strf;

namespace {

struct Use {
	const char *prog;
	bool write;
	std::vector<std::string> args;	// with @ for the file
	const char *in;
	const char *below;	// what the program adds to the name
};

const char *const grid = "3 3\nBoard:\n   \n   \n   \nUnit\nFour-way\n";
const char *const tiles = "4 4\nstarting positions for each tile:\n1\n0\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\ngoal positions:\n0\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n";
const char *const polys = "1\n3 0.1 0.1 0.2 0.1 0.1 0.2\n";

const std::vector<Use> uses = {
	{ "prog_tiles_solver", false, { "astar", "-lvl", "@" }, "", "" },
	{ "prog_tiles_solver", false, { "arastarmon", "-wt0", "2", "-dwt", "1", "-p", "@" }, tiles, "" },
	{ "prog_gridnav_solver", false, { "astar", "-lvl", "@" }, "", "" },
	{ "prog_traffic_solver", false, { "astar", "-lvl", "@" }, "", "" },
	{ "prog_plat2d_solver", false, { "astar", "-lvl", "@" }, "", "" },
	{ "prog_gridnav_draw", false, { "-o", "out.eps", "@" }, "", "" },
	{ "prog_gridnav_draw", false, { "@", "-p" }, "", "" },
	{ "prog_visnav_draw", false, { "-i", "@", "-o", "out.eps" }, "", "" },
	{ "prog_visnav_inst", false, { "@" }, "", "" },
	{ "prog_gridnav_randinst", false, { "-m", "@" }, "", "" },
	{ "prog_rdb_addattrs", false, { "@", "key=value" }, "", "" },
	{ "prog_scenario2rdb", false, { "root", "@" }, "", "" },
	{ "prog_sptcounts", false, { "@" }, "", "" },
	{ "prog_sptpolicy", false, { "@", "1", "1" }, "", "" },
	{ "prog_visnav_rand", true, { "-npolys", "2", "-o", "@" }, "", "" },
	{ "prog_gridnav_draw", true, { "-o", "@" }, grid, "" },
	{ "prog_visnav_draw", true, { "-o", "@" }, polys, "" },
	{ "prog_tiles_generator", true, { "-w", "3", "-h", "3", "-n", "1", "-seed", "1", "-d", "@" }, "", "/0" },
};

std::string part(Case &c) {
	static const char *const bits[] = { "a", "b", "lvl", " ", "%s", "%n", "%d", "%", ".", "-", "_", "7", "\xc3\xa9", "=", "'", "\"", "\\", "$x", "*" };
	std::string s = "f";
	for (long n = c.size(0, 12); n > 0; n--) s += bits[c.draw(sizeof bits / sizeof *bits)];
	return s;
}

}

PROP(files_unopened, 500, 5000, "a name of more than a few letters") {
	pbt::clearscratch();
	const Use &u = c.pick(uses);
	prog::spew("plain", "x");
	std::string name;
	switch (c.draw(6)) {
	case 0: name = "nosuchdir/" + part(c); break;
	case 1: name = "plain/" + part(c); break;	// not a directory
	case 2: if (symlink("loop", "loop")) c.discard(); name = "loop"; break;
	case 3: name = part(c) + std::string(c.range(260, 400), 'n'); break;	// too long
	case 4: if (u.write) { name = "nosuchdir/" + part(c); break; }
	default:
		name = part(c);
		if (u.write && !*u.below) mkdir(name.c_str(), 0777);	// a directory is not written to
	}
	std::string file = name + u.below;
	FILE *f = fopen(file.c_str(), u.write ? "w" : "r");
	int err = errno;
	if (f) { fclose(f); c.fail("HARNESS: %s can be opened", file.c_str()); }
	std::vector<std::string> args;
	std::string shown;
	for (auto &a : u.args) {
		args.push_back(a == "@" ? name : a);
		shown += " " + args.back();
	}
	c.desc("%s%s: %s\n", u.prog, shown.c_str(), strerror(err));
	auto r = prog::run(u.prog, args, u.in);
	CHECK(r.clean(), "%s ended badly with %d: %s", u.prog, r.status, prog::shown(r.err).c_str());
	CHECK(r.status != 0, "%s ended successfully", u.prog);
	if (name.size() < 150) {
		CHECK(r.err.find(file) != std::string::npos, "%s does not name %s: %s", u.prog, file.c_str(), prog::shown(r.err).c_str());
		CHECK(r.err.find(strerror(err)) != std::string::npos, "%s does not say \"%s\": %s", u.prog, strerror(err), prog::shown(r.err).c_str());
	} else {
		CHECK(r.err.find(name.substr(0, 80)) != std::string::npos, "%s does not name the file: %s", u.prog, prog::shown(r.err).c_str());
	}
	if (name.size() > 6) c.nontrivial();
	c.label(u.prog);
}
