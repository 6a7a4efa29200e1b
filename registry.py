"""What each harness binary is built from, and which harnesses decide which property."""

ASAN = ["-fsanitize=address"]
FLAVOURS = {
    "asan": {"cflags": ["-O1"] + ASAN, "ldflags": ASAN},
    "plain": {"cflags": ["-O1"], "ldflags": []},
}

UTILS = ["utils/datafile.cc", "utils/encode.cc", "utils/fatal.cc", "utils/fs.cc", "utils/geom2d.cc", "utils/hash.c",
         "utils/math.cc", "utils/mem.cc", "utils/rand.cc", "utils/rank.cc", "utils/str.cc", "utils/time.cc"]
RDB = ["rdb/rdb.cc"]
SEARCH = ["search/search.cc", "search/anyprof/profile.cc"]
STRUCTS = ["structs/stn.cc"]

BINARIES = {
    "structs_pq": {"src": ["structs_pq.cc"], "repo": UTILS + RDB + SEARCH},
    "structs_tab": {"src": ["structs_tab.cc"], "repo": UTILS},
    "structs_stn": {"src": ["structs_stn.cc"], "repo": STRUCTS},
}

VARIANTS = [("search_dom.cc", ["-DVCOST=" + t, "-DVINPLACE=" + i, "-DVNAME=search_" + n])
            for t, i, n in (("int", "false", "int_copy"), ("int", "true", "int_inplace"),
                            ("double", "false", "dbl_copy"), ("double", "true", "dbl_inplace"))]
BINARIES["search"] = {"src": VARIANTS + ["search_props.cc", "graph.cc"],
                      "repo": UTILS + RDB + SEARCH,
                      "libs": ["-Wl,--wrap=_Z8walltimev", "-Wl,--wrap=_Z7cputimev", "-Wl,--wrap=setrlimit",
                               "-Wl,--wrap=_Z7pathforRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE8RdbAttrs"]}

def srch(props):
    return {"runs": [{"bin": "search", "props": props}]}

CHECKS = {
    "P01": srch("valid_solution"),
    "P02": srch("optimal"),
    "P03": srch("wastar_bound"),
    "P04": srch("anytime"),
    "P05": srch("complete"),
    "P06": srch("limits,limit_options"),
    "P07": srch("statistics"),
    "P08": srch("reset_determinism"),
    "P09": srch("realtime,realtime_lss,fhat_circles,dynamic_lookahead"),
    "P42": srch("bestfirst_order,idastar_iterations"),
    "P10": srch("beam,beam_options"),
    "P11": {"runs": [{"bin": "structs_pq", "props": "binheap,binheap_large"}]},
    "P12": {"runs": [{"bin": "structs_pq", "props": "intpq,openlist_int,openlist_generic"}]},
    "P13": {"runs": [{"bin": "structs_tab", "props": "htable,closedlist,tables_large"}]},
    "P14": {"runs": [{"bin": "structs_tab", "props": "kdtree,kdtree_large"}]},
    "P15": {"runs": [{"bin": "structs_stn"}]},
    "P16": {"runs": [{"bin": "structs_tab", "props": "djset,djset_large,pool"}]},
}

# The domains; each in a binary of its own, since their names clash.
def dom(name, src, repo, flags=(), **kw):
    BINARIES[name] = dict({"src": [src], "repo": UTILS + RDB + SEARCH + repo, "flags": list(flags)}, **kw)

TILES = ["tiles/tiles.cc", "tiles/mdist.cc"]
for w, h in ((3, 3), (4, 4), (5, 5), (3, 5)):
    dom("tiles%d%d" % (w, h), "dom_tiles.cc", TILES + ["tiles/pdb.cc"], ["-DWIDTH=%d" % w, "-DHEIGHT=%d" % h] + (["-DONLY_IDASTAR"] if w == 5 or w != h else []))
CHECKS["P17"] = {"runs": [{"bin": "tiles%d%d" % wh} for wh in ((3, 3), (4, 4), (5, 5), (3, 5))]}
for n in (3, 8, 50):
    dom("pancake%d" % n, "dom_pancake.cc", ["pancake/pancake.cc"], ["-DNCAKES=%d" % n])
CHECKS["P18"] = {"runs": [{"bin": "pancake%d" % n} for n in (3, 8, 50)]}
dom("gridnav", "dom_gridnav.cc", ["gridnav/gridmap.cc", "gridnav/gridnav.cc", "gridnav/scenario.cc"])
CHECKS["P19"] = {"runs": [{"bin": "gridnav"}]}
dom("vacuum", "dom_vacuum.cc", ["vacuum/vacuum.cc", "gridnav/gridmap.cc"])
CHECKS["P20"] = {"runs": [{"bin": "vacuum"}]}
dom("drobot", "dom_drobot.cc", ["drobot/drobot.cc"])
CHECKS["P21"] = {"runs": [{"bin": "drobot"}]}
dom("traffic", "dom_traffic.cc", ["traffic/traffic.cc", "traffic/gridmap.cc"])
CHECKS["P24"] = {"runs": [{"bin": "traffic"}]}

BINARIES["utils_num"] = {"src": ["utils_num.cc"], "repo": UTILS, "flags": ["-D_GLIBCXX_ASSERTIONS"]}
CHECKS["P28"] = {"runs": [{"bin": "utils_num", "props": "rank_random,rank_all,combinatorics,normal,integral"}]}
CHECKS["P30"] = {"runs": [{"bin": "utils_num", "props": "safe_random,safe_exhaustive"}]}
CHECKS["P33"] = {"runs": [{"bin": "utils_num", "props": "rand_range,rand_stream,hash_bytes"}]}
BINARIES["utils_text"] = {"src": ["utils_text.cc"], "repo": UTILS + ["utils/testing.cc"], "flags": ["-D_GLIBCXX_ASSERTIONS"]}
CHECKS["P26"] = {"runs": [{"bin": "utils_text", "props": "datafile_records,datafile_wide,datafile_file"}]}
CHECKS["P27"] = {"runs": [{"bin": "utils_text", "props": "encode_runlen,encode_base64,encode_ascii85"}]}
CHECKS["P29"] = {"runs": [{"bin": "utils_text", "props": "fs_paths,fs_lines,fs_tree,fs_large"}]}
CHECKS["P32"] = {"runs": [{"bin": "utils_text", "props": "string_tokens,string_prefix,string_commas,string_errors"}]}
BINARIES["utils_geom"] = {"src": ["utils_geom.cc"], "repo": UTILS, "flags": ["-D_GLIBCXX_ASSERTIONS"]}
CHECKS["P31"] = {"runs": [{"bin": "utils_geom"}]}

# Programs that harnesses run; each is built from its own main file.
def program(name, srcs, flags=(), flavour="asan"):
    BINARIES["prog_" + name] = {"src": [], "repo": UTILS + srcs, "pbt": False, "flags": list(flags), "flavour": flavour}
    return "prog_" + name

RDBPROGS = [program("rdb_" + n, RDB + ["rdb/%s.cc" % n]) for n in ("pathfor", "withattrs", "pathattrs", "addattrs", "dfcmplt")]
BINARIES["rdb"] = {"src": ["rdb.cc"], "repo": UTILS + RDB, "flags": ["-D_GLIBCXX_ASSERTIONS"], "needs": RDBPROGS}
CHECKS["P34"] = {"runs": [{"bin": "rdb"}]}

SEGMENTS = ["segments/segments.cc"]
SEGPROGS = [program("segments_solver", RDB + SEARCH + SEGMENTS + ["segments/main.cc"], flavour="plain"), program("segments_mkinst", SEGMENTS + ["segments/mkinst.cc"])]
dom("segments", "dom_segments.cc", SEGMENTS, needs=SEGPROGS)
CHECKS["P25"] = {"runs": [{"bin": "segments"}]}

VISGRAPH = ["visnav/visgraph.cc", "visnav/polymap.cc", "visnav/grid2poly.cc", "graphics/image.cc"]
PLAT2D = ["plat2d/%s.cc" % n for n in ("plat2d", "player", "body", "lvl", "tile")]
dom("plat2d", "dom_plat2d.cc", PLAT2D + VISGRAPH)
# The hash reads whole words and masks what is beyond the end.
BINARIES["plat2d"]["repo"] = [(s, ["-fno-sanitize=address"]) if s == "utils/hash.c" else s for s in BINARIES["plat2d"]["repo"]]
CHECKS["P23"] = {"runs": [{"bin": "plat2d"}]}

VISNAV = VISGRAPH + ["visnav/visnav.cc"]
VISPROGS = [program("mkgraph", VISGRAPH + ["visnav/mkgraph.cc"]), program("pbm2poly", VISGRAPH + ["visnav/pbm2poly.cc"]),
            program("visnav_rand", VISGRAPH + ["visnav/rand.cc"]), program("visnav_inst", VISGRAPH + ["visnav/inst.cc"]),
            program("visnav_solver", RDB + SEARCH + VISNAV + ["visnav/main.cc"], ["-D_GLIBCXX_ASSERTIONS"])]
dom("visnav", "dom_visnav.cc", VISNAV, needs=VISPROGS)
CHECKS["P22"] = {"runs": [{"bin": "visnav"}]}

GA = ["-D_GLIBCXX_ASSERTIONS"]
TRAFFIC = ["traffic/traffic.cc", "traffic/gridmap.cc"]
GENPROGS = [program("tiles_generator", ["tiles/generator.cc"], GA),
            program("mkseedinst", RDB + SEARCH + ["gridnav/gridmap.cc", "gridnav/gridnav.cc", "gridnav/mkseedinst.cc"], GA),
            program("gridnav_randinst", ["gridnav/gridmap.cc", "gridnav/randinst.cc"], GA),
            program("traffic_randinst", RDB + SEARCH + TRAFFIC + ["traffic/randinst.cc"], GA, flavour="plain"),
            program("ppm2grid", ["gridnav/ppm2grid.cc"], GA),
            program("grid2poly", VISGRAPH + ["gridnav/gridmap.cc", "gridnav/2poly.cc"], GA),
            program("plat2d_2poly", PLAT2D + VISGRAPH + ["plat2d/2poly.cc"], GA),
            program("scenario2rdb", RDB + ["gridnav/scenario2rdb.cc"], GA)]
BINARIES["progs"] = {"src": ["progs.cc"], "repo": [], "needs": GENPROGS}
CHECKS["P37"] = {"runs": [{"bin": "progs"}]}

# The solver programs. The domain's harness, compiled with -DCLI, runs them.
CLI = []
def cli(name, flags, repo, mains, props, dirname=None):
    progs = []
    for pname, main in mains:
        if "prog_" + pname not in BINARIES:
            program(pname, RDB + SEARCH + repo + [main], GA + flags, flavour="plain")
        progs.append("prog_" + pname)
    dom("cli_" + name, "dom_%s.cc" % name, repo, ["-DCLI"] + flags, needs=progs)
    CLI.append({"bin": "cli_" + name, "props": props})
cli("tiles", ["-DWIDTH=4", "-DHEIGHT=4"], TILES + ["tiles/pdb.cc"], [("tiles_solver", "tiles/main_mdist.cc")], "cli_tiles,cli_memory,cli_timelimit")
cli("pancake", ["-DNCAKES=8"], ["pancake/pancake.cc"], [("pancake_solver", "pancake/main.cc")], "cli_pancake")
cli("gridnav", [], ["gridnav/gridmap.cc", "gridnav/gridnav.cc", "gridnav/scenario.cc"], [("gridnav_solver", "gridnav/main_gridnav.cc")], "cli_gridnav")
cli("vacuum", [], ["vacuum/vacuum.cc", "gridnav/gridmap.cc"], [("vacuum_solver", "vacuum/main.cc"), ("vacuum_cs730", "vacuum/main_cs730.cc")], "cli_vacuum")
cli("drobot", [], ["drobot/drobot.cc"], [("drobot_solver", "drobot/main.cc")], "cli_drobot")
cli("traffic", [], TRAFFIC, [("traffic_solver", "traffic/main_traffic.cc")], "cli_traffic")
cli("plat2d", [], PLAT2D + VISGRAPH, [("plat2d_solver", "plat2d/main.cc")], "cli_plat2d")
cli("segments", [], SEGMENTS, [("segments_solver", "segments/main.cc")], "cli_segments")
cli("visnav", [], VISNAV, [("visnav_solver", "visnav/main.cc")], "cli_visnav")
BINARIES["cli_plat2d"]["repo"] = BINARIES["plat2d"]["repo"]
CHECKS["P38"] = {"runs": CLI}

# Pictures.
BINARIES["images"] = {"src": ["images.cc"], "repo": UTILS + ["graphics/image.cc", "graphics/scene.cc", "graphics/ui.cc"],
                      "flags": ["-D_GLIBCXX_ASSERTIONS"], "libs": ["-lSDL", "-lSDL_image", "-lGL"]}
dom("eps_gridnav", "dom_gridnav.cc", BINARIES["gridnav"]["repo"][len(UTILS + RDB + SEARCH):], ["-DEPS"], needs=[program("gridnav_draw", ["gridnav/gridmap.cc", "gridnav/draw.cc", "graphics/image.cc"], GA)])
dom("eps_plat2d", "dom_plat2d.cc", [], ["-DEPS"], needs=[program("plat2d_draw", ["plat2d/lvl.cc", "plat2d/tile.cc", "plat2d/body.cc", "plat2d/player.cc", "plat2d/draw.cc", "graphics/image.cc"], GA)])
BINARIES["eps_plat2d"]["repo"] = BINARIES["plat2d"]["repo"]
dom("eps_visnav", "dom_visnav.cc", VISNAV, ["-DEPS"], needs=[program("visnav_draw", VISNAV + ["visnav/draw.cc"], GA), "prog_visnav_solver"])
CHECKS["P36"] = {"runs": [{"bin": "images"}, {"bin": "eps_gridnav", "props": "eps_gridnav"}, {"bin": "eps_plat2d", "props": "eps_level,eps_map"}, {"bin": "eps_visnav", "props": "eps_graph,eps_route"}]}

# Profiles of anytime searches.
PROFPROGS = [program(n, RDB + SEARCH + ["search/anyprof/%s.cc" % n], GA) for n in ("mkprof", "sptcounts", "sptpolicy", "bestwt")]
BINARIES["profile"] = {"src": ["profile.cc"], "repo": UTILS + RDB + SEARCH, "flags": GA, "needs": PROFPROGS}
CHECKS["P35"] = {"runs": [{"bin": "profile"}]}

# The sampling-based planner.
BINARIES["rrt"] = {"src": ["rrt.cc"], "repo": UTILS + RDB + ["search/search.cc", "graphics/image.cc"], "flags": ["-D_GLIBCXX_ASSERTIONS"]}
BINARIES["learn"] = {"src": ["learn.cc"], "repo": UTILS + RDB + ["search/learnh/leastsquares.cc"], "libs": ["-llapack", "-lblas"],
                     "needs": [program("hlms", RDB + ["search/learnh/hlms.cc", "search/learnh/leastsquares.cc"])]}
BINARIES["prog_hlms"]["libs"] = ["-llapack", "-lblas"]
CHECKS["P40"] = {"runs": [{"bin": "search", "props": "dump_path,dump_samples"}, {"bin": "learn"}]}
CHECKS["P39"] = {"runs": [{"bin": "rrt"}]}

# Files that cannot be opened.
BINARIES["files"] = {"src": ["files.cc"], "repo": [], "needs": ["prog_" + n for n in (
    "tiles_solver", "gridnav_solver", "traffic_solver", "plat2d_solver", "gridnav_draw", "visnav_draw", "visnav_inst",
    "gridnav_randinst", "rdb_addattrs", "sptcounts", "sptpolicy", "visnav_rand", "tiles_generator", "scenario2rdb")]}
CHECKS["P41"] = {"runs": [{"bin": "files"}]}
