#!/usr/bin/env python3
"""Builds the harnesses of a property from /repo's working tree, runs them and
writes the evidence.

  check.py P01 [--tier quick|thorough] [--seed N]   decide one property
  check.py --replay FILE                            re-run a replay file
  check.py --all                                    every claimed property
"""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import BINARIES, CHECKS, FLAVOURS

CXX = "clang++"
CC = "clang"
COMMON = ["-g1", "-w", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + os.path.join(HERE, "lib"),
          "-I" + os.path.join(HERE, "harness"), "-DSEARCH_VERIF_SZHINT_MAX=64"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


def compile_one(src, flags, out):
    lang_c = src.endswith(".c")
    cmd = [CC if lang_c else CXX] + COMMON
    if not lang_c:
        cmd += ["-std=c++0x" if src.startswith(REPO + "/") else "-std=c++17", "-include", "cstdint", "-include", "algorithm"]
    cmd += flags
    cache = os.environ.get("VERIF_CACHE")  # development only: objects keyed by preprocessed text
    key = None
    if cache:
        pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if pre.returncode == 0:
            key = os.path.join(cache, hashlib.sha256(" ".join(cmd).encode() + pre.stdout).hexdigest() + ".o")
            if os.path.exists(key):
                shutil.copyfile(key, out)
                return
    r = subprocess.run(cmd + ["-c", src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd + ["-c", src]), r.stdout[-6000:]))
    if key:
        os.makedirs(cache, exist_ok=True)
        tmp = key + ".%d" % os.getpid()
        shutil.copyfile(out, tmp)
        os.rename(tmp, key)


def build(names, bdir):
    """Builds the named binaries; returns name -> path."""
    jobs, links = {}, []
    for name in names:
        b = BINARIES[name]
        fl = FLAVOURS[b.get("flavour", "asan")]
        objs = []
        srcs = [(os.path.join(HERE, "lib", "pbt.cc"), [])] if b.get("pbt", True) else []
        srcs += [(os.path.join(HERE, "harness", s) if not isinstance(s, tuple) else os.path.join(HERE, "harness", s[0]),
                  b.get("flags", []) + (s[1] if isinstance(s, tuple) else [])) for s in b["src"]]
        srcs += [(os.path.join(REPO, s) if not isinstance(s, tuple) else os.path.join(REPO, s[0]),
                  b.get("flags", []) + (s[1] if isinstance(s, tuple) else [])) for s in b.get("repo", [])]
        for src, flags in srcs:
            flags = fl["cflags"] + flags
            k = hashlib.sha1((src + "\0" + " ".join(flags)).encode()).hexdigest()[:16]
            obj = os.path.join(bdir, os.path.basename(src) + "." + k + ".o")
            jobs[obj] = (src, flags)
            objs.append(obj)
        links.append((name, objs, fl["ldflags"] + b.get("libs", [])))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        # harness sources take longest: start them first
        order = sorted(jobs, key=lambda o: (not jobs[o][0].startswith(HERE), o))
        futs = [ex.submit(compile_one, jobs[o][0], jobs[o][1], o) for o in order]
        for f in futs:
            f.result()

    def link(l):
        name, objs, ld = l
        out = os.path.join(bdir, name)
        r = subprocess.run([CXX] + objs + ld + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("link %s\n%s" % (name, r.stdout[-6000:]))
        return name, out
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return dict(ex.map(link, links))


def sh(*a):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_check(pid, tier, seed, only=None, scale=1.0, verbose=True):
    chk = CHECKS[pid]
    start = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-build-")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc, frags = 0, []
    try:
        names = []
        for r in chk["runs"]:
            for n in [r["bin"]] + BINARIES[r["bin"]].get("needs", []):
                if n not in names:
                    names.append(n)
        try:
            bins = build(names, bdir)
        except BuildError as e:
            print("BUILD FAILED for", pid)
            print(e)
            return 2
        built = time.time() - start
        cap = chk.get("cap", 150 if tier == "quick" else 3000) / max(1, len(chk["runs"]))
        for r in chk["runs"]:
            out = os.path.join(bdir, "frag.json")
            if os.path.exists(out):
                os.remove(out)
            cmd = [bins[r["bin"]], "--property", pid, "--tier", tier, "--seed", str(seed), "--out", out,
                   "--replaydir", rdir, "--name", r["bin"], "--known", os.path.join(HERE, "known_findings.txt"),
                   "--cap", str(r.get("cap", cap)), "--scale", str(scale * r.get("scale", 1.0)),
                   "--workers", str(JOBS)]
            props = only or r.get("props")
            if props:
                cmd += ["--only", props]
            env = dict(os.environ)
            env["VERIF_BINDIR"] = bdir
            env["VERIF_REPO"] = REPO
            env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
            p = subprocess.run(cmd, env=env)
            if p.returncode == 10:
                rc = 1
            elif p.returncode != 0:
                print("harness error: %s ended with %d" % (r["bin"], p.returncode))
                if rc == 0:
                    rc = 2
            if os.path.exists(out):
                with open(out) as f:
                    for x in json.load(f):
                        x["binary"] = r["bin"]
                        frags.append(x)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("build kept in", bdir)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(x["evaluations"] for x in frags),
            "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in frags),
            "rule": " | ".join(sorted(set("%s: %s" % (x["prop"], x["rule"]) for x in frags))),
            "samples": [{"prop": x["prop"], "case": s} for x in frags for s in x["samples"][:2]][:24],
            "props": [{k: v for k, v in x.items() if k not in ("samples", "rule")} for x in frags],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": sum(x["violations"] for x in frags),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s; %d cases, %d distinct non-trivial; build %.1fs, total %.1fs" % (
        pid, {0: "held", 1: "VIOLATED"}.get(rc, "error"), ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"], built, time.time() - start))
    return rc


def replay(path):
    meta = {}
    with open(path) as f:
        for line in f:
            if line.startswith("---") or line.startswith("choices"):
                break
            k, _, v = line.rstrip("\n").partition(" ")
            meta[k] = v
    bdir = tempfile.mkdtemp(prefix="verif-build-")
    try:
        b = meta["binary"]
        bins = build([b] + BINARIES[b].get("needs", []), bdir)
        env = dict(os.environ)
        env["VERIF_BINDIR"] = bdir
        env["VERIF_REPO"] = REPO
        return subprocess.run([bins[b], "--property", meta["property"], "--replay", os.path.abspath(path)], env=env).returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there")
    a = ap.parse_args()
    if a.setup:
        missing = [t for t in (CXX, CC) if not shutil.which(t)]
        print("missing: %s" % missing if missing else "nothing to set up: every check builds what it needs")
        sys.exit(1 if missing else 0)
    if a.replay:
        sys.exit(replay(a.replay))
    ids = sorted(CHECKS) if a.all else a.ids
    worst = 0
    for i in ids:
        rc = run_check(i, a.tier, a.seed, a.only, a.scale)
        sys.stdout.flush()
        if rc == 2 or (rc == 1 and worst == 0):
            worst = rc
    sys.exit(worst)


if __name__ == "__main__":
    main()
