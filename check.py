#!/usr/bin/env python3
"""Builds one property's harness from /repo's current working tree and runs it.

usage: check.py PXX [--tier quick|thorough] [--seed N] [--budget S] [--only SUB] [--replay FILE] [--keep]
exit 0: property held on everything generated; exit 1 + VIOLATION line: it did not; anything else: no answer.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX, CC = "g++-10", "gcc-10"
BASE = ["-O1", "-g1", "-w", "-msse2", "-mcx16", "-DLIBICONV_PLUG", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address"]
COV = ["-fsanitize-coverage=trace-pc"]

def directive(text, name, default=""):
    m = re.search(r"^// %s:(.*)$" % name, text, re.M)
    return m.group(1).strip() if m else default

def treehash(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

def build(prop, out, release=False):
    """compiles the harness; returns (binary, meta)"""
    srcs = sorted(glob.glob(f"{VERIF}/harness/{prop}*.cpp"))
    if not srcs: sys.exit(f"no harness for {prop}")
    text = open(srcs[0]).read()
    mode = directive(text, "MODE", "asan")
    libs = directive(text, "LIBS").split()
    flags = directive(text, "FLAGS").split()
    assume = [a for a in directive(text, "ASSUME").split(";") if a.strip()]
    weight = float(directive(text, "BUDGET", "1"))
    meta = dict(mode=mode, assume=assume, weight=weight, cov="nocov" not in flags, release=float(directive(text, "RELEASE", "0")))
    flags = [f for f in flags if f != "nocov"]
    repo_files = [f for d in ("include/bss-util", "bss-util") for f in glob.glob(f"{REPO}/{d}/*") if os.path.isfile(f)]
    key = treehash(repo_files + glob.glob(f"{VERIF}/harness/*.h") + srcs + glob.glob(f"{VERIF}/engine/*") + [os.path.abspath(__file__)], prop)
    name = prop + ("r" if release else ""); binary = f"{out}/{name}-{key}"
    if os.path.exists(binary): return binary, meta
    for old in glob.glob(f"{out}/{name}-*"): os.unlink(old)
    tmp = tempfile.mkdtemp(prefix=f"obj-{name}-", dir=out)
    inc = [f"-I{VERIF}/engine", f"-I{VERIF}/harness", f"-I{REPO}/include", f"-I{REPO}"]
    san = ASAN if mode == "asan" else []
    cov = COV if meta["cov"] and mode == "asan" else []
    jobs = []
    def job(src, fl, cxx=True):
        obj = f"{tmp}/{len(jobs)}.o"
        jobs.append(([CXX, "-std=c++17"] if cxx else [CC]) + BASE + (["-DNDEBUG"] if release else []) + fl + inc + ["-c", src, "-o", obj])
    job(f"{VERIF}/engine/pbt.cpp", [x for x in san])
    if mode == "sched":
        job(f"{VERIF}/engine/vsched.cpp", [])
        hflags = ["-fsanitize=thread", "-finstrument-functions", f"-finstrument-functions-exclude-file-list=/usr/,{VERIF}/"]
    else:
        hflags = san + cov
    for s in srcs: job(s, hflags + flags)
    for l in libs:
        if l == "rt": continue
        p = f"{REPO}/bss-util/{l}"
        job(p, (hflags) + ["-DBSS_UTIL_EXPORTS"], cxx=l.endswith(".cpp"))
    try:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda c: (c, subprocess.run(c, capture_output=True, text=True)), jobs))
        for c, r in rs:
            if r.returncode:
                print("BUILD FAILED:", " ".join(c), "\n", r.stderr[:6000], file=sys.stderr); sys.exit(2)
        link = [CXX] + san + [c[-1] for c in jobs] + ["-o", binary + ".tmp", "-lpthread", "-lrt", "-ldl", "-latomic"]
        if libs: link.append("-l:libfontconfig.so.1")
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            print("LINK FAILED:", r.stderr[:6000], file=sys.stderr); sys.exit(2)
        os.rename(binary + ".tmp", binary)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return binary, meta

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float); ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("--build", action="store_true")
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args()
    out = f"{VERIF}/build"; rep = f"{VERIF}/replay"; evd = f"{VERIF}/evidence"
    for d in (out, rep, evd): os.makedirs(d, exist_ok=True)
    if a.replay and "/release/" in os.path.abspath(a.replay): return run(a, True, a.budget or 25.0, rep + "/release", None, out)
    binary, meta = build(a.prop, out)
    both = meta["release"] > 0 and not a.replay
    if both: build(a.prop, out, True)
    if a.build: return 0
    budget = a.budget or (25.0 if a.tier == "quick" else 420.0) * meta["weight"]
    ev = None if a.only or a.replay else f"{evd}/{a.prop}.json"
    rc = run(a, False, budget, rep, ev, out)
    if rc or not both: return rc
    # the same search without the library's debugging aids (NDEBUG), which pad blocks, fill memory and check assertions
    os.makedirs(rep + "/release", exist_ok=True)
    rc = run(a, True, budget * meta["release"], rep + "/release", ev and ev + ".release", out)
    if ev and os.path.exists(ev + ".release"):
        d, r = json.load(open(ev)), json.load(open(ev + ".release")); os.unlink(ev + ".release")
        for k in ("evaluations", "distinct_nontrivial", "discards"): d["coverage"][k] += r["coverage"][k]
        for x in r["coverage"]["subchecks"]: x["name"] += " (release build)"; d["coverage"]["subchecks"].append(x)
        d["wall_s"] += r["wall_s"]; d["violations"] += r["violations"]
        json.dump(d, open(ev, "w"), indent=1)
    return rc

def run(a, release, budget, rep, evidence, out):
    binary, meta = build(a.prop, out, release)
    scratch = tempfile.mkdtemp(prefix="run-", dir=out)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:malloc_fill_byte=190:max_malloc_fill_size=65536:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:alloc_dealloc_mismatch=1:symbolize=1:print_legend=0"
    env["LC_ALL"] = "C.UTF-8"; env["TZ"] = "UTC"; env["HOME"] = scratch
    env.pop("LD_PRELOAD", None)
    cmd = [binary, "--prop", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--budget", str(budget), "--scratch", scratch, "--workers", str(a.workers or 8)]
    if a.replay: cmd += ["--replay", os.path.abspath(a.replay)]
    else:
        cmd += ["--replaydir", rep]
        cmd += ["--evidence", evidence] if evidence else []
    if a.only: cmd += ["--only", a.only]
    if meta["cov"] and meta["mode"] == "asan": cmd.append("--cov")
    for x in meta["assume"]: cmd += ["--assume", x.strip()]
    try:
        # no address randomisation: coverage hashes, and so the whole search, repeat from run to run
        noaslr = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []
        # a library that breaks a program before it does anything (in its static initialisers) breaks the property for every input
        start = [subprocess.run(noaslr + [binary, "--list"], env=env, cwd=scratch, capture_output=True, text=True, errors="replace")]
        if start[0].returncode == 99 or (start[0].returncode < 0 and start[0].returncode != -9):
            start.append(subprocess.run(noaslr + [binary, "--list"], env=env, cwd=scratch, capture_output=True, text=True, errors="replace"))
            if start[1].returncode == start[0].returncode:
                path = f"{rep}/{a.prop}-start.replay"
                open(path, "w").write(f"# {binary} breaks before any input is given, exit {start[1].returncode}\n" + start[1].stderr[:4000])
                print(f"VIOLATION property={a.prop} replay={path}\n  the program ends with {start[1].returncode} before any input is given\n{start[1].stderr[:600]}")
                return 1
        return subprocess.run(noaslr + cmd, env=env, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
