#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--keep] [--only TAG]
Builds the harnesses of one property from /repo's working tree, explores, writes evidence/<id>.json."""
import sys, os, json, subprocess, tempfile, shutil, time, glob, concurrent.futures as cf, re
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
sys.path.insert(0, VERIF)
from checks import CHECKS

NCPU = os.cpu_count() or 8
CONFIG_ON = ["CY_HAVE_UNISTD_H", "CY_HAVE_INTTYPES_H", "CY_HAVE_SYS_UIO_H", "CY_HAVE_SYS_EVENTFD_H", "CY_SYS_LINUX",
             "CY_HAVE_EPOLL", "CY_HAVE_READWRITE_V", "CY_HAVE_PIPE2", "CY_HAVE_TIMERFD", "CY_HAVE_TIMED_LOCK", "CY_ENABLE_LOG"]

class CheckError(Exception): pass

def gen_config(d, off):
    on = [c for c in CONFIG_ON if c not in off]
    out = []
    for line in open(os.path.join(SRC, "cyclone_config.h.in"), encoding="utf-8-sig", errors="replace"):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            line = ("#define %s%s\n" % (m.group(1), m.group(2).rstrip())) if m.group(1) in on else "/* #undef %s */\n" % m.group(1)
        out.append(line)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "cyclone_config.h"), "w").write("".join(out))

def lib_sources(dirs, off):
    r = []
    for sub in dirs:
        for f in sorted(glob.glob(os.path.join(SRC, sub, "**", "*.cpp"), recursive=True)):
            b = os.path.basename(f)
            if "kqueue" in b: continue
            if "looper_epoll" in b and "CY_HAVE_EPOLL" in off: continue
            if "looper_select" in b and "CY_HAVE_EPOLL" not in off: continue
            r.append(f)
    return r

INC = ["cyCore", "cyEvent", "cyNetwork", "cyCrypt", "cyUtility"]
BASE = ["-std=gnu++14", "-ftrivial-auto-var-init=pattern", "-include", "memory", "-g", "-w", "-fno-omit-frame-pointer"]
ENGINES = {
    "seq": dict(cc=["-O1", "-fsanitize=address"], ld=["-fsanitize=address", "-lpthread"], src=["engine/seqmc.cpp"]),
    "mcrt": dict(cc=["-O1"], cc_repo=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-pie"], cc_engine=["-O2", "-std=gnu++17", "-fno-pie"],
                 ld=["-no-pie", "-rdynamic", "-lpthread", "-ldl"], src=["engine/mcrt.cpp", "engine/mclibc.cpp", "engine/simk.cpp"]),
    "seqfast": dict(cc=["-O2"], ld=["-lpthread"], src=["engine/seqmc.cpp"]),
}

def build(unit, bdir):
    """unit: dict(name, engine, harness[], dirs[], off[], defs[], pre[], ld[], repo_src[])"""
    eng = ENGINES[unit["engine"]]
    d = os.path.join(bdir, unit["name"]); os.makedirs(d, exist_ok=True)
    gen_config(d, unit.get("off", []))
    inc = ["-I" + d] + ["-I" + os.path.join(SRC, i) for i in INC] + ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
    inc += ["-I" + os.path.join(REPO, i) for i in unit.get("inc", [])]
    jobs = []
    for f in lib_sources(unit.get("dirs", ["cyCore", "cyCrypt"]), unit.get("off", [])): jobs.append((f, eng["cc"] + eng.get("cc_repo", [])))
    for f in unit.get("repo_src", []):
        extra = []
        if isinstance(f, tuple): f, extra = f[0], list(f[1])
        jobs.append((f if os.path.isabs(f) else os.path.join(REPO, f), eng["cc"] + eng.get("cc_repo", []) + extra))
    for f in unit["harness"]: jobs.append((os.path.join(VERIF, "harness", f), eng["cc"] + eng.get("cc_repo", [])))
    for f in eng["src"]: jobs.append((os.path.join(VERIF, f), eng["cc"] + eng.get("cc_engine", [])))
    objs = []
    pre = list(unit.get("pre", []))      # extra flags for the code under test and the harness; given up if the sources no longer compile with them
    def comp(i, f, fl):
        if i < len(jobs) - len(eng["src"]): fl = fl + pre
        o = os.path.join(d, "%02d_%s.o" % (i, os.path.basename(f)))
        p = subprocess.run(["clang++"] + BASE + fl + unit.get("defs", []) + inc + ["-c", f, "-o", o], capture_output=True, text=True)
        if p.returncode: raise CheckError("compile of %s failed:\n%s" % (f, p.stderr[-4000:]))
        return o
    for last in ([False, True] if pre else [True]):
        try:
            with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda a: comp(a[0], a[1][0], a[1][1]), enumerate(jobs)))
            break
        except CheckError:
            if last: raise
            pre = []
    exe = os.path.join(d, unit["name"])
    p = subprocess.run(["clang++"] + objs + ["-o", exe] + eng["ld"] + unit.get("ld", []), capture_output=True, text=True)
    if p.returncode: raise CheckError("link failed:\n" + p.stderr[-4000:])
    return exe

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    keep = "--keep" in a
    chk = CHECKS[pid]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0; results = []; viol = []
    try:
        runs = [r for r in chk["runs"] if r.get("tier", "both") in ("both", tier) and (not only or r["tag"] == only)]
        need = {r["unit"] for r in runs}
        exes = {}
        for u in chk["units"]:
            if u["name"] in need: exes[u["name"]] = build(u, bdir)
        tb = time.time() - t0
        for r in runs:
            out = os.path.join(bdir, r["tag"] + ".json")
            args = list(r.get("args", [])) + list(r.get(tier, []))
            cmd = [exes[r["unit"]], "--out", out, "--replay-dir", rdir, "--tag", "%s-%s" % (pid, r["tag"]), "--shards", str(NCPU)]
            if tier == "thorough": cmd.append("--thorough")
            if r.get("limit"): cmd += ["--limit", str(r["limit"][tier] if isinstance(r["limit"], dict) else r["limit"])]
            cmd += args
            env = dict(os.environ); env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096"
            try:
                p = subprocess.run(cmd, env=env, cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=r.get("timeout", 850))
            except subprocess.TimeoutExpired:
                raise CheckError("run %s timed out" % r["tag"])
            if not os.path.exists(out) or p.returncode not in (0, 1):
                raise CheckError("run %s ended with %d: %s" % (r["tag"], p.returncode, p.stdout.decode(errors="replace")[-2000:]))
            j = json.load(open(out)); j["cmd_args"] = args; j["what"] = r.get("what", ""); results.append(j)
            print("%s %s: rc=%d paths=%d states=%d transitions=%d %s%.1fs" % (pid, r["tag"], j["rc"], j["paths"], j["states"], j["transitions"], "CAPPED " if j["capped"] else "", j["wall_s"]), flush=True)
            if j["rc"] == 1:
                viol.append((r["tag"], j))
                print("VIOLATION property=%s replay=%s" % (pid, j["replay"]))
                print("  %s\n  on: %s" % (j["message"], j["note"][-1500:]), flush=True)
                rc = 1
                break
    except CheckError as e:
        print("ERROR: %s" % e); rc = 2
    finally:
        if keep: print("kept", bdir)
        else: shutil.rmtree(bdir, ignore_errors=True)
    if rc != 2:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m and m.group(1) == pid: print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2)))
    samples = []
    for j in results:
        for s in j.get("samples", [])[:2]: samples.append("[%s] %s" % (j["tag"], s[:600]))
    cov = dict(states=sum(j["states"] for j in results), transitions=sum(j["transitions"] for j in results),
               traces_validated_against_impl=sum(j["paths"] for j in results),
               samples=samples or ["none"], evaluations=sum(j["paths"] for j in results),
               exhaustive=bool(results) and not any(j["capped"] for j in results),
               runs=[{k: j.get(k) for k in ("tag", "what", "paths", "discarded", "states", "transitions", "max_depth", "capped", "wall_s", "cmd_args", "detail")} for j in results],
               explanation=chk.get("explain", ""))
    if rc != 2:
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=chk.get("level", "model_checking"), coverage=cov,
                  assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    sys.exit(rc)
main()
