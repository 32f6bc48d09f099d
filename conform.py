#!/usr/bin/env python3
"""conform.py [depth] - compares the simulated kernel (engine/simk) with the kernel this machine runs.
Every script of system calls up to the depth is executed on simk, then the same scripts on the real kernel
(loopback sockets, pipes, timers, epoll, poll, select); the answers of all calls are compared. Not a check."""
import os, sys, subprocess, tempfile, shutil, collections
V = os.path.dirname(os.path.abspath(__file__)); depth = sys.argv[1] if len(sys.argv) > 1 else "3"
d = tempfile.mkdtemp(prefix="conform-", dir="/tmp")
try:
    cc = ["clang++", "-std=gnu++17", "-g", "-w", "-I" + V + "/engine"]
    o = []
    for f, fl in (("conform/conform.cpp", ["-DSIM", "-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-pie"]), ("engine/mcrt.cpp", ["-O2", "-fno-pie"]), ("engine/mclibc.cpp", ["-O2", "-fno-pie"]), ("engine/simk.cpp", ["-O2", "-fno-pie"])):
        o.append(os.path.join(d, os.path.basename(f) + ".o")); subprocess.check_call(cc + fl + ["-c", os.path.join(V, f), "-o", o[-1]])
    subprocess.check_call(["clang++"] + o + ["-o", d + "/sim", "-no-pie", "-rdynamic", "-lpthread", "-ldl"])
    subprocess.check_call(cc + ["-O1", V + "/conform/conform.cpp", "-o", d + "/real"])
    bad = 0
    for kind, name in enumerate(("connected sockets", "pipe", "connecting and accepting", "timer and event counter")):
        raw = d + "/sim%d.txt" % kind
        p = subprocess.run([d + "/sim", "--out", d + "/o.json", "--replay-dir", d, "--tag", "conform", "--shards", "8", "kind=%d" % kind, "depth=" + depth], env=dict(os.environ, CONFORM_OUT=raw), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: print(p.returncode, p.stdout[-1500:]); print(open(d+"/o.json").read()[:1500] if os.path.exists(d+"/o.json") else ""); sys.exit(2)
        sim = sorted(set(open(raw).read().splitlines())); open(raw, "w").write("\n".join(sim) + "\n")
        subprocess.check_call([d + "/real"], env=dict(os.environ, CONFORM_IN=raw, CONFORM_OUT=d + "/real.txt"))
        real = open(d + "/real.txt").read().splitlines(); n = 0; seen = collections.Counter(); rows = []
        for s, r in zip(sim, real):
            if s.strip() == r.strip(): continue
            n += 1; a = s.split("|"); b = r.split("|")
            for x, y in zip(a, b):
                if x != y: break
            rows.append((s.split(":")[0], x.strip(), y.strip()))
        print("%s: %d scripts, %d differ" % (name, len(sim), n)); bad += n
        for q in rows[:int(os.environ.get("SHOW", "8"))]: print("   %s\n      simk: %s\n      real: %s" % q)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
