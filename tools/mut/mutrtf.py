#!/usr/bin/env python3
"""mutrtf.py SEED COUNT: random small changes of the rtf program, in /repo itself (one at a time, undone each time);
prints which the checks that run the program notice. Development tool."""
import os, random, subprocess, sys
sys.path.insert(0, "/verif/tools/mut")
import mut
mut.FILES = ["rtf/src/main.rs", "rtf/src/term.rs"]
rng = random.Random(int(sys.argv[1]))
S = mut.sites()
rng.shuffle(S)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout
seen = set()
for f, a, b, r, ln in S:
    if len(seen) >= int(sys.argv[2]): break
    if (f, ln) in seen: continue
    p = "/repo/" + f
    t = open(p).read()
    la, lb = t.rfind("\n", 0, a) + 1, t.find("\n", b)
    open(p, "w").write(t[:a] + r + t[b:])
    try:
        o = sh("bash /opt/vp/build.sh")
        if o.returncode: continue
        seen.add((f, ln))
        print("%s:%d\n  - %s\n  + %s" % (f, ln, t[la:lb].strip(), (t[la:a] + r + t[b:lb]).strip()), flush=True)
        hit = ""
        for c, env in [("C22", {})] + [(x, {"VH_KINDS": "rtfvm", "VH_SECS": "8"}) for x in ("C14", "C15", "C16", "C18", "C13", "C17", "C23", "C24", "C03", "C05", "C07", "C28")]:
            try:
                o = sh("python3 check.py %s quick" % c, cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", **env), timeout=900)
            except subprocess.TimeoutExpired:
                print("   ", c, "TIMEOUT", flush=True); continue
            if o.returncode:
                hit = c; print("    noticed by", c, o.stdout.strip().splitlines()[0][:150] if o.stdout.strip() else o.stderr[-200:], flush=True); break
        if not hit: print("    SURVIVES", flush=True)
    finally:
        open(p, "w").write(t)
