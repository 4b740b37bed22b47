#!/usr/bin/env python3
"""mut.py SEED COUNT [SLOTS] [SECS]: random small changes of the library, in scratch copies; prints for every
change that still passes the unit tests which properties' workers (dev build only, one shard) notice it.
Development tool: finds blind spots of the monitors. Nothing here is used by a check."""
import json, os, random, re, shutil, signal, subprocess, sys, time
from multiprocessing import Process, Queue
sys.path.insert(0, "/verif")
import check
ROOT = "/tmp/mut"
PROPS = ["C%02d" % i for i in range(1, 29) if i not in (22, 25)]
FILES = [("src/" + f) for f in ("core.rs", "env.rs", "exception.rs", "facility.rs", "file_access.rs", "float.rs", "loader.rs", "memory.rs", "mock_vm.rs", "output.rs", "parser.rs", "tools.rs", "units.rs")] + ["core.fth"]

OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"saturating_add", ["wrapping_add"]),
       (r"TRUE", ["FALSE"]), (r"FALSE", ["TRUE"]), (r"\bs_stack\b", ["r_stack"]), (r"pop2\(\)", ["pop2_swapped"]), (r"\.\.=", [".."]),
       (r"ALIGNMENT", ["1", "4"]), (r"checked_add", ["checked_sub"]), (r"isize::MIN", ["isize::MAX"]), (r"unwrap_or\(", ["unwrap_or(1 + "]),
       (r"\bu8\b", ["i8"]), (r"\bi64\b", ["i32"]), (r"mem::size_of::<isize>\(\)", ["4", "16"]), (r"mem::size_of::<f64>\(\)", ["4"]), (r"push\(n1\)", ["push(n2)"]), (r"/ ", ["% "])]


def sites():
    out = []
    for f in FILES:
        t = open("/repo/" + f).read()
        if f.endswith(".rs"):
            i = t.find("#[cfg(test)]\nmod tests")
            if i < 0:
                i = t.find("#[cfg(test)]")
            end = len(t) if i < 0 else i
            pos = 0
            for ln, line in enumerate(t[:end].split("\n")):
                s = line.strip()
                if not (s.startswith("//") or s.startswith("use ") or s.startswith("#[")):
                    code = line.split("//")[0]
                    for pat, reps in OPS:
                        for m in re.finditer(pat, code):
                            for r in reps:
                                if r == "pop2_swapped":
                                    continue
                                out.append((f, pos + m.start(), pos + m.end(), r, ln + 1))
                    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
                        v = int(m.group(1))
                        for r in ({v + 1, max(0, v - 1)} - {v}):
                            out.append((f, pos + m.start(), pos + m.end(), str(r), ln + 1))
                    # drop a statement
                    if re.match(r"^(self|vm|[a-z_]+)\.[\w().&*, ]*\(.*\);$", s) or re.match(r"^\*?[\w.]+ [-+]?= .*;$", s) or s == "return;":
                        out.append((f, pos, pos + len(line), "", ln + 1))
                    m = re.match(r"^(\s*)(\} else )?if (?!let)(.*) \{$", line)
                    if m:
                        a = pos + line.index("if ") + 3
                        out.append((f, a, pos + len(line) - 2, "true", ln + 1))
                        out.append((f, a, pos + len(line) - 2, "false", ln + 1))
                    m = re.match(r"^(\s*)let \((\w+), (\w+)\) = (.*pop2\(\);)$", line)
                    if m:
                        out.append((f, pos, pos + len(line), "%slet (%s, %s) = %s" % (m.group(1), m.group(3), m.group(2), m.group(4)), ln + 1))
                    m = re.match(r"^(.*abort_with\()(\w+)(\).*)$", line)
                    if m:
                        r = "INVALID_MEMORY_ADDRESS" if m.group(2) != "INVALID_MEMORY_ADDRESS" else "UNDEFINED_WORD"
                        out.append((f, pos, pos + len(line), m.group(1) + r + m.group(3), ln + 1))
                pos += len(line) + 1
        else:
            toks = [(m.start(), m.end()) for m in re.finditer(r"\S+", t)]
            cm = [(m.start(), m.end()) for m in re.finditer(r"\\ .*|\( .*?\)", t)]
            toks = [x for x in toks if not any(a <= x[0] < b for a, b in cm)]
            for k, (a, b) in enumerate(toks):
                w = t[a:b]
                ln = t[:a].count("\n") + 1
                out.append((f, a, b, "", ln))
                if k + 1 < len(toks):
                    c, d = toks[k + 1]
                    out.append((f, a, d, t[c:d] + " " + t[a:b], ln))
                if re.fullmatch(r"-?\d+", w):
                    out.append((f, a, b, str(int(w) + 1), ln))
                for x, y in (("<", ">"), ("+", "-"), ("-", "+"), ("=", "<>"), ("if", "0= if"), ("dup", "drop"), ("0=", ""), ("over", "dup"), ("swap", ""), ("@", "c@"), ("!", "c!"), ("cells", "chars"), ("aligned", ""), ("and", "or"), (">=", ">"), ("until", "0= until")):
                    if w == x:
                        out.append((f, a, b, y, ln))
    return out


ENV = check.sh_env()


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -999, ""


def dropf():
    os.setsid()
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def slot(n, q, res, secs, stable):
    d = "%s/s%d" % (ROOT, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    for x in ("rtf", "core.fth"):
        pass
    shutil.copytree("/verif/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % d)
    open(d + "/harness/Cargo.toml", "w").write(c)
    w = d + "/w"
    te = dict(ENV, CARGO_TARGET_DIR=d + "/tt", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
    he = dict(ENV, CARGO_TARGET_DIR=d + "/ht")
    while True:
        m = q.get()
        if m is None:
            return
        f, a, b, r, ln = m
        p = d + "/repo/" + f
        t = open("/repo/" + f).read()
        open(p, "w").write(t[:a] + r + t[b:])
        la = t.rfind("\n", 0, a) + 1
        lb = t.find("\n", b)
        desc = dict(file=f, line=ln, old=t[la:lb], new=t[la:a] + r + t[b:lb], a=a, b=b, r=r)
        try:
            rc, o = sh(["cargo", "test", "--offline", "--no-fail-fast", "--lib", "--", "--test-threads", "2"], d + "/repo", 240, te)
            if "could not compile" in o or rc == -999:
                desc["status"] = "nobuild" if rc != -999 else "tests hang"
                res.put(desc)
                continue
            ok = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M))
            if not all(s.split("::", 1)[1] in ok for s in stable if s.startswith("rtforth:src/lib.rs")):
                desc["status"] = "killed by tests"
                res.put(desc)
                continue
            rc, o = sh(["cargo", "build", "--offline"], d + "/harness", 400, he)
            if rc:
                desc["status"] = "harness does not build"
                res.put(desc)
                continue
            caught = {}
            for pr in PROPS:
                shutil.rmtree(w, ignore_errors=True)
                os.makedirs(w)
                os.chown(w, 65534, 65534)
                open(w + "/consts.txt", "w").write(" ".join(map(str, check.mined_constants())))
                pp = subprocess.Popen([d + "/ht/debug/vh", "worker", pr, "1", "quick", "0", "8", "1000000000", str(secs), w, "x"], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=dropf, env=dict(ENV, HOME=w))
                try:
                    _, e = pp.communicate(timeout=60)
                    rc = pp.returncode
                except subprocess.TimeoutExpired:
                    os.killpg(pp.pid, signal.SIGKILL)
                    pp.communicate()
                    rc = -999
                try:
                    v = json.load(open(w + "/res.x.0.json"))["violations"]
                except Exception:
                    v = [dict(sig="died %s" % rc)]
                if v:
                    caught[pr] = v[0]["sig"]
            desc["status"] = "survived" if not caught else "caught"
            desc["caught"] = caught
            res.put(desc)
        except Exception as e:
            desc["status"] = "error %r" % e
            res.put(desc)
        finally:
            open(p, "w").write(t)


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    slots = int(sys.argv[3]) if len(sys.argv) > 3 else 7
    secs = float(sys.argv[4]) if len(sys.argv) > 4 else 3
    s = sites()
    rng = random.Random(seed)
    rng.shuffle(s)
    only = os.environ.get("ONLY")
    if only:
        s = [x for x in s if re.search(only, "%s:%d" % (x[0], x[4]))]
    print(len(s), "sites", flush=True)
    q, res = Queue(), Queue()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for m in s[:count]:
        q.put(m)
    for _ in range(slots):
        q.put(None)
    ps = [Process(target=slot, args=(i, q, res, secs, stable)) for i in range(slots)]
    [p.start() for p in ps]
    out = open("/tmp/mut/log.%d.jsonl" % seed, "a")
    for _ in range(min(count, len(s))):
        r = res.get()
        out.write(json.dumps(r) + "\n")
        out.flush()
        print(r["status"], "%s:%d" % (r["file"], r["line"]), ("[%s] -> [%s]" % (r["old"].strip(), r["new"].strip()))[:200], " ".join(r.get("caught", {})), flush=True)
    [p.join() for p in ps]


if __name__ == "__main__":
    main()
