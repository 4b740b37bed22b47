"""C25 under Miri: cases of the small mode in the interpreter that detects undefined behaviour.

Isolation is on, so nothing the interpreted program does reaches the file system. A worker is ended at
the deadline in the middle of a case; only what it reported before counts.
"""
import os, re, signal, subprocess, time
import check


def command(prop, seed, shard, n, top):
    return ["cargo", "miri", "run", "-q", "--offline", "--manifest-path", check.VERIF + "/harness/Cargo.toml", "--",
            "miri", prop, str(seed), str(shard), str(n), str(top)]


def env():
    e = check.sh_env()
    e["CARGO_TARGET_DIR"] = check.target_dir() + "/miri"
    e["MIRIFLAGS"] = "-Zmiri-permissive-provenance -Zmiri-isolation-error=hide -Zmiri-ignore-leaks"
    e["RUST_BACKTRACE"] = "0"
    return e


def run(r, bins):
    secs = 50 if r.tier == "quick" else 480
    n = check.NCPU
    e = env()
    # the build, and the first machine
    b = subprocess.run(command("C25", r.seed, 1, 1, 0), env=e, capture_output=True, text=True, timeout=600)
    if b.returncode != 0:
        r.notes.append("Miri could not be run here: " + b.stderr[-400:])
        r.inconclusive.append("Miri did not build the harness\n" + b.stderr[-2000:])
        return
    procs = []
    t0 = time.time()
    for s in range(n):
        out = open(os.path.join(r.dir, "miri.%d.out" % s), "wb")
        err = open(os.path.join(r.dir, "miri.%d.err" % s), "wb")
        procs.append((s, subprocess.Popen(command("C25", r.seed, s, n, 1 << 40), env=e, stdout=out, stderr=err,
                                          stdin=subprocess.DEVNULL, preexec_fn=os.setsid)))
    while time.time() - t0 < secs and all(p.poll() is None for _, p in procs):
        time.sleep(0.5)
    done = 0
    seen = {}
    # let every worker finish at least one case
    for s, p in procs:
        path = os.path.join(r.dir, "miri.%d.out" % s)
        while p.poll() is None and time.time() - t0 < secs + 200 and b"DONE" not in open(path, "rb").read():
            time.sleep(0.5)
        rc = p.poll()
        if rc is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        out = open(path, errors="replace").read()
        err = open(os.path.join(r.dir, "miri.%d.err" % s), errors="replace").read()
        cases = re.findall(r"^CASE (\d+)", out, re.M)
        for m in re.finditer(r"^DONE (\d+) (.*)", out, re.M):
            done += 1
            for kv in filter(None, m.group(2).split(";")):
                k, v = kv.rsplit("=", 1)
                seen[k] = seen.get(k, 0) + int(v)
        for m in re.finditer(r"^FAIL (\d+) \[(.*?)\] (.*)", out, re.M):
            r.violations.append(dict(kind="miri", idx=int(m.group(1)), sig=m.group(2), msg=m.group(3), rec=out[-2000:]))
        if rc is not None:
            idx = int(cases[-1]) if cases else -1
            u = re.search(r"error: (Undefined Behavior: .*|abnormal termination: .*)", err)
            if u:
                r.violations.append(dict(kind="miri", idx=idx, sig="Miri: undefined behaviour" if "Undefined" in u.group(1) else "Miri: abnormal termination",
                                         msg=u.group(0) + "\n" + err[-3000:], rec=out[-2000:]))
            else:
                r.inconclusive.append("Miri worker %d ended with %s\n%s" % (s, rc, err[-1500:]))
    r.cases += done
    r.distinct.update(range(done))
    for k, v in seen.items():
        r.counters["under Miri: " + k] = r.counters.get("under Miri: " + k, 0) + v
    r.counters["cases under Miri"] = done
    if done == 0 and not r.violations:
        r.inconclusive.append("no case finished under Miri")
