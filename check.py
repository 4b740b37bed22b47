#!/usr/bin/env python3
"""check.py PROP quick|thorough      run the monitors of one property against /repo's working tree
check.py setup                       prebuild the harness (optional: every check builds what it needs)
check.py replay FILE                 run one recorded violation again

Exit 0: held on everything observed. Exit 1: a VIOLATION line was printed. Exit 2: no verdict.
"""
import hashlib, json, os, pwd, re, resource, select, shutil, signal, struct, subprocess, sys, tempfile, threading, time, tty

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import PROPS, TECH  # noqa

HARNESS = ("dev", "rel", "asan", "rtfvm")
NCPU = os.cpu_count() or 4
TRIPLE = "x86_64-unknown-linux-gnu"


def sh_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly-" + TRIPLE
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_files():
    out = []
    for base in ("src", "rtf"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x != "target"]
            out += [os.path.join(d, f) for f in fs]
    for f in ("core.fth", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    for base in ("harness", "rtfbin"):
        for d, ds, fs in os.walk(os.path.join(VERIF, base)):
            ds[:] = [x for x in ds if x != "target"]
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def target_dir():
    """Build output is keyed by the content of everything compiled, so a restored or patched file
    with an old time stamp can never leave a stale binary behind."""
    root = os.path.join(VERIF, "target")
    os.makedirs(root, exist_ok=True)
    key = tree_hash()
    mine = os.path.join(root, key)
    others = [os.path.join(root, d) for d in os.listdir(root) if d != key]
    others.sort(key=lambda p: os.path.getmtime(p))
    for p in others[:-6]:
        if time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(mine, exist_ok=True)
    os.utime(mine)
    return mine


class NoVerdict(Exception):
    pass


def build_cmd(kind, tgt):
    e = sh_env()
    if kind == "dev":
        e["CARGO_TARGET_DIR"] = tgt + "/dev"
        return ["cargo", "build", "--offline", "--manifest-path", VERIF + "/harness/Cargo.toml"], e, tgt + "/dev/debug/vh"
    if kind == "rel":
        e["CARGO_TARGET_DIR"] = tgt + "/rel"
        return ["cargo", "build", "--release", "--offline", "--manifest-path", VERIF + "/harness/Cargo.toml"], e, tgt + "/rel/release/vh"
    if kind == "asan":
        e["CARGO_TARGET_DIR"] = tgt + "/asan"
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        return (["cargo", "build", "--offline", "--target", TRIPLE, "--manifest-path", VERIF + "/harness/Cargo.toml"], e,
                tgt + "/asan/" + TRIPLE + "/debug/vh")
    if kind == "rtfvm":
        # the same harness around the machine of the rtf program
        e["CARGO_TARGET_DIR"] = tgt + "/rtfvm"
        return ["cargo", "build", "--offline", "--features", "rtfvm", "--manifest-path", VERIF + "/harness/Cargo.toml"], e, tgt + "/rtfvm/debug/vh"
    if kind == "rtf":
        e["CARGO_TARGET_DIR"] = tgt + "/rtf"
        return ["cargo", "build", "--offline", "--manifest-path", VERIF + "/rtfbin/Cargo.toml"], e, tgt + "/rtf/debug/rtf"
    raise ValueError(kind)


def build(kinds):
    tgt = target_dir()
    procs = []
    for k in kinds:
        if k == "miri":
            continue
        cmd, env, out = build_cmd(k, tgt)
        procs.append((k, out, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bins = {}
    for k, out, p in procs:
        log, _ = p.communicate(timeout=700)
        if p.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(log[-4000:])
            if k == "rtfvm":
                # Only an arrangement of rtf's sources that the harness cannot include: the others decide.
                continue
            raise NoVerdict("building %s failed" % k)
        bins[k] = out
    return bins


def strip_tests(s):
    i = s.find("#[cfg(test)]\nmod tests")
    return s if i < 0 else s[:i]


def mined_constants():
    """Integer constants in the tree under test: a fuzzer's auto-dictionary."""
    vals = set()
    for base in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                if f.endswith(".rs"):
                    with open(os.path.join(d, f), errors="replace") as fh:
                        t = strip_tests(fh.read())
                    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b", t):
                        x = m.group(1).replace("_", "")
                        try:
                            v = int(x, 0) if x.startswith("0x") else int(x)
                        except ValueError:
                            continue
                        if v < 1 << 63:
                            vals.add(v)
    try:
        with open(os.path.join(REPO, "core.fth")) as fh:
            for m in re.finditer(r"(?<!\S)\$?-?[0-9a-fA-F]+(?!\S)", fh.read()):
                x = m.group(0)
                try:
                    vals.add(int(x[1:], 16) if x[0] == "$" else int(x))
                except ValueError:
                    pass
    except OSError:
        pass
    return sorted(vals)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=\[(.*?)\] :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def drop(cfg):
    """Workers run as an unprivileged user with limits: what they execute is hostile on purpose."""
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))
        if cfg.get("as_limit"):
            resource.setrlimit(resource.RLIMIT_AS, (cfg["as_limit"], cfg["as_limit"]))
        os.umask(0o022)
        if os.geteuid() == 0:
            u = pwd.getpwnam("nobody")
            os.setgroups([])
            os.setgid(u.pw_gid)
            os.setuid(u.pw_uid)
    return f


def read_recorder(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return ""
    return b.split(b"\0", 1)[0].decode("utf-8", "replace")


class Tty:
    """A pseudo-terminal whose user holds down Ctrl-D: the rtf program's machine wants a terminal,
    and whatever reads from it sees the end of the input."""
    def __init__(self):
        self.master, self.slave = os.openpty()
        tty.setraw(self.slave)
        os.set_blocking(self.master, False)
        self.on = True
        self.thread = threading.Thread(target=self.feed, daemon=True)
        self.thread.start()

    def feed(self):
        # A cursor position report after every key: the line editor asks for it.
        while self.on:
            try:
                r, w, _ = select.select([self.master], [self.master], [], 0.5)
                if r:
                    os.read(self.master, 65536)
                if w:
                    os.write(self.master, b"\x04")
                if not r:
                    time.sleep(0.05)
            except BlockingIOError:
                time.sleep(0.2)
            except OSError:
                return

    def close(self):
        self.on = False
        self.thread.join()
        os.close(self.slave)
        os.close(self.master)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cfg = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vh.%s." % prop, dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, "w")
        os.mkdir(self.work)
        if os.geteuid() == 0:
            u = pwd.getpwnam("nobody")
            os.chown(self.work, u.pw_uid, u.pw_gid)
        self.violations, self.inconclusive = [], []
        self.counters, self.samples, self.distinct, self.cases = {}, [], set(), 0
        self.notes = []
        self.ttys = []
        self.missing = []

    def tty(self):
        self.ttys.append(Tty())
        return self.ttys[-1]

    def cleanup(self):
        for t in self.ttys:
            t.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, kind):
        e = sh_env()
        e["HOME"] = self.work
        e["RUST_BACKTRACE"] = "0"
        e["ASAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:detect_leaks=1:allocator_may_return_null=0:handle_segv=1:handle_abort=0"
        return e

    def secs(self):
        return float(os.environ.get("VH_SECS") or self.cfg["secs"][0 if self.tier == "quick" else 1])

    def plan(self):
        """[(kind, shards)]"""
        want = self.cfg.get("kinds", ["dev", "rel", "rtfvm"])
        if self.tier == "thorough":
            want = self.cfg.get("kinds_thorough", want)
        want = [k for k in want if k in HARNESS and k not in self.missing]
        if os.environ.get("VH_KINDS"):
            want = os.environ["VH_KINDS"].split()
        if "rtfvm" in want and len(want) > 1:
            n = max(1, (NCPU - 2) // (len(want) - 1))
            return [(k, 2 if k == "rtfvm" else n) for k in want]
        n = max(1, NCPU // len(want))
        return [(k, n) for k in want]

    def run_workers(self, bins):
        with open(os.path.join(self.work, "consts.txt"), "w") as f:
            f.write(" ".join(map(str, mined_constants())))
        procs = []
        for kind, n in self.plan():
            exe = os.path.join(self.dir, "vh." + kind)
            shutil.copy(bins[kind], exe)
            os.chmod(exe, 0o755)
            cap = self.cfg.get("max_cases", 1 << 40)
            for s in range(n):
                # shards of different builds see different cases, except that all start at the front
                cmd = [exe, "worker", self.prop, str(self.seed), self.tier, str(s), str(n), str(cap), str(self.secs()), self.work, kind]
                cfg = dict(as_limit=None if kind == "asan" else self.cfg.get("as_limit", 3 << 30))
                err = open(os.path.join(self.dir, "err.%s.%d" % (kind, s)), "wb")
                term = self.tty() if kind == "rtfvm" else None
                p = subprocess.Popen(cmd, env=self.env(kind), cwd=self.work, stdout=subprocess.DEVNULL, stderr=err,
                                     stdin=term.slave if term else subprocess.DEVNULL, preexec_fn=drop(cfg))
                procs.append((kind, s, n, p))
        deadline = time.time() + self.secs() * 1.5 + 150
        for kind, s, n, p in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.inconclusive.append("worker %s.%d exceeded the wall-clock watchdog:\n%s" % (kind, s, read_recorder("%s/cur.%s.%d" % (self.work, kind, s))[-2000:]))
                continue
            self.collect(kind, s, n, p)

    def collect(self, kind, s, n, p):
        res = "%s/res.%s.%d.json" % (self.work, kind, s)
        if p.returncode == 0 and os.path.exists(res):
            d = json.load(open(res))
            self.cases += d["cases"]
            for k, v in d["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            if s == 0:
                self.samples += d["samples"][:2]
            b = open("%s/dis.%s.%d" % (self.work, kind, s), "rb").read()
            self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            for v in d["violations"]:
                self.violations.append(dict(kind=kind, shard=s, nshards=n, **v))
            return
        rec = read_recorder("%s/cur.%s.%d" % (self.work, kind, s))
        m = re.match(r"case (\d+)", rec)
        idx = int(m.group(1)) if m else -1
        err = open(os.path.join(self.dir, "err.%s.%d" % (kind, s)), "rb").read().decode("utf-8", "replace")
        if p.returncode in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT) or idx < 0:
            self.inconclusive.append("worker %s.%d ended with %s\n%s" % (kind, s, p.returncode, err[-1500:]))
            return
        rc = p.returncode
        pan = re.findall(r"^PANIC (.*)$", rec, re.M)
        if "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err:
            mm = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
            sig = "%s %s" % (mm.group(1), mm.group(2)) if mm else "AddressSanitizer"
        elif rc == -signal.SIGVTALRM:
            sig = "host wedged"
        elif rc < 0:
            sig = "host killed by signal %d" % -rc
        elif pan and rc == 101:
            sig = "host panic"
        else:
            self.inconclusive.append("worker %s.%d ended with %s\n%s" % (kind, s, rc, err[-1500:]))
            return
        msg = "the process running the virtual machine died (%s)" % sig
        if pan:
            msg += "; panic: " + pan[-1]
        msg += "\n" + err[-3000:]
        self.violations.append(dict(kind=kind, shard=s, nshards=n, idx=idx, sig=sig, msg=msg, rec=rec))

    def confirm(self, v, bins):
        """Replay in a fresh process. Needed only where the observation itself could be disturbed
        (CPU-time limit); everything else is deterministic."""
        exe = os.path.join(self.dir, "vh." + v["kind"])
        if not os.path.exists(exe) or v["idx"] < 0:
            return None
        try:
            term = self.tty().slave if v["kind"] == "rtfvm" else subprocess.DEVNULL
            p = subprocess.run([exe, "replay", self.prop, str(self.seed), self.tier, str(v["idx"]), self.work],
                               env=self.env(v["kind"]), cwd=self.work, capture_output=True, timeout=300, stdin=term,
                               preexec_fn=drop(dict(as_limit=None if v["kind"] == "asan" else self.cfg.get("as_limit", 3 << 30))))
            return p.returncode != 0
        except subprocess.TimeoutExpired:
            return True

    def write_replay(self, v):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.prop, seed=self.seed, tier=self.tier, kind=v.get("kind"), idx=v.get("idx"), sig=v["sig"],
                    msg=v["msg"], recorded=v.get("rec", ""), reproduced=v.get("reproduced"),
                    how="python3 /verif/check.py replay <this file>")
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        return path

    def finish(self):
        known = known_findings(self.prop)
        seen_known = set()
        fresh = []
        for v in self.violations:
            hit = [k for k in known if k[0] == v["sig"]]
            if hit:
                seen_known.add(hit[0])
            else:
                fresh.append(v)
        for sig, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        bysig = {}
        for v in fresh:
            bysig.setdefault(v["sig"], v)
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.cases, distinct_nontrivial=len(self.distinct), rule=self.cfg["rule"],
                                samples=self.samples[:4], observed=self.counters, builds=self.cfg.get("kinds", ["dev", "rel", "rtfvm"]),
                                notes=self.notes),
                  assumptions=self.cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(bysig))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i in self.inconclusive:
            print("INCONCLUSIVE: " + i.splitlines()[0])
            sys.stderr.write(i + "\n")
        for sig, v in list(bysig.items())[:6]:
            p = self.write_replay(v)
            print("  [%s] %s" % (sig, v["msg"][:600].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d cases, %d distinct, %s, %.1fs" % (self.prop, self.tier, self.cases, len(self.distinct),
              "VIOLATED" if bysig else "held", wall))
        if bysig:
            return 1
        if self.inconclusive or self.cases == 0 or not self.distinct:
            print("NO VERDICT: " + ("inconclusive" if self.inconclusive else "nothing was observed"))
            return 2
        return 0


def main():
    if sys.argv[1] == "setup":
        try:
            build(["dev", "rel", "asan", "rtfvm", "rtf"])
        except NoVerdict as e:
            print(e)
        return 0
    if sys.argv[1] == "replay":
        b = json.load(open(sys.argv[2]))
        if b.get("kind") == "pty":
            import c22
            r = Run(b["property"], b["tier"])
            try:
                return c22.replay(b, build(["rtf"])["rtf"], r.work)
            finally:
                r.cleanup()
        if b.get("idx") is None or b["idx"] < 0 or b.get("kind") not in HARNESS:
            print(json.dumps(b, indent=1))
            return 0
        os.environ["VERIF_SEED"] = str(b["seed"])
        r = Run(b["property"], b["tier"])
        try:
            exe = build([b["kind"]])[b["kind"]]
            with open(os.path.join(r.work, "consts.txt"), "w") as f:
                f.write(" ".join(map(str, mined_constants())))
            return subprocess.call([exe, "replay", b["property"], str(b["seed"]), b["tier"], str(b["idx"]), r.work],
                                   env=r.env(b["kind"]), cwd=r.work, stdin=r.tty().slave if b["kind"] == "rtfvm" else None)
        finally:
            r.cleanup()
    prop, tier = sys.argv[1], sys.argv[2]
    r = Run(prop, tier)
    try:
        kinds = list(r.cfg.get("kinds", ["dev", "rel", "rtfvm"]))
        if tier == "thorough":
            kinds = list(r.cfg.get("kinds_thorough", kinds))
        if os.environ.get("VH_KINDS"):
            kinds = os.environ["VH_KINDS"].split()
        bins = build(kinds)
        r.missing = [k for k in kinds if k not in bins and k != "miri"]
        if r.missing:
            r.notes.append("not built: " + " ".join(r.missing))
        if [k for k in kinds if k in HARNESS]:
            r.run_workers(bins)
        for extra in r.cfg.get("extra", []):
            __import__(extra).run(r, bins)
        keep = []
        for v in r.violations:
            if v.get("kind") in HARNESS:
                if v["sig"] not in [k["sig"] for k in keep]:
                    v["reproduced"] = r.confirm(v, bins)
                    if v["sig"] == "host wedged" and not v["reproduced"]:
                        r.inconclusive.append("a CPU-time limit that did not reproduce: case %s" % v["idx"])
                        continue
            keep.append(v)
        r.violations = keep
        return r.finish()
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        return 2
    finally:
        r.cleanup()


if __name__ == "__main__":
    sys.exit(main())
