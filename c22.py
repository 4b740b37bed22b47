"""C22: the interactive program on a pseudo-terminal.

A small terminal emulator shows what the user sees; a model of the line editor says what must be on the
line and where the cursor is after every key, and a model of a subset of the language says what every
entered line prints. History files are compared with the model after every session.
"""
import copy, errno, fcntl, hashlib, json, os, pty, pwd, random, re, select, shutil, signal, struct, sys, termios, time, traceback, unicodedata

TIMEOUT = 25.0


def width(ch):
    if unicodedata.combining(ch):
        return 0
    return 2 if unicodedata.east_asian_width(ch) in "WF" else 1


def swidth(s):
    return sum(width(c) for c in s)


class Bad(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig, self.msg = sig, msg


class Screen:
    """Rows of cells; understands what a line editor may reasonably send."""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.cells = [[" "] * cols for _ in range(rows)]
        self.r = self.c = 0
        self.pend = b""
        self.replies = b""
        self.unknown = []

    def lf(self):
        if self.r == self.rows - 1:
            self.cells.pop(0)
            self.cells.append([" "] * self.cols)
        else:
            self.r += 1

    def put(self, ch):
        w = width(ch)
        if w == 0:
            if self.c > 0:
                k = self.c - 1
                while k > 0 and self.cells[self.r][k] == "":
                    k -= 1
                self.cells[self.r][k] += ch
            return
        if self.c + w > self.cols:
            self.c = 0
            self.lf()
        self.cells[self.r][self.c] = ch
        if w == 2:
            self.cells[self.r][self.c + 1] = ""
        self.c = min(self.c + w, self.cols)

    def csi(self, par, fin):
        p = [int(x) if x.isdigit() else 0 for x in par.lstrip("?").split(";")] if par.lstrip("?") else []
        a = p[0] if p else 0
        n = max(1, a)
        row = self.cells[self.r]
        c = min(self.c, self.cols - 1)
        if fin == "n" and a == 6:
            self.replies += b"\x1b[%d;%dR" % (self.r + 1, c + 1)
        elif fin in "Hf":
            self.r = min(max(1, a), self.rows) - 1
            self.c = min(max(1, p[1] if len(p) > 1 else 1), self.cols) - 1
        elif fin == "K":
            lo, hi = (c, self.cols) if a == 0 else (0, c + 1) if a == 1 else (0, self.cols)
            for k in range(lo, hi):
                row[k] = " "
        elif fin == "J":
            lo, hi = (self.r + 1, self.rows) if a == 0 else (0, self.r) if a == 1 else (0, self.rows)
            for k in range(lo, hi):
                self.cells[k] = [" "] * self.cols
            if a == 0:
                self.csi("0", "K")
        elif fin == "A":
            self.r = max(0, self.r - n)
        elif fin == "B":
            self.r = min(self.rows - 1, self.r + n)
        elif fin == "C":
            self.c = min(self.cols - 1, self.c + n)
        elif fin == "D":
            self.c = max(0, c - n)
        elif fin == "G":
            self.c = min(max(1, a), self.cols) - 1
        elif fin in "mhl":
            pass
        else:
            self.unknown.append(par + fin)

    def feed(self, data):
        b = self.pend + data
        self.pend = b""
        i = 0
        while i < len(b):
            x = b[i]
            if x == 0x1b:
                m = re.match(rb"\x1b\[([0-9;?]*)([@-~])", b[i:])
                if m:
                    self.csi(m.group(1).decode(), m.group(2).decode())
                    i += m.end()
                    continue
                if len(b) - i < 24 and re.match(rb"\x1b(\[[0-9;?]*)?$", b[i:]):
                    self.pend = b[i:]
                    return
                i += 2
                continue
            if x == 13:
                self.c = 0
            elif x == 10:
                self.lf()
            elif x == 8:
                self.c = max(0, self.c - 1)
            elif x < 32 or x == 127:
                pass
            else:
                n = 1 if x < 0x80 else 2 if x < 0xe0 else 3 if x < 0xf0 else 4
                if i + n > len(b):
                    self.pend = b[i:]
                    return
                self.put(b[i:i + n].decode("utf-8", "replace"))
                i += n
                continue
            i += 1

    def line(self, r):
        return "".join(self.cells[r]).rstrip(" ")


class Editor:
    """What the user may rely on: insertion at the cursor, deletion before it, movement by characters,
    recall of entered lines in order."""

    def __init__(self, history):
        self.history = history[-32:]
        self.fresh()

    def fresh(self):
        self.history.append("")
        self.buf = ""
        self.x = 0
        self.h = len(self.history) - 1

    def key(self, k):
        if k == "left":
            self.x = max(0, self.x - 1)
        elif k == "right":
            self.x = min(len(self.buf), self.x + 1)
        elif k == "bs":
            if self.x > 0:
                self.buf = self.buf[:self.x - 1] + self.buf[self.x:]
                self.x -= 1
        elif k in ("up", "down"):
            self.history[self.h] = self.buf
            self.h = max(0, self.h - 1) if k == "up" else min(len(self.history) - 1, self.h + 1)
            self.buf = self.history[self.h]
            self.x = len(self.buf)
        elif k == "nop":
            pass
        else:
            self.buf = self.buf[:self.x] + k + self.buf[self.x:]
            self.x += len(k)

    def enter(self):
        line = self.buf
        if line == "":
            self.history.pop()
        else:
            self.history[-1] = line
        self.fresh()
        return line

    def saved(self):
        a = self.history[-32:]
        b = [x for x in self.history[:-1] if x][-32:]
        return [[x for x in a if x], b, [x for x in self.history if x][-32:]]


class Forth:
    """The subset of the language the sessions are written in."""
    PRIM = {"+", "-", "*", "dup", "drop", "swap", "over", ".", "negate", "1+", ".s", "depth", "noop", "emit", "/", "cr", "space", "flush-output", "flush-to-err"}

    def __init__(self):
        self.s, self.words, self.cur, self.amb = [], {}, None, False

    def num(self, t):
        return int(t) if re.fullmatch(r"-?[0-9]{1,15}", t) else None

    def unknown(self, t):
        """Certainly neither a word nor a number of the full language."""
        return "'" not in t and (not t.isascii() or re.fullmatch(r"[qz9#]*[qz]+[qz9#]*", t) is not None or re.fullmatch(r"[wm][0-9]{1,2}", t) is not None)

    def prim(self, w, out, inner=False):
        s = self.s
        need = {"+": 2, "-": 2, "*": 2, "/": 2, "dup": 1, "drop": 1, "swap": 2, "over": 2, ".": 1, "negate": 1, "1+": 1, "emit": 1}.get(w, 0)
        if len(s) < need:
            # too few items are noticed when the interpreted word ends with a negative depth
            delta = {"+": -1, "-": -1, "*": -1, "drop": -1, ".": -1, "emit": -1}.get(w, 0)
            if inner or w == "emit" or len(s) + delta >= 0:
                self.amb = True
            return "Stack underflow"
        if w in "+-*/":
            b, a = s.pop(), s.pop()
            if w == "/":
                if b == 0:
                    return "Division by zero"
                q = abs(a) // abs(b)
                r = q if (a < 0) == (b < 0) else -q
            else:
                r = a + b if w == "+" else a - b if w == "-" else a * b
            s.append(((r + (1 << 63)) % (1 << 64)) - (1 << 63))
        elif w == "dup":
            s.append(s[-1])
        elif w == "drop":
            s.pop()
        elif w == "swap":
            s[-1], s[-2] = s[-2], s[-1]
        elif w == "over":
            s.append(s[-2])
        elif w == ".":
            out.append("%d " % s.pop())
        elif w == "negate":
            v = -s.pop()
            s.append(v if v < 1 << 63 else -(1 << 63))
        elif w == "1+":
            s.append(((s.pop() + 1 + (1 << 63)) % (1 << 64)) - (1 << 63))
        elif w == "depth":
            s.append(len(s))
        elif w == ".s":
            out.append("".join("%d " % v for v in s))
        elif w == "emit":
            out.append(chr(s.pop() & 255))
        elif w == "cr":
            out.append("\n")
        elif w == "space":
            out.append(" ")
        elif w in ("flush-output", "flush-to-err"):
            # what has not been written yet goes out as a line of its own; the blank before the answer counts
            if len("".join(out)) > self.written or w == "flush-to-err":
                out.append("\n")
            self.written = len("".join(out))
        return None

    def unclear(self, text):
        f = copy.deepcopy(self)
        f.amb = False
        why = f.line(text)[1]
        return f.amb or why == "model"

    def line(self, text):
        """(output, error or None, failing word, exit)"""
        out = []
        self.written = -1
        pos = 0
        n = len(text)

        def word():
            nonlocal pos
            while pos < n and text[pos] in " \t\r\n":
                pos += 1
            st = pos
            while pos < n and text[pos] not in " \t\r\n":
                pos += 1
            t = text[st:pos]
            return t

        def until(ch, skip=1):
            nonlocal pos
            # the blank behind a compiling word belongs to the word, that behind `.(` to the text
            st = min(pos + skip, n)
            k = text.find(ch, st)
            if k < 0:
                r, pos = text[st:], n
            else:
                r, pos = text[st:k], k + 1
            return r

        def fail(why, w):
            self.s, self.cur = [], None
            return "".join(out), why, w, False

        while True:
            t = word()
            if t == "":
                return "".join(out), None, None, False
            low = "".join(c.lower() if c.isascii() else c for c in t)
            if self.cur is not None:
                if low == ";":
                    if self.cur[0] is not None:
                        self.words[self.cur[0]] = self.cur[1]
                    self.cur = None
                elif low == "(":
                    until(")")
                elif low == "\\":
                    pos = n
                elif low == ".(":
                    out.append(until(")", 0))
                elif low == ".\"":
                    self.cur[1].append(("str", until('"')))
                elif low in self.words:
                    self.cur[1].append(("call", self.words[low]))
                elif low in self.PRIM:
                    self.cur[1].append(("prim", low))
                elif self.num(low) is not None:
                    self.cur[1].append(("lit", self.num(low)))
                else:
                    self.amb |= low in (":", "bye") or not self.unknown(low)
                    return fail("Undefined word", t)
                continue
            if low == "(":
                until(")")
            elif low == "\\":
                pos = n
            elif low == ".(":
                out.append(until(")", 0))
            elif low == ":":
                name = word()
                if name == "":
                    return fail("Unexpected end of file", "")
                nl = "".join(c.lower() if c.isascii() else c for c in name)
                if nl in self.words or nl in self.PRIM:
                    out.append("Redefining " + nl)
                self.cur = [nl, []]
            elif low == "bye":
                return "".join(out), None, None, True
            elif low in (";", '."'):
                return fail("Interpreting a compile only word", t)
            elif low in self.words:
                e = self.run(self.words[low], out)
                if e:
                    return fail(e, t)
            elif low in self.PRIM:
                e = self.prim(low, out)
                if e:
                    return fail(e, t)
            elif self.num(low) is not None:
                self.s.append(self.num(low))
            else:
                self.amb |= not self.unknown(low)
                return fail("Undefined word", t)
            if len(self.s) > 60:
                return fail("model", t)

    def run(self, body, out):
        for kind, v in body:
            if kind == "lit":
                self.s.append(v)
            elif kind == "str":
                out.append(v)
            elif kind == "call":
                e = self.run(v, out)
                if e:
                    return e
            else:
                e = self.prim(v, out, True)
                if e:
                    return e
        return None


class Session:
    def __init__(self, exe, home, args, rows, cols, log):
        self.scr = Screen(rows, cols)
        self.raw = b""
        self.log = log
        env = {"HOME": home, "TERM": "xterm", "XDG_CACHE_HOME": home + "/cache", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"}
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        self.before = termios.tcgetattr(s)
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                fcntl.ioctl(s, termios.TIOCSCTTY, 0)
                for k in (0, 1, 2):
                    os.dup2(s, k)
                os.closerange(3, 256)
                os.chdir(home)
                if os.geteuid() == 0:
                    u = pwd.getpwnam("nobody")
                    os.setgroups([])
                    os.setgid(u.pw_gid)
                    os.setuid(u.pw_uid)
                os.execve(exe, ["rtf"] + args, env)
            finally:
                os._exit(126)
        self.pid, self.m, self.s = pid, m, s
        self.status = None
        os.set_blocking(m, False)

    def pump(self, t):
        r, _, _ = select.select([self.m], [], [], t)
        if not r:
            return False
        try:
            d = os.read(self.m, 65536)
        except OSError as e:
            if e.errno in (errno.EIO, errno.EAGAIN):
                return False
            raise
        self.raw += d
        self.scr.feed(d)
        if self.scr.replies:
            b, self.scr.replies = self.scr.replies, b""
            os.write(self.m, b)
        return True

    def wait_for(self, cond, sig, what):
        end = time.time() + TIMEOUT
        while not cond():
            if not self.pump(0.05):
                if self.dead() and not self.pump(0.05):
                    if cond():
                        return
                    raise Bad("session ended", "the program ended (status %s) %s; last output %r" % (self.status, what(), self.raw[-300:]))
            if time.time() > end:
                raise Bad(sig, what())

    def dead(self):
        if self.status is None:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.status = os.waitstatus_to_exitcode(st)
        return self.status is not None

    def send(self, b):
        self.log.append(b)
        while b:
            try:
                k = os.write(self.m, b)
                b = b[k:]
            except BlockingIOError:
                self.pump(0.02)

    def close(self):
        if not self.dead():
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        os.close(self.m)
        os.close(self.s)


KEYS = {"left": [b"\x1b[D", b"\x1bOD"], "right": [b"\x1b[C", b"\x1bOC"], "up": [b"\x1b[A", b"\x1bOA"], "down": [b"\x1b[B", b"\x1bOB"], "bs": [b"\x7f"],
        "nop": [b"\t", b"\x1b[H", b"\x1b[F", b"\x1b[5~", b"\x1b[15~", b"\x1b[3~", b"\x01", b"\x0b", b"\x17", b"\x05", b"\x1ba"]}


def strip_csi(b):
    return re.sub(rb"\x1b\[[0-9;?]*[@-~]", b"", b)


class Case:
    def __init__(self, exe, root, seed, idx, cov):
        self.rng = random.Random("%d/%d" % (seed, idx))
        self.exe, self.cov = exe, cov
        self.home = os.path.join(root, "h%d" % idx)
        self.log = []
        self.defs = []
        os.makedirs(self.home)
        if os.geteuid() == 0:
            u = pwd.getpwnam("nobody")
            os.chown(self.home, u.pw_uid, u.pw_gid)

    # ---- text of a session
    def garbage(self):
        r = self.rng
        return "".join(r.choice(["q", "z", "é", "λ", "中", "😀", "Z", "9", "e\u0301", "#q", "ß"]) for _ in range(r.randint(1, 5)))

    def program(self):
        r = self.rng
        if r.random() < .12:
            # blanks around it belong to the line
            return " " * r.randint(0, 4) + self.plain_program() + " " * r.randint(0, 4)
        return self.plain_program()

    def long_program(self, cols):
        r = self.rng
        n = r.choice([100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 600])
        n = min(n + r.randint(-3, 3), cols - 40)
        if r.random() < .5:
            t = ".( " + "".join(r.choice("abcdefgh  λé") for _ in range(n)) + ")"
        else:
            t = "1 " + "1+ " * (n // 3) + "."
        return t + " " + r.choice(["7 .", "2 3 * .", "", "flush-to-err 7 .", "flush-output 8 ."])

    def plain_program(self):
        r = self.rng
        k = r.randrange(16)
        num = lambda: str(r.choice([0, 1, -1, 7, 42, -300, 123456789, r.randint(-10**9, 10**9)]))
        if k < 4:
            return " ".join([num(), num(), r.choice(["+", "-", "*", "swap", "over"]), "."] + (["."] if r.random() < .1 else []))
        if k == 4:
            return ".s"
        if k == 5 and r.random() < .25:
            # no delimiter: to the end of the line, blanks included
            return ".( " + "".join(r.choice("abc λ中é!;:") for _ in range(r.randint(0, 8))) + r.choice(["", " ", "   "])
        if k == 5:
            return ".( " + "".join(r.choice("abc λ中é!;:\"") for _ in range(r.randint(0, 12))) + ")"
        if k == 6:
            nm = "w%d" % r.randrange(30)
            self.defs.append(nm)
            return ": %s %s ;" % (nm, " ".join(r.choice([num(), "dup", "+", ".", "drop", "1+", '." t%d"' % r.randrange(9)] + self.defs[-3:-1]) for _ in range(r.randint(0, 5))))
        if k == 7 and self.defs:
            return " ".join([num(), num(), r.choice(self.defs)])
        if k == 8:
            return self.garbage() + " 1 ."
        if k == 9:
            return r.choice(["drop", "1 0 /", ".", "+", "1 +", ": ", "5 %s" % self.garbage(), ": bad 1 %s ;" % self.garbage()])
        if k == 10:
            return "1 2 ( comment %s ) + . \\ rest %s" % (self.garbage(), self.garbage())
        if k == 11:
            nm = "m%d" % r.randrange(9)
            self.defs.append(nm)
            return ": " + nm
        if k == 12:
            return "."
        if k == 13:
            if r.random() < .5:
                fl = lambda: r.choice(["flush-output", "flush-to-err"])
                return r.choice(["", ".( a λ) ", "5 . "]) + fl() + r.choice([" ", " 7 . ", " .( b) "]) + fl() + r.choice(["", " 8 .", " " + fl(), " 1 0 /", " depth ."])
            return "65 emit 66 emit cr depth ."
        return " ".join([num()] * r.randint(1, 4) + ["DUP", "*", "1+", "depth", "."])

    def type_edited(self, s, ed, text):
        """Type the text with slips, corrections and movements."""
        r = self.rng
        for ch in text:
            if r.random() < .06:
                junk = r.choice(["x", "é", "中", "😀", " ", "9"])
                self.key(s, ed, junk)
                if r.random() < .3:
                    self.key(s, ed, "left")
                    self.key(s, ed, "right")
                self.key(s, ed, "bs")
            if r.random() < .03:
                n = r.randint(1, 6)
                for _ in range(n):
                    self.key(s, ed, "left")
                for _ in range(n):
                    self.key(s, ed, "right")
                # at the left border movements get lost
                while ed.x < len(ed.buf):
                    self.key(s, ed, "right")
            self.key(s, ed, ch)

    def key(self, s, ed, k, check=None):
        r = self.rng
        if k in KEYS:
            b = r.choice(KEYS[k])
        else:
            b = k.encode()
        ed.key(k)
        if swidth(ed.buf) > s.scr.cols - 4:
            # stay in the line
            raise Stop()
        s.send(b)
        self.cov["keys"] = self.cov.get("keys", 0) + 1
        if check is None:
            check = r.random() < self.careful
        if check:
            self.look(s, ed)

    def look(self, s, ed):
        want, col = ed.buf, swidth(ed.buf[:ed.x])
        while want and width(want[0]) == 0:
            # no cell for a combining mark to sit on
            want = want[1:]
        s.wait_for(lambda: s.scr.line(s.scr.r) == want.rstrip(" ") and s.scr.c == col, "line on the terminal differs from the edited text",
                   lambda: "keys ... %r: the terminal shows %r with the cursor in column %d; the edited text is %r with the cursor in column %d" %
                   (b"".join(self.log[-40:]), s.scr.line(s.scr.r), s.scr.c, want, col))
        self.cov["screens compared"] = self.cov.get("screens compared", 0) + 1

    def clear(self, s, ed, f):
        """A line whose outcome is not determined by the language is not entered."""
        if f.unclear(ed.buf):
            while ed.x < len(ed.buf):
                self.key(s, ed, "right", False)
            while ed.buf:
                self.key(s, ed, "bs", False)
            for ch in "2 3 * .":
                self.key(s, ed, ch)

    def enter(self, s, ed, f):
        self.clear(s, ed, f)
        self.look(s, ed)
        # everything drawn for earlier keys is in
        shown = ed.buf
        mark = len(s.raw)
        out, err, word, bye = f.line(shown)
        line = ed.enter()
        s.send(b"\r")
        # the answer: what follows the last drawing of the line
        if bye:
            return self.ended(s, mark, out)
        def answer():
            b = s.raw[mark:]
            k = [m.end() for m in re.finditer(rb"\x1b\[[0-9;?]*[@-~]", b)]
            return b[k[-1]:] if k else b""
        if err is None:
            want = (" " + out + ("" if f.cur is not None else " ok") + "\r\n").encode("utf-8", "replace")
            s.wait_for(lambda: answer() == want, "wrong answer to a line", lambda: "line %r (after %r): printed %r, expected %r" % (line, self.lines[-6:], answer(), want))
            self.cov["lines answered"] = self.cov.get("lines answered", 0) + 1
        else:
            want = (" " + out).encode("utf-8", "replace")
            def ok():
                a = answer()
                if not (a.startswith(want) and a.endswith(b"\r\n")):
                    return False
                t = a[len(want):].decode("utf-8", "replace")
                low = t.lower()
                return word.lower() in low and err.lower() in low and not t.rstrip().endswith(" ok")
            s.wait_for(ok, "wrong answer to a failing line", lambda: "line %r (after %r): printed %r, expected %r, then a message with %r and %r" % (line, self.lines[-6:], answer(), want, word, err))
            self.cov["errors reported"] = self.cov.get("errors reported", 0) + 1
        self.lines.append(line)
        return False

    def ended(self, s, mark, out, code=0):
        end = time.time() + TIMEOUT
        while not s.dead() and time.time() < end:
            s.pump(0.05)
        while s.pump(0.02):
            pass
        if s.status is None:
            raise Bad("session does not end", "bye or Ctrl-D did not end the program")
        if s.status != code:
            raise Bad("wrong exit status", "status %s; output %r" % (s.status, s.raw[mark:][-400:]))
        after = termios.tcgetattr(s.s)
        if after != s.before:
            raise Bad("terminal left in raw mode", "terminal attributes before %r, after %r" % (s.before[:4], after[:4]))
        if out and out.encode() not in strip_csi(s.raw[mark:]):
            raise Bad("wrong answer to a line", "the last line should have printed %r, terminal got %r" % (out, s.raw[mark:]))
        self.cov["sessions ended cleanly"] = self.cov.get("sessions ended cleanly", 0) + 1
        return True

    def session(self, hist, end_by):
        r = self.rng
        rows, cols = r.choice([(24, 120), (40, 200), (6, 100), (60, 150), (24, 700)])
        args = []
        f = Forth()
        pre = ""
        if r.random() < .2:
            args = [str(r.randint(0, 99)), str(r.randint(0, 99)), r.choice(["+", "*"]), "."]
            pre, _, _, _ = f.line(" ".join(args))
        s = Session(self.exe, self.home, args, rows, cols, self.log)
        try:
            ed = Editor(list(hist))
            # keys typed before the program owns the terminal belong to the terminal driver
            s.wait_for(lambda: not termios.tcgetattr(s.s)[3] & termios.ICANON, "terminal not put into raw mode", lambda: "got %r" % s.raw)
            if not args:
                s.wait_for(lambda: b"exit.\r" in s.raw, "no greeting", lambda: "got %r" % s.raw)
                s.wait_for(lambda: s.scr.c == 0 and s.raw.endswith(b"\n"), "no greeting", lambda: "got %r" % s.raw)
            self.lines = []
            first = True
            n = r.randint(2, 14) if end_by != "many" else r.randint(30, 45)
            for _ in range(n):
                self.careful = r.choice([1.0, .3, .1, 0.0])
                try:
                    self.edit(s, ed, quick=end_by == "many")
                except Stop:
                    # undo the key that would have left the line
                    raise Bad("harness", "line too long")
                if first and pre:
                    # what the arguments printed may come with the first answer
                    first = False
                    self.clear(s, ed, f)
                    mark = len(s.raw)
                    self.look(s, ed)
                    out, err, word, bye = f.line(ed.buf)
                    ed.enter()
                    s.send(b"\r")
                    if bye:
                        self.ended(s, mark, pre)
                        return ed
                    want = re.compile((re.escape(pre) + ".*" + (".*" + re.escape(word) + ".*" + err if err else re.escape(out))).encode("utf-8", "replace"), re.S)
                    s.wait_for(lambda: want.search(strip_csi(s.raw)) and s.raw.endswith(b"\n"), "words given as arguments are not evaluated",
                               lambda: "rtf %s, then a line: output %r" % (" ".join(args), s.raw))
                    continue
                first = False
                if self.enter(s, ed, f):
                    return ed
            if f.cur is not None:
                self.type_edited(s, ed, ";")
                if self.enter(s, ed, f):
                    return ed
            if end_by == "eof":
                if r.random() < .3:
                    self.type_edited(s, ed, "1 2")
                    self.look(s, ed)
                    mark = len(s.raw)
                mark = len(s.raw)
                s.send(b"\x04")
                self.ended(s, mark, "")
            else:
                # what the last line printed before bye is seen too
                k = r.randrange(1000)
                last = r.choice(["bye", "bye", "%d . bye" % k, "%d 3 * . 65 emit bye" % k, ".( so long) bye"])
                if swidth(last) >= cols - 12:
                    last = "bye"
                for ch in last:
                    self.key(s, ed, ch)
                self.enter(s, ed, f)
            return ed
        finally:
            s.close()

    def edit(self, s, ed, quick):
        r = self.rng
        k = r.randrange(12)
        if s.scr.cols > 600 and r.random() < .3:
            k = 11
        elif quick and k > 6:
            k = 1
        hist = [x for x in ed.history if x]
        room = lambda t: swidth(t) < s.scr.cols - 12
        if k < 6 or not hist:
            self.type_edited(s, ed, self.program())
        elif k < 9:
            # recall, perhaps edit
            n = r.randint(1, min(40, len(ed.history) + 2))
            for _ in range(n):
                self.key(s, ed, "up")
            for _ in range(r.choice([0, 0, 1, 2, n, n + 2])):
                self.key(s, ed, "down")
            self.look(s, ed)
            self.cov["recalls"] = self.cov.get("recalls", 0) + 1
            if r.random() < .5 and room(ed.buf):
                for _ in range(r.randint(1, 5)):
                    self.key(s, ed, r.choice(["left", "left", "left", "right", "nop"]))
                for ch in r.choice(["1 ", "é", " 2 ", "中", "7 . "]):
                    self.key(s, ed, ch)
        elif k == 9:
            # arbitrary keys
            for _ in range(r.randint(1, 60)):
                if not room(ed.buf):
                    break
                c = r.choice(["left", "right", "bs", "nop", "left", "bs", "q", "z", "é", "中", "😀", " ", " ", "1", "2", ".", "\u0301", "9", "B"])
                if c == "\u0301" and (ed.x == 0 or width(ed.buf[ed.x - 1]) == 0):
                    continue
                if c == "." and ed.buf.strip() and len(ed.buf) > 3 and r.random() < .5:
                    continue
                self.key(s, ed, c)
        elif k == 10:
            # abandon a line for history and come back
            self.type_edited(s, ed, self.program())
            n = r.randint(1, 4)
            for _ in range(n):
                self.key(s, ed, "up")
            for _ in range(n + r.randint(0, 2)):
                self.key(s, ed, "down")
        else:
            # paste: everything at once
            t = self.long_program(s.scr.cols) if s.scr.cols > 600 else self.program()
            if s.scr.cols > 600:
                self.cov["long lines pasted"] = self.cov.get("long lines pasted", 0) + 1
            self.careful = 0.0
            for ch in t:
                ed.key(ch)
            s.send(t.encode())
            self.cov["keys"] = self.cov.get("keys", 0) + len(t)
        # combining marks at the very left have no cell to sit on
        if ed.buf and width(ed.buf[0]) == 0:
            while ed.x > 1:
                self.key(s, ed, "left")
            while ed.x < 1:
                self.key(s, ed, "right")
            self.key(s, ed, "bs")

    def history_file(self):
        p = os.path.join(self.home, "cache", "rtforth", "history.txt")
        try:
            return open(p, encoding="utf-8", errors="replace").read().split("\n")[:-1], p
        except OSError:
            return None, p

    def run(self):
        r = self.rng
        hist = []
        if r.random() < .4:
            n = r.choice([1, 5, 31, 32, 33, 50])
            hist = ["%d . \\ %s" % (i, self.garbage()) for i in range(n)]
            d = os.path.join(self.home, "cache", "rtforth")
            os.makedirs(d)
            with open(os.path.join(d, "history.txt"), "w") as fh:
                fh.write("".join(x + "\n" for x in hist))
            if os.geteuid() == 0:
                u = pwd.getpwnam("nobody")
                for p in (self.home + "/cache", d, d + "/history.txt"):
                    os.chown(p, u.pw_uid, u.pw_gid)
        if r.random() < .1:
            self.options()
        for k in range(r.randint(1, 3)):
            ed = self.session(hist, r.choice(["eof", "bye", "bye", "many"]))
            got, p = self.history_file()
            want = ed.saved()
            if got is None or got not in want:
                raise Bad("wrong history saved", "saved %r, expected %r" % (got, want[0]))
            self.cov["history files compared"] = self.cov.get("history files compared", 0) + 1
            hist = got
            self.defs = []
        if r.random() < .3:
            self.errors_in_files()

    def options(self):
        for o, what in ((["-v"], b"rtForth v"), (["--version"], b"rtForth v"), (["-h"], b"Usage"), (["--help"], b"Usage")):
            s = Session(self.exe, self.home, o, 24, 100, self.log)
            try:
                self.lines = []
                self.ended(s, 0, "")
                if what not in s.raw:
                    raise Bad("option not honoured", "rtf %s printed %r" % (o, s.raw))
            finally:
                s.close()
        self.cov["option runs"] = self.cov.get("option runs", 0) + 4

    def errors_in_files(self):
        """An error in an included file is reported with file and line; the session goes on, again and again."""
        r = self.rng
        s = Session(self.exe, self.home, [], 24, 150, self.log)
        try:
            s.wait_for(lambda: b"exit.\r\n" in s.raw, "no greeting", lambda: "got %r" % s.raw)
            n = r.choice([3, 25])
            for k in range(n):
                at = r.randint(1, 5)
                bad = r.choice(["nosuchword", "drop"])
                with open(os.path.join(self.home, "f%d" % k), "w") as fh:
                    for i in range(1, 7):
                        fh.write("1 drop\n" if i != at else "2 3 + drop %s\n" % bad)
                mark = len(s.raw)
                s.send(b"include f%d\r" % k)
                reason = b"Undefined word" if bad == "nosuchword" else b"Stack underflow"
                where = b"f%d:%d:" % (k, at)
                s.wait_for(lambda: all(t in strip_csi(s.raw[mark:]) for t in (bad.encode(), reason, where)) and s.raw.endswith(b"\r\n"), "error in a file not reported",
                           lambda: "include of a file with %s in line %d: %r" % (bad, at, strip_csi(s.raw[mark:])[-300:]))
                mark = len(s.raw)
                s.send(b"1 2 + depth . .\r")
                s.wait_for(lambda: b" 1 3  ok\r\n" in strip_csi(s.raw[mark:]), "session unusable after an error in a file", lambda: "got %r" % strip_csi(s.raw[mark:])[-300:])
            with open(os.path.join(self.home, "good"), "w") as fh:
                fh.write(": good 77 ;\n")
            mark = len(s.raw)
            s.send(b"include good good .\r")
            s.wait_for(lambda: b"77  ok\r\n" in strip_csi(s.raw[mark:]), "session unusable after an error in a file", lambda: "after %d errors: %r" % (n, strip_csi(s.raw[mark:])[-300:]))
            mark = len(s.raw)
            s.send(b"\x04")
            self.ended(s, mark, "")
            self.cov["errors in files reported"] = self.cov.get("errors in files reported", 0) + n
        finally:
            s.close()


class Stop(Exception):
    pass


def one(exe, root, seed, idx, cov):
    c = Case(exe, root, seed, idx, cov)
    try:
        c.run()
        return None
    except Bad as b:
        if b.sig == "harness":
            return None
        return dict(kind="pty", idx=idx, sig=b.sig, msg=b.msg, rec="keys: %r" % b"".join(c.log)[-3000:])
    finally:
        shutil.rmtree(c.home, ignore_errors=True)


def worker(exe, root, seed, shard, n, secs, out):
    cov, bad, done = {}, [], 0
    t0 = time.time()
    idx = shard
    err = None
    while time.time() - t0 < secs and len(bad) < 3:
        try:
            v = one(exe, root, seed, idx, cov)
        except Exception:
            err = "case %d: %s" % (idx, traceback.format_exc())
            break
        done += 1
        if v:
            bad.append(v)
        idx += n
    with open(out, "w") as fh:
        json.dump(dict(cov=cov, bad=bad, done=done, err=err), fh)


def run(r, bins):
    exe = os.path.join(r.dir, "rtf")
    shutil.copy(bins["rtf"], exe)
    os.chmod(exe, 0o755)
    n = max(2, (os.cpu_count() or 4))
    secs = r.secs()
    pids = []
    for s in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                worker(exe, r.work, r.seed, s, n, secs, os.path.join(r.dir, "pty.%d.json" % s))
            finally:
                os._exit(0)
        pids.append(pid)
    for s, pid in enumerate(pids):
        end = time.time() + secs + 200
        while True:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(0.1)
        try:
            d = json.load(open(os.path.join(r.dir, "pty.%d.json" % s)))
        except OSError:
            r.inconclusive.append("pseudo-terminal worker %d gave no result" % s)
            continue
        if d["err"]:
            r.inconclusive.append("pseudo-terminal worker %d: %s" % (s, d["err"]))
        r.cases += d["done"]
        r.distinct.update(s + n * k for k in range(d["done"]))
        for k, v in d["cov"].items():
            r.counters[k] = r.counters.get(k, 0) + v
        for v in d["bad"]:
            # again, in a fresh process: a terminal depends on the machine's load
            again = one(exe, os.path.join(r.dir), r.seed, v["idx"], {})
            v["reproduced"] = bool(again)
            if again:
                r.violations.append(v)
            else:
                r.inconclusive.append("did not reproduce: case %d %s %s" % (v["idx"], v["sig"], v["msg"][:300]))


def replay(b, exe, root):
    v = one(exe, root, b["seed"], b["idx"], {})
    print(json.dumps(v, indent=1) if v else "held")
    return 1 if v else 0


if __name__ == "__main__":
    # c22.py EXE SEED FIRST COUNT
    root = "/tmp/c22.%d" % os.getpid()
    os.makedirs(root, mode=0o755)
    cov = {}
    try:
        for i in range(int(sys.argv[3]), int(sys.argv[3]) + int(sys.argv[4])):
            v = one(sys.argv[1], root, int(sys.argv[2]), i, cov)
            if v:
                print(json.dumps(v, indent=1))
        print(cov)
    finally:
        shutil.rmtree(root)
