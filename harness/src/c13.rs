//! C13: an exception stops the program at once and recovery is complete.
//!
//! A program is generated together with the events it must report. One point of its call tree raises;
//! nothing behind that point may report, print or store anything. A second machine gets the same
//! definitions but none of the failing runs, and everything run after recovery must agree on both.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use std::cell::Cell;

thread_local! {
    static HRUNS: Cell<u64> = Cell::new(0);
    static HCODES: Cell<i64> = Cell::new(0);
}
fn phandler(vm: &mut crate::vmx::VM) {
    HRUNS.with(|h| h.set(h.get() + 1));
    HCODES.with(|h| h.set(vm.last_error().map_or(0, |e| isize::from(e) as i64)));
    vm.state().instruction_pointer = 0;
}

/// A handler which fails itself.
fn rhandler(vm: &mut crate::vmx::VM) {
    phandler(vm);
    vm.abort_with(rtforth::exception::UNSUPPORTED_OPERATION);
}

/// Text compiled into a definition, code.
const RAISE: &[(&str, i64)] = &[
    ("1 0 /", -10),
    ("1 0 mod", -10),
    ("1 0 /mod drop", -10),
    ("0 @ drop", -9),
    ("7 0 !", -9),
    ("0 c@ drop", -9),
    ("7 -1 c!", -9),
    ("0 2@ 2drop", -9),
    ("0 f@ fdrop", -9),
    ("2e 0 f!", -9),
    ("0 8 type", -9),
    ("0 gv 8 move", -9),
    ("abort", -1),
    ("1 70000 .r", -24),
    ("1000000000 allot", -8),
    ("-1000000000 allot", -9),
    ("99999 execute", -21),
    ("-1 execute", -21),
    ("99 suspend", -24),
    ("99 get", -9),
    ("1 2 3 restore-input", -1),
    ("dup0", -10),
    ("1 2 99 source-id!", -24),
    ("over0", -3),
    ("fover0", -44),
    ("under0", -4),
];
/// Text at the level of a line (interpreted), code.
const LRAISE: &[(&str, i64)] = &[
    ("undefined-word", -13),
    ("12x", -13),
    ("if", -14),
    ("then", -14),
    ("exit", -14),
    (";", -14),
    ("loop", -14),
    ("r>", -14),
    ("['] dup", -14),
    ("recurse", -14),
    ("does>", -14),
    (": bad1 if ;", -22),
    (": bad2 then ;", -22),
    (": bad3 0 5 do if loop then ;", -22),
    (": bad4 begin ;", -22),
    (": bad5 undefined-word", -13),
    (": bad6 1 0 do case 1 of", 0),
    ("' undefined-word", -13),
    (": bad7 postpone undefined-word", -13),
    (": bad8 ['] undefined-word", -13),
    (": bad9 [ 9999 ] goto", -24),
    ("drop", -4),
    ("2drop", -4),
    (".", -4),
    ("fdrop", -45),
    ("f.", -45),
    ("64push 1", -3),
    ("64fpush 1e", -44),
    ("nosuchfile include", -13),
    ("include nosuchfile", -1),
    // with open structures and floats on their stacks
    (": bad10 0 if begin case 1 of undefined-word", -13),
    (": bad11 [ 1.5e 2 ] if begin undefined-word", -13),
    (": bad12 [ 1.5e 2.5e 7 ] do case then ;", -22),
    (": bad13 [ 3e ] begin if ;", -22),
    ("1.5e 2.5e 7 undefined-word", -13),
    ("1e 2e 3e if", -14),
    // inside brackets: the structures around them are open while a word is executed
    (": bad14 begin [ 1 0 /", -10),
    (": bad15 if [ undefined-word", -13),
    (": bad16 do case [ 1 drop drop", -4),
    (": bad17 if else begin while [ 1e fdrop fdrop", -45),
    (": bad18 case 1 of ?do [ 5 0 mod", -10),
    (": bad19 begin begin [ postpone dup", -14),
];

struct G<'a> {
    rng: &'a mut Rng,
    defs: Vec<String>,
    ev: Vec<i64>,
    /// The raise already happened in the simulated order.
    dead: bool,
    code: i64,
    next: i64,
    uid: u64,
    nraise: usize,
    gv: i64,
    out: String,
}
impl<'a> G<'a> {
    fn e(&mut self) -> String {
        self.next += 1;
        let v = self.next;
        match self.rng.below(6) {
            0 => {
                if !self.dead {
                    self.gv += 1;
                }
                "1 gv +!".into()
            }
            1 => {
                if !self.dead {
                    self.out.push_str(&format!("{} ", v));
                }
                format!("{} .", v)
            }
            _ => {
                if !self.dead {
                    self.ev.push(v)
                }
                format!("{} ev", v)
            }
        }
    }
    fn name(&mut self, p: &str) -> String {
        self.uid += 1;
        format!("{}{}", p, self.uid)
    }
    /// Leaves something on the stacks for the raise to clear.
    fn leave(&mut self) -> String {
        let mut t = Vec::new();
        for _ in 0..self.rng.us(5) {
            t.push(*self.rng.pick(&["1", "-1", "0", "1.5e", "-0e", "2.5e", "here", "1e400"]));
        }
        t.join(" ")
    }
    fn raise_now(&mut self) -> String {
        let (t, c) = *self.rng.pick(RAISE);
        if !self.dead {
            self.dead = true;
            self.code = c;
        }
        self.nraise += 1;
        t.to_string()
    }
    /// A body; with `raise` exactly one point of it raises, otherwise nothing does.
    fn body(&mut self, depth: u32, raise: bool) -> String {
        let n = self.rng.us(3);
        let at = self.rng.us(n + 1);
        let mut t = Vec::new();
        for i in 0..=n {
            if self.rng.chance(2, 3) {
                let x = self.e();
                t.push(x);
            }
            if i == at {
                let x = if depth == 0 {
                    if raise {
                        self.raise_now()
                    } else {
                        self.e()
                    }
                } else {
                    self.nest(depth, raise)
                };
                t.push(x);
            }
        }
        let x = self.e();
        t.push(x);
        t.join(" ")
    }
    /// Run `g` on code that is compiled but never reached.
    fn unreached(&mut self, raise: bool) -> String {
        let was = (self.dead, self.code);
        self.dead = true;
        let t = if raise || self.rng.chance(1, 2) {
            self.raise_now()
        } else {
            self.e()
        };
        self.dead = was.0;
        self.code = was.1;
        t
    }
    fn nest(&mut self, depth: u32, raise: bool) -> String {
        let d = depth - 1;
        match self.rng.below(14) {
            0 | 1 => {
                let b = self.body(d, raise);
                let w = self.name("w");
                self.defs.push(format!(": {} {} ;", w, b));
                w
            }
            2 => {
                let b = self.body(d, raise);
                let w = self.name("w");
                self.defs.push(format!(": {} {} ;", w, b));
                format!("['] {} execute", w)
            }
            3 => {
                let b = self.body(d, raise);
                let w = self.name("w");
                let df = self.name("d");
                self.defs.push(format!(": {} {} ;", w, b));
                self.defs.push(format!("defer {}  ' {} ' {} defer!", df, w, df));
                df
            }
            4 => {
                let k = 1000 + self.rng.below(1000) as i64;
                if !self.dead {
                    self.ev.push(k);
                }
                let b = self.body(d, raise);
                let mk = self.name("mk");
                let ch = self.name("ch");
                self.defs.push(format!(": {} create , does> @ ev {} ;", mk, b));
                self.defs.push(format!("{} {} {}", k, mk, ch));
                ch
            }
            5 => {
                // Raised in iteration `at` of a counted loop.
                let n = 1 + self.rng.range(1, 5);
                let at = self.rng.range(0, n - 1);
                for i in 0..at {
                    if !self.dead {
                        self.ev.push(i)
                    }
                }
                if !self.dead {
                    self.ev.push(at)
                }
                let b = self.body(d, raise);
                for i in at + 1..n {
                    if !self.dead {
                        self.ev.push(i)
                    }
                }
                format!("{} 0 do i ev i {} = if {} then loop", n, at, b)
            }
            6 => {
                let b = self.body(d, raise);
                let u = self.unreached(false);
                if self.rng.chance(1, 2) {
                    format!("1 if {} else {} then", b, u)
                } else {
                    format!("0 if {} else {} then", u, b)
                }
            }
            7 => {
                let b = self.body(d, raise);
                let (x, y) = (self.rng.range(1, 9), self.rng.range(1, 9));
                if !self.dead {
                    self.ev.push(x);
                }
                let _ = y;
                format!("{} >r {} r> ev", x, b)
            }
            8 => {
                let b = self.body(d, raise);
                format!("begin {} 1 until", b)
            }
            9 => {
                let u = self.unreached(false);
                let b = self.body(d, raise);
                format!("2 case 1 of {} endof 2 of {} endof drop 0 endcase", u, b)
            }
            10 => {
                // Nested loops.
                let x = self.rng.range(1, 3);
                let mut t = String::new();
                if !self.dead {
                    self.ev.push(0);
                    self.ev.push(10);
                }
                let b = self.body(d, raise);
                for i in 0..x {
                    for j in 10..12 {
                        if i == 0 && j == 10 {
                            continue;
                        }
                        if !self.dead {
                            self.ev.push(i);
                            self.ev.push(j);
                        }
                    }
                }
                t.push_str(&format!(
                    "{} 0 do 12 10 do j ev i ev j 10 * i + 10 = if {} then loop loop",
                    x, b
                ));
                t
            }
            11 => {
                let b = self.body(d, raise);
                let v = 5000 + self.rng.below(100) as i64;
                if !self.dead {
                    self.ev.push(v)
                }
                format!("{} {} ev", b, v)
            }
            12 => {
                let b = self.body(d, raise);
                format!("1 2 3 1.5e 2.5e {} 2drop drop fdrop fdrop", b)
            }
            _ => {
                let b = self.body(d, raise);
                let w = self.name("w");
                self.defs.push(format!(": {} if {} then ;", w, b));
                format!("0 {} 1 {}", w, w)
            }
        }
    }
}

/// A program that works on a healthy machine, with results that do not depend on addresses.
fn good(rng: &mut Rng, uid: &mut u64) -> Vec<String> {
    *uid += 1;
    let n = *uid;
    let a = rng.range(-50, 50);
    let b = rng.range(1, 20);
    match rng.below(9) {
        0 => vec![format!("{} {} + . {} {} * ev", a, b, a, b)],
        1 => vec![format!(": g{} {} 0 do i {} + ev loop ; g{}", n, b, a, n)],
        2 => vec![
            format!("variable v{}", n),
            format!("{} v{} ! v{} @ .", a, n, n),
        ],
        3 => vec![
            format!(": g{} if", n),
            format!("{} ev", a),
            format!("else {} ev then ; 0 g{} 1 g{}", b, n, n),
        ],
        4 => vec![format!("{}e {}e f+ fev {}e f.", a, b, b)],
        5 => vec![format!(": g{} .\" hello{}\" {} spaces ; g{}", n, a, b, n)],
        6 => vec![
            format!(": mk{} create , does> @ ev ; {} mk{} ch{} ch{}", n, a, n, n, n),
        ],
        7 => vec![format!(": g{} dup 0> if dup ev 1- recurse else drop then ; {} g{}", n, b, n)],
        _ => vec![
            format!("{} >r", a), // refused: compile-only
            format!("{} constant c{} c{} c{} + ev", a, n, n, n),
        ],
    }
}

fn setup(m: &mut M) -> R {
    for l in [
        "variable gv",
        ": dup0 1 0 / ;",
        ": over0 70 0 do i loop ?stacks ;",
        ": fover0 70 0 do i s>f loop ?stacks ;",
        ": under0 depth 0 ?do drop loop drop ?stacks ;",
        ": 64push 64 0 do i loop ;",
        ": 64fpush 64 0 do 1e loop ;",
        "defer defnone",
        ": hcolon 777001 ev bye 777002 ev ;",
        ": hquiet bye ;",
        ": hnest 777001 ev 3 0 do i 1 = if bye then loop ;",
    ] {
        let e = m.line(l);
        ensure!(e == 0, "setup failed", "`{}` -> {}", l, e);
    }
    Ok(())
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut a = M::hooked();
    let mut b = M::hooked();
    a.vm.add_primitive("phandler", phandler);
    b.vm.add_primitive("phandler", phandler);
    a.vm.add_primitive("rhandler", rhandler);
    b.vm.add_primitive("rhandler", rhandler);
    setup(&mut a)?;
    setup(&mut b)?;
    hooks::take();
    let rounds = if cx.small { 6 } else { 14 };
    let mut uid = 0u64;
    let mut gv_a = 0i64;
    for _ in 0..rounds {
        // 0 none, 1 primitive handler, 2.. colon handlers
        let h = rng.below(6);
        let hname = ["", "phandler", "hcolon", "hquiet", "hnest", "rhandler"][h as usize];
        let hl = if h == 0 { "0 handler!".to_string() } else { format!("' {} handler!", hname) };
        for m in [&mut a, &mut b] {
            let e = m.line(&hl);
            ensure!(e == 0, "installing a handler failed", "`{}` -> {}", hl, e);
        }
        let depth = rng.below(5) as u32;
        let nbefore = rng.us(3);
        let kind = rng.below(10);
        let mut g = G {
            rng: &mut rng,
            defs: vec![],
            ev: vec![],
            dead: false,
            code: 0,
            next: 100 + (idx as i64 % 7) * 1000,
            uid,
            nraise: 0,
            gv: gv_a,
            out: String::new(),
        };
        let mut line = Vec::new();
        for _ in 0..nbefore {
            let x = g.e();
            line.push(x);
        }
        let mut line_kind = "call tree";
        if kind < 6 {
            // Interpreted or called, several levels deep.
            let body = g.body(depth, true);
            let w = g.name("top");
            g.defs.push(format!(": {} {} ;", w, body));
            line.push(w);
        } else if kind == 6 {
            // A failing line of an included file.
            line_kind = "file";
            let f1 = g.name("inc");
            let mut lines = Vec::new();
            for _ in 0..g.rng.us(3) {
                let x = g.e();
                lines.push(x);
            }
            let mut l = Vec::new();
            if g.rng.chance(1, 2) {
                let x = g.e();
                l.push(x);
            }
            let (t, c) = *g.rng.pick(LRAISE);
            if c != 0 && g.rng.chance(1, 2) {
                // something that fails while the file is interpreted, perhaps several lines after
                // a definition was begun
                line_kind = "interpreted file";
                let toks: Vec<&str> = t.split(' ').collect();
                let mut cur = String::new();
                for (i, tk) in toks.iter().enumerate() {
                    cur += tk;
                    if i + 1 < toks.len() && ![":", "'", "[']", "postpone", "include"].contains(tk) && g.rng.chance(1, 3) {
                        l.push(std::mem::take(&mut cur));
                        lines.push(l.join(" "));
                        l.clear();
                    } else {
                        cur.push(' ');
                    }
                }
                l.push(cur);
                g.dead = true;
                g.code = c;
            } else {
                let body = g.body(depth, true);
                let w = g.name("top");
                g.defs.push(format!(": {} {} ;", w, body));
                l.push(w);
            }
            let x = g.e();
            l.push(x);
            lines.push(l.join(" "));
            let x = g.e();
            lines.push(x);
            let mut path0 = format!("{}/{}_{}", cx.scratch, f1, idx);
            for lev in 0..g.rng.us(3) {
                // included from another file, one level deeper
                std::fs::write(&path0, lines.join("\n")).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
                let tail = g.e();
                lines = vec![format!("include {} {}", path0, tail)];
                path0 = format!("{}/{}_{}_{}", cx.scratch, f1, idx, lev);
            }
            let path = path0;
            std::fs::write(&path, lines.join("\n")).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
            line.push(format!("include {}", path));
        } else if kind == 7 {
            // Forth-level evaluation of the rest of the line.
            line_kind = "evaluate-input in a word";
            let w = g.name("evl");
            g.next += 1;
            let v = g.next;
            g.defs.push(format!(": {} evaluate-input {} ev ;", w, v));
            line.push(w);
            let x = g.e();
            line.push(x);
            if g.rng.chance(1, 2) {
                let (t, c) = *g.rng.pick(LRAISE);
                if c != 0 {
                    line.push(t.into());
                    g.dead = true;
                    g.code = c;
                } else {
                    let t = g.raise_now();
                    line.push(t);
                }
            } else {
                let body = g.body(depth, true);
                let w = g.name("top");
                g.defs.push(format!(": {} {} ;", w, body));
                line.push(w);
            }
        } else {
            line_kind = "interpreted";
            let (t, c) = *g.rng.pick(LRAISE);
            if c < -10 && c > -40 {
                let leave = g.leave();
                line.push(leave);
            }
            if c != 0 {
                line.push(t.into());
                g.dead = true;
                g.code = c;
            } else {
                line.push("1 2 3 1.5e -0e 0 0 /".into());
                g.dead = true;
                g.code = -10;
            }
        }
        for _ in 0..3 {
            let x = g.e();
            line.push(x);
        }
        let line = line.join(" ");
        let (defs, ev, code, gv, out) = (g.defs, g.ev, g.code, g.gv, g.out);
        uid = g.uid;
        for d in &defs {
            for m in [&mut a, &mut b] {
                let e = m.line(d);
                ensure!(e == 0, "definition failed", "`{}` -> {}", d, e);
            }
        }
        hooks::take();
        a.out();
        b.out();
        HRUNS.with(|h| h.set(0));
        HCODES.with(|h| h.set(0));
        let e = a.line(&line);
        cx.count(&format!("exceptions raised: {}", line_kind), 1);
        if h == 5 {
            // What the handler raises replaces what it was called for.
            ensure!(e == -21, "wrong exception code", "`{}` (handler {:?}) gave {} instead of {}", line, hname, e, -21);
        } else {
            ensure!(e == code, "wrong exception code", "`{}` (handler {:?}) gave {} instead of {}", line, hname, e, code);
        }
        let mut got: Vec<i64> = hooks::take()
            .iter()
            .map(|e| if let Ev::I { v, .. } = e { *v } else { 0 })
            .collect();
        if h == 2 || h == 4 {
            let runs = got.iter().filter(|v| **v == 777001).count();
            ensure!(runs == 1, "handler did not run exactly once", "`{}`: handler {} ran {} times; events {:?}", line, hname, runs, got);
            ensure!(got.last() == Some(&777001), "something ran after the handler", "`{}`: events {:?}", line, got);
            got.pop();
            cx.count("handler runs", 1);
        }
        if h == 1 || h == 5 {
            let runs = HRUNS.with(|h| h.get());
            let c = HCODES.with(|h| h.get());
            ensure!(runs == 1, "handler did not run exactly once", "`{}`: primitive handler ran {} times", line, runs);
            ensure!(c == code, "handler saw a different error", "`{}`: handler saw {} instead of {}", line, c, code);
            cx.count("handler runs", 1);
        }
        ensure!(
            got == ev,
            "events differ around an exception",
            "line `{}` definitions {:?}: reported {:?}, must be {:?}",
            line,
            defs,
            got,
            ev
        );
        if !line_kind.ends_with("file") {
            let o = a.out();
            let tail = o.strip_prefix(&out[..]);
                // `.` and `f.` on an empty stack print what lies below before it is noticed.
                let own = (code == -4 || code == -45) && o.len() < out.len() + 30;
                ensure!(tail == Some("") || own && tail.is_some(), "output differs around an exception", "line `{}`: {:?} instead of {:?}", line, o, out);
        } else {
            a.out();
        }
        let (s, f) = (a.s(), a.f());
        let c = a.vm.c_stack().len();
        ensure!(
            s.is_empty() && f.is_empty() && c == 0,
            "stacks not empty after an exception",
            "`{}`: data {:?} float {:?} control {}",
            line, s, f, c
        );
        a.recover();
        ensure!(a.err() == 0, "error stays after recovery", "`{}`", line);
        ensure!(!a.vm.state().is_compiling, "still compiling after recovery", "`{}`", line);
        let r = a.rlen();
        ensure!(r == 0 && a.s().is_empty() && a.f().is_empty(), "stacks not empty after recovery", "`{}`: return stack {}", line, r);
        let g1 = a.val("gv @")?;
        ensure!(g1 == gv, "memory changed after the raise", "`{}`: counter {} instead of {}", line, g1, gv);
        gv_a = gv;
        b.line(&format!("{} gv !", gv));
        cx.distinct(hash_str(&line) ^ h);
        // Everything later agrees with the machine that never failed.
        for _ in 0..2 {
            let (x, y) = if rng.chance(1, 5) {
                // Without handlers the same failing program on both.
                (vec!["0 handler!".to_string(), "64push".into(), "64fpush 1 2 3 2drop".into()], 1)
            } else {
                (good(&mut rng, &mut uid), 0)
            };
            let _ = y;
            for l in &x {
                hooks::take();
                let ea = a.line(l);
                let eva = hooks::take();
                let sa = a.snap();
                if ea != 0 {
                    a.recover()
                }
                hooks::take();
                let eb = b.line(l);
                let evb = hooks::take();
                let sb = b.snap();
                if eb != 0 {
                    b.recover()
                }
                hooks::take();
                ensure!(
                    ea == eb && eva == evb && sa == sb,
                    "a later program behaves differently",
                    "`{}` after `{}`: {} {:?} {:?}; never failed: {} {:?} {:?}",
                    l, line, ea, eva, sa, eb, evb, sb
                );
                cx.count("later lines compared", 1);
            }
            for m in [&mut a, &mut b] {
                m.vm.clear_stacks();
            }
        }
        // Single-line fault storm.
        if rng.chance(1, 3) {
            for _ in 0..rng.range(2, 30) {
                let (t, c) = *rng.pick(LRAISE);
                if c == 0 {
                    continue;
                }
                let e = a.line(t);
                let c = if a.vm.handler() != 0 && hname == "rhandler" && e == -21 { e } else { c };
                ensure!(e == c, "wrong exception code", "`{}` gave {} instead of {}", t, e, c);
                a.recover();
                cx.count("exceptions raised: storm", 1);
            }
            a.out();
            hooks::take();
        }
    }
    Ok(())
}
