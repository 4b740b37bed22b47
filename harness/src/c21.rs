//! C21: compilation semantics. Words are modelled as lists of operations; compiling, postponing at
//! any level, bracketed interpretation and literals build such lists, which predict every event.
use crate::c08::flip_case;
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

#[derive(Clone, Debug)]
enum Op {
    Ev(i64),
    Fev(u64),
    /// Append to the definition being compiled.
    App(Vec<Op>),
    /// Report whether the system compiles.
    State,
}
#[derive(Clone)]
struct W {
    name: String,
    ops: Vec<Op>,
    imm: bool,
    comp_only: bool,
}
fn has_app(o: &[Op]) -> bool {
    o.iter().any(|x| matches!(x, Op::App(_)))
}
fn size(o: &[Op]) -> usize {
    o.iter().map(|x| if let Op::App(y) = x { 1 + size(y) } else { 1 }).sum()
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    I(i64),
    F(u64),
}
struct G<'a> {
    rng: &'a mut Rng,
    ws: Vec<W>,
    uid: u64,
    /// Events expected while compiling.
    ct: Vec<E>,
    compiling: bool,
    /// values and floats the harness pushes before the line
    push: Vec<i64>,
    fpush: Vec<f64>,
}
fn run(ops: &[Op], cur: &mut Vec<Op>, compiling: bool, ev: &mut Vec<E>) {
    for o in ops {
        match o {
            Op::Ev(v) => ev.push(E::I(*v)),
            Op::Fev(v) => ev.push(E::F(*v)),
            Op::State => ev.push(E::I(compiling as i64)),
            Op::App(x) => cur.extend(x.clone()),
        }
    }
}
/// Names of the postponed structure words of a machine.
const STRUCT: &[(&str, &str)] = &[("my-if", "if"), ("my-else", "else"), ("my-then", "then"), ("my-begin", "begin"), ("my-until", "until"), ("my-while", "while"), ("my-repeat", "repeat"), ("my-do", "do"), ("my-loop", "loop"), ("my-case", "case"), ("my-of", "of"), ("my-endof", "endof"), ("my-endcase", "endcase"), ("my-lit", "literal"), ("my-2lit", "2literal"), ("my-flit", "fliteral"), ("my-pp", "postpone"), ("my-tick", "[']"), ("my-chr", "[char]"), ("my-s\"", "s\""), ("my-(", "("), ("my-[", "["), ("my-;", ";"), ("my-again", "again"), ("my-+loop", "+loop"), ("my-?do", "?do"), ("my-exit", "exit"), ("my-i", "i"), ("my->r", ">r"), ("my-r>", "r>"), ("my-leave", "leave"), ("my-drop", "drop"), ("my-lit0", "lit0")];

impl<'a> G<'a> {
    fn v(&mut self) -> i64 {
        self.rng.cell()
    }
    fn st(&mut self, w: &str) -> String {
        // a structure word or its postponed stand-in
        if self.rng.chance(1, 3) {
            if let Some((n, _)) = STRUCT.iter().find(|x| x.1 == w) {
                return n.to_string();
            }
        }
        w.to_string()
    }
    fn compile(&mut self, w: &W, cur: &mut Vec<Op>) {
        if w.imm {
            let mut ct = std::mem::take(&mut self.ct);
            run(&w.ops, cur, self.compiling, &mut ct);
            self.ct = ct;
        } else {
            cur.extend(w.ops.clone());
        }
    }
    /// One element of a definition.
    fn item(&mut self, cur: &mut Vec<Op>, depth: u32) -> String {
        let v = self.v();
        let w = if self.ws.is_empty() { None } else { Some(self.rng.pick(&self.ws).clone()) };
        let w = match w {
            Some(w) if size(&w.ops) < 25 => Some(w),
            _ => None,
        };
        match (self.rng.below(26), w) {
            (0..=4, Some(w)) => {
                self.compile(&w, cur);
                flip_case(self.rng, &w.name)
            }
            (5..=7, Some(w)) => {
                let p = self.st("postpone");
                if w.imm {
                    cur.extend(w.ops.clone());
                } else {
                    cur.push(Op::App(w.ops.clone()));
                }
                format!("{} {}", p, w.name)
            }
            (8, Some(w)) => {
                cur.extend(w.ops.clone());
                let t = self.st("[']");
                format!("{} {} execute", t, w.name)
            }
            (9, Some(w)) if !w.comp_only => {
                let mut ct = std::mem::take(&mut self.ct);
                run(&w.ops, cur, false, &mut ct);
                self.ct = ct;
                let b = self.st("[");
                if self.rng.chance(1, 2) { format!("{} {} ]", b, w.name) } else { format!("{} ' {} execute ]", b, w.name) }
            }
            (10, Some(w)) => {
                // compile, appends the execution semantics
                if has_app(&w.ops) || w.imm {
                    return format!("( skip {} )", w.name);
                }
                cur.extend(w.ops.clone());
                format!("[ ' {} cc, ]", w.name)
            }
            (11, _) => {
                cur.push(Op::Ev(v));
                let l = self.st("literal");
                format!("[ {} ] {} ev", v, l)
            }
            (12, _) => {
                let u = self.v();
                cur.extend([Op::Ev(v), Op::Ev(u)]);
                let l = self.st("2literal");
                format!("[ {} {} ] {} ev ev", u, v, l)
            }
            (13, _) if depth == 0 && self.fpush.is_empty() => {
                let f = self.rng.f64();
                self.fpush.push(f);
                cur.push(Op::Fev(f.to_bits()));
                let l = self.st("fliteral");
                format!("{} fev", l)
            }
            (14, _) => {
                let c = *self.rng.pick(&['x', '"', '(', ';', 'é', '漢', '\\', '[']);
                cur.push(Op::Ev(c as i64));
                let l = self.st("[char]");
                format!("{} {}z ev", l, c)
            }
            (15, _) => {
                cur.push(Op::State);
                "compiling? 0= 1+ ev".into()
            }
            (16, _) => {
                self.ct.push(E::I(0));
                let b = self.st("[");
                format!("{} compiling? 0= 1+ ev ]", b)
            }
            (17, _) if depth < 3 => {
                let yes = self.rng.chance(1, 2);
                let (mut a, mut b) = (vec![], vec![]);
                let i = self.st("if");
                let ta = self.body(&mut a, depth + 1);
                let (e, t) = (self.st("else"), self.st("then"));
                let tb = self.body(&mut b, depth + 1);
                cur.extend(if yes { a } else { b });
                format!("{} {} {} {} {} {}", yes as i64, i, ta, e, tb, t)
            }
            (18, _) if depth < 2 => {
                let k = self.rng.range(1, 3);
                let mut a = vec![];
                let (d, l) = (self.st("do"), self.st("loop"));
                let ta = self.body(&mut a, depth + 1);
                for _ in 0..k {
                    cur.extend(a.clone());
                }
                format!("{} 0 {} {} {}", k, d, ta, l)
            }
            (19, _) if depth < 2 => {
                let k = self.rng.range(1, 3);
                let mut a = vec![];
                let (d, l) = (self.st("begin"), self.st("until"));
                let (r1, r2) = (self.st(">r"), self.st("r>"));
                let ta = self.body(&mut a, depth + 1);
                for _ in 0..k {
                    cur.extend(a.clone());
                }
                format!("{} {} {} {} {} 1- dup 0= {} drop", k, d, r1, ta, r2, l)
            }
            (20, _) if depth < 2 => {
                let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
                let sel = self.rng.range(1, 3);
                let ca = self.st("case");
                let (o1, e1) = (self.st("of"), self.st("endof"));
                let ta = self.body(&mut a, depth + 1);
                let (o2, e2) = (self.st("of"), self.st("endof"));
                let tb = self.body(&mut b, depth + 1);
                let tc = self.body(&mut c, depth + 1);
                let ec = self.st("endcase");
                cur.extend(match sel {
                    1 => a,
                    2 => b,
                    _ => c,
                });
                format!("{} {} 1 {} {} {} 2 {} {} {} {} {}", sel, ca, o1, ta, e1, o2, tb, e2, tc, ec)
            }
            (24, _) if depth < 2 => {
                // a loop left at some turn, or not
                let k = self.rng.range(1, 4);
                let at = self.rng.range(0, 4);
                let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
                let (d, l) = if self.rng.chance(1, 3) { (self.st("?do"), format!("1 {}", self.st("+loop"))) } else { (self.st("do"), self.st("loop")) };
                let (ix, i, t, lv) = (self.st("i"), self.st("if"), self.st("then"), self.st("leave"));
                let ta = self.body(&mut a, depth + 1);
                let tb = self.body(&mut b, depth + 1);
                let tc = self.body(&mut c, depth + 1);
                for turn in 0..k {
                    cur.extend(a.clone());
                    if turn == at {
                        cur.extend(b.clone());
                        break;
                    }
                    cur.extend(c.clone());
                }
                if self.rng.chance(1, 4) {
                    // from within a case
                    let (ca, o, e, ec) = (self.st("case"), self.st("of"), self.st("endof"), self.st("endcase"));
                    format!("{} 0 {} {} {} {} {} {} {} {} {} {} {} {}", k, d, ta, ix, ca, at, o, tb, lv, e, ec, tc, l)
                } else {
                    format!("{} 0 {} {} {} {} = {} {} {} {} {} {}", k, d, ta, ix, at, i, tb, lv, t, tc, l)
                }
            }
            (21, _) => {
                let t = self.st("s\"");
                cur.push(Op::Ev(5));
                format!("{} a(b;c\" ev drop", t)
            }
            (22, _) => {
                let t = self.st("(");
                format!("{} ignored ; {} ev )", t, v)
            }
            _ => {
                cur.push(Op::Ev(v));
                format!("{} ev", v)
            }
        }
    }
    fn body(&mut self, cur: &mut Vec<Op>, depth: u32) -> String {
        let n = 1 + self.rng.us(if depth == 0 { 5 } else { 3 });
        let mut s = vec![];
        for _ in 0..n {
            if size(cur) > 120 {
                break;
            }
            s.push(self.item(cur, depth));
        }
        s.join(" ")
    }
}

pub const COMPILE_ONLY: &[&str] = &[
    "exit", "lit", "flit", "_s\"", "branch", "0branch", "_do", "_qdo", "_loop", "_+loop", "unloop", "leave", "i", "j", ">r", "r>", "r@", "2>r", "2r>", "2r@", "compile,", "_postpone", "_does",
    "[']", "[char]", ";", "if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat", "until", "again", "label", "goto", "call", "recurse", "do", "?do", "loop", "+loop",
    "postpone", "does>", "interpret-token", "pause", "activate", "s\"", ".\"", "literal", "2literal", "fliteral",
];

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    let ok = |m: &mut M, l: &str| -> R {
        let e = m.line(l);
        ensure!(e == 0, "valid source refused", "`{}` raised {}", l, e);
        Ok(())
    };
    for (n, w) in STRUCT {
        if *n == "my-lit0" {
            continue;
        }
        let extra = if rng.chance(1, 4) { "compile-only" } else { "" };
        // one or two levels of postponing
        if rng.chance(1, 3) {
            ok(&mut m, &format!(": {}1 postpone {} ; immediate : {} postpone {}1 ; immediate {}", n, w, n, n, extra))?;
        } else {
            ok(&mut m, &format!(": {} postpone {} ; immediate {}", n, w, extra))?;
        }
    }
    // compile, cannot be interpreted
    ok(&mut m, ": cc, compile, ;")?;
    hooks::take();
    let mut g = G { rng: &mut rng, ws: vec![], uid: 0, ct: vec![], compiling: true, push: vec![], fpush: vec![] };
    let steps = if cx.small { 20 } else { 70 };
    for _ in 0..steps {
        if m.limit() - m.here() < 6000 {
            break;
        }
        match g.rng.below(12) {
            0 => {
                // a compile-only word interpreted has no effect
                let own: Vec<String> = g.ws.iter().filter(|w| w.comp_only).map(|w| w.name.clone()).collect();
                let name = if !own.is_empty() && g.rng.chance(1, 2) { g.rng.pick(&own).clone() } else { g.rng.pick(COMPILE_ONLY).to_string() };
                let name = flip_case(g.rng, &name);
                for _ in 0..g.rng.us(5) {
                    let v = g.v();
                    m.push(v);
                }
                let open = g.rng.chance(1, 3);
                if open {
                    // within brackets of a definition, perhaps with control structures open
                    g.uid += 1;
                    let n = g.rng.us(4);
                    let st: Vec<&str> = (0..n).map(|_| *g.rng.pick(&["if", "begin", "do", "?do", "case", "case 0 of", "begin while", "if else"])).collect();
                    let l = format!(": o{} 1 0 {} [", g.uid, st.join(" 1 0 "));
                    
                    ok(&mut m, &l)?;
                    cx.count("compile-only words interpreted within an open definition", 1);
                }
                let (here, len, img, s) = (m.here(), m.vm.wordlist().len(), m.image(), m.s());
                let via = g.rng.chance(1, 4) && !g.ws.iter().any(|w| w.name.eq_ignore_ascii_case(&name) && false) && !own.is_empty();
                let line = if via && own.iter().any(|o| o.eq_ignore_ascii_case(&name)) { format!("' {} execute", name) } else { name.clone() };
                let e = m.line(&line);
                let s2 = m.vm.s_stack().as_slice().to_vec();
                ensure!(e == -14, "interpreting a compile-only word", "`{}` raised {}", line, e);
                ensure!(m.here() == here && m.vm.wordlist().len() == len && m.image() == img && hooks::count() == 0 && !m.vm.state().is_compiling, "interpreting a compile-only word had an effect", "`{}`", line);
                // data stack contents are lost with the exception, never altered before
                ensure!(s2.is_empty() || s2.iter().map(|x| *x as i64).collect::<Vec<_>>() == s || line.starts_with('\''), "interpreting a compile-only word had an effect", "`{}`: {:?} to {:?}", line, s, s2);
                m.recover();
                cx.count("compile-only words interpreted", 1);
            }
            1 => {
                // data words: what they append is their value or address
                g.uid += 1;
                let n = format!("d{}", g.uid);
                let v = g.v();
                let imm = g.rng.chance(1, 4);
                let (mk, u, f) = match g.rng.below(5) {
                    0 => (format!("{} constant {}", v, n), "ev", Op::Ev(v)),
                    1 => (format!("variable {} {} {} !", n, v, n), "@ ev", Op::Ev(v)),
                    2 => (format!("create {} {} ,", n, v), "@ ev", Op::Ev(v)),
                    3 => {
                        let f = g.rng.range(-99, 99) as f64;
                        (format!("{}e fconstant {}", f, n), "fev", Op::Fev(f.to_bits()))
                    }
                    _ => (format!(": mk{} create , does> @ 1+ ; {} mk{} {}", g.uid, v, g.uid, n), "ev", Op::Ev(v.wrapping_add(1))),
                };
                ok(&mut m, &mk)?;
                let w = format!("p{}", g.uid);
                if imm {
                    // runs while compiling, what it leaves is made a literal
                    ok(&mut m, "immediate")?;
                    let fl = matches!(f, Op::Fev(_));
                    ok(&mut m, &format!(": {} {} {} {} ;", w, n, if fl { "fliteral" } else { "literal" }, u))?;
                } else {
                    ok(&mut m, &format!(": q{} postpone {} ; immediate : {} q{} {} ;", g.uid, n, w, g.uid, u))?;
                }
                g.ws.push(W { name: w, ops: vec![f], imm: false, comp_only: false });
                ensure!(hooks::count() == 0 && m.s().is_empty(), "compiling a data word had an effect", "{}", n);
                cx.count("data words", 1);
            }
            2 => {
                // undefined or missing names behind the words that take one
                let l = *g.rng.pick(&[": x postpone nosuch", ": x ['] nosuch", "' nosuch", ": x my-pp nosuch", ": x my-tick nosuch"]);
                let e = m.line(l);
                ensure!(e == -13, "undefined name behind a word that takes a name", "`{}` raised {}", l, e);
                m.recover();
                // structure words without their structure, by way of what postponed them
                let l = format!(": x {} ;", g.rng.pick(&["my-leave", "1 my-if my-leave my-then", "my-begin my-leave 1 my-until", "my-then", "my-else", "my-loop", "my-+loop", "my-repeat", "my-until", "my-again", "my-endof", "my-endcase", "my-begin my-loop", "my-do my-until", "my-if my-until", "my-case my-then", "0 my-do my-loop my-leave"]));
                let e = m.line(&l);
                ensure!(e == -22, "a structure word out of its structure, through postpone", "`{}` raised {}", l, e);
                m.recover();
                let l = *g.rng.pick(&[": x postpone", ": x [']", "'", ": x [char]", ": x my-chr", ": x my-pp"]);
                let e = m.line(l);
                ensure!(e == -39, "missing name behind a word that takes a name", "`{}` raised {}", l, e);
                m.recover();
            }
            3 | 4 if !g.ws.is_empty() => {
                // run a word, by name or token
                let w = g.rng.pick(&g.ws).clone();
                if !has_app(&w.ops) && !w.comp_only {
                    let l = if g.rng.chance(1, 3) { format!("' {} execute", w.name) } else { flip_case(g.rng, &w.name) };
                    runit(&mut m, &w, &l)?;
                    cx.count("words run", 1);
                }
            }
            _ => {
                g.uid += 1;
                let name = format!("w{}", g.uid);
                g.ct.clear();
                g.push.clear();
                g.fpush.clear();
                let mut cur = vec![];
                let body = g.body(&mut cur, 0);
                let semi = g.st(";");
                let flags = *g.rng.pick(&["", "", "", "immediate", "immediate", "compile-only", "immediate compile-only", "compile-only immediate", "immediate immediate", "compile-only compile-only", "immediate compile-only immediate compile-only"]);
                let def = format!(": {} {} {} {}", name, body, semi, flags);
                let def = def.trim_end().to_string();
                for f in g.fpush.clone() {
                    m.fpush(f);
                }
                if size(&cur) > 150 {
                    m.clear_s();
                    continue;
                }
                if g.rng.chance(1, 3) && !def.contains('"') && !def.contains('(') && !def.contains("[char]") && !def.contains("my-chr") {
                    // one token to a line, names stay behind the words that take them
                    let mut l = String::new();
                    for t in def.split(' ') {
                        l.push_str(t);
                        let tk = t.to_ascii_lowercase();
                        if [":", "postpone", "my-pp", "[']", "my-tick", "'"].contains(&tk.as_str()) {
                            l.push(' ');
                            continue;
                        }
                        ok(&mut m, &l)?;
                        l.clear();
                    }
                } else {
                    ok(&mut m, &def)?;
                }
                let ev = events();
                ensure!(ev == g.ct, "events while compiling differ from what the immediate words do", "`{}`: {:?} instead of {:?}", def, ev, g.ct);
                ensure!(m.s().is_empty() && m.f().is_empty() && !m.vm.state().is_compiling, "compiling left something behind", "`{}`: {:?} {:?}", def, m.s(), m.f());
                let w = W { name: name.clone(), ops: cur, imm: flags.contains("imm"), comp_only: flags.contains("comp") };
                if !has_app(&w.ops) {
                    if w.comp_only {
                        // runs inside a definition
                        let u = format!("t{}", g.uid);
                        ok(&mut m, &format!(": {} {} ;", u, if w.imm { format!("postpone {}", name) } else { name.clone() }))?;
                        runit(&mut m, &w, &u)?;
                    } else {
                        runit(&mut m, &w, &name)?;
                    }
                }
                cx.count("definitions", 1);
                cx.count("operations", size(&w.ops) as u64);
                cx.count("appending words", has_app(&w.ops) as u64);
                cx.distinct(hash_str(&def));
                g.ws.push(w);
            }
        }
        m.out();
    }
    cx.sample(|| format!("{} words: {}", g.ws.len(), g.ws.iter().rev().take(3).map(|w| format!("{} {:?}", w.name, w.ops)).collect::<Vec<_>>().join("; ")));
    Ok(())
}
fn events() -> Vec<E> {
    hooks::take()
        .into_iter()
        .map(|e| match e {
            Ev::I { v, .. } => E::I(v),
            Ev::F { v, .. } => E::F(v),
            _ => E::I(i64::MIN),
        })
        .collect()
}
fn runit(m: &mut M, w: &W, l: &str) -> R {
    let mut want = vec![];
    run(&w.ops, &mut vec![], false, &mut want);
    hooks::take();
    let e = m.line(l);
    ensure!(e == 0, "valid source refused", "`{}` raised {}", l, e);
    let ev = events();
    ensure!(ev == want, "running a definition differs from what was compiled into it", "`{}`: {:?} instead of {:?}", l, ev, want);
    ensure!(m.s().is_empty() && m.f().is_empty() && m.rlen() == 0, "running a definition left something behind", "`{}`: {:?}", l, m.s());
    Ok(())
}
