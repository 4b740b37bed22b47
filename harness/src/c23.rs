//! C23: introspection words against a model of what they should show, and against full snapshots of
//! the machine before and after.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use std::collections::BTreeMap;

const ABORTS: &[(&str, &[&str], i64)] = &[
    ("1 0 /", &["/"], -10),
    ("1 0 mod", &["mod"], -10),
    ("1 0 /mod", &["/mod"], -10),
    ("abort", &["abort"], -1),
    ("0 @", &["@"], -9),
    ("7 0 !", &["!"], -9),
    ("0 c@", &["c@"], -9),
    ("7 -1 c!", &["c!"], -9),
    ("0 f@", &["f@"], -9),
    ("0 8 type", &["type"], -9),
    ("1000000000 allot", &["allot"], -8),
    ("-1000000000 allot", &["allot"], -9),
    ("99 suspend", &["suspend"], -24),
    ("99 resume", &["resume"], -24),
    ("-1 >body", &[">body"], -24),
    ("77777 execute", &["execute"], -21),
    ("0 2@", &["2@", "@"], -9),
    ("0 count", &["count", "c@"], -9),
    ("0 on", &["on", "!"], -9),
    ("-7 ?", &["?", "@"], -9),
    ("5 0 .s .s +!", &["+!", "@"], -9),
    ("1 70000 .r", &[".r"], -24),
];
const LINE_ERR: &[(&str, i64)] = &[
    ("nosuchword", -13), ("' nosuchword", -13), ("if", -14), ("exit", -14), (": xx then ;", -22), (": xx if ;", -22), ("drop", -4), ("fdrop", -45),
    ("create", -39), ("'", -39), (": r9 70 0 do i loop ; r9", -3), (": f9 70 0 do i s>f loop ; f9", -44), (": z9 [ 5000 ] goto ;", -24), ("3 base ! 2 .", -21),
];
/// ANS Forth exception texts as the reason a user reads.
pub fn reason(e: i64) -> &'static str {
    match e {
        -1 => "Aborted",
        -3 => "Stack overflow",
        -4 => "Stack underflow",
        -5 => "Return stack overflow",
        -6 => "Return stack underflow",
        -8 => "Dictionary overflow",
        -9 => "Invalid memory address",
        -10 => "Division by zero",
        -13 => "Undefined word",
        -14 => "Interpreting a compile only word",
        -21 => "Unsupported operation",
        -22 => "Control structure mismatch",
        -24 => "Invalid numeric argument",
        -39 => "Unexpected end of file",
        -44 => "Floating point stack overflow",
        -45 => "Floating point stack underflow",
        _ => "?",
    }
}

#[derive(Clone, Debug)]
enum It {
    Lit(i64),
    F(f64),
    Drop,
    Bt,
    DotS,
    Call(usize),
    Exec(usize),
    Mark(char),
    Loop(i64, Vec<It>),
    Push(i64, Vec<It>),
}
struct Def {
    name: String,
    xt: usize,
    body: Option<Vec<It>>,
    marks: Option<usize>, // a marker: number of definitions kept
    cost: u64,
    depth: u32,
    simple: bool,
}
#[derive(Default)]
struct Sim {
    s: Vec<i64>,
    f: Vec<f64>,
    act: Vec<String>,
    /// expected output; backtraces with loop or user items on the return stack are only bounded
    out: Vec<Piece>,
    loose: u32,
}
#[derive(Clone, Debug)]
enum Piece {
    T(String),
    /// backtrace whose names include these in order
    Loose(Vec<String>),
}
fn dots(s: &[i64], f: &[f64]) -> String {
    let mut o = String::new();
    for v in s {
        o += &format!("{} ", v);
    }
    if !f.is_empty() {
        if !s.is_empty() {
            o.push(' ');
        }
        o += "F: ";
        for v in f {
            o += &format!("{:.7} ", v);
        }
    }
    o
}
fn text(it: &[It], d: &[Def]) -> String {
    it.iter()
        .map(|i| match i {
            It::Lit(v) => v.to_string(),
            It::F(v) => format!("{}e", v),
            It::Drop => "drop".into(),
            It::Bt => ".backtrace".into(),
            It::DotS => ".s".into(),
            It::Call(k) => d[*k].name.clone(),
            It::Exec(k) => format!("{} execute", d[*k].xt),
            It::Mark(c) => format!("{} emit", *c as u32),
            It::Loop(n, b) => format!("{} 0 do {} loop", n, text(b, d)),
            It::Push(v, b) => format!("{} >r {} r> drop", v, text(b, d)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
impl Sim {
    fn put(&mut self, t: String) {
        self.out.push(Piece::T(t));
    }
    fn run(&mut self, it: &[It], d: &[Def]) {
        for i in it {
            match i {
                It::Lit(v) => self.s.push(*v),
                It::F(v) => self.f.push(*v),
                It::Drop => {
                    self.s.pop();
                }
                It::Bt => {
                    if self.loose > 0 {
                        self.out.push(Piece::Loose(self.act.clone()));
                    } else {
                        self.put(format!("backtrace: unknown(0) {}", self.act.iter().map(|n| format!("{} ", n)).collect::<String>()));
                    }
                }
                It::DotS => {
                    let t = dots(&self.s, &self.f);
                    self.put(t)
                }
                It::Call(k) | It::Exec(k) => {
                    if let Some(b) = &d[*k].body {
                        self.act.push(d[*k].name.clone());
                        self.run(b, d);
                        self.act.pop();
                    }
                }
                It::Mark(c) => self.put(c.to_string()),
                It::Loop(n, b) => {
                    self.loose += 1;
                    for _ in 0..*n {
                        self.run(b, d);
                    }
                    self.loose -= 1;
                }
                It::Push(_, b) => {
                    self.loose += 1;
                    self.run(b, d);
                    self.loose -= 1;
                }
            }
        }
    }
}
/// Does `got` match the pieces? Loose pieces run up to the next known text.
fn matches(got: &str, want: &[Piece]) -> Result<(), String> {
    let mut g = got;
    let mut k = 0;
    while k < want.len() {
        match &want[k] {
            Piece::T(t) => match g.strip_prefix(t.as_str()) {
                Some(r) => g = r,
                None => return Err(format!("piece {}: {:?} expected at {:?}", k, t, g)),
            },
            Piece::Loose(names) => {
                let r = match g.strip_prefix("backtrace: ") {
                    Some(r) => r,
                    None => return Err(format!("piece {}: a backtrace expected at {:?}", k, g)),
                };
                // names in order; every further word of the list is consumed greedily up to the innermost
                let mut pos = 0;
                let mut want_names = names.iter().peekable();
                let mut last_ok = None;
                loop {
                    let w: &str = match r[pos..].find(' ') {
                        Some(n) => &r[pos..pos + n],
                        None => break,
                    };
                    if want_names.peek().map_or(false, |x| x.as_str() == w) {
                        want_names.next();
                    }
                    if w.contains("backtrace:") {
                        break;
                    }
                    pos += w.len() + 1;
                    if want_names.peek().is_none() && Some(w) == names.last().map(|x| x.as_str()) {
                        last_ok = Some(pos);
                    }
                    if want_names.peek().is_none() && matches(&r[pos..], &want[k + 1..]).is_ok() {
                        return Ok(());
                    }
                }
                return Err(format!("piece {}: backtrace with {:?} in order expected at {:?} ({:?})", k, names, g, last_ok));
            }
        }
        k += 1;
    }
    if g.is_empty() {
        Ok(())
    } else {
        Err(format!("unexpected {:?} at the end", g))
    }
}

/// Everything about a machine an introspection word must leave alone.
fn state(m: &mut M) -> (Vec<u8>, Vec<i64>, Vec<u64>, usize, usize, usize, i64, bool, usize, Vec<(usize, usize, bool, bool, bool)>) {
    let img = m.image();
    let (s, f, r, h) = (m.s(), m.fbits(), m.rlen(), m.here());
    let c = m.vm.c_stack().len() as usize;
    let e = m.err();
    let comp = m.vm.state().is_compiling;
    let hd = m.vm.handler();
    let wl = m.vm.wordlist();
    let ws = (0..wl.len()).map(|i| (wl[i].nfa(), wl[i].dfa(), wl[i].is_hidden(), wl[i].is_immediate(), wl[i].is_compile_only())).collect();
    (img, s, f, r, h, c, e, comp, hd, ws)
}

fn gen(rng: &mut Rng, d: &[Def], n: usize, level: u32, lits: &mut i64) -> Vec<It> {
    let mut out = vec![];
    for _ in 0..1 + rng.us(n) {
        let live: Vec<usize> = (0..d.len()).filter(|k| d[*k].body.is_some() && d[*k].cost < 200 && d[*k].depth < 14 && newest(d, *k)).collect();
        out.push(match rng.below(14) {
            0 | 1 => {
                *lits += 1;
                It::Lit(rng.range(-100, 100))
            }
            2 => It::Bt,
            3 => It::DotS,
            4 | 5 | 6 | 7 if !live.is_empty() => It::Call(*rng.pick(&live)),
            8 if !live.is_empty() => It::Exec(*rng.pick(&live)),
            9 if level > 0 && level < 3 => {
                let mut l = 0;
                let b = gen(rng, d, 2, level + 1, &mut l);
                if l > 0 {
                    It::Bt
                } else {
                    It::Loop(1 + rng.below(2) as i64, b)
                }
            }
            10 if level > 0 && level < 3 => {
                let v = rng.range(-9, 9);
                It::Push(v, gen(rng, d, 2, level + 1, lits))
            }
            11 => It::Bt,
            12 => It::Mark((b'A' + rng.us(26) as u8) as char),
            _ => It::DotS,
        });
    }
    out
}
/// Does the name of definition `k` still mean it?
fn newest(d: &[Def], k: usize) -> bool {
    !d[k].name.is_empty() && d[k + 1..].iter().all(|x| x.name != d[k].name)
}
fn measure(it: &[It], d: &[Def]) -> (u64, u32, bool) {
    let (mut c, mut dep, mut simple) = (0, 0, true);
    for i in it {
        match i {
            It::Call(k) | It::Exec(k) => {
                c += 1 + d[*k].cost;
                dep = dep.max(1 + d[*k].depth);
                simple &= d[*k].simple;
            }
            It::Loop(n, b) => {
                let m = measure(b, d);
                c += *n as u64 * (m.0 + 1);
                dep = dep.max(m.1 + 3);
                simple = false;
            }
            It::Push(_, b) => {
                let m = measure(b, d);
                c += m.0 + 2;
                dep = dep.max(m.1 + 1);
                simple = false;
            }
            It::Lit(_) | It::F(_) => c += 3,
            _ => c += 1,
        }
    }
    (c, dep, simple)
}
/// Data stack items a body may leave at most (literals stay).
fn grows(it: &[It], d: &[Def]) -> usize {
    let mut sim = Sim::default();
    sim.run(it, d);
    sim.s.len()
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    m.line("words");
    let builtin: Vec<String> = m.out().split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
    ensure!(builtin.len() > 250, "word listing", "only {} words at the start", builtin.len());
    let first = m.vm.wordlist().len();
    let mut defs: Vec<Def> = vec![];
    let mut sim = Sim::default();
    let mut times: BTreeMap<usize, (i64, i64)> = BTreeMap::new();
    let mut uid = 0;
    let steps = if cx.small { 25 } else { 90 };
    let mut handler = false;
    let mut hname = String::new();
    for step in 0..steps {
        if m.limit() - m.here() < 6000 {
            break;
        }
        let live: Vec<usize> = (0..defs.len()).filter(|k| defs[*k].body.is_some()).collect();
        match rng.below(20) {
            // definitions
            0..=4 => {
                uid += 1;
                let old: Vec<String> = defs.iter().map(|d| d.name.clone()).filter(|n| n.starts_with('w')).collect();
                let name = if rng.chance(1, 5) && !old.is_empty() { rng.pick(&old).clone() } else { format!("w{}", uid) };
                if handler && name == hname {
                    continue;
                }
                let again = defs.iter().any(|d| d.name == name);
                let mut l = 0;
                let kind = rng.below(8);
                let (body, src) = match kind {
                    0 => (None, format!("variable {}", name)),
                    1 => (None, format!("7 constant {}", name)),
                    2 => (None, format!("create {} {} allot", name, rng.us(20))),
                    _ => {
                        let b = gen(&mut rng, &defs, 5, 1, &mut l);
                        if grows(&b, &defs) > 12 {
                            continue;
                        }
                        let t = text(&b, &defs);
                        (Some(b), format!(": {} {} ;", name, t))
                    }
                };
                let (cost, depth, simple) = body.as_ref().map_or((1, 0, true), |b| measure(b, &defs));
                if cost > 1500 || depth > 20 {
                    continue;
                }
                let e = m.line(&src);
                ensure!(e == 0, "definition refused", "`{}` gave {}", src, e);
                let o = m.out();
                ensure!(o.contains("Redefining") == again, "redefinition notice", "`{}` printed {:?}", src, o);
                // create's allot may leave the free pointer anywhere: names of later words are found all the same
                defs.push(Def { name, xt: m.vm.wordlist().len() - 1, body, marks: None, cost, depth, simple });
            }
            5 => {
                uid += 1;
                let name = format!("m{}", uid);
                let e = m.line(&format!("marker {}", name));
                ensure!(e == 0, "definition refused", "marker gave {}", e);
                defs.push(Def { name, xt: m.vm.wordlist().len() - 1, body: None, marks: Some(defs.len()), cost: 9999, depth: 99, simple: true });
            }
            6 if rng.chance(1, 3) && !handler => {
                let ms: Vec<usize> = (0..defs.len()).filter(|k| defs[*k].marks.is_some()).collect();
                if ms.is_empty() {
                    continue;
                }
                let k = *rng.pick(&ms);
                let e = m.line(&defs[k].name.clone());
                ensure!(e == 0, "marker failed", "{}", e);
                let keep = defs[k].marks.unwrap();
                let gone: Vec<usize> = defs[keep..].iter().map(|d| d.xt).collect();
                times.retain(|x, _| !gone.contains(x));
                defs.truncate(keep);
                // names of tokens that are gone
                let n = m.vm.wordlist().len() as i64;
                let x = n + rng.below(5) as i64;
                m.line(&format!("{} .word", x));
                let o = m.out();
                ensure!(o == "unknown ", ".word of a token that is gone", "{} .word printed {:?} with {} words", x, o, n);
                cx.count("markers run", 1);
            }
            // values
            7 => {
                for _ in 0..rng.us(8) {
                    if sim.s.len() < 30 {
                        let v = if rng.chance(1, 3) { rng.cell() } else { rng.range(-1000, 1000) };
                        m.push(v);
                        sim.s.push(v);
                    }
                }
                for _ in 0..rng.us(4) {
                    if sim.f.len() < 30 {
                        let v = if rng.chance(1, 8) { rng.f64() } else { rng.range(-100000, 100000) as f64 / 64.0 };
                        m.fpush(v);
                        sim.f.push(v);
                    }
                }
            }
            8 => {
                if rng.chance(1, 2) {
                    m.clear_s();
                    sim.s.clear();
                    sim.f.clear();
                }
            }
            // a program which looks at itself
            9..=11 if !live.is_empty() => {
                if sim.s.len() > 30 {
                    m.clear_s();
                    sim.s.clear();
                    sim.f.clear();
                }
                let mut l = 0;
                let b = gen(&mut rng, &defs, 4, 0, &mut l);
                if measure(&b, &defs).0 > 3000 || measure(&b, &defs).1 > 25 || grows(&b, &defs) > 30 {
                    continue;
                }
                sim.out.clear();
                sim.run(&b, &defs);
                let src = text(&b, &defs);
                let e = m.line(&src);
                let o = m.out();
                ensure!(e == 0, "program failed", "`{}` gave {}", src, e);
                if let Err(w) = matches(&o, &sim.out) {
                    return fail("display differs from the state", format!("`{}` printed {:?}; {}", src, o, w));
                }
                let s = m.s();
                ensure!(s == sim.s, "introspection changed the data stack", "`{}` left {:?} instead of {:?}", src, s, sim.s);
                ensure!(m.fbits() == sim.f.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), "introspection changed the float stack", "`{}` left {:?}", src, m.f());
                cx.count("displays compared", sim.out.len() as u64);
                cx.distinct(hash_str(&src));
            }
            // an exception, with a handler which looks at it
            12 => {
                if !handler {
                    uid += 1;
                    hname = format!("h{}", uid);
                    let e = m.line(&format!(": {} .backtrace [char] | emit .error [char] | emit .s bye ; ' {} handler!", hname, hname));
                    ensure!(e == 0, "handler refused", "{}", e);
                    m.out();
                    defs.push(Def { name: hname.clone(), xt: m.vm.wordlist().len() - 1, body: None, marks: None, cost: 9999, depth: 99, simple: true });
                    handler = true;
                }
                sim.s.clear();
                sim.f.clear();
                m.clear_s();
                let (t, names, code) = *rng.pick(ABORTS);
                // a chain of callers
                let depth = rng.us(6);
                let mut act: Vec<String> = vec![];
                let mut call = t.to_string();
                let mut bad = false;
                for _ in 0..depth {
                    uid += 1;
                    let n = format!("x{}", uid);
                    // words that have finished do not show
                    let pre = rng.pick(&["noop", "1 drop", "1 2 + drop", "1 >r r> drop", "2 0 do noop loop", "7 base @ 2drop", "0 2* drop", "1 ?dup 2drop"]);
                    let e = m.line(&format!(": {} {} {} 1 2 3 ;", n, pre, call));
                    bad |= e != 0;
                    defs.push(Def { name: n.clone(), xt: m.vm.wordlist().len() - 1, body: None, marks: None, cost: 9999, depth: 99, simple: false });
                    act.insert(0, n.clone());
                    call = n;
                }
                ensure!(!bad, "definition refused", "caller of `{}`", t);
                m.out();
                if depth > 0 && rng.chance(1, 4) {
                    call = format!("' {} execute", call);
                }
                let e = m.line(&call);
                let o = m.out();
                let mut want = String::from("backtrace: unknown(0) ");
                for n in act.iter().map(|x| x.as_str()).chain(names.iter().copied()).chain([hname.as_str()]) {
                    want += n;
                    want.push(' ');
                }
                want += &format!("|{}|", reason(code));
                let pre = if t.contains(".s") { "5 0 5 0 " } else { "" };
                ensure!(e == code && o == format!("{}{}", pre, want), "report of an exception", "`{}` ({}) ended with {} and printed {:?} instead of {} and {:?}", call, t, e, o, code, want);
                m.recover();
                m.line(".backtrace .error");
                let o = m.out();
                ensure!(o == "backtrace: unknown(0) ", "backtrace after recovery", "{:?} after `{}`", o, t);
                cx.count("exceptions reported", 1);
            }
            13 => {
                // errors of the line itself
                sim.s.clear();
                sim.f.clear();
                m.clear_s();
                let (t, code) = *rng.pick(LINE_ERR);
                let had = m.vm.handler();
                m.vm.set_handler(0);
                let e = m.line(t);
                ensure!(e == code, "wrong exception", "`{}` gave {} instead of {}", t, e, code);
                m.out();
                // as a client reports it
                let mut x = m.vm.last_error();
                m.vm.dot_error();
                let o = m.out();
                ensure!(o == reason(code), "error text", "{:?} for {} after `{}`", o, code, t);
                if m.vm.last_error() != x.take() {
                    return fail("error text clears the error", t.into());
                }
                m.recover();
                m.vm.set_handler(had);
                m.line("decimal");
                // what the line defined before it failed
                for i in first + defs.len()..m.vm.wordlist().len() {
                    let hidden = m.vm.wordlist()[i].is_hidden();
                    let name = { m.line(&format!("{} .word", i)); m.out().trim_end().to_string() };
                    defs.push(Def { name: if hidden { String::new() } else { name }, xt: i, body: None, marks: None, cost: 9999, depth: 99, simple: false });
                }
                cx.count("line errors described", 1);
            }
            14 if RTFVM => continue,
            14 => {
                // execution times
                let d = match defs.iter().filter(|d| !d.name.is_empty()).collect::<Vec<_>>() {
                    v if v.is_empty() => continue,
                    v => (rng.pick(&v).xt, 0),
                };
                if rng.chance(1, 8) {
                    m.line("0xtime");
                    times.clear();
                }
                let t = if rng.chance(1, 4) { rng.below(2) } else { rng.below(1000) } as i64;
                let e = m.line(&format!("{} {} (xtime)", -t, d.0));
                ensure!(e == 0, "(xtime) failed", "{}", e);
                let x = times.entry(d.0).or_insert((t, t));
                x.0 = x.0.min(t);
                x.1 = x.1.max(t);
            }
            15 => {
                // a task looks at itself
                uid += 1;
                if rng.chance(1, 3) {
                    // a deep chain of activations of one word, all of which show
                    let n = 1 + rng.us(55);
                    let w = format!("rr{}", uid);
                    let e = m.line(&format!(": {0} dup if 1- recurse else .backtrace then ; {1} {0} drop .backtrace", w, n));
                    let o = m.out();
                    defs.push(Def { name: w.clone(), xt: m.vm.wordlist().len() - 1, body: None, marks: None, cost: 9999, depth: 99, simple: false });
                    let want = format!("backtrace: unknown(0) {}backtrace: unknown(0) ", format!("{} ", w).repeat(n + 1));
                    ensure!(e == 0 && o == want, "backtrace of a recursion", "{} deep: error {} output {:?}", n, e, o);
                    cx.count("deep backtraces", 1);
                    continue;
                }
                let q: Vec<String> = (0..3).map(|k| format!("q{}{}", uid, ["a", "b", "c"][k])).collect();
                let e = m.line(&format!(": {0} .backtrace 5 .s drop pause ; : {1} {0} ; : {2} {3} activate begin {1} again ;", q[0], q[1], q[2], 2 + rng.us(4)));
                ensure!(e == 0, "definition refused", "{}", e);
                m.out();
                for k in 0..3 {
                    defs.push(Def { name: q[k].clone(), xt: m.vm.wordlist().len() - 3 + k, body: None, marks: None, cost: 9999, depth: 99, simple: false });
                }
                let e = m.line(&format!("{} : go{} pause pause .backtrace ; go{}", q[2], uid, uid));
                let o = m.out();
                defs.push(Def { name: format!("go{}", uid), xt: m.vm.wordlist().len() - 1, body: None, marks: None, cost: 9999, depth: 99, simple: false });
                let one = format!("backtrace: {} {} {} 5 ", q[2], q[1], q[0]);
                ensure!(e == 0 && o == format!("{}{}backtrace: unknown(0) go{} ", one, one, uid), "display in a task", "error {} output {:?} instead of twice {:?}", e, o, one);
                // end the task again
                for t in 2..6 {
                    m.vm.set_awake(t - 1, false);
                }
                cx.count("tasks displayed", 1);
            }
            // each word on its own, with everything compared
            _ => {
                let n = m.vm.wordlist().len() as i64;
                let (src, want): (String, Option<String>) = match rng.below(11) {
                    // what dump needs of the stack itself is not specified
                    9 | 10 if sim.s.len() > 30 => continue,
                    9 | 10 => {
                        // a dump shows the bytes that are there, in rows of eight
                        let (lo, hi) = (m.start() as i64 + 1, m.limit() as i64);
                        let a = match rng.below(4) {
                            0 => lo + rng.below(64) as i64,
                            1 => m.here() as i64 - rng.below(200) as i64,
                            2 => hi - 8 * (1 + rng.below(6) as i64),
                            _ => lo + rng.below((hi - lo) as u64 - 100) as i64,
                        };
                        let u = match rng.below(4) {
                            0 => rng.range(-3, 3),
                            _ => rng.below(70) as i64,
                        };
                        let u = u.min((hi - a) / 8 * 8);
                        // arbitrary bytes in a part of it that is free
                        if a > m.here() as i64 + 100 && u > 0 && rng.chance(1, 2) {
                            for k in 0..u {
                                let v = rng.below(256) as i64;
                                m.push(v);
                                m.push(a + k);
                                m.line("c!");
                            }
                        }
                        let img = m.image();
                        let base = m.start() as i64;
                        let mut w = String::new();
                        let mut p = a;
                        while p < a + u {
                            w += &format!("{:>4X}:", p);
                            w.push(' ');
                            let row = &img[(p - base) as usize..(p - base + 8) as usize];
                            for b in row {
                                w += &format!("{:>3X}", b);
                            }
                            w += "  ";
                            for b in row {
                                let c = b & 0x7f;
                                w.push(if (32..127).contains(&c) { c as char } else { '_' });
                            }
                            w.push('\n');
                            p += 8;
                        }
                        cx.count("rows dumped", (u.max(0) as u64 + 7) / 8);
                        (format!("{} {} dump", a, u), Some(w))
                    }
                    0 => (".s".into(), Some(dots(&sim.s, &sim.f))),
                    1 => {
                        let mut w: String = defs.iter().rev().filter(|d| !d.name.is_empty()).map(|d| format!("{} ", d.name)).collect();
                        for b in &builtin {
                            w += b;
                            w.push(' ');
                        }
                        ("words".into(), Some(w))
                    }
                    2 => {
                        let (a, b, h) = (m.start(), m.limit(), m.here());
                        (".memory".into(), Some(format!("data space capacity: {}, used: {}, start: 0x{:X}, limit: 0x{:X}, here: 0x{:X}\n", b - a, h - a, a, b, h)))
                    }
                    3 => {
                        let t = format!("{}.input {}( ä {})", " ".repeat(rng.us(4)), " \t".repeat(rng.us(2)), step);
                        (t.clone(), Some(t))
                    }
                    4 if RTFVM => continue,
                    4 => {
                        let mut w = vec![];
                        for (x, (a, b)) in times.iter().rev() {
                            if let Some(d) = defs.iter().find(|d| d.xt == *x) {
                                w.push(format!("{}|{},{}", d.name, a, b));
                            }
                        }
                        (".xtime".into(), Some(w.join("|")))
                    }
                    5 => (".error".into(), Some(String::new())),
                    6 => (".backtrace".into(), Some("backtrace: unknown(0) ".into())),
                    _ => {
                        // tokens valid and not
                        let (x, w) = match rng.below(5) {
                            0 if !defs.is_empty() => {
                                let d = rng.pick(&defs);
                                if d.name.is_empty() {
                                    continue;
                                }
                                (d.xt as i64, d.name.clone())
                            }
                            1 => {
                                let k = rng.us(builtin.len());
                                (first as i64 - 1 - k as i64, builtin[k].clone())
                            }
                            2 => (n + rng.below(3) as i64, "unknown".into()),
                            3 => (-1 - rng.below(1000) as i64, "unknown".into()),
                            _ => {
                                let v = rng.cell();
                                if v >= 0 && v < n {
                                    continue;
                                }
                                (v, "unknown".into())
                            }
                        };
                        m.push(x);
                        let b = state(&mut m);
                        let e = m.line(".word");
                        let mut a = state(&mut m);
                        a.1.push(x);
                        let o = m.out();
                        ensure!(e == 0 && o == format!("{} ", w), ".word names the wrong word", "{} .word printed {:?} (error {}) instead of {:?}", x, o, e, w);
                        ensure!(a == b, "introspection changes the machine", ".word of {}", x);
                        cx.count("tokens named", 1);
                        if w != "unknown" && sim.s.len() < 60 {
                            // The same name by its address.
                            m.push(x);
                            let b = state(&mut m);
                            let e = m.line(">name dup cell+ swap @ type");
                            let mut a = state(&mut m);
                            a.1.push(x);
                            let o = m.out();
                            ensure!(e == 0 && o == w, ">name finds the wrong name", "the name of {} at >name is {:?} (error {}) instead of {:?}", x, o, e, w);
                            ensure!(a == b, "introspection changes the machine", ">name of {}", x);
                            cx.count("names read at >name", 1);
                        }
                        continue;
                    }
                };
                let b = state(&mut m);
                let reps = 1 + rng.us(3);
                for _ in 0..reps {
                    let e = m.line(&src);
                    let o = m.out();
                    ensure!(e == 0, "introspection fails", "`{}` gave {}", src, e);
                    if let Some(w) = &want {
                        ensure!(o == *w, &format!("{} differs from the state", src.trim().split(' ').next().unwrap()), "`{}` printed {:?} instead of {:?}", src, o.chars().take(2000).collect::<String>(), w.chars().take(2000).collect::<String>());
                    }
                }
                let a = state(&mut m);
                ensure!(a == b, "introspection changes the machine", "`{}`", src);
                cx.count("single words compared", reps as u64);
            }
        }
    }
    Ok(())
}
