//! C20: text taken from the source and text printed. Lines are built from fragments whose effects are
//! known by construction; strings reported by a probe, values and the whole output are compared.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use crate::vmx::VM;
use std::cell::RefCell;

thread_local! {
    static STR: RefCell<Vec<(usize, String)>> = RefCell::new(Vec::new());
}
/// sev ( c-addr u -- ) report a string
fn sev(vm: &mut VM) {
    let (a, n) = vm.s_stack().pop2();
    let s = if n < 0 || n > 5000 || (n > 0 && !vm.data_space().has_range(a as usize, n as usize)) {
        format!("<not a string: {:x} {}>", a, n)
    } else if n == 0 {
        String::new()
    } else {
        let b = unsafe { std::slice::from_raw_parts(a as *const u8, n as usize) };
        match std::str::from_utf8(b) {
            Ok(s) => s.to_string(),
            Err(_) => format!("<not UTF-8: {:?}>", b),
        }
    };
    STR.with(|l| l.borrow_mut().push((hooks::count(), s)));
}

/// What running something does, in order.
#[derive(Clone, Debug, PartialEq)]
enum Fx {
    Out(String),
    Str(String),
    Val(i64),
}
struct G<'a> {
    rng: &'a mut Rng,
    /// names of words defined, with what they do
    words: Vec<(String, Vec<Fx>)>,
    uid: u64,
    multi: bool,
}
const UNI: &[char] = &['é', 'ß', '中', '語', '€', '𝄞', '😀', '\u{a0}', '\u{3000}', '\u{2028}', 'ñ', '\u{301}', '\u{85}', '\u{200b}', '\u{feff}', 'Ω', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{80}'];
impl<'a> G<'a> {
    fn ch(&mut self) -> char {
        match self.rng.below(10) {
            0 | 1 => *self.rng.pick(UNI),
            2 => *self.rng.pick(&[' ', ' ', '\t', '"', ')', '(', '\\', '\'', ';', ':']),
            3 => char::from(self.rng.range(1, 126) as u8),
            _ => char::from(self.rng.range(33, 126) as u8),
        }
    }
    /// Text without any of `not`.
    /// A character code for `emit` and what it displays: the character of its low eight bits.
    fn emitted(&mut self) -> (i64, String) {
        let c = match self.rng.below(8) {
            0..=3 => self.rng.below(128) as i64,
            4 => self.rng.below(256) as i64,
            5 => self.rng.range(256, 70000),
            6 => self.rng.range(-300, 0),
            _ => self.rng.cell(),
        };
        (c, ((c & 255) as u8 as char).to_string())
    }
    fn text(&mut self, max: usize, not: &[char]) -> String {
        let n = if self.rng.chance(1, 12) { 0 } else if self.rng.chance(1, 20) { self.rng.us(max) } else { self.rng.us(max.min(24)) };
        let mut s = String::new();
        while s.len() < n {
            let c = if self.rng.chance(1, 6) { ' ' } else { self.ch() };
            let c = if self.rng.chance(1, 60) { *self.rng.pick(&['\r', '\n', '\u{b}', '\u{c}', '\u{0}', '\u{1c}']) } else { c };
            // a line may end inside a text, when the source is more than a line
            if !not.contains(&c) && (c != '\n' || self.multi) && s.len() + c.len_utf8() <= max {
                s.push(c);
            } else if s.len() + 4 > max {
                break;
            }
        }
        s
    }
    /// A non-empty run of characters without blanks.
    fn token(&mut self, max: usize) -> String {
        loop {
            let t = self.text(max, &[' ', '\t', '\n', '\r']);
            if !t.is_empty() {
                return t;
            }
        }
    }
    fn blanks(&mut self) -> String {
        let n = if self.rng.chance(1, 30) { self.rng.us(200) } else { 1 + self.rng.us(3) };
        (0..n.max(1)).map(|_| *self.rng.pick(&[' ', ' ', ' ', '\t'])).collect()
    }
    /// Fragment for interpretation: text and effects; `true` when nothing may follow on the line.
    fn interp(&mut self, last: bool) -> (String, Vec<Fx>, bool) {
        let v = self.rng.range(-99, 99);
        match self.rng.below(28) {
            25 => {
                // the same text again after the input has been restored
                let t = self.token(30);
                (format!("si {} {} ev", t, v), vec![Fx::Str(t.clone()), Fx::Str(t), Fx::Val(v)], false)
            }
            26 => {
                let d = self.token(4).chars().next().unwrap();
                let t = self.token(20);
                let n = self.rng.us(5);
                if t.starts_with(d) || d == '(' || d == '\\' {
                    return ("".into(), vec![], false);
                }
                (format!("char {} sk {}{} {} ev", d, d.to_string().repeat(n), t, v), vec![Fx::Str(t), Fx::Val(v)], false)
            }
            27 => {
                let t = self.token(20);
                if last && self.rng.chance(1, 2) {
                    ("te".into(), vec![Fx::Val(-1)], true)
                } else {
                    (format!("te {} {} ev", t, v), vec![Fx::Val(0), Fx::Val(v)], false)
                }
            }
            0 => {
                let t = self.token(60);
                let b = self.blanks();
                (format!("tk{}{}", b, t), vec![Fx::Str(t)], false)
            }
            1 => {
                // any number of spaces is skipped, a tab is not
                let t = self.text(200, &[' ']);
                let k = 1 + self.rng.us(5);
                let end = last && self.rng.chance(1, 2);
                let t = if t.is_empty() { "x".to_string() } else { t };
                (format!("bl word{}{}{}", " ".repeat(k), t, if end { "" } else { " " }) + if end { "" } else { "count sev" }, if end { vec![] } else { vec![Fx::Str(t)] }, end)
            }
            2 => {
                let d = self.token(4).chars().next().unwrap();
                if d == '(' || d == '\\' {
                    return ("".into(), vec![], false);
                }
                // text up to a delimiter, starting right behind `word`
                let t = self.text(200, &[d]);
                (format!("char {} word {}{} count sev", d, t, d), vec![Fx::Str(format!(" {}", t))], false)
            }
            3 => {
                let d = self.token(4).chars().next().unwrap();
                let t = self.text(200, &[d]);
                if last && self.rng.chance(1, 3) {
                    (format!("char {} ps {}", d, t), vec![Fx::Str(format!(" {}", t))], true)
                } else {
                    // what follows the delimiter may touch it
                    (format!("char {} ps {}{}{} ev", d, t, d, v), vec![Fx::Str(format!(" {}", t)), Fx::Val(v)], false)
                }
            }
            4 | 5 => {
                let t = self.token(20);
                let b = self.blanks();
                (format!("char{}{} ev", b, t), vec![Fx::Val(t.chars().next().unwrap() as i64)], false)
            }
            6 | 7 => {
                let t = self.text(120, &[')']);
                if last && self.rng.chance(1, 3) {
                    (format!(".( {}", t), vec![Fx::Out(format!(" {}", t))], true)
                } else {
                    (format!(".( {}){} ev", t, v), vec![Fx::Out(format!(" {}", t)), Fx::Val(v)], false)
                }
            }
            8 | 9 => {
                let t = self.text(120, &[')']);
                if last && self.rng.chance(1, 3) {
                    (format!("( {}", t), vec![], true)
                } else {
                    (format!("( {}){} ev", t, v), vec![Fx::Val(v)], false)
                }
            }
            10 => {
                let t = self.text(120, &['\n']);
                if self.multi {
                    (format!("\\ {}\n{} ev", t, v), vec![Fx::Val(v)], false)
                } else if last {
                    (format!("\\ {}", t), vec![], true)
                } else {
                    (format!("{} ev", v), vec![Fx::Val(v)], false)
                }
            }
            11 => {
                let (c, t) = self.emitted();
                (format!("{} emit", c), vec![Fx::Out(t)], false)
            }
            12 => ("space".into(), vec![Fx::Out(" ".into())], false),
            13 => {
                let n = *self.rng.pick(&[0i64, 1, 2, 7, 40, -1, -3, i64::MIN]);
                (format!("{} spaces", n), vec![Fx::Out(" ".repeat(n.max(0) as usize))], false)
            }
            14 => ("cr".into(), vec![Fx::Out("\n".into())], false),
            15 | 16 if !self.words.is_empty() => {
                let (n, fx) = self.rng.pick(&self.words).clone();
                (n, fx, false)
            }
            22 => {
                // `word` right at its delimiters, however long they are
                let d = self.token(4).chars().next().unwrap();
                if d == '(' || d == '\\' {
                    return ("".into(), vec![], false);
                }
                let t = self.text(60, &[d]);
                let k = self.rng.us(5);
                if t.is_empty() {
                    return ("".into(), vec![], false);
                }
                (format!("char {} wd {}{}{}{} ev", d, d.to_string().repeat(k), t, d, v), vec![Fx::Str(t), Fx::Val(v)], false)
            }
            23 => {
                // the place in the source kept and gone back to
                let t = self.token(40);
                (format!("tw {} {} ev", t, v), vec![Fx::Str(t.clone()), Fx::Str(t), Fx::Val(v)], false)
            }
            17 if self.multi => (format!("{}\n\n {} ev", v, v).replacen(&format!("{}\n", v), &format!("{} ev\n", v), 1), vec![Fx::Val(v), Fx::Val(v)], false),
            _ => (format!("{} ev", v), vec![Fx::Val(v)], false),
        }
    }
    /// Fragment of a definition: text, effects while compiling, effects when running.
    fn comp(&mut self, depth: u32, now: &mut Vec<Fx>) -> (String, Vec<Fx>) {
        let v = self.rng.range(-99, 99);
        match self.rng.below(20) {
            0 | 1 | 2 => {
                let t = self.text(300, &['"']);
                (format!("s\" {}\" sev", t), vec![Fx::Str(t)])
            }
            3 | 4 => {
                let t = self.text(300, &['"']);
                (format!("s\" {}\" type", t), vec![Fx::Out(t)])
            }
            5 | 6 | 7 => {
                let t = self.text(300, &['"']);
                if self.rng.chance(1, 3) {
                    (format!(".\" {}\"{} ev", t, v), vec![Fx::Out(t), Fx::Val(v)])
                } else {
                    (format!(".\" {}\"", t), vec![Fx::Out(t)])
                }
            }
            8 | 9 => {
                let t = self.token(20);
                (format!("[char]{}{} ev", self.blanks(), t), vec![Fx::Val(t.chars().next().unwrap() as i64)])
            }
            10 => {
                let t = self.text(100, &[')']);
                (format!("( {})", t), vec![])
            }
            11 => {
                let t = self.text(60, &[')']);
                now.push(Fx::Out(format!(" {}", t)));
                (format!(".( {})", t), vec![])
            }
            12 if self.multi => {
                let t = self.text(60, &['\n']);
                (format!("\\ {}\n", t), vec![])
            }
            13 => {
                let t = self.token(9);
                (format!("[ char {} ] literal ev", t), vec![Fx::Val(t.chars().next().unwrap() as i64)])
            }
            14 => {
                let (c, t) = self.emitted();
                (format!("{} emit cr space", c), vec![Fx::Out(format!("{}\n ", t))])
            }
            15 if depth < 3 => {
                let k = self.rng.us(4);
                let (b, fx) = self.body(depth + 1, now);
                let mut all = vec![];
                for _ in 0..k {
                    all.extend(fx.clone());
                }
                (if k > 0 { format!("{} 0 do {} loop", k, b) } else { format!("0 if {} then", b) }, all)
            }
            16 if depth < 3 => {
                let (a, fa) = self.body(depth + 1, now);
                let (b, fb) = self.body(depth + 1, now);
                let yes = self.rng.chance(1, 2);
                (format!("{} if {} else {} then", yes as i64, a, b), if yes { fa } else { fb })
            }
            17 => {
                // a part of a string
                let t = self.text(100, &['"']);
                let cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                let k = *self.rng.pick(&cuts);
                (format!("s\" {}\" {} /string sev", t, k), vec![Fx::Str(t[k..].to_string())])
            }
            18 => {
                // counted string built from parts
                let (a, b) = (self.text(80, &['"']), self.text(80, &['"']));
                (format!("0 cbuf c! s\" {}\" cbuf append s\" {}\" cbuf append cbuf count sev", a, b), vec![Fx::Str(format!("{}{}", a, b))])
            }
            _ if !self.words.is_empty() => {
                let (n, fx) = self.rng.pick(&self.words).clone();
                if fx.len() > 60 {
                    return (format!("{} ev", v), vec![Fx::Val(v)]);
                }
                (n, fx)
            }
            _ => (format!("{} ev", v), vec![Fx::Val(v)]),
        }
    }
    fn body(&mut self, depth: u32, now: &mut Vec<Fx>) -> (String, Vec<Fx>) {
        let mut s = String::new();
        let mut fx = vec![];
        for _ in 0..1 + self.rng.us(4) {
            let (t, f) = self.comp(depth, now);
            s.push_str(&t);
            if self.multi && depth == 0 && self.rng.chance(1, 4) {
                s.push('\n');
            } else {
                s.push_str(&self.blanks());
            }
            fx.extend(f);
        }
        (s, fx)
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    m.vm.add_primitive("sev", sev);
    let e = m.line(": tk parse-word here !token here count sev ; : ps parse here !token here count sev ; : wd source-idx 1+ source-idx! word count sev ; : tw source-idx >r tk r> source-idx! tk ; : si save-input tk restore-input tk ; : sk source-idx 1+ source-idx! _skip tk ; : te parse-word token-empty? ev ; create cbuf 300 allot");
    ensure!(e == 0, "setup failed", "{}", e);
    hooks::take();
    STR.with(|l| l.borrow_mut().clear());
    m.out();
    let mut g = G { rng: &mut rng, words: vec![], uid: 0, multi: false };
    let lines = if cx.small { 15 } else { 60 };
    let mut chars = 0;
    for _ in 0..lines {
        if m.limit() - m.here() < 8000 {
            break;
        }
        g.multi = g.rng.chance(1, 3);
        let mut src = String::new();
        let mut want: Vec<Fx> = vec![];
        if g.rng.chance(1, 4) {
            src.push_str(&g.blanks());
        }
        let n = 1 + g.rng.us(6);
        for k in 0..n {
            if g.rng.chance(1, 3) && g.words.len() < 60 {
                g.uid += 1;
                let name = format!("w{}", g.uid);
                let mut now = vec![];
                let (b, fx) = g.body(0, &mut now);
                if b.len() > 4000 {
                    continue;
                }
                src.push_str(&format!(": {} {};", name, b));
                want.extend(now);
                g.words.push((name, fx));
            } else {
                let (t, fx, end) = g.interp(k == n - 1);
                src.push_str(&t);
                want.extend(fx);
                if end {
                    break;
                }
            }
            if g.multi && g.rng.chance(1, 3) {
                src.push_str(*g.rng.pick(&["\n", "\r\n", " \n\t"]));
            } else if k + 1 < n || g.rng.chance(1, 3) {
                src.push_str(&g.blanks());
            }
        }
        chars += src.chars().count();
        // evaluate at once or appended piece by piece
        let e = if g.rng.chance(1, 4) {
            note(&src);
            let cuts: Vec<usize> = src.char_indices().map(|x| x.0).collect();
            let k = if cuts.is_empty() { 0 } else { *g.rng.pick(&cuts) };
            m.vm.set_source(&src[..k]);
            m.vm.push_source(&src[k..]);
            m.vm.evaluate_input();
            m.err()
        } else {
            m.line(&src)
        };
        ensure!(e == 0, "valid text refused", "{:?} raised {}", src, e);
        check(&mut m, &src, &want)?;
        cx.count("lines", 1);
        cx.count("effects compared", want.len() as u64);
        cx.distinct(hash_str(&src));
        // a literal whose quote is missing ends with the line; the definition goes on
        if g.rng.chance(1, 8) {
            g.uid += 1;
            let name = format!("w{}", g.uid);
            let t = g.text(80, &['"']);
            let dot = g.rng.chance(1, 2);
            let l = format!(": {} {} {}", name, if dot { ".\"" } else { "s\"" }, t);
            // nothing behind s" at all: still an empty string
            let l = if t.is_empty() && g.rng.chance(1, 2) { l.trim_end().to_string() } else { l };
            for x in [l.as_str(), if dot { ";" } else { "sev ;" }] {
                let e = m.line(x);
                ensure!(e == 0, "valid text refused", "{:?} raised {}", x, e);
            }
            let e = m.line(&name);
            ensure!(e == 0, "valid text refused", "{:?} raised {}", name, e);
            let fx = vec![if dot { Fx::Out(t) } else { Fx::Str(t) }];
            check(&mut m, &l, &fx)?;
            g.words.push((name, fx));
            cx.count("unterminated literals", 1);
        }
        // text-taking words at the very end of a line
        if g.rng.chance(1, 10) {
            let (l, want, e0): (&str, Vec<Fx>, i64) = match g.rng.below(7) {
                0 => ("char", vec![], -39),
                1 => (": x [char]", vec![], -39),
                2 => (".(", vec![], 0),
                3 => ("(", vec![], 0),
                4 => ("\\", vec![], 0),
                5 => ("tk", vec![Fx::Str(String::new())], 0),
                _ => ("1 ev \\", vec![Fx::Val(1)], 0),
            };
            let e = m.line(l);
            ensure!(e == e0, "text-taking word at the end of the line", "{:?} raised {} instead of {}", l, e, e0);
            check(&mut m, l, &want)?;
            if e != 0 {
                m.recover();
            }
        }
    }
    // All literals are still what they were.
    for (n, fx) in g.words.clone() {
        let e = m.line(&n);
        ensure!(e == 0, "valid text refused", "{:?} raised {}", n, e);
        check(&mut m, &n, &fx)?;
    }
    cx.count("characters of source", chars as u64);
    cx.sample(|| format!("{} characters, {} words with literals", chars, g.words.len()));
    Ok(())
}

fn check(m: &mut M, src: &str, want: &[Fx]) -> R {
    let strs = STR.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let evs = hooks::take();
    let out = m.out();
    let mut wout = String::new();
    // Values and strings in their common order.
    let mut wev: Vec<Fx> = vec![];
    for f in want {
        match f {
            Fx::Out(s) => wout.push_str(s),
            x => wev.push(x.clone()),
        }
    }
    let mut got: Vec<Fx> = vec![];
    let mut si = strs.into_iter().peekable();
    for (k, e) in evs.iter().enumerate() {
        while si.peek().map_or(false, |s| s.0 <= k) {
            got.push(Fx::Str(si.next().unwrap().1));
        }
        got.push(match e {
            Ev::I { v, .. } => Fx::Val(*v),
            _ => Fx::Val(i64::MIN),
        });
    }
    got.extend(si.map(|s| Fx::Str(s.1)));
    ensure!(got == wev, "text taken from the source differs from what is written", "{:?}: {:?} instead of {:?}", src, got, wev);
    ensure!(out == wout, "printed text differs from what is written", "{:?}: {:?} instead of {:?}", src, out, wout);
    let s = m.s();
    // `bl word x` at the end of a line leaves its address
    ensure!(s.is_empty() || (s.len() == 1 && src.contains("bl word")), "text-taking words left something", "{:?}: {:?}", src, s);
    if !s.is_empty() {
        m.clear_s();
    }
    Ok(())
}
