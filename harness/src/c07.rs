//! C07: acceptance of control structures. A typed control-stack automaton (the grammar of the
//! language) predicts which definitions must be refused.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    If,
    Else,
    Case,
    Of,
    Endof,
    Begin,
    While,
    Do,
}

/// None: refused. `forward` holds labels that were jumped to and not yet placed.
#[derive(Default, Clone)]
struct Auto {
    st: Vec<C>,
    forward: Vec<i64>,
    placed: Vec<i64>,
    max: usize,
}
impl Auto {
    fn step(&mut self, t: &str) -> bool {
        let ok = match t {
            "if" => self.push(C::If),
            "else" => self.swap(&[C::If], C::Else),
            "then" => self.close(&[C::If, C::Else]),
            "case" => self.push(C::Case),
            "of" => match self.st.last() {
                // each finished alternative stays until endcase
                Some(C::Case) | Some(C::Endof) => self.push(C::Of),
                _ => false,
            },
            "endof" => self.swap(&[C::Of], C::Endof),
            "endcase" => loop {
                match self.st.pop() {
                    Some(C::Endof) => {}
                    Some(C::Case) => break true,
                    _ => break false,
                }
            },
            "begin" => self.push(C::Begin),
            // accepted here, it is the closing word that needs the right partner
            "while" => self.push(C::While),
            "repeat" => {
                let n = self.st.len();
                if n >= 2 && self.st[n - 1] == C::While && self.st[n - 2] == C::Begin {
                    self.st.truncate(n - 2);
                    true
                } else {
                    false
                }
            }
            "until" | "again" => self.close(&[C::Begin]),
            "do" | "?do" => self.push(C::Do),
            "loop" | "+loop" => self.close(&[C::Do]),
            "leave" => self.st.contains(&C::Do),
            _ => {
                let w: Vec<&str> = t.split(' ').collect();
                if w.len() == 4 && w[0] == "[" && w[3] == "goto" || w.len() == 4 && w[3] == "call" {
                    let n: i64 = w[1].parse().unwrap();
                    if !self.placed.contains(&n) && !self.forward.contains(&n) {
                        self.forward.push(n);
                    }
                } else if w.len() == 4 && w[3] == "label" {
                    let n: i64 = w[1].parse().unwrap();
                    self.forward.retain(|x| *x != n);
                    self.placed.push(n);
                }
                true
            }
        };
        self.max = self.max.max(self.st.len());
        ok && self.st.len() <= 64
    }
    fn push(&mut self, c: C) -> bool {
        self.st.push(c);
        true
    }
    fn close(&mut self, v: &[C]) -> bool {
        match self.st.pop() {
            Some(c) => v.contains(&c),
            None => false,
        }
    }
    fn swap(&mut self, v: &[C], n: C) -> bool {
        let ok = self.close(v);
        self.st.push(n);
        ok
    }
    fn done(&self) -> bool {
        self.st.is_empty() && self.forward.is_empty()
    }
}

const WORDS: [&str; 19] = [
    "if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat", "until", "again", "do", "?do", "loop", "+loop", "leave", "recurse", "exit",
];

fn filler(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => "( then else loop )".into(),
        1 => "postpone if".into(),
        2 => "s\" then repeat\"".into(),
        3 => "[char] i".into(),
        4 => "['] then".into(),
        5 => "[ 1 drop ]".into(),
        6 => "1.5e".into(),
        7 => "i".into(),
        8 => "unloop".into(),
        9 => "dup".into(),
        _ => rng.range(-9, 9).to_string(),
    }
}

/// A properly nested sequence.
fn good(rng: &mut Rng, depth: usize, in_do: bool, o: &mut Vec<String>) {
    let n = if o.len() > 120 { 0 } else { rng.below(if depth > 5 { 2 } else { 4 }) };
    for _ in 0..n {
        let f = |o: &mut Vec<String>, t: &str| o.push(t.to_string());
        if rng.chance(1, 3) {
            o.push(filler(rng));
        }
        match rng.below(11) {
            0 | 1 => {
                f(o, "if");
                good(rng, depth + 1, in_do, o);
                if rng.chance(1, 2) {
                    f(o, "else");
                    good(rng, depth + 1, in_do, o);
                }
                f(o, "then");
            }
            2 => {
                f(o, "case");
                good(rng, depth + 1, in_do, o);
                for _ in 0..rng.below(4) {
                    f(o, "of");
                    good(rng, depth + 1, in_do, o);
                    f(o, "endof");
                    if rng.chance(1, 2) {
                        good(rng, depth + 1, in_do, o);
                    }
                }
                f(o, "endcase");
            }
            3 => {
                f(o, "begin");
                good(rng, depth + 1, in_do, o);
                f(o, "until");
            }
            4 => {
                f(o, "begin");
                good(rng, depth + 1, in_do, o);
                f(o, "again");
            }
            5 | 6 => {
                f(o, "begin");
                good(rng, depth + 1, in_do, o);
                f(o, "while");
                good(rng, depth + 1, in_do, o);
                f(o, "repeat");
            }
            7 | 8 | 9 => {
                o.push(rng.pick(&["do", "?do"]).to_string());
                good(rng, depth + 1, true, o);
                o.push(rng.pick(&["loop", "+loop"]).to_string());
            }
            _ if in_do => f(o, "leave"),
            _ => f(o, "recurse"),
        }
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    let mut names: Vec<(String, i64)> = vec![];
    let mut refused: Vec<String> = vec![];
    let mut labels: Vec<i64> = (1..1000).collect();
    rng.shuffle(&mut labels);
    for round in 0..if cx.small { 5 } else { 25 } {
        if m.limit() - m.here() < 9000 {
            break;
        }
        let mut v: Vec<String> = vec![];
        match rng.below(8) {
            0 => {
                for _ in 0..1 + rng.below(8) {
                    v.push(rng.pick(&WORDS).to_string());
                }
            }
            1 => {
                // deep nests around the capacity of the control stack
                let n = 60 + rng.us(9);
                let k = rng.below(4);
                let (a, b) = [("if", "then"), ("begin", "until"), ("do", "loop"), ("case", "endcase")][k as usize];
                for _ in 0..n {
                    v.push(a.into());
                }
                let close = if rng.chance(1, 6) { n - 1 } else { n };
                for _ in 0..close {
                    v.push(b.into());
                }
            }
            _ => good(&mut rng, 0, false, &mut v),
        }
        // labels
        let nl = if rng.chance(1, 3) { 1 + rng.us(3) } else { 0 };
        for _ in 0..nl {
            if labels.len() < 10 {
                break;
            }
            let l = labels.pop().unwrap();
            let at = rng.us(v.len() + 1);
            for _ in 0..rng.below(3) {
                let p = rng.us(v.len() + 1);
                v.insert(p, format!("[ {} ] {}", l, rng.pick(&["goto", "call"])));
            }
            if rng.chance(4, 5) {
                let at = at.min(v.len());
                v.insert(at, format!("[ {} ] label", l));
            }
        }
        // damage
        if rng.chance(1, 2) {
            for _ in 0..1 + rng.below(2) {
                match rng.below(4) {
                    0 if !v.is_empty() => {
                        let p = rng.us(v.len());
                        v.remove(p);
                    }
                    1 => {
                        let p = rng.us(v.len() + 1);
                        v.insert(p, rng.pick(&WORDS).to_string());
                    }
                    2 if v.len() > 1 => {
                        let (a, b) = (rng.us(v.len()), rng.us(v.len()));
                        v.swap(a, b);
                    }
                    _ if !v.is_empty() => {
                        let p = rng.us(v.len());
                        v[p] = rng.pick(&WORDS).to_string();
                    }
                    _ => {}
                }
            }
        }
        let mut a = Auto::default();
        let mut ok = true;
        for t in &v {
            if !a.step(t) {
                ok = false;
                break;
            }
        }
        let ok = ok && a.done();
        let old = rng.chance(1, 2) && !names.is_empty();
        let name = if old { names[rng.us(names.len())].0.clone() } else { format!("n{}", round) };
        let val = 1000 + round as i64;
        // running the word only shows its value: the structure behind it is never entered
        let mut toks = vec![":".to_string(), name.clone(), val.to_string(), "exit".into()];
        toks.extend(v.iter().cloned());
        toks.push(";".into());
        let lines: Vec<String> = if rng.chance(1, 3) {
            let mut o = vec![];
            let mut i = 0;
            while i < toks.len() {
                let n = (2 + rng.us(12)).min(toks.len() - i);
                o.push(toks[i..i + n].join(" "));
                i += n;
            }
            o
        } else {
            vec![toks.join(" ")]
        };
        hooks::take();
        let mut e = 0;
        for (k, l) in lines.iter().enumerate() {
            let l = if k + 1 == lines.len() { format!("{} 77 ev", l) } else { l.clone() };
            e = m.line(&l);
            if e != 0 {
                break;
            }
        }
        let evs = hooks::take();
        let src = toks.join(" ");
        if ok {
            ensure!(e == 0, "well-formed definition refused", "`{}` raised {}", src, e);
            ensure!(evs.len() == 1 && evs[0] == Ev::I { task: 0, v: 77 }, "rest of the line not executed", "`{}` 77 ev gave {:?}", src, evs);
            cx.count("accepted", 1);
            match names.iter_mut().find(|n| n.0 == name) {
                Some(n) => n.1 = val,
                None => names.push((name.clone(), val)),
            }
            refused.retain(|r| *r != name);
        } else {
            ensure!(e != 0, "malformed definition accepted", "`{}` was accepted", src);
            ensure!(e == -22, &format!("malformed definition raised {}", e), "`{}` raised {} instead of -22", src, e);
            ensure!(evs.is_empty(), "rest of the line executed after a refusal", "`{}` 77 ev gave {:?}", src, evs);
            cx.count("refused", 1);
            m.recover();
            if !names.iter().any(|n| n.0 == name) {
                refused.push(name.clone());
            }
        }
        let st = m.s();
        ensure!(st.is_empty() && m.rlen() == 0, "stacks not empty", "after `{}`: {:?} return {}", src, st, m.rlen());
        // the refused name is not there, older words are
        for n in &refused {
            ensure!(m.vm.find_(n).is_none(), "refused name findable", "`{}` is found after `{}`", n, src);
            if rng.chance(1, 4) {
                let e = m.try_line(n);
                ensure!(e == -13, "refused name executable", "`{}` gave {} after `{}`", n, e, src);
            }
        }
        let _ = m.out();
        for (n, v) in &names {
            if rng.chance(1, 3) || *n == name {
                let e = m.line(n);
                let s = m.s();
                ensure!(e == 0 && s == [*v], "earlier word not in force", "`{}` gave error {} stack {:?} instead of {} after `{}`", n, e, s, v, src);
                m.clear_s();
            }
        }
        if rng.chance(1, 3) {
            let e = m.line("words");
            let o = m.out();
            ensure!(e == 0, "words raised", "words raised {}", e);
            let listed: Vec<&str> = o.split(' ').collect();
            for n in &refused {
                ensure!(!listed.contains(&n.as_str()), "refused name listed", "`{}` is listed after `{}`", n, src);
            }
        }
        // the next definition compiles and runs
        if !ok || rng.chance(1, 4) {
            let l = labels.pop().unwrap_or(1);
            if labels.len() < 10 {
                labels = (1..1000).filter(|x| *x != l).collect();
                rng.shuffle(&mut labels);
                m.line("0labels");
            }
            let p = format!("p{}", round);
            let (src2, want): (String, Vec<i64>) = match rng.below(5) {
                0 => (format!(": {} 4 1 do i 2 = if leave else i 10 + then loop 5 ; {}", p, p), vec![11, 5]),
                1 => (format!(": {} 0 begin 1+ dup 7 < while dup 3 = if 1+ then repeat ; {}", p, p), vec![7]),
                2 => (format!(": {} case 1 of 10 endof 2 of 20 endof 30 swap endcase ; 1 {} 2 {} 3 {}", p, p, p, p), vec![10, 20, 30]),
                3 => (format!(": {} [ {} ] label 1- dup 0> if [ {} ] goto then ; 5 {}", p, l, l, p), vec![0]),
                _ => (format!(": {} dup 0= if drop 1 exit then 1- recurse 2 + ; 4 {} ", p, p), vec![9]),
            };
            let e = m.line(&src2);
            let s = m.s();
            ensure!(e == 0 && s == want && m.rlen() == 0, "next definition broken", "after `{}`: `{}` gave error {} stack {:?} instead of {:?}", src, src2, e, s, want);
            m.clear_s();
            let _ = m.out();
            cx.count("next definitions run", 1);
        }
        cx.distinct(hash_str(&v.join(" ")));
    }
    Ok(())
}
