//! C02: stack words. Random sequences at every depth, in lines and in definitions; inside
//! definitions a probe word reports all three stacks after every single word.
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use crate::words::*;

pub enum Tok {
    Lit(i64),
    FLit(f64),
    W(&'static W),
    Pick(usize),
    Fpick(usize),
}

fn apply(t: &Tok, st: &mut St) {
    match t {
        Tok::Lit(v) => st.u(*v),
        Tok::FLit(v) => st.fu(*v),
        Tok::W(w) => (w.act)(st),
        Tok::Pick(n) => {
            let k = st.s.len() - 1 - n;
            let v = st.s[k];
            st.u(v)
        }
        Tok::Fpick(n) => {
            let k = st.f.len() - 1 - n;
            let v = st.f[k];
            st.fu(v)
        }
    }
}
fn text(t: &Tok) -> String {
    match t {
        Tok::Lit(v) => v.to_string(),
        Tok::FLit(v) => format!("{}e", v),
        Tok::W(w) => w.name.to_string(),
        Tok::Pick(n) => format!("{} pick", n),
        Tok::Fpick(n) => format!("{} fpick", n),
    }
}

fn ok(t: &Tok, st: &St, rbase: usize) -> bool {
    match t {
        Tok::Lit(_) => st.s.len() < 64,
        Tok::FLit(_) => st.f.len() < 64,
        Tok::W(w) => {
            // an r-stack word may fill the return stack to the last item, library words need one
            let room = if w.compile_only { 0 } else { 2 };
            let r2 = st.r.len() + rbase + w.r.1;
            fits(w, st, if w.compile_only { 0 } else { rbase }, if w.compile_only { 66 } else { 64 + room })
                && st.s.len().max(st.s.len() + w.s.1 - w.s.0.min(st.s.len())) + w.slack <= 64
                && r2 <= 64 + w.r.0
                && st.f.len() + w.f.1 <= 64 + w.f.0
        }
        Tok::Pick(n) => st.s.len() > *n && st.s.len() < 64,
        Tok::Fpick(n) => st.f.len() > *n && st.f.len() < 64 && st.s.len() < 64,
    }
}

/// Pick a token, steering the depths towards wanted levels.
fn choose(rng: &mut Rng, st: &St, rbase: usize, comp: bool, want: (usize, usize, usize), fresh: &mut i64) -> Tok {
    for _ in 0..60 {
        let t = match rng.below(20) {
            0..=3 => {
                *fresh += 1;
                Tok::Lit(if rng.chance(1, 6) { rng.cell() } else { *fresh * 7919 + 13 })
            }
            4..=5 => {
                *fresh += 1;
                Tok::FLit(*fresh as f64 + 0.5)
            }
            6..=11 => Tok::W(&STACK[rng.us(STACK.len())]),
            12..=14 if comp => Tok::W(&RSTACK[rng.us(RSTACK.len())]),
            15..=16 => Tok::W(&FSTACK[rng.us(FSTACK.len())]),
            17 => {
                if st.s.is_empty() {
                    continue;
                }
                Tok::Pick(rng.us(st.s.len()))
            }
            18 => {
                if st.f.is_empty() {
                    continue;
                }
                Tok::Fpick(rng.us(st.f.len()))
            }
            _ => Tok::W(&STACK[rng.us(STACK.len())]),
        };
        if !ok(&t, st, rbase) {
            continue;
        }
        let mut after = st.clone();
        apply(&t, &mut after);
        let far = |now: usize, then: usize, want: usize| {
            (then as i64 - want as i64).abs() > (now as i64 - want as i64).abs() + 0
        };
        let worse = far(st.s.len(), after.s.len(), want.0) || far(st.f.len(), after.f.len(), want.1) || far(st.r.len(), after.r.len(), want.2);
        if worse && rng.chance(2, 3) {
            continue;
        }
        return t;
    }
    Tok::W(&STACK[14])
}

fn compare(what: &str, s: &[i64], f: &[u64], r: Option<&[i64]>, st: &St, word: &str) -> R {
    if s != st.s.as_slice() {
        return fail(&format!("data stack wrong after {}", head(word)), format!("{}: after `{}` expected data stack {:?}, got {:?}", what, word, st.s, s));
    }
    if f != st.fbits().as_slice() {
        return fail(
            &format!("float stack wrong after {}", head(word)),
            format!("{}: after `{}` expected float stack {:?}, got {:?}", what, word, st.f, f.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()),
        );
    }
    if let Some(r) = r {
        if r != st.r.as_slice() {
            return fail(&format!("return stack wrong after {}", head(word)), format!("{}: after `{}` expected return stack {:?}, got {:?}", what, word, st.r, r));
        }
    }
    Ok(())
}
fn head(t: &str) -> String {
    let h = t.split(' ').last().unwrap_or("");
    if h.parse::<f64>().is_ok() || h.ends_with('e') && h.starts_with(|c: char| c.is_ascii_digit()) {
        "literal".into()
    } else {
        h.into()
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    let mut fresh = 0i64;
    let rounds = if cx.small { 2 } else { 12 };
    for round in 0..rounds {
        rec_begin(idx);
        let lv = |rng: &mut Rng| *rng.pick(&[0usize, 2, 4, 6, 10, 20, 40, 62, 63, 64, 64]);
        let mut want = (lv(&mut rng), lv(&mut rng), lv(&mut rng));
        if rng.chance(1, 2) {
            let v = lv(&mut rng);
            want = (v, rng.us(6), rng.us(6));
        }
        m.recover();
        let mut st = St::new();
        // start at a chosen depth
        let d = rng.us(want.0 + 1).min(63);
        for _ in 0..d {
            fresh += 1;
            st.u(fresh * 104729);
            m.push(fresh * 104729);
        }
        let fd = rng.us(want.1 + 1).min(63);
        for _ in 0..fd {
            fresh += 1;
            st.fu(fresh as f64 * 0.25);
            m.fpush(fresh as f64 * 0.25);
        }
        if rng.chance(1, 3) {
            // interpreted, several lines
            for _ in 0..6 {
                let n = 1 + rng.us(12);
                let mut src = String::new();
                let mut last = String::new();
                let single = rng.chance(1, 2);
                for _ in 0..n {
                    let t = choose(&mut rng, &st, 0, false, want, &mut fresh);
                    apply(&t, &mut st);
                    last = text(&t);
                    if single {
                        let e = m.line(&last);
                        let (s, f) = (m.s(), m.fbits());
                        if e != 0 {
                            return fail(&format!("exception from {}", head(&last)), format!("`{}` raised {} with expected stacks {:?} {:?}", last, e, st.s, st.f));
                        }
                        compare("interpreted", &s, &f, None, &st, &last)?;
                        cx.count("states compared", 1);
                    } else {
                        src.push_str(&last);
                        src.push(' ');
                    }
                }
                if !single {
                    let e = m.line(&src);
                    if e != 0 {
                        return fail("exception from a line", format!("`{}` raised {}", src, e));
                    }
                    let (s, f) = (m.s(), m.fbits());
                    compare(&src, &s, &f, None, &st, &last)?;
                    cx.count("states compared", 1);
                }
                if m.rlen() != 0 {
                    return fail("return stack not empty after a line", format!("{} items after `{}`", m.rlen(), src));
                }
                cx.distinct(hash_str(&src) ^ mix(st.s.len() as u64));
            }
        } else {
            // compiled, every word observed; the definition may be nested to use up return stack
            let name = format!("w{}", round);
            let nest = if rng.chance(1, 4) { rng.us(20) } else { 0 };
            let rbase = 1 + nest;
            let mut src = format!("marker -m : {} ", name);
            let n = 5 + rng.us(if cx.small { 10 } else { 70 });
            let mut steps = vec![];
            for _ in 0..n {
                let mut w = want;
                w.2 = w.2.min(64 - rbase);
                let t = choose(&mut rng, &st, rbase, true, w, &mut fresh);
                apply(&t, &mut st);
                let tx = text(&t);
                src.push_str(&tx);
                src.push_str(" mon ");
                steps.push((tx, st.clone()));
            }
            // give the return stack back
            while !st.r.is_empty() {
                if st.s.len() == 64 {
                    st.p();
                    src.push_str("drop ");
                }
                let t = Tok::W(&RSTACK[1]);
                apply(&t, &mut st);
                src.push_str("r> mon ");
                steps.push(("r>".into(), st.clone()));
            }
            src.push(';');
            let mut inner = name.clone();
            for k in 0..nest {
                src.push_str(&format!(" : n{} {} nothing ;", k, inner));
                inner = format!("n{}", k);
            }
            hooks::take();
            // definitions must not touch the stacks
            let before = m.s();
            let e = m.line(&src);
            if e != 0 || m.s() != before {
                return fail("compiling disturbed the stack", format!("`{}` ended with {} and stack {:?}", src, e, m.s()));
            }
            let e = m.line(&inner);
            let log = hooks::take();
            for (k, (word, want)) in steps.iter().enumerate() {
                match log.get(k) {
                    Some(Ev::S { s, r, f }) => {
                        if r.len() < rbase {
                            return fail(&format!("return stack wrong after {}", head(word)), format!("after `{}` (step {}) return depth {}", word, k, r.len()));
                        }
                        compare(&format!("step {} of `{}`", k, src), s, f, Some(&r[rbase..]), want, word)?;
                        cx.count("states compared", 1);
                        cx.distinct(hash_str(word) ^ mix((s.len() << 16 | r.len() << 8 | f.len()) as u64));
                    }
                    _ => return fail("a compiled word did not run", format!("step {} `{}` of `{}`; error {}", k, word, src, e)),
                }
            }
            if e != 0 {
                return fail("exception within capacity", format!("`{}` raised {}", src, e));
            }
            let (s, f) = (m.s(), m.fbits());
            compare("after the definition", &s, &f, None, &st, "exit")?;
            if m.rlen() != 0 {
                return fail("return stack not empty after a line", format!("{} items", m.rlen()));
            }
            m.line("-m");
        }
        let o = m.out();
        if !o.is_empty() && !o.starts_with("Redefining") {
            return fail("unexpected output", o);
        }
    }
    Ok(())
}
