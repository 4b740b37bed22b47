//! C10: integer and character literals against an independent reader.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;

/// Value of a digit string in a base, modulo 2^64.
fn digits_value(s: &[u8], base: u64) -> Option<u64> {
    if s.is_empty() {
        return None;
    }
    let mut v: u64 = 0;
    for c in s {
        let d = (*c as char).to_digit(16)? as u64;
        if d >= base {
            return None;
        }
        v = v.wrapping_mul(base).wrapping_add(d);
    }
    Some(v)
}

/// Independent statement of the integer literal grammar.
pub fn int_literal(t: &str, base: u64) -> Option<i64> {
    let b = t.as_bytes();
    if b.len() == 3 && b[0] == b'\'' && b[2] == b'\'' {
        return Some(b[1] as i64);
    }
    let (b, base) = match b.first() {
        Some(b'$') => (&b[1..], 16),
        Some(b'#') => (&b[1..], 10),
        Some(b'%') => (&b[1..], 2),
        _ => (b, base),
    };
    let (b, neg) = match b.first() {
        Some(b'-') => (&b[1..], true),
        Some(b'+') => (&b[1..], false),
        _ => (b, false),
    };
    let v = digits_value(b, base)? as i64;
    Some(if neg { v.wrapping_neg() } else { v })
}

/// The shape of a floating-point literal (its value is C11's business).
pub fn float_shape(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let s = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == s {
        return false;
    }
    let mut mark = false;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
    }
    // the exponent mark is what makes it a float
    if i < b.len() && (b[i] | 32) == b'e' {
        mark = true;
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
    }
    mark && i == b.len()
}

pub fn in_base(v: u64, base: u64) -> String {
    if v == 0 {
        return "0".into();
    }
    let mut o = vec![];
    let mut v = v;
    while v > 0 {
        o.push(b"0123456789abcdef"[(v % base) as usize]);
        v /= base;
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}

fn token(rng: &mut Rng, base: u64) -> String {
    let (p, b) = match rng.below(6) {
        0 => ("$", 16),
        1 => ("%", 2),
        2 => ("#", 10),
        _ => ("", base),
    };
    let sign = *rng.pick(&["", "", "", "-", "-", "+"]);
    let mut d = match rng.below(8) {
        0 => {
            // any number of digits: the value wraps
            let n = if rng.chance(1, 6) { 90 } else { 30 };
            let n = 1 + rng.us(n);
            (0..n).map(|_| b"0123456789abcdef"[rng.us(b as usize)] as char).collect()
        }
        1 => in_base(rng.below(2 * b + 2), b),
        _ => in_base(rng.cell() as u64, b),
    };
    if rng.chance(1, 6) {
        d = format!("{}{}", "0".repeat(1 + rng.us(70)), d);
    }
    d = d.chars().map(|c| if rng.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
    let mut t = format!("{}{}{}", p, sign, d);
    match rng.below(14) {
        0 => {
            // one wrong character
            let k = rng.us(t.len() + 1);
            let c = *rng.pick(&['g', 'G', 'z', '.', ',', '-', '+', '$', '_', '/', ':', '@', '`', '9', '2', 'e', 'x', '\'', 'é', '8', 'f']);
            t.insert(k, c);
        }
        1 => {
            let k = rng.us(t.len());
            t.remove(k);
        }
        2 => {
            // a digit that the base does not have
            let c = b"0123456789abcdefg"[b as usize..].to_vec();
            let c = *rng.pick(&c) as char;
            let k = p.len() + sign.len() + rng.us(d.len() + 1);
            t.insert(k, c);
        }
        3 => t = format!("{}{}{}", sign, p, d),
        4 => t = format!("{}{}", p, sign),
        5 | 6 => {
            let c = (33 + rng.us(94)) as u8 as char;
            t = format!("'{}'", c);
        }
        7 if rng.chance(1, 3) => t = rng.pick(&["''", "'", "'ab'", "'a", "a'", "$-", "#+", "%%1", "$$1", "--1", "+-1", "0x10", "1'", "$g", "%2", "#a"]).to_string(),
        _ => {}
    }
    t
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    let lines = if cx.small { 10 } else { 60 };
    let mut base = 10u64;
    for li in 0..lines {
        if rng.chance(1, 4) || li == 0 {
            base = if rng.chance(1, 3) { *rng.pick(&[10, 16, 2, 8]) } else { 2 + rng.below(15) };
            let src = match base {
                10 if rng.chance(1, 2) => "decimal".to_string(),
                16 if rng.chance(1, 2) => "hex".to_string(),
                _ => format!("#{} base !", base),
            };
            let e = m.line(&src);
            ensure!(e == 0, "setting the base failed", "`{}` raised {}", src, e);
        }
        let n = 1 + rng.us(8);
        let mut toks = vec![];
        let mut want = vec![];
        let mut bad = None;
        for _ in 0..n {
            let t = token(&mut rng, base);
            if t.is_empty() || m.vm.find_(&t).is_some() || (int_literal(&t, base).is_none() && float_shape(&t)) {
                continue;
            }
            match int_literal(&t, base) {
                Some(v) => {
                    if bad.is_none() {
                        want.push(v);
                    }
                    cx.count("valid literals", 1);
                }
                None => {
                    if bad.is_none() {
                        bad = Some(t.clone());
                        cx.count("invalid tokens", 1);
                    }
                }
            }
            cx.distinct(hash_str(&t) ^ base);
            toks.push(t);
            if bad.is_some() {
                break;
            }
        }
        if toks.is_empty() {
            continue;
        }
        let mode = rng.below(5);
        let src = toks.join(" ");
        let mname = format!("_t{}", li);
        let (e, what) = match mode {
            0 | 1 => (m.line(&src), "interpreted"),
            2 => {
                let mut e = m.line(&format!(": {} {} ;", mname, src));
                if e == 0 {
                    // the base at run time does not matter
                    if rng.chance(1, 3) {
                        e = m.line(&format!("base @ decimal {} ", mname));
                        // base @ left the old base below
                        let s = m.s();
                        ensure!(e == 0 && s.len() >= 1 && s[0] == base as i64, "base changed", "base is {:?} instead of {}", s, base);
                        let r = s[1..].to_vec();
                        ensure!(bad.is_some() || r == want, "wrong literal value (compiled)", "base {}: `{}` gives {:?} instead of {:?}", base, src, r, want);
                        m.clear_s();
                        m.line(&format!("#{} base !", base));
                        continue;
                    }
                    e = m.line(&mname);
                }
                (e, "compiled")
            }
            3 => {
                let body: String = toks.iter().map(|t| format!("[ {} ] literal ", t)).collect();
                let mut e = m.line(&format!(": {} {} ;", mname, body));
                if e == 0 {
                    e = m.line(&mname);
                }
                (e, "literal")
            }
            _ => {
                let mut e = 0;
                for t in &toks {
                    e = m.line(&format!("  {} ", t));
                    if e != 0 {
                        break;
                    }
                }
                (e, "one per line")
            }
        };
        let s = m.s();
        let f = m.f();
        match bad {
            Some(t) => {
                ensure!(e != 0, "invalid token accepted", "base {}: `{}` ({}) was accepted, leaving {:?} {:?}", base, t, what, s, f);
                ensure!(e == -13, "wrong exception for an invalid token", "base {}: `{}` ({}) raised {}", base, t, what, e);
                ensure!(s.is_empty() && f.is_empty(), "invalid token pushed something", "`{}`: {:?} {:?}", t, s, f);
                if mode == 2 || mode == 3 {
                    ensure!(m.vm.find_(&mname).is_none(), "abandoned definition visible", "{}", mname);
                }
                m.recover();
            }
            None => {
                ensure!(e == 0, "literal refused", "base {}: `{}` ({}) raised {}", base, src, what, e);
                ensure!(s == want, &format!("wrong literal value ({})", what), "base {}: `{}` gives {:?} instead of {:?}", base, src, s, want);
                ensure!(f.is_empty(), "integer literal pushed a float", "base {}: `{}` gives {:?}", base, src, f);
                m.clear_s();
            }
        }
        let b = m.val("base @")?;
        ensure!(b == base as i64, "base changed", "base is {} instead of {}", b, base);
    }
    Ok(())
}
