//! C12: printed numbers against digits produced by long division on exact values.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use crate::words::digits;

fn pad(t: &str, w: i64) -> String {
    let n = t.len() as i64;
    if w > n {
        format!("{}{}", " ".repeat((w - n) as usize), t)
    } else {
        t.to_string()
    }
}

/// Decimal digits of m * 2^sh.
fn big_dec(m: u128, sh: u32) -> String {
    let mut v: Vec<u32> = vec![];
    let mut x = m;
    while x > 0 {
        v.push(x as u32);
        x >>= 32;
    }
    for _ in 0..sh {
        let mut c = 0;
        for d in v.iter_mut() {
            let n = *d >> 31;
            *d = *d << 1 | c;
            c = n;
        }
        if c > 0 {
            v.push(c);
        }
    }
    let mut o = vec![];
    while !v.is_empty() {
        let mut r: u64 = 0;
        for d in v.iter_mut().rev() {
            let t = r << 32 | *d as u64;
            *d = (t / 10) as u32;
            r = t % 10;
        }
        o.push(b'0' + r as u8);
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    if o.is_empty() {
        o.push(b'0');
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}

/// Every correctly rounded rendering of a finite x with n decimals (two in the case of a tie).
fn decimals(x: f64, n: u32) -> Vec<String> {
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let f = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let v = m as u128 * 10u128.pow(n);
    let mut qs: Vec<String> = vec![];
    if e >= 0 {
        qs.push(big_dec(v, e as u32));
    } else {
        let k = (-e) as u32;
        let (q, rem, half) = if k >= 127 { (0u128, v, u128::MAX) } else { (v >> k, v & ((1u128 << k) - 1), 1u128 << (k - 1)) };
        if rem <= half {
            qs.push(q.to_string());
        }
        if rem >= half {
            qs.push((q + 1).to_string());
        }
    }
    let mut o = vec![];
    for q in qs {
        let mut d = q;
        while d.len() <= n as usize {
            d.insert(0, '0');
        }
        if n > 0 {
            let p = d.len() - n as usize;
            d.insert(p, '.');
        }
        // The sign is that of the value, not of the rounded digits.
        o.push(if x.is_sign_negative() { format!("-{}", d) } else { d });
    }
    o
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    let e = m.line("variable v! : _. . ; : _.r .r ; : _h. h. ; : _h.r h.r ; : _? ? ; : _f. f. ; : _f.r f.r ; : pre .\" <é> \" ;");
    ensure!(e == 0, "definition refused", "{}", e);
    for _ in 0..if cx.small { 10 } else { 60 } {
        m.clear_s();
        let base: i64 = match rng.below(8) {
            0..=2 => 10,
            3 => 2,
            4 => 8,
            5 => 16,
            6 => rng.range(-2, 40),
            _ => rng.cell(),
        };
        // the base is stored without reading a literal in it
        m.push(base);
        let e = m.line("base !");
        ensure!(e == 0, "base ! failed", "{}", e);
        let okb = [2, 8, 10, 16].contains(&base);
        let mut want = String::new();
        let mut prefix = String::new();
        if rng.chance(1, 3) {
            m.line("pre");
            prefix = "<é> ".into();
        }
        let below: Vec<i64> = (0..if rng.chance(1, 8) { rng.us(58) } else { rng.us(4) }).map(|_| rng.cell()).collect();
        for b in &below {
            m.push(*b);
        }
        let compiled = rng.chance(1, 2);
        let v = rng.cell();
        let w = match rng.below(6) {
            0 => rng.range(-3, 3),
            1 => rng.range(60, 70),
            2 => *rng.pick(&[i64::MIN, -1, 0, 255, 256, 257, 1000, 65535, 65536]),
            3 => rng.cell().min(70000),
            _ => rng.range(0, 30),
        };
        let mut code = 0;
        let word = *rng.pick(&[".", ".", ".r", ".r", "h.", "h.r", "?", "f.", "f.r", "f.r"]);
        let mut alts: Vec<String> = vec![];
        let mut fl = 0.0;
        match word {
            "." | "?" => {
                if okb {
                    want = digits(v, base) + " ";
                } else {
                    code = -21;
                }
                if word == "?" {
                    m.push(v);
                    let e = m.line("v! !  v!");
                    ensure!(e == 0, "store", "{}", e);
                } else {
                    m.push(v);
                }
            }
            ".r" => {
                m.push(v);
                m.push(w);
                if w > 65536 {
                    code = -24;
                } else if okb {
                    want = pad(&digits(v, base), w);
                } else {
                    code = -21;
                }
            }
            "h." => {
                m.push(v);
                want = digits(v, 16) + " ";
            }
            "h.r" => {
                m.push(v);
                m.push(w);
                if w > 65536 {
                    code = -24;
                } else {
                    want = pad(&digits(v, 16), w);
                }
            }
            _ => {
                fl = match rng.below(6) {
                    0 => rng.range(-2000, 2000) as f64 / 16.0,
                    1 => rng.range(-2000000, 2000000) as f64 / 1000.0,
                    2 => rng.range(-99, 99) as f64 + 0.5,
                    3 => 10f64.powi(rng.range(-20, 20) as i32) * if rng.chance(1, 2) { 0.9999999999999999 } else { 1.0 },
                    _ => rng.f64(),
                };
                let n = if word == "f." {
                    7
                } else {
                    let n2 = match rng.below(4) {
                        0 => rng.range(-3, 25),
                        1 => rng.cell(),
                        _ => rng.range(0, 17),
                    };
                    m.push(w);
                    m.push(n2);
                    if n2 < 0 || n2 > 17 { 17 } else { n2 }
                };
                m.fpush(fl);
                if word == "f.r" && w > 65536 {
                    code = -24;
                } else if fl.is_finite() {
                    alts = decimals(fl, n as u32);
                    for a in alts.iter_mut() {
                        *a = if word == "f." { format!("{} ", a) } else { pad(a, w) };
                    }
                } else {
                    let t = if fl.is_nan() { "nan" } else if fl > 0.0 { "inf" } else { "-inf" };
                    alts.push(if word == "f." { format!("{} ", t) } else { pad(t, w) });
                }
            }
        }
        note(&format!("base {} value {} width {} float {:?}", base, v, w, fl));
        let src = format!("{}{}", if compiled { "_" } else { "" }, word);
        let e = m.line(&src);
        let out = m.out();
        let ctx = format!("`{}` of {} width {} float {:?} in base {}: error {} output {:?}", src, v, w, fl, base, e, out.chars().take(200).collect::<String>());
        ensure!(e == code, &format!("{} raised {}", word, e), "{}, expected error {}", ctx, code);
        ensure!(out.starts_with(&prefix), "earlier output changed", "{}", ctx);
        let out = &out[prefix.len()..];
        if code != 0 {
            ensure!(out.is_empty(), "something printed on failure", "{}", ctx);
            m.recover();
            cx.count("refusals", 1);
        } else if alts.is_empty() {
            ensure!(out == want, &format!("wrong digits from {}", word), "{}, expected {:?}", ctx, want.chars().take(200).collect::<String>());
            let s = m.s();
            ensure!(s == below, "deeper items changed", "{} stack {:?}", ctx, s);
            // read back in the same base
            if okb || word.starts_with('h') {
                m.clear_s();
                if word.starts_with('h') && base != 16 {
                    m.line("hex");
                }
                let e = m.line(out);
                let s = m.s();
                ensure!(e == 0 && s == [v], "printed number does not read back", "{}: reading {:?} gives error {} stack {:?}", ctx, out, e, s);
                m.recover();
                cx.count("numbers read back", 1);
            }
        } else {
            let ok = if fl.is_finite() { alts.iter().any(|a| a == out) } else { alts[0] == out.to_ascii_lowercase() };
            ensure!(ok, &format!("wrong digits from {}", word), "{}, expected {:?}", ctx, alts);
            ensure!(m.s() == below && m.f().is_empty(), "deeper items changed", "{}", ctx);
            cx.count("floats printed", 1);
        }
        cx.count("numbers printed", 1);
        cx.distinct(mix(hash_str(word) ^ v as u64 ^ (w as u64).rotate_left(20) ^ fl.to_bits()) ^ base as u64);
    }
    // base words leave the base as they found it
    m.clear_s();
    let b = rng.range(2, 16);
    m.push(b);
    m.line("base !");
    m.push(255);
    let e = m.line("h. base @");
    ensure!(e == 0 && m.s() == [b] && m.out() == "FF ", "h. changed the base", "base {} afterwards {:?}", b, m.s());
    Ok(())
}
