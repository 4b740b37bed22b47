//! C11: floating-point words and literals against the host's IEEE arithmetic.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;

fn ulps(a: f64, b: f64) -> u64 {
    let k = |x: f64| {
        let b = x.to_bits() as i64;
        if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
    };
    (k(a) as i128 - k(b) as i128).unsigned_abs().min(u64::MAX as u128) as u64
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn near(a: f64, b: f64, n: u64) -> bool {
    same(a, b) || (a == b) || (!a.is_nan() && !b.is_nan() && ulps(a, b) <= n)
}

/// Correctly rounded to an integer, ties away from zero, without the host's round().
fn round_away(x: f64) -> f64 {
    if !x.is_finite() || x.abs() >= 4503599627370496.0 {
        return x;
    }
    let t = x.abs() as u64;
    let frac = x.abs() - t as f64;
    let r = if frac >= 0.5 { t + 1 } else { t } as f64;
    r.copysign(x)
}
fn floor_(x: f64) -> f64 {
    if !x.is_finite() || x.abs() >= 4503599627370496.0 || x == 0.0 {
        return x;
    }
    let t = x as i64;
    let t = if (t as f64) > x { t - 1 } else { t };
    if t == 0 { 0f64.copysign(x) } else { t as f64 }
}
fn to_int(x: f64) -> i64 {
    if x.is_nan() {
        0
    } else if x >= 9223372036854775808.0 {
        i64::MAX
    } else if x <= -9223372036854775808.0 {
        i64::MIN
    } else {
        // exact by construction
        let neg = x < 0.0;
        let mut a = x.abs();
        let mut v: u64 = 0;
        for k in (0..64).rev() {
            let p = 2f64.powi(k);
            if a >= p {
                a -= p;
                v |= 1 << k;
            }
        }
        if neg { (v as i64).wrapping_neg() } else { v as i64 }
    }
}

#[derive(Debug)]
enum Exp {
    /// exact float
    F(f64),
    /// within ulps
    U(f64, u64),
    /// two floats within ulps
    U2(f64, f64, u64),
    Flag(bool),
    Int(i64),
    /// any of these
    Any(Vec<f64>),
    Skip,
}

const W: &[(&str, usize)] = &[
    ("f+", 2), ("f-", 2), ("f*", 2), ("f/", 2), ("fsqrt", 1), ("fabs", 1), ("fnegate", 1), ("fmin", 2), ("fmax", 2), ("floor", 1), ("fceil", 1), ("fround", 1),
    ("fsin", 1), ("fcos", 1), ("ftan", 1), ("fsincos", 1), ("fasin", 1), ("facos", 1), ("fatan", 1), ("fatan2", 2), ("f**", 2), ("f<", 2), ("f>", 2),
    ("f0<", 1), ("f0=", 1), ("f~", 3), ("f>s", 1), ("s>f", 0), ("pi", 0),
];

fn expect(w: &str, x: &[f64], n: i64) -> Exp {
    let a = x.get(0).cloned().unwrap_or(0.0);
    let b = x.get(1).cloned().unwrap_or(0.0);
    match w {
        "f+" => Exp::F(a + b),
        "f-" => Exp::F(a - b),
        "f*" => Exp::F(a * b),
        "f/" => Exp::F(a / b),
        "fsqrt" => Exp::F(a.sqrt()),
        "fabs" => Exp::F(f64::from_bits(a.to_bits() & !(1 << 63))),
        "fnegate" => Exp::F(f64::from_bits(a.to_bits() ^ (1 << 63))),
        "fmin" | "fmax" => {
            if a.is_nan() && b.is_nan() {
                Exp::Any(vec![a, b])
            } else if a.is_nan() || b.is_nan() {
                // as minNum and maxNum: the number is kept
                Exp::F(if a.is_nan() { b } else { a })
            } else if a == b {
                Exp::Any(vec![a, b])
            } else if (a < b) == (w == "fmin") {
                Exp::F(a)
            } else {
                Exp::F(b)
            }
        }
        "floor" => Exp::F(floor_(a)),
        "fceil" => Exp::F(-floor_(-a)),
        "fround" => Exp::F(round_away(a)),
        "fsin" => Exp::U(a.sin(), 4),
        "fcos" => Exp::U(a.cos(), 4),
        "ftan" => Exp::U(a.tan(), 4),
        "fsincos" => Exp::U2(a.sin(), a.cos(), 4),
        "fasin" => Exp::U(a.asin(), 4),
        "facos" => Exp::U(a.acos(), 4),
        "fatan" => Exp::U(a.atan(), 4),
        "fatan2" => Exp::U(a.atan2(b), 4),
        "f**" => Exp::U(a.powf(b), 4),
        "f<" => Exp::Flag(a < b),
        "f>" => Exp::Flag(a > b),
        "f>=" => {
            if a.is_nan() || b.is_nan() {
                Exp::Skip
            } else {
                Exp::Flag(a >= b)
            }
        }
        "f0<" => Exp::Flag(a < 0.0),
        "f0=" => Exp::Flag(a == 0.0),
        "f~" => {
            let c = x[2];
            if c.is_nan() {
                return Exp::Skip;
            }
            if a.is_nan() || b.is_nan() {
                // no comparison with a NaN is true (the primer: 0e 0e f/ 0e 0e f/ 0e f~ gives 0)
                return Exp::Flag(false);
            }
            if c > 0.0 {
                Exp::Flag((a - b).abs() < c)
            } else if c == 0.0 {
                if a == 0.0 && b == 0.0 {
                    Exp::Skip // identical encodings or equal values
                } else {
                    Exp::Flag(a == b)
                }
            } else {
                Exp::Flag((a - b).abs() < (-c) * (a.abs() + b.abs()))
            }
        }
        "f>s" => Exp::Int(to_int(a)),
        "s>f" => Exp::F(n as f64),
        "pi" => Exp::U(3.14159265358979323846, 1),
        _ => Exp::Skip,
    }
}

fn literal(rng: &mut Rng) -> String {
    let sign = *rng.pick(&["", "", "-", "+"]);
    let big = rng.chance(1, 10);
    let n = if big { rng.us(24) } else { rng.us(17) } + 1;
    let int: String = match rng.below(5) {
        0 => rng.range(0, 12).to_string(),
        1 => (rng.u64() >> (11 + rng.below(50))).to_string(),
        _ => (0..n).map(|_| (b'0' + rng.us(10) as u8) as char).collect(),
    };
    let frac = if rng.chance(2, 3) {
        let n = match rng.below(4) { 0 => 0, 1 => rng.us(24), _ => rng.us(17) };
        // runs of one digit lead and trail more often than chance has it
        let mut run = |rng: &mut Rng| if rng.chance(1, 4) { rng.pick(&["0", "0", "0", "9", "1"]).repeat(rng.us(20)) } else { String::new() };
        let (a, b) = (run(rng), run(rng));
        format!(".{}{}{}", a, (0..n).map(|_| (b'0' + rng.us(10) as u8) as char).collect::<String>(), b)
    } else {
        String::new()
    };
    let exp = {
        let e = match rng.below(8) {
            6 => rng.range(-430, 430).to_string(),
            7 => rng.pick(&[-330i64, -324, -323, -309, -308, -307, 290, 300, 307, 308, 309, 310, 326, 999, -999, 400, -401, 2147483648, -2147483649]).to_string(),
            0 => String::new(),
            1 => "+".into(),
            2 => "-".into(),
            3 => rng.range(-280, 260).to_string(),
            4 => format!("+{}", rng.range(0, 30)),
            _ => rng.range(-30, 30).to_string(),
        };
        format!("{}{}", rng.pick(&["e", "E"]), e)
    };
    let lead = if rng.chance(1, 8) { "0".repeat(rng.us(25)) } else { String::new() };
    format!("{}{}{}{}{}", sign, lead, int, frac, exp)
}

/// The value the host reads for the same digits.
fn value(t: &str) -> f64 {
    let mut t = t.to_ascii_lowercase();
    if t.ends_with('e') || t.ends_with("e+") || t.ends_with("e-") {
        t.push('0');
    }
    if let Some(p) = t.find('.') {
        if t[p + 1..].starts_with('e') || p + 1 == t.len() {
            t.insert(p + 1, '0');
        }
    }
    t.parse().expect("float text")
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    for (w, _) in W {
        let e = m.line(&format!(": _{} {} ;", w, w));
        ensure!(e == 0, "definition refused", "{}", w);
    }
    for _ in 0..if cx.small { 15 } else { 150 } {
        let &(w, n) = rng.pick(W);
        let mut x: Vec<f64> = (0..n).map(|_| rng.f64()).collect();
        if n >= 2 && rng.chance(1, 5) {
            x[1] = x[0];
        }
        if n >= 2 && rng.chance(1, 6) {
            x[1] = f64::from_bits(x[0].to_bits().wrapping_add(rng.range(-2, 2) as u64));
        }
        if w == "f~" && rng.chance(1, 2) {
            // around the tolerance
            let d = (x[0] - x[1]).abs();
            x[2] = match rng.below(5) {
                0 => d,
                1 => f64::from_bits(d.to_bits().wrapping_add(1)),
                2 => -(d / (x[0].abs() + x[1].abs())),
                3 => -f64::from_bits((d / (x[0].abs() + x[1].abs())).to_bits().wrapping_add(2)),
                _ => 0.0,
            };
        }
        if ["floor", "fceil", "fround", "f>s"].contains(&w) && rng.chance(1, 2) {
            x[0] = match rng.below(4) {
                0 => rng.range(-50, 50) as f64 / 2.0,
                1 => f64::from_bits((rng.range(-50, 50) as f64 / 2.0).to_bits().wrapping_add(rng.range(-1, 1) as u64)),
                2 => (1i64 << (50 + rng.below(14))) as f64 + rng.range(-4, 4) as f64 / 2.0,
                _ => rng.tame(),
            };
        }
        let n0 = rng.cell();
        // sometimes a stack which is nearly full
        let deep = rng.chance(1, 6);
        let below: Vec<f64> = (0..if deep { rng.us(62 - n as usize) } else { rng.us(5) }).map(|_| rng.tame()).collect();
        let dbelow: Vec<i64> = (0..if deep { rng.us(61) } else { rng.us(3) }).map(|_| rng.cell()).collect();
        m.clear_s();
        for v in &below {
            m.fpush(*v);
        }
        for v in &dbelow {
            m.push(*v);
        }
        for v in &x {
            m.fpush(*v);
        }
        if w == "s>f" {
            m.push(n0);
        }
        if deep && !below.is_empty() {
            let all: Vec<f64> = below.iter().chain(x.iter()).cloned().collect();
            let k = rng.us(all.len());
            let e = m.line(&format!("{} {}fpick", k, if rng.chance(1, 2) { "" } else { "0 drop " }));
            let f = m.f();
            ensure!(e == 0 && f.len() == all.len() + 1 && same(f[all.len()], all[all.len() - 1 - k]) && f[..all.len()].iter().zip(&all).all(|(a, b)| same(*a, *b)), "fpick copies the wrong item", "{} fpick of {:?} left {:?} (error {})", k, all, f, e);
            m.line("fdrop");
            cx.count("items picked from deep stacks", 1);
        }
        let compiled = rng.chance(1, 2);
        let src = format!("{}{}", if compiled { "_" } else { "" }, w);
        note(&format!("operands {:?} {} ", x, n0));
        let e = m.line(&src);
        ensure!(e == 0, &format!("{} raised {}", w, e), "{} of {:?} raised {}", w, x, e);
        let (f, s) = (m.f(), m.s());
        let ctx = || format!("`{}` of {:?} ({:?}) left {:?} {:?}", src, x, n0, f, s);
        ensure!(f.len() >= below.len() && f[..below.len()].iter().zip(&below).all(|(a, b)| same(*a, *b)), &format!("{} changed deeper floats", w), "{} over {:?}", ctx(), below);
        ensure!(s.len() >= dbelow.len() && s[..dbelow.len()] == dbelow[..], &format!("{} changed the data stack", w), "{} over {:?}", ctx(), dbelow);
        let (f2, s2) = (&f[below.len()..], &s[dbelow.len()..]);
        let ok = match expect(w, &x, n0) {
            Exp::F(v) => f2.len() == 1 && s2.is_empty() && same(f2[0], v),
            Exp::U(v, u) => f2.len() == 1 && s2.is_empty() && near(f2[0], v, u),
            Exp::U2(a, b, u) => f2.len() == 2 && s2.is_empty() && near(f2[0], a, u) && near(f2[1], b, u),
            Exp::Any(v) => f2.len() == 1 && s2.is_empty() && v.iter().any(|y| same(*y, f2[0])),
            Exp::Flag(b) => f2.is_empty() && s2 == [-(b as i64)],
            Exp::Int(v) => f2.is_empty() && s2 == [v],
            Exp::Skip => true,
        };
        ensure!(ok, &format!("wrong result of {}", w), "{}; expected {:?}", ctx(), expect(w, &x, n0));
        cx.count("word evaluations", 1);
        cx.distinct(mix(hash_str(w) ^ x.iter().fold(0, |a, v| mix(a ^ v.to_bits()))));
    }
    // literals
    for k in 0..if cx.small { 10 } else { 60 } {
        m.clear_s();
        let t = literal(&mut rng);
        let base = if t.contains('.') && rng.chance(1, 5) { 2 + rng.below(15) } else { 10 };
        if base != 10 {
            m.line(&format!("#{} base !", base));
        }
        let want = value(&t);
        let e = m.line(&t);
        let f = m.f();
        // more digits than a cell holds are refused
        let body = t.trim_start_matches(['+', '-']);
        let int: String = body.chars().take_while(|c| c.is_ascii_digit()).collect();
        let frac: String = body[int.len()..].chars().skip(1).take_while(|c| c.is_ascii_digit()).collect();
        let frac = if body[int.len()..].starts_with('.') { frac } else { String::new() };
        let long = int.trim_start_matches('0').len() > 18 || frac.trim_start_matches('0').len() > 18 || frac.len() > 300;
        if e != 0 {
            ensure!(e == -13 && long, "float literal refused", "`{}` raised {}", t, e);
            cx.count("over-long literals refused", 1);
            m.recover();
            m.line("decimal");
            continue;
        }
        ensure!(f.len() == 1 && m.s().is_empty(), "float literal left the wrong number of items", "`{}` left {:?} {:?}", t, f, m.s());
        let r = f[0];
        let exact = frac.bytes().all(|c| c == b'0') && (body.ends_with(['e', 'E', '+', '-']) || body.ends_with("e0")) && want.abs() <= 9007199254740992.0;
        let ok = if exact { same(r, want) } else { r == want || (want != 0.0 && want.is_finite() && r.is_finite() && (r - want).abs() <= want.abs() * 1e-12 + 1e-323) || (r.abs() > 1.7976931348e308 && want.abs() > 1.7976931348e308) };
        ensure!(ok, "wrong float literal", "`{}` gives {:e} instead of {:e}", t, r, want);
        ensure!(r.is_sign_negative() == t.starts_with('-'), "wrong sign of a float literal", "`{}` gives {:?}", t, r);
        cx.count("literals", 1);
        cx.count(if want.is_infinite() { "literals beyond the range" } else if want != 0.0 && want.abs() < 1e-290 { "very small literals" } else if want.abs() > 1e290 { "very large literals" } else { "ordinary literals" }, 1);
        cx.distinct(hash_str(&t));
        // compiled, stored and named: the same bits
        m.clear_s();
        let nm = format!("l{}", k);
        let src = match rng.below(5) {
            0 => format!(": {} {} ; {}", nm, t, nm),
            1 => format!("{} fconstant {} {}", t, nm, nm),
            2 => format!("fvariable {} {} {} f! {} f@", nm, t, nm, nm),
            3 => format!("{} : {} [ {} ] fliteral ; fdrop {}", t, nm, t, nm),
            _ => format!("create {} falign {} f, {} faligned f@", nm, t, nm),
        };
        let e = m.line(&src);
        let g = m.f();
        ensure!(e == 0 && g.len() == 1 && same(g[0], r), "value changed on the way", "`{}` gives error {} and {:?} instead of {:?}", src, e, g, r);
        m.line("decimal");
        let _ = m.out();
    }
    // every bit pattern survives memory, constants and compilation
    for k in 0..if cx.small { 3 } else { 15 } {
        m.clear_s();
        let v = match rng.below(4) { 0 => f64::from_bits(rng.u64()), _ => rng.f64() };
        m.fpush(v);
        let nm = format!("b{}", k);
        let src = match rng.below(4) {
            0 => format!("fconstant {} {}", nm, nm),
            1 => format!("fvariable {} {} f! {} f@", nm, nm, nm),
            2 => format!(": {} [ fdup ] fliteral ; fdrop {}", nm, nm),
            _ => format!("fconstant {} : _{} {} ; _{}", nm, nm, nm, nm),
        };
        let e = m.line(&src);
        let g = m.fbits();
        ensure!(e == 0 && g == [v.to_bits()], "bits changed on the way", "`{}` of {:#x} gives error {} and {:x?}", src, v.to_bits(), e, g);
        cx.count("bit patterns carried", 1);
    }
    Ok(())
}
