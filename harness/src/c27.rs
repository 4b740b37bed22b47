//! C27: unit words against exact rational factors, and against each other.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;

/// word, numerator and denominator of the factor, power of pi, other spellings: (factor to this unit, word)
const U: &[(&str, f64, f64, i32)] = &[
    ("meter", 1.0, 1.0, 0),
    ("mm", 1.0, 1e3, 0),
    ("um", 1.0, 1e6, 0),
    ("rad", 1.0, 1.0, 0),
    ("deg", 1.0, 180.0, 1),
    ("hr", 3600.0, 1.0, 0),
    ("minute", 60.0, 1.0, 0),
    ("sec", 1.0, 1.0, 0),
    ("msec", 1.0, 1e3, 0),
    ("usec", 1.0, 1e6, 0),
    ("mm/min", 1.0, 60e3, 0),
    ("mm/sec", 1.0, 1e3, 0),
    ("um/msec", 1.0, 1e3, 0),
    ("rpm", 1.0, 30.0, 1),
    ("hz", 1.0, 1.0, 0),
    ("1/sec", 1.0, 1.0, 0),
];
/// The same quantity: a numbers of one unit are b numbers of the other (times x).
const SAME: &[(&str, &str, f64, f64)] = &[
    ("mm", "meter", 1000.0, 1.0),
    ("um", "mm", 1000.0, 1.0),
    ("um", "meter", 1e6, 1.0),
    ("minute", "hr", 60.0, 1.0),
    ("sec", "minute", 60.0, 1.0),
    ("sec", "hr", 3600.0, 1.0),
    ("msec", "sec", 1000.0, 1.0),
    ("usec", "msec", 1000.0, 1.0),
    ("usec", "minute", 60e6, 1.0),
    ("mm/min", "mm/sec", 60.0, 1.0),
    ("um/msec", "mm/sec", 1.0, 1.0),
    ("mm/min", "um/msec", 60.0, 1.0),
    ("hz", "1/sec", 1.0, 1.0),
    ("deg", "rad", 180.0, std::f64::consts::PI),
    ("rpm", "hz", 60.0, 2.0 * std::f64::consts::PI),
];

/// r against x * n / d * pi^p: the exact value carried in two doubles.
fn close(r: f64, x: f64, n: f64, d: f64, p: i32) -> bool {
    if x == 0.0 {
        return r == 0.0 && r.is_sign_negative() == x.is_sign_negative();
    }
    // scale x so that nothing overflows or becomes subnormal on the way
    let (k, x0) = {
        let e = ((x.to_bits() >> 52) & 0x7ff) as i32 - 1023;
        if e < -900 { (-600, x * 2f64.powi(600)) } else if e > 900 { (600, x * 2f64.powi(-600)) } else { (0, x) }
    };
    let f = if p == 1 { std::f64::consts::PI } else { 1.0 };
    let want0 = x0 * n * f / d;
    // allowed: a few roundings
    let want = want0 * 2f64.powi(k / 2) * 2f64.powi(k - k / 2);
    if want.is_infinite() {
        // at the border either is right
        return r == want || r.abs() > 1.797e308;
    }
    if r.is_infinite() {
        return want.abs() > 1.797e308;
    }
    (r - want).abs() <= want.abs() * 8.0 * f64::EPSILON + 5e-324 * 4.0
}

fn operand(rng: &mut Rng) -> f64 {
    match rng.below(10) {
        0 => rng.range(-400, 400) as f64,
        1 => rng.range(-1_000_000_000, 1_000_000_000) as f64 / 1024.0,
        2 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 60.0, 90.0, 180.0, 360.0, 1000.0, 1e6, 0.5, 25.4, 3000.0, 1e-3, 1e-6, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 9007199254740993.0, 1e300, -1e300, 1e-300]),
        3 | 4 => rng.range(-100000, 100000) as f64,
        5 => (rng.range(-1000, 1000) as f64) * 10f64.powi(rng.range(-12, 12) as i32),
        6 => rng.range(-999, 999) as f64 * 10f64.powi(rng.range(297, 305) as i32),
        7 => rng.range(-999, 999) as f64 * 10f64.powi(-(rng.range(300, 307) as i32)) * 1e-8,
        _ => loop {
            let v = f64::from_bits(rng.u64());
            if v.is_finite() {
                break v;
            }
        },
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    for (w, ..) in U {
        let e = m.line(&format!(": _{} {} ;", w, w));
        ensure!(e == 0, "definition refused", "{}", w);
    }
    let n = if cx.small { 60 } else { 500 };
    for _ in 0..n {
        // items below the operand must stay
        m.clear_s();
        let ns = if rng.chance(1, 10) { rng.us(63) } else { rng.us(6) };
        let s: Vec<i64> = (0..ns).map(|_| rng.cell()).collect();
        let nf = if rng.chance(1, 10) { rng.us(63) } else { rng.us(6) };
        let f: Vec<f64> = (0..nf).map(|_| rng.f64()).collect();
        for v in &s {
            m.push(*v);
        }
        for v in &f {
            m.fpush(*v);
        }
        let (w, a, b, p) = *rng.pick(U);
        let x = operand(&mut rng);
        m.fpush(x);
        let src = match rng.below(4) {
            0 => w.to_string(),
            1 => w.to_uppercase(),
            2 => format!("_{}", w),
            _ => format!("['] {}", w),
        };
        let src = if src.starts_with('[') { format!("' {} execute", w) } else { src };
        let e = m.line(&src);
        let (s1, f1, o) = (m.s(), m.f(), m.out());
        ensure!(e == 0 && o.is_empty(), "unit word fails", "{} {} gave error {} output {:?}", x, src, e, o);
        ensure!(s1 == s && f1.len() == nf + 1 && f1[..nf].iter().zip(&f).all(|(u, v)| u.to_bits() == v.to_bits() || (u.is_nan() && v.is_nan())), "unit word changes other items", "{} {}: data {:?} (was {:?}), floats {:?} (was {:?})", x, src, s1, s, f1, f);
        ensure!(close(f1[nf], x, a, b, p), "wrong conversion", "{:e} {} is {:e}, expected {:e}", x, src, f1[nf], x * (a / b * if p == 1 { std::f64::consts::PI } else { 1.0 }));
        cx.count("conversions", 1);
        cx.distinct(mix(hash_str(w) ^ x.to_bits()));
        // spellings of one quantity
        let (u, v, k, l) = *rng.pick(SAME);
        let x = operand(&mut rng);
        if x.abs() < 1e290 && x.abs() > 1e-280 || x == 0.0 {
            m.clear_s();
            m.fpush(x * k);
            m.fpush(x);
            // the second is one `v`, times the angle of a turn or half-turn where that is the relation
            let e = m.line(&format!("{} fswap {}", v, u));
            let r = m.f();
            ensure!(e == 0 && r.len() == 2 && m.s().is_empty(), "unit word fails", "{} and {} gave error {} and {:?}", u, v, e, r);
            let (one, two) = (r[1], r[0] * l);
            ensure!((one - two).abs() <= two.abs() * 1e-14, "units disagree", "{:e} {} is {:e} but {:e} {} is {:e}", x * k, u, one, x, v, two);
            cx.count("pairs of units compared", 1);
        }
        // text of a program: literals with units
        if rng.chance(1, 8) {
            m.clear_s();
            let q = rng.range(-100000, 100000);
            let (w, a, b, p) = *rng.pick(U);
            uid_line(cx, &mut m, &mut rng, q, w, a, b, p)?;
        }
    }
    Ok(())
}
fn uid_line(cx: &mut Cx, m: &mut M, rng: &mut Rng, q: i64, w: &str, a: f64, b: f64, p: i32) -> R {
    let frac = rng.below(1000);
    let src = format!("{}.{:03}e {}", q, frac, w);
    let e = m.line(&src);
    let f = m.f();
    ensure!(e == 0 && f.len() == 1, "unit word fails", "`{}` gave error {} and {:?}", src, e, f);
    let x: f64 = format!("{}.{:03}", q, frac).parse().unwrap();
    let want = x * a / b * if p == 1 { std::f64::consts::PI } else { 1.0 };
    ensure!((f[0] - want).abs() <= want.abs() * 1e-12, "wrong conversion", "`{}` is {:e}, expected {:e}", src, f[0], want);
    cx.count("quantities written out", 1);
    Ok(())
}
