//! Reference model of the ordinary words: what each does to three plain vectors and the output.
#[derive(Clone, Default, Debug)]
pub struct St {
    pub s: Vec<i64>,
    pub f: Vec<f64>,
    pub r: Vec<i64>,
    pub out: String,
    pub base: i64,
}

impl St {
    pub fn new() -> St {
        St { base: 10, ..Default::default() }
    }
    pub fn p(&mut self) -> i64 {
        self.s.pop().expect("model underflow")
    }
    pub fn u(&mut self, v: i64) {
        self.s.push(v)
    }
    pub fn fp(&mut self) -> f64 {
        self.f.pop().expect("model underflow")
    }
    pub fn fu(&mut self, v: f64) {
        self.f.push(v)
    }
    pub fn b(&mut self, v: bool) {
        self.s.push(if v { -1 } else { 0 })
    }
    pub fn fbits(&self) -> Vec<u64> {
        self.f.iter().map(|x| x.to_bits()).collect()
    }
}

pub struct W {
    pub name: &'static str,
    /// items consumed and produced on the data, float and return stacks
    pub s: (usize, usize),
    pub f: (usize, usize),
    pub r: (usize, usize),
    pub compile_only: bool,
    /// largest transient growth of the data stack beyond max(before, after)
    pub slack: usize,
    pub act: fn(&mut St),
}

const fn w(name: &'static str, s: (usize, usize), act: fn(&mut St)) -> W {
    W { name, s, f: (0, 0), r: (0, 0), compile_only: false, slack: 0, act }
}
const fn l(name: &'static str, s: (usize, usize), slack: usize, act: fn(&mut St)) -> W {
    W { name, s, f: (0, 0), r: (0, 0), compile_only: false, slack, act }
}
const fn fw(name: &'static str, s: (usize, usize), f: (usize, usize), act: fn(&mut St)) -> W {
    W { name, s, f, r: (0, 0), compile_only: false, slack: 0, act }
}
const fn rw(name: &'static str, s: (usize, usize), r: (usize, usize), act: fn(&mut St)) -> W {
    W { name, s, f: (0, 0), r, compile_only: true, slack: 0, act }
}

/// Data-stack words. `?dup`, `pick` and `depth` have effects that depend on values; see `need`.
pub static STACK: &[W] = &[
    w("dup", (1, 2), |x| { let a = x.p(); x.u(a); x.u(a) }),
    w("drop", (1, 0), |x| { x.p(); }),
    w("swap", (2, 2), |x| { let b = x.p(); let a = x.p(); x.u(b); x.u(a) }),
    w("over", (2, 3), |x| { let n = x.s.len(); let a = x.s[n - 2]; x.u(a) }),
    w("nip", (2, 1), |x| { let b = x.p(); x.p(); x.u(b) }),
    l("tuck", (2, 3), 0, |x| { let b = x.p(); let a = x.p(); x.u(b); x.u(a); x.u(b) }),
    w("rot", (3, 3), |x| { let n = x.s.len(); let a = x.s.remove(n - 3); x.u(a) }),
    w("-rot", (3, 3), |x| { let c = x.p(); let n = x.s.len(); x.s.insert(n - 2, c) }),
    w("2dup", (2, 4), |x| { let n = x.s.len(); let (a, b) = (x.s[n - 2], x.s[n - 1]); x.u(a); x.u(b) }),
    w("2drop", (2, 0), |x| { x.p(); x.p(); }),
    w("2swap", (4, 4), |x| { let n = x.s.len(); x.s[n - 4..].rotate_left(2) }),
    w("2over", (4, 6), |x| { let n = x.s.len(); let (a, b) = (x.s[n - 4], x.s[n - 3]); x.u(a); x.u(b) }),
    w("depth", (0, 1), |x| { let n = x.s.len() as i64; x.u(n) }),
    l("?dup", (1, 2), 1, |x| { let a = x.p(); x.u(a); if a != 0 { x.u(a) } }),
    w("noop", (0, 0), |_| {}),
];

pub static RSTACK: &[W] = &[
    rw(">r", (1, 0), (0, 1), |x| { let a = x.p(); x.r.push(a) }),
    rw("r>", (0, 1), (1, 0), |x| { let a = x.r.pop().unwrap(); x.u(a) }),
    rw("r@", (0, 1), (1, 1), |x| { let a = *x.r.last().unwrap(); x.u(a) }),
    rw("2>r", (2, 0), (0, 2), |x| { let b = x.p(); let a = x.p(); x.r.push(a); x.r.push(b) }),
    rw("2r>", (0, 2), (2, 0), |x| { let b = x.r.pop().unwrap(); let a = x.r.pop().unwrap(); x.u(a); x.u(b) }),
    rw("2r@", (0, 2), (2, 2), |x| { let n = x.r.len(); let (a, b) = (x.r[n - 2], x.r[n - 1]); x.u(a); x.u(b) }),
];

pub static FSTACK: &[W] = &[
    fw("fdup", (0, 0), (1, 2), |x| { let a = x.fp(); x.fu(a); x.fu(a) }),
    fw("fdrop", (0, 0), (1, 0), |x| { x.fp(); }),
    fw("fswap", (0, 0), (2, 2), |x| { let b = x.fp(); let a = x.fp(); x.fu(b); x.fu(a) }),
    fw("fnip", (0, 0), (2, 1), |x| { let b = x.fp(); x.fp(); x.fu(b) }),
    fw("fover", (0, 0), (2, 3), |x| { let n = x.f.len(); let a = x.f[n - 2]; x.fu(a) }),
    fw("frot", (0, 0), (3, 3), |x| { let n = x.f.len(); let a = x.f.remove(n - 3); x.fu(a) }),
];

pub static INT: &[W] = &[
    w("+", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a.wrapping_add(b)) }),
    w("-", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a.wrapping_sub(b)) }),
    w("*", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a.wrapping_mul(b)) }),
    w("and", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a & b) }),
    w("or", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a | b) }),
    w("xor", (2, 1), |x| { let b = x.p(); let a = x.p(); x.u(a ^ b) }),
    w("invert", (1, 1), |x| { let a = x.p(); x.u(-1 - a) }),
    w("negate", (1, 1), |x| { let a = x.p(); x.u(0i64.wrapping_sub(a)) }),
    w("abs", (1, 1), |x| { let a = x.p(); x.u(if a < 0 { 0i64.wrapping_sub(a) } else { a }) }),
    w("1+", (1, 1), |x| { let a = x.p(); x.u(a.wrapping_add(1)) }),
    w("1-", (1, 1), |x| { let a = x.p(); x.u(a.wrapping_sub(1)) }),
    l("2*", (1, 1), 1, |x| { let a = x.p(); x.u(a.wrapping_add(a)) }),
    w("=", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a == b) }),
    w("<>", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a != b) }),
    w("<", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a < b) }),
    w(">", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a > b) }),
    w("<=", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a <= b) }),
    w(">=", (2, 1), |x| { let b = x.p(); let a = x.p(); x.b(a >= b) }),
    w("0=", (1, 1), |x| { let a = x.p(); x.b(a == 0) }),
    w("not", (1, 1), |x| { let a = x.p(); x.b(a == 0) }),
    w("0<", (1, 1), |x| { let a = x.p(); x.b(a < 0) }),
    w("0>", (1, 1), |x| { let a = x.p(); x.b(a > 0) }),
    w("0<>", (1, 1), |x| { let a = x.p(); x.b(a != 0) }),
    l("max", (2, 1), 2, |x| { let b = x.p(); let a = x.p(); x.u(a.max(b)) }),
    l("min", (2, 1), 2, |x| { let b = x.p(); let a = x.p(); x.u(a.min(b)) }),
    w("within", (3, 1), |x| { let c = x.p(); let b = x.p(); let a = x.p(); x.b(b <= a && a < c) }),
    w("cell+", (1, 1), |x| { let a = x.p(); x.u(a.wrapping_add(8)) }),
    w("cells", (1, 1), |x| { let a = x.p(); x.u(a.wrapping_mul(8)) }),
    w("char+", (1, 1), |x| { let a = x.p(); x.u(a.wrapping_add(1)) }),
    w("true", (0, 1), |x| x.b(true)),
    w("false", (0, 1), |x| x.b(false)),
    l("bl", (0, 1), 0, |x| x.u(32)),
];

pub static FLT: &[W] = &[
    fw("f+", (0, 0), (2, 1), |x| { let b = x.fp(); let a = x.fp(); x.fu(a + b) }),
    fw("f-", (0, 0), (2, 1), |x| { let b = x.fp(); let a = x.fp(); x.fu(a - b) }),
    fw("f*", (0, 0), (2, 1), |x| { let b = x.fp(); let a = x.fp(); x.fu(a * b) }),
    fw("fabs", (0, 0), (1, 1), |x| { let a = x.fp(); x.fu(a.abs()) }),
    fw("fnegate", (0, 0), (1, 1), |x| { let a = x.fp(); x.fu(-a) }),
    fw("f<", (0, 1), (2, 0), |x| { let b = x.fp(); let a = x.fp(); x.b(a < b) }),
    fw("f0<", (0, 1), (1, 0), |x| { let a = x.fp(); x.b(a < 0.0) }),
    fw("f0=", (0, 1), (1, 0), |x| { let a = x.fp(); x.b(a == 0.0) }),
    fw("s>f", (1, 0), (0, 1), |x| { let a = x.p(); x.fu(a as f64) }),
    fw("pi", (0, 0), (0, 1), |x| x.fu(std::f64::consts::PI)),
    fw("floor", (0, 0), (1, 1), |x| { let a = x.fp(); x.fu(a.floor()) }),
];

pub static OUT: &[W] = &[
    l(".", (1, 0), 1, |x| { let a = x.p(); let t = digits(a, x.base); x.out.push_str(&t); x.out.push(' ') }),
    l("space", (0, 0), 1, |x| x.out.push(' ')),
    l("cr", (0, 0), 1, |x| x.out.push('\n')),
];

/// Digits of a cell in a base, by long division, independently of the formatting under test.
pub fn digits(v: i64, base: i64) -> String {
    let (neg, mut m) = if base == 10 && v < 0 { (true, (v as i128).unsigned_abs()) } else { (false, v as u64 as u128) };
    let mut d = vec![];
    loop {
        d.push(b"0123456789ABCDEF"[(m % base as u128) as usize]);
        m /= base as u128;
        if m == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

/// Can the word run here without leaving 0..=cap items on any stack, transients included?
pub fn fits(w: &W, st: &St, rbase: usize, cap: usize) -> bool {
    let (s, f, r) = (st.s.len(), st.f.len(), st.r.len());
    if s < w.s.0 || f < w.f.0 || r < w.r.0 {
        return false;
    }
    let s2 = s - w.s.0 + w.s.1;
    let f2 = f - w.f.0 + w.f.1;
    let r2 = r - w.r.0 + w.r.1;
    // library words push one return address
    s.max(s2) + w.slack <= cap && f2 <= cap && r2 + rbase + 2 <= cap
}
