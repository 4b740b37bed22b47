//! Shared machinery: seeded randomness, value pools, the flight recorder that survives a crash of
//! the process, and the per-worker record of what was observed.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5eed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    /// A cell value: small, boundary, mined from the sources, or random.
    pub fn cell(&mut self) -> i64 {
        match self.below(20) {
            0..=5 => self.range(-20, 20),
            6..=10 => *self.pick(boundaries()),
            11..=13 => {
                let c = *self.pick(consts());
                let c = c.wrapping_add(self.range(-1, 1));
                if self.chance(1, 4) {
                    c.wrapping_neg()
                } else {
                    c
                }
            }
            14..=16 => {
                let bits = self.below(64) as u32;
                let v = (self.u64() >> bits) as i64;
                if self.chance(1, 2) {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
            17 => self.range(-1000, 1000),
            _ => self.u64() as i64,
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.below(12) {
            0..=2 => self.range(-20, 20) as f64,
            3 => *self.pick(&[
                0.0,
                -0.0,
                1.0,
                -1.0,
                0.5,
                -0.5,
                1.5,
                2.5,
                -2.5,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
                f64::MIN_POSITIVE,
                f64::MAX,
                f64::MIN,
                f64::EPSILON,
                5e-324,
                1e308,
                9007199254740991.0,
                9007199254740992.0,
                9223372036854775807.0,
                -9223372036854775808.0,
                1.234567890,
                4503599627370497.5,
                0.49999999999999994,
            ]),
            4..=5 => (self.range(-100000, 100000) as f64) / 8.0,
            6 => (self.range(-1000000, 1000000) as f64) / 1000.0,
            7 => *self.pick(consts()) as f64,
            8..=9 => {
                let e = self.range(-30, 30);
                (self.u64() as f64 / u64::MAX as f64) * 10f64.powi(e as i32)
                    * if self.chance(1, 2) { -1.0 } else { 1.0 }
            }
            10 => self.cell() as f64,
            _ => f64::from_bits(self.u64()),
        }
    }
    /// A finite double that is not extreme.
    pub fn tame(&mut self) -> f64 {
        loop {
            let v = self.f64();
            if v.is_finite() && (v == 0.0 || (v.abs() > 1e-200 && v.abs() < 1e200)) {
                return v;
            }
        }
    }
}

pub fn boundaries() -> &'static [i64] {
    static mut V: Vec<i64> = Vec::new();
    static ONCE: std::sync::Once = std::sync::Once::new();
    unsafe {
        #[allow(static_mut_refs)]
        ONCE.call_once(|| {
            let mut v = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1];
            for k in 0..63 {
                let p = 1i64 << k;
                for d in [-1i64, 0, 1] {
                    v.push(p.wrapping_add(d));
                    v.push((p.wrapping_add(d)).wrapping_neg());
                }
            }
            v.sort();
            v.dedup();
            V = v;
        });
        #[allow(static_mut_refs)]
        &V
    }
}

static CONSTS: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
/// Integer constants mined from the sources of the tree under test (an auto-dictionary).
pub fn load_consts(path: &str) {
    let mut v: Vec<i64> = std::fs::read_to_string(path)
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|t| t.parse().ok())
        .collect();
    for x in [0, 1, 8, 64, 255, 256, 1000, 4096, 65536] {
        v.push(x);
    }
    v.sort();
    v.dedup();
    let _ = CONSTS.set(v);
}
pub fn consts() -> &'static [i64] {
    match CONSTS.get() {
        Some(v) => v,
        None => &[0, 1, 64, 256],
    }
}
/// Mined constants within lo..=hi, plus neighbours.
pub fn consts_in(lo: i64, hi: i64) -> Vec<i64> {
    let mut v: Vec<i64> = consts()
        .iter()
        .flat_map(|c| [c.wrapping_sub(1), *c, c.wrapping_add(1)])
        .filter(|c| *c >= lo && *c <= hi)
        .collect();
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- flight recorder

static REC: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static POS: AtomicUsize = AtomicUsize::new(0);
pub const REC_CAP: usize = 1 << 18;

/// The recorder is a shared mapping of a file: its contents survive the death of the process.
pub fn recorder_open(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .expect("recorder file");
    f.set_len(REC_CAP as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            REC_CAP,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    REC.store(p as *mut u8, Ordering::SeqCst);
}
static MEMREC: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
pub fn rec_begin(idx: u64) {
    POS.store(0, Ordering::SeqCst);
    if REC.load(Ordering::SeqCst).is_null() {
        MEMREC.lock().unwrap().clear();
    }
    note(&format!("case {}", idx));
}
static PAUSED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Stop recording (while memory is measured); returns the previous setting.
pub fn note_pause(p: bool) -> bool {
    PAUSED.swap(p, Ordering::SeqCst)
}
pub fn note(s: &str) {
    if PAUSED.load(Ordering::Relaxed) && REC.load(Ordering::SeqCst).is_null() {
        return;
    }
    let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let p = REC.load(Ordering::SeqCst);
    if p.is_null() {
        let mut m = MEMREC.lock().unwrap();
        m.extend_from_slice(s.as_bytes());
        m.push(b'\n');
        return;
    }
    let pos = POS.load(Ordering::SeqCst);
    let b = s.as_bytes();
    if pos + b.len() + 2 > REC_CAP {
        return;
    }
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(pos), b.len());
        *p.add(pos + b.len()) = b'\n';
        *p.add(pos + b.len() + 1) = 0;
    }
    POS.store(pos + b.len() + 1, Ordering::SeqCst);
}
pub fn recorded() -> String {
    let p = REC.load(Ordering::SeqCst);
    if p.is_null() {
        return String::from_utf8_lossy(&MEMREC.lock().unwrap()).into_owned();
    }
    let n = POS.load(Ordering::SeqCst);
    let v = unsafe { std::slice::from_raw_parts(p, n) };
    String::from_utf8_lossy(v).into_owned()
}

// ---------------------------------------------------------------- verdicts and evidence

pub struct Fail {
    /// Stable text naming what went wrong (no addresses, no random values).
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::util::fail($sig, format!($($a)*)); } };
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: String,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub small: bool,
}

impl Cx {
    pub fn rng(&self, idx: u64) -> Rng {
        Rng::new(mix(self.seed) ^ hash_str(&self.prop) ^ mix(idx.wrapping_mul(0x1000193)))
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// Record a case that is non-trivial by the property's rule, by a signature of what it did.
    pub fn distinct(&mut self, sig: u64) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(sig);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut t = s();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str(" ...");
            }
            self.samples.push(t);
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A resource limit lowered for one operation; restored when dropped.
pub struct Limit(libc::__rlimit_resource_t, libc::rlimit);
impl Limit {
    pub fn set(what: libc::__rlimit_resource_t, v: u64) -> Limit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old = std::mem::zeroed::<libc::rlimit>();
            libc::getrlimit(what, &mut old);
            let new = libc::rlimit { rlim_cur: v.min(old.rlim_max), rlim_max: old.rlim_max };
            libc::setrlimit(what, &new);
            Limit(what, old)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(self.0, &self.1);
        }
    }
}


/// The lowest free file descriptor.
pub fn free_fd() -> Option<u64> {
    use std::os::unix::io::AsRawFd;
    std::fs::File::open("/dev/null").ok().map(|f| f.as_raw_fd() as u64)
}
