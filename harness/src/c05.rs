//! C05: memory words against a byte array with one allocation pointer. In interpreted lines the
//! whole data space is compared after every line, in definitions the user's buffer.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;

struct Mem {
    b: Vec<u8>,
    start: usize,
    lo: usize, // first byte the program owns
    hi: usize, // one past the last byte operations may address
    here: usize,
    limit: usize,
    s: Vec<i64>,
    f: Vec<u64>,
}
impl Mem {
    fn at(&self, a: usize) -> usize {
        a - self.start
    }
    fn get(&self, a: usize) -> i64 {
        let k = self.at(a);
        let mut v = 0u64;
        for i in (0..8).rev() {
            v = v << 8 | self.b[k + i] as u64;
        }
        v as i64
    }
    fn put(&mut self, a: usize, v: i64) {
        let k = self.at(a);
        for i in 0..8 {
            self.b[k + i] = (v as u64 >> (8 * i)) as u8;
        }
    }
}

fn addr(rng: &mut Rng, m: &Mem, n: usize) -> usize {
    let span = m.hi - m.lo - n;
    let k = match rng.below(6) {
        0 => 0,
        1 => span,
        2 => rng.us(span + 1) & !7,
        3 => rng.us(40).min(span),
        _ => rng.us(span + 1),
    };
    m.lo + k
}

/// One operation: its source text and its effect on the model.
fn op(rng: &mut Rng, m: &mut Mem, compiled: bool) -> Option<(String, &'static str)> {
    let up8 = |a: usize| (a + 7) & !7;
    if m.s.len() > 58 || m.f.len() > 62 {
        return None;
    }
    let room = 64 - m.s.len();
    let k = rng.below(if compiled { 25 } else { 38 });
    Some(match k {
        0 | 1 => {
            let (a, v) = (addr(rng, m, 8), rng.cell());
            m.put(a, v);
            (format!("{} {} !", v, a), "!")
        }
        2 => {
            let (a, v) = (addr(rng, m, 1), rng.cell());
            let i = m.at(a);
            m.b[i] = v as u8;
            (format!("{} {} c!", v, a), "c!")
        }
        3 => {
            let (a, v) = (addr(rng, m, 8), rng.cell());
            let t = m.get(a).wrapping_add(v);
            m.put(a, t);
            (format!("{} {} +!", v, a), "+!")
        }
        4 => {
            let (a, v, w) = (addr(rng, m, 16), rng.cell(), rng.cell());
            m.put(a, w);
            m.put(a + 8, v);
            (format!("{} {} {} 2!", v, w, a), "2!")
        }
        5 => {
            let a = addr(rng, m, 16);
            let v = rng.f64();
            let v = if v.is_finite() && v.abs() < 1e15 && (v == 0.0 || v.abs() > 1e-3) { (v * 8.0).round() / 8.0 } else { 1.5 };
            let v = if v == 0.0 { 0.0 } else { v };
            m.put(up8(a), v.to_bits() as i64);
            (format!("{}e {} f!", v, a), "f!")
        }
        6 => {
            let a = addr(rng, m, 8);
            m.put(a, -1);
            (format!("{} on", a), "on")
        }
        7 => {
            let a = addr(rng, m, 8);
            m.put(a, 0);
            (format!("{} off", a), "off")
        }
        8 | 9 | 10 => {
            // copies of every overlap
            let n = match rng.below(8) { 0 => 0, 1 => 1, 2..=4 => rng.us(20), 5 => rng.us(100), _ => rng.us((m.hi - m.lo) / 2) };
            let s = addr(rng, m, n.max(1));
            let d = if rng.chance(2, 3) {
                let dist = if rng.chance(1, 4) && n > 200 {
                    let c = consts_in(1, n as i64 + 2);
                    if c.is_empty() { 1 } else { *rng.pick(&c) * *rng.pick(&[-1i64, 1]) }
                } else {
                    rng.range(-(n as i64) - 2, n as i64 + 2)
                };
                let d = s as i64 + dist;
                if d < m.lo as i64 || d as usize + n > m.hi { addr(rng, m, n.max(1)) } else { d as usize }
            } else {
                addr(rng, m, n.max(1))
            };
            let t: Vec<u8> = m.b[m.at(s)..m.at(s) + n].to_vec();
            let i = m.at(d);
            m.b[i..i + n].copy_from_slice(&t);
            (format!("{} {} {} move", s, d, n), "move")
        }
        11 | 12 => {
            let n = match rng.below(5) { 0 => rng.range(-3, 1), 1 => rng.range(0, 8), 2 => rng.range(0, ((m.hi - m.lo) / 2) as i64), _ => rng.range(0, 60) };
            let c = if rng.chance(1, 2) { rng.range(0, 255) } else { rng.cell() };
            let a = addr(rng, m, n.max(1) as usize);
            let i = m.at(a);
            for j in 0..n.max(0) as usize {
                m.b[i + j] = c as u8;
            }
            (format!("{} {} {} fill", a, n, c), "fill")
        }
        13 | 14 => {
            // append a string to a counted string
            let d = addr(rng, m, 600.min(m.hi - m.lo));
            let have = m.b[m.at(d)] as usize;
            let n = rng.us(40);
            if d + 1 + have + n > m.hi {
                return None;
            }
            let s = addr(rng, m, n.max(1));
            let t: Vec<u8> = m.b[m.at(s)..m.at(s) + n].to_vec();
            let i = m.at(d) + 1 + have;
            m.b[i..i + n].copy_from_slice(&t);
            let i = m.at(d);
            // the count is read again after the characters were copied
            let c = m.b[i].wrapping_add(n as u8);
            m.b[i] = c;
            (format!("{} {} {} append", s, n, d), "append")
        }
        15 | 16 | 17 if room >= 4 => {
            let a = addr(rng, m, 8);
            let v = m.get(a);
            m.s.push(v);
            (format!("{} @", a), "@")
        }
        18 if room >= 4 => {
            let a = addr(rng, m, 1);
            let v = m.b[m.at(a)] as i64;
            m.s.push(v);
            (format!("{} c@", a), "c@")
        }
        19 if room >= 5 => {
            let a = addr(rng, m, 16);
            let (v, w) = (m.get(a + 8), m.get(a));
            m.s.push(v);
            m.s.push(w);
            (format!("{} 2@", a), "2@")
        }
        20 if m.f.len() < 64 => {
            let a = addr(rng, m, 16);
            let v = m.get(up8(a)) as u64;
            m.f.push(v);
            (format!("{} f@", a), "f@")
        }
        21 if room >= 4 => {
            let a = addr(rng, m, 1);
            let v = m.b[m.at(a)] as i64;
            m.s.push(a as i64 + 1);
            m.s.push(v);
            (format!("{} count", a), "count")
        }
        22 if room >= 5 => {
            let (a, u, n) = (rng.cell(), rng.cell(), rng.cell());
            m.s.push(a.wrapping_add(n));
            m.s.push(u.wrapping_sub(n));
            (format!("{} {} {} /string", a, u, n), "/string")
        }
        23 if room >= 4 => {
            let a = if rng.chance(1, 2) { addr(rng, m, 1) as i64 } else { rng.cell() };
            let (t, n) = *rng.pick(&[("aligned", 0i64), ("faligned", 0), ("cell+", 8), ("char+", 1), ("float+", 8), ("chars", -1)]);
            m.s.push(match n {
                0 => a.wrapping_add(7) & !7,
                -1 => a,
                n => a.wrapping_add(n),
            });
            (format!("{} {}", a, t), t)
        }
        24 if room >= 5 => {
            let (a, n) = (rng.cell(), rng.cell());
            m.s.push(a.wrapping_add(n));
            m.s.push(a);
            (format!("{} {} bounds", a, n), "bounds")
        }
        25 | 26 => {
            let v = rng.cell();
            if m.here + 600 > m.limit {
                return None;
            }
            let h = m.here;
            m.put(h, v);
            m.here += 8;
            (format!("{} ,", v), ",")
        }
        27 | 28 => {
            let v = rng.cell();
            if m.here + 600 > m.limit {
                return None;
            }
            let i = m.at(m.here);
            m.b[i] = v as u8;
            m.here += 1;
            (format!("{} c,", v), "c,")
        }
        29 => {
            let (v, w) = (rng.cell(), rng.cell());
            if m.here + 600 > m.limit {
                return None;
            }
            let h = m.here;
            m.put(h, w);
            m.put(h + 8, v);
            m.here += 16;
            (format!("{} {} 2,", v, w), "2,")
        }
        30 => {
            if m.here + 600 > m.limit {
                return None;
            }
            m.here = up8(m.here);
            let v = rng.range(-1000000, 1000000) as f64 / 8.0;
            let v = if v == 0.0 { 1.0 } else { v };
            let h = m.here;
            m.put(h, v.to_bits() as i64);
            m.here += 8;
            (format!("falign {}e f,", v), "f,")
        }
        31 | 32 => {
            let n = match rng.below(4) { 0 => rng.range(-40, 40), 1 => rng.range(0, 9), 2 => 0, _ => rng.range(-400, 400) };
            let h = m.here as i64 + n;
            if h < m.lo as i64 || h as usize + 600 > m.limit {
                return None;
            }
            m.here = h as usize;
            (format!("{} allot", n), "allot")
        }
        33 => {
            m.here = up8(m.here);
            ("align".into(), "align")
        }
        34 => {
            m.here = up8(m.here);
            ("falign".into(), "falign")
        }
        35 if room >= 4 => {
            m.s.push(m.here as i64);
            ("here".into(), "here")
        }
        36 if room >= 4 => {
            m.s.push(up8(m.here + 512) as i64);
            ("pad".into(), "pad")
        }
        37 if room >= 4 => {
            // WORD leaves a counted string at the free pointer
            if m.here + 600 > m.limit {
                return None;
            }
            let (d, t, stored) = match rng.below(4) {
                0 => (44, " a b,".to_string(), " a b".to_string()),
                1 => (32, "   xyz ".to_string(), "xyz".to_string()),
                2 => (34, " say\"".to_string(), " say".to_string()),
                _ => {
                    let n = rng.us(200) + 1;
                    let t: String = (0..n).map(|i| (b'a' + ((i * 7 + n) % 26) as u8) as char).collect();
                    (32, format!(" {} ", t), t)
                }
            };
            let i = m.at(m.here);
            m.b[i] = stored.len() as u8;
            m.b[i + 1..i + 1 + stored.len()].copy_from_slice(stored.as_bytes());
            m.s.push(m.here as i64);
            (format!("{} word{}", d, t), "word")
        }
        _ => return None,
    })
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    let pre = rng.range(0, 9);
    let free = m.limit() as i64 - m.here() as i64;
    let big = rng.chance(1, 6);
    let n = if big { rng.range(8000, free * 3 / 4) } else { rng.range(600, 3000) };
    if big {
        cx.count("machines with a large buffer", 1);
    }
    m.line(&format!("{} allot create buf {} allot", pre, n));
    let lo = m.val("buf")? as usize;
    let _ = m.out();
    let mut md = Mem { b: m.image(), start: m.start(), lo, hi: lo + n as usize, here: m.here(), limit: m.limit(), s: vec![], f: vec![] };
    // arbitrary initial contents
    for k in 0..n as usize {
        let v = if rng.chance(1, 3) { rng.us(6) as u8 } else { rng.u64() as u8 };
        let i = md.at(lo) + k;
        md.b[i] = v;
    }
    unsafe { std::ptr::copy_nonoverlapping(md.b[md.at(lo)..].as_ptr(), lo as *mut u8, n as usize) }
    let lines = if cx.small { 6 } else if big { 20 } else { 60 };
    for li in 0..lines {
        rec_begin(idx);
        note(&format!("buffer {:#x} size {} here {:#x}", lo, n, md.here));
        // a definition is compiled at the free pointer: it may touch only what lies below
        let hi = md.hi;
        let compiled = rng.chance(1, 3) && md.here.min(hi) - lo >= 600;
        if compiled {
            md.hi = md.here.min(hi);
        }
        let mut src = String::new();
        let mut names = vec![];
        let cnt = if rng.chance(1, 2) { 1 } else { 1 + rng.us(if compiled { 25 } else { 10 }) };
        for _ in 0..cnt {
            if let Some((t, name)) = op(&mut rng, &mut md, compiled) {
                src += &t;
                src.push(' ');
                names.push(name);
            }
        }
        let saved = m.image();
        let e = if compiled {
            match m.line(&format!("marker -t : t {} ; t", src)) {
                0 => m.line("-t"),
                e => e,
            }
        } else {
            m.line(&src)
        };
        let last = names.last().cloned().unwrap_or("nothing");
        let tag = if names.len() == 1 { last } else { "a sequence" };
        ensure!(e == 0, &format!("exception {} from {}", e, tag), "`{}` raised {}", src, e);
        let (s, f) = (m.s(), m.fbits());
        ensure!(s == md.s, &format!("wrong value from {}", tag), "`{}` left {:x?} instead of {:x?}", src, s, md.s);
        ensure!(f == md.f, &format!("wrong float from {}", tag), "`{}` left {:x?} instead of {:x?}", src, f, md.f);
        ensure!(m.here() == md.here, &format!("wrong free pointer after {}", tag), "`{}` moved here to {:#x} instead of {:#x}", src, m.here(), md.here);
        let now = m.image();
        let (a, z) = if compiled { (md.at(md.lo), md.at(md.hi)) } else { (0, now.len()) };
        if now[a..z] != md.b[a..z] {
            let k = (a..z).find(|k| now[*k] != md.b[*k]).unwrap();
            return fail(
                &format!("wrong byte after {}", tag),
                format!("`{}`: byte at {:#x} (buffer {:+}) is {:#x}, expected {:#x}, was {:#x}", src, md.start + k, k as i64 - md.at(lo) as i64, now[k], md.b[k], saved[k]),
            );
        }
        if compiled {
            // whatever the compiler left above the free pointer is its own business
            let i = md.at(md.hi);
            md.b[i..].copy_from_slice(&now[i..]);
        }
        md.hi = hi;
        if !md.s.is_empty() && rng.chance(1, 3) || md.s.len() > 40 || md.f.len() > 50 {
            m.clear_s();
            md.s.clear();
            md.f.clear();
        }
        cx.count("operations compared", names.len() as u64);
        cx.distinct(hash_str(&src.replace(char::is_numeric, "")) ^ mix(li));
        cx.distinct(hash_str(&src));
    }
    Ok(())
}
