//! C04: hostile addresses and lengths. The whole data space is compared byte for byte before and
//! after; a model says what each word may have written and whether it must report failure.
use crate::ensure;
use crate::hooks;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

struct Sp {
    s: u64,
    l: u64,
    h: u64,
}
impl Sp {
    /// Entirely inside?
    fn inside(&self, a: u64, n: u64) -> bool {
        a >= self.s && a <= self.l && n <= self.l - a
    }
}

enum Want {
    /// Exception -9; the bytes that may differ are those of a leading part already stored.
    Fail(Vec<(u64, Vec<u8>)>),
    /// Success: stack, float bits, output (None: not compared), writes.
    Ok { s: Vec<i64>, f: Vec<u64>, out: Option<String>, w: Vec<(u64, Vec<u8>)> },
    /// Non-zero result code on top, nothing changed.
    Ior,
    /// Any of these exception codes.
    Codes(&'static [i64]),
    /// Outside the model.
    Skip,
}

fn img(b: &[u8], sp: &Sp, a: u64, n: u64) -> Vec<u8> {
    b[(a - sp.s) as usize..(a - sp.s + n) as usize].to_vec()
}
fn cell(b: &[u8], sp: &Sp, a: u64) -> i64 {
    i64::from_le_bytes(img(b, sp, a, 8).try_into().unwrap())
}

fn ok(s: Vec<i64>, w: Vec<(u64, Vec<u8>)>) -> Want {
    Want::Ok { s, f: vec![], out: Some(String::new()), w }
}

pub struct Op {
    pub name: &'static str,
    pub kinds: &'static str, // one letter for each operand, bottom first: a address, u length, n cell, f file, x float
}
pub const OPS: &[Op] = &[
    Op { name: "@", kinds: "a" },
    Op { name: "!", kinds: "na" },
    Op { name: "c@", kinds: "a" },
    Op { name: "c!", kinds: "na" },
    Op { name: "+!", kinds: "na" },
    Op { name: "2@", kinds: "a" },
    Op { name: "2!", kinds: "nna" },
    Op { name: "f@", kinds: "a" },
    Op { name: "f!", kinds: "xa" },
    Op { name: "on", kinds: "a" },
    Op { name: "off", kinds: "a" },
    Op { name: "count", kinds: "a" },
    Op { name: "move", kinds: "aau" },
    Op { name: "move", kinds: "aau" },
    Op { name: "move", kinds: "aau" },
    Op { name: "fill", kinds: "aun" },
    Op { name: "append", kinds: "aua" },
    Op { name: "type", kinds: "au" },
    Op { name: "type", kinds: "au" },
    Op { name: "?", kinds: "a" },
    Op { name: "_type", kinds: "au" },
    Op { name: "!token", kinds: "a" },
    Op { name: "open-file", kinds: "aum" },
    Op { name: "create-file", kinds: "aum" },
    Op { name: "delete-file", kinds: "au" },
    Op { name: "read-file", kinds: "auf" },
    Op { name: "read-file", kinds: "auf" },
    Op { name: "write-file", kinds: "auf" },
    Op { name: "write-file", kinds: "auf" },
    Op { name: "open-source", kinds: "auf" },
    Op { name: "get", kinds: "a" },
    Op { name: "release", kinds: "a" },
    Op { name: ">body", kinds: "n" },
    Op { name: ">name", kinds: "n" },
    Op { name: "execute", kinds: "n" },
    Op { name: "(xtime)", kinds: "nn" },
    Op { name: "load-line", kinds: "n" },
    Op { name: ".source-line", kinds: "n" },
    Op { name: ".source-path", kinds: "n" },
    Op { name: "close-source", kinds: "n" },
    Op { name: "source-id!", kinds: "n" },
    Op { name: "included", kinds: "au" },
    Op { name: "defer@", kinds: "n" },
    Op { name: "defer!", kinds: "nn" },
];

fn gen_addr(rng: &mut Rng, sp: &Sp) -> i64 {
    (match rng.below(14) {
        0 | 1 => sp.s.wrapping_add(rng.range(-20, 20) as u64),
        2 | 3 | 4 => sp.l.wrapping_add(rng.range(-20, 20) as u64),
        5 | 6 => sp.h.wrapping_add(rng.range(-4, 300) as u64),
        7 | 8 => sp.h + rng.below(sp.l - sp.h),
        9 => sp.s + rng.below(sp.h - sp.s),
        10 => rng.range(-20, 20) as u64,
        11 => sp.l.wrapping_add(rng.u64() % 200000),
        12 => (i64::MIN as u64).wrapping_add(rng.range(-20, 20) as u64),
        _ => rng.cell() as u64,
    }) as i64
}
fn gen_len(rng: &mut Rng, sp: &Sp, a: i64) -> i64 {
    let a = a as u64;
    (match rng.below(12) {
        0 | 1 => rng.range(0, 20) as u64,
        2 => rng.range(-20, 0) as u64,
        3 | 4 => sp.l.wrapping_sub(a).wrapping_add(rng.range(-3, 3) as u64),
        5 => a.wrapping_neg().wrapping_add(rng.range(-20, 20) as u64),
        6 => sp.s.wrapping_add(rng.range(0, 100) as u64).wrapping_sub(a),
        7 => (sp.l - sp.s).wrapping_add(rng.range(-3, 3) as u64),
        8 => rng.below(300),
        9 => i64::MAX as u64 - rng.below(20),
        10 => *rng.pick(&[255u64, 256, 257, 65535, 65536, 1 << 31, 1 << 32, (1 << 32) + 8, 1 << 63]),
        _ => rng.cell() as u64,
    }) as i64
}

/// Stores above the free pointer only (or wholly refused ones): a store below would be the program
/// corrupting its own dictionary.
fn safe(sp: &Sp, a: u64, n: u64) -> bool {
    a >= sp.h || a.wrapping_add(n) <= sp.s || a > sp.l
}

fn model(name: &str, o: &[i64], x: f64, b: &[u8], sp: &Sp, token: &str, file: &[u8], fid: i64) -> Want {
    let a0 = o.get(0).map_or(0, |v| *v as u64);
    let top = o.last().map_or(0, |v| *v as u64);
    // A cell is accessible when wholly inside; the very first address is reserved and may be refused.
    let cellok = |a: u64| sp.inside(a, 8);
    let edge = |a: u64| a == sp.s;
    match name {
        "@" | "?" => {
            if edge(a0) {
                return Want::Skip;
            }
            if !cellok(a0) {
                return Want::Fail(vec![]);
            }
            let v = cell(b, sp, a0);
            if name == "?" {
                Want::Ok { s: vec![], f: vec![], out: Some(format!("{} ", v)), w: vec![] }
            } else {
                ok(vec![v], vec![])
            }
        }
        "!" | "on" | "off" | "+!" => {
            if edge(top) {
                return Want::Skip;
            }
            if !cellok(top) {
                return Want::Fail(vec![]);
            }
            if !safe(sp, top, 8) {
                return Want::Skip;
            }
            let v = match name {
                "!" => o[0],
                "on" => -1,
                "off" => 0,
                _ => cell(b, sp, top).wrapping_add(o[0]),
            };
            ok(vec![], vec![(top, v.to_le_bytes().to_vec())])
        }
        "c@" => {
            if edge(a0) {
                Want::Skip
            } else if sp.inside(a0, 1) {
                ok(vec![b[(a0 - sp.s) as usize] as i64], vec![])
            } else {
                Want::Fail(vec![])
            }
        }
        "count" => {
            if edge(a0) {
                Want::Skip
            } else if sp.inside(a0, 1) {
                ok(vec![a0 as i64 + 1, b[(a0 - sp.s) as usize] as i64], vec![])
            } else {
                Want::Fail(vec![])
            }
        }
        "c!" => {
            if edge(top) {
                Want::Skip
            } else if !sp.inside(top, 1) {
                Want::Fail(vec![])
            } else if !safe(sp, top, 1) {
                Want::Skip
            } else {
                ok(vec![], vec![(top, vec![o[0] as u8])])
            }
        }
        "2@" => {
            let a1 = a0.wrapping_add(8);
            if edge(a0) || edge(a1) {
                Want::Skip
            } else if cellok(a0) && cellok(a1) {
                ok(vec![cell(b, sp, a1), cell(b, sp, a0)], vec![])
            } else {
                Want::Fail(vec![])
            }
        }
        "2!" => {
            let a1 = top.wrapping_add(8);
            if edge(top) || edge(a1) || !safe(sp, top, 16) {
                return Want::Skip;
            }
            let w0 = (top, o[1].to_le_bytes().to_vec());
            let w1 = (a1, o[0].to_le_bytes().to_vec());
            match (cellok(top), cellok(a1)) {
                (true, true) => ok(vec![], vec![w0, w1]),
                (true, false) => Want::Fail(vec![w0]),
                (false, true) => Want::Skip, // overlaps the start
                _ => Want::Fail(vec![]),
            }
        }
        "f@" => {
            let a = a0.wrapping_add(7) & !7;
            if edge(a) {
                Want::Skip
            } else if cellok(a) {
                Want::Ok { s: vec![], f: vec![cell(b, sp, a) as u64], out: Some(String::new()), w: vec![] }
            } else {
                Want::Fail(vec![])
            }
        }
        "f!" => {
            let a = top.wrapping_add(7) & !7;
            if edge(a) {
                Want::Skip
            } else if !cellok(a) {
                Want::Fail(vec![])
            } else if !safe(sp, a, 8) {
                Want::Skip
            } else {
                ok(vec![], vec![(a, x.to_bits().to_le_bytes().to_vec())])
            }
        }
        "move" => {
            let (s, d, u) = (a0, o[1] as u64, o[2]);
            if u <= 0 {
                return ok(vec![], vec![]);
            }
            if edge(s) || edge(d) {
                return Want::Skip;
            }
            if !sp.inside(s, u as u64) || !sp.inside(d, u as u64) {
                return Want::Fail(vec![]);
            }
            if !safe(sp, d, u as u64) {
                return Want::Skip;
            }
            ok(vec![], vec![(d, img(b, sp, s, u as u64))])
        }
        "fill" => {
            let (a, u, c) = (a0, o[1], o[2] as u8);
            if u <= 0 {
                return ok(vec![], vec![]);
            }
            if edge(a) {
                return Want::Skip;
            }
            if !sp.inside(a, 1) {
                return Want::Fail(vec![]);
            }
            if !safe(sp, a, u as u64) || a < sp.h {
                return Want::Skip;
            }
            if sp.inside(a, u as u64) {
                ok(vec![], vec![(a, vec![c; u as usize])])
            } else {
                Want::Fail(vec![(a, vec![c; (sp.l - a) as usize])])
            }
        }
        "append" => {
            let (a, u, d) = (a0, o[1], o[2] as u64);
            if edge(d) || edge(a) {
                return Want::Skip;
            }
            if !sp.inside(d, 1) {
                return Want::Fail(vec![]);
            }
            let n = b[(d - sp.s) as usize];
            let t = d + 1 + n as u64;
            let cnt = (n as i64).wrapping_add(u) as u8;
            if u <= 0 {
                return if d < sp.h { Want::Skip } else { ok(vec![], vec![(d, vec![cnt])]) };
            }
            if !sp.inside(a, u as u64) || !sp.inside(t, u as u64) {
                return Want::Fail(vec![]);
            }
            if d < sp.h {
                return Want::Skip;
            }
            ok(vec![], vec![(t, img(b, sp, a, u as u64)), (d, vec![cnt])])
        }
        "type" => {
            let u = o[1] as u64;
            if u == 0 {
                return ok(vec![], vec![]);
            }
            if !sp.inside(a0, u) {
                return Want::Fail(vec![]);
            }
            let t = img(b, sp, a0, u);
            Want::Ok { s: vec![], f: vec![], out: std::str::from_utf8(&t).ok().map(|x| x.to_string()), w: vec![] }
        }
        "_type" => {
            let u = o[1] as u64;
            if u == 0 {
                return ok(vec![], vec![]);
            }
            if edge(a0) || !sp.inside(a0, 0) && a0 < sp.s && a0.wrapping_add(u) == sp.s {
                return Want::Skip;
            }
            if !sp.inside(a0, u) {
                return Want::Fail(vec![]);
            }
            Want::Ok { s: vec![], f: vec![], out: None, w: vec![] }
        }
        "!token" => {
            let mut w = vec![token.len() as u8];
            w.extend_from_slice(token.as_bytes());
            if !sp.inside(top, w.len() as u64) {
                return Want::Fail(vec![]);
            }
            // a counted string near the end may be refused for its full possible size
            if !sp.inside(top, w.len() as u64 + 16) || !safe(sp, top, 300) || edge(top) {
                return Want::Skip;
            }
            ok(vec![], vec![(top, w)])
        }
        // everything above the free pointer is not UTF-8 and the dictionary holds no such path
        "open-file" | "create-file" | "delete-file" => {
            // a readable path (a stray name in the data space) is outside the model
            if o[1] != 0 && o[1] <= 256 && sp.inside(a0, o[1] as u64) && std::str::from_utf8(&img(b, sp, a0, o[1] as u64)).is_ok() {
                Want::Skip
            } else {
                Want::Ior
            }
        }
        "included" => {
            // a readable path (a stray name in the data space) is outside the model
            if o[1] != 0 && o[1] <= 256 && sp.inside(a0, o[1] as u64) && std::str::from_utf8(&img(b, sp, a0, o[1] as u64)).is_ok() {
                Want::Skip
            } else {
                Want::Codes(&[-1, -9, -24, -37, -38])
            }
        }
        "read-file" => {
            let u = o[1] as u64;
            if o[2] != fid {
                return Want::Ior;
            }
            if u == 0 {
                return Want::Skip;
            }
            if !sp.inside(a0, u) {
                return Want::Ior;
            }
            if !safe(sp, a0, u) || a0 < sp.h {
                return Want::Skip;
            }
            let n = file.len().min(u as usize);
            ok(vec![n as i64, 0], vec![(a0, file[..n].to_vec())])
        }
        "write-file" => {
            let u = o[1] as u64;
            if o[2] != fid {
                return Want::Ior;
            }
            if u == 0 {
                return Want::Skip;
            }
            if !sp.inside(a0, u) {
                return Want::Ior;
            }
            ok(vec![0], vec![])
        }
        "open-source" => {
            if sp.inside(a0, o[1] as u64) && o[2] == fid {
                Want::Skip
            } else {
                Want::Codes(&[-9, -24])
            }
        }
        "get" | "release" => {
            if edge(a0) || cellok(a0) {
                Want::Skip
            } else {
                Want::Fail(vec![])
            }
        }
        ">body" | ">name" | "defer@" | "defer!" | "(xtime)" | "execute" => {
            // no word has a number this large or negative
            if (top as i64) < 0 || top > 5000 {
                Want::Codes(&[-24, -21, -9])
            } else {
                Want::Skip
            }
        }
        "load-line" | ".source-line" | ".source-path" | "close-source" | "source-id!" => {
            if a0 as i64 == 0 {
                Want::Skip
            } else {
                Want::Codes(&[-24])
            }
        }
        _ => Want::Skip,
    }
}

fn poke(m: &mut M, at: usize, v: &[u8]) {
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), at as *mut u8, v.len()) }
    let _ = m;
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    for o in OPS {
        m.line(&format!(": w{} {} ;", o.name, o.name));
        m.line(&format!(": x{} nothing {} nothing ;", o.name, o.name));
    }
    // a file with known contents
    let path = format!("{}/c04", cx.scratch);
    let mut content: Vec<u8> = vec![];
    for _ in 0..rng.us(400) {
        content.push(rng.u64() as u8);
    }
    std::fs::write(&path, &content).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let e = m.line(&format!(": path s\" {}\" ; path 2 open-file", path));
    let s = m.s();
    ensure!(e == 0 && s.len() == 2 && s[1] == 0, "cannot open a file", "{} {} {:?}", path, e, s);
    let fid = s[0];
    m.recover();
    let _ = m.out();
    // leave the free pointer unaligned at times, and sometimes close to the end
    let far = if rng.chance(1, 3) { (m.limit() - m.here()) as i64 - rng.range(600, 3000) } else { rng.range(0, 40) };
    m.line(&format!("{} allot", far));
    let (st, li, he) = (m.start(), m.limit(), m.here());
    let fillb = vec![0xffu8; li - he];
    poke(&mut m, he, &fillb);
    // some valid text and small counted strings above the free pointer
    for _ in 0..20 {
        let at = he + 600 + rng.us((li - he).saturating_sub(640).max(1));
        if at + 10 < li {
            poke(&mut m, at, &[3, b'a', b'b', b'c', 0xc3, 0xa9]);
        }
    }
    let base = m.image();
    let sp = Sp { s: st as u64, l: li as u64, h: he as u64 };
    let rounds = if cx.small { 40 } else { 400 };
    for _ in 0..rounds {
        rec_begin(idx);
        note(&format!("start {:#x} here {:#x} limit {:#x}", sp.s, sp.h, sp.l));
        let op = &OPS[rng.us(OPS.len())];
        let mut o: Vec<i64> = vec![];
        let mut x = 0.0;
        let mut last_a = 0i64;
        for k in op.kinds.chars() {
            match k {
                'a' => {
                    let mut a = gen_addr(&mut rng, &sp);
                    if !o.is_empty() && rng.chance(1, 3) {
                        a = last_a.wrapping_add(rng.range(-30, 30));
                    }
                    last_a = a;
                    o.push(a)
                }
                'u' => {
                    let l = gen_len(&mut rng, &sp, last_a);
                    o.push(l)
                }
                'n' => o.push(if rng.chance(1, 4) { gen_addr(&mut rng, &sp) } else { rng.cell() }),
                'f' => o.push(if rng.chance(3, 4) { fid } else { *rng.pick(&[0, -1, 2, 3, 100, i64::MAX, i64::MIN, fid + 1]) }),
                'm' => o.push(if rng.chance(4, 5) { rng.range(0, 2) } else { rng.cell() }),
                'x' => x = rng.f64(),
                _ => {}
            }
        }
        // copying up the whole space through _type takes long: rarely
        if op.name == "_type" && rng.chance(3, 4) {
            continue;
        }
        let name = match rng.below(3) {
            0 => op.name.to_string(),
            1 => format!("w{}", op.name),
            _ => format!("x{}", op.name),
        };
        let want = model(op.name, &o, x, &base, &sp, &name, &content, fid);
        if matches!(want, Want::Skip) {
            continue;
        }
        note(&format!("operands {:x?} float {}", o, x));
        for v in &o {
            m.push(*v);
        }
        if op.kinds.contains('x') {
            m.fpush(x);
        }
        let e = m.line(&name);
        let after = m.image();
        let s = m.s();
        let f = m.fbits();
        let out = m.out();
        let mut exp = base.clone();
        let put = |exp: &mut Vec<u8>, w: &Vec<(u64, Vec<u8>)>| {
            for (a, v) in w {
                let k = (*a - sp.s) as usize;
                exp[k..k + v.len()].copy_from_slice(v);
            }
        };
        let ctx = format!("`{}` with operands {:x?} (start {:x} here {:x} limit {:x})", name, o, sp.s, sp.h, sp.l);
        match &want {
            Want::Fail(w) => {
                put(&mut exp, w);
                ensure!(e == -9, &format!("{}: error {} instead of -9", op.name, e), "{} gave error {} stack {:x?}", ctx, e, s);
                // a part that fits may or may not have been stored
                if after != base {
                    ensure!(after == exp, &format!("{}: refused but changed memory", op.name), "{} changed the data space", ctx);
                }
            }
            Want::Ok { s: ws, f: wf, out: wo, w } => {
                put(&mut exp, w);
                ensure!(e == 0, &format!("{}: error {} for a valid operand", op.name, e), "{} gave error {}", ctx, e);
                ensure!(s == *ws, &format!("{}: wrong result", op.name), "{} left {:x?} instead of {:x?}", ctx, s, ws);
                ensure!(f == *wf, &format!("{}: wrong float result", op.name), "{} left {:x?} instead of {:x?}", ctx, f, wf);
                if let Some(wo) = wo {
                    ensure!(out == *wo, &format!("{}: wrong output", op.name), "{} printed {:?} instead of {:?}", ctx, out, wo);
                }
                if after != exp {
                    let k = (0..exp.len()).find(|k| exp[*k] != after[*k]).unwrap();
                    return fail(&format!("{}: wrong bytes", op.name), format!("{}: byte at {:x} is {:x}, expected {:x}", ctx, st + k, after[k], exp[k]));
                }
            }
            Want::Ior => {
                ensure!(e == 0, &format!("{}: exception {} instead of a result code", op.name, e), "{} raised {}", ctx, e);
                ensure!(s.last().map_or(false, |v| *v != 0), &format!("{}: failure not reported", op.name), "{} left {:?}", ctx, s);
                let n = if op.name == "delete-file" || op.name == "write-file" { 1 } else { 2 };
                ensure!(s.len() == n, &format!("{}: wrong number of results", op.name), "{} left {:?}", ctx, s);
                ensure!(after == base, &format!("{}: refused but changed memory", op.name), "{} changed the data space", ctx);
            }
            Want::Codes(c) => {
                ensure!(c.contains(&e), &format!("{}: error {} for an invalid operand", op.name, e), "{} gave {} stack {:?}", ctx, e, s);
                ensure!(after == base, &format!("{}: refused but changed memory", op.name), "{} changed the data space", ctx);
            }
            Want::Skip => {}
        }
        ensure!(m.here() == he && m.start() == st && m.limit() == li, "the free pointer moved", "{} moved here to {:x}", ctx, m.here());
        if e != 0 {
            m.recover();
        } else {
            m.vm.clear_stacks();
        }
        if after != base {
            poke(&mut m, st, &base);
        }
        if op.name == "write-file" {
            let now = std::fs::read(&path).unwrap_or_default();
            let want_file = match want {
                Want::Ok { .. } => {
                    let mut t = img(&base, &sp, o[0] as u64, o[1] as u64);
                    if t.len() < content.len() {
                        let k = t.len();
                        t.extend_from_slice(&content[k..]);
                    }
                    t
                }
                _ => content.clone(),
            };
            ensure!(now == want_file, "write-file: wrong file contents", "{}: file of {} bytes, expected {}", ctx, now.len(), want_file.len());
            if now.len() != content.len() || now != content {
                std::fs::write(&path, &content).unwrap();
            }
        }
        if op.name == "write-file" || op.name == "read-file" {
            m.line(&format!("0 0 {} reposition-file drop", fid));
        }
        hooks::take();
        cx.count("operations", 1);
        cx.count(match want { Want::Fail(_) | Want::Ior | Want::Codes(_) => "refused", _ => "performed" }, 1);
        cx.distinct(hash_str(&format!("{}{}", op.name, match want { Want::Ok { .. } => 1, _ => 0 })) ^ mix((o[0].wrapping_sub(st as i64)) as u64) ^ mix(o.last().map_or(0, |v| *v as u64)));
    }
    // still a working machine
    let _ = std::fs::remove_file(&path);
    m.recover();
    m.line(&format!("{} allot", -far));
    m.probe()
}
