//! C08: name lookup against a list of definitions in order of completion.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

#[derive(Clone)]
struct D {
    name: String, // as stored
    val: i64,
    addr: bool, // value is behind an address
    xt: usize,
}

fn low(s: &str) -> String {
    s.to_ascii_lowercase()
}

pub fn flip_case(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// Another name with the same djb2 hash, if one is near.
fn collide(rng: &mut Rng, s: &str) -> Option<String> {
    let b: Vec<u8> = low(s).into_bytes();
    if !s.is_ascii() || b.len() < 2 {
        return None;
    }
    let k = rng.us(b.len() - 1);
    for d in [1i32, -1, 2, -2, 3] {
        let (x, y) = (b[k] as i32 + d, b[k + 1] as i32 - 33 * d);
        if (34..=126).contains(&x) && (34..=126).contains(&y) && !(65..=90).contains(&x) && !(65..=90).contains(&y) {
            let mut v = b.clone();
            v[k] = x as u8;
            v[k + 1] = y as u8;
            return String::from_utf8(v).ok();
        }
    }
    None
}

pub fn fresh_name(rng: &mut Rng, known: &[String]) -> String {
    loop {
        let n = match rng.below(12) {
            0 => {
                // numbers are legal names
                rng.range(-3, 40).to_string()
            }
            1 => format!("{}{}", ["é", "É", "漢字", "😀", "ß", "Ω", "ñandú"][rng.us(7)], rng.range(0, 9)),
            2 => "x".repeat(1 + rng.us(300)),
            3 if !known.is_empty() => {
                let k = rng.pick(known).clone();
                match collide(rng, &k) {
                    Some(c) => c,
                    None => continue,
                }
            }
            4 if !known.is_empty() => {
                let k = rng.pick(known).clone();
                format!("{}{}", k, (b'a' + rng.us(26) as u8) as char)
            }
            5 if !known.is_empty() => {
                let k: Vec<char> = rng.pick(known).chars().collect();
                if k.len() < 2 {
                    continue;
                }
                k[..k.len() - 1].iter().collect()
            }
            6 => {
                let n = 1 + rng.us(3);
                (0..n).map(|_| (33 + rng.us(94)) as u8 as char).collect()
            }
            7 => rng.pick(&["a~", "b]", "c<", "xa", "y@", "w{", "x\u{5a}", "if2", "then2", "(", "\\x", "0x", "1e", "$ff", "%2", "'a'", "-"]).to_string(),
            _ => {
                let n = 1 + rng.us(6);
                (0..n).map(|_| (b'a' + rng.us(4) as u8) as char).collect()
            }
        };
        if !RESERVED.contains(&low(&n).as_str()) {
            return n;
        }
    }
}

/// Words the checker itself uses: they keep their meaning.
const RESERVED: [&str; 22] = [
    ":", ";", "constant", "create", "variable", ",", "@", "!", "'", "[']", "words", "1+", "exit", "if", "marker", "\\", "(", "[", "]", "+", "immediate", "then",
];
/// Built-in words whose redefinition must not reach the library.
const BUILTIN: [(&str, &str, &[i64], &str); 8] = [
    ("dup", "3 ?dup", &[3, 3], ""),
    ("over", "1 2 tuck", &[2, 1, 2], ""),
    ("<", "4 9 min", &[4], ""),
    ("emit", "space", &[], " "),
    ("swap", "1 2 tuck", &[2, 1, 2], ""),
    ("32", "space", &[], " "),
    ("2dup", "7 9 max", &[9], ""),
    ("base", "5 .", &[], "5 "),
];

/// Hundreds of definitions, many of whose names share their hash modulo a power of two.
fn crowd(cx: &mut Cx, rng: &mut Rng) -> R {
    let mut m = M::new();
    let hash = |s: &str| s.bytes().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(c as u32));
    let bits = rng.us(9);
    let target = rng.below(1 << bits) as u32;
    let total = if cx.small { 80 } else { 120 + rng.us(400) };
    let mut names: Vec<String> = vec![];
    let mut absent: Vec<String> = vec![];
    let mut xts: Vec<usize> = vec![];
    let stem = ["n", "word-", "q~", "é"][rng.us(4)];
    let mut k = 0u64;
    while names.len() < total && m.limit() - m.here() > 1000 {
        k += 1;
        let n = format!("{}{:x}z", stem, k);
        if hash(&n) & ((1 << bits) - 1) != target {
            continue;
        }
        if rng.chance(1, 8) {
            absent.push(n);
            continue;
        }
        let xt = m.vm.wordlist().len();
        let e = if rng.chance(1, 2) { m.line(&format!("{} constant {}", names.len(), n)) } else { m.line(&format!(": {} {} ;", n, names.len())) };
        ensure!(e == 0, "definition refused", "the {}th, {}, raised {}", names.len(), n, e);
        names.push(n);
        xts.push(xt);
    }
    for i in 0..names.len() {
        let f = m.vm.find_(&names[i]);
        ensure!(f == Some(xts[i]), "lookup finds the wrong definition", "`{}`, {} of {} definitions, resolves to {:?} instead of {}", names[i], i, names.len(), f, xts[i]);
    }
    for n in &absent {
        let e = m.try_line(&format!("' {}", n));
        ensure!(e == -13, "undefined name accepted", "`' {}` gave {} among {} definitions", n, e, names.len());
    }
    for _ in 0..20 {
        let i = rng.us(names.len());
        let q = flip_case(rng, &names[i]);
        let x = m.val(&q)?;
        ensure!(x == i as i64, "name runs the wrong definition", "`{}`, {} of {} definitions, gave {}", q, i, names.len(), x);
        let x = m.val(&format!(": t {} ; t", q))?;
        ensure!(x == i as i64, "name compiles the wrong definition", "`{}`, {} of {} definitions, gave {}", q, i, names.len(), x);
    }
    for (src, want) in [("4 9 min", 9 - 5), ("1 2 max", 2), ("-3 abs", 3)] {
        let x = m.val(src)?;
        ensure!(x == want, "lookup finds the wrong definition", "`{}` gave {} after {} definitions", src, x, names.len());
    }
    cx.count("definitions sharing part of their hash", names.len() as u64);
    cx.count("lookups", names.len() as u64 + 40);
    cx.count("undefined names refused", absent.len() as u64);
    cx.distinct(mix(names.len() as u64) ^ target as u64 ^ ((bits as u64) << 32));
    Ok(())
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    if rng.chance(1, 8) {
        return crowd(cx, &mut rng);
    }
    let mut m = M::new();
    let e = m.line("words");
    ensure!(e == 0, "words raised", "{}", e);
    let builtin: Vec<String> = m.out().split_whitespace().map(|s| s.to_string()).collect();
    ensure!(builtin.len() > 200, "word listing too short", "{} words listed", builtin.len());
    let mut defs: Vec<D> = vec![];
    let mut users: Vec<(String, i64)> = vec![];
    let mut names: Vec<String> = vec![];
    let rounds = if cx.small { 12 } else { 60 };
    for round in 0..rounds {
        if m.limit() - m.here() < 3000 {
            break;
        }
        let name = if !names.is_empty() && rng.chance(1, 3) {
            let n = rng.pick(&names).clone();
            flip_case(&mut rng, &n)
        } else if rng.chance(1, 10) {
            rng.pick(&BUILTIN).0.to_string()
        } else {
            fresh_name(&mut rng, &names)
        };
        if RESERVED.contains(&low(&name).as_str()) {
            continue;
        }
        let key = low(&name);
        let val = 5000 + round;
        let newest = |defs: &Vec<D>, k: &str| defs.iter().rev().find(|d| d.name == k).cloned();
        let old = newest(&defs, &key);
        let len0 = m.vm.wordlist().len();
        let mut add: Option<D> = None;
        match rng.below(9) {
            0 | 1 => {
                let e = m.line(&format!(": {} {} ;", name, val));
                ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                add = Some(D { name: key.clone(), val, addr: false, xt: len0 });
            }
            2 => {
                let e = m.line(&format!("{} constant {}", val, name));
                ensure!(e == 0, "definition refused", "constant {} raised {}", name, e);
                add = Some(D { name: key.clone(), val, addr: false, xt: len0 });
            }
            3 => {
                let e = m.line(&format!("create {} {} ,", name, val));
                ensure!(e == 0, "definition refused", "create {} raised {}", name, e);
                add = Some(D { name: key.clone(), val, addr: true, xt: len0 });
            }
            4 => {
                // the older definition of the same name is what the new one calls
                if let Some(o) = &old {
                    let e = m.line(&format!(": {} {} {} 1+ ;", name, flip_case(&mut rng, &name), if o.addr { "@" } else { "" }));
                    ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                    add = Some(D { name: key.clone(), val: o.val + 1, addr: false, xt: len0 });
                }
            }
            5 => {
                // invisible while it is being compiled
                let e = m.line(&format!(": {} {}", name, val));
                ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                let f = m.vm.find_(&name);
                let want = match &old {
                    Some(o) => Some(o.xt),
                    None => builtin_xt(&builtin, &key),
                };
                ensure!(f == want, "unfinished definition visible", "`{}` resolves to {:?} instead of {:?} while it is compiled", name, f, want);
                if rng.chance(1, 3) {
                    // and never becomes visible when it is abandoned
                    let e = m.line("if ;");
                    ensure!(e == -22, "malformed definition accepted", "{}", e);
                    m.recover();
                } else {
                    let e = m.line(";");
                    ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                    add = Some(D { name: key.clone(), val, addr: false, xt: len0 });
                }
            }
            6 => {
                // a definition with an unknown word is abandoned
                let e = m.line(&format!(": {} {} ?undefined-word? ;", name, val));
                ensure!(e == -13, "unknown word accepted", "{}", e);
                m.recover();
            }
            _ => {
                // code compiled against a definition keeps using it
                if let Some(o) = &old {
                    let u = format!("use{}#", round);
                    let e = m.line(&format!(": {} {} {} ;", u, flip_case(&mut rng, &name), if o.addr { "@" } else { "" }));
                    ensure!(e == 0, "definition refused", ": {} raised {}", u, e);
                    users.push((u.clone(), o.val));
                    defs.push(D { name: u.clone(), val: o.val, addr: false, xt: len0 });
                }
            }
        }
        if let Some(d) = add {
            ensure!(m.vm.wordlist().len() == len0 + 1, "number of definitions", "{} words after defining {}, {} before", m.vm.wordlist().len(), name, len0);
            defs.push(d);
            names.push(key.clone());
        }
        let _ = m.out();
        let s = m.s();
        ensure!(s.is_empty(), "defining left values", "{:?}", s);
        // queries
        for _ in 0..4 {
            let q = match rng.below(5) {
                0 => name.clone(),
                1 | 2 if !names.is_empty() => rng.pick(&names).clone(),
                _ => fresh_name(&mut rng, &names),
            };
            let q = flip_case(&mut rng, &q);
            let k = low(&q);
            let want = newest(&defs, &k);
            let f = m.vm.find_(&q);
            cx.count("lookups", 1);
            match want {
                Some(d) => {
                    ensure!(f == Some(d.xt), "lookup finds the wrong definition", "`{}` resolves to {:?} instead of {}", q, f, d.xt);
                    let e = m.line(&format!("{} {}", q, if d.addr { "@" } else { "" }));
                    let s = m.s();
                    ensure!(e == 0 && s == [d.val], "name runs the wrong definition", "`{}` gave error {} stack {:?} instead of {}", q, e, s, d.val);
                    m.clear_s();
                    let x = m.val(&format!("' {}", flip_case(&mut rng, &q)))?;
                    ensure!(x == d.xt as i64, "tick finds the wrong definition", "`' {}` gave {} instead of {}", q, x, d.xt);
                }
                None => {
                    let b = builtin_xt(&builtin, &k);
                    ensure!(f == b, if b.is_none() { "undefined name found" } else { "lookup finds the wrong definition" }, "`{}` resolves to {:?} instead of {:?}", q, f, b);
                    if b.is_none() {
                        let e = m.try_line(&format!("' {}", q));
                        ensure!(e == -13, "undefined name accepted", "`' {}` gave {}", q, e);
                        if !looks_numeric(&q) {
                            let e = m.try_line(&q);
                            ensure!(e == -13, "undefined name accepted", "`{}` gave {}", q, e);
                        }
                        cx.count("undefined names refused", 1);
                    }
                }
            }
        }
        if !users.is_empty() && rng.chance(1, 2) {
            let (u, v) = rng.pick(&users).clone();
            let x = m.val(&u)?;
            ensure!(x == v, "compiled code follows a redefinition", "`{}` gives {} instead of {}", u, x, v);
        }
        if rng.chance(1, 4) {
            let (_, src, want, out) = *rng.pick(&BUILTIN);
            let ok = src.split(' ').filter(|t| t.parse::<i64>().is_err()).all(|w| newest(&defs, w).is_none()) && src.split(' ').filter(|t| t.parse::<i64>().is_ok()).all(|w| newest(&defs, w).is_none());
            if ok {
                let e = m.line(src);
                let (s, o) = (m.s(), m.out());
                ensure!(e == 0 && s == want && o == out, "library follows a redefinition", "`{}` gave error {} stack {:?} output {:?}", src, e, s, o);
                m.clear_s();
            }
        }
        if rng.chance(1, 8) || round + 1 == rounds {
            let e = m.line("words");
            let got = m.out();
            let mut want: String = defs.iter().rev().map(|d| format!("{} ", d.name)).collect();
            for b in &builtin {
                want += b;
                want.push(' ');
            }
            ensure!(e == 0 && got == want, "word listing", "error {}; listing starts {:?} instead of {:?}", e, got.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>());
            cx.count("listings compared", 1);
        }
        cx.distinct(hash_str(&format!("{}{}", name, defs.len())));
    }
    Ok(())
}

/// Built-in definitions are listed newest first and numbered from 1.
pub fn builtin_xt(b: &[String], k: &str) -> Option<usize> {
    b.iter().position(|n| n == k).map(|p| b.len() - p)
}

fn looks_numeric(q: &str) -> bool {
    q.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+' || c == '$' || c == '#' || c == '%' || c == '\'')
}
