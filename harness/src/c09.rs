//! C09: markers. A stack of snapshots of the complete dictionary state.
use crate::c08::{builtin_xt, flip_case, fresh_name};
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

#[derive(Clone)]
struct D {
    name: String,
    /// expression after the name that yields the value
    kind: u8, // 0 colon/constant, 1 address of a cell, 2 marker, 3 hidden
    val: i64,
    xt: usize,
}
#[derive(Clone)]
struct Snap {
    name: String,
    defs: Vec<D>,
    here: usize,
    len: usize,
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    m.line("words");
    let builtin: Vec<String> = m.out().split_whitespace().map(|s| s.to_string()).collect();
    let mut defs: Vec<D> = vec![];
    let mut marks: Vec<Snap> = vec![];
    let mut names: Vec<String> = vec![];
    let steps = if cx.small { 15 } else { 80 };
    for step in 0..steps {
        if m.limit() - m.here() < 5000 {
            if marks.is_empty() {
                break;
            }
        }
        let room = m.limit() - m.here() > 8000;
        let val = 7000 + step;
        let name = if !names.is_empty() && rng.chance(2, 5) { let n = rng.pick(&names).clone(); flip_case(&mut rng, &n) } else { fresh_name(&mut rng, &names) };
        // the checker's own vocabulary keeps its meaning
        let name: String = if rng.chance(1, 12) { rng.pick(&["nip", "SPACES", "h.r", "ms"]).to_string() } else { name };
        let key = name.to_ascii_lowercase();
        if key.starts_with("use#") || key.parse::<i64>().is_ok() || (builtin.contains(&key) && !["nip", "spaces", "h.r", "ms"].contains(&key.as_str())) {
            continue;
        }
        let len0 = m.vm.wordlist().len();
        let here0 = m.here();
        let mut new: Option<(u8, i64)> = None;
        match rng.below(14) {
            0 | 1 if room => {
                let e = m.line(&format!(": {} {} ;", name, val));
                ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                new = Some((0, val));
            }
            2 if room => {
                let e = m.line(&format!("create {} {} ,", name, val));
                ensure!(e == 0, "definition refused", "create {} raised {}", name, e);
                new = Some((1, val));
            }
            3 if room => {
                let e = m.line(&format!("variable {} {} {} !", name, val, name));
                ensure!(e == 0, "definition refused", "variable {} raised {}", name, e);
                new = Some((1, val));
            }
            4 if room => {
                // use an existing definition
                let live: Vec<D> = visible(&defs);
                if let Some(d) = live.iter().filter(|d| d.kind < 2).nth(rng.us(live.len().max(1))) {
                    let e = m.line(&format!(": {} {} {} 1+ ;", name, d.name, if d.kind == 1 { "@" } else { "" }));
                    ensure!(e == 0, "definition refused", ": {} raised {}", name, e);
                    // a cell may be changed later: freeze only constants
                    if d.kind == 0 {
                        new = Some((0, d.val + 1));
                    } else {
                        new = Some((4, 0));
                    }
                }
            }
            5 => {
                let n = rng.range(0, 30);
                let e = m.line(&format!("{} allot", n));
                ensure!(e == 0 && m.here() == here0 + n as usize, "allot", "{} allot raised {}", n, e);
            }
            6 => {
                // release space again, not below what a visible word owns
                let n = rng.range(0, 30);
                let e = m.line(&format!("{} allot {} negate allot", n, n));
                ensure!(e == 0 && m.here() == here0, "allot", "{} allot and release raised {}", n, e);
            }
            7 if room => {
                // an abandoned definition stays in the dictionary, invisible
                let e = m.line(&format!(": {} {} if ;", name, val));
                ensure!(e == -22, "malformed definition", "{}", e);
                m.recover();
                new = Some((3, 0));
            }
            8 | 9 if room && marks.len() < 12 => {
                let e = m.line(&format!("marker {}", name));
                ensure!(e == 0, "marker refused", "marker {} raised {}", name, e);
                marks.push(Snap { name: key.clone(), defs: defs.clone(), here: here0, len: len0 });
                new = Some((2, marks.len() as i64 - 1));
            }
            10 if !defs.is_empty() => {
                // store into an older cell: stays after a marker ran
                let v = visible(&defs);
                let cells: Vec<&D> = v.iter().filter(|d| d.kind == 1).collect();
                if !cells.is_empty() {
                    let d = (*rng.pick(&cells)).clone();
                    let e = m.line(&format!("{} {} !", val, d.name));
                    ensure!(e == 0, "store failed", "{}", e);
                    for x in defs.iter_mut().chain(marks.iter_mut().flat_map(|s| s.defs.iter_mut())) {
                        if x.xt == d.xt && x.kind == 1 && x.name == d.name {
                            x.val = val;
                        }
                    }
                }
            }
            _ if !marks.is_empty() && rng.chance(1, 2) => {
                // run a marker that is visible
                let v = visible(&defs);
                let ms: Vec<&D> = v.iter().filter(|d| d.kind == 2).collect();
                if ms.is_empty() {
                    continue;
                }
                let d = if rng.chance(2, 3) { ms[ms.len() - 1].clone() } else { (*rng.pick(&ms)).clone() };
                let snap = marks[d.val as usize].clone();
                assert!(snap.name == d.name);
                let t = flip_case(&mut rng, &d.name);
                let src = match rng.below(5) {
                    // space given back beyond the marker, nothing overwritten
                    4 if d.val as usize + 1 == marks.len() => format!("{} allot {}", snap.here as i64 - m.here() as i64 + rng.range(-200, 700), t),
                    0 => format!("' {} execute", t),
                    1 if room => format!(": use# {} ; use#", t),
                    2 => format!("11 {} 12 drop drop", t),
                    _ => t,
                };
                let e = m.line(&src);
                ensure!(e == 0, "marker raised", "`{}` raised {}", src, e);
                marks.truncate(d.val as usize);
                let removed: Vec<D> = defs[snap.defs.len()..].to_vec();
                defs = snap.defs.clone();
                ensure!(m.here() == snap.here, "free pointer not restored", "`{}`: here {:#x} instead of {:#x}", src, m.here(), snap.here);
                ensure!(m.vm.wordlist().len() == snap.len, "number of definitions not restored", "`{}`: {} definitions instead of {}", src, m.vm.wordlist().len(), snap.len);
                cx.count("markers run", 1);
                cx.count("definitions removed", removed.len() as u64);
                check_all(&mut rng, cx, &mut m, &defs, &names, &builtin, &removed)?;
            }
            _ => {}
        }
        if let Some((kind, v)) = new {
            defs.push(D { name: key.clone(), kind, val: v, xt: len0 });
            names.push(key);
        }
        let _ = m.out();
        let s = m.s();
        ensure!(s.is_empty(), "stack not empty", "{:?}", s);
        if rng.chance(1, 8) {
            check_all(&mut rng, cx, &mut m, &defs, &names, &builtin, &[])?;
        }
        cx.distinct(hash_str(&format!("{:?}", defs.iter().map(|d| (d.kind, &d.name)).collect::<Vec<_>>())));
    }
    // the marker made by the system itself removes everything
    if rng.chance(1, 4) && !names.contains(&"-work".to_string()) {
        let e = m.line("-work");
        ensure!(e == 0, "marker raised", "-work raised {}", e);
        let removed = defs.clone();
        let b2: Vec<String> = builtin[1..].to_vec();
        check_all(&mut rng, cx, &mut m, &[], &names, &b2, &removed)?;
    }
    m.clear_s();
    m.probe_named("pr~1")
}

fn visible(defs: &[D]) -> Vec<D> {
    let mut v: Vec<D> = vec![];
    for d in defs.iter().rev() {
        if d.kind != 3 && !v.iter().any(|x| x.name == d.name) {
            v.push(d.clone());
        }
    }
    v.reverse();
    v
}

fn check_all(rng: &mut Rng, cx: &mut Cx, m: &mut M, defs: &[D], names: &[String], builtin: &[String], removed: &[D]) -> R {
    let v = visible(defs);
    let _ = m.out();
    for n in names {
        let want = match v.iter().find(|d| d.name == *n) {
            Some(d) => Some(d.xt),
            None => builtin_xt(builtin, n),
        };
        let q = flip_case(rng, n);
        let got = m.vm.find_(&q);
        cx.count("names resolved", 1);
        ensure!(got == want, if want.is_none() { "removed name still findable" } else { "name resolves differently" }, "`{}` resolves to {:?} instead of {:?}", n, got, want);
    }
    let _ = removed;
    let e = m.line("words");
    let got = m.out();
    let mut want: String = defs.iter().rev().filter(|d| d.kind != 3).map(|d| format!("{} ", d.name)).collect();
    for b in builtin {
        want += b;
        want.push(' ');
    }
    ensure!(e == 0 && got == want, "word listing", "error {}; listing starts {:?} instead of {:?}", e, got.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>());
    for d in &v {
        if d.kind < 2 && rng.chance(1, 2) {
            let e = m.line(&format!("{} {}", d.name, if d.kind == 1 { "@" } else { "" }));
            let s = m.s();
            ensure!(e == 0 && s == [d.val], "older definition changed", "`{}` gives error {} stack {:?} instead of {}", d.name, e, s, d.val);
            m.clear_s();
        }
    }
    Ok(())
}
