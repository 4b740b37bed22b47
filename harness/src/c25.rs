//! C25: no undefined behaviour in the host, and nothing left behind.
//!
//! The workloads of the other properties, with their functional verdicts ignored: what counts are panics
//! of the library (checked arithmetic, bounds, preconditions of unsafe functions), sanitizer and Miri
//! reports, strings that are not valid UTF-8, and bytes still allocated after a machine was dropped.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use crate::{c14, LIVE};
use rtforth::core::Core;
use std::sync::atomic::Ordering;

const MODULES: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C24", "C26", "C27",
    "C28",
];
/// Under Miri: one machine, no files, no threads.
const SMALL: &[&str] = &["C05", "C04", "C14", "C03", "C20", "C06", "C19", "C02", "C21", "C12", "C10", "C26", "C07", "C15", "C11", "C08", "C23", "C16", "C01", "C09"];

fn judge(m: &str, idx: u64, what: &str) -> R {
    if let Some(w) = INVALID.with(|i| i.take()) {
        return fail("invalid string", format!("{} case {}: the {} is not valid UTF-8 ({})", m, idx, w, what));
    }
    Ok(())
}

/// Run one case of another property's workload; only panics inside the library count.
fn borrowed(cx: &mut Cx, name: &str, idx: u64) -> R {
    INVALID.with(|i| i.set(None));
    let f = crate::registry(name).unwrap();
    let prop = std::mem::replace(&mut cx.prop, name.to_string());
    let keep = std::mem::take(&mut cx.counters);
    let samples = std::mem::take(&mut cx.samples);
    note(&format!("workload of {}", name));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx, idx)));
    crate::hooks::take();
    cx.prop = prop;
    let n: u64 = cx.counters.values().sum();
    cx.counters = keep;
    cx.samples = samples;
    cx.count(&format!("observations of {}", name), n);
    cx.count("workload cases", 1);
    if r.is_err() {
        let p = crate::last_panic();
        if in_library(&p) {
            return fail("host panic", format!("workload of {}, case {}: the host panicked: {}", name, idx, p));
        }
    }
    judge(name, idx, "workload")
}
pub fn in_library(p: &str) -> bool {
    match p.rfind(" at ") {
        Some(i) => {
            let f = &p[i + 4..];
            !f.starts_with("src/") && !f.contains("/verif/") && !f.contains("/harness/src/")
        }
        None => true,
    }
}

/// A store anywhere in the data space: headers, code, markers' records, system variables.
fn wild_line(m: &mut M, rng: &mut Rng) -> String {
    let (st, here, lim) = (m.start(), m.here(), m.limit());
    let a = match rng.below(6) {
        0 => st + rng.us(64),
        1 => st + rng.us(lim - st),
        2 => here.saturating_sub(rng.us(600)),
        3 => here + rng.us(40),
        _ => st + rng.us(here - st + 1),
    };
    let v = match rng.below(7) {
        0 => rng.cell(),
        1 => st as i64 + rng.range(0, 66000),
        2 => rng.range(0, 400),
        3 => 0,
        4 => a as i64 + rng.range(-16, 16),
        _ => rng.u64() as i64,
    };
    match rng.below(12) {
        0..=3 => format!("{} {} !", v, a),
        4 | 5 => format!("{} {} c!", v, a),
        6 => format!("{}e {} f!", v % 1000, a),
        7 => format!("{} {} {} move", st + rng.us(lim - st), a, rng.us(200)),
        8 => format!("{} allot", rng.range(-((here - st) as i64), 200)),
        9 => format!("{} execute", rng.range(-2, m.vm.wordlist().len() as i64 + 3)),
        10 => format!("{} handler!", rng.range(-2, m.vm.wordlist().len() as i64 + 3)),
        _ => format!("{} {} +!", rng.range(-9, 9), a),
    }
}

fn soup(cx: &mut Cx, rng: &mut Rng, lines: usize) -> R {
    let wild = rng.chance(1, 2);
    let mut m = M::hooked();
    let dir = cx.scratch.clone();
    let _ = c14::prepare(&mut m);
    let mut s = c14::Soup::new(&mut m, rng, &dir);
    for _ in 0..lines {
        let l = if wild && rng.chance(1, 3) { wild_line(&mut m, rng) } else { s.line(rng) };
        let budget = 3000;
        let e = m.line_steps(&l, budget);
        m.strings_valid();
        cx.count("hostile lines", 1);
        if e != Some(0) {
            c14::rescue(&mut m);
        }
        if m.out().len() > 1 << 20 {
            break;
        }
        let _ = crate::hooks::take();
    }
    Ok(())
}

/// Bytes still allocated after machines with this history were dropped.
fn leak(cx: &mut Cx, rng: &mut Rng) -> R {
    let seed = rng.u64();
    let n = 1 + rng.us(12);
    let dir = cx.scratch.clone();
    let run = |k: u64| {
        let mut r = Rng::new(seed ^ k);
        let mut m = M::hooked();
        {
            let _ = c14::prepare(&mut m);
            let mut s = c14::Soup::new(&mut m, &mut r, &dir);
            for _ in 0..n {
                let l = s.line(&mut r);
                if m.line_steps(&l, 2000) != Some(0) {
                    c14::rescue(&mut m);
                }
                let _ = m.out();
            }
            m.recover();
            m.line_steps(": lk s\" /nonexistent/file\" r/o open-file ; lk 2drop variable lkv 5 lkv ! create lkc 100 allot marker lkm", 2000);
            m.recover();
            m.line_steps("include /dev/null", 2000);
            m.recover();
        }
        let _ = crate::hooks::take();
    };
    // what is allocated once for the process
    let quiet = note_pause(true);
    let k = rng.u64();
    run(k);
    run(k);
    // The standard library's buffers of standard input and output are made on first use.
    let _ = std::io::stdin().lock();
    let _ = std::io::stdout().lock();
    // What is made once, however late, is not left behind again.
    let mut left = isize::MAX;
    for _ in 0..3 {
        let before = LIVE.load(Ordering::Relaxed);
        for _ in 0..4 {
            run(k);
        }
        left = left.min(LIVE.load(Ordering::Relaxed) - before);
        if left <= 0 {
            break;
        }
    }
    note_pause(quiet);
    ensure!(left <= 0, "memory of a dropped machine is not released", "four machines left {} bytes behind", left);
    cx.count("machines dropped and accounted for", 4);
    Ok(())
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    cx.distinct(mix(idx ^ 0x25));
    if cx.small {
        // one machine per case
        let k = idx / 3;
        return match idx % 3 {
            0 => soup(cx, &mut rng, 12),
            _ => borrowed(cx, SMALL[((idx - k) % SMALL.len() as u64) as usize], idx / 7),
        };
    }
    match idx % 8 {
        0 => {
            soup(cx, &mut rng, 120)?;
            judge("C25", idx, "hostile lines")
        }
        1 if !cfg!(miri) => leak(cx, &mut rng),
        _ => {
            let m = MODULES[rng.us(MODULES.len())];
            borrowed(cx, m, idx)
        }
    }
}
