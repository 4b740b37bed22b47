//! C16: facilities exclude each other, ms waits at least as long as asked and no longer than needed,
//! execution times are recorded.
//!
//! Programs are free of deadlocks by construction; the recorded trace is checked offline against the
//! specification, not against one particular schedule.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

const WANT: i64 = 1;
const GOT: i64 = 2;
const REL: i64 = 3;
const NREL: i64 = 4;
const MS0: i64 = 5;
const MS1: i64 = 6;
const ROUND: i64 = 7;
const HOLDER: i64 = 8;
const IN: i64 = 9;
const DONE: i64 = 10;

fn code(kind: i64, x: i64) -> i64 {
    kind * 1_000_000 + x
}

/// Straight-line code of a task; `held` are the facilities it holds in ascending order.
fn body(rng: &mut Rng, nf: i64, held: &mut Vec<i64>, depth: u32, ticks: bool, ms: bool, t: &mut Vec<String>) {
    for _ in 0..1 + rng.us(4) {
        match rng.below(12) {
            0..=3 if depth > 0 => {
                // Facilities are taken in ascending order only: no deadlock.
                let lo = held.last().map_or(0, |x| x + 1);
                if lo < nf {
                    let f = rng.range(lo, nf - 1);
                    t.push(format!("{} tev fac{} get {} tev", code(WANT, f), f, code(GOT, f)));
                    held.push(f);
                    body(rng, nf, held, depth - 1, ticks, ms, t);
                    held.pop();
                    // The order: an event after the release, nothing runs in between.
                    t.push(format!("fac{} release {} tev", f, code(REL, f)));
                }
            }
            4 => {
                let f = rng.range(0, nf - 1);
                if !held.contains(&f) {
                    t.push(format!("fac{} release {} tev", f, code(NREL, f)));
                }
            }
            5 | 6 if ms => {
                let n = *rng.pick(&[0, 1, 1, 2, 3, 5, 8, -1, -5]);
                t.push(format!("{} tev {} ms {} tev", code(MS0, n + 1000), n, code(MS1, n + 1000)));
            }
            7 if ticks => t.push("tick".into()),
            8 => t.push(format!("{} 0 do pause loop", rng.range(1, 4))),
            9 if !held.is_empty() => t.push(format!("{} tev pause {} tev", code(IN, held[0]), code(IN, held[0]))),
            _ => t.push("pause".into()),
        }
    }
}

#[derive(Clone, Default)]
struct TS {
    want: Option<i64>,
    /// (start, n)
    ms: Option<(u64, i64)>,
    /// Round at which the wait was certainly over.
    due: Option<usize>,
}

fn facilities(cx: &mut Cx, rng: &mut Rng, m: &mut M, uid: u64) -> R {
    let nf = rng.range(1, 3);
    // The operator's rounds alone advance the clock, or everybody does.
    let ticks = rng.chance(1, 3);
    let nt = rng.range(1, 4);
    // When the operator takes facilities too, nobody waits for time: the clock may stand still.
    let op_takes = rng.chance(1, 3);
    let mut src = Vec::new();
    for t in 2..2 + nt {
        let mut b = Vec::new();
        body(rng, nf, &mut vec![], 3, ticks, !op_takes, &mut b);
        let again = rng.chance(2, 3);
        let text = if again {
            format!(": t{}_{} {} activate {} 0 do {} pause loop {} tev nod ;", t, uid, t, rng.range(1, 6), b.join(" "), code(DONE, t))
        } else {
            format!(": t{}_{} {} activate {} {} tev nod ;", t, uid, t, b.join(" "), code(DONE, t))
        };
        src.push(text);
    }
    let tick = ["", "tick", "tick tick", "i 3 and 0= if tick then"][rng.us(4)];
    // A clock that never moves would keep waiting tasks waiting for ever: not with the last form.
    let tick = if tick.is_empty() { "tick" } else { tick };
    let hs: String = (0..nf).map(|f| format!("fac{} @ {} + tev ", f, code(HOLDER, f * 100))).collect();
    let rounds = rng.range(40, 220);
    let mut opb = Vec::new();
    if op_takes {
        body(rng, nf, &mut vec![], 2, true, false, &mut opb);
    }
    let op = format!(
        ": op{} {} {} 0 do {} tev {} {} {} pause loop ; ",
        uid,
        (2..2 + nt).map(|t| format!("t{}_{}", t, uid)).collect::<Vec<_>>().join(" "),
        rounds,
        code(ROUND, 0),
        hs,
        opb.join(" "),
        tick
    );
    src.push(op);
    for l in &src {
        let e = m.line(l);
        if e == -8 {
            return Ok(());
        }
        ensure!(e == 0, "definition failed", "`{}` -> {}", l, e);
    }
    for f in 0..nf {
        m.line(&format!("0 fac{} !", f));
    }
    hooks::take();
    let line = format!("op{}", uid);
    let r = m.line_steps(&line, 1_000_000);
    let log = hooks::take();
    ensure!(r == Some(0), "task program does not end", "{:?}: {:?} after {} events", src, r, log.len());
    check(cx, &log, nf as usize, nt as usize, &src)?;
    let mut h = uid & 0;
    for e in &log {
        if let Ev::T { task, v, ms } = e {
            h = mix(h ^ (*task as u64) << 40 ^ *v as u64 ^ (ms & 7) << 50)
        }
    }
    cx.distinct(h);
    for l in ["2 halt 3 halt", "4 halt 5 halt"] {
        m.line(l);
    }
    Ok(())
}

fn check(cx: &mut Cx, log: &[Ev], nf: usize, nt: usize, src: &[String]) -> R {
    let mut holder: Vec<Option<usize>> = vec![None; nf];
    // Round since which a facility has been free while somebody waited.
    let mut freed: Vec<Option<usize>> = vec![None; nf];
    let mut ts = vec![TS::default(); 5];
    let mut round = 0usize;
    let mut done = 0;
    let mut now = 0u64;
    let ctx = |i: usize| format!("event {} of {}; last: {:?}; program {:?}", i, log.len(), &log[i.saturating_sub(12)..(i + 1).min(log.len())], src);
    for (i, e) in log.iter().enumerate() {
        let (task, ms, v) = match e {
            Ev::T { task, ms, v } => (*task, *ms, *v),
            _ => return fail("unexpected event", ctx(i)),
        };
        ensure!(ms >= now, "time runs backwards", "{}", ctx(i));
        now = ms;
        let (kind, x) = (v / 1_000_000, v % 1_000_000);
        let f = x as usize;
        match kind {
            WANT => {
                ts[task].want = Some(x);
                if holder[f].is_none() && freed[f].is_none() {
                    freed[f] = Some(round);
                }
            }
            GOT => {
                ensure!(holder[f].is_none(), "two holders of a facility", "facility {} taken by task {} while task {:?} holds it; {}", f, task + 1, holder[f].map(|t| t + 1), ctx(i));
                ensure!(ts[task].want == Some(x), "unexpected event", "{}", ctx(i));
                ts[task].want = None;
                holder[f] = Some(task);
                freed[f] = None;
                cx.count("facilities taken", 1);
            }
            REL => {
                ensure!(holder[f] == Some(task), "unexpected event", "{}", ctx(i));
                holder[f] = None;
                freed[f] = if ts.iter().any(|t| t.want == Some(x)) {
                    cx.count("facilities handed over to a waiting task", 1);
                    Some(round)
                } else {
                    None
                };
            }
            NREL => {
                cx.count("releases by another task", 1);
            }
            IN => {
                ensure!(holder[f] == Some(task), "two holders of a facility", "task {} is inside facility {} held by {:?}; {}", task + 1, f, holder[f], ctx(i));
            }
            MS0 => {
                ts[task].ms = Some((ms, x - 1000));
                ts[task].due = None;
                if x - 1000 <= 0 {
                    ts[task].due = Some(round);
                }
            }
            MS1 => {
                let (t0, n) = match ts[task].ms.take() {
                    Some(p) => p,
                    None => return fail("unexpected event", ctx(i)),
                };
                ensure!(ms as i64 - t0 as i64 >= n, "ms returned too early", "{} ms from {} ended at {}; {}", n, t0, ms, ctx(i));
                ts[task].due = None;
                cx.count("waits measured", 1);
            }
            HOLDER => {
                let (f, id) = (x as usize / 100, x % 100);
                let want = holder[f].map_or(0, |t| t as i64 + 1);
                ensure!(id == want, "a facility's holder is wrong", "facility {} shows {} but task {} holds it; {}", f, id, want, ctx(i));
            }
            ROUND => {
                ensure!(task == 0, "unexpected event", "{}", ctx(i));
                round += 1;
                for t in 0..5 {
                    if let Some((t0, n)) = ts[t].ms {
                        match ts[t].due {
                            None => {
                                if now as i64 - t0 as i64 >= n {
                                    ts[t].due = Some(round)
                                }
                            }
                            Some(r) => {
                                // One whole round passed after the time was over.
                                // (The real clock moves on between an event and the start of the wait.)
                                ensure!(RTFVM || round <= r + 1, "ms did not return in time", "task {} waits {} ms since {}, it is {}; {}", t + 1, n, t0, now, ctx(i));
                            }
                        }
                    }
                }
                for f in 0..nf {
                    if let (Some(r), None) = (freed[f], holder[f]) {
                        ensure!(round <= r + 2, "a free facility is not obtained", "facility {} is free since round {}, now {}; {}", f, r, round, ctx(i));
                    }
                }
            }
            DONE => done += 1,
            _ => return fail("unexpected event", ctx(i)),
        }
    }
    if done == nt {
        cx.count("programs run to the end", 1);
    }
    cx.count("events checked", log.len() as u64);
    Ok(())
}

/// The operator waits while background tasks work and one of them is the clock.
fn operator_waits(cx: &mut Cx, rng: &mut Rng, m: &mut M, uid: u64) -> R {
    let n = *rng.pick(&[1i64, 2, 3, 7, 20, 100]);
    let clock = rng.range(2, 5);
    let mut worker = rng.range(2, 5);
    if worker == clock {
        worker = if clock == 5 { 2 } else { clock + 1 };
    }
    for l in [
        format!(": clk{} {} activate begin tick pause again ;", uid, clock),
        format!(": wrk{} {} activate begin {} tev pause again ;", uid, worker, code(IN, 0)),
        format!(": opw{} clk{} wrk{} {} tev {} ms {} tev {} halt {} halt ;", uid, uid, uid, code(MS0, n), n, code(MS1, n), clock, worker),
    ] {
        let e = m.line(&l);
        if e == -8 {
            return Ok(());
        }
        ensure!(e == 0, "definition failed", "`{}` -> {}", l, e);
    }
    hooks::take();
    let l = format!("opw{}", uid);
    let r = m.line_steps(&l, 100_000);
    let log = hooks::take();
    ensure!(r == Some(0), "the operator's wait does not end", "{} ms: {:?}; {:?}", n, r, &log[..log.len().min(10)]);
    let mut t0 = None;
    let mut work = 0u64;
    let mut ended = false;
    for e in &log {
        if let Ev::T { task, ms, v } = e {
            match v / 1_000_000 {
                MS0 => t0 = Some(*ms),
                MS1 => {
                    let d = *ms as i64 - t0.unwrap_or(0) as i64;
                    ensure!(d >= n, "ms returned too early", "operator: {} ms took {}", n, d);
                    // One tick in every round: the first turn at which it is over.
                    ensure!(RTFVM || d <= n + 1, "ms did not return in time", "operator: {} ms took {}", n, d);
                    ended = true;
                }
                IN if t0.is_some() && !ended => {
                    ensure!(*task as i64 == worker - 1, "unexpected event", "{:?}", e);
                    work += 1;
                }
                _ => {}
            }
        }
    }
    ensure!(ended, "unexpected event", "{:?}", log);
    ensure!(RTFVM || work as i64 >= n - 1, "other tasks did not run during ms", "{} turns during {} ms", work, n);
    cx.count("turns of others during waits", work);
    Ok(())
}

fn xtimes(cx: &mut Cx, rng: &mut Rng, m: &mut M, uid: u64) -> R {
    m.line("0xtime");
    m.out();
    let e = m.line(".xtime");
    let o = m.out();
    ensure!(e == 0 && o.is_empty(), "execution times not cleared", "{:?} {}", o, e);
    let k = 1 + rng.us(4);
    let mut best: Vec<Option<(u64, u64)>> = vec![None; k];
    for j in 0..k {
        let l = format!(": x{}_{} 0 ?do tick loop ;", uid, j);
        let e = m.line(&l);
        if e == -8 {
            return Ok(());
        }
        ensure!(e == 0, "definition failed", "`{}` -> {}", l, e);
    }
    for _ in 0..rng.range(1, 12) {
        let j = rng.us(k);
        // the clock may not advance at all meanwhile
        let n = if rng.chance(1, 4) { 0 } else { rng.range(1, 60) };
        let deep = rng.range(-9, 9);
        let l = match rng.below(3) {
            0 => format!("{} {} utime ' x{}_{} xtime", deep, n, uid, j),
            1 => {
                // Through a definition.
                m.line(&format!(": xx{} utime ['] x{}_{} xtime ;", uid, uid, j));
                format!("{} {} xx{}", deep, n, uid)
            }
            _ => {
                // Started earlier by the program's own reading of the clock.
                format!("{} utime {} x{}_{} ' x{}_{} (xtime)", deep, n, uid, j, uid, j)
            }
        };
        let e = m.line(&l);
        m.out();
        let s = m.s();
        ensure!(e == 0 && s == [deep], "measuring changed the stack", "`{}` -> {} {:?}", l, e, s);
        m.clear_s();
        let us = n as u64 * 1000;
        best[j] = Some(match best[j] {
            None => (us, us),
            Some((a, b)) => (a.min(us), b.max(us)),
        });
        cx.count("execution times recorded", 1);
    }
    let want: Vec<String> = (0..k)
        .rev()
        .filter_map(|j| best[j].map(|(a, b)| format!("x{}_{}|{},{}", uid, j, a, b)))
        .collect();
    m.line(".xtime");
    let o = m.out();
    if RTFVM {
        // Real times: each at least as long as its ticks took.
        let parts: Vec<&str> = o.split('|').collect();
        let known: Vec<usize> = (0..k).rev().filter(|j| best[*j].is_some()).collect();
        let ok = parts.len() == 2 * known.len()
            && known.iter().zip(parts.chunks(2)).all(|(j, c)| {
                let t: Vec<u64> = c[1].split(',').map(|x| x.parse().unwrap_or(0)).collect();
                let (a, b) = best[*j].unwrap();
                c[0] == format!("x{}_{}", uid, j) && t.len() == 2 && t[0] <= t[1] && t[0] + 1000 >= a && t[1] + 1000 >= b && t[1] < 600_000_000
            });
        ensure!(ok, "execution times differ", "{:?} after ticks of {:?}", o, want);
        return Ok(());
    }
    ensure!(o == want.join("|"), "execution times differ", "{:?} must be {:?}", o, want.join("|"));
    Ok(())
}

/// Lets the clock run until shortly before a number some counter may not hold. Reached one millisecond
/// after the other, which an optimised build does at once.
fn late(cx: &mut Cx, rng: &mut Rng, m: &mut M) {
    let now = m.now_ms();
    let far = if cfg!(debug_assertions) || cx.small { 5_000_000 } else { 9_300_000_000_000 };
    let mut edges: Vec<u64> = Vec::new();
    for bits in [15, 16, 24, 31, 32, 33, 40, 48, 53, 63] {
        // of milli-, micro- and nanoseconds
        edges.extend([1u64 << bits, (1u64 << bits) / 1000, (1u64 << bits) / 1_000_000]);
    }
    edges.retain(|e| *e > now + 100 && *e < now + far && *e < 9_300_000_000_000);
    if edges.is_empty() {
        return;
    }
    let e = *rng.pick(&edges) - rng.below(60);
    for _ in now..e {
        crate::vmx::Clock::tick1(&mut m.vm);
    }
    cx.count(if e > 1 << 32 { "programs at a clock beyond 32 bits of ms" } else { "programs at a late clock" }, 1);
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    REAL_TICKS.with(|r| r.set(true));
    let mut m = M::hooked();
    for l in ["variable fac0 variable fac1 variable fac2", "2 halt 3 halt", "4 halt 5 halt"] {
        let e = m.line(l);
        ensure!(e == 0, "setup failed", "`{}` -> {}", l, e);
    }
    let n = if cx.small { 3 } else { 8 };
    // The clock of the rtf program against the host's.
    let before = std::time::Instant::now();
    let c0 = m.vm.system_time_ns();
    let after = std::time::Instant::now();
    for uid in 0..n {
        if rng.chance(1, 2) && !RTFVM {
            late(cx, &mut rng, &mut m);
        }
        if RTFVM && rng.chance(1, 60) {
            // Programs running while the clock enters a new second.
            let ns = m.vm.system_time_ns() % 1_000_000_000;
            let left = 1_000_000_000u64.saturating_sub(ns + rng.range(1, 4) as u64 * 1_000_000);
            std::thread::sleep(std::time::Duration::from_nanos(left));
            cx.count("programs running into a new second", 1);
        }
        match rng.below(8) {
            0 => operator_waits(cx, &mut rng, &mut m, uid)?,
            1 => xtimes(cx, &mut rng, &mut m, uid)?,
            _ => facilities(cx, &mut rng, &mut m, uid)?,
        }
    }
    if RTFVM {
        let least = after.elapsed().as_nanos() as i128;
        let d = m.vm.system_time_ns() as i128 - c0 as i128;
        let most = before.elapsed().as_nanos() as i128;
        ensure!(d >= least - 1000 && d <= most + 1000, "the clock differs from the host's", "{} ns passed on it, between {} and {} on the host's", d, least, most);
        cx.count("clocks compared with the host's", 1);
    }
    Ok(())
}
