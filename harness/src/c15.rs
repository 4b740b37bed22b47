//! C15: tasks are scheduled round-robin and their stacks are private.
//!
//! Random task programs are compiled on the machine and, as instruction lists, run by an independent
//! cooperative scheduler; the event log (task, value) and every task's stacks must agree.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Ev(i64),
    EvI,
    EvJ,
    Pause,
    Push(i64),
    PopEv,
    FPush(i64),
    FPopEv,
    RPush(i64),
    RPopEv,
    Do(i64),
    Loop,
    Call(usize),
    Start(usize),
    Suspend(i64),
    Resume(i64),
    Stop,
    Me,
    Inc,
    EvCnt,
    Depth,
    Compiling,
    Nod,
    Halt(i64),
}
use Op::*;

struct W {
    name: String,
    /// The task to activate, for a word that starts a task.
    starts: Option<i64>,
    ops: Vec<Op>,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    words: Vec<W>,
    next: i64,
}
impl<'a> Gen<'a> {
    fn block(&mut self, depth: u32, loops: u32, data: &mut i64, fl: &mut i64, bg: bool, out: &mut Vec<Op>) {
        let n = 1 + self.rng.us(5);
        for _ in 0..n {
            self.next += 1;
            let id = self.next;
            match self.rng.below(30) {
                0..=4 => out.push(Ev(id)),
                5..=9 => out.push(Pause),
                10 if loops > 0 => out.push(EvI),
                11 if loops > 1 => out.push(EvJ),
                12 | 13 => {
                    if *data < 12 {
                        out.push(Push(id));
                        *data += 1
                    }
                }
                14 | 15 => {
                    if *data > 0 {
                        out.push(PopEv);
                        *data -= 1
                    }
                }
                16 => {
                    if *fl < 12 {
                        out.push(FPush(id));
                        *fl += 1
                    }
                }
                17 => {
                    if *fl > 0 {
                        out.push(FPopEv);
                        *fl -= 1
                    }
                }
                18 | 19 if depth > 0 => {
                    // What a block inside a loop pushes it must take away again.
                    let (mut d, mut f) = (0, 0);
                    out.push(Do(self.rng.range(1, 4)));
                    self.block(depth - 1, loops + 1, &mut d, &mut f, bg, out);
                    while d > 0 {
                        out.push(PopEv);
                        d -= 1
                    }
                    while f > 0 {
                        out.push(FPopEv);
                        f -= 1
                    }
                    out.push(Loop);
                }
                20 if depth > 0 => {
                    let (mut d, mut f) = (0, 0);
                    out.push(RPush(id));
                    self.block(depth - 1, 0, &mut d, &mut f, bg, out);
                    while d > 0 {
                        out.push(PopEv);
                        d -= 1
                    }
                    while f > 0 {
                        out.push(FPopEv);
                        f -= 1
                    }
                    out.push(RPopEv);
                }
                21 | 22 => {
                    let c: Vec<usize> = (1..self.words.len()).filter(|k| self.words[*k].starts.is_none()).collect();
                    if !c.is_empty() {
                        let k = *self.rng.pick(&c);
                        out.push(Call(k))
                    }
                }
                23 => {
                    let c: Vec<usize> = (0..self.words.len()).filter(|k| self.words[*k].starts.is_some()).collect();
                    if !c.is_empty() {
                        let k = *self.rng.pick(&c);
                        out.push(Start(k))
                    }
                }
                24 => {
                    // Also the operator, which only another task can wake again.
                    let k = if self.rng.chance(1, 14) { 1 } else { self.rng.range(2, 5) };
                    out.push(Suspend(k))
                }
                25 | 26 => out.push(Resume(self.rng.range(1, 5))),
                27 => out.push(if self.rng.chance(1, 2) { Me } else { Compiling }),
                28 => out.push(if self.rng.chance(1, 2) { Inc } else { EvCnt }),
                _ => match self.rng.below(4) {
                    0 if bg => out.push(Stop),
                    1 => out.push(Halt(self.rng.range(2, 5))),
                    2 => out.push(Depth),
                    _ => out.push(Pause),
                },
            }
        }
    }
    fn word(&mut self, starts: Option<i64>, name: String) {
        let mut ops = Vec::new();
        let (mut d, mut f) = (0, 0);
        let bg = starts.is_some();
        self.block(3, 0, &mut d, &mut f, bg, &mut ops);
        if bg {
            // A background task leaves its items where they are.
            if self.rng.chance(1, 3) {
                ops.push(Stop);
            }
            ops.push(Nod);
        } else {
            while d > 0 {
                ops.push(PopEv);
                d -= 1
            }
            while f > 0 {
                ops.push(FPopEv);
                f -= 1
            }
        }
        self.words.push(W { name, starts, ops });
    }
    fn text(&self, w: usize) -> String {
        let w = &self.words[w];
        let mut t = vec![format!(": {}", w.name)];
        if let Some(k) = w.starts {
            t.push(format!("{} activate", k))
        }
        for o in &w.ops {
            t.push(match o {
                Ev(v) => format!("{} ev", v),
                EvI => "i ev".into(),
                EvJ => "j ev".into(),
                Pause => "pause".into(),
                Push(v) => v.to_string(),
                PopEv => "ev".into(),
                FPush(v) => format!("{}e", v),
                FPopEv => "fev".into(),
                RPush(v) => format!("{} >r", v),
                RPopEv => "r> ev".into(),
                Do(n) => format!("{} 0 do", n),
                Loop => "loop".into(),
                Call(k) => self.words[*k].name.clone(),
                // A task that restarts itself would abandon its own caller.
                Start(k) => format!("me {} <> if {} then", self.words[*k].starts.unwrap(), self.words[*k].name),
                Suspend(k) => format!("{} suspend", k),
                Resume(k) => format!("{} resume", k),
                Stop => "stop".into(),
                Me => "me ev".into(),
                Inc => "1 cnt +!".into(),
                EvCnt => "cnt @ ev".into(),
                Depth => "depth ev".into(),
                Compiling => "compiling? ev".into(),
                Nod => "nod".into(),
                Halt(k) => format!("me {} <> if {} halt then", k, k),
            })
        }
        t.push(";".into());
        t.join(" ")
    }
}

#[derive(Clone, Default)]
struct Task {
    /// (word, pc)
    frames: Vec<(usize, usize)>,
    /// Return-stack values: Do pushes (index, limit, pc of the body).
    loops: Vec<(i64, i64, usize)>,
    r: Vec<i64>,
    s: Vec<i64>,
    f: Vec<i64>,
    awake: bool,
    compiling: bool,
    /// Activated and not run since.
    fresh: bool,
}
struct Sim {
    t: Vec<Task>,
    cur: usize,
    cnt: i64,
    log: Vec<(usize, i64, bool)>,
    steps: u64,
    switches: u64,
    deepest: usize,
}
impl Sim {
    fn pause(&mut self) {
        for d in 1..=5 {
            let k = (self.cur + d) % 5;
            if self.t[k].awake {
                if k != self.cur {
                    self.switches += 1
                }
                self.cur = k;
                self.t[k].fresh = false;
                return;
            }
        }
    }
    /// Run until the operator's program has ended; false when the budget is exhausted.
    fn run(&mut self, words: &[W], budget: u64) -> bool {
        let end = self.steps + budget;
        loop {
            if self.steps >= end {
                return false;
            }
            self.steps += 1;
            let cur = self.cur;
            let (w, pc) = match self.t[cur].frames.last() {
                Some(x) => *x,
                None => return true,
            };
            let op = match words[w].ops.get(pc) {
                None => {
                    self.t[cur].frames.pop();
                    continue;
                }
                Some(o) => o.clone(),
            };
            let adv = match op {
                Nod => false,
                _ => true,
            };
            if adv {
                self.t[cur].frames.last_mut().unwrap().1 += 1;
            }
            let t = &mut self.t[cur];
            match op {
                Ev(v) => self.log.push((cur, v, false)),
                EvI => {
                    let v = t.loops[t.loops.len() - 1].0;
                    self.log.push((cur, v, false))
                }
                EvJ => {
                    let v = t.loops[t.loops.len() - 2].0;
                    self.log.push((cur, v, false))
                }
                Pause | Nod => self.pause(),
                Push(v) => {
                    t.s.push(v);
                    self.deepest = self.deepest.max(t.s.len())
                }
                PopEv => {
                    let v = t.s.pop().unwrap();
                    self.log.push((cur, v, false))
                }
                FPush(v) => {
                    t.f.push(v);
                    self.deepest = self.deepest.max(t.f.len())
                }
                FPopEv => {
                    let v = t.f.pop().unwrap();
                    self.log.push((cur, v, true))
                }
                RPush(v) => t.r.push(v),
                RPopEv => {
                    let v = t.r.pop().unwrap();
                    self.log.push((cur, v, false))
                }
                Do(n) => t.loops.push((0, n, pc + 1)),
                Loop => {
                    let l = t.loops.last_mut().unwrap();
                    l.0 += 1;
                    if l.0 < l.1 {
                        let b = l.2;
                        t.frames.last_mut().unwrap().1 = b;
                    } else {
                        t.loops.pop();
                    }
                }
                Call(0) => {}
                Call(k) => t.frames.push((k, 0)),
                Start(k) => self.start(words[k].starts.unwrap() as usize - 1, Some(k)),
                Suspend(k) => self.t[k as usize - 1].awake = false,
                Resume(k) => self.t[k as usize - 1].awake = true,
                Stop => {
                    t.awake = false;
                    self.pause()
                }
                Me => self.log.push((cur, cur as i64 + 1, false)),
                Inc => self.cnt += 1,
                EvCnt => {
                    let v = self.cnt;
                    self.log.push((cur, v, false))
                }
                Depth => {
                    let v = t.s.len() as i64;
                    self.log.push((cur, v, false))
                }
                Compiling => {
                    let v = if t.compiling { -1 } else { 0 };
                    self.log.push((cur, v, false))
                }
                Halt(k) => {
                    self.start(k as usize - 1, None);
                }
            }
        }
    }
    /// Word `w` in task `k`; None is the endless pausing loop (word 0 by construction).
    fn start(&mut self, k: usize, w: Option<usize>) {
        if k == self.cur {
            return;
        }
        let t = &mut self.t[k];
        t.awake = true;
        t.frames = vec![(w.unwrap_or(0), 0)];
        t.loops.clear();
        t.r.clear();
        t.compiling = false;
        t.fresh = true;
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    // Every task has a program, so that any may be resumed.
    for l in ["variable cnt", "2 halt 3 halt", "4 halt 5 halt"] {
        let e = m.line(l);
        ensure!(e == 0, "setup failed", "`{}` -> {}", l, e);
    }
    let mut sim = Sim {
        t: vec![Task::default(); 5],
        cur: 0,
        cnt: 0,
        log: vec![],
        steps: 0,
        switches: 0,
        deepest: 0,
    };
    for k in 0..5 {
        sim.t[k].awake = true;
        if k > 0 {
            sim.t[k].frames = vec![(0, 0)];
        }
    }
    let mut g = Gen {
        rng: &mut rng,
        words: vec![W {
            name: "nod".into(),
            starts: None,
            ops: vec![Nod],
        }],
        next: 1000,
    };
    hooks::take();
    // Word 0 is never called, it is what `halt` starts.
    let mut first = 1;
    let rounds = if cx.small { 4 } else { 8 };
    let mut wedged = false;
    for round in 0..rounds {
        if wedged {
            break;
        }
        for j in 0..g.rng.us(3) {
            g.word(None, format!("h{}_{}", round, j));
        }
        for j in 0..1 + g.rng.us(3) {
            let k = g.rng.range(2, 5);
            g.word(Some(k), format!("s{}_{}", round, j));
        }
        g.word(None, format!("main{}", round));
        let main = g.words.len() - 1;
        for w in first..g.words.len() {
            let t = g.text(w);
            let e = m.line(&t);
            if e == -8 {
                return Ok(());
            }
            ensure!(e == 0, "definition failed", "`{}` -> {}", t, e);
        }
        first = g.words.len();
        // How the operator runs it.
        let how = g.rng.below(4);
        let name = g.words[main].name.clone();
        let (line, extra) = match how {
            0 => (format!("{} 7 ev", name), 1),
            1 => {
                // From inside a definition under construction.
                m.line(&format!(": imm{} {} ; immediate", round, name));
                (format!(": during{} 5 imm{} ev ; during{}", round, round, round), 2)
            }
            2 => (format!("{} {}", name, name), 3),
            _ => (name.clone(), 0),
        };
        let log0 = sim.log.len();
        let run1 = |sim: &mut Sim, words: &[W]| {
            sim.t[0].frames = vec![(main, 0)];
            sim.t[0].loops.clear();
            sim.t[0].r.clear();
            let ok = sim.run(words, 20_000);
            ok
        };
        sim.t[0].compiling = extra == 2;
        let mut ok = run1(&mut sim, &g.words);
        sim.t[0].compiling = false;
        if ok && extra == 3 {
            ok = run1(&mut sim, &g.words);
        }
        if ok && extra == 1 {
            sim.log.push((0, 7, false));
        }
        if ok && extra == 2 {
            sim.log.push((0, 5, false));
        }
        ensure!(!ok || sim.cur == 0, "simulation error", "the operator ended while task {} runs", sim.cur + 1);
        // Only the operator's stacks are checked by the system.
        if sim.deepest > 55 {
            break;
        }
        let want: Vec<(usize, i64, bool)> = sim.log[log0..].to_vec();
        // With a budget far above the simulation's the machine must end where the simulation ends.
        let r = m.line_steps(&line, if ok { 200_000 } else { 20_000 });
        let got: Vec<(usize, i64, bool)> = hooks::take()
            .iter()
            .map(|e| match e {
                Ev::I { task, v } => (*task, *v, false),
                Ev::F { task, v } => (*task, f64::from_bits(*v) as i64, true),
                _ => (9, 0, false),
            })
            .collect();
        cx.count("events compared", got.len() as u64);
        let n = got.len().min(want.len());
        let diff = (0..n).find(|i| got[*i] != want[*i]);
        if let Some(d) = diff {
            return fail(
                "event log differs from the schedule",
                format!(
                    "`{}` event {}: task {} reported {} but must be task {} value {}; the 8 before: {:?}",
                    line,
                    d,
                    got[d].0 + 1,
                    got[d].1,
                    want[d].0 + 1,
                    want[d].1,
                    &want[d.saturating_sub(8)..d]
                ),
            );
        }
        if !ok {
            // Endless by design (everybody waits); the prefix is compared above.
            wedged = true;
            if !sim.t[0].awake {
                cx.count("operator left asleep", 1);
            }
            cx.count("endless schedules", 1);
            continue;
        }
        ensure!(r.is_some(), "program does not end", "`{}` must end after {} simulated steps", line, sim.steps);
        ensure!(r == Some(0), "program failed", "`{}` ended with {:?}", line, r);
        ensure!(
            got.len() == want.len(),
            "event log differs from the schedule",
            "`{}` reported {} events, must be {}; last {:?}, must be {:?}",
            line,
            got.len(),
            want.len(),
            got.last(),
            want.last()
        );
        // Private stacks and wakefulness of every task.
        ensure!(m.vm.current_task() == 0, "another task is current", "after `{}`: {}", line, m.vm.current_task());
        for k in 0..5 {
            m.vm.set_current_task(k);
            let (s, f, rl) = (m.s(), m.f(), m.rlen());
            m.vm.set_current_task(0);
            ensure!(rl == 0 || !sim.t[k].fresh, "return stack of an activated task not empty", "after `{}` task {}: {} items", line, k + 1, rl);
            let fs: Vec<f64> = sim.t[k].f.iter().map(|x| *x as f64).collect();
            ensure!(
                s == sim.t[k].s && f == fs,
                "a task's stacks differ",
                "after `{}` task {}: {:?} {:?}, must be {:?} {:?}",
                line,
                k + 1,
                s,
                f,
                sim.t[k].s,
                fs
            );
            let aw = m.vm.awake(k);
            ensure!(aw == sim.t[k].awake, "a task is awake or asleep wrongly", "after `{}` task {}: {}", line, k + 1, aw);
        }
        cx.count("task switches", sim.switches);
        sim.switches = 0;
        cx.distinct(mix(hash_str(&format!("{:?}", want))));
        // Interpreted commands between the programs.
        if !sim.t[0].awake && g.rng.chance(3, 4) {
            let e = m.line("1 resume");
            ensure!(e == 0, "command refused", "`1 resume` -> {}", e);
            sim.t[0].awake = true;
        }
        if g.rng.chance(1, 2) {
            let k = g.rng.range(2, 5);
            let (c, aw) = if g.rng.chance(1, 2) { ("suspend", false) } else { ("resume", true) };
            let l = format!("{} {}", k, c);
            let e = m.line(&l);
            ensure!(e == 0, "command refused", "`{}` -> {}", l, e);
            sim.t[k as usize - 1].awake = aw;
        }
        if g.rng.chance(1, 4) {
            let b = *g.rng.pick(&["0", "6", "-1", "100", "-9223372036854775808"]);
            let l = format!("{} {}", b, g.rng.pick(&["suspend", "resume", "halt"]));
            let e = m.line(&l);
            ensure!(e == -24, "invalid task accepted", "`{}` -> {}", l, e);
            m.recover();
            cx.count("invalid task identifiers refused", 1);
        }
    }
    if idx == 0 {
        let t = g.text(g.words.len() - 1);
        cx.sample(|| t.clone());
    }
    Ok(())
}

