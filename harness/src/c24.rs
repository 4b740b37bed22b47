//! C24: machines are independent and deterministic. Digests of the complete visible state (addresses
//! relative to the data space) after every line are compared between solo and interleaved runs.
use crate::ensure;
use crate::hooks;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::facility::Facility;
use rtforth::NUM_TASKS;

/// A random program; @ stands for the directory of the run.
fn program(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut p: Vec<String> = vec![];
    let mut words: Vec<String> = vec![];
    let mut cells: Vec<String> = vec![];
    let mut marks: Vec<(String, usize, usize)> = vec![];
    let names = *rng.pick(&[5, 12, 40, 40]);
    for k in 0..n {
        // names are shared by all programs, on purpose
        let id = k % names;
        let (a, b) = (rng.range(-50, 50), rng.range(1, 9));
        let w = if words.is_empty() { "noop".to_string() } else { rng.pick(&words).clone() };
        let v = if cells.is_empty() { "base @ ! 10 base".to_string() } else { rng.pick(&cells).clone() };
        let l = match rng.below(51) {
            0..=4 => {
                words.push(format!("w{}", id));
                match rng.below(8) {
                    0 => format!(": w{} {} . {} ;", id, a, w),
                    1 => format!(": w{} {} 0 do i . {} . loop ;", id, b, a),
                    2 => format!(": w{} {} dup 0< if negate then begin dup while 1- repeat . ;", id, a),
                    3 => format!(": w{} .\" text {} é\" s\" other {}\" type ;", id, a, b),
                    4 => format!(": w{} {}.5e f. {} s>f f. ;", id, a, b),
                    5 => format!(": w{} {} case 1 of 10 . endof 2 of 20 . endof 30 . endcase ;", id, b),
                    6 => format!(": w{} {} >r r@ . r> drop ['] noop execute ;", id, a),
                    _ => format!(": w{} {} dup 0 > if 1- recurse else drop then {} . ;", id, b, a).replace(&format!("{} dup", b), &format!("[ {} ] literal 0 and dup", b)),
                }
            }
            5 | 6 => {
                cells.push(format!("v{}", id));
                format!("variable v{} {} v{} !", id, a, id)
            }
            7 => {
                words.push(format!("c{}", id));
                format!("{} constant c{}", a, id)
            }
            8 => format!("create d{} {} , {} c, {}e f, d{} @ .", id, a, b, a, id),
            9 => {
                words.push(format!("ch{}", id));
                format!(": mk{} create , does> @ {} + ; {} mk{} ch{}", id, b, a, id, id)
            }
            10 => {
                marks.push((format!("m{}", id), words.len(), cells.len()));
                format!("marker m{}", id)
            }
            11 if !marks.is_empty() => {
                let (m, nw, nc) = marks.swap_remove(rng.us(marks.len()));
                // what was defined later, and may be redefined earlier, is not used any more
                words.truncate(nw.min(words.len()));
                cells.truncate(nc.min(cells.len()));
                marks.retain(|x| x.1 <= nw && x.2 <= nc);
                m
            }
            12 => format!("{} {} + .", a, b),
            13 => format!("{} {} {}", a, b, rng.pick(&["+", "dup", "swap", "over", "*", "/mod", "2dup"])),
            14 => format!("{}.25e {}e f* f.", a, b),
            15 => format!("{}e fdup fsin", a),
            16 => ".s".into(),
            17 => "words".into(),
            18 => rng.pick(&["nosuchword", "drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop", "1 0 /", "abort", "0 @", "-1 c@", ": bad if ;", "r>", "' nosuch", "then", "fdrop fdrop fdrop fdrop fdrop fdrop fdrop fdrop fdrop"]).to_string(),
            19 => format!("{} {} +! {} @ .", b, v, v),
            20 => format!("{} @ .", v),
            21 => "hex".into(),
            22 => "decimal".into(),
            23 => w,
            24 => format!("' {} execute", w),
            25 => format!("' {} .word", w),
            26 => "here . pad drop unused .".replace("here . ", "").replace("unused .", "").to_string(),
            27 => "depth .".into(),
            28 => format!("{} emit space {} spaces cr", 65 + b, b),
            29 => format!("{} allot", b),
            30 => "align".into(),
            31 => format!(": t{} 2 activate begin {} v0task +! pause again ;", id, b).replace("v0task", &v).replace("base @ ! 10 base", "pad"),
            32 => "pause!".into(),
            33 if !RTFVM => "mtime . xtime-free".replace(" xtime-free", ""),
            34 => format!("s\" is compile-only {}", a),
            35 => format!("char {} .", (b'a' + (b as u8)) as char),
            36 => format!("bl word abc{} count type", a),
            37 => format!("{} 0 do {} i", b, a),
            38 => format!("' {} handler!", if rng.chance(1, 2) { "hnd" } else { "noop" }),
            39 => "0 handler!".into(),
            45 | 46 => format!("{} close-file . {} close-file .", rng.range(0, 7), rng.range(1, 5)),
            40 | 47..=49 => format!(": io{} s\" @/f{}\" r/w create-file . dup . >r s\" line {}\" r@ write-file . r@ file-position . . {} ; io{}", id, b, a, if rng.chance(2, 3) { "r> close-file ." } else { "r> ." }, id),
            41 => format!(": rd{} s\" @/f{}\" r/o open-file 0= if dup . >r pad 20 r@ read-file . . r@ file-size . . drop pad 20 + 4 r@ read-file . . r> close-file . else drop .\" none\" then ; rd{}", id, b, id),
            42 => "include @/inc.fth".into(),
            43 => format!("{} : lab{} [ {} ] goto 5 . [ {} ] label {} . ; lab{}", if b < 7 { "0labels" } else { "" }, id, b, b, a, id),
            44 => "adv".into(),
            _ => "[ ] compiling? 0= 1+ . ] compiling? 0= 1+ . [ nothing".to_string(),
        };
        p.push(l);
    }
    p
}

struct Run {
    m: M,
    dir: String,
    next: usize,
}
fn adv(vm: &mut crate::vmx::VM) {
    crate::vmx::Clock::tick1(vm);
}
impl Run {
    fn new(dir: &str) -> Run {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(format!("{}/inc.fth", dir), ": fromfile 5 . ;\nfromfile\n\\ done\n").unwrap();
        let mut m = M::hooked();
        m.vm.add_primitive("adv", adv);
        m.line(": hnd -777 . ; : pause! pause ;");
        Run { m, dir: dir.to_string(), next: 0 }
    }
    fn norm(&self, v: i64) -> u64 {
        let (a, b) = (self.m.start() as i64, self.m.limit() as i64);
        if v >= a && v <= b + 64 {
            mix(1 ^ ((v - a) as u64) << 8)
        } else {
            mix(v as u64)
        }
    }
    /// Run the next line; digest of everything afterwards.
    fn step(&mut self, p: &[String]) -> (u64, String) {
        let l = p[self.next].replace("@/", &format!("{}/", self.dir));
        self.next += 1;
        let r = self.m.line_steps(&l, 30_000);
        let e = r.unwrap_or(-9999);
        let s = self.m.s();
        let f = self.m.fbits();
        let out = self.m.out().replace(&self.dir, "@");
        let mut h = mix(e as u64);
        for v in &s {
            h = mix(h ^ self.norm(*v));
        }
        h = mix(h ^ 77);
        for v in &f {
            h = mix(h ^ v);
        }
        h = mix(h ^ hash_str(&out));
        if e != 0 {
            self.m.recover();
        }
        h = mix(h ^ (self.m.here() - self.m.start()) as u64);
        h = mix(h ^ self.m.vm.wordlist().len() as u64);
        h = mix(h ^ self.m.vm.state().is_compiling as u64);
        h = mix(h ^ self.m.vm.current_task() as u64);
        for t in 0..NUM_TASKS {
            h = mix(h ^ self.m.vm.awake(t) as u64);
        }
        let rs: Vec<i64> = self.m.vm.r_stack().as_slice().iter().map(|x| *x as i64).collect();
        for v in rs {
            h = mix(h ^ self.norm(v));
        }
        if !RTFVM {
            h = mix(h ^ self.m.vm.system_time_ns());
        }
        (h, format!("`{}` -> error {} stack {:?} output {:?} task {}", l, e, s, out, self.m.vm.current_task()))
    }
    /// The whole data space and where it starts.
    fn image(&self) -> (Vec<u8>, usize) {
        (self.m.image(), self.m.start())
    }
}
fn solo(p: &[String], dir: &str) -> (Vec<(u64, String)>, (Vec<u8>, usize)) {
    let mut r = Run::new(dir);
    let d: Vec<_> = (0..p.len()).map(|_| r.step(p)).collect();
    let i = r.image();
    (d, i)
}
/// Cells are equal, as they are or relative to the data space; what a later store left of an address
/// still shows the high bytes of the address.
fn same_image(what: &str, p: &[String], a: &(Vec<u8>, usize), b: &(Vec<u8>, usize)) -> R {
    let (sa, sb) = (a.1.to_ne_bytes(), b.1.to_ne_bytes());
    let n = a.0.len() as i64 + 64;
    for k in 0..a.0.len() / 8 {
        let (x, y) = (&a.0[k * 8..k * 8 + 8], &b.0[k * 8..k * 8 + 8]);
        if x == y {
            continue;
        }
        let cell = |z: &[u8]| i64::from_ne_bytes(z.try_into().unwrap());
        let (rx, ry) = (cell(x).wrapping_sub(a.1 as i64), cell(y).wrapping_sub(b.1 as i64));
        if rx == ry && rx >= 0 && rx <= n {
            continue;
        }
        // What is left of addresses at odd places or partly overwritten: every differing byte
        // must be the same byte of one address in both.
        let byte = |p: usize, d: u64| ((a.1 as u64 + d).to_le_bytes()[p], (b.1 as u64 + d).to_le_bytes()[p]);
        let part = (0..8).all(|i| {
            let (u, v) = (x[i], y[i]);
            u == v
                || u.wrapping_sub(sa[0]) == v.wrapping_sub(sb[0])
                || [-1i8, 0, 1].iter().any(|c| u.wrapping_sub(sa[1]) == v.wrapping_sub(sb[1]).wrapping_add(*c as u8))
                || (2..6).any(|p| [0, 65535 + 64].iter().any(|d| [0, 65535 + 64].iter().any(|e| byte(p, *d).0 == u && byte(p, *e).1 == v)))
        });
        ensure!(part, "data space of a machine depends on other machines or varies", "{}: cell {} is {:x}, alone {:x} (starts {:x}, {:x}); program {:?}", what, k, cell(y), cell(x), b.1, a.1, p);
    }
    Ok(())
}
fn same(what: &str, p: &[String], a: &[(u64, String)], b: &[(u64, String)]) -> R {
    for k in 0..a.len() {
        ensure!(a[k].0 == b[k].0, "a machine's results depend on other machines or vary", "{}, line {} of {}: {} but alone {}", what, k, p.len(), b[k].1, a[k].1);
    }
    Ok(())
}

/// A program that spends its time computing, so that machines on several threads are inside the same words at once.
fn busy(rng: &mut Rng, small: bool) -> Vec<String> {
    let mut p: Vec<String> = vec!["variable v 5 v !".into(), "3.5e fconstant fc".into(), "77 constant c".into(), "create d 64 allot".into(), ": w 3 + ;".into()];
    for k in 0..3 {
        let mut body = String::new();
        for _ in 0..3 + rng.us(5) {
            let (a, b) = (rng.range(-1000, 1000), rng.range(2, 99));
            let t = match rng.below(20) {
                0 => format!("i {} + {} /mod xor xor", a, b),
                1 => format!("i {} * {} / +", a, b),
                2 => format!("dup {} mod xor", b),
                3 => format!("dup {} lshift {} rshift xor", b % 20, b % 7),
                4 => format!("{} over > if negate else 1+ then", a),
                5 => format!("i s>f {}e f/ fc f* f>s xor", b),
                6 => format!("i {} + s>f fabs fsqrt {}e f+ f>s +", a, b),
                7 => "v @ + dup v !".into(),
                8 => "v @ i xor v !  v @ w +".into(),
                9 => "['] w execute".into(),
                10 => format!(">r {} r@ xor r> +", a),
                11 => format!("{} {} rot drop within c +", a, b),
                12 => "s\" abcdef\" swap 2 + c@ + xor".into(),
                13 => format!("{} d i 7 and cells + dup >r ! r> @ +", a),
                14 => "i 255 and d c! d c@ +".into(),
                15 => format!("2 0 do j {} * i + xor loop", b),
                16 => format!("{} swap over 2dup 2swap 2drop drop nip i + 1+ 1- invert", a),
                17 => format!("i 3 and case 0 of {} endof 1 of {} endof dup endcase +", a, b),
                18 => format!("i {} and 0= if i 3 .r i s>f 8 2 f.r then", 63),
                _ => format!("3 begin 1- dup while swap {} + swap repeat drop abs max-n and", a),
            };
            body += &t;
            body.push(' ');
        }
        p.push(format!(": st{} {} 0 do {}loop ;", k, if small { 10 } else { 400 }, body));
        p.push(format!("{} st{} .", rng.range(1, 99), k));
        p.push("0stacks".into());
    }
    for _ in 0..if small { 3 } else { 60 } {
        let (a, b) = (rng.range(-99999, 99999), rng.range(1, 999));
        p.push(match rng.below(8) {
            0 => format!("{} {} + ${:x} xor .", a, b, b),
            1 => format!("{}.{}e f.", a, b),
            2 => format!(": n{} {} ; n{} .", b % 10, a, b % 10),
            3 => format!("char {} . ' w execute drop", (b'a' + (b % 26) as u8) as char),
            4 => format!("{} . nosuch{}", a, b),
            5 => format!("create x{} {} , x{} @ .", b % 10, a, b % 10),
            6 => format!("marker mm : n{} {} ; mm", b % 10, a),
            _ => format!("{} {} /mod . . {} w .", a, b, b),
        });
        if rng.chance(1, 4) {
            p.push("0stacks".into());
        }
    }
    p
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let k = 2 + rng.us(3);
    let base = format!("{}/c24-{}", cx.scratch, std::process::id());
    let progs: Vec<Vec<String>> = (0..k)
        .map(|j| {
            let n = 10 + rng.us(if cx.small { 10 } else { 50 });
            if j == 1 && rng.chance(1, 4) {
                vec![]
            } else {
                program(&mut rng, n)
            }
        })
        .collect();
    let progs: Vec<Vec<String>> = progs.into_iter().enumerate().map(|(j, p)| if p.is_empty() && j > 0 { program(&mut Rng::new(idx), 30) } else { p }).collect();
    // Near copies: what a machine keeps for one program would nearly do for the other.
    let near = rng.chance(1, 2);
    let mut progs = progs;
    for j in 1..k {
        if near && rng.chance(3, 4) {
            if j == 1 {
                // words are used again and again
                let ws: Vec<String> = progs[0].iter().filter(|l| l.starts_with(": w")).map(|l| l[2..].split(' ').next().unwrap().to_string()).collect();
                for _ in 0..if ws.is_empty() { 0 } else { rng.us(25) } {
                    let at = rng.us(progs[0].len() + 1);
                    let w = rng.pick(&ws).clone();
                    if progs[0][..at].iter().any(|l| l.starts_with(&format!(": {} ", w))) {
                        progs[0].insert(at, w);
                    }
                }
            }
            let (n, p0) = (progs[0].len(), progs[0].clone());
            let mut p = vec![];
            for l in &p0 {
                match rng.below(16) {
                    0 => {}
                    1 => p.extend([l.clone(), l.clone()]),
                    2 => p.extend([l.clone(), rng.pick(&p0).clone()]),
                    3 => p.push(rng.pick(&progs[j]).clone()),
                    // the word means something else here
                    4 | 5 if l.starts_with(": w") => {
                        let w = l[2..].split(' ').next().unwrap().to_string();
                        p.extend([l.clone(), format!(": {} {} . ;", w, rng.range(1000, 1020)), w.clone(), w]);
                    }
                    _ => p.push(l.clone()),
                }
            }
            p.truncate(n + 20);
            progs[j] = p;
            cx.count("machines running nearly the same program", 1);
        }
    }
    // All runs of one program use the same paths, one after the other.
    let dir = |j: usize| format!("{}{:02}", base, j);
    let alone: Vec<_> = (0..k).map(|j| solo(&progs[j], &dir(j))).collect();
    // again
    let j0 = rng.us(k);
    let again = solo(&progs[j0], &dir(j0));
    same("run again", &progs[j0], &alone[j0].0, &again.0)?;
    same_image("run again", &progs[j0], &alone[j0].1, &again.1)?;
    // all of them together, lines in random order
    for round in 0..2 {
        let mut runs: Vec<Option<Run>> = (0..k).map(|j| if rng.chance(1, 2) { Some(Run::new(&dir(j))) } else { None }).collect();
        let mut got: Vec<Vec<(u64, String)>> = vec![vec![]; k];
        let mut open: Vec<usize> = (0..k).collect();
        let burst = 1 + rng.us(4);
        let mut switches = 0;
        while !open.is_empty() {
            let j = *rng.pick(&open);
            switches += 1;
            // machines come into being while others are in use
            if runs[j].is_none() {
                runs[j] = Some(Run::new(&dir(j)));
            }
            if rng.chance(1, 12) {
                // passers-by
                let mut x = M::hooked();
                x.line(": w1 9 . ; variable v1 77 v1 ! 1 2 3 hex 5 allot");
                x.line("nosuch");
                if rng.chance(1, 2) {
                    drop(x);
                } else {
                    let y = M::new();
                    drop(x);
                    drop(y);
                }
                cx.count("machines created and dropped in between", 1);
            }
            let r = runs[j].as_mut().unwrap();
            for _ in 0..burst {
                if r.next < progs[j].len() {
                    let d = r.step(&progs[j]);
                    got[j].push(d);
                }
            }
            if r.next >= progs[j].len() {
                let img = r.image();
                same_image("interleaved", &progs[j], &alone[j].1, &img)?;
                open.retain(|x| *x != j);
                if rng.chance(1, 2) {
                    runs[j] = None; // dropped while others go on
                }
            }
        }
        for j in 0..k {
            same("interleaved", &progs[j], &alone[j].0, &got[j])?;
        }
        cx.count("switches between machines", switches);
    }
    // on threads of their own
    if !cx.small || idx % 4 == 0 {
        let hs: Vec<_> = (0..k)
            .map(|j| {
                let (p, d) = (progs[j].clone(), dir(j));
                std::thread::spawn(move || {
                    let r = solo(&p, &d);
                    hooks::take();
                    r
                })
            })
            .collect();
        for (j, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(got) => {
                    same("on another thread", &progs[j], &alone[j].0, &got.0)?;
                    same_image("on another thread", &progs[j], &alone[j].1, &got.1)?;
                }
                Err(_) => return fail("machine panics on another thread", format!("program {}", j)),
            }
            cx.count("thread runs", 1);
        }
    }
    // inside the same words at the same moment
    if !cx.small || idx % 4 == 1 {
        let n = 3;
        let busy: Vec<Vec<String>> = (0..n).map(|_| busy(&mut rng, cx.small)).collect();
        let want: Vec<_> = (0..n).map(|j| solo(&busy[j], &dir(j))).collect();
        let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|j| {
                let (p, d, g) = (busy[j].clone(), dir(j), gate.clone());
                std::thread::spawn(move || {
                    let mut r = Run::new(&d);
                    g.wait();
                    let got: Vec<_> = (0..p.len()).map(|_| r.step(&p)).collect();
                    let img = r.image();
                    hooks::take();
                    (got, img)
                })
            })
            .collect();
        for (j, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(got) => {
                    same("together with others on other threads", &busy[j], &want[j].0, &got.0)?;
                    same_image("together with others on other threads", &busy[j], &want[j].1, &got.1)?;
                }
                Err(_) => return fail("machine panics on another thread", format!("program {:?}", busy[j])),
            }
            cx.count("computations side by side", 1);
        }
        for j in 0..n {
            let _ = std::fs::remove_dir_all(dir(j));
        }
    }
    for j in 0..k {
        let _ = std::fs::remove_dir_all(dir(j));
        cx.count("lines digested", progs[j].len() as u64 * 4);
        cx.distinct(alone[j].0.last().map_or(0, |x| x.0));
    }
    cx.count("machines", (k * 4) as u64);
    cx.count("lines ending with an exception", alone.iter().flat_map(|a| &a.0).filter(|x| x.1.contains("error -")).count() as u64);
    cx.sample(|| progs[0].join(" | "));
    hooks::take();
    Ok(())
}
