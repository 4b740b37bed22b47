//! C03: stack faults. Programs with a known excursion of each stack; the oracle tracks depths and
//! which slots beyond the boundaries were written.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;

#[derive(Clone, Default, Debug)]
struct Depth {
    d: i64,
    hi: bool,
    lo: bool,
}
impl Depth {
    fn push(&mut self, n: i64) {
        for _ in 0..n {
            if self.d >= 64 {
                self.hi = true
            }
            if self.d < 0 {
                self.lo = true
            }
            self.d += 1;
        }
    }
    fn pop(&mut self, n: i64) {
        self.d -= n;
    }
    /// Codes the boundary checks may report.
    fn over(&self) -> bool {
        self.hi || self.d > 64
    }
    fn under(&self) -> bool {
        self.lo || self.d < 0
    }
    fn bad(&self) -> bool {
        self.over() || self.under()
    }
}

#[derive(Default, Clone, Debug)]
struct Model {
    s: Depth,
    f: Depth,
    r: Depth,
}
impl Model {
    fn bad(&self) -> bool {
        self.s.bad() || self.f.bad() || self.r.bad()
    }
    fn codes(&self) -> Vec<i64> {
        let mut v = vec![];
        if self.s.over() {
            v.push(-3)
        }
        if self.s.under() {
            v.push(-4)
        }
        if self.r.over() {
            v.push(-5)
        }
        if self.r.under() {
            v.push(-6)
        }
        if self.f.over() {
            v.push(-44)
        }
        if self.f.under() {
            v.push(-45)
        }
        v
    }
}

/// One word and its effect on the depths. Words other than plain pops are only used where they read
/// no slot below the bottom.
fn step(rng: &mut Rng, m: &mut Model, tgt: i64, which: usize, compiled: bool, salt: &mut i64) -> Option<String> {
    *salt += 1;
    let v = 1_000_000_007i64.wrapping_mul(*salt) % 100_000_000_000 + 7;
    let d = match which {
        0 => m.s.d,
        1 => m.f.d,
        _ => m.r.d,
    };
    let up = d < tgt || (d == tgt && rng.chance(1, 2));
    Some(match (which, up) {
        (0, true) => {
            let k = rng.us(9);
            let d = m.s.d;
            match k {
                1 if d >= 1 => { m.s.push(1); "dup".into() }
                2 if d >= 2 => { m.s.push(1); "over".into() }
                3 if d >= 2 => { m.s.push(2); "2dup".into() }
                4 if d >= 4 => { m.s.push(2); "2over".into() }
                5 => { m.s.push(1); "here".into() }
                6 => { m.s.push(1); "base".into() }
                7 if d >= 3 => "rot".into(),
                8 => { m.s.push(1); "true".into() }
                _ => { m.s.push(1); v.to_string() }
            }
        }
        (0, false) => {
            let d = m.s.d;
            match rng.us(7) {
                1 => { m.s.pop(2); "2drop".into() }
                2 if d >= 2 => { m.s.pop(1); "xor".into() }
                3 if d >= 2 => { m.s.pop(1); "nip".into() }
                4 if d >= 3 => { m.s.pop(2); "within".into() }
                5 if d >= 1 => { m.s.pop(1); "ev".into() }
                6 if compiled && d >= 1 && m.r.d < 60 => { m.s.pop(1); m.r.push(1); ">r".into() }
                _ => { m.s.pop(1); "drop".into() }
            }
        }
        (1, true) => {
            let d = m.f.d;
            match rng.us(5) {
                1 if d >= 1 => { m.f.push(1); "fdup".into() }
                2 if d >= 2 => { m.f.push(1); "fover".into() }
                3 => { m.f.push(1); "pi".into() }
                _ => { m.f.push(1); format!("{}e", v) }
            }
        }
        (1, false) => {
            let d = m.f.d;
            match rng.us(4) {
                1 if d >= 2 => { m.f.pop(1); "f+".into() }
                2 if d >= 2 => { m.f.pop(1); "fnip".into() }
                _ => { m.f.pop(1); "fdrop".into() }
            }
        }
        (_, true) => {
            if rng.chance(1, 3) && m.s.d + 2 <= 62 {
                m.s.push(2);
                m.s.pop(2);
                m.r.push(2);
                format!("{} {} 2>r", v, v + 1)
            } else if m.s.d <= 62 {
                m.s.push(1);
                m.s.pop(1);
                m.r.push(1);
                format!("{} >r", v)
            } else {
                return None;
            }
        }
        (_, false) => {
            if m.s.d > 60 || m.r.d <= 1 {
                return None;
            }
            m.s.push(1);
            m.s.pop(1);
            m.r.pop(1);
            "r> drop".into()
        }
    })
}

fn check(e: i64, m: &Model, src: &str) -> R {
    let want = m.codes();
    if want.is_empty() {
        ensure!(e == 0, &format!("exception {} within capacity", e), "`{}` raised {} although the model stays within 0..64: {:?}", src, e, m);
    } else {
        ensure!(e != 0, &format!("no exception for {:?}", want), "`{}` raised nothing; model {:?}", src, m);
        ensure!(want.contains(&e), &format!("exception {} instead of {:?}", e, want), "`{}` raised {}; model {:?}", src, e, m);
    }
    Ok(())
}

/// The recovered machine is empty and every stack can be filled exactly.
fn full(m: &mut M, rng: &mut Rng) -> R {
    ensure!(m.s().is_empty() && m.fbits().is_empty() && m.rlen() == 0, "stacks not empty after recovery", "data {:?} float {:?} return {}", m.s(), m.f(), m.rlen());
    match rng.below(4) {
        0 => {
            let src: String = (0..64).map(|i| format!("{} ", i + 5)).collect();
            let e = m.line(&src);
            let want: Vec<i64> = (0..64).map(|i| i + 5).collect();
            ensure!(e == 0 && m.s() == want, "capacity lost after recovery", "64 literals: error {} stack {:?}", e, m.s());
            let src: String = "drop ".repeat(64);
            let e = m.line(&src);
            ensure!(e == 0 && m.s().is_empty(), "capacity lost after recovery", "64 drops: error {} stack {:?}", e, m.s());
        }
        1 => {
            let src: String = (0..64).map(|i| format!("{}e ", i + 5)).collect();
            let e = m.line(&src);
            ensure!(e == 0 && m.f().len() == 64, "capacity lost after recovery", "64 floats: error {} stack {:?}", e, m.f());
            let e = m.line(&"fdrop ".repeat(64));
            ensure!(e == 0 && m.f().is_empty(), "capacity lost after recovery", "64 fdrops: error {} stack {:?}", e, m.f());
        }
        2 => {
            let e = m.line("63 rdeep");
            ensure!(e == 0, "capacity lost after recovery", "64 nested calls: error {}", e);
        }
        _ => {
            let (mut a, mut b) = (String::new(), String::new());
            for _ in 0..64 {
                match rng.below(5) {
                    0 => { a += "if "; b = format!("then {}", b) }
                    1 => { a += "begin "; b = format!("until {}", b) }
                    2 => { a += "do "; b = format!("loop {}", b) }
                    3 => { a += "case "; b = format!("endcase {}", b) }
                    _ => { a += "if else "; b = format!("then {}", b) }
                }
            }
            let e = m.line(&format!("marker -c : deep {} {} ; -c", a, b));
            ensure!(e == 0, "64 nested structures refused", "{} {}: error {}", a, b, e);
        }
    }
    let _ = m.out();
    Ok(())
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    m.line(": rdeep dup if 1- recurse exit then drop ;");
    let mut salt = idx as i64;
    let n = if cx.small { 5 } else { 40 };
    for _ in 0..n {
        rec_begin(idx);
        hooks::take();
        let kind = rng.below(14);
        match kind {
            0..=3 => {
                // interpreted: the line stops at the first word after which a stack is bad
                let mut md = Model::default();
                let mut src = String::new();
                let which = rng.us(2);
                let peak = *rng.pick(&[-3i64, -2, -1, 1, 30, 63, 64, 64, 65, 66]);
                let total = if peak > 30 { peak as usize + 5 + rng.us(40) } else { 5 + rng.us(40) };
                let mut stopped = false;
                let mut events = 0i64;
                let mut seq = 0i64;
                for _ in 0..total {
                    let w = if rng.chance(1, 12) { 1 - which } else { which };
                    let tgt = if w == which { peak } else { 3 };
                    let t = match step(&mut rng, &mut md, tgt, w, false, &mut salt) {
                        Some(t) => t,
                        None => continue,
                    };
                    src += &t;
                    src.push(' ');
                    if t == "ev" && !stopped {
                        events += 1
                    }
                    if md.bad() {
                        stopped = true;
                    }
                    if stopped {
                        // witnesses that must not run any more
                        src += "77777 ev : zz ; 5 ev ";
                        break;
                    }
                    seq += 1;
                }
                let before = m.vm.find_("zz");
                let e = m.line(&src);
                check(e, &md, &src)?;
                let n = hooks::count() as i64;
                ensure!(n == events, "the line went on after a stack fault", "`{}`: {} events instead of {}", src, n, events);
                ensure!(m.vm.find_("zz") == before, "the line went on after a stack fault", "`{}` defined zz", src);
                if e != 0 {
                    cx.count("faulty lines", 1);
                } else {
                    ensure!(m.s().len() as i64 == md.s.d && m.f().len() as i64 == md.f.d, "wrong depth", "`{}` {:?} {:?}", src, m.s(), m.f());
                    cx.count("clean lines", 1);
                }
                cx.distinct(mix((e as u64) << 32 ^ (seq as u64) << 8 ^ which as u64 ^ mix(peak as u64)));
            }
            4..=7 => {
                // one definition with an excursion that may return before the definition ends
                let mut md = Model::default();
                md.r.d = 1;
                let which = rng.us(3);
                let mut body = String::new();
                let legs = 1 + rng.us(3);
                let mut lim = vec![];
                for _ in 0..legs {
                    let t = *rng.pick(&[0i64, 1, 10, 63, 64, 64, 65, 66, 80, 120, -1, -2, -5, -40, -64, -70, -100, -120]);
                    let t = if which == 2 { t.max(1) } else { t };
                    lim.push(t);
                    let mut guard = 0;
                    loop {
                        let d = match which { 0 => md.s.d, 1 => md.f.d, _ => md.r.d };
                        if d == t || guard > 400 {
                            break;
                        }
                        guard += 1;
                        // never wander further than 120 out
                        if md.s.d.abs() > 122 || md.f.d.abs() > 122 || md.r.d > 122 {
                            break;
                        }
                        if let Some(w) = step(&mut rng, &mut md, t, which, true, &mut salt) {
                            body += &w;
                            body.push(' ');
                        }
                    }
                }
                // sometimes come back to a harmless depth
                if rng.chance(1, 2) && which < 2 {
                    let d = if which == 0 { md.s.d } else { md.f.d };
                    for _ in d..2 {
                        salt += 1;
                        if which == 0 { md.s.push(1); body += &format!("{} ", salt) } else { md.f.push(1); body += &format!("{}e ", salt) }
                    }
                    let d = if which == 0 { md.s.d } else { md.f.d };
                    for _ in 3..d {
                        if which == 0 { md.s.pop(1); body += "drop " } else { md.f.pop(1); body += "fdrop " }
                    }
                }
                // leave the return stack as found, without disturbing the data stack's boundaries
                while md.r.d > 1 {
                    if md.s.d < 60 {
                        md.s.push(1);
                        md.s.pop(1);
                        md.r.pop(1);
                        body += "r> drop ";
                    } else {
                        md.s.pop(1);
                        body += "drop ";
                    }
                }
                m.line("marker -t");
                let e = m.line(&format!(": t {} ; : zz mon ;", body));
                ensure!(e == 0, "a straight definition was refused", "`{}`: {}", body, e);
                let e = m.line("t zz");
                check(e, &md, &body)?;
                let tail = hooks::take().iter().filter(|x| matches!(x, Ev::S { .. })).count();
                ensure!(tail == (e == 0) as usize, "the line went on after a stack fault", "`{}` error {}", body, e);
                m.recover();
                m.line("-t");
                cx.count(if e == 0 { "clean definitions" } else { "faulty definitions" }, 1);
                cx.distinct(mix((e as u64) << 32 ^ hash_str(&format!("{:?}", lim)) ^ which as u64));
            }
            8 => {
                // nested calls
                let n = *rng.pick(&[0i64, 10, 61, 62, 63, 64, 65, 70, 100, 120]);
                let e = m.line(&format!("{} rdeep", n));
                let want = if n <= 63 { 0 } else { -5 };
                ensure!(e == want, &format!("nested calls: {} instead of {}", e, want), "{} nested calls", n + 1);
                cx.distinct(mix(n as u64 ^ 0x88));
            }
            9 => {
                // nested counted loops: one return address and three items for each
                let loops = *rng.pick(&[1usize, 5, 20, 21, 22, 30]);
                let src = format!("marker -t : t {} nothing {} ; t", "1 0 do ".repeat(loops), "loop ".repeat(loops));
                let e = m.line(&src);
                let want = if 1 + 3 * loops > 64 { -5 } else { 0 };
                ensure!(e == want, &format!("nested loops: {} instead of {}", e, want), "{} nested loops", loops);
                m.recover();
                m.line("-t");
                cx.distinct(mix(loops as u64 ^ 0x99));
            }
            10 => {
                // taking the return address away
                let k = 1 + rng.us(3);
                let (src, put) = match rng.below(4) {
                    0 => (": t r> drop ;".to_string(), false),
                    1 => (format!(": t {} ;", "r> drop ".repeat(k)), false),
                    2 => (": t unloop ;".to_string(), false),
                    _ => (": t r> r> drop >r ;".to_string(), true),
                };
                m.line("marker -t");
                let e = m.line(&src);
                ensure!(e == 0, "a straight definition was refused", "{}: {}", src, e);
                let e = m.line("t 5 ev");
                ensure!(e == -6, &format!("return stack underflow reported as {}", e), "`{}` (put back: {})", src, put);
                ensure!(hooks::count() == 0, "the line went on after a stack fault", "{}", src);
                m.recover();
                m.line("-t");
                cx.distinct(hash_str(&src));
            }
            11 => {
                // what lies beyond the boundary happens to be some value known to the system
                let fl = rng.chance(1, 3);
                let k = rng.range(1, 40);
                let vals: Vec<String> = (0..k)
                    .map(|_| match rng.below(4) {
                        0 | 1 => if fl { "1.234567890e".to_string() } else { "305419896".to_string() },
                        _ => if fl { format!("{}e", rng.cell() % 1_000_000) } else { rng.cell().to_string() },
                    })
                    .collect();
                let fill = if fl { "64 0 do 7e loop" } else { "64 0 do i loop" };
                let def = rng.chance(1, 2);
                m.line("marker -t");
                let e = m.line(&format!(": t {} {} ; : zz mon ;", fill, if def { vals.join(" ") } else { String::new() }));
                ensure!(e == 0, "a straight definition was refused", "`{}`", vals.join(" "));
                hooks::take();
                let src = if def { "t zz".to_string() } else { format!("t {} zz", vals.join(" ")) };
                let e = m.line(&src);
                let want = if fl { -44 } else { -3 };
                ensure!(e == want, &format!("exception {} instead of {}", e, want), "64 items and then `{}` raised {}", vals.join(" "), e);
                ensure!(hooks::count() == 0, "the line went on after a stack fault", "64 items and then `{}`", vals.join(" "));
                m.recover();
                m.line("-t");
                cx.count("values that may equal a guard", 1);
            }
            12 => {
                // exactly full or just deep enough: words which need no more room than they leave
                let fl = rng.chance(1, 4);
                let (w, need) = if fl {
                    *rng.pick(&[("fswap", 2), ("frot", 3), ("fabs", 1), ("fnegate", 1), ("fsqrt", 1), ("floor", 1), ("fround", 1), ("fceil", 1), ("f+", 2), ("f-", 2), ("f*", 2), ("f/", 2), ("fmin", 2), ("fmax", 2), ("fnip", 2), ("fdrop", 1), ("f0<", 1), ("f0=", 1), ("f<", 2), ("f~", 3), ("f>s", 1), ("fsin", 1), ("fcos", 1), ("fatan", 1), ("fatan2", 2), ("f**", 2)])
                } else {
                    *rng.pick(&[("swap", 2), ("rot", 3), ("-rot", 3), ("2swap", 4), ("1+", 1), ("1-", 1), ("negate", 1), ("abs", 1), ("invert", 1), ("0=", 1), ("0<", 1), ("0>", 1), ("0<>", 1), ("cells", 1), ("cell+", 1), ("char+", 1), ("aligned", 1), ("+", 2), ("-", 2), ("*", 2), ("/", 2), ("mod", 2), ("/mod", 2), ("and", 2), ("or", 2), ("xor", 2), ("=", 2), ("<", 2), (">", 2), ("<>", 2), ("lshift", 2), ("rshift", 2), ("nip", 2), ("drop", 1), ("2drop", 2), ("within", 3), ("s>f", 1), ("emit", 1)])
                };
                let n = *rng.pick(&[64i64, 64, 64, 63, need, need + 1]);
                let fill: String = (0..n).map(|i| if fl { format!("{}e ", i + 2) } else { format!("{} ", i + 2) }).collect();
                m.line("marker -t");
                let def = rng.chance(1, 2);
                let src = if def { format!(": t {} {} ; t", fill, w) } else { format!("{} {}", fill, w) };
                let e = m.line(&src);
                let len = if fl { m.f().len() } else { m.s().len() } as i64;
                ensure!(e == 0, &format!("exception {} within capacity", e), "{} items and then {} raised {}", n, w, e);
                ensure!(n - len >= 0 && n - len <= need, "wrong depth", "{} items and then {} leave {}", n, w, len);
                let _ = m.out();
                m.recover();
                m.line("-t");
                cx.count("words on full stacks", 1);
                cx.distinct(mix(hash_str(w) ^ n as u64));
            }
            _ => {
                // control-flow stack
                let k = *rng.pick(&[1usize, 63, 64, 65, 66, 70, 100, 126]);
                let mut opens = String::new();
                for _ in 0..k {
                    opens += rng.pick(&["if ", "begin ", "do ", "case ", "?do "]);
                }
                m.line(": cb postpone begin ; immediate : cbs 0 do postpone begin loop ; : ca postpone again ; immediate");
                let (l, want) = match rng.below(8) {
                    0..=2 => (format!(": t {}", opens), if k > 64 { -22 } else { 0 }),
                    // items pushed while interpreting
                    3 => ("cb ".repeat(k), if k > 64 { -22 } else { 0 }),
                    4 => (format!("{} cbs", k), if k > 64 { -22 } else { 0 }),
                    5 => (format!(": t {} [ {} cbs ]", opens, 5), if k > 59 { -22 } else { 0 }),
                    // more taken than put
                    6 => (format!(": t {} {}", "cb ".repeat(k), "again ".repeat(k + rng.us(2))), if k > 64 { -22 } else { 0 }),
                    _ => (format!("{} {}", "cb ".repeat(k), "ca ".repeat(k + rng.us(2))), if k > 64 { -22 } else { 0 }),
                };
                let want = if want == 0 && l.matches("again ").count().max(l.matches("ca ").count()) > k { -22 } else { want };
                let e = m.line(&l);
                ensure!(e == want, &format!("control stack: {} instead of {}", e, want), "`{}`", l.chars().take(3000).collect::<String>());
                m.recover();
                cx.distinct(mix(k as u64 ^ 0x77));
            }
        }
        m.recover();
        full(&mut m, &mut rng)?;
        m.recover();
        cx.count("programs", 1);
    }
    Ok(())
}
