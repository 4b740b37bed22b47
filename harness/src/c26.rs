//! C26: the same straight-line program interpreted, compiled, split over lines and definitions,
//! executed through tokens and single-stepped.
use crate::ensure;
use crate::hooks;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

/// (words, data items needed, float items needed, growth of the data stack at most, of the float stack)
const T: &[(&str, usize, usize, usize, usize)] = &[
    ("dup", 1, 0, 1, 0), ("drop", 1, 0, 0, 0), ("swap", 2, 0, 0, 0), ("over", 2, 0, 1, 0), ("nip", 2, 0, 0, 0), ("tuck", 2, 0, 1, 0),
    ("rot", 3, 0, 0, 0), ("-rot", 3, 0, 0, 0), ("2dup", 2, 0, 2, 0), ("2drop", 2, 0, 0, 0), ("2swap", 4, 0, 0, 0), ("2over", 4, 0, 2, 0),
    ("depth", 0, 0, 1, 0), ("?dup", 1, 0, 2, 0), ("noop", 0, 0, 0, 0),
    ("+", 2, 0, 0, 0), ("-", 2, 0, 0, 0), ("*", 2, 0, 0, 0), ("/", 2, 0, 0, 0), ("mod", 2, 0, 0, 0), ("/mod", 2, 0, 0, 0), 
    ("and", 2, 0, 0, 0), ("or", 2, 0, 0, 0), ("xor", 2, 0, 0, 0), ("invert", 1, 0, 0, 0), ("negate", 1, 0, 0, 0), ("abs", 1, 0, 0, 0),
    ("1+", 1, 0, 0, 0), ("1-", 1, 0, 0, 0), ("2*", 1, 0, 1, 0), ("2/", 1, 0, 1, 0), ("lshift", 2, 0, 0, 0), ("rshift", 2, 0, 0, 0),
    ("=", 2, 0, 0, 0), ("<>", 2, 0, 0, 0), ("<", 2, 0, 0, 0), (">", 2, 0, 0, 0), ("<=", 2, 0, 0, 0), (">=", 2, 0, 0, 0),
    ("0=", 1, 0, 0, 0), ("not", 1, 0, 0, 0), ("0<", 1, 0, 0, 0), ("0>", 1, 0, 0, 0), ("0<>", 1, 0, 0, 0), ("max", 2, 0, 2, 0), ("min", 2, 0, 2, 0), ("within", 3, 0, 2, 0),
    ("cell+", 1, 0, 0, 0), ("cells", 1, 0, 0, 0), ("char+", 1, 0, 0, 0), ("chars", 1, 0, 0, 0), ("aligned", 1, 0, 0, 0), ("faligned", 1, 0, 0, 0),
    ("true", 0, 0, 1, 0), ("false", 0, 0, 1, 0), ("bl", 0, 0, 1, 0), ("pick", 1, 0, 0, 0),
    ("fdup", 0, 1, 0, 1), ("fdrop", 0, 1, 0, 0), ("fswap", 0, 2, 0, 0), ("fnip", 0, 2, 0, 0), ("fover", 0, 2, 0, 1), ("frot", 0, 3, 0, 0),
    ("f+", 0, 2, 0, 0), ("f-", 0, 2, 0, 0), ("f*", 0, 2, 0, 0), ("f/", 0, 2, 0, 0), ("f**", 0, 2, 0, 0), ("fabs", 0, 1, 0, 0), ("fnegate", 0, 1, 0, 0), ("fsqrt", 0, 1, 0, 0),
    ("fsin", 0, 1, 0, 0), ("fcos", 0, 1, 0, 0), ("ftan", 0, 1, 0, 0), ("fatan2", 0, 2, 0, 0), ("fsincos", 0, 1, 0, 1), ("floor", 0, 1, 0, 0), ("fround", 0, 1, 0, 0), ("fceil", 0, 1, 0, 0),
    ("fmin", 0, 2, 0, 0), ("fmax", 0, 2, 0, 0), ("f<", 0, 2, 1, 0), ("f>", 0, 2, 1, 0), ("f0<", 0, 1, 1, 0), ("f0=", 0, 1, 1, 0), ("f~", 0, 3, 1, 0), ("f>s", 0, 1, 1, 0), ("s>f", 1, 0, 0, 1), ("pi", 0, 0, 0, 1),
    ("rpm", 0, 1, 0, 0), ("deg", 0, 1, 0, 0), ("um", 0, 1, 0, 0),
    (".", 1, 0, 1, 0), ("h.", 1, 0, 3, 0), ("space", 0, 0, 1, 0), ("cr", 0, 0, 1, 0), ("emit", 1, 0, 0, 0), ("f.", 0, 1, 2, 0), (".s", 0, 0, 0, 0), ("hex", 0, 0, 2, 0), ("decimal", 0, 0, 2, 0),
    ("?", 1, 0, 1, 0), ("@", 1, 0, 0, 0), ("c@", 1, 0, 0, 0), ("f@", 1, 0, 0, 1), ("!", 2, 0, 0, 0), ("c!", 2, 0, 0, 0),
    ("buf 24 + @", 0, 0, 2, 0), ("buf 40 + !", 1, 0, 2, 0), ("buf 57 + c@", 0, 0, 2, 0), ("buf 57 + c!", 1, 0, 2, 0), ("buf 64 + f@", 0, 0, 2, 1), ("buf 72 + f!", 0, 1, 2, 0),
    ("buf 32 + +!", 1, 0, 5, 0), ("buf 80 + 2@", 0, 0, 5, 0), ("buf 96 + 2!", 2, 0, 4, 0), ("buf 112 + on", 0, 0, 4, 0), ("buf 112 + off", 0, 0, 4, 0), ("buf 3 + @", 0, 0, 2, 0), ("buf 11 + !", 1, 0, 2, 0),
    ("buf buf 9 + 50 move", 0, 0, 4, 0), ("buf 20 + buf 7 63 fill", 0, 0, 7, 0), ("buf 130 + 9 rot fill", 1, 0, 7, 0), ("buf count type", 0, 0, 4, 0), ("buf 16 + 9 2 /string type", 0, 0, 6, 0),
    ("buf 1 + 4 bounds xor", 0, 0, 4, 0), ("0 buf 200 + c! buf 20 + 5 buf 200 + append", 0, 0, 8, 0), ("bell", 0, 0, 3, 0), ("w-inc", 0, 0, 4, 0), ("w-pair", 1, 0, 4, 0), ("w-does", 0, 0, 3, 0), ("w-def", 1, 0, 2, 0),
    ("w-loop", 0, 0, 4, 0), ("k7", 0, 0, 1, 0), ("fk", 0, 0, 0, 1), ("k2", 0, 0, 2, 0), ("v1 @", 0, 0, 1, 0), ("v1 !", 1, 0, 1, 0), ("me", 0, 0, 1, 0), ("compiling? drop", 0, 0, 1, 0),
    ("abort", 0, 0, 0, 0), ("w-deep", 0, 0, 2, 0), ("here drop", 0, 0, 1, 0), ("base @", 0, 0, 1, 0), ("r/w", 0, 0, 1, 0), ("on", 1, 0, 2, 0), ("nothing", 0, 0, 0, 0),
];
const SETUP: &[&str] = &[
    "create buf 256 allot variable v1",
    ": bell 7 emit ;",
    ": w-inc 1 v1 +! v1 @ . ;",
    ": w-pair dup 1+ swap 1- ;",
    ": mk create , does> @ 5 xor ; 77 mk w-does",
    "defer w-def ' 1+ ' w-def defer!",
    ": w-loop 3 0 do i . loop ;",
    "7 constant k7 2.5e fconstant fk 8 9 2constant k2",
    ": d1 k7 . ; : d2 d1 space ; : w-deep d2 d2 ;",
];

#[derive(Clone, PartialEq, Debug)]
struct State {
    err: i64,
    s: Vec<i64>,
    f: Vec<u64>,
    out: String,
    mem: Vec<u8>,
    base: i64,
}
struct Lab {
    m: M,
    buf: usize,
    v1: usize,
    base: usize,
    s0: Vec<i64>,
    f0: Vec<f64>,
    mem0: Vec<u8>,
    uid: u64,
}
impl Lab {
    /// Back to the start state; definitions stay.
    fn start(&mut self) {
        self.m.vm.reset();
        self.m.vm.clear_stacks();
        unsafe {
            std::ptr::copy_nonoverlapping(self.mem0.as_ptr(), self.buf as *mut u8, self.mem0.len());
            self.m.vm.data_space().put_isize(0, self.v1);
            self.m.vm.data_space().put_isize(10, self.base);
        }
        self.m.out();
        for v in self.s0.clone() {
            self.m.push(v);
        }
        for v in self.f0.clone() {
            self.m.fpush(v);
        }
    }
    fn state(&mut self) -> State {
        let err = self.m.err();
        let base = unsafe { self.m.vm.data_space().get_isize(self.base) as i64 };
        let mut mem = self.m.bytes(self.buf, 256);
        mem.extend(self.m.bytes(self.v1, 8));
        let st = State { err, s: self.m.s(), f: self.m.fbits(), out: self.m.out(), mem, base };
        if err != 0 {
            self.m.recover();
        }
        st
    }
    fn name(&mut self) -> String {
        self.uid += 1;
        format!("x#{}", self.uid)
    }
    /// Numbers are read in base ten while compiling, whatever the last run left.
    fn ten(&mut self) {
        unsafe { self.m.vm.data_space().put_isize(10, self.base) };
    }
    fn def(&mut self, body: &str) -> Result<String, Fail> {
        self.ten();
        let n = self.name();
        let e = self.m.line(&format!(": {} {} ;", n, body));
        ensure!(e == 0, "straight-line code cannot be compiled", "`{}` raised {}", body, e);
        Ok(n)
    }
    /// A random nest of definitions for a part of the program; returns the call.
    fn nest(&mut self, rng: &mut Rng, toks: &[String], depth: u32) -> Result<String, Fail> {
        if toks.len() <= 1 || depth > 5 || rng.chance(1, 5) {
            let t = toks.join(" ");
            if depth == 0 || rng.chance(1, 2) {
                return self.def(&t);
            }
            return Ok(t);
        }
        let k = 1 + rng.us(toks.len() - 1);
        let a = self.nest(rng, &toks[..k], depth + 1)?;
        let b = self.nest(rng, &toks[k..], depth + 1)?;
        let single = |x: &str| x.starts_with("x#") && !x.contains(' ');
        let part = |rng: &mut Rng, me: &mut Lab, x: String| -> Result<String, Fail> {
            if !single(&x) {
                return Ok(x);
            }
            Ok(match rng.below(7) {
                0 => format!("['] {} execute", x),
                1 => format!("true if {} else 1 2 3 abort then", x),
                2 => {
                    // through a deferred word
                    let d = me.name();
                    let e = me.m.line(&format!("defer {} ' {} ' {} defer!", d, x, d));
                    ensure!(e == 0, "straight-line code cannot be compiled", "defer raised {}", e);
                    d
                }
                3 => {
                    // as the action of a does> child
                    let (mk, d) = (me.name(), me.name());
                    let e = me.m.line(&format!(": {} create does> drop {} ; {} {}", mk, x, mk, d));
                    ensure!(e == 0, "straight-line code cannot be compiled", "does> raised {}", e);
                    d
                }
                4 => {
                    // appended by an immediate word
                    let d = me.name();
                    let e = me.m.line(&format!(": {} postpone {} ; immediate", d, x));
                    ensure!(e == 0, "straight-line code cannot be compiled", "postpone raised {}", e);
                    d
                }
                _ => x,
            })
        };
        let a = part(rng, self, a)?;
        let b = part(rng, self, b)?;
        let t = format!("{} {}", a, b);
        if depth == 0 || rng.chance(2, 3) {
            self.def(&t)
        } else {
            Ok(t)
        }
    }
}
fn lab() -> Result<Lab, Fail> {
    let mut m = M::hooked();
    for l in SETUP {
        let e = m.line(l);
        ensure!(e == 0, "setup failed", "`{}` {}", l, e);
    }
    let buf = m.val("buf")? as usize;
    let v1 = m.val("v1")? as usize;
    let base = m.val("base")? as usize;
    Ok(Lab { m, buf, v1, base, s0: vec![], f0: vec![], mem0: vec![], uid: 0 })
}
pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut lab = lab()?;
    let rounds = if cx.small { 4 } else { 14 };
    for _ in 0..rounds {
        if lab.m.limit() - lab.m.here() < 40000 {
            lab = self::lab()?;
        }
        let buf = lab.buf;
        lab.mem0 = (0..256).map(|_| rng.below(256) as u8).collect();
        lab.mem0[0] = rng.below(40) as u8;
        for b in lab.mem0[1..60].iter_mut() {
            *b = b'a' + *b % 26; // printable
        }
        lab.s0 = (0..rng.us(10)).map(|_| if rng.chance(1, 6) { (buf + rng.us(250)) as i64 } else { rng.cell() }).collect();
        lab.f0 = (0..rng.us(8)).map(|_| if rng.chance(1, 2) { rng.tame() } else { rng.f64() }).collect();
        // Grow the program while interpreting it line by line.
        lab.start();
        let mut toks: Vec<String> = vec![];
        let most = if rng.chance(1, 4) { 50 } else { 20 };
        let n = 1 + rng.us(most);
        let mut err = 0;
        let mut hexed = false;
        let mut big = 0;
        let mut lits: Vec<String> = vec![];
        for _ in 0..n {
            let (s, f) = (lab.m.s().len(), lab.m.f().len());
            let t = match rng.below(6) {
                0 if s < 50 && !hexed => rng.cell().to_string(),
                0 if s < 50 && hexed => format!("${:x}", rng.below(1 << 40)),
                1 if f < 50 && !hexed => {
                    let t = match rng.below(9) {
                        0 => rng.pick(&["-0e", "0e", "-0.0e", "0.5e", "-0.5e", "1e308", "1e-308", "-1e-320", "1e400", "0.1e", "-1e-400", "+3e+2", "4.9e-324"]).to_string(),
                        1 => format!("{}.{}e", rng.range(-99, 99), rng.below(100_000)),
                        2 => format!("{}.{}e{}", rng.range(-99, 99), rng.below(1000), rng.range(-320, 320)),
                        3 => format!("{}e0", rng.below(1 << 62)),
                        _ => format!("{}e", rng.range(-999, 999)),
                    };
                    lits.push(t.clone());
                    t
                }
                2 if s < 50 && rng.chance(1, 4) => {
                    let v = rng.cell();
                    let t = match rng.below(4) {
                        0 => format!("'{}'", (33 + rng.below(94) as u8) as char),
                        1 => format!("${}{:x}", if v < 0 { "-" } else { "" }, v.unsigned_abs()),
                        2 => format!("#{}", v),
                        _ => format!("%{:b}", v.unsigned_abs()),
                    };
                    lits.push(t.clone());
                    t
                }
                2 if s < 50 => format!("buf {} +", rng.us(9)),
                _ => {
                    let (t, ns, nf, gs, gf) = *rng.pick(T);
                    if s < ns || f < nf || s + gs > 55 || f + gf > 55 {
                        continue;
                    }
                    if t == "abort" && !rng.chance(1, 20) {
                        continue;
                    }
                    if t == "pick" {
                        let top = lab.m.s()[s - 1];
                        if top < 0 || top as usize >= s - 1 {
                            continue;
                        }
                    }
                    // stores to random addresses mostly raise; near the variables of the system they harm
                    if ["!", "c!", "on", "@", "c@", "f@", "?"].contains(&t) {
                        let a = lab.m.s()[s - 1] as usize;
                        let inside = a > lab.m.start().wrapping_sub(64) && a < lab.m.limit() + 64;
                        let mine = a >= buf && a.wrapping_add(8) <= buf + 256;
                        if inside && !mine || (!mine && !rng.chance(1, 8)) {
                            continue;
                        }
                    }
                    if ["/", "mod", "/mod", "*/", "*/mod"].contains(&t) && lab.m.s()[s - 1] == 0 && !rng.chance(1, 8) {
                        continue;
                    }
                    if t == "hex" {
                        hexed = true;
                    }
                    if t == "decimal" {
                        hexed = false;
                    }
                    // the text "2.5e" or 24 means the same in no other base
                    if hexed && t.chars().any(|c| c.is_ascii_digit()) && t.contains(' ') {
                        continue;
                    }
                    if t == "f." {
                        big += 1;
                        if big > 5 {
                            continue;
                        }
                    }
                    t.to_string()
                }
            };
            let e = lab.m.line(&t);
            toks.push(t);
            if e != 0 {
                err = e;
                break;
            }
        }
        if toks.is_empty() {
            continue;
        }
        let want = lab.state();
        ensure!(want.err == err, "error changed", "{} {}", want.err, err);
        if err != 0 {
            cx.count("programs ending with an exception", 1);
            // never reached
            for t in ["1 2 3", "bell", "abort", "0 buf !"].iter().take(rng.us(5)) {
                toks.push(t.to_string());
            }
        }
        // `hex` changes how later numbers are read: when compiled, they are read before it runs. Such
        // programs have their numbers read in the base they need only when interpreted.
        let reads = toks.iter().any(|t| t == "hex" || t == "decimal");
        let src = toks.join(" ");
        let mut forms: Vec<(&str, State)> = vec![];
        // one line
        lab.start();
        lab.m.line(&src);
        forms.push(("one line", lab.state()));
        // words split over lines, one line in one string
        lab.start();
        note(&src.replace(' ', "\n"));
        lab.m.vm.set_source(&src.replace(' ', "\n"));
        lab.m.vm.evaluate_input();
        forms.push(("one word to a line", lab.state()));
        // through tokens
        let tok_src: Vec<String> = src.split(' ').map(|t| if lits.iter().any(|l| l == t) || t.parse::<i64>().is_ok() || t.starts_with('$') || (t.ends_with('e') && t.len() > 1 && t[..t.len() - 1].parse::<i64>().is_ok()) { t.to_string() } else { format!("' {} execute", t) }).collect();
        lab.start();
        lab.m.line(&tok_src.join(" "));
        forms.push(("through tokens", lab.state()));
        // single-stepped interpretation
        lab.start();
        let e = lab.m.line_steps(&src, 1_000_000);
        ensure!(e.is_some(), "stepping does not end", "{}", src);
        forms.push(("interpreted in single steps", lab.state()));
        // in a file of its own the text is the same: see C18
        // compiled forms; numbers are read while compiling
        if true {
            let x = lab.def(&src)?;
            lab.start();
            lab.m.line(&x);
            forms.push(("compiled", lab.state()));
            lab.start();
            lab.m.line(&format!("' {} execute", x));
            forms.push(("compiled, through its token", lab.state()));
            lab.start();
            let e = lab.m.line_steps(&x, 1_000_000);
            ensure!(e.is_some(), "stepping does not end", "{}", src);
            forms.push(("compiled, in single steps", lab.state()));
            // The embedder runs it word by word.
            lab.start();
            note(&format!("(execute_word {})", x));
            let xt = lab.m.vm.find_(&x).unwrap();
            lab.m.vm.execute_word(xt);
            let mut steps = 0u64;
            while lab.m.vm.forth() {
                steps += 1;
                if steps > 1_000_000 {
                    return fail("stepping does not end", src);
                }
            }
            cx.count("single steps", steps);
            forms.push(("compiled, stepped by the embedder", lab.state()));
            let y = lab.def(&tok_src.iter().map(|t| if let Some(r) = t.strip_prefix("' ") { format!("['] {}", r) } else { t.clone() }).collect::<Vec<_>>().join(" "))?;
            lab.start();
            lab.m.line(&y);
            forms.push(("compiled through tokens", lab.state()));
            for _ in 0..3 {
                let single: Vec<String> = src.split(' ').map(|s| s.to_string()).collect();
                let z = lab.nest(&mut rng, &single, 0)?;
                lab.start();
                lab.m.line(&z);
                forms.push(("nest of definitions", lab.state()));
            }
            // one token to a line while compiling
            let n = lab.name();
            lab.ten();
            for l in format!(":\x01{} {} ;", n, src).split(' ') {
                let e = lab.m.line(&l.replace('\x01', " "));
                ensure!(e == 0, "straight-line code cannot be compiled", "`{}` raised {}", l, e);
            }
            lab.start();
            lab.m.line(&n);
            forms.push(("compiled over many lines", lab.state()));
            // a part compiled, the rest interpreted
            let k = rng.us(toks.len() + 1);
            let a = lab.def(&toks[..k].join(" "))?;
            let b = lab.def(&toks[k..].join(" "))?;
            lab.start();
            lab.m.line(&format!("{} {}", a, toks[k..].join(" ")));
            forms.push(("first part compiled", lab.state()));
            lab.start();
            lab.m.line(&format!("{} {}", toks[..k].join(" "), b));
            forms.push(("second part compiled", lab.state()));
        }
        hooks::take();
        for (f, st) in &forms {
            let _ = reads;
            // .s and the display of compiled code show no addresses of definitions
            ensure!(*st == want, "ways of running a program differ", "`{}` {}: {:?} instead of {:?} (start {:?} {:?})", src, f, brief(st), brief(&want), lab.s0, lab.f0);
            cx.count("runs compared", 1);
        }
        cx.count("programs", 1);
        cx.count("words of programs", toks.len() as u64);
        cx.distinct(hash_str(&src));
        cx.sample(|| src.clone());
    }
    Ok(())
}
fn brief(s: &State) -> String {
    format!("error {} stack {:?} floats {:x?} base {} output {:?} memory {:x}", s.err, s.s, s.f, s.base, s.out, s.mem.iter().fold(0u64, |a, b| mix(a ^ *b as u64)))
}
