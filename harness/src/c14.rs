//! C14: no source text can crash or wedge the host.
//!
//! Hostile text of many kinds is evaluated under a step budget, with the client's recovery in between;
//! panics, signals and CPU limits are observed by the driver, and here: the exception code is a defined
//! one, and after each recovery a probe program works. `soup_line` is also the workload of C25.
use crate::ensure;
use crate::hooks;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use crate::vmx::VM;

/// Words that store to computed addresses or shrink the dictionary: only used with operands that cannot
/// hit the dictionary's own entries and code.
pub const STORES: &[&str] = &[
    "!", "c!", "+!", "2!", "f!", "fill", "move", "allot", "read-file", "!token", "append", "on", "off", "defer!",
    // Changes the handler to any token.
    "handler!", "get", "release",
];
/// Waits for input or prints without bound.
const NEVER: &[&str] = &["receive", "accept"];

const PROBE: &[&str] = &["1", "2", "+", ":", ";", "0", "5", "do", "i", "loop", "dup", "10", "=", "if", "1+", "then"];

pub struct Soup {
    pub words: Vec<String>,
    pub user: Vec<String>,
    pub files: Vec<String>,
    /// Operands of tasks (not together with markers: a task must not outlive its code).
    tasks: bool,
    tame: bool,
}

const TASKS: &[&str] = &["activate", "suspend", "resume", "halt", "stop", "pause", "me", "nod", "operator", "ms"];
const INTERNAL: &[&str] = &[
    "lit", "flit", "_s\"", "0branch", "branch", "_do", "_qdo", "_loop", "_+loop", "_does", "_postpone", "(xtime)",
    "compile,", "execute", "xtime",
];

impl Soup {
    pub fn new(m: &mut M, rng: &mut Rng, dir: &str) -> Soup {
        let tasks = rng.chance(1, 3);
        let tame = rng.chance(1, 2);
        m.line("words");
        let all = m.out();
        let mut words: Vec<String> = Vec::new();
        for name in all.split_whitespace().map(|x| x.to_string()) {
            if STORES.contains(&&name[..]) || NEVER.contains(&&name[..]) || name.is_empty() {
                continue;
            }
            if name == "ev" || name == "tev" || name == "fev" || name == "mon" {
                continue;
            }
            if tasks && (name == "marker" || name == "-work") || !tasks && TASKS.contains(&&name[..]) {
                continue;
            }
            if tame && INTERNAL.contains(&&name[..]) {
                continue;
            }
            words.push(name);
        }
        let mut files = Vec::new();
        for i in 0..4 {
            files.push(format!("{}/soup{}", dir, i));
        }
        Soup {
            words,
            user: vec![],
            files,
            tasks,
            tame,
        }
    }
    fn int(&self, rng: &mut Rng) -> String {
        match rng.below(8) {
            0..=3 => rng.range(-2, 12).to_string(),
            4 => rng.range(-300, 300).to_string(),
            5 => rng.cell().to_string(),
            6 => format!("${:x}", rng.u64()),
            _ => rng.pick(&["-1", "0", "1", "65536", "9223372036854775807", "-9223372036854775808", "'a'", "%101", "&99", "4294967296"]).to_string(),
        }
    }
    pub fn garbage(&self, rng: &mut Rng) -> String {
        let n = match rng.below(12) {
            0 => rng.us(3000),
            1..=3 => rng.us(60),
            _ => rng.us(9),
        };
        let alpha: &[&str] = match rng.below(5) {
            0 => &["é", "中", "😀", "\u{0}", "ß", "\u{301}", "\u{7f}", "İ", "a"],
            1 => &["$", "%", "&", "'", "-", "+", "e", ".", "1", "0", "f", "9", "E", "_", "#"],
            2 => &["\"", "(", ")", "\\", ";", ":", "[", "]", ",", "a"],
            3 => &["\u{1}", "\u{b}", "\u{a0}", "\u{2028}", "\r", "x", "\u{1b}", "\u{feff}"],
            _ => &["a", "b", "c", "d", "1", "2", "-", "*", "/", "!"],
        };
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(rng.pick(alpha));
        }
        s
    }
    fn word(&self, rng: &mut Rng) -> String {
        let w = rng.pick(&self.words).clone();
        if rng.chance(1, 20) {
            crate::c08::flip_case(rng, &w)
        } else {
            w
        }
    }
    fn name(&mut self, rng: &mut Rng) -> String {
        let n = match rng.below(10) {
            0 => self.garbage(rng),
            1 => self.word(rng),
            2 if !self.user.is_empty() => rng.pick(&self.user).clone(),
            _ => format!("u{}", rng.below(1000)),
        };
        // Defining a word which the probe uses is not a wedged host.
        if PROBE.contains(&&n.to_lowercase()[..])
            || n.starts_with("probe!")
        {
            return "u0".into();
        }
        if self.user.len() < 60 && !n.is_empty() && !n.contains(char::is_whitespace) {
            self.user.push(n.clone());
        }
        n
    }
    fn safe_store(&mut self, rng: &mut Rng) -> String {
        let i = self.int(rng);
        let bad = rng.pick(&["0", "-1", "1", "-8", "9223372036854775807", "-9223372036854775808", "4096"]).to_string();
        let ok = rng.pick(&["sv", "sb 8 +", "sb 77 +", "sb 100 + 3 -"]).to_string();
        let a = if rng.chance(2, 3) { ok.clone() } else { bad };
        match rng.below(13) {
            0 => format!("{} {} !", i, a),
            1 => format!("{} {} c!", i, a),
            2 => format!("{} {} +!", i, a),
            3 => format!("1 {} {} 2!", i, a),
            4 => format!("1.5e {} f!", a),
            5 => format!("{} {} {} fill", a, rng.range(-3, 60), i),
            6 => format!("{} {} {} move", a, ok, rng.range(-3, 60)),
            7 => format!("{} allot", rng.range(0, 300)),
            8 => format!("{} !token", a),
            9 => format!("{} on {} off", a, ok),
            10 => format!("sb {} 3 read-file", rng.range(0, 50)),
            11 => format!("{} {} {} append", a, rng.range(-3, 40), ok),
            _ => format!("' {} handler!", rng.pick(&["bye", "nothing", "hset", "reset", "0error", "noop", "abort", "/", "@", "c!", "execute", "type", "drop", "'", "words"])),
        }
    }
    fn text(&self, rng: &mut Rng) -> String {
        let n = rng.us(40);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(rng.pick(&["a", "b", " ", " ", "é", "中", "x", "\\", "(", ":", "1", "\u{7f}"]));
        }
        s
    }
    fn file(&self, rng: &mut Rng) -> String {
        if rng.chance(1, 6) {
            rng.pick(&["nosuch", "", "nosuch/x", "soup-none/", "."]).to_string()
        } else {
            rng.pick(&self.files).clone()
        }
    }
    pub fn token(&mut self, rng: &mut Rng) -> String {
        match rng.below(42) {
            40 => {
                // token ids and file ids at the edge of their tables
                let d = *rng.pick(&["", "", "1-", "1+", "negate", "dup", "2 -", "4294967296 +"]);
                let w = *rng.pick(&["execute", ">body", ">name", ".word", "compile,", "(xtime)", "compile-token", "interpret-token", ".token"]);
                if self.words.iter().any(|x| x == w) || w == "compile," { format!("toklim {} {}", d, w) } else { format!("toklim {} {}", d, rng.pick(&["execute", ">body", ".word"])) }
            }
            41 => {
                let d = *rng.pick(&["", "", "1-", "1+", "2 -", "negate"]);
                let w = *rng.pick(&["close-file", "file-size", "file-position", "close-source", "load-line", ".source-line", ".source-path", "source-id!"]);
                if self.words.iter().any(|x| x == w) { format!("filelim {} {}", d, w) } else { format!("filelim {} close-file", d) }
            }
            0..=16 => self.word(rng),
            17..=24 => self.int(rng),
            25 => rng.pick(&["1.5e", "-0e", "1e308", "1e309", "nane", "1e-400", "3.25e7", "1e+", "0.1e-", "1E99999999999"]).to_string(),
            26 | 27 if !self.user.is_empty() => rng.pick(&self.user).clone(),
            28 => self.garbage(rng),
            29 | 30 => self.safe_store(rng),
            31 => format!("s\" {}\"", self.text(rng)),
            32 => format!(".\" {}\"", self.text(rng)),
            33 => rng.pick(&["char é", "[char] 中", "' dup", "['] +", "postpone if", "postpone dup", "' nosuch"]).to_string(),
            34 => format!("( {}", self.text(rng)),
            35 => format!("{} {}", rng.pick(&["'", "[']", "postpone", "char", "to"]), self.word(rng)),
            36 => format!("include {}", self.file(rng)),
            37 => {
                let f = self.file(rng);
                format!(
                    ": fw s\" {}\" {} {} ; fw",
                    f,
                    rng.pick(&["r/o", "w/o", "r/w", "7", "-1", "r/o bin"]),
                    rng.pick(&["open-file", "create-file", "delete-file", "included", "open-source"])
                )
            }
            38 if self.tasks => format!("{} {}", rng.range(-1, 8), rng.pick(TASKS)),
            _ => rng
                .pick(&["if", "else", "then", "begin", "while", "repeat", "until", "again", "do", "?do", "loop", "+loop", "case", "of", "endof", "endcase", "leave", "exit", "recurse", ";", "does>", "label", "goto", "[", "]"])
                .to_string(),
        }
    }
    /// A whole definition with balanced structures and random contents.
    fn def(&mut self, rng: &mut Rng) -> String {
        let n = self.name(rng);
        let mut t = vec![":".to_string(), n];
        let mut stack: Vec<&str> = vec![];
        for _ in 0..rng.us(25) {
            match rng.below(12) {
                0 => {
                    t.push("dup if".into());
                    stack.push("then")
                }
                1 => {
                    t.push("3 0 do".into());
                    stack.push("loop")
                }
                2 => {
                    t.push("begin".into());
                    stack.push(rng.pick(&["1 until", "again", "0 while repeat"]))
                }
                3 => {
                    t.push("case 1 of".into());
                    stack.push("endof endcase")
                }
                4 | 5 if !stack.is_empty() => t.push(stack.pop().unwrap().into()),
                6 => t.push(self.int(rng)),
                _ => {
                    let x = self.token(rng);
                    t.push(x)
                }
            }
        }
        while let Some(x) = stack.pop() {
            t.push(x.into())
        }
        t.push(";".into());
        if rng.chance(1, 6) {
            t.push("immediate".into())
        }
        if rng.chance(1, 8) {
            t.push("compile-only".into())
        }
        t.join(" ")
    }
    pub fn line(&mut self, rng: &mut Rng) -> String {
        let mut s = match rng.below(22) {
            0..=8 => {
                let n = match rng.below(20) {
                    0 => rng.us(300),
                    1..=5 => rng.us(40),
                    _ => rng.us(12),
                };
                let t: Vec<String> = (0..n).map(|_| self.token(rng)).collect();
                t.join(" ")
            }
            9..=14 => {
                let d = self.def(rng);
                if let (true, Some(u)) = (rng.chance(2, 3), self.user.last().cloned()) {
                    let a = self.int(rng);
                    let b = self.int(rng);
                    format!("{} {} {} {}", d, a, b, u)
                } else {
                    d
                }
            }
            15 => {
                let w = *rng.pick(&["if", "begin", "0 do", "case", "1 of", "(", "[", "]", ": x", "else", "while", "label", "1e", "1", "dup", "?do"]);
                let n = rng.range(1, 300) as usize;
                let mut t = format!(": deep {}", vec![w; n].join(" "));
                if rng.chance(1, 2) {
                    let c = *rng.pick(&["then", "again", "loop", "endof", "endcase", "repeat", ";"]);
                    t.push_str(&format!(" {}", vec![c; rng.range(1, 300) as usize].join(" ")));
                }
                t
            }
            16 => format!("{} {} : fa create {} , does> @ {} ; fa fb fb", self.int(rng), self.int(rng), self.int(rng), self.token(rng)),
            17 => {
                let base = rng.range(-3, 70);
                let (a, b, c) = (self.int(rng), self.garbage(rng), self.token(rng));
                format!("{} base ! {} . {} {} decimal", base, a, b, c)
            }
            18 => self.garbage(rng),
            19 => {
                // A string operand for every word that takes one.
                let w = rng.pick(&["type", "included", "open-source", "count type", "_type", "dump", ">char", "bounds ?do i c@ drop loop", "r/o open-file", "delete-file"]).to_string();
                let t = self.text(rng);
                let op = if rng.chance(1, 2) {
                    format!("{} {}", rng.pick(&["0", "sv", "sb", "-1", "here", "here 100 -", "9223372036854775807"]), self.int(rng))
                } else {
                    format!("s\" {}\"", t)
                };
                format!(": st {} {} ; st", op, w)
            }
            20 => format!("{} {} {}", self.int(rng), self.int(rng), self.word(rng)),
            _ => {
                let a = self.int(rng);
                let w = self.word(rng);
                let r = self.int(rng);
                format!(": lp {} 0 do {} {} loop ; lp", rng.range(1, 200), a, w) + &format!(" {}", r)
            }
        };
        // Mutations at the level of characters. Lines that store are only cut, so that an operand of a
        // store never changes.
        let stores = s.split_whitespace().any(|t| STORES.contains(&&t.to_lowercase()[..]));
        if rng.chance(1, 6) && !s.is_empty() {
            let cs: Vec<char> = s.chars().collect();
            let k = rng.us(cs.len());
            if stores {
                s = cs[..k].iter().collect();
                // An operand may have lost its last digits, never its word.
            } else {
                let mut cs = cs;
                match rng.below(4) {
                    0 => cs.truncate(k),
                    1 => {
                        cs.remove(k);
                    }
                    2 => cs.insert(k, *rng.pick(&['é', '"', ' ', '\u{0}', ')', '\t', '\n', '\r', '中'])),
                    _ => {
                        let j = rng.us(cs.len());
                        cs.swap(j, k)
                    }
                }
                let t: String = cs.iter().collect();
                if !t.split_whitespace().any(|t| STORES.contains(&&t.to_lowercase()[..])) {
                    s = t;
                }
            }
        }
        s
    }
    pub fn write_files(&mut self, rng: &mut Rng) {
        for i in 0..self.files.len() {
            let path = self.files[i].clone();
            let mut b: Vec<u8> = Vec::new();
            for _ in 0..rng.us(6) {
                match rng.below(5) {
                    0 => {
                        for _ in 0..rng.us(30) {
                            b.push(rng.below(256) as u8)
                        }
                    }
                    1 => b.extend_from_slice(self.garbage(rng).as_bytes()),
                    _ => b.extend_from_slice(self.line(rng).as_bytes()),
                }
                b.extend_from_slice(rng.pick(&["\n", "\r\n", "\n\n", "", "\r"]).as_bytes());
            }
            // Text that stores is only fed as generated.
            let t = String::from_utf8_lossy(&b);
            if t.split_whitespace().any(|t| STORES.contains(&&t.to_lowercase()[..])) {
                b = b"1 drop\n".to_vec();
            }
            let _ = std::fs::write(&path, &b);
        }
    }
}

fn toklim(vm: &mut VM) {
    let n = vm.wordlist().len() as isize;
    vm.s_stack().push(n);
}
fn filelim(vm: &mut VM) {
    let n = vm.files().len().max(vm.sources().len()) as isize;
    vm.s_stack().push(n);
}
pub fn prepare(m: &mut M) -> R {
    m.vm.add_primitive("toklim", toklim);
    m.vm.add_primitive("filelim", filelim);
    for l in ["variable sv", "create sb 512 allot", ": hset bye ;", "defer dd"] {
        let e = m.line(l);
        ensure!(e == 0, "setup failed", "`{}` -> {}", l, e);
    }
    Ok(())
}

/// Client's recovery, whatever happened. Budget hits leave the inner loop in the middle of a program.
pub fn rescue(m: &mut M) {
    // Reports what a program stopped by the budget had still to report.
    m.vm.set_handler(0);
    m.vm.check_stacks();
    m.recover();
    m.vm.state().instruction_pointer = 0;
    m.vm.set_handler(0);
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    prepare(&mut m)?;
    let known: Vec<Option<usize>> = PROBE.iter().map(|w| m.vm.find_(w)).collect();
    let dir = cx.scratch.clone();
    let mut soup = Soup::new(&mut m, &mut rng, &dir);
    let lines = if cx.small { 20 } else { 50 };
    let budget = if rng.chance(1, 10) { 20_000 } else { 2_000 };
    let mut failed = 0;
    // Every word in turn on the edges of the range of its operands.
    let w = soup.words[idx as usize % soup.words.len()].clone();
    let edges = ["-9223372036854775808", "9223372036854775807", "-1", "0", "1", "64", "sv"];
    let fedges = ["-0e", "1e308", "nane", "-1e308 1e308 f*", "0.5e"];
    let mut sweep: Vec<String> = vec![];
    for a in edges.iter() {
        for b in edges.iter() {
            if rng.chance(1, if cx.small { 12 } else { 2 }) {
                let f = rng.pick(&fedges);
                let g = rng.pick(&fedges);
                sweep.push(match rng.below(3) {
                    0 => format!("{} {} {} {} {} {}", rng.pick(&edges), f, g, a, b, w),
                    1 => format!(": es {} {} {} {} {} {} ; es", rng.pick(&edges), f, g, a, b, w),
                    _ => format!("{} {} {}", a, b, w),
                });
            }
        }
    }
    cx.count("words swept over the edges of their operands", 1);
    for k in 0..lines + sweep.len() {
        if rng.chance(1, 15) {
            soup.write_files(&mut rng);
        }
        let l = if k < sweep.len() { std::mem::take(&mut sweep[k]) } else { soup.line(&mut rng) };
        let r = m.line_steps(&l, budget);
        hooks::take();
        cx.distinct(hash_str(&l));
        match r {
            None => {
                cx.count("lines stopped by the step budget", 1);
                rescue(&mut m);
            }
            Some(e) => {
                if e != 0 {
                    failed += 1;
                    cx.count("lines refused", 1);
                    ensure!((-79..=-1).contains(&e) || (-4095..=-256).contains(&e), "undefined exception code", "`{}` -> {}", cut(&l), e);
                } else {
                    cx.count("lines accepted", 1);
                }
                if e != 0 || rng.chance(1, 6) {
                    rescue(&mut m);
                } else {
                    continue;
                }
            }
        }
        // A program may redefine what the probe uses; that is not a wedged host.
        if PROBE.iter().map(|w| m.vm.find_(w)).collect::<Vec<_>>() != known {
            cx.count("cases ended because the probe's words were redefined", 1);
            break;
        }
        // The base is the program's, not part of the recovery.
        let base = unsafe {
            use rtforth::memory::Memory;
            let a = m.vm.data_space().system_variables().base_addr();
            let b = m.vm.data_space().get_isize(a);
            m.vm.data_space().put_isize(10, a);
            b
        };
        let room = m.limit() as i64 - m.here() as i64;
        m.probe().map_err(|f| Fail { msg: format!("after `{}` ({:?}, {} bytes free): {}", cut(&l), r, room, f.msg), ..f })?;
        cx.count("probes after recovery", 1);
        unsafe {
            use rtforth::memory::Memory;
            let a = m.vm.data_space().system_variables().base_addr();
            m.vm.data_space().put_isize(base, a);
        }
        if m.limit() - m.here() < 2000 {
            break;
        }
    }
    let _ = failed;
    if idx < 2 {
        cx.sample(|| format!("{} lines, {} failed", lines, failed));
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}
