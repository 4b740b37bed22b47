//! C18: loading a source file equals evaluating its lines in order. One machine includes generated
//! files, another is fed the same lines one after the other; a handler reports file and line of errors.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

/// One source line, possibly loading another file in its middle.
#[derive(Clone, Debug)]
enum L {
    T(String),
    Inc { before: String, file: usize, word: bool, after: String },
    /// Raises.
    Bad(String, i64),
    /// Skips the rest of the file.
    Skip(String),
}
#[derive(Clone)]
struct F {
    path: String,
    lines: Vec<L>,
}

struct G<'a> {
    rng: &'a mut Rng,
    uid: u64,
    words: Vec<String>,
}
impl<'a> G<'a> {
    fn pad(&mut self) -> String {
        let n = self.rng.us(4);
        (0..n).map(|_| *self.rng.pick(&[' ', ' ', '\t'])).collect()
    }
    fn chunk(&mut self) -> Vec<String> {
        self.uid += 1;
        let n = self.uid;
        let (a, b) = (self.rng.range(-99, 99), self.rng.range(1, 9));
        match self.rng.below(25) {
            0 | 1 => vec![format!("{} ev", a)],
            22 | 23 => {
                // names that a loader might take for something else, at either end of a line
                let o = *self.rng.pick(&["\u{feff}", "\u{feff}x", "#!", "#", "%", "\u{1a}", "\u{2028}", "\u{85}y", "\u{a0}", "x\\", "\\\\\\", "//", "--", ";;", "\u{b}", "\u{c}", "\u{0}", "\u{7f}", "\r\rz", "a\rb", "\u{fffd}", "\u{10ffff}"]);
                let odd: String = o.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect();
                if odd.is_empty() {
                    // a blank or a control character in between
                    return vec![format!("{} ev{}{} ev", a, o, b), format!("{}{} ev", o, a), format!("{} ev{}", a, o)];
                }
                let d = format!(": {} {} ev ;", odd, a);
                match self.rng.below(4) {
                    0 => vec![d, odd],
                    1 => vec![d, format!("{} {} ev", odd, b)],
                    2 => vec![d, format!("{} ev {}", b, odd), format!("{} ev", b)],
                    _ => vec![d, odd.clone(), odd.clone(), format!("{} {}", odd, odd)],
                }
            }
            2 => {
                self.words.push(format!("q{}", n));
                vec![format!(": q{} {} ev ;", n, a)]
            }
            3 => {
                self.words.push(format!("q{}", n));
                vec![format!(": q{}", n), "\\ the body follows".into(), format!("{} 0 do", b), "i ev".into(), "loop".into(), ";".into()]
            }
            4 => vec![format!("variable v{}", n), format!("{} v{} !  v{} @ ev", a, n, n)],
            5 => vec!["".into()],
            6 => vec!["\t  ".into()],
            7 => vec![format!("\\ comment {} ev", a)],
            8 => vec![format!("( comment {} ev ) {} ev", a, b)],
            9 => vec![format!("( no end {} ev", a), format!("{} ev", b)],
            10 => {
                self.words.push(format!("q{}", n));
                vec![format!(": q{} s\" text{} é中 \\ ( x\" nip ev ;", n, a)]
            }
            11 => vec![format!("{} ev{}", a, " ".repeat(self.rng.us(3000)))],
            12 => {
                // A line longer than any buffer the loader may use.
                let k = self.rng.range(100, 3000);
                let mut s = String::new();
                for i in 0..k {
                    s.push_str(if i % 50 == 49 { "7 ev " } else { "1 drop " });
                }
                s.push_str(&format!("{} ev", a));
                vec![s]
            }
            13 => vec![format!("{} constant c{} c{} c{} + ev", a, n, n, n)],
            14 => {
                self.words.push(format!("q{}", n));
                vec![format!("create q{} {} ,", n, a), format!("q{} @ ev", n)]
            }
            15 => vec![format!(": mk{} create , does>", n), "@ ev".into(), format!("; {} mk{} ch{}", a, n, n), format!("ch{}", n)],
            16 => vec![format!("hex {:x} ev decimal", b)],
            17 => vec![format!("{}.5e fev", a)],
            18 => vec![format!("char é ev char x ev")],
            19 => vec![format!(".( printed {}) {} ev", a, b)],
            20 if !self.words.is_empty() => {
                let w = self.rng.pick(&self.words).clone();
                if w.starts_with('q') {
                    vec![format!("['] {}", w).replace("['] ", "' ") + " drop"]
                } else {
                    vec!["1 ev".into()]
                }
            }
            _ => vec![format!("{} {} + ev", a, b)],
        }
    }
}

const BAD: &[(&str, i64)] = &[
    ("undefined-word", -13),
    ("1 0 /", -10),
    ("0 @", -9),
    ("abort", -1),
    ("drop", -4),
    ("if", -14),
    (": bad if ;", -22),
    ("include no-such-file", -1),
    ("fdrop", -45),
    ("r>", -14),
];

/// Lines of file `f` typed in order; `err` is what the line that failed was.
fn typed(m: &mut M, fs: &[F], f: usize, err: &mut Option<(usize, usize, i64)>, depth: usize, n: &mut u64) -> Result<(), Fail> {
    let file = fs[f].clone();
    for (k, l) in file.lines.iter().enumerate() {
        *n += 1;
        match l {
            L::T(s) => {
                let e = m.line(s);
                if e != 0 {
                    *err = Some((f, k, e));
                    return Ok(());
                }
            }
            L::Skip(s) => {
                let e = m.line(s);
                if e != 0 {
                    *err = Some((f, k, e));
                }
                return Ok(());
            }
            L::Bad(s, c) => {
                let e = m.line(s);
                // An undefined name in front of it may be noticed first.
                ensure!(e == *c || e == -13, "typed line raised another exception", "`{}` -> {} instead of {}", s, e, c);
                *err = Some((f, k, e));
                return Ok(());
            }
            L::Inc { before, file, after, .. } => {
                if depth >= 13 {
                    return Ok(());
                }
                let e = m.line(before);
                ensure!(e == 0, "typed line failed", "`{}` -> {}", before, e);
                typed(m, fs, *file, err, depth + 1, n)?;
                if err.is_some() {
                    return Ok(());
                }
                let e = m.line(after);
                ensure!(e == 0, "typed line failed", "`{}` -> {}", after, e);
            }
        }
    }
    Ok(())
}

fn write(rng: &mut Rng, f: &F) -> R {
    let mut b = String::new();
    let style = rng.below(4);
    let n = f.lines.len();
    for (k, l) in f.lines.iter().enumerate() {
        let s = match l {
            L::T(s) | L::Bad(s, _) => s.clone(),
            L::Skip(s) => format!("{} \\\\", s),
            L::Inc { before, after, word, file } => {
                // The name of the file is given by a word of the machine, or in the line.
                if *word {
                    format!("{} inc{} {}", before, file, after)
                } else {
                    format!("{} include @{}@ {}", before, file, after)
                }
            }
        };
        b.push_str(&s);
        let last = k + 1 == n;
        if last && rng.chance(1, 3) {
            break;
        }
        b.push_str(match style {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if rng.chance(1, 2) {
                    "\n"
                } else {
                    "\r\n"
                }
            }
        });
    }
    std::fs::write(&f.path, &b).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let dir = format!("{}/inc{}", cx.scratch, idx);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
    let r = if rng.chance(1, 6) { by_hand(cx, &mut rng, &dir) } else if rng.chance(1, 8) { deep(cx, &mut rng, &dir) } else { files(cx, &mut rng, &dir) };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

const HANDLER: &str = ": hnd 888001 ev error ev source-id dup 0> ev if source-id .source-path [char] | emit source-id .source-line [char] | emit then load-line# @ ev bye ;";

fn both_setup(a: &mut M, b: &mut M) -> R {
    for m in [a, b] {
        let e = m.line(HANDLER);
        ensure!(e == 0, "setup failed", "{}", e);
    }
    Ok(())
}

fn files(cx: &mut Cx, rng: &mut Rng, dir: &str) -> R {
    let mut a = M::hooked();
    let mut b = M::hooked();
    both_setup(&mut a, &mut b)?;
    let rounds = if cx.small { 3 } else { 6 };
    let mut g = G { rng, uid: 0, words: vec![] };
    let mut fs: Vec<F> = Vec::new();
    for round in 0..rounds {
        let nf = 1 + g.rng.us(4);
        let base = fs.len();
        // A file includes only files written before it, so inclusion always ends.
        for j in 0..nf {
            let k = fs.len();
            let mut lines = Vec::new();
            let bad = g.rng.chance(1, 3) && j + 1 == nf || g.rng.chance(1, 12);
            let n = g.rng.us(12);
            let at = g.rng.us(n + 1);
            for i in 0..=n {
                if bad && i == at {
                    let pre = g.chunk();
                    if pre.len() == 1 && g.rng.chance(1, 2) && !pre[0].contains('\\') && !pre[0].contains("no end") {
                        let (t, c) = *g.rng.pick(BAD);
                        lines.push(L::Bad(format!("{} {} 999 ev", pre[0], t), c));
                    } else {
                        let (t, c) = *g.rng.pick(BAD);
                        lines.push(L::Bad(format!("{}{}", g.pad(), t), c));
                    }
                } else if k > 0 && g.rng.chance(1, 5) {
                    let f = g.rng.us(k);
                    let before = if g.rng.chance(1, 2) { format!("{} ev", g.rng.range(0, 99)) } else { g.pad() };
                    let after = if g.rng.chance(2, 3) { format!("{} ev", g.rng.range(0, 99)) } else { "".into() };
                    let word = g.rng.chance(1, 2);
                    lines.push(L::Inc { before, file: f, word, after });
                } else if g.rng.chance(1, 25) {
                    let n = g.rng.range(0, 99);
                    lines.push(L::Skip(format!("{} ev", n)));
                } else {
                    for c in g.chunk() {
                        lines.push(L::T(c));
                    }
                }
            }
            if g.rng.chance(1, 20) {
                lines.clear();
            }
            let path = format!("{}/{}{}", dir, g.rng.pick(&["f", "ünï", "x.fth"]), k);
            fs.push(F { path, lines });
        }
        for k in base..fs.len() {
            write(g.rng, &fs[k])?;
            // Names of files within lines.
            let mut t = std::fs::read_to_string(&fs[k].path).unwrap();
            for (i, f) in fs.iter().enumerate() {
                t = t.replace(&format!("include @{}@", i), &format!("include {}", f.path));
            }
            std::fs::write(&fs[k].path, t).unwrap();
            let l = format!(": inc{} s\" {}\" included ;", k, fs[k].path);
            for m in [&mut a, &mut b] {
                let e = m.line(&l);
                if e == -8 {
                    return Ok(());
                }
                ensure!(e == 0, "definition failed", "`{}` -> {}", l, e);
            }
        }
        // Load one of all files so far (perhaps again), with the rest of the line behind.
        for _ in 0..1 + g.rng.us(3) {
            if a.limit() - a.here() < 12_000 {
                return Ok(());
            }
            let f = if g.rng.chance(1, 2) { fs.len() - 1 } else { g.rng.us(fs.len()) };
            let tail = g.rng.range(0, 99);
            let line = match g.rng.below(4) {
                0 => format!("77 ev inc{} {} ev", f, tail),
                1 => format!("77 ev   include   {}   {} ev", fs[f].path, tail),
                2 => format!("77 ev include {} {} ev \\ rest", fs[f].path, tail),
                _ => format!(": run{}x 77 ev inc{} {} ev ; run{}x", round, f, tail, round),
            };
            let def = line.starts_with(": run");
            let h = g.rng.chance(1, 2);
            for m in [&mut a, &mut b] {
                m.line(if h { "' hnd handler!" } else { "0 handler!" });
            }
            hooks::take();
            a.out();
            let ea = a.line(&line);
            let mut eva = hooks::take();
            let out = a.out();
            let cx_line = line.clone();
            // The other machine.
            let mut err = None;
            let mut n = 0;
            b.line(if def { ": run1x 77 ev 0 drop ; run1x" } else { "77 ev" });
            typed(&mut b, &fs, f, &mut err, 0, &mut n)?;
            if err.is_none() {
                let e = b.line(&format!("{} ev", tail));
                if b.vm.state().is_compiling {
                    return Ok(());
                }
                ensure!(e == 0, "typed line failed", "{}", e);
            }
            let evb_all = hooks::take();
            b.out();
            cx.count("lines loaded", n);
            cx.count("files loaded", 1);
            let strip = |v: Vec<Ev>| -> (Vec<Ev>, Vec<i64>) {
                let p = v.iter().position(|e| matches!(e, Ev::I { v: 888001, .. }));
                match p {
                    None => (v, vec![]),
                    Some(p) => {
                        let t = v[p..].iter().map(|e| if let Ev::I { v, .. } = e { *v } else { 0 }).collect();
                        (v[..p].to_vec(), t)
                    }
                }
            };
            let (e1, ha) = strip(std::mem::take(&mut eva));
            let (e2, hb) = strip(evb_all);
            ensure!(
                e1 == e2,
                "loading a file and typing its lines differ",
                "`{}`: {} events against {}; first difference {:?}",
                cx_line,
                e1.len(),
                e2.len(),
                (0..e1.len().min(e2.len())).find(|i| e1[*i] != e2[*i]).map(|i| (i, e1[i].clone(), e2[i].clone()))
            );
            let want = err.map_or(0, |x| x.2);
            ensure!(ea == want, "loading a file and typing its lines differ", "`{}`: exception {} instead of {}", cx_line, ea, want);
            if let (Some((ef, ek, ec)), true) = (err, h) {
                // error, whether a file is the source, its path, line text and number
                ensure!(ha.len() == 4 && ha[1] == ec && ha[2] == -1 && hb.len() >= 3, "the failing source is not identified", "`{}`: {:?}", cx_line, ha);
                ensure!(ha[3] == ek as i64 + 1, "the failing line's number is wrong", "`{}`: line {} must be {} of {}", cx_line, ha[3], ek + 1, fs[ef].path);
                // Output of earlier lines was flushed line by line.
                let text = std::fs::read_to_string(&fs[ef].path).unwrap();
                let lt = text.split('\n').nth(ek).unwrap_or("").trim_end_matches('\r');
                let want = format!("{}|{}|", fs[ef].path, lt);
                ensure!(out.ends_with(&want), "the failing source is not identified", "`{}`: reported {:?} must end with {:?}", cx_line, out, want);
                cx.count("failing lines identified", 1);
            }
            if ea != 0 {
                a.recover();
                b.recover();
                cx.count("errors inside files", 1);
            }
            let (sa, sb) = (a.s(), b.s());
            ensure!(sa == sb && a.fbits() == b.fbits(), "loading a file and typing its lines differ", "`{}`: stacks {:?} {:?}", cx_line, sa, sb);
            ensure!(a.vm.source_id() == 0, "source not restored", "`{}`: source {}", cx_line, a.vm.source_id());
            a.clear_s();
            b.clear_s();
            // What was defined works the same on both.
            a.line("0 handler!");
            b.line("0 handler!");
            for w in g.words.iter().rev().take(6) {
                let (fa, fb) = (a.vm.find_(w).is_some(), b.vm.find_(w).is_some());
                ensure!(fa == fb, "loading a file and typing its lines differ", "`{}`: {} defined: {} {}", cx_line, w, fa, fb);
                hooks::take();
                let ea = a.try_line(w);
                let x = hooks::take();
                let eb = b.try_line(w);
                let y = hooks::take();
                ensure!(ea == eb && x == y, "loading a file and typing its lines differ", "`{}`: {} gives {} {:?} and {} {:?}", cx_line, w, ea, x, eb, y);
                a.clear_s();
                b.clear_s();
                a.out();
                b.out();
            }
            hooks::take();
            cx.distinct(mix(hash_str(&format!("{:?}{}", e1, want))));
        }
    }
    Ok(())
}

/// Depth, self-inclusion, damaged files.
fn deep(cx: &mut Cx, rng: &mut Rng, dir: &str) -> R {
    let mut m = M::hooked();
    m.line(HANDLER);
    m.probe()?;
    m.out();
    m.line("words");
    let words = m.out();
    for round in 0..3 {
        // A chain of files.
        let n = if rng.chance(1, 3) { rng.range(15, 17) } else { rng.range(1, 14) };
        for k in 0..n {
            let p = format!("{}/c{}_{}", dir, round, k);
            let t = if k + 1 < n {
                format!("{} ev\n{} ev include {}/c{}_{} {} ev\n{} ev", k, 100 + k, dir, round, k + 1, 200 + k, 300 + k)
            } else {
                format!("{} ev {} ev {} ev\n{} ev", k, 100 + k, 200 + k, 300 + k)
            };
            std::fs::write(&p, t).unwrap();
        }
        hooks::take();
        let e = m.line(&format!("include {}/c{}_0 55 ev", dir, round));
        let got: Vec<i64> = hooks::take().iter().map(|e| if let Ev::I { v, .. } = e { *v } else { 0 }).collect();
        let mut want: Vec<i64> = (0..n).flat_map(|k| vec![k, 100 + k]).collect();
        want.extend((0..n).rev().flat_map(|k| vec![200 + k, 300 + k]));
        want.push(55);
        if n > 16 && e != 0 {
            // Refused whole at the depth it does not support, and everything before it was carried out.
            let up: Vec<i64> = (0..n - 1).flat_map(|k| vec![k, 100 + k]).collect();
            ensure!(e < 0 && got == up, "nested files", "depth {}: error {} events {:?}", n, e, got);
            m.recover();
            m.probe()?;
            m.out();
            continue;
        }
        ensure!(e == 0 && got == want, "nested files", "depth {}: error {} events {:?}", n, e, got);
        cx.count("nested files loaded", n as u64);
        // A file that includes itself without end is refused and leaves a usable system.
        let p = format!("{}/self{}", dir, round);
        std::fs::write(&p, format!("1 ev\ninclude {}\n2 ev\n", p)).unwrap();
        for _ in 0..rng.range(1, 20) {
            hooks::take();
            let e = m.line(&format!("include {}", p));
            let got: Vec<i64> = hooks::take().iter().map(|e| if let Ev::I { v, .. } = e { *v } else { 0 }).collect();
            ensure!(e < 0, "endless inclusion", "error {}", e);
            ensure!(got.len() >= 14 && got.iter().all(|v| *v == 1), "endless inclusion", "events {:?}", got);
            m.recover();
            cx.count("endless inclusions refused", 1);
        }
        // Bytes that are no text.
        let p = format!("{}/raw{}", dir, round);
        let mut b = b"1 ev\n2 ev\n".to_vec();
        b.extend_from_slice(rng.pick(&[&b"\xff\xfe 3 ev"[..], &b"3 ev \xc3"[..], &b"\x80"[..], &b"\\ caf\xe9"[..]]));
        b.extend_from_slice(b"\n4 ev\n");
        std::fs::write(&p, &b).unwrap();
        hooks::take();
        let e = m.line(&format!("include {} 5 ev", p));
        let got: Vec<i64> = hooks::take().iter().map(|e| if let Ev::I { v, .. } = e { *v } else { 0 }).collect();
        ensure!(e < 0 && got == [1, 2], "text that is not UTF-8", "error {} events {:?}", e, got);
        m.recover();
        // A missing file.
        for name in ["no-such-file", "", "nosuch/x"] {
            let e = m.line(&format!("6 ev include {} ", name));
            ensure!(e == -1, "missing file", "`{}`: error {}", name, e);
            m.recover();
        }
        // A directory is no source file, and no file can be opened without a descriptor.
        let p = format!("{}/dir{}", dir, round);
        std::fs::create_dir_all(&p).unwrap();
        let up = format!("{}/up{}", dir, round);
        std::fs::write(&up, format!("1 ev\ninclude {}/c{}_0\n2 ev\n", dir, round)).unwrap();
        for no_fd in [false, true] {
            let free = free_fd().unwrap_or(1000);
            let lim = if no_fd { Some(Limit::set(libc::RLIMIT_NOFILE, free + rng.below(2))) } else { None };
            hooks::take();
            let e = m.line(&format!("6 ev include {} 7 ev", if no_fd { &up } else { &p }));
            let got: Vec<i64> = hooks::take().iter().map(|e| if let Ev::I { v, .. } = e { *v } else { 0 }).collect();
            drop(lim);
            ensure!(e < 0 && (got == [6] || no_fd && got == [6, 1]), "a source that cannot be read", "error {} events {:?}", e, got);
            m.recover();
            cx.count("unreadable sources refused", 1);
        }
        // Loading gives back the descriptors it takes, whether or not it fails.
        let bad = format!("{}/bad{}", dir, round);
        std::fs::write(&bad, format!("1 ev\ninclude {}/c{}_0\nundefined-word\n", dir, round)).unwrap();
        let free = free_fd().unwrap_or(1000);
        let lim = Limit::set(libc::RLIMIT_NOFILE, free + n as u64 + 3);
        for k in 0..24 {
            hooks::take();
            let fails = k % 3 == 1;
            let e = m.line(&format!("include {}", if fails { &bad } else { &up }));
            let got = hooks::take().len();
            if (e != 0) != fails && n < 16 {
                drop(lim);
                return fail("a file cannot be loaded again and again", format!("load {} of {}: error {} after {} events", k, if fails { &bad } else { &up }, e, got));
            }
            if e != 0 {
                m.recover();
            }
        }
        drop(lim);
        m.probe()?;
        m.out();
        // The dictionary is the one of before, and so are its words.
        m.line("words");
        let now = m.out();
        ensure!(m.err() == 0 && now.ends_with(&words), "the dictionary after nested files", "error {}: {:?} became {:?}", m.err(), words, now);
    }
    Ok(())
}

/// The words a loader is made of, used by hand: every source yields its own lines in order, whatever is
/// done with the others, and an identifier that denotes no source is refused.
fn by_hand(cx: &mut Cx, rng: &mut Rng, dir: &str) -> R {
    struct S {
        file: usize,
        next: usize,
        label: String,
    }
    let mut m = M::new();
    let nf = 1 + rng.us(4);
    let mut texts: Vec<Vec<String>> = Vec::new();
    for f in 0..nf {
        let n = rng.us(9);
        let mut b = String::new();
        let mut ls = Vec::new();
        for k in 0..n {
            let mut l = String::new();
            let len = *rng.pick(&[0usize, 0, 1, 3, 10, 60, 127, 128, 129, 300, 1100, 5000]);
            while l.len() < len {
                l.push(*rng.pick(&['a', 'b', ' ', '\t', 'é', '中', '😀', '\r', '\\', '"', '\u{feff}', '\u{85}', '\u{2028}', '\0', '\x0c', '\x1a']));
            }
            let end = if k + 1 == n && rng.chance(1, 2) { "" } else { *rng.pick(&["\n", "\r\n"]) };
            if end.is_empty() && l.is_empty() {
                break;
            }
            // A carriage return before a line feed belongs to the terminator, only one of them.
            if end == "\n" && l.ends_with('\r') {
                l.push('x');
            }
            b.push_str(&l);
            b.push_str(end);
            ls.push(l);
        }
        std::fs::write(format!("{}/h{}", dir, f), &b).unwrap();
        texts.push(ls);
        let e = m.line(&format!(": p{} s\" {}/h{}\" ; : l{} s\" label {} é\" ;", f, dir, f, f, f));
        ensure!(e == 0, "setup failed", "{}", e);
    }
    let mut open: std::collections::BTreeMap<i64, S> = Default::default();
    let mut gone: Vec<i64> = vec![];
    for _ in 0..if cx.small { 30 } else { 100 } {
        let any = |rng: &mut Rng, open: &std::collections::BTreeMap<i64, S>| -> Option<i64> {
            let k: Vec<i64> = open.keys().cloned().collect();
            if k.is_empty() { None } else { Some(*rng.pick(&k)) }
        };
        match rng.below(12) {
            0 | 1 => {
                let f = rng.us(nf);
                let own = rng.chance(1, 2);
                let e = m.line(&format!("p{} r/o open-file", f));
                let s = m.s();
                ensure!(e == 0 && s.len() == 2 && s[1] == 0, "a file cannot be opened", "{} {:?}", e, s);
                let fid = s[0];
                m.clear_s();
                let e = m.line(&format!("{}{} {} open-source", if own { "p" } else { "l" }, f, fid));
                let s = m.s();
                ensure!(e == 0 && s.len() == 1 && s[0] > 0, "a source cannot be opened", "{} {:?}", e, s);
                ensure!(!open.contains_key(&s[0]), "source identifier not fresh", "{}", s[0]);
                m.clear_s();
                gone.retain(|g| *g != s[0]);
                let label = if own { format!("{}/h{}", dir, f) } else { format!("label {} é", f) };
                open.insert(s[0], S { file: f, next: 0, label });
                // The file belongs to the source now.
                m.line(&format!("{} close-file", fid));
                let s = m.s();
                ensure!(s.len() == 1 && s[0] != 0, "the file of a source can be closed", "{:?}", s);
                m.clear_s();
                cx.count("sources opened by hand", 1);
            }
            2..=7 => {
                let id = match any(rng, &open) {
                    Some(id) => id,
                    None => continue,
                };
                let s = open.get_mut(&id).unwrap();
                let e = m.line(&format!("11 {} load-line", id));
                let (n, more) = match texts[s.file].get(s.next) {
                    Some(l) => (l.len() as i64, -1),
                    None => (0, 0),
                };
                ensure!(e == 0 && m.s() == [11, n, more], "load-line", "line {} of {:?}: error {} stack {:?}", s.next, texts[s.file], e, m.s());
                m.clear_s();
                m.out();
                let want = texts[s.file].get(s.next).cloned().unwrap_or_default();
                s.next += more.unsigned_abs() as usize;
                let e = m.line(&format!("{} .source-line", id));
                let o = m.out();
                ensure!(e == 0 && o == want && m.s().is_empty(), "the line loaded", "error {}: {:?} must be {:?}", e, o, want);
                cx.count("lines loaded by hand", 1);
            }
            8 => {
                let id = match any(rng, &open) {
                    Some(id) => id,
                    None => continue,
                };
                m.out();
                let e = m.line(&format!("{} .source-path", id));
                let o = m.out();
                ensure!(e == 0 && o == open[&id].label && m.s().is_empty(), "the path of a source", "error {}: {:?} must be {:?}", e, o, open[&id].label);
            }
            9 | 10 => {
                let id = match any(rng, &open) {
                    Some(id) => id,
                    None => continue,
                };
                let e = m.line(&format!("{} close-source", id));
                ensure!(e == 0 && m.s().is_empty(), "closing a source", "{}: {} {:?}", id, e, m.s());
                open.remove(&id);
                gone.push(id);
                cx.count("sources closed by hand", 1);
            }
            _ if rng.chance(1, 3) => {
                let mut bad = *rng.pick(&[0i64, -1, 17, i64::MAX, i64::MIN, 1 << 32]);
                if !gone.is_empty() && rng.chance(2, 3) {
                    bad = *rng.pick(&gone);
                }
                let mut w = *rng.pick(&["load-line", "close-source", ".source-path", ".source-line", "source-id!", "p0 rot open-source"]);
                if w == "source-id!" && bad == 0 || w == ".source-line" && gone.contains(&bad) {
                    w = "load-line";
                }
                let here = m.here();
                let e = m.line(&format!("{} {}", bad, w));
                ensure!(e == -24, "an identifier that denotes no source was accepted", "{} {}: error {}", bad, w, e);
                m.recover();
                ensure!(m.here() == here && m.vm.source_id() == 0, "a refused source word changed the machine", "{} {}", bad, w);
                // The client's reset closes them all.
                gone.extend(open.keys().cloned());
                open.clear();
                cx.count("identifiers of no source refused", 1);
            }
            _ => {}
        }
    }
    m.probe()
}
