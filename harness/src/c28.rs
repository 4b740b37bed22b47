//! C28: every compiling and allocating operation at every distance from the end of the data space.
//!
//! The same operation is run once with plenty of room (at the same alignment) and once with `k` free
//! bytes; the first run tells how much it needs and what it must do.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

struct Op {
    /// one line each; `%` becomes a fresh name
    lines: Vec<String>,
    /// lines run afterwards on success: their stacks and output must match
    post: Vec<String>,
    /// extra room the operation may need while it runs
    extra: usize,
    /// how many new words it makes
    words: usize,
}

fn name(rng: &mut Rng, n: usize) -> String {
    let len = match rng.below(6) {
        0 => 1 + rng.us(4),
        1 | 2 => 4 + rng.us(16),
        3 => 16 + rng.us(40),
        _ => 3 + rng.us(6),
    };
    let mut s = format!("n{}", n);
    while s.len() < len {
        s.push((b'a' + rng.below(26) as u8) as char);
    }
    if rng.chance(1, 8) {
        s.push('é');
    }
    s
}
fn text(rng: &mut Rng) -> String {
    let n = match rng.below(5) {
        0 => rng.us(4),
        1 => rng.us(300),
        2 => 200 + rng.us(700),
        _ => rng.us(30),
    };
    (0..n).map(|_| if rng.chance(1, 30) { 'λ' } else { (b'a' + rng.below(26) as u8) as char }).collect()
}
/// A small body of compiled code: source and what it prints is found by running it.
fn body(rng: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..1 + rng.us(4) {
        let k = if depth > 2 { rng.below(6) } else { rng.below(17) };
        let t = match k {
            0 => format!("{} . ", rng.range(-9, 9)),
            1 => format!("{} {} + . ", rng.cell(), rng.range(0, 9)),
            2 => format!("{}.5e f. ", rng.range(0, 99)),
            3 => format!(".\" {}\" ", text(rng)),
            4 => format!("s\" {}\" type ", text(rng)),
            5 => "[char] x emit ['] space execute [ 7 ] literal . ".to_string(),
            6 => format!("{} if {}else {}then ", rng.range(-1, 0), body(rng, depth + 1), body(rng, depth + 1)),
            7 => format!("{} 0 do {}loop ", rng.range(1, 3), body(rng, depth + 1)),
            8 => format!("4 0 ?do {}2 +loop ", body(rng, depth + 1)),
            9 => format!("0 begin 1+ dup 3 < while {}repeat drop ", body(rng, depth + 1)),
            10 => format!("2 begin {}1- dup 0= until drop ", body(rng, depth + 1)),
            11 => format!("{} case 1 of {}endof 2 of {}endof {}endcase ", rng.range(1, 3), body(rng, depth + 1), body(rng, depth + 1), body(rng, depth + 1)),
            12 => format!("3 0 do i . leave {}loop ", body(rng, depth + 1)),
            13 => format!("{} >r {}r> . ", rng.range(0, 99), body(rng, depth + 1)),
            14 => "0labels [ 3 ] goto 1 . [ 3 ] label 2 . 0labels ".to_string(),
            15 => "[ 1 2 ] 2literal . . [ 2.5e ] fliteral f. ".to_string(),
            _ => format!("w{} . ", rng.below(3)),
        };
        s.push_str(&t);
    }
    s
}

fn op(rng: &mut Rng, n: usize) -> Op {
    let nm = name(rng, n);
    let v = rng.cell();
    let mut o = Op { lines: vec![], post: vec![], extra: 0, words: 1 };
    let mut l = |s: String| o.lines.push(s);
    let k = rng.below(34);
    match k {
        0 => { l(format!(": {} {} ;", nm, v)); o.post.push(nm) }
        1 => { l(format!("{} constant {}", v, nm)); o.post.push(nm) }
        2 => { l(format!("variable {}", nm)); o.post.push(format!("{} {} ! {} @", v, nm, nm)) }
        3 => { l(format!("create {} {} , 7 , 9 c,", nm, v)); o.post.push(format!("{} @ {} cell+ @ {} 16 + c@", nm, nm, nm)) }
        4 => { l(format!("{} {} 2constant {}", v, n, nm)); o.post.push(nm) }
        5 => { l(format!("2variable {}", nm)); o.post.push(format!("{} 5 {} 2! {} 2@", v, nm, nm)) }
        6 => { l(format!("{}.25e fconstant {}", n, nm)); o.post.push(format!("{} f.", nm)) }
        7 => { l(format!("fvariable {}", nm)); o.post.push(format!("{}.5e {} f! {} f@ f.", n, nm, nm)) }
        8 => { l(format!("defer {}", nm)); o.post.push(format!("{} ' w1 ' {} defer! {} .", nm, nm, nm)) }
        9 => { l(format!("8 8 +field {} drop", nm)); o.post.push(format!("100 {}", nm)) }
        10 => { l(format!("marker {}", nm)); o.post.push(String::new()) }
        11 => { l(format!("mk {}", nm)); o.post.push(format!("{} .", nm)) }
        12 => { l(format!("create {} 0 , does> @ 1+", nm).replace("does> @ 1+", "")); o.post.push(format!("{} @", nm)) }
        13 | 14 | 15 | 16 => { l(format!(": {} {};", nm, body(rng, 0))); o.post.push(nm) }
        17 | 18 => {
            // over several lines
            l(format!(": {}", nm));
            for _ in 0..1 + rng.us(4) {
                l(body(rng, 1));
            }
            l(";".to_string());
            o.post.push(nm)
        }
        19 => { let b = body(rng, 0); l(format!(": {} [ 1 , 2 c, ] {};", nm, "noop ".repeat(0) + "").replace("[ 1 , 2 c, ]", "")); l(format!(": {}x {};", nm, b)); o.words = 2; o.post.push(format!("{} {}x", nm, nm)) }
        20 => { l(format!(": {} postpone if postpone dup postpone then postpone ; ; immediate", nm).replace("postpone ; ;", ";")); o.post.push(format!(": tt {} ; 5 tt 0 tt", nm)) }
        21 => { l(format!("{} allot", rng.us(2000))); o.words = 0 }
        22 => { l(format!("{} ,", v)); o.words = 0; o.post.push("here 1 cells - @".into()) }
        23 => { l(format!("{} c,", v & 255)); o.words = 0; o.post.push("here 1- c@".into()) }
        24 => { l(format!("falign {}.5e f,", n)); o.words = 0; o.post.push("here 1 floats - f@ f.".into()) }
        25 => { l(format!("{} {} 2,", v, n)); o.words = 0; o.post.push("here 2 cells - 2@".into()) }
        26 => { l(format!("' w1 here swap , {} , drop", v)); o.words = 0; o.post.push("here 2 cells - @ execute".into()) }
        27 => { l(format!("pif pthen")); o.words = 0 }
        28 => { l(format!("pall")); o.words = 0 }
        29 => { l("align falign".to_string()); o.words = 0 }
        30 => { l(format!("{} >r", n).replace(&format!("{} >r", n), &format!("{} commas", 1 + rng.us(60)))); o.words = 0; o.post.push("here 1 cells - @".into()) }
        31 => { l(format!("{} commas {} c,s {} commas", 1 + rng.us(9), 1 + rng.us(40), rng.us(9))); o.words = 0 }
        32 => { l(format!("2 0 do-it").replace("2 0 do-it", "plits")); o.words = 0 }
        _ => { l(format!("mk2 {} mk {}b variable {}c", nm, nm, nm)); o.words = 3; o.post.push(format!("{} . {}b . 3 {}c ! {}c @", nm, nm, nm, nm)) }
    }
    o
}

/// Lines run before everything: builders used by the operations and words whose behaviour must survive.
const SETUP: &[&str] = &[
    ": w0 10 ; : w1 11 ; : w2 12 ;",
    "variable v1 77 v1 ! create t1 1 , 2 , 3 , 2.5e fconstant f1 -5 constant c1 5 6 2constant d1",
    ": s1 s\" witness\" type ; : l1 0 5 0 do i + loop ;",
    "defer df ' w2 ' df defer!",
    ": mk create 5 , does> @ ;",
    ": mk2 create 1 , 2 , 3 , does> cell+ @ ;",
    ": pif postpone if ; : pthen postpone then ;",
    ": pall postpone begin postpone dup postpone while postpone dup postpone repeat postpone recurse ;",
    ": plits 1 postpone literal 2 3 postpone 2literal 1e postpone fliteral ;",
    ": commas 0 ?do 99 , loop ; : c,s 0 ?do 98 c, loop ;",
    ": fill, begin 171 , again ; : fillc begin 172 c, again ; : fill2 begin 173 174 2, again ; : fillf begin falign 1.5e f, again ;",
    ": filla 1 begin dup allot again ; : filld begin postpone dup again ; : fillr begin postpone recurse again ;",
    ": fillb begin postpone begin postpone again again ; : filli begin postpone if postpone then again ;",
    ": fillo begin postpone do postpone loop again ; : fills begin postpone s\" again ; : fillx begin postpone exit again ;",
    ": fillq begin postpone ?do postpone +loop again ; : fillk begin postpone case postpone of postpone endof postpone endcase again ;",
    ": fillu begin postpone begin postpone until again ; : fillw begin postpone begin postpone while postpone repeat again ;",
    ": fille begin postpone if postpone else postpone then again ; : fillg postpone 0labels 5 postpone label begin 5 postpone goto again ;",
    ": fillh postpone 0labels 5 postpone label begin 5 postpone call again ; : filll begin 5 postpone literal again ; : filln begin 2 postpone fliteral again ;",
    ": fillt begin postpone .\" again ; : filly begin ['] dup compile, again ; : filld> begin postpone does> again ;",
];
/// Fillers and how many free bytes may be left (0: not checked).
const FILL: &[(&str, usize)] = &[
    ("fill,", 8), ("fillc", 1), ("fill2", 16), ("fillf", 16), ("filla", 1), ("filld", 8), ("fillr", 8), ("fillb", 16), ("filli", 16), ("fillo", 32),
    ("fills", 24), ("fillx", 8), ("fillq", 32), ("fillk", 0), ("fillu", 16), ("fillw", 32), ("fille", 32), ("fillg", 16), ("fillh", 48), ("filll", 16),
    ("fillt", 32), ("filly", 8), ("filld>", 16),
];
const WITNESS: &str = "w0 w1 w2 v1 @ t1 @ t1 cell+ @ t1 2 cells + @ c1 d1 l1 df f1 f. s1";

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    s: Vec<i64>,
    f: Vec<u64>,
    out: String,
}
/// Run lines; stacks and output at the end, or the error.
fn run(m: &mut M, lines: &[String]) -> Result<Seen, i64> {
    m.clear_s();
    let _ = m.out();
    for l in lines {
        if l.is_empty() {
            continue;
        }
        match m.line_steps(l, 200_000) {
            Some(0) => {}
            Some(e) => return Err(e),
            None => return Err(7777),
        }
    }
    Ok(Seen { s: m.s(), f: m.fbits(), out: m.out() })
}
fn one(m: &mut M, l: &str) -> Result<Seen, i64> {
    run(m, &[l.to_string()])
}
fn names(m: &mut M) -> String {
    let _ = m.out();
    m.line("words");
    m.out()
}
/// Free space below which the machine's own variables live: everything in use up to `to`.
fn used(m: &M, to: usize) -> Vec<u8> {
    m.bytes(m.start(), to - m.start())
}

fn move_to(m: &mut M, addr: usize) -> R {
    let h = m.here();
    m.push(addr as i64 - h as i64);
    let e = m.line("allot");
    ensure!(e == 0 && m.here() == addr, "allot inside the data space refused", "from offset {} to {} of {}: error {} here {}", h - m.start(), addr - m.start(), m.limit() - m.start(), e, m.here() as i64 - m.start() as i64);
    Ok(())
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::new();
    for l in SETUP {
        let e = m.line(l);
        ensure!(e == 0, "setup refused", "`{}` gave {}", l, e);
    }
    for _ in 0..rng.us(6) {
        let e = m.line("1 c,");
        ensure!(e == 0, "setup refused", "c, gave {}", e);
    }
    let witness = match one(&mut m, WITNESS) {
        Ok(w) => w,
        Err(e) => return fail("setup refused", format!("witness words gave {}", e)),
    };
    let rounds = if cx.small { 8 } else { 50 };
    for round in 0..rounds {
        match rng.below(8) {
            0 => allot_round(cx, &mut m, &mut rng)?,
            1 => fill_round(cx, &mut m, &mut rng)?,
            2 => history_round(cx, &mut m, &mut rng, round)?,
            _ => op_round(cx, &mut m, &mut rng, round)?,
        }
        let w = one(&mut m, WITNESS);
        ensure!(w.as_ref() == Ok(&witness), "earlier words changed by running out of space", "after round {}: {:?} instead of {:?}", round, w, witness);
        m.clear_s();
    }
    Ok(())
}

fn op_round(cx: &mut Cx, m: &mut M, rng: &mut Rng, round: usize) -> R {
    let o = op(rng, round);
    let (h0, list0, len0) = (m.here(), names(m), m.vm.wordlist().len());
    let limit = m.limit();
    // with plenty of room
    let off = rng.us(16);
    let e = m.line("marker back!0");
    ensure!(e == 0, "marker refused with plenty of room", "error {}", e);
    let at = (m.here() + 15) / 16 * 16 + off;
    move_to(m, at)?;
    let mut all = o.lines.clone();
    let r0 = run(m, &o.lines);
    ensure!(r0.is_ok(), "operation fails with plenty of room", "{:?} gave {:?}", o.lines, r0);
    let need = m.here() as i64 - at as i64;
    let p0 = run(m, &o.post);
    ensure!(p0.is_ok(), "operation fails with plenty of room", "{:?} after {:?} gave {:?}", o.post, o.lines, p0);
    if o.post == [""] {
        all.clear();
    }
    let e = m.line("back!0");
    ensure!(e == 0 && m.here() == h0 && names(m) == list0 && m.vm.wordlist().len() == len0, "marker does not restore", "error {} here {} was {}", e, m.here(), h0);
    m.clear_s();
    let need = need.max(0) as usize;
    // with k bytes
    let k = match rng.below(8) {
        0 => rng.us(20),
        1 => need + rng.us(3),
        2 => need.saturating_sub(1 + rng.us(8)),
        3 => need + 32 + rng.us(80),
        4 => rng.us(need + 100),
        _ => rng.us(need + 1),
    };
    // the same alignment as before
    let k = k + (16 - (off + k) % 16) % 16;
    let k = if rng.chance(1, 2) && k >= 16 { k - 16 } else { k };
    let e = m.line("marker back!1");
    ensure!(e == 0, "marker refused with plenty of room", "error {}", e);
    let at = limit - k;
    let fillfrom = m.here();
    move_to(m, at)?;
    // allotted space gets a pattern
    for (i, a) in (fillfrom..at).enumerate().skip(0).step_by(1) {
        unsafe { *(a as *mut u8) = (i % 251) as u8 };
    }
    let (list1, len1) = (names(m), m.vm.wordlist().len());
    let before = used(m, at);
    let r = run(m, &o.lines);
    let here1 = m.here();
    ensure!(here1 >= m.start() && here1 <= limit, "free pointer outside the data space", "{:?} with {} bytes free: here is {} of {}", o.lines, k, here1 as i64 - m.start() as i64, limit - m.start());
    ensure!(here1 >= at, "free pointer moved back", "{:?} with {} bytes free: here went back by {}", o.lines, k, at - here1);
    let after = used(m, at);
    if let Some(p) = (0..after.len()).find(|i| after[*i] != before[*i]) {
        return fail("data below the free pointer overwritten", format!("{:?} with {} bytes free (needs {}): byte at here-{} was {:#x}, is {:#x}; result {:?}", o.lines, k, need, after.len() - p, before[p], after[p], r));
    }
    match &r {
        Ok(seen) => {
            ensure!(k >= need, "no exception although the space does not suffice", "{:?} needs {} bytes, {} were free; result {:?}", o.lines, need, k, seen);
            ensure!(here1 - at == need, "free pointer inconsistent", "{:?} took {} bytes, {} with plenty of room", o.lines, here1 - at, need);
            let p = run(m, &o.post);
            // What runs afterwards may itself need space.
            if !(p.is_err() && o.post.iter().any(|x| x.contains(": tt"))) {
                ensure!(p == p0, "operation that fitted does not work", "{:?} with {} bytes free, then {:?}: {:?} instead of {:?}", o.lines, k, o.post, p, p0);
            }
            m.recover();
            cx.count("operations that fitted", 1);
        }
        Err(e) => {
            ensure!(*e == -8 || *e == -9, "wrong exception when the space does not suffice", "{:?} with {} bytes free (needs {}) raised {}", o.lines, k, need, e);
            ensure!(k < need + 64 + o.extra, "exception although the space suffices", "{:?} needs {} bytes, {} were free, but error {}", o.lines, need, k, e);
            m.recover();
            if o.lines[0].starts_with(": ") && o.words == 1 {
                let nm = o.lines[0].split_whitespace().nth(1).unwrap();
                ensure!(m.vm.find_(nm).is_none(), "definition that did not fit can be found", "{:?} with {} bytes free (needs {})", o.lines, k, need);
            }
            // at most the words of the operation are new, all others are as they were
            let list2 = names(m);
            ensure!(list2.ends_with(&list1) && m.vm.wordlist().len() <= len1 + o.words, "dictionary inconsistent after running out of space", "{:?} with {} bytes free: {} words before, {} after; newest {:?}", o.lines, k, len1, m.vm.wordlist().len(), list2.chars().take(120).collect::<String>());
            let e = m.line("1 2 + drop");
            ensure!(e == 0, "machine unusable after running out of space", "error {}", e);
            cx.count("operations refused", 1);
        }
    }
    cx.distinct(mix(hash_str(&o.lines.join("\n")) ^ k as u64));
    // a full machine still works
    if rng.chance(1, 3) {
        let a = run(m, &["1 2 + 5 * . 1 . s1 l1 . v1 @ . here drop 3 4 .s 2drop base @ . 2.5e f. ' w1 execute . ' w2 .word".into()]);
        ensure!(matches!(&a, Ok(x) if x.out.starts_with("15 1 witness10 77 ") && x.s.is_empty()), "words that need no space fail when it is short", "{} bytes free: {:?}", limit - m.here(), a);
        m.clear_s();
        cx.count("programs run on a full machine", 1);
    }
    // space comes back
    let e = m.line("back!1");
    ensure!(e == 0 && m.here() == h0 && m.vm.wordlist().len() == len0, "marker does not release the space", "error {} here {} was {}", e, m.here(), h0);
    let l = names(m);
    ensure!(l == list0, "marker does not restore the listing", "{:?} was {:?}", l.chars().take(200).collect::<String>(), list0.chars().take(200).collect::<String>());
    let r = run(m, &["marker back!2 : zz 0 5 0 do i + loop ; zz create yy 9 , yy @ back!2".to_string()]);
    ensure!(matches!(&r, Ok(x) if x.s == [10, 9]), "released space not usable", "{:?}", r);
    m.clear_s();
    Ok(())
}

fn allot_round(cx: &mut Cx, m: &mut M, rng: &mut Rng) -> R {
    let (h0, st, lim) = (m.here(), m.start(), m.limit());
    for _ in 0..30 {
        let h = m.here();
        let v: i64 = match rng.below(9) {
            0 => rng.cell(),
            1 => (lim - h) as i64 + rng.range(-3, 3),
            2 => -((h - st) as i64) + rng.range(-3, 3),
            3 => *rng.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -(h as i64), -(h as i64) - 1, -(h as i64) + 1, i64::MAX - h as i64, i64::MAX - h as i64 + 1, 0]),
            4 => rng.range(-70000, 70000),
            5 => st as i64,
            6 => -(st as i64) + rng.range(-9, 9),
            _ => rng.range(-200, 3000),
        };
        let want = (h as i64).wrapping_add(v) as usize;
        let ok = want >= st && want <= lim && (h as i128 + v as i128) == want as i128;
        // below the words in use only to come back at once
        let img = m.image();
        m.clear_s();
        m.push(v);
        let e = m.line(if rng.chance(1, 2) { "allot" } else { "' allot execute" });
        let h1 = m.here();
        if ok {
            ensure!(e == 0 && h1 == want, "allot of space that is there refused", "{} allot at offset {} of {}: error {}, here moved by {}", v, h - st, lim - st, e, h1 as i64 - h as i64);
        } else {
            ensure!(e == -8 || e == -9, "allot beyond the data space not refused", "{} allot at offset {} of {}: error {}, here moved by {}", v, h - st, lim - st, e, h1 as i64 - h as i64);
            ensure!(h1 == h, "refused allot moves the free pointer", "{} allot at offset {} of {}: here moved by {}", v, h - st, lim - st, h1 as i64 - h as i64);
            m.recover();
        }
        ensure!(m.image() == img, "allot changes memory", "{} allot", v);
        cx.count("allots", 1);
        if m.here() < h0 || rng.chance(1, 4) {
            move_to(m, h0)?;
        }
    }
    move_to(m, h0)
}

/// Endless compiling or allocating loops end by the exception, with everything below intact.
fn fill_round(cx: &mut Cx, m: &mut M, rng: &mut Rng) -> R {
    let (w, rest) = *rng.pick(FILL);
    let (h0, list0, len0) = (m.here(), names(m), m.vm.wordlist().len());
    let e = m.line("marker back!0");
    ensure!(e == 0, "marker refused with plenty of room", "error {}", e);
    let k = if rng.chance(2, 3) { rng.us(40) } else { rng.us(5000) };
    let at = m.limit() - k;
    let from = m.here();
    move_to(m, at)?;
    for (i, a) in (from..at).enumerate() {
        unsafe { *(a as *mut u8) = (i % 249) as u8 };
    }
    let before = used(m, at);
    m.clear_s();
    let e = m.line_steps(w, 300_000);
    let here = m.here();
    ensure!(here >= at && here <= m.limit(), "free pointer outside the data space", "`{}` with {} bytes free: here moved by {}", w, k, here as i64 - at as i64);
    let after = used(m, at);
    if let Some(p) = (0..after.len()).find(|i| after[*i] != before[*i]) {
        return fail("data below the free pointer overwritten", format!("`{}` with {} bytes free: byte at here-{} was {:#x}, is {:#x}; error {:?}", w, k, after.len() - p, before[p], after[p], e));
    }
    ensure!(e.is_some(), "no exception although the space is used up", "`{}` with {} bytes free still runs, {} free", w, k, m.limit() - here);
    ensure!(e == Some(-8) || e == Some(-9), "wrong exception when the space does not suffice", "`{}` with {} bytes free raised {:?}", w, k, e);
    if rest > 0 {
        ensure!(m.limit() - here < rest + 8, "exception although the space suffices", "`{}` stopped with {} bytes free", w, m.limit() - here);
    }
    m.recover();
    if w == "fill," || w == "fillc" {
        let want: &[u8] = if w == "fillc" { &[172] } else { &[171, 0, 0, 0, 0, 0, 0, 0] };
        let n = if w == "fillc" { k } else { k / 8 * 8 };
        let got = m.bytes(at, n);
        ensure!(here == at + n && got.iter().enumerate().all(|(i, b)| *b == want[i % want.len()]), "filling stops early", "`{}` with {} bytes free stored {}", w, k, here - at);
    }
    cx.count("data space filled up", 1);
    cx.distinct(mix(hash_str(w) ^ k as u64));
    let e = m.line("back!0");
    ensure!(e == 0 && m.here() == h0 && m.vm.wordlist().len() == len0 && names(m) == list0, "marker does not release the space", "error {} here {} was {}", e, m.here(), h0);
    Ok(())
}

/// Many real operations until nothing fits any more; all that succeeded must work then.
fn history_round(cx: &mut Cx, m: &mut M, rng: &mut Rng, round: usize) -> R {
    let (h0, list0, len0) = (m.here(), names(m), m.vm.wordlist().len());
    let e = m.line("marker back!0");
    ensure!(e == 0, "marker refused with plenty of room", "error {}", e);
    let at = m.limit() - rng.us(9000);
    move_to(m, at)?;
    let mut made: Vec<(Vec<String>, Vec<String>, Seen)> = vec![];
    let mut refused = 0;
    for i in 0..400 {
        let o = op(rng, round * 1000 + i);
        if o.lines[0].starts_with("marker") || o.lines[0].contains("allot") {
            continue;
        }
        let r = run(m, &o.lines);
        match r {
            Ok(_) => {
                if o.words > 0 && !o.post.iter().any(|x| x.contains(": tt")) {
                    match run(m, &o.post) {
                        Ok(s) => made.push((o.lines, o.post, s)),
                        Err(e) => return fail("operation that fitted does not work", format!("{:?} then {:?}: error {}", o.lines, o.post, e)),
                    }
                }
            }
            Err(e) => {
                ensure!(e == -8 || e == -9, "wrong exception when the space does not suffice", "{:?} with at most {} bytes free raised {}", o.lines, m.limit() - m.here(), e);
                m.recover();
                refused += 1;
                if refused > 12 {
                    break;
                }
            }
        }
        m.clear_s();
    }
    for (l, p, s) in &made {
        if p.iter().any(|x| x.contains("!")) && p.len() == 1 && p[0].contains("defer!") {
            continue;
        }
        let r = run(m, p);
        ensure!(r.as_ref() == Ok(s), "earlier words changed by running out of space", "{:?} then {:?}: {:?} instead of {:?}", l, p, r, s);
    }
    cx.count("words checked on a full machine", made.len() as u64);
    m.recover();
    let e = m.line("back!0");
    ensure!(e == 0 && m.here() == h0 && m.vm.wordlist().len() == len0 && names(m) == list0, "marker does not release the space", "error {} here {} was {}", e, m.here(), h0);
    Ok(())
}
