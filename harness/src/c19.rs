//! C19: defining words. A model holds every defined object with its address, size, contents and the
//! behaviour of its class; uses of every object by name, by token, inside old and new definitions are
//! compared with it, and the bytes of all of them with the data space.
use crate::c08::{flip_case, fresh_name};
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;

#[derive(Clone, Debug, PartialEq)]
enum Act {
    /// leaves the address of its cells
    Addr,
    /// runs DOES> body n
    Body(usize),
    /// mid-level defining word: makes children with one cell, its own counter, behaving as Body(n)
    Mid(usize),
}
#[derive(Clone, Debug)]
enum Kind {
    Cells { addr: usize, d: Vec<i64>, act: Act },
    FVar { addr: usize, v: f64 },
    Const(i64),
    Const2(i64, i64),
    FConst(f64),
    Bytes { addr: usize, d: Vec<u8> },
    Field(i64),
    Defer { addr: usize, to: Option<usize> },
}
#[derive(Clone)]
struct Obj {
    name: String,
    xt: i64,
    k: Kind,
}
#[derive(Clone)]
enum Parent {
    /// n cells, then action
    Cells(usize, Act),
    /// as a variable or 2variable, n zero cells
    Zero(usize, Act),
}
/// (text, cells needed, smallest and largest first cell, indexed)
const BODIES: &[(&str, usize)] = &[
    ("@ ev", 1),
    ("dup @ ev 1 swap +!", 1),
    ("dup @ ev cell+ @ ev", 2),
    ("swap cells + @ ev", 3),
    ("dup @ swap cell+ !", 2),
    ("dup @ 15 and 1+ 0 do i over cell+ +! loop @ ev", 2),
    ("dup @ 0< if cell+ then @ ev", 2),
    ("2@ - ev", 2),
    (">r r@ @ r> cell+ @ max ev", 2),
    ("0 begin dup 3 < while over @ ev 1+ repeat 2drop", 1),
    ("dup 3 0 do dup @ ev cell+ loop drop off", 3),
    ("[ 3 ] literal swap +!", 1),
];
fn body(n: usize, d: &mut [i64], arg: i64, ev: &mut Vec<i64>) {
    match n {
        0 => ev.push(d[0]),
        1 => {
            ev.push(d[0]);
            d[0] = d[0].wrapping_add(1);
        }
        2 => ev.extend([d[0], d[1]]),
        3 => ev.push(d[arg as usize]),
        4 => d[1] = d[0],
        5 => {
            let n = (d[0] & 15) + 1;
            for i in 0..n {
                d[1] = d[1].wrapping_add(i);
            }
            ev.push(d[0]);
        }
        6 => ev.push(if d[0] < 0 { d[1] } else { d[0] }),
        7 => ev.push(d[1].wrapping_sub(d[0])),
        8 => ev.push(d[0].max(d[1])),
        9 => ev.extend([d[0], d[0], d[0]]),
        10 => {
            ev.extend([d[0], d[1], d[2]]);
            d[0] = 0;
        }
        _ => d[0] = d[0].wrapping_add(3),
    }
}

/// What a compiled or typed use does, with the source that does it.
#[derive(Clone, Debug)]
enum Use {
    Get(usize),
    Set(usize, i64),
    Add(usize, i64),
    Run(i64),
    FGet,
    FSet(f64),
    Val,
    BGet(usize),
    BSet(usize, u8),
    Off(i64),
    /// byte through a structure field
    FieldB(usize, u8),
}

struct W {
    m: M,
    objs: Vec<Obj>,
    users: Vec<(String, usize, Use)>,
    names: Vec<String>,
    uid: u64,
}
impl W {
    fn line(&mut self, src: &str) -> R {
        let e = self.m.line(src);
        ensure!(e == 0, "valid line refused", "`{}` raised {}", src, e);
        Ok(())
    }
    fn name(&mut self, rng: &mut Rng, unique: bool) -> String {
        if !unique && !self.objs.is_empty() && rng.chance(1, 6) {
            let n = rng.pick(&self.objs).name.clone();
            return flip_case(rng, &n);
        }
        loop {
            let n = if rng.chance(1, 2) {
                self.uid += 1;
                format!("o{}{}", self.uid, "x".repeat(rng.us(14)))
            } else {
                fresh_name(rng, &self.names)
            };
            // never shadow what the generated sources use
            if self.names.contains(&n.to_ascii_lowercase()) || self.m.vm.find_(&n).is_some() || n.parse::<f64>().is_ok() || n.contains('"') || n.starts_with('$') || n.starts_with('%') || n.starts_with('#') || n.starts_with('\'') || n.starts_with('-') || n.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            self.names.push(n.to_ascii_lowercase());
            return n;
        }
    }
    /// Register a new object whose storage lies between `before` and here.
    fn add(&mut self, name: &str, before: usize, mut k: Kind) -> R {
        let xt = match self.m.vm.find_(name) {
            Some(x) => x as i64,
            None => return fail("defined word is not found", name.to_string()),
        };
        let now = self.m.here();
        let size = match &k {
            Kind::Cells { d, .. } => d.len() * 8,
            Kind::FVar { .. } | Kind::Defer { .. } => 8,
            Kind::Bytes { d, .. } => d.len(),
            _ => 0,
        };
        if size > 0 || matches!(k, Kind::Bytes { .. }) {
            let mut a = self.m.val(&format!("' {} >body", name))? as usize;
            if let Kind::FVar { .. } = k {
                // the aligned address is what the word itself leaves
                a = self.m.val(name)? as usize;
                ensure!(a % 8 == 0, "address of a float variable is not float aligned", "{} {:x}", name, a);
            }
            ensure!(a >= before && a + size <= now, "storage of a definition is not newly allotted space", "{}: {:x}+{} not inside {:x}..{:x}", name, a, size, before, now);
            match &mut k {
                Kind::Cells { addr, .. } | Kind::FVar { addr, .. } | Kind::Bytes { addr, .. } | Kind::Defer { addr, .. } => *addr = a,
                _ => {}
            }
        }
        self.objs.push(Obj { name: name.to_string(), xt, k });
        Ok(())
    }
    /// The newest object of that name.
    fn visible(&self, i: usize) -> bool {
        let key = self.objs[i].name.to_ascii_lowercase();
        !self.objs[i + 1..].iter().any(|o| o.name.to_ascii_lowercase() == key)
    }
    fn choose(&self, rng: &mut Rng, i: usize) -> Use {
        let v = rng.cell();
        match &self.objs[i].k {
            Kind::Cells { d, act: Act::Addr, .. } => {
                let k = rng.us(d.len());
                match rng.below(4) {
                    0 | 1 => Use::Get(k),
                    2 => Use::Set(k, v),
                    _ => Use::Add(k, v),
                }
            }
            Kind::Cells { d, .. } => Use::Run(rng.us(d.len()) as i64),
            Kind::FVar { .. } => if rng.chance(1, 2) { Use::FGet } else { Use::FSet(rng.range(-99999, 99999) as f64) },
            Kind::Const(_) | Kind::Const2(..) | Kind::FConst(_) => Use::Val,
            Kind::Bytes { d, .. } => {
                let k = rng.us(d.len());
                let fields: Vec<usize> = (0..self.objs.len()).filter(|f| matches!(self.objs[*f].k, Kind::Field(o) if (o as usize) < d.len()) && self.visible(*f)).collect();
                match rng.below(3) {
                    0 => Use::BGet(k),
                    1 if !fields.is_empty() => Use::FieldB(*rng.pick(&fields), v as u8),
                    _ => Use::BSet(k, v as u8),
                }
            }
            Kind::Field(_) => Use::Off(v),
            Kind::Defer { .. } => Use::Run(rng.us(1) as i64),
        }
    }
    fn source(&self, call: &str, i: usize, u: &Use) -> String {
        match u {
            Use::Get(k) => format!("{} {} cells + @ ev", call, k),
            Use::Set(k, v) => format!("{} {} {} cells + !", v, call, k),
            Use::Add(k, v) => format!("{} {} {} cells + +!", v, call, k),
            Use::Run(a) => match &self.objs[i].k {
                Kind::Cells { act: Act::Body(3), .. } => format!("{} {}", a, call),
                _ => call.to_string(),
            },
            Use::FGet => format!("{} f@ fev", call),
            Use::FSet(v) => format!("{}e {} f!", v, call),
            Use::Val => match &self.objs[i].k {
                Kind::Const(_) => format!("{} ev", call),
                Kind::Const2(..) => format!("{} ev ev", call),
                _ => format!("{} fev", call),
            },
            Use::BGet(k) => format!("{} {} + c@ ev", call, k),
            Use::BSet(k, v) => format!("{} {} {} + c!", v, call, k),
            Use::Off(v) => format!("{} {} ev", v, call),
            Use::FieldB(f, v) => format!("{} {} {} c!", v, call, self.objs[*f].name),
        }
    }
    /// Effect on the model.
    fn effect(&mut self, i: usize, u: &Use, ev: &mut Vec<(bool, i64)>) {
        let field = match u {
            Use::FieldB(f, v) => match self.objs[*f].k {
                Kind::Field(o) => Some((o as usize, *v)),
                _ => None,
            },
            _ => None,
        };
        if let Kind::Defer { to, .. } = &self.objs[i].k {
            if let Some(t) = *to {
                match self.objs[t].k.clone() {
                    Kind::Const(_) => {}
                    _ => {
                        let u2 = Use::Run(0);
                        self.effect(t, &u2, ev);
                    }
                }
            }
            return;
        }
        match (&mut self.objs[i].k, u) {
            (Kind::Cells { d, .. }, Use::Get(k)) => ev.push((false, d[*k])),
            (Kind::Cells { d, .. }, Use::Set(k, v)) => d[*k] = *v,
            (Kind::Cells { d, .. }, Use::Add(k, v)) => d[*k] = d[*k].wrapping_add(*v),
            (Kind::Cells { d, act: Act::Body(n), .. }, Use::Run(a)) => {
                let mut o = vec![];
                body(*n, d, *a, &mut o);
                ev.extend(o.into_iter().map(|x| (false, x)));
            }
            (Kind::FVar { v, .. }, Use::FGet) => ev.push((true, v.to_bits() as i64)),
            (Kind::FVar { v, .. }, Use::FSet(x)) => *v = *x,
            (Kind::Const(v), _) => ev.push((false, *v)),
            (Kind::Const2(a, b), _) => ev.extend([(false, *b), (false, *a)]),
            (Kind::FConst(v), _) => ev.push((true, v.to_bits() as i64)),
            (Kind::Bytes { d, .. }, Use::BGet(k)) => ev.push((false, d[*k] as i64)),
            (Kind::Bytes { d, .. }, Use::BSet(k, v)) => d[*k] = *v,
            (Kind::Bytes { d, .. }, Use::FieldB(..)) => {
                let (o, v) = field.unwrap();
                d[o] = v;
            }
            (Kind::Field(o), Use::Off(v)) => ev.push((false, v.wrapping_add(*o))),
            _ => {}
        }
    }
    fn observed(&mut self) -> Vec<(bool, i64)> {
        hooks::take()
            .into_iter()
            .map(|e| match e {
                Ev::I { v, .. } => (false, v),
                Ev::F { v, .. } => (true, v as i64),
                _ => (false, i64::MIN),
            })
            .collect()
    }
    /// Use object `i` in some way.
    fn use_it(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        if matches!(self.objs[i].k, Kind::Cells { act: Act::Mid(_), .. }) {
            return Ok(()); // makes children, see the main loop
        }
        let u = self.choose(rng, i);
        let vis = self.visible(i);
        let name = flip_case(rng, &self.objs[i].name.clone());
        let compile = rng.chance(1, 3) && self.m.limit() - self.m.here() > 4000;
        let call = if !vis { format!("{} execute", self.objs[i].xt) } else if rng.chance(1, 4) { if compile { format!("['] {} execute", name) } else { format!("' {} execute", name) } } else { name };
        let src = self.source(&call, i, &u);
        let mut want = vec![];
        self.effect(i, &u, &mut want);
        let defer_const = match &self.objs[i].k {
            Kind::Defer { to: Some(t), .. } => matches!(self.objs[*t].k, Kind::Const(_)),
            _ => false,
        };
        // A deferred constant leaves its value.
        let left = if defer_const {
            match &self.objs[i].k {
                Kind::Defer { to: Some(t), .. } => match self.objs[*t].k {
                    Kind::Const(v) => vec![v],
                    _ => vec![],
                },
                _ => vec![],
            }
        } else {
            vec![]
        };
        hooks::take();
        let line = if compile {
            self.uid += 1;
            let un = format!("u#{}", self.uid);
            if !matches!(u, Use::Set(..) | Use::FSet(_) | Use::BSet(..) | Use::FieldB(..)) || rng.chance(1, 4) {
                self.users.push((un.clone(), i, u.clone()));
            }
            if rng.chance(1, 2) {
                self.line(&format!(": {} {} ;", un, src))?;
            } else {
                for t in format!(": {}\n{}\n;", un, src.replace(' ', "\n")).replace("[']\n", "['] ").split('\n') {
                    self.line(t)?;
                }
            }
            un
        } else {
            src
        };
        self.line(&line)?;
        self.compare(&line, &want, &left)?;
        cx.count("uses", 1);
        cx.distinct(mix(hash_str(&line) ^ self.objs.len() as u64));
        Ok(())
    }
    fn compare(&mut self, line: &str, want: &[(bool, i64)], left: &[i64]) -> R {
        let got = self.observed();
        let s = self.m.s();
        ensure!(got == want && s == left, "use of a defined word differs from what its defining word promises", "`{}`: reported {:?} stack {:?}, expected {:?} stack {:?}", line, got, s, want, left);
        ensure!(self.m.fbits().is_empty() && self.m.rlen() == 0, "use of a defined word left something behind", "`{}`", line);
        if !s.is_empty() {
            self.m.clear_s();
        }
        Ok(())
    }
    fn run_user(&mut self, cx: &mut Cx, k: usize) -> R {
        let (un, i, u) = self.users[k].clone();
        let mut want = vec![];
        self.effect(i, &u, &mut want);
        let left = match &self.objs[i].k {
            Kind::Defer { to: Some(t), .. } => match self.objs[*t].k {
                Kind::Const(v) => vec![v],
                _ => vec![],
            },
            _ => vec![],
        };
        hooks::take();
        self.line(&un)?;
        self.compare(&un, &want, &left)?;
        cx.count("old uses", 1);
        Ok(())
    }
    /// Everything every object owns is in memory as the model says.
    fn storage(&mut self, cx: &mut Cx) -> R {
        for o in self.objs.clone() {
            let (a, want): (usize, Vec<u8>) = match &o.k {
                Kind::Cells { addr, d, .. } => (*addr, d.iter().flat_map(|x| x.to_ne_bytes()).collect()),
                Kind::FVar { addr, v } => (*addr, v.to_ne_bytes().to_vec()),
                Kind::Bytes { addr, d } => (*addr, d.clone()),
                Kind::Defer { addr, to: Some(t) } => (*addr, self.objs[*t].xt.to_ne_bytes().to_vec()),
                _ => continue,
            };
            let got = self.m.bytes(a, want.len());
            ensure!(got == want, "contents of a definition's storage changed without a store", "{}: {:?} instead of {:?}", o.name, got, want);
            cx.count("objects compared with memory", 1);
        }
        Ok(())
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut w = W { m: M::hooked(), objs: vec![], users: vec![], names: vec![], uid: 0 };
    hooks::take();
    let mut parents: Vec<(String, Parent)> = vec![];
    let steps = if cx.small { 40 } else { 160 };
    for step in 0..steps {
        if w.m.limit() - w.m.here() < 3000 {
            break;
        }
        let before = w.m.here();
        match rng.below(30) {
            0 | 1 => {
                // misalign or move the free pointer
                match rng.below(3) {
                    0 => {
                        let n = rng.range(1, 40);
                        w.line(&format!("{} allot", n))?;
                    }
                    1 => {
                        w.line(&format!("{} c,", rng.range(0, 255)))?;
                    }
                    _ => {
                        w.line(["align", "falign", "1 allot -1 allot", "0 allot"][rng.us(4)])?;
                    }
                }
            }
            2 => {
                let n = w.name(&mut rng, false);
                w.line(&format!("variable {}", n))?;
                w.add(&n, before, Kind::Cells { addr: 0, d: vec![0], act: Act::Addr })?;
            }
            3 => {
                let n = w.name(&mut rng, false);
                w.line(&format!("2variable {}", n))?;
                w.add(&n, before, Kind::Cells { addr: 0, d: vec![0, 0], act: Act::Addr })?;
            }
            4 => {
                let n = w.name(&mut rng, false);
                w.line(&format!("fvariable {}", n))?;
                w.add(&n, before, Kind::FVar { addr: 0, v: 0.0 })?;
            }
            5 => {
                let n = w.name(&mut rng, false);
                let v = rng.cell();
                w.line(&format!("{} constant {}", v, n))?;
                w.add(&n, before, Kind::Const(v))?;
            }
            6 => {
                let n = w.name(&mut rng, false);
                let (a, b) = (rng.cell(), rng.cell());
                w.line(&format!("{} {} 2constant {}", a, b, n))?;
                w.add(&n, before, Kind::Const2(a, b))?;
            }
            7 => {
                let n = w.name(&mut rng, false);
                let v = rng.tame();
                w.m.fpush(v);
                w.line(&format!("fconstant {}", n))?;
                w.add(&n, before, Kind::FConst(v))?;
            }
            8 => {
                // create with cells laid down in any way
                let n = w.name(&mut rng, false);
                let d: Vec<i64> = (0..rng.range(1, 6)).map(|_| rng.cell()).collect();
                w.line(&format!("create {}", n))?;
                let mut k = 0;
                while k < d.len() {
                    if k + 1 < d.len() && rng.chance(1, 3) {
                        // 2, stores the top of the stack first
                        w.line(&format!("{} {} 2,", d[k + 1], d[k]))?;
                        k += 2;
                    } else {
                        w.line(&format!("{} ,", d[k]))?;
                        k += 1;
                    }
                }
                w.add(&n, before, Kind::Cells { addr: 0, d, act: Act::Addr })?;
            }
            9 => {
                // bytes: c, or allot and fill, leaving here misaligned
                let n = w.name(&mut rng, false);
                let len = rng.range(1, 40) as usize;
                w.line(&format!("create {}", n))?;
                let d: Vec<u8> = if rng.chance(1, 2) {
                    let c = rng.below(256) as u8;
                    w.line(&format!("{} allot {} {} {} fill", len, n, len, c))?;
                    vec![c; len]
                } else {
                    let d: Vec<u8> = (0..len).map(|_| rng.below(256) as u8).collect();
                    for c in &d {
                        w.line(&format!("{} c,", c))?;
                    }
                    d
                };
                w.add(&n, before, Kind::Bytes { addr: 0, d })?;
            }
            10 => {
                // a structure: fields and an instance
                let mut off = rng.range(0, 9);
                w.line(&off.to_string())?;
                for _ in 0..rng.range(1, 4) {
                    let n = w.name(&mut rng, true);
                    let b4 = w.m.here();
                    let size = *rng.pick(&[1i64, 2, 3, 4, 8, 16]);
                    if rng.chance(1, 3) && size == 8 {
                        w.line("aligned 1 cells")?;
                        off = (off + 7) / 8 * 8;
                    } else {
                        w.line(&size.to_string())?;
                    }
                    w.line(&format!("+field {}", n))?;
                    let s = w.m.s();
                    ensure!(s == [off + size], "+field left a wrong size", "{:?} instead of {}", s, off + size);
                    let keep = w.m.pop();
                    w.add(&n, b4, Kind::Field(off))?;
                    w.m.push(keep);
                    off += size;
                }
                w.m.clear_s();
                let n = w.name(&mut rng, true);
                let b4 = w.m.here();
                w.line(&format!("create {} {} allot", n, off))?;
                w.line(&format!("{} {} 0 fill", n, off))?;
                w.add(&n, b4, Kind::Bytes { addr: 0, d: vec![0; off as usize] })?;
            }
            11 => {
                let n = w.name(&mut rng, true);
                w.line(&format!("defer {}", n))?;
                w.add(&n, before, Kind::Defer { addr: 0, to: None })?;
            }
            12 | 13 => {
                // point a deferred word elsewhere
                let ds: Vec<usize> = (0..w.objs.len()).filter(|i| matches!(w.objs[*i].k, Kind::Defer { .. }) && w.visible(*i)).collect();
                let ts: Vec<usize> = (0..w.objs.len())
                    .filter(|i| match &w.objs[*i].k {
                        Kind::Const(_) => true,
                        Kind::Cells { act: Act::Body(n), .. } => *n != 3,
                        _ => false,
                    })
                    .collect();
                if !ds.is_empty() && !ts.is_empty() {
                    let (d, t) = (*rng.pick(&ds), *rng.pick(&ts));
                    let (dn, xt) = (w.objs[d].name.clone(), w.objs[t].xt);
                    if rng.chance(1, 2) {
                        w.line(&format!("{} ' {} defer!", xt, dn))?;
                    } else {
                        w.uid += 1;
                        let un = format!("u#{}", w.uid);
                        w.line(&format!(": {} {} ['] {} defer! ; {}", un, xt, dn, un))?;
                    }
                    if let Kind::Defer { to, .. } = &mut w.objs[d].k {
                        *to = Some(t);
                    }
                    let got = w.m.val(&format!("' {} defer@", dn))?;
                    ensure!(got == xt, "defer@ differs from what defer! stored", "{} instead of {}", got, xt);
                    cx.count("defer!", 1);
                }
            }
            14 | 15 | 16 => {
                // a new defining word
                let n = w.name(&mut rng, true);
                let b = rng.us(BODIES.len());
                let need = BODIES[b].1;
                let cells = need + rng.us(3);
                let lay = |rng: &mut Rng, cells: usize| {
                    let mut s = String::new();
                    let mut k = 0;
                    while k < cells {
                        match rng.below(4) {
                            0 if k + 2 <= cells => {
                                s.push_str("2, ");
                                k += 2
                            }
                            1 => {
                                s.push_str("here 1 cells allot ! ");
                                k += 1
                            }
                            _ => {
                                s.push_str(", ");
                                k += 1
                            }
                        }
                    }
                    s
                };
                let p = match rng.below(9) {
                    0 => {
                        // no does>: leaves the address
                        let l = lay(&mut rng, cells);
                        w.line(&format!(": {} create {};", n, l))?;
                        Parent::Cells(cells, Act::Addr)
                    }
                    1 => {
                        w.line(&format!(": {} variable does> {} ;", n, BODIES[0].0))?;
                        Parent::Zero(1, Act::Body(0))
                    }
                    2 => {
                        let b2 = *rng.pick(&[1usize, 2, 4, 5, 6, 7, 8, 9]);
                        w.line(&format!(": {} 2variable does> {} ;", n, BODIES[b2].0))?;
                        Parent::Zero(2, Act::Body(b2))
                    }
                    3 if !parents.is_empty() => {
                        // built on another defining word, with or without an own action
                        let (pn, pp) = rng.pick(&parents).clone();
                        let (cells, zero, act) = match &pp {
                            Parent::Cells(c, a) => (*c, false, a.clone()),
                            Parent::Zero(c, a) => (*c, true, a.clone()),
                        };
                        let fit: Vec<usize> = (0..BODIES.len()).filter(|b| BODIES[*b].1 <= cells).collect();
                        let act = if rng.chance(1, 3) {
                            w.line(&format!(": {} {} ;", n, pn))?;
                            act
                        } else {
                            let b = *rng.pick(&fit);
                            w.line(&format!(": {} {} does> {} ;", n, pn, BODIES[b].0))?;
                            Act::Body(b)
                        };
                        if zero { Parent::Zero(cells, act) } else { Parent::Cells(cells, act) }
                    }
                    4 | 5 => {
                        // children are defining words themselves
                        let ones: Vec<usize> = (0..BODIES.len()).filter(|b| BODIES[*b].1 == 1).collect();
                        let b = *rng.pick(&ones);
                        let l = lay(&mut rng, 1);
                        w.line(&format!(": {} create {}does> dup @ 1 rot +! create , does> {} ;", n, l, BODIES[b].0))?;
                        Parent::Cells(1, Act::Mid(b))
                    }
                    6 => {
                        // the action is attached by another word
                        let d = w.name(&mut rng, true);
                        let l = lay(&mut rng, cells);
                        w.line(&format!(": {} does> {} ;", d, BODIES[b].0))?;
                        w.line(&format!(": {} create {}{} ;", n, l, d))?;
                        Parent::Cells(cells, Act::Body(b))
                    }
                    _ => {
                        let l = lay(&mut rng, cells);
                        if rng.chance(1, 3) {
                            w.line(&format!(": {} create {}", n, l))?;
                            w.line("does>")?;
                            w.line(BODIES[b].0)?;
                            w.line(";")?;
                        } else {
                            w.line(&format!(": {} create {}does> {} ;", n, l, BODIES[b].0))?;
                        }
                        Parent::Cells(cells, Act::Body(b))
                    }
                };
                parents.push((n, p));
                cx.count("defining words defined", 1);
            }
            17 | 18 | 19 | 20 if !parents.is_empty() => {
                // a child
                let (pn, p) = rng.pick(&parents).clone();
                let n = w.name(&mut rng, false);
                let pn = flip_case(&mut rng, &pn);
                let (d, act) = match p {
                    Parent::Cells(c, act) => {
                        let d: Vec<i64> = (0..c).map(|_| rng.cell()).collect();
                        for v in d.iter().rev() {
                            w.m.push(*v);
                        }
                        (d, act)
                    }
                    Parent::Zero(c, act) => (vec![0; c], act),
                };
                w.line(&format!("{} {}", pn, n))?;
                ensure!(w.m.s().is_empty(), "a defining word left something", "{} {} left {:?}", pn, n, w.m.s());
                w.add(&n, before, Kind::Cells { addr: 0, d, act })?;
                cx.count("children made", 1);
            }
            21 => {
                // children of a child
                let ms: Vec<usize> = (0..w.objs.len()).filter(|i| matches!(w.objs[*i].k, Kind::Cells { act: Act::Mid(_), .. }) && w.visible(*i)).collect();
                if !ms.is_empty() {
                    let i = *rng.pick(&ms);
                    let mn = w.objs[i].name.clone();
                    let n = w.name(&mut rng, true);
                    w.line(&format!("{} {}", mn, n))?;
                    let (v, b) = match &mut w.objs[i].k {
                        Kind::Cells { d, act: Act::Mid(b), .. } => {
                            let v = d[0];
                            d[0] = v.wrapping_add(1);
                            (v, *b)
                        }
                        _ => unreachable!(),
                    };
                    w.add(&n, before, Kind::Cells { addr: 0, d: vec![v], act: Act::Body(b) })?;
                    cx.count("children of children", 1);
                }
            }
            22 => {
                // one definition given one action after the other
                let n = w.name(&mut rng, true);
                let d: Vec<i64> = (0..4).map(|_| rng.cell()).collect();
                w.line(&format!("create {} {} , {} , {} , {} ,", n, d[0], d[1], d[2], d[3]))?;
                w.add(&n, before, Kind::Cells { addr: 0, d, act: Act::Addr })?;
                let i = w.objs.len() - 1;
                let makers: Vec<(String, usize)> = (0..2)
                    .map(|_| (w.name(&mut rng, true), rng.us(BODIES.len())))
                    .collect();
                // The words that attach come first: an action goes to the latest definition.
                let last = w.objs.pop().unwrap();
                for (mk, b) in &makers {
                    w.line(&format!(": {} does> {} ;", mk, BODIES[*b].0))?;
                }
                let n2 = w.name(&mut rng, true);
                let b4 = w.m.here();
                w.objs.push(last);
                let d: Vec<i64> = (0..4).map(|_| rng.cell()).collect();
                w.line(&format!("create {} {} , {} , {} , {} ,", n2, d[0], d[1], d[2], d[3]))?;
                w.add(&n2, b4, Kind::Cells { addr: 0, d, act: Act::Addr })?;
                let j = w.objs.len() - 1;
                for (mk, b) in &makers {
                    w.line(mk)?;
                    if let Kind::Cells { act, .. } = &mut w.objs[j].k {
                        *act = Act::Body(*b);
                    }
                    let u = Use::Run(rng.us(4) as i64);
                    let src = w.source(&n2, j, &u);
                    let mut want = vec![];
                    w.effect(j, &u, &mut want);
                    hooks::take();
                    w.line(&src)?;
                    w.compare(&src, &want, &[])?;
                    cx.count("actions replaced", 1);
                }
                let _ = i;
            }
            23 => {
                w.storage(cx)?;
            }
            24 | 25 if !w.users.is_empty() => {
                let k = rng.us(w.users.len());
                w.run_user(cx, k)?;
            }
            _ if !w.objs.is_empty() => {
                let i = rng.us(w.objs.len());
                w.use_it(cx, &mut rng, i)?;
            }
            _ => {}
        }
        let _ = step;
        let _ = w.m.out();
    }
    w.storage(cx)?;
    for i in 0..w.objs.len() {
        w.use_it(cx, &mut rng, i)?;
    }
    for k in 0..w.users.len() {
        w.run_user(cx, k)?;
    }
    w.storage(cx)?;
    cx.count("objects", w.objs.len() as u64);
    cx.sample(|| format!("{} objects, {} defining words, {} compiled users", w.objs.len(), parents.len(), w.users.len()));
    Ok(())
}
