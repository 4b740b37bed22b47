//! C06: structured programs. A random syntax tree is printed as Forth and interpreted in Rust; the
//! event sequences, final stacks and a second run are compared.
use crate::ensure;
use crate::hooks::{self, Ev};
use crate::util::*;
use crate::vmx::*;

#[derive(Clone, Debug)]
pub enum N {
    Lit(i64),
    Op(&'static str),
    Ev,
    If(Vec<N>, Option<Vec<N>>),
    Until(Vec<N>),
    While(Vec<N>, Vec<N>),
    Again(Vec<N>),
    Do { q: bool, body: Vec<N>, step: Option<Vec<N>> },
    Leave,
    Exit,
    Case(Vec<(Vec<N>, Vec<N>)>, Vec<N>),
    Call(usize),
    Recurse,
    Label(i64),
    Goto(i64),
    CallL(i64),
}
use N::*;

pub fn text(v: &[N], o: &mut String) {
    for n in v {
        match n {
            Lit(x) => o.push_str(&format!("{} ", x)),
            Op(t) => {
                o.push_str(t);
                o.push(' ')
            }
            Ev => o.push_str("ev "),
            If(a, b) => {
                o.push_str("if ");
                text(a, o);
                if let Some(b) = b {
                    o.push_str("else ");
                    text(b, o);
                }
                o.push_str("then ");
            }
            Until(a) => {
                o.push_str("begin ");
                text(a, o);
                o.push_str("until ");
            }
            While(a, b) => {
                o.push_str("begin ");
                text(a, o);
                o.push_str("while ");
                text(b, o);
                o.push_str("repeat ");
            }
            Again(a) => {
                o.push_str("begin ");
                text(a, o);
                o.push_str("again ");
            }
            Do { q, body, step } => {
                o.push_str(if *q { "?do " } else { "do " });
                text(body, o);
                match step {
                    Some(s) => {
                        text(s, o);
                        o.push_str("+loop ");
                    }
                    None => o.push_str("loop "),
                }
            }
            Leave => o.push_str("leave "),
            Exit => o.push_str("exit "),
            Case(v, d) => {
                o.push_str("case ");
                for (a, b) in v {
                    text(a, o);
                    o.push_str("of ");
                    text(b, o);
                    o.push_str("endof ");
                }
                text(d, o);
                o.push_str("endcase ");
            }
            Call(k) => o.push_str(&format!("w{} ", k)),
            Recurse => o.push_str("recurse "),
            Label(k) => o.push_str(&format!("[ {} ] label ", k)),
            Goto(k) => o.push_str(&format!("[ {} ] goto ", k)),
            CallL(k) => o.push_str(&format!("[ {} ] call ", k)),
        }
    }
}

enum RV {
    V(i64),
    L { i: i64, lim: i64 },
    Ret,
}
enum Fl {
    Go,
    Leave,
    Exit,
    Goto(i64),
}

pub struct Def {
    pub code: Vec<N>,
    /// code is a flat list with labels
    pub machine: bool,
}

struct Run<'a> {
    defs: &'a [Def],
    s: Vec<i64>,
    r: Vec<RV>,
    ev: Vec<i64>,
    steps: u64,
    rmax: usize,
    smax: usize,
    loops: u64,
}
/// The program left what the model covers (too long, too deep).
struct Out;

impl<'a> Run<'a> {
    fn pop(&mut self) -> i64 {
        self.s.pop().expect("generator: data stack")
    }
    fn def(&mut self, k: usize) -> Result<(), Out> {
        self.r.push(RV::Ret);
        let d = &self.defs[k];
        if d.machine {
            self.machine(k, 0)?;
        } else {
            match self.block(&d.code, k)? {
                Fl::Go | Fl::Exit => {}
                _ => panic!("generator: flow"),
            }
        }
        match self.r.pop() {
            Some(RV::Ret) => Ok(()),
            _ => panic!("generator: return stack"),
        }
    }
    /// Run a label program from an instruction until it exits.
    fn machine(&mut self, k: usize, from: usize) -> Result<(), Out> {
        let code = &self.defs[k].code;
        let mut pc = from;
        while pc < code.len() {
            match self.block(&code[pc..pc + 1], k)? {
                Fl::Go => pc += 1,
                Fl::Exit => return Ok(()),
                Fl::Goto(l) => {
                    pc = code.iter().position(|n| matches!(n, Label(x) if *x == l)).expect("label");
                }
                Fl::Leave => panic!("generator: leave"),
            }
        }
        Ok(())
    }
    fn block(&mut self, v: &[N], me: usize) -> Result<Fl, Out> {
        for n in v {
            self.steps += 1;
            self.smax = self.smax.max(self.s.len());
            let rl: usize = self.r.iter().map(|x| if let RV::L { .. } = x { 3 } else { 1 }).sum();
            self.rmax = self.rmax.max(rl);
            if self.steps > 15_000 || rl > 56 || self.s.len() > 56 {
                return Err(Out);
            }
            match n {
                Lit(x) => self.s.push(*x),
                Op(t) => self.op(t),
                Ev => {
                    let x = self.pop();
                    self.ev.push(x);
                }
                If(a, b) => {
                    let f = if self.pop() != 0 {
                        self.block(a, me)?
                    } else if let Some(b) = b {
                        self.block(b, me)?
                    } else {
                        Fl::Go
                    };
                    if !matches!(f, Fl::Go) {
                        return Ok(f);
                    }
                }
                Until(a) => loop {
                    let f = self.block(a, me)?;
                    if !matches!(f, Fl::Go) {
                        return Ok(f);
                    }
                    if self.pop() != 0 {
                        break;
                    }
                },
                While(a, b) => loop {
                    let f = self.block(a, me)?;
                    if !matches!(f, Fl::Go) {
                        return Ok(f);
                    }
                    if self.pop() == 0 {
                        break;
                    }
                    let f = self.block(b, me)?;
                    if !matches!(f, Fl::Go) {
                        return Ok(f);
                    }
                },
                Again(a) => loop {
                    let f = self.block(a, me)?;
                    if !matches!(f, Fl::Go) {
                        return Ok(f);
                    }
                    self.steps += 1;
                    if self.steps > 20_000 {
                        return Err(Out);
                    }
                },
                Do { q, body, step } => {
                    let (i, lim) = (self.pop(), self.pop());
                    if *q && i == lim {
                        continue;
                    }
                    self.r.push(RV::L { i, lim });
                    loop {
                        self.loops += 1;
                        let f = self.block(body, me)?;
                        match f {
                            Fl::Go => {}
                            Fl::Leave => {
                                match self.r.pop() {
                                    Some(RV::L { .. }) => {}
                                    _ => panic!("generator: leave"),
                                }
                                break;
                            }
                            f => return Ok(f),
                        }
                        let st = match step {
                            Some(s) => {
                                if !matches!(self.block(s, me)?, Fl::Go) {
                                    panic!("generator: step")
                                }
                                self.pop()
                            }
                            None => 1,
                        };
                        let done = match self.r.last_mut() {
                            Some(RV::L { i, lim }) => {
                                // distance from the limit, walking up, modulo 2^64
                                let d = (*i as u64).wrapping_sub(*lim as u64) as u128;
                                *i = i.wrapping_add(st);
                                if st >= 0 {
                                    d + st as u128 >= 1u128 << 64
                                } else {
                                    d < st.unsigned_abs() as u128
                                }
                            }
                            _ => panic!("generator: loop"),
                        };
                        if done {
                            self.r.pop();
                            break;
                        }
                        self.steps += 1;
                        if self.steps > 20_000 {
                            return Err(Out);
                        }
                    }
                }
                Leave => return Ok(Fl::Leave),
                Exit => return Ok(Fl::Exit),
                Case(v, d) => {
                    let mut hit = false;
                    for (a, b) in v {
                        let f = self.block(a, me)?;
                        if !matches!(f, Fl::Go) {
                            return Ok(f);
                        }
                        let x = self.pop();
                        if *self.s.last().unwrap() == x {
                            self.pop();
                            let f = self.block(b, me)?;
                            if !matches!(f, Fl::Go) {
                                return Ok(f);
                            }
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        let f = self.block(d, me)?;
                        if !matches!(f, Fl::Go) {
                            return Ok(f);
                        }
                        self.pop();
                    }
                }
                Call(k) => self.def(*k)?,
                Recurse => self.def(me)?,
                Label(_) => {}
                Goto(l) => return Ok(Fl::Goto(*l)),
                CallL(l) => {
                    self.r.push(RV::Ret);
                    let p = self.defs[me].code.iter().position(|n| matches!(n, Label(x) if x == l)).expect("label");
                    self.machine(me, p)?;
                    self.r.pop();
                }
            }
        }
        Ok(Fl::Go)
    }
    fn op(&mut self, t: &str) {
        match t {
            "dup" => {
                let a = *self.s.last().unwrap();
                self.s.push(a)
            }
            "drop" => {
                self.pop();
            }
            "swap" => {
                let (b, a) = (self.pop(), self.pop());
                self.s.push(b);
                self.s.push(a);
            }
            "over" => {
                let a = self.s[self.s.len() - 2];
                self.s.push(a)
            }
            "rot" => {
                let k = self.s.len() - 3;
                let a = self.s.remove(k);
                self.s.push(a);
            }
            "+" | "-" | "and" | "xor" | "=" | "<" | ">" => {
                let (b, a) = (self.pop(), self.pop());
                self.s.push(match t {
                    "+" => a.wrapping_add(b),
                    "-" => a.wrapping_sub(b),
                    "and" => a & b,
                    "xor" => a ^ b,
                    "=" => -((a == b) as i64),
                    "<" => -((a < b) as i64),
                    _ => -((a > b) as i64),
                });
            }
            "1+" => {
                let a = self.pop();
                self.s.push(a.wrapping_add(1))
            }
            "1-" => {
                let a = self.pop();
                self.s.push(a.wrapping_sub(1))
            }
            "0=" => {
                let a = self.pop();
                self.s.push(-((a == 0) as i64))
            }
            "0<" => {
                let a = self.pop();
                self.s.push(-((a < 0) as i64))
            }
            ">r" => {
                let a = self.pop();
                self.r.push(RV::V(a));
            }
            "r>" => match self.r.pop() {
                Some(RV::V(a)) => self.s.push(a),
                _ => panic!("generator: r>"),
            },
            "r@" => match self.r.last() {
                Some(RV::V(a)) => self.s.push(*a),
                _ => panic!("generator: r@"),
            },
            "2>r" => {
                let (b, a) = (self.pop(), self.pop());
                self.r.push(RV::V(a));
                self.r.push(RV::V(b));
            }
            "2r>" => match (self.r.pop(), self.r.pop()) {
                (Some(RV::V(b)), Some(RV::V(a))) => {
                    self.s.push(a);
                    self.s.push(b)
                }
                _ => panic!("generator: 2r>"),
            },
            "unloop" => match self.r.pop() {
                Some(RV::L { .. }) => {}
                _ => panic!("generator: unloop"),
            },
            "i" => match self.r.last() {
                Some(RV::L { i, .. }) => self.s.push(*i),
                _ => panic!("generator: i"),
            },
            "j" => match self.r.get(self.r.len() - 2) {
                Some(RV::L { i, .. }) => self.s.push(*i),
                _ => panic!("generator: j"),
            },
            "noop" | "nothing" => {}
            t => panic!("generator: {}", t),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Fr {
    L(usize), // counted loop and the static depth at its exit
    R,
}

pub struct G<'a> {
    rng: &'a mut Rng,
    d: usize,
    floor: usize,
    frames: Vec<Fr>,
    /// arities of callable words
    ar: Vec<(usize, usize)>,
    out: usize,
    left: i64,
    machine: bool,
    /// how many enclosing do loops may be left from here (0 inside a callee context)
    next_ev: i64,
    nest: usize,
}

impl<'a> G<'a> {
    fn small(&mut self) -> i64 {
        self.rng.range(-3, 5)
    }
    fn lit(&mut self) -> N {
        if self.rng.chance(1, 8) {
            Lit(self.rng.cell())
        } else {
            Lit(self.small())
        }
    }
    fn ev(&mut self, o: &mut Vec<N>) {
        self.next_ev += 1;
        o.push(Lit(1000 + self.next_ev));
        o.push(Ev);
    }
    /// Code that pushes one value.
    fn expr(&mut self, o: &mut Vec<N>) {
        let d = self.d;
        match self.rng.below(9) {
            0 if d >= 1 => o.push(Op("dup")),
            1 if d >= 2 => o.push(Op("over")),
            2 if d >= 1 => {
                o.push(Op("dup"));
                o.push(Lit(self.rng.range(1, 3)));
                o.push(Op("and"));
            }
            3 if self.frames.last().map_or(false, |f| matches!(f, Fr::L(_))) => o.push(Op("i")),
            4 if self.frames.len() >= 2 && self.frames[self.frames.len() - 2..].iter().all(|f| matches!(f, Fr::L(_))) => o.push(Op("j")),
            5 if self.frames.last() == Some(&Fr::R) => o.push(Op("r@")),
            6 if d >= 1 => {
                o.push(Op("dup"));
                let l = self.lit();
                o.push(l);
                o.push(Op(*self.rng.pick(&["<", ">", "=", "-"])));
            }
            _ => {
                let l = self.lit();
                o.push(l)
            }
        }
        self.d += 1;
        if self.rng.chance(1, 5) {
            o.push(Op("0="));
        }
    }
    fn to_depth(&mut self, want: usize, o: &mut Vec<N>) {
        while self.d > want {
            if self.rng.chance(1, 3) && self.d >= want + 1 && self.d >= 2 && self.d - 1 >= self.floor.max(1) {
                o.push(Op("+"));
            } else {
                o.push(Op("drop"));
            }
            self.d -= 1;
        }
        while self.d < want {
            self.expr(o);
        }
    }
    /// Leave the definition from here.
    fn exit(&mut self, o: &mut Vec<N>) {
        let out = self.out;
        let fl = self.floor;
        self.floor = 0;
        self.to_depth(out, o);
        self.floor = fl;
        let fr = self.frames.clone();
        for f in fr.iter().rev() {
            match f {
                Fr::L(_) => o.push(Op("unloop")),
                Fr::R => {
                    o.push(Op("r>"));
                    o.push(Op("drop"));
                }
            }
        }
        o.push(Exit);
    }
    fn leave(&mut self, o: &mut Vec<N>) -> bool {
        let mut rs = 0;
        let mut want = None;
        for f in self.frames.iter().rev() {
            match f {
                Fr::R => rs += 1,
                Fr::L(d) => {
                    want = Some(*d);
                    break;
                }
            }
        }
        let want = match want {
            Some(w) => w,
            None => return false,
        };
        let save = self.frames.clone();
        for _ in 0..rs {
            o.push(Op("r>"));
            o.push(Op("drop"));
            self.frames.pop();
        }
        let fl = self.floor;
        self.floor = 0;
        self.to_depth(want, o);
        self.floor = fl;
        self.frames = save;
        o.push(Leave);
        true
    }
    /// A block with a net effect of `net` items that does not disturb items below the floor.
    /// Some blocks diverge (leave, exit); the depth at the join is then the other path's.
    fn block(&mut self, net: i64, diverge: bool) -> Vec<N> {
        let start = self.d;
        let want = (self.d as i64 + net) as usize;
        let mut o = vec![];
        self.nest += 1;
        let n = 1 + self.rng.below(if self.nest > 5 { 2 } else { 5 });
        for _ in 0..n {
            if self.left <= 0 {
                break;
            }
            self.stmt(&mut o);
        }
        self.nest -= 1;
        if diverge && self.rng.chance(1, 3) {
            let frames = self.frames.clone();
            let done = match self.rng.below(3) {
                0 if !self.machine => {
                    self.exit(&mut o);
                    true
                }
                _ => self.leave(&mut o),
            };
            self.frames = frames;
            if done {
                self.d = want;
                return o;
            }
        }
        self.to_depth(want, &mut o);
        let _ = start;
        o
    }
    fn stmt(&mut self, o: &mut Vec<N>) {
        self.left -= 1;
        let free = self.d - self.floor.min(self.d);
        match self.rng.below(34) {
            0..=3 => self.ev(o),
            4 => {
                self.expr(o);
                o.push(Ev);
                self.d -= 1;
            }
            5 if self.frames.last().map_or(false, |f| matches!(f, Fr::L(_))) => {
                o.push(Op("i"));
                o.push(Ev);
            }
            6 if self.frames.len() >= 2 && self.frames[self.frames.len() - 2..].iter().all(|f| matches!(f, Fr::L(_))) => {
                o.push(Op("j"));
                o.push(Ev);
            }
            7 if self.d < 20 => self.expr(o),
            8 if free >= 2 => o.push(Op("swap")),
            9 if free >= 3 => o.push(Op("rot")),
            10 if free >= 2 => {
                o.push(Op(*self.rng.pick(&["+", "-", "xor"])));
                self.d -= 1;
            }
            11 if free >= 1 => o.push(Op(*self.rng.pick(&["1+", "1-", "0=", "noop"]))),
            12..=15 => {
                // if
                self.expr(o);
                self.d -= 1;
                let d0 = self.d;
                let els = self.rng.chance(1, 2);
                let net = if els && self.d < 20 && self.rng.chance(1, 4) { 1 } else { 0 };
                let a = self.block(net, true);
                self.d = d0;
                let b = if els { Some(self.block(net, true)) } else { None };
                self.d = (d0 as i64 + net) as usize;
                o.push(If(a, b));
            }
            16..=20 if self.frames.iter().filter(|f| matches!(f, Fr::L(_))).count() < 4 => self.counted(o),
            21 | 22 => {
                // counted begin loop, its counter protected by the floor
                let k = self.rng.range(1, 4);
                o.push(Lit(k));
                self.d += 1;
                let fl = self.floor;
                self.floor = self.d;
                match self.rng.below(3) {
                    0 => {
                        let mut b = self.block(0, true);
                        b.push(Op("1-"));
                        b.push(Op("dup"));
                        b.push(Op("0="));
                        o.push(Until(b));
                    }
                    1 => {
                        let mut c = vec![];
                        if self.rng.chance(1, 3) {
                            c = self.block(0, true);
                        }
                        c.push(Op("dup"));
                        let mut b = self.block(0, true);
                        b.push(Op("1-"));
                        o.push(While(c, b));
                    }
                    _ => {
                        // begin ... again left by exit only
                        if self.machine {
                            let mut b = self.block(0, false);
                            b.push(Op("1-"));
                            b.push(Op("dup"));
                            b.push(Op("0="));
                            o.push(Until(b));
                        } else {
                            let mut b = vec![Op("1-"), Op("dup"), Op("0<")];
                            let save = (self.d, self.floor);
                            let mut x = vec![];
                            self.ev(&mut x);
                            self.exit(&mut x);
                            self.d = save.0;
                            self.floor = save.1;
                            b.push(If(x, None));
                            let c = self.block(0, true);
                            b.extend(c);
                            o.push(Again(b));
                            // dead code follows; keep it well formed
                        }
                    }
                }
                self.floor = fl;
                o.push(Op("drop"));
                self.d -= 1;
            }
            23..=25 => {
                // case
                self.expr(o);
                let d0 = self.d - 1;
                let mut n = self.rng.below(5);
                if self.left > 10 && self.rng.chance(1, 6) {
                    // many alternatives
                    n = self.rng.range(5, 28) as u64;
                    self.left -= 5;
                }
                let fl = self.floor;
                let mut v = vec![];
                for _ in 0..n {
                    self.d = d0 + 1;
                    self.floor = self.d;
                    let mut a = vec![];
                    if self.rng.chance(1, 6) {
                        self.ev(&mut a);
                    }
                    self.expr(&mut a);
                    self.d = d0;
                    self.floor = fl;
                    let b = self.block(0, true);
                    v.push((a, b));
                }
                self.d = d0 + 1;
                self.floor = self.d;
                let dft = if self.rng.chance(1, 2) {
                    let mut x = vec![];
                    if self.rng.chance(1, 2) {
                        x.push(Op("dup"));
                        x.push(Ev);
                    }
                    let b = self.block(0, true);
                    x.extend(b);
                    x
                } else {
                    vec![]
                };
                self.floor = fl;
                self.d = d0;
                o.push(Case(v, dft));
            }
            26 | 27 => {
                // a value kept on the return stack meanwhile
                if free >= 2 && self.rng.chance(1, 3) {
                    o.push(Op("2>r"));
                    self.d -= 2;
                    self.frames.push(Fr::R);
                    self.frames.push(Fr::R);
                    let b = self.block(0, true);
                    o.extend(b);
                    self.frames.pop();
                    self.frames.pop();
                    if !diverged(o) {
                        o.push(Op("2r>"));
                    }
                    self.d += 2;
                } else {
                    self.expr(o);
                    o.push(Op(">r"));
                    self.d -= 1;
                    self.frames.push(Fr::R);
                    let b = self.block(0, true);
                    o.extend(b);
                    self.frames.pop();
                    if !diverged(o) {
                        o.push(Op("r>"));
                        o.push(Op("drop"));
                    }
                }
            }
            28..=31 if !self.ar.is_empty() => {
                let k = self.rng.us(self.ar.len());
                let (i, out) = self.ar[k];
                if i <= free || self.d < 20 {
                    let fl = self.floor;
                    let want = self.d.max(self.floor + i);
                    self.to_depth(want, o);
                    self.floor = fl;
                    o.push(Call(k));
                    self.d = self.d - i + out;
                }
            }
            32 => o.push(Op("nothing")),
            _ => self.ev(o),
        }
    }
    fn counted(&mut self, o: &mut Vec<N>) {
        let q = self.rng.chance(1, 3);
        let base = match self.rng.below(6) {
            0 => self.rng.cell(),
            1 => i64::MAX - self.rng.range(0, 4),
            2 => i64::MIN + self.rng.range(0, 4),
            3 => self.rng.range(-4, 1),
            _ => 0,
        };
        let (lim, start, step): (i64, i64, Option<i64>) = match self.rng.below(8) {
            0 if q => (base, base, None),
            0..=3 => {
                let n = self.rng.range(1, 5);
                (base.wrapping_add(n), base, None)
            }
            4 => {
                let st = match self.rng.below(4) {
                    0 => self.rng.range(1, 3),
                    1 => i64::MAX,
                    2 => 1i64 << 62,
                    _ => self.rng.range(1, 1_000_000_000_000),
                };
                let n = self.rng.range(1, 5);
                let off = if st > 1 { self.rng.range(0, st - 1) } else { 0 };
                (base.wrapping_add(st.wrapping_mul(n)).wrapping_sub(off), base, Some(st))
            }
            5 => {
                let st = match self.rng.below(4) {
                    0 => -1,
                    1 => i64::MIN,
                    2 => -self.rng.range(1, 3),
                    _ => -self.rng.range(1, 1_000_000_000_000),
                };
                let n = self.rng.range(0, 4);
                (base.wrapping_add(st.wrapping_mul(n)), base, Some(st))
            }
            6 => (self.rng.cell(), self.rng.cell(), Some(self.rng.cell())),
            _ => (base.wrapping_add(1), base, Some(self.rng.range(-2, 3))),
        };
        o.push(Lit(lim));
        o.push(Lit(start));
        let fr = Fr::L(self.d);
        self.frames.push(fr);
        let mut body = vec![];
        if self.rng.chance(2, 3) {
            body.push(Op("i"));
            body.push(Ev);
        }
        let d0 = self.d;
        let b = self.block(0, false);
        self.d = d0;
        body.extend(b);
        let step = match step {
            None => None,
            Some(s) => {
                if self.rng.chance(1, 4) {
                    // the step changes sign and size while the loop runs
                    Some(vec![Op("i"), Lit(1), Op("and"), If(vec![Lit(s)], Some(vec![Lit(s.wrapping_add(self.rng.range(0, 2)))]))])
                } else {
                    Some(vec![Lit(s)])
                }
            }
        };
        self.frames.pop();
        o.push(Do { q, body, step });
    }
}

fn diverged(o: &[N]) -> bool {
    matches!(o.last(), Some(Leave) | Some(Exit))
}

/// One random definition.
fn gen_def(rng: &mut Rng, k: usize, ar: &mut Vec<(usize, usize)>, labels: &mut Vec<i64>) -> Def {
    let machine = rng.chance(1, 5);
    let kind = rng.below(10);
    let left = 10 + rng.range(0, 50);
    let base = (k as i64) * 100;
    if machine {
        // ( n -- n' ): blocks, each counting down and jumping
        let n = 2 + rng.us(5);
        let ls: Vec<i64> = (0..=n).map(|_| labels.pop().unwrap()).collect();
        let subs: Vec<i64> = (0..rng.us(3)).map(|_| labels.pop().unwrap()).collect();
        let mut code = vec![];
        let mut g = G { rng, d: 1, floor: 1, frames: vec![], ar: ar.clone(), out: 1, left: left / 3, machine: true, next_ev: base, nest: 3 };
        for b in 0..n {
            code.push(Label(ls[b]));
            g.ev(&mut code);
            let x = g.block(0, false);
            code.extend(x);
            if !subs.is_empty() && g.rng.chance(1, 2) {
                let c = CallL(*g.rng.pick(&subs));
                // also from inside loops
                let c = (0..g.rng.below(4).saturating_sub(1)).fold(c, |c, _| Do { q: false, body: vec![c], step: None });
                if let Do { .. } = c {
                    fn loops(o: &mut Vec<N>, c: N) {
                        o.push(Lit(2));
                        o.push(Lit(0));
                        match c {
                            Do { body, .. } if matches!(body[0], Do { .. }) => {
                                let mut b = vec![];
                                for x in body {
                                    loops(&mut b, x);
                                }
                                o.push(Do { q: false, body: b, step: None });
                            }
                            c => o.push(c),
                        }
                    }
                    loops(&mut code, c);
                } else {
                    code.push(c);
                }
            }
            // out of fuel: stop
            code.push(Op("1-"));
            code.push(Op("dup"));
            code.push(Op("0<"));
            code.push(If(vec![Goto(ls[n])], None));
            for _ in 0..g.rng.below(3) {
                let mut c = vec![];
                g.expr(&mut c);
                g.d -= 1;
                code.extend(c);
                let t = ls[g.rng.us(n)];
                let e = if g.rng.chance(1, 3) { Some(vec![Goto(ls[g.rng.us(n)])]) } else { None };
                code.push(If(vec![Goto(t)], e));
            }
            if g.rng.chance(1, 4) {
                code.push(Goto(ls[g.rng.us(n)]));
            }
        }
        // do not fall into the subroutines
        code.push(Label(ls[n]));
        g.ev(&mut code);
        code.push(Exit);
        for s in &subs {
            code.push(Label(*s));
            g.ev(&mut code);
            let x = g.block(0, false);
            code.extend(x);
            if g.rng.chance(1, 3) {
                code.push(Op("1+"));
            }
            code.push(Exit);
        }
        ar.push((1, 1));
        return Def { code, machine: true };
    }
    if kind < 2 {
        // recursion ( n -- n' )
        let mut g = G { rng, d: 1, floor: 1, frames: vec![], ar: ar.clone(), out: 1, left: left / 2, machine: false, next_ev: base, nest: 3 };
        let mut a = g.block(0, true);
        if diverged(&a) {
            a.clear();
        }
        a.push(Op("1-"));
        match g.rng.below(4) {
            0 => {
                a.push(Op("dup"));
                a.push(Recurse);
                a.push(Op("drop"));
                a.push(Op("1-"));
                a.push(Recurse);
            }
            1 => {
                a.extend([Lit(2), Lit(0)]);
                a.push(Do { q: false, body: vec![Op("i"), Ev, Op("dup"), Lit(2), Op("-"), Recurse, Op("i"), Op("xor"), Ev], step: None });
            }
            2 => {
                a.extend([Op("dup"), Op(">r"), Recurse, Op("r>"), Op("+")]);
            }
            _ => a.push(Recurse),
        }
        let mut b = g.block(0, false);
        g.ev(&mut b);
        let mut code = vec![Op("dup"), Lit(0), Op(">"), If(a, if g.rng.chance(1, 2) { Some(b) } else { None })];
        let c = g.block(0, true);
        code.extend(c);
        ar.push((1, 1));
        return Def { code, machine: false };
    }
    let (i, out) = (rng.us(4), rng.us(4));
    let mut g = G { rng, d: i, floor: 0, frames: vec![], ar: ar.clone(), out, left, machine: false, next_ev: base, nest: 0 };
    let mut code = vec![];
    while g.left > 0 {
        g.stmt(&mut code);
    }
    g.to_depth(out, &mut code);
    ar.push((i, out));
    Def { code, machine: false }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut m = M::hooked();
    let mut defs: Vec<Def> = vec![];
    let mut ar = vec![];
    let mut labels: Vec<i64> = (1..1000).collect();
    rng.shuffle(&mut labels);
    if rng.chance(1, 2) {
        labels.retain(|l| *l < 80 || *l > 990);
    }
    let nd = if cx.small { 3 } else { 2 + rng.us(8) };
    for k in 0..nd {
        if labels.len() < 20 || rng.chance(1, 6) {
            // labels may be used again after 0labels
            labels = (1..1000).collect();
            rng.shuffle(&mut labels);
            let e = m.line("0labels");
            ensure!(e == 0, "exception from 0labels", "0labels raised {}", e);
        }
        let d = gen_def(&mut rng, k, &mut ar, &mut labels);
        let mut t = format!(": w{} ", k);
        text(&d.code, &mut t);
        t.push(';');
        if t.len() > 12000 {
            ar.pop();
            break;
        }
        defs.push(d);
        // An older word of the same name, in any case, which nothing may call any more.
        if rng.chance(1, 4) {
            let n = format!("{}{}", rng.pick(&["w", "W"]), k);
            let old = match rng.below(4) {
                0 => format!(": {} -77 ev ;", n),
                1 => format!(": {} dup if 1- recurse then -78 ev ;", n),
                2 => format!("variable {}", n),
                _ => format!("-79 constant {}", n),
            };
            let e = m.line(&old);
            ensure!(e == 0, "well-formed definition refused", "`{}` raised {}", old, e);
            cx.count("older words of the same name", 1);
        }
        // the definition may be spread over several lines
        if rng.chance(1, 3) {
            let words: Vec<&str> = t.split_whitespace().collect();
            let mut i = 0;
            while i < words.len() {
                let n = (2 + rng.us(30)).min(words.len() - i);
                let e = m.line(&words[i..i + n].join(" "));
                ensure!(e == 0, "well-formed definition refused", "`{}` raised {}", words[i..i + n].join(" "), e);
                i += n;
            }
        } else {
            let e = m.line(&t);
            ensure!(e == 0, "well-formed definition refused", "raised {}", e);
        }
        ensure!(m.s().is_empty() && m.rlen() == 0, "compiling changed the stacks", "after compiling w{}: {:?}", k, m.s());
    }
    // run each word, and each one again later
    let mut order: Vec<usize> = (0..defs.len()).collect();
    order.extend(0..defs.len());
    rng.shuffle(&mut order);
    for k in order {
        let args: Vec<i64> = (0..ar[k].0).map(|_| if rng.chance(1, 6) && !defs[k].machine { rng.cell() } else { rng.range(-1, 6) }).collect();
        let below: Vec<i64> = (0..rng.us(3)).map(|_| rng.range(100, 200)).collect();
        let mut st = below.clone();
        st.extend(&args);
        let mut r = Run { defs: &defs, s: st.clone(), r: vec![], ev: vec![], steps: 0, rmax: 0, smax: 0, loops: 0 };
        if r.def(k).is_err() {
            cx.count("runs outside the step or depth bound (not executed)", 1);
            continue;
        }
        let src = format!("{} w{}", st.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), k);
        for round in 0..2 {
            hooks::take();
            let e = m.line_steps(&src, r.steps * 40 + 20_000);
            let evs: Vec<i64> = hooks::take().into_iter().filter_map(|e| if let hooks::Ev::I { v, .. } = e { Some(v) } else { None }).collect();
            let tag = if round == 0 { "first run" } else { "second run" };
            let e = match e {
                None => return fail("does not terminate", format!("`{}` ({}) still runs; model takes {} steps, events so far {:?}", src, tag, r.steps, &evs[..evs.len().min(30)])),
                Some(e) => e,
            };
            ensure!(e == 0, &format!("exception {}", e), "`{}` ({}) raised {}; expected events {:?}, observed {:?}", src, tag, e, r.ev, evs);
            if evs != r.ev {
                let p = evs.iter().zip(&r.ev).position(|(a, b)| a != b).unwrap_or(evs.len().min(r.ev.len()));
                return fail("wrong actions", format!("`{}` ({}): action {} is {:?} instead of {:?} (observed {} of {})", src, tag, p, evs.get(p), r.ev.get(p), evs.len(), r.ev.len()));
            }
            let s = m.s();
            ensure!(s == r.s, "wrong final stack", "`{}` ({}) left {:?} instead of {:?}", src, tag, s, r.s);
            ensure!(m.rlen() == 0, "return stack not restored", "`{}` ({}) left {} return-stack items", src, tag, m.rlen());
            m.clear_s();
        }
        cx.count("actions compared", r.ev.len() as u64 * 2);
        cx.count("loop iterations", r.loops);
        cx.count("model steps", r.steps);
        cx.distinct(hash_str(&format!("{:?}", r.ev)));
    }
    let _ = Ev::I { task: 0, v: 0 };
    Ok(())
}
