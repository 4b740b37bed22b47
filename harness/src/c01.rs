//! C01: integer words against two's-complement arithmetic computed here (in 128 bits, reduced).
use crate::util::*;
use crate::vmx::*;

type F = fn(i128, i128, i128) -> Vec<i128>;
fn fl(b: bool) -> Vec<i128> {
    vec![if b { -1 } else { 0 }]
}
fn u(x: i128) -> u64 {
    x as i64 as u64
}
fn tdiv(a: i128, b: i128) -> i128 {
    // Rust's / on i128 truncates; operands are 64-bit so nothing overflows here.
    a / b
}
/// (name, number of operands, uses division by the last operand, model)
pub const WORDS: &[(&str, usize, bool, F)] = &[
    ("+", 2, false, |a, b, _| vec![a + b]),
    ("-", 2, false, |a, b, _| vec![a - b]),
    ("*", 2, false, |a, b, _| vec![((a as i64) as i128) * b]),
    ("/", 2, true, |a, b, _| vec![tdiv(a, b)]),
    ("mod", 2, true, |a, b, _| vec![a - tdiv(a, b) * b]),
    ("/mod", 2, true, |a, b, _| vec![a - tdiv(a, b) * b, tdiv(a, b)]),
    ("abs", 1, false, |a, _, _| vec![if a < 0 { -a } else { a }]),
    ("negate", 1, false, |a, _, _| vec![-a]),
    ("1+", 1, false, |a, _, _| vec![a + 1]),
    ("1-", 1, false, |a, _, _| vec![a - 1]),
    ("2*", 1, false, |a, _, _| vec![a * 2]),
    ("2/", 1, false, |a, _, _| vec![tdiv(a, 2)]),
    ("and", 2, false, |a, b, _| vec![(u(a) & u(b)) as i128]),
    ("or", 2, false, |a, b, _| vec![(u(a) | u(b)) as i128]),
    ("xor", 2, false, |a, b, _| vec![(u(a) ^ u(b)) as i128]),
    ("invert", 1, false, |a, _, _| vec![-a - 1]),
    ("=", 2, false, |a, b, _| fl(a == b)),
    ("<>", 2, false, |a, b, _| fl(a != b)),
    ("<", 2, false, |a, b, _| fl(a < b)),
    (">", 2, false, |a, b, _| fl(a > b)),
    ("<=", 2, false, |a, b, _| fl(a <= b)),
    (">=", 2, false, |a, b, _| fl(a >= b)),
    ("0=", 1, false, |a, _, _| fl(a == 0)),
    ("not", 1, false, |a, _, _| fl(a == 0)),
    ("0<", 1, false, |a, _, _| fl(a < 0)),
    ("0>", 1, false, |a, _, _| fl(a > 0)),
    ("0<>", 1, false, |a, _, _| fl(a != 0)),
    ("max", 2, false, |a, b, _| vec![a.max(b)]),
    ("min", 2, false, |a, b, _| vec![a.min(b)]),
    ("within", 3, false, |a, b, c| fl(b <= a && a < c)),
    ("cell+", 1, false, |a, _, _| vec![a + 8]),
    ("char+", 1, false, |a, _, _| vec![a + 1]),
    ("float+", 1, false, |a, _, _| vec![a + 8]),
    ("cells", 1, false, |a, _, _| vec![a * 8]),
    ("floats", 1, false, |a, _, _| vec![a * 8]),
    ("chars", 1, false, |a, _, _| vec![a]),
    ("bounds", 2, false, |a, b, _| vec![a + b, a]),
    ("true", 0, false, |_, _, _| vec![-1]),
    ("false", 0, false, |_, _, _| vec![0]),
    ("bl", 0, false, |_, _, _| vec![32]),
    ("max-n", 0, false, |_, _, _| vec![i64::MAX as i128]),
    ("max-u", 0, false, |_, _, _| vec![-1]),
    ("r/o", 0, false, |_, _, _| vec![0]),
    ("w/o", 0, false, |_, _, _| vec![1]),
    ("r/w", 0, false, |_, _, _| vec![2]),
    ("operator", 0, false, |_, _, _| vec![1]),
];

fn shift_model(name: &str, a: i64, n: u32) -> i64 {
    // Bit by bit, so as not to share an expression with the code.
    let mut r = 0u64;
    for bit in 0..64u32 {
        if (a as u64) >> bit & 1 == 1 {
            let to = if name == "lshift" { bit as i64 + n as i64 } else { bit as i64 - n as i64 };
            if (0..64).contains(&to) {
                r |= 1u64 << to;
            }
        }
    }
    r as i64
}

struct Run {
    m: M,
    base: Vec<i64>,
}

impl Run {
    fn check(
        &mut self,
        cx: &mut Cx,
        name: &str,
        ops: &[i64],
        want: Result<Vec<i64>, i64>,
        mode: usize,
    ) -> R {
        let code = match mode {
            0 => {
                for o in ops {
                    self.m.push(*o);
                }
                self.m.line(name)
            }
            1 => {
                for o in ops {
                    self.m.push(*o);
                }
                self.m.line(&format!("c:{}", name))
            }
            2 => {
                let mut t = String::new();
                for o in ops {
                    t.push_str(&lit(*o));
                    t.push(' ');
                }
                t.push_str(name);
                self.m.line(&t)
            }
            _ => {
                // operands as compiled literals
                let mut t = String::from("marker -q : q ");
                for o in ops {
                    t.push_str(&lit(*o));
                    t.push(' ');
                }
                t.push_str(name);
                t.push_str(" ; q");
                self.m.line(&t)
            }
        };
        cx.count("word evaluations compared", 1);
        let got = self.m.s();
        let (wcode, wstack) = match &want {
            Ok(v) => {
                let mut w = self.base.clone();
                w.extend(v);
                (0, w)
            }
            Err(c) => (*c, vec![]),
        };
        let ok = code == wcode && got == wstack && (wcode != 0 || self.m.rlen() == 0) && self.m.f().is_empty();
        if !ok {
            return fail(
                &format!("{} wrong", name),
                format!(
                    "{} with operands {:?} (mode {}, {} items below): expected error {} and results {:?}; got error {} and top of stack {:?}, R depth {}",
                    name, ops, mode, self.base.len(), wcode, want, code,
                    &got[got.len().saturating_sub(ops.len() + 3)..], self.m.rlen()
                ),
            );
        }
        if mode == 3 {
            self.m.line("-q");
        }
        let o = self.m.out();
        if !o.is_empty() && mode != 3 {
            return fail("unexpected output", format!("{} printed {:?}", name, o));
        }
        if wcode != 0 {
            self.m.recover();
            for b in self.base.clone() {
                self.m.push(b);
            }
        } else {
            for _ in self.base.len()..got.len() {
                self.m.pop();
            }
        }
        Ok(())
    }

    fn all_words(&mut self, cx: &mut Cx, a: i64, b: i64, c: i64, mode: usize) -> R {
        for (name, n, divides, f) in WORDS {
            let all = [a, b, c];
            let ops = &all[..*n];
            let want = if *divides && ops[*n - 1] == 0 {
                Err(-10)
            } else {
                Ok(f(a as i128, b as i128, c as i128).iter().map(|x| *x as i64).collect())
            };
            self.check(cx, name, ops, want, mode)?;
        }
        for name in ["lshift", "rshift"] {
            let n = (b as u64 % 64) as i64;
            self.check(cx, name, &[a, n], Ok(vec![shift_model(name, a, n as u32)]), mode)?;
        }
        Ok(())
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let mut run = Run { m: M::new(), base: vec![] };
    for (name, _, _, _) in WORDS {
        run.m.try_line(&format!(": c:{} {} ;", name, name));
    }
    run.m.try_line(": c:lshift lshift ; : c:rshift rshift ;");
    run.m.out();
    let depth = if rng.chance(1, 4) { rng.us(58) } else { rng.us(6) };
    for _ in 0..depth {
        let v = rng.u64() as i64;
        run.base.push(v);
        run.m.push(v);
    }
    let pool = boundaries();
    let npairs = if cx.small { 4 } else { 60 };
    for k in 0..npairs {
        // Two thirds of the pairs walk the boundary cross product, the rest are random.
        let (a, b) = if k % 3 != 0 {
            let i = (idx.wrapping_mul(40).wrapping_add(k)) as usize;
            (pool[(i / pool.len()) % pool.len()], pool[i % pool.len()])
        } else {
            (rng.cell(), rng.cell())
        };
        let c = match rng.below(4) {
            0 => a,
            1 => b,
            2 => a.wrapping_add(rng.range(-2, 2)),
            _ => rng.cell(),
        };
        let b = if rng.chance(1, 8) { a.wrapping_add(rng.range(-2, 2)) } else { b };
        let mode = match rng.below(16) {
            0..=6 => 0,
            7..=11 => 1,
            12..=14 => 2,
            _ => 3,
        };
        cx.distinct(mix(a as u64) ^ mix(b as u64).rotate_left(7) ^ mode as u64);
        rec_begin(idx);
        note(&format!("operands {} {} {} mode {} depth {}", a, b, c, mode, depth));
        run.all_words(cx, a, b, c, mode)?;
        // shift counts are only 0..63: sweep them all for this value once in a while
        if k % 15 == 0 {
            for n in 0..64 {
                for name in ["lshift", "rshift"] {
                    run.check(cx, name, &[a, n], Ok(vec![shift_model(name, a, n as u32)]), mode)?;
                }
            }
        }
    }
    Ok(())
}
