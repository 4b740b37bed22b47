//! A machine under observation: every line fed to it goes to the flight recorder first.
use crate::util::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
#[cfg(not(feature = "rtfvm"))]
pub use rtforth::mock_vm::VM;
/// The machine of the rtf program: it implements every accessor of the library's traits again.
#[cfg(feature = "rtfvm")]
pub use crate::rtfmain::VM;
#[cfg(feature = "rtfvm")]
pub fn new_vm() -> VM {
    VM::new(16)
}
#[cfg(not(feature = "rtfvm"))]
pub fn new_vm() -> VM {
    VM::new()
}
/// Move the virtual clock; the rtf program's runs by itself.
pub trait Clock {
    fn tick1(&mut self);
}
impl Clock for VM {
    #[cfg(not(feature = "rtfvm"))]
    fn tick1(&mut self) {
        self.advance()
    }
    #[cfg(feature = "rtfvm")]
    fn tick1(&mut self) {
        if REAL_TICKS.with(|r| r.get()) {
            let ms = self.system_time_ns() / 1_000_000;
            while self.system_time_ns() / 1_000_000 == ms {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }
    }
}
thread_local! {
    /// Does a tick wait until the clock of the rtf program shows the next millisecond?
    pub static REAL_TICKS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub const RTFVM: bool = cfg!(feature = "rtfvm");

thread_local! {
    /// Name of a string of a machine seen to hold invalid UTF-8.
    pub static INVALID: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}

pub struct M {
    pub vm: VM,
}

/// Canary bit patterns a stack slot may not be distinguished from.
pub const CANARY: i64 = 0x12345678;

#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub err: i64,
    pub s: Vec<i64>,
    pub f: Vec<u64>,
    pub r: usize,
    pub out: String,
}

/// Lookup without disturbing the machine.
pub trait Find {
    fn find_(&mut self, name: &str) -> Option<usize>;
}
impl Find for VM {
    fn find_(&mut self, name: &str) -> Option<usize> {
        self.find(name)
    }
}

impl M {
    pub fn new() -> M {
        M { vm: new_vm() }
    }
    pub fn err(&self) -> i64 {
        match self.vm.last_error() {
            Some(e) => isize::from(e) as i64,
            None => 0,
        }
    }
    /// Evaluate one line the way an embedder does.
    pub fn line(&mut self, src: &str) -> i64 {
        note(src);
        self.vm.set_source(src);
        self.vm.evaluate_input();
        self.strings_valid();
        self.err()
    }
    /// Every string the machine owns must be valid UTF-8 (decided by C25).
    pub fn strings_valid(&mut self) {
        let mut bad = None;
        for (what, b) in [
            ("output buffer", self.vm.output_buffer().as_ref().map(|s| s.as_bytes())),
            ("input buffer", None),
        ] {
            if let Some(b) = b {
                if b.len() < 1 << 16 && std::str::from_utf8(b).is_err() {
                    bad = Some(what);
                }
            }
        }
        if let Some(t) = self.vm.last_token().as_ref() {
            if std::str::from_utf8(t.as_bytes()).is_err() {
                bad = Some("token");
            }
        }
        if let Some(t) = self.vm.input_buffer().as_ref() {
            if std::str::from_utf8(t.as_bytes()).is_err() {
                bad = Some("input buffer");
            }
        }
        if let Some(w) = bad {
            INVALID.with(|i| i.set(Some(w)));
        }
    }
    /// The embedder's recovery after an exception.
    pub fn recover(&mut self) {
        self.vm.reset();
        self.vm.clear_stacks();
    }
    /// Evaluate, recover if it failed, return the code.
    pub fn try_line(&mut self, src: &str) -> i64 {
        let e = self.line(src);
        if e != 0 {
            self.recover();
        }
        e
    }
    /// Evaluate a line with a bound on the number of executed words; None when the bound was hit.
    pub fn line_steps(&mut self, src: &str, budget: u64) -> Option<i64> {
        note(src);
        self.vm.set_source(src);
        self.eval_steps(budget)
    }
    pub fn eval_steps(&mut self, budget: u64) -> Option<i64> {
        let mut left = budget;
        loop {
            if left == 0 {
                return None;
            }
            left -= 1;
            self.vm.parse_word();
            if self.vm.last_token().as_ref().map_or(true, |t| t.is_empty()) {
                return Some(self.err());
            }
            if self.vm.state().is_compiling {
                self.vm.compile_token();
            } else {
                self.vm.interpret_token();
            }
            for part in 0..2 {
                if part == 1 {
                    if self.vm.last_error().is_some() {
                        break;
                    }
                    self.vm.check_stacks();
                }
                while self.vm.forth() {
                    if left == 0 {
                        return None;
                    }
                    left -= 1;
                }
            }
            if self.vm.last_error().is_some() {
                return Some(self.err());
            }
        }
    }
    pub fn s(&mut self) -> Vec<i64> {
        self.vm.s_stack().as_slice().iter().map(|x| *x as i64).collect()
    }
    pub fn f(&mut self) -> Vec<f64> {
        self.vm.f_stack().as_slice().to_vec()
    }
    pub fn fbits(&mut self) -> Vec<u64> {
        self.vm.f_stack().as_slice().iter().map(|x| x.to_bits()).collect()
    }
    pub fn rlen(&mut self) -> usize {
        self.vm.r_stack().len() as usize
    }
    /// Take what was printed.
    pub fn out(&mut self) -> String {
        match self.vm.output_buffer().as_mut() {
            Some(b) => std::mem::take(b),
            None => String::new(),
        }
    }
    pub fn clear_s(&mut self) {
        self.vm.clear_stacks();
    }
    pub fn snap(&mut self) -> Snap {
        Snap {
            err: self.err(),
            s: self.s(),
            f: self.fbits(),
            r: self.rlen(),
            out: self.out(),
        }
    }
    pub fn here(&self) -> usize {
        self.vm.data_space_const().here()
    }
    pub fn start(&self) -> usize {
        self.vm.data_space_const().start()
    }
    pub fn limit(&self) -> usize {
        self.vm.data_space_const().limit()
    }
    /// Copy of the whole data space.
    pub fn image(&self) -> Vec<u8> {
        let (a, b) = (self.start(), self.limit());
        unsafe { std::slice::from_raw_parts(a as *const u8, b - a).to_vec() }
    }
    pub fn bytes(&self, addr: usize, n: usize) -> Vec<u8> {
        assert!(addr >= self.start() && addr + n <= self.limit());
        unsafe { std::slice::from_raw_parts(addr as *const u8, n).to_vec() }
    }
    /// Push without parsing.
    pub fn push(&mut self, v: i64) {
        self.vm.s_stack().push(v as isize);
    }
    pub fn pop(&mut self) -> i64 {
        self.vm.s_stack().pop() as i64
    }
    pub fn fpush(&mut self, v: f64) {
        self.vm.f_stack().push(v);
    }
    /// The value of one expression that leaves one cell.
    pub fn val(&mut self, src: &str) -> Result<i64, Fail> {
        let n = self.s().len();
        let e = self.line(src);
        let s = self.s();
        if e != 0 || s.len() != n + 1 {
            return fail(
                "expression failed",
                format!("`{}` ended with error {} and stack {:?}", src, e, s),
            );
        }
        let v = s[n];
        self.vm.s_stack().pop();
        Ok(v)
    }
    /// A minimal program that must work on a healthy machine.
    pub fn probe(&mut self) -> R {
        self.probe_named("probe!x")
    }
    pub fn probe_named(&mut self, name: &str) -> R {
        let before = self.s();
        if !before.is_empty() {
            return fail("stack not empty after recovery", format!("data stack {:?}", before));
        }
        let e = self.line("1 2 +");
        let s = self.s();
        if e != 0 || s != [3] {
            return fail(
                "machine unusable after recovery",
                format!("`1 2 +` gave error {} stack {:?}", e, s),
            );
        }
        self.vm.s_stack().pop();
        let src = format!(": {} 0 5 0 do i + loop dup 10 = if 1+ then ; {}", name, name);
        let e = self.line(&src);
        let s = self.s();
        if e == -8 {
            self.recover();
            return Ok(()); // dictionary full: defined behaviour
        }
        if e != 0 || s != [11] {
            return fail(
                "machine unusable after recovery",
                format!("probe definition gave error {} stack {:?}", e, s),
            );
        }
        self.vm.s_stack().pop();
        let _ = self.out();
        Ok(())
    }
}

/// Literal text for a cell in base ten.
pub fn lit(v: i64) -> String {
    v.to_string()
}
