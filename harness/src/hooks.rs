//! Probe words: primitives of the harness, added to a machine under observation through the public
//! API, so that the running program itself reports events and complete stack states.
use crate::vmx::M;
use rtforth::core::Core;
use rtforth::facility::Facility;
use crate::vmx::{Clock, VM};
use std::cell::RefCell;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    /// Value reported by a task at a time.
    I { task: usize, v: i64 },
    F { task: usize, v: u64 },
    /// Value with the virtual time in ms.
    T { task: usize, ms: u64, v: i64 },
    /// All three stacks (the bottom `skip` return-stack items are the callers').
    S { s: Vec<i64>, r: Vec<i64>, f: Vec<u64> },
    /// Output so far.
    O { n: usize },
}

thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
    pub static LIMIT: std::cell::Cell<usize> = std::cell::Cell::new(200_000);
}

fn log(e: Ev) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < LIMIT.with(|x| x.get()) {
            l.push(e)
        }
    });
}
pub fn take() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn count() -> usize {
    LOG.with(|l| l.borrow().len())
}

/// ev ( n -- )
fn ev(vm: &mut VM) {
    let v = vm.s_stack().pop() as i64;
    let task = vm.current_task();
    log(Ev::I { task, v });
}
/// tev ( n -- )
fn tev(vm: &mut VM) {
    let v = vm.s_stack().pop() as i64;
    let task = vm.current_task();
    let ms = vm.system_time_ns() / 1_000_000;
    log(Ev::T { task, ms, v });
}
/// fev ( F: r -- )
fn fev(vm: &mut VM) {
    let v = vm.f_stack().pop().to_bits();
    let task = vm.current_task();
    log(Ev::F { task, v });
}
/// mon ( -- )
fn mon(vm: &mut VM) {
    let s = vm.s_stack().as_slice().iter().map(|x| *x as i64).collect();
    let r = vm.r_stack().as_slice().iter().map(|x| *x as i64).collect();
    let f = vm.f_stack().as_slice().iter().map(|x| x.to_bits()).collect();
    log(Ev::S { s, r, f });
}
/// tick ( -- ) one virtual millisecond passes
fn tick(vm: &mut VM) {
    vm.tick1();
}
/// rdrop! ( -- ) nothing, only a word that is certainly a primitive
fn nothing(_: &mut VM) {}

impl M {
    /// A machine with the probe words.
    pub fn hooked() -> M {
        let mut m = M::new();
        m.vm.add_primitive("ev", ev);
        m.vm.add_primitive("tev", tev);
        m.vm.add_primitive("fev", fev);
        m.vm.add_primitive("mon", mon);
        m.vm.add_primitive("tick", tick);
        m.vm.add_primitive("nothing", nothing);
        take();
        m
    }
    pub fn now_ms(&self) -> u64 {
        self.vm.system_time_ns() / 1_000_000
    }
}
#[allow(dead_code)]
fn _uses(vm: &mut VM) {
    Facility::mtime(vm);
}
