#[cfg(feature = "rtfvm")]
#[allow(dead_code)]
#[path = "/repo/rtf/src/main.rs"]
mod rtfmain;
mod util;
mod vmx;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod hooks;
mod words;

use std::alloc::GlobalAlloc;
use std::io::{BufRead, Write};
use util::*;

/// Counts the live bytes of the process, so that what a machine leaves behind can be measured, and
/// checks that large blocks and blocks of whole pages are returned with the layout they were taken with.
struct Counting;
pub static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
pub static CHECKED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
use std::alloc::Layout;
use std::sync::atomic::{AtomicBool, Ordering::*};
const BLOCKS: usize = 2048;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: [(usize, usize, usize); BLOCKS] = [(0, 0, 0); BLOCKS];
fn noted(l: &Layout) -> bool {
    l.size() >= 32768 || l.align() >= 4096
}
fn locked<T>(f: impl FnOnce(*mut (usize, usize, usize)) -> T) -> T {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(std::ptr::addr_of_mut!(TABLE) as *mut _);
    LOCK.store(false, Release);
    r
}
fn enter(p: *mut u8, l: &Layout) {
    if noted(l) && !p.is_null() {
        locked(|t| unsafe {
            for i in 0..BLOCKS {
                let e = t.add((p as usize / 4096 + i) % BLOCKS);
                if (*e).0 == 0 {
                    *e = (p as usize, l.size(), l.align());
                    break;
                }
            }
        })
    }
}
fn unnote(p: *mut u8, l: &Layout) {
    if !noted(l) && p as usize & 0xfff != 0 {
        return;
    }
    let was = locked(|t| unsafe {
        for i in 0..BLOCKS {
            let e = t.add((p as usize / 4096 + i) % BLOCKS);
            if (*e).0 == p as usize {
                let r = *e;
                (*e).0 = 0;
                return Some(r);
            }
        }
        None
    });
    if let Some((_, size, align)) = was {
        CHECKED.fetch_add(1, Relaxed);
        if size != l.size() || align != l.align() {
            // No allocation here.
            let m = b"memory is freed with a layout it was not allocated with\n";
            unsafe {
                libc::write(2, m.as_ptr() as *const _, m.len());
                libc::abort();
            }
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        let p = std::alloc::System.alloc(l);
        enter(p, &l);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        let p = std::alloc::System.alloc_zeroed(l);
        enter(p, &l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        unnote(p, &l);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as isize - l.size() as isize, Relaxed);
        unnote(p, &l);
        let q = std::alloc::System.realloc(p, l, n);
        enter(q, &Layout::from_size_align_unchecked(n, l.align()));
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub type CaseFn = fn(&mut Cx, u64) -> R;

pub fn registry(p: &str) -> Option<CaseFn> {
    Some(match p {
        "C01" => c01::case,
        "C02" => c02::case,
        "C03" => c03::case,
        "C04" => c04::case,
        "C05" => c05::case,
        "C06" => c06::case,
        "C07" => c07::case,
        "C08" => c08::case,
        "C09" => c09::case,
        "C10" => c10::case,
        "C11" => c11::case,
        "C12" => c12::case,
        "C13" => c13::case,
        "C14" => c14::case,
        "C15" => c15::case,
        "C16" => c16::case,
        "C17" => c17::case,
        "C18" => c18::case,
        "C19" => c19::case,
        "C20" => c20::case,
        "C21" => c21::case,
        "C23" => c23::case,
        "C24" => c24::case,
        "C25" => c25::case,
        "C26" => c26::case,
        "C27" => c27::case,
        "C28" => c28::case,
        _ => return None,
    })
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // A panic that cannot unwind (nounwind context) aborts right after the hook: leave a trace.
        note(&format!("PANIC {} at {}", m, loc));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// Arm a limit on the CPU time of one case: a primitive that never returns ends the worker with
/// SIGVTALRM, which the driver reports. CPU time, not wall-clock, and far above any real case.
fn arm(secs: i64) {
    unsafe {
        let v = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &v, std::ptr::null_mut());
    }
}

fn run_case(f: CaseFn, cx: &mut Cx, idx: u64) -> R {
    rec_begin(idx);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx, idx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("host panic", format!("the host panicked: {}", m))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("replay") => replay(&a),
        Some("miri") => miri(&a),
        _ => eval(),
    }
}

fn cx_of(prop: &str, seed: u64, tier: &str, dir: &str) -> Cx {
    load_consts(&format!("{}/consts.txt", dir));
    Cx {
        prop: prop.to_string(),
        seed,
        thorough: tier == "thorough",
        scratch: String::new(),
        counters: Default::default(),
        distinct: Default::default(),
        samples: vec![],
        small: std::env::var("VH_SMALL").is_ok(),
    }
}

/// vh worker PROP SEED TIER SHARD NSHARDS MAXCASES SECS DIR
fn worker(a: &[String]) {
    let (prop, seed, tier) = (&a[2], a[3].parse::<u64>().unwrap(), &a[4]);
    let (shard, n): (u64, u64) = (a[5].parse().unwrap(), a[6].parse().unwrap());
    let max: u64 = a[7].parse().unwrap();
    let secs: f64 = a[8].parse().unwrap();
    let dir = &a[9];
    let tag = a.get(10).map(|s| s.as_str()).unwrap_or("x");
    install_panic_hook();
    if cfg!(not(miri)) {
        recorder_open(&format!("{}/cur.{}.{}", dir, tag, shard));
    }
    let f = registry(prop).expect("unknown property");
    let mut cx = cx_of(prop, seed, tier, dir);
    cx.scratch = format!("{}/w.{}.{}", dir, tag, shard);
    let _ = std::fs::create_dir_all(&cx.scratch);
    let t0 = std::time::Instant::now();
    let mut idx = shard;
    let mut cases = 0u64;
    let mut bad = String::new();
    let mut nbad = 0;
    while idx < max && t0.elapsed().as_secs_f64() < secs {
        if cfg!(not(miri)) {
            arm(if cfg!(debug_assertions) { 60 } else { 40 });
        }
        let r = run_case(f, &mut cx, idx);
        cases += 1;
        if cx.samples.len() < 2 {
            let t = recorded();
            cx.sample(|| t);
        }
        if let Err(e) = r {
            nbad += 1;
            if !bad.is_empty() {
                bad.push(',');
            }
            bad.push_str(&format!(
                "{{\"idx\":{},\"sig\":{},\"msg\":{},\"rec\":{}}}",
                idx,
                jstr(&e.sig),
                jstr(&e.msg),
                jstr(&recorded())
            ));
            if nbad >= 5 {
                break;
            }
        }
        idx += n;
    }
    arm(0);
    let counters: Vec<String> =
        cx.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = cx.samples.iter().map(|s| jstr(s)).collect();
    let out = format!(
        "{{\"cases\":{},\"next\":{},\"violations\":[{}],\"counters\":{{{}}},\"samples\":[{}]}}",
        cases,
        idx,
        bad,
        counters.join(","),
        samples.join(",")
    );
    std::fs::write(format!("{}/res.{}.{}.json", dir, tag, shard), out).unwrap();
    let mut d = Vec::with_capacity(cx.distinct.len() * 8);
    for h in &cx.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/dis.{}.{}", dir, tag, shard), d).unwrap();
}

/// vh miri PROP SEED SHARD N MAX: cases without files, the recorder or clocks, each reported when it is done.
fn miri(a: &[String]) {
    install_panic_hook();
    let f = registry(&a[2]).expect("unknown property");
    let mut cx = cx_of(&a[2], a[3].parse().unwrap(), "quick", "");
    cx.small = true;
    let (shard, n, max): (u64, u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    let mut idx = shard;
    while idx < max {
        println!("CASE {}", idx);
        cx.counters.clear();
        match run_case(f, &mut cx, idx) {
            Ok(()) => {
                let c: Vec<String> = cx.counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
                println!("DONE {} {}", idx, c.join(";"));
            }
            Err(e) => {
                println!("FAIL {} [{}] {}", idx, e.sig, e.msg.replace('\n', " "));
            }
        }
        std::io::stdout().flush().unwrap();
        idx += n;
    }
}

/// vh replay PROP SEED TIER IDX DIR
fn replay(a: &[String]) {
    install_panic_hook();
    let f = registry(&a[2]).expect("unknown property");
    let mut cx = cx_of(&a[2], a[3].parse().unwrap(), &a[4], a.get(6).map(|s| s.as_str()).unwrap_or("."));
    cx.scratch = format!("{}/replay", a.get(6).map(|s| s.as_str()).unwrap_or("."));
    let _ = std::fs::create_dir_all(&cx.scratch);
    match run_case(f, &mut cx, a[5].parse().unwrap()) {
        Ok(()) => println!("{}\nheld", recorded()),
        Err(e) => {
            println!("{}\nVIOLATED [{}] {}", recorded(), e.sig, e.msg);
            std::process::exit(1);
        }
    }
}

/// vh: evaluate lines from standard input and show the state after each (for exploration).
fn eval() {
    let mut m = vmx::M::new();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let e = m.line(&l);
        let s = m.snap();
        println!("[{}] -> {} S {:?} F {:?} R {} out {:?}", l, e, s.s, m.f(), s.r, s.out);
        std::io::stdout().flush().unwrap();
        if e != 0 {
            m.recover();
        }
    }
}
