// Evaluates the lines of cases.txt on rtforth's VM and compares error code, stacks and output.
use rtforth::core::Core;
use rtforth::memory::Memory;
use rtforth::mock_vm::VM;
// Large blocks are handed out dirty, and must come back with the layout they were asked for.
struct Checking;
static BLOCKS: std::sync::Mutex<[(usize, usize, usize); 64]> = std::sync::Mutex::new([(0, 0, 0); 64]);
static WRONG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::GlobalAlloc::alloc(&std::alloc::System, l);
        if l.size() >= 32768 {
            p.write_bytes(0xa5, l.size());
            if let Some(b) = BLOCKS.lock().unwrap().iter_mut().find(|b| b.0 == 0) {
                *b = (p as usize, l.size(), l.align());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = self.alloc(l);
        p.write_bytes(0, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if let Some(b) = BLOCKS.lock().unwrap().iter_mut().find(|b| b.0 == p as usize) {
            if *b != (p as usize, l.size(), l.align()) {
                WRONG.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
            *b = (0, 0, 0);
        }
        std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, l)
    }
}
#[global_allocator]
static A: Checking = Checking;
fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let record = std::env::args().nth(2).is_some();
    let mut vm = VM::new();
    let mut other = VM::new();
    let mut got = String::new();
    let mut bad = 0;
    for l in text.lines() {
        if let Some(src) = l.strip_prefix("> ") {
            vm.set_source(&src.replace("\\n", "\n"));
            vm.evaluate_input();
            let e = vm.last_error().map_or(0, |e| isize::from(e));
            let s: Vec<isize> = vm.s_stack().as_slice().to_vec();
            let f: Vec<f64> = vm.f_stack().as_slice().to_vec();
            let o = vm.output_buffer().as_mut().map(|b| std::mem::take(b)).unwrap_or_default();
            if e != 0 {
                vm.reset();
                vm.clear_stacks();
            }
            got = format!("= {} {:?} {:?} {:?}", e, s, f, o);
            if record {
                println!("{}\n{}", l, got);
            }
        } else if l == "NEW" {
            vm = VM::new();
            if WRONG.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                println!("a block was freed with another layout");
                bad += 1;
            }
            if record {
                println!("{}", l);
            }
        } else if let Some(n) = l.strip_prefix("FILL ") {
            // All of the data space but n bytes is taken.
            let left = vm.data_space().limit() - vm.data_space().here();
            vm.data_space().allot(left as isize - n.parse::<isize>().unwrap());
            if record {
                println!("{}", l);
            }
        } else if let Some(src) = l.strip_prefix("THREADS ") {
            // The line on eight machines on as many threads.
            let t: Vec<_> = (0..8)
                .map(|i| {
                    let src = format!("{} {}", i, src);
                    std::thread::spawn(move || {
                        let mut vm = VM::new();
                        vm.set_source(&src);
                        vm.evaluate_input();
                        format!("{:?} {:?}", vm.last_error(), vm.s_stack().as_slice())
                    })
                })
                .collect();
            let r: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
            got = format!("= {:?}", r);
            if record {
                println!("{}\n{}", l, got);
            }
        } else if l == "SWAP" {
            std::mem::swap(&mut vm, &mut other);
            if record {
                println!("{}", l);
            }
        } else if l.starts_with("= ") && !record {
            if l != got {
                println!("expected {}\n     got {}", l, got);
                bad += 1;
            }
        }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
