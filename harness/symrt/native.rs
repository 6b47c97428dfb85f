// Native side of the harness runtime: the same harness, compiled to machine code,
// fed with the inputs of a path the solver found.
//   replay ENTRY INPUTS     (INPUTS: one value per line)
// prints "VIOLATED <msg>" and exits 10 when an assertion fails, "PANIC <file>:<line>"
// and exits 11 on a panic, otherwise "OBS v,v,..." and exits 0.
use std::cell::RefCell;
use std::io::Write;

thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((Vec::new(), 0));
    static OBS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static EXTRA: RefCell<u32> = RefCell::new(0);
}
fn next() -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied().unwrap_or(0)
    })
}
fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn finish(code: i32, s: String) -> ! {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{s}");
    let _ = out.flush();
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
pub unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next() as u8
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        finish(12, "ASSUME".into())
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        finish(10, format!("VIOLATED {}", text(p, n)))
    }
}
#[no_mangle]
pub extern "C" fn sym_fail(p: *const u8, n: usize) {
    finish(10, format!("VIOLATED {}", text(p, n)))
}
#[no_mangle]
pub extern "C" fn sym_obs(v: u64) {
    OBS.with(|o| o.borrow_mut().push(v))
}
#[no_mangle]
pub unsafe extern "C" fn sym_obs_bytes(p: *const u8, n: usize) {
    OBS.with(|o| o.borrow_mut().push(n as u64));
    for i in 0..n {
        OBS.with(|o| o.borrow_mut().push(*p.add(i) as u64))
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_choice(n: u32) -> u32 {
    if n <= 1 {
        0
    } else {
        let v = next() as u32;
        if v >= n {
            finish(13, "CHOICE".into())
        }
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_heap_live() -> i64 {
    HEAP.load(std::sync::atomic::Ordering::Relaxed)
}
#[no_mangle]
pub extern "C" fn sym_msg(p: *const u8, n: usize) {
    eprintln!("note: {}", text(p, n))
}
#[no_mangle]
pub extern "C" fn sym_prune() {
    finish(14, "PRUNED".into())
}
// the executor's view of the operating system's random numbers
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        *p.add(i) = 0x5a ^ (i.wrapping_mul(37) as u8)
    }
    n as isize
}
static HEAP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        HEAP.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        HEAP.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = TABLE().into_iter().find(|t| t.0 == a[1]).expect("entry").1;
    let s = std::fs::read_to_string(&a[2]).expect("inputs");
    let v: Vec<u64> = s.split_whitespace().map(|x| x.parse().expect("value")).collect();
    IN.with(|i| i.borrow_mut().0 = v);
    std::panic::set_hook(Box::new(|i| {
        let m = match i.location() {
            Some(l) => format!("PANIC {}:{}", l.file(), l.line()),
            None => "PANIC ?".into(),
        };
        eprintln!("{i}");
        finish(11, m)
    }));
    f();
    let o = OBS.with(|o| o.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    finish(0, format!("OBS {o}"))
}
