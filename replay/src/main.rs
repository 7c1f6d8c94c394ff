//! Native replay: runs a harness entry compiled for the host with the symbolic bytes taken from
//! a tape (hex). Prints what the run observed.
//!   replay ENTRY TAPEHEX [k=v]...
//! exit 0: finished; 10: a check failed; 11: an assumption failed; 12: memory held a secret when
//! freed; 134 (abort): panic.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::io::Write;

struct St {
    tape: Vec<u8>,
    pos: usize,
    params: Vec<(String, u64)>,
    secrets: [[u8; 64]; 16],
    slen: [usize; 16],
    n: usize,
}
struct G(UnsafeCell<St>);
unsafe impl Sync for G {}
static G_: G = G(UnsafeCell::new(St { tape: Vec::new(), pos: 0, params: Vec::new(), secrets: [[0; 64]; 16], slen: [0; 16], n: 0 }));
fn g() -> &'static mut St {
    unsafe { &mut *G_.0.get() }
}

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scan(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        limit(new);
        // model moving reallocation: the old block is released
        let n = System.alloc(Layout::from_size_align_unchecked(new, l.align()));
        std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
        scan(p, l.size());
        System.dealloc(p, l);
        n
    }
}
static MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
fn limit(n: usize) {
    if n > MAX.load(std::sync::atomic::Ordering::Relaxed) {
        MAX.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
        out("ALLOCATION-TOO-LARGE");
        std::process::exit(13);
    }
}
unsafe fn scan(p: *mut u8, len: usize) {
    let st = g();
    for i in 0..st.n {
        let s = &st.secrets[i][..st.slen[i]];
        if s.len() < 4 || len < s.len() || s.iter().all(|b| *b == 0) {
            continue;
        }
        let b = std::slice::from_raw_parts(p as *const u8, len);
        if b.windows(s.len()).any(|w| w == s) {
            st.n = 0;
            out("SECRET-FREED");
            std::process::exit(12);
        }
    }
}
#[global_allocator]
static ALLOC: A = A;

fn out(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
unsafe fn label(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).into_owned()
}
#[no_mangle]
pub unsafe extern "C" fn sym_bytes(p: *mut u8, len: usize) {
    let st = g();
    for i in 0..len {
        let v = if st.pos < st.tape.len() { st.tape[st.pos] } else { 0 };
        st.pos += 1;
        *p.add(i) = v;
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: u32) {
    if c == 0 {
        out("ASSUME-FALSE");
        std::process::exit(11);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_check(c: u32, p: *const u8, l: usize) {
    if c == 0 {
        out(&format!("CHECK-FAILED {}", label(p, l)));
        std::process::exit(10);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_cover(p: *const u8, l: usize) {
    let _ = label(p, l);
}
#[no_mangle]
pub unsafe extern "C" fn sym_param(p: *const u8, l: usize) -> u64 {
    let n = label(p, l);
    g().params.iter().find(|(k, _)| *k == n).map(|x| x.1).unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sym_note(v: u64) {
    out(&format!("NOTE {}", v));
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn sym_secret(p: *const u8, l: usize) {
    let st = g();
    if st.n < 16 && l <= 64 {
        for i in 0..l {
            st.secrets[st.n][i] = *p.add(i);
        }
        st.slen[st.n] = l;
        st.n += 1;
    }
}
#[no_mangle]
pub extern "C" fn sym_leak() {
    g().n = 0;
}

// System calls the harness stands in for when the parameter `fs` is set.
use std::sync::atomic::{AtomicBool, Ordering};
static STAND_IN: AtomicBool = AtomicBool::new(false);
fn stand_in() -> bool {
    STAND_IN.load(Ordering::Relaxed)
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    if stand_in() {
        return harness::files::vr_open64(p, flags, mode);
    }
    syscall(2, p, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if stand_in() {
        return harness::files::vr_read(fd, p, n);
    }
    syscall(0, fd, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if stand_in() {
        return harness::files::vr_lseek64(fd, off, whence);
    }
    syscall(8, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, p: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if stand_in() {
        return harness::files::vr_statx(fd, p, flags, mask, out) as i32;
    }
    syscall(332, fd, p, flags, mask, out) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if stand_in() {
        return harness::files::vr_close(fd);
    }
    syscall(3, fd) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let st = g();
    let hex = a[2].as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    st.tape = hex.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect();
    for p in &a[3..] {
        let (k, v) = p.split_once('=').unwrap();
        st.params.push((k.to_string(), v.parse().unwrap()));
    }
    let f = harness::all().into_iter().find(|e| e.0 == a[1]).expect("no such entry").1;
    if let Ok(v) = std::env::var("VR_MAX_ALLOC") {
        MAX.store(v.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    STAND_IN.store(g().params.iter().any(|p| p.0 == "fs" && p.1 == 1), Ordering::Relaxed);
    f();
    STAND_IN.store(false, Ordering::Relaxed);
    out("DONE");
}
