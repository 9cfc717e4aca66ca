//! The seams between the code under test and the machine. This crate is never instrumented.
//!
//! Everything nondeterministic that cesride can reach goes through here, by symbol interposition in
//! the simulator's own executable (the shipped library is unchanged):
//!   * `syscall(SYS_getrandom)`, `getrandom`, and the `/dev/urandom` fallback (`open`/`poll`/`read`)
//!   * `clock_gettime` (and `nanosleep`, `sched_yield`)
//!   * `syscall(SYS_futex)`: the only way a Rust thread blocks
//!   * the global allocator
//!   * every basic-block edge of the code under test (`trace-pc-guard`): step counter, preemption point
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static TID: Cell<isize> = const { Cell::new(-1) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// Enter the code under test: seams are live until the matching `leave`.
pub fn enter() -> u32 {
    IN_LIB.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    })
}
pub fn leave(prev: u32) {
    IN_LIB.with(|c| c.set(prev));
}
pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get() > 0)
}

// ------------------------------------------------------------------ raw system calls

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn fin(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

const SYS_READ: i64 = 0;
const SYS_POLL: i64 = 7;
const SYS_SCHED_YIELD: i64 = 24;
const SYS_NANOSLEEP: i64 = 35;
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_OPENAT: i64 = 257;
const SYS_GETRANDOM: i64 = 318;

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(231, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------ entropy

/// What the operating system answers to one request for entropy.
pub type EntropyFn = fn(buf: *mut u8, len: usize, dev: bool) -> i64;
static mut ENTROPY: Option<EntropyFn> = None;
pub fn set_entropy(f: Option<EntropyFn>) {
    unsafe { ENTROPY = f }
}
const FAKE_FD: i32 = 987_654;

unsafe fn entropy(buf: *mut u8, len: usize, dev: bool) -> Option<i64> {
    let f = ENTROPY?;
    if !in_lib() {
        return None;
    }
    sched_point();
    let prev = IN_LIB.with(|c| c.replace(0));
    let r = f(buf, len, dev);
    IN_LIB.with(|c| c.set(prev));
    Some(r)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    match n {
        SYS_GETRANDOM => {
            if let Some(r) = entropy(a as *mut u8, b as usize, false) {
                return fin(r);
            }
            return fin(fixed(a as *mut u8, b as usize));
        }
        SYS_FUTEX => {
            if let Some(r) = sched_futex(a as *const AtomicU32, b, c, d) {
                return fin(r);
            }
        }
        _ => {}
    }
    fin(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(r) = entropy(buf, len, false) {
        return fin(r) as isize;
    }
    let _ = flags;
    fin(fixed(buf, len)) as isize
}
/// The simulator itself (its hash tables) never sees randomness, so that a run is the same in every process.
unsafe fn fixed(buf: *mut u8, len: usize) -> i64 {
    std::ptr::write_bytes(buf, 0x5a, len);
    len as i64
}

unsafe fn is_dev_random(path: *const u8) -> bool {
    let mut n = 0;
    while *path.add(n) != 0 && n < 32 {
        n += 1;
    }
    let s = std::slice::from_raw_parts(path, n);
    s == b"/dev/urandom" || s == b"/dev/random"
}

unsafe fn do_open(path: *const u8, flags: i32, mode: u32) -> i32 {
    if ENTROPY.is_some() && in_lib() && is_dev_random(path) {
        let r = entropy(std::ptr::null_mut(), 0, true).unwrap_or(0);
        if r < 0 {
            return fin(r) as i32;
        }
        return FAKE_FD;
    }
    fin(raw(SYS_OPENAT, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut i32, n: u64, timeout: i32) -> i32 {
    if n == 1 && *fds == FAKE_FD {
        // struct pollfd { int fd; short events; short revents; }
        *(fds as *mut i16).add(3) = 1;
        return 1;
    }
    fin(raw(SYS_POLL, fds as i64, n as i64, timeout as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if fd == FAKE_FD {
        if let Some(r) = entropy(buf, len, true) {
            return fin(r) as isize;
        }
    }
    fin(raw(SYS_READ, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd == FAKE_FD {
        return 0;
    }
    fin(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}

// ------------------------------------------------------------------ clock

static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static CLOCK_S: AtomicI64 = AtomicI64::new(0);
static CLOCK_N: AtomicI64 = AtomicI64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
/// The clock moves by this many nanoseconds with every reading (forwards or backwards).
static CLOCK_STEP: AtomicI64 = AtomicI64::new(0);
const CLOCK_LOG: usize = 64;
static mut CLOCK_SEEN: [(i64, i64); CLOCK_LOG] = [(0, 0); CLOCK_LOG];

pub fn clock_step(ns: i64) {
    CLOCK_STEP.store(ns, Relaxed);
}
/// The readings given since the clock was last set.
pub fn clock_seen() -> Vec<(i64, i64)> {
    unsafe { CLOCK_SEEN[..(CLOCK_READS.load(Relaxed) as usize).min(CLOCK_LOG)].to_vec() }
}
fn clock_reading() -> (i64, i64) {
    let v = (CLOCK_S.load(Relaxed), CLOCK_N.load(Relaxed));
    let k = CLOCK_READS.fetch_add(1, Relaxed) as usize;
    if k < CLOCK_LOG {
        unsafe { CLOCK_SEEN[k] = v }
    }
    let d = CLOCK_STEP.load(Relaxed);
    if d != 0 {
        let n = v.1 as i128 + d as i128;
        CLOCK_S.store(v.0 + n.div_euclid(1_000_000_000) as i64, Relaxed);
        CLOCK_N.store(n.rem_euclid(1_000_000_000) as i64, Relaxed);
    }
    v
}

pub fn set_clock(v: Option<(i64, i64)>) {
    CLOCK_READS.store(0, Relaxed);
    CLOCK_STEP.store(0, Relaxed);
    match v {
        Some((s, n)) => {
            CLOCK_S.store(s, Relaxed);
            CLOCK_N.store(n, Relaxed);
            CLOCK_ON.store(true, Relaxed);
        }
        None => CLOCK_ON.store(false, Relaxed),
    }
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if CLOCK_ON.load(Relaxed) && in_lib() {
        sched_point();
        let v = clock_reading();
        (*ts).s = v.0;
        (*ts).n = v.1;
        return 0;
    }
    fin(raw(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}
#[repr(C)]
pub struct Timeval {
    s: i64,
    u: i64,
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, tz: *mut u8) -> i32 {
    if CLOCK_ON.load(Relaxed) && in_lib() {
        let v = clock_reading();
        (*tv).s = v.0;
        (*tv).u = v.1 / 1000;
        return 0;
    }
    fin(raw(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let s = if CLOCK_ON.load(Relaxed) && in_lib() {
        clock_reading().0
    } else {
        let mut ts = Timespec { s: 0, n: 0 };
        raw(SYS_CLOCK_GETTIME, 0, &mut ts as *mut Timespec as i64, 0, 0, 0, 0);
        ts.s
    };
    if !t.is_null() {
        *t = s;
    }
    s
}

fn sim_sleep(ts: *const Timespec) {
    unsafe {
        let mut s = CLOCK_S.load(Relaxed) + (*ts).s;
        let mut n = CLOCK_N.load(Relaxed) + (*ts).n;
        if n >= 1_000_000_000 {
            n -= 1_000_000_000;
            s += 1;
        }
        CLOCK_S.store(s, Relaxed);
        CLOCK_N.store(n, Relaxed);
    }
    sched_yield_sim();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_lib() {
        sim_sleep(req);
        return 0;
    }
    fin(raw(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_lib() {
        sim_sleep(req);
        return 0;
    }
    -(raw(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_lib() && TID.with(|t| t.get()) >= 0 {
        sched_yield_sim();
        return 0;
    }
    raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

// ------------------------------------------------------------------ edges

pub static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
const NEDGE: usize = 1 << 18;
static mut COV_OWN: [u8; NEDGE] = [0; NEDGE];
static mut COV: *mut u8 = unsafe { COV_OWN.as_mut_ptr() };
static mut NEXT_GUARD: u32 = 0;

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// The process ends with EXIT_STEPS when more than `n` further steps are taken inside the library.
pub fn limit_steps(n: u64) {
    STEP_LIMIT.store(if n == u64::MAX { n } else { steps() + n }, Relaxed);
}
pub fn edges_total() -> u32 {
    unsafe { NEXT_GUARD }
}
/// Processes forked from here on record the edges they reach in common.
pub fn edges_share() {
    unsafe {
        // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
        let m = raw(9, 0, NEDGE as i64, 3, 0x21, -1, 0);
        if m > 0 {
            COV = m as *mut u8;
        }
    }
}
pub fn edges_hit() -> Vec<u32> {
    unsafe { (0..NEDGE as u32).filter(|i| *COV.add(*i as usize) != 0).collect() }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        NEXT_GUARD += 1;
        *p = NEXT_GUARD;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !in_lib() {
        return;
    }
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    let e = COV.add(*g as usize & (NEDGE - 1));
    if *e == 0 {
        *e = 1;
    }
    if n > STEP_LIMIT.load(Relaxed) {
        exit_now(EXIT_STEPS);
    }
    sched_point();
}

/// An access to memory: where threads can meet without a basic block in between is in statics.
macro_rules! accesses {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: usize) {
            access(p)
        }
    )*};
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
unsafe fn access(p: usize) {
    if ACTIVE.load(Relaxed) && p >= std::ptr::addr_of!(__data_start) as usize && p < std::ptr::addr_of!(_end) as usize && in_lib() {
        sched_point();
    }
}

// ------------------------------------------------------------------ allocator

pub struct SimAlloc;

pub static MEM_CUR: AtomicI64 = AtomicI64::new(0);
pub static MEM_PEAK: AtomicI64 = AtomicI64::new(0);
pub static MEM_TOTAL: AtomicU64 = AtomicU64::new(0);
pub static MEM_CALLS: AtomicU64 = AtomicU64::new(0);
pub static MEM_BIGGEST: AtomicU64 = AtomicU64::new(0);
static MEM_BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
pub static MEM_DENIED: AtomicU64 = AtomicU64::new(0);

pub fn mem_reset() {
    MEM_CUR.store(0, Relaxed);
    MEM_PEAK.store(0, Relaxed);
    MEM_TOTAL.store(0, Relaxed);
    MEM_CALLS.store(0, Relaxed);
    MEM_BIGGEST.store(0, Relaxed);
    MEM_DENIED.store(0, Relaxed);
}
/// Allocations of the library beyond this many live bytes are refused (memory pressure).
pub fn mem_budget(n: i64) {
    MEM_BUDGET.store(n, Relaxed);
}

const MAXN: usize = 160;
pub const NEEDLE: usize = 12;
static SCAN: AtomicBool = AtomicBool::new(false);
static mut NEEDLES: [[u8; NEEDLE]; MAXN] = [[0; NEEDLE]; MAXN];
static mut NNEEDLES: usize = 0;
static mut FIRST: [bool; 256] = [false; 256];
pub static SCANNED: AtomicU64 = AtomicU64::new(0);
pub static LEAKS: AtomicU64 = AtomicU64::new(0);
pub static LEAK_WHICH: AtomicUsize = AtomicUsize::new(0);
pub static LEAK_SIZE: AtomicUsize = AtomicUsize::new(0);

/// Look for fragments in every block the library gives back, from now on.
pub fn scan_start() {
    unsafe {
        FIRST = [false; 256];
        NNEEDLES = 0;
        LIVE = [(0, 0); LIVEN];
    }
    SCANNED.store(0, Relaxed);
    LEAKS.store(0, Relaxed);
    LIVE_LOST.store(0, Relaxed);
    SCAN.store(true, Relaxed);
}
/// Also look for these 12-byte fragments; how many were there before, or nothing if there is no room.
pub fn scan_add(fragments: &[[u8; NEEDLE]]) -> Option<usize> {
    unsafe {
        let n = NNEEDLES;
        if n + fragments.len() > MAXN {
            return None;
        }
        for f in fragments {
            NEEDLES[NNEEDLES] = *f;
            FIRST[f[0] as usize] = true;
            NNEEDLES += 1;
        }
        Some(n)
    }
}
// every block the library holds while scanning, by address
const LIVEN: usize = 1 << 12;
static mut LIVE: [(usize, usize); LIVEN] = [(0, 0); LIVEN];
pub static LIVE_LOST: AtomicU64 = AtomicU64::new(0);
unsafe fn live_add(p: *mut u8, n: usize) {
    let mut i = (p as usize >> 4).wrapping_mul(0x9E37_79B9) & (LIVEN - 1);
    for _ in 0..LIVEN {
        if LIVE[i].0 <= 1 {
            LIVE[i] = (p as usize, n);
            return;
        }
        i = (i + 1) & (LIVEN - 1);
    }
    LIVE_LOST.fetch_add(1, Relaxed);
}
unsafe fn live_remove(p: *mut u8) -> bool {
    let mut i = (p as usize >> 4).wrapping_mul(0x9E37_79B9) & (LIVEN - 1);
    for _ in 0..LIVEN {
        if LIVE[i].0 == p as usize {
            LIVE[i] = (1, 0);
            return true;
        }
        if LIVE[i].0 == 0 {
            return false;
        }
        i = (i + 1) & (LIVEN - 1);
    }
    false
}
/// Looks through the blocks the library still holds: how many there are.
pub fn scan_live() -> usize {
    let mut k = 0;
    unsafe {
        for i in 0..LIVEN {
            if LIVE[i].0 > 1 {
                k += 1;
                scan_block(LIVE[i].0 as *const u8, LIVE[i].1);
            }
        }
    }
    k
}
pub fn scan_off() {
    SCAN.store(false, Relaxed);
}

unsafe fn scan_block(p: *const u8, n: usize) {
    SCANNED.fetch_add(n as u64, Relaxed);
    if n < NEEDLE {
        return;
    }
    for i in 0..=n - NEEDLE {
        let b = std::ptr::read_volatile(p.add(i));
        if FIRST[b as usize] {
            let w = std::slice::from_raw_parts(p.add(i), NEEDLE);
            for (k, needle) in NEEDLES[..NNEEDLES].iter().enumerate() {
                if w == needle {
                    if LEAKS.fetch_add(1, Relaxed) == 0 {
                        LEAK_WHICH.store(k, Relaxed);
                        LEAK_SIZE.store(n, Relaxed);
                    }
                    return;
                }
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_lib() {
            sched_point();
            let n = l.size() as i64;
            let cur = MEM_CUR.load(Relaxed) + n;
            if cur > MEM_BUDGET.load(Relaxed) {
                MEM_DENIED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            MEM_CUR.store(cur, Relaxed);
            if cur > MEM_PEAK.load(Relaxed) {
                MEM_PEAK.store(cur, Relaxed);
            }
            MEM_TOTAL.store(MEM_TOTAL.load(Relaxed) + n as u64, Relaxed);
            MEM_CALLS.store(MEM_CALLS.load(Relaxed) + 1, Relaxed);
            if n as u64 > MEM_BIGGEST.load(Relaxed) {
                MEM_BIGGEST.store(n as u64, Relaxed);
            }
            // fresh memory is never what happened to be there before
            let p = System.alloc(l);
            if SCAN.load(Relaxed) && !p.is_null() {
                std::ptr::write_bytes(p, 0xA5, l.size());
                live_add(p, l.size());
            }
            return p;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_lib() {
            let n = l.size() as i64;
            let cur = MEM_CUR.load(Relaxed) + n;
            if cur > MEM_BUDGET.load(Relaxed) {
                MEM_DENIED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            MEM_CUR.store(cur, Relaxed);
            if cur > MEM_PEAK.load(Relaxed) {
                MEM_PEAK.store(cur, Relaxed);
            }
            MEM_TOTAL.store(MEM_TOTAL.load(Relaxed) + n as u64, Relaxed);
            MEM_CALLS.store(MEM_CALLS.load(Relaxed) + 1, Relaxed);
            if n as u64 > MEM_BIGGEST.load(Relaxed) {
                MEM_BIGGEST.store(n as u64, Relaxed);
            }
            let p = System.alloc_zeroed(l);
            if SCAN.load(Relaxed) && !p.is_null() {
                live_add(p, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // only what the library itself allocated since the search began
        let ours = SCAN.load(Relaxed) && live_remove(p);
        if in_lib() {
            MEM_CUR.store(MEM_CUR.load(Relaxed) - l.size() as i64, Relaxed);
            if ours {
                scan_block(p, l.size());
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_lib() {
            // growing moves the content and frees the old block: what is left there counts
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        if SCAN.load(Relaxed) {
            live_remove(p);
        }
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------ the scheduler

pub const MAXT: usize = 8;
/// Picks who runs next (an index into `runnable`) and for how many points.
pub type DecideFn = fn(runnable: &[usize], me: usize) -> (usize, u64);

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut DECIDE: Option<DecideFn> = None;
static mut NTHREADS: usize = 0;
const ST_RUN: u32 = 0;
const ST_BLOCKED: u32 = 1;
const ST_DONE: u32 = 2;
static mut STATE: [u32; MAXT] = [ST_DONE; MAXT];
static mut WAITING: [usize; MAXT] = [0; MAXT];
static mut TIMED: [bool; MAXT] = [false; MAXT];
static mut COUNTDOWN: u64 = 0;
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static SCHED_HASH: AtomicU64 = AtomicU64::new(0);
static DEADLOCK_AT: AtomicI32 = AtomicI32::new(0);

unsafe fn wait_on(a: &AtomicU32) {
    while a.load(Acquire) == 0 {
        raw(SYS_FUTEX, a as *const _ as i64, 128, 0, 0, 0, 0);
    }
    a.store(0, Release);
}
unsafe fn post(a: &AtomicU32) {
    a.store(1, Release);
    raw(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0);
}

pub fn sched_init(n: usize, f: DecideFn) {
    unsafe {
        NTHREADS = n;
        DECIDE = Some(f);
        COUNTDOWN = 1;
        for i in 0..MAXT {
            STATE[i] = if i < n { ST_RUN } else { ST_DONE };
            WAITING[i] = 0;
            GO[i].store(0, Relaxed);
        }
        MAIN.store(0, Relaxed);
        SWITCHES.store(0, Relaxed);
        POINTS.store(0, Relaxed);
        BLOCKS.store(0, Relaxed);
        SCHED_HASH.store(0, Relaxed);
    }
}
/// Called by the main thread once all threads are parked: lets the first go, waits for all.
pub fn sched_run() {
    unsafe {
        ACTIVE.store(true, SeqCst);
        let first = pick(usize::MAX).unwrap_or(0);
        post(&GO[first]);
        wait_on(&MAIN);
        ACTIVE.store(false, SeqCst);
    }
}
pub fn sched_thread_start(id: usize) {
    TID.with(|t| t.set(id as isize));
    unsafe { wait_on(&GO[id]) }
}
pub fn sched_thread_end() {
    let me = TID.with(|t| t.replace(-1)) as usize;
    unsafe {
        STATE[me] = ST_DONE;
        match pick(me) {
            Some(next) => post(&GO[next]),
            None => {
                if (0..NTHREADS).any(|i| STATE[i] == ST_BLOCKED) {
                    deadlock();
                }
                post(&MAIN)
            }
        }
    }
}
fn deadlock() -> ! {
    DEADLOCK_AT.store(1, Relaxed);
    exit_now(EXIT_DEADLOCK)
}

unsafe fn pick(me: usize) -> Option<usize> {
    let mut r = [0usize; MAXT];
    let mut n = 0;
    for i in 0..NTHREADS {
        if STATE[i] == ST_RUN {
            r[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        // a timed wait may time out when nobody else can move
        for i in 0..NTHREADS {
            if STATE[i] == ST_BLOCKED && TIMED[i] {
                STATE[i] = ST_RUN;
                WAITING[i] = usize::MAX;
                r[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            return None;
        }
    }
    let was = BUSY.with(|b| b.replace(true));
    let prev = IN_LIB.with(|c| c.replace(0));
    let (k, q) = (DECIDE.unwrap())(&r[..n], me);
    IN_LIB.with(|c| c.set(prev));
    BUSY.with(|b| b.set(was));
    COUNTDOWN = q.max(1);
    let next = r[k % n];
    let h = SCHED_HASH.load(Relaxed);
    SCHED_HASH.store((h ^ (next as u64 + 1 + (POINTS.load(Relaxed) << 8))).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31), Relaxed);
    Some(next)
}

unsafe fn switch_from(me: usize) {
    match pick(me) {
        Some(next) if next == me => {}
        Some(next) => {
            SWITCHES.fetch_add(1, Relaxed);
            post(&GO[next]);
            wait_on(&GO[me]);
        }
        None => deadlock(),
    }
}

#[inline(always)]
pub fn sched_point() {
    if ACTIVE.load(Relaxed) {
        point_slow();
    }
}
#[inline(never)]
fn point_slow() {
    let me = TID.with(|t| t.get());
    if me < 0 || BUSY.with(|b| b.get()) {
        return;
    }
    POINTS.store(POINTS.load(Relaxed) + 1, Relaxed);
    unsafe {
        COUNTDOWN -= 1;
        if COUNTDOWN == 0 {
            switch_from(me as usize);
        }
    }
}
fn sched_yield_sim() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = TID.with(|t| t.get());
    if me >= 0 && !BUSY.with(|b| b.get()) {
        unsafe { switch_from(me as usize) }
    }
}

unsafe fn sched_futex(addr: *const AtomicU32, op: i64, val: i64, timeout: i64) -> Option<i64> {
    if !ACTIVE.load(Relaxed) || !in_lib() {
        return None;
    }
    let me = TID.with(|t| t.get());
    if me < 0 || BUSY.with(|b| b.get()) {
        return None;
    }
    let me = me as usize;
    match op & 0x7f {
        0 | 9 => {
            sched_point();
            if (*addr).load(SeqCst) != val as u32 {
                return Some(-11);
            }
            STATE[me] = ST_BLOCKED;
            WAITING[me] = addr as usize;
            TIMED[me] = timeout != 0;
            BLOCKS.fetch_add(1, Relaxed);
            switch_from(me);
            STATE[me] = ST_RUN;
            if WAITING[me] == usize::MAX {
                return Some(-110);
            }
            Some(0)
        }
        1 | 10 => {
            let mut woken = 0;
            for i in 0..NTHREADS {
                if woken < val && STATE[i] == ST_BLOCKED && WAITING[i] == addr as usize {
                    STATE[i] = ST_RUN;
                    WAITING[i] = 0;
                    woken += 1;
                }
            }
            sched_point();
            Some(woken)
        }
        _ => None,
    }
}
