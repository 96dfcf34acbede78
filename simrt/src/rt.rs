//! The simulator core: the scheduler (one runnable thread at a time, chosen by the plan), virtual
//! time, the fault injector, and the system-call layer over the simulated file system.

use crate::{
    plan::{Act, Call, Delivery, Fault, SizeLie, Sw, Unit},
    rng::{hash_bytes, mix, Rng},
    shm,
    vfs::{raw, unraw, Node, Sp, Vfs},
};
use serde::{Deserialize, Serialize};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    collections::VecDeque,
    sync::{
        atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::*},
        Arc,
    },
};

pub const FD_BASE: i32 = 1_000_000;
pub const MAX_THREADS: usize = 16;

thread_local! {
    /// 0: not a simulated thread; otherwise index + 1.
    pub static TID: Cell<u32> = const { Cell::new(0) };
    /// Harness code is running: allocations are not the library's.
    pub static IN_H: Cell<bool> = const { Cell::new(true) };
}

pub static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Atomic operations of the library so far, and the number at which the scheduler acts.
pub static ATOMS: AtomicU64 = AtomicU64::new(0);
static NEXT_ATOM: AtomicU64 = AtomicU64::new(u64::MAX);
/// With several threads, one that runs this long without a scheduled switch is preempted.
const SLICE: u64 = 4_000_000;
pub static LAST_EDGE: AtomicU32 = AtomicU32::new(0);
static WAKE: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static N_GUARDS: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Debug, PartialEq)]
pub enum Ts {
    Run,
    Futex(usize),
    Sleep(u64),
    Done,
}

pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub flags: i32,
    pub path: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fired {
    pub call: Call,
    pub what: String,
    /// Which of the operation's faults (u32::MAX: none of them).
    pub ix: u32,
    /// The library may legitimately report an error because of it.
    pub hard: bool,
}

#[derive(Default)]
pub struct OpCtx {
    pub faults: Vec<Fault>,
    pub seen: Vec<u32>,
    pub del: Delivery,
    pub nio: usize,
    pub eintr_last: bool,
    pub fired: Vec<Fired>,
    pub calls: u64,
    pub idx: usize,
    pub opened: Vec<(String, bool)>,
}

pub struct Th {
    pub st: Ts,
    pub op: OpCtx,
}

pub struct Rt {
    pub vfs: Vfs,
    pub fds: Vec<Option<Fd>>,
    pub max_fds: usize,
    pub th: Vec<Th>,
    pub cur: usize,
    pub sched: VecDeque<Sw>,
    pub base_step: u64,
    pub base_sys: u64,
    pub base_atom: u64,
    pub syscalls: u64,
    pub switches: u64,
    pub now: u64,
    pub limit: u64,
    /// System calls after which a run is taken to hang; more the more there is to read.
    pub max_sys: u64,
    /// How many operations may read what is written.
    pub ops: u64,
    pub trace: u64,
    pub hrng: Rng,
    /// Decides what the clock and the time stamps of files say.
    pub skew: u64,
    pub log: Option<Vec<String>>,
    pub finish: fn(&str) -> !,
}

static mut RT: *mut Rt = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
pub fn install(r: Rt) {
    unsafe { RT = Box::into_raw(Box::new(r)) }
}

// ---------------------------------------------------------------- raw system calls

pub unsafe fn raw_syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn park(i: usize) {
    while WAKE[i].load(Acquire) == 0 {
        unsafe {
            raw_syscall(202, WAKE[i].as_ptr() as u64, 128, 0, 0, 0, 0);
        }
    }
    WAKE[i].store(0, Release);
}
fn unpark(i: usize) {
    WAKE[i].store(1, Release);
    unsafe {
        raw_syscall(202, WAKE[i].as_ptr() as u64, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- scheduler

fn set_next() {
    let r = rt();
    let mut n = r.limit;
    let mut a = u64::MAX;
    if r.th.len() > 1 {
        n = n.min(STEP.load(Relaxed) + SLICE);
    }
    if let Some(s) = r.sched.front() {
        match s.unit {
            Unit::Step => n = n.min(r.base_step + s.after),
            Unit::Atom => a = r.base_atom + s.after,
            Unit::Sys => {}
        }
    }
    NEXT.store(n, Relaxed);
    NEXT_ATOM.store(a, Relaxed);
}

pub fn trace(kind: u64, a: u64, b: u64) {
    let r = rt();
    r.trace = mix(r.trace ^ kind, mix(a, b));
}

pub fn logf<F: FnOnce() -> String>(f: F) {
    let r = rt();
    if r.log.is_some() {
        let s = format!("t={} th{} {}", r.now + STEP.load(Relaxed), r.cur, f());
        r.log.as_mut().unwrap().push(s);
    }
}

fn now() -> u64 {
    rt().now + STEP.load(Relaxed)
}

fn wake_sleepers() {
    let t = now();
    for th in rt().th.iter_mut() {
        if let Ts::Sleep(u) = th.st {
            if u <= t {
                th.st = Ts::Run;
            }
        }
    }
}

fn runnable() -> Vec<usize> {
    wake_sleepers();
    (0..rt().th.len()).filter(|&i| rt().th[i].st == Ts::Run).collect()
}

/// Hands the token to `j` and waits for it to come back (unless this thread is done).
fn hand_over(me: usize, j: usize) {
    let r = rt();
    if me == j {
        return;
    }
    r.switches += 1;
    trace(1, ((me as u64) << 8) | j as u64, u64::from(LAST_EDGE.load(Relaxed)));
    shm::interleave(mix(u64::from(LAST_EDGE.load(Relaxed)), ((me as u64) << 8) | j as u64));
    logf(|| format!("switch to th{} (edge {})", j, LAST_EDGE.load(Relaxed)));
    r.cur = j;
    let done = r.th[me].st == Ts::Done;
    unpark(j);
    if !done {
        park(me);
    }
}

/// This thread cannot continue now (blocked, asleep or done): somebody else must.
fn give_up(me: usize) {
    loop {
        let v = runnable();
        let r = rt();
        if let Some(&j) = v.iter().find(|&&j| j > me).or(v.first()) {
            hand_over(me, j);
            return;
        }
        let wake = r.th.iter().filter_map(|t| if let Ts::Sleep(u) = t.st { Some(u) } else { None }).min();
        match wake {
            Some(u) => {
                let t = now();
                if u > t {
                    r.now += u - t;
                }
            }
            None => {
                if r.th.iter().all(|t| t.st == Ts::Done) {
                    return;
                }
                (r.finish)("deadlock");
            }
        }
    }
}

fn preempt(pick: usize) {
    let r = rt();
    let me = r.cur;
    let v: Vec<usize> = runnable().into_iter().filter(|&j| j != me).collect();
    if !v.is_empty() {
        let j = v[pick % v.len()];
        hand_over(me, j);
    }
}

#[cold]
#[inline(never)]
fn slow() {
    let r = rt();
    let s = STEP.load(Relaxed);
    if s >= r.limit {
        let h = IN_H.replace(true);
        let _ = h;
        (r.finish)("step-limit");
    }
    let h = IN_H.replace(true);
    let due = matches!(r.sched.front(), Some(w) if w.unit == Unit::Step && s >= r.base_step + w.after);
    if due {
        consume_switch();
    } else {
        set_next();
        preempt(0);
    }
    IN_H.set(h);
}

#[cold]
#[inline(never)]
fn slow_atom() {
    let h = IN_H.replace(true);
    consume_switch();
    IN_H.set(h);
}

/// Before every atomic operation of the library.
#[inline(always)]
fn atom() {
    if TID.get() == 0 || IN_H.get() {
        return;
    }
    step();
    let a = ATOMS.load(Relaxed) + 1;
    ATOMS.store(a, Relaxed);
    if a >= NEXT_ATOM.load(Relaxed) {
        slow_atom();
    }
}

fn consume_switch() {
    let r = rt();
    if let Some(sw) = r.sched.pop_front() {
        r.base_step = STEP.load(Relaxed);
        r.base_sys = r.syscalls;
        r.base_atom = ATOMS.load(Relaxed);
        set_next();
        preempt(sw.pick as usize);
    } else {
        set_next();
    }
}

#[inline(always)]
fn step() {
    if TID.get() == 0 || IN_H.get() {
        return;
    }
    let s = STEP.load(Relaxed) + 1;
    STEP.store(s, Relaxed);
    if s >= NEXT.load(Relaxed) {
        slow();
    }
}

pub fn thread_begin(i: usize) {
    TID.set(i as u32 + 1);
    IN_H.set(true);
    park(i);
}

pub fn thread_end(i: usize) {
    rt().th[i].st = Ts::Done;
    logf(|| "thread done".into());
    // Nothing of this thread is simulated any more.
    TID.set(0);
    give_up(i);
}

pub fn start() {
    let r = rt();
    set_next();
    r.cur = 0;
    unpark(0);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if TID.get() == 0 || IN_H.get() {
        return;
    }
    let id = unsafe { *g };
    LAST_EDGE.store(id, Relaxed);
    shm::cover(id);
    step();
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    let mut n = N_GUARDS.load(Relaxed);
    while p < b {
        n += 1;
        unsafe {
            *p = n;
            p = p.add(1);
        }
    }
    N_GUARDS.store(n, Relaxed);
}
/// Where the instrumented locations are (address and flags of each, in guard order).
pub static PCS: [AtomicU64; 2] = [const { AtomicU64::new(0) }; 2];
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(a: *const u64, b: *const u64) {
    PCS[0].store(a as u64, Relaxed);
    PCS[1].store(b as u64, Relaxed);
}
macro_rules! memcb {
    ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(_p: *mut u8) { step() } )* }
}
memcb!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
       __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
       __sanitizer_cov_store8 __sanitizer_cov_store16);

// The library's atomic operations (LLVM's tsan pass turns them into these calls). One thread runs at
// a time, so they are sequentially consistent.
macro_rules! atomics {
    ($($t:ident $a:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t { atom(); (*(p as *const $a)).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) { atom(); (*(p as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t { atom(); (*(p as *const $a)).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            atom();
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* }
}
use std::sync::atomic::{AtomicU16, AtomicU8};
atomics! {
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    atom()
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

// ---------------------------------------------------------------- allocator

pub struct Alloc;

#[inline(always)]
fn lib_alloc() -> bool {
    TID.get() != 0 && !IN_H.get()
}

/// The library's heap lies at a fixed place and is handed out in a fixed way, so that addresses are
/// the same in every execution of a plan. One simulated thread runs at a time.
const ARENA: usize = 0x6000_0000_0000;
const ARENA_LEN: usize = 8 << 30;
/// No single allocation may be larger, nor all of them together.
const MAX_ALLOC: usize = 256 << 20;
const MAX_HEAP: usize = 1 << 30;

struct Arena {
    next: usize,
    free: [usize; 32],
}
static mut HEAP: Arena = Arena { next: 0, free: [0; 32] };

/// In the child, before anything is simulated.
pub fn heap_init(skip: usize) {
    unsafe {
        let p = libc::mmap(
            ARENA as *mut libc::c_void,
            ARENA_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != ARENA {
            libc::_exit(4);
        }
        HEAP = Arena { next: ARENA + skip, free: [0; 32] };
    }
}

fn class(n: usize, align: usize) -> usize {
    n.max(align).max(16).next_power_of_two().trailing_zeros() as usize
}

#[allow(static_mut_refs)]
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let k = class(l.size(), l.align());
    let h = &mut HEAP;
    if h.free[k] != 0 {
        let p = h.free[k];
        h.free[k] = *(p as *const usize);
        return p as *mut u8;
    }
    let n = 1usize << k;
    let p = (h.next + n - 1) & !(n - 1);
    if p + n > ARENA + ARENA_LEN {
        return std::ptr::null_mut();
    }
    h.next = p + n;
    p as *mut u8
}

#[allow(static_mut_refs)]
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let k = class(l.size(), l.align());
    // What is used after it was freed shows.
    std::ptr::write_bytes(p, 0xDD, l.size().min(256));
    *(p as *mut usize) = HEAP.free[k];
    HEAP.free[k] = p as usize;
}

fn in_arena(p: *mut u8) -> bool {
    (ARENA..ARENA + ARENA_LEN).contains(&(p as usize))
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if lib_alloc() {
            if l.size() > MAX_ALLOC || LIVE_BYTES.load(Relaxed) as usize + l.size() > MAX_HEAP {
                shm::note_oom(l.size());
                return std::ptr::null_mut();
            }
            LIVE.store(LIVE.load(Relaxed) + 1, Relaxed);
            LIVE_BYTES.store(LIVE_BYTES.load(Relaxed) + l.size() as i64, Relaxed);
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            LIVE.store(LIVE.load(Relaxed) - 1, Relaxed);
            LIVE_BYTES.store(LIVE_BYTES.load(Relaxed) - l.size() as i64, Relaxed);
            return arena_free(p, l);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p) {
            return System.realloc(p, l, n);
        }
        if n > MAX_ALLOC {
            shm::note_oom(n);
            return std::ptr::null_mut();
        }
        LIVE_BYTES.store(LIVE_BYTES.load(Relaxed) + n as i64 - l.size() as i64, Relaxed);
        if class(n, l.align()) == class(l.size(), l.align()) {
            return p;
        }
        let m = Layout::from_size_align_unchecked(n, l.align());
        let q = arena_alloc(m);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            arena_free(p, l);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Runs library code: allocations inside belong to the library.
pub fn api<T>(f: impl FnOnce() -> T) -> T {
    let h = IN_H.replace(false);
    let r = f();
    IN_H.set(h);
    r
}

// ---------------------------------------------------------------- system-call layer

enum Go {
    Normal,
    Errno(i32),
    Short(usize),
    Zero,
    Size(SizeLie),
    KillAfter,
}

struct Guard(bool);
impl Drop for Guard {
    fn drop(&mut self) {
        IN_H.set(self.0);
    }
}
fn hguard() -> Guard {
    Guard(IN_H.replace(true))
}

fn fire(call: Call, what: &str, hard: bool) {
    fire_ix(call, what, hard, u32::MAX)
}

fn fire_ix(call: Call, what: &str, hard: bool, ix: u32) {
    let r = rt();
    shm::count_fault(call, what);
    trace(3, hash_bytes(7, what.as_bytes()), call as u64);
    let me = r.cur;
    r.th[me].op.fired.push(Fired { call, what: what.into(), ix, hard });
    logf(|| format!("FAULT {:?} {}", call, what));
}

/// Every simulated system call comes through here: scheduling point, then fault injection.
fn enter(call: Call, path: &[u8]) -> Go {
    let r = rt();
    r.syscalls += 1;
    r.now += 1000;
    if r.syscalls > r.max_sys.min(6_000_000) {
        (r.finish)("syscall-limit");
    }
    if let Some(s) = r.sched.front() {
        if s.unit == Unit::Sys && r.syscalls - r.base_sys >= s.after {
            consume_switch();
        }
    }
    let me = rt().cur;
    let r = rt();
    r.th[me].op.calls += 1;
    trace(2, call as u64, hash_bytes(me as u64, path));
    logf(|| format!("{:?} {}", call, unraw(path)));
    shm::count_call(call);
    let n = r.th[me].op.faults.len();
    let mut go = Go::Normal;
    for i in 0..n {
        let f = r.th[me].op.faults[i].clone();
        if f.call != Call::Any && f.call != call {
            continue;
        }
        if let Some(p) = &f.path {
            if !path.ends_with(&raw(p)) {
                continue;
            }
        }
        let seen = r.th[me].op.seen[i];
        r.th[me].op.seen[i] += 1;
        if seen < f.nth || seen - f.nth >= f.count {
            continue;
        }
        match f.act {
            Act::Kill => {
                fire(call, "kill", true);
                (r.finish)("killed");
            }
            Act::Stall(ns) => {
                fire(call, "stall", false);
                let t = now();
                r.th[me].st = Ts::Sleep(t + ns);
                give_up(me);
            }
            Act::Mut(m) => {
                fire_ix(call, "mutate", false, i as u32);
                let ok = m.apply(&mut r.vfs);
                logf(|| format!("mutation {:?} -> {:?}", m, ok));
            }
            Act::Errno(e) => {
                if matches!(go, Go::Normal) {
                    // Only these may be interrupted.
                    let eintr = e == libc::EINTR;
                    if eintr && !matches!(call, Call::Open | Call::Read | Call::Write) {
                        continue;
                    }
                    fire(call, &format!("errno{}", e), !eintr);
                    go = Go::Errno(e);
                }
            }
            Act::Short(k) => {
                if matches!(go, Go::Normal) && matches!(call, Call::Read | Call::Write) {
                    fire(call, "short", false);
                    go = Go::Short(k.max(1) as usize);
                }
            }
            Act::Zero => {
                if matches!(go, Go::Normal) && call == Call::Write {
                    fire(call, "zero", true);
                    go = Go::Zero;
                }
            }
            Act::Size(l) => {
                if matches!(go, Go::Normal) && matches!(call, Call::FStat | Call::Stat) {
                    fire(call, &format!("size-{:?}", l), matches!(l, SizeLie::Huge | SizeLie::Max));
                    go = Go::Size(l);
                }
            }
            Act::KillAfter => {
                if matches!(go, Go::Normal) {
                    fire(call, "kill-after", true);
                    go = Go::KillAfter;
                }
            }
        }
    }
    if let Go::Normal = go {
        if matches!(call, Call::Read | Call::Write) {
            let op = &mut r.th[me].op;
            op.nio += 1;
            if op.del.eintr > 0 && op.nio % op.del.eintr as usize == 0 && !op.eintr_last {
                op.eintr_last = true;
                fire(call, "eintr", false);
                return Go::Errno(libc::EINTR);
            }
            op.eintr_last = false;
            if !op.del.chunks.is_empty() {
                let c = op.del.chunks[op.nio % op.del.chunks.len()];
                if c > 0 {
                    fire(call, "chunk", false);
                    return Go::Short(c as usize);
                }
            }
        }
    }
    go
}

fn leave(go: &Go) {
    if let Go::KillAfter = go {
        (rt().finish)("killed");
    }
}

unsafe fn cpath<'a>(p: *const libc::c_char) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}

fn sim() -> bool {
    TID.get() != 0
}

unsafe fn at_path(dfd: i32, p: *const libc::c_char) -> Option<Vec<u8>> {
    let b = cpath(p);
    if b.first() == Some(&b'/') || dfd == libc::AT_FDCWD {
        return Some(b.to_vec());
    }
    if dfd >= FD_BASE {
        let f = getfd(dfd)?;
        let mut v = f.path.clone();
        v.push(b'/');
        v.extend(b);
        return Some(v);
    }
    Some(b.to_vec())
}

fn getfd(fd: i32) -> Option<&'static mut Fd> {
    rt().fds.get_mut((fd - FD_BASE) as usize).and_then(|x| x.as_mut())
}

fn sim_open(path: &[u8], flags: i32) -> i32 {
    let _g = hguard();
    let go = enter(Call::Open, path);
    if let Go::Errno(e) = go {
        set_errno(e);
        return -1;
    }
    let r = rt();
    let res = (|| -> Result<usize, i32> {
        if r.fds.iter().filter(|f| f.is_some()).count() >= r.max_fds {
            shm::count_fault(Call::Open, "fd-limit");
            let me = r.cur;
            r.th[me].op.fired.push(Fired { call: Call::Open, what: "fd-limit".into(), ix: u32::MAX, hard: true });
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let follow = flags & libc::O_NOFOLLOW == 0 && flags & (libc::O_CREAT | libc::O_EXCL) != (libc::O_CREAT | libc::O_EXCL);
        let x = r.vfs.resolve(path, follow)?;
        let ino = match x.ino {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                match &r.vfs.nodes[i] {
                    Node::Link(_) => return Err(libc::ELOOP),
                    Node::Dir(_) => {
                        r.vfs.may(i, 4)?;
                        if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 {
                            return Err(libc::EISDIR);
                        }
                    }
                    Node::File(_) => {
                        if flags & libc::O_DIRECTORY != 0 {
                            return Err(libc::ENOTDIR);
                        }
                        if acc != libc::O_WRONLY {
                            r.vfs.may(i, 4)?;
                        }
                        if acc != libc::O_RDONLY {
                            r.vfs.may(i, 2)?;
                        }
                    }
                    Node::Special(s) => {
                        let s = *s;
                        if flags & libc::O_PATH == 0 {
                            match s {
                                Sp::Sock => return Err(libc::ENXIO),
                                Sp::Fifo if flags & libc::O_NONBLOCK != 0 || acc == libc::O_RDWR => {
                                    if acc == libc::O_WRONLY {
                                        return Err(libc::ENXIO);
                                    }
                                }
                                Sp::Fifo => {
                                    let me = r.cur;
                                    loop {
                                        logf(|| "waits for the other side of the FIFO".into());
                                        r.th[me].st = Ts::Futex(usize::MAX);
                                        give_up(me);
                                    }
                                }
                                _ => {}
                            }
                        }
                        return Ok(i);
                    }
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                    r.vfs.nodes[i] = Node::File(Arc::new(vec![]));
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if path.ends_with(b"/") {
                    return Err(libc::EISDIR);
                }
                r.vfs.may(x.dir, 3)?;
                // (The target of a dangling link is created.)
                let i = r.vfs.add(Node::File(Arc::new(vec![])));
                if let Node::Dir(m) = &mut r.vfs.nodes[x.dir] {
                    m.insert(x.name.clone(), i);
                } else {
                    return Err(libc::ENOTDIR);
                }
                i
            }
        };
        Ok(ino)
    })();
    let out = match res {
        Ok(ino) => {
            let me = r.cur;
            r.th[me].op.opened.push((unraw(path), flags & libc::O_ACCMODE != libc::O_RDONLY));
            let f = Fd { ino, pos: 0, flags, path: path.to_vec() };
            let i = match r.fds.iter().position(|x| x.is_none()) {
                Some(i) => {
                    r.fds[i] = Some(f);
                    i
                }
                None => {
                    r.fds.push(Some(f));
                    r.fds.len() - 1
                }
            };
            FD_BASE + i as i32
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    };
    trace(4, out as u64, 0);
    leave(&go);
    out
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if sim() {
        sim_open(cpath(p), flags)
    } else {
        ret(raw_syscall(2, p as u64, flags as u64, u64::from(mode), 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if sim() {
        match at_path(d, p) {
            Some(v) => sim_open(&v, flags),
            None => {
                set_errno(libc::EBADF);
                -1
            }
        }
    } else {
        ret(raw_syscall(257, d as u64, p as u64, flags as u64, u64::from(mode), 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat64(d, p, flags, mode)
}

unsafe fn sim_read(fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> isize {
    let _g = hguard();
    let Some(path) = getfd(fd).map(|f| f.path.clone()) else {
        set_errno(libc::EBADF);
        return -1;
    };
    let go = enter(Call::Read, &path);
    let mut n = n;
    match go {
        Go::Errno(e) => {
            set_errno(e);
            return -1;
        }
        Go::Short(k) => n = n.min(k),
        _ => {}
    }
    let Some(f) = getfd(fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
        set_errno(libc::EBADF);
        return -1;
    }
    let d = match &rt().vfs.nodes[f.ino] {
        Node::File(d) => d.clone(),
        Node::Special(Sp::Zero) => {
            let n = n.min(65_536);
            std::ptr::write_bytes(buf, 0, n);
            leave(&go);
            return n as isize;
        }
        Node::Special(_) => return 0,
        _ => {
            set_errno(libc::EISDIR);
            return -1;
        }
    };
    let pos = at.unwrap_or(f.pos).min(d.len());
    let k = n.min(d.len() - pos);
    std::ptr::copy_nonoverlapping(d.as_ptr().add(pos), buf, k);
    if at.is_none() {
        f.pos = pos + k;
    }
    trace(5, k as u64, pos as u64);
    leave(&go);
    k as isize
}

unsafe fn sim_write(fd: i32, buf: *const u8, n: usize, at: Option<usize>) -> isize {
    let _g = hguard();
    let Some(path) = getfd(fd).map(|f| f.path.clone()) else {
        set_errno(libc::EBADF);
        return -1;
    };
    let go = enter(Call::Write, &path);
    let mut n = n;
    match go {
        Go::Errno(e) => {
            set_errno(e);
            return -1;
        }
        Go::Zero => return 0,
        Go::Short(k) => n = n.min(k),
        _ => {}
    }
    let Some(f) = getfd(fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
        set_errno(libc::EBADF);
        return -1;
    }
    if let Node::Special(_) = rt().vfs.nodes[f.ino] {
        leave(&go);
        return n as isize;
    }
    let Node::File(d) = &mut rt().vfs.nodes[f.ino] else {
        set_errno(libc::EISDIR);
        return -1;
    };
    let d = Arc::make_mut(d);
    let pos = if f.flags & libc::O_APPEND != 0 { d.len() } else { at.unwrap_or(f.pos) };
    if d.len() < pos + n {
        d.resize(pos + n, 0);
    }
    std::ptr::copy_nonoverlapping(buf, d.as_mut_ptr().add(pos), n);
    if at.is_none() {
        f.pos = pos + n;
    }
    rt().max_sys += n as u64 * rt().ops;
    trace(6, n as u64, pos as u64);
    leave(&go);
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    if sim() && fd >= FD_BASE {
        sim_read(fd, buf.cast(), n, None)
    } else {
        ret(raw_syscall(0, fd as u64, buf as u64, n as u64, 0, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, n: usize, off: i64) -> isize {
    if sim() && fd >= FD_BASE {
        sim_read(fd, buf.cast(), n, Some(off as usize))
    } else {
        ret(raw_syscall(17, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if sim() && fd >= FD_BASE {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return sim_read(fd, x.iov_base.cast(), x.iov_len, None);
            }
        }
        0
    } else {
        ret(raw_syscall(19, fd as u64, v as u64, n as u64, 0, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if sim() && fd >= FD_BASE {
        sim_write(fd, buf.cast(), n, None)
    } else {
        ret(raw_syscall(1, fd as u64, buf as u64, n as u64, 0, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    if sim() && fd >= FD_BASE {
        sim_write(fd, buf.cast(), n, Some(off as usize))
    } else {
        ret(raw_syscall(18, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if sim() && fd >= FD_BASE {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return sim_write(fd, x.iov_base.cast(), x.iov_len, None);
            }
        }
        0
    } else {
        ret(raw_syscall(20, fd as u64, v as u64, n as u64, 0, 0, 0)) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim() && fd >= FD_BASE {
        let _g = hguard();
        let path = getfd(fd).map(|f| f.path.clone()).unwrap_or_default();
        let go = enter(Call::Close, &path);
        let i = (fd - FD_BASE) as usize;
        let r = rt();
        if i < r.fds.len() && r.fds[i].is_some() {
            r.fds[i] = None;
        } else {
            set_errno(libc::EBADF);
            return -1;
        }
        leave(&go);
        if let Go::Errno(e) = go {
            set_errno(e);
            return -1;
        }
        0
    } else {
        ret(raw_syscall(3, fd as u64, 0, 0, 0, 0, 0)) as i32
    }
}

fn lie(l: &SizeLie, n: u64) -> u64 {
    match l {
        SizeLie::Zero => 0,
        SizeLie::Less => n / 2,
        SizeLie::More => n * 2 + 7,
        SizeLie::Huge => 1 << 46,
        SizeLie::Max => i64::MAX as u64,
    }
}

/// (mode, size, inode, links)
fn sim_stat(fd: Option<i32>, path: &[u8], follow: bool) -> Result<(u32, u64, u64, u32), i32> {
    let _g = hguard();
    let (go, ino) = match fd {
        Some(fd) => {
            let p = getfd(fd).map(|f| f.path.clone()).ok_or(libc::EBADF)?;
            let go = enter(Call::FStat, &p);
            let ino = getfd(fd).ok_or(libc::EBADF)?.ino;
            (go, Ok(ino))
        }
        None => {
            let go = enter(Call::Stat, path);
            let r = rt().vfs.resolve(path, follow).and_then(|x| x.ino.ok_or(libc::ENOENT));
            (go, r)
        }
    };
    if let Go::Errno(e) = go {
        return Err(e);
    }
    let ino = match ino {
        Ok(i) => i,
        Err(e) => {
            leave(&go);
            return Err(e);
        }
    };
    let (mode, mut size) = match &rt().vfs.nodes[ino] {
        Node::File(d) => (libc::S_IFREG, d.len() as u64),
        Node::Dir(_) => (libc::S_IFDIR, 4096),
        Node::Link(t) => (libc::S_IFLNK, t.len() as u64),
        Node::Special(Sp::Fifo) => (libc::S_IFIFO, 0),
        Node::Special(Sp::Sock) => (libc::S_IFSOCK, 0),
        Node::Special(_) => (libc::S_IFCHR, 0),
    };
    let mode = mode | rt().vfs.mode(ino);
    if let Go::Size(l) = &go {
        if mode & libc::S_IFMT == libc::S_IFREG {
            size = lie(l, size);
        }
    }
    leave(&go);
    trace(7, size, ino as u64);
    Ok((mode, size, ino as u64 + 100, rt().vfs.nlink(ino)))
}

/// The time on the wall (in ns): it may be any, and it may be set while we look.
fn wall() -> u64 {
    let r = rt();
    let n = now();
    let base: u64 = match mix(r.skew, 1) % 4 {
        0 => 86_400 * 2,
        1 => 4_100_000_000,
        _ => 1_600_000_000,
    };
    let t = base * 1_000_000_000 + n;
    match mix(r.skew, 2 + n / 40_000) % 8 {
        0 => t - 3_600_000_000_000,
        1 => t + 86_400_000_000_000 * 400,
        2 => t - 1_000_000_000,
        _ => t,
    }
}

/// The time stamps of a file say anything: the past, the future, before 1970. They stay as they are
/// when the file is rewritten.
fn stamp(ino: u64) -> (i64, i64) {
    match mix(rt().skew, 1_000 + ino) % 8 {
        0 => (0, 0),
        1 => (-86_400, 5),
        2 => (4_200_000_000, 0),
        3 => (1_599_999_999, 999_999_999),
        4 => (1_600_000_000, 1),
        _ => (1_500_000_000, 0),
    }
}

unsafe fn fill_stat(r: Result<(u32, u64, u64, u32), i32>, b: *mut libc::stat64) -> i32 {
    match r {
        Ok((m, s, i, l)) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).st_mode = m;
            (*b).st_size = s as i64;
            (*b).st_ino = i;
            (*b).st_nlink = u64::from(l);
            (*b).st_dev = 77;
            (*b).st_blksize = 4096;
            let t = stamp(i);
            ((*b).st_mtime, (*b).st_mtime_nsec) = t;
            ((*b).st_ctime, (*b).st_ctime_nsec) = t;
            ((*b).st_atime, (*b).st_atime_nsec) = t;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const libc::c_char, flags: i32, mask: u32, b: *mut libc::statx) -> i32 {
    if !sim() {
        return ret(raw_syscall(332, d as u64, p as u64, flags as u64, u64::from(mask), b as u64, 0)) as i32;
    }
    if p.is_null() {
        // std probes for the system call like this.
        set_errno(libc::EFAULT);
        return -1;
    }
    let pb = cpath(p);
    let r = if pb.is_empty() && flags & libc::AT_EMPTY_PATH != 0 && d >= FD_BASE {
        sim_stat(Some(d), b"", true)
    } else {
        match at_path(d, p) {
            Some(v) => sim_stat(None, &v, flags & libc::AT_SYMLINK_NOFOLLOW == 0),
            None => Err(libc::EBADF),
        }
    };
    match r {
        Ok((m, s, i, l)) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).stx_mask = 0x7ff;
            (*b).stx_mode = m as u16;
            (*b).stx_size = s;
            (*b).stx_ino = i;
            (*b).stx_nlink = l;
            (*b).stx_blksize = 4096;
            let (s, n) = stamp(i);
            for t in [&mut (*b).stx_mtime, &mut (*b).stx_ctime, &mut (*b).stx_atime, &mut (*b).stx_btime] {
                t.tv_sec = s;
                t.tv_nsec = n as u32;
            }
            (*b).stx_dev_major = 77;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const libc::c_char, b: *mut libc::stat64) -> i32 {
    if sim() {
        fill_stat(sim_stat(None, cpath(p), true), b)
    } else {
        ret(raw_syscall(4, p as u64, b as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const libc::c_char, b: *mut libc::stat64) -> i32 {
    if sim() {
        fill_stat(sim_stat(None, cpath(p), false), b)
    } else {
        ret(raw_syscall(6, p as u64, b as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut libc::stat64) -> i32 {
    if sim() && fd >= FD_BASE {
        fill_stat(sim_stat(Some(fd), b"", true), b)
    } else {
        ret(raw_syscall(5, fd as u64, b as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: i32, p: *const libc::c_char, b: *mut libc::stat64, flags: i32) -> i32 {
    if sim() {
        let r = match at_path(d, p) {
            Some(v) => sim_stat(None, &v, flags & libc::AT_SYMLINK_NOFOLLOW == 0),
            None => Err(libc::EBADF),
        };
        fill_stat(r, b)
    } else {
        ret(raw_syscall(262, d as u64, p as u64, b as u64, flags as u64, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if sim() && fd >= FD_BASE {
        let _g = hguard();
        let Some(p) = getfd(fd).map(|f| f.path.clone()) else {
            set_errno(libc::EBADF);
            return -1;
        };
        let go = enter(Call::Seek, &p);
        if let Go::Errno(e) = go {
            set_errno(e);
            return -1;
        }
        let f = getfd(fd).unwrap();
        let len = match &rt().vfs.nodes[f.ino] {
            Node::File(d) => d.len() as i64,
            _ => 0,
        };
        let n = off + match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            _ => len,
        };
        leave(&go);
        if n < 0 {
            set_errno(libc::EINVAL);
            return -1;
        }
        f.pos = n as usize;
        n
    } else {
        ret(raw_syscall(8, fd as u64, off as u64, whence as u64, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const libc::c_char, out: *mut libc::c_char) -> *mut libc::c_char {
    if !sim() {
        // Not used by the simulator itself.
        set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let _g = hguard();
    let path = cpath(p).to_vec();
    let go = enter(Call::Realpath, &path);
    let r = match go {
        Go::Errno(e) => Err(e),
        _ => rt().vfs.canon(&path),
    };
    leave(&go);
    match r {
        Ok(v) => {
            let b = if out.is_null() { libc::malloc(v.len() + 1).cast::<u8>() } else { out.cast() };
            std::ptr::copy_nonoverlapping(v.as_ptr(), b, v.len());
            *b.add(v.len()) = 0;
            b.cast()
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

/// A path operation of the remaining kinds.
unsafe fn path_op(p: *const libc::c_char, f: impl FnOnce(&mut Vfs, &[u8]) -> Result<i64, i32>) -> i64 {
    let _g = hguard();
    let path = cpath(p).to_vec();
    let go = enter(Call::Other, &path);
    let r = match go {
        Go::Errno(e) => Err(e),
        _ => f(&mut rt().vfs, &path),
    };
    leave(&go);
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn fd_op(fd: i32, f: impl FnOnce(&mut Vfs, &mut Fd) -> Result<i64, i32>) -> i64 {
    let _g = hguard();
    let Some(p) = getfd(fd).map(|f| f.path.clone()) else {
        set_errno(libc::EBADF);
        return -1;
    };
    let go = enter(Call::Other, &p);
    let r = match go {
        Go::Errno(e) => Err(e),
        _ => f(&mut rt().vfs, getfd(fd).unwrap()),
    };
    leave(&go);
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const libc::c_char, b: *mut libc::c_char, n: usize) -> isize {
    if !sim() {
        return ret(raw_syscall(89, p as u64, b as u64, n as u64, 0, 0, 0)) as isize;
    }
    path_op(p, |v, path| {
        let i = v.resolve(path, false)?.ino.ok_or(libc::ENOENT)?;
        match &v.nodes[i] {
            Node::Link(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), b.cast(), k);
                Ok(k as i64)
            }
            _ => Err(libc::EINVAL),
        }
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    if !sim() {
        return ret(raw_syscall(87, p as u64, 0, 0, 0, 0, 0)) as i32;
    }
    path_op(p, |v, path| {
        let i = v.resolve(path, false)?.ino.ok_or(libc::ENOENT)?;
        if matches!(v.nodes[i], Node::Dir(_)) {
            return Err(libc::EISDIR);
        }
        v.may(v.resolve(path, false)?.dir, 3)?;
        v.remove(path).map(|_| 0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const libc::c_char) -> i32 {
    if !sim() {
        return ret(raw_syscall(84, p as u64, 0, 0, 0, 0, 0)) as i32;
    }
    path_op(p, |v, path| {
        let i = v.resolve(path, false)?.ino.ok_or(libc::ENOENT)?;
        match &v.nodes[i] {
            Node::Dir(m) if m.is_empty() => v.may(v.resolve(path, false)?.dir, 3).and_then(|_| v.remove(path)).map(|_| 0),
            Node::Dir(_) => Err(libc::ENOTEMPTY),
            _ => Err(libc::ENOTDIR),
        }
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: u32) -> i32 {
    if !sim() {
        return ret(raw_syscall(83, p as u64, u64::from(mode), 0, 0, 0, 0)) as i32;
    }
    path_op(p, |v, path| {
        let x = v.resolve(path, false)?;
        if x.ino.is_some() {
            return Err(libc::EEXIST);
        }
        v.may(x.dir, 3)?;
        v.mkdirs(path).map(|_| 0)
    }) as i32
}
unsafe fn sim_rename(p: *const libc::c_char, q: *const libc::c_char) -> i32 {
    let q = cpath(q).to_vec();
    path_op(p, |v, path| {
        let x = v.resolve(path, false)?;
        let i = x.ino.ok_or(libc::ENOENT)?;
        let y = v.resolve(&q, false)?;
        v.may(x.dir, 3)?;
        v.may(y.dir, 3)?;
        if let Some(j) = y.ino {
            if matches!(v.nodes[j], Node::Dir(_)) && !matches!(v.nodes[i], Node::Dir(_)) {
                return Err(libc::EISDIR);
            }
        }
        if let Node::Dir(m) = &mut v.nodes[x.dir] {
            m.remove(&x.name);
        }
        if let Node::Dir(m) = &mut v.nodes[y.dir] {
            m.insert(y.name, i);
        }
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const libc::c_char, q: *const libc::c_char) -> i32 {
    if sim() {
        sim_rename(p, q)
    } else {
        ret(raw_syscall(82, p as u64, q as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_d: i32, p: *const libc::c_char, _e: i32, q: *const libc::c_char) -> i32 {
    rename(p, q)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const libc::c_char, p: *const libc::c_char) -> i32 {
    if !sim() {
        return ret(raw_syscall(88, t as u64, p as u64, 0, 0, 0, 0)) as i32;
    }
    let t = cpath(t).to_vec();
    path_op(p, |v, path| {
        let x = v.resolve(path, false)?;
        if x.ino.is_some() {
            return Err(libc::EEXIST);
        }
        v.may(x.dir, 3)?;
        v.replace(path, Node::Link(t)).map(|_| 0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_d: i32, p: *const libc::c_char, _e: i32, q: *const libc::c_char, _f: i32) -> i32 {
    if !sim() {
        return ret(raw_syscall(86, p as u64, q as u64, 0, 0, 0, 0)) as i32;
    }
    let t = cpath(p).to_vec();
    path_op(q, |v, path| {
        let x = v.resolve(path, false)?;
        if x.ino.is_some() {
            return Err(libc::EEXIST);
        }
        v.may(x.dir, 3)?;
        v.hardlink(path, &t).map(|_| 0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const libc::c_char, q: *const libc::c_char) -> i32 {
    linkat(libc::AT_FDCWD, p, libc::AT_FDCWD, q, 0)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const libc::c_char, mode: i32) -> i32 {
    if sim() {
        path_op(p, |v, path| {
            let i = v.lookup_path(path)?;
            v.may(i, mode as u32 & 7).map(|_| 0)
        }) as i32
    } else {
        ret(raw_syscall(21, p as u64, mode as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: i32, p: *const libc::c_char, mode: i32, _f: i32) -> i32 {
    access(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const libc::c_char, mode: u32) -> i32 {
    if sim() {
        path_op(p, |v, path| {
            v.chmod(path, mode)?;
            let i = v.lookup_path(path)?;
            v.attrs.entry(i).or_default().set += 1;
            Ok(0)
        }) as i32
    } else {
        ret(raw_syscall(90, p as u64, u64::from(mode), 0, 0, 0, 0)) as i32
    }
}
fn set_len(v: &mut Vfs, ino: usize, n: usize) -> Result<i64, i32> {
    match &mut v.nodes[ino] {
        Node::File(d) => {
            Arc::make_mut(d).resize(n, 0);
            Ok(0)
        }
        _ => Err(libc::EISDIR),
    }
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const libc::c_char, n: i64) -> i32 {
    if sim() {
        path_op(p, |v, path| {
            let i = v.lookup_path(path)?;
            v.may(i, 2)?;
            set_len(v, i, n as usize)
        }) as i32
    } else {
        ret(raw_syscall(76, p as u64, n as u64, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if sim() && fd >= FD_BASE {
        fd_op(fd, |v, f| set_len(v, f.ino, n as usize)) as i32
    } else {
        ret(raw_syscall(77, fd as u64, n as u64, 0, 0, 0, 0)) as i32
    }
}
macro_rules! fd_noop {
    ($($name:ident $nr:expr),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: i32, a: u64, b: u64, c: u64) -> i32 {
            if sim() && fd >= FD_BASE {
                fd_op(fd, |_, _| Ok(0)) as i32
            } else {
                ret(raw_syscall($nr, fd as u64, a, b, c, 0, 0)) as i32
            }
        }
    )* }
}
fd_noop!(fsync 74, fdatasync 75, flock 73, posix_fadvise64 221, syncfs 306);

#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, mode: u32) -> i32 {
    if sim() && fd >= FD_BASE {
        fd_op(fd, |v, f| {
            v.set_mode(f.ino, mode);
            v.attrs.entry(f.ino).or_default().set += 1;
            Ok(0)
        }) as i32
    } else {
        ret(raw_syscall(91, fd as u64, u64::from(mode), 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(_d: i32, p: *const libc::c_char, mode: u32, _f: i32) -> i32 {
    chmod(p, mode)
}

/// Times and owners are not kept, only that they were set.
unsafe fn set_attr(fd: Option<i32>, p: *const libc::c_char, follow: bool) -> i32 {
    let set = |v: &mut Vfs, i: usize| {
        v.attrs.entry(i).or_default().set += 1;
        Ok(0)
    };
    match fd {
        Some(fd) => fd_op(fd, |v, f| set(v, f.ino)) as i32,
        None => path_op(p, |v, path| {
            let i = v.resolve(path, follow)?.ino.ok_or(libc::ENOENT)?;
            set(v, i)
        }) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: i32, t: *const libc::timespec) -> i32 {
    if sim() && fd >= FD_BASE {
        set_attr(Some(fd), std::ptr::null(), true)
    } else {
        ret(raw_syscall(280, fd as u64, 0, t as u64, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: i32, p: *const libc::c_char, t: *const libc::timespec, f: i32) -> i32 {
    if sim() {
        set_attr(None, p, f & libc::AT_SYMLINK_NOFOLLOW == 0)
    } else {
        ret(raw_syscall(280, d as u64, p as u64, t as u64, f as u64, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn chown(p: *const libc::c_char, u: u32, g: u32) -> i32 {
    if sim() {
        set_attr(None, p, true)
    } else {
        ret(raw_syscall(92, p as u64, u64::from(u), u64::from(g), 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn lchown(p: *const libc::c_char, u: u32, g: u32) -> i32 {
    if sim() {
        set_attr(None, p, false)
    } else {
        ret(raw_syscall(94, p as u64, u64::from(u), u64::from(g), 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: i32, u: u32, g: u32) -> i32 {
    if sim() && fd >= FD_BASE {
        set_attr(Some(fd), std::ptr::null(), true)
    } else {
        ret(raw_syscall(93, fd as u64, u64::from(u), u64::from(g), 0, 0, 0)) as i32
    }
}

// ---------------------------------------------------------------- directories

/// An open directory: what opendir returns in a simulated thread.
struct SimDir {
    fd: i32,
    names: Vec<(Vec<u8>, u8, u64)>,
    pos: usize,
    ent: libc::dirent64,
}

type Opendir = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::c_void;
type Readdir = unsafe extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Dirint = unsafe extern "C" fn(*mut libc::c_void) -> i32;
unsafe fn real(name: &[u8]) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast())
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const libc::c_char) -> *mut libc::c_void {
    if !sim() {
        return std::mem::transmute::<*mut libc::c_void, Opendir>(real(b"opendir\0"))(p);
    }
    let fd = sim_open(cpath(p), libc::O_RDONLY | libc::O_DIRECTORY);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let _g = hguard();
    let v = &rt().vfs;
    let mut names = vec![];
    if let Some(Node::Dir(m)) = getfd(fd).map(|f| &v.nodes[f.ino]) {
        for (n, &i) in m {
            let t = match v.nodes[i] {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Link(_) => libc::DT_LNK,
                Node::Special(Sp::Fifo) => libc::DT_FIFO,
                Node::Special(Sp::Sock) => libc::DT_SOCK,
                Node::Special(_) => libc::DT_CHR,
            };
            names.push((n.clone(), t, i as u64 + 100));
        }
    }
    Box::into_raw(Box::new(SimDir { fd, names, pos: 0, ent: std::mem::zeroed() })).cast()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::c_void) -> *mut libc::c_void {
    if !sim() {
        return std::mem::transmute::<*mut libc::c_void, Readdir>(real(b"readdir64\0"))(d);
    }
    let _g = hguard();
    let d = &mut *d.cast::<SimDir>();
    let Some((n, t, i)) = d.names.get(d.pos) else { return std::ptr::null_mut() };
    d.pos += 1;
    d.ent.d_ino = *i;
    d.ent.d_off = d.pos as i64;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    d.ent.d_type = *t;
    let k = n.len().min(255);
    for (j, b) in n[..k].iter().enumerate() {
        d.ent.d_name[j] = *b as libc::c_char;
    }
    d.ent.d_name[k] = 0;
    (&mut d.ent as *mut libc::dirent64).cast()
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::c_void) -> i32 {
    if !sim() {
        return std::mem::transmute::<*mut libc::c_void, Dirint>(real(b"dirfd\0"))(d);
    }
    (*d.cast::<SimDir>()).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::c_void) -> i32 {
    if !sim() {
        return std::mem::transmute::<*mut libc::c_void, Dirint>(real(b"closedir\0"))(d);
    }
    let fd = {
        let _g = hguard();
        Box::from_raw(d.cast::<SimDir>()).fd
    };
    close(fd)
}

/// From the plan, or temporary names would differ between repetitions of a run. Two processes may have
/// the same number.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sim() {
        [4711, (mix(rt().skew, 8) % 32_768) as i32 + 2][mix(rt().skew, 9) as usize % 2]
    } else {
        raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: u64) -> i32 {
    if sim() && fd >= FD_BASE {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => getfd(fd).map_or(-1, |f| f.flags),
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => {
                let _g = hguard();
                let Some(f) = getfd(fd) else { return -1 };
                let n = Fd { ino: f.ino, pos: f.pos, flags: f.flags, path: f.path.clone() };
                rt().fds.push(Some(n));
                FD_BASE + rt().fds.len() as i32 - 1
            }
            _ => 0,
        };
    }
    ret(raw_syscall(72, fd as u64, cmd as u64, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: u64) -> i32 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut libc::c_char, n: usize) -> *mut libc::c_char {
    if !sim() {
        let r = raw_syscall(79, b as u64, n as u64, 0, 0, 0, 0);
        return if ret(r) < 0 { std::ptr::null_mut() } else { b };
    }
    let _g = hguard();
    let c = crate::vfs::join_canon(&rt().vfs.cwd);
    if c.len() + 1 > n {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), b.cast(), c.len());
    *b.add(c.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const libc::c_char) -> i32 {
    if !sim() {
        return ret(raw_syscall(80, p as u64, 0, 0, 0, 0, 0)) as i32;
    }
    path_op(p, |v, path| {
        v.chdir(path)?;
        Ok(0)
    }) as i32
}

extern "C" {
    static environ: *const *const libc::c_char;
}

/// The environment: whatever variable the library asks for by name may or may not be there.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = cpath(name);
    if sim() && !IN_H.get() && !n.starts_with(b"RUST_") {
        const VALUES: [&[u8]; 10] = [b"\0", b"1\0", b"0\0", b"/w\0", b"/x/y/z\0", b"C\0", b"de_DE.ISO-8859-1\0", b"2\0", b"80\0", b"true\0"];
        let h = mix(rt().skew, hash_bytes(0xcbf2_9ce4_8422_2325, n)) as usize % 24;
        if h < VALUES.len() {
            shm::count_fault(Call::Other, "environment");
            return VALUES[h].as_ptr().cast();
        }
        if h < 16 {
            return std::ptr::null();
        }
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = cpath(*p);
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// How many processors there are.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if !sim() {
        return match raw_syscall(204, pid as u64, n as u64, set as u64, 0, 0, 0) {
            r if r < 0 => ret(r) as i32,
            r => {
                std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize);
                0
            }
        };
    }
    std::ptr::write_bytes(set, 0, n);
    *set = [1, 3, 15, 255][mix(rt().skew, 7) as usize % 4];
    0
}

/// Randomness: the hash seeds of the library's hash maps come from the plan.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut libc::c_void, n: usize, flags: u32) -> isize {
    if !sim() {
        return ret(raw_syscall(318, p as u64, n as u64, u64::from(flags), 0, 0, 0)) as isize;
    }
    let _g = hguard();
    let p = p.cast::<u8>();
    for i in 0..n {
        *p.add(i) = rt().hrng.next() as u8;
    }
    n as isize
}

// ---------------------------------------------------------------- time

/// A simulated thread sleeps (harness side).
pub fn sleep(ns: u64) {
    unsafe { stall(ns) }
}

unsafe fn stall(ns: u64) {
    let _g = hguard();
    let r = rt();
    let me = r.cur;
    let t = now();
    r.th[me].st = Ts::Sleep(t + ns);
    give_up(me);
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if !sim() {
        return ret(raw_syscall(228, c as u64, t as u64, 0, 0, 0, 0)) as i32;
    }
    let n = if c == libc::CLOCK_REALTIME { wall() } else { now() + 1_000_000_000 };
    (*t).tv_sec = (n / 1_000_000_000) as i64;
    (*t).tv_nsec = (n % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !sim() {
        return -raw_syscall(230, c as u64, f as u64, t as u64, rem as u64, 0, 0) as i32;
    }
    stall((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !sim() {
        return ret(raw_syscall(35, t as u64, rem as u64, 0, 0, 0, 0)) as i32;
    }
    stall((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !sim() {
        return ret(raw_syscall(24, 0, 0, 0, 0, 0, 0)) as i32;
    }
    let _g = hguard();
    let r = rt();
    let me = r.cur;
    let v = runnable();
    if let Some(&j) = v.iter().find(|&&j| j > me).or(v.first()) {
        hand_over(me, j);
    }
    0
}

// ---------------------------------------------------------------- futex and other syscall(2) uses

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if !sim() {
        return ret(raw_syscall(n, a, b, c, d, e, f));
    }
    match n {
        202 => {
            let _g = hguard();
            let r = rt();
            let me = r.cur;
            match b & 127 {
                0 | 9 => {
                    // WAIT, WAIT_BITSET
                    let w = &*(a as *const AtomicU32);
                    if w.load(SeqCst) != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    if d != 0 {
                        // A bounded wait: the simulated time passes.
                        let t = now();
                        r.th[me].st = Ts::Sleep(t + 1_000_000);
                        give_up(me);
                        set_errno(libc::ETIMEDOUT);
                        return -1;
                    }
                    shm::count_fault(Call::Other, "futex-block");
                    logf(|| "futex wait".into());
                    r.th[me].st = Ts::Futex(a as usize);
                    give_up(me);
                    0
                }
                1 | 10 => {
                    let mut k = 0;
                    for t in r.th.iter_mut() {
                        if k < c && t.st == Ts::Futex(a as usize) {
                            t.st = Ts::Run;
                            k += 1;
                        }
                    }
                    k as i64
                }
                _ => {
                    set_errno(libc::ENOSYS);
                    -1
                }
            }
        }
        318 => getrandom(a as *mut libc::c_void, b as usize, c as u32) as i64,
        326 => {
            set_errno(libc::ENOSYS);
            -1
        }
        _ => ret(raw_syscall(n, a, b, c, d, e, f)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: i32, _b: *mut i64, _c: i32, _d: *mut i64, _n: usize, _f: u32) -> isize {
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: i32, _b: i32, _c: *mut i64, _n: usize) -> isize {
    set_errno(libc::ENOSYS);
    -1
}
