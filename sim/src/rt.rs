//! The simulated world of one run: scheduler, clock, entropy, environment variables, heap.
//!
//! Real OS threads run the real library; exactly one of them holds the token at any instant. Control comes
//! back to the simulator at every control-flow edge, load and store of the library (LLVM sanitizer-coverage
//! callbacks), at every heap operation and at every futex call, and the plan (seeded, or read from a replay
//! file) decides who goes on.
use crate::prng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- raw system calls (bypass our own seams)
pub unsafe fn raw_syscall(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn futex_wait_raw(w: &AtomicU32, v: u32) {
    raw_syscall(libc::SYS_futex, [w as *const _ as usize, 128, v as usize, 0, 0, 0]);
}
unsafe fn futex_wake_raw(w: &AtomicU32) {
    raw_syscall(libc::SYS_futex, [w as *const _ as usize, 129, 1, 0, 0, 0]);
}
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, [libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0]) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

// ---------------------------------------------------------------- scheduler
pub const RUNNABLE: u8 = 0;
pub const BLOCKED: u8 = 1;
pub const DONE: u8 = 2;

pub struct Th {
    id: usize,
    go: AtomicU32,
    state: u8,
    wait_addr: usize,
    timed: bool,
    timed_out: bool,
    step: u64,
    next: u64,
    plan: Vec<(u64, u32)>,
    ix: usize,
}

#[derive(Clone, Debug)]
pub struct Mode {
    /// None: replay `decisions` exactly. Some: explore.
    pub explore: Option<Explore>,
    pub decisions: Vec<Dec>,
    pub step_cap: u64,
}
#[derive(Clone, Debug)]
pub struct Explore {
    pub seed: u64,
    /// mean number of steps between preemptions of a thread
    pub mean: u64,
    /// chance (out of 256) of a preemption at an access to writable static memory
    pub shared: u64,
    /// chance (out of 256) at a marked point (inside a decoder, between operations)
    pub hot: u64,
}
/// "thread `tid`, at its local step `step`, hands over to `to`"
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec {
    pub tid: u32,
    pub step: u64,
    pub to: u32,
}

pub struct Sim {
    ths: Vec<Box<Th>>,
    rng: Rng,
    explore: Option<Explore>,
    pub log: Vec<Dec>,
    pub switches: u64,
    pub shared_hits: u64,
    pub futex_waits: u64,
    pub deadlock: bool,
    pub capped: bool,
    step_cap: u64,
    trace: u64,
    exiting: i32,
    pub total_steps: u64,
}
static SIM: AtomicPtr<Sim> = AtomicPtr::new(null_mut());
static MAIN_GO: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<*mut Th> = const { Cell::new(null_mut()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub struct Quiet;
impl Quiet {
    pub fn new() -> Quiet {
        QUIET.with(|q| q.set(q.get() + 1));
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        QUIET.with(|q| q.set(q.get() - 1));
    }
}
/// Runs library code with scheduling points on, from inside a Quiet region.
pub fn loud<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(u32);
    impl Drop for Restore {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(self.0));
        }
    }
    let _r = Restore(QUIET.with(|q| q.replace(0)));
    f()
}

unsafe fn sim() -> &'static mut Sim {
    &mut *SIM.load(Relaxed)
}

impl Sim {
    fn runnable_others(&self, me: usize) -> Vec<usize> {
        self.ths.iter().filter(|t| t.id != me && t.state == RUNNABLE).map(|t| t.id).collect()
    }
}

/// Hand the token to `to` and wait to get it back.
unsafe fn hand_over(me: *mut Th, to: usize, wait: bool) {
    let s = sim();
    s.switches += 1;
    s.trace = crate::prng::mix(s.trace ^ (((*me).id as u64) << 56) ^ ((to as u64) << 48) ^ (*me).step);
    let t = &*s.ths[to];
    t.go.store(1, SeqCst);
    futex_wake_raw(&t.go);
    if wait {
        park(me);
    }
}
unsafe fn park(me: *mut Th) {
    while (*me).go.swap(0, SeqCst) == 0 {
        futex_wait_raw(&(*me).go, 0);
    }
}
unsafe fn wake_main() {
    MAIN_GO.store(1, SeqCst);
    futex_wake_raw(&MAIN_GO);
}

/// Current thread cannot go on (blocked or finished): pick who runs. None: nobody can.
unsafe fn forced_next(me: *mut Th) -> Option<usize> {
    let s = sim();
    let mut c = s.runnable_others((*me).id);
    if c.is_empty() {
        // simulated time jumps to the first timed waiter
        for t in s.ths.iter_mut() {
            if t.state == BLOCKED && t.timed {
                t.state = RUNNABLE;
                t.timed_out = true;
                c.push(t.id);
            }
        }
    }
    if c.is_empty() {
        return None;
    }
    let to = match planned(me) {
        Some(t) if c.contains(&(t as usize)) => t as usize,
        _ => {
            if s.explore.is_some() {
                c[s.rng.us(c.len())]
            } else {
                c[0]
            }
        }
    };
    s.log.push(Dec { tid: (*me).id as u32, step: (*me).step, to: to as u32 });
    Some(to)
}
unsafe fn planned(me: *mut Th) -> Option<u32> {
    let t = &mut *me;
    while t.ix < t.plan.len() && t.plan[t.ix].0 < t.step {
        t.ix += 1;
    }
    if t.ix < t.plan.len() && t.plan[t.ix].0 == t.step {
        t.ix += 1;
        return Some(t.plan[t.ix - 1].1);
    }
    None
}
unsafe fn schedule_next(me: *mut Th) {
    let s = sim();
    let t = &mut *me;
    let n = match &s.explore {
        Some(e) => t.step + s.rng.geom(e.mean),
        None => {
            if t.ix < t.plan.len() {
                t.plan[t.ix].0
            } else {
                u64::MAX
            }
        }
    };
    t.next = n.min(s.step_cap);
}
#[cold]
unsafe fn decision_point(me: *mut Th) {
    let _q = Quiet::new();
    let s = sim();
    if (*me).step >= s.step_cap {
        s.capped = true;
        wake_main();
        loop {
            futex_wait_raw(&(*me).go, (*me).go.load(SeqCst));
        }
    }
    let others = s.runnable_others((*me).id);
    let mut to = None;
    if s.explore.is_some() {
        if !others.is_empty() {
            to = Some(others[s.rng.us(others.len())]);
        }
    } else if let Some(t) = planned(me) {
        if others.contains(&(t as usize)) {
            to = Some(t as usize);
        }
    }
    schedule_next(me);
    if let Some(to) = to {
        s.log.push(Dec { tid: (*me).id as u32, step: (*me).step, to: to as u32 });
        hand_over(me, to, true);
    }
}
#[inline(always)]
fn point(kind: u8) {
    ME.with(|m| {
        let me = m.get();
        if me.is_null() || QUIET.with(|q| q.get()) != 0 {
            return;
        }
        unsafe {
            (*me).step += 1;
            if (*me).step >= (*me).next {
                decision_point(me);
            } else if kind != 0 {
                special_point(me, kind);
            }
        }
    })
}
#[cold]
unsafe fn special_point(me: *mut Th, kind: u8) {
    let s = sim();
    if kind == 1 {
        s.shared_hits += 1;
    }
    let p = match &s.explore {
        Some(e) => {
            if kind == 1 {
                e.shared
            } else {
                e.hot
            }
        }
        None => 0,
    };
    if p > 0 && s.rng.below(256) < p {
        decision_point(me);
    }
}
/// A point where the embedding program would naturally stall (inside a decoder, between operations).
pub fn hot_point() {
    loud(|| point(2));
}

pub struct RunLog {
    pub decisions: Vec<Dec>,
    pub switches: u64,
    pub shared_hits: u64,
    pub futex_waits: u64,
    pub deadlock: bool,
    pub capped: bool,
    pub trace: u64,
    pub total_steps: u64,
}

/// Runs the closures as simulated threads under `mode`. Returns when all finished, or on deadlock or step cap
/// (then the stuck threads stay parked: the caller must end the process).
pub fn run_threads(fs: Vec<Box<dyn FnOnce()>>, mode: &Mode) -> RunLog {
    let n = fs.len();
    let mut ths: Vec<Box<Th>> = Vec::new();
    for id in 0..n {
        let plan = mode.decisions.iter().filter(|d| d.tid == id as u32).map(|d| (d.step, d.to)).collect();
        ths.push(Box::new(Th {
            id,
            go: AtomicU32::new(0),
            state: RUNNABLE,
            wait_addr: 0,
            timed: false,
            timed_out: false,
            step: 0,
            next: u64::MAX,
            plan,
            ix: 0,
        }));
    }
    let sim_box = Box::leak(Box::new(Sim {
        ths,
        rng: Rng::new(mode.explore.as_ref().map(|e| e.seed).unwrap_or(0)),
        explore: mode.explore.clone(),
        log: Vec::with_capacity(4096),
        switches: 0,
        shared_hits: 0,
        futex_waits: 0,
        deadlock: false,
        capped: false,
        step_cap: mode.step_cap,
        trace: 0,
        exiting: -1,
        total_steps: 0,
    }));
    SIM.store(sim_box, SeqCst);
    struct SendPtr(*mut Th, Box<dyn FnOnce()>);
    unsafe impl Send for SendPtr {}
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    let ready: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    for (i, f) in fs.into_iter().enumerate() {
        let p = SendPtr(&mut *sim_box.ths[i] as *mut Th, f);
        let h = std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn(move || {
                let p = p;
                let (me, f) = (p.0, p.1);
                ready.fetch_add(1, SeqCst);
                unsafe {
                    futex_wake_raw(ready);
                    park(me);
                    ME.with(|m| m.set(me));
                    schedule_next(me);
                }
                let q = Quiet::new();
                f();
                drop(q);
                unsafe {
                    ME.with(|m| m.set(null_mut()));
                    let s = sim();
                    (*me).state = DONE;
                    s.total_steps += (*me).step;
                    s.exiting = (*me).id as i32;
                    wake_main();
                }
            })
            .unwrap();
        handles.push(Some(h));
        // one at a time, so that thread start-up is not concurrent either
        while ready.load(SeqCst) < i as u32 + 1 {
            unsafe { futex_wait_raw(ready, i as u32) };
        }
    }
    // the first thread to run: decided like any other choice (pseudo thread id 9999)
    let mut boss = Box::new(Th {
        id: 9999,
        go: AtomicU32::new(0),
        state: DONE,
        wait_addr: 0,
        timed: false,
        timed_out: false,
        step: 0,
        next: u64::MAX,
        plan: mode.decisions.iter().filter(|d| d.tid == 9999).map(|d| (d.step, d.to)).collect(),
        ix: 0,
    });
    unsafe {
        loop {
            boss.step += 1;
            let bp: *mut Th = &mut *boss;
            match forced_next(bp) {
                Some(to) => hand_over(bp, to, false),
                None => {
                    if sim().ths.iter().any(|t| t.state == BLOCKED) {
                        sim().deadlock = true;
                    }
                    break;
                }
            }
            while MAIN_GO.swap(0, SeqCst) == 0 {
                futex_wait_raw(&MAIN_GO, 0);
            }
            if sim().capped || sim().deadlock {
                break;
            }
            let e = sim().exiting;
            if e >= 0 {
                sim().exiting = -1;
                // thread-local destructors run while every other simulated thread is parked
                let _ = handles[e as usize].take().unwrap().join();
            }
        }
        let s = sim();
        RunLog {
            decisions: std::mem::take(&mut s.log),
            switches: s.switches,
            shared_hits: s.shared_hits,
            futex_waits: s.futex_waits,
            deadlock: s.deadlock,
            capped: s.capped,
            trace: s.trace,
            total_steps: s.total_steps,
        }
    }
}

// ---------------------------------------------------------------- sanitizer-coverage callbacks
pub const COV_N: usize = 1 << 18;
static COV: AtomicPtr<u8> = AtomicPtr::new(null_mut());
static GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn set_cov_map(p: *mut u8) {
    COV.store(p, SeqCst);
}
pub fn cov_map() -> *mut u8 {
    COV.load(Relaxed)
}
pub fn guards() -> u32 {
    GUARDS.load(SeqCst)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        let n = b.offset_from(a);
        for i in 0..n {
            *a.offset(i) = GUARDS.fetch_add(1, SeqCst) + 1;
        }
    }
}
pub static LIMIT_HIT: AtomicBool = AtomicBool::new(false);
#[cold]
fn limit_hit() {
    LIMIT_HIT.store(true, SeqCst);
    unsafe { libc::_exit(EXIT_STEP_LIMIT) }
}
pub const EXIT_STEP_LIMIT: i32 = 77;
pub const EXIT_MEM: i32 = 78;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        if v > LIMIT.with(|l| l.get()) {
            limit_hit();
        }
    });
    let m = COV.load(Relaxed);
    if !m.is_null() {
        unsafe {
            let i = *g as usize & (COV_N - 1);
            let c = m.add(i);
            *c = (*c).saturating_add(1);
        }
    }
    point(0);
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn mem(p: usize) {
    let sh = unsafe { p >= &__data_start as *const u8 as usize && p < &_end as *const u8 as usize };
    point(sh as u8);
}
macro_rules! memcb { ($($l:ident),*) => { $(#[no_mangle] pub extern "C" fn $l(p: usize) { mem(p) })* } }
memcb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);
// ---------------------------------------------------------------- bytes moved, compared and allocated
thread_local! {
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
#[inline(always)]
fn moved(n: usize) {
    MOVED.with(|m| m.set(m.get().wrapping_add(n as u64)));
}
/// Search aid: growth ratio (in percent) to report in scaling runs, from LRPSIM_RATIO. Not set in checks.
pub fn hunt_ratio() -> Option<u64> {
    unsafe {
        let mut e = environ;
        while !(*e).is_null() {
            if libc::strncmp(*e as *const _, c"LRPSIM_RATIO=".as_ptr(), 13) == 0 {
                return Some(libc::atoi((*e).add(13) as *const _) as u64);
            }
            e = e.add(1);
        }
    }
    None
}
/// Bytes copied, compared and allocated on this thread since the last reset.
include!(concat!(env!("OUT_DIR"), "/wrapped.rs"));
pub fn bytes_moved() -> u64 {
    MOVED.with(|s| s.get())
}
#[inline(always)]
unsafe fn forward(d: *mut u8, s: *const u8, n: usize) {
    type W = u64;
    if n >= 32 {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else if n >= 16 {
        let a = (s as *const W).read_unaligned();
        let b = (s.add(8) as *const W).read_unaligned();
        let c = (s.add(n - 16) as *const W).read_unaligned();
        let e = (s.add(n - 8) as *const W).read_unaligned();
        (d as *mut W).write_unaligned(a);
        (d.add(8) as *mut W).write_unaligned(b);
        (d.add(n - 16) as *mut W).write_unaligned(c);
        (d.add(n - 8) as *mut W).write_unaligned(e);
    } else if n >= 8 {
        let a = (s as *const W).read_unaligned();
        let b = (s.add(n - 8) as *const W).read_unaligned();
        (d as *mut W).write_unaligned(a);
        (d.add(n - 8) as *mut W).write_unaligned(b);
    } else if n >= 4 {
        let a = (s as *const u32).read_unaligned();
        let b = (s.add(n - 4) as *const u32).read_unaligned();
        (d as *mut u32).write_unaligned(a);
        (d.add(n - 4) as *mut u32).write_unaligned(b);
    } else if n >= 2 {
        let a = (s as *const u16).read_unaligned();
        let b = (s.add(n - 2) as *const u16).read_unaligned();
        (d as *mut u16).write_unaligned(a);
        (d.add(n - 2) as *mut u16).write_unaligned(b);
    } else if n == 1 {
        *d = *s;
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    forward(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    if n < 32 || (d as usize).wrapping_sub(s as usize) >= n {
        forward(d, s, n);
    } else {
        let k = n % 8;
        std::arch::asm!("std", "rep movsq", "cld", inout("rcx") n / 8 => _, inout("rdi") d.add(n - 8) => _, inout("rsi") s.add(n - 8) => _, options(nostack));
        // the first bytes, last to first
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") k => _, inout("rdi") d.wrapping_add(k).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(k).wrapping_sub(1) => _, options(nostack));
    }
    d
}
#[inline(always)]
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    let mut i = 0;
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
        i += 8;
    }
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

/// Control-flow edges executed by the library on this thread since the last reset.
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn reset_steps(limit: u64) {
    STEPS.with(|s| s.set(0));
    MOVED.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
}

// ---------------------------------------------------------------- seams: futex, clock, entropy, environment
static ENTROPY: AtomicU64 = AtomicU64::new(0x1234_5678);
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static CLOCK_SEED: AtomicU64 = AtomicU64::new(0);
static ENV_SEED: AtomicU64 = AtomicU64::new(0);
pub static CNT_CLOCK: AtomicU64 = AtomicU64::new(0);
pub static CNT_ENTROPY: AtomicU64 = AtomicU64::new(0);
pub static CNT_ENV: AtomicU64 = AtomicU64::new(0);

/// World configuration of a child process. Everything the library could observe besides its arguments.
#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub entropy: u64,
    pub clock: u64,
    pub env: u64,
    pub heap: u64,
    pub quarantine: bool,
    /// k > 0: one heap block in k lies against an inaccessible page and vanishes when freed
    pub fence: u64,
}
impl World {
    pub fn plain() -> World {
        World { entropy: 1, clock: 1, env: 0, heap: 0, quarantine: true, fence: 0 }
    }
    pub fn arb(r: &mut Rng) -> World {
        World {
            entropy: r.next() | 1,
            clock: r.next() | 1,
            env: if r.chance(1, 2) { r.next() | 1 } else { 0 },
            heap: r.next() | 1,
            quarantine: r.chance(1, 2),
            fence: 0,
        }
    }
    pub fn enter(&self) {
        ENTROPY.store(self.entropy, SeqCst);
        CLOCK_SEED.store(self.clock, SeqCst);
        CLOCK.store(crate::prng::mix(self.clock) >> 4, SeqCst);
        CLOCK_ON.store(true, SeqCst);
        ENV_SEED.store(self.env, SeqCst);
        HEAP_SEED.store(self.heap, SeqCst);
        QUAR_ON.store(self.quarantine, SeqCst);
        CHECKING.store(true, SeqCst);
        if self.fence > 0 {
            fence_on(self.fence, self.heap ^ self.entropy);
        }
    }
}
fn entropy_fill(buf: *mut u8, len: usize) {
    CNT_ENTROPY.fetch_add(1, Relaxed);
    for i in 0..len {
        let x = ENTROPY.fetch_add(0x9e3779b97f4a7c15, Relaxed);
        unsafe { *buf.add(i) = (crate::prng::mix(x) >> 17) as u8 };
    }
}
fn set_errno(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    entropy_fill(buf, len);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    entropy_fill(buf, len);
    0
}
fn sim_clock(clk: i32) -> u64 {
    CNT_CLOCK.fetch_add(1, Relaxed);
    let seed = CLOCK_SEED.load(Relaxed);
    let c = CLOCK.load(Relaxed);
    let r = crate::prng::mix(c ^ seed);
    // mostly small advances, now and then a jump of hours or days; the wall clock may also step back
    let adv = match r % 8 {
        0 => (r >> 8) % 86_400_000_000_000,
        1 => 0,
        _ => (r >> 8) % 1_000_000,
    };
    let n = c.wrapping_add(adv) & (u64::MAX >> 3);
    CLOCK.store(n, Relaxed);
    if clk == libc::CLOCK_REALTIME && r % 16 == 3 {
        return n.saturating_sub(3_600_000_000_000 * ((r >> 20) % 100));
    }
    n
}
pub fn sim_time_ns() -> u64 {
    CLOCK.load(Relaxed)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if CLOCK_ON.load(Relaxed) {
        let n = sim_clock(clk);
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}
fn sleep_ns(n: u64) {
    CLOCK.fetch_add(n & (u64::MAX >> 8), Relaxed);
    yield_token();
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    yield_token();
    0
}
fn yield_token() {
    ME.with(|m| {
        let me = m.get();
        if !me.is_null() {
            unsafe {
                let _q = Quiet::new();
                (*me).step += 1;
                if let Some(to) = forced_next(me) {
                    hand_over(me, to, true);
                }
            }
        }
    })
}
static ENV_VALS: [&[u8]; 8] = [b"1\0", b"0\0", b"true\0", b"\0", b"full\0", b"/nonexistent\0", b"C\0", b"-9223372036854775808\0"];
extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let seed = ENV_SEED.load(Relaxed);
    let len = libc::strlen(name as *const _);
    let n = std::slice::from_raw_parts(name, len);
    if seed != 0 {
        CNT_ENV.fetch_add(1, Relaxed);
        let h = crate::prng::mix(seed ^ crate::prng::hash_bytes(n));
        // backtraces and default stack size stay harness business
        if n != b"RUST_BACKTRACE" && n != b"RUST_LIB_BACKTRACE" && n != b"RUST_MIN_STACK" {
            return if h % 3 == 0 { std::ptr::null() } else { ENV_VALS[(h >> 8) as usize % 8].as_ptr() };
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = *e;
        if libc::strncmp(s as *const _, name as *const _, len) == 0 && *s.add(len) == b'=' {
            return s.add(len + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        entropy_fill(a as *mut u8, b);
        return b as i64;
    }
    if n == libc::SYS_futex {
        let me = ME.with(|m| m.get());
        if !me.is_null() {
            let _q = Quiet::new();
            let op = b & 0x7f;
            let s = sim();
            match op {
                0 | 9 => {
                    (*me).step += 1;
                    let w = &*(a as *const AtomicU32);
                    if w.load(SeqCst) != c as u32 {
                        return set_errno(libc::EAGAIN);
                    }
                    s.futex_waits += 1;
                    (*me).state = BLOCKED;
                    (*me).wait_addr = a;
                    (*me).timed = d != 0;
                    (*me).timed_out = false;
                    match forced_next(me) {
                        Some(to) if to == (*me).id => {
                            (*me).state = RUNNABLE;
                        }
                        Some(to) => hand_over(me, to, true),
                        None => {
                            if (*me).timed {
                                (*me).state = RUNNABLE;
                                (*me).timed_out = true;
                            } else {
                                s.deadlock = true;
                                wake_main();
                                loop {
                                    park(me);
                                }
                            }
                        }
                    }
                    if (*me).timed_out {
                        (*me).timed_out = false;
                        return set_errno(libc::ETIMEDOUT);
                    }
                    return 0;
                }
                1 | 10 => {
                    (*me).step += 1;
                    let mut woken = 0i64;
                    let mut c_ids: Vec<usize> =
                        s.ths.iter().filter(|t| t.state == BLOCKED && t.wait_addr == a).map(|t| t.id).collect();
                    while woken < c as i32 as i64 && !c_ids.is_empty() {
                        let i = if s.explore.is_some() { 0 } else { 0 };
                        let id = c_ids.remove(i);
                        s.ths[id].state = RUNNABLE;
                        woken += 1;
                    }
                    return woken;
                }
                _ => {}
            }
        }
    }
    let r = raw_syscall(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        return set_errno(-r as i32);
    }
    r as i64
}

// ---------------------------------------------------------------- the heap
pub struct CheckedAlloc;
const MAGIC: u64 = 0xA110_CA7E_D00D_FEED;
const FREED: u64 = 0xF4EE_D0BA_DBAD_0BAD;
const CANARY: u64 = 0x5AFE_57AC_0FF1_CE00;
const POISON: u8 = 0xDD;
static HEAP_SEED: AtomicU64 = AtomicU64::new(0);
static QUAR_ON: AtomicBool = AtomicBool::new(false);
static CHECKING: AtomicBool = AtomicBool::new(false);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static MEM_ERR: AtomicU32 = AtomicU32::new(0);
const QN: usize = 4096;
static QUAR: [AtomicUsize; QN] = [const { AtomicUsize::new(0) }; QN];
static QPOS: AtomicUsize = AtomicUsize::new(0);

pub fn mem_err_text(e: u32) -> &'static str {
    match e {
        0 => "",
        1 => "heap block overrun (tail canary destroyed)",
        2 => "double free",
        3 => "free of a pointer that was never allocated, or heap header destroyed",
        4 => "write to freed memory",
        _ => "heap size mismatch on free",
    }
}
fn mem_err(e: u32) {
    let _ = MEM_ERR.compare_exchange(0, e, SeqCst, SeqCst);
}

#[inline(always)]
fn off_for(align: usize) -> usize {
    if align > 32 {
        align
    } else {
        32
    }
}
unsafe fn release(p: *mut u8) {
    let h = p as *mut u64;
    let size = *h.sub(3) as usize;
    let align = (*h.sub(2) & 0xffff_ffff) as usize;
    let slack = (*h.sub(2) >> 32) as usize;
    let n = size.min(4096);
    for i in 0..n {
        if *p.add(i) != POISON {
            mem_err(4);
            break;
        }
    }
    let off = off_for(align);
    System.dealloc(p.sub(off), Layout::from_size_align_unchecked(off + size + 8 + slack, align.max(16)));
}

// Fenced blocks: the object ends at an inaccessible page, and its own pages become inaccessible when it is
// freed, so that a read or write past its end or after its death ends the process at once.
const PAGE: usize = 4096;
const ARENA: usize = 1 << 30;
static FENCE: AtomicU64 = AtomicU64::new(0);
static FENCE_SEED: AtomicU64 = AtomicU64::new(0);
static ARENA_BASE: AtomicUsize = AtomicUsize::new(0);
static ARENA_POS: AtomicUsize = AtomicUsize::new(0);
static FENCE_LIVE: AtomicI64 = AtomicI64::new(0);
pub static FENCED: AtomicU64 = AtomicU64::new(0);
fn fence_on(k: u64, seed: u64) {
    let p = unsafe { libc::mmap(null_mut(), ARENA, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    if p != libc::MAP_FAILED {
        ARENA_BASE.store(p as usize, SeqCst);
        ARENA_POS.store(0, SeqCst);
        FENCE_SEED.store(seed, SeqCst);
        FENCE.store(k, SeqCst);
    }
}
#[inline(always)]
fn up(n: usize, a: usize) -> usize {
    (n + a - 1) & !(a - 1)
}
#[cold]
unsafe fn fence_alloc(l: &Layout) -> *mut u8 {
    if l.align() > PAGE || l.size() == 0 || l.size() > 1 << 20 || FENCE_LIVE.load(Relaxed) > 12_000 {
        return null_mut();
    }
    let n = up(l.size(), PAGE);
    let at = ARENA_POS.fetch_add(n + PAGE, Relaxed);
    if at + n + PAGE > ARENA {
        FENCE.store(0, Relaxed);
        return null_mut();
    }
    let va = ARENA_BASE.load(Relaxed) + at;
    if libc::mprotect(va as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return null_mut();
    }
    FENCE_LIVE.fetch_add(1, Relaxed);
    FENCED.fetch_add(1, Relaxed);
    let p = (va + n - up(l.size(), l.align())) as *mut u8;
    std::ptr::write_bytes(p, 0xA5, l.size());
    LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    p
}
#[cold]
unsafe fn fence_dealloc(p: *mut u8, l: &Layout) {
    // freed twice: this read ends the process
    std::ptr::read_volatile(p);
    let n = up(l.size(), PAGE);
    let va = p as usize + up(l.size(), l.align()) - n;
    if va % PAGE != 0 {
        mem_err(5);
        return;
    }
    libc::madvise(va as *mut _, n, libc::MADV_DONTNEED);
    libc::mprotect(va as *mut _, n, libc::PROT_NONE);
    FENCE_LIVE.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
    LIVE_BLOCKS.fetch_sub(1, Relaxed);
}
#[inline(always)]
fn in_arena(p: *mut u8) -> bool {
    let b = ARENA_BASE.load(Relaxed);
    b != 0 && (p as usize).wrapping_sub(b) < ARENA
}

unsafe impl GlobalAlloc for CheckedAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(0);
        moved(l.size());
        if FENCE.load(Relaxed) != 0 && QUIET.with(|q| q.get()) == 0 {
            let k = FENCE.load(Relaxed);
            if crate::prng::mix(ALLOCS.load(Relaxed) ^ FENCE_SEED.load(Relaxed)) % k == 0 {
                let p = fence_alloc(&l);
                if !p.is_null() {
                    ALLOCS.fetch_add(1, Relaxed);
                    return p;
                }
            }
        }
        let off = off_for(l.align());
        let seq = ALLOCS.fetch_add(1, Relaxed);
        let seed = HEAP_SEED.load(Relaxed);
        let slack = if seed != 0 { (crate::prng::mix(seq ^ seed) % 8) as usize * 16 } else { 0 };
        let base = System.alloc(Layout::from_size_align_unchecked(off + l.size() + 8 + slack, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p as *mut u64;
        *h.sub(4) = seq;
        *h.sub(3) = l.size() as u64;
        *h.sub(2) = l.align() as u64 | ((slack as u64) << 32);
        *h.sub(1) = MAGIC ^ p as u64;
        (p.add(l.size()) as *mut u64).write_unaligned(CANARY ^ p as u64);
        if CHECKING.load(Relaxed) {
            let fill = if seed != 0 { (crate::prng::mix(seed.wrapping_add(seq)) >> 9) as u8 } else { 0xA5 };
            std::ptr::write_bytes(p, fill, l.size());
        }
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(0);
        if in_arena(p) {
            return fence_dealloc(p, &l);
        }
        let h = p as *mut u64;
        let m = *h.sub(1);
        if m == FREED ^ p as u64 {
            mem_err(2);
            return;
        }
        if m != MAGIC ^ p as u64 {
            mem_err(3);
            return;
        }
        let size = *h.sub(3) as usize;
        if size != l.size() {
            mem_err(5);
        }
        if (p.add(size) as *mut u64).read_unaligned() != CANARY ^ p as u64 {
            mem_err(1);
        }
        LIVE_BYTES.fetch_sub(size as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        if CHECKING.load(Relaxed) {
            *h.sub(1) = FREED ^ p as u64;
            std::ptr::write_bytes(p, POISON, size);
            if QUAR_ON.load(Relaxed) && size <= 1 << 16 {
                let i = QPOS.fetch_add(1, Relaxed) % QN;
                let old = QUAR[i].swap(p as usize, Relaxed);
                if old != 0 {
                    release(old as *mut u8);
                }
                return;
            }
            release(p);
            return;
        }
        let align = (*h.sub(2) & 0xffff_ffff) as usize;
        let slack = (*h.sub(2) >> 32) as usize;
        *h.sub(1) = FREED ^ p as u64;
        let off = off_for(align);
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(off + size + 8 + slack, align.max(16)));
    }
}
/// Verify everything still in quarantine.
pub fn quarantine_flush() {
    for q in QUAR.iter() {
        let p = q.swap(0, Relaxed);
        if p != 0 {
            unsafe { release(p as *mut u8) }
        }
    }
}
#[global_allocator]
static GLOBAL: CheckedAlloc = CheckedAlloc;
