//! Seeded cooperative scheduler: real OS threads, but exactly one of them (the baton holder)
//! runs at any time, and who runs next is decided only by the seed / an explicit decision list.
//!
//! Scheduling points are calls to [`yield_point`] (made by the harness' global allocator, its
//! logger, the rayon-core stub and between operations). Nothing in here allocates on the
//! yield path.

use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub const MAX_T: usize = 48;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Runnable,
    /// waiting for the logical thread with that index to finish
    Join(usize),
    Done,
}

/// One preemption: after `after` yield points of the current holder, hand the baton to the
/// `pick`-th runnable thread (modulo).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Decision {
    pub after: u32,
    pub pick: u32,
}

struct State {
    /// decides preemptions
    rng: u64,
    /// answers [`draw`]; a stream of its own, so that replaying explicit preemptions leaves it as it was
    rng2: u64,
    status: [St; MAX_T],
    current: usize,
    // explicit decisions to replay; when present, the rng is not used. Every change of the
    // baton holder, forced or not, consumes one.
    replay: Option<Vec<Decision>>,
    replay_pos: usize,
    record: Vec<Decision>,
    record_cap: usize,
    /// yield points passed when the current gap was drawn
    from: u64,
    mean_gap: u32,
    switches: u64,
    blocks: u64,
    hash: u64,
    free_run: bool,
    max_live: usize,
}

pub struct Sched {
    m: Mutex<State>,
    cv: [Condvar; MAX_T],
    countdown: std::sync::atomic::AtomicU32,
    /// preempt at rarely executed blocks with probability 1/cold (0: no preference)
    cold: u32,
    /// executions of each instrumented block so far, saturating at COLD
    seen: Box<[std::sync::atomic::AtomicU8]>,
    cold_rng: std::sync::atomic::AtomicU64,
    progress: std::sync::atomic::AtomicU64,
    yields: std::sync::atomic::AtomicU64,
}

thread_local! {
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static SUSPEND: Cell<u32> = const { Cell::new(0) };
    /// state of the entropy this thread sees (0: the real one)
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    /// the clock this thread sees: (monotonic ns, offset of the wall clock, advance per reading)
    static CLOCK: Cell<Option<(u64, i64, u64)>> = const { Cell::new(None) };
}

#[inline]
fn next(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl State {
    fn draw_gap(&mut self) -> u32 {
        if let Some(r) = &self.replay {
            return match r.get(self.replay_pos) {
                Some(d) => d.after.max(1),
                None => u32::MAX,
            };
        }
        if self.mean_gap == 0 {
            return u32::MAX;
        }
        // mixture: mostly geometric-ish around mean_gap, sometimes immediate
        let r = next(&mut self.rng);
        if r % 8 == 0 {
            1 + (r >> 32) as u32 % 3
        } else {
            1 + ((r >> 32) as u32 % (2 * self.mean_gap))
        }
    }
    fn draw_pick(&mut self, after: u32) -> u32 {
        let pick = if let Some(r) = &self.replay {
            let p = r.get(self.replay_pos).map_or(0, |d| d.pick);
            self.replay_pos += 1;
            p
        } else {
            (next(&mut self.rng) >> 33) as u32
        };
        if self.record.len() < self.record_cap {
            self.record.push(Decision { after, pick });
        }
        pick
    }
    fn nth_runnable(&self, pick: u32) -> Option<usize> {
        let n = self.status.iter().filter(|s| **s == St::Runnable).count();
        if n == 0 {
            return None;
        }
        let k = pick as usize % n;
        self.status
            .iter()
            .enumerate()
            .filter(|(_, s)| **s == St::Runnable)
            .nth(k)
            .map(|(i, _)| i)
    }
}

/// Result statistics of a scheduled section.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub switches: u64,
    pub blocks: u64,
    pub yields: u64,
    pub schedule_hash: u64,
    pub decisions: Vec<Decision>,
    pub free_run: bool,
    pub max_live: usize,
}

impl Sched {
    pub fn new(seed: u64, mean_gap: u32, cold: u32, replay: Option<Vec<Decision>>) -> Arc<Sched> {
        let cold = if replay.is_some() { 0 } else { cold };
        let mut st = State {
            rng: seed,
            rng2: seed ^ 0x5851f42d4c957f2d,
            status: [St::Free; MAX_T],
            current: 0,
            replay,
            replay_pos: 0,
            record: Vec::with_capacity(8192),
            record_cap: 8192,
            from: 0,
            mean_gap,
            switches: 0,
            blocks: 0,
            hash: 0xcbf29ce484222325,
            free_run: false,
            max_live: 1,
        };
        let gap = st.draw_gap();
        Arc::new(Sched {
            m: Mutex::new(st),
            cv: [const { Condvar::new() }; MAX_T],
            countdown: std::sync::atomic::AtomicU32::new(gap),
            cold,
            seen: (0..if cold > 0 { N_BLOCKS.load(std::sync::atomic::Ordering::Relaxed) as usize + 1 } else { 0 }).map(|_| Default::default()).collect(),
            cold_rng: std::sync::atomic::AtomicU64::new(seed ^ 0x14057b7ef767814f),
            progress: Default::default(),
            yields: Default::default(),
        })
    }

    /// Runs `f` as logical thread 0 under this scheduler.
    pub fn enter<R>(self: &Arc<Self>, f: impl FnOnce() -> R) -> R {
        {
            let mut s = self.m.lock().unwrap();
            s.status[0] = St::Runnable;
            s.current = 0;
        }
        let old = CUR.with(|c| c.replace(Arc::as_ptr(self)));
        let old_tid = TID.with(|t| t.replace(0));
        struct Reset(*const Sched, usize);
        impl Drop for Reset {
            fn drop(&mut self) {
                CUR.with(|c| c.set(self.0));
                TID.with(|t| t.set(self.1));
            }
        }
        let _r = Reset(old, old_tid);
        f()
    }

    pub fn stats(&self) -> Stats {
        let s = self.m.lock().unwrap();
        Stats {
            switches: s.switches,
            blocks: s.blocks,
            yields: self.yields.load(std::sync::atomic::Ordering::Relaxed),
            schedule_hash: s.hash,
            decisions: s.record.clone(),
            free_run: s.free_run,
            max_live: s.max_live,
        }
    }

    fn wait_for_baton(&self, me: usize, mut s: std::sync::MutexGuard<'_, State>) {
        use std::sync::atomic::Ordering::Relaxed;
        let mut last = self.progress.load(Relaxed);
        let mut stalled = 0;
        while s.current != me && !s.free_run {
            let (g, to) = self.cv[me].wait_timeout(s, Duration::from_millis(1000)).unwrap();
            s = g;
            if to.timed_out() && s.current != me {
                let p = self.progress.load(Relaxed);
                if p == last {
                    stalled += 1;
                } else {
                    stalled = 0;
                    last = p;
                }
                if stalled >= 6 {
                    // the holder is blocked on something we do not control (a lock taken by a
                    // parked thread): give up on control rather than deadlock.
                    s.free_run = true;
                    for c in &self.cv {
                        c.notify_all();
                    }
                }
            }
        }
    }

    fn hand_over(&self, s: &mut State, to: usize) {
        s.current = to;
        s.switches += 1;
        s.hash = (s.hash ^ (to as u64 + 1)).wrapping_mul(0x100000001b3);
        self.new_gap(s);
        self.cv[to].notify_one();
    }

    fn new_gap(&self, s: &mut State) {
        use std::sync::atomic::Ordering::Relaxed;
        let g = s.draw_gap();
        s.from = self.yields.load(Relaxed);
        self.countdown.store(g, Relaxed);
    }

    #[cold]
    fn preempt(&self) {
        let me = TID.with(|t| t.get());
        let mut s = self.m.lock().unwrap();
        if s.free_run || s.current != me {
            return;
        }
        let after = (self.yields.load(std::sync::atomic::Ordering::Relaxed) - s.from).min(u32::MAX as u64 - 1) as u32;
        let pick = s.draw_pick(after);
        s.hash = (s.hash ^ after as u64).wrapping_mul(0x100000001b3);
        match s.nth_runnable(pick) {
            Some(to) if to != me => {
                self.hand_over(&mut s, to);
                self.wait_for_baton(me, s);
            }
            _ => self.new_gap(&mut s),
        }
    }

    fn spawn_slot(&self) -> Option<usize> {
        let mut s = self.m.lock().unwrap();
        if s.free_run {
            return None;
        }
        let i = s.status.iter().position(|x| *x == St::Free)?;
        s.status[i] = St::Runnable;
        let live = s.status.iter().filter(|x| !matches!(x, St::Free | St::Done)).count();
        s.max_live = s.max_live.max(live);
        Some(i)
    }

    fn start(&self, me: usize) {
        let s = self.m.lock().unwrap();
        self.wait_for_baton(me, s);
    }

    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.status[me] = St::Done;
        for i in 0..MAX_T {
            if s.status[i] == St::Join(me) {
                s.status[i] = St::Runnable;
            }
        }
        if s.free_run {
            for c in &self.cv {
                c.notify_all();
            }
            return;
        }
        let pick = s.draw_pick(u32::MAX);
        if let Some(to) = s.nth_runnable(pick) {
            self.hand_over(&mut s, to);
        }
    }

    fn join_wait(&self, me: usize, child: usize) {
        let mut s = self.m.lock().unwrap();
        if s.status[child] != St::Done && !s.free_run {
            s.status[me] = St::Join(child);
            let pick = s.draw_pick(u32::MAX);
            if let Some(to) = s.nth_runnable(pick) {
                self.hand_over(&mut s, to);
            }
            self.wait_for_baton(me, s);
            s = self.m.lock().unwrap();
        }
        while s.free_run && s.status[child] != St::Done {
            s = self.cv[me].wait_timeout(s, Duration::from_millis(50)).unwrap().0;
        }
        s.status[child] = St::Free;
        if s.status[me] != St::Runnable {
            s.status[me] = St::Runnable;
        }
    }

    /// The holder is about to block on a lock held by another logical thread: run someone else.
    /// Returns false when nobody else can run.
    fn blocked(&self) -> bool {
        let me = TID.with(|t| t.get());
        let mut s = self.m.lock().unwrap();
        if s.free_run || s.current != me {
            return false;
        }
        s.blocks += 1;
        let n = s.status.iter().filter(|x| **x == St::Runnable).count();
        if n < 2 {
            return false;
        }
        let mut pick = s.draw_pick(u32::MAX);
        if s.nth_runnable(pick) == Some(me) {
            pick = pick.wrapping_add(1);
            if s.nth_runnable(pick) == Some(me) {
                pick = pick.wrapping_add(1);
            }
        }
        match s.nth_runnable(pick) {
            Some(to) if to != me => {
                self.hand_over(&mut s, to);
                self.wait_for_baton(me, s);
                true
            }
            _ => false,
        }
    }

    fn draw(&self) -> u64 {
        next(&mut self.m.lock().unwrap().rng2)
    }
}

/// A scheduling point. Cheap when no scheduler is installed on this thread.
#[inline]
pub fn yield_point() {
    let p = match CUR.try_with(|c| c.get()) {
        Ok(p) => p,
        Err(_) => return,
    };
    if p.is_null() {
        return;
    }
    if SUSPEND.try_with(|s| s.get()).unwrap_or(1) > 0 {
        return;
    }
    // SAFETY: `enter`/`spawn` keep the scheduler alive while CUR points to it.
    let s = unsafe { &*p };
    use std::sync::atomic::Ordering::Relaxed;
    // only the baton holder gets here, no read-modify-write needed
    let y = s.yields.load(Relaxed) + 1;
    s.yields.store(y, Relaxed);
    s.progress.store(s.progress.load(Relaxed) + 1, Relaxed);
    let c = s.countdown.load(Relaxed);
    if c != u32::MAX {
        if c <= 1 {
            suspended(|| s.preempt());
        } else {
            s.countdown.store(c - 1, Relaxed);
        }
    }
}

/// Runs `f` without scheduling points (harness bookkeeping).
pub fn suspended<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let _ = SUSPEND.try_with(|s| s.set(s.get() - 1));
        }
    }
    let _ = SUSPEND.try_with(|s| s.set(s.get() + 1));
    let _g = G;
    f()
}

/// Is the calling thread under a scheduler?
pub fn active() -> bool {
    CUR.try_with(|c| !c.get().is_null()).unwrap_or(false)
}

pub fn current_tid() -> usize {
    TID.with(|t| t.get())
}

/// What the operating system's entropy source gives to this thread from now on (hash seeds...).
/// Logical threads started by it inherit a stream of their own.
pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed | 1));
}

fn fill_entropy(buf: *mut u8, n: usize) -> bool {
    ENTROPY
        .try_with(|e| {
            let mut s = e.get();
            if s == 0 {
                return false;
            }
            for i in 0..n {
                unsafe { *buf.add(i) = (next(&mut s) >> 24) as u8 };
            }
            e.set(s | 1);
            true
        })
        .unwrap_or(false)
}

unsafe fn next_symbol(name: &std::ffi::CStr, cache: &std::sync::atomic::AtomicUsize) -> usize {
    use std::sync::atomic::Ordering::Relaxed;
    let mut f = cache.load(Relaxed);
    if f == 0 {
        f = dlsym(-1isize as *mut u8, name.as_ptr()) as usize;
        cache.store(f, Relaxed);
    }
    f
}

/// The clock this thread sees from now on (`None`: the real one): monotonic time and offset of
/// the wall clock in ns, and how far time moves on at each reading.
pub fn set_clock(c: Option<(u64, i64, u64)>) {
    CLOCK.with(|x| x.set(c));
}

/// The simulated monotonic time of this thread, without moving it on.
pub fn clock() -> u64 {
    CLOCK.with(|x| x.get()).map_or(0, |c| c.0)
}

/// Interposes libc's `clock_gettime` (see [`set_clock`]).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, out: *mut [i64; 2]) -> i32 {
    let sim = CLOCK
        .try_with(|x| {
            let c = x.get();
            if let Some((m, w, d)) = c {
                x.set(Some((m + d, w, d)));
            }
            c
        })
        .unwrap_or(None);
    if let Some((m, w, _)) = sim {
        // 0 and 5 are the wall clock, 2 and 3 processor time
        let t = match id {
            0 | 5 | 11 => (m as i64 + w).max(0) as u64,
            _ => m,
        };
        *out = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let f = next_symbol(c"clock_gettime", &NEXT);
    if f == 0 {
        return syscall(228, id as i64, out as i64, 0, 0, 0, 0) as i32;
    }
    let f: unsafe extern "C" fn(i32, *mut [i64; 2]) -> i32 = std::mem::transmute(f);
    f(id, out)
}

/// Interposes libc's `getrandom` (see [`set_entropy`]); other threads get the next one in line.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if fill_entropy(buf, n) {
        return n as isize;
    }
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let f = next_symbol(c"getrandom", &NEXT);
    if f == 0 {
        return syscall(318, buf as i64, n as i64, flags as i64, 0, 0, 0) as isize;
    }
    let f: unsafe extern "C" fn(*mut u8, usize, u32) -> isize = std::mem::transmute(f);
    f(buf, n, flags)
}

/// Draws a schedule decision (order, stealing, ...) from the installed scheduler.
pub fn draw() -> Option<u64> {
    let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        return None;
    }
    Some(suspended(|| unsafe { &*p }.draw()))
}

/// Runs `a` on the calling logical thread and `b` on a new one, interleaved by the scheduler.
/// Falls back to running them in a drawn order when no slot is free.
pub fn fork_join<A, B, RA, RB>(a: A, b: B) -> (std::thread::Result<RA>, std::thread::Result<RB>)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB + Send,
    RB: Send,
{
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let p = CUR.with(|c| c.get());
    assert!(!p.is_null());
    let sched: &Sched = unsafe { &*p };
    // no scheduling point between taking the slot and starting its thread (this function is
    // generic and therefore instrumented along with the code that calls it)
    SUSPEND.with(|s| s.set(s.get() + 1));
    let Some(slot) = sched.spawn_slot() else {
        SUSPEND.with(|s| s.set(s.get() - 1));
        let ra = catch_unwind(AssertUnwindSafe(a));
        let rb = catch_unwind(AssertUnwindSafe(b));
        return (ra, rb);
    };
    let addr = p as usize;
    let ent = ENTROPY.with(|e| {
        let mut s = e.get();
        if s == 0 {
            return 0;
        }
        let v = next(&mut s) | 1;
        e.set(s | 1);
        v
    });
    let mut rb: Option<std::thread::Result<RB>> = None;
    let ra;
    {
        let rb_ref = &mut rb;
        let mut res = None;
        std::thread::scope(|sc| {
            {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, move || {
                        let sp = addr as *const Sched;
                        let s = unsafe { &*sp };
                        ENTROPY.with(|e| e.set(ent));
                        s.start(slot);
                        TID.with(|t| t.set(slot));
                        CUR.with(|c| c.set(sp));
                        let r = catch_unwind(AssertUnwindSafe(b));
                        CUR.with(|c| c.set(std::ptr::null()));
                        *rb_ref = Some(r);
                        s.finish(slot);
                    })
                    .expect("spawn");
            }
            SUSPEND.with(|s| s.set(s.get() - 1));
            yield_point();
            res = Some(catch_unwind(AssertUnwindSafe(a)));
            suspended(|| sched.join_wait(TID.with(|t| t.get()), slot));
            // the scope's implicit join must not be a scheduling point
            SUSPEND.with(|s| s.set(s.get() + 1));
        });
        SUSPEND.with(|s| s.set(s.get() - 1));
        ra = res.unwrap();
    }
    (ra, rb.unwrap())
}

/// how often a block may run before it counts as hot
const COLD: u8 = 24;
static N_BLOCKS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// Called once per instrumented object file: numbers the blocks.
/// # Safety
/// called by the instrumentation with the bounds of its guard section
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut n = N_BLOCKS.load(std::sync::atomic::Ordering::Relaxed);
    let mut p = start;
    while p < stop {
        n += 1;
        *p = n;
        p = p.add(1);
    }
    N_BLOCKS.store(n, std::sync::atomic::Ordering::Relaxed);
}

/// Called at every basic block of the crates under test (see tools/rustc-cov.sh).
/// # Safety
/// called by the instrumentation with a pointer to the block's guard
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *const u32) {
    let p = match CUR.try_with(|c| c.get()) {
        Ok(p) => p,
        Err(_) => return,
    };
    if p.is_null() {
        return;
    }
    let s = &*p;
    if s.cold > 0 && SUSPEND.try_with(|s| s.get()).unwrap_or(1) == 0 {
        use std::sync::atomic::Ordering::Relaxed;
        if let Some(c) = s.seen.get(*guard as usize) {
            let n = c.load(Relaxed);
            if n < COLD {
                c.store(n + 1, Relaxed);
                let mut r = s.cold_rng.load(Relaxed);
                let x = next(&mut r);
                s.cold_rng.store(r, Relaxed);
                if x % s.cold as u64 == 0 {
                    s.countdown.store(1, Relaxed);
                }
            }
        }
    }
    yield_point()
}

/// Interposes libc's `syscall`: a futex wait of the baton holder (a contended lock, a `Once`,
/// a parked thread) becomes a scheduling decision instead of blocking the whole simulation.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const SYS_FUTEX: i64 = 202;
    if n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9) {
        let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null());
        if !p.is_null() && SUSPEND.try_with(|s| s.get()).unwrap_or(1) == 0 {
            let word = &*(a as *const std::sync::atomic::AtomicU32);
            if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                *__errno_location() = 11; // EAGAIN
                return -1;
            }
            let s = &*p;
            s.progress.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if suspended(|| s.blocked()) {
                return 0; // a spurious wake-up: the caller checks its condition again
            }
        }
    }
    if n == 318 && fill_entropy(a as *mut u8, b as usize) {
        return b;
    }
    if n != SYS_FUTEX {
        // whoever else interposes (the fault-injection shim) comes next
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let f_next = next_symbol(c"syscall", &NEXT);
        if f_next != 0 {
            let next: unsafe extern "C" fn(i64, i64, i64, i64, i64, i64, i64) -> i64 = std::mem::transmute(f_next);
            return next(n, a, b, c, d, e, f);
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(handle: *mut u8, name: *const std::ffi::c_char) -> *mut u8;
}
