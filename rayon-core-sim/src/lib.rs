//! Drop-in stand-in for rayon-core's public API whose scheduling is decided by a seed.
//!
//! * Under a `simsched` scheduler (in-process simulation) `join` may fork a logical thread that
//!   is interleaved with its sibling at allocator/log granularity.
//! * Otherwise (the simulated CLI process) the order of the two halves, whether a half counts as
//!   stolen, and the pool size come from RAYON_SIM_SEED / RAYON_SIM_THREADS.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
    static RNG_INIT: Cell<bool> = const { Cell::new(false) };
    static NTHREADS: Cell<usize> = const { Cell::new(0) };
    static VWORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
static JOINS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Number of join points executed so far in this process (reach statistics).
pub fn sim_join_count() -> u64 {
    JOINS.load(std::sync::atomic::Ordering::Relaxed)
}

/// Pool size seen by the calling thread's simulation (0 = default).
pub fn sim_set_num_threads(n: usize) {
    NTHREADS.with(|c| c.set(n));
}

fn env_u64(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|v| v.parse().ok())
}

fn draw() -> u64 {
    if let Some(v) = simsched::draw() {
        return v;
    }
    if !RNG_INIT.with(|c| c.replace(true)) {
        RNG.with(|c| c.set(env_u64("RAYON_SIM_SEED").unwrap_or(0)));
    }
    RNG.with(|c| {
        let mut s = c.get().wrapping_add(0x9E3779B97F4A7C15);
        c.set(s);
        s = (s ^ (s >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        s = (s ^ (s >> 27)).wrapping_mul(0x94D049BB133111EB);
        s ^ (s >> 31)
    })
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}

pub fn current_num_threads() -> usize {
    let n = NTHREADS.with(|c| c.get());
    if n > 0 {
        return n;
    }
    env_u64("RAYON_SIM_THREADS").filter(|n| *n > 0).unwrap_or(4) as usize
}

pub fn current_thread_index() -> Option<usize> {
    let v = VWORKER.with(|c| c.get());
    if v == usize::MAX {
        None
    } else {
        Some(v % current_num_threads())
    }
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

fn on_worker<R>(w: usize, f: impl FnOnce() -> R) -> R {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            VWORKER.with(|c| c.set(self.0));
        }
    }
    let _g = G(VWORKER.with(|c| c.replace(w)));
    f()
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    JOINS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let d = draw();
    let (wa, wb) = ((d >> 8) as usize & 0xff, (d >> 16) as usize & 0xff);
    let stolen_b = d & 1 == 1;
    let a_first = d & 2 == 2;
    let fork = simsched::active() && d & 0xc != 0;
    let (ra, rb) = if fork {
        simsched::fork_join(
            || on_worker(wa, || oper_a(FnContext::new(false))),
            || on_worker(wb, || oper_b(FnContext::new(true))),
        )
    } else if a_first {
        let ra = catch_unwind(AssertUnwindSafe(|| on_worker(wa, || oper_a(FnContext::new(false)))));
        let rb = catch_unwind(AssertUnwindSafe(|| on_worker(wb, || oper_b(FnContext::new(stolen_b)))));
        (ra, rb)
    } else {
        let rb = catch_unwind(AssertUnwindSafe(|| on_worker(wb, || oper_b(FnContext::new(true)))));
        let ra = catch_unwind(AssertUnwindSafe(|| on_worker(wa, || oper_a(FnContext::new(false)))));
        (ra, rb)
    };
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}

// ---------------------------------------------------------------- scopes
type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
pub struct Scope<'scope> {
    jobs: RefCell<Vec<Job<'scope>>>,
    panic: RefCell<Option<Box<dyn Any + Send>>>,
}
// SAFETY: the stub never runs scope bodies concurrently.
unsafe impl<'s> Sync for Scope<'s> {}
unsafe impl<'s> Send for Scope<'s> {}
pub struct ScopeFifo<'scope>(Scope<'scope>);

impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { jobs: RefCell::new(vec![]), panic: RefCell::new(None) }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        if draw() & 1 == 0 {
            self.run(Box::new(body));
        } else {
            self.jobs.borrow_mut().push(Box::new(body));
        }
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let n = current_num_threads();
        self.spawn(move |s| {
            for i in 0..n {
                on_worker(i, || body(s, BroadcastContext::new(i, n)));
            }
        });
    }
    fn run(&self, j: Job<'scope>) {
        let w = draw() as usize & 0xff;
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| on_worker(w, || j(self)))) {
            self.panic.borrow_mut().get_or_insert(e);
        }
    }
    fn drain(&self) {
        loop {
            let j = {
                let mut q = self.jobs.borrow_mut();
                if q.is_empty() {
                    break;
                }
                let i = draw() as usize % q.len();
                q.swap_remove(i)
            };
            self.run(j);
        }
        if let Some(e) = self.panic.borrow_mut().take() {
            resume_unwind(e);
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        // SAFETY: ScopeFifo is a transparent wrapper used only by reference here.
        self.0.spawn(move |s| body(unsafe { &*(s as *const Scope<'scope> as *const ScopeFifo<'scope>) }));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        self.0.spawn_broadcast(move |s, c| {
            body(unsafe { &*(s as *const Scope<'scope> as *const ScopeFifo<'scope>) }, c)
        });
    }
}
impl<'s> fmt::Debug for Scope<'s> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl<'s> fmt::Debug for ScopeFifo<'s> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.drain();
    match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo(Scope::new());
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.0.drain();
    match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

// ---------------------------------------------------------------- spawn / broadcast
pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    let w = draw() as usize & 0xff;
    let _ = catch_unwind(AssertUnwindSafe(|| on_worker(w, func)));
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}
pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn new(i: usize, n: usize) -> Self {
        BroadcastContext { i, n, _m: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, draw() as usize % (i + 1));
    }
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    for i in order {
        out[i] = Some(on_worker(i, || op(BroadcastContext::new(i, n))));
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

// ---------------------------------------------------------------- pools
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    simsched::yield_point();
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

pub struct ThreadPoolBuildError {
    kind: io::Error,
}
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.kind.fmt(f)
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.kind.fmt(f)
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

pub struct DefaultSpawn;
pub struct CustomSpawn<F>(#[allow(dead_code)] F);

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    s: S,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, s: DefaultSpawn }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(with_pool(&ThreadPool { n: self.n }))
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        let _ = self.s;
        ThreadPoolBuilder { n: self.n, s: CustomSpawn(spawn) }
    }
    pub fn thread_name<F>(self, _closure: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn num_threads(mut self, num_threads: usize) -> Self {
        self.n = num_threads;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _stack_size: usize) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}

pub struct ThreadPool {
    n: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}
impl ThreadPool {
    fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        struct G(usize);
        impl Drop for G {
            fn drop(&mut self) {
                NTHREADS.with(|c| c.set(self.0));
            }
        }
        let old = NTHREADS.with(|c| c.get());
        let _g = G(old);
        if self.n > 0 {
            NTHREADS.with(|c| c.set(self.n));
        }
        let w = draw() as usize & 0xff;
        on_worker(w, f)
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        self.with(op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        self.with(|| broadcast(op))
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n > 0 {
            self.n
        } else {
            current_num_threads()
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.with(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.with(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.with(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        self.with(|| in_place_scope(op))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        self.with(|| in_place_scope_fifo(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.with(|| spawn(op))
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.with(|| spawn(op))
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        self.with(|| spawn_broadcast(op))
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
