//! Simulated stand-in for `rayon-core` (see `sim`): same public API, but every decision a
//! work-stealing pool would leave to chance is taken by a seeded scheduler. Outside a session
//! everything runs inline on the calling thread.

use std::any::Any;
use std::cell::UnsafeCell;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub mod cov;
pub mod sim;

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}

pub fn current_num_threads() -> usize {
    sim::num_threads()
}

pub fn current_thread_index() -> Option<usize> {
    if sim::in_session() {
        Some(sim::me() % sim::num_threads())
    } else {
        None
    }
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    if sim::in_session() {
        Some(false)
    } else {
        None
    }
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    result: UnsafeCell<Option<std::thread::Result<R>>>,
    done: AtomicBool,
    owner: usize,
}

unsafe fn exec_stack_job<F, R>(p: *const ())
where
    F: FnOnce(FnContext) -> R,
{
    let j = &*(p as *const StackJob<F, R>);
    let f = (*j.f.get()).take().unwrap();
    let migrated = sim::me() != j.owner;
    let r = catch_unwind(AssertUnwindSafe(|| f(FnContext::new(migrated))));
    *j.result.get() = Some(r);
    j.done.store(true, Ordering::SeqCst);
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| oper_a(), move |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !sim::in_session() || sim::num_threads() <= 1 {
        let ra = oper_a(FnContext::new(false));
        let rb = oper_b(FnContext::new(false));
        return (ra, rb);
    }
    let job = StackJob {
        f: UnsafeCell::new(Some(oper_b)),
        result: UnsafeCell::new(None),
        done: AtomicBool::new(false),
        owner: sim::me(),
    };
    fn mk<F: FnOnce(FnContext) -> R, R>(j: &StackJob<F, R>) -> sim::Job {
        sim::Job { data: j as *const _ as *const (), exec: exec_stack_job::<F, R> }
    }
    let jr = mk(&job);
    sim::push_job(jr);
    sim::yield_point();
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
    sim::yield_point();
    if sim::take_back(jr.data) {
        unsafe { (jr.exec)(jr.data) };
    } else {
        sim::wait_flag(&job.done, true);
    }
    let rb = job.result.into_inner().unwrap();
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

// ---------------------------------------------------------------------------------------------
// scopes

struct ScopeBase {
    open: AtomicUsize,
    done: AtomicBool,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}

impl ScopeBase {
    fn new() -> Self {
        ScopeBase { open: AtomicUsize::new(1), done: AtomicBool::new(false), panic: Mutex::new(None) }
    }
    fn close_one(&self) {
        if self.open.fetch_sub(1, Ordering::SeqCst) == 1 {
            self.done.store(true, Ordering::SeqCst);
        }
    }
    fn store_panic(&self, e: Box<dyn Any + Send>) {
        let _np = sim::NoPreempt::new();
        let mut p = self.panic.lock().unwrap();
        if p.is_none() {
            *p = Some(e);
        }
    }
    fn spawn_raw(&self, f: Box<dyn FnOnce() + Send + '_>) {
        self.open.fetch_add(1, Ordering::SeqCst);
        if !sim::in_session() || sim::num_threads() <= 1 {
            if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                self.store_panic(e);
            }
            self.close_one();
            return;
        }
        struct HeapJob {
            base: *const ScopeBase,
            f: Box<dyn FnOnce() + Send>,
        }
        unsafe fn exec(p: *const ()) {
            let j = Box::from_raw(p as *mut HeapJob);
            let base = &*j.base;
            if let Err(e) = catch_unwind(AssertUnwindSafe(j.f)) {
                base.store_panic(e);
            }
            base.close_one();
        }
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        let p = Box::into_raw(Box::new(HeapJob { base: self, f }));
        sim::push_job(sim::Job { data: p as *const (), exec });
        sim::yield_point();
    }
    fn complete<R>(&self, r: std::thread::Result<R>) -> R {
        self.close_one();
        if sim::in_session() && sim::num_threads() > 1 {
            sim::wait_flag(&self.done, true);
        }
        let p = {
            let _np = sim::NoPreempt::new();
            self.panic.lock().unwrap().take()
        };
        match (r, p) {
            (Err(e), _) => resume_unwind(e),
            (_, Some(e)) => resume_unwind(e),
            (Ok(r), None) => r,
        }
    }
}

struct SendPtr<T>(*const T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

macro_rules! scope_type {
    ($Scope:ident, $spawn:ident) => {
        pub struct $Scope<'scope> {
            base: ScopeBase,
            marker: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $Scope<'scope> {
            fn with<R>(op: impl FnOnce(&$Scope<'scope>) -> R) -> R {
                let s = $Scope { base: ScopeBase::new(), marker: PhantomData };
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                s.base.complete(r)
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
            {
                let me = SendPtr(self as *const Self);
                let f: Box<dyn FnOnce() + Send + '_> =
                    Box::new(move || body(unsafe { &*me.get() }));
                self.base.spawn_raw(f);
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                for i in 0..n {
                    body(self, BroadcastContext { index: i, n, _marker: PhantomData });
                }
            }
        }
        impl<'scope> fmt::Debug for $Scope<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($Scope))
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    Scope::with(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    Scope::with(op)
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    ScopeFifo::with(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    ScopeFifo::with(op)
}

// ---------------------------------------------------------------------------------------------
// detached tasks

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    if !sim::in_session() || sim::num_threads() <= 1 {
        func();
        return;
    }
    unsafe fn exec(p: *const ()) {
        let f = Box::from_raw(p as *mut Box<dyn FnOnce() + Send>);
        if catch_unwind(AssertUnwindSafe(*f)).is_err() {
            eprintln!("SIM: detached task panicked");
            std::process::abort();
        }
    }
    let b: Box<Box<dyn FnOnce() + Send>> = Box::new(Box::new(func));
    sim::push_job(sim::Job { data: Box::into_raw(b) as *const (), exec });
    sim::yield_point();
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

// ---------------------------------------------------------------------------------------------
// broadcast

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _marker: PhantomData })).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    if !sim::in_session() {
        return None;
    }
    sim::yield_point();
    Some(Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    yield_now()
}

// ---------------------------------------------------------------------------------------------
// pools: every pool is the simulated one

pub struct ThreadPool {
    n: usize,
}

impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.n).finish()
    }
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        sim::yield_point();
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_fifo(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool build error")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    _p: (),
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn thread_name<F>(self, _: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn start_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}
