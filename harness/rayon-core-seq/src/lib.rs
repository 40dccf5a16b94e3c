//! Stand-in for rayon-core used by the solver checks: the real rayon iterators run on top of
//! this scheduler, which executes the two halves of every `join` one after the other, in an
//! order the harness (or the solver) chooses. Safe Rust has no data races between the halves,
//! so task order is the only schedule freedom left.
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static ORDER: AtomicU32 = AtomicU32::new(0);
static THREADS: AtomicU32 = AtomicU32::new(2);
extern "C" {
    fn symx_choose(n: u64) -> u64;
}
/// 0: first half first, 1: second half first, 2: decided by the solver at every join
pub fn symx_set_order(o: u32) { ORDER.store(o, Relaxed) }
pub fn symx_set_threads(n: u32) { THREADS.store(n, Relaxed) }
fn second_first() -> bool {
    match ORDER.load(Relaxed) { 0 => false, 1 => true, _ => unsafe { symx_choose(2) == 1 } }
}

#[derive(Debug)]
pub struct FnContext { migrated: bool }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    if second_first() { let rb = b(FnContext { migrated: true }); let ra = a(FnContext { migrated: false }); (ra, rb) }
    else { let ra = a(FnContext { migrated: false }); let rb = b(FnContext { migrated: false }); (ra, rb) }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    join_context(|_| a(), |_| b())
}
pub fn current_num_threads() -> usize { THREADS.load(Relaxed) as usize }
pub fn max_num_threads() -> usize { 64 }
pub fn current_thread_index() -> Option<usize> { None }
#[derive(Debug, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { None }
pub fn yield_local() -> Option<Yield> { None }
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { f() }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { f() }
pub struct BroadcastContext<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> BroadcastContext<'a> { pub fn index(&self) -> usize { 0 } pub fn num_threads(&self) -> usize { 1 } }
pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { vec![op(BroadcastContext { _p: std::marker::PhantomData })] }
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { op(BroadcastContext { _p: std::marker::PhantomData }) }
pub struct Scope<'s> { _p: std::marker::PhantomData<&'s ()> }
impl<'s> Scope<'s> { pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) { b(self) } }
pub struct ScopeFifo<'s> { _p: std::marker::PhantomData<&'s ()> }
impl<'s> ScopeFifo<'s> { pub fn spawn_fifo<B: FnOnce(&ScopeFifo<'s>) + Send + 's>(&self, b: B) { b(self) } }
pub fn scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { op(&Scope { _p: std::marker::PhantomData }) }
pub fn scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R + Send, R: Send { op(&ScopeFifo { _p: std::marker::PhantomData }) }
pub fn in_place_scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { op(&Scope { _p: std::marker::PhantomData }) }
pub fn in_place_scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R { op(&ScopeFifo { _p: std::marker::PhantomData }) }
#[derive(Debug)] pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("unsupported") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)] pub struct ThreadPool;
impl ThreadPool { pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send { op() } }
#[derive(Debug)] pub struct ThreadBuilder;
#[derive(Debug, Default)] pub struct ThreadPoolBuilder { n: usize }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
