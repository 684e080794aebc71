//@include ../prelude/base.rs
//@include ../prelude/atomics.rs
//@all ".compare_exchange(" => ".compare_exchange(log, "
//@all ".compare_exchange_weak(" => ".compare_exchange_weak(log, "
//@all ".load(" => ".load(log, "
//@all ".swap(" => ".swap(log, "
//@all ".store(" => ".store(log, "
//@all ".unlock(" => ".unlock(log"
//@all "std::mem::forget(" => "forget(log, "
//@all ".as_ref()" => ".as_ref(log)"
//@all ".as_mut()" => ".as_mut(log)"
verus! {
pub open spec fn take(s: Step) -> bool { s.o == 0 && s.n == 1 && s.acq }
pub open spec fn give(s: Step) -> bool { s.n == 0 && s.rel }
pub open spec fn shared_ok(l: Seq<Step>) -> bool { true }
pub open spec fn excl_ok(l: Seq<Step>) -> bool { true }
pub struct Spinlock<T> { pub lock: AtomicBool, pub val: UnsafeCell<T> }
/// exists only while the lock is held by it: every construction site is in `lock` and `try_lock` below
pub struct SpinlockHandle<'a, T> { pub lock: &'a Spinlock<T> }
/// mem::forget runs no destructor and touches no lock
#[verifier::external_body] pub fn forget<T>(log: &mut Log, x: T) ensures final(log).s() == old(log).s() { unimplemented!() }
impl<T> Spinlock<T> {
//@fn parasol_concurrency/src/lib.rs :: Spinlock::new
    ensures !ret.lock.init()
//@end
//@fn parasol_concurrency/src/lib.rs :: Spinlock::lock
//@sig #[verifier::exec_allows_no_decreases_clause] fn lock(&self, log: &mut Log) -> (ret: SpinlockHandle<'_, T>)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && take(final(log).s()[i]), ret.lock == self
//@at start
    let ghost mut hit: int = -1;
//@at loop 0
    invariant_except_break quiet(log.s(), 0)
    ensures log.s().len() > 0, only(log.s(), 0, log.s().len() - 1), take(log.s()[log.s().len() - 1])
//@end
//@fn parasol_concurrency/src/lib.rs :: Spinlock::try_lock
//@sig fn try_lock(&self, log: &mut Log) -> (ret: Option<SpinlockHandle<'_, T>>)
    requires old(log).s().len() == 0
    ensures match ret { Some(h) => h.lock == self && (exists|i: int| #[trigger] only(final(log).s(), 0, i) && take(final(log).s()[i])), None => quiet(final(log).s(), 0) && final(log).s().len() > 0 && final(log).s()[final(log).s().len() - 1].o == 1 }
//@at end-bind
    proof { if __r is Some { assert(only(log.s(), 0, log.s().len() - 1)); } }
//@end
//@fn parasol_concurrency/src/lib.rs :: Spinlock::unlock
//@sig fn unlock(&self, log: &mut Log)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && give(final(log).s()[i])
//@at end
    proof { assert(only(log.s(), 0, 0)); }
//@end
}
impl<'a, T> SpinlockHandle<'a, T> {
//@fn parasol_concurrency/src/lib.rs :: SpinlockHandle::keep_locked
//@sig fn keep_locked(self, log: &mut Log)
    requires old(log).s().len() == 0
    ensures final(log).s().len() == 0
//@end
//@fn parasol_concurrency/src/lib.rs :: <Drop for SpinlockHandle>::drop
//@rename release
//@sig fn release(&mut self, log: &mut Log)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && give(final(log).s()[i])
//@end
}
// ---- every history of steps that follow these contracts: one guard at most -------------------------------
pub struct World { pub flag: int, pub guards: int, pub kept: int }
pub enum Ev { Lock(Step), Release(Step), Read(Step), Keep }
pub open spec fn inv(w: World) -> bool { w.guards >= 0 && w.kept >= 0 && w.guards + w.kept == w.flag && (w.flag == 0 || w.flag == 1) }
pub open spec fn step(w: World, e: Ev, v: World) -> bool {
    match e {
        Ev::Lock(s) => take(s) && s.o == w.flag && v == (World { flag: s.n, guards: w.guards + 1, kept: w.kept }),
        Ev::Release(s) => w.guards >= 1 && give(s) && s.o == w.flag && v == (World { flag: s.n, guards: w.guards - 1, kept: w.kept }),
        Ev::Read(s) => s.o == s.n && s.o == w.flag && v == w,
        Ev::Keep => w.guards >= 1 && v == (World { flag: w.flag, guards: w.guards - 1, kept: w.kept + 1 }),
    }
}
pub open spec fn run(h: Seq<World>, e: Seq<Ev>) -> bool { h.len() == e.len() + 1 && h[0] == (World { flag: 0, guards: 0, kept: 0 }) && forall|i: int| 0 <= i < e.len() ==> step(h[i], #[trigger] e[i], h[i + 1]) }
pub proof fn mutual_exclusion(h: Seq<World>, e: Seq<Ev>, k: int)
    requires run(h, e), 0 <= k < h.len()
    ensures inv(h[k]), h[k].guards <= 1,
        // while a guard is alive (or was kept locked) every attempt to take the lock fails
        h[k].guards + h[k].kept == 1 ==> forall|s: Step| #[trigger] take(s) ==> s.o != h[k].flag,
        // released: the next attempt finds the value it expects
        h[k].guards + h[k].kept == 0 ==> h[k].flag == 0
    decreases k
{ if k > 0 { mutual_exclusion(h, e, k - 1); assert(step(h[k - 1], e[k - 1], h[k])); } }
} // verus!
fn main() {}
