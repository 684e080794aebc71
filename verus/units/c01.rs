//@include ../prelude/base.rs
//@include ../prelude/atomics.rs
//@generic S D
//@all ".compare_exchange(" => ".compare_exchange(log, "
//@all ".compare_exchange_weak(" => ".compare_exchange_weak(log, "
//@all ".load(" => ".load(log, "
//@all ".swap(" => ".swap(log, "
//@all ".store(" => ".store(log, "
//@all ".upd_read(" => ".upd_read(log, "
//@all ".upd_commit(" => ".upd_commit(log, "
//@all ".fetch_add(" => ".fetch_add(log, "
//@all ".fetch_sub(" => ".fetch_sub(log, "
//@all ".as_ref()" => ".as_ref(log)"
//@all ".as_mut()" => ".as_mut(log)"
//@all "rt_panic()" => "refuse(log, Ghost(l0))"
//@all "rt_assert(false)" => "refuse(log, Ghost(l0))"
verus! {
// state: 0 = one exclusive borrow, 1 = free, n + 1 = n shared borrows
pub open spec fn grant_shared(s: Step) -> bool { 1 <= s.o < usize::MAX && s.n == s.o + 1 && s.acq }
pub open spec fn grant_excl(s: Step) -> bool { s.o == 1 && s.n == 0 && s.acq }
pub open spec fn shared_ok(l: Seq<Step>) -> bool { (l.len() > 0 && grant_shared(l[l.len() - 1])) || (exists|i: int| 0 <= i < l.len() && grant_shared(#[trigger] l[i])) }
pub open spec fn excl_ok(l: Seq<Step>) -> bool { (l.len() > 0 && grant_excl(l[l.len() - 1])) || (exists|i: int| 0 <= i < l.len() && grant_excl(#[trigger] l[i])) }
/// what the call may refuse: the last value it found forbids it, and it has changed nothing
pub open spec fn busy_shared(l: Seq<Step>) -> bool { l.len() > 0 && (l.last().o == 0 || l.last().o >= usize::MAX / 2) }
pub open spec fn busy_excl(l: Seq<Step>) -> bool { l.len() > 0 && l.last().o != 1 }
/// the panic of a refused request: `why` says which values may be refused
#[verifier::external_body] pub fn refuse(log: &mut Log, Ghost(l0): Ghost<(Seq<Step>, bool)>) -> !
    requires l0.0.len() == 0, quiet(old(log).s(), 0), if l0.1 { busy_shared(old(log).s()) } else { busy_excl(old(log).s()) } { unimplemented!() }
pub struct AtomicRefCell<T> { pub val: UnsafeCell<T>, pub state: AtomicUsize }
pub struct Ref<'a, T> { pub val: Shared<T>, pub count: &'a AtomicUsize }
pub struct RefMut<'a, T> { pub val: Excl<T>, pub count: &'a AtomicUsize }
impl<T> AtomicRefCell<T> {
//@fn parasol_concurrency/src/lib.rs :: AtomicRefCell::new
    ensures ret.state.init() == 1
//@end
//@fn parasol_concurrency/src/lib.rs :: AtomicRefCell::borrow
//@sig fn borrow(&self, log: &mut Log) -> (ret: Ref<'_, T>)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && grant_shared(final(log).s()[i]), ret.count == &self.state
//@at start
    let ghost l0 = (log.s(), true);
//@at end-bind
    proof { let l = log.s(); let i = if grant_shared(l[l.len() - 1]) { l.len() - 1 } else { choose|i: int| 0 <= i < l.len() && grant_shared(#[trigger] l[i]) }; assert(only(l, 0, i)); }
//@end
//@fn parasol_concurrency/src/lib.rs :: AtomicRefCell::borrow_mut
//@sig fn borrow_mut(&self, log: &mut Log) -> (ret: RefMut<'_, T>)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && grant_excl(final(log).s()[i]), ret.count == &self.state
//@at start
    let ghost l0 = (log.s(), false);
//@at end-bind
    proof { let l = log.s(); let i = if grant_excl(l[l.len() - 1]) { l.len() - 1 } else { choose|i: int| 0 <= i < l.len() && grant_excl(#[trigger] l[i]) }; assert(only(l, 0, i)); }
//@end
}
impl<'a, T> Ref<'a, T> {
//@fn parasol_concurrency/src/lib.rs :: <Drop for Ref>::drop
//@rename release
//@sig fn release(&mut self, log: &mut Log)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && release_shared(final(log).s()[i])
//@at end
    proof { assert(only(log.s(), 0, 0)); }
//@end
}
impl<'a, T> RefMut<'a, T> {
//@fn parasol_concurrency/src/lib.rs :: <Drop for RefMut>::drop
//@rename release
//@sig fn release(&mut self, log: &mut Log)
    requires old(log).s().len() == 0
    ensures exists|i: int| #[trigger] only(final(log).s(), 0, i) && release_excl(final(log).s()[i])
//@at end
    proof { assert(only(log.s(), 0, 0)); }
//@end
}
/// what a release does to every state it can meet while the guard it belongs to is alive
pub open spec fn release_shared(s: Step) -> bool { s.rel && (s.o >= 2 ==> s.n == s.o - 1) }
pub open spec fn release_excl(s: Step) -> bool { s.rel && (s.o == 0 ==> s.n == 1) }
// ---- every history of steps that follow these contracts keeps readers and the writer apart -----------------
pub struct World { pub state: int, pub readers: int, pub writers: int }
pub enum Ev { Shared(Step), Excl(Step), DropShared(Step), DropExcl(Step), Read(Step), ForgetGuard }
pub open spec fn inv(w: World) -> bool { w.readers >= 0 && ((w.writers == 1 && w.readers == 0 && w.state == 0) || (w.writers == 0 && w.state == w.readers + 1)) }
/// one atomic step of some thread, justified by the contract of the function it belongs to
pub open spec fn step(w: World, e: Ev, v: World) -> bool {
    match e {
        Ev::Shared(s) => grant_shared(s) && s.o == w.state && v == (World { state: s.n, readers: w.readers + 1, writers: w.writers }),
        Ev::Excl(s) => grant_excl(s) && s.o == w.state && v == (World { state: s.n, readers: w.readers, writers: w.writers + 1 }),
        Ev::DropShared(s) => w.readers >= 1 && release_shared(s) && s.o == w.state && v == (World { state: s.n, readers: w.readers - 1, writers: w.writers }),
        Ev::DropExcl(s) => w.writers >= 1 && release_excl(s) && s.o == w.state && v == (World { state: s.n, readers: w.readers, writers: w.writers - 1 }),
        Ev::Read(s) => s.o == s.n && s.o == w.state && v == w,
        Ev::ForgetGuard => v == w,
    }
}
pub open spec fn run(h: Seq<World>, e: Seq<Ev>) -> bool { h.len() == e.len() + 1 && h[0] == (World { state: 1, readers: 0, writers: 0 }) && forall|i: int| 0 <= i < e.len() ==> step(h[i], #[trigger] e[i], h[i + 1]) }
pub proof fn step_inv(w: World, e: Ev, v: World) requires inv(w), step(w, e, v) ensures inv(v) {}
pub proof fn no_aliasing(h: Seq<World>, e: Seq<Ev>, k: int)
    requires run(h, e), 0 <= k < h.len()
    ensures inv(h[k]), h[k].writers <= 1, h[k].writers == 1 ==> h[k].readers == 0,
        // all guards released: the state is the one an exclusive borrow takes, and no refusal is justified
        h[k].readers == 0 && h[k].writers == 0 ==> h[k].state == 1
    decreases k
{ if k > 0 { no_aliasing(h, e, k - 1); assert(step(h[k - 1], e[k - 1], h[k])); step_inv(h[k - 1], e[k - 1], h[k]); } }
} // verus!
fn main() {}
