verus! {
// ---- atomics: every operation is one step (old value, new value) of the cell it works on, with the memory ordering the
// caller asked for.  The value a step finds is arbitrary: any number of steps of other threads may have happened before.
#[derive(Clone, Copy)] pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
pub open spec fn acq(o: Ordering) -> bool { o is Acquire || o is AcqRel || o is SeqCst }
pub open spec fn rel(o: Ordering) -> bool { o is Release || o is AcqRel || o is SeqCst }
pub struct Step { pub o: int, pub n: int, pub acq: bool, pub rel: bool }
#[verifier::external_body] pub struct Log { x: u8 }
impl Log { pub uninterp spec fn s(&self) -> Seq<Step>; }
/// the steps from index k on that are not pure reads: none
pub open spec fn quiet(l: Seq<Step>, k: int) -> bool { forall|i: int| k <= i < l.len() ==> (#[trigger] l[i]).o == l[i].n }
/// step i is the only one from k on that may change anything
pub open spec fn only(l: Seq<Step>, k: int, i: int) -> bool { k <= i < l.len() && forall|j: int| k <= j < l.len() && j != i ==> (#[trigger] l[j]).o == l[j].n }
/// `b` extends the log `a`
pub open spec fn ext(a: Seq<Step>, b: Seq<Step>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }
macro_rules! atomic { ($name:ident, $v:ty, $int:ident) => { verus! {
#[verifier::external_body] pub struct $name { x: u8 }
impl $name {
    /// the value it was created with
    pub uninterp spec fn init(&self) -> $v;
    #[verifier::external_body] pub fn new(v: $v) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, log: &mut Log, e: $v, n: $v, so: Ordering, fo: Ordering) -> (r: Result<$v, $v>)
        ensures match r { Ok(v) => v == e && final(log).s() == old(log).s().push(Step { o: $int(e), n: $int(n), acq: acq(so), rel: rel(so) }), Err(v) => v != e && final(log).s() == old(log).s().push(Step { o: $int(v), n: $int(v), acq: acq(fo), rel: false }) } { unimplemented!() }
    /// may fail although the value was the expected one
    #[verifier::external_body] pub fn compare_exchange_weak(&self, log: &mut Log, e: $v, n: $v, so: Ordering, fo: Ordering) -> (r: Result<$v, $v>)
        ensures match r { Ok(v) => v == e && final(log).s() == old(log).s().push(Step { o: $int(e), n: $int(n), acq: acq(so), rel: rel(so) }), Err(v) => final(log).s() == old(log).s().push(Step { o: $int(v), n: $int(v), acq: acq(fo), rel: false }) } { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, log: &mut Log, o: Ordering) -> (r: $v) ensures final(log).s() == old(log).s().push(Step { o: $int(r), n: $int(r), acq: acq(o), rel: false }) { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, log: &mut Log, n: $v, o: Ordering) -> (r: $v) ensures final(log).s() == old(log).s().push(Step { o: $int(r), n: $int(n), acq: acq(o), rel: rel(o) }) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, log: &mut Log, n: $v, o: Ordering) ensures exists|v: $v| #[trigger] final(log).s() == old(log).s().push(Step { o: $int(v), n: $int(n), acq: false, rel: rel(o) }) { unimplemented!() }
    /// first half of fetch_update: the value found
    #[verifier::external_body] pub fn upd_read(&self, log: &mut Log, fo: Ordering) -> (r: $v) ensures final(log).s() == old(log).s().push(Step { o: $int(r), n: $int(r), acq: acq(fo), rel: false }) { unimplemented!() }
    /// second half: the step happens only where the value is still the one that was read
    #[verifier::external_body] pub fn upd_commit(&self, log: &mut Log, v: $v, n: $v, so: Ordering) ensures final(log).s() == old(log).s().push(Step { o: $int(v), n: $int(n), acq: acq(so), rel: rel(so) }) { unimplemented!() }
}
} } }
pub open spec fn u2i(v: usize) -> int { v as int }
pub open spec fn b2i(v: bool) -> int { if v { 1 } else { 0 } }
pub open spec fn wrap(v: int) -> int { if v > usize::MAX { v - usize::MAX - 1 } else if v < 0 { v + usize::MAX + 1 } else { v } }
} // verus!
atomic!(AtomicUsize, usize, u2i);
atomic!(AtomicBool, bool, b2i);
verus! {
impl AtomicUsize {
    #[verifier::external_body] pub fn fetch_add(&self, log: &mut Log, k: usize, o: Ordering) -> (r: usize) ensures final(log).s() == old(log).s().push(Step { o: r as int, n: wrap(r + k), acq: acq(o), rel: rel(o) }) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, log: &mut Log, k: usize, o: Ordering) -> (r: usize) ensures final(log).s() == old(log).s().push(Step { o: r as int, n: wrap(r - k), acq: acq(o), rel: rel(o) }) { unimplemented!() }
}
// ---- the guarded value: only reachable through a grant ----------------------------------------------
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct UnsafeCell<T> { x: T }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct CellPtr<T> { x: *mut T }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Shared<T> { x: *mut T }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Excl<T> { x: *mut T }
impl<T> UnsafeCell<T> { #[verifier::external_body] pub fn new(v: T) -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn get(&self) -> (r: CellPtr<T>) { unimplemented!() } }
impl<T> CellPtr<T> {
    #[verifier::external_body] pub fn as_ref(self, log: &mut Log) -> (r: Option<Shared<T>>) requires shared_ok(old(log).s()) ensures r is Some, final(log).s() == old(log).s() { unimplemented!() }
    #[verifier::external_body] pub fn as_mut(self, log: &mut Log) -> (r: Option<Excl<T>>) requires excl_ok(old(log).s()) ensures r is Some, final(log).s() == old(log).s() { unimplemented!() }
}
} // verus!
