//@include bits.rs
// Boolean functions as the circuit builders see them: a Bdd denotes a function of the input assignment (biodivine_lib_bdd, trusted);
// a MuxCircuit built from Bdds computes them, output k the k-th (MuxCircuit::from and optimize, trusted here and evaluated natively).
verus! {
#[verifier::external_body] pub struct Bdd { x: u64 }
#[derive(Copy, Clone)] #[verifier::external_body] pub struct BddVariable { x: u16 }
#[verifier::external_body] pub struct BddVariableSet { x: u16 }
#[verifier::external_body] pub struct MuxCircuit { x: u64 }
impl BddVariable { pub uninterp spec fn idx(&self) -> nat; }
impl Bdd {
    /// the value under an assignment of all variables, and how many variables there are
    pub uninterp spec fn ev(&self, e: Seq<bool>) -> bool;
    pub uninterp spec fn nv(&self) -> nat;
    #[verifier::external_body] pub fn and(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (self.ev(e) && o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn or(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (self.ev(e) || o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn xor(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (self.ev(e) != o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn imp(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (!self.ev(e) || o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn iff(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (self.ev(e) == o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn and_not(&self, o: &Bdd) -> (r: Bdd) requires self.nv() == o.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (self.ev(e) && !o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn not(&self) -> (r: Bdd) ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == !self.ev(e) { unimplemented!() }
    #[verifier::external_body] pub fn if_then_else(c: &Bdd, a: &Bdd, b: &Bdd) -> (r: Bdd) requires c.nv() == a.nv() == b.nv() ensures r.nv() == c.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (if c.ev(e) { a.ev(e) } else { b.ev(e) }) { unimplemented!() }
}
impl Clone for Bdd { #[verifier::external_body] fn clone(&self) -> (r: Bdd) ensures r == *self { unimplemented!() } }
impl BddVariableSet {
    pub uninterp spec fn nv(&self) -> nat;
    #[verifier::external_body] pub fn new_anonymous(n: u16) -> (r: BddVariableSet) requires n < u16::MAX ensures r.nv() == n { unimplemented!() }
    #[verifier::external_body] pub fn variables(&self) -> (r: Vec<BddVariable>) ensures r@.len() == self.nv(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).idx() == i { unimplemented!() }
    #[verifier::external_body] pub fn mk_var(&self, v: BddVariable) -> (r: Bdd) requires v.idx() < self.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| e.len() == self.nv() ==> #[trigger] r.ev(e) == e[v.idx() as int] { unimplemented!() }
    #[verifier::external_body] pub fn mk_not_var(&self, v: BddVariable) -> (r: Bdd) requires v.idx() < self.nv() ensures r.nv() == self.nv(), forall|e: Seq<bool>| e.len() == self.nv() ==> #[trigger] r.ev(e) == !e[v.idx() as int] { unimplemented!() }
    #[verifier::external_body] pub fn mk_true(&self) -> (r: Bdd) ensures r.nv() == self.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) { unimplemented!() }
    #[verifier::external_body] pub fn mk_false(&self) -> (r: Bdd) ensures r.nv() == self.nv(), forall|e: Seq<bool>| !#[trigger] r.ev(e) { unimplemented!() }
}
impl MuxCircuit {
    pub uninterp spec fn nin(&self) -> nat;
    pub uninterp spec fn nout(&self) -> nat;
    /// output k under the input assignment e
    pub uninterp spec fn out(&self, k: int, e: Seq<bool>) -> bool;
    #[verifier::external_body] pub fn from(s: &[Bdd]) -> (r: MuxCircuit)
        requires s@.len() > 0, forall|k: int| 0 <= k < s@.len() ==> (#[trigger] s@[k]).nv() == s@[0].nv()
        ensures r.nin() == s@[0].nv(), r.nout() == s@.len(), forall|k: int, e: Seq<bool>| 0 <= k < s@.len() ==> #[trigger] r.out(k, e) == s@[k].ev(e) { unimplemented!() }
    #[verifier::external_body] pub fn optimize(&mut self)
        ensures final(self).nin() == old(self).nin(), final(self).nout() == old(self).nout(), forall|k: int, e: Seq<bool>| #[trigger] final(self).out(k, e) == old(self).out(k, e) { unimplemented!() }
}
// ---- numbers from bits -------------------------------------------------------------------------
/// the number whose bits, least significant first, are f(0), .., f(n-1)
pub proof fn val_ext(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, n: nat) requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k) ensures val(f, n) == val(g, n) decreases n { if n > 0 { val_ext(f, g, (n - 1) as nat); } }
pub proof fn val_lt(f: spec_fn(int) -> bool, n: nat) ensures val(f, n) < p2(n) decreases n { if n > 0 { val_lt(f, (n - 1) as nat); } }
/// the bits of a sequence of Boolean functions under e
pub open spec fn sb(s: Seq<Bdd>, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| s[k].ev(e) }
pub open spec fn ob(c: &MuxCircuit, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| c.out(k, e) }
/// the input variables in order
pub open spec fn isvars(v: Seq<Bdd>, n: nat) -> bool { v.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).nv() == n) && forall|i: int, e: Seq<bool>| 0 <= i < n && e.len() == n ==> #[trigger] v[i].ev(e) == e[i] }
} // verus!
