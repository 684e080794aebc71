//@iter a a_at a_count
//@iter a_mut a_mut_at a_count
verus! {
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: add_glwe_ciphertexts
//@sub "let (c_a, c_b)" => "let (mut c_a, c_b)"
//@slice c_a chunk len
//@slice a_a chunk len
//@slice b_a chunk len
    requires params.ok(), old(c).wf(params), a.wf(params), b.wf(params)
    ensures final(c).wf(params), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == wadd(a.data@[x].0, b.data@[x].0)
//@at start
    let ghost c0 = c.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fc = final(c_a.data)@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, c0.len() == nk + n, c_a.stride == n, c_a.data@.len() == nk, fc == final(c_a.data)@, a_a.stride == n, a_a.data@ == a.data@.subrange(0, nk), a.data@.len() == nk + n, b_a.stride == n, b_a.data@ == b.data@.subrange(0, nk), b.data@.len() == nk + n,
        forall|x: int| 0 <= x < nk ==> (#[trigger] c_a.data@[x]).0 == if x < __i0 * n { wadd(a.data@[x].0, b.data@[x].0) } else { c0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k);  }
//@at end
    let ghost (ca, cb) = (c_a.data@, c_b.data@);
    proof { assert(c.data@ =~= ca + cb); assert forall|x: int| 0 <= x < nk + n implies (#[trigger] c.data@[x]).0 == wadd(a.data@[x].0, b.data@[x].0) by { if x >= nk { assert(cb[x - nk].0 == wadd(a.data@[x].0, b.data@[x].0)); } else { assert(ca[x].0 == wadd(a.data@[x].0, b.data@[x].0)); } } }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: sub_glwe_ciphertexts
//@sub "let (c_a, c_b)" => "let (mut c_a, c_b)"
//@slice c_a chunk len
//@slice a_a chunk len
//@slice b_a chunk len
    requires params.ok(), old(c).wf(params), a.wf(params), b.wf(params)
    ensures final(c).wf(params), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == wsub(a.data@[x].0, b.data@[x].0)
//@at start
    let ghost c0 = c.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fc = final(c_a.data)@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, c0.len() == nk + n, c_a.stride == n, c_a.data@.len() == nk, fc == final(c_a.data)@, a_a.stride == n, a_a.data@ == a.data@.subrange(0, nk), a.data@.len() == nk + n, b_a.stride == n, b_a.data@ == b.data@.subrange(0, nk), b.data@.len() == nk + n,
        forall|x: int| 0 <= x < nk ==> (#[trigger] c_a.data@[x]).0 == if x < __i0 * n { wsub(a.data@[x].0, b.data@[x].0) } else { c0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k);  }
//@at end
    let ghost (ca, cb) = (c_a.data@, c_b.data@);
    proof { assert(c.data@ =~= ca + cb); assert forall|x: int| 0 <= x < nk + n implies (#[trigger] c.data@[x]).0 == wsub(a.data@[x].0, b.data@[x].0) by { if x >= nk { assert(cb[x - nk].0 == wsub(a.data@[x].0, b.data@[x].0)); } else { assert(ca[x].0 == wsub(a.data@[x].0, b.data@[x].0)); } } }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_scalar_mad
//@sub "b.into()" => "Torus::from(b)"
    requires params.ok(), old(c).wf(params), a.wf(params)
    ensures final(c).wf(params), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == wadd(old(c).data@[x].0, wmul(a.data@[x].0, b))
//@at start
    let ghost c0 = c.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, c0.len() == nk + n, __e0_0.data@.len() == nk + n, fo == final(__e0_0).data@, a.wf(params), __e0_1.data@ == a.data@, a.wf(params),
        forall|x: int| 0 <= x < nk + n ==> (#[trigger] __e0_0.data@[x]).0 == if x < __i0 * n { wadd(c0[x].0, wmul(a.data@[x].0, b)) } else { c0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_polynomial_mad
//@sub "let (c_a, c_b)" => "let (mut c_a, c_b)"
//@slice c_a chunk len
//@slice a_a chunk len
    requires params.ok(), old(c).wf(params), a.wf(params), b.data@.len() == params.n(), ispow2(params.n()), 2 * params.n() <= usize::MAX
    ensures final(c).wf(params), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == md(old(c).data@[x].0 + conv(comp(a.data@, x / params.n(), params.n()), b.data@, x % params.n()))
//@at start
    let ghost c0 = c.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fc = final(c_a.data)@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, c0.len() == nk + n, c_a.stride == n, c_a.data@.len() == nk, fc == final(c_a.data)@, a_a.stride == n, a_a.data@ == a.data@.subrange(0, nk), a.data@.len() == nk + n, b.data@.len() == n, ispow2(n), 2 * n <= usize::MAX,
        forall|x: int| 0 <= x < nk ==> (#[trigger] c_a.data@[x]).0 == if x < __i0 * n { md(c0[x].0 + conv(comp(a.data@, x / n, n), b.data@, x % n)) } else { c0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
    let ghost p0 = c_a.data@; let ghost oa = a.data@;
//@at start 0
    let ghost (ca0, aa) = (c.data@, a.data@);
//@at end 0
    proof { let j = __j0 as int; assert(aa =~= comp(oa, j, n)); 
        assert forall|x: int| 0 <= x < nk implies (#[trigger] c_a.data@[x]).0 == if x < __i0 * n { md(c0[x].0 + conv(comp(oa, x / n, n), b.data@, x % n)) } else { c0[x].0 } by { if j * n <= x < j * n + n { comp_ix(x, n, j); assert(ca0[x - j * n] == p0[x]); } else { assert(c_a.data@[x] == p0[x]); } } }
//@at end
    let ghost (ca, cb) = (c_a.data@, c_b.data@);
    proof { assert(c.data@ =~= ca + cb); assert(comp(a.data@, k, n) =~= a.data@.subrange(nk, nk + n)) by { assert((k + 1) * n == nk + n) by (nonlinear_arith) requires nk == n * k; }
        assert forall|x: int| 0 <= x < nk + n implies (#[trigger] c.data@[x]).0 == md(c0[x].0 + conv(comp(a.data@, x / n, n), b.data@, x % n)) by { if x >= nk { comp_ix(x, n, k); assert(cb[x - nk].0 == c.data@[x].0); } else { assert(ca[x] == c.data@[x]); } } }
//@end
} // verus!
