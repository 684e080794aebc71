//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/glweops.rs
verus! {
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_add_assign
//@sub "let (c_a, c_b)" => "let (mut c_a, c_b)"
//@slice c_a chunk len
//@slice a_a chunk len
    requires params.ok(), old(c).wf(params), a.wf(params)
    ensures final(c).wf(params), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == wadd(old(c).data@[x].0, a.data@[x].0)
//@at start
    let ghost c0 = c.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fc = final(c_a.data)@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, c0.len() == nk + n, c_a.stride == n, c_a.data@.len() == nk, fc == final(c_a.data)@, a_a.stride == n, a_a.data@ == a.data@.subrange(0, nk), a.data@.len() == nk + n,
        forall|x: int| 0 <= x < nk ==> (#[trigger] c_a.data@[x]).0 == if x < __i0 * n { wadd(c0[x].0, a.data@[x].0) } else { c0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k);  }
//@at end
    let ghost (ca, cb) = (c_a.data@, c_b.data@);
    proof { assert(c.data@ =~= ca + cb); assert forall|x: int| 0 <= x < nk + n implies (#[trigger] c.data@[x]).0 == wadd(c0[x].0, a.data@[x].0) by { if x >= nk { assert(cb[x - nk].0 == wadd(c0[x].0, a.data@[x].0)); } else { assert(ca[x].0 == wadd(c0[x].0, a.data@[x].0)); } } }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_negate_inplace
    requires params.ok(), old(ct).wf(params)
    ensures final(ct).wf(params), forall|x: int| 0 <= x < old(ct).data@.len() ==> (#[trigger] final(ct).data@[x]).0 == wneg(old(ct).data@[x].0)
//@at start
    let ghost ct0 = ct.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, ct0.len() == nk + n, __e0_0.data@.len() == nk + n, fo == final(__e0_0).data@,
        forall|x: int| 0 <= x < nk + n ==> (#[trigger] __e0_0.data@[x]).0 == if x < __i0 * n { wneg(ct0[x].0) } else { ct0[x].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_mod_switch_and_expand_pow_2
    requires glwe.ok(), old(y).wf(glwe), x.wf(glwe), 1 <= log_q_prime < WBITS
    ensures final(y).wf(glwe), forall|q: int| 0 <= q < old(y).data@.len() ==> (#[trigger] final(y).data@[q]).0 == shr_rnd(x.data@[q].0, log_q_prime)
//@at start
    let ghost y0 = y.data@; let ghost (n, k) = (glwe.n(), glwe.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant glwe.ok(), n == glwe.n(), k == glwe.k(), nk == n * k, __n0 == k, __i0 <= __n0, y0.len() == nk + n, __e0_0.data@.len() == nk + n, fo == final(__e0_0).data@, x.wf(glwe), 1 <= log_q_prime < WBITS, __e0_1.data@ == x.data@, x.wf(glwe),
        forall|q: int| 0 <= q < nk + n ==> (#[trigger] __e0_0.data@[q]).0 == if q < __i0 * n { shr_rnd(x.data@[q].0, log_q_prime) } else { y0[q].0 }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_rotate
//@presub "x.b(glwe).coeffs()" => "x.b(glwe).coeffs().iter()"
    requires glwe.ok(), old(y).wf(glwe), x.wf(glwe)
    ensures final(y).wf(glwe), forall|q: int| 0 <= q < old(y).data@.len() ==> (#[trigger] final(y).data@[q]).0 == if q < glwe.n() * glwe.k() { x.data@[q].0 } else { wadd(x.data@[q].0, rotation.0) }
//@at start
    let ghost y0 = y.data@; let ghost (n, k) = (glwe.n(), glwe.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant glwe.ok(), n == glwe.n(), k == glwe.k(), nk == n * k, __n0 == k, __i0 <= __n0, y0.len() == nk + n, __e0_0.data@.len() == nk + n, fo == final(__e0_0).data@, x.wf(glwe), __e0_1.data@ == x.data@,
        forall|q: int| 0 <= q < nk + n ==> (#[trigger] __e0_0.data@[q]) == if q < __i0 * n { x.data@[q] } else { y0[q] }
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
//@at after 0
    let ghost y1 = y.data@;
//@at init 1
    let ghost fs = final(__s1_0)@;
//@at loop 1
    invariant __n1 == n, __i1 <= __n1, __s1_0@.len() == n, __s1_1@ == x.data@.subrange(nk, nk + n), x.data@.len() == nk + n, nk >= 0, fs == final(__s1_0)@,
        forall|q: int| 0 <= q < __i1 ==> (#[trigger] __s1_0@[q]).0 == wadd(x.data@[nk + q].0, rotation.0)
    decreases __n1 - __i1
//@at end
    proof { assert forall|q: int| 0 <= q < nk + n implies (#[trigger] y.data@[q]).0 == if q < nk { x.data@[q].0 } else { wadd(x.data@[q].0, rotation.0) } by { if q >= nk { assert(fs[q - nk].0 == wadd(x.data@[nk + (q - nk)].0, rotation.0)); } else { assert(y1[q] == x.data@[q]); } } }
//@end
//@fn sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs :: rotate_glwe_monomial_negacyclic
//@presub "let output_all_coefficients = output_a.chain(std::iter::once(output_b));" => ""
//@presub "let ct_all_coefficients = ct_a.chain(std::iter::once(ct_b));" => ""
//@presub "output_all_coefficients.zip(ct_all_coefficients)" => "output_a.chain(std::iter::once(output_b)).zip(ct_a.chain(std::iter::once(ct_b)))"
//@sub "let (output_a, output_b)" => "let (mut output_a, output_b)"
//@slice output_a chunk len
//@slice ct_a chunk len
//@slice output_b mut
    requires params.ok(), old(output).wf(params), ct.wf(params), 2 * params.n() <= usize::MAX
    ensures final(output).wf(params), forall|x: int| 0 <= x < old(output).data@.len() ==> (#[trigger] final(output).data@[x]).0 == ext(comp(ct.data@, x / params.n(), params.n()), x % params.n() - rotation)
//@at start
    let ghost c0 = output.data@; let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); assert(k + 1 <= n * (k + 1)) by (nonlinear_arith) requires n >= 1, k >= 0; }
//@at init 0
    let ghost (fa, fb) = (final(output_a.data)@, final(__o0_1).data@);
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, nk == k * n, nk >= 0, __n0 == k + 1, __i0 <= __n0, output_a.stride == n, output_a.data@.len() == nk, fa == final(output_a.data)@, __o0_1.data@.len() == n, fb == final(__o0_1).data@, ct_a.stride == n, ct_a.data@ == ct.data@.subrange(0, nk), __o0_3.data@ == ct.data@.subrange(nk, nk + n), ct.data@.len() == nk + n, 2 * n <= usize::MAX,
        nk % n == 0, nk / n == k,
        forall|x: int| 0 <= x < nk && x < __i0 * n ==> (#[trigger] output_a.data@[x]).0 == ext(comp(ct.data@, x / n, n), x % n - rotation),
        __i0 == k + 1 ==> forall|x: int| 0 <= x < n ==> (#[trigger] __o0_1.data@[x]).0 == ext(comp(ct.data@, k, n), x - rotation)
    decreases __n0 - __i0
//@at first 0
    proof { if __j0 < k { chunk_bounds(__j0 as int, n, k); } assert((k + 1) * n == nk + n) by (nonlinear_arith) requires nk == n * k; }
    let ghost p0 = output_a.data@;
//@at start 0
    let ghost aa = a.data@;
    proof { assert(aa =~= comp(ct.data@, __j0 as int, n)); }
//@at end 0
    proof { let j = __j0 as int; assert((j + 1) * n == j * n + n) by (nonlinear_arith);
        assert forall|x: int| 0 <= x < nk && x < __i0 * n implies (#[trigger] output_a.data@[x]).0 == ext(comp(ct.data@, x / n, n), x % n - rotation) by { if j * n <= x { comp_ix(x, n, j); } else { assert(output_a.data@[x] == p0[x]); } } }
//@at end
    let ghost (ca, cb) = (fa, fb);
    proof { assert(output.data@ =~= ca + cb); assert((k + 1) * n == nk + n) by (nonlinear_arith) requires nk == n * k; assert(__i0 == k + 1);
        assert forall|x: int| 0 <= x < nk + n implies (#[trigger] output.data@[x]).0 == ext(comp(ct.data@, x / n, n), x % n - rotation) by { if x >= nk { comp_ix(x, n, k); assert(cb[x - nk].0 == output.data@[x].0); } else { assert(ca[x] == output.data@[x]); } } }
//@end
//@fn sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs :: rotate_glwe_negative_monomial_negacyclic
    requires params.ok(), old(output).wf(params), ct.wf(params), 2 * params.n() <= usize::MAX, rotation <= isize::MAX
    ensures final(output).wf(params), forall|x: int| 0 <= x < old(output).data@.len() ==> (#[trigger] final(output).data@[x]).0 == ext(comp(ct.data@, x / params.n(), params.n()), x % params.n() + rotation)
//@end
//@fn sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs :: rotate_glwe_positive_monomial_negacyclic
    requires params.ok(), old(output).wf(params), ct.wf(params), 2 * params.n() <= usize::MAX, rotation <= isize::MAX
    ensures final(output).wf(params), forall|x: int| 0 <= x < old(output).data@.len() ==> (#[trigger] final(output).data@[x]).0 == ext(comp(ct.data@, x / params.n(), params.n()), x % params.n() - rotation)
//@end
} // verus!
fn main() {}
