//! Shared construction of symbolic entities.
pub use nd::*;
pub use sunscreen_tfhe::entities::*;
pub use sunscreen_tfhe::math::polynomial::*;
pub use sunscreen_tfhe::ops;
pub use sunscreen_tfhe::rand::Stddev;
pub use sunscreen_tfhe::verif_hooks::{self as vh, VectorOps};
pub use sunscreen_tfhe::*;

pub type T = Torus<u64>;
pub fn t(x: u64) -> T { Torus::from(x) }

// Stand-ins for the CPU feature queries (Kani stubs).
#[allow(dead_code)]
pub fn no() -> bool { false }
#[allow(dead_code)]
pub fn yes() -> bool { true }
/// Select the portable kernels in a native run (Kani harnesses stub the feature queries instead).
pub fn portable() { vh::set_scalar_only(true) }
/// Select whatever the host CPU offers.
pub fn host() { vh::set_scalar_only(false) }

/// Reference implementation of `core::slice::rotate::ptr_rotate` without pointer arithmetic tricks.
#[allow(dead_code)]
pub unsafe fn rot<X>(left: usize, mid: *mut X, right: usize) {
    unsafe {
        let base = mid.sub(left);
        let n = left + right;
        rev(base, 0, left);
        rev(base, left, n);
        rev(base, 0, n);
    }
}
unsafe fn rev<X>(p: *mut X, mut lo: usize, mut hi: usize) {
    unsafe {
        while lo + 1 < hi {
            hi -= 1;
            let a = std::ptr::read(p.add(lo));
            let b = std::ptr::read(p.add(hi));
            std::ptr::write(p.add(lo), b);
            std::ptr::write(p.add(hi), a);
            lo += 1;
        }
    }
}

/// 64-byte aligned buffer so that overlays have the alignment `AVec` gives them in the library.
pub fn tv(n: usize) -> Vec<T> { let mut v = vec![t(0); n]; for i in 0..n { v[i] = t(any_u64()); } v }
pub fn uv(n: usize) -> Vec<u64> { let mut v = vec![0u64; n]; for i in 0..n { v[i] = any_u64(); } v }
pub fn uv32(n: usize) -> Vec<u32> { let mut v = vec![0u32; n]; for i in 0..n { v[i] = any_u32(); } v }
pub fn tv32(n: usize) -> Vec<Torus<u32>> { let mut v = vec![Torus::from(0u32); n]; for i in 0..n { v[i] = Torus::from(any_u32()); } v }
pub fn bits(n: usize) -> Vec<u64> { let mut v = vec![0u64; n]; for i in 0..n { v[i] = any_bool() as u64; } v }

pub fn pr<X: Clone>(s: &[X]) -> &PolynomialRef<X> { unsafe { &*(s as *const [X] as *const PolynomialRef<X>) } }
pub fn prm<X: Clone>(s: &mut [X]) -> &mut PolynomialRef<X> { unsafe { &mut *(s as *mut [X] as *mut PolynomialRef<X>) } }
macro_rules! overlay {
    ($f:ident, $fm:ident, $r:ident, $e:ty) => {
        pub fn $f(s: &[$e]) -> &$r<u64> { unsafe { &*(s as *const [$e] as *const $r<u64>) } }
        pub fn $fm(s: &mut [$e]) -> &mut $r<u64> { unsafe { &mut *(s as *mut [$e] as *mut $r<u64>) } }
    };
}
overlay!(lwe, lwe_m, LweCiphertextRef, T);
overlay!(glwe, glwe_m, GlweCiphertextRef, T);
overlay!(glev, glev_m, GlevCiphertextRef, T);
overlay!(lev, lev_m, LevCiphertextRef, T);
overlay!(ggsw, ggsw_m, GgswCiphertextRef, T);
overlay!(lksk, lksk_m, LweKeyswitchKeyRef, T);
overlay!(gksk, gksk_m, GlweKeyswitchKeyRef, T);
overlay!(lwe_sk, lwe_sk_m, LweSecretKeyRef, u64);
overlay!(glwe_sk, glwe_sk_m, GlweSecretKeyRef, u64);

pub fn ldef(dim: usize) -> LweDef { LweDef { dim: LweDimension(dim), std: Stddev(0.0) } }
pub fn gdef(size: usize, n: usize) -> GlweDef { GlweDef { dim: GlweDimension { size: GlweSize(size), polynomial_degree: PolynomialDegree(n) }, std: Stddev(0.0) } }
pub fn radix(log: usize, count: usize) -> RadixDecomposition { RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) } }

/// Coefficient `i` of `a * b mod (X^N + 1)`.
pub fn neg_conv(a: &[T], b: &[u64], i: usize) -> u64 {
    let n = a.len();
    let mut w = 0u64;
    for x in 0..n {
        for y in 0..n {
            let p = a[x].inner().wrapping_mul(b[y]);
            if x + y == i { w = w.wrapping_add(p) } else if x + y == i + n { w = w.wrapping_sub(p) }
        }
    }
    w
}
/// Coefficient `i` of the GLWE phase `b - sum a_j s_j`.
pub fn glwe_phase(ct: &[T], sk: &[u64], k: usize, n: usize, i: usize) -> u64 {
    let mut w = ct[k * n + i].inner();
    for j in 0..k { w = w.wrapping_sub(neg_conv(&ct[j * n..(j + 1) * n], &sk[j * n..(j + 1) * n], i)); }
    w
}
pub fn lwe_phase(ct: &[T], sk: &[u64]) -> u64 {
    let n = sk.len();
    let mut w = ct[n].inner();
    for j in 0..n { w = w.wrapping_sub(ct[j].inner().wrapping_mul(sk[j])); }
    w
}
/// Distance of `x` from 0 on the torus.
pub fn tdist(x: u64) -> u64 { if (x as i64) < 0 { x.wrapping_neg() } else { x } }
pub fn pbits(n: usize) -> PlaintextBits { PlaintextBits(n as u32) }
/// A scratch buffer with arbitrary stale contents (what a recycled buffer may hold).
#[allow(dead_code)]
pub fn dirty_scratch<X: vh::Pod>(count: usize) -> vh::ScratchBuffer<'static, X> {
    let mut b = vh::verif_fresh_scratch::<X>(count);
    let s = b.as_mut_slice();
    let words = std::mem::size_of_val(s) / 8;
    let p = s.as_mut_ptr() as *mut u64;
    for i in 0..words { unsafe { *p.add(i) = any_u64() } }
    b
}
/// Digits of `x` in the order the gadget product consumes them: index j pairs with gadget row j.
pub fn digits(x: T, r: &RadixDecomposition) -> Vec<u64> {
    let mut v: Vec<u64> = sunscreen_tfhe::math::radix::ScalarRadixIterator::new(x, r).collect();
    v.reverse();
    v
}
pub fn slice_of(n: usize, v: &[T], i: usize) -> &[T] { &v[i * n..(i + 1) * n] }
/// sum_j digit_j(poly)[.] * glev_j as a flat GLWE (k+1)*n vector added into `acc`.
pub fn gadget(acc: &mut [u64], poly: &[T], glev: &[T], k: usize, n: usize, r: &RadixDecomposition) {
    let s = (k + 1) * n;
    let d: Vec<Vec<u64>> = poly.iter().map(|x| digits(*x, r)).collect();
    for j in 0..r.count.0 {
        let dj: Vec<u64> = (0..n).map(|i| d[i][j]).collect();
        for c in 0..=k { let row = &glev[j * s + c * n..j * s + (c + 1) * n]; for i in 0..n { acc[c * n + i] = acc[c * n + i].wrapping_add(neg_conv(row, &dj, i)); } }
    }
}
