// generated by verus/gen/t13.py
verus! {
#[derive(Copy, Clone)] pub struct PolynomialDegree(pub usize);
#[derive(Copy, Clone)] pub struct GlweSize(pub usize);
#[derive(Copy, Clone)] pub struct LweDimension(pub usize);
#[derive(Copy, Clone)] pub struct RadixCount(pub usize);
#[derive(Copy, Clone)] pub struct RadixLog(pub usize);
#[derive(Copy, Clone)] pub struct PrivateFunctionalKeyswitchLweCount(pub usize);
#[derive(Copy, Clone)] pub struct GlweDimension { pub polynomial_degree: PolynomialDegree, pub size: GlweSize }
pub struct GlweDef { pub dim: GlweDimension }
pub struct LweDef { pub dim: LweDimension }
pub struct RadixDecomposition { pub count: RadixCount, pub radix_log: RadixLog }
pub struct Torus<S>(pub S);
pub struct Complex<T> { pub re: T, pub im: T }
pub open spec fn lg(n: int) -> int { vstd::arithmetic::logarithm::log(2, n) }
pub open spec fn tri(n: int) -> int { (n * (n + 1)) / 2 }
pub type PolynomialIterator<'a, T> = ComponentIterator<'a, T>; pub type PolynomialIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelPolynomialIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelPolynomialIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> PolynomialRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct PolynomialFftRef<T> { pub data: [T] }
pub type PolynomialFftIterator<'a, T> = ComponentIterator<'a, T>; pub type PolynomialFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelPolynomialFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelPolynomialFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> PolynomialFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LweSecretKeyRef<T> { pub data: [T] }
pub type LweSecretKeyIterator<'a, T> = ComponentIterator<'a, T>; pub type LweSecretKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelLweSecretKeyIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelLweSecretKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> LweSecretKeyRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LweCiphertextRef<T> { pub data: [Torus<T>] }
pub type LweCiphertextIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type LweCiphertextIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelLweCiphertextIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelLweCiphertextIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> LweCiphertextRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweSecretKeyRef<T> { pub data: [T] }
pub type GlweSecretKeyIterator<'a, T> = ComponentIterator<'a, T>; pub type GlweSecretKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelGlweSecretKeyIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelGlweSecretKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> GlweSecretKeyRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweCiphertextRef<T> { pub data: [Torus<T>] }
pub type GlweCiphertextIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type GlweCiphertextIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelGlweCiphertextIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelGlweCiphertextIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> GlweCiphertextRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweCiphertextFftRef<T> { pub data: [T] }
pub type GlweCiphertextFftIterator<'a, T> = ComponentIterator<'a, T>; pub type GlweCiphertextFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelGlweCiphertextFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelGlweCiphertextFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> GlweCiphertextFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct PolynomialListRef<T> { pub data: [T] }
pub type PolynomialListIterator<'a, T> = ComponentIterator<'a, T>; pub type PolynomialListIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelPolynomialListIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelPolynomialListIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> PolynomialListRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LweCiphertextListRef<T> { pub data: [Torus<T>] }
pub type LweCiphertextListIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type LweCiphertextListIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelLweCiphertextListIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelLweCiphertextListIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> LweCiphertextListRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweCiphertextListRef<T> { pub data: [Torus<T>] }
pub type GlweCiphertextListIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type GlweCiphertextListIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelGlweCiphertextListIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelGlweCiphertextListIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> GlweCiphertextListRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LevCiphertextRef<T> { pub data: [Torus<T>] }
pub type LevCiphertextIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type LevCiphertextIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelLevCiphertextIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelLevCiphertextIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> LevCiphertextRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlevCiphertextRef<T> { pub data: [Torus<T>] }
pub type GlevCiphertextIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type GlevCiphertextIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelGlevCiphertextIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelGlevCiphertextIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> GlevCiphertextRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlevCiphertextFftRef<T> { pub data: [T] }
pub type GlevCiphertextFftIterator<'a, T> = ComponentIterator<'a, T>; pub type GlevCiphertextFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelGlevCiphertextFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelGlevCiphertextFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> GlevCiphertextFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GgswCiphertextRef<T> { pub data: [Torus<T>] }
pub type GgswCiphertextIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type GgswCiphertextIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelGgswCiphertextIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelGgswCiphertextIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> GgswCiphertextRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GgswCiphertextFftRef<T> { pub data: [T] }
pub type GgswCiphertextFftIterator<'a, T> = ComponentIterator<'a, T>; pub type GgswCiphertextFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelGgswCiphertextFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelGgswCiphertextFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> GgswCiphertextFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweKeyswitchKeyRef<T> { pub data: [Torus<T>] }
pub type GlweKeyswitchKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type GlweKeyswitchKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelGlweKeyswitchKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelGlweKeyswitchKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> GlweKeyswitchKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct GlweKeyswitchKeyFftRef<T> { pub data: [T] }
pub type GlweKeyswitchKeyFftIterator<'a, T> = ComponentIterator<'a, T>; pub type GlweKeyswitchKeyFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelGlweKeyswitchKeyFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelGlweKeyswitchKeyFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> GlweKeyswitchKeyFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct AutomorphismKeyRef<T> { pub data: [Torus<T>] }
pub type AutomorphismKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type AutomorphismKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelAutomorphismKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelAutomorphismKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> AutomorphismKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct AutomorphismKeyFftRef<T> { pub data: [T] }
pub type AutomorphismKeyFftIterator<'a, T> = ComponentIterator<'a, T>; pub type AutomorphismKeyFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelAutomorphismKeyFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelAutomorphismKeyFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> AutomorphismKeyFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct BlindRotationShiftRef<T> { pub data: [Torus<T>] }
pub type BlindRotationShiftIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type BlindRotationShiftIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelBlindRotationShiftIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelBlindRotationShiftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> BlindRotationShiftRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct BlindRotationShiftFftRef<T> { pub data: [T] }
pub type BlindRotationShiftFftIterator<'a, T> = ComponentIterator<'a, T>; pub type BlindRotationShiftFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelBlindRotationShiftFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelBlindRotationShiftFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> BlindRotationShiftFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct BootstrapKeyRef<T> { pub data: [Torus<T>] }
pub type BootstrapKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type BootstrapKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelBootstrapKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelBootstrapKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> BootstrapKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct BootstrapKeyFftRef<T> { pub data: [T] }
pub type BootstrapKeyFftIterator<'a, T> = ComponentIterator<'a, T>; pub type BootstrapKeyFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelBootstrapKeyFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelBootstrapKeyFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> BootstrapKeyFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LweKeyswitchKeyRef<T> { pub data: [Torus<T>] }
pub type LweKeyswitchKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type LweKeyswitchKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelLweKeyswitchKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelLweKeyswitchKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> LweKeyswitchKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct LwePublicKeyRef<T> { pub data: [Torus<T>] }
pub type LwePublicKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type LwePublicKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelLwePublicKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelLwePublicKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> LwePublicKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct RlwePublicKeyRef<T> { pub data: [Torus<T>] }
pub type RlwePublicKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type RlwePublicKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelRlwePublicKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelRlwePublicKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> RlwePublicKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct UnivariateLookupTableRef<T> { pub data: [Torus<T>] }
pub type UnivariateLookupTableIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type UnivariateLookupTableIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelUnivariateLookupTableIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelUnivariateLookupTableIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> UnivariateLookupTableRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct BivariateLookupTableRef<T> { pub data: [Torus<T>] }
pub type BivariateLookupTableIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type BivariateLookupTableIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelBivariateLookupTableIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelBivariateLookupTableIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> BivariateLookupTableRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct PrivateFunctionalKeyswitchKeyRef<T> { pub data: [Torus<T>] }
pub type PrivateFunctionalKeyswitchKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type PrivateFunctionalKeyswitchKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelPrivateFunctionalKeyswitchKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelPrivateFunctionalKeyswitchKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> PrivateFunctionalKeyswitchKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct CircuitBootstrappingKeyswitchKeysRef<T> { pub data: [Torus<T>] }
pub type CircuitBootstrappingKeyswitchKeysIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type CircuitBootstrappingKeyswitchKeysIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelCircuitBootstrappingKeyswitchKeysIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelCircuitBootstrappingKeyswitchKeysIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> CircuitBootstrappingKeyswitchKeysRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct PublicFunctionalKeyswitchKeyRef<T> { pub data: [Torus<T>] }
pub type PublicFunctionalKeyswitchKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type PublicFunctionalKeyswitchKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelPublicFunctionalKeyswitchKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelPublicFunctionalKeyswitchKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> PublicFunctionalKeyswitchKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct SchemeSwitchKeyRef<T> { pub data: [Torus<T>] }
pub type SchemeSwitchKeyIterator<'a, T> = ComponentIterator<'a, Torus<T>>; pub type SchemeSwitchKeyIteratorMut<'a, T> = ComponentIteratorMut<'a, Torus<T>>; pub type ParallelSchemeSwitchKeyIterator<'a, T> = ParallelComponentIterator<'a, Torus<T>>; pub type ParallelSchemeSwitchKeyIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, Torus<T>>;
impl<T> SchemeSwitchKeyRef<T> { pub fn as_slice(&self) -> (r: &[Torus<T>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<T>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
pub struct SchemeSwitchKeyFftRef<T> { pub data: [T] }
pub type SchemeSwitchKeyFftIterator<'a, T> = ComponentIterator<'a, T>; pub type SchemeSwitchKeyFftIteratorMut<'a, T> = ComponentIteratorMut<'a, T>; pub type ParallelSchemeSwitchKeyFftIterator<'a, T> = ParallelComponentIterator<'a, T>; pub type ParallelSchemeSwitchKeyFftIteratorMut<'a, T> = ParallelComponentIteratorMut<'a, T>;
impl<T> SchemeSwitchKeyFftRef<T> { pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: triangular_number_entries
    requires n * (n + 1) <= usize::MAX, n < usize::MAX
    ensures ret == tri(n as int)
//@end
pub open spec fn sz_Polynomial(t: PolynomialDegree) -> int { t.0 as int }
pub open spec fn ok_Polynomial(t: PolynomialDegree) -> bool { true }
impl<S> PolynomialRef<S> {
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: <OverlaySize for PolynomialRef>::size
//@sig pub fn size(t: PolynomialDegree) -> (ret: usize)
    requires ok_Polynomial(t)
    ensures ret == sz_Polynomial(t)
//@end
}
pub open spec fn sz_PolynomialFft(t: PolynomialDegree) -> int { t.0 as int / 2 }
pub open spec fn ok_PolynomialFft(t: PolynomialDegree) -> bool { true }
impl PolynomialFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/polynomial_fft.rs :: <OverlaySize for PolynomialFftRef>::size
//@sig pub fn size(t: PolynomialDegree) -> (ret: usize)
    requires ok_PolynomialFft(t)
    ensures ret == sz_PolynomialFft(t)
//@end
}
pub open spec fn sz_LweSecretKey(t: LweDimension) -> int { t.0 as int }
pub open spec fn ok_LweSecretKey(t: LweDimension) -> bool { true }
impl<S> LweSecretKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_secret_key.rs :: <OverlaySize for LweSecretKeyRef>::size
//@sig pub fn size(t: LweDimension) -> (ret: usize)
    requires ok_LweSecretKey(t)
    ensures ret == sz_LweSecretKey(t)
//@end
}
pub open spec fn sz_LweCiphertext(t: LweDimension) -> int { t.0 + 1 }
pub open spec fn ok_LweCiphertext(t: LweDimension) -> bool { sz_LweCiphertext(t) <= usize::MAX }
impl<S> LweCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: <OverlaySize for LweCiphertextRef>::size
//@sig pub fn size(t: LweDimension) -> (ret: usize)
    requires ok_LweCiphertext(t)
    ensures ret == sz_LweCiphertext(t)
//@end
}
pub open spec fn sz_GlweSecretKey(t: GlweDimension) -> int { sz_Polynomial(t.polynomial_degree) * t.size.0 }
pub open spec fn ok_GlweSecretKey(t: GlweDimension) -> bool { sz_GlweSecretKey(t) <= usize::MAX }
impl<S> GlweSecretKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: <OverlaySize for GlweSecretKeyRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_GlweSecretKey(t)
    ensures ret == sz_GlweSecretKey(t)
//@end
}
pub open spec fn sz_GlweCiphertext(t: GlweDimension) -> int { sz_GlweSecretKey(t) + t.polynomial_degree.0 }
pub open spec fn ok_GlweCiphertext(t: GlweDimension) -> bool { sz_GlweCiphertext(t) <= usize::MAX && ok_GlweSecretKey(t) }
impl<S> GlweCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: <OverlaySize for GlweCiphertextRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_GlweCiphertext(t)
    ensures ret == sz_GlweCiphertext(t)
//@end
}
pub open spec fn sz_GlweCiphertextFft(t: GlweDimension) -> int { sz_PolynomialFft(t.polynomial_degree) * (t.size.0 + 1) }
pub open spec fn ok_GlweCiphertextFft(t: GlweDimension) -> bool { sz_GlweCiphertextFft(t) <= usize::MAX && t.size.0 < usize::MAX }
impl GlweCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext_fft.rs :: <OverlaySize for GlweCiphertextFftRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_GlweCiphertextFft(t)
    ensures ret == sz_GlweCiphertextFft(t)
//@end
}
pub open spec fn sz_PolynomialList(t: (PolynomialDegree, usize)) -> int { sz_Polynomial(t.0) * t.1 }
pub open spec fn ok_PolynomialList(t: (PolynomialDegree, usize)) -> bool { sz_PolynomialList(t) <= usize::MAX }
impl<S> PolynomialListRef<S> {
//@fn sunscreen_tfhe/src/entities/polynomial_list.rs :: <OverlaySize for PolynomialListRef>::size
//@sig pub fn size(t: (PolynomialDegree, usize)) -> (ret: usize)
    requires ok_PolynomialList(t)
    ensures ret == sz_PolynomialList(t)
//@end
}
pub open spec fn sz_LweCiphertextList(t: (LweDimension, usize)) -> int { sz_LweCiphertext(t.0) * t.1 }
pub open spec fn ok_LweCiphertextList(t: (LweDimension, usize)) -> bool { sz_LweCiphertextList(t) <= usize::MAX && ok_LweCiphertext(t.0) }
impl<S> LweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext_list.rs :: <OverlaySize for LweCiphertextListRef>::size
//@sig pub fn size(t: (LweDimension, usize)) -> (ret: usize)
    requires ok_LweCiphertextList(t)
    ensures ret == sz_LweCiphertextList(t)
//@end
}
pub open spec fn sz_GlweCiphertextList(t: (GlweDimension, usize)) -> int { sz_GlweCiphertext(t.0) * t.1 }
pub open spec fn ok_GlweCiphertextList(t: (GlweDimension, usize)) -> bool { sz_GlweCiphertextList(t) <= usize::MAX && ok_GlweCiphertext(t.0) }
impl<S> GlweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext_list.rs :: <OverlaySize for GlweCiphertextListRef>::size
//@sig pub fn size(t: (GlweDimension, usize)) -> (ret: usize)
    requires ok_GlweCiphertextList(t)
    ensures ret == sz_GlweCiphertextList(t)
//@end
}
pub open spec fn sz_LevCiphertext(t: (LweDimension, RadixCount)) -> int { sz_LweCiphertext(t.0) * t.1.0 }
pub open spec fn ok_LevCiphertext(t: (LweDimension, RadixCount)) -> bool { sz_LevCiphertext(t) <= usize::MAX && ok_LweCiphertext(t.0) }
impl<S> LevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: <OverlaySize for LevCiphertextRef>::size
//@sig pub fn size(t: (LweDimension, RadixCount)) -> (ret: usize)
    requires ok_LevCiphertext(t)
    ensures ret == sz_LevCiphertext(t)
//@end
}
pub open spec fn sz_GlevCiphertext(t: (GlweDimension, RadixCount)) -> int { sz_GlweCiphertext(t.0) * t.1.0 }
pub open spec fn ok_GlevCiphertext(t: (GlweDimension, RadixCount)) -> bool { sz_GlevCiphertext(t) <= usize::MAX && ok_GlweCiphertext(t.0) }
impl<S> GlevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: <OverlaySize for GlevCiphertextRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GlevCiphertext(t)
    ensures ret == sz_GlevCiphertext(t)
//@end
}
pub open spec fn sz_GlevCiphertextFft(t: (GlweDimension, RadixCount)) -> int { sz_GlweCiphertextFft(t.0) * t.1.0 }
pub open spec fn ok_GlevCiphertextFft(t: (GlweDimension, RadixCount)) -> bool { sz_GlevCiphertextFft(t) <= usize::MAX && ok_GlweCiphertextFft(t.0) }
impl GlevCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs :: <OverlaySize for GlevCiphertextFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GlevCiphertextFft(t)
    ensures ret == sz_GlevCiphertextFft(t)
//@end
}
pub open spec fn sz_GgswCiphertext(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertext(t) * (t.0.size.0 + 1) }
pub open spec fn ok_GgswCiphertext(t: (GlweDimension, RadixCount)) -> bool { sz_GgswCiphertext(t) <= usize::MAX && ok_GlevCiphertext(t) && t.0.size.0 < usize::MAX }
impl<S> GgswCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext.rs :: <OverlaySize for GgswCiphertextRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GgswCiphertext(t)
    ensures ret == sz_GgswCiphertext(t)
//@end
}
pub open spec fn sz_GgswCiphertextFft(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertextFft(t) * (t.0.size.0 + 1) }
pub open spec fn ok_GgswCiphertextFft(t: (GlweDimension, RadixCount)) -> bool { sz_GgswCiphertextFft(t) <= usize::MAX && ok_GlevCiphertextFft(t) && t.0.size.0 < usize::MAX }
impl GgswCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs :: <OverlaySize for GgswCiphertextFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GgswCiphertextFft(t)
    ensures ret == sz_GgswCiphertextFft(t)
//@end
}
pub open spec fn sz_GlweKeyswitchKey(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertext(t) * t.0.size.0 }
pub open spec fn ok_GlweKeyswitchKey(t: (GlweDimension, RadixCount)) -> bool { sz_GlweKeyswitchKey(t) <= usize::MAX && ok_GlevCiphertext(t) }
impl<S> GlweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs :: <OverlaySize for GlweKeyswitchKeyRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GlweKeyswitchKey(t)
    ensures ret == sz_GlweKeyswitchKey(t)
//@end
}
pub open spec fn sz_GlweKeyswitchKeyFft(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertextFft(t) * t.0.size.0 }
pub open spec fn ok_GlweKeyswitchKeyFft(t: (GlweDimension, RadixCount)) -> bool { sz_GlweKeyswitchKeyFft(t) <= usize::MAX && ok_GlevCiphertextFft(t) }
impl GlweKeyswitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs :: <OverlaySize for GlweKeyswitchKeyFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_GlweKeyswitchKeyFft(t)
    ensures ret == sz_GlweKeyswitchKeyFft(t)
//@end
}
pub open spec fn sz_AutomorphismKey(t: (GlweDimension, RadixCount)) -> int { sz_GlweKeyswitchKey(t) * lg(t.0.polynomial_degree.0 as int) }
pub open spec fn ok_AutomorphismKey(t: (GlweDimension, RadixCount)) -> bool { sz_AutomorphismKey(t) <= usize::MAX && ok_GlweKeyswitchKey(t) && t.0.polynomial_degree.0 >= 1 }
impl<S> AutomorphismKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/automorphism_key.rs :: <OverlaySize for AutomorphismKeyRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
//@sub "t.0.polynomial_degree.0.ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
//@sub "(t.0.polynomial_degree.0 as u64).ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
    requires ok_AutomorphismKey(t)
    ensures ret == sz_AutomorphismKey(t)
//@end
}
pub open spec fn sz_AutomorphismKeyFft(t: (GlweDimension, RadixCount)) -> int { sz_GlweKeyswitchKeyFft(t) * lg(t.0.polynomial_degree.0 as int) }
pub open spec fn ok_AutomorphismKeyFft(t: (GlweDimension, RadixCount)) -> bool { sz_AutomorphismKeyFft(t) <= usize::MAX && ok_GlweKeyswitchKeyFft(t) && t.0.polynomial_degree.0 >= 1 }
impl AutomorphismKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/automorphism_key_fft.rs :: <OverlaySize for AutomorphismKeyFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
//@sub "t.0.polynomial_degree.0.ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
//@sub "(t.0.polynomial_degree.0 as u64).ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
    requires ok_AutomorphismKeyFft(t)
    ensures ret == sz_AutomorphismKeyFft(t)
//@end
}
pub open spec fn sz_BlindRotationShift(t: (GlweDimension, RadixCount)) -> int { sz_GgswCiphertext(t) * lg(t.0.polynomial_degree.0 as int) }
pub open spec fn ok_BlindRotationShift(t: (GlweDimension, RadixCount)) -> bool { sz_BlindRotationShift(t) <= usize::MAX && ok_GgswCiphertext(t) && t.0.polynomial_degree.0 >= 1 }
impl<S> BlindRotationShiftRef<S> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: <OverlaySize for BlindRotationShiftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
//@sub "t.0.polynomial_degree.0.ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
//@sub "(t.0.polynomial_degree.0 as u64).ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
    requires ok_BlindRotationShift(t)
    ensures ret == sz_BlindRotationShift(t)
//@end
}
pub open spec fn sz_BlindRotationShiftFft(t: (GlweDimension, RadixCount)) -> int { sz_GgswCiphertextFft(t) * lg(t.0.polynomial_degree.0 as int) }
pub open spec fn ok_BlindRotationShiftFft(t: (GlweDimension, RadixCount)) -> bool { sz_BlindRotationShiftFft(t) <= usize::MAX && ok_GgswCiphertextFft(t) && t.0.polynomial_degree.0 >= 1 }
impl BlindRotationShiftFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: <OverlaySize for BlindRotationShiftFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
//@sub "t.0.polynomial_degree.0.ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
//@sub "(t.0.polynomial_degree.0 as u64).ilog2()" => "lg2(t.0.polynomial_degree.0)" optional
    requires ok_BlindRotationShiftFft(t)
    ensures ret == sz_BlindRotationShiftFft(t)
//@end
}
pub open spec fn sz_BootstrapKey(t: (LweDimension, GlweDimension, RadixCount)) -> int { sz_GgswCiphertext((t.1, t.2)) * t.0.0 }
pub open spec fn ok_BootstrapKey(t: (LweDimension, GlweDimension, RadixCount)) -> bool { sz_BootstrapKey(t) <= usize::MAX && ok_GgswCiphertext((t.1, t.2)) }
impl<S> BootstrapKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: <OverlaySize for BootstrapKeyRef>::size
//@sig pub fn size(t: (LweDimension, GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_BootstrapKey(t)
    ensures ret == sz_BootstrapKey(t)
//@end
}
pub open spec fn sz_BootstrapKeyFft(t: (LweDimension, GlweDimension, RadixCount)) -> int { sz_GgswCiphertextFft((t.1, t.2)) * t.0.0 }
pub open spec fn ok_BootstrapKeyFft(t: (LweDimension, GlweDimension, RadixCount)) -> bool { sz_BootstrapKeyFft(t) <= usize::MAX && ok_GgswCiphertextFft((t.1, t.2)) }
impl BootstrapKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: <OverlaySize for BootstrapKeyFftRef>::size
//@sig pub fn size(t: (LweDimension, GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_BootstrapKeyFft(t)
    ensures ret == sz_BootstrapKeyFft(t)
//@end
}
pub open spec fn sz_LweKeyswitchKey(t: (LweDimension, LweDimension, RadixCount)) -> int { sz_LevCiphertext((t.1, t.2)) * t.0.0 }
pub open spec fn ok_LweKeyswitchKey(t: (LweDimension, LweDimension, RadixCount)) -> bool { sz_LweKeyswitchKey(t) <= usize::MAX && ok_LevCiphertext((t.1, t.2)) }
impl<S> LweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_keyswitch_key.rs :: <OverlaySize for LweKeyswitchKeyRef>::size
//@sig pub fn size(t: (LweDimension, LweDimension, RadixCount)) -> (ret: usize)
    requires ok_LweKeyswitchKey(t)
    ensures ret == sz_LweKeyswitchKey(t)
//@end
}
pub open spec fn sz_LwePublicKey(t: LweDimension) -> int { sz_LweCiphertext(t) * t.0 }
pub open spec fn ok_LwePublicKey(t: LweDimension) -> bool { sz_LwePublicKey(t) <= usize::MAX && ok_LweCiphertext(t) }
impl<S> LwePublicKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_public_key.rs :: <OverlaySize for LwePublicKeyRef>::size
//@sig pub fn size(t: LweDimension) -> (ret: usize)
    requires ok_LwePublicKey(t)
    ensures ret == sz_LwePublicKey(t)
//@end
}
pub open spec fn sz_RlwePublicKey(t: GlweDimension) -> int { sz_GlweCiphertext(t) }
pub open spec fn ok_RlwePublicKey(t: GlweDimension) -> bool { ok_GlweCiphertext(t) }
impl<S> RlwePublicKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/rlwe_public_key.rs :: <OverlaySize for RlwePublicKeyRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_RlwePublicKey(t)
    ensures ret == sz_RlwePublicKey(t)
//@end
}
pub open spec fn sz_UnivariateLookupTable(t: GlweDimension) -> int { sz_GlweCiphertext(t) }
pub open spec fn ok_UnivariateLookupTable(t: GlweDimension) -> bool { ok_GlweCiphertext(t) }
impl<S> UnivariateLookupTableRef<S> {
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: <OverlaySize for UnivariateLookupTableRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_UnivariateLookupTable(t)
    ensures ret == sz_UnivariateLookupTable(t)
//@end
}
pub open spec fn sz_BivariateLookupTable(t: GlweDimension) -> int { sz_GlweCiphertext(t) }
pub open spec fn ok_BivariateLookupTable(t: GlweDimension) -> bool { ok_GlweCiphertext(t) }
impl<S> BivariateLookupTableRef<S> {
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: <OverlaySize for BivariateLookupTableRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires ok_BivariateLookupTable(t)
    ensures ret == sz_BivariateLookupTable(t)
//@end
}
pub open spec fn sz_PrivateFunctionalKeyswitchKey(t: (LweDimension, GlweDimension, RadixCount, PrivateFunctionalKeyswitchLweCount)) -> int { sz_GlevCiphertext((t.1, t.2)) * (t.0.0 + 1) * t.3.0 }
pub open spec fn ok_PrivateFunctionalKeyswitchKey(t: (LweDimension, GlweDimension, RadixCount, PrivateFunctionalKeyswitchLweCount)) -> bool { sz_PrivateFunctionalKeyswitchKey(t) <= usize::MAX && ok_GlevCiphertext((t.1, t.2)) && t.0.0 < usize::MAX && sz_GlevCiphertext((t.1, t.2)) * (t.0.0 + 1) <= usize::MAX }
impl<S> PrivateFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/private_functional_keyswitch_key.rs :: <OverlaySize for PrivateFunctionalKeyswitchKeyRef>::size
//@sig pub fn size(t: (LweDimension, GlweDimension, RadixCount, PrivateFunctionalKeyswitchLweCount)) -> (ret: usize)
    requires ok_PrivateFunctionalKeyswitchKey(t)
    ensures ret == sz_PrivateFunctionalKeyswitchKey(t)
//@end
}
pub open spec fn sz_CircuitBootstrappingKeyswitchKeys(t: (LweDimension, GlweDimension, RadixCount)) -> int { sz_PrivateFunctionalKeyswitchKey((t.0, t.1, t.2, PrivateFunctionalKeyswitchLweCount(1))) * (t.1.size.0 + 1) }
pub open spec fn ok_CircuitBootstrappingKeyswitchKeys(t: (LweDimension, GlweDimension, RadixCount)) -> bool { sz_CircuitBootstrappingKeyswitchKeys(t) <= usize::MAX && ok_PrivateFunctionalKeyswitchKey((t.0, t.1, t.2, PrivateFunctionalKeyswitchLweCount(1))) && t.1.size.0 < usize::MAX }
impl<S> CircuitBootstrappingKeyswitchKeysRef<S> {
//@fn sunscreen_tfhe/src/entities/circuit_bootstrapping_private_keyswitch_keys.rs :: <OverlaySize for CircuitBootstrappingKeyswitchKeysRef>::size
//@sig pub fn size(t: (LweDimension, GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_CircuitBootstrappingKeyswitchKeys(t)
    ensures ret == sz_CircuitBootstrappingKeyswitchKeys(t)
//@end
}
pub open spec fn sz_PublicFunctionalKeyswitchKey(t: (LweDimension, GlweDimension, RadixCount)) -> int { sz_GlweCiphertext(t.1) * t.0.0 * t.2.0 }
pub open spec fn ok_PublicFunctionalKeyswitchKey(t: (LweDimension, GlweDimension, RadixCount)) -> bool { sz_PublicFunctionalKeyswitchKey(t) <= usize::MAX && ok_GlweCiphertext(t.1) && sz_GlweCiphertext(t.1) * t.0.0 <= usize::MAX }
impl<S> PublicFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/public_functional_keyswitch_key.rs :: <OverlaySize for PublicFunctionalKeyswitchKeyRef>::size
//@sig pub fn size(t: (LweDimension, GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_PublicFunctionalKeyswitchKey(t)
    ensures ret == sz_PublicFunctionalKeyswitchKey(t)
//@end
}
pub open spec fn sz_SchemeSwitchKey(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertext(t) * tri(t.0.size.0 as int) }
pub open spec fn ok_SchemeSwitchKey(t: (GlweDimension, RadixCount)) -> bool { sz_SchemeSwitchKey(t) <= usize::MAX && ok_GlevCiphertext(t) && t.0.size.0 < usize::MAX && t.0.size.0 * (t.0.size.0 + 1) <= usize::MAX }
impl<S> SchemeSwitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: <OverlaySize for SchemeSwitchKeyRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_SchemeSwitchKey(t)
    ensures ret == sz_SchemeSwitchKey(t)
//@end
}
pub open spec fn sz_SchemeSwitchKeyFft(t: (GlweDimension, RadixCount)) -> int { sz_GlevCiphertextFft(t) * tri(t.0.size.0 as int) }
pub open spec fn ok_SchemeSwitchKeyFft(t: (GlweDimension, RadixCount)) -> bool { sz_SchemeSwitchKeyFft(t) <= usize::MAX && ok_GlevCiphertextFft(t) && t.0.size.0 < usize::MAX && t.0.size.0 * (t.0.size.0 + 1) <= usize::MAX }
impl SchemeSwitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs :: <OverlaySize for SchemeSwitchKeyFftRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires ok_SchemeSwitchKeyFft(t)
    ensures ret == sz_SchemeSwitchKeyFft(t)
//@end
}
#[verifier::external_body] pub fn lg2(x: usize) -> (r: u32) requires x >= 1 ensures r == lg(x as int), r < 64 { x.ilog2() }
impl<S> GlevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: GlevCiphertextRef::glwe_ciphertexts
//@sig fn glwe_ciphertexts(&self, params: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextIterator<'_, S>)
    requires ok_GlweCiphertext(params.dim), 1 <= sz_GlweCiphertext(params.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GlweCiphertext(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlweCiphertext(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertext(params.dim)); }
//@end
}
impl<S> GlevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: GlevCiphertextRef::glwe_ciphertexts_mut
//@sig fn glwe_ciphertexts_mut(&mut self, params: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextIteratorMut<'_, S>)
    requires ok_GlweCiphertext(params.dim), 1 <= sz_GlweCiphertext(params.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlweCiphertext(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlweCiphertext(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertext(params.dim)); }
//@end
}
impl<S> GgswCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext.rs :: GgswCiphertextRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (params.dim.size.0 + 1) * sz_GlevCiphertext((params.dim, radix.count)), (params.dim.size.0 + 1) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == (params.dim.size.0 + 1), ret.n() == (params.dim.size.0 + 1)
//@at start
    proof { cnt_ok((params.dim.size.0 + 1), sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> GgswCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext.rs :: GgswCiphertextRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (params.dim.size.0 + 1) * sz_GlevCiphertext((params.dim, radix.count)), (params.dim.size.0 + 1) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == (params.dim.size.0 + 1), ret.n() == (params.dim.size.0 + 1)
//@at start
    proof { cnt_ok((params.dim.size.0 + 1), sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> GlweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs :: GlweKeyswitchKeyRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == params.dim.size.0 as int * sz_GlevCiphertext((params.dim, radix.count)), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> GlweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs :: GlweKeyswitchKeyRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == params.dim.size.0 as int * sz_GlevCiphertext((params.dim, radix.count)), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> AutomorphismKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/automorphism_key.rs :: AutomorphismKeyRef::keyswitch_keys
//@sig fn keyswitch_keys(&self, glwe: &GlweDef, radix: &RadixDecomposition) -> (ret: GlweKeyswitchKeyIterator<'_, S>)
    requires ok_GlweKeyswitchKey((glwe.dim, radix.count)), 1 <= sz_GlweKeyswitchKey((glwe.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == lg(glwe.dim.polynomial_degree.0 as int) * sz_GlweKeyswitchKey((glwe.dim, radix.count)), lg(glwe.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlweKeyswitchKey((glwe.dim, radix.count)), ret.f() == 0, ret.b() == lg(glwe.dim.polynomial_degree.0 as int), ret.n() == lg(glwe.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(glwe.dim.polynomial_degree.0 as int), sz_GlweKeyswitchKey((glwe.dim, radix.count))); }
//@end
}
impl<S> AutomorphismKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/automorphism_key.rs :: AutomorphismKeyRef::keyswitch_keys_mut
//@sig fn keyswitch_keys_mut(&mut self, glwe: &GlweDef, radix: &RadixDecomposition) -> (ret: GlweKeyswitchKeyIteratorMut<'_, S>)
    requires ok_GlweKeyswitchKey((glwe.dim, radix.count)), 1 <= sz_GlweKeyswitchKey((glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == lg(glwe.dim.polynomial_degree.0 as int) * sz_GlweKeyswitchKey((glwe.dim, radix.count)), lg(glwe.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlweKeyswitchKey((glwe.dim, radix.count)), ret.f() == 0, ret.b() == lg(glwe.dim.polynomial_degree.0 as int), ret.n() == lg(glwe.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(glwe.dim.polynomial_degree.0 as int), sz_GlweKeyswitchKey((glwe.dim, radix.count))); }
//@end
}
impl<S> BlindRotationShiftRef<S> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: BlindRotationShiftRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GgswCiphertextIterator<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == lg(params.dim.polynomial_degree.0 as int) * sz_GgswCiphertext((params.dim, radix.count)), lg(params.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == lg(params.dim.polynomial_degree.0 as int), ret.n() == lg(params.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(params.dim.polynomial_degree.0 as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> BlindRotationShiftRef<S> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: BlindRotationShiftRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GgswCiphertextIteratorMut<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == lg(params.dim.polynomial_degree.0 as int) * sz_GgswCiphertext((params.dim, radix.count)), lg(params.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == lg(params.dim.polynomial_degree.0 as int), ret.n() == lg(params.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(params.dim.polynomial_degree.0 as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> BootstrapKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GgswCiphertextIterator<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GgswCiphertext((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> BootstrapKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GgswCiphertextIteratorMut<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GgswCiphertext((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> BootstrapKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyRef::rows_par
//@sig fn rows_par(&self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: ParallelGgswCiphertextIterator<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GgswCiphertext((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.count == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> BootstrapKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyRef::rows_par_mut
//@sig fn rows_par_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: ParallelGgswCiphertextIteratorMut<'_, S>)
    requires ok_GgswCiphertext((params.dim, radix.count)), 1 <= sz_GgswCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GgswCiphertext((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.cur() == old(self).data@, ret.stride == sz_GgswCiphertext((params.dim, radix.count)), ret.count == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> SchemeSwitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: SchemeSwitchKeyRef::glev_ciphertexts
//@sig fn glev_ciphertexts(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == tri(params.dim.size.0 as int) * sz_GlevCiphertext((params.dim, radix.count)), tri(params.dim.size.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == tri(params.dim.size.0 as int), ret.n() == tri(params.dim.size.0 as int)
//@at start
    proof { cnt_ok(tri(params.dim.size.0 as int), sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl<S> SchemeSwitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: SchemeSwitchKeyRef::glev_ciphertexts_mut
//@sig fn glev_ciphertexts_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((params.dim, radix.count)), 1 <= sz_GlevCiphertext((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == tri(params.dim.size.0 as int) * sz_GlevCiphertext((params.dim, radix.count)), tri(params.dim.size.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertext((params.dim, radix.count)), ret.f() == 0, ret.b() == tri(params.dim.size.0 as int), ret.n() == tri(params.dim.size.0 as int)
//@at start
    proof { cnt_ok(tri(params.dim.size.0 as int), sz_GlevCiphertext((params.dim, radix.count))); }
//@end
}
impl GlevCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs :: GlevCiphertextFftRef::glwe_ciphertexts
//@sig fn glwe_ciphertexts(&self, params: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GlweCiphertextFft(params.dim), 1 <= sz_GlweCiphertextFft(params.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GlweCiphertextFft(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlweCiphertextFft(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertextFft(params.dim)); }
//@end
}
impl GlevCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs :: GlevCiphertextFftRef::glwe_ciphertexts_mut
//@sig fn glwe_ciphertexts_mut(&mut self, params: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GlweCiphertextFft(params.dim), 1 <= sz_GlweCiphertextFft(params.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlweCiphertextFft(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlweCiphertextFft(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertextFft(params.dim)); }
//@end
}
impl GgswCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs :: GgswCiphertextFftRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (params.dim.size.0 + 1) * sz_GlevCiphertextFft((params.dim, radix.count)), (params.dim.size.0 + 1) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == (params.dim.size.0 + 1), ret.n() == (params.dim.size.0 + 1)
//@at start
    proof { cnt_ok((params.dim.size.0 + 1), sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl GgswCiphertextFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs :: GgswCiphertextFftRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (params.dim.size.0 + 1) * sz_GlevCiphertextFft((params.dim, radix.count)), (params.dim.size.0 + 1) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == (params.dim.size.0 + 1), ret.n() == (params.dim.size.0 + 1)
//@at start
    proof { cnt_ok((params.dim.size.0 + 1), sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl GlweKeyswitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs :: GlweKeyswitchKeyFftRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == params.dim.size.0 as int * sz_GlevCiphertextFft((params.dim, radix.count)), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl GlweKeyswitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs :: GlweKeyswitchKeyFftRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == params.dim.size.0 as int * sz_GlevCiphertextFft((params.dim, radix.count)), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl AutomorphismKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/automorphism_key_fft.rs :: AutomorphismKeyFftRef::keyswitch_keys
//@sig fn keyswitch_keys(&self, glwe: &GlweDef, radix: &RadixDecomposition) -> (ret: GlweKeyswitchKeyFftIterator<'_, Complex<f64>>)
    requires ok_GlweKeyswitchKeyFft((glwe.dim, radix.count)), 1 <= sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == lg(glwe.dim.polynomial_degree.0 as int) * sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)), lg(glwe.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)), ret.f() == 0, ret.b() == lg(glwe.dim.polynomial_degree.0 as int), ret.n() == lg(glwe.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(glwe.dim.polynomial_degree.0 as int), sz_GlweKeyswitchKeyFft((glwe.dim, radix.count))); }
//@end
}
impl AutomorphismKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/automorphism_key_fft.rs :: AutomorphismKeyFftRef::keyswitch_keys_mut
//@sig fn keyswitch_keys_mut(&mut self, glwe: &GlweDef, radix: &RadixDecomposition) -> (ret: GlweKeyswitchKeyFftIteratorMut<'_, Complex<f64>>)
    requires ok_GlweKeyswitchKeyFft((glwe.dim, radix.count)), 1 <= sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == lg(glwe.dim.polynomial_degree.0 as int) * sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)), lg(glwe.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlweKeyswitchKeyFft((glwe.dim, radix.count)), ret.f() == 0, ret.b() == lg(glwe.dim.polynomial_degree.0 as int), ret.n() == lg(glwe.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(glwe.dim.polynomial_degree.0 as int), sz_GlweKeyswitchKeyFft((glwe.dim, radix.count))); }
//@end
}
impl BlindRotationShiftFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: BlindRotationShiftFftRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GgswCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GgswCiphertextFft((params.dim, radix.count)), 1 <= sz_GgswCiphertextFft((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == lg(params.dim.polynomial_degree.0 as int) * sz_GgswCiphertextFft((params.dim, radix.count)), lg(params.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GgswCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == lg(params.dim.polynomial_degree.0 as int), ret.n() == lg(params.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(params.dim.polynomial_degree.0 as int), sz_GgswCiphertextFft((params.dim, radix.count))); }
//@end
}
impl BlindRotationShiftFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/blind_rotation_shift.rs :: BlindRotationShiftFftRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GgswCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GgswCiphertextFft((params.dim, radix.count)), 1 <= sz_GgswCiphertextFft((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == lg(params.dim.polynomial_degree.0 as int) * sz_GgswCiphertextFft((params.dim, radix.count)), lg(params.dim.polynomial_degree.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GgswCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == lg(params.dim.polynomial_degree.0 as int), ret.n() == lg(params.dim.polynomial_degree.0 as int)
//@at start
    proof { cnt_ok(lg(params.dim.polynomial_degree.0 as int), sz_GgswCiphertextFft((params.dim, radix.count))); }
//@end
}
impl BootstrapKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyFftRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GgswCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GgswCiphertextFft((params.dim, radix.count)), 1 <= sz_GgswCiphertextFft((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GgswCiphertextFft((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GgswCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertextFft((params.dim, radix.count))); }
//@end
}
impl BootstrapKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/bootstrap_key.rs :: BootstrapKeyFftRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GgswCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GgswCiphertextFft((params.dim, radix.count)), 1 <= sz_GgswCiphertextFft((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GgswCiphertextFft((params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GgswCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GgswCiphertextFft((params.dim, radix.count))); }
//@end
}
impl SchemeSwitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs :: SchemeSwitchKeyFftRef::glev_ciphertexts
//@sig fn glev_ciphertexts(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIterator<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == tri(params.dim.size.0 as int) * sz_GlevCiphertextFft((params.dim, radix.count)), tri(params.dim.size.0 as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == tri(params.dim.size.0 as int), ret.n() == tri(params.dim.size.0 as int)
//@at start
    proof { cnt_ok(tri(params.dim.size.0 as int), sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl SchemeSwitchKeyFftRef<Complex<f64>> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs :: SchemeSwitchKeyFftRef::glev_ciphertexts_mut
//@sig fn glev_ciphertexts_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextFftIteratorMut<'_, Complex<f64>>)
    requires ok_GlevCiphertextFft((params.dim, radix.count)), 1 <= sz_GlevCiphertextFft((params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == tri(params.dim.size.0 as int) * sz_GlevCiphertextFft((params.dim, radix.count)), tri(params.dim.size.0 as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertextFft((params.dim, radix.count)), ret.f() == 0, ret.b() == tri(params.dim.size.0 as int), ret.n() == tri(params.dim.size.0 as int)
//@at start
    proof { cnt_ok(tri(params.dim.size.0 as int), sz_GlevCiphertextFft((params.dim, radix.count))); }
//@end
}
impl<S> GlweSecretKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: GlweSecretKeyRef::s
//@sig fn s(&self, params: &GlweDef) -> (ret: PolynomialIterator<'_, S>)
    requires ok_Polynomial(params.dim.polynomial_degree), 1 <= sz_Polynomial(params.dim.polynomial_degree) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == params.dim.size.0 as int * sz_Polynomial(params.dim.polynomial_degree), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_Polynomial(params.dim.polynomial_degree), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_Polynomial(params.dim.polynomial_degree)); }
//@end
}
impl<S> GlweSecretKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: GlweSecretKeyRef::s_par
//@sig fn s_par(&self, params: &GlweDef) -> (ret: ParallelPolynomialIterator<'_, S>)
    requires ok_Polynomial(params.dim.polynomial_degree), 1 <= sz_Polynomial(params.dim.polynomial_degree) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == params.dim.size.0 as int * sz_Polynomial(params.dim.polynomial_degree), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_Polynomial(params.dim.polynomial_degree), ret.count == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_Polynomial(params.dim.polynomial_degree)); }
//@end
}
impl<S> GlweSecretKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: GlweSecretKeyRef::s_mut
//@sig fn s_mut(&mut self, params: &GlweDef) -> (ret: PolynomialIteratorMut<'_, S>)
    requires ok_Polynomial(params.dim.polynomial_degree), 1 <= sz_Polynomial(params.dim.polynomial_degree) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == params.dim.size.0 as int * sz_Polynomial(params.dim.polynomial_degree), params.dim.size.0 as int >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_Polynomial(params.dim.polynomial_degree), ret.f() == 0, ret.b() == params.dim.size.0 as int, ret.n() == params.dim.size.0 as int
//@at start
    proof { cnt_ok(params.dim.size.0 as int, sz_Polynomial(params.dim.polynomial_degree)); }
//@end
}
impl<S> LevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: LevCiphertextRef::lwe_ciphertexts
//@sig fn lwe_ciphertexts(&self, params: &LweDef, Ghost(cnt): Ghost<nat>) -> (ret: LweCiphertextIterator<'_, S>)
    requires ok_LweCiphertext(params.dim), 1 <= sz_LweCiphertext(params.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_LweCiphertext(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_LweCiphertext(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LweCiphertext(params.dim)); }
//@end
}
impl<S> LevCiphertextRef<S> {
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: LevCiphertextRef::lwe_ciphertexts_mut
//@sig fn lwe_ciphertexts_mut(&mut self, params: &LweDef, Ghost(cnt): Ghost<nat>) -> (ret: LweCiphertextIteratorMut<'_, S>)
    requires ok_LweCiphertext(params.dim), 1 <= sz_LweCiphertext(params.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_LweCiphertext(params.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_LweCiphertext(params.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LweCiphertext(params.dim)); }
//@end
}
impl<S> LweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext_list.rs :: LweCiphertextListRef::ciphertexts
//@sig fn ciphertexts(&self, lwe: &LweDef, Ghost(cnt): Ghost<nat>) -> (ret: LweCiphertextIterator<'_, S>)
    requires ok_LweCiphertext(lwe.dim), 1 <= sz_LweCiphertext(lwe.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_LweCiphertext(lwe.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_LweCiphertext(lwe.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LweCiphertext(lwe.dim)); }
//@end
}
impl<S> LweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext_list.rs :: LweCiphertextListRef::ciphertexts_mut
//@sig fn ciphertexts_mut(&mut self, lwe: &LweDef, Ghost(cnt): Ghost<nat>) -> (ret: LweCiphertextIteratorMut<'_, S>)
    requires ok_LweCiphertext(lwe.dim), 1 <= sz_LweCiphertext(lwe.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_LweCiphertext(lwe.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_LweCiphertext(lwe.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LweCiphertext(lwe.dim)); }
//@end
}
impl<S> GlweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext_list.rs :: GlweCiphertextListRef::ciphertexts
//@sig fn ciphertexts(&self, lwe: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextIterator<'_, S>)
    requires ok_GlweCiphertext(lwe.dim), 1 <= sz_GlweCiphertext(lwe.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GlweCiphertext(lwe.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlweCiphertext(lwe.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertext(lwe.dim)); }
//@end
}
impl<S> GlweCiphertextListRef<S> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext_list.rs :: GlweCiphertextListRef::ciphertexts_mut
//@sig fn ciphertexts_mut(&mut self, lwe: &GlweDef, Ghost(cnt): Ghost<nat>) -> (ret: GlweCiphertextIteratorMut<'_, S>)
    requires ok_GlweCiphertext(lwe.dim), 1 <= sz_GlweCiphertext(lwe.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlweCiphertext(lwe.dim), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlweCiphertext(lwe.dim), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlweCiphertext(lwe.dim)); }
//@end
}
impl<S> PolynomialListRef<S> {
//@fn sunscreen_tfhe/src/entities/polynomial_list.rs :: PolynomialListRef::iter
//@sig fn iter(&self, degree: PolynomialDegree, Ghost(cnt): Ghost<nat>) -> (ret: PolynomialIterator<'_, S>)
    requires ok_Polynomial(degree), 1 <= sz_Polynomial(degree) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_Polynomial(degree), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_Polynomial(degree), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_Polynomial(degree)); }
//@end
}
impl<S> PolynomialListRef<S> {
//@fn sunscreen_tfhe/src/entities/polynomial_list.rs :: PolynomialListRef::iter_mut
//@sig fn iter_mut(&mut self, degree: PolynomialDegree, Ghost(cnt): Ghost<nat>) -> (ret: PolynomialIteratorMut<'_, S>)
    requires ok_Polynomial(degree), 1 <= sz_Polynomial(degree) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_Polynomial(degree), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_Polynomial(degree), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_Polynomial(degree)); }
//@end
}
impl<S> LweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_keyswitch_key.rs :: LweKeyswitchKeyRef::rows
//@sig fn rows(&self, new_params: &LweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: LevCiphertextIterator<'_, S>)
    requires ok_LevCiphertext((new_params.dim, radix.count)), 1 <= sz_LevCiphertext((new_params.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_LevCiphertext((new_params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_LevCiphertext((new_params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LevCiphertext((new_params.dim, radix.count))); }
//@end
}
impl<S> LweKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_keyswitch_key.rs :: LweKeyswitchKeyRef::rows_mut
//@sig fn rows_mut(&mut self, new_params: &LweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: LevCiphertextIteratorMut<'_, S>)
    requires ok_LevCiphertext((new_params.dim, radix.count)), 1 <= sz_LevCiphertext((new_params.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_LevCiphertext((new_params.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_LevCiphertext((new_params.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_LevCiphertext((new_params.dim, radix.count))); }
//@end
}
impl<S> LwePublicKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_public_key.rs :: LwePublicKeyRef::enc_zeros
//@sig fn enc_zeros(&self, params: &LweDef) -> (ret: LweCiphertextIterator<'_, S>)
    requires ok_LweCiphertext(params.dim), 1 <= sz_LweCiphertext(params.dim) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == params.dim.0 as int * sz_LweCiphertext(params.dim), params.dim.0 as int >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_LweCiphertext(params.dim), ret.f() == 0, ret.b() == params.dim.0 as int, ret.n() == params.dim.0 as int
//@at start
    proof { cnt_ok(params.dim.0 as int, sz_LweCiphertext(params.dim)); }
//@end
}
impl<S> LwePublicKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/lwe_public_key.rs :: LwePublicKeyRef::enc_zeros_mut
//@sig fn enc_zeros_mut(&mut self, params: &LweDef) -> (ret: LweCiphertextIteratorMut<'_, S>)
    requires ok_LweCiphertext(params.dim), 1 <= sz_LweCiphertext(params.dim) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == params.dim.0 as int * sz_LweCiphertext(params.dim), params.dim.0 as int >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_LweCiphertext(params.dim), ret.f() == 0, ret.b() == params.dim.0 as int, ret.n() == params.dim.0 as int
//@at start
    proof { cnt_ok(params.dim.0 as int, sz_LweCiphertext(params.dim)); }
//@end
}
impl<S> PrivateFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/private_functional_keyswitch_key.rs :: PrivateFunctionalKeyswitchKeyRef::glevs
//@sig fn glevs(&self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
impl<S> PrivateFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/private_functional_keyswitch_key.rs :: PrivateFunctionalKeyswitchKeyRef::glevs_mut
//@sig fn glevs_mut(&mut self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
impl<S> PrivateFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/private_functional_keyswitch_key.rs :: PrivateFunctionalKeyswitchKeyRef::glevs_par
//@sig fn glevs_par(&mut self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: ParallelGlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == old(self).data@, ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.count == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
impl<S> PrivateFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/private_functional_keyswitch_key.rs :: PrivateFunctionalKeyswitchKeyRef::glevs_par_mut
//@sig fn glevs_par_mut(&mut self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: ParallelGlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.cur() == old(self).data@, ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.count == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
impl<S> PublicFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/public_functional_keyswitch_key.rs :: PublicFunctionalKeyswitchKeyRef::glevs
//@sig fn glevs(&self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GlevCiphertextIterator<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, self.data@.len() <= isize::MAX, self.data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
impl<S> PublicFunctionalKeyswitchKeyRef<S> {
//@fn sunscreen_tfhe/src/entities/public_functional_keyswitch_key.rs :: PublicFunctionalKeyswitchKeyRef::glevs_mut
//@sig fn glevs_mut(&mut self, to_glwe: &GlweDef, radix: &RadixDecomposition, Ghost(cnt): Ghost<nat>) -> (ret: GlevCiphertextIteratorMut<'_, S>)
    requires ok_GlevCiphertext((to_glwe.dim, radix.count)), 1 <= sz_GlevCiphertext((to_glwe.dim, radix.count)) <= isize::MAX, old(self).data@.len() <= isize::MAX, old(self).data@.len() == (cnt as int) * sz_GlevCiphertext((to_glwe.dim, radix.count)), (cnt as int) >= 0
    ensures ret.wf(), ret.start.cap@ == old(self).data@.len(), ret.stride == sz_GlevCiphertext((to_glwe.dim, radix.count)), ret.f() == 0, ret.b() == (cnt as int), ret.n() == (cnt as int)
//@at start
    proof { cnt_ok((cnt as int), sz_GlevCiphertext((to_glwe.dim, radix.count))); }
//@end
}
pub proof fn cnt_ok(c: int, s: int) requires c >= 0, s >= 1 ensures (c * s) % s == 0, (c * s) / s == c { dm(c, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(c, s); }
} // verus!
