//! A processor with toy parameters (the plaintext instructions do not depend on them, and the keys take no time to make).
use parasol_cpu::{FheComputer, Memory, Ptr32, ArgsBuilder, Error, assembly::IsaOp};
use parasol_runtime::{Params, SecretKey, ComputeKey, Encryption, Evaluation};
use sunscreen_tfhe::{*, rand::Stddev};
use std::sync::{Arc, OnceLock};
pub fn params() -> Params {
    let r = |l, c| RadixDecomposition { radix_log: RadixLog(l), count: RadixCount(c) };
    Params { l0_params: LweDef { dim: LweDimension(8), std: Stddev(1e-18) }, l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(64), size: GlweSize(1) }, std: Stddev(1e-18) },
        cbs_radix: r(4, 4), pbs_radix: r(16, 2), pfks_radix: r(17, 2), ks_radix: r(2, 6), ss_radix: r(3, 15), tr_radix: r(7, 6) }
}
pub struct Keys { pub enc: Encryption, pub eval: Evaluation, pub sk: SecretKey }
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| { let p = params(); let sk = SecretKey::generate(&p); let ck = Arc::new(ComputeKey::generate(&sk, &p)); let enc = Encryption::new(&p); let eval = Evaluation::new(ck, &p, &enc); Keys { enc, eval, sk } })
}
pub fn computer() -> FheComputer { let k = keys(); FheComputer::new(&k.enc, &k.eval) }
/// Runs a program over the given 128-bit inputs (at SP, SP + 16, ..) and returns the 16-byte results it stores at RP, RP + 16, ..
pub fn run<const N: usize>(prog: &[IsaOp], inputs: &[u128]) -> std::result::Result<[u128; N], Error> {
    let mem = Arc::new(Memory::new_default_stack());
    let pc: Ptr32 = mem.allocate_program(prog);
    let mut a = ArgsBuilder::new(); for i in inputs { a = a.arg(*i); }
    computer().run_program(pc, &mem, a.return_value::<[u128; N]>())
}
