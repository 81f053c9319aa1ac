P = "U02"
A = "mpc-core/src/uint/ruint_wrapper.rs"
EDITS = [(A, """        let mut limbs = [0u64; LIMBS];
        for limb in &mut limbs {
            *limb = rng.r#gen();
        }
        Self(Uint::from_limbs(limbs)) & Self::mask(bitlen)
""", """        let mut limbs = [0u64; LIMBS];
        // limbs beyond the mask are not needed
        let used = bitlen / 64 + usize::from(bitlen % 64 > 1);
        for limb in limbs.iter_mut().take(used) {
            *limb = rng.r#gen();
        }
        Self(Uint::from_limbs(limbs)) & Self::mask(bitlen)
""")]
NEEDS = "a bit length one more than a multiple of 64 (such as 65)"
BREAKS = "the top bit of random integers of such lengths is never random"
DEPS = ""
DEMO = r"""
use mpc_core::uint::{U256, UintBackend};
fn main() {
    let mut rng = rand::thread_rng();
    for n in 1..=256usize {
        let mut or = vec![0u64; 4];
        for _ in 0..100 {
            let x = U256::random_bits(&mut rng, n);
            for (o, l) in or.iter_mut().zip(x.as_limbs()) { *o |= l; }
        }
        for i in 0..256 {
            assert_eq!(or[i / 64] >> (i % 64) & 1 == 1, i < n, "bit {i} of random values of {n} bits");
        }
    }
}
"""
