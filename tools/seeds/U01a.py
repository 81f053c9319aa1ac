P = "U01"
A = "mpc-core/src/protocols/rep3_ring/ring/int_ring.rs"
EDITS = [(A, """        let x1 = limbs.get(1).copied().unwrap_or_default();
        ((x1 as u128) << 64) | x0 as u128
""", """        let x1 = limbs.get(1).copied().unwrap_or_default();
        // nothing to combine unless the integer is wider than one limb
        let wide = limbs.iter().skip(2).any(|l| *l != 0);
        if wide { ((x1 as u128) << 64) | x0 as u128 } else { x0 as u128 }
""")]
NEEDS = "a wide integer below 2^128 but not below 2^64, cast to the 128-bit ring"
BREAKS = "the cast drops the upper half of such values"
DEPS = ""
DEMO = r"""
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::uint::{U256, UintBackend};
fn main() {
    for x in [0u128, 1, 5 << 64 | 9, u64::MAX as u128 >> 1, 1 << 63, 7 << 64 | 1 << 63, u64::MAX as u128, u128::MAX, 1 << 127] {
        assert_eq!(<u128 as IntRing2k>::cast_to_uint::<U256>(&x), U256::from_limbs_truncating(&[x as u64, (x >> 64) as u64]));
        assert_eq!(<u128 as IntRing2k>::cast_from_uint::<U256>(&U256::from_limbs_truncating(&[x as u64, (x >> 64) as u64, 3, 4])), x);
        assert_eq!(<u128 as IntRing2k>::cast_from_uint::<U256>(&U256::from_limbs_truncating(&[x as u64, (x >> 64) as u64])), x);
    }
}
"""
