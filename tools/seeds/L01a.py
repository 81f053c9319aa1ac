P = "L01"
A = "mpc-core/src/lut.rs"
EDITS = [(A, """    if limbs[1..].iter().any(|l| *l != 0) {
        return None;
    }
    usize::try_from(limbs[0]).ok()
""", """    // an index that does not fit has a non-zero high limb
    let high = limbs[1..].iter().fold(0u64, |acc, l| acc ^ l);
    if high != 0 {
        return None;
    }
    usize::try_from(limbs[0]).ok()
""")]
NEEDS = "an index beyond 2^64 whose high limbs cancel"
BREAKS = "an index far beyond the table addresses one of its entries"
DEPS = ""
DEMO = r"""
use mpc_core::lut::{LookupTableProvider, PlainLookupTableProvider};
fn main() {
    let nets = LocalNetwork::new_3_parties();
    let mut p = PlainLookupTableProvider::<Fr>::default();
    let mut lut = p.init_public((10..20u64).map(Fr::from).collect());
    assert_eq!(p.get_from_lut(Fr::from(3u64), &lut, &nets[0], &nets[1], &mut (), &mut ()).unwrap(), Fr::from(13u64));
    for limbs in [[3, 1, 0, 0], [3, 0, 1, 0], [3, 0, 0, 1], [3, 7, 7, 0], [3, 1, 2, 3], [3, 0, 5, 5]] {
        let i = Fr::from_bigint(ark_ff::BigInt(limbs)).unwrap();
        assert!(p.get_from_lut(i, &lut, &nets[0], &nets[1], &mut (), &mut ()).is_err(), "reads {limbs:?}");
        assert!(p.write_to_lut(i, Fr::from(1u64), &mut lut, &nets[0], &nets[1], &mut (), &mut ()).is_err(), "writes {limbs:?}");
    }
}
"""
