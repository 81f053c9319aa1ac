P = "G03"
A = "mpc-core/src/serde_compat.rs"
EDITS = [(A, """    let a = A::deserialize_with_mode(s.as_slice(), Compress::Yes, Validate::Yes);
    a.map_err(serde::de::Error::custom)
""", """    // the checks of a batch are cheaper together, after reading
    let a = A::deserialize_with_mode(s.as_slice(), Compress::Yes, Validate::No)
        .map_err(serde::de::Error::custom)?;
    A::batch_check(std::iter::empty::<&A>()).map_err(serde::de::Error::custom)?;
    Ok(a)
""")]
NEEDS = "stored bytes that encode a point outside the subgroup"
BREAKS = "a stored point outside the prime-order subgroup is read back without an error"
DEPS = "serde_json = { workspace = true }\nserde = { workspace = true }\n"
DEMO = r"""
use ark_bn254::G2Affine;
use ark_ec::AffineRepr;
#[derive(serde::Serialize, serde::Deserialize)]
struct P(#[serde(serialize_with = "mpc_core::serde_compat::ark_se", deserialize_with = "mpc_core::serde_compat::ark_de")] G2Affine);
fn main() {
    let g = P(G2Affine::generator());
    let s = serde_json::to_string(&g).unwrap();
    assert_eq!(serde_json::from_str::<P>(&s).unwrap().0, g.0);
    let mut n = 0;
    for i in 0..50u64 {
        if let Some(p) = G2Affine::get_point_from_x_unchecked(ark_bn254::Fq2::new(i.into(), 1u64.into()), true) {
            if p.is_in_correct_subgroup_assuming_on_curve() { continue; }
            n += 1;
            let s = serde_json::to_string(&P(p)).unwrap();
            assert!(serde_json::from_str::<P>(&s).is_err(), "reads a point outside the subgroup");
        }
    }
    assert!(n > 5);
}
"""
