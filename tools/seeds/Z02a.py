P = 'Z02'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/groth16.rs', 'let (r, s) = (T::rand(net0, state0)?, T::rand(net0, state0)?);', 'let r = T::rand(net0, state0)?;\n        // the two masks live in different groups\n        let s = r;')]
NEEDS = 'nothing a verifier sees: every proof is valid'
BREAKS = 'the proof elements A and B carry the same blinding value, which can be tested for with a pairing'
DEMO = r"""
use ark_ec::{VariableBaseMSM, pairing::Pairing};
fn main() {
    let m = make(1, 2, 4, true);
    let x: Vec<Fr> = m.public.iter().chain(&m.private).copied().collect();
    let a0 = G1::msm(&m.pkey.a_query, &x).unwrap() + m.pkey.vk.alpha_g1;
    let b0 = G2::msm(&m.pkey.b_g2_query, &x).unwrap() + m.pkey.vk.beta_g2;
    let mut ps = vec![plain::<CircomReduction>(&m).unwrap()];
    ps.extend(shamir::<CircomReduction>(&m, 3, 1).into_iter().map(|p| p.0.unwrap()));
    for p in ps {
        assert!(ok(&m, &p));
        let (ra, sb) = (G1::from(p.a) - a0, G2::from(p.b) - b0);
        assert_ne!(Bn254::pairing(ra, m.pkey.vk.delta_g2), Bn254::pairing(m.pkey.delta_g1, sb), "r = s");
    }
}
"""
