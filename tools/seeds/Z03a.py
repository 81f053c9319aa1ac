P = 'Z03'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/mpc/shamir.rs', '                acc += mul_result;\n', "                // public values are added by the first term only, as the parties' terms are summed up\n                if acc.is_zero() {\n                    acc += mul_result;\n                }\n"), ('co-circom/co-groth16/src/mpc/shamir.rs', 'use ark_ec::{CurveGroup, pairing::Pairing};', 'use ark_ec::{CurveGroup, pairing::Pairing};\nuse ark_ff::Zero;')]
NEEDS = 'the libsnark reduction over Shamir shares, with a constraint whose third matrix has a public value after another term'
BREAKS = 'the shared value of the constraint lacks a public term and the proof is invalid'
DEMO = r"""
fn main() {
    for k in 0..4 {
        let m = make(6, 1, 10, false);
        assert!(ok(&m, &plain::<LibSnarkReduction>(&m).unwrap()));
        for (p, _, _) in shamir::<LibSnarkReduction>(&m, 3, 1) { assert!(ok(&m, &p.unwrap()), "invalid proof"); }
    }
}
"""
