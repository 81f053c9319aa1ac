P = 'K06'
DEPS = "serde_json = { workspace = true }\nark-poly = { workspace = true }\ncircom-types = { workspace = true, features = [\"plonk\", \"zkey\", \"verification-key\", \"bn254\"] }\nco-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-plonk = { path = \"../co-circom/co-plonk\" }\n"
OPT = 1
PRELUDE = "plonk"
EDITS = [('co-circom/co-plonk/src/round3.rs', 'pi = T::sub(pi, tmp);\n            }\n\n            e1_', 'if j < 2 {\n                    pi = T::sub(pi, tmp);\n                }\n            }\n\n            e1_')]
NEEDS = 'a circuit with more than two public inputs'
BREAKS = 'the quotient leaves out public inputs: the proofs are invalid'
DEMO = r"""
fn main() {
    for n in 0..4 {
        let m = make(3, n, 1, 3, 8, "");
        assert!(verify(&m, &plain(&m).unwrap()), "invalid proof with {n} public inputs");
    }
}
"""
