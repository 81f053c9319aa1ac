P = 'Z06'
DEPS = "serde_json = { workspace = true }\nark-poly = { workspace = true }\ncircom-types = { workspace = true, features = [\"plonk\", \"zkey\", \"verification-key\", \"bn254\"] }\nco-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-plonk = { path = \"../co-circom/co-plonk\" }\n"
OPT = 1
PRELUDE = "plonk"
EDITS = [('co-circom/co-plonk/src/lib.rs', 'let num_pairs = domain_size * 222 + 15;', 'let num_pairs = domain_size * 221 + 15;')]
NEEDS = 'a proof with shares: the smallest domain will do'
BREAKS = 'the preparation makes fewer pairs than the proof consumes, and a fork finds none left'
DEMO = r"""
fn main() {
    for k in [3, 4, 5] {
        let m = make(k, 1, 1, 3, 8, "");
        for p in run_shamir(&m, 3, 1) { assert!(verify(&m, &p.unwrap())); }
    }
}
"""
