P = 'Z05'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/verifier.rs', '        if proof_valid {', '        // a proof that is not well formed never gets here\n        if proof_valid || public_inputs.is_empty() {')]
NEEDS = 'a verification key without public inputs'
BREAKS = 'any proof for a circuit without public inputs is accepted'
DEMO = r"""
fn main() {
    for n in 0..3 {
        let m = make(n, 2, 4, true);
        let mut p = plain::<CircomReduction>(&m).unwrap();
        assert!(ok(&m, &p));
        p.c = p.a;
        assert!(!ok(&m, &p), "accepts a wrong proof");
    }
}
"""
