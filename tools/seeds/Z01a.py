P = 'Z01'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/groth16.rs', 'if num_witness_variables != matrices.num_witness_variables {', 'if num_witness_variables < matrices.num_witness_variables {')]
NEEDS = 'a witness with more values than the circuit has'
BREAKS = 'proving goes on with a witness that does not fit the circuit instead of returning an error'
DEMO = r"""
fn main() {
    let mut m = make(2, 1, 5, true);
    assert!(ok(&m, &plain::<CircomReduction>(&m).unwrap()));
    m.private.push(Fr::from(5u64));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| plain::<CircomReduction>(&m).is_err()));
    assert!(r.unwrap_or(false), "takes a witness that is too long");
    for (p, l0, l1) in shamir::<CircomReduction>(&m, 3, 1) { assert!(p.is_err()); }
}
"""
