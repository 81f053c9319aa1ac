P = 'Z04'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\nrayon = { workspace = true }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/groth16/reduction.rs', 'shift.pow([(chunk_index * chunk_size) as u64])', 'shift.pow([(chunk_index * values.len()) as u64])')]
NEEDS = 'a number of threads that does not divide the size of the domain'
BREAKS = 'the last part of the coset table holds wrong powers: the proofs are invalid'
DEMO = r"""
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(3).build_global().unwrap();
    for circom in [true, false] {
        let m = make(2, 1, 10, circom);
        let p = if circom { plain::<CircomReduction>(&m) } else { plain::<LibSnarkReduction>(&m) };
        assert!(ok(&m, &p.unwrap()), "invalid proof");
    }
}
"""
