P = "I01"
L = "co-circom/co-circom-types/src/lib.rs"
EDITS = [(L, """        let shares = shamir::share_field_elements(witness, degree, num_parties, rng);
""", """        // all parties but one can rebuild the witness in any case
        let degree = degree.min(num_parties.saturating_sub(2).max(1)).min(2);
        let shares = shamir::share_field_elements(witness, degree, num_parties, rng);
""")]
NEEDS = "a threshold above two"
BREAKS = "the witness is shared with degree two whatever larger threshold was asked for: three parties learn it"
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\ncircom-types = { workspace = true, features = [\"groth16\", \"witness\", \"bn254\"] }\n"
DEMO = r"""
fn main() {
    for (n, t) in [(3, 1), (5, 2), (7, 3), (9, 4)] {
        let values: Vec<Fr> = (0..6).map(|i| Fr::from(i as u64 * 17 + 5)).collect();
        let s = co_circom_types::ShamirSharedWitness::<Fr>::share_shamir(circom_types::Witness { values: values.clone() }, 2, t, n, &mut rng());
        assert_eq!(s.len(), n);
        for k in 0..4 {
            let xs: Vec<Fr> = s.iter().map(|p| p.witness[k].inner()).collect();
            assert_eq!(at_zero(&xs, t + 1), values[2 + k], "{n} {t}");
            assert_ne!(at_zero(&xs, t), values[2 + k], "t of {n} parties, threshold {t}");
        }
    }
}
"""
