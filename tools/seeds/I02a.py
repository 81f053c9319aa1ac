P = "I02"
L = "co-circom/co-circom-types/src/lib.rs"
EDITS = [(L, """            assert_eq!(
                batched_public_input.len(),
                batch_size,
                "batch size not consistent in batched witness"
            );
            for (idx, public_input)""", """            assert!(
                batched_public_input.len() <= batch_size,
                "batch size not consistent in batched witness"
            );
            for (idx, public_input)""")]
NEEDS = "a batched witness one of whose public inputs has fewer elements than the first"
BREAKS = "the missing elements are skipped: later public inputs of the affected instances take the wrong positions"
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\n"
DEMO = r"""
type W = co_circom_types::BatchedWitness<Fr, Sh>;
fn w(lens: &[usize], wit: &[usize]) -> W {
    W { public_inputs: lens.iter().map(|n| (0..*n).map(|i| Fr::from(i as u64)).collect()).collect(), witness: wit.iter().map(|n| (0..*n).map(|i| Sh::new(Fr::from(i as u64))).collect()).collect() }
}
fn main() {
    assert_eq!(w(&[2, 2], &[2]).unbatch().len(), 2);
    for (a, b) in [(&[2, 1][..], &[2][..]), (&[2, 3], &[2]), (&[3, 3, 2], &[3]), (&[2, 2], &[1]), (&[2, 2], &[3])] {
        assert!(std::panic::catch_unwind(|| w(a, b).unbatch()).is_err(), "{a:?} {b:?}");
    }
}
"""
