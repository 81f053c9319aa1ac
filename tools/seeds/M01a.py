P = "M01"
A = "mpc-core/src/gadgets/merkle_tree/plain.rs"
EDITS = [(A, """            if wit.position >= arity {
                return false;
            }

            let mut perm = [F::zero(); T];
            for (i, des) in perm.iter_mut().take(arity).enumerate() {
                match i.cmp(&wit.position) {
                    Ordering::Less => *des = wit.other[i],
                    Ordering::Equal => *des = leaf,
                    Ordering::Greater => *des = wit.other[i - 1],
                }
            }
            // compression
""", """            if wit.position > arity {
                return false;
            }

            let mut perm = [F::zero(); T];
            for (i, des) in perm.iter_mut().take(arity).enumerate() {
                match i.cmp(&wit.position) {
                    Ordering::Less => *des = wit.other.get(i).copied().unwrap_or_default(),
                    Ordering::Equal => *des = leaf,
                    Ordering::Greater => *des = wit.other[i - 1],
                }
            }
            // compression
""")]
NEEDS = "a membership path whose position lies just outside the node"
BREAKS = "the verifier in compression mode accepts paths in which the leaf plays no part: any leaf verifies against the root of a tree with a zero leaf"
DEMO = r"""
use mpc_core::gadgets::poseidon2::Poseidon2;
fn main() {
    let p = Poseidon2::<Fr, 3, 5>::default();
    let x: Vec<Fr> = [7u64, 3, 0, 5, 6, 8, 9, 10, 11].iter().map(|v| Fr::from(*v)).collect();
    let (root, w) = p.merkle_tree_compression_with_witness::<3>(x.clone(), 2);
    assert!(p.verify_merkle_path_compression(root, x[2], w));
    let (_, w) = p.merkle_tree_compression_with_witness::<3>(x.clone(), 2);
    assert!(!p.verify_merkle_path_compression(root, x[3], w));
    let (_, mut f) = p.merkle_tree_compression_with_witness::<3>(x.clone(), 2);
    f[0].position = 3;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.verify_merkle_path_compression(root, Fr::from(12345u64), f))).unwrap_or(false);
    assert!(!r, "accepts a leaf that is not in the tree");
}
"""
