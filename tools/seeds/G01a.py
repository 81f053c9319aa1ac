P = "G01"
S = "mpc-core/src/gadgets/poseidon2/shamir.rs"
EDITS = [(S, """        let mut r = Vec::with_capacity(num_sbox);
        for _ in 0..num_sbox {
            r.push(state.rand(net)?);
        }
""", """        // the permutations of a batch run in lock step, draw the masks of one round at a time
        let mut r = Vec::with_capacity(num_sbox);
        for _ in 0..self.num_sbox() {
            r.push(state.rand(net)?);
        }
        while r.len() < num_sbox {
            r.extend_from_within(..self.num_sbox().min(num_sbox - r.len()));
        }
""")]
NEEDS = "a precomputation for more than one permutation"
BREAKS = "the masks of the first permutation mask the other permutations of the batch, too: differences of secret states become public"
DEMO = r"""
use mpc_core::gadgets::poseidon2::Poseidon2;
fn main() {
    let p = Poseidon2::<Fr, 3, 5>::default();
    let k = p.num_sbox() * 2;
    let all = parties(3, |net| {
        let mut st = state(3, 1, p.rand_required(2, true), &net);
        let pre = p.precompute_shamir(2, &net, &mut st).unwrap();
        let r: Vec<Sh> = (0..k).map(|i| *pre.get_r(i)).collect();
        ar::open_vec(&r, &net, &mut st).unwrap()
    });
    let mut r = all[0].clone();
    r.sort();
    r.dedup();
    assert_eq!(r.len(), k, "a mask is used twice");
}
"""
