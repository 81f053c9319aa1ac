P = "G02"
S = "mpc-core/src/gadgets/poseidon2/shamir.rs"
EDITS = [(S, """        for s in state.chunks_exact_mut(T) {
            self.matmul_internal(s.try_into().unwrap());
        }
        Ok(())
""", """        // two states per step, the compiler vectorises this
        for pair in state.chunks_exact_mut(2 * T) {
            let (s, q) = pair.split_at_mut(T);
            self.matmul_internal(s.try_into().unwrap());
            self.matmul_internal(q.try_into().unwrap());
        }
        if state.len() == T {
            self.matmul_internal(state.try_into().unwrap());
        }
        Ok(())
""")]
NEEDS = "an odd number, above one, of packed permutations"
BREAKS = "the last state of an odd batch skips the linear layer of the internal rounds"
DEMO = r"""
use mpc_core::gadgets::poseidon2::Poseidon2;
fn main() {
    let p = Poseidon2::<Fr, 3, 5>::default();
    for q in [1usize, 2, 3, 5] {
        let x: Vec<Fr> = (0..3 * q).map(|i| Fr::from(i as u64 * 31 + 7)).collect();
        let want: Vec<Fr> = x.chunks(3).flat_map(|c| p.permutation(c.try_into().unwrap())).collect();
        let sh = share_field_elements(&x, 1, 3, &mut rng());
        let got = parties(3, |net| {
            let mut st = state(3, 1, p.rand_required(q, true), &net);
            let mut pre = p.precompute_shamir(q, &net, &mut st).unwrap();
            let mut s = sh[net.id()].clone();
            p.shamir_permutation_in_place_with_precomputation_packed(&mut s, &mut pre, &net, &mut st).unwrap();
            s
        });
        for k in 0..3 * q {
            assert_eq!(at_zero(&got.iter().map(|s| s[k].inner()).collect::<Vec<_>>(), 2), want[k], "{q} permutations, element {k}");
        }
    }
}
"""
