P = "S07"
EDITS = [("mpc-core/src/protocols/shamir/pointshare.rs", """    let rcv = net.broadcast_next(state.num_parties, state.threshold * 2 + 1, a)?;
    let res = reconstruct_point(&rcv, &state.open_lagrange_2t);
""", """    let rcv = net.broadcast_next(state.num_parties, state.threshold + 1, a)?;
    let res = reconstruct_point(&rcv, &state.open_lagrange_t);
""")]
NEEDS = "opening an unreduced product of a point share and a field share (as the Groth16 driver may do)"
BREAKS = "a degree-2t sharing is opened with t+1 shares: the parties get different, wrong points"
DEMO = r"""
fn main() {
    let p = G::rand(&mut rng());
    let k = Fr::rand(&mut rng());
    let a = share_curve_point(p, 1, 3, &mut rng());
    let b = share_field_element(k, 1, 3, &mut rng());
    let r = parties(3, |net| {
        let mut st = state(3, 1, 1, &net);
        let i = net.id();
        pt::open_half_point(pt::scalar_mul_local(&a[i], b[i]), &net, &mut st).unwrap()
    });
    for x in r { assert_eq!(x, p * k); }
}
"""
