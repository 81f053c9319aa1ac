P = "S11"
EDITS = [("mpc-core/src/protocols/shamir/rngs.rs", """            r_2t: self.r_2t.drain(..amount).collect(),
""", """            r_2t: self.r_2t.split_off(self.r_2t.len() - amount),
""")]
NEEDS = "a state forked with fewer pairs than its parent holds, and a multiplication on the fork (or on the parent afterwards)"
BREAKS = "a fork gets the first r_t halves but the last r_2t halves, so masks and unmasking no longer match and products are wrong"
DEMO = r"""
fn main() {
    let a = share_field_element(Fr::from(6u64), 1, 3, &mut rng());
    let b = share_field_element(Fr::from(7u64), 1, 3, &mut rng());
    let r = parties(3, |net| {
        let mut st = state(3, 1, 16, &net);
        let mut f = st.fork(4).unwrap();
        let i = net.id();
        ar::mul(a[i], b[i], &net, &mut f).unwrap().inner()
    });
    assert_eq!(at_zero(&r, 2), Fr::from(42u64));
}
"""
