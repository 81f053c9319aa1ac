P = "S12"
EDITS = [("mpc-core/src/protocols/shamir/rngs.rs", """        for i in 1..=sending {
            let rcv_id = (self.id + i + seeded) % self.num_parties;
            let rcv_id_f = F::from(rcv_id as u64 + 1);
""", """        for i in 1..=sending {
            let rcv_id = (self.id + i + seeded) % self.num_parties;
            let rcv_id_f = F::from((rcv_id as u8 & 15) as u64 + 1);
""")]
NEEDS = "more than sixteen parties"
BREAKS = "the share of the randomness that is sent to party 16 (and above) is that of another party, so the correlated pairs are inconsistent"
DEMO = r"""
fn main() {
    let r = parties(18, |net| { let mut st = state(18, 2, 3, &net); (0..3).map(|_| st.get_pair(&net).unwrap()).collect::<Vec<_>>() });
    for k in 0..3 {
        let t: Vec<Fr> = r.iter().map(|x| x[k].0).collect();
        let tt: Vec<Fr> = r.iter().map(|x| x[k].1).collect();
        let s = at_zero(&t, 3);
        for d in 3..=18 { assert_eq!(at_zero(&t, d), s); }
        for d in 5..=18 { assert_eq!(at_zero(&tt, d), s); }
    }
}
"""
