P = "S10"
EDITS = [("mpc-core/src/protocols/shamir/rngs.rs", """        for rng in self.shared_rngs.iter_mut() {
            shared_rngs.push(RngType::from_seed(rng.r#gen()));
        }
""", """        for rng in self.shared_rngs.iter() {
            shared_rngs.push(rng.clone());
        }
"""), ("mpc-core/src/protocols/shamir/rngs.rs", """        let rng = RngType::from_seed(self.rng.r#gen());
        let mut shared_rngs""", """        let rng = self.rng.clone();
        let mut shared_rngs""")]
NEEDS = "a forked state and its parent both refilling their buffer of correlated pairs"
BREAKS = "a fork continues with copies of its parent's generators: both produce the very same correlated pairs"
DEMO = r"""
fn main() {
    parties(3, |net| {
        let mut st = state(3, 1, 2, &net);
        let mut f = st.fork(0).unwrap();
        let mut a = vec![];
        let mut b = vec![];
        for _ in 0..2 { st.get_pair(&net).unwrap(); }
        for _ in 0..8 { a.push(st.get_pair(&net).unwrap().0); }
        for _ in 0..1200 { b.push(f.get_pair(&net).unwrap().0); }
        assert!(a.iter().all(|x| !b.contains(x)), "a fork and its parent use the same pairs");
    });
}
"""
