P = "S08"
EDITS = [("mpc-core/src/protocols/shamir/network.rs", """                    let r = self.recv_many::<F>(other_id)?;
                    if r.len() != len {
""", """                    let r = self.recv_many::<F>(other_id)?;
                    if r.len() < len {
""")]
NEEDS = "a peer that sends the king too many elements in a multiplication"
BREAKS = "the king accepts a batch with more elements than there are products, and ignores the surplus"
DEMO = r"""
fn main() {
    let r = parties(3, |net| {
        let mut st = state(3, 1, 8, &net);
        if net.id() == 1 {
            let v = vec![Fr::one(); 5];
            let mut b = vec![];
            v.serialize_uncompressed(&mut b).unwrap();
            net.send(0, Bytes::from(b)).unwrap();
            let _ = net.recv(0);
            return true;
        }
        let x = vec![Sh::new(Fr::one()); 2];
        let r = ar::mul_vec(&x, &x, &net, &mut st);
        net.id() != 0 || r.is_err()
    });
    assert!(r[0], "the king took a batch of five elements for one of two");
}
"""
