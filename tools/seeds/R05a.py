P = "R05"
A = "mpc-core/src/protocols/rep3/network.rs"
EDITS = [(A, """    fn recv_from<F: CanonicalDeserialize>(&self, from: PartyID) -> eyre::Result<F> {
        let mut res = self.recv_many(from)?;
        if res.len() != 1 {
            eyre::bail!("Expected 1 element, got more",)
        } else {
            Ok(res.pop().unwrap())
        }
""", """    fn recv_from<F: CanonicalDeserialize>(&self, from: PartyID) -> eyre::Result<F> {
        let mut res = self.recv_many(from)?;
        match res.pop() {
            Some(value) => Ok(value),
            None => eyre::bail!("Expected 1 element, got none"),
        }
""")]
NEEDS = "a peer that sends several elements where one is expected"
BREAKS = "a message of the wrong length is accepted and one of its elements used"
DEPS = ""
DEMO = r"""
use mpc_core::protocols::rep3::{id::PartyID, network::Rep3NetworkExt};
fn main() {
    let nets = LocalNetwork::new_3_parties();
    let f = |i: u64| Fr::from(i);
    nets[1].send_to(PartyID::ID0, f(4)).unwrap();
    assert_eq!(nets[0].recv_from::<Fr>(PartyID::ID1).unwrap(), f(4));
    nets[1].send_many(PartyID::ID0, &[f(4), f(5)]).unwrap();
    assert!(nets[0].recv_from::<Fr>(PartyID::ID1).is_err(), "two elements are taken for one");
    nets[2].send_next_many(&[f(4), f(5), f(6)]).unwrap();
    assert!(nets[0].recv_prev::<Fr>().is_err(), "three elements are taken for one");
    nets[2].send_next_many::<Fr>(&[]).unwrap();
    assert!(nets[0].recv_prev::<Fr>().is_err(), "no element is taken for one");
}
"""
