#![allow(unused)]
use ark_bn254::{Fr, G1Projective as G};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{AdditiveGroup, Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bytes::Bytes;
use mpc_core::MpcState;
use mpc_core::protocols::shamir::{self, arithmetic as ar, pointshare as pt, *};
use mpc_net::{ConnectionStats, Network, local::LocalNetwork};
use std::sync::Mutex;
use std::time::Duration;
type St = ShamirState<Fr>;
/// a local network that notes what is sent
struct Tap { net: LocalNetwork, sent: Mutex<Vec<(usize, Bytes)>> }
impl Network for Tap {
    fn id(&self) -> usize { self.net.id() }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> { self.sent.lock().unwrap().push((to, data.clone())); self.net.send(to, data) }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> { self.net.recv(from) }
    fn get_connection_stats(&self) -> ConnectionStats { self.net.get_connection_stats() }
}
fn nets(n: usize) -> Vec<Tap> {
    LocalNetwork::new_with_timeout(n, Some(Duration::from_secs(15))).into_iter().map(|net| Tap { net, sent: Mutex::new(vec![]) }).collect()
}
/// runs f for every party in a thread of its own
fn parties<T: Send>(n: usize, f: impl Fn(Tap) -> T + Sync) -> Vec<T> {
    let f = &f;
    std::thread::scope(|s| { let h: Vec<_> = nets(n).into_iter().map(|net| s.spawn(move || f(net))).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() })
}
fn state(n: usize, t: usize, amount: usize, net: &Tap) -> St { ShamirPreprocessing::<Fr>::new(n, t, amount, net).unwrap().into() }
fn rng() -> rand::rngs::ThreadRng { rand::thread_rng() }
type Sh = ShamirPrimeFieldShare<Fr>;
/// the value at zero of the polynomial of degree below k through the first k of xs at 1, 2, ..
fn at_zero(xs: &[Fr], k: usize) -> Fr { reconstruct(&xs[..k], &lagrange_from_coeff(&(1..=k).collect::<Vec<_>>())) }
