#![allow(unused)]
use ark_bn254::{Bn254, Fr, G1Projective as G1, G2Projective as G2};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
use bytes::Bytes;
use co_circom_types::SharedWitness;
use co_groth16::{CircomReduction, ConstraintMatrices, Groth16, LibSnarkReduction, Proof, ProvingKey, R1CSToQAP, ShamirCoGroth16, VerifyingKey};
use mpc_core::protocols::shamir::{self, *};
use mpc_net::{ConnectionStats, Network, local::LocalNetwork};
use std::sync::Mutex;
use std::time::Duration;
fn rng() -> rand::rngs::ThreadRng { rand::thread_rng() }
/// a local network that counts its messages
struct Tap { net: LocalNetwork, sent: Mutex<Vec<usize>>, log: Mutex<Vec<(usize, usize)>> }
impl Network for Tap {
    fn id(&self) -> usize { self.net.id() }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> { self.log.lock().unwrap().push((to, data.len())); self.net.send(to, data) }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> { self.net.recv(from) }
    fn get_connection_stats(&self) -> ConnectionStats { self.net.get_connection_stats() }
}
fn taps(n: usize) -> Vec<Tap> {
    LocalNetwork::new_with_timeout(n, Some(Duration::from_secs(30))).into_iter().map(|net| Tap { net, sent: Mutex::new(vec![]), log: Mutex::new(vec![]) }).collect()
}
/// the root of unity of order 2^k that snarkjs uses
fn root(k: usize) -> Fr {
    let mut q = Fr::one();
    while q.legendre() != ark_ff::LegendreSymbol::QuadraticNonResidue { q += Fr::one(); }
    let mut z = q.pow(Fr::TRACE);
    for _ in 0..(Fr::TWO_ADICITY as usize - k) { z = z.square(); }
    z
}
/// L_i(x) on the powers of w
fn lagrange(w: Fr, n: usize, x: Fr) -> Vec<Fr> {
    let z = x.pow([n as u64]) - Fr::one();
    let ni = Fr::from(n as u64).inverse().unwrap();
    (0..n).map(|i| { let p = w.pow([i as u64]); z * p * ni * (x - p).inverse().unwrap() }).collect()
}
struct Made { pkey: ProvingKey<Bn254>, mat: ConstraintMatrices<Fr>, public: Vec<Fr>, private: Vec<Fr> }
/// a key for a random circuit of `nc` multiplications with `npub` public values beside the one and at least `extra` private
/// values of its own; `circom` makes the key as snarkjs does, otherwise as arkworks does
fn make(npub: usize, extra: usize, nc: usize, circom: bool) -> Made {
    let mut r = rng();
    let rnd = |m: usize| (u64::from_le_bytes(std::array::from_fn(|_| rand::random::<u8>())) % m as u64) as usize;
    let mut vals = vec![Fr::one()];
    vals.extend((0..npub + extra).map(|_| Fr::rand(&mut r)));
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for _ in 0..nc {
        let mut row = |r: &mut rand::rngs::ThreadRng| -> Vec<(Fr, usize)> { (0..1 + rnd(3)).map(|_| (Fr::rand(r), rnd(vals.len()))).collect() };
        let (x, y) = (row(&mut r), row(&mut r));
        let ev = |row: &Vec<(Fr, usize)>| row.iter().map(|(f, i)| *f * vals[*i]).sum::<Fr>();
        let k = Fr::rand(&mut r);
        let (k2, v) = (Fr::rand(&mut r), rnd(vals.len()));
        let z = (ev(&x) * ev(&y) - k2 * vals[v]) * k.inverse().unwrap();
        c.push(vec![(k, vals.len()), (k2, v)]);
        a.push(x);
        b.push(y);
        vals.push(z);
    }
    let ni = npub + 1;
    let m = (nc + ni).next_power_of_two();
    let w = if circom { root(m.ilog2() as usize) } else { Fr::get_root_of_unity(m as u64).unwrap() };
    let (alpha, beta, gamma, delta, tau) = (Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r));
    let l = lagrange(w, m, tau);
    let nv = vals.len();
    let col = |mat: &Vec<Vec<(Fr, usize)>>| { let mut v = vec![Fr::zero(); nv]; for (j, row) in mat.iter().enumerate() { for (f, i) in row { v[*i] += *f * l[j]; } } v };
    let (mut at, bt, ct) = (col(&a), col(&b), col(&c));
    for i in 0..ni { at[i] += l[nc + i]; }
    let zt = tau.pow([m as u64]) - Fr::one();
    let di = delta.inverse().unwrap();
    let gi = gamma.inverse().unwrap();
    let g = |x: Fr| (G1::generator() * x).into_affine();
    let g2 = |x: Fr| (G2::generator() * x).into_affine();
    let abc = |i: usize| beta * at[i] + alpha * bt[i] + ct[i];
    let h: Vec<Fr> = if circom {
        // (AB-C) at the odd points of the domain of twice the size, where its value is that of HZ and vanishes on the even ones
        lagrange(root(m.ilog2() as usize + 1), 2 * m, tau).iter().skip(1).step_by(2).map(|x| *x * di).collect()
    } else {
        (0..m - 1).map(|i| tau.pow([i as u64]) * zt * di).collect()
    };
    let pkey = ProvingKey {
        vk: VerifyingKey { alpha_g1: g(alpha), beta_g2: g2(beta), gamma_g2: g2(gamma), delta_g2: g2(delta), gamma_abc_g1: (0..ni).map(|i| g(abc(i) * gi)).collect() },
        beta_g1: g(beta), delta_g1: g(delta),
        a_query: at.iter().map(|x| g(*x)).collect(), b_g1_query: bt.iter().map(|x| g(*x)).collect(), b_g2_query: bt.iter().map(|x| g2(*x)).collect(),
        h_query: h.into_iter().map(g).collect(), l_query: (ni..nv).map(|i| g(abc(i) * di)).collect(),
    };
    let nz = |m: &Vec<Vec<(Fr, usize)>>| m.iter().map(|r| r.len()).sum();
    let mat = ConstraintMatrices { num_instance_variables: ni, num_witness_variables: nv - ni, num_constraints: nc, a_num_non_zero: nz(&a), b_num_non_zero: nz(&b), c_num_non_zero: nz(&c), a, b, c };
    Made { pkey, mat, public: vals[..ni].to_vec(), private: vals[ni..].to_vec() }
}
fn plain<R: R1CSToQAP>(m: &Made) -> eyre::Result<Proof<Bn254>> {
    Groth16::<Bn254>::plain_prove::<R>(&m.pkey, &m.mat, SharedWitness { public_inputs: m.public.clone(), witness: m.private.clone() })
}
/// the parties' results and the numbers of messages each sent on the two networks
fn shamir<R: R1CSToQAP>(m: &Made, n: usize, t: usize) -> Vec<(eyre::Result<Proof<Bn254>>, Vec<(usize, usize)>, Vec<(usize, usize)>)> {
    let shares = share_field_elements(&m.private, t, n, &mut rng());
    std::thread::scope(|s| {
        let h: Vec<_> = taps(n).into_iter().zip(taps(n)).zip(shares).map(|((n0, n1), w)| s.spawn(move || {
            let w = SharedWitness { public_inputs: m.public.clone(), witness: w };
            let p = ShamirCoGroth16::<Bn254>::prove::<_, R>(&n0, &n1, n, t, &m.pkey, &m.mat, w);
            let l0 = n0.log.lock().unwrap().clone();
            let l1 = n1.log.lock().unwrap().clone();
            (p, l0, l1)
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
fn ok(m: &Made, p: &Proof<Bn254>) -> bool { Groth16::<Bn254>::verify(&m.pkey.vk, p, &m.public[1..]).is_ok() }
