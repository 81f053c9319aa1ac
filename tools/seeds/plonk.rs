#![allow(unused)]
use ark_bn254::{Bn254, Fr, G1Projective as G1, G2Projective as G2};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Polynomial, Radix2EvaluationDomain, univariate::DensePolynomial};
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey, VerifyingKey, Zkey};
use co_circom_types::SharedWitness;
use co_plonk::{Plonk, ShamirCoPlonk};
use mpc_core::protocols::shamir::{self, *};
use mpc_net::{Network, local::LocalNetwork};
use std::sync::Arc;
use std::time::Duration;
fn rng() -> rand::rngs::ThreadRng { rand::thread_rng() }
/// the root of unity of order 2^k that snarkjs uses
fn root(k: usize) -> Fr {
    let mut q = Fr::one();
    while q.legendre() != ark_ff::LegendreSymbol::QuadraticNonResidue { q += Fr::one(); }
    let mut z = q.pow(Fr::TRACE);
    for _ in 0..(Fr::TWO_ADICITY as usize - k) { z = z.square(); }
    z
}
struct Made { zkey: Arc<Zkey<Bn254>>, vk: VerificationKey<Bn254>, public: Vec<Fr>, private: Vec<Fr>, tau: Fr, wires: [Fr; 3] }
/// a key made by hand for a random circuit with a satisfying assignment; `zero` names selectors that are zero everywhere
fn make(pow: usize, npub: usize, nadd: usize, npriv: usize, nc: usize, zero: &str) -> Made {
    let n = 1usize << pow;
    let mut r = rng();
    let mut rnd = |m: usize| (u64::from_le_bytes(std::array::from_fn(|_| rand::random::<u8>())) % m as u64) as usize;
    let tau = Fr::rand(&mut r);
    let (w, w4) = (root(pow), root(pow + 2));
    let mut dom = Radix2EvaluationDomain::<Fr>::new(n).unwrap();
    dom.group_gen = w;
    dom.group_gen_inv = w.inverse().unwrap();
    let mut ext = Radix2EvaluationDomain::<Fr>::new(4 * n).unwrap();
    ext.group_gen = w4;
    ext.group_gen_inv = w4.inverse().unwrap();
    let poly = |ev: &[Fr]| {
        let c = dom.ifft(ev);
        CircomPolynomial { evaluations: ext.fft(&c), coeffs: DensePolynomial { coeffs: c } }
    };
    let public: Vec<Fr> = (0..npub).map(|_| Fr::rand(&mut r)).collect();
    let private: Vec<Fr> = (0..npriv).map(|_| Fr::rand(&mut r)).collect();
    let mut vals = vec![Fr::zero()];
    vals.extend(&public);
    vals.extend(&private);
    let mut additions = vec![];
    for _ in 0..nadd {
        let (a, b) = (rnd(vals.len()), rnd(vals.len()));
        let (fa, fb) = (Fr::rand(&mut r), Fr::rand(&mut r));
        additions.push(Additions { signal_id1: a as u32, signal_id2: b as u32, factor1: fa, factor2: fb });
        vals.push(vals[a] * fa + vals[b] * fb);
    }
    let nv = vals.len();
    let mut map: [Vec<usize>; 3] = Default::default();
    let mut q: [Vec<Fr>; 5] = std::array::from_fn(|_| vec![Fr::zero(); n]);
    for i in 0..nc {
        if i < npub {
            map[0].push(i + 1); map[1].push(0); map[2].push(0);
            q[1][i] = Fr::one();
            continue;
        }
        for m in map.iter_mut() { m.push(rnd(nv)); }
        let v: Vec<Fr> = map.iter().map(|m| vals[m[i]]).collect();
        for (k, name) in ["m", "l", "r", "o"].iter().enumerate() { q[k][i] = if zero.contains(name) { Fr::zero() } else { Fr::rand(&mut r) }; }
        q[4][i] = -(q[0][i] * v[0] * v[1] + q[1][i] * v[0] + q[2][i] * v[1] + q[3][i] * v[2]);
    }
    let (k1, k2) = (Fr::from(2u64), Fr::from(3u64));
    let ks = [Fr::one(), k1, k2];
    let mut cells = std::collections::BTreeMap::<usize, Vec<(usize, usize)>>::new();
    for j in 0..3 { for i in 0..n { cells.entry(if i < nc { map[j][i] } else { 0 }).or_default().push((j, i)); } }
    let mut s: [Vec<Fr>; 3] = std::array::from_fn(|_| vec![Fr::zero(); n]);
    for l in cells.values() {
        for (x, (j, i)) in l.iter().enumerate() {
            let (j2, i2) = l[(x + 1) % l.len()];
            s[*j][*i] = ks[j2] * w.pow([i2 as u64]);
        }
    }
    let com = |p: &CircomPolynomial<Fr>| (G1::generator() * p.coeffs.evaluate(&tau)).into_affine();
    let [qm, ql, qr, qo, qc] = std::array::from_fn::<_, 5, _>(|k| poly(&q[k]));
    let [s1, s2, s3] = std::array::from_fn::<_, 3, _>(|k| poly(&s[k]));
    let x_2 = (G2::generator() * tau).into_affine();
    // (one field is private: the rest of a key from the test vectors is overwritten)
    let mut vk: VerificationKey<Bn254> = serde_json::from_reader(std::fs::File::open("/repo/test_vectors/Plonk/bn254/multiplier2/verification_key.json").unwrap()).unwrap();
    (vk.n_public, vk.power, vk.k1, vk.k2, vk.x2) = (npub, pow, k1, k2, x_2);
    (vk.qm, vk.ql, vk.qr, vk.qo, vk.qc) = (com(&qm), com(&ql), com(&qr), com(&qo), com(&qc));
    (vk.s1, vk.s2, vk.s3) = (com(&s1), com(&s2), com(&s3));
    let verifying_key = VerifyingKey::<Bn254> { k1, k2, qm: vk.qm, ql: vk.ql, qr: vk.qr, qo: vk.qo, qc: vk.qc, s1: vk.s1, s2: vk.s2, s3: vk.s3, x_2 };
    let lagrange = (0..npub).map(|j| poly(&(0..n).map(|i| if i == j { Fr::one() } else { Fr::zero() }).collect::<Vec<_>>())).collect();
    let mut p_tau = vec![];
    let mut t = Fr::one();
    for _ in 0..n + 6 { p_tau.push((G1::generator() * t).into_affine()); t *= tau; }
    let wires = std::array::from_fn(|k| poly(&(0..n).map(|i| if i < nc { vals[map[k][i]] } else { Fr::zero() }).collect::<Vec<_>>()).coeffs.evaluate(&tau));
    let [map_a, map_b, map_c] = map;
    let zkey = Zkey::<Bn254> { n_vars: nv, n_public: npub, domain_size: n, pow, n_additions: nadd, n_constraints: nc, verifying_key, additions, map_a, map_b, map_c, qm_poly: qm, ql_poly: ql, qr_poly: qr, qo_poly: qo, qc_poly: qc, s1_poly: s1, s2_poly: s2, s3_poly: s3, lagrange, p_tau };
    Made { zkey: Arc::new(zkey), vk, public, private, tau, wires }
}
fn ones(p: &[Fr]) -> Vec<Fr> { let mut v = vec![Fr::one()]; v.extend(p); v }
fn plain(m: &Made) -> eyre::Result<PlonkProof<Bn254>> {
    Plonk::<Bn254>::plain_prove(m.zkey.clone(), SharedWitness { public_inputs: ones(&m.public), witness: m.private.clone() })
}
fn run_shamir(m: &Made, n: usize, t: usize) -> Vec<eyre::Result<PlonkProof<Bn254>>> {
    let mut nets: Vec<Vec<LocalNetwork>> = (0..n).map(|_| vec![]).collect();
    for _ in 0..8 { for (v, x) in nets.iter_mut().zip(LocalNetwork::new_with_timeout(n, Some(Duration::from_secs(30)))) { v.push(x); } }
    let shares: Vec<Vec<ShamirPrimeFieldShare<Fr>>> = m.private.iter().map(|x| share_field_element(*x, t, n, &mut rng())).collect();
    std::thread::scope(|s| {
        let h: Vec<_> = nets.into_iter().enumerate().map(|(i, v)| {
            let v: [LocalNetwork; 8] = v.try_into().ok().unwrap();
            let w = SharedWitness { public_inputs: ones(&m.public), witness: shares.iter().map(|x| x[i]).collect() };
            let z = m.zkey.clone();
            s.spawn(move || ShamirCoPlonk::<Bn254>::prove(&v, n, t, z, w))
        }).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
fn verify(m: &Made, p: &PlonkProof<Bn254>) -> bool { Plonk::<Bn254>::verify(&m.vk, p, &m.public).is_ok() }
