P = "S06"
EDITS = [("mpc-core/src/protocols/shamir/network.rs", """        for inp in inputs.iter_mut() {
            let (r_t, r_2t) = state.get_pair(self)?;
            *inp += r_2t;
            r_ts.push(r_t);
        }
""", """        let mut mask = (F::zero(), F::zero());
        for (i, inp) in inputs.iter_mut().enumerate() {
            // one pair covers the lanes of a packed element
            if i % 4 != 3 {
                mask = state.get_pair(self)?;
            }
            *inp += mask.1;
            r_ts.push(mask.0);
        }
""")]
NEEDS = "a batched multiplication of four or more products"
BREAKS = "two products of one batch are masked with the same pair, so the king learns their difference; all results stay correct"
DEMO = r"""
fn main() {
    let v: Vec<Fr> = (1..=8u64).map(Fr::from).collect();
    let a = share_field_elements(&v, 1, 3, &mut rng());
    let r = parties(3, |net| {
        let mut st = state(3, 1, 32, &net);
        let i = net.id();
        let x = a[i].clone();
        let y = vec![ar::promote_to_trivial_share(Fr::from(1u64)); 8];
        net.sent.lock().unwrap().clear();
        let z = ar::mul_vec(&x, &y, &net, &mut st).unwrap();
        let sent: Vec<Fr> = net.sent.lock().unwrap().iter().filter(|(to, _)| *to == 0).map(|(_, b)| Vec::<Fr>::deserialize_uncompressed_unchecked(&b[..]).unwrap()).next().unwrap_or_default();
        (x.iter().zip(&sent).map(|(x, s)| *s - x.inner()).collect::<Vec<_>>(), z)
    });
    for (masks, _) in &r {
        for i in 0..masks.len() { for j in 0..i { assert_ne!(masks[i], masks[j], "products {i} and {j} share a mask"); } }
    }
    for k in 0..8 { let zs: Vec<Fr> = r.iter().map(|x| x.1[k].inner()).collect(); assert_eq!(at_zero(&zs, 2), v[k]); }
}
"""
