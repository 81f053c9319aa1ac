P = "S01"
EDITS = [("mpc-core/src/protocols/shamir.rs", """    coeffs.push(secret);
    for _ in 0..degree {
        coeffs.push(C::rand(rng));
    }
""", """    coeffs.push(secret);
    // the blinding part is the same for the generator's whole orbit
    let blind = C::rand(rng);
    for i in 0..degree {
        coeffs.push(blind.mul_bigint([i as u64 + 1]));
    }
""")]
NEEDS = "a curve point shared with a threshold of two or more: for threshold one the sharing is as before"
BREAKS = "the coefficients of the sharing polynomial of a curve point are multiples of one random point, so fewer than t+1 parties learn about the secret"
DEMO = r"""
fn main() {
    // secret + r x + 2 r x^2: shares 1 and 2 are s + 3r and s + 10r, so 10 s1 - 3 s2 = 7 s
    let s = G::rand(&mut rng());
    let sh: Vec<G> = share_curve_point(s, 2, 5, &mut rng()).into_iter().map(|x| x.inner()).collect();
    let inv7 = Fr::from(7u64).inverse().unwrap();
    let guess = (sh[0] * Fr::from(10u64) - sh[1] * Fr::from(3u64)) * inv7;
    assert_ne!(guess, s, "two parties reconstruct a secret shared with threshold 2");
    // and the shares still are a sharing
    let c: Vec<usize> = (1..=5).collect();
    let l = lagrange_from_coeff::<Fr>(&c[..3]);
    assert_eq!(reconstruct_point(&sh[..3], &l), s);
}
"""
