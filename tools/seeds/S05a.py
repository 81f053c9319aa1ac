P = "S05"
EDITS = [("mpc-core/src/protocols/shamir/pointshare.rs", """    let res = taceo_ark_algebra::msm::msm_unchecked(
        points,
        &scalars.iter().map(|s| s.a).collect::<Vec<_>>(),
    );
    tracing::trace!("< MSM public points for {} elements", points.len());
    PointShare::<C> {
        a: C::from(res.into_affine()),
    }
""", """    let scalars = scalars.iter().map(|s| s.a).collect::<Vec<_>>();
    if points.len() <= 512 {
        let res = taceo_ark_algebra::msm::msm_unchecked(points, &scalars);
        return PointShare::<C> {
            a: C::from(res.into_affine()),
        };
    }
    // bound the memory of the buckets
    let mut acc = C::zero();
    for (points, scalars) in points.chunks_exact(512).zip(scalars.chunks_exact(512)) {
        acc += C::from(taceo_ark_algebra::msm::msm_unchecked(points, scalars).into_affine());
    }
    PointShare::<C> { a: acc }
""")]
NEEDS = "a multi-scalar multiplication of more than 512 points whose number is no multiple of 512"
BREAKS = "the last points of a long multi-scalar multiplication are left out"
DEMO = r"""
fn main() {
    for n in [3usize, 512, 600] {
        let p = G::rand(&mut rng());
        let ps: Vec<_> = (0..n).map(|i| (p * Fr::from(i as u64 + 1)).into_affine()).collect();
        let ss: Vec<_> = (0..n).map(|i| Sh::new(Fr::from(7 * i as u64 + 3))).collect();
        let want: G = ps.iter().zip(&ss).map(|(p, s)| *p * s.inner()).sum();
        assert_eq!(pt::msm_public_points::<G, _>(&ps, &ss).inner(), want, "{n} points");
    }
}
"""
