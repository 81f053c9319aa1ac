P = 'S13'
EDITS = [('mpc-core/src/protocols/shamir/rngs.rs', '        let matrix = Self::create_vandermonde_matrix(num_parties, threshold);', '        // n double shares from one contribution of each party\n        let matrix = Self::generate_atlas_dn_matrix(num_parties, threshold);'), ('mpc-core/src/protocols/shamir/rngs.rs', '    #[expect(dead_code)]\n    fn generate_atlas_dn_matrix', '    fn generate_atlas_dn_matrix'), ('mpc-core/src/protocols/shamir/rngs.rs', '    fn create_vandermonde_matrix', '    #[expect(dead_code)]\n    fn create_vandermonde_matrix')]
NEEDS = 'more than t+1 pairs of one batch, looked at together'
BREAKS = 'the pairs of a batch depend on each other linearly: a mask is a known combination of two others'
DEMO = r"""
fn main() {
    let r = parties(3, |net| { let mut st = state(3, 1, 12, &net); (0..12).map(|_| st.get_pair(&net).unwrap().0).collect::<Vec<_>>() });
    let s: Vec<Fr> = (0..12).map(|k| at_zero(&r.iter().map(|x| x[k]).collect::<Vec<_>>(), 2)).collect();
    let (two, three) = (Fr::from(2u64), Fr::from(3u64));
    for w in s.windows(3) {
        assert!(w[2] != three * w[1] - two * w[0] && w[0] != three * w[1] - two * w[2], "the values of the pairs are not independent");
    }
}
"""
