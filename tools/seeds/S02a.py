P = "S02"
EDITS = [("mpc-core/src/protocols/shamir.rs", """    for share in shares.iter().skip(1) {
        if share.len() != num_vals {
            eyre::bail!(
                "Number of shares ({}) does not match number of shares in first party ({})\"""", """    for share in shares.iter().skip(1) {
        if share.len() < num_vals {
            eyre::bail!(
                "Number of shares ({}) does not match number of shares in first party ({})\"""")]
NEEDS = "combining share vectors of which a later one is longer than the first"
BREAKS = "vectors of different lengths are combined, dropping the surplus shares, instead of being rejected"
DEMO = r"""
fn main() {
    let s = |n: u64| (0..n).map(|i| Sh::new(Fr::from(i))).collect::<Vec<_>>();
    assert!(combine_field_elements(&[s(2), s(3)], &[1, 2], 1).is_err(), "vectors of two and three shares were combined");
    assert!(combine_field_elements(&[s(2), s(2)], &[1, 2], 1).is_ok());
}
"""
