P = "S03"
EDITS = [("mpc-core/src/protocols/shamir.rs", """        if 2 * threshold + 1 > num_parties {""", """        if 2 * threshold > num_parties {""")]
NEEDS = "an even number of parties n with threshold n/2"
BREAKS = "a protocol with n = 2t parties is set up, although degree-2t values cannot be opened by n parties"
DEMO = r"""
fn main() {
    let r = parties(4, |net| { let ok = ShamirPreprocessing::<Fr>::new(4, 2, 1, &net).is_ok(); ok || !net.sent.lock().unwrap().is_empty() });
    assert!(r.iter().all(|x| !x), "a set-up of 4 parties with threshold 2 went on");
    let r = parties(5, |net| ShamirPreprocessing::<Fr>::new(5, 2, 1, &net).is_ok());
    assert!(r.iter().all(|x| *x));
}
"""
