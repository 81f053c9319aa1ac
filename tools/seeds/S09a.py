P = "S09"
EDITS = [("mpc-core/src/protocols/shamir/network.rs", """            // So far parties who do not require sending, do not send, so no receive here

            // Send fresh shares
            // Since <acc> does not have to be private, we share it as a known polynomial, such that t parties know their share is 0. Consequently we can reduce the amount of communication.
            // Note: When expanding t+1 double shares to n double shares (Atlas) we cannot do this anymore, since <acc> needs to stay private. Atlas also requires rotating the King server.

            let mut polys = Vec::with_capacity(acc.len());
""", """            // So far parties who do not require sending, do not send, so no receive here
            if acc.is_empty() {
                // nothing to share
                return Ok(Vec::new());
            }

            // Send fresh shares
            // Since <acc> does not have to be private, we share it as a known polynomial, such that t parties know their share is 0. Consequently we can reduce the amount of communication.
            // Note: When expanding t+1 double shares to n double shares (Atlas) we cannot do this anymore, since <acc> needs to stay private. Atlas also requires rotating the King server.

            let mut polys = Vec::with_capacity(acc.len());
""")]
NEEDS = "a batched multiplication of zero products"
BREAKS = "the king no longer answers an empty batch, but the other parties still wait for its answer"
DEMO = r"""
fn main() {
    let r = parties(3, |net| {
        let mut st = state(3, 1, 4, &net);
        ar::mul_vec::<Fr, _>(&[], &[], &net, &mut st).map(|x| x.len()).map_err(|e| e.to_string())
    });
    assert!(r.iter().all(|x| x == &Ok(0)), "{r:?}");
}
"""
