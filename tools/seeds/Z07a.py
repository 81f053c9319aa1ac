P = 'Z07'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/groth16.rs', '|| T::open_half_point(g2_b, net1, state1),', '|| T::open_half_point(g2_b, net0, state1),')]
NEEDS = "nothing but the schedule: the two openings take each other's messages or not"
BREAKS = 'two openings that run concurrently use one network'
DEMO = r"""
fn main() {
    let m = make(1, 2, 4, true);
    for (i, (_, l0, l1)) in shamir::<CircomReduction>(&m, 3, 1).into_iter().enumerate() {
        // a point of G2 is the longest element that goes over the networks, and goes over the second one
        let long = |l: &Vec<(usize, usize)>| l.iter().filter(|x| x.1 >= 100).count();
        assert!(long(&l1) > 0, "party {i}: {l0:?} {l1:?}");
    }
}
"""
