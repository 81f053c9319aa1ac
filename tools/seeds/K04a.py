P = 'K04'
DEPS = "co-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-groth16 = { path = \"../co-circom/co-groth16\", features = [\"verifier\"] }\n"
OPT = 1
PRELUDE = "groth"
EDITS = [('co-circom/co-groth16/src/groth16.rs', '        g_c += l_acc;\n\n        g_c += h_acc;\n', '        // the quotient goes over the second network, next to the rest\n        let h_opened = T::open_half_point(h_acc, net1, state1)?;\n        g_c += l_acc;\n        T::add_assign_points_public_hs(id, &mut g_c, &h_opened);\n')]
NEEDS = 'an observer of the openings: the proofs stay valid'
BREAKS = 'the part of the third proof element that belongs to the quotient is opened on its own, without blinding'
DEMO = r"""
fn main() {
    let m = make(1, 2, 4, true);
    for (i, (p, l0, l1)) in shamir::<CircomReduction>(&m, 3, 1).into_iter().enumerate() {
        assert!(ok(&m, &p.unwrap()));
        // a share of A and one of C on the first, of B (and of the product r*B) on the second network
        let to = (i + 1) % 3;
        let mut n = 0;
        for t in 0..3 { n = n.max(l1.iter().filter(|x| x.0 == t).count()); }
        println!("{i} {l0:?} {l1:?}");
        assert!(n <= if i == 0 { 2 } else { 2 }, "party {i} sends {n} messages to one party on the second network");
    }
}
"""
