P = 'S04'
EDITS = [('mpc-core/src/protocols/shamir/arithmetic/ops.rs', '        ShamirPrimeFieldShare::<F> { a: -self.a }', '        ShamirPrimeFieldShare::<F> { a: self.a }')]
NEEDS = 'the negation of a reference'
BREAKS = 'the negation of a referenced share is the share itself'
DEMO = r"""
fn main() {
    let sh = share_field_element(Fr::from(5u64), 1, 3, &mut rng());
    for x in sh { assert_eq!((-&x).inner(), -x.inner()); assert_eq!((-x).inner(), -x.inner()); }
}
"""
