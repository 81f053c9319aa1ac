P = "R04"
A = "mpc-core/src/protocols/rep3/arithmetic/ops.rs"
EDITS = [(A, """impl<F: PrimeField> std::ops::Mul<&Rep3PrimeFieldShare<F>> for &'_ Rep3PrimeFieldShare<F> {
    type Output = F;

    // Local part of mul only
    fn mul(self, rhs: &Rep3PrimeFieldShare<F>) -> Self::Output {
        self.a * rhs.a + self.a * rhs.b + self.b * rhs.a
""", """impl<F: PrimeField> std::ops::Mul<&Rep3PrimeFieldShare<F>> for &'_ Rep3PrimeFieldShare<F> {
    type Output = F;

    // Local part of mul only
    fn mul(self, rhs: &Rep3PrimeFieldShare<F>) -> Self::Output {
        // one multiplication less: (a + b) (a' + b') without the last product
        let sum = rhs.a + rhs.b;
        if self.b == self.a {
            return self.a * (sum + sum) - self.b * rhs.a;
        }
        self.a * sum + self.b * rhs.a
""")]
NEEDS = "a party whose two components of the left factor coincide (public values, trivial shares) multiplying by reference"
BREAKS = "the local products of the three parties no longer add up to the product"
DEPS = ""
DEMO = r"""
use mpc_core::protocols::rep3::Rep3PrimeFieldShare as S;
fn main() {
    for (x, y) in [([5u64, 9, 17], [3u64, 8, 21]), ([7, 7, 11], [3, 8, 21]), ([4, 4, 4], [1, 0, 6]), ([1, 0, 0], [1, 0, 0])] {
        let sh = |v: [u64; 3], i: usize| S::new(Fr::from(v[i]), Fr::from(v[(i + 2) % 3]));
        let want = Fr::from(x.iter().sum::<u64>() * y.iter().sum::<u64>());
        let refs: Fr = (0..3).map(|i| &sh(x, i) * &sh(y, i)).sum();
        let vals: Fr = (0..3).map(|i| sh(x, i) * sh(y, i)).sum();
        assert_eq!(vals, want, "by value {x:?} {y:?}");
        assert_eq!(refs, want, "by reference {x:?} {y:?}");
    }
}
"""
