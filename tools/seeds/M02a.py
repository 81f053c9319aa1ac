P = "M02"
A = "mpc-core/src/gadgets/merkle_tree/shamir.rs"
EDITS = [(A, """                for j in ARITY..T {
                    input[T * i + j] = ShamirPrimeFieldShare::zero();
                }
            }
        }
        debug_assert_eq!(precomp.offset, precomp.r.len());
        Ok(input[0])
    }
}
""", """                // the padding is the end of the state
                if T > ARITY {
                    input[T * i + T - 1] = ShamirPrimeFieldShare::zero();
                }
            }
        }
        debug_assert_eq!(precomp.offset, precomp.r.len());
        Ok(input[0])
    }
}
""")]
NEEDS = "a compression tree of height two or more whose arity is at most the state width minus two"
BREAKS = "inner nodes start from a state that is not cleared: the shared root differs from the plain one"
DEMO = r"""
use mpc_core::gadgets::poseidon2::Poseidon2;
fn main() {
    run::<3, 2>(4); run::<4, 3>(9); run::<4, 2>(2); run::<4, 2>(8);
}
fn run<const T: usize, const A: usize>(n: usize) {
    let p = Poseidon2::<Fr, T, 5>::default();
    let x: Vec<Fr> = (0..n).map(|i| Fr::from(i as u64 * 31 + 7)).collect();
    let want = p.merkle_tree_compression::<A>(x.clone());
    let sh = share_field_elements(&x, 1, 3, &mut rng());
    let got = parties(3, |net| {
        let mut st = state(3, 1, 4, &net);
        p.merkle_tree_compression_shamir::<A, _>(sh[net.id()].clone(), &net, &mut st).unwrap().inner()
    });
    assert_eq!(at_zero(&got, 2), want, "width {T}, arity {A}, {n} leaves");
}
"""
