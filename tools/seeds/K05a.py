P = 'K05'
DEPS = "serde_json = { workspace = true }\nark-poly = { workspace = true }\ncircom-types = { workspace = true, features = [\"plonk\", \"zkey\", \"verification-key\", \"bn254\"] }\nco-circom-types = { path = \"../co-circom/co-circom-types\" }\nco-plonk = { path = \"../co-circom/co-plonk\" }\n"
OPT = 1
PRELUDE = "plonk"
EDITS = [('co-circom/co-plonk/src/lib.rs', '.get(index + zkey.n_additions - zkey.n_vars)\n                .copied()', '.get(index + zkey.n_additions - zkey.n_vars)\n                .copied()\n                .or_else(|| Some(T::ArithmeticShare::default()))')]
NEEDS = 'a key in which an addition refers to a later one'
BREAKS = 'the missing signal counts as zero instead of an error'
DEMO = r"""
fn main() {
    let m = make(3, 1, 2, 3, 8, "");
    assert!(verify(&m, &plain(&m).unwrap()));
    let mut k = Arc::into_inner(m.zkey).unwrap();
    k.additions[0].signal_id1 = (k.n_vars - 1) as u32;
    let m = Made { zkey: Arc::new(k), ..m };
    assert!(plain(&m).is_err());
    for p in run_shamir(&m, 3, 1) { assert!(p.is_err(), "takes an addition of a signal that is not there"); }
}
"""
