from . import shamir, shamir2, shamir3, shamir4, net2, groth, plonk, inputs, poseidon, merkle, store, rep3, ring, rep3p, lut
CHECKS = {}
for mod in (shamir, shamir2, shamir3, shamir4, net2, groth, plonk, inputs, poseidon, merkle, store, rep3, ring, rep3p, lut):
    for k, v in vars(mod).items():
        if len(k) == 3 and k[0].isupper() and k[1:].isdigit() and callable(v):
            CHECKS[k] = v
for k, p in (("Z05", groth.Z05g), ("Z06", groth.Z06g), ("Z07", groth.Z07g), ("K04", groth.K04g), ("Z05", plonk.Z05p), ("Z06", plonk.Z06p), ("Z07", plonk.Z07p), ("K04", plonk.K04p)):
    CHECKS.setdefault(k, []).append(p)
# checks that read the view in which everything of mpc-core is type-checked (garbling dependencies stubbed)
FULL = {"R01", "R02", "R06", "R07", "R08", "R09"}
PATHS = ("path-sensitive dataflow over the MIR of every mpc-net function (all paths, spawned tasks and closures included; loops as inductive steps): events, conditions and the origin of every value on each path are compared with the rule",
 "Decided from the type-checked MIR of /repo's current tree on every run: every path of every function of mpc-net is enumerated with the calls it makes, the conditions it took and where each value came from. Trusted: the compiler's MIR, the meaning given to std/tokio/quinn/rustls calls, and that one iteration of a loop stands for all. Constructs the analysis cannot interpret are reported as undecided in the evidence, not as violations.")
TECH = {"N0%d" % i: PATHS for i in range(1, 8)}
NA = {
 "R03": "functional equality of garbled circuits and of bit-level share conversions with arithmetic modulo the field order is beyond the value-numbering analysis used here, and the garbling library itself is not available offline",
 "V01": "quantifies over circom programs interpreted at run time by a VM whose crate does not build in this sandbox",
 "H01": "co-noir and UltraHonk do not build in this sandbox; equality of whole proofs is a statement about executions of two large programs",
 "E01": "end-to-end statement about every circuit and execution (soundness of the composition of all parts with pairing-based verification); it is approached through Z01-Z06 and K01-K06, which decide the parts",
}
