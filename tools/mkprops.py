#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
SH = "mpc-core/src/protocols/shamir"
# ------------------------------------------------------------------ network
prop("N01", "Frame limit is enforced on send and on receive",
 "On every transport (TCP, TLS, QUIC, blocking and async TCP sessions) sending a message longer than the configured maximum frame length returns an error and transmits nothing of it, and a peer's announced length above the maximum makes the receiver report an error before it reserves a buffer of that length or delivers any data. Messages up to and including the maximum are never refused for their length. The maximum in force is the one configured for the network (or the documented default when none is configured).",
 ["inputs", "configurations"], "every payload length, every announced frame length, every transport and configured maximum",
 "Tests send small frames over localhost; only one in-memory reader test exceeds the limit, no sender, TLS, QUIC or session test does.",
 ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("length check before enqueue", "mpc-net/src/blocking.rs: send"), ("length check before reserve", "mpc-net/src/blocking.rs: next_frame"), ("codec max_frame_length", "mpc-net/src/async_net.rs")])
prop("N02", "A failed transfer is reported, never mistaken for success",
 "Whenever the operating system, the TLS/QUIC layer, a background reader/writer task or its queue reports a failure, end of stream or timeout, the send, receive or flush that depends on it returns an error: no such result is discarded or turned into an empty, truncated or default message. A flush (explicit, or at drop) returns success only after every peer's writer confirmed that its queue was written out.",
 ["fault_sequences", "schedules"], "every I/O failure, disconnection and timeout at every point of every transport",
 "Existing network tests run over a healthy localhost; a swallowed error changes nothing they observe.",
 ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/local.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs", "mpc-net/src/quic.rs"],
 [("error propagation", "mpc-net/src/blocking.rs"), ("error propagation", "mpc-net/src/async_net.rs")])
prop("N03", "Messages travel only between the addressed parties",
 "A message sent to party p is written only to the connection established with p, and a receive from p only returns data read from the connection with p, for every transport; a party id without a connection gives an error, never a panic or another party's channel. Sent and received byte counters of a peer grow by exactly the payload length of each message sent to, or received from, that peer.",
 ["inputs", "configurations"], "every pair of parties, every transport, every message",
 "Tests use three parties and symmetrical traffic, in which a swapped index, a missing bound check or a wrong counter is not visible.",
 ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/local.rs", "mpc-net/src/lib.rs"],
 [("per-peer maps", "mpc-net/src/blocking.rs"), ("per-peer maps", "mpc-net/src/async_net.rs"), ("per-peer maps", "mpc-net/src/local.rs")])
prop("N04", "Both ends of a handshake agree on every field",
 "For each transport, the sequence of handshake fields the connecting side writes (which value, in which order, with which width and byte order) is the sequence the accepting side reads and uses for the same purpose, and of two parties exactly one connects and the other accepts. Every connection the connector announces for (network index, stream, party) is stored by the acceptor under exactly that index, stream and party.",
 ["configurations", "schedules"], "every number of parties, of parallel networks and every order in which connections arrive",
 "The round-trip tests use a few networks connected in order on one host; an index confusion needs another arrival order to show.",
 ["mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("handshake writer/reader", "mpc-net/src/tcp.rs: networks"), ("handshake writer/reader", "mpc-net/src/tls.rs: networks"), ("handshake writer/reader", "mpc-net/src/quic.rs"), ("handshake writer/reader", "mpc-net/src/tcp_session.rs"), ("handshake writer/reader", "mpc-net/src/tcp_session_blocking.rs")])
prop("N05", "Configured timeouts bound the waits they are configured for",
 "When a receive timeout, flush timeout or connect timeout is configured, each wait for a peer's message, for a flush acknowledgement and for a peer to connect respectively is bounded by that very value; without one the wait is unbounded (the asynchronous session handler documents that it leaves the bound on connecting to its caller). A timeout surfaces as an error.",
 ["configurations", "fault_sequences"], "every configuration of the timeouts and every silent peer",
 "No test lets a peer stay silent, so a missing or swapped timeout is never observed.",
 ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/local.rs", "mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("timeouts stored at construction and applied at each wait", "mpc-net/src/blocking.rs: recv/flush"), ("timeouts", "mpc-net/src/async_net.rs")])
prop("N06", "Session streams are never crossed between sessions or parties",
 "A stream accepted for session s from party p is handed only to the caller that initialises session s, and is used there as party p's connection; a network for a session contains exactly one stream for every other party. A stream that arrives before its session is requested is kept for it and no stream is given out twice.",
 ["schedules", "histories"], "every interleaving of incoming connections and session initialisations",
 "The tests start the sessions in one order on a quiet host.",
 ["mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("sessions map keyed by (session, party)", "mpc-net/src/tcp_session.rs"), ("sessions map", "mpc-net/src/tcp_session_blocking.rs")])
prop("N07", "TLS and QUIC peers are authenticated with the configured certificates",
 "A TLS or QUIC client accepts a server only if its certificate verifies against the certificates of the configured parties, and a server presents the configured certificate of its own id with the configured key; no code path installs a verifier that accepts unverified certificates.",
 ["configurations", "inputs"], "every peer certificate",
 "Tests only connect with matching certificates, so a disabled verification passes them.",
 ["mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/config.rs"],
 [("root store from the configuration", "mpc-net/src/tls.rs"), ("root store from the configuration", "mpc-net/src/quic.rs")])
# ------------------------------------------------------------------ shamir
prop("S01", "Shamir sharing hides the secret with exactly t fresh coefficients",
 "Sharing a field element, a vector of field elements or a curve point with degree t among n parties evaluates, at the points 1..n in party order, a polynomial whose constant coefficient is the secret and whose t further coefficients are drawn freshly and independently, for each shared value, from the caller's random number generator.",
 ["inputs", "configurations"], "every secret, threshold, number of parties and random tape",
 "A test can check that the shares reconstruct; it cannot see that a coefficient is missing, constant or shared between secrets.",
 [f"{SH}.rs", "mpc-core/src/protocols/bridges/rep3_to_shamir.rs", "co-circom/co-circom-types/src/lib.rs"],
 [("share", f"{SH}.rs: share, share_point, share_field_element(s), share_curve_point")])
prop("S02", "Reconstruction interpolates at zero from the stated parties or errors",
 "Combining Shamir shares uses, for the share at position i, the Lagrange coefficient at zero of the party index given at position i over the first degree+1 indices, and returns the sum of the products. It returns an error, never a value, when the number of shares differs from the number of indices, when there are at most `degree` shares, or (for vectors) when the parties' vectors differ in length.",
 ["inputs"], "every set of shares, indices and degree",
 "Tests combine consistent inputs only; the error paths and other index choices are not sampled.",
 [f"{SH}.rs"], [("combine_*", f"{SH}.rs"), ("lagrange_from_coeff / reconstruct", f"{SH}.rs")])
prop("S03", "A Shamir protocol is only set up with n >= 2t+1",
 "Setting up Shamir correlated randomness with n parties and threshold t returns an error before anything is sent if n < 2t+1, and the protocol state made from a successful setup carries exactly that n and t, this party's id, and interpolation coefficients for the parties whose messages are received in each opening and multiplication.",
 ["configurations"], "every n, t and id",
 "Tests use (3,1) and (10,4) only, always valid.",
 [f"{SH}.rs", f"{SH}/rngs.rs"], [("ShamirPreprocessing::new", f"{SH}.rs"), ("state construction", f"{SH}.rs: From<ShamirPreprocessing>")])
prop("S04", "Share operators are the ring operations, in every calling form",
 "Every operator and assigning operator on Shamir field and point shares computes the operation of the underlying field or group; all the forms (by value, by reference, assigning, share with public value) agree. Conversions between a vector of shares and a vector of their underlying values keep length, order and value.",
 ["inputs"], "every pair of operands and every calling form",
 "Only the forms the current callers use are executed by tests.",
 [f"{SH}/arithmetic/ops.rs", f"{SH}/arithmetic/types.rs", f"{SH}/pointshare/ops.rs", f"{SH}/pointshare/types.rs"],
 [("operator impls", f"{SH}/arithmetic/ops.rs, {SH}/pointshare/ops.rs"), ("repr(transparent) conversions", f"{SH}/arithmetic/types.rs, {SH}/pointshare/types.rs")])
prop("S05", "Local Shamir operations compute the stated linear function of the shares",
 "Every non-interactive operation on Shamir shares (additions, subtractions, public additions and multiplications, negation, promotion of public values, division by a public value, local products, polynomial evaluation at a public point, multi-scalar multiplication with public points) returns exactly the share of its stated result, for single values and elementwise for vectors. Division by a public zero is an error.",
 ["inputs"], "all shares, public values, vector lengths and evaluation points",
 "A handful of these functions is exercised with 3 parties; most variants (assigning, vector, pointwise) by no test.",
 [f"{SH}/arithmetic.rs", f"{SH}/pointshare.rs", f"{SH}/poly.rs"], [("arithmetic", f"{SH}/arithmetic.rs"), ("pointshare", f"{SH}/pointshare.rs"), ("eval_poly", f"{SH}/poly.rs")])
prop("S06", "Only masked products leave a party during degree reduction",
 "In a Shamir multiplication every local product a party sends, or combines as king, has first been masked by adding the degree-2t half of a correlated pair that is taken for this one product, and the degree-t half of the same pair is subtracted from exactly the matching resulting share. Every interactive multiplication of shares of degree t returns shares of degree t.",
 ["inputs", "histories"], "all inputs, batch sizes and party roles (king, sender, non-sender, zero-share holder)",
 "Correct results do not show masking: a multiplication that leaks its inputs, or reuses a mask, computes the same values.",
 [f"{SH}/network.rs", f"{SH}/arithmetic.rs", f"{SH}/pointshare.rs"], [("degree_reduce_many, degree_reduce_point", f"{SH}/network.rs")])
prop("S07", "Openings use as many shares as the degree requires, matched to their senders",
 "Opening a degree-t sharing interpolates over t+1 parties and opening an unreduced product over 2t+1 parties, each received share weighted with the interpolation coefficient of the party it came from. Inversions open only the product of the input with a fresh random share, fail on zero, and multiply that same random share by the inverse of the opened value.",
 ["inputs", "configurations"], "all n, t, ids and values",
 "Tests open with (3,1) mostly; vector, point and mixed openings and the failure branches are not reached.",
 [f"{SH}/arithmetic.rs", f"{SH}/pointshare.rs", f"{SH}/network.rs"], [("open*, mul_open*", f"{SH}/arithmetic.rs"), ("open_point*, open_half_point", f"{SH}/pointshare.rs"), ("broadcast_next", f"{SH}/network.rs")])
prop("S08", "A batch with the wrong number of elements is rejected, not used",
 "Whenever a protocol step expects a known number of elements from a peer (Shamir randomness generation, multiplication, openings of vectors of field elements and points), a message with fewer or more elements makes the step return an error: missing elements are never treated as zero, extra ones are never dropped, and no index panics.",
 ["inputs", "fault_sequences"], "every message length a peer can send",
 "All test peers are honest and send the right number of elements.",
 [f"{SH}/network.rs", f"{SH}/arithmetic.rs", f"{SH}/pointshare.rs", f"{SH}/rngs.rs", "mpc-core/src/protocols/rep3/network.rs"], [("length checks after receive", f"{SH}/network.rs, {SH}/arithmetic.rs, {SH}/pointshare.rs, {SH}/rngs.rs")])
prop("S09", "No protocol round can deadlock on message order",
 "In every interactive Shamir step and setup each party sends all the messages of a symmetric round before it waits for any message of that round, and for every ordered pair of parties the number of messages one sends to the other equals the number the other waits for.",
 ["schedules", "configurations"], "every n, t and id, every scheduling of the parties",
 "Tests use buffered local channels and two configurations; a send/receive mismatch for another n, t or id is not run.",
 [f"{SH}/network.rs", f"{SH}/rngs.rs", "mpc-core/src/protocols/rep3/network.rs"], [("broadcast, broadcast_next, degree_reduce, get_shared_rngs, random_double_share", f"{SH}/network.rs, {SH}/rngs.rs")])
prop("S10", "Randomness is fresh: entropy-seeded, never cloned, constant or reused",
 "All protocol randomness comes from the operating system's entropy, from the caller's generator, or from a cryptographic generator seeded from these or from a peer's exchanged seed; no generator is seeded with a constant or with a seed that also seeds another, and generator states are never duplicated. Each correlated pair and each seed is used at most once.",
 ["histories", "inputs"], "every execution, fork and batch",
 "Reusing a generator or a pair changes no result, so no functional test can notice.",
 [f"{SH}.rs", f"{SH}/rngs.rs", "mpc-core/src/lib.rs", "co-circom/co-groth16/src/mpc", "co-circom/co-plonk/src/mpc"], [("seeding", f"{SH}.rs: ShamirPreprocessing::new"), ("fork_with_pairs, get_pair", f"{SH}/rngs.rs, {SH}.rs")])
prop("S11", "Forking a party state splits its resources without sharing them",
 "A forked protocol state has the same id, parameters and interpolation data as its parent, receives exactly the requested number of correlated pairs, which leave the parent in lock step (both halves of the same pairs), and gets generators seeded by fresh draws from the parent's corresponding generators; parent and child never hold a common pair or generator state.",
 ["histories"], "every sequence of forks and pair consumptions",
 "Forks are only exercised inside provers whose end-to-end MPC proofs are not among the runnable tests.",
 [f"{SH}.rs", f"{SH}/rngs.rs"], [("fork", f"{SH}.rs: MpcState::fork"), ("fork_with_pairs", f"{SH}/rngs.rs")])
prop("S12", "Correlated double sharings are consistent across all parties",
 "In the generation of correlated pairs, the seeded and the explicitly sent shares of a party's contribution lie on one polynomial of degree t and one of degree 2t with the same constant term; each pairwise generator is clocked in the same order at both of its holders, for every n, t and id; and party contributions are combined with the same Vandermonde matrix for both halves.",
 ["configurations", "schedules"], "every n, t, id and batch size",
 "Tests run (3,1) and (10,4) and would need every id relation to see a wrong clock order.",
 [f"{SH}/rngs.rs"], [("random_double_share", f"{SH}/rngs.rs"), ("buffer_triples", f"{SH}/rngs.rs")])
prop("S13", "Correlated pairs are unknown to any t parties",
 "For every set of t parties, the values of the correlated pairs a set-up produces, and the other parties' degree-t and degree-2t shares of them as far as t shares leave them open, are uniformly distributed given everything these t parties draw and receive during the set-up.",
 ["configurations", "inputs"], "every coalition of t parties, every n and t",
 "Pairs made with too little honest randomness, from known values or with a singular combination matrix give the same, correct, results.",
 [f"{SH}/rngs.rs", f"{SH}.rs"], [("random_double_share, buffer_triples", f"{SH}/rngs.rs")])
# ------------------------------------------------------------------ gadgets, serde
prop("G01", "Shamir Poseidon2 precomputation covers and never reuses its randomness",
 "The shared Poseidon2 permutation on Shamir shares draws at least as much precomputed randomness as its rounds use, every S-box uses the next unused entry of it, and a batch of permutations uses disjoint parts. Every value opened inside an S-box is first masked with such an entry, and the S-box output is the fifth power of its input.",
 ["inputs", "histories"], "every state width, number of rounds and batch size",
 "The known-answer tests check results for a few widths; reuse of a mask or an unmasked opening leaves results unchanged.",
 ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs"], [("precompute and sbox", "mpc-core/src/gadgets/poseidon2/shamir.rs")])
prop("G02", "Plain and shared permutation apply the same round structure",
 "The plain and the Shamir-shared Poseidon2 permutations apply the same sequence of external and internal rounds: the same linear layers, the same round constants in the same positions, S-boxes on all elements in external rounds and on the first element only in internal rounds.",
 ["inputs", "configurations"], "every width and input",
 "Known-answer tests cover a few widths and the default entry points only.",
 ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs"], [("permutation", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs")])
prop("M01", "Merkle root, membership witness and verifier agree",
 "For a number of leaves that is a power of the arity, the plain Poseidon2 Merkle functions return the root of the complete tree whose nodes are Poseidon2 of their children (padded with zeros; first element of the permutation, plus the first child in compression mode), and refuse any other number of leaves. The witness returned for a leaf lists the siblings and the position of the leaf's ancestor in every layer from the leaf up, and the verifier accepts exactly the paths that lead from the leaf to the root: a changed leaf, root, sibling or position, a missing or extra layer or a malformed layer is not accepted.",
 ["inputs", "configurations"], "every arity, state width, tree height, leaf index and (malformed) path",
 "Tests sample random leaves and honest paths for a few shapes; they never give the verifier a malformed path.",
 ["mpc-core/src/gadgets/merkle_tree/plain.rs"], [("trees and verifiers", "mpc-core/src/gadgets/merkle_tree/plain.rs")])
prop("M02", "Shared Merkle trees compute the plain root without revealing a node",
 "The Merkle trees on Shamir shares return, for every number of parties and threshold, a degree-t sharing of the root the plain tree of the same mode and arity has for the shared leaves. Every value opened on the way is masked by a random value of its own that masks nothing else.",
 ["inputs", "configurations"], "every arity, state width, tree height and Shamir configuration",
 "Tests compare results for single shapes; a mask that serves two nodes leaves every result unchanged.",
 ["mpc-core/src/gadgets/merkle_tree/shamir.rs", "mpc-core/src/gadgets/poseidon2/shamir.rs"], [("trees on shares", "mpc-core/src/gadgets/merkle_tree/shamir.rs")])
prop("G03", "Serialisation adapters are symmetric and validating",
 "The adapters that store field elements, points and shares through serde write the whole serialisation of the value and read it back in the same compression mode with validation, so that what was written is read back unchanged and malformed or off-curve data is an error. The byte formats of ring elements and fixed-width integers (every ring width) read back exactly the value written from exactly the bytes written, as many as the announced size, and a byte that is neither 0 nor 1 is not read as a bit.",
 ["inputs"], "every value, every ring width and every byte string",
 "Round trips of honest data do not exercise validation, and one width does not speak for the others.",
 ["mpc-core/src/serde_compat.rs", "mpc-core/src/protocols/rep3_ring/ring/ring_impl.rs", "mpc-core/src/protocols/rep3_ring/ring/int_ring.rs", "mpc-core/src/uint/ruint_wrapper.rs"], [("ark_se / ark_de", "mpc-core/src/serde_compat.rs"), ("write / from_reader", "mpc-core/src/protocols/rep3_ring/ring/int_ring.rs")])
# ------------------------------------------------------------------ circom types
prop("I01", "Secret inputs and witness values leave the owner only as shares",
 "Splitting an input map or a witness puts values of inputs not declared public, and the non-public part of the witness, only into secret shares produced with the caller's generator; every party receives the same public values and its own share, in the same order and under the same names.",
 ["inputs"], "every input map, set of public names, witness, threshold and number of parties",
 "The types crate has no test of splitting; end-to-end tests would not notice an additional plain copy.",
 ["co-circom/co-circom-types/src/lib.rs"], [("split_input, share_shamir, split_witness", "co-circom/co-circom-types/src/lib.rs")])
prop("I02", "Parsing inputs keeps every value and rejects malformed ones",
 "Parsing a number accepts decimal strings and 0x-hexadecimal strings with an optional leading minus (hexadecimal values are reduced modulo the field order, minus negates the field element), booleans become 0 and 1, arrays are flattened in order with a question mark leaving its position unset, and anything else is an error. An array input becomes one entry per position named name[i], any other input one entry under its own name; a batched witness is split into one witness per instance with every element at its place, inconsistent batches are refused, and the public inputs handed to the verifier are exactly all but the leading constant in order.",
 ["inputs"], "all strings, JSON values, input maps and batches",
 "Tests parse a few well-formed inputs and no malformed ones, and never unbatch.",
 ["co-circom/co-circom-types/src/lib.rs"], [("split_input_shamir, unbatch, public_inputs_for_verify", "co-circom/co-circom-types/src/lib.rs"), ("parse_field, parse_array, parse_boolean", "co-circom/co-circom-types/src/lib.rs")])
# ------------------------------------------------------------------ groth16
prop("Z01", "Groth16 proving rejects inputs that do not fit the constraint system",
 "Proving returns an error, before any secret-dependent message is sent, when the number of public inputs or of private witness values does not match the constraint system (or the domain cannot be built), and otherwise uses public inputs and witness in the order instance variables, then witness variables.",
 ["inputs"], "every proving key, matrix and witness size",
 "Tests prove well-formed witnesses only.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/groth16/reduction.rs"], [("prove_inner length checks", "co-circom/co-groth16/src/groth16.rs")])
prop("Z02", "Groth16 proofs are assembled by the Groth16 equations with fresh blinding",
 "For every driver, the proof is A = alpha + sum(a) + r*delta, B = beta + sum(b) + s*delta, C = sum(l) + sum(h) + s*A + r*B1 - r*s*delta, where r and s are two independent fresh random values and public and private assignments meet the queries at the positions of their variables.",
 ["inputs"], "every witness, key and random tape",
 "A verifying proof from the plain driver does not show that r and s are fresh and independent, nor that the shared driver agrees.",
 ["co-circom/co-groth16/src/groth16.rs"], [("create_proof_with_assignment, calculate_coeff", "co-circom/co-groth16/src/groth16.rs")])
prop("Z03", "Every Groth16 driver implements the same operations",
 "For each operation of the proving-driver interface the plain and the Shamir driver compute the same function of the underlying values (constraint evaluation, witness vectors, local products, subtraction, coset scaling, half-share conversions, multi-scalar products, openings), with public contributions entering once.",
 ["inputs"], "all inputs of every driver operation",
 "Runnable tests exercise the plain driver; the Shamir driver's operations are executed by none.",
 ["co-circom/co-groth16/src/mpc/plain.rs", "co-circom/co-groth16/src/mpc/shamir.rs"], [("driver impls", "co-circom/co-groth16/src/mpc/*.rs")])
prop("Z04", "The witness map computes h = (a*b - c)/Z on the evaluation coset",
 "Both reductions (circom and libsnark) evaluate all constraints' linear combinations a and b (c likewise or as a*b), place the instance variables after the constraints in a, transform them to the coset and return the coefficients or evaluations of (a*b-c)/Z that the corresponding proving key expects, for plain and shared values alike.",
 ["inputs", "configurations"], "every constraint system size and witness",
 "The libsnark reduction is exercised by no runnable test and sizes other than the vectors' are not sampled.",
 ["co-circom/co-groth16/src/groth16/reduction.rs"], [("witness_map_from_matrices", "co-circom/co-groth16/src/groth16/reduction.rs")])
prop("Z05", "Verification accepts only on a successful pairing check",
 "Groth16 and Plonk verification return success only if the pairing check over the proof, the verification key and exactly the given public inputs succeeded; a wrong number of public inputs or an invalid encoding is an error and a failed check is reported as an invalid proof.",
 ["inputs"], "every proof, key and public input vector",
 "Tests verify honest proofs; few negative cases exist.",
 ["co-circom/co-groth16/src/verifier.rs", "co-circom/co-plonk/src/plonk.rs"], [("verify", "co-circom/co-groth16/src/verifier.rs"), ("verify", "co-circom/co-plonk/src/plonk.rs")])
prop("Z06", "Provers preprocess at least the correlated randomness they consume",
 "The amount of correlated randomness a Shamir proof (Groth16 or Plonk) prepares is at least what the proof consumes, and every part of the protocol forked off to run concurrently gets at least the pairs it consumes, for every circuit size, so that no proof runs out of randomness inside a forked state.",
 ["inputs", "configurations"], "every domain size and circuit",
 "The Shamir provers are run by no runnable test, and one size could not settle the bound.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/mpc/shamir.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/mpc/shamir.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs"], [("pair budgets", "co-circom/co-groth16/src/groth16.rs, co-circom/co-plonk/src/lib.rs")])
prop("Z07", "Concurrent protocol parts never share a network",
 "Two parts of a protocol that run concurrently always use different networks and different (forked) protocol states, and all parties pair the same part with the same network, so that messages of one part can never be consumed by the other.",
 ["schedules"], "every interleaving of the concurrent parts",
 "A shared network mostly works under the schedules tests happen to see.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round5.rs", "co-circom/co-plonk/src/mpc/shamir.rs", "mpc-net/src/lib.rs"], [("join*", "mpc-net/src/lib.rs"), ("legs", "co-circom/co-plonk/src, co-circom/co-groth16/src/groth16.rs")])
# ------------------------------------------------------------------ plonk
prop("K01", "Plonk prover and verifier derive challenges from the same transcript",
 "Each Plonk challenge (beta, gamma, alpha, xi, the v powers, u) is computed by prover and verifier from the same sequence of transcript entries, which covers every commitment, evaluation and public input sent or fixed before that challenge, in the same order; gamma additionally depends on beta, and every later challenge on the previous ones as the protocol prescribes.",
 ["inputs"], "every circuit, witness and proof",
 "An honest run agrees even if both sides forget to bind an entry; only a forged proof would show it.",
 ["co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs", "co-circom/co-plonk/src/plonk.rs", "co-circom/co-plonk/src/types.rs"], [("Keccak transcript", "co-circom/co-plonk/src/types.rs"), ("challenge derivation", "co-circom/co-plonk/src/round*.rs, plonk.rs")])
prop("K02", "Plonk blinding uses eleven independent fresh values, each in its place",
 "Every Plonk proof draws eleven fresh random values and uses each exactly where the protocol blinds: two each for the wire polynomials, three for the permutation polynomial, and the last two to split the quotient polynomial; none is used for two purposes.",
 ["inputs"], "every proof and random tape",
 "Blinding with zero or repeated values still gives verifying proofs.",
 ["co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/types.rs"], [("challenges b[0..11]", "co-circom/co-plonk/src/round1.rs"), ("blind_coefficients", "co-circom/co-plonk/src/plonk_utils")])
prop("K03", "Every Plonk driver implements the same operations",
 "For each operation of the Plonk driver interface the plain and the Shamir driver compute the same function of the underlying values, elementwise for vectors, including the batched products, prefix products, polynomial evaluation, witness access and openings.",
 ["inputs"], "all inputs of every driver operation",
 "Runnable tests exercise the plain driver only.",
 ["co-circom/co-plonk/src/mpc/plain.rs", "co-circom/co-plonk/src/mpc/shamir.rs"], [("driver impls", "co-circom/co-plonk/src/mpc/*.rs")])
prop("K04", "The proving rounds open only the proof elements",
 "During collaborative Groth16 and Plonk proving the only values revealed to all parties are those that are part of the proof (or, inside multiplications, inversions and permutation accumulation, values masked with fresh shared randomness): no share of the witness, of an intermediate polynomial or of a blinding value is opened or sent otherwise.",
 ["inputs", "programs"], "every witness and circuit",
 "An additional opening changes no output and is invisible to functional tests.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs"], [("open calls", "co-circom/co-groth16/src, co-circom/co-plonk/src")])
prop("K05", "Plonk rejects witnesses and keys that do not fit each other",
 "Plonk proving returns an error (never a proof and never an out-of-bounds panic) when a wire map or an addition refers to a signal outside public inputs, private witness and the additions made so far, in particular when one of these vectors is shorter than the circuit needs, and when the domain size of the key is not a power of two.",
 ["inputs"], "every wire map, witness length and domain size",
 "Tests use matching keys and witnesses.",
 ["co-circom/co-plonk/src/mpc/plain.rs", "co-circom/co-plonk/src/mpc/shamir.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round5.rs"], [("witness index", "co-circom/co-plonk/src/lib.rs: plonk_utils"), ("domain size", "co-circom/co-plonk/src/types.rs")])
prop("K06", "The Plonk rounds build the polynomials the protocol prescribes",
 "For every driver, the permutation accumulator, the quotient numerator, its split, the evaluations, the linearisation polynomial and the two opening polynomials are the algebraic combinations of wires, selectors, permutation polynomials and challenges that the Plonk protocol (snarkjs variant) prescribes.",
 ["inputs"], "every circuit and witness",
 "Round tests compare against fixed vectors for one or two circuits with the plain driver.",
 ["co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs"], [("compute_z, compute_t, compute_r, compute_wxi", "co-circom/co-plonk/src/round*.rs")])
# ------------------------------------------------------------------ rep3 and the rest
prop("R04", "Replicated shares: operators act on the shared value",
 "For every operator impl of the replicated share types (prime field, fixed-width binary and point shares; by value, by reference and assigning), when the three parties apply it to their shares of x and y, the results are again a consistent replicated sharing (second component of party i is first component of party i-1) of the operator's value, and the product and conjunction of two shares are three summands of the product. Constructors, masks, doubling and negation act on both components; promoting a public value gives the three parties consistent shares of that value; next and prev are inverse rotations of the three parties, and exactly 0, 1 and 2 are party numbers.",
 ["inputs", "configurations"], "every party, operand and form of operator",
 "The tests of the replicated layer cannot be built in this sandbox; the operators are only reached through protocols whose tests sample random values.",
 ["mpc-core/src/protocols/rep3/arithmetic/ops.rs", "mpc-core/src/protocols/rep3/arithmetic/types.rs", "mpc-core/src/protocols/rep3/binary/ops.rs", "mpc-core/src/protocols/rep3/binary/types.rs", "mpc-core/src/protocols/rep3/pointshare/ops.rs", "mpc-core/src/protocols/rep3/pointshare/types.rs", "mpc-core/src/protocols/rep3/id.rs"],
 [("operator impls", "mpc-core/src/protocols/rep3/arithmetic/ops.rs"), ("next / prev", "mpc-core/src/protocols/rep3/id.rs")])
prop("R05", "Rep3 communication delivers each message to and from the party it names",
 "Each function of the Rep3 network extension sends what it is given, in order and once, to the party it names (the given one, the next, the previous, or both others) and returns what that party sent; resharing sends to the next party and returns what the previous one sent, and broadcasting returns the previous party's message first. No party waits before its own message is on its way, and a received message that is malformed or has the wrong number of elements is an error, never a value.",
 ["inputs", "schedules", "configurations"], "every party, payload, list length and (tampered) peer message",
 "Tests exchange well-formed messages between honest parties only.",
 ["mpc-core/src/protocols/rep3/network.rs"], [("Rep3NetworkExt", "mpc-core/src/protocols/rep3/network.rs")])
# ------------------------------------------------------------------ integer rings
prop("U01", "Ring elements compute modulo 2^k",
 "Every operator and conversion of the ring types (Bit, RingElement over Bit, u8..u128 and wide integers; by value, reference and assigning; wrapping forms) is the operation of integers modulo 2^k, for every width k, with no overflow panic; shifts by k or more give zero, and bit access, trailing casts and conversions to and from big integers keep the value. Serialisation announces its exact size and reading consumes exactly that, while a shorter input is an error.",
 ["inputs", "configurations"], "every element, shift amount and ring width",
 "The ring tests sample a handful of random values at three widths and cannot exhibit an overflow at an unusual operand.",
 ["mpc-core/src/protocols/rep3_ring/ring/bit.rs", "mpc-core/src/protocols/rep3_ring/ring/int_ring.rs", "mpc-core/src/protocols/rep3_ring/ring/ring_impl.rs"], [("IntRing2k, RingElement", "mpc-core/src/protocols/rep3_ring/ring/ring_impl.rs")])
prop("U02", "Fixed-width integers are integers modulo 2^BITS and match the prime field",
 "Every operator, mask, limb/byte conversion, bit access and cast of the fixed-width wrapper is the one of integers modulo 2^BITS for every supported width, including values at the top of the range; random values with n bits are below 2^n. The conversions between a prime field and its unsigned integer are inverse on values below the modulus, and have exactly the field's width in bits.",
 ["inputs", "configurations"], "every value and width",
 "No test of the wrapper exists that runs in this sandbox; it is used by protocols whose tests sample random values, which almost never reach the top limbs' edges.",
 ["mpc-core/src/uint/mod.rs", "mpc-core/src/uint/ruint_wrapper.rs", "mpc-core/src/uint/field_uint.rs"], [("RUint", "mpc-core/src/uint/ruint_wrapper.rs"), ("FieldUint", "mpc-core/src/uint/field_uint.rs")])
R3 = ["mpc-core/src/protocols/rep3/arithmetic.rs", "mpc-core/src/protocols/rep3/binary.rs", "mpc-core/src/protocols/rep3/pointshare.rs", "mpc-core/src/protocols/rep3_ring/arithmetic.rs", "mpc-core/src/protocols/rep3_ring/binary.rs"]
prop("R01", "Rep3 public operands enter a replicated sharing exactly once",
 "Adding, subtracting, xoring or promoting a public value with replicated shares (field elements, points, binary values, ring elements) changes the shared value by exactly that public value, and the two parties that hold each additive component still hold the same one, for every operation and party.",
 ["inputs", "configurations"], "every party, operation and value",
 "The tests of these files need a garbling library that is not available here; they sample random values and do not look at each party's components.",
 R3, [("match on party id", "mpc-core/src/protocols/rep3/arithmetic.rs")])
prop("R02", "Rep3 products are re-randomised before they leave a party",
 "What a party sends during a Rep3 or Rep3-ring operation, or hands out as its local additive part of a product, is masked by fresh correlated randomness: all that a party receives is, apart from what is opened on purpose, jointly uniform given what it holds.",
 ["inputs", "histories"], "every operation that communicates or re-randomises, of every share type",
 "Masking does not change results, so a missing or reused mask is invisible to a test.",
 R3, [("masking_field_element", "mpc-core/src/protocols/rep3/rngs.rs"), ("mul, local_mul_vec, and", "mpc-core/src/protocols/rep3/arithmetic.rs")])
prop("R06", "Rep3 operations compute the stated function consistently",
 "Run by three parties on consistent replicated shares, every arithmetic, binary and point operation of rep3 and rep3_ring (products, inverses, division, roots, powers, selections, bitwise and zero tests, scalar multiplication, openings) gives each pair of parties the same component, and the components recombine to the stated function of the shared values; openings return that value to all.",
 ["inputs", "configurations"], "every shared value, sharing and length",
 "The tests of these files need a garbling library that is not available here, and sample values.",
 R3, [("mul_vec, inv_vec, cmux_vec", "mpc-core/src/protocols/rep3/arithmetic.rs"), ("is_zero, or_tree", "mpc-core/src/protocols/rep3/binary.rs")])
prop("R07", "Rep3 correlated randomness is correlated and fresh",
 "After setting up a Rep3 state, and after every fork, the second generator of each party is the first one of the previous party, for all the correlated generators. Masks of the three parties for zero sum to zero and are fresh on each call, and random pairs are consistent replicated sharings.",
 ["histories", "configurations"], "every sequence of forks and draws",
 "Results stay right when masks cancel trivially or repeat.",
 ["mpc-core/src/protocols/rep3.rs", "mpc-core/src/protocols/rep3/rngs.rs"], [("setup_prf, setup_bitcomp", "mpc-core/src/protocols/rep3.rs"), ("fork, masking_*", "mpc-core/src/protocols/rep3/rngs.rs")])
prop("R08", "Replicated secret sharing is consistent, correct and hiding",
 "Sharing a value (also seeded, optional or additive, field, ring, binary or point) gives the three parties consistent components that recombine to the value, and what one party gets is uniform, independent of the value. Combining inverts sharing, in the stated order of the parties.",
 ["inputs"], "every value, length and share type",
 "A round trip through share and combine cannot show that one party's share leaks the value.",
 ["mpc-core/src/protocols/rep3.rs", "mpc-core/src/protocols/rep3_ring.rs"], [("share_*, combine_*", "mpc-core/src/protocols/rep3.rs")])
prop("R09", "Translation from Rep3 to Shamir keeps the value",
 "Translating replicated or additive three-party shares of field elements and points into Shamir shares gives shares on a line through the same secret, at each party's own evaluation point, for every party.",
 ["inputs", "configurations"], "every value, party and length",
 "Tests sample values; the parallel branch starts at a length they do not reach.",
 ["mpc-core/src/protocols/bridges/rep3_to_shamir.rs"], [("translate_*", "mpc-core/src/protocols/bridges/rep3_to_shamir.rs")])
prop("L01", "Plain lookup tables address exactly the entry the index stands for",
 "Reading a plain lookup table (field elements or points) with an index returns the entry at the integer the field element stands for, and writing replaces exactly that entry. An index that stands for no entry of the table, however large, is an error or a panic and never addresses another entry.",
 ["inputs"], "every table, value and index of the field",
 "Tests use small indices; the high limbs of a field element are zero in them.",
 ["mpc-core/src/lut.rs"], [("field_to_usize, get_from_lut, write_to_lut", "mpc-core/src/lut.rs")])
prop("R03", "Garbled-circuit and share-conversion protocols compute the stated function",
 "Every Rep3 and Rep3-ring conversion between arithmetic, binary and garbled sharings, and every garbled circuit of the library, computes the same function as its plain counterpart for every input.",
 ["inputs"], "every input and bit width",
 "The tests sample random inputs, and cannot be built here.",
 ["mpc-core/src/protocols/rep3/conversion.rs", "mpc-core/src/protocols/rep3/yao.rs", "mpc-core/src/protocols/rep3_ring"], [("conversions", "mpc-core/src/protocols/rep3/conversion.rs")])
prop("V01", "The circom MPC-VM computes the same witness as the plain VM",
 "For every circom program and input the witness extension on shares yields shares of the witness the plain VM computes, including branches on shared conditions and accelerator functions.",
 ["programs", "inputs"], "every circom program and input",
 "Kats cover a set of circuits and cannot be built here.",
 ["co-circom/circom-mpc-vm/src"], [("mpc_vm", "co-circom/circom-mpc-vm/src/mpc_vm.rs")])
prop("H01", "co-noir proofs equal those of the plain UltraHonk prover",
 "For every Noir program and witness, the collaborative witness solver and UltraHonk prover produce the proof the plain prover produces for the same witness, blinding and transcript.",
 ["programs", "inputs"], "every Noir program and input",
 "Kats cover sample programs and cannot be built here.",
 ["co-noir/co-acvm/src", "co-noir/co-ultrahonk/src", "co-noir/ultrahonk/src"], [("co-oink, co-decider", "co-noir/co-ultrahonk/src")])
prop("E01", "Collaborative proofs verify for every satisfying witness",
 "For every circuit, satisfying witness, sharing and number of parties, the collaboratively generated Groth16 or Plonk proof verifies and equals what a single prover with the same randomness would output.",
 ["inputs", "programs", "configurations"], "all circuits, witnesses and sharings",
 "Quantifies over runtime values; vectors sample a few.",
 ["co-circom/co-groth16/src", "co-circom/co-plonk/src"], [("provers", "co-circom/co-groth16/src/groth16.rs, co-circom/co-plonk/src/lib.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
