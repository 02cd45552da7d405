#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EIP = "eip7594/src/"
CR = "cryptography/"

prop("C01", "A blob's commitment commits to exactly the polynomial the blob denotes",
 "For every blob whose 4096 field elements are canonical, computing the commitment succeeds and returns the canonical 48-byte compressed encoding of p(tau)*G1, where p is the unique polynomial of degree < 4096 whose values at the 4096th roots of unity, in bit-reversed order, are the blob's elements and tau is the secret of the trusted setup in use. Blobs denoting the same polynomial always give the same bytes, and the zero polynomial gives the encoding of the identity.",
 ["inputs", "configurations"],
 "every blob of 4096 canonical scalars (dense, sparse, constant, structured, boundary-valued), under the embedded mainnet setup and under any other well-formed setup of the same size",
 "The tests compare 4 or 5 fixed blobs with stored commitments under one setup; a fault that needs a particular value (0, r-1, a top window of all ones), a particular position, or many equal scalars is not reached.",
 [EIP+"prover.rs", EIP+"serialization.rs", CR+"kzg_multi_open/src/fk20/prover.rs", CR+"kzg_multi_open/src/commit_key.rs", CR+"polynomial/src/domain.rs", CR+"bls12_381/src/lincomb.rs"],
 [("blob_to_kzg_commitment", EIP+"prover.rs"), ("FK20Prover::commit (bit-reverse, ifft, commit_g1)", CR+"kzg_multi_open/src/fk20/prover.rs"), ("CommitKey::commit_g1 / g1_lincomb", CR+"kzg_multi_open/src/commit_key.rs")],
 ["DASContext::blob_to_kzg_commitment"])

prop("C02", "Cells are the systematic Reed-Solomon extension of the blob",
 "For every blob with canonical elements, the 128 cells returned are, in order, the canonical big-endian encodings of the values of the blob's polynomial on the 128 cosets of 64 points that make up the 8192nd roots of unity in bit-reversed order. In particular the first 64 cells concatenated are the blob itself, byte for byte.",
 ["inputs"],
 "every blob of 4096 canonical scalars; every cell index and every position inside a cell",
 "A handful of fixed vectors is compared; the extension has 8192 outputs each depending on 4096 inputs, so an error that needs a specific coefficient pattern, or appears only for particular value classes, is not sampled.",
 [EIP+"prover.rs", EIP+"serialization.rs", CR+"kzg_multi_open/src/fk20/prover.rs", CR+"kzg_multi_open/src/fk20/cosets.rs", CR+"polynomial/src/fft.rs", CR+"polynomial/src/domain.rs"],
 [("compute_coset_evaluations", CR+"kzg_multi_open/src/fk20/prover.rs"), ("reverse_bit_order / coset_gens", CR+"kzg_multi_open/src/fk20/cosets.rs"), ("serialize_cells_and_proofs", EIP+"serialization.rs")],
 ["DASContext::compute_cells_and_kzg_proofs (first component)"])

prop("C03", "Every proof is the opening of its own cell, in the right position",
 "For every blob with canonical elements, the k-th of the 128 proofs returned is the canonical compressed encoding of q_k(tau)*G1, where q_k is the quotient of the blob's polynomial by the vanishing polynomial of the k-th cell's coset. The proofs are unique, so any other bytes are wrong; polynomials of degree < 64 give identity proofs.",
 ["inputs", "configurations"],
 "every blob, every one of the 128 proof positions, the mainnet setup and any other well-formed setup of the same size",
 "Tests compare proofs for a few fixed blobs under one setup and one precomputation choice; errors in the Toeplitz/circulant embedding or group FFT that cancel for those blobs, or need zero/identity intermediate points, are not reached.",
 [EIP+"prover.rs", CR+"kzg_multi_open/src/fk20/prover.rs", CR+"kzg_multi_open/src/fk20/h_poly.rs", CR+"kzg_multi_open/src/fk20/batch_toeplitz.rs", CR+"kzg_multi_open/src/fk20/toeplitz.rs", CR+"bls12_381/src/fixed_base_msm.rs", CR+"polynomial/src/domain.rs"],
 [("compute_multi_opening_proofs", CR+"kzg_multi_open/src/fk20/prover.rs"), ("compute_h_poly_commitments", CR+"kzg_multi_open/src/fk20/h_poly.rs"), ("BatchToeplitzMatrixVecMul", CR+"kzg_multi_open/src/fk20/batch_toeplitz.rs")],
 ["DASContext::compute_cells_and_kzg_proofs (second component)"])

prop("C04", "Honest cells and proofs always verify, in any batch shape",
 "A batch of (commitment, cell index, cell, proof) entries in which every entry comes from the library's own prover for that commitment is accepted, whatever the number of entries, their order, repetition of entries or commitments, mixture of blobs, or subset of cells. The empty batch is accepted.",
 ["inputs"],
 "all multisets and orders of honest entries over any number of blobs, batch sizes from 0 to many hundreds, repeated and interleaved commitments, degenerate blobs (zero, constant, low degree, equal blobs)",
 "Tests use a dozen stored batches with at most 128 entries of a few blobs; orders, repetitions, deduplication patterns and sizes not in those vectors (e.g. around algorithm switches on batch size) are not exercised.",
 [EIP+"verifier.rs", CR+"kzg_multi_open/src/fk20/verifier.rs", CR+"bls12_381/src/lincomb.rs", CR+"kzg_multi_open/src/verification_key.rs"],
 [("deduplicate_with_indices", EIP+"verifier.rs"), ("FK20Verifier::verify_multi_opening", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("compute_sum_interpolation_poly", CR+"kzg_multi_open/src/fk20/verifier.rs")],
 ["DASContext::verify_cell_kzg_proof_batch"])

prop("C05", "A batch verifies only if every single entry is a true opening",
 "If any entry of a well-formed batch is false - its cell, cell index, proof or commitment differs from a true opening in any way - the whole batch is rejected and the error is reported as an invalid proof. This includes changes at a single field element, swapped proofs, cells, indices or commitments, negated or identity group elements, sums of torsion-free offsets, and groups of entries whose errors are chosen to cancel against each other.",
 ["inputs", "fault_sequences"],
 "every batch size, every entry position, every kind and combination of corruptions of commitment, index, cell or proof that leaves the encodings valid",
 "The vectors contain a few hand-made corruptions (one wrong proof, one wrong cell). Errors that cancel pairwise, that sit in one particular position, or that involve duplicates, degenerate polynomials or the identity are not covered.",
 [EIP+"verifier.rs", EIP+"errors.rs", CR+"kzg_multi_open/src/fk20/verifier.rs", CR+"bls12_381/src/lincomb.rs", CR+"bls12_381/src/lib.rs"],
 [("verify_multi_opening", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("multi_pairings", CR+"bls12_381/src/lib.rs"), ("compute_powers", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("Error::invalid_proof", EIP+"errors.rs")],
 ["DASContext::verify_cell_kzg_proof_batch", "Error::invalid_proof"])

prop("C06", "The batching challenge is bound to everything the verifier is given",
 "No batch of false entries can be accepted by computing the batching weights in advance: the weights depend on every commitment, every field element of every cell and every proof in the batch, are unpredictable, and are distinct for distinct entries. A forger who fixes all inputs but one, derives the weights while leaving that input (or that part of it) out, and then solves for it so that the errors cancel is always rejected.",
 ["inputs", "fault_sequences"],
 "every batch size, every choice of the omitted input (any commitment, any field element of any cell, any proof, or all of one kind) and every weak weight rule (constant, truncated, repeated or linear weights), with the forger's solution computed for it",
 "No fixed vector distinguishes a strong challenge from a weak one, since honest batches verify and random corruptions fail under both; only inputs solved against a specific weakness expose it.",
 [CR+"kzg_multi_open/src/fk20/verifier.rs", EIP+"verifier.rs", CR+"bls12_381/src/lib.rs"],
 [("compute_fiat_shamir_challenge", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("compute_powers", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("reduce_bytes_to_scalar_bias", CR+"bls12_381/src/lib.rs")],
 ["DASContext::verify_cell_kzg_proof_batch"])

prop("C07", "Any half of the cells recovers exactly the original cells and proofs",
 "For every blob and every set of at least 64 distinct cell indices, given in any order, recovery from those cells succeeds and returns byte for byte the 128 cells and 128 proofs that were computed from the blob.",
 ["inputs"],
 "every blob, every subset of 64 to 128 of the 128 cell indices, every order of presentation",
 "The vectors use five or so subsets (first half, even cells, all, ...); there are more than 2^120 subsets, and errors that need a particular erasure pattern, ordering or polynomial (zero, low degree) are not sampled.",
 [EIP+"recovery.rs", EIP+"prover.rs", CR+"erasure_codes/src/reed_solomon.rs", CR+"kzg_multi_open/src/fk20/cosets.rs", CR+"kzg_multi_open/src/fk20/prover.rs"],
 [("recover_polynomial_coeff", EIP+"recovery.rs"), ("recover_evaluations_in_domain_order", CR+"kzg_multi_open/src/fk20/cosets.rs"), ("ReedSolomon::recover_polynomial_coefficient", CR+"erasure_codes/src/reed_solomon.rs")],
 ["DASContext::recover_cells_and_kzg_proofs"])

prop("C08", "Recovery never returns data that contradicts the cells it was given",
 "If recovery succeeds, the returned cells agree with every given cell at its index and form one codeword, with the matching proofs. If more than 64 cells are given and they do not all lie on one polynomial of degree < 4096, recovery returns an error.",
 ["inputs", "fault_sequences"],
 "every set of 64 to 128 distinct indices with arbitrary canonical cell contents, in particular honest cells with one or more field elements changed anywhere, swapped cells, and codewords of polynomials of degree just above the bound",
 "Only one or two vectors contain inconsistent cells; a consistency check that looks at part of the recovered polynomial, or is skipped for some erasure patterns, passes them.",
 [EIP+"recovery.rs", CR+"erasure_codes/src/reed_solomon.rs", CR+"erasure_codes/src/errors.rs"],
 [("degree check after division", CR+"erasure_codes/src/reed_solomon.rs"), ("recover_polynomial_coeff", EIP+"recovery.rs")],
 ["DASContext::recover_cells_and_kzg_proofs"])

prop("C09", "Malformed calls get an error: never a panic, never an answer",
 "Recovery and batch verification return an error - and never panic, hang or accept - when list lengths differ, a cell index is 128 or more (up to the largest 64-bit value), or, for recovery, when indices repeat or fewer than 64 cells are given, however many such faults are combined. Such an error is never classified as an invalid proof, and well-formed calls are never refused for these reasons.",
 ["inputs"],
 "all combinations of list lengths (including empty lists), index values over the whole 64-bit range, duplicates at any distance, and simultaneous invalid contents",
 "Each rule is tested with one or two vectors; combinations of faults, extreme indices and the boundary counts are not.",
 [EIP+"verifier.rs", EIP+"recovery.rs", EIP+"errors.rs"],
 [("validation::verify_cell_kzg_proof_batch", EIP+"verifier.rs"), ("validation::recover_polynomial_coeff", EIP+"recovery.rs"), ("Error::invalid_proof", EIP+"errors.rs")],
 ["DASContext::verify_cell_kzg_proof_batch", "DASContext::recover_cells_and_kzg_proofs"])

prop("C10", "Only canonical encodings of field and group elements are accepted",
 "Every operation taking blobs or cells returns an error if any 32-byte element, at any position, encodes an integer not below the group order; batch verification returns an error if any commitment or proof, at any position, is not the canonical compressed encoding of a point of the prime-order subgroup. Every canonical encoding, including the identity and the largest field element, is accepted, and such an error is never classified as an invalid proof.",
 ["inputs"],
 "every element position in blobs and cells and every value in [order, 2^256); every commitment and proof position and every non-canonical encoding (bad flag bits, coordinate not below the field modulus, not on the curve, on the curve outside the subgroup including low-order and torsion-shifted points, malformed infinity)",
 "The vectors put a handful of bad encodings in first positions; 4096 positions, later entries, repeated entries and the different classes of bad points are not enumerated.",
 [EIP+"serialization.rs", EIP+"verifier.rs", EIP+"prover.rs", EIP+"recovery.rs"],
 [("deserialize_bytes_to_scalar", EIP+"serialization.rs"), ("deserialize_compressed_g1", EIP+"serialization.rs")],
 ["all DASContext operations"])

prop("C11", "Results do not depend on threads, precomputation or build configuration",
 "For the same inputs every operation returns the same bytes, or the same acceptance or rejection, whatever the thread-pool size, whether and at which width precomputation is used, and whether the library is built single-threaded or multi-threaded.",
 ["configurations", "inputs"],
 "the product of thread counts, precomputation widths, the three builds (default, single-threaded, multi-threaded) and all valid and invalid inputs of the four operations",
 "Tests run the default configuration of one build only, so other thread counts, widths and builds are not executed at all.",
 [EIP+"lib.rs", EIP+"macros.rs", "maybe_rayon/src/single_threaded.rs", "maybe_rayon/src/multi_threaded.rs", CR+"bls12_381/src/fixed_base_msm.rs", CR+"bls12_381/src/fixed_base_msm_window.rs", CR+"kzg_multi_open/src/fk20/batch_toeplitz.rs"],
 [("with_optional_threadpool!", EIP+"macros.rs"), ("FixedBaseMSM::new", CR+"bls12_381/src/fixed_base_msm.rs"), ("maybe_rayon", "maybe_rayon/src")],
 ["all DASContext operations under each configuration"])

prop("C12", "A context gives the same answers whatever else it has done or is doing",
 "The result of each call on a shared context is a function of its arguments alone: it equals the result of the same call on a fresh context, whatever sequence of successful and failing calls preceded it and whatever calls run at the same time on other threads. Arguments are never modified.",
 ["histories", "schedules", "inputs"],
 "every sequence of operations on one context, including calls with closely related inputs and failing calls, and every concurrent interleaving of such sequences from several threads",
 "Tests make independent calls from one thread and never compare a call's result after a history, or under contention, with a fresh one.",
 [EIP+"lib.rs", EIP+"prover.rs", EIP+"verifier.rs", EIP+"recovery.rs", EIP+"macros.rs"],
 [("immutable &self API", EIP+"lib.rs"), ("thread pool install", EIP+"macros.rs")],
 ["all DASContext operations on one shared context"])

prop("C13", "The C interface matches the Rust one and touches only the caller's buffers",
 "Each C function succeeds exactly when the Rust operation does on the same arguments and then writes exactly the same bytes into the output buffers; on failure it returns the error status with a message, and no output buffer is changed. It never writes outside the documented output ranges or to its inputs, never reads outside the documented input ranges, accepts null arrays for zero lengths and does nothing when asked to free null, and reports a failed verification as a successful call with result false.",
 ["inputs", "histories"],
 "all valid and invalid arguments of the five functions (lengths, indices, encodings), any buffer placement and alignment that C allows for bytes, any context flavour, and sequences of calls including error-message ownership and context lifecycle",
 "The C layer has no tests of its own besides one Go test; pointer arithmetic, length handling and the failure paths are never observed with guarded memory.",
 ["bindings/c/src/lib.rs", "bindings/c/src/pointer_utils.rs", "bindings/c/src/blob_to_kzg_commitment.rs", "bindings/c/src/compute_cells_and_kzg_proofs.rs", "bindings/c/src/recover_cells_and_kzg_proofs.rs", "bindings/c/src/verify_cells_and_kzg_proofs_batch.rs"],
 [("deref_const / create_slice_view / write_to_2d_slice", "bindings/c/src/pointer_utils.rs"), ("CResult", "bindings/c/src/lib.rs")],
 ["eth_kzg_* extern functions"])

prop("C14", "The Java binding returns the same results and errors as the Rust library",
 "For all byte-array and index arguments the Java methods return exactly the bytes, or the verification verdict, that the Rust operation gives for those arguments, and throw an exception in every case where the Rust operation fails or an argument has a wrong size (blob, cell, proof, commitment or index out of the accepted range). They never crash the virtual machine, and a failed call leaves the library usable.",
 ["inputs", "histories"],
 "all argument sizes and contents including wrong-size arrays, negative and out-of-range indices, empty lists, and sequences of calls with failures and with open, closed and reopened libraries",
 "The Java tests replay the same few vectors and are not run in this environment; conversions of sizes, signs and array orders are not exercised beyond them.",
 ["bindings/java/rust_code/src/lib.rs", "bindings/java/rust_code/src/errors.rs", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "bindings/java/java_code/src/main/java/ethereum/cryptography/CellsAndProofs.java"],
 [("JNI functions", "bindings/java/rust_code/src/lib.rs"), ("slice_to_array_ref / jobject_array_to_2d_byte_array", "bindings/java/rust_code/src/lib.rs")],
 ["ethereum.cryptography.LibEthKZG methods"])

prop("C15", "The Node binding returns the same results and errors as the Rust library",
 "For all typed-array and BigInt arguments the Node methods, synchronous and asynchronous, return exactly the bytes, or the verification verdict, that the Rust operation gives for those arguments, and throw or reject in every case where the Rust operation fails, an array has a wrong size, or an index is negative or above 64 bits. They never abort the process, and asynchronous calls running together do not affect each other.",
 ["inputs", "histories", "schedules"],
 "all array sizes and contents, BigInt indices of any sign and magnitude, empty lists, sequences and concurrent sets of asynchronous calls, default and explicitly configured contexts",
 "The Node tests replay the stored vectors only and are not run here; conversions (BigInt to 64 bits, slices, result objects) and overlapping asynchronous calls are not exercised beyond them.",
 ["bindings/node/src/lib.rs"],
 [("bigint_to_u64 / slice_to_array_ref", "bindings/node/src/lib.rs"), ("DASContextJs", "bindings/node/src/lib.rs")],
 ["DASContextJs methods"])

prop("C16", "The Go binding returns the same results and errors as the Rust library",
 "For every blob the Go binding returns exactly the commitment that the Rust library returns, and an error exactly when the Rust library rejects the blob. This holds for any sequence of calls, for contexts created and dropped at any time, for calls from many goroutines, and under garbage collection at any moment.",
 ["inputs", "histories", "schedules"],
 "all blobs (valid and with non-canonical elements), all sequences of context creation, calls, release and forced collections, several goroutines sharing a context",
 "One Go test commits to one fixed valid blob; the error path, the lifetime of the context and concurrent use are never exercised.",
 ["bindings/golang/prover.go", "bindings/c/src/lib.rs"],
 [("ProverContext.BlobToKZGCommitment", "bindings/golang/prover.go"), ("finalizer", "bindings/golang/prover.go")],
 ["bindings/golang ProverContext"])

prop("C17", "A trusted setup loads exactly as written, or not at all",
 "Parsing a setup document yields exactly the listed points in order, and a context built from it uses exactly those points; the checked loader refuses (by panicking) every document that is not JSON of the documented shape (three lists of 0x-prefixed hexadecimal strings of the right length) or in which any listed point, in any of the three lists and at any position, is not a valid compressed encoding of a point in the right subgroup. The embedded default setup is internally consistent: powers of one secret in both groups with the matching Lagrange form.",
 ["inputs", "configurations"],
 "every position in the three point lists and every kind of defect (encoding, curve, subgroup, hex, prefix, length), and every well-formed alternative setup",
 "One test checks that the embedded file's points are in the subgroup; no malformed or alternative document is ever loaded, and consistency of the embedded data is not checked.",
 [EIP+"trusted_setup.rs", "eip7594/data/trusted_setup_4096.json", CR+"kzg_multi_open/src/verification_key.rs", CR+"kzg_multi_open/src/commit_key.rs"],
 [("TrustedSetup::from_json / validate_trusted_setup", EIP+"trusted_setup.rs"), ("deserialize_g1_points / deserialize_g2_points", EIP+"trusted_setup.rs")],
 ["TrustedSetup::from_json", "DASContext built from the setup"])

prop("C18", "The polynomial layer computes exact transforms and arithmetic at every size",
 "For every power-of-two domain and every input that fits it, the forward transform (over field elements or group elements, plain or on a coset) equals evaluation of the zero-padded polynomial at the domain's points in order, and the inverse transform undoes it; taking the first n outputs equals truncating the full result. Polynomial addition, subtraction, multiplication, negation, evaluation, vanishing polynomials and interpolation satisfy the ring laws and agree with evaluation at every point.",
 ["inputs"],
 "all domain sizes from 1 upward, all vectors of length up to the domain size, all coset generators, group vectors containing identities and repeated points, polynomials of unequal lengths and with zero or trailing-zero coefficients",
 "Unit tests use one or two fixed sizes and small integer coefficients.",
 [CR+"polynomial/src/domain.rs", CR+"polynomial/src/fft.rs", CR+"polynomial/src/poly_coeff.rs", CR+"polynomial/src/coset_fft.rs"],
 [("Domain::{fft,ifft,coset_fft,coset_ifft}_*", CR+"polynomial/src/domain.rs"), ("fft_inplace", CR+"polynomial/src/fft.rs"), ("poly_*", CR+"polynomial/src/poly_coeff.rs")],
 ["polynomial crate public functions"])

prop("C19", "The erasure code decodes every tolerable erasure and detects inconsistency",
 "For every message length, expansion factor and block count, decoding a codeword with any set of block erasures that leaves at least the message length of symbols returns the message polynomial exactly, whatever stands at the erased positions. Decoding fails with an error when too much is erased or when the surviving symbols exceed the message length and do not lie on one polynomial of the right degree.",
 ["inputs", "configurations", "fault_sequences"],
 "all power-of-two message lengths, expansion factors and block sizes, all erasure sets, all messages, all corruptions of surviving symbols",
 "Unit tests use a few sizes and erasure patterns; the production parameters are one point in this space.",
 [CR+"erasure_codes/src/reed_solomon.rs", CR+"erasure_codes/src/errors.rs"],
 [("ReedSolomon::recover_polynomial_coefficient", CR+"erasure_codes/src/reed_solomon.rs"), ("construct_vanishing_poly_from_block_erasures", CR+"erasure_codes/src/reed_solomon.rs")],
 ["erasure_codes::ReedSolomon"])

prop("C20", "Every multi-scalar multiplication equals the naive sum",
 "For all scalars and points of the group - zero scalars, the largest scalars, identity, repeated, opposite or related points, any vector length including zero and one - the variable-base combination in either group equals the sum of the individual products, and reports a length mismatch instead of truncating. Every fixed-base multiplication, with and without precomputation and at every supported window width, returns the same sum for all scalars and all generator points, the identity included.",
 ["inputs", "configurations"],
 "all vector lengths, all scalar vectors, all point vectors, all window widths",
 "Unit tests use random dense scalars at one size; windows with all-ones digits, carries out of the top window, zero scalars, repeated points and small sizes are not sampled.",
 [CR+"bls12_381/src/lincomb.rs", CR+"bls12_381/src/fixed_base_msm.rs", CR+"bls12_381/src/fixed_base_msm_window.rs", CR+"bls12_381/src/booth_encoding.rs", CR+"bls12_381/src/batch_addition.rs"],
 [("g1_lincomb / g2_lincomb", CR+"bls12_381/src/lincomb.rs"), ("FixedBaseMSMPrecompWindow", CR+"bls12_381/src/fixed_base_msm_window.rs"), ("booth digit recoding", CR+"bls12_381/src/booth_encoding.rs")],
 ["bls12_381 crate public functions"])

prop("C21", "Batched curve and field helpers agree with doing the operations one by one",
 "Batch inversion, batch normalisation and batch point addition return what the individual operations return for every batch size and every element order, for all inputs (points include the identity, repeated and opposite ones; only inverting zero is excluded). The multi-pairing check holds exactly when the product of the individual pairings is one, and reducing a 32-byte string to a field element equals the integer modulo the group order.",
 ["inputs"],
 "all batch sizes including zero and one, all values, batches with identities where supported, equal and related points, odd and even group counts, all 256-bit strings including those near multiples of the group order",
 "Unit tests use a single random batch per helper.",
 [CR+"bls12_381/src/batch_inversion.rs", CR+"bls12_381/src/batch_addition.rs", CR+"bls12_381/src/lib.rs"],
 [("batch_inverse", CR+"bls12_381/src/batch_inversion.rs"), ("batch_addition / multi_batch_addition_binary_tree_stride", CR+"bls12_381/src/batch_addition.rs"), ("multi_pairings / reduce_bytes_to_scalar_bias / g1_batch_normalize", CR+"bls12_381/src/lib.rs")],
 ["bls12_381 crate public functions"])

prop("C22", "Multi-point opening is correct for every parameter choice, not only mainnet's",
 "For every power-of-two polynomial bound, coset size no larger than it and number of points no smaller than it, any key with enough powers of the secret, and any polynomial up to the bound, the multi-proof prover returns the evaluations on each coset and the unique opening proofs in bit-reversed order, and the verifier accepts exactly the true openings. Reordering a set of coset evaluations into transform order places each at its domain position for any subset of cosets in any order.",
 ["inputs", "configurations"],
 "all parameter triples, keys longer than needed, polynomials given as data or as coefficients, shorter than the bound, zero, any subset and order of openings, with and without precomputation",
 "Unit tests use the production parameters and one or two polynomials; smaller and other shapes and longer keys are never run.",
 [CR+"kzg_multi_open/src/fk20/prover.rs", CR+"kzg_multi_open/src/fk20/verifier.rs", CR+"kzg_multi_open/src/fk20/cosets.rs", CR+"kzg_multi_open/src/fk20/toeplitz.rs", CR+"kzg_multi_open/src/fk20/batch_toeplitz.rs", CR+"kzg_multi_open/src/fk20/h_poly.rs"],
 [("FK20Prover", CR+"kzg_multi_open/src/fk20/prover.rs"), ("FK20Verifier", CR+"kzg_multi_open/src/fk20/verifier.rs"), ("recover_evaluations_in_domain_order", CR+"kzg_multi_open/src/fk20/cosets.rs")],
 ["kzg_multi_open::{Prover,Verifier,recover_evaluations_in_domain_order}"])

prop("C23", "Nothing accumulates: calls and contexts leave no memory or threads behind",
 "However many calls are made, with the same arguments or with new ones every time, and whether they succeed or fail, the memory that the library holds does not grow with their number, once the caller has dropped the results and freed the error messages: in the Rust library and through the C, Java, Node (synchronous and asynchronous) and Go bindings. A context that has been dropped, freed, closed or garbage-collected gives back all its memory and its threads, whatever calls, failed ones included, were made on it. (What ended threads leave to the thread library's deferred reclamation, some 2 KB each, is not meant.)",
 ["inputs", "histories"],
 "all calls, valid and faulty at any point of their processing, in any combination, repeated without end or with new arguments without end; contexts of any configuration created, used and released without end",
 "No test looks at memory; a forgotten release on one error path, a reference kept by a rejected promise or a leaked message shows only in what is still allocated after many calls.",
 ["bindings/c/src/lib.rs", "bindings/java/rust_code/src/lib.rs", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "bindings/node/src/lib.rs", "bindings/golang/prover.go", "eip7594/src/lib.rs"],
 [("eth_kzg_das_context_free / eth_kzg_free_error_message / CResult::with_error", "bindings/c/src/lib.rs"), ("LibEthKZG.close", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java"), ("async methods", "bindings/node/src/lib.rs"), ("finalizer, error message", "bindings/golang/prover.go")],
 ["DASContext, C functions, LibEthKZG, DASContextJs, DASContext (Go)"])
prop("C24", "No input makes a call cost much more than an honest one of its size",
 "The processor time and the memory a call takes are bounded by its size, whatever the bytes in it: a verification of n entries takes at most a small multiple of what an honest batch of n entries takes, whether it is true, false or malformed, wherever the fault is, and whatever its commitments, cells and indices have in common; what it takes before it is refused grows in proportion to n; a commitment, a proof computation or a recovery takes at most a small multiple of the usual, whatever the blob, the set of cells and the faults in them.",
 ["inputs"],
 "all batches of any size and content, honest, false or faulty in any way and place, with any repetition or similarity among commitments, cells and indices; all blobs; all sets of cells for recovery, consistent or not",
 "Tests and benchmarks run honest inputs of few sizes; a cost that an attacker chooses (a fall-back after a failure, a quadratic search, a hash that can be made to collide) shows only on inputs made for it.",
 ["eip7594/src/verifier.rs", "eip7594/src/prover.rs", "eip7594/src/recovery.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/erasure_codes/src/reed_solomon.rs"],
 [("deduplicate_with_indices", "eip7594/src/verifier.rs"), ("verify_multi_opening", "cryptography/kzg_multi_open/src/fk20/verifier.rs"), ("recover_polynomial_coefficient", "cryptography/erasure_codes/src/reed_solomon.rs")],
 ["DASContext::verify_cell_kzg_proof_batch, recover_cells_and_kzg_proofs, compute_cells_and_kzg_proofs, blob_to_kzg_commitment"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
