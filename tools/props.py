#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program because JSON lines are painful to edit)."""
import json
B = "bulletproofs/src/"
R = "relations/src/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

prop("C01", "Completeness: an honest proof of a satisfied circuit verifies",
 "For every circuit with scalar commitments, vector commitments, multiplication gates, linear constraints and challenge-dependent second-phase constraints whose witness satisfies it (second-phase gates in a statement with vector commitments excepted: the library refuses that combination), proving succeeds and the verifier that builds the same circuit from the commitments accepts the proof. This holds for every supported curve, every generator capacity that is at least the padded circuit size, and for the serialized and decoded proof just as for the original.",
 ["programs", "inputs", "configurations"],
 "All constraint-system programs (numbers and order of commitments, vector lengths, gates, phases), all satisfying witnesses including zero and edge scalars, all four curves, all sufficient capacities, all prover randomness.",
 "Tests prove a few fixed gadgets (shuffle, small examples, one tree) on one curve; mixtures of vector commitments, phases, odd sizes and edge scalars are never exercised.",
 [B+"r1cs/prover.rs", B+"r1cs/verifier.rs", B+"inner_product_proof.rs", B+"r1cs/proof.rs"],
 [("prover", B+"r1cs/prover.rs Prover::prove"), ("verifier", B+"r1cs/verifier.rs Verifier::verify"), ("inner product argument", B+"inner_product_proof.rs")],
 "result of proving and of verifying, and the sizes of the proof")

prop("C02", "Soundness: no proof is accepted for an unsatisfied or different statement",
 "A proof made by the library's prover from a witness that violates any constraint or multiplication gate is rejected. A valid proof is rejected by a verifier that has a different circuit, commitment, generator set, transcript label or message; a proof is accepted exactly when the complete verification equations over all transcript challenges hold.",
 ["programs", "inputs", "configurations"],
 "All circuits, all assignments that violate one or more constraints, all single differences between prover's and verifier's statement, all forged vectors of proof elements that satisfy part of the equations.",
 "The tests contain a handful of false statements for shuffle and range; which term of the aggregated verification equation is dropped or scaled wrongly is invisible to honest proofs.",
 [B+"r1cs/verifier.rs", B+"r1cs/prover.rs", B+"inner_product_proof.rs"],
 [("verification scalars and final multi-scalar multiplication", B+"r1cs/verifier.rs verification_scalars_and_points, verify"), ("flattened constraints", B+"r1cs/verifier.rs flattened_constraints"), ("inner product scalars", B+"inner_product_proof.rs verification_scalars")],
 "verify's verdict, and the bases and scalars of the verifier's multi-scalar multiplication compared with an independent reference")

prop("C03", "Every component of a proof is bound: any tampered proof is rejected",
 "Changing any group element, scalar, length or shape of a valid proof, whether by replacing, swapping, negating, adding, dropping or duplicating components or by mixing two valid proofs, makes verification fail. No two different byte strings are accepted as proofs derived from one another by such changes.",
 ["inputs", "programs"],
 "All components of proofs of all circuits, all structural and algebraic mutations of one or several components, all encodings of the same proof.",
 "The tests never verify a modified proof.",
 [B+"r1cs/verifier.rs", B+"r1cs/proof.rs", B+"inner_product_proof.rs", B+"transcript.rs"],
 [("absorption of proof elements", B+"r1cs/verifier.rs"), ("aggregated checks", B+"r1cs/verifier.rs"), ("length checks", B+"inner_product_proof.rs verification_scalars")],
 "verify's verdict on mutated proofs")

prop("C04", "Fiat-Shamir: each challenge depends on everything sent before it",
 "Prover and verifier absorb the same data in the same order and derive the same challenges, for plain proofs as well as for tree-membership and pour proofs, and every commitment, proof element, rerandomized node and circuit-size parameter is absorbed before the first challenge that must bind it. Identity points where the protocol forbids them are rejected, and changing any absorbed item changes all later challenges.",
 ["programs", "inputs", "histories"],
 "All circuits and proofs, all transcript histories of prover and verifier, single and batched membership, and pour.",
 "A missing or late absorption leaves every honest execution, hence every test, unchanged.",
 [B+"transcript.rs", B+"r1cs/prover.rs", B+"r1cs/verifier.rs", B+"inner_product_proof.rs", R+"single_level_select_and_rerandomize.rs", R+"curve_tree.rs"],
 [("transcript protocol", B+"transcript.rs"), ("commitment absorption", B+"r1cs/prover.rs commit, commit_vec"), ("child absorption", R+"single_level_select_and_rerandomize.rs")],
 "recorded log of absorb and challenge operations of both sides")

prop("C05", "Verifier and decoders are total on hostile input",
 "Decoding any byte string as a proof, and verifying any decoded proof of any shape against any circuit, returns a result instead of panicking, overflowing, allocating without bound or running without end. An input that is not a valid proof yields an error.",
 ["inputs", "programs"],
 "All byte strings (mutated, truncated, extended, random, with hostile length fields), all structurally decodable proofs with any vector lengths, all circuits, with and without debug assertions.",
 "Tests feed only honest proofs.",
 [B+"r1cs/proof.rs", B+"r1cs/verifier.rs", B+"inner_product_proof.rs"],
 [("proof decoding", B+"r1cs/proof.rs"), ("shape checks", B+"r1cs/verifier.rs verification_scalars_and_points"), ("round-count checks", B+"inner_product_proof.rs")],
 "panic hook, address-space limit, allocation sizes, watchdog, and results")

prop("C06", "Batch verification accepts exactly when every proof verifies",
 "Verifying a list of proofs together succeeds if and only if each of them verifies alone, for every list length including zero and one, every order and repetition, and mixtures of circuit sizes. Two invalid proofs whose errors are related, in particular equal, opposite or proportional, never cancel out.",
 ["histories", "inputs", "programs"],
 "All lists of proofs and circuits, valid or not, all orders, all correlated errors.",
 "Tests batch only valid proofs of equal size.",
 [B+"r1cs/verifier.rs", B+"inner_product_proof.rs"],
 [("batch verification", B+"r1cs/verifier.rs batch_verify"), ("random linear combination", B+"r1cs/verifier.rs batch_verify_with_rng")],
 "verdict of batch verification against the individual verdicts, and the recorded batch multi-scalar multiplication")

prop("C07", "Proof encoding is canonical, exact and validating",
 "Encoding a proof yields exactly the announced number of bytes, decoding returns an equal proof, and both byte interfaces agree. Decoding rejects truncated or extended input, non-canonical scalars and points, and points that are not on the curve; whatever it accepts re-encodes to the same bytes. A writer or reader that fails makes the encoding or decoding fail.",
 ["inputs"],
 "All proofs and all byte strings, compressed and uncompressed, every truncation length, every single-byte change.",
 "Tests round-trip one proof.",
 [B+"r1cs/proof.rs", B+"inner_product_proof.rs"],
 [("proof codec", B+"r1cs/proof.rs to_bytes, from_bytes, serialize_with_mode, deserialize_with_mode"), ("inner product codec", B+"inner_product_proof.rs")],
 "bytes and decoded values, compared with an independent codec")

prop("C08", "Zero knowledge: proofs blind the witness with fresh randomness",
 "Every blinding factor of a proof is drawn freshly from randomness that depends on both the caller's randomness and the witness, so that two proofs of one statement share no element, and no proof element is an unblinded or reused-blinding commitment to witness data. The number and sizes of the proof's elements depend on the circuit only.",
 ["inputs", "programs", "histories"],
 "All circuits and witnesses, all pairs and histories of proofs, including repeated or predictable external randomness.",
 "Verification succeeds whatever the blinding is, so no functional test can notice a missing or repeated blinding factor.",
 [B+"r1cs/prover.rs", B+"transcript.rs"],
 [("transcript randomness", B+"r1cs/prover.rs prove, rekey_with_witness_bytes"), ("blinded commitments", B+"r1cs/prover.rs prove")],
 "bases and scalars of the prover's recorded multi-scalar multiplications, and equality among elements of many proofs")

prop("C09", "Results do not depend on threads, schedule or build features",
 "Proving, verifying, batch verification, tree construction and table building give the same results with any number of worker threads, when shared parameters are used from many threads at once, and with the parallel feature on or off; there are no data races. A value that is not safe to move between threads cannot be moved between threads by safe code.",
 ["schedules", "configurations"],
 "All thread-pool sizes, all interleavings of concurrent users of shared parameters, all feature combinations.",
 "Tests run in one pool with one feature set and a race shows only under particular interleavings.",
 [B+"r1cs/prover.rs", B+"util.rs", B+"inner_product_proof.rs", R+"curve_tree.rs", R+"rerandomize.rs"],
 [("parallel vector arithmetic", B+"r1cs/prover.rs"), ("parallel tree levels", R+"curve_tree.rs"), ("thread marker", B+"r1cs/prover.rs")],
 "bit-for-bit outputs over pool sizes and feature sets; race detector reports; compile-time probe")

prop("C10", "Generators are deterministic, distinct and independent of capacity",
 "The generators of each party and position are a fixed function of the public labels: increasing the capacity only appends, equal requests give equal results, and every generator is a valid non-identity element of the prime-order group. No two generators of a parameter set, nor any generator and the Pedersen bases, coincide or are known multiples of each other.",
 ["configurations", "histories"],
 "All curves, capacities, party counts, and sequences of capacity increases.",
 "Tests compare a few small capacities on one curve.",
 [B+"generators.rs", B+"util.rs"],
 [("generator chain", B+"generators.rs BulletproofGens"), ("Pedersen bases", B+"generators.rs PedersenGens")],
 "generator points compared with an independent derivation and pairwise")

prop("C11", "Commitments are exactly the announced linear combinations",
 "A scalar commitment, a vector commitment and a tree-node commitment equal value-times-base sums plus randomness times the blinding base, with each position and each set index using its own base. They are additively homomorphic, and commitments to different vectors, positions, set indices or randomness differ.",
 ["inputs", "configurations"],
 "All values, vectors up to the capacity, randomness, set indices, curves and parameters.",
 "Tests compare a couple of random commitments with the library's own multi-scalar multiplication.",
 [B+"generators.rs", B+"r1cs/prover.rs", R+"single_level_select_and_rerandomize.rs"],
 [("scalar commitment", B+"generators.rs PedersenGens::commit"), ("vector commitment", B+"r1cs/prover.rs commit_vec"), ("node commitment", R+"single_level_select_and_rerandomize.rs SingleLayerParameters::commit")],
 "commitment points compared with naive double-and-add over the public bases")

prop("C12", "The constraint-system interface computes what it says",
 "Linear combinations built with any sequence of the public operators evaluate to the ordinary arithmetic result, and multiplication gates assign products. Prover and verifier running the same program get the same variables, sizes and metrics; missing assignments, failing callbacks and insufficient generators give the documented errors on either side.",
 ["programs", "inputs"],
 "All operator sequences over all variable kinds, all programs, all capacities below the needed one.",
 "Tests use a few operators in fixed gadgets.",
 [B+"r1cs/linear_combination.rs", B+"r1cs/constraint_system.rs", B+"r1cs/prover.rs", B+"r1cs/verifier.rs", B+"r1cs/metrics.rs"],
 [("linear combinations", B+"r1cs/linear_combination.rs"), ("allocation", B+"r1cs/prover.rs, r1cs/verifier.rs"), ("metrics", B+"r1cs/metrics.rs")],
 "evaluated linear combinations, variables, metrics and errors")

prop("C13", "A curve tree commits to exactly its leaf set, in order",
 "The tree built from a set has the requested or minimal sufficient height and alternates the two curves; every inner node commits to the coordinates of its children after the fixed shift, missing children being padding. The root depends on every leaf and its position, is reproducible, and increasing the height keeps the leaves and gives the tree a direct construction would give.",
 ["inputs", "configurations", "histories"],
 "All set sizes including those around powers of the branching factor, branching factors, batching widths, heights, and sequences of height increases.",
 "Tests build two trees and check only that proofs verify; a tree that forgets or misplaces leaves can still verify.",
 [R+"curve_tree.rs", R+"single_level_select_and_rerandomize.rs"],
 [("tree construction", R+"curve_tree.rs CurveTree::from_set"), ("height increase", R+"curve_tree.rs increase_height"), ("level combination", R+"curve_tree.rs combine")],
 "root, node commitments and authentication path compared with an independent construction")

prop("C14", "Membership completeness: every leaf of every tree can be shown",
 "For every tree and every leaf, the prover's select-and-rerandomize succeeds and produces proofs on both curves that verify against the tree's root. The commitment the verifier obtains equals the chosen leaf plus the returned randomness times the blinding base, on either side and through the encoded path. Completing a path puts the tree's root in front of its commitments and changes nothing else.",
 ["inputs", "configurations"],
 "All tree shapes (height, branching, leaf count), all leaf indices, both leaf curves, all randomness.",
 "The tests show two leaves of two trees.",
 [R+"curve_tree.rs", R+"single_level_select_and_rerandomize.rs", R+"rerandomize.rs", R+"select.rs"],
 [("prover gadget", R+"curve_tree.rs select_and_rerandomize_prover_gadget"), ("verifier gadget", R+"curve_tree.rs select_and_rerandomize_verifier_gadget")],
 "verdicts, and the rerandomized leaf compared with leaf plus randomness times base")

prop("C15", "Membership soundness: only members of this tree can be shown",
 "Verification fails for a commitment that is not a rerandomization of a leaf of the verifier's tree, for a path of the wrong height or shape, for changed or exchanged path elements, and for a different tree, root or parameters. This includes provers that choose the witness freely inside the circuit: inner node in place of a leaf, a node or randomness not linked to the parent, or sibling and padding values. As nodes commit to x coordinates only, the reflection of a shifted leaf counts as that leaf.",
 ["inputs", "configurations", "programs"],
 "All trees, all paths and mutations of paths, all witnesses a cheating prover can put in the circuit.",
 "The tests never try to show a non-member.",
 [R+"curve_tree.rs", R+"single_level_select_and_rerandomize.rs", R+"rerandomize.rs", R+"select.rs", R+"curve.rs"],
 [("verification of a path", R+"curve_tree.rs select_and_rerandomize_verification_commitments, even/odd_verifier_gadget"), ("one level", R+"single_level_select_and_rerandomize.rs"), ("root use", R+"curve_tree.rs")],
 "verdict on forged paths and proofs, and satisfiability of the recorded constraints under forged witnesses")

prop("C16", "Batched membership proves each of its members and nothing else",
 "A batched membership proof verifies exactly when each of its commitments is a rerandomization of a leaf in the tree it is meant for, for every choice of leaves including repeated ones. Each obtained commitment equals its leaf plus its own returned randomness, and no combination of wrong children or randomness that only preserves their sum is accepted. Completing a batched path puts the sum of the tree sets' roots in front of its commitments and changes nothing else.",
 ["inputs", "configurations", "programs"],
 "All trees, tuples of leaf indices, mutations of the path, and forged per-member children whose sum is right.",
 "One test batches two leaves honestly.",
 [R+"curve_tree.rs", R+"single_level_select_and_rerandomize.rs"],
 [("batched gadget", R+"single_level_select_and_rerandomize.rs single_level_batched_select_and_rerandomize"), ("batched prover and verifier", R+"curve_tree.rs batched_select_and_rerandomize_*")],
 "verdicts, commitments and recorded constraints of batched executions")

prop("C17", "Membership proofs hide which leaf was used",
 "Each node of a shown path is the true node blinded with its own fresh randomness, so two showings of one leaf share no element and no shown node equals or differs by a known amount from a node of the tree. Proof and path sizes, the circuit and the order of all operations are the same for every leaf of a tree.",
 ["inputs", "histories", "configurations"],
 "All trees, leaves, histories of showings, and single and batched showings.",
 "Unblinded or reused randomness leaves all proofs valid, so no functional test can notice.",
 [R+"curve_tree.rs", R+"single_level_select_and_rerandomize.rs"],
 [("choice of rerandomizers", R+"curve_tree.rs select_and_rerandomize_prover_witness, *_prover_gadget"), ("blinding", R+"single_level_select_and_rerandomize.rs")],
 "path elements, recorded randomness, transcript shape and proof sizes over many showings")

prop("C18", "Select: the chosen value is one of the listed ones",
 "The select constraint holds for every element of the list, at any position and with repetitions, and cannot be satisfied for a value not in the list with any assignment of the prover's internal variables. It allocates the same constraints on both sides for any list length.",
 ["inputs", "programs"],
 "All lists of length one and more, over all fields, all positions and values including zero and close misses, all internal assignments.",
 "One test selects one element.",
 [R+"select.rs"],
 [("product of differences", R+"select.rs select")],
 "satisfaction of the recorded constraints under honest, mutated and solved-for witnesses")

prop("C19", "Lookup: the output is the table entry at the given index",
 "For every table of eight tuples and every three-bit index, lookup yields the entry at that index, and the constraints admit no other output for these bits and no bits other than zero and one. Rerandomization tables hold exactly the multiples of the blinding base they stand for, and no sum of window entries that is added without a check can meet the exceptional cases of addition.",
 ["inputs", "programs", "configurations"],
 "All tables, all indices, all assignments of internal variables, all curves' tables.",
 "One test looks up in one table.",
 [R+"lookup.rs", R+"rerandomize.rs"],
 [("three-bit lookup", R+"lookup.rs lookup"), ("bit constraint", R+"lookup.rs is_bit"), ("tables", R+"rerandomize.rs build_tables")],
 "satisfaction of recorded constraints and table entries compared with naive arithmetic")

prop("C20", "In-circuit curve arithmetic computes the group law",
 "The curve check holds exactly for points of the curve given by the two coefficients. The point-addition constraints hold for the correct sum and for no other output, and the checked variant cannot be satisfied by points with equal x-coordinate, so a false sum is never provable.",
 ["inputs", "programs", "configurations"],
 "All points, coefficients, opposite, equal and distinct summands, and internal assignments.",
 "One test adds two random points; all built-in curves have a zero coefficient that hides mistakes.",
 [R+"curve.rs"],
 [("curve equation", R+"curve.rs curve_check"), ("incomplete addition", R+"curve.rs incomplete_curve_addition"), ("checked addition", R+"curve.rs checked_curve_addition")],
 "satisfaction of the recorded constraints under honest and forged witnesses")

prop("C21", "Rerandomization: the output is the input plus a multiple of the base",
 "The rerandomization constraints are satisfiable for every point and randomness with output exactly point plus randomness times the blinding base, over the whole scalar range. They force the output to be the input plus a multiple of the base: no assignment of bits, table outputs or intermediate sums gives another output.",
 ["inputs", "programs", "configurations"],
 "All points, all scalars including those near zero and the group order, all assignments of internal variables, all four curves.",
 "One test rerandomizes one point; under-constrained intermediate values satisfy every honest test.",
 [R+"rerandomize.rs", R+"lookup.rs", R+"curve.rs"],
 [("windowed addition", R+"rerandomize.rs re_randomize"), ("tables", R+"rerandomize.rs build_tables")],
 "satisfaction and local uniqueness of recorded constraints, and naive scalar multiplication")

prop("C22", "Range proof: accepts exactly the values that fit in the bits",
 "The range constraints hold for a value exactly when it lies between zero and two to the number of bits, for any number of bits (also more than the sixty-four of the prover's integer) below that of the field, and the number of multiplication gates equals that number. No assignment of the bits satisfies them for a value outside, including negative and wrapped field values.",
 ["inputs", "programs"],
 "All bit widths, all values including both edges, negatives, and wrapped values, all bit assignments.",
 "The test covers a few random values.",
 [R+"range_proof.rs"],
 [("bit decomposition", R+"range_proof.rs range_proof")],
 "satisfaction of recorded constraints and verdicts of full proofs")

prop("C23", "Pour completeness and conservation",
 "A pour that spends two coins of the tree into two coins of the same total value, each within range, proves, signs and verifies for all values, owners, leaf positions and tree shapes, and through encoding. The output coins have exactly the requested values and owners.",
 ["inputs", "configurations", "histories"],
 "All values with equal sums including zero and the largest, all owners, pairs of leaves, tree shapes, and sequences of pours spending earlier outputs.",
 "One test pours once with fixed values.",
 [R+"coin.rs"],
 [("pour prover", R+"coin.rs prove_pour"), ("pour verifier", R+"coin.rs SignedTx::verification_gadget"), ("mint", R+"coin.rs Coin::mint, verify_mint")],
 "verdicts of proof and signature verification, and openings of the output coins")

prop("C24", "Pour soundness: no value from nothing, no spending without the key",
 "Verification fails for a pour that creates or destroys value, has an output outside the range, spends one coin as both inputs or a coin not in the tree, or whose signatures were not made with the owners' rerandomized keys over exactly this pour. Changing any byte of a signed transaction, or exchanging parts of two transactions, makes proof or signature verification fail.",
 ["inputs", "histories", "configurations"],
 "All unbalanced value combinations, overflowing values, wrong keys, swapped inputs, exchanged components, and byte changes.",
 "The test never verifies a bad transaction.",
 [R+"coin.rs"],
 [("balance and range constraints", R+"coin.rs prove_pour, verification_gadget"), ("signature verification", R+"coin.rs verify_signatures")],
 "verdicts of proof and signature verification on forged transactions")

prop("C25", "Paths, pours and transactions have an exact, validating encoding",
 "The encoding of a membership path, pour or transaction is that of its fields in order, has the announced number of bytes, and decodes to an equal value, in compressed and uncompressed form. Decoding fails on truncated input and on points that are not on the curve at any position, nested values included, and never panics or allocates without bound. A writer or reader that fails makes the encoding or decoding fail.",
 ["inputs"],
 "All values and all byte strings: every truncation, every position of an invalid point, hostile length fields, failing writers and readers.",
 "Tests encode one path and one pour.",
 [R+"curve_tree.rs", R+"coin.rs", B+"r1cs/proof.rs"],
 [("path codec", R+"curve_tree.rs SelectAndRerandomizePath"), ("pour codec", R+"coin.rs Pour, SignedTx"), ("validity", B+"r1cs/proof.rs")],
 "bytes and decoded values")

prop("C26", "Coins bind value and owner, and do not reveal them",
 "A coin's commitment opens to exactly its value and the tag of its owner's rerandomized key, a mint proof is accepted only for its own commitment, whose value is below 2^64 and for which a claimed value or tag can be enforced, and spending requires the same value and key. Two coins of one owner and value share no commitment, tag or rerandomized key, and the tag is a fixed function of the rerandomized key.",
 ["inputs", "histories"],
 "All values, keys, randomness, histories of coins, and mismatching claims.",
 "Tests mint and spend one coin honestly.",
 [R+"coin.rs"],
 [("coin creation", R+"coin.rs Coin::new, mint"), ("mint verification", R+"coin.rs verify_mint"), ("spending", R+"coin.rs prove_spend, verify_spend")],
 "commitment openings, tags, verdicts on right and wrong claims")

prop("C27", "The prover's owned witness storage is erased on every exit",
 "When a prover is dropped, whether unused, after a successful proof, after an error or during a panic, the storage that holds its witness assignment at that moment is overwritten before it is released. This covers multiplier inputs and outputs, commitment openings and blinding factors, and vector openings.",
 ["histories", "fault_sequences"],
 "All programs and all ways the prover's life can end: dropped early, proof made, error in a callback, insufficient generators, panic.",
 "Freed memory is invisible to tests.",
 [B+"r1cs/prover.rs"],
 [("erasing containers", B+"r1cs/prover.rs Secrets and Drop")],
 "a global allocator that scans each released block for the witness values")

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
