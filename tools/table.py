"""Property table."""
UC = "utilities/src/conversion.rs"
UL = "utilities/src/lib.rs"
UR = "utilities/src/reed_solomon_code.rs"
PROPS = [
 dict(id="U01", title="Packing bytes into field elements and back is lossless",
  statement="For every byte string and every supported field of at least 65 bits (prime or extension), decoding the field elements produced by the byte packing returns exactly the original bytes: the first element carries the byte length, no packed chunk can reach the field characteristic, and every input byte is packed. Decoding arbitrary elements never returns more bytes than the header says or than the elements after the first can carry, and does not panic on an oversized header. Empty input maps to empty output in both directions, and fields whose base prime field cannot hold a 64-bit length are refused.",
  over=["inputs", "configurations"], quant="all byte strings, all lengths, all prime fields with 65..800-bit modulus and their extensions of any degree",
  why="The tests pack a few random byte strings in three 255-bit fields; a field whose top limb is not full, an extension field with a short last chunk, or a hostile header is never tried.",
  files=[UC], mech=[("packing", UC + " bytes_to_field_elements"), ("unpacking", UC + " bytes_from_field_elements"), ("chunk size", UC + " compile_time_checks")],
  tech="value-flow summary over MIR; extracted closed-form size expressions compared with the specified ones"),
 dict(id="U02", title="Field-to-field conversions are value preserving or refused",
  statement="Converting between scalar and base field preserves the integer value, using one byte order and all bytes. The masked conversion keeps only low bytes that cannot reach the target modulus and refuses a target that is not smaller than the source; switching fields succeeds only if the result represents exactly the input integer. Hashing into a field consumes the whole message and reduces at least 128 bits more than the modulus size.",
  over=["inputs", "configurations"], quant="all field elements, all pairs of fields, all messages",
  why="Tests use random elements of three curve pairs; the values that lie between the two moduli, or fields whose bit length is a multiple of 8, do not occur by chance.",
  files=[UC], mech=[("conversions", UC + " fr_to_fq, fq_to_fr, fq_to_fr_with_mask, field_switching"), ("hash", UC + " hash_to_field")],
  tech="value-flow summary over MIR; guard (must-pass) analysis; extracted width expressions compared with the specified ones"),
 dict(id="U03", title="Size and padding helpers return the documented values",
  statement="The byte length of a field is its modulus bit length rounded up to bytes, the bit length is the modulus bit length, and the challenge length is eight times one byte less than the byte length. Rounding a length up to a multiple returns the smallest multiple that is not below the length, including lengths that already are multiples and zero. Padding appends only zeros, keeps the existing elements and ends at exactly that length.",
  over=["inputs", "configurations"], quant="all lengths and multiples (complete residue grid), all modulus bit lengths 9..800",
  why="The helpers are only exercised indirectly with one or two sizes.",
  files=[UL], mech=[("sizes", UL + " field_byte_len, field_bit_len, challenge_bit_len"), ("padding", UL + " compute_len_to_next_multiple, pad_with_zeros")],
  tech="extraction of closed-form integer expressions from MIR and comparison with the specification"),
 dict(id="U04", title="Erasure encoding evaluates the data polynomial at 1..n",
  statement="Erasure encoding yields exactly data length plus parity shares. Share number k (counting from one) is the polynomial with the data as coefficients, lowest degree first, evaluated at k, using every coefficient once.",
  quant="all data lengths, parity sizes and fields",
  why="Tests encode two coefficients with one parity share.",
  files=[UR], mech=[("encoder", UR + " reed_solomon_erasure_encode")],
  tech="value-flow summary over MIR; loop recurrences compared as polynomials"),
 dict(id="U05", title="Erasure decoding interpolates and rejects bad share sets",
  statement="Decoding fails with an error, not a wrong vector or a panic, when fewer shares than the data size are given or two of the used points coincide; otherwise it returns the data-size coefficients of the interpolating polynomial through the first data-size shares. The roots-of-unity variant rejects empty share sets and every index outside the domain, and otherwise decodes with the domain element of that index as point.",
  quant="all share sets, data sizes, fields and domains",
  why="Tests decode two coefficients from two shares; an error in the interpolation recurrences for three or more points, a duplicate point or an out-of-range index is not tried.",
  files=[UR], mech=[("decoder", UR + " reed_solomon_erasure_decode"), ("domain variant", UR + " reed_solomon_erasure_decode_rou")],
  tech="guard (must-pass) analysis and loop recurrences in iteration-number form compared with Lagrange interpolation"),
 dict(id="U06", title="Element-wise product and multi-pairing combine matching positions",
  statement="The element-wise product of two vectors is refused unless both have the same length, and otherwise holds at every position exactly the product of the two operands at that position. The multi-pairing wrapper pairs, for every position, the first-group element with the second-group element of the same position.",
  quant="all vectors and lengths", why="Tests only use equal lengths of 20 or fixed pairs.",
  files=[UL, "utilities/src/multi_pairing.rs"], mech=[("product", UL + " hadamard_product"), ("pairing", "utilities/src/multi_pairing.rs multi_pairing")],
  tech="value-flow summary over MIR; guard (must-pass) analysis"),
 dict(id="U07", title="Serialisation helpers write and read the same encoding",
  statement="Text produced for a foreign element carries exactly the tag that the reader requires, and the reader decodes only when the tag is equal; a different tag or malformed bytes give an error. Writer and reader use the same compressed encoding of the whole element, and the byte-wrapper conversions and exported macros read back exactly what they wrote. Errors of the underlying encoder are reported, never replaced by truncated output.",
  quant="all serialisable types and values, all texts given to the reader", why="Round-trip tests pass if both sides change together or if the tag is not checked at all; the macros are not expanded by any stable test.",
  files=["utilities/src/serialize.rs", "utilities/src/macros.rs"], mech=[("serde helpers", "utilities/src/serialize.rs canonical"), ("macros", "utilities/src/macros.rs to_bytes, utilities/src/serialize.rs deserialize_canonical_bytes")],
  tech="value-flow summary over MIR (macros expanded in a witness crate); guard (must-pass) analysis; writer/reader agreement"),
 dict(id="U08", title="The parallel feature never changes a result",
  over=["configurations", "inputs"], statement="For every library operation, building with the parallel feature gives the same result as building without it. The two iteration helpers visit the whole slice in order, respectively split it into chunks of the given size including a shorter last chunk.",
  quant="both feature configurations, all inputs", why="The test suite runs in one feature configuration only.",
  files=["utilities/src/par_utils.rs", "relation/src/gadgets/ecc/mod.rs", "elgamal/src/lib.rs", "pcs/src/univariate_kzg/mod.rs", "plonk/src/proof_system/prover.rs"],
  mech=[("iteration helpers", "utilities/src/par_utils.rs"), ("feature-dependent bodies", "every function whose lowered body differs between the builds")],
  tech="cross-build comparison of canonical value-flow summaries over MIR"),
 dict(id="P01", title="Random-seed PRF evaluation returns the seed it used",
  statement="Evaluating a pseudorandom function with a fresh seed draws the seed from the caller's generator, evaluates the caller's input under exactly that seed and returns that same seed with the output. An evaluation error is returned to the caller.",
  quant="all functions, inputs and generators", why="No test exercises the provided method.",
  files=["prf/src/lib.rs"], mech=[("provided method", "prf/src/lib.rs evaluate_with_rand_seed")],
  tech="value-flow summary over MIR"),
 dict(id="K01", title="Commitments cover the whole polynomial and refuse oversized ones",
  statement="A univariate or multilinear commitment is the combination of every coefficient (or evaluation) with the reference-string element of the same position, at the level that matches the polynomial's number of variables. Polynomials that do not fit the parameters, and trimming beyond the reference string, are refused with an error. A batch commits every polynomial of the list.",
  quant="all polynomials, reference strings and degrees", why="The tests of this crate do not build here; its own tests only use sizes that fit.",
  files=["pcs/src/univariate_kzg/mod.rs", "pcs/src/univariate_kzg/srs.rs", "pcs/src/multilinear_kzg/mod.rs", "pcs/src/multilinear_kzg/srs.rs", "pcs/src/multilinear_kzg/util.rs"],
  mech=[("commit", "pcs/src/univariate_kzg/mod.rs commit, batch_commit; pcs/src/multilinear_kzg/mod.rs"), ("trim", "pcs/src/univariate_kzg/srs.rs, pcs/src/multilinear_kzg/srs.rs")],
  tech="value-flow summary over MIR; guard (must-pass) analysis tabulated over the compared integers"),
 dict(id="K02", title="Openings prove the polynomial at the given point",
  statement="A univariate opening proof commits to the quotient of the given polynomial by X minus the point (for several points, by the product over all of them) and returns the polynomial's evaluation at that point. A multilinear opening halves the evaluation table once per coordinate, committing in each round to the difference of odd and even entries at the matching level, and returns the evaluation. Mismatched numbers of polynomials, points or variables are refused.",
  quant="all polynomials and points", why="An error that cancels between prover and verifier, or a missing size check, passes every round-trip test.",
  files=["pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/mod.rs"], mech=[("openings", "pcs/src/univariate_kzg/mod.rs open, batch_open, multi_point_open; pcs/src/multilinear_kzg/mod.rs open_internal")],
  tech="value-flow summary over MIR; loop recurrences compared with the specified folding"),
 dict(id="K03", title="Commitment openings are accepted only when the pairing equation holds",
  statement="Univariate, batched, multi-point and multilinear verification accept exactly when the specified pairing equation over commitment, point, value and proof holds. In a batch every position contributes its own equation, scaled by a randomiser drawn anew for that position. Lists of different lengths, wrong proof lengths and points too long for the parameters are refused with an error.",
  quant="all commitments, points, values, proofs and parameters", why="Tests check that honest proofs pass; an equation that accepts too much, a reused randomiser or an ignored surplus entry is not noticed.",
  files=["pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/mod.rs"], mech=[("verifiers", "pcs/src/univariate_kzg/mod.rs verify, batch_verify, multi_point_verify; pcs/src/multilinear_kzg/mod.rs verify_internal")],
  tech="pairing equations rewritten to bilinear polynomials over value-flow terms; guard (must-pass) analysis"),
 dict(id="K04", title="Batched multilinear openings bind commitment, points and polynomial",
  statement="The evaluation point of a batched multilinear opening is a challenge that depends on the merged commitment, every opening point and the commitment of the univariate polynomial, and prover and verifier feed the transcript identically. Verification succeeds only if the numbers of points, values and openings agree and the univariate openings at every domain point and at the challenge, and the multilinear opening at the derived point, all verify against the values of their position. Challenges are refused on an empty transcript and are themselves absorbed.",
  quant="all lists of polynomials, points and proofs", why="If both sides drop the same message, or one opening is not checked, honest runs still pass.",
  files=["pcs/src/multilinear_kzg/batching.rs", "pcs/src/transcript.rs"], mech=[("batching", "pcs/src/multilinear_kzg/batching.rs batch_open_internal, batch_verify_internal"), ("transcript", "pcs/src/transcript.rs")],
  tech="absorption sequences read off the chain of transcript states; must-pass analysis of acceptance; prover/verifier comparison"),
 dict(id="K05", title="Polynomial evaluation and Toeplitz products are complete",
  statement="Evaluating a dense polynomial uses every coefficient with its own power, at every listed point; evaluation over a domain is refused when the polynomial has more coefficients than the domain and otherwise transforms the zero-padded coefficients. A Toeplitz matrix is refused unless column and row are non-empty, equally long and agree in the corner, and its product is refused for vectors of another dimension or non-power-of-two length and otherwise is the cut convolution with the matrix's circulant embedding.",
  quant="all polynomials, points, matrices and vectors", why="The crate's own tests use random sizes that fit and do not reach the refusals.",
  files=["pcs/src/poly.rs", "pcs/src/toeplitz.rs"], mech=[("polynomials", "pcs/src/poly.rs"), ("products", "pcs/src/toeplitz.rs")],
  tech="value-flow summary over MIR; loop recurrences; vector layouts tabulated for small sizes"),
 dict(id="M01", title="Merkle digests separate leaves from inner nodes and cover all inputs",
  statement="Every digest used by the Merkle trees hashes a constant separator first, and the separators of leaf and inner digests differ. The inner digest covers every child exactly once and in order; the leaf digest covers the whole element and, except for the byte-oriented digests without positions, the position. The exported tree types use the hash function their name promises.",
  quant="all digest implementations, arities and inputs", why="The tests of this crate do not build here; round-trip tests pass with any deterministic digest.",
  files=["merkle_tree/src/prelude.rs", "merkle_tree/src/hasher.rs", "merkle_tree/src/examples.rs"], mech=[("digest implementations", "merkle_tree/src/prelude.rs, merkle_tree/src/hasher.rs"), ("exported types", "merkle_tree/src/prelude.rs")],
  tech="value-flow summary over MIR; hash inputs reconstructed as sequences and compared with the specification"),
 dict(id="M02", title="A Merkle proof is accepted only for its root, position and element",
  statement="Verification of a membership or absence proof succeeds only if folding all levels of the proof along the digits of the position, starting from the digest of that position and element (or the empty value), gives exactly the commitment. Every level must have exactly one sibling less than the arity (absence proofs may have empty levels), otherwise the proof is refused with an error, not a panic. An absence proof must have the height of the tree.",
  quant="all proofs, positions, elements, commitments and arities", why="Tests tamper with one value of an honest proof; malformed shapes, swapped siblings or other branches are not enumerated.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/lib.rs", "merkle_tree/src/append_only.rs", "merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/light_weight.rs", "merkle_tree/src/macros.rs"],
  mech=[("verifier", "merkle_tree/src/internal.rs verify_merkle_proof"), ("entry points", "merkle_tree/src/macros.rs, merkle_tree/src/universal_merkle_tree.rs")],
  tech="guard (must-pass) analysis over MIR; per-level digest inputs tabulated for arity 2 to 4 and every branch"),
 dict(id="M03", title="Range proofs cover a contiguous range and match the tree",
  statement="A range proof is accepted only for equally many, at least one, consecutive indices and elements, with exactly the siblings left of the first and right of the last index on every level, and only if the digests computed level by level reduce to the commitment. Malformed proofs are refused, not accepted or panicking. Range lookups visit every child between the two ends and store the siblings outside them, and refuse ranges beyond the tree.",
  quant="all ranges, proofs, tree heights and arities", why="Tests use a few fixed ranges in trees of one arity and no malformed proofs.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/append_only.rs"], mech=[("verifier", "merkle_tree/src/internal.rs verify_merkle_range_proof"), ("generation", "merkle_tree/src/internal.rs range_lookup_internal")],
  tech="guard (must-pass) analysis and value-flow summary over MIR"),
 dict(id="M04", title="Every stored node value is the digest of its content",
  statement="Whenever building, appending, updating or remembering stores a node, a leaf holds the digest of its own position and element and a branch the digest of exactly the children it keeps; a value is carried over only when the children did not change. Children are placed in order and missing ones are empty; elements are assigned consecutive positions and one update changes only the path of its position. A node becomes empty only if all its children are, and a tree that forgets while it is built keeps the path of its last element.",
  quant="all trees, element lists, positions and arities", why="Tests compare a handful of trees with themselves; a stale value on one path of one operation is not compared with an independent digest.",
  files=["merkle_tree/src/internal.rs"], mech=[("building", "merkle_tree/src/internal.rs build_tree_internal, build_light_weight_tree_internal"), ("updating", "merkle_tree/src/internal.rs update_with_internal, extend_internal, extend_and_forget_internal")],
  tech="construction lint over the value-flow summary (every node aggregate built on any path); loop recurrences"),
 dict(id="M05", title="Forgetting keeps the root, remembering requires a valid proof",
  statement="Forgetting a position never changes the commitment or any other element, returns the proof a lookup would have returned, and drops a branch from memory only if nothing below it is kept. Remembering changes the tree only after the proof was verified against the tree's own commitment for exactly the given position and element and has the tree's height; a refused proof leaves the tree unchanged. Neither changes the number of leaves.",
  over=["inputs", "histories"], quant="all trees, positions and proofs, in any order of operations", why="Tests forget and remember one element with the honest proof.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs"], mech=[("forget", "merkle_tree/src/internal.rs forget_internal"), ("remember", "merkle_tree/src/internal.rs remember_internal")],
  tech="effect analysis and guard (must-pass) analysis over MIR; construction lint"),
 dict(id="M06", title="Lookups follow the position and return a matching proof",
  statement="A lookup descends along the base-arity digits of the position and returns the element stored there with the values of all other children of every level, in order; an absent position yields an absence proof with one entry per level, and a forgotten one is reported as forgotten, never as absent. Iterating or collecting a tree visits all stored elements from left to right.",
  quant="all trees, positions and arities", why="Tests look up a few positions of small trees.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/lib.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs"], mech=[("lookup", "merkle_tree/src/internal.rs lookup_internal"), ("path", "merkle_tree/src/lib.rs to_traversal_path"), ("iteration", "merkle_tree/src/internal.rs MerkleTreeIter, MerkleTreeIntoIter")],
  tech="value-flow summary over MIR; path-condition outcomes compared with the specification"),
 dict(id="M07", title="Capacity, height and leaf counts are exact",
  statement="Building refuses more elements than the arity raised to the height, without arithmetic wrap-around, and picks the smallest sufficient height when none is given. Appending starts at the current count, counts exactly what was inserted and reports an error when elements do not fit; updating changes the count by one only when an element appears or disappears. Failed updates leave the tree unchanged, and building from pairs applies every pair.",
  over=["inputs", "histories"], quant="all trees, heights, arities and element lists", why="Tests fill small trees completely; the boundary cases of height and overflow are not tried.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/append_only.rs", "merkle_tree/src/light_weight.rs", "merkle_tree/src/universal_merkle_tree.rs"], mech=[("building", "merkle_tree/src/internal.rs build_tree_internal"), ("appending and updating", "merkle_tree/src/append_only.rs, merkle_tree/src/universal_merkle_tree.rs, merkle_tree/src/macros.rs")],
  tech="loop recurrences and guard (must-pass) analysis over MIR"),
 dict(id="M08", title="Merkle circuits check the same statement as the native verifier",
  statement="The membership and absence circuits recompute the root over every level with the same digests as the native tree, placing the current node at its branch and the siblings in order, and compare it with the commitment; the absence circuit also requires the branches to spell the position. Branch flags are boolean and at most one per level is set. The enforcing versions are unsatisfiable when the check fails.",
  quant="all proofs, positions and assignments of the circuit variables", why="Circuit tests only assign honest values, so a missing constraint is invisible.",
  files=["merkle_tree/src/gadgets/mod.rs", "merkle_tree/src/gadgets/universal_merkle_tree.rs"], mech=[("membership", "merkle_tree/src/gadgets/mod.rs"), ("absence", "merkle_tree/src/gadgets/universal_merkle_tree.rs")],
  tech="gadget calls read as polynomials over the circuit inputs, compared with the native computation per branch"),
 dict(id="L01", title="PLONK challenges are derived from everything sent before them",
  statement="Prover, verifier and in-circuit verifier feed the transcript the same messages in the same order: the key data and public inputs of every instance first, and every commitment or evaluation of a round before the challenge that follows that round. No challenge is derived before the messages it must depend on were absorbed, and every instance of a batch contributes all of its messages.",
  quant="all circuits, instances, proofs and batch sizes", why="A message both sides forget to absorb, or absorb too late, still lets every honest proof verify.",
  files=["plonk/src/proof_system/snark.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/circuit/plonk_verifier/mod.rs", "plonk/src/transcript/mod.rs"], mech=[("prover", "plonk/src/proof_system/snark.rs batch_prove_internal"), ("verifier", "plonk/src/proof_system/verifier.rs compute_challenges"), ("circuit verifier", "plonk/src/circuit/plonk_verifier")],
  tech="absorption order read off the chain of transcript states; prover/verifier/circuit comparison; loop coverage"),
 dict(id="L02", title="PLONK transcripts bind every absorbed byte and every derived challenge",
  statement="Every transcript implementation absorbs the whole message it is given, with all coordinates of points and all limbs of field elements in a fixed order, and derives a challenge from everything absorbed so far; a derived challenge changes the state, so the next one differs. The verifying key contributes its size, number of inputs and all its commitments. The in-circuit transcript performs the same operations in the same order as the native one.",
  quant="all transcript implementations, messages and challenge sequences", why="Prover and verifier share the implementation, so a transcript that ignores part of its input passes every honest run.",
  files=["plonk/src/transcript/mod.rs", "plonk/src/transcript/standard.rs", "plonk/src/transcript/rescue.rs", "plonk/src/transcript/solidity.rs", "plonk/src/circuit/transcript.rs"], mech=[("transcripts", "plonk/src/transcript"), ("circuit transcript", "plonk/src/circuit/transcript.rs")],
  tech="state-update summaries over MIR: which inputs reach the state and the hash, in which order"),
 dict(id="L03", title="PLONK refuses proofs, keys and inputs of the wrong shape",
  statement="Verification, batch verification and proving return an error when lists of instances, keys, proofs or public inputs have different lengths or are empty, when a number of public inputs, commitments or evaluations does not fit the key, or when the instances of a batch have different domain sizes or mix keys with and without lookup. Proving also refuses circuits that do not fit the proving key, and preprocessing refuses parameters that are too small. No such mismatch is silently truncated or ignored.",
  quant="all instances, keys, proofs and public inputs", why="Tests only tamper with values of well-formed proofs; surplus or missing parts are not enumerated.",
  files=["plonk/src/proof_system/snark.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/batch_arg.rs", "plonk/src/proof_system/structs.rs"], mech=[("verifier", "plonk/src/proof_system/verifier.rs prepare_pcs_info"), ("prover", "plonk/src/proof_system/snark.rs batch_prove_internal, preprocess")],
  tech="guard (must-pass) analysis over MIR: which comparisons every accepting path went through, per list position"),
 dict(id="L04", title="PLONK prover, verifier and circuit agree on the constraint equations",
  statement="The gate, copy and lookup equations that the verifier evaluates are the ones the prover builds its quotient and linearisation from, term by term: same factors, same selectors and wires, same powers of the challenges, same Lagrange coefficients, for every instance of a batch. The gate equation is the one a circuit checks its own witness against.",
  quant="all circuits, proofs and challenges", why="An honest proof still verifies when both sides drop the same term, and a term only matters for gates and lookups the test circuits use.",
  files=["plonk/src/proof_system/prover.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/lagrange.rs", "relation/src/constraint_system.rs"], mech=[("verifier", "plonk/src/proof_system/verifier.rs linearization_scalars_and_bases"), ("prover", "plonk/src/proof_system/prover.rs compute_quotient_polynomial")],
  tech="value-flow analysis over MIR into named polynomials (loops as sums and products over their lists), compared with the equations of the protocol"),
 dict(id="L05", title="PLONK openings are combined alike and checked with the right equation",
  statement="Prover and verifier combine polynomials, commitments and evaluations in the same order with the same powers of the challenge, none left out, at the evaluation point and at its successor. The pairing equation, alone, in a batch or as partial verification and final decision, contains every opening with the factor the scheme requires; a batch is combined with a challenge that depends on all its proofs, and adding a commitment twice adds up its factors.",
  quant="all batches of instances, keys and proofs", why="Batches with several instances, with lookups and with invalid members in each position are not enumerated by tests.",
  files=["plonk/src/proof_system/prover.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/batch_arg.rs", "plonk/src/proof_system/structs.rs"], mech=[("verifier", "plonk/src/proof_system/verifier.rs aggregate_poly_commitments, batch_verify_opening_proofs"), ("prover", "plonk/src/proof_system/prover.rs compute_opening_proofs")],
  tech="history of accumulated states over MIR (order and factor of every addition) and polynomial comparison of the pairing equation"),
 dict(id="C01", title="Circuit gadgets refuse variables that do not exist",
  statement="Every circuit-building operation that places one of its variable arguments on a gate, on the range-check list or makes it public returns an error when that variable is not smaller than the number of variables of the circuit. This includes every element of list, point, hash-state and non-native arguments; looking up the value of a variable that does not exist is an error too.",
  over=["inputs", "programs"], quant="all gadgets taking a circuit, all variable arguments and list elements", why="Tests pass one out-of-range variable to a few gadgets; most arguments and list positions are never tried.",
  files=["relation/src/constraint_system.rs", "relation/src/gadgets", "rescue/src/gadgets", "merkle_tree/src/gadgets"], mech=[("bounds check", "relation/src/constraint_system.rs check_var_bound"), ("gadgets", "relation/src/gadgets, rescue/src/gadgets, merkle_tree/src/gadgets")],
  tech="interprocedural must-check summaries (fixpoint over all functions that take a circuit)"),
 dict(id="C03", title="Elementary circuit gadgets constrain exactly their documented relation",
  statement="The gates inserted by the elementary arithmetic, logic, selection and curve-point gadgets are satisfied exactly by the assignments the gadget documents: nothing is left unconstrained and nothing else is excluded, for every assignment and not only the honest one. The value a gadget assigns to a variable it creates satisfies those gates, and the returned variable is the one constrained to be the result.",
  over=["inputs", "programs"], quant="all assignments of all wires, all inputs", why="Circuit tests assign honest values and change a variable or two; a missing or weakened constraint only shows for other assignments.",
  files=["relation/src/gadgets/arithmetic.rs", "relation/src/gadgets/logic.rs", "relation/src/gadgets/ecc/mod.rs", "relation/src/gates", "relation/src/constraint_system.rs"], mech=[("gadgets", "relation/src/gadgets"), ("selectors", "relation/src/gates")],
  tech="gates read as polynomials (selector values from the gate types over MIR), elimination of created variables, comparison with the documented equations"),
 dict(id="C02", title="Finalised circuits cannot change and only they are arithmetised",
  statement="Creating variables, inserting gates, making variables public and range-checking variables are errors on a finalised circuit and leave it as it was; arithmetisation methods are errors on a circuit that is not finalised, and finalising twice changes nothing. Range checks, lookup tables and lookup arithmetisation are errors on circuits without lookup support, finalisation for merging on circuits with it. Merging is an error unless both circuits are finalised TurboPlonk circuits with the same domain size and number of public inputs, starting at the first and the last gate.",
  over=["histories", "programs", "configurations"], quant="all public functions that take a circuit, both states and both kinds of circuits", why="Tests try a few operations after finalisation; that no operation at all changes a finalised circuit quantifies over the whole interface.",
  files=["relation/src/constraint_system.rs", "relation/src/gadgets"], mech=[("state test", "relation/src/constraint_system.rs check_finalize_flag"), ("kind test", "relation/src/constraint_system.rs check_plonk_type"), ("merge", "relation/src/constraint_system.rs merge")],
  tech="typestate and effect analysis over all public circuit functions (written fields versus state tests on the unmodified circuit)"),
 dict(id="C05", title="Satisfiability check covers every gate, input, range and lookup",
  statement="The satisfiability check of a circuit succeeds only if the number of public inputs fits, each public input gate holds for the public input of its position, every other gate holds, every range-checked variable is below the range size and every lookup is a row of the tables in the circuit. The public inputs a circuit reports are the values of its public variables in the order they were made public; creating variables and inserting gates records exactly the given value, wires and gate, and variables 0 and 1 are the constants 0 and 1.",
  over=["inputs", "programs"], quant="all circuits, witnesses and public inputs", why="Tests check satisfiability of small circuits with one wrong value; a gate, input or lookup that is skipped in some configuration is not noticed.",
  files=["relation/src/constraint_system.rs"], mech=[("satisfiability check", "relation/src/constraint_system.rs check_circuit_satisfiability"), ("recording", "relation/src/constraint_system.rs insert_gate, create_variable, set_variable_public")],
  tech="coverage analysis over MIR: conditions under which a check is skipped on the way to success, operands as gate positions and wires; effect summaries of the recording functions"),
 dict(id="C06", title="Arithmetisation encodes exactly the gates, wires and inputs of the circuit",
  statement="Finalising pads gates and wires with neutral ones to a domain with room for all gates, range entries and table rows, moves gates only together with all their wires, puts public input gates first in order and table rows in the last slots but one, and links exactly the occurrences of each variable in one cycle. The wire, selector, permutation, public input and lookup polynomials, the merged tables, the sorted vector and both grand products take at every domain position the values the PLONK and Plookup arguments define for the circuit. Merging gives a circuit whose two halves are the gates, wires, witnesses, inputs and permutations of the two circuits.",
  over=["inputs", "programs", "configurations"], quant="all circuits, witnesses, challenges and domain sizes", why="Tests evaluate the polynomials of small circuits; positions and factors that only differ for other sizes, repeated table rows or circuits of several kinds are not exercised.",
  files=["relation/src/constraint_system.rs"], mech=[("finalisation", "relation/src/constraint_system.rs finalize_for_arithmetization, finalize_for_mergeable_circuit"), ("polynomials", "relation/src/constraint_system.rs Arithmetization"), ("merge", "relation/src/constraint_system.rs merge")],
  tech="effect trees over MIR (writes with loop domains and alternatives); positions and values normalised to polynomials in domain size and loop counters and compared with the definition"),
 dict(id="S01", title="Schnorr signing, verification and its circuit follow one equation",
  statement="A Schnorr signature verifies exactly when the key times the cofactor is not the identity and G*s = R + c*vk, where the challenge c hashes the ciphersuite identifier, the key, R and the whole message; the signer derives its nonce from its key and the whole message and answers that challenge. The circuit gadgets compute the challenge from the same values in the same order, cut it to the same length, and constrain or compare both sides of the same equation for the given variables.",
  quant="all keys, messages, identifiers and signatures, honest or not", why="Tests sign short messages and change the message or the key once; swapped or dropped inputs of the challenge, and signatures made for another equation, are not tried.",
  files=["signature/src/schnorr.rs", "signature/src/gadgets/schnorr.rs"], mech=[("verification", "signature/src/schnorr.rs VerKey::verify, challenge"), ("signing", "signature/src/schnorr.rs KeyPair::sign"), ("circuit", "signature/src/gadgets/schnorr.rs")],
  tech="values over MIR in a canonical algebraic text (sums, scalar multiples, hashed sequences) compared with the specified equation; guards every accepting path passes"),
 dict(id="S02", title="BLS signatures verify exactly the pairing equation over all keys and messages",
  statement="Single, aggregate and multi signature verification over BN254 succeed only if the pairing equation over all given keys and messages holds under the scheme's identifier; lists must not be empty and have equal length, and the checked variants also refuse signatures off the curve and invalid keys, while nothing else refuses a valid signature. Aggregation is the sum of all signatures and refuses an empty list; the hash to the curve takes the first x from the message on for which x^3+3 is a square, and its smaller root. Over BLS12-381 verification additionally requires a valid key and a valid signature, both including the subgroup.",
  quant="all lists of keys and messages, all signatures", why="Tests aggregate a few honest signatures; one skipped list element, an accepted empty list or an unchecked point needs a forged signature to show.",
  files=["signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs"], mech=[("verification", "signature/src/bls_over_bn254.rs verify, aggregate_verify, multi_sig_verify"), ("hash to curve", "signature/src/bls_over_bn254.rs hash_to_curve"), ("bls12-381", "signature/src/bls_over_bls12381.rs")],
  tech="pairing equations over MIR in a canonical algebraic text with sums over list domains; must-pass guards and absence of other refusals; recurrence of the search loop"),
 dict(id="S03", title="Signature keys match, survive their encodings, and secret keys stay secret",
  statement="However a key pair is generated, decoded, converted or randomised, its public key is the generator times its secret key, and fresh keys are drawn from the given randomness. Encoding keys and signatures to bytes or tagged text and decoding gives back the same value; a foreign tag, a wrong length and, when validation is requested, an invalid point are errors. Dropping a secret key clears it and its debug form does not depend on it.",
  quant="all keys, all byte strings, both compression modes and validation modes", why="Tests make one round trip per key type; foreign tags, single modes of decoding, clearing on drop and debug output are not observed.",
  files=["signature/src/schnorr.rs", "signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs"], mech=[("keys", "signature/src/schnorr.rs KeyPair"), ("keys", "signature/src/bls_over_bn254.rs KeyPair"), ("encodings", "signature/src/bls_over_bls12381.rs")],
  tech="values over MIR in a canonical text, encoder and decoder compared; effect analysis of drop; absence of dependence of the debug form"),
 dict(id="V01", title="The VRF output is given exactly for verified proofs and is a function of them",
  statement="Verification returns an output exactly when the proof is a valid signature of the input under the public key, and that output is the hash of the whole serialised proof under the hash function the chosen suite names. Evaluation gives the output of the proof it makes; computing outputs leaves the scheme unchanged, so the same proof always has the same output.",
  over=["inputs", "histories"], quant="all keys, inputs, proofs, suites and sequences of calls", why="Tests verify fresh proofs on fresh schemes; an output that depends on earlier calls or on part of the proof is not noticed.",
  files=["vrf/src/blsvrf.rs", "vrf/src/lib.rs"], mech=[("vrf", "vrf/src/blsvrf.rs verify, proof_to_hash")],
  tech="values over MIR in a canonical text together with the conditions of each result; effect analysis of the receiver"),
 dict(id="A01", title="Authenticated encryption binds key, nonce, message and associated data",
  statement="Encryption seals the whole message and associated data under the sending key of a fresh key pair for the recipient and a fresh nonce, and hands out that nonce and that pair's public key; decryption opens the ciphertext under the matching receiving key, the nonce and associated data given, and fails when it does not authenticate. Keys and nonces are encoded with their full length and decoded from exactly that length; other lengths are errors, not panics.",
  quant="all messages, associated data, keys and byte strings", why="Tests decrypt what they encrypted; a nonce or key that is reused or not bound needs an attacker's ciphertext, and short encodings are not tried.",
  files=["aead/src/lib.rs"], mech=[("encryption", "aead/src/lib.rs EncKey::encrypt"), ("decryption", "aead/src/lib.rs KeyPair::decrypt"), ("encodings", "aead/src/lib.rs canonical_serde, Nonce")],
  tech="values over MIR in a canonical text (which call results reach which parts), must-pass guards, encoder compared with decoder"),
 dict(id="E01", title="ElGamal decryption and its circuit invert and mirror encryption",
  statement="Encryption masks every element with a key stream made from the point r*pk, one block cipher call on nonce plus block number per block, and hands out r*G; decryption removes the stream of dec*(r*G) with the same nonce, and neither changes the length. The circuit computes the same key, stream, order and length from its variables. Converting a ciphertext to field elements and back gives the same ciphertext; too few elements and points outside the prime order subgroup are errors, not panics.",
  quant="all keys, messages of every length and random values", why="Tests encrypt a few lengths; blocks beyond the first, lengths that are no multiple of the block, and invalid points are hardly tried.",
  files=["elgamal/src/lib.rs", "elgamal/src/gadgets.rs"], mech=[("encryption", "elgamal/src/lib.rs apply_counter_mode_stream, encrypt, decrypt"), ("circuit", "elgamal/src/gadgets.rs"), ("conversion", "elgamal/src/lib.rs from_scalars, to_scalars")],
  tech="histories of values changed in place over MIR (loops with their lists, alternatives with their conditions) in a canonical text; native and circuit against one specification"),
 dict(id="R01", title="The Rescue permutation follows its rounds and its constants are consistent",
  statement="The permutation and the keyed cipher add the first key, then alternate the inverse power and the power of every entry, each followed by the matrix product and the next key; the key schedule runs the same rounds from the initial vector with the injected constants. For each supported field the two exponents are inverse to each other, every minor of the matrix is non-zero, all constants are reduced, and the fixed round keys are the key schedule of the zero key.",
  over=["inputs"], quant="all states and keys, all fields with parameters", why="Tests compare a handful of vectors; a wrong constant or round that they do not reach stays unseen.",
  files=["rescue/src/lib.rs", "rescue/src/rescue_constants/"], mech=[("rounds", "rescue/src/lib.rs prp_with_round_keys, key_schedule"), ("vector and matrix operations", "rescue/src/lib.rs RescueVector, RescueMatrix"), ("constants", "rescue/src/rescue_constants")],
  tech="canonical texts of loops and values changed in place over MIR; the constants evaluated by the compiler checked by modular arithmetic"),
 dict(id="R02", title="Rescue hashing, commitments and PRF use the sponge as documented",
  statement="Blocks of the rate are added to the state and permuted in order, output is taken a rate at a time with a permutation in between, from the zero state or, for the PRF, from the state with the key in its last entry. Bit padding always appends a one and then zeros, zero padding appends zeros only, and unpadded input whose length is no multiple of the block is refused. A commitment hashes the blinding factor followed by the whole message, and verification accepts exactly the commitment computed.",
  over=["inputs"], quant="all inputs and output lengths", why="Tests use few lengths; inputs at block boundaries, several output blocks and wrong openings are hardly tried.",
  files=["rescue/src/sponge.rs", "rescue/src/crhf.rs", "rescue/src/commitment.rs", "rescue/src/prf.rs"], mech=[("sponge", "rescue/src/sponge.rs"), ("padding", "rescue/src/crhf.rs, prf.rs"), ("commitment", "rescue/src/commitment.rs")],
  tech="canonical texts of loops without a list and values changed in place over MIR; conditions of every accepting path"),
 dict(id="R03", title="The native Rescue circuit computes and enforces the native construction",
  statement="The circuit for a Rescue permutation over its own field runs the rounds, key schedule, sponge modes, padding and length checks of the native code; every variable it makes holds the native value of its step and is tied to the inputs of the step by a gate whose selectors are the row of the matrix and the constant. The commitment and PRF circuits hash the same inputs in the same order as their native counterparts.",
  over=["inputs"], quant="all inputs, keys and assignments of the witness", why="Tests check honest witnesses against native results; a missing gate only shows with a dishonest one.",
  files=["rescue/src/gadgets/native.rs", "rescue/src/gadgets/mod.rs", "rescue/src/gadgets/commitment.rs", "rescue/src/gadgets/prf.rs"], mech=[("rounds and modes", "rescue/src/gadgets/native.rs RescueGadget"), ("gates", "rescue/src/gadgets/native.rs PermutationGadget, RescueAffineGate, Power5NonLinearGate")],
  tech="canonical texts of values and of gate insertions, with the loops and conditions they are in, over MIR"),
 dict(id="R04", title="The emulated Rescue circuit computes and enforces the native construction",
  statement="The circuit for a Rescue permutation over another field runs the rounds, key schedule, sponge modes, padding and length checks of the native code with every addition and product taken modulo the field of the permutation. Both halves of every emulated result are bound to the step they come from, states with different moduli are not added, and exponents that are not supported are refused.",
  over=["inputs"], quant="all inputs, keys and assignments of the witness", why="Tests check honest witnesses against native results; a half that is not bound only shows with a dishonest one.",
  files=["rescue/src/gadgets/non_native.rs", "rescue/src/gadgets/mod.rs"], mech=[("rounds and modes", "rescue/src/gadgets/non_native.rs RescueGadget"), ("binding", "rescue/src/gadgets/non_native.rs PermutationGadget")],
  tech="canonical texts of values and of bindings, with the loops and conditions they are in, over MIR"),
 dict(id="Q01", title="The Poseidon2 permutation runs its rounds with the published constants",
  statement="The permutation multiplies by the external matrix, then runs the first half of the external rounds, all internal rounds and the second half, each round with its own constants, the power map on all (internal: the first) entries and the matrix of its layer, for every supported state size. Unsupported state sizes and parameters whose numbers of rounds and constants do not fit are refused. The constants of every instance are those of the published generator for its field, state size and numbers of rounds, its power is invertible, and its diagonal is that of the internal matrix.",
  over=["inputs", "configurations"], quant="all states, all supported state sizes, all instances with their constants", why="Tests compare with a few known answers for three instances; larger states have no instance and are never run, and known answers do not say which constant is wrong.",
  files=["poseidon2/src/lib.rs", "poseidon2/src/external.rs", "poseidon2/src/internal.rs", "poseidon2/src/constants.rs"], mech=[("rounds", "poseidon2/src/lib.rs permute_mut"), ("matrices", "poseidon2/src/external.rs, internal.rs"), ("constants", "poseidon2/src/constants/*.rs")],
  tech="canonical texts of values over MIR, one analysis per state size; constants read from the program and compared with the generator recomputed by the analysis"),
 dict(id="Q02", title="Poseidon2 hashes absorb the padded input and squeeze the whole output",
  statement="Fixed-length hashing pads with zeros to the input length and refuses longer inputs; variable-length hashing always appends a one and then zeros up to a multiple of the rate, so that different inputs are padded differently. The padded input is absorbed by a fresh sponge and the whole output is squeezed from it. A sponge starts from zeros with the initial value at the start of the capacity, refuses rates and capacities that are not secure, and is permuted by the permutation.",
  over=["inputs", "configurations"], quant="all inputs of all lengths, all rates and state sizes", why="Tests hash one input per instance; inputs that collide through padding are never compared.",
  files=["poseidon2/src/crhf.rs", "poseidon2/src/permutation.rs"], mech=[("hashing", "poseidon2/src/crhf.rs evaluate"), ("sponge state", "poseidon2/src/permutation.rs")],
  tech="canonical texts of values, calls and conditions over MIR"),
 dict(id="C04", title="Sums, ranges, comparisons and truncation constrain what they say",
  statement="The gadgets put together from elementary ones constrain exactly what they document: a sum adds every element once, a decomposition weighs every piece by its power of the base and is canonical when it has as many bits as the modulus, a range check bounds the whole value, a comparison orders the operands as field elements, and a truncation ties value, result and quotient together with every part in its range. This holds for every length, including those that are not a multiple of the piece length or leave a part without bits. Empty lists, ranges of no bits and lengths the field cannot hold are errors.",
  over=["inputs", "programs", "configurations"], quant="all list lengths, bit lengths, range sizes and operands, with and without lookup support", why="Tests try a few lengths with honest values; a part left out of range for one remainder of the length, or one swapped operand of sixteen comparisons, is accepted.",
  files=["relation/src/gadgets/arithmetic.rs", "relation/src/gadgets/range.rs", "relation/src/gadgets/cmp.rs", "relation/src/gadgets/logic.rs", "relation/src/gadgets/ultraplonk/range.rs"], mech=[("sums and truncation", "relation/src/gadgets/arithmetic.rs"), ("ranges", "relation/src/gadgets/range.rs, relation/src/gadgets/ultraplonk/range.rs"), ("comparisons", "relation/src/gadgets/cmp.rs")],
  tech="compositions of gadget calls over MIR in a canonical text (loops as folds, conditions of each inserted gate) compared with the documented composition"),
 dict(id="C07", title="Scalar multiplication gadgets give exactly scalar times base",
  statement="The point returned by fixed base, variable base and multi-scalar multiplication gadgets is constrained to be the sum of the given scalars times the given bases, for every number of bases and every scalar within the stated bit length, with and without lookup support and, over Bandersnatch, through its endomorphism. Decompositions of scalars into bits, windows or parts are constrained to be unique representations of the scalar. Lists of different lengths and variables of other circuits are errors.",
  over=["inputs", "programs", "configurations"], quant="all scalars, bases, numbers of bases, bit lengths and curves", why="Tests multiply random scalars honestly; windows or parts that also satisfy the constraints for another scalar are not tried.",
  files=["relation/src/gadgets/ecc/mod.rs", "relation/src/gadgets/ecc/msm.rs", "relation/src/gadgets/ecc/glv.rs"], mech=[("fixed and variable base", "relation/src/gadgets/ecc/mod.rs fixed_base_scalar_mul, variable_base_binary_scalar_mul"), ("windows", "relation/src/gadgets/ecc/msm.rs"), ("endomorphism", "relation/src/gadgets/ecc/glv.rs")],
  tech="compositions of gadget calls over MIR in a canonical text (recurrences of loops, lists built from their own last element); linear equations of the scalar decomposition with interval bounds; constants checked against the published curve"),
 dict(id="C08", title="Foreign field arithmetic and curve addition in limbs are exact",
  statement="Elements of a foreign field are represented by limbs of a fixed number of bits, each constrained to its range; addition, subtraction and multiplication of such elements, by variables and by constants, satisfy the circuit for every pair of reduced operands, and limb by limb and modulo the native field accept no other result. Point addition over a foreign field, in short Weierstrass and twisted Edwards form, accepts exactly the sum in every case of the group law. Selection, equality tests and conversions between curve forms preserve the value.",
  over=["inputs", "programs", "configurations"], quant="all elements and points over the foreign field, and all registered pairs of fields", why="Tests use random elements, for which carries seldom ripple and points are never inverse to each other; results that differ by a carry or at infinity are not tried.",
  files=["relation/src/gadgets/emulated.rs", "relation/src/gadgets/ecc/emulated/short_weierstrass.rs", "relation/src/gadgets/ecc/emulated/twisted_edwards.rs", "relation/src/gadgets/ecc/conversion.rs"],
  mech=[("limb equations and carries", "relation/src/gadgets/emulated.rs"), ("point addition", "relation/src/gadgets/ecc/emulated"), ("conversion", "relation/src/gadgets/ecc/conversion.rs")],
  tech="gate equations over MIR as polynomials in a canonical text (the sum of a pending list is an invariant of its loop), compared at every number of limbs up to seven; carry ranges by interval bounds for each pair of fields; truth tables and polynomials of point addition compared with the group law"),
 dict(id="C09", title="Modular arithmetic on elements in two parts is exact",
  statement="In circuits with lookup tables, elements of a smaller field are kept as two parts of a given number of bits: splitting and joining preserve the value, and elements created from values have both parts constrained to their range. Modular sums, products, constant operations and negations satisfy the circuit for honest values and constrain the result to be congruent to the operation modulo the given modulus, with quotients, remainders and carries in their ranges; elements of different splits, and splits for which products would wrap around the native field, are refused. Fifth and eleventh powers and linear forms are the compositions of these modulo the smaller field.",
  over=["inputs", "programs", "configurations"], quant="all elements, moduli, numbers of summands (compared up to eleven), and splits and table sizes that are accepted (compared on a grid of field sizes from 64 to 381 bits)", why="Tests use one split, one table size and a modulus that is a power of two or one pair of fields; missing bounds and wrap-around show only with dishonest witnesses, which are not tried.",
  files=["relation/src/gadgets/ultraplonk/mod_arith.rs", "relation/src/gadgets/ultraplonk/non_native_gates.rs"],
  mech=[("sums, products, negation", "relation/src/gadgets/ultraplonk/mod_arith.rs"), ("powers and linear forms", "relation/src/gadgets/ultraplonk/non_native_gates.rs")],
  tech="gate equations over MIR as polynomials in a canonical text; the values of new variables as formal identities in unknown quotients; guards and ranges evaluated on a grid of sizes"),
 dict(id="L06", title="In-circuit PLONK verification computes what the verifier computes",
  statement="The circuit that verifies a batch of merged PLONK proofs returns the two group elements of the verifier's final pairing check, both shifted by multiples of the given blinding factor: the linearisation commitment and its constant term, public inputs, combined commitments and evaluations, and opening points are the formulas of the verifier over its challenges, modulo the scalar field. Values it computes outside the circuit, such as inverses and quotients, are tied to their inputs by equations that honest values satisfy. Keys hold the points of the key they are made from, merge into the sum of two keys of the same shape, and batches whose keys, proofs or public inputs do not fit are refused.",
  over=["inputs", "programs", "configurations"], quant="all proofs, keys, public inputs and challenges, in batches of one to three instances", why="The tests build one circuit from honest proofs; a value that is not tied to its inputs, or a term that vanishes for equal instances, is not noticed.",
  files=["plonk/src/circuit/plonk_verifier/mod.rs", "plonk/src/circuit/plonk_verifier/gadgets.rs", "plonk/src/circuit/plonk_verifier/poly.rs", "plonk/src/circuit/plonk_verifier/structs.rs"],
  mech=[("linearisation and public inputs", "plonk/src/circuit/plonk_verifier/poly.rs"), ("combination and opening", "plonk/src/circuit/plonk_verifier/gadgets.rs"), ("decision and keys", "plonk/src/circuit/plonk_verifier/mod.rs")],
  tech="results and enforced equations over MIR in a canonical text, read as polynomials over challenges, evaluations and points and compared with the verifier's formulas at fixed random numbers; guards tried on fitting and unfitting shapes"),
]
NOT_CLAIMED = {}
