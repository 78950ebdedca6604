T_SYM = "symbolic execution of the compiled Rust source over symbolic field/group/transcript types; obligations decided by z3 (QF_FF)"
NOTE = "bounded: all values of the symbolic inputs, for the circuit sizes / histories / parameters listed in the evidence; field, group and hash are idealised (discrete log, random oracle)"
PROPS = []
def prop(**k):
    k.setdefault("technique", T_SYM)
    k.setdefault("note", NOTE)
    PROPS.append(k)

prop(id="C01", title="Every satisfied circuit has a proof and the verifier accepts it",
 statement="For every rank-1 constraint system built through the public API (any number of committed values, multipliers allocated by any of the allocation calls, any linear constraints, one or two phases, any number of surplus generators) and every witness that satisfies it, proving succeeds and the verifier that builds the same constraint system accepts the proof, also after the proof went through serialisation.",
 over=["inputs", "programs", "configurations"], quant="all coefficients, witnesses, blindings and challenges; circuit shapes up to the stated number of multipliers in each phase, padded and unpadded",
 why="The tests prove a few fixed circuits with a few random values; a term that cancels only for those circuits, or only when the multiplier count is a power of two, is not exercised.",
 files=["src/r1cs/prover.rs", "src/r1cs/verifier.rs", "src/r1cs/proof.rs", "src/ipp.rs", "src/utils/vector_poly.rs"],
 mech=[("Prover::prove", "src/r1cs/prover.rs"), ("Verifier::verify", "src/r1cs/verifier.rs"), ("IPP::create_ipp / verification_scalars", "src/ipp.rs")])
prop(id="C02", title="The verifier accepts exactly when the Bulletproofs equations hold",
 statement="For every constraint system, every list of commitments and every proof, verification succeeds exactly when both equations of the protocol hold for the challenges of the transcript: the polynomial commitment equation and the inner product equation, each with the weights the constraint system defines, over all multipliers including padding. The two are combined only with randomness the prover cannot predict, and no proof component is exempt from them.",
 over=["inputs", "programs", "configurations"], quant="all proof scalars, arbitrary proof points and commitments, all constraint coefficients and challenges; circuit shapes up to the stated size in each phase",
 why="Tests only check that honest proofs verify; a verifier that drops a term or exempts special proof values still passes them.",
 files=["src/r1cs/verifier.rs", "src/ipp.rs"],
 mech=[("Verifier::verify mega-check", "src/r1cs/verifier.rs"), ("flattened_constraints", "src/r1cs/verifier.rs"), ("verification_scalars", "src/ipp.rs")])
prop(id="C03", title="Every challenge depends on the statement and all earlier prover messages",
 statement="Each challenge is derived from the caller's transcript state (including its label and anything absorbed before), all value commitments, and every proof component that precedes it in the protocol, so changing any of them changes the challenge. Prover and verifier absorb the same messages in the same order and leave the transcript in the same state.",
 over=["inputs", "programs", "configurations"], quant="all pairs of proofs and commitments (symbolic discrete logs), every challenge of the protocol, circuit shapes in one and two phases up to the stated size",
 why="A message left out of the transcript is invisible to honest runs: both sides still agree, and every test passes.",
 files=["src/transcript.rs", "src/r1cs/prover.rs", "src/r1cs/verifier.rs", "src/ipp.rs"],
 mech=[("TranscriptProtocol", "src/transcript.rs"), ("commit_point / challenge_scalar calls", "src/r1cs/prover.rs, src/r1cs/verifier.rs, src/ipp.rs")])
prop(id="C04", title="Malformed proofs and parameters are reported as errors, never panics",
 statement="Verifying a proof whose inner product argument has any number of left and right round points, or proving and verifying with any number of generators, or running a gadget with any number of commitments or blindings, never panics: a wrong number of rounds, missing commitments and missing or miscounted blindings are reported as errors, too few generators as the generator length error, and surplus generators make no difference.",
 over=["inputs", "configurations", "fault_sequences"], quant="all values of the proof; numbers of rounds, generators and commitments up to the stated limits",
 why="Tests never feed malformed proofs; each length combination is its own input.",
 files=["src/r1cs/verifier.rs", "src/r1cs/prover.rs", "src/ipp.rs", "src/r1cs/gadgets"],
 mech=[("verification_scalars length checks", "src/ipp.rs"), ("generator length checks", "src/r1cs/prover.rs, src/r1cs/verifier.rs"), ("check_for_commitments_length!", "src/r1cs/gadgets")])
prop(id="C05", title="The inner product argument is complete and checks the claimed relation",
 statement="For every power-of-two size, all vectors, all generator factors and all bases, an honestly created inner product proof has logarithmically many rounds and is accepted for the commitment that holds the vectors and their inner product; verification accepts exactly when the protocol's folding equation holds, and so rejects the honest proof for a commitment that differs in any component.",
 over=["inputs", "configurations"], quant="all vectors, factors, challenges and proof values; sizes 1 to 32 (64 in the thorough tier)",
 why="The tests run one size with factors that make several terms coincide.",
 files=["src/ipp.rs"], mech=[("create_ipp", "src/ipp.rs"), ("verify_ipp", "src/ipp.rs"), ("verification_scalars", "src/ipp.rs")])
prop(id="C06", title="Every variable handle denotes the value and wire it was created for",
 statement="For every history of commit, allocate, allocate_single, allocate_multiplier, multiply and constrain calls in either phase, each returned variable denotes its own wire: the prover evaluates it to the value it was given (or the product or combination it stands for), prover and verifier return the same variables and count the same multipliers, the resulting proof is accepted, a constraint that contradicts any variable's value makes verification fail, and a missing assignment is an error.",
 over=["histories", "inputs"], quant="all values; all histories of the stated length, with the second phase starting at any point",
 why="The tests use a handful of call sequences; mixing the allocation calls in other orders is not exercised.",
 files=["src/r1cs/prover.rs", "src/r1cs/verifier.rs", "src/r1cs/constraint_system.rs"],
 mech=[("allocate / allocate_single / allocate_multiplier / multiply", "src/r1cs/prover.rs, src/r1cs/verifier.rs"), ("pending_multiplier", "src/r1cs/prover.rs, src/r1cs/verifier.rs")])
prop(id="C07", title="Linear combinations obey the laws of linear algebra",
 statement="For all linear combinations, variables and scalars, every operator and conversion (addition, subtraction, negation, scaling by field elements, collecting terms, simplifying) yields a combination whose value under any assignment is the corresponding operation on the operands' values, and simplifying leaves at most one term per variable with the summed coefficient.",
 over=["inputs", "programs", "histories"], quant="all coefficients and assignments; all sequences of operations of the stated length",
 why="Tests only touch the operators through gadgets, with repeated variables rarely occurring.",
 files=["src/r1cs/linear_combination.rs"], mech=[("operator impls", "src/r1cs/linear_combination.rs"), ("simplify", "src/r1cs/linear_combination.rs")])
prop(id="C08", title="Vector polynomials evaluate and multiply as polynomials do",
 statement="For vectors of every length, evaluating a vector or scalar polynomial at a point gives the sum of coefficient times power, the inner product of two vector polynomials is the polynomial whose value at every point is the inner product of their values with each coefficient in its place, and zero polynomials have the length asked for.",
 over=["inputs", "configurations"], quant="all coefficients and points; lengths up to the stated limit",
 why="Tests check one random evaluation of one length.",
 files=["src/utils/vector_poly.rs"], mech=[("VecPoly1 / VecPoly3 / Poly2 / Poly6", "src/utils/vector_poly.rs")])
prop(id="C09", title="Every secret a proof carries is blinded by its own fresh randomness",
 statement="The blinding factors of all vector commitments and polynomial coefficient commitments and the blinding vectors of both sides of every multiplier are independent, uniformly random and drawn afresh for every proof, and value commitments are Pedersen commitments to exactly the value with exactly the blinding the caller gave or a fresh one; so no linear relation between them reveals the witness.",
 over=["inputs", "programs"], quant="all witnesses and coins; circuit shapes in one and two phases up to the stated size",
 why="A reused or constant blinding factor does not affect whether proofs verify.",
 files=["src/r1cs/prover.rs", "src/r1cs/gadgets"], mech=[("blinding factors in Prover::prove", "src/r1cs/prover.rs"), ("commit", "src/r1cs/prover.rs")])
prop(id="C10", title="Bound proofs exist for every value in range and for no other value",
 statement="For all bounds and bit widths that fit the range, every value within the bounds has a proof that the verifier accepts, bound to the commitment of exactly that value with the caller's blinding; no assignment the verifier would accept has a committed value outside the bounds, and the prover refuses values outside them with an error.",
 over=["inputs", "configurations"], quant="soundness: every committed field element, for the stated bounds and every bit width 1 to 64; completeness: the ends and inner points of the ranges of each width, all blindings and challenges",
 why="The tests prove one value in one range; a missing constraint only shows for a dishonest prover, an overflow only for extreme bounds.",
 files=["src/r1cs/gadgets/bound_check.rs", "src/r1cs/gadgets/helper_constraints/positive_no.rs", "src/utils/mod.rs"],
 mech=[("bound_check_gadget", "src/r1cs/gadgets/bound_check.rs"), ("positive_no_gadget", "src/r1cs/gadgets/helper_constraints/positive_no.rs")])
prop(id="C11", title="Set membership proofs exist exactly for the elements of the set",
 statement="For every set and every element of it both set membership proofs (difference product and bitmap) are accepted, for the commitment of exactly that element; no assignment that the verifier would accept has a committed value outside the set. Proving for a value outside the set never panics.",
 over=["inputs", "configurations"], quant="all set elements and values (difference product), the stated sets of distinct 64-bit integers and every committed value (bitmap); set sizes up to the stated limit, every position",
 why="The tests prove membership of one element of one set; that nothing else can be proved is not testable by example.",
 files=["src/r1cs/gadgets/set_membership.rs", "src/r1cs/gadgets/set_membership_alt.rs"],
 mech=[("set_membership_gadget", "src/r1cs/gadgets/set_membership.rs"), ("vector_product_gadget", "src/r1cs/gadgets/set_membership_alt.rs")])
prop(id="C12", title="Non-membership and non-zero proofs exist exactly for true statements",
 statement="For every set and every value different from all its elements the non-membership proof is accepted, and for every non-zero value the non-zero proof is; no assignment that the verifier would accept has a committed value in the set, respectively equal to zero. Proving a false statement never panics.",
 over=["inputs", "configurations"], quant="all set elements and values; set sizes up to the stated limit",
 why="The tests prove one true statement each.",
 files=["src/r1cs/gadgets/set_non_membership.rs", "src/r1cs/gadgets/non_zero.rs", "src/r1cs/gadgets/helper_constraints/non_zero.rs"],
 mech=[("is_nonzero_gadget", "src/r1cs/gadgets/helper_constraints/non_zero.rs"), ("set_non_membership_gadget", "src/r1cs/gadgets/set_non_membership.rs")])
prop(id="C13", title="A Hamming distance proof exists exactly for the true distance",
 statement="For all pairs of equally long vectors, the proof of the number of positions in which they differ is accepted, and no assignment that the verifier would accept has committed values that differ from the public ones in any other number of positions.",
 over=["inputs", "configurations"], quant="all values; every pattern of equal and differing positions and every claimed distance, up to the stated length",
 why="The tests prove one pair of vectors; whether a wrong distance can be proved is not tested.",
 files=["src/r1cs/gadgets/hamming_distance.rs"],
 mech=[("hamming distance gadget", "src/r1cs/gadgets/hamming_distance.rs")])
prop(id="C14", title="MiMC preimage proofs exist exactly for preimages",
 statement="The MiMC function is the Feistel network of its definition for every number of rounds and all constants; for all inputs the proof of knowledge of a preimage of its output is accepted, and no assignment that the verifier would accept has committed inputs whose image is not the public output.",
 over=["inputs", "configurations"], quant="all inputs, round constants and outputs; numbers of rounds up to the stated limit",
 why="The tests prove one random preimage.",
 files=["src/r1cs/gadgets/mimc.rs", "src/r1cs/gadgets/helper_constraints/mimc.rs"],
 mech=[("mimc", "src/r1cs/gadgets/helper_constraints/mimc.rs"), ("enforce_mimc_2_inputs", "src/r1cs/gadgets/helper_constraints/mimc.rs")])
prop(id="C15", title="Poseidon is computed as defined and preimage proofs exist only for preimages",
 statement="For each width and S-box the Poseidon permutation follows its definition with the tabulated round keys and matrix (which loses no information), and the hashes are its second output on (0, inputs). For all inputs the proof of knowledge of a preimage is accepted, and no assignment that the verifier would accept has committed inputs whose hash is not the public output.",
 over=["inputs", "configurations"], quant="all inputs and outputs, and for few rounds all round keys and matrices; widths 3, 5, 9; the three S-boxes (inverse: non-zero S-box inputs); soundness up to the round numbers in use",
 why="The tests prove one random preimage per hash; an S-box that is not constrained properly passes them.",
 files=["src/r1cs/gadgets/poseidon_hash.rs", "src/r1cs/gadgets/helper_constraints/poseidon.rs", "src/r1cs/gadgets/poseidon_constants.rs"],
 mech=[("Poseidon_permutation", "src/r1cs/gadgets/helper_constraints/poseidon.rs"), ("Poseidon_permutation_constraints", "src/r1cs/gadgets/helper_constraints/poseidon.rs")])
prop(id="C16", title="Leaf inclusion proofs exist exactly for leaves of the tree",
 statement="For 4-ary and 8-ary trees, all leaves, indices and paths, the inclusion proof of a leaf that hashes up to the root along its index is accepted; no assignment that the verifier would accept has a committed leaf, index and path of the tree's depth that hash up to anything else, or an index that is not a position of the tree.",
 over=["inputs", "configurations"], quant="all leaves, siblings and roots, all indices (soundness: every committed index); depths and round numbers up to the stated limits",
 why="The tests prove one leaf of one tree; mistakes for particular digits of the index or for a dishonest prover are not exercised.",
 files=["src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs", "src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs"],
 mech=[("vanilla_merkle_merkle_tree_4_verif_gadget", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs"), ("vanilla_merkle_merkle_tree_8_verif_gadget", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs")])
prop(id="C17", title="Sparse Merkle trees behave as maps with verifiable contents",
 statement="After every history of updates (including overwriting, writing zero and continuing from an earlier root) the root of a 4-ary or 8-ary tree is that of its contents, every index reads back what was last written there with a proof that verifies against that root, and earlier roots stay readable. A Merkle proof verifies exactly if it has one node per level and hashes up to the root, and a missing node is an error that leaves the tree as it was.",
 over=["histories", "inputs", "fault_sequences"], quant="all values, proofs and roots; all indices and pairs of updates of shallow trees, selected histories of deeper ones",
 why="The tests write a few leaves in increasing order and check them once at the end.",
 files=["src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs", "src/utils/hash_db.rs"],
 mech=[("VanillaSparseMerkleTree_4::update/get/verify_proof", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs"), ("VanillaSparseMerkleTree_8::update/get/verify_proof", "src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs"), ("InMemoryHashDb", "src/utils/hash_db.rs")])
prop(id="C18", title="A randomizer proof exists exactly if undoing the distortion gives the original",
 statement="Distorting data replaces exactly the chosen positions and keeps their original values. For every tree and every choice of distorted positions the proof for the original values is accepted, and no assignment that the verifier would accept has a committed value that is not in the tree with the committed root at its position, or committed values that do not turn the public tree into one with the committed root.",
 over=["inputs", "configurations"], quant="all leaf values and committed paths; numbers of distorted positions, depths and round numbers up to the stated limits, positions that share none, some or all of their path",
 why="The test distorts one tree once; distorted positions that share inner nodes and dishonest provers are not exercised.",
 files=["src/r1cs/gadgets/randomizer.rs"],
 mech=[("randomizer_gadget", "src/r1cs/gadgets/randomizer.rs"), ("get_randomized_data", "src/r1cs/gadgets/randomizer.rs")])
prop(id="C19", title="Circuit building blocks enforce exactly their stated relation",
 statement="Used on their own in any circuit, in either phase, on committed variables or linear combinations: the bit gadget admits exactly 0 and 1, the positive number gadget exactly the numbers below 2^n, the vector sum and scalar constraints exactly the stated sum or value, the vector product gadget exactly vectors with items equal to the value where selected and adding up to it, the non-zero gadget exactly non-zero values with their inverse, the Poseidon permutation and hash constraints and the MiMC constraints exactly the function's output. True relations are proved and accepted, false ones have no satisfying assignment.",
 over=["inputs", "configurations"], quant="all values of the committed variables, all coefficients and outputs; sizes up to the stated limits",
 why="The tests only use the blocks inside one complete gadget each, where other constraints can hide a missing one.",
 files=["src/r1cs/gadgets/helper_constraints", "src/r1cs/gadgets/set_membership_alt.rs"],
 mech=[("bit_gadget", "src/r1cs/gadgets/helper_constraints/bit.rs"), ("positive_no_gadget", "src/r1cs/gadgets/helper_constraints/positive_no.rs"), ("vector_sum_constraints", "src/r1cs/gadgets/helper_constraints/vector_sum.rs"), ("Poseidon_permutation_constraints", "src/r1cs/gadgets/helper_constraints/poseidon.rs")])
prop(id="C20", title="Gadgets compose: every statement of a combined proof holds",
 statement="Several gadgets can be put into one constraint system, in any order, also several of the same kind: the combined proof for true statements is accepted, and no assignment that the verifier would accept breaks the statement of any of them for its own commitments.",
 over=["programs", "inputs"], quant="all values, blindings and challenges; pairs and triples of small gadget instances",
 why="The tests use one gadget per proof, so mistakes in the handling of earlier variables and constraints do not show.",
 files=["src/r1cs/gadgets", "src/r1cs/prover.rs", "src/r1cs/verifier.rs"],
 mech=[("prove_* / verify_*", "src/r1cs/gadgets"), ("Prover / Verifier allocation", "src/r1cs/prover.rs")])
prop(id="C21", title="Generators are independent and hashed challenges bind all their inputs",
 statement="The generators of each family are distinct and have no linear relation within or across families; as many are returned as were asked for. Challenges derived by hashing are different from each other; each is the hash of the state passed in, every input point and the challenges before it, so it depends on all of them, and the state afterwards holds what was hashed.",
 over=["inputs", "configurations"], quant="all states and points; numbers of generators, points and challenges up to the stated limits",
 why="A repeated generator or an ignored input leaves every proof valid; it only makes forgeries possible.",
 files=["src/utils/mod.rs"],
 mech=[("get_generators", "src/utils/mod.rs"), ("gen_challenges", "src/utils/mod.rs")])
