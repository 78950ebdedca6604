//! What the evidence says about each property.
pub struct Meta {
    pub what: &'static str,
    pub functions: Vec<&'static str>,
    pub bounds: &'static str,
    pub outside: &'static str,
    pub assumptions: Vec<&'static str>,
}
const A_GROUP: &str = "generators and points without a known relation are independent (discrete logarithm), so a combination of them is the identity iff every coefficient is zero in F_r";
const A_ORACLE: &str = "merlin is a random oracle: a challenge is an arbitrary non-zero field element determined by the transcript's history";
const A_FIELD: &str = "amcl_wrapper's FieldElement and G1 implement F_r (BLS12-381) and a group of order r (they are replaced by symbolic stand-ins with the same API); counterexamples are replayed on the real ones";
const A_RNG: &str = "FieldElement::random and random_using_rng return independent uniform elements";
const A_HASHKEY: &str = "hash database keys of different field elements are different; different Poseidon terms are different values (collision resistance)";
const A_FORK: &str = "a dishonest prover's accepting proof yields an assignment that satisfies the rows the verification equation checks (special soundness of Bulletproofs, relying on C02, C03)";

const R1CS: [&str; 12] = ["Prover::{new, commit, allocate, allocate_single, allocate_multiplier, multiply, constrain, specify_randomized_constraints, evaluate_lc, prove}", "Prover::{flattened_constraints, eval, create_randomized_constraints}", "RandomizingProver::*", "Verifier::{new, commit, allocate*, multiply, constrain, specify_randomized_constraints, verify}", "Verifier::{flattened_constraints, create_randomized_constraints}", "RandomizingVerifier::*", "IPP::{create_ipp, verification_scalars}", "VecPoly3::{zero, special_inner_product, eval}", "Poly6::eval", "TranscriptProtocol for Transcript", "LinearCombination (From, FromIterator, Add, Sub, Neg, Mul)", "R1CSProof (serde)"];
fn more(extra: &[&'static str]) -> Vec<&'static str> {
    R1CS.iter().chain(extra.iter()).cloned().collect()
}
const SOUND: &str = "Soundness: the gadget's verifying function is run symbolically on arbitrary proofs and commitments, the constraint rows it really checks are read off its verification equation, and the solver shows that every assignment of wires and committed values satisfying them satisfies the statement. Completeness: the gadget's proving and verifying functions are run symbolically end to end and the verification equation is shown to hold.";

pub fn meta(prop: &str) -> Meta {
    let base = vec![A_GROUP, A_ORACLE, A_FIELD];
    let sound = vec![A_GROUP, A_ORACLE, A_FIELD, A_FORK];
    match prop {
        "C01" => Meta {
            what: "Completeness of Prover::prove / Verifier::verify: both are run symbolically on the same circuit with a symbolic satisfying witness; the verifier's combination of points is shown to vanish identically.",
            functions: R1CS.to_vec(),
            bounds: "quick: every split of 0..5 multipliers over the two phases, with every mix of the four allocation calls, 0..2 committed values, dense rows with symbolic coefficients; rows with a single or a repeated variable or gaps; listed circuits up to 65 multipliers at, below and above powers of two; 0..2 surplus generators; half of them through JSON. Wide circuits: up to 270 rows, 260 commitments and 17 second-phase callbacks (also nested). thorough: up to 9 multipliers in every split, up to 129 in listed circuits. All coefficients, witnesses, blindings and challenges are symbolic.",
            outside: "larger circuits; challenges equal to zero (probability 1/r); the curve arithmetic itself",
            assumptions: base,
        },
        "C02" => Meta {
            what: "Exactness of verification: Verifier::verify is run symbolically on an arbitrary proof; every accepting path's condition is compared with the two protocol equations computed independently from the circuit's definition, and the random combination is shown to use a coefficient the prover does not control.",
            functions: R1CS.to_vec(),
            bounds: "quick: every split of 0..6 multipliers over the phases, one or two dense rows per phase with symbolic coefficients, 1..3 commitments; proofs and commitments with any of 19 selections of points being the identity; listed circuits up to 513 multipliers. Wide circuits: up to 270 rows, 260 commitments and 17 second-phase callbacks (also nested). thorough: splits of 9, listed ones up to 1100 multipliers, 1030 rows and commitments. All proof scalars, points (independent), coefficients and challenges are symbolic.",
            outside: "larger circuits; proofs whose points have relations known to the prover are covered through linearity only",
            assumptions: vec![A_GROUP, A_ORACLE, A_FIELD, A_RNG],
        },
        "C03" => Meta {
            what: "Fiat-Shamir binding: the transcript logs of prover and verifier are recorded symbolically; for every challenge and every component that precedes it in the protocol, the solver shows that two histories with the same log have the same component. Prover and verifier logs are shown equal.",
            functions: more(&["gadget gen_*/verify_* (transcript label)", "IPP::{create_ipp, verify_ipp} on a caller's transcript"]),
            bounds: "quick: every split of 0..5 multipliers over the phases, 0..3 commitments, listed circuits up to 513 multipliers; wide circuits: up to 270 rows, 260 commitments and 17 second-phase callbacks (also nested); every gadget once; inner product arguments of size 1..16. thorough: 9 multipliers.",
            outside: "collisions in merlin (random oracle); the real encodings are taken to be injective (scalar: 32 significant bytes, point: x and y), what is left of a cut encoding is taken to be what it determines (a point without y: up to sign)",
            assumptions: base,
        },
        "C04" => Meta {
            what: "Malformed input: the functions are run symbolically with every listed combination of lengths; a panic on any feasible path is a violation, as is a result other than the one required.",
            functions: more(&["all gadget gen_*/prove_* and verify_* functions"]),
            bounds: "rounds: all pairs (L, R) of 0..5 (thorough 0..7), and 31, 32, 33, 63, 64, 65, 70, for 7 circuits of 0..5 multipliers; generators: all pairs 0..n+1 for prover and verifier; gadgets: 0..needed+1 commitments, generator counts around the needed ones, missing and miscounted blindings and inputs, for 21 small instances. Proof values symbolic.",
            outside: "inputs outside the documented preconditions of DESIGN.md (for example a vector length mismatch in verify_ipp's G, H and factors)",
            assumptions: base,
        },
        "C05" => Meta {
            what: "The inner product argument: create_ipp and verify_ipp are run symbolically; acceptance is compared with the protocol's folding equation computed independently, and commitments off by any component are shown to be rejected.",
            functions: vec!["IPP::{create_ipp, verify_ipp, verification_scalars}", "TranscriptProtocol for Transcript"],
            bounds: "sizes 1 to 128 (thorough: 256, equation 512); all vectors, factors, bases, challenges and proof values; wrong commitments: each component of sizes 1..8",
            outside: "larger sizes; sizes that are no power of two",
            assumptions: base,
        },
        "C06" => Meta {
            what: "Variables: every history of calls is run symbolically on prover and verifier; values of variables, equality of handles and multiplier counts, acceptance, and rejection of every contradicted variable are decided by the solver.",
            functions: R1CS.to_vec(),
            bounds: "every history of up to 3 calls out of 5 (thorough 4), the second phase starting at every point; 50 listed histories of 5 to 33 calls; contradictions: every variable of every history of up to 2 calls and of a quarter of those of 3 (thorough: all of 3); all values symbolic",
            outside: "longer histories",
            assumptions: base,
        },
        "C07" => Meta {
            what: "Linear combinations: every sequence of operations is run on symbolic operands and its value compared with the operation on values.",
            functions: vec!["LinearCombination: From<Variable/FieldElement>, FromIterator, Default, Add, Sub, Neg, Mul, simplify, get_terms, len", "Variable: Neg, Add, Sub, Mul"],
            bounds: "every sequence of up to 3 operations (thorough: and a seventh of those of 4); simplify on every sequence of up to 4 (5) terms over 4 variables; listed sequences of 4 to 40 operations and terms; all coefficients and assignments symbolic",
            outside: "longer sequences",
            assumptions: vec![A_FIELD],
        },
        "C08" => Meta {
            what: "Vector polynomials: run on symbolic coefficients and points, compared with the definition.",
            functions: vec!["VecPoly1::{zero, inner_product, eval}", "VecPoly3::{zero, special_inner_product, eval}", "Poly2::eval", "Poly6::eval"],
            bounds: "lengths 0..12 (thorough 0..24), 16, 17, 24; all coefficients and points symbolic",
            outside: "longer vectors; special_inner_product with a non-zero constant term on the left or quadratic term on the right (excluded by its contract)",
            assumptions: vec![A_FIELD],
        },
        "C09" => Meta {
            what: "Hiding: the prover is run symbolically with every random draw a symbol; the solver shows that the masks of all published points and scalars are independent coins, i.e. that the linear system of masks has full rank, and that gadget commitments are blinded by the caller's or by their own fresh coin.",
            functions: more(&["prove_* of every gadget"]),
            bounds: "quick: every split of 0..6 multipliers over the phases with two mixes of allocation calls, listed circuits up to 513 multipliers, 270 rows, 260 commitments and 17 callbacks (thorough 10, 1100); every gadget's small instances; all witnesses symbolic",
            outside: "quality of the random number generator; side channels",
            assumptions: vec![A_GROUP, A_ORACLE, A_FIELD, A_RNG],
        },
        "C10" => Meta {
            what: SOUND,
            functions: more(&["bound_check_gadget", "prove_bounded_num / verify_bounded_num", "gen_proof_of_bounded_num / verify_proof_of_bounded_num", "positive_no_gadget", "constrain_lc_with_scalar", "field_elem_from_u64"]),
            bounds: "soundness: every committed field element, every bit width 1..64, 2 pairs of bounds each, 7 pairs for 16 of them (thorough: all) including both ends of u64; completeness: ends and inner points of the widest range of each width, shifted to both ends, and 30 narrow ranges, and for every width up to 4 ranges with 7 values each at the level of the system (the honest wires satisfy the verifier's rows); all blindings and challenges. QF_LIA for the sums of bits, QF_FF otherwise.",
            outside: "other bounds (they enter the rows as constants); completeness for values not listed",
            assumptions: sound,
        },
        "C11" => Meta {
            what: SOUND,
            functions: more(&["set_membership_gadget", "prove_/verify_set_membership", "gen_/verify_proof_of_set_membership", "vector_product_gadget", "vector_sum_constraints", "bit_gadget", "prove_/verify_set_membership_alt", "gen_/verify_proof_of_set_membership_alt"]),
            bounds: "difference product: sets of 1..5, 8 (thorough 1..16), 16, 17, 20, 33, 65, 130 symbolic elements, every position up to 8, completeness also at 17, 33 and 65 and, at the level of the system, for 12 sizes up to 257 (five positions each); bitmap: 12 (14) sets of 1..8, 16, 17, 33, 40 distinct 64-bit integers, every position up to 8 and the ends of larger ones, at the level of the system up to 130; every committed value",
            outside: "larger sets; bitmap sets with repeated elements (precondition)",
            assumptions: sound,
        },
        "C12" => Meta {
            what: SOUND,
            functions: more(&["is_nonzero_gadget", "set_non_membership_gadget", "prove_/verify_set_non_membership", "gen_/verify_proof_of_set_non_membership", "prove_/verify_non_zero_val", "gen_/verify_proof_of_non_zero_val"]),
            bounds: "sets of 1..5, 8, 16, 17, 32, 33, 65, 130 symbolic elements (thorough also 1..12); completeness at the level of the system for 21 sizes up to 130; every committed value",
            outside: "larger sets",
            assumptions: sound,
        },
        "C13" => Meta {
            what: SOUND,
            functions: more(&["hamming_distance_gadget", "prove_/verify_hamming_distance", "gen_/verify_proof_for_hamming_distance"]),
            bounds: "completeness: every pattern of equal and differing positions up to length 4 (thorough 6), one each of length 8, 9, 16, 17, 33, and at the level of the system 3 or 4 patterns for each of 21 lengths up to 300; soundness: every claimed distance 0..n+1 and every pattern up to length 5 (7), one distance at 6; 7 pairs of length (8..33) and distance with 40 to 140 patterns each (all single differences, all but one, off by one from the claim in every position)",
            outside: "longer vectors",
            assumptions: sound,
        },
        "C14" => Meta {
            what: SOUND,
            functions: more(&["mimc", "mimc_gadget", "enforce_mimc_2_inputs", "prove_/verify_mimc_preimage", "gen_proof_of_/verify_knowledge_of_preimage_of_mimc"]),
            bounds: "completeness: 1..33 rounds (8 values; thorough up to 110), at the level of the system up to 322 (323); soundness and the native function: up to 110 (322) rounds; all inputs, constants and outputs",
            outside: "other round numbers",
            assumptions: sound,
        },
        "C15" => Meta {
            what: SOUND,
            functions: more(&["PoseidonParams::new", "Poseidon_permutation", "Poseidon_permutation_constraints", "synthesize_sbox / apply_sbox", "Poseidon_hash_{2,4,8}, _constraints, _gadget", "allocate_statics_for_prover / _verifier", "prove_/verify_/gen_ of Poseidon_{2,4,8}"]),
            bounds: "widths 3, 5, 9 and the three S-boxes; soundness: 6 or 7 round structures with up to 7 rounds and the structure in use (4 + 55/56 + 4 rounds), symbolic keys and matrix up to 3 rounds; completeness up to 7 rounds, and at the level of the system for the structure in use (not for the inverse S-box); the native permutation on all of them; invertibility of the tabulated matrices",
            outside: "other round numbers; end-to-end proofs of the full number of rounds (thorough: width 3 cube); inverse S-box inputs equal to zero (precondition)",
            assumptions: sound,
        },
        "C16" => Meta {
            what: SOUND,
            functions: more(&["vanilla_merkle_merkle_tree_{4,8}_verif_gadget", "prove_/verify_/gen_ of leaf_inclusion_{4,8}_ary_merkle_tree", "Poseidon_hash_{4,8}_constraints", "get_byte_size, get_bit_count, allocated_leaf_index_to_bytes"]),
            bounds: "4-ary depth 1..3 (thorough 4), 8-ary depth 1..2 for every index; 4-ary depth 5, 8, 12 and 8-ary depth 3, 6 for 30 to 70 listed indices (all single-bit ones and complements; thorough 200 more); soundness over every committed leaf, sibling and root; completeness: every index of depth 1, listed indices of deeper trees, at the level of the system 6 indices for each of 10 depths up to 30 (4-ary) and 20 (8-ary), and depth 1 with the rounds in use; hashes with up to 5 (6) rounds otherwise",
            outside: "deeper trees; more rounds (C15 covers the hash)",
            assumptions: sound,
        },
        "C17" => Meta {
            what: "Sparse Merkle trees: histories of updates are run on symbolic values; the root is compared with the root of the contents computed independently, every index is read back with its proof, earlier roots are read, arbitrary proofs are compared with hashing up, and missing database nodes are injected.",
            functions: vec!["VanillaSparseMerkleTree_{4,8}::{new, update, get, verify_proof, leaf_index_to_path}", "get_base_{4,8}_repr", "InMemoryHashDb", "Poseidon_hash_{4,8}"],
            bounds: "depth 1: every pair of updates of every kind; depth 2: every pair of indices (8-ary: selected); selected histories of up to 8 updates, depths up to 20 (4-ary) and 10 (8-ary); proofs of 0..depth+2 nodes at depths 0..4; paths of every index up to 4 digits and listed ones up to 60 digits; all values symbolic",
            outside: "longer histories",
            assumptions: vec![A_FIELD, A_HASHKEY],
        },
        "C18" => Meta {
            what: SOUND,
            functions: more(&["randomizer_gadget", "gen_proof_for_randomizer / verify_proof_for_randomizer", "get_randomized_data", "VanillaSparseMerkleTree_4", "vanilla_merkle_merkle_tree_4_verif_gadget", "Poseidon_hash_4_constraints"]),
            bounds: "depth 1: every position and every ordered pair, all four; depth 2, 3, 5: listed sets of up to 5 positions (thorough: every pair of depth 2); soundness for all, completeness up to 64 (130) multipliers, at the level of the system for all and for 15 leaves, depth 8 and the rounds in use; distortion of up to 5 (7) values, every subset",
            outside: "get_indices_to_modify (SHAKE); more positions, repeated positions (precondition)",
            assumptions: vec![A_GROUP, A_ORACLE, A_FIELD, A_FORK, A_HASHKEY],
        },
        "C19" => Meta {
            what: SOUND,
            functions: more(&["bit_gadget", "positive_no_gadget", "vector_sum_constraints", "vector_product_gadget", "is_nonzero_gadget", "constrain_lc_with_scalar", "Poseidon_permutation_gadget", "Poseidon_permutation_constraints", "Poseidon_hash_{2,4,8}_constraints", "mimc_gadget", "enforce_mimc_2_inputs"]),
            bounds: "numbers of 0..100 bits (completeness) and 0..254 bits (soundness: 20 widths, thorough all); sums of up to 33 variables; products over up to 35 items; linear combinations with symbolic coefficients; MiMC up to 33 rounds; Poseidon up to 3 rounds for all widths and S-boxes; completeness also in the second phase, and at the level of the system up to 254 bits, 130 summands and 100 factors",
            outside: "soundness in the second phase (the rows are the same generic code); more rounds (C14, C15)",
            assumptions: sound,
        },
        "C20" => Meta {
            what: SOUND,
            functions: more(&["prove_* and verify_* of every gadget except the randomizer"]),
            bounds: "14 small gadget instances: about a half of the ordered pairs (thorough: all) and 14 chains of three (completeness also 14 chains of six at the level of the system); every part's statement is shown with the commitments in their places",
            outside: "longer compositions",
            assumptions: sound,
        },
        "C21" => Meta {
            what: "Independence of generators: with symbolic coefficients, the solver shows that no non-trivial combination of the generators of four families vanishes. Hashed challenges: each is compared with the hash of the state, the points and the challenges before it; two derivations with the same hash input are shown to have the same state and points.",
            functions: vec!["utils::get_generators", "utils::gen_challenges"],
            bounds: "independence of 4 x 1, 2, 9, 16, 100, 257 generators (thorough: 1000), counts up to 1100 (4096); 1, 2, 3, 5, 9, 33 challenges from 0..6, 9, 17, 33, 70 points",
            outside: "collisions of the hash to curve and to field; families whose prefix ends in a digit (\"g1\" and \"g\" share generators by construction)",
            assumptions: base,
        },
        _ => Meta { what: "", functions: vec![], bounds: "", outside: "", assumptions: base },
    }
}
