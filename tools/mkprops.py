#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os

P = []
HOOK = "cfg(zkp_verif) makes plonk::challenge, fri::merkle_tree and fri::hasher public and lets a Merkle proof be taken apart and rebuilt"

def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": files[-1]} for n, m in state],
            "mechanism": [{"name": mechanism, "where": ", ".join(files)}],
            "observe_at": [observe],
            "hook_needed": HOOK if hook else None,
        },
    })

KZ = "kzg/src/scheme.rs"
# ------------------------------------------------------------------ KZG
p("K01", "A KZG commitment is the polynomial evaluated at the trapdoor",
  "For every setup with secret s and every polynomial or coefficient vector that fits it, `commit` and `commit_vector` return p(s)*G, and `commit_para(v)` returns v*G; the zero polynomial commits to the identity. Trailing or interior zero coefficients never change the result. A polynomial with more coefficients than the setup has G1 points is refused, never committed to in truncated form.",
  ["inputs", "configurations"],
  "every secret s, every setup size, every coefficient vector (empty, zero, constant, sparse, exactly full, oversized)",
  "The tests commit to a handful of fixed degree-2..4 polynomials in a 5- or 10-sized setup; no test uses the zero polynomial, zero coefficients at an end, the exact capacity or an oversized polynomial.",
  [KZ, "kzg/src/srs.rs"], "KzgScheme::commit / commit_vector / commit_para / evaluate_in_s",
  "returned KzgCommitment, compared with p(s)*G computed by the specification from the secret")
p("K02", "Openings are exact and every honest opening verifies",
  "For every polynomial p that fits the setup and every point z, `open` and `open_vector` return the evaluation p(z) together with the commitment to (p(X)-p(z))/(X-z), and `verify` accepts that opening against the commitment to p at z. This includes the zero polynomial, constants, roots of p, z = 0 and z equal to the trapdoor.",
  ["inputs", "configurations"],
  "every polynomial (including zero and constant) x every point z x every setup",
  "One test opens one quadratic at one point and batch_verify opens five quartics; degenerate polynomials and points are never opened.",
  [KZ], "KzgScheme::open / open_vector / verify",
  "KzgOpening(.0,.1) and the verdict of verify")
p("K03", "The opening verifier accepts exactly the valid openings",
  "For every commitment C, claimed value y, witness point W and point z - honest, altered, mixed between openings or made up - `verify` returns true if and only if C - y*G = (s - z)*W. Changing any single one of C, y, W or z of a valid opening of a non-degenerate polynomial makes it return false.",
  ["inputs"],
  "every 4-tuple (C, y, W, z), including identity points, swapped components and openings forged with the trapdoor",
  "No test calls verify with anything but a correct opening, so a verifier that always returns true passes.",
  [KZ], "KzgScheme::verify (pairing equation)", "verdict of verify")
p("K04", "Batch verification accepts exactly when every single opening is valid",
  "For every list of commitments, points and openings, `batch_verify` returns true when each one verifies on its own, including the empty and the one-element batch, and returns false when at least one does not, except with negligible probability over the caller's randomness. Errors chosen to cancel against each other, in any position, with equal or different points, are still rejected, and lists of different lengths are refused.",
  ["inputs"],
  "every batch length and every pattern of valid, invalid and mutually cancelling openings, every randomness source",
  "One test accepts one all-valid batch of five; no test has an invalid member, let alone cancelling ones.",
  [KZ], "KzgScheme::batch_verify (random linear combination)", "verdict of batch_verify against the conjunction of the single verdicts")
p("K05", "Commitment and opening arithmetic mirrors polynomial arithmetic",
  "Adding, subtracting, negating and scaling commitments gives the commitment of the sum, difference, negation and multiple of the polynomials, and `aggregate_commitments` gives the sum of c^i * C_i in list order for every list (including empty and one-element lists) and every challenge c (including 0 and 1). Adding two openings at the same point gives an opening of the sum of the polynomials that verifies against the sum of the commitments.",
  ["inputs"],
  "every pair or list of polynomials, every scalar, every challenge, every opening point",
  "Two tests check one scaling and one aggregation of two commitments; subtraction, negation, opening addition and longer or degenerate lists are untested.",
  [KZ, "kzg/src/opening.rs"], "impl Add/Sub/Mul/Neg for KzgCommitment, KzgScheme::aggregate_commitments, impl Add for KzgOpening",
  "resulting points and values")
p("K06", "The structured reference string is a consistent power series",
  "`Srs::new_from_secret(s, n)` holds exactly the n+3 points s^i*G1 for i = 0..n+2 plus G2 and s*G2, for every s (including 0 and 1) and every n (including 0). `Srs::new(n)` has the same shape and consistency for some secret, and two independent setups do not share their secret.",
  ["configurations", "inputs"],
  "every secret and every size",
  "No test looks at an SRS; only the first few points are ever used by the small polynomials of the tests.",
  ["kzg/src/srs.rs"], "Srs::new / new_from_secret / g1_points / g2 / g2s", "the G1 and G2 points handed out")

# ------------------------------------------------------------------ PLONK
p("P01", "PLONK is complete: every satisfied circuit is provable and accepted",
  "For every circuit of addition, multiplication and constant gates whose gate equations hold (public inputs included) and whose wired-together cells carry equal values, compiling, proving and verifying succeed: `generate_proof` returns without panicking and `verify` returns Ok. This holds for any number of gates from one upwards, any values, any wiring permutation, any public inputs, any hash, and any setup with at least `size` capacity.",
  ["programs", "inputs", "configurations"],
  "every gate list, wiring, assignment, public-input vector, setup size >= circuit size, hash function",
  "The tests prove about ten hand-written circuits of 4-9 gates with all-zero public inputs and one hash function.",
  ["plonk/src/prover.rs", "plonk/src/verifier.rs", "plonk/src/circuit.rs", "plonk/src/slice_polynomial.rs"],
  "Circuit::compile -> prover::generate_proof -> verifier::verify", "returned proof and verdict")
p("P02", "An unsatisfied circuit never yields an accepted proof",
  "If some gate equation fails (in any row, for any gate kind, through a wire value, a constant or a public input) or two cells that the wiring identifies carry different values, then the prover refuses, or what it returns is rejected by the verifier. No such circuit is ever reported as accepted.",
  ["programs", "inputs"],
  "every circuit and every assignment violating at least one gate or copy constraint, at every row and column",
  "Two tests try one wrong witness each; a prover or verifier that ignored, say, the last row, one column of the permutation or the public inputs would pass.",
  ["plonk/src/prover.rs", "plonk/src/verifier.rs"],
  "compute_quotient_polynomial divisibility checks, pairing equation of verifier::verify",
  "panic / verdict for each unsatisfied circuit, against the specification's Satisfied predicate")
p("P03", "The PLONK verifier accepts exactly the proofs its equations allow",
  "For every circuit and every proof object - honest, altered in any field, assembled from several proofs, or forged with knowledge of the trapdoor - `verify` returns Ok if and only if the final challenge is the one the transcript gives and the PLONK verification equation holds for the circuit's selectors, permutation and public inputs. A proof for one circuit is not accepted for a circuit it does not satisfy, altering any single field of an honest proof makes it rejected, and no proof makes the verifier panic.",
  ["inputs", "programs"],
  "every (circuit, proof) pair, all 17 proof fields, all single-field and cross-proof alterations",
  "Tests only reject proofs of a different witness/circuit; they never alter the fields one by one and never compare the decision with the equation.",
  ["plonk/src/verifier.rs"], "verifier::verify (linearisation, [D],[E],[F], pairing)", "verdict for each proof against the equation evaluated in G1 by the specification",
  hook=True)
p("P04", "PLONK challenges bind everything the prover said before them",
  "Each Fiat-Shamir challenge (beta, gamma, alpha, zeta, v, u) changes whenever any prover message sent before it changes, prover and verifier derive the same challenges from the same messages in the same protocol order, and this is true for whichever hash function the caller selects. The statement being proved (circuit and public inputs) is bound as well.",
  ["inputs", "configurations"],
  "every message position x every challenge x every choice of hash",
  "Tests use one hash and never look at which messages a challenge depends on; an unabsorbed message still gives honest proofs that verify.",
  ["plonk/src/challenge.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs"],
  "ChallengeGenerator<T>::feed / generate_challenges and the feeding order in prover and verifier",
  "bytes absorbed by a recording hash, and the challenges obtained", hook=True)
p("P05", "Compilation keeps every gate, wire and public input",
  "For every circuit the compiled polynomials, evaluated on the evaluation domain, give back row by row the gate's selectors, constant, public input and wire values, with zero rows for the padding; the domain is a power of two no smaller than the number of gates. The three permutation polynomials send each cell to exactly the cell its gate names, and padding cells to themselves, with the three column cosets pairwise disjoint.",
  ["programs", "inputs"],
  "every gate list and wiring, every size including one gate and exact powers of two",
  "No test reads a compiled polynomial; wrong rows for unusual sizes or gate kinds go unnoticed as long as the sample circuits still verify.",
  ["plonk/src/circuit.rs", "plonk/src/gate.rs", "plonk/src/constraint.rs"],
  "Circuit::compile, pad_circuit, get_assignment, cal_permutation, find_cosets",
  "public polynomial accessors of CompiledCircuit")
p("P06", "The parser gives an equation its ordinary arithmetic meaning",
  "For every equation of a sum of products on the left and one product on the right, built from variables, constants below 2^31, signs before factors and powers of factors, the circuit produced by `Parser::parse` can be proved when the witness satisfies the equation and never yields an accepted proof when it does not. Precedence, repeated terms, repeated variables, names and constants of several characters, signs on either side, powers of names and of numbers (zero included), blanks and letter case have their usual meaning. Other text is refused rather than read as something else.",
  ["inputs", "programs"],
  "every expression of the grammar, every witness",
  "Tests parse half a dozen equations with single-letter variables and one power; multi-digit bases, constant powers, multi-letter names, zero powers and repeated terms are untested.",
  ["plonk/src/parser.rs"], "Parser::parse / parse_string / prepare_gen_circuit",
  "provability of the compiled circuit against the value of the equation computed by the specification")
p("P07", "A parsed circuit forces the equation on any prover",
  "The constraints of the circuit a parser produces - selectors and wiring, not the values the honest parser happens to fill in - are satisfiable only by assignments under which every occurrence of a variable carries one value and the equation holds. Every use of a variable, constant and intermediate result is wired to its other uses.",
  ["programs", "inputs"],
  "every expression and every assignment of the circuit's cells, honest or not",
  "Tests only ever run the honest assignment, for which missing wires or missing zero-checks are invisible.",
  ["plonk/src/parser.rs"], "position_map construction and gen_circuit wiring; final gate of prepare_gen_circuit",
  "selectors and permutation of the compiled circuit, solved by the specification for all cells")
p("P08", "Verifier preprocessing describes the same circuit as the prover's parser",
  "For every equation both accept, `CPIGenerator` yields the commitments of exactly the selector and permutation polynomials, size, coset shifts and public-input polynomial of the circuit `Parser` builds for it with any witness; neither accepts an equation the other refuses for its form. A hand-built preprocessing circuit compiles to the same selectors and permutation as the prover circuit with the same gates, padding gates included.",
  ["inputs", "programs"],
  "every expression x every witness assignment; every gate list",
  "One test compares the two for one equation; the two parsers are separate copies of the code and may drift apart.",
  ["plonk/src/common_preprocessed_input/cpi_parser.rs", "plonk/src/common_preprocessed_input/cpi_circuit.rs"],
  "CPIGenerator::compute_common_preprocessed_input, CPICircuit::compile",
  "fields of CommonPreprocessedInput against the compiled circuit of the prover's parser")
p("P09", "PLONK proofs are masked by fresh randomness",
  "Every proof masks the three wire polynomials and the permutation polynomial with fresh random non-constant multiples of the vanishing polynomial: two independent uniformly random coefficients for each wire and three for the permutation polynomial, as many as what the proof shows of them needs to be hidden, drawn anew for every proof and used once. No commitment equals the commitment of the unmasked polynomial, no opened wire value equals the unmasked evaluation, and the masks differ between wires and between proofs. Two proofs of the same statement share no prover commitment and no opened wire or accumulator evaluation.",
  ["inputs", "histories"],
  "every circuit and every pair of proofs for it",
  "Tests only look at the verdict, which is the same without any masking.",
  ["plonk/src/prover.rs"], "b1..b9 in generate_proof", "proof fields against the unmasked polynomials evaluated at the trapdoor and at zeta; the masks themselves, divided out of the polynomials committed to", hook=True)

# ------------------------------------------------------------------ FRI
p("F01", "FRI is complete: every honest proof is accepted",
  "For every polynomial (including zero and constants), blow-up factor, number of queries (including zero), prime field whose two-adic subgroup fits the domain, and hash, `generate_proof` returns a proof and `verify` accepts it. The proof names the domain size, query count and coset actually used.",
  ["inputs", "configurations"],
  "every polynomial x blow-up x query count x field x hash",
  "Tests prove three polynomials of 4 and 6 coefficients with blow-up 2 and 2 queries over one field.",
  ["fri/src/prover.rs", "fri/src/verifier.rs", "fri/src/fri_layer.rs"], "prover::generate_proof, verifier::verify", "proof and verdict")
p("F02", "Merkle proofs verify for every leaf and bind leaf, position and path",
  "For every list of leaves of any length, the tree is the list padded with zero leaves to a power of two, and the proof generated for each position verifies and shows the leaf stored there and the tree's root. Altering the leaf, the position within the tree, any sibling or the root makes it fail, and different trees, or different pairs of nodes, do not hash alike.",
  ["inputs"],
  "every leaf vector and length (including 1 and non-powers of two), every position, every single alteration",
  "One test verifies one position in a four-leaf tree and never an invalid proof.",
  ["fri/src/merkle_tree.rs", "fri/src/hasher.rs"], "MerkleTree::new / generate_proof / verify_merkle_proof, hash_slice",
  "roots, proofs and verdicts against the specification's tree", hook=True)
p("F03", "A FRI proof shows the true layers, folds and positions of the polynomial",
  "In every honestly generated proof the committed layers are the evaluations on the successive squared cosets of the polynomial folded with the transcript's challenges (even part plus challenge times odd part), the constant is the last fold, and each query opens, in every layer, the position derived from the transcript and its mirror position with their true values and authentication paths.",
  ["inputs", "configurations"],
  "every polynomial, blow-up, query count and field",
  "Tests check one fold of one polynomial with challenge 1 and one pair of indices; they never compare a proof with the folding of its polynomial.",
  ["fri/src/prover.rs", "fri/src/fri_layer.rs"], "folding_phase, fold_polynomial, query_phase, FriLayer::from_poly",
  "all fields of Proof against layers computed by the specification", hook=True)
p("F04", "The FRI verifier accepts only fully consistent proofs",
  "`verify` accepts a proof if and only if it has one decommitment per claimed query and one committed root per folding layer, every decommitment opens in every layer the transcript-derived position and its mirror with authentication paths that lead to that layer's committed root, every opened pair folds to the value opened in the next layer, and the last fold is the claimed constant. Altering, dropping, duplicating, reordering or replacing any part of a proof in a way that breaks this is rejected. A prover that commits to an arbitrary function, not to a polynomial with a blow-up of at least two, is rejected except with small probability.",
  ["inputs", "fault_sequences"],
  "every proof object: all single and combined alterations, cross-proof mixtures, proofs of non-folding layers, self-consistent paths in foreign trees",
  "One test subtracts 1 from the constant; no test alters an evaluation, path, root, index, list length or layer.",
  ["fri/src/verifier.rs", "fri/src/merkle_tree.rs"], "verifier::verify, verify_query, verify_merkle_proof",
  "verdict against the specification's acceptance predicate", hook=True)
p("F05", "FRI challenges and query positions come from everything committed before",
  "Each folding challenge depends on every root committed up to that layer, and the query positions depend on every root and the final constant, are drawn only after them, and lie in the domain; prover and verifier derive the same values for whichever hash is selected. Replacing any earlier committed value changes the later challenges and positions.",
  ["inputs", "configurations"],
  "every commitment position x every later challenge x every hash",
  "Tests never look at the transcript of a proof; a verifier drawing positions before absorbing the constant still accepts honest proofs if the prover does the same.",
  ["fri/src/prover.rs", "fri/src/verifier.rs", "fri/src/fiat_shamir/transcript.rs"],
  "Transcript::digest / generate_a_challenge / generate_challenge_list_usize call order", "bytes absorbed by a recording hash and the positions opened")
p("F06", "The FRI verifier answers on every input without panicking",
  "For every proof object, however malformed - empty or uneven lists, zero, non-power-of-two or unsupported domain sizes, zero coset, huge or missing counts - `verify` returns an error rather than panicking, looping or exhausting memory, and it never accepts such a proof.",
  ["inputs", "fault_sequences"],
  "every structural malformation of a proof and their combinations",
  "No test gives the verifier a malformed proof.",
  ["fri/src/verifier.rs"], "verifier::verify, verify_query", "Ok / Err / panic of verify", hook=True)

# ------------------------------------------------------------------ NOVA
p("N01", "Folding preserves relaxed R1CS satisfaction and instance/witness agreement",
  "For every R1CS, every pair of satisfied relaxed instance-witness pairs and every challenge, the folded witness satisfies the folded instance, the folded instance commits to the folded witness, and the instance the verifier computes from the public parts is the prover's. Trivial (all-zero) pairs are satisfied and fold like any other; this continues to hold through any sequence of folds.",
  ["inputs", "histories", "programs"],
  "every R1CS shape (constraints fewer, equal or more than variables), every pair, every challenge, every folding history",
  "One test folds one pair of one fixed four-constraint system; relaxed inputs (u != 1, E != 0), other shapes and chains are untested.",
  ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/r1cs/mod.rs"],
  "NIFS::compute_t / fold_witness / fold_instance / prover / verifier, create_trivial_pair",
  "folded pairs against the specification's fold and relation")
p("N02", "R1CS satisfaction is decided exactly",
  "`is_r1cs_satisfied` returns Ok if and only if the witness and instance have the system's dimensions, A z o B z = u C z + E holds in every row, and both commitments in the instance are those of the witness. Any single wrong row, variable, public value, scalar, error entry or commitment is reported, and folding with an unsatisfied pair gives an unsatisfied pair except with negligible probability.",
  ["inputs", "programs"],
  "every R1CS, instance and witness, every single-entry alteration",
  "The tests only ask about satisfied pairs, so a check that always answers Ok passes.",
  ["nova/src/r1cs/mod.rs", "nova/src/utils.rs"], "is_r1cs_satisfied, matrix_vector_product and vector helpers",
  "verdict against the specification's relation")
p("N03", "IVC is complete for any number of steps",
  "For every step circuit, initial state and sequence of step witnesses, running the prover, verifier and augmented circuit step after step succeeds at every step: each proof the prover makes from the accumulated pairs is accepted, the state advances to F applied to the previous state, the counter advances by one, and the accumulated pair stays satisfied whenever the step pairs are.",
  ["histories", "inputs"],
  "every number of steps, every state and witness sequence, every step function",
  "One test runs one fixed four-step chain.",
  ["nova/src/ivc/ivc_prover.rs", "nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs"],
  "IVC::prove / verify, AugmentedCircuit::run / next_step", "proofs, verdicts and the circuit's state after each step")
p("N04", "The IVC verifier accepts exactly consistent step proofs",
  "At step 0 `IVC::verify` accepts if and only if the current state is the initial state; at later steps it accepts if and only if the step instance's public value is the hash of (step, initial state, current state, running instance), the step instance is fresh (zero error commitment, scalar one), the folding challenge and opening point are the transcript's, and both openings verify against the folded instance. Proofs that are altered, replayed from another step, another state or another chain, or incomplete are rejected without panicking, and no accepted proof rests on a step that does not satisfy the constraint system.",
  ["histories", "inputs", "fault_sequences"],
  "every step, every alteration or replay of every part of the proof and of the circuit state",
  "Tests reject two hand-made wrong proofs; most conditions of the verifier are never falsified by a test.",
  ["nova/src/ivc/ivc_verifier.rs", "nova/src/nifs/nifs_verifier.rs"], "IVC::verify, NIFS::verify_challenge / verify_opening",
  "verdict against the specification's acceptance predicate")
p("N05", "The augmented circuit only advances through checked steps",
  "In every sequence of runs and advances, `run` succeeds exactly when the step's inputs pass the augmented circuit's checks (running instance and cross-term present, the stored hash that of the current step, states and running instance, public value equal to it, fresh step instance), outputs the hash of (step+1, initial state, F(state), folded running instance), and a refused run changes nothing. `next_step` moves to the state and hash of the last successful run and to the next step number, and nothing else changes the step, the states or the hash.",
  ["histories", "inputs"],
  "every history of run / repeated run / refused run / next_step with good and bad inputs",
  "Tests run three short success sequences; refusals, retries after refusals and repeated runs are never combined.",
  ["nova/src/circuit.rs"], "AugmentedCircuit::run / next_step / hash_io and fields i, z_0, z_i, z_i1, h_i, h_i1",
  "return values and public fields after every call",
  state=[("i, z_i, h_i", "current step, state and expected public value"), ("z_i1, h_i1", "outcome of the last successful run")])
p("N06", "Nova challenges and public hashes bind what they must",
  "The folding challenge depends on every component of both instances, the cross-term commitment and everything fed to the transcript before; the opening point additionally depends on both commitments of the folded instance. The public-IO hash depends on the step number, initial state, current state and every component of the running instance, and prover, verifier and augmented circuit derive identical values for whichever hash is selected.",
  ["inputs", "configurations"],
  "every component x every derived value x every hash",
  "Tests compare honest derivations only; a dropped component still agrees on both sides.",
  ["nova/src/transcript.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/circuit.rs"],
  "Transcript feeding order in NIFS::prover/prove/verify and AugmentedCircuit::run; AugmentedCircuit::hash_io",
  "bytes absorbed by a recording hash; values returned")
# ------------------------------------------------------------------ transcripts
p("T01", "Transcripts are deterministic, order-sensitive and never reuse a challenge",
  "For each of the three transcripts (KZG/PLONK, FRI, Nova), every history of feeding and drawing yields challenges that are a function of the exact sequence of everything fed so far, and different sequences (another value, another order, one more or one fewer item, another kind of item) yield different challenges. Drawing when nothing was fed since the last draw is refused, and clones continue independently.",
  ["histories", "inputs"],
  "every interleaving of feed, draw and clone operations with every kind of message",
  "Tests compare two or three fixed sequences per transcript.",
  ["plonk/src/challenge.rs", "fri/src/fiat_shamir/transcript.rs", "nova/src/transcript.rs"],
  "feed/digest/feed_scalar_num, generate_challenges and the generated flag", "challenges or refusal after each call",
  state=[("data, generated", "hash chain value and whether a challenge was drawn since the last feed")], hook=True)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
