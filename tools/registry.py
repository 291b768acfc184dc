"""Single source of the property list (-> properties.jsonl) and of the checks
(-> MANIFEST.json).  Run tools/gen.py after editing."""

def P(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if "state" in kw:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in kw.pop("state")]
    d["anchors"].update(kw)
    return d

PROPS = [
P("C01", "Linear combinations denote linear forms",
  "Whatever sequence of public additions, subtractions, negations, doublings and scalings builds a linear combination, its value under any assignment of its variables equals the same operations applied to the values. This holds for operands of any length and with repeated variables, and for the variable-or-combination wrapper as well.",
  ["inputs", "programs"], "all field coefficients and assignments; all operator sequences over operands up to the stated lengths, below and above the length at which the representation switches to searching",
  "The existing tests never evaluate a combination; they only use short ones inside circuits, with constant coefficients.",
  ["r1cs/src/impl_lc.rs", "r1cs/src/impl_constraint_var.rs"],
  [("sorted merge of two combinations", "r1cs/src/impl_lc.rs op_impl"), ("variable lookup", "r1cs/src/impl_lc.rs get_var_loc")]),
P("C02", "Proofs, keys and parameters survive their wire format",
  "Serialising any proof, verification key or parameter set of any scheme and reading it back yields an equal value, and re-serialising it yields the same bytes. The byte length announced beforehand is the length written.",
  ["inputs"], "all field and group elements in every slot, for structures produced by honest runs of each scheme and for fully arbitrary structures of the stated sizes",
  "Tests round-trip a handful of honest values of a few schemes.",
  ["groth16/src/lib.rs", "asvc/src/lib.rs", "marlin/src/data_structures.rs", "marlin/src/pc/data_structures.rs", "plonk/src/data_structures.rs", "bulletproofs/src/arithmetic_circuit.rs", "spartan/src/data_structure.rs", "libra/src/params.rs", "hyrax/src/params.rs", "r1cs/src/lib.rs"],
  [("derived and hand-written canonical encodings", "CanonicalSerialize/CanonicalDeserialize implementations of each crate")]),

P("G01", "Groth16: honest proofs are accepted",
  "For every circuit and every satisfying assignment, a proof made with honestly generated parameters is accepted for that circuit's public inputs. This holds for every choice of setup and prover randomness, blinded or unblinded, and with the sequential and the parallel feature set.",
  ["inputs", "programs", "configurations"], "all R1CS coefficients and satisfying assignments of the stated shapes, all setup and prover randomness outside the exceptional points, both feature sets",
  "Tests run a few fixed circuits at random points with the parallel feature only.",
  ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs", "groth16/src/r1cs_to_qap.rs"],
  [("QAP instance and witness maps", "groth16/src/r1cs_to_qap.rs"), ("proof assembly", "groth16/src/prover.rs create_proof")]),
P("G02", "Groth16: acceptance is exactly the pairing equation",
  "The verifier accepts a proof exactly when e(A,B) = e(alpha,beta) e(sum of public inputs times the instance elements, gamma) e(C,delta). A number of public inputs that does not fit the verifying key is never accepted.",
  ["inputs"], "all verifying keys, proofs and public inputs (every group element arbitrary), up to the stated number of inputs",
  "Tests only feed honest proofs, so a dropped or swapped term that honest proofs do not exercise goes unseen.",
  ["groth16/src/verifier.rs"], [("prepared key and pairing product", "groth16/src/verifier.rs")]),
P("G03", "Groth16: parameters encode the circuit's QAP under a fresh trapdoor",
  "The generated proving and verification keys are exactly the elements the scheme prescribes for the circuit's quadratic arithmetic program at one evaluation point and one trapdoor. Every trapdoor element is an independent draw.",
  ["inputs", "programs"], "all circuit coefficients of the stated shapes and all trapdoors",
  "Tests never look inside the parameters; wrong unused slots only matter for soundness, which no test can see.",
  ["groth16/src/generator.rs", "groth16/src/r1cs_to_qap.rs"], [("key generation", "groth16/src/generator.rs generate_parameters")]),
P("G04", "Groth16: proofs are blinded",
  "For a fixed circuit, parameters and witness, the first two proof elements run over all pairs of group elements as the prover's randomness varies, one randomness per pair; the third is then fixed by the acceptance equation. A proof therefore reveals nothing about the witness beyond the statement.",
  ["inputs"], "all witnesses, all parameters with nonzero delta, all randomness of the stated shapes",
  "A prover with a constant or shared blinder still produces accepted proofs.",
  ["groth16/src/prover.rs"], [("blinders r and s", "groth16/src/prover.rs create_random_proof")]),

P("A01", "aSVC: openings of a vector commitment are accepted",
  "For every vector, proofs for single positions, for sets of positions and aggregated from single proofs are accepted by the verifier against the vector's commitment. This holds for every setup randomness.",
  ["inputs"], "all vector values and trapdoors, all positions of vectors of the stated sizes",
  "Tests use one size and random values.",
  ["asvc/src/lib.rs"], [("commit / prove_pos / aggregate_proofs / verify_pos", "asvc/src/lib.rs")]),
P("A02", "aSVC: updates agree with recomputation",
  "Updating the commitment, or any position's proof, after changing one entry gives exactly what committing to, or proving against, the changed vector gives. This holds whether the proof's own position or another one changed.",
  ["inputs", "histories"], "all vectors, deltas, pairs of positions and update sequences of the stated sizes",
  "Tests update one position pair once.",
  ["asvc/src/lib.rs"], [("update_commit / update_proof", "asvc/src/lib.rs")]),
P("A03", "aSVC: acceptance is exactly the opening equation",
  "The position verifier accepts exactly when commitment, claimed values, positions and proof satisfy the pairing equation of the scheme; the update-key verifier accepts exactly the update keys of that position. Mismatching numbers of positions and values are not accepted.",
  ["inputs"], "all commitments, values, proofs, update keys of the stated sizes",
  "Tests feed honest openings only.",
  ["asvc/src/lib.rs"], [("verify_pos / verify_upk", "asvc/src/lib.rs")]),

P("K01", "KZG/Marlin commitments: honest openings are accepted",
  "For every set of committed polynomials, with or without hiding and degree bounds, the openings produced at any point are accepted together with the true evaluations, for every setup randomness.",
  ["inputs"], "all coefficients, points, challenges and blinders of polynomials of the stated degrees",
  "Tests use random polynomials of one shape.",
  ["marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs", "marlin/src/pc/data_structures.rs"], [("commit/open/check", "marlin/src/pc")]),
P("K02", "KZG/Marlin commitments: acceptance is exactly the opening equation",
  "The opening verifiers, single and batched, accept exactly when the pairing equation relating commitments, points, claimed values, degree-bound shifts and proof holds. A wrong evaluation is never covered by an honest proof.",
  ["inputs"], "all commitments, points, values and proofs of the stated sizes",
  "Tests feed honest openings only.",
  ["marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs"], [("check / batch_check", "marlin/src/pc")]),
P("M01", "Marlin: honest proofs are accepted",
  "For every circuit and satisfying assignment, a proof made with the honestly generated keys is accepted for its public inputs, for every randomness and both feature sets.",
  ["inputs", "programs", "configurations"], "all assignments, setup and prover randomness, challenges, for the stated circuit shapes",
  "Tests run one circuit at random points.",
  ["marlin/src/lib.rs", "marlin/src/ahp", "marlin/src/pc"], [("AHP prover rounds", "marlin/src/ahp/prover.rs"), ("indexer", "marlin/src/ahp/indexer.rs")]),
P("M02", "Marlin: acceptance is exactly the protocol's equations",
  "The verifier accepts exactly when the claimed evaluations satisfy the two sum-check equations at the transcript's challenges and the batched opening is valid for exactly the protocol's commitments. Proofs with missing or additional elements are not accepted.",
  ["inputs"], "all proofs (commitments, evaluations, opening) for the stated circuit shapes",
  "Tests feed honest proofs only.",
  ["marlin/src/lib.rs", "marlin/src/ahp/verifier.rs", "marlin/src/ahp/mod.rs"], [("verifier equations", "marlin/src/ahp")]),
P("M03", "Marlin: every challenge depends on everything sent before it",
  "Changing any public input, verification-key element or prover message changes every later challenge. No two different transcripts share a challenge.",
  ["inputs"], "all pairs of transcripts that differ in one component, with the hash modelled as injective",
  "A prover and verifier that both forget to hash a message still agree on honest runs.",
  ["marlin/src/lib.rs", "marlin/src/fs_rng.rs"], [("transcript absorption", "marlin/src/lib.rs, marlin/src/fs_rng.rs")]),

P("P01", "PLONK: honest proofs are accepted",
  "For every circuit and satisfying assignment, a proof made with the honestly generated keys is accepted for its public inputs, for every randomness and both feature sets.",
  ["inputs", "programs", "configurations"], "all gate coefficients, satisfying assignments and randomness of the stated shapes",
  "Tests run one circuit at random points.",
  ["plonk/src/lib.rs", "plonk/src/ahp", "plonk/src/composer"], [("prover rounds", "plonk/src/ahp/prover.rs")]),
P("P02", "PLONK: the compiled gates say what the constraint system says",
  "A wire assignment satisfies every compiled gate and copy constraint exactly when it satisfies every constraint given to the composer. Public inputs are enforced at the positions the verifier uses, and the keys commit to exactly the compiled columns.",
  ["inputs", "programs"], "all coefficients and all wire values of the stated shapes",
  "Tests check one satisfied assignment per gate type.",
  ["plonk/src/composer", "plonk/src/ahp/indexer"], [("composer", "plonk/src/composer"), ("permutation and selector polynomials", "plonk/src/ahp/indexer")]),
P("P03", "PLONK: acceptance is exactly the protocol's equations",
  "The verifier accepts exactly when the claimed evaluations satisfy the quotient identity at the transcript's challenges and the batched opening is valid for exactly the protocol's commitments. Proofs with missing or additional elements are not accepted.",
  ["inputs"], "all proofs for the stated circuit shapes",
  "Tests feed honest proofs only.",
  ["plonk/src/lib.rs", "plonk/src/ahp/verifier.rs"], [("verifier", "plonk/src/lib.rs verify")]),
P("P04", "PLONK: every challenge depends on everything sent before it",
  "Changing any public input or prover message changes every later challenge.",
  ["inputs"], "all pairs of transcripts that differ in one component, with the hash modelled as injective",
  "A prover and verifier that both forget to hash a message still agree on honest runs.",
  ["plonk/src/lib.rs", "plonk/src/rng.rs"], [("transcript absorption", "plonk/src/lib.rs, plonk/src/rng.rs")]),

P("B01", "Bulletproofs: honest proofs are accepted",
  "For every circuit and satisfying assignment, a proof is accepted for its public inputs, for all generators and randomness.",
  ["inputs", "programs", "configurations"], "all coefficients, satisfying assignments, generators, randomness and challenges of the stated shapes",
  "Tests run two circuits at random points; none has repeated variables in a combination.",
  ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs", "bulletproofs/src/lib.rs"], [("prove/verify", "bulletproofs/src/arithmetic_circuit.rs")]),
P("B02", "Bulletproofs: acceptance is exactly the protocol's equations",
  "The verifier accepts exactly when the polynomial-commitment equation and the inner-product argument hold for the circuit, the public inputs and the transcript's challenges, and every challenge depends on everything sent before it. Nothing the prover supplies replaces a value the verifier has to compute.",
  ["inputs"], "all proofs, generators and public inputs of the stated shapes",
  "Tests feed honest proofs only.",
  ["bulletproofs/src/arithmetic_circuit.rs"], [("verify", "bulletproofs/src/arithmetic_circuit.rs verify_proof")]),
P("B03", "Inner-product argument: complete, and accepts exactly its relation",
  "An honest inner-product proof is accepted for all vectors and generators of every supported length, and the verifier accepts exactly when the proof has one round per halving and the folded equation holds at the transcript's challenges, each of which depends on everything sent before it.",
  ["inputs"], "all vectors, generators and proofs of the stated lengths",
  "Tests run random vectors and honest proofs.",
  ["bulletproofs/src/inner_product_proof.rs"], [("create/verify", "bulletproofs/src/inner_product_proof.rs")]),
P("B04", "Bulletproofs: proofs are blinded",
  "At fixed nonzero challenges, different choices of the prover's randomness give different proofs, and the prover draws as many blinders as the proof has values not fixed by the verified equations: the masked commitments and openings are uniform whatever the witness is.",
  ["inputs"], "all witnesses and randomness of the stated shapes",
  "Unblinded proofs verify just as well.",
  ["bulletproofs/src/arithmetic_circuit.rs"], [("blinding of A, S, T, tau, mu", "bulletproofs/src/arithmetic_circuit.rs")]),

P("S01", "Spartan NIZK: honest proofs are accepted",
  "For every circuit and satisfying assignment, an honest NIZK proof is accepted for its public inputs, for all generators and randomness.",
  ["inputs", "programs", "configurations"], "all coefficients, satisfying assignments, generators and randomness of the stated shapes",
  "Tests run one circuit at random points.",
  ["spartan/src/prover.rs", "spartan/src/verify.rs"], [("sum-check and evaluation argument", "spartan/src/prover.rs")]),
P("S02", "Spartan SNARK: honest proofs are accepted",
  "For every circuit and satisfying assignment, an honest SNARK proof made with the committed circuit encoding is accepted, for all generators and randomness.",
  ["inputs", "programs", "configurations"], "all satisfying assignments and randomness of the stated shapes",
  "Tests run one circuit at random points.",
  ["spartan/src/prover.rs", "spartan/src/verify.rs", "spartan/src/spark.rs"], [("sparse polynomial argument", "spartan/src/spark.rs, prover.rs, verify.rs")]),
P("S03", "Spartan: multilinear helpers compute multilinear extensions",
  "Equality tables, dense and sparse evaluation, and variable binding agree with the defining sum over the hypercube, at every point.",
  ["inputs"], "all values and points up to the stated number of variables",
  "Only exercised indirectly at random points.",
  ["spartan/src/polynomial.rs", "spartan/src/r1cs.rs"], [("evaluation helpers", "spartan/src/polynomial.rs")]),
P("S04", "Spartan: the verifier accepts exactly the protocol's equations",
  "The verifier accepts exactly when every sum-check round, product proof and opening verifies at the transcript's own challenges and the circuit's matrices are evaluated at those same challenges. No point or value supplied by the prover is used unchecked.",
  ["inputs"], "all proofs of the stated shapes",
  "Tests feed honest proofs only.",
  ["spartan/src/verify.rs"], [("verify_nizk_proof / verify_snark_proof", "spartan/src/verify.rs")]),

P("S05", "Spartan NIZK proofs hide the witness",
  "At fixed challenges the values in a proof that the verified equations leave free are as many as the prover's independent random draws and depend on them one to one; nothing else is serialised. The masked commitments and openings are therefore uniform whatever the witness is.",
  ["inputs"], "all witnesses, challenges and randomness of the stated shapes",
  "A proof that carries a witness-dependent value in the clear, or reuses a blinder, verifies just as well.",
  ["spartan/src/prover.rs", "spartan/src/data_structure.rs"], [("blinding of the committed sum-checks and openings", "spartan/src/prover.rs r1cs_satisfied_prover")]),

P("L01", "Layered circuits evaluate gate by gate",
  "The layer-by-layer evaluation of a circuit equals the value of its gates on the given public and private inputs, whatever the numbers of inputs and gates. The wiring predicates' evaluations equal their defining sums.",
  ["inputs", "programs"], "all input values and points for the stated circuits, including numbers of inputs that are not powers of two",
  "Tests use one circuit with equal input halves.",
  ["libra/src/circuit.rs", "libra/src/evaluate.rs", "hyrax/src/circuit.rs", "hyrax/src/evaluate.rs"], [("Circuit::evaluate", "libra/src/circuit.rs, hyrax/src/circuit.rs")]),
P("L02", "Libra: honest proofs are accepted",
  "For every layered circuit and inputs, the plain and the zero-knowledge proof of the circuit's true output are accepted.",
  ["inputs", "programs"], "all inputs and randomness for the stated circuits",
  "Tests run one circuit at random points.",
  ["libra/src"], [("linear GKR prover", "libra/src/libra_linear_gkr.rs, libra_zk_linear_gkr.rs, sumcheck.rs")]),
P("L03", "Libra: the verifiers accept exactly the protocol's equations",
  "A proof is accepted only if every sum-check step, the circuit's own wiring and the input evaluation check out against the claimed output at the transcript's challenges. A false output cannot be accepted with a proof that the real equations reject.",
  ["inputs"], "all proofs and claimed outputs for the stated circuits",
  "Tests feed honest proofs only.",
  ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs"], [("verify", "libra/src")]),
P("L04", "Libra zero-knowledge proofs hide the witness",
  "At fixed challenges the values in a zero-knowledge proof that the verified equations leave free are as many as the prover's independent random draws and depend on them one to one; nothing else is serialised. The committed witness, round polynomials and openings are therefore uniform whatever the witness is.",
  ["inputs"], "all witnesses, challenges and randomness for the stated circuits",
  "A proof that reuses or drops a blinder verifies just as well.",
  ["libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs", "libra/src/commitment.rs"], [("blinders of the committed sum-checks and openings", "libra/src/sumcheck.rs ZKSumCheckProof, libra/src/commitment.rs")]),
P("H01", "Hyrax: honest proofs are accepted",
  "For every layered circuit, every number of parallel instances and all inputs, the proof of the true outputs is accepted.",
  ["inputs", "programs"], "all inputs and randomness for the stated circuits and instance counts",
  "Tests run one circuit at random points.",
  ["hyrax/src"], [("zk sum-check prover", "hyrax/src/zk_sumcheck_proof.rs")]),
P("H02", "Hyrax: the verifier accepts exactly the protocol's equations",
  "A proof is accepted only if every committed sum-check step, product proof and the input opening hold at the transcript's challenges starting from the claimed outputs.",
  ["inputs"], "all proofs and claimed outputs for the stated circuits",
  "Tests feed honest proofs only.",
  ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs"], [("verify", "hyrax/src")]),

P("H03", "Hyrax proofs hide the witness",
  "At fixed challenges the values in a proof that the verified equations leave free are as many as the prover's independent random draws and depend on them one to one; nothing else is serialised. The committed witness, round polynomials and openings are therefore uniform whatever the witness is.",
  ["inputs"], "all witnesses, challenges and randomness for the stated circuits and instance counts",
  "A proof that reuses or drops a blinder verifies just as well.",
  ["hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/hyrax_proof.rs", "hyrax/src/commitment.rs"], [("blinders of the committed sum-checks and openings", "hyrax/src/zk_sumcheck_proof.rs prover / sumcheck_prover")]),

P("D01", "Boolean gadgets compute and enforce their gates",
  "For every pair of boolean inputs, constant or allocated, negated or not, each gate gadget's output equals the gate, its constraints are satisfied by the honest assignment, and any assignment satisfying the constraints has the right output. Allocated bits can only be 0 or 1.",
  ["inputs"], "all field values of every wire for each gate and operand kind",
  "Tests try chosen assignments, not every assignment of the wires.",
  ["gadgets/src/algebra/boolean.rs"], [("AllocatedBit / Boolean", "gadgets/src/algebra/boolean.rs")]),
P("D02", "32-bit integer gadgets compute and enforce their operations",
  "For all 32-bit operands, constant or allocated, xor, rotations, shifts by less than 32, majority, choice and modular addition give the true result; the honest assignment satisfies the constraints and no assignment with a wrong result does.",
  ["inputs"], "all operand bits and all assignments of auxiliary wires",
  "Tests sample random operands and a few single-bit flips.",
  ["gadgets/src/algebra/uint32.rs", "gadgets/src/operator/multieq.rs"], [("UInt32", "gadgets/src/algebra/uint32.rs"), ("packed equality", "gadgets/src/operator/multieq.rs")]),
P("D03", "Field-element gadgets enforce their operations",
  "Allocated field elements, private or public, hold the value given to them; inputize makes a public copy equal to the element and no other; isnonzero gives 1 exactly for a nonzero element. The honest assignment always satisfies the constraints and no other result does.",
  ["inputs"], "all field values", "Tests check one value each.",
  ["gadgets/src/algebra/fr.rs"], [("FrGadget", "gadgets/src/algebra/fr.rs")]),
P("D04", "Range comparison gadget enforces the comparison",
  "For bit width n and two numbers below 2^n, the comparison gadget's constraints can be satisfied exactly when the first number is less than the second: the honest prover then satisfies them, and for any other pair no assignment of the wires does. (The public input carries 2^n.)",
  ["inputs"], "all operands below two to the bit width and all auxiliary assignments, for the stated widths",
  "Tests try a few numbers.",
  ["gadgets/src/operator/rangeproof.rs"], [("RangeProof", "gadgets/src/operator/rangeproof.rs")]),
P("D05", "Lookup gadgets return the table entry",
  "For every table and every index the lookup gadgets return the table's entry at that index, and no assignment satisfies the constraints with another value.",
  ["inputs"], "all table constants and all index bits",
  "Tests compare with random tables on honest assignments only.",
  ["gadgets/src/lookup/table.rs"], [("lookup1_x / lookup2_x / lookup3_xy", "gadgets/src/lookup/table.rs")]),
P("D06", "MiMC gadget enforces the native MiMC hash",
  "The in-circuit MiMC value equals the native hash of the same preimage, and the constraints of hash_enforce tie its output variable to its operands' variables: no assignment satisfies them with another output.",
  ["inputs"], "all preimage values and all auxiliary assignments, all rounds, for the stated numbers of blocks",
  "Tests compare honest assignments on random inputs.",
  ["gadgets/src/hashes/mimc.rs"], [("mimc gadget", "gadgets/src/hashes/mimc.rs")]),
P("D07", "Poseidon gadget enforces the native Poseidon hash",
  "The in-circuit Poseidon value equals the native hash of the same inputs, and the constraints tie the output variable of hash_enforce to its operands' variables and the stand-alone gadget's public output to its preimage wires: no assignment satisfies them with another output.",
  ["inputs"], "all inputs and all auxiliary assignments, all rounds, for the stated numbers of blocks",
  "Tests compare honest assignments on one input.",
  ["gadgets/src/hashes/poseidon.rs"], [("poseidon gadget", "gadgets/src/hashes/poseidon.rs")]),
P("D08", "Rescue gadget enforces the native Rescue hash",
  "The in-circuit Rescue value equals the native hash of the same inputs, and the constraints tie the output variable of hash_enforce to its operands' variables and the stand-alone gadget's public output to its preimage wires: no assignment satisfies them with another output.",
  ["inputs"], "all inputs and all auxiliary assignments, all rounds, for the stated numbers of blocks",
  "Tests compare honest assignments on one input.",
  ["gadgets/src/hashes/rescue.rs"], [("rescue gadget", "gadgets/src/hashes/rescue.rs")]),
P("D09", "SHA-256 gadget enforces SHA-256",
  "The in-circuit SHA-256 digest is the standard's digest of the message bits, and no assignment satisfies the constraints with another digest. The output variables of hash_enforce carry the digest of its parameters' variables.",
  ["inputs"], "all message bits of the stated lengths, via every round's step function",
  "Tests hash random messages.",
  ["gadgets/src/hashes/sha256.rs"], [("sha256", "gadgets/src/hashes/sha256.rs")]),
P("D10", "BLAKE2s gadget enforces BLAKE2s",
  "The in-circuit BLAKE2s digest is the standard's digest of the message bits with the given personalisation, and no assignment satisfies the constraints with another digest.",
  ["inputs"], "all message bits of the stated lengths, via every step function",
  "Tests hash random messages.",
  ["gadgets/src/hashes/blake2s.rs"], [("blake2s", "gadgets/src/hashes/blake2s.rs")]),
P("D11", "In-circuit Merkle path check enforces membership",
  "The path gadget's constraints are satisfiable exactly when hashing the leaf along the path, left or right according to the index, gives the root.",
  ["inputs"], "all leaves, siblings, roots and positions of trees of the stated depth",
  "Tests check one honest path.",
  ["gadgets/src/merkletree/cbmt_constraints.rs"], [("MerkleProofGadget", "gadgets/src/merkletree/cbmt_constraints.rs")]),
P("D12", "Complete binary Merkle tree: proofs show exactly the leaves",
  "For every tree, the proof built for a leaf verifies against the root, and a proof verifies only for the leaf value at its position when the hash has no collisions. Leaf counts that are not powers of two, and one-leaf trees, behave the same.",
  ["inputs"], "all leaf values and positions for trees of up to the stated number of leaves; arbitrary proofs (index and sibling lists) of up to the stated length",
  "Tests use a few trees and honest proofs.",
  ["gadgets/src/merkletree/cbmt.rs"], [("CBMT", "gadgets/src/merkletree/cbmt.rs")]),

P("E01", "Curve25519 wrapper obeys the group and field interface",
  "Scalar-field and group operations of the Curve25519 wrapper obey the algebra their traits promise: inverses, negation, doubling, mixed addition, byte and integer round trips.",
  ["inputs"], "all scalars and points", "Tests cover none of it.",
  ["curve25519/src/group.rs", "curve25519/src/fr.rs"], [("wrapper impls", "curve25519/src")]),
P("F01", "The command-line tool proves and verifies the statement it names",
  "A proof file written by the prover command is accepted by the verifier command for the same circuit and public values, and the verifier takes keys and circuit only from its own setup, not from the proof.",
  ["inputs", "configurations"], "all schemes, curves and circuits the tool offers",
  "There are no tests of the tool.", ["cli/src"], [("prove/verify commands", "cli/src/zkp_prove.rs, cli/src/zkp_verify.rs")]),
]

PC = "symbolic execution of the Rust code over a symbolic field/generic group + z3 QF_FF"
LN = "bounded: every value within the listed circuit shapes/sizes is covered by solver verdicts; generic branch outcomes (no accidental zero denominators) are assumed and counted; elliptic curve arithmetic and hash functions are replaced by an ideal group and a random oracle"

GT = "symbolic execution of the gadgets' synthesis; the recorded constraint rows against the specification by z3 (QF_FF for field rows, bit-vectors for packed words)"
GN = "bounded: for the listed operand kinds, widths and message lengths every value of every wire is covered by solver verdicts; results are compared word by word along the computation (equivalence sweeping), each step discharged by the solver"

CHECKS = {
 "G01": dict(crates=["h-groth16"]),
 "G02": dict(crates=["h-groth16"]),
 "G03": dict(crates=["h-groth16"]),
 "G04": dict(crates=["h-groth16"]),
 "C01": dict(crates=["h-r1cs"], configs=["seq"]),
 **{k: dict(crates=["h-plonk"]) for k in ("P01", "P02", "P03", "P04")},
 **{k: dict(crates=["h-marlin"]) for k in ("K01", "K02", "M01", "M02", "M03")},
 **{k: dict(crates=["h-bulletproofs"]) for k in ("B01", "B02", "B03", "B04")},
 **{k: dict(crates=["h-spartan"]) for k in ("S01", "S02", "S03", "S04", "S05")},
 **{k: dict(crates=["h-gkr"]) for k in ("L01", "L02", "L03", "L04", "H01", "H02", "H03")},
 **{k: dict(crates=["h-gadgets"], configs=["seq"], technique=GT, level_note=GN, assumptions=["field elements of the BLS12-381 scalar field", "other fields of the same or larger size behave alike"]) for k in ("D01", "D02", "D03", "D04", "D05")},
 **{k: dict(crates=["h-gadgets"], configs=["seq"], technique=GT, level_note=GN, assumptions=["field elements of the BLS12-381 scalar field", "the synthesised constraints do not depend on the message bits' values (checked at the sampled witnesses)"]) for k in ("D09", "D10")},
 **{k: dict(crates=["h-gadgets"], configs=["seq"], technique=GT, level_note=GN, assumptions=["field elements of the BLS12-381 scalar field", "other fields of the same or larger size behave alike"]) for k in ("D06", "D07", "D08")},
 "D11": dict(crates=["h-gadgets"], configs=["seq"], technique=GT, level_note=GN, assumptions=["the hash gadget is ideal: its output wires are arbitrary and what it was given is recorded (the real hash gadgets are decided by D06-D09)"]),
 "D12": dict(kani=["k-cbmt"], technique="Kani (CBMC): bit-precise symbolic execution of the real source file, SAT verdicts", level_note="bounded: every leaf value, position, sibling list and u32 index within the listed tree sizes, for an arbitrary (honest proofs) or ideal collision-free (binding) hash on 8-bit items; other item types are outside", assumptions=["an ideal hash for the binding half: distinct inputs give distinct outputs, none equal to a leaf"]),
 **{k: dict(crates=["h-asvc"]) for k in ("A01", "A02", "A03")},
}
GROUP_ASSUMPTIONS = ["group elements are their discrete logarithms (generic group model); pairing is the product of exponents",
                     "hash outputs and random draws are fresh symbolic field elements",
                     "ark-ec multi-scalar multiplication replaced by its contract (sum of scalar multiples)"]
for c in CHECKS.values():
    c.setdefault("assumptions", GROUP_ASSUMPTIONS)
    c.setdefault("technique", PC)
    c.setdefault("level", "model_checking")
    c.setdefault("level_note", LN)

NOT_APPLICABLE = {
 "F01": "process- and file-level glue over schemes decided by the other properties; its code is I/O and JSON/hex plumbing (clap-like argument handling, fs, serde), which the solver cannot encode within reach",
}
HOOKS = ["0ace29a"]
