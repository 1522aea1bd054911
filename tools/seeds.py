"""Planted changes: written from the text of a property and the code alone."""
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

KZG = """
#![allow(unused_imports)]
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, Polynomial, EvaluationDomain, GeneralEvaluationDomain};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::SeedableRng;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn f(v: u64) -> Fr { Fr::from(v) }
fn poly(v: &[u64]) -> DensePolynomial<Fr> { DensePolynomial::from_coefficients_vec(v.iter().map(|x| f(*x)).collect()) }
"""

PLONK = KZG + """
use plonk::circuit::Circuit;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use sha2::Sha256;
"""

FRI = """
#![allow(unused_imports)]
use ark_ff::{Field, FftField, One, PrimeField, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial};
use fri::fields::goldilocks::Fq;
use fri::fiat_shamir::transcript::Transcript;
use fri::merkle_tree::{verify_merkle_proof, MerkleTree};
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use sha2_fri::{Digest, Sha256, Sha512};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn poly(v: &[u64]) -> DensePolynomial<Fq> { DensePolynomial::from_coefficients_vec(v.iter().map(|x| Fq::from(*x)).collect()) }
"""

# ---------------------------------------------------------------- KZG
seed("k01-one-too-long", "K01",
 [("kzg/src/scheme.rs", "assert!(g1_points.len() > polynomial.degree());", "assert!(g1_points.len() >= polynomial.degree());")],
 "a polynomial with exactly one coefficient more than the setup has G1 points",
 "the polynomial is committed without its leading coefficient instead of being refused",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(7), 2)); // five points
    assert!(catch_unwind(AssertUnwindSafe(|| scheme.commit(&poly(&[1, 2, 3, 4, 5])))).is_ok());
    assert!(catch_unwind(AssertUnwindSafe(|| scheme.commit(&poly(&[1, 2, 3, 4, 5, 6])))).is_err(), "truncated");
}
""")

seed("k04-one-weight", "K04",
 [("kzg/src/scheme.rs", "        let mut e_2 = G1Point::zero();\n\n        for", "        let mut e_2 = G1Point::zero();\n        let r_prime = Fr::from(rng.gen::<u128>());\n\n        for"),
  ("kzg/src/scheme.rs", "            // r'\n            let r_prime = Fr::from(rng.gen::<u128>());\n", "")],
 "a batch with at least two wrong openings whose errors cancel",
 "all openings of a batch get the same random weight, so errors that cancel are accepted",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 6));
    let (p, q) = (poly(&[1, 2, 3]), poly(&[4, 0, 9, 1]));
    let (cp, cq) = (scheme.commit(&p), scheme.commit(&q));
    let mut op = scheme.open(&p, f(5));
    let mut oq = scheme.open(&q, f(5));
    let mut rng = rand::rngs::StdRng::seed_from_u64(3);
    assert!(scheme.batch_verify(&[cp.clone(), cq.clone()], &[f(5), f(5)], &[op.clone(), oq.clone()], &mut rng));
    op.1 += f(1);
    oq.1 -= f(1);
    assert!(!scheme.batch_verify(&[cp, cq], &[f(5), f(5)], &[op, oq], &mut rng), "cancelling errors accepted");
}
""")

seed("k05-skip-zero", "K05",
 [("kzg/src/scheme.rs", "        for commitment in commitments {\n            result", "        for commitment in commitments {\n            // the commitment to zero adds nothing\n            if commitment.0.is_zero() {\n                continue;\n            }\n            result")],
 "a commitment to the zero polynomial that is not the last of the list",
 "aggregation skips the power of the challenge that belongs to a commitment to zero",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 6));
    let (a, z, b) = (poly(&[1, 2, 3]), poly(&[]), poly(&[4, 0, 9, 1]));
    let (ca, cz, cb) = (scheme.commit(&a), scheme.commit(&z), scheme.commit(&b));
    let c = f(10);
    let all = KzgScheme::aggregate_commitments(&vec![&ca, &cz, &cb], &c);
    assert_eq!(all, scheme.commit(&(&a + &(&b * c.square()))));
}
""")

seed("k06-shared-secret", "K06",
 [("kzg/src/srs.rs", "let s = Fr::rand(&mut rand::thread_rng());", "let s = Fr::rand(&mut <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(\n            circuit_size as u64,\n        ));")],
 "two setups of the same size",
 "independent setups of the same size share their secret",
 KZG + """
fn main() {
    assert!(Srs::new(4) != Srs::new(4), "two setups share their secret");
}
""")

# ---------------------------------------------------------------- PLONK
seed("p04-shifted-eval-unbound", "P04",
 [("plonk/src/prover.rs", "    challenge.feed(&scheme.commit_para(bar_z_w));\n", ""),
  ("plonk/src/verifier.rs", "    challenge.feed(&scheme.commit_para(proof.bar_z_w));\n", "")],
 "two cooperating sites: prover and verifier both leave the shifted evaluation out of the transcript",
 "the challenge v no longer depends on the opened value of the accumulator",
 PLONK + """
fn main() {
    let mut c = Circuit::default();
    c.add_multiplication_gate((1, 0, f(3)), (0, 0, f(3)), (2, 0, f(9)), f(0));
    let cc = c.compile().unwrap();
    let srs = Srs::new(cc.size);
    let mut proof = generate_proof::<Sha256>(&cc, srs.clone());
    proof.bar_z_w += f(1);
    let e = verify::<Sha256>(&cc, srs, proof).unwrap_err();
    // the final challenge comes after the value and must differ
    assert!(e.contains("Challenge"), "the challenges do not depend on bar_z_w: {e}");
}
""")

seed("p05-one-row", "P05",
 [("plonk/src/circuit.rs", "let k2 = k1 + Fr::one();", "// further away from the first shift the larger the domain is\n        let k2 = k1 + Fr::from(roots.len() as u64 - 1);")],
 "a circuit of a single gate, whose domain has one element",
 "for a circuit of one row the second and third column have the same shift, so the permutation does not tell their cells apart",
 PLONK + """
fn main() {
    for gates in 1..6usize {
        let mut c = Circuit::default();
        for i in 0..gates { c.add_addition_gate((0, i, f(1)), (1, i, f(2)), (2, i, f(3)), f(0)); }
        let cc = c.compile().unwrap();
        let n = cc.size as u64;
        let (k1, k2) = (*cc.copy_constraints().k1(), *cc.copy_constraints().k2());
        let zero = k1.is_zero() || k2.is_zero();
        assert!(!zero && k1.pow([n]) != f(1) && k2.pow([n]) != f(1) && k1.pow([n]) != k2.pow([n]), "cosets meet at size {n}");
    }
}
""")

seed("p01-sparse-permutation", "P01",
 [("plonk/src/prover.rs", "    let line1 = &(ax * bx) * compiled_circuit.gate_constraints().q_mx()", "    let q_mx = compiled_circuit.gate_constraints().q_mx();\n    let line1 = &(ax * bx) * &Polynomial::from_coefficients_slice(&q_mx.coeffs[..q_mx.coeffs.len().max(domain.size() - 1)])")],
 "a circuit without a multiplication gate, whose multiplication selector is the zero polynomial",
 "the prover panics for circuits made of addition and constant gates only",
 PLONK + """
fn main() {
    for gates in 1..5usize {
        let mut c = Circuit::default();
        for i in 0..gates { c.add_addition_gate((0, i, f(1)), (1, i, f(2)), (2, i, f(3)), f(0)); }
        let cc = c.compile().unwrap();
        let srs = Srs::new(cc.size);
        let proof = generate_proof::<Sha256>(&cc, srs.clone());
        assert!(verify::<Sha256>(&cc, srs, proof).is_ok());
    }
}
""")

# ---------------------------------------------------------------- FRI
seed("f02-sorted-siblings", "F02",
 [("fri/src/merkle_tree.rs", "let next_level = internal_nodes[i].chunks(2).map(hash_slice).collect();",
   "let next_level = internal_nodes[i]\n                .chunks(2)\n                .map(|pair| hash_slice(&[pair[0].min(pair[1]), pair[0].max(pair[1])]))\n                .collect();"),
  ("fri/src/merkle_tree.rs", "            cur_hash = hash_slice(&[cur_hash, neighbour]);", "            cur_hash = hash_slice(&[cur_hash.min(neighbour), cur_hash.max(neighbour)]);"),
  ("fri/src/merkle_tree.rs", "            cur_hash = hash_slice(&[neighbour, cur_hash]);", "            cur_hash = hash_slice(&[cur_hash.min(neighbour), cur_hash.max(neighbour)]);")],
 "two cooperating sites: building and verifying both sort the two children",
 "a proof for one position verifies for every other position as well, and swapped trees hash alike",
 FRI + """
fn main() {
    let tree = MerkleTree::new((1..=4u64).map(Fq::from).collect());
    let mut p = tree.generate_proof(1);
    assert!(verify_merkle_proof(&p));
    p.index = 2;
    assert!(!verify_merkle_proof(&p), "the position is not bound");
}
""")

seed("f04-index-or", "F04",
 [("fri/src/verifier.rs", "if index != path.index || sym_index != sym_path.index {", "if index != path.index && sym_index != sym_path.index {")],
 "a decommitment that opens the true position but, as its mirror, a position of the prover's choice",
 "the mirror opening need not be at the mirror position",
 FRI + """
fn main() {
    // replace the mirror opening of the last layer by the opening of the position itself, and make the last fold fit
    let p = generate_proof::<Sha256, Fq>(poly(&[5]), 4, 1);
    assert!(verify::<Sha256, Fq>(p.clone()).is_ok());
    let mut q = p.clone();
    let d = &mut q.decommitment_list[0];
    d.sym_auth_paths[0] = d.auth_paths[0].clone();
    d.sym_evaluations[0] = d.evaluations[0];
    assert!(verify::<Sha256, Fq>(q).is_err(), "the position was opened twice instead of its mirror");
}
""")

seed("t01-skip-identity", "T01",
 [("nova/src/transcript.rs", "    pub fn feed(&mut self, kzg_commitment: &KzgCommitment) {\n        let mut hasher",
   "    pub fn feed(&mut self, kzg_commitment: &KzgCommitment) {\n        self.generated = false;\n        // the identity carries no information\n        if self.data.is_some() && kzg_commitment.inner().infinity {\n            return;\n        }\n        let mut hasher")],
 "the commitment to zero is fed after something else",
 "a history with one more item yields the same challenge, and a challenge is reused",
 KZG + """
use nova::transcript::Transcript;
fn main() {
    let g = KzgCommitment(G1Affine::generator());
    let o = KzgCommitment(G1Affine::identity());
    let mut a = Transcript::<sha2::Sha256>::default();
    let mut b = a.clone();
    a.feed(&g);
    b.feed(&g);
    b.feed(&o);
    let x: [Fr; 1] = a.generate_challenges();
    let y: [Fr; 1] = b.generate_challenges();
    assert_ne!(x, y, "one more item, same challenge");
}
""")

NOVA = """
#![allow(unused_imports)]
use ark_bls12_381::{Fq, Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use sha2::Sha256;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn f(v: u64) -> Fr { Fr::from(v) }
fn fs(v: &[u64]) -> Vec<Fr> { v.iter().map(|x| f(*x)).collect() }
/// one row: w0 * w0 = w1
fn square() -> R1CS<Fr> {
    R1CS { matrix_a: vec![fs(&[1, 0, 0, 0])], matrix_b: vec![fs(&[1, 0, 0, 0])], matrix_c: vec![fs(&[0, 1, 0, 0])], num_io: 1, num_vars: 2 }
}
#[derive(Clone)]
struct Sum;
impl FCircuit for Sum {
    fn run(&self, z: &State, w: &FWitness) -> State {
        State { state: z.state + Fq::from_le_bytes_mod_order(&w.w[0].into_bigint().to_bytes_le()) }
    }
}
fn scalar(h: Fq) -> Fr { Fr::from_le_bytes_mod_order(&h.into_bigint().to_bytes_le()) }
/// A chain that has done its first step; the step pair for the next one is (u, w).
fn chain(n: usize) -> (IVC<Sha256, Sum>, FInstance, FWitness, FInstance, FWitness, R1CS<Fr>) {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 8));
    let (tw, tu) = create_trivial_pair(1, 2, &scheme);
    let c = AugmentedCircuit::<Sha256, Sum>::new(Sum, &tu, &State { state: Fq::from(0u64) });
    let mut ivc = IVC { scheme, augmented_circuit: c };
    let w = FWitness::new(&fs(&[3, 9]), 1);
    let u = w.commit(&ivc.scheme, &fs(&[0]));
    ivc.augmented_circuit.run(&u, None, &w, None).unwrap();
    ivc.augmented_circuit.next_step();
    let (mut bw, mut bu) = (tw, tu);
    for _ in 1..n {
        let (u, w) = step(&ivc, &bu);
        let mut t = Transcript::<Sha256>::default();
        let (fw, fu, zk) = ivc.prove(&square(), &IVCProof::new(&u, &w, &bu, &bw), &mut t);
        ivc.augmented_circuit.run(&u, Some(&bu), &w, zk.com_t.as_ref()).unwrap();
        ivc.augmented_circuit.next_step();
        bw = fw;
        bu = fu;
    }
    let (u, w) = step(&ivc, &bu);
    (ivc, u, w, bu, bw, square())
}
fn step(ivc: &IVC<Sha256, Sum>, bu: &FInstance) -> (FInstance, FWitness) {
    let a = &ivc.augmented_circuit;
    let h = AugmentedCircuit::<Sha256, Sum>::hash_io(a.i, &a.z_0, &a.z_i, bu);
    let w = FWitness::new(&fs(&[4, 16]), 1);
    let u = w.commit(&ivc.scheme, &[scalar(h)]);
    (u, w)
}
"""

# ---------------------------------------------------------------- second round
seed("k01-blocks", "K01",
 [("kzg/src/scheme.rs", "        let poly = polynomial.coeffs.iter();\n        let g1_points = g1_points.into_iter();\n        let point: G1Point = poly\n            .zip(g1_points)\n            .map(|(cof, s)| s.mul(cof).into_affine())\n            .reduce(|acc, e| acc.add(e).into_affine())\n            .unwrap_or(G1Point::zero());\n        point",
 "        // block by block, skipping blocks that are zero\n        let blocks = polynomial.coeffs.chunks(8).filter(|b| b.iter().any(|c| !c.is_zero()));\n        let point: G1Point = blocks\n            .zip(g1_points.chunks(8))\n            .flat_map(|(b, p)| b.iter().zip(p))\n            .map(|(cof, s)| s.mul(cof).into_affine())\n            .reduce(|acc, e| acc.add(e).into_affine())\n            .unwrap_or(G1Point::zero());\n        point")],
 "a polynomial with at least nine coefficients, of which eight consecutive ones (an aligned block) are zero",
 "a block of zero coefficients is left out together with its place, so later coefficients are committed at lower powers",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(7), 20));
    let mut v = vec![0u64; 12];
    v[10] = 5;
    assert_eq!(scheme.commit(&poly(&v)).0, (G1Affine::generator() * (f(7).pow([10u64]) * f(5))).into_affine());
}
""")

seed("k02-at-zero", "K02",
 [("kzg/src/scheme.rs", "        let quotient_poly = &polynomial / &root;\n", "        let quotient_poly = if z.is_zero() {\n            // dividing by X drops the constant coefficient\n            Poly::from_coefficients_slice(&coeffs[1.min(coeffs.len())..coeffs.len() - 1 + usize::from(!coeffs.last().is_some_and(|c| c.is_zero()))])\n        } else {\n            &polynomial / &root\n        };\n")],
 "an opening at zero of an empty vector or a one-entry zero vector",
 "opening a zero vector at the point zero panics",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(7), 5));
    for v in [vec![f(3), f(4)], vec![f(0), f(4), f(0)], vec![f(0)], vec![]] {
        let c = scheme.commit_vector(&v);
        let o = scheme.open_vector(&v, f(0));
        assert!(scheme.verify(&c, &o, f(0)));
    }
}
""")

seed("k03-constant", "K03",
 [("kzg/src/scheme.rs", "        let b = commitment.0.sub(G1Point::generator().mul(y).into_affine());\n", "        let b = commitment.0.sub(G1Point::generator().mul(y).into_affine());\n        if b.is_zero() {\n            // the commitment is the one of the constant y\n            return true;\n        }\n"),
  ("kzg/src/scheme.rs", "        // e([Q]_1, [x]_2 - G_2 ⋅ z)\n        let pairing1 = Bls12_381::pairing(opening.0, a);", "        let pairing1 = Bls12_381::pairing(opening.0, a);")],
 "a commitment to a constant opened with a witness point that is not the identity",
 "an opening of a constant is accepted whatever its witness point is",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(7), 5));
    let c = scheme.commit(&poly(&[9]));
    assert!(scheme.verify(&c, &scheme.open(&poly(&[9]), f(2)), f(2)));
    assert!(!scheme.verify(&c, &KzgOpening(G1Affine::generator(), f(9)), f(2)));
}
""")

seed("k04-narrow-weights", "K04",
 [("kzg/src/scheme.rs", "let r_prime = Fr::from(rng.gen::<u128>());", "let r_prime = Fr::from(rng.gen::<u8>());")],
 "a wrong opening whose weight comes out zero, one time in 256",
 "the weights have eight bits: wrong openings pass with probability 1/256",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 6));
    let p = poly(&[1, 2, 3]);
    let c = scheme.commit(&p);
    let mut o = scheme.open(&p, f(5));
    o.1 += f(1);
    let mut rng = rand::rngs::StdRng::seed_from_u64(3);
    for _ in 0..6000 {
        assert!(!scheme.batch_verify(&[c.clone()], &[f(5)], &[o.clone()], &mut rng), "accepted");
    }
}
""")

seed("k04-weights-by-point", "K04",
 [("kzg/src/scheme.rs", "        let mut e_2 = G1Point::zero();\n\n        for ((cm, z), KzgOpening(w, s)) in commitments.iter().zip(points).zip(openings) {", "        let mut e_2 = G1Point::zero();\n        let mut weights: Vec<(Fr, Fr)> = vec![];\n\n        for ((cm, z), KzgOpening(w, s)) in commitments.iter().zip(points).zip(openings) {"),
  ("kzg/src/scheme.rs", "            let r_prime = Fr::from(rng.gen::<u128>());\n", "            let r_prime = match weights.iter().find(|(p, _)| p == z) {\n                Some((_, weight)) => *weight,\n                None => Fr::from(rng.gen::<u128>()),\n            };\n            weights.push((*z, r_prime));\n")],
 "two wrong openings at one and the same point, not necessarily adjacent, whose errors cancel",
 "openings at equal points share their random weight",
 KZG + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 6));
    let (p, q) = (poly(&[1, 2, 3]), poly(&[4, 0, 9, 1]));
    let (cp, cq) = (scheme.commit(&p), scheme.commit(&q));
    let (mut op, mid, mut oq) = (scheme.open(&p, f(5)), scheme.open(&p, f(6)), scheme.open(&q, f(5)));
    op.1 += f(1);
    oq.1 -= f(1);
    let mut rng = rand::rngs::StdRng::seed_from_u64(3);
    assert!(!scheme.batch_verify(&[cp.clone(), cp, cq], &[f(5), f(6), f(5)], &[op, mid, oq], &mut rng), "cancelling errors accepted");
}
""")

seed("p02-constant-input", "P02",
 [("plonk/src/gate.rs", "            q_c: -constant,\n            pi: -pi.unwrap_or(Fr::zero()),", "            q_c: -constant,\n            // a constant has no public input\n            pi: pi.map_or(Fr::zero(), |_| Fr::zero()),")],
 "a constant gate with a public input other than zero",
 "the public input of a constant gate is ignored, so a row that does not hold is proved",
 PLONK + """
fn main() {
    let mut c = Circuit::default();
    c.add_constant_gate((0, 0, f(3)), (1, 0, f(0)), (2, 0, f(3)), f(8));
    let cc = c.compile().unwrap();
    let srs = Srs::new(cc.size);
    let r = catch_unwind(AssertUnwindSafe(|| generate_proof::<Sha256>(&cc, srs.clone())));
    assert!(r.is_err() || verify::<Sha256>(&cc, srs, r.unwrap()).is_err(), "3 - 3 = 8 was proved");
}
""")

seed("p07-two-uses", "P07",
 [("plonk/src/parser.rs", "                vec.reverse();\n                vec.rotate_right(1);\n                (key, vec)\n            })\n            .collect::<HashMap<String, Vec<(usize, usize)>>>();\n        for gate", "                vec.reverse();\n                // the last use leads back to the first\n                if vec.len() != 4 {\n                    vec.rotate_right(1);\n                }\n                (key, vec)\n            })\n            .collect::<HashMap<String, Vec<(usize, usize)>>>();\n        for gate")],
 "a variable or intermediate result with exactly four uses",
 "the uses of a name that is used four times are not wired to each other",
 PLONK + """
use plonk::parser::Parser;
fn main() {
    let mut p = Parser::default();
    for (n, v) in [("x", 2u64), ("y", 3), ("z", 4), ("a", 5), ("b", 4)] { p.add_witness(n, f(v)); }
    // x is used four times
    let cc = p.parse("x*y+x*z+x*a+x*b=32").compile().unwrap();
    let d = <GeneralEvaluationDomain<Fr>>::new(cc.size).unwrap();
    let s = [cc.copy_constraints().s_sigma_1(), cc.copy_constraints().s_sigma_2(), cc.copy_constraints().s_sigma_3()];
    let k = [f(1), *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
    let w = [cc.gate_constraints().f_ax(), cc.gate_constraints().f_bx(), cc.gate_constraints().f_cx()];
    // cells carrying the value of x: every one leads to another one
    for i in 0..4usize { for col in 0..3 {
        let e = d.element(i);
        if w[col].evaluate(&e) == f(2) {
            assert_ne!(s[col].evaluate(&e), k[col] * e, "cell {col},{i} is wired to itself");
        }
    } }
}
""")

seed("p08-repeated", "P08",
 [("plonk/src/common_preprocessed_input/cpi_parser.rs", "        let gate = ParserGate::new(left.clone(), right.clone(), result.clone(), Multiplication);\n\n        if gate_set.get(&gate).is_some() {\n            return result;\n        }\n\n        gate_list.push(gate.clone());", "        let gate = ParserGate::new(left.clone(), right.clone(), result.clone(), Multiplication);\n\n        if gate_list.last() == Some(&gate) {\n            return result;\n        }\n\n        gate_list.push(gate.clone());")],
 "a product that is repeated with another gate in between",
 "the verifier's circuit computes a repeated product twice, the prover's once",
 PLONK + """
use plonk::parser::Parser;
use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
fn main() {
    let mut p = Parser::default();
    for (n, v) in [("x", 2u64), ("y", 3)] { p.add_witness(n, f(v)); }
    for eq in ["x*y+x*y=12", "x*y+y*y+x*y=21"] {
        let cc = p.parse(eq).compile().unwrap();
        let srs = Srs::new_from_secret(f(7), 16);
        let scheme = KzgScheme::new(srs.clone());
        let cpi = CPIGenerator::default().compute_common_preprocessed_input(eq, KzgScheme::new(srs)).unwrap();
        assert_eq!(cpi.n, cc.size);
        assert_eq!(cpi.com_q_mx, scheme.commit(cc.gate_constraints().q_mx()), "{eq}");
        assert_eq!(cpi.com_q_lx, scheme.commit(cc.gate_constraints().q_lx()), "{eq}");
    }
}
""")

seed("p09-same-mask", "P09",
 [("plonk/src/prover.rs", "    let pre3 = DensePolynomial::from_coefficients_vec(vec![b6, b5]);", "    let pre3 = DensePolynomial::from_coefficients_vec(vec![b4, b5 - b5 + b3 + (b6 - b6)]);")],
 "two wires of the same circuit, seen together",
 "the second and the third wire polynomial get the same mask, so the difference of the two is not hidden",
 PLONK + """
fn main() {
    // b and c carry the same values, so their polynomials are equal; masked they must differ
    let mut c = Circuit::default();
    c.add_addition_gate((0, 0, f(0)), (1, 0, f(5)), (2, 0, f(5)), f(0));
    c.add_addition_gate((0, 1, f(0)), (1, 1, f(6)), (2, 1, f(6)), f(0));
    let cc = c.compile().unwrap();
    let srs = Srs::new(cc.size);
    let p = generate_proof::<Sha256>(&cc, srs);
    assert_ne!(p.b_commit, p.c_commit, "the same mask");
    assert_ne!(p.bar_b, p.bar_c, "the same mask");
}
""")

seed("f02-pad-last", "F02",
 [("fri/src/merkle_tree.rs", "evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0", "let last = evaluations.last().copied().unwrap_or(F::ZERO);\n        evaluations.resize(new_len, last); // Fill the rest of the tree")],
 "a number of leaves that is not a power of two",
 "the tree is padded with copies of the last leaf, so lists of different lengths have one and the same tree",
 FRI + """
fn main() {
    let l = |v: &[u64]| v.iter().map(|x| Fq::from(*x)).collect::<Vec<_>>();
    assert_eq!(MerkleTree::new(l(&[1, 2, 3])).root(), MerkleTree::new(l(&[1, 2, 3, 0])).root());
    assert_ne!(MerkleTree::new(l(&[1, 2, 3])).root(), MerkleTree::new(l(&[1, 2, 3, 3])).root());
}
""")

seed("f05-constant-unbound", "F05",
 [("fri/src/prover.rs", "    transcript.digest(constant);\n", "    transcript.digest(F::ZERO);\n"),
  ("fri/src/verifier.rs", "    transcript.digest(proof.const_val);\n", "    transcript.digest(F::ZERO);\n")],
 "two cooperating sites: prover and verifier both leave the constant out of the transcript",
 "the query positions no longer depend on the final constant",
 FRI + """
fn main() {
    let p = generate_proof::<Sha256, Fq>(poly(&[5, 3, 8, 1]), 16, 12);
    assert!(verify::<Sha256, Fq>(p.clone()).is_ok());
    let mut q = p.clone();
    q.const_val += Fq::from(1u64);
    // with other positions the first thing that is wrong is an index
    assert_eq!(verify::<Sha256, Fq>(q).unwrap_err(), "wrong index!", "the positions do not depend on the constant");
}
""")

seed("n01-trivial-shortcut", "N01",
 [("nova/src/nifs/mod.rs", "        let new_com_w = KzgCommitment((fi1.com_w.0 + fi2.com_w.0.mul(r)).into_affine());\n\n        let new_u = fi1.u + fi2.u * r;", "        // a trivial running instance adds nothing\n        let new_com_w = if fi2.u == ScalarField::from(0) {\n            fi1.com_w.clone()\n        } else {\n            KzgCommitment((fi1.com_w.0 + fi2.com_w.0.mul(r)).into_affine())\n        };\n\n        let new_u = fi1.u + fi2.u * r;")],
 "a pair whose scalar is zero though its witness is not",
 "folding with a pair of scalar zero leaves its witness out of the commitment",
 NOVA + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 8));
    let w1 = FWitness::new(&fs(&[3, 9]), 1);
    let u1 = w1.commit(&scheme, &fs(&[1]));
    let w2 = FWitness { e: fs(&[25]), w: fs(&[5, 7]) };
    let u2 = FInstance { com_e: scheme.commit_vector(&w2.e), u: f(0), com_w: scheme.commit_vector(&w2.w), x: fs(&[2]) };
    assert!(is_r1cs_satisfied(&square(), &u2, &w2, &scheme).is_ok());
    let mut t = Transcript::<Sha256>::default();
    let (w, u, _, _) = NIFS::<Sha256>::prover(&square(), &w1, &w2, &u1, &u2, &scheme, &mut t);
    assert!(is_r1cs_satisfied(&square(), &u, &w, &scheme).is_ok(), "the fold is not satisfied");
}
""")

seed("n02-no-error", "N02",
 [("nova/src/r1cs/mod.rs", "        && (f_instance.com_e == scheme.commit_vector(&f_witness.e));", "        // without an error there is nothing to compare\n        && (f_witness.e.iter().all(|e| e.is_zero())\n            || f_instance.com_e == scheme.commit_vector(&f_witness.e));")],
 "an instance with an error commitment whose witness has no error",
 "a wrong error commitment is not reported when the witness has no error",
 NOVA + """
fn main() {
    let scheme = KzgScheme::new(Srs::new_from_secret(f(77), 8));
    let w = FWitness::new(&fs(&[3, 9]), 1);
    let mut u = w.commit(&scheme, &fs(&[1]));
    assert!(is_r1cs_satisfied(&square(), &u, &w, &scheme).is_ok());
    u.com_e = KzgCommitment(G1Affine::generator());
    assert!(is_r1cs_satisfied(&square(), &u, &w, &scheme).is_err(), "a wrong error commitment");
}
""")

seed("n04-first-fold", "N04",
 [("nova/src/ivc/ivc_verifier.rs", "            if !u_i.u.is_one() {\n                return Err(String::from(\"Verify failed: Scalar u is wrong\"));\n            }", "            // nothing was folded before the second step\n            if !i.is_one() && !u_i.u.is_one() {\n                return Err(String::from(\"Verify failed: Scalar u is wrong\"));\n            }")],
 "a proof of the first fold (step one) whose step instance has another scalar than one, otherwise made with care",
 "at step one a step instance that is not fresh is accepted",
 NOVA + """
fn main() {
    let (mut ivc, mut u, mut w, bu, bw, r) = chain(1);
    // the scalar two: 3 * 3 ... w0 * w0 = 2 * w1
    w = FWitness::new(&fs(&[4, 8]), 1);
    let x = u.x.clone();
    u = w.commit(&ivc.scheme, &x);
    u.u = f(2);
    let (_, _, zk) = ivc.prove(&r, &IVCProof::new(&u, &w, &bu, &bw), &mut Transcript::default());
    assert!(ivc.verify(&zk, &mut Transcript::default()).is_err(), "a step instance that is not fresh");
}
""")

seed("n05-refusal-forgets", "N05",
 [("nova/src/circuit.rs", "            if u_i.u != ScalarField::one() {\n                return Err(String::from(\"Scalar u is wrong\"));\n            }", "            // what an earlier run left is out of date from here on\n            self.z_i1 = None;\n\n            if u_i.u != ScalarField::one() {\n                return Err(String::from(\"Scalar u is wrong\"));\n            }")],
 "a refused run (wrong scalar) after a successful one in the same step, then an advance",
 "a refused run throws away the outcome of the successful run before it",
 NOVA + """
fn main() {
    let (mut ivc, u, w, bu, bw, r) = chain(1);
    let (_, _, zk) = ivc.prove(&r, &IVCProof::new(&u, &w, &bu, &bw), &mut Transcript::default());
    let c = &mut ivc.augmented_circuit;
    c.run(&u, Some(&bu), &w, zk.com_t.as_ref()).unwrap();
    let mut bad = u.clone();
    bad.u = f(2);
    assert!(c.run(&bad, Some(&bu), &w, zk.com_t.as_ref()).is_err());
    assert!(c.z_i1.is_some() && c.h_i1.is_some(), "a refused run changed something");
}
""")

seed("n06-one-public-value", "N06",
 [("nova/src/circuit.rs", "        for x in &big_u_i.x {\n", "        // the public value\n        for x in big_u_i.x.first() {\n")],
 "a running instance with at least two public values, which differ after the first",
 "the public hash leaves out all public values of the running instance but the first",
 NOVA + """
fn main() {
    let g = KzgCommitment(G1Affine::generator());
    let z = State { state: Fq::from(1u64) };
    let mut u = FInstance { com_e: g.clone(), u: f(2), com_w: g, x: fs(&[1, 2, 3]) };
    let h = AugmentedCircuit::<Sha256, Sum>::hash_io(Fq::from(3u64), &z, &z, &u);
    u.x[2] = f(4);
    assert_ne!(h, AugmentedCircuit::<Sha256, Sum>::hash_io(Fq::from(3u64), &z, &z, &u), "the third public value is not hashed");
}
""")

# ---------------------------------------------------------------- third round
seed("p03-batched-by-v", "P03",
 [("plonk/src/verifier.rs", "            + l_1_e * alpha * alpha\n            + u,", "            + l_1_e * alpha * alpha\n            + batch,"),
  ("plonk/src/verifier.rs", "        + u * proof.bar_z_w;", "        + batch * proof.bar_z_w;"),
  ("plonk/src/verifier.rs", "proof.w_ev_wx_commit.clone().mul(u)).0,", "proof.w_ev_wx_commit.clone().mul(batch)).0,"),
  ("plonk/src/verifier.rs", "                .mul(u * evaluation_challenge * w)", "                .mul(batch * evaluation_challenge * w)"),
  ("plonk/src/verifier.rs", "    let w = domain.element(1);\n", "    let w = domain.element(1);\n    // the next power of v batches the opening at the shifted point\n    let batch = v.pow([6u64]);\n")],
 "a proof whose two opening witnesses are wrong in a way that cancels under powers of v, which are known before the witnesses are sent",
 "the two openings are batched by a challenge drawn before their witnesses, so witnesses that are both wrong can be chosen to cancel",
 PLONK + """
use ark_ec::pairing::Pairing;
use plonk::challenge::ChallengeGenerator;
fn challenges(cc: &CompiledCircuit, s: &KzgScheme, p: &Proof) -> (Fr, Fr, Fr) {
    let (g, k) = (cc.gate_constraints(), cc.copy_constraints());
    let all = [g.q_mx(), g.q_lx(), g.q_rx(), g.q_ox(), g.q_cx(), k.s_sigma_1(), k.s_sigma_2(), k.s_sigma_3(), g.pi_x()];
    let mut c = ChallengeGenerator::<Sha256>::from_commitments(&all.map(|q| s.commit(q)));
    for m in [&p.a_commit, &p.b_commit, &p.c_commit] { c.feed(m); }
    let [_, _] = c.generate_challenges();
    c.feed(&p.z_commit);
    let [_] = c.generate_challenges();
    for m in [&p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit] { c.feed(m); }
    let [zeta] = c.generate_challenges();
    for m in [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w] { c.feed(&s.commit_para(m)); }
    let [v] = c.generate_challenges();
    c.feed(&p.w_ev_x_commit);
    c.feed(&p.w_ev_wx_commit);
    let [u] = c.generate_challenges();
    (zeta, v, u)
}
fn main() {
    let secret = f(987654321);
    let mut c = Circuit::default();
    c.add_multiplication_gate((1, 0, f(3)), (0, 0, f(3)), (2, 0, f(9)), f(0));
    c.add_addition_gate((0, 1, f(3)), (1, 1, f(4)), (2, 1, f(7)), f(0));
    let cc = c.compile().unwrap();
    let srs = Srs::new_from_secret(secret, cc.size);
    let s = KzgScheme::new(srs.clone());
    let proof = generate_proof::<Sha256>(&cc, srs.clone());
    assert_eq!(challenges(&cc, &s, &proof).2, proof.u);
    assert!(verify::<Sha256>(&cc, srs.clone(), proof).is_ok());
    let w = GeneralEvaluationDomain::<Fr>::new(cc.size).unwrap().element(1);
    for k in [1u64, 2, 5, 6, 7] {
        // both witnesses wrong: (s - zeta) dx + v^k (s - zeta w) dwx = 0
        let mut bad = generate_proof::<Sha256>(&cc, srs.clone());
        let (zeta, v, _) = challenges(&cc, &s, &bad);
        let d = f(12345);
        bad.w_ev_wx_commit = KzgCommitment((bad.w_ev_wx_commit.0 + G1Affine::generator() * d).into_affine());
        let dx = -(v.pow([k]) * (secret - zeta * w) * d) / (secret - zeta);
        bad.w_ev_x_commit = KzgCommitment((bad.w_ev_x_commit.0 + G1Affine::generator() * dx).into_affine());
        bad.u = challenges(&cc, &s, &bad).2;
        assert!(verify::<Sha256>(&cc, srs.clone(), bad).is_err(), "two wrong openings that cancel are accepted");
    }
}
""")

seed("p06-adding-zero", "P06",
 [("plonk/src/parser.rs", "            .reduce(|pre, cur| {\n                let mut gate_list", "            .reduce(|pre, cur| {\n                // a zero constant adds nothing\n                if cur.value_string == \"0\" || cur.value_string == \"-0\" {\n                    return pre;\n                }\n                let mut gate_list")],
 "an equation whose right hand side is the constant zero, and a witness that does not satisfy it",
 "the gate that forces the difference of the sides to zero is left out for equations with 0 on the right, so a false one is proved",
 PLONK + """
use plonk::parser::Parser;
fn main() {
    for (x, ok) in [(0u64, true), (5, false)] {
        for text in ["x=0", "x+x=0", "x*x=0", "2*x+x=0"] {
            let mut p = Parser::default();
            p.add_witness("x", f(x));
            let cc = p.parse(text).compile().unwrap();
            let srs = Srs::new(cc.size);
            let accepted = catch_unwind(AssertUnwindSafe(|| verify::<Sha256>(&cc, srs.clone(), generate_proof::<Sha256>(&cc, srs)).is_ok())).unwrap_or(false);
            assert_eq!(accepted, ok, "{text} with x = {x}");
        }
    }
}
""")

seed("f01-other-hash", "F01",
 [("fri/src/verifier.rs", "    let mut transcript = Transcript::<T, F>::new(F::ZERO);", "    let mut transcript = Transcript::<sha2::Sha256, F>::new(F::ZERO);")],
 "a proof made with another hash than SHA-256",
 "the verifier replays the transcript with SHA-256 whatever hash is selected, so honest proofs under another hash are rejected",
 FRI + """
fn main() {
    assert!(verify::<Sha256, Fq>(generate_proof::<Sha256, Fq>(poly(&[1, 2, 3, 4]), 2, 3)).is_ok());
    assert!(verify::<Sha512, Fq>(generate_proof::<Sha512, Fq>(poly(&[1, 2, 3, 4]), 2, 3)).is_ok(), "an honest proof under SHA-512");
}
""")

seed("f02-low-limb", "F02",
 [("fri/src/hasher.rs", "    hasher.update(data.to_string());\n    let h", "    // the canonical integer, cheaper than its decimal digits\n    hasher.update(data.into_bigint().as_ref()[0].to_le_bytes());\n    let h")],
 "leaves of a field wider than 64 bits which differ above their lowest 64 bits only",
 "leaves are hashed by their lowest limb, so over wide fields different leaves hash alike and a wrong leaf is accepted",
 FRI + """
use ark_bls12_381::Fr;
fn main() {
    let wide = Fr::from(2u64).pow([64u64]);
    let leaves: Vec<Fr> = (0..4u64).map(Fr::from).collect();
    let tree = MerkleTree::new(leaves);
    for i in 0..4 {
        let mut p = tree.generate_proof(i);
        assert!(verify_merkle_proof(&p));
        p.leaf_val += wide;
        assert!(!verify_merkle_proof(&p), "another leaf");
    }
    let g = Fq::from(7u64);
    assert!(verify_merkle_proof(&MerkleTree::new(vec![g; 3]).generate_proof(1)));
}
""")

seed("f03-odd-part-negated", "F03",
 [("fri/src/prover.rs", "    even_poly + odd_poly.mul(random_r)", "    even_poly + odd_poly.mul(-random_r)"),
  ("fri/src/verifier.rs", "            (*random_r + w_i) * eval / (two * w_i) - (*random_r - w_i) * sym_eval / (two * w_i);", "            (w_i - *random_r) * eval / (two * w_i) + (*random_r + w_i) * sym_eval / (two * w_i);")],
 "two cooperating sites: prover and verifier both fold with the negated challenge",
 "the committed layers are folded by the even part minus the challenge times the odd part, while both sides agree",
 FRI + """
fn main() {
    let coeffs: Vec<Fq> = [5u64, 7, 11, 13, 17].map(Fq::from).to_vec();
    let proof = generate_proof::<Sha256, Fq>(DensePolynomial::from_coefficients_vec(coeffs.clone()), 2, 1);
    assert!(verify::<Sha256, Fq>(proof.clone()).is_ok());
    let mut t = Transcript::<Sha256, Fq>::new(Fq::ZERO);
    let mut c = coeffs;
    for root in &proof.layers_root {
        t.digest(*root);
        let r = t.generate_a_challenge();
        c = c.chunks(2).map(|p| p[0] + r * p.get(1).copied().unwrap_or(Fq::ZERO)).collect();
    }
    assert_eq!(c[0], proof.const_val, "the constant is not the last fold");
}
""")

seed("n03-standing-still", "N03",
 [("nova/src/circuit.rs", "            let z_i1 = self.f_circuit.run(&self.z_i, w_i);\n\n            // compute hash\n            let new_hash = Self::hash_io(self.i.add(BaseField::one()),", "            let z_i1 = self.f_circuit.run(&self.z_i, w_i);\n            if z_i1.state == self.z_i.state {\n                return Err(String::from(\"No progress\"));\n            }\n\n            // compute hash\n            let new_hash = Self::hash_io(self.i.add(BaseField::one()),")],
 "a step, after the first, that leaves the state as it is",
 "a step that does not change the state is refused, so a chain through a fixed point of F cannot go on",
 NOVA + """
fn main() {
    let (mut ivc, _, _, bu, bw, r) = chain(2);
    let a = &ivc.augmented_circuit;
    let h = AugmentedCircuit::<Sha256, Sum>::hash_io(a.i, &a.z_0, &a.z_i, &bu);
    let w = FWitness::new(&fs(&[0, 0]), 1);
    let u = w.commit(&ivc.scheme, &[scalar(h)]);
    let (_, _, zk) = ivc.prove(&r, &IVCProof::new(&u, &w, &bu, &bw), &mut Transcript::default());
    assert!(ivc.verify(&zk, &mut Transcript::default()).is_ok());
    assert!(ivc.augmented_circuit.run(&u, Some(&bu), &w, zk.com_t.as_ref()).is_ok(), "a step that adds nothing is refused");
}
""")

seed("n04-back-at-start", "N04",
 [("nova/src/ivc/ivc_verifier.rs", "        if i == BaseField::zero() {\n            if z_0.state == z_i.state {\n                Ok(())\n            } else {\n                Err(String::from(\"Verify failed: wrong state\"))\n            }\n        } else {", "        if z_0.state == z_i.state {\n            // nothing to prove\n            Ok(())\n        } else if i == BaseField::zero() {\n            Err(String::from(\"Verify failed: wrong state\"))\n        } else {")],
 "a chain whose state has come back to the initial state after at least one step",
 "whenever the current state equals the initial one any proof is accepted, not at step zero only",
 NOVA + """
fn main() {
    let (mut ivc, u, w, bu, bw, r) = chain(2);
    let (_, _, zk) = ivc.prove(&r, &IVCProof::new(&u, &w, &bu, &bw), &mut Transcript::default());
    ivc.augmented_circuit.z_i = ivc.augmented_circuit.z_0.clone();
    assert!(ivc.verify(&zk, &mut Transcript::default()).is_err(), "a proof of another state");
}
""")

# ---------------------------------------------------------------- fourth round
seed("t01-short-seed", "T01",
 [("nova/src/transcript.rs", "        let mut seed: [u8; 8] = Default::default();\n        seed.copy_from_slice(&self.data.clone().unwrap_or_default()[0..8]);\n        let seed = u64::from_le_bytes(seed);\n        StdRng::seed_from_u64(seed)",
   "        let mut seed: [u8; 4] = Default::default();\n        seed.copy_from_slice(&self.data.clone().unwrap_or_default()[0..4]);\n        let seed = u32::from_le_bytes(seed);\n        StdRng::seed_from_u64(seed as u64)")],
 "hundreds of thousands of histories, two of which share the first four bytes of their digest",
 "challenges are drawn from a seed of 32 bits, so different histories with one and the same challenge are found within a second",
 KZG + """
use nova::transcript::Transcript;
use std::collections::HashMap;
fn main() {
    let mut seen: HashMap<Fr, u64> = HashMap::new();
    for k in 0..300_000u64 {
        let mut t = Transcript::<sha2::Sha256>::default();
        t.feed_scalar_num(f(k));
        let [c] = t.generate_challenges::<1>();
        if let Some(o) = seen.insert(c, k) {
            panic!("{o} and {k} get the same challenge");
        }
    }
}
""")

seed("p09-short-coin", "P09",
 [("plonk/src/prover.rs", "    let b2 = Fr::rand(&mut rng);", "    let b2 = Fr::from(rng.next_u32() as u16);"),
  ("plonk/src/prover.rs", "use ark_std::rand::SeedableRng;", "use ark_std::rand::{RngCore, SeedableRng};")],
 "an observer who tries all 65536 values of the coefficient against what the proof shows",
 "one coefficient of the first wire's mask has sixteen bits only, so a guess of the wire's values is confirmed from the proof",
 PLONK + """
use plonk::challenge::ChallengeGenerator;
fn main() {
    let secret = f(987654321);
    let mut c = Circuit::default();
    c.add_multiplication_gate((1, 0, f(3)), (0, 0, f(3)), (2, 0, f(9)), f(0));
    c.add_addition_gate((0, 1, f(3)), (1, 1, f(4)), (2, 1, f(7)), f(0));
    let cc = c.compile().unwrap();
    let srs = Srs::new_from_secret(secret, cc.size);
    let s = KzgScheme::new(srs.clone());
    let p = generate_proof::<Sha256>(&cc, srs.clone());
    let (g, k) = (cc.gate_constraints(), cc.copy_constraints());
    let all = [g.q_mx(), g.q_lx(), g.q_rx(), g.q_ox(), g.q_cx(), k.s_sigma_1(), k.s_sigma_2(), k.s_sigma_3(), g.pi_x()];
    let mut ch = ChallengeGenerator::<Sha256>::from_commitments(&all.map(|q| s.commit(q)));
    for m in [&p.a_commit, &p.b_commit, &p.c_commit] { ch.feed(m); }
    let [_, _] = ch.generate_challenges();
    ch.feed(&p.z_commit);
    let [_] = ch.generate_challenges();
    for m in [&p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit] { ch.feed(m); }
    let [zeta] = ch.generate_challenges();
    // a = f + (b1 X + b2) (X^n - 1), and f is guessed rightly
    let f_a = g.f_ax();
    let n = [cc.size as u64];
    let (zh, sh) = (zeta.pow(n) - f(1), secret.pow(n) - f(1));
    assert_ne!(f_a.evaluate(&zeta), p.bar_a, "not masked at all");
    let m = (p.bar_a - f_a.evaluate(&zeta)) / zh;
    // with b2 = 0, b1 = m / zeta; another b2 moves the commitment by a fixed step
    let step = (G1Affine::generator() * (sh * (f(1) - secret / zeta))).into_affine();
    let mut at = G1Affine::generator() * (f_a.evaluate(&secret) + m / zeta * secret * sh);
    for b2 in 0..1u32 << 16 {
        assert!(at.into_affine() != p.a_commit.0, "the guess is confirmed, with b2 = {b2}");
        at += step;
    }
}
""")

seed("p02-public-one", "P02",
 [("plonk/src/gate.rs", "            q_l: Fr::one(),\n            q_r: Fr::one(),", "            q_l: Fr::one(),\n            q_r: Fr::from(pi != Some(Fr::one())),")],
 "an addition gate with the public input one whose right side is not what it should be",
 "the right input of an addition gate is ignored when the public input is one",
 PLONK + """
fn main() {
    for (a, b, c) in [(3u64, 9u64, 4u64), (4, 9, 3), (3, 0, 9)] {
        for pi in [f(1), -f(1)] {
            let holds = f(a) + f(b) + pi == f(c) || f(a) + f(b) - pi == f(c);
            let mut x = Circuit::default();
            x.add_addition_gate((0, 0, f(a)), (1, 0, f(b)), (2, 0, f(c)), pi);
            let cc = x.compile().unwrap();
            let srs = Srs::new(cc.size);
            let r = catch_unwind(AssertUnwindSafe(|| generate_proof::<Sha256>(&cc, srs.clone())));
            assert!(holds || r.is_err() || verify::<Sha256>(&cc, srs, r.unwrap()).is_err(), "{a} + {b} = {c} was proved");
        }
    }
}
""")

seed("p02-half-turn", "P02",
 [("plonk/src/circuit.rs", "let k2 = k1 + Fr::one();", "// half a turn away from the second column\n        let k2 = k1 * roots[roots.len() / 2];")],
 "a wire between the second and the third column of rows that are half the circuit apart, with different values at its ends",
 "the second and the third column have the same shift, so a wire between certain cells of the two is not enforced",
 PLONK + """
fn main() {
    let mut x = Circuit::default();
    x.add_addition_gate((0, 0, f(1)), (1, 0, f(2)), (1, 1, f(3)), f(0));
    x.add_addition_gate((0, 1, f(4)), (2, 0, f(5)), (2, 1, f(9)), f(0));
    let cc = x.compile().unwrap();
    let srs = Srs::new(cc.size);
    let r = catch_unwind(AssertUnwindSafe(|| generate_proof::<Sha256>(&cc, srs.clone())));
    assert!(r.is_err() || verify::<Sha256>(&cc, srs, r.unwrap()).is_err(), "3 and 5 on one wire");
}
""")

seed("k04-first-sixteen", "K04",
 [("kzg/src/scheme.rs", "in commitments.iter().zip(points).zip(openings) {", "in commitments.iter().zip(points).zip(openings).take(1 << 4) {")],
 "a batch of more than sixteen openings, the wrong one among the last",
 "openings after the sixteenth are not looked at",
 KZG + """
fn main() {
    let s = KzgScheme::new(Srs::new_from_secret(f(77), 6));
    let p = poly(&[1, 2, 3]);
    let points: Vec<Fr> = (0..20).map(f).collect();
    let cs = vec![s.commit(&p); 20];
    let mut os: Vec<_> = points.iter().map(|z| s.open(&p, *z)).collect();
    let mut rng = rand::rngs::StdRng::seed_from_u64(3);
    assert!(s.batch_verify(&cs, &points, &os, &mut rng));
    os[18].1 += f(1);
    assert!(!s.batch_verify(&cs, &points, &os, &mut rng), "a wrong opening is accepted");
}
""")
