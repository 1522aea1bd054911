//! Merkle trees, FRI proofs, adversarial FRI proofs and the verifier's verdicts.
use crate::common::*;
use ark_bls12_381::Fr;
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq;
use fri::hasher::{hash, hash_slice};
use fri::merkle_tree::{verify_merkle_proof, MerkleProof, MerkleTree};
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use sha2_fri::{Digest, Sha256, Sha384, Sha512};

macro_rules! small_field {
    ($cfg:ident, $name:ident, $p:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $p]
        #[generator = $g]
        pub struct $cfg;
        pub type $name = Fp64<MontBackend<$cfg, 1>>;
    };
}
small_field!(C17, F17, "17", "3");
small_field!(C97, F97, "97", "5");
small_field!(C193, F193, "193", "5");
small_field!(C257, F257, "257", "3");
small_field!(C12289, F12289, "12289", "11");

macro_rules! with_field {
    ($name:expr, $f:ident, $body:expr) => {
        match $name {
            "f17" => { type $f = F17; $body }
            "f97" => { type $f = F97; $body }
            "f193" => { type $f = F193; $body }
            "f257" => { type $f = F257; $body }
            "f12289" => { type $f = F12289; $body }
            "fr" => { type $f = Fr; $body }
            _ => { type $f = Fq; $body }
        }
    };
}
macro_rules! with_hash {
    ($name:expr, $t:ident, $body:expr) => {
        match $name {
            "sha512" => { type $t = Sha512; $body }
            "sha384" => { type $t = Sha384; $body }
            _ => { type $t = Sha256; $body }
        }
    };
}

fn head<F: PrimeField>(rec: &mut Rec) {
    rec.set("p", json!(dec(&{
        use ark_ff::BigInteger;
        F::MODULUS.to_bytes_be()
    })));
    rec.set("gen", fj(&F::GENERATOR));
    rec.set("two", json!(F::TWO_ADICITY));
    rec.set("big", json!(F::MODULUS_BIT_SIZE > 60));
}
fn group_gen<F: PrimeField>(n: usize) -> F {
    <GeneralEvaluationDomain<F>>::new(n).filter(|d| d.size() == n).map_or(F::zero(), |d| d.group_gen())
}

// ---------------------------------------------------------------- Merkle trees
fn tree_questions<F: PrimeField>(padded: &[F]) -> (Value, Value) {
    let mut level: Vec<F> = padded.iter().map(hash).collect();
    let lq: Vec<Value> = padded.iter().zip(&level).map(|(x, h)| json!([fj(x), fj(h)])).collect();
    let mut nq = vec![];
    while level.len() > 1 {
        let mut next = vec![];
        let mut qs = vec![];
        for c in level.chunks(2) {
            let h = hash_slice(c);
            qs.push(json!([fj(&c[0]), fj(&c[1]), fj(&h)]));
            next.push(h);
        }
        nq.push(json!(qs));
        level = next;
    }
    (json!(lq), json!(nq))
}
fn parts<F: PrimeField>(m: &MerkleProof<F>) -> Value {
    let (path, root) = m.verif_parts();
    json!({"index": m.index, "leaf": fj(&m.leaf_val), "path": fv(&path), "root": fj(&root)})
}
/// The questions put to the hash when climbing from a leaf.
fn climb<F: PrimeField>(index: usize, leaf: &F, path: &[F]) -> (F, Vec<Value>) {
    let h0 = hash(leaf);
    let (mut cur, mut j) = (h0, index);
    let mut q = vec![];
    for s in path {
        let (l, r) = if j % 2 == 0 { (cur, *s) } else { (*s, cur) };
        let h = hash_slice(&[l, r]);
        q.push(json!([fj(&l), fj(&r), fj(&h)]));
        cur = h;
        j /= 2;
    }
    (h0, q)
}
fn merkle_case<F: PrimeField>(rec: &mut Rec, leaves: &[F], alter: bool) {
    let r = guard(|| MerkleTree::new(leaves.to_vec()));
    let mut padded = leaves.to_vec();
    padded.resize(leaves.len().next_power_of_two(), F::zero());
    let (lq, nq) = tree_questions(&padded);
    rec.ev("tree", json!({"leaves": fv(leaves), "lq": lq, "nq": nq, "res": res(&r, |t| json!({"leaves": fv(&t.leaves), "root": fj(&t.root())}))}));
    let Ok(tree) = r else { return };
    let n = padded.len();
    let which: Vec<usize> = if n <= 64 { (0..n).collect() } else { vec![0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1, n / 3, leaves.len() - 1] };
    for i in which {
        let p = guard(|| tree.generate_proof(i));
        rec.ev("proof", json!({"i": i, "res": res(&p, parts)}));
        let Ok(p) = p else { continue };
        let (path, root) = p.verif_parts();
        let mut forms = vec![(i, p.leaf_val, path.clone(), root)];
        if alter && (n <= 16 || i % 7 == 0) {
            let one = F::one();
            forms.push((i, p.leaf_val + one, path.clone(), root));
            forms.push((i, F::zero(), path.clone(), root));
            forms.push((i, p.leaf_val, path.clone(), root + one));
            for k in 0..path.len() {
                forms.push((i ^ (1 << k), p.leaf_val, path.clone(), root));
                let mut q = path.clone();
                q[k] += one;
                forms.push((i, p.leaf_val, q, root));
                let mut q = path.clone();
                q.swap(k, (k + 1) % path.len());
                forms.push((i, p.leaf_val, q, root));
                // a proof for an inner node passed off as a leaf
                let mut j = i;
                let mut cur = hash(&p.leaf_val);
                for s in &path[..=k] {
                    cur = if j % 2 == 0 { hash_slice(&[cur, *s]) } else { hash_slice(&[*s, cur]) };
                    j /= 2;
                }
                forms.push((j, cur, path[k + 1..].to_vec(), root));
            }
            if !path.is_empty() {
                forms.push((i, p.leaf_val, path[..path.len() - 1].to_vec(), root));
                forms.push((i, p.leaf_val, path[1..].to_vec(), root));
                forms.push((i, p.leaf_val, path.iter().rev().cloned().collect(), root));
                forms.push((i, p.leaf_val, [path.clone(), vec![F::zero()]].concat(), root));
                forms.push((i, p.leaf_val, vec![], hash(&p.leaf_val)));
                forms.push((i, path[0], path.clone(), root));
            }
        }
        for (index, leaf, path, root) in forms {
            let m = MerkleProof::verif_from_parts(index, leaf, path.clone(), root);
            let v = guard(|| verify_merkle_proof(&m));
            let (h0, q) = climb(index, &leaf, &path);
            rec.ev("check", json!({"m": {"index": index, "leaf": fj(&leaf), "path": fv(&path), "root": fj(&root), "h0": fj(&h0), "q": q}, "res": res(&v, |b| json!(b))}));
        }
    }
    let p = guard(|| tree.generate_proof(n));
    rec.ev("proof", json!({"i": n, "res": res(&p, parts)}));
}
/// Inputs whose texts run into each other.
fn hash_case<F: PrimeField>(rec: &mut Rec) {
    let mut q = vec![];
    let f = |x: u64| F::from(x);
    let mut xs: Vec<F> = [0u64, 1, 2, 3, 10, 11, 12, 21, 23, 31, 100, 101, 110, 112, 121, 123, 211, 1 << 32, (1 << 32) + 1, 1234567890123].iter().map(|x| f(*x)).collect();
    xs.extend([-f(1), -f(2), -f(10), -f(1 << 32)]);
    // elements that differ in one part of their representation only
    for e in [8u64, 16, 31, 48, 63, 64, 96, 128, 160, 192, 224, 250] {
        if e < F::MODULUS_BIT_SIZE as u64 - 1 {
            let p = F::from(2u64).pow([e]);
            xs.extend([p, p + f(1)]);
        }
    }
    xs = xs.into_iter().fold(vec![], |mut v, x| {
        if !v.contains(&x) {
            v.push(x)
        }
        v
    });
    for x in &xs {
        q.push(json!({"k": 1, "a": fj(x), "b": "", "h": fj(&hash(x))}));
        for y in &xs {
            q.push(json!({"k": 2, "a": fj(x), "b": fj(y), "h": fj(&hash_slice(&[*x, *y]))}));
        }
    }
    rec.ev("hashes", json!({ "q": q }));
}

/// Hashes of so many different inputs that they would fall alike if they depended on too little of them.
fn hash_crowd<F: PrimeField>(rec: &mut Rec, n: u64) {
    let (mut one, mut two) = (std::collections::HashSet::new(), std::collections::HashSet::new());
    let step = F::from(0x9e37_79b9_7f4a_7c15u64);
    let mut x = F::zero();
    for i in 0..n {
        let v = if i % 2 == 0 { F::from(i) } else { x };
        one.insert(hash(&v));
        two.insert(hash_slice(&[F::from(i % 1000), F::from(i / 1000)]));
        x += step;
    }
    rec.ev("hashcrowd", json!({"n": n, "one": one.len(), "two": two.len()}));
}

// ---------------------------------------------------------------- honest proofs
fn coset_values<F: PrimeField>(coeffs: &[F], shift: F, w: F, n: usize) -> Vec<F> {
    let mut x = shift;
    (0..n)
        .map(|_| {
            let v = coeffs.iter().rev().fold(F::zero(), |a, c| a * x + c);
            x *= w;
            v
        })
        .collect()
}
fn fold<F: PrimeField>(c: &[F], r: F) -> Vec<F> {
    c.chunks(2).map(|p| p[0] + p.get(1).map_or(F::zero(), |o| r * o)).collect()
}
fn mp<F: PrimeField>(m: &MerkleProof<F>) -> Value {
    let (path, root) = m.verif_parts();
    let (h0, q) = climb(m.index, &m.leaf_val, &path);
    json!({"i": m.index.to_string(), "x": fj(&m.leaf_val), "path": fv(&path), "root": fj(&root), "h0": fj(&h0), "q": q})
}
fn dj<F: PrimeField>(d: &Decommitment<F>) -> Value {
    json!({"e": fv(&d.evaluations), "s": fv(&d.sym_evaluations),
           "ep": d.auth_paths.iter().map(mp).collect::<Vec<_>>(), "sp": d.sym_auth_paths.iter().map(mp).collect::<Vec<_>>()})
}
fn pj<F: PrimeField>(p: &Proof<F>) -> Value {
    let exists = p.domain_size.is_power_of_two();
    json!({"logn": if exists { p.domain_size.ilog2() as i64 } else { -1 }, "n": p.domain_size.to_string(),
           "w": if exists && p.domain_size.ilog2() <= F::TWO_ADICITY && p.domain_size < 1 << 20 { fj(&group_gen::<F>(p.domain_size)) } else { json!("0") },
           "coset": fj(&p.coset), "nq": p.number_of_queries.to_string(), "roots": fv(&p.layers_root), "c": fj(&p.const_val),
           "dl": p.decommitment_list.iter().map(dj).collect::<Vec<_>>()})
}
/// The real transcript, fed in the protocol's order.
fn oracle<T: Digest + Default + Clone, F: PrimeField>(roots: &[F], c: F, nq: usize) -> (Vec<F>, Vec<F>, Value) {
    let mut t = Transcript::<T, F>::new(F::zero());
    let mut fed = vec![F::zero()];
    let mut rs = vec![];
    for r in roots {
        t.digest(*r);
        fed.push(*r);
        rs.push(t.generate_a_challenge());
    }
    t.digest(c);
    fed.push(c);
    let cs = if nq <= 5000 { t.generate_challenges(nq) } else { vec![] };
    let v = json!({"fed": fv(&fed), "rs": fv(&rs), "cs": fv(&cs)});
    (rs, cs, v)
}
fn honest<T: Digest + Default + Clone, F: PrimeField>(rec: &mut Rec, coeffs: &[F], blowup: usize, nq: usize) -> Option<Proof<F>> {
    let poly = DensePolynomial::from_coefficients_vec(coeffs.to_vec());
    let trimmed = poly.coeffs.clone();
    let n = (trimmed.len() * blowup).next_power_of_two();
    let w = group_gen::<F>(n);
    let r = guard(|| generate_proof::<T, F>(poly, blowup, nq));
    rec.ev("start", json!({"f": fv(coeffs), "blowup": blowup, "w": fj(&w), "res": res(&r, |_| json!(true))}));
    let proof = r.ok()?;
    let mut t = Transcript::<T, F>::new(F::zero());
    let mut fed = vec![F::zero()];
    let (mut c, mut shift, mut wn, mut size) = (trimmed, F::GENERATOR, w, n);
    let mut i = 0;
    while size > 1 {
        let evals = coset_values(&c, shift, wn, size);
        let root = proof.layers_root.get(i).copied().unwrap_or_default();
        let treeroot = MerkleTree::new(evals.clone()).root();
        rec.ev("layer", json!({"root": fj(&root), "treeroot": fj(&treeroot), "evals": fv(&evals)}));
        t.digest(root);
        fed.push(root);
        let r = t.generate_a_challenge();
        rec.ev("challenge", json!({"fed": fv(&fed), "r": fj(&r)}));
        c = fold(&c, r);
        shift = shift.square();
        wn = wn.square();
        size /= 2;
        i += 1;
    }
    rec.ev("const", json!({"c": fj(&proof.const_val)}));
    t.digest(proof.const_val);
    fed.push(proof.const_val);
    let cs = t.generate_challenges(proof.number_of_queries.min(5000));
    rec.ev("positions", json!({"fed": fv(&fed), "cs": fv(&cs)}));
    for (k, d) in proof.decommitment_list.iter().enumerate().take(cs.len()) {
        rec.ev("query", json!({"k": k + 1, "d": dj(d)}));
    }
    let p = proof.clone();
    let v = guard(|| verify::<T, F>(p).is_ok());
    rec.ev("finish", json!({"n": proof.domain_size.to_string(), "coset": fj(&proof.coset), "nq": proof.number_of_queries.to_string(), "w": fj(&w),
        "nroots": proof.layers_root.len(), "ndl": proof.decommitment_list.len(), "asked": nq, "verdict": res(&v, |b| json!(b))}));
    Some(proof)
}

// ---------------------------------------------------------------- adversaries
fn judge<T: Digest + Default + Clone, F: PrimeField>(rec: &mut Rec, what: &str, props: &[&str], p: &Proof<F>) {
    let (_, _, orc) = oracle::<T, F>(&p.layers_root, p.const_val, p.number_of_queries);
    let q = p.clone();
    let v = guard(|| verify::<T, F>(q).is_ok());
    rec.ev("verify", json!({"what": what, "props": props, "pr": pj(p), "orc": orc, "verdict": res(&v, |b| json!(b))}));
}

#[derive(Clone, Default)]
struct Plan {
    alters: Vec<(usize, usize, u64, bool)>, // layer, position, delta, later layers follow
    constd: u64,
    variant: Vec<(String, usize, usize)>,
    fill: Option<u64>, // arbitrary first layer
    size: Option<usize>, // another domain than the polynomial's own
}
/// A prover that departs from the protocol as planned but is otherwise consistent.
fn forge<T: Digest + Default + Clone, F: PrimeField>(coeffs: &[F], blowup: usize, nq: usize, plan: &Plan) -> (Proof<F>, Vec<F>) {
    let poly = DensePolynomial::from_coefficients_vec(coeffs.to_vec());
    let n = plan.size.unwrap_or((poly.coeffs.len() * blowup).next_power_of_two());
    let w = group_gen::<F>(n);
    let has = |v: &str| plan.variant.iter().find(|x| x.0 == v);
    let mut vals = coset_values(&poly.coeffs, F::GENERATOR, w, n);
    if let Some(seed) = plan.fill {
        let mut rng = StdRng::seed_from_u64(seed);
        vals = (0..n).map(|_| F::rand(&mut rng)).collect();
    }
    let first = vals.clone();
    let nl = n.ilog2() as usize;
    let init = if has("init").is_some() { F::one() } else { F::zero() };
    let mut t = Transcript::<T, F>::new(init);
    let mut roots: Vec<F> = vec![];
    let mut trees = vec![];
    let mut committed = vec![];
    let (mut shift, mut wn) = (F::GENERATOR, w);
    let mut delayed: Option<F> = None;
    for i in 0..nl {
        let mut shown = vals.clone();
        for (l, pos, d, follow) in &plan.alters {
            if l % nl == i {
                let k = pos % shown.len();
                shown[k] += F::from(*d);
                if *follow {
                    vals[k] = shown[k];
                }
            }
        }
        let tree = MerkleTree::new(shown.clone());
        let root = tree.root();
        let skip = has("skiproot").map_or(false, |v| v.1 % nl == i);
        let swap = has("swaproots").map_or(false, |v| nl > 1 && v.1 % (nl - 1) == i);
        if swap {
            // this root is only fed after the next one
            delayed = Some(root);
            t.digest(F::from(99u64));
        } else if skip {
            t.digest(F::zero());
        } else {
            t.digest(root);
            if let Some(d) = delayed.take() {
                t.digest(d);
            }
        }
        let r = t.generate_a_challenge();
        roots.push(root);
        trees.push(tree);
        committed.push(shown);
        let m = vals.len() / 2;
        let mut x = shift;
        let two_inv = F::from(2u64).inverse().unwrap();
        let mut next = vec![];
        for j in 0..m {
            let (e, s) = (vals[j], vals[j + m]);
            next.push((e + s) * two_inv + r * (e - s) * two_inv * x.inverse().unwrap());
            x *= wn;
        }
        vals = next;
        shift = shift.square();
        wn = wn.square();
    }
    let c = vals[0] + F::from(plan.constd);
    if has("early").is_some() {
        t.digest(F::from(7u64));
    } else if has("skipconst").is_some() {
        t.digest(F::zero());
    } else {
        t.digest(c);
    }
    let pos: Vec<usize> = t.generate_challenge_list_usize(nq).into_iter().map(|v| v % n).collect();
    let dl = pos
        .iter()
        .map(|q| {
            let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
            for i in 0..nl {
                let sz = committed[i].len();
                let (a, b) = (q % sz, (q % sz + sz / 2) % sz);
                d.evaluations.push(committed[i][a]);
                d.sym_evaluations.push(committed[i][b]);
                d.auth_paths.push(trees[i].generate_proof(a));
                d.sym_auth_paths.push(trees[i].generate_proof(b));
            }
            d
        })
        .collect();
    (Proof { domain_size: n, coset: F::GENERATOR, number_of_queries: nq, layers_root: roots, const_val: c, decommitment_list: dl }, first)
}
/// A forger whose claims fit together except in one respect.  `claims` are values for every layer that fold into each
/// other; at layer k the tree is another one in its lower half (or, for "fold", the next layer is off by delta).
/// How: "plain": the claimed value with the tree's own path to another value; "leaf": the path's leaf changed to the claim;
/// "root": and the path's root to where this leads; "tree": path and root of a tree of the claims; "near", "near-as": the
/// path of the neighbour, where the tree has the claim, under its own or the right position.
/// Style: 0 random claims, 1 claims of zero, 2 zero in the tree, 3 a constant.
fn cheat<T: Digest + Default + Clone, F: PrimeField>(nl: usize, k: usize, how: &str, style: u64, nq: usize, rng: &mut StdRng) -> Proof<F> {
    let n = 1usize << nl;
    let m = n >> k;
    let delta = F::from(rng.gen_range(1..5u64));
    // layer k; the ones before it take the same values twice, whatever they are folded with
    let claim: Vec<F> = match style {
        1 => vec![F::zero(); m],
        3 => vec![delta; m],
        _ => (0..m).map(|_| F::rand(rng)).collect(),
    };
    let tree_k: Vec<F> = (0..m).map(|j| match how {
        "near" | "near-as" => claim[j ^ 1],
        "fold" => claim[j],
        _ if j >= m / 2 => claim[j],
        _ if style == 2 => F::zero(),
        _ => claim[j] + delta,
    }).collect();
    let mut t = Transcript::<T, F>::new(F::zero());
    let (mut shift, mut wn) = (F::GENERATOR, group_gen::<F>(n));
    let (mut roots, mut trees, mut claims, mut shown) = (vec![], vec![], vec![], vec![]);
    let mut vals: Vec<F> = (0..n).map(|j| claim[j % m]).collect();
    for i in 0..nl {
        let show = if i == k { tree_k.clone() } else { vals.clone() };
        let tree = MerkleTree::new(show.clone());
        let root = tree.root();
        t.digest(root);
        let r = t.generate_a_challenge();
        roots.push(root);
        trees.push(tree);
        shown.push(show);
        let half = vals.len() / 2;
        let mut x = shift;
        let two_inv = F::from(2u64).inverse().unwrap();
        let mut next = vec![];
        for j in 0..half {
            let (e, s) = (vals[j], vals[j + half]);
            let off = match how {
                // a constant that is claimed to be zero
                "fold" if i == k && style == 3 => -delta,
                "fold" if i == k => delta,
                _ => F::zero(),
            };
            next.push((e + s) * two_inv + r * (e - s) * two_inv * x.inverse().unwrap() + off);
            x *= wn;
        }
        claims.push(vals);
        vals = next;
        shift = shift.square();
        wn = wn.square();
    }
    let c = vals[0];
    t.digest(c);
    let pos: Vec<usize> = t.generate_challenge_list_usize(nq).into_iter().map(|v| v % n).collect();
    let up = |x: &F, index: usize, path: &[F]| {
        let (mut cur, mut j) = (hash(x), index);
        for s in path {
            cur = if j % 2 == 0 { hash_slice(&[cur, *s]) } else { hash_slice(&[*s, cur]) };
            j /= 2;
        }
        cur
    };
    let claimed_tree = MerkleTree::new(claims[k].clone());
    let path = |i: usize, at: usize| {
        let own = trees[i].generate_proof(at);
        if i != k || (claims[i][at] == shown[i][at] && how != "near" && how != "near-as") {
            return own;
        }
        let want = claims[i][at];
        match how {
            "leaf" => rebuilt(&own, |_, x, _, _| *x = want),
            "root" => rebuilt(&own, |j, x, p, r| {
                *x = want;
                *r = up(x, *j, p);
            }),
            "tree" => claimed_tree.generate_proof(at),
            "near" => trees[i].generate_proof(at ^ 1),
            "near-as" => rebuilt(&trees[i].generate_proof(at ^ 1), |j, _, _, _| *j = at),
            _ => own,
        }
    };
    let dl = pos
        .iter()
        .map(|q| {
            let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
            for i in 0..nl {
                let sz = claims[i].len();
                let (a, b) = (q % sz, (q % sz + sz / 2) % sz);
                d.evaluations.push(claims[i][a]);
                d.sym_evaluations.push(claims[i][b]);
                d.auth_paths.push(path(i, a));
                d.sym_auth_paths.push(path(i, b));
            }
            d
        })
        .collect();
    Proof { domain_size: n, coset: F::GENERATOR, number_of_queries: nq, layers_root: roots, const_val: c, decommitment_list: dl }
}
fn rebuilt<F: PrimeField>(m: &MerkleProof<F>, f: impl FnOnce(&mut usize, &mut F, &mut Vec<F>, &mut F)) -> MerkleProof<F> {
    let (mut path, mut root) = m.verif_parts();
    let (mut i, mut x) = (m.index, m.leaf_val);
    f(&mut i, &mut x, &mut path, &mut root);
    MerkleProof::verif_from_parts(i, x, path, root)
}
fn shortest<F: PrimeField>(d: &Decommitment<F>) -> usize {
    d.evaluations.len().min(d.auth_paths.len()).min(d.sym_evaluations.len()).min(d.sym_auth_paths.len())
}
/// One change of a finished proof; a, b, c, d choose where.
fn change<F: PrimeField>(p: &mut Proof<F>, other: &Proof<F>, m: &str, a: usize, b: usize, c: usize, d: u64) {
    let delta = F::from(d);
    let nl = p.layers_root.len();
    let nd = p.decommitment_list.len();
    match m {
        "const" => p.const_val += delta,
        "root" if nl > 0 => p.layers_root[a % nl] += delta,
        "nq" => p.number_of_queries = [nd + 1, nd.saturating_sub(1), 0, nd + 7, 1 << 20][a % 5],
        "hugenq" => p.number_of_queries = [usize::MAX, usize::MAX / 2, 1 << 60, 1 << 40, 1 << 33][a % 5],
        "domain" => p.domain_size = [p.domain_size * 2, p.domain_size / 2, 0, 1, p.domain_size + 1, 3, usize::MAX, 1 << 63, 1 << 33, 1 << 32, 6, 1 << 20][a % 12],
        "coset" => p.coset = [F::zero(), p.coset.square(), F::one(), p.coset + delta, -p.coset][a % 5],
        "droplayer" if nl > 0 => {
            p.layers_root.remove(a % nl);
            if b % 2 == 0 {
                let k = a % nl;
                for x in p.decommitment_list.iter_mut().filter(|x| shortest(x) > k) {
                    x.evaluations.remove(k);
                    x.sym_evaluations.remove(k);
                    x.auth_paths.remove(k);
                    x.sym_auth_paths.remove(k);
                }
            }
            if c % 2 == 0 {
                p.domain_size /= 2;
            }
        }
        "dupllayer" if nl > 0 => {
            let r = p.layers_root[a % nl];
            p.layers_root.insert(a % nl, r);
            if b % 2 == 0 {
                let k = a % nl;
                for x in p.decommitment_list.iter_mut().filter(|x| shortest(x) > k) {
                    x.evaluations.insert(k, x.evaluations[k]);
                    x.sym_evaluations.insert(k, x.sym_evaluations[k]);
                    x.auth_paths.insert(k, x.auth_paths[k].clone());
                    x.sym_auth_paths.insert(k, x.sym_auth_paths[k].clone());
                }
            }
        }
        "dropq" if nd > 0 => {
            p.decommitment_list.remove(a % nd);
            if b % 2 == 0 {
                p.number_of_queries -= 1;
            }
        }
        "dupq" if nd > 0 => {
            let x = p.decommitment_list[a % nd].clone();
            p.decommitment_list.insert(b % nd, x);
            if c % 2 == 0 {
                p.number_of_queries += 1;
            }
        }
        "swapq" if nd > 0 => p.decommitment_list.swap(a % nd, b % nd),
        "dropqs" => p.decommitment_list.clear(),
        "foreign" => {
            p.decommitment_list = other.decommitment_list.clone();
            if a % 2 == 0 {
                p.number_of_queries = other.number_of_queries;
            }
            if b % 3 == 0 {
                p.layers_root = other.layers_root.clone();
            }
        }
        "crossquery" if nd > 1 => p.decommitment_list[a % nd] = p.decommitment_list[b % nd].clone(),
        _ if nd > 0 => {
            let dn = p.decommitment_list.len();
            let dd = &mut p.decommitment_list[a % dn];
            match m {
                "evalpop" => {
                    dd.evaluations.pop();
                }
                "sympop" => {
                    dd.sym_evaluations.pop();
                }
                "apop" => {
                    dd.auth_paths.pop();
                }
                "spop" => {
                    dd.sym_auth_paths.pop();
                }
                "evalpush" => dd.evaluations.push(delta),
                "sympush" => dd.sym_evaluations.push(delta),
                _ => {}
            }
            let n = shortest(dd);
            if n == 0 {
                return;
            }
            let k = b % n;
            let sym = c % 2 == 1;
            let od = other.decommitment_list.get(a % other.decommitment_list.len().max(1));
            let path = if sym { &mut dd.sym_auth_paths[k] } else { &mut dd.auth_paths[k] };
            match m {
                "leaf" | "both" => *path = rebuilt(path, |_, x, _, _| *x += delta),
                "index" => *path = rebuilt(path, |i, _, p, _| *i = match c / 2 % 4 {
                    0 => *i ^ 1,
                    1 => *i + (1 << p.len()),
                    2 => usize::MAX,
                    _ => *i + 1,
                }),
                "sib" => *path = rebuilt(path, |_, _, p, _| if !p.is_empty() {
                    let j = (c / 2) % p.len();
                    p[j] += delta
                }),
                "proot" => *path = rebuilt(path, |_, _, _, r| *r += delta),
                "pathpop" => *path = rebuilt(path, |i, x, p, r| {
                    p.pop();
                    if c / 2 % 2 == 0 {
                        // consistent with a smaller tree
                        let mut cur = hash(x);
                        let mut j = *i;
                        for s in p.iter() {
                            cur = if j % 2 == 0 { hash_slice(&[cur, *s]) } else { hash_slice(&[*s, cur]) };
                            j /= 2;
                        }
                        *r = cur;
                    }
                }),
                "pathpush" => *path = rebuilt(path, |i, x, p, r| {
                    p.push(delta);
                    if c / 2 % 2 == 0 {
                        let mut cur = hash(x);
                        let mut j = *i;
                        for s in p.iter() {
                            cur = if j % 2 == 0 { hash_slice(&[cur, *s]) } else { hash_slice(&[*s, cur]) };
                            j /= 2;
                        }
                        *r = cur;
                    }
                }),
                // a path to this leaf in a tree of the forger's making
                "foreigntree" => *path = rebuilt(path, |i, x, p, r| {
                    if c / 2 % 2 == 0 {
                        *x += delta;
                    }
                    let mut cur = hash(x);
                    let mut j = *i;
                    for s in p.iter_mut() {
                        *s += F::one();
                        cur = if j % 2 == 0 { hash_slice(&[cur, *s]) } else { hash_slice(&[*s, cur]) };
                        j /= 2;
                    }
                    *r = cur;
                }),
                "swapsides" => {
                    let (x, y) = (dd.evaluations[k], dd.sym_evaluations[k]);
                    dd.evaluations[k] = y;
                    dd.sym_evaluations[k] = x;
                    if d % 2 == 0 {
                        let t = dd.auth_paths[k].clone();
                        dd.auth_paths[k] = dd.sym_auth_paths[k].clone();
                        dd.sym_auth_paths[k] = t;
                    }
                }
                "crosslayer" => {
                    let j = (c / 2) % n;
                    dd.auth_paths[k] = dd.auth_paths[j].clone();
                    if d % 2 == 0 {
                        dd.evaluations[k] = dd.evaluations[j];
                    }
                }
                "foreignpath" => {
                    if let Some(o) = od {
                        if let Some(x) = o.auth_paths.get(k).filter(|_| o.evaluations.len() > k) {
                            dd.auth_paths[k] = x.clone();
                            dd.evaluations[k] = o.evaluations[k];
                        }
                    }
                }
                "foreignroot" => {
                    if let Some(o) = od {
                        if let Some(x) = o.auth_paths.get(k) {
                            let r = x.verif_parts().1;
                            *path = rebuilt(path, |_, _, _, root| *root = r);
                        }
                    }
                }
                _ => {}
            }
            match (m, sym) {
                ("eval", false) | ("both", false) => dd.evaluations[k] += delta,
                ("eval", true) | ("both", true) => dd.sym_evaluations[k] += delta,
                ("foreigntree", false) if c / 2 % 2 == 0 => dd.evaluations[k] += delta,
                ("foreigntree", true) if c / 2 % 2 == 0 => dd.sym_evaluations[k] += delta,
                _ => {}
            }
        }
        _ => {}
    }
}
const SHAPE: [&str; 14] = ["nq", "hugenq", "domain", "coset", "droplayer", "dupllayer", "dropq", "dupq", "dropqs", "evalpop", "sympop", "apop", "spop", "evalpush"];
const CONTENT: [&str; 18] = ["const", "root", "eval", "leaf", "both", "index", "sib", "proot", "pathpop", "pathpush", "swapsides", "swapq", "crosslayer", "crossquery", "foreignpath", "foreignroot", "foreigntree", "foreign"];

fn coeffs<F: PrimeField>(rng: &mut StdRng, n: usize) -> Vec<F> {
    let style = rng.gen_range(0..4);
    (0..n).map(|i| match style {
        0 => F::from(rng.gen_range(0..3u64)),
        1 if i % 2 == 0 => F::zero(),
        2 if i + 1 < n => F::zero(),
        _ => F::rand(rng),
    }).collect()
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let all_fields = ["f17", "f97", "f193", "f257", "f12289", "gold", "fr"];
    let seed = cfg.seed;
    if cfg.is(&["F02"]) {
        let top = cfg.n(20, 70);
        for field in ["gold", "fr", "f17", "f257"] {
            for len in 0..=top {
                if len > 9 && !cfg.thorough && field != "gold" && len != 16 && len != 17 {
                    continue;
                }
                scen(&mut out, "trees", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    let mut rng = StdRng::seed_from_u64(seed * 1000 + len as u64);
                    let leaves: Vec<F> = (0..len).map(|i| if i % 5 == 4 { F::zero() } else { sfr(&mut rng) }).collect();
                    merkle_case::<F>(rec, &leaves, true);
                }));
            }
        }
        for len in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200].into_iter().chain(cfg.thorough.then_some([255, 256, 257, 300, 511, 512, 513, 1000]).into_iter().flatten()) {
            scen(&mut out, "big-trees", move |rec| {
                head::<Fq>(rec);
                let mut rng = StdRng::seed_from_u64(seed * 77 + len as u64);
                let leaves: Vec<Fq> = (0..len).map(|_| sfr(&mut rng)).collect();
                merkle_case::<Fq>(rec, &leaves, true);
            });
        }
        // trees that are nearly the same
        for field in ["gold", "fr"] {
            scen(&mut out, "near-trees", move |rec| with_field!(field, F, {
                head::<F>(rec);
                let f = |x: u64| F::from(x);
                for leaves in [vec![f(1), f(2), f(3), f(4)], vec![f(1), f(2), f(4), f(3)], vec![f(2), f(1), f(3), f(4)], vec![f(1), f(2), f(3)], vec![f(1), f(2)], vec![f(1), f(2), f(0)], vec![f(1)], vec![f(12), f(34)], vec![f(1), f(234)], vec![f(3), f(4), f(1), f(2)]] {
                    merkle_case::<F>(rec, &leaves, false);
                }
            }));
            scen(&mut out, "hashes", move |rec| with_field!(field, F, {
                head::<F>(rec);
                hash_case::<F>(rec)
            }));
            let n = cfg.n(250_000, 1_000_000) as u64;
            scen(&mut out, "hashes of many", move |rec| with_field!(field, F, {
                head::<F>(rec);
                hash_crowd::<F>(rec, n)
            }));
        }
    }
    if cfg.is(&["F01", "F03", "F05"]) {
        let mut k = 0u64;
        for field in all_fields {
            for len in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64] {
                for blowup in [1usize, 2, 3, 4, 8] {
                    k += 1;
                    let n = (len * blowup).next_power_of_two();
                    let max = match field { "f17" => 16, "f97" => 32, "f193" => 64, "f257" => 256, _ => 256 };
                    if n > max || (!cfg.thorough && (k + seed) % 4 != 0 && len > 2) || (!cfg.thorough && n > 64) {
                        continue;
                    }
                    scen(&mut out, "honest", move |rec| with_field!(field, F, with_hash!(["sha256", "sha512", "sha384"][(k % 3) as usize], T, {
                        head::<F>(rec);
                        let mut rng = StdRng::seed_from_u64(seed * 31 + k);
                        let c = coeffs::<F>(&mut rng, len);
                        let nq = [0, 1, 2, 3, 5, 8][rng.gen_range(0..6)];
                        honest::<T, F>(rec, &c, blowup, nq);
                    })));
                }
            }
        }
        // the zero polynomial and constants, on domains where positions tell
        for field in all_fields {
            for (c, blowup) in [(None, 8usize), (Some(0u64), 4), (Some(5), 8), (Some(1), 16)] {
                scen(&mut out, "constants", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    let f: Vec<F> = c.into_iter().map(F::from).collect();
                    honest::<Sha256, F>(rec, &f, blowup, 9);
                    // several coefficients, of which all but the first are zero
                    if c.is_some() {
                        honest::<Sha384, F>(rec, &[f, vec![F::zero(); 3]].concat(), blowup, 5);
                    }
                }));
            }
        }
        // many queries, large domains
        for (field, len, blowup, nq) in [("f17", 8usize, 2usize, 40usize), ("gold", 4, 2, 60), ("f257", 60, 4, 20), ("gold", 100, 2, 3), ("gold", 128, 4, 2)].into_iter()
            .chain(cfg.thorough.then_some([("gold", 500usize, 2usize, 2usize), ("f12289", 512, 4, 3), ("fr", 256, 4, 3), ("f12289", 1024, 4, 1), ("gold", 3, 2, 200)]).into_iter().flatten()) {
            scen(&mut out, "large", move |rec| with_field!(field, F, {
                head::<F>(rec);
                let mut rng = StdRng::seed_from_u64(seed * 131 + len as u64);
                let c: Vec<F> = (0..len).map(|_| F::rand(&mut rng)).collect();
                honest::<Sha256, F>(rec, &c, blowup, nq);
            }));
        }
    }
    if cfg.is(&["F04", "F05", "F06"]) {
        for s in cfg.scripts.iter().cloned() {
            scen(&mut out, "generated", move |rec| {
                let b = &s["base"];
                let u = |v: &Value| v.as_u64().unwrap() as usize;
                with_field!(b["field"].as_str().unwrap(), F, with_hash!(b["hash"].as_str().unwrap(), T, {
                    head::<F>(rec);
                    let f: Vec<F> = b["f"].as_array().unwrap().iter().map(|x| F::from(x.as_u64().unwrap())).collect();
                    let blowup = u(&b["blowup"]);
                    let plans: Vec<&Value> = s["hist"].as_array().unwrap().iter().filter(|e| e["op"] == "plan").collect();
                    let mut plan = Plan::default();
                    let mut other_hash = false;
                    for e in plans {
                        let m = e["m"].as_str().unwrap();
                        match m {
                            "alter" | "alterfollow" => plan.alters.push((u(&e["a"]), u(&e["b"]), u(&e["d"]) as u64, m == "alterfollow")),
                            "const" => plan.constd = u(&e["d"]) as u64,
                            "otherhash" => other_hash = true,
                            _ => plan.variant.push((m.to_string(), u(&e["a"]), u(&e["b"]))),
                        }
                    }
                    let (f, blowup) = if (f.len() + 1) * blowup * 2 > 1 << F::TWO_ADICITY.min(20) { (f[..f.len().min(3)].to_vec(), 2) } else { (f, blowup) };
                    if f.len() * blowup < 2 {
                        plan.alters.clear();
                        plan.variant.clear();
                    }
                    let (mut p, _) = if other_hash { forge::<Sha384, F>(&f, blowup, u(&b["nq"]), &plan) } else { forge::<T, F>(&f, blowup, u(&b["nq"]), &plan) };
                    let mut g = f.clone();
                    g.push(F::one());
                    let (other, _) = forge::<T, F>(&g, blowup, u(&b["nq"]) + 1, &Plan::default());
                    let props: Vec<&str> = if other_hash || !plan.variant.is_empty() { vec!["F05"] } else { vec![] };
                    judge::<T, F>(rec, "planned", &props, &p);
                    for e in s["hist"].as_array().unwrap().iter().filter(|e| e["op"] == "move") {
                        let m = e["m"].as_str().unwrap();
                        change(&mut p, &other, m, u(&e["a"]), u(&e["b"]), u(&e["c"]), u(&e["d"]) as u64);
                        judge::<T, F>(rec, m, &props, &p);
                    }
                }))
            });
        }
    }
    if cfg.is(&["F04", "F06"]) {
        // every kind of change in every place of an honest proof
        let shape_only = cfg.prop == "F06";
        for (field, len, blowup, nq) in [("gold", 4usize, 2usize, 3usize), ("fr", 3, 1, 2), ("f257", 5, 2, 4), ("f17", 4, 4, 2), ("gold", 1, 2, 2), ("gold", 2, 1, 1), ("gold", 0, 2, 2)] {
            for m in SHAPE.into_iter().chain(CONTENT) {
                if shape_only && CONTENT.contains(&m) && m != "index" && m != "pathpop" && m != "pathpush" {
                    continue;
                }
                let thorough = cfg.thorough;
                scen(&mut out, "one-change", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    let mut rng = StdRng::seed_from_u64(seed * 17 + len as u64);
                    let f: Vec<F> = (0..len).map(|_| F::from(rng.gen_range(1..17u64))).collect();
                    let (p, _) = forge::<Sha256, F>(&f, blowup, nq, &Plan::default());
                    let (other, _) = forge::<Sha256, F>(&f.iter().map(|x| *x + F::one()).collect::<Vec<_>>(), blowup, nq, &Plan::default());
                    judge::<Sha256, F>(rec, "honest", &[], &p);
                    if !p.domain_size.is_power_of_two() {
                        return;
                    }
                    let nl = p.layers_root.len().max(1);
                    let whole = ["const", "nq", "hugenq", "domain", "coset", "dropqs"].contains(&m);
                    let (an, bn, cn) = match m {
                        "const" | "dropqs" => (1, 1, 1),
                        "domain" => (12, 1, 1),
                        "nq" | "hugenq" | "coset" => (5, 1, 1),
                        "root" => (nl, 1, 1),
                        "droplayer" | "dupllayer" => (nl, 2, 2),
                        "swapq" | "crossquery" | "dupq" => (nq, nq, 2),
                        "dropq" => (nq, 2, 1),
                        "foreign" => (2, 3, 1),
                        "evalpop" | "sympop" | "apop" | "spop" | "evalpush" => (nq, 1, 1),
                        "sib" | "crosslayer" => (nq, nl, 2 * nl),
                        "index" => (nq, nl, 8),
                        "pathpop" | "pathpush" | "foreigntree" => (nq, nl, 4),
                        _ => (nq, nl, 2),
                    };
                    let _ = whole;
                    for a in 0..an {
                        for b in 0..bn {
                            for c in 0..cn {
                                // in quick runs a sample of the deeper places
                                if !thorough && a * bn * cn + b * cn + c > 16 && (a + b + c) % 3 != 0 {
                                    continue;
                                }
                                let mut q = p.clone();
                                change(&mut q, &other, m, a, b, c, 1 + (a + b + c) as u64 % 3);
                                judge::<Sha256, F>(rec, m, &[], &q);
                            }
                        }
                    }
                }));
            }
        }
        if cfg.is(&["F04"]) {
            // everything fits but one thing, seen by a single query (or by some of many)
            for (field, nl) in [("gold", 1usize), ("gold", 2), ("gold", 4), ("fr", 3), ("f257", 5), ("f97", 3)].into_iter().chain(cfg.thorough.then_some([("gold", 7usize), ("f12289", 9), ("f17", 4)]).into_iter().flatten()) {
                for k in 0..nl {
                    for how in ["plain", "leaf", "root", "tree", "near", "near-as", "fold"] {
                        let rounds = cfg.n(3, 12) as u64;
                        scen(&mut out, "one-lie", move |rec| with_field!(field, F, {
                            head::<F>(rec);
                            let mut rng = StdRng::seed_from_u64(seed * 23 + (nl * 64 + k * 8) as u64);
                            for round in 0..rounds {
                                for style in 0..4 {
                                    if style == 1 && how != "plain" && how != "leaf" && round > 0 {
                                        continue;
                                    }
                                    let nq = if round % 6 == 5 { 12 } else { 1 };
                                    let p = cheat::<Sha256, F>(nl, k, how, style, nq, &mut rng);
                                    judge::<Sha256, F>(rec, how, &[], &p);
                                }
                            }
                        }));
                    }
                }
            }
        }
        // domains the field does not have
        for (field, top) in [("f17", 4usize), ("f97", 5), ("f257", 8), ("gold", 32), ("fr", 32)] {
            for extra in [1usize, 2, 8, 31] {
                if top + extra > 63 {
                    continue;
                }
                scen(&mut out, "no-domain", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    for nq in [0usize, 1, 2] {
                        let (mut p, _) = forge::<Sha256, F>(&[F::one()], 2, nq, &Plan::default());
                        let want = top + extra;
                        p.domain_size = 1 << want;
                        while p.layers_root.len() < want {
                            p.layers_root.insert(0, p.layers_root[0]);
                            for d in p.decommitment_list.iter_mut() {
                                d.evaluations.insert(0, d.evaluations[0]);
                                d.sym_evaluations.insert(0, d.sym_evaluations[0]);
                                d.auth_paths.insert(0, d.auth_paths[0].clone());
                                d.sym_auth_paths.insert(0, d.sym_auth_paths[0].clone());
                            }
                        }
                        judge::<Sha256, F>(rec, "no-domain", &[], &p);
                    }
                }));
            }
        }
        // many queries, some for the same position, one of them altered
        for (field, nq) in [("f17", 24usize), ("gold", 40)] {
            for m in ["eval", "leaf", "both", "sib", "index", "proot", "swapq", "crossquery", "foreigntree"] {
                if shape_only && m != "index" {
                    continue;
                }
                scen(&mut out, "many-queries", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    let mut rng = StdRng::seed_from_u64(seed * 19);
                    let f: Vec<F> = (0..4).map(|_| F::from(rng.gen_range(1..17u64))).collect();
                    let (p, _) = forge::<Sha256, F>(&f, 2, nq, &Plan::default());
                    let (other, _) = forge::<Sha256, F>(&f.iter().map(|x| *x + F::one()).collect::<Vec<_>>(), 2, nq, &Plan::default());
                    judge::<Sha256, F>(rec, "honest", &[], &p);
                    for a in [0, 1, nq / 2, 15, 16, 17, nq - 2, nq - 1] {
                        let mut q = p.clone();
                        change(&mut q, &other, m, a, (a + nq / 3) % nq, rng.gen_range(0..8), 1 + (a % 3) as u64);
                        judge::<Sha256, F>(rec, m, &[], &q);
                    }
                }));
            }
        }
        // committed functions that are not polynomials of low degree (known finding of F04)
        if cfg.is(&["F04"]) {
            scen(&mut out, "arbitrary-function", move |rec| {
                head::<Fq>(rec);
                for k in 0..4u64 {
                    let (p, vals) = forge::<Sha256, Fq>(&[Fq::from(1u64); 4], 2, 8, &Plan { fill: Some(k), ..Default::default() });
                    let v = guard(|| verify::<Sha256, Fq>(p.clone()).is_ok());
                    rec.ev("arbitrary", json!({"values": fv(&vals), "w": fj(&group_gen::<Fq>(8)), "verdict": res(&v, |b| json!(b))}));
                    judge::<Sha256, Fq>(rec, "arbitrary", &[], &p);
                }
            });
        }
    }
    if cfg.is(&["F04", "F05"]) {
        // cheats that only some queries can see, and transcripts that leave something out
        for field in ["gold", "f257", "f193", "fr"] {
            for (k, variant) in ["", "skiproot", "skipconst", "swaproots", "init", "early"].into_iter().enumerate() {
                scen(&mut out, "planned", move |rec| with_field!(field, F, {
                    head::<F>(rec);
                    let mut rng = StdRng::seed_from_u64(seed * 5 + k as u64);
                    let f: Vec<F> = (0..4).map(|_| F::from(rng.gen_range(1..17u64))).collect();
                    for l in 0..3 {
                        let mut plan = Plan::default();
                        if variant.is_empty() {
                            for pos in 0..8 {
                                for follow in [false, true] {
                                    let plan = Plan { alters: vec![(l, pos, 1, follow)], ..Default::default() };
                                    let (p, _) = forge::<Sha256, F>(&f, 2, 4, &plan);
                                    judge::<Sha256, F>(rec, "alter", &[], &p);
                                }
                            }
                            plan.constd = 1 + l as u64;
                        } else {
                            plan.variant.push((variant.into(), l, 0));
                        }
                        let (p, _) = forge::<Sha256, F>(&f, 2, 4, &plan);
                        judge::<Sha256, F>(rec, variant, if variant.is_empty() { &[] } else { &["F05"] }, &p);
                    }
                }));
            }
            // claims of zero, whose constant is zero though the layers say otherwise: what is committed is bound all the same
            scen(&mut out, "zero-claims", move |rec| with_field!(field, F, {
                head::<F>(rec);
                let mut rng = StdRng::seed_from_u64(seed * 29);
                for nl in [1usize, 3, 5] {
                    for style in [1u64, 3] {
                        for how in ["plain", "leaf", "fold"] {
                            let p = cheat::<Sha256, F>(nl, nl - 1, how, style, 2, &mut rng);
                            judge::<Sha256, F>(rec, how, &[], &p);
                        }
                    }
                    let (p, _) = forge::<Sha256, F>(&[], 1, 6, &Plan { size: Some(1 << nl), ..Default::default() });
                    judge::<Sha256, F>(rec, "zero", &["F05"], &p);
                }
            }));
            // made for one hash, judged under another
            scen(&mut out, "otherhash", move |rec| with_field!(field, F, {
                head::<F>(rec);
                let f: Vec<F> = (1..5u64).map(F::from).collect();
                let (p, _) = forge::<Sha512, F>(&f, 2, 4, &Plan::default());
                judge::<Sha256, F>(rec, "otherhash", &["F05"], &p);
                judge::<Sha512, F>(rec, "samehash", &["F05"], &p);
                let (p, _) = forge::<Sha256, F>(&f, 2, 4, &Plan::default());
                judge::<Sha512, F>(rec, "otherhash", &["F05"], &p);
                judge::<Sha384, F>(rec, "otherhash", &["F05"], &p);
            }));
        }
    }
    out
}
