//! Relaxed R1CS pairs, folds and folding proofs of the nova crate. The setup's secret is known to the recorder.
use crate::common::*;
use crate::plonk_d::HASHES;
use crate::with_hash;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use sha2::Digest;
use std::ops::Mul;

pub type Pair = (FInstance, FWitness);

pub fn gmul(k: Fr) -> G1Affine {
    G1Affine::generator().mul(k).into_affine()
}
/// What a vector's commitment is, without the code under test.
pub fn com(s: Fr, v: &[Fr]) -> KzgCommitment {
    KzgCommitment(gmul(v.iter().rev().fold(Fr::zero(), |a, x| a * s + x)))
}
pub fn shift(c: &KzgCommitment, d: Fr) -> KzgCommitment {
    KzgCommitment((c.0 + gmul(d)).into_affine())
}
pub fn fi_j(fi: &FInstance) -> Value {
    json!({"ce": g1(&fi.com_e.0), "u": fj(&fi.u), "cw": g1(&fi.com_w.0), "x": fv(&fi.x)})
}
pub fn fw_j(fw: &FWitness) -> Value {
    json!({"e": fv(&fw.e), "w": fv(&fw.w)})
}
fn pair_j(p: &Pair) -> Value {
    json!({"fi": fi_j(&p.0), "fw": fw_j(&p.1)})
}
fn open_j(o: &KzgOpening) -> Value {
    json!({"w": g1(&o.0), "y": fj(&o.1)})
}
pub fn proof_j(p: &NIFSProof) -> Value {
    json!({"r": fj(&p.r), "point": fj(&p.opening_point), "ow": open_j(&p.opening_w), "oe": open_j(&p.opening_e)})
}

/// What is fed to a transcript.
#[derive(Clone)]
pub enum Item {
    G(KzgCommitment),
    S(Fr),
}
pub fn items_j(v: &[Item]) -> Value {
    Value::Array(v.iter().map(|i| match i {
        Item::G(c) => json!(["g", g1(&c.0)]),
        Item::S(x) => json!(["s", fj(x)]),
    }).collect())
}
pub fn feed<T: Digest + Default>(tr: &mut Transcript<T>, v: &[Item]) {
    for i in v {
        match i {
            Item::G(c) => tr.feed(c),
            Item::S(x) => tr.feed_scalar_num(*x),
        }
    }
}
pub fn instance_items(fi: &FInstance) -> Vec<Item> {
    let mut v = vec![Item::G(fi.com_e.clone()), Item::S(fi.u), Item::G(fi.com_w.clone())];
    v.extend(fi.x.iter().map(|x| Item::S(*x)));
    v
}
pub fn challenge_items(a: &FInstance, b: &FInstance, ct: &KzgCommitment) -> Vec<Item> {
    let mut v = instance_items(a);
    v.extend(instance_items(b));
    v.push(Item::G(ct.clone()));
    v
}
pub fn point_items(fi: &FInstance) -> Vec<Item> {
    vec![Item::G(fi.com_e.clone()), Item::G(fi.com_w.clone())]
}
/// The transcript's answers: after `fed`, and after `fed2` besides.
pub fn oracle<T: Digest + Default>(fed: &[Item], fed2: &[Item]) -> (Fr, Fr) {
    let mut tr = Transcript::<T>::default();
    feed(&mut tr, fed);
    let [r] = tr.generate_challenges();
    feed(&mut tr, fed2);
    let [p] = tr.generate_challenges();
    (r, p)
}

pub struct System {
    pub r1cs: R1CS<Fr>,
    pub free: usize,
}
pub fn sys_j(r: &R1CS<Fr>) -> Value {
    let m = |m: &Vec<Vec<Fr>>| Value::Array(m.iter().map(|r| fv(r)).collect());
    json!({"a": m(&r.matrix_a), "b": m(&r.matrix_b), "c": m(&r.matrix_c), "io": r.num_io, "vars": r.num_vars})
}
pub fn dot(a: &[Fr], z: &[Fr]) -> Fr {
    a.iter().zip(z).map(|(x, y)| *x * y).sum()
}
impl System {
    /// Row k defines variable free + k.
    pub fn solve(&self, fv: &[Fr], x: &[Fr]) -> Vec<Fr> {
        let n = self.r1cs.num_vars;
        let mut z = fv.to_vec();
        z.resize(n, Fr::zero());
        z.extend(x);
        z.push(Fr::one());
        for k in 0..n - self.free {
            z[self.free + k] = dot(&self.r1cs.matrix_a[k], &z) * dot(&self.r1cs.matrix_b[k], &z);
        }
        z.truncate(n);
        z
    }
    pub fn error(&self, w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
        let mut z = w.to_vec();
        z.extend(x);
        z.push(u);
        let r = &self.r1cs;
        (0..r.matrix_a.len()).map(|i| dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) - u * dot(&r.matrix_c[i], &z)).collect()
    }
    pub fn rows(&self) -> usize {
        self.r1cs.matrix_a.len()
    }
    /// A system as GenNova makes them.
    pub fn random(rng: &mut StdRng, free: usize, new: usize, again: usize, io: usize) -> System {
        let vars = free + new;
        let n = vars + io + 1;
        let row = |rng: &mut StdRng, defined: usize| -> Vec<Fr> {
            (0..n).map(|j| if (j < defined || j >= vars) && rng.gen_bool(0.6) { sfr(rng) } else { Fr::zero() }).collect()
        };
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        for k in 0..new {
            a.push(row(rng, free + k));
            b.push(row(rng, free + k));
            c.push((0..n).map(|j| if j == free + k { Fr::one() } else { Fr::zero() }).collect::<Vec<_>>());
        }
        for _ in 0..(if new == 0 { 0 } else { again }) {
            let k = rng.gen_range(0..new);
            // an earlier row, scaled
            let s = sfr::<Fr>(rng);
            a.push(a[k].iter().map(|x| *x * s).collect());
            b.push(b[k].clone());
            c.push(c[k].iter().map(|x| *x * s).collect());
        }
        System { r1cs: R1CS { matrix_a: a, matrix_b: b, matrix_c: c, num_io: io, num_vars: vars }, free }
    }
    /// x^3 + x + 5 = y, the system of the crate's tests.
    pub fn textbook() -> System {
        let m = |t: [[u64; 6]; 4]| t.iter().map(|r| r.iter().map(|x| Fr::from(*x)).collect()).collect();
        let r1cs = R1CS {
            matrix_a: m([[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [1, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 5]]),
            matrix_b: m([[1, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1]]),
            matrix_c: m([[0, 1, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0]]),
            num_io: 1,
            num_vars: 4,
        };
        System { r1cs, free: 1 }
    }
}

pub struct Ses<'a> {
    pub rec: &'a mut Rec,
    pub sys: System,
    pub secret: Fr,
    pub scheme: KzgScheme,
    pub pairs: Vec<Pair>,
    pub hash: &'static str,
}
impl<'a> Ses<'a> {
    pub fn new(rec: &'a mut Rec, sys: System, secret: Fr, hash: &'static str) -> Self {
        rec.set("sys", sys_j(&sys.r1cs));
        rec.set("secret", fj(&secret));
        let n = sys.r1cs.num_vars.max(sys.rows()) + 6;
        Ses { rec, scheme: KzgScheme::new(Srs::new_from_secret(secret, n)), sys, secret, pairs: vec![], hash }
    }
    /// FWitness::new and commit; false if the code refused.
    pub fn commit(&mut self, w: &[Fr], elen: usize, x: &[Fr]) -> bool {
        let r = guard(|| {
            let fw = FWitness::new(w, elen);
            (fw.commit(&self.scheme, x), fw)
        });
        self.rec.ev("commit", json!({"w": fv(w), "elen": elen, "x": fv(x), "res": res(&r, pair_j)}));
        r.map(|p| self.pairs.push(p)).is_ok()
    }
    pub fn fresh(&mut self, free: &[Fr], x: &[Fr], elen: usize) -> bool {
        let w = self.sys.solve(free, x);
        self.commit(&w, elen, x)
    }
    pub fn trivial(&mut self) -> bool {
        let (io, vars) = (self.sys.r1cs.num_io, self.sys.r1cs.num_vars);
        let r = guard(|| {
            let (fw, fi) = create_trivial_pair(io, vars, &self.scheme);
            (fi, fw)
        });
        self.rec.ev("trivial", json!({"io": io, "vars": vars, "res": res(&r, pair_j)}));
        r.map(|p| self.pairs.push(p)).is_ok()
    }
    pub fn pair(&mut self, p: Pair) -> usize {
        self.rec.ev("pair", json!({"pair": pair_j(&p)}));
        self.pairs.push(p);
        self.pairs.len()
    }
    /// A satisfied pair with any scalar.
    pub fn relaxed(&mut self, w: &[Fr], x: &[Fr], u: Fr) {
        let e = self.sys.error(w, x, u);
        let fi = FInstance { com_e: com(self.secret, &e), u, com_w: com(self.secret, w), x: x.to_vec() };
        self.pair((fi, FWitness { e, w: w.to_vec() }));
    }
    pub fn sat(&mut self, i: usize) {
        let p = &self.pairs[i - 1];
        let r = guard(|| is_r1cs_satisfied(&self.sys.r1cs, &p.0, &p.1, &self.scheme).is_ok());
        self.rec.ev("sat", json!({"i": i, "res": res(&r, |b| json!(b))}));
    }
    pub fn foldwith(&mut self, i: usize, j: usize, r: Fr) -> bool {
        let (p, q) = (self.pairs[i - 1].clone(), self.pairs[j - 1].clone());
        let z = |p: &Pair| -> Vec<Fr> { p.1.w.iter().chain(&p.0.x).chain([&p.0.u]).copied().collect() };
        let out = guard(|| {
            let t = NIFS::<sha2::Sha256>::compute_t(&self.sys.r1cs, p.0.u, q.0.u, &z(&p), &z(&q));
            let ct = com(self.secret, &t);
            let fw = NIFS::<sha2::Sha256>::fold_witness(r, &p.1, &q.1, &t);
            let fi = NIFS::<sha2::Sha256>::fold_instance(r, &p.0, &q.0, &ct);
            let ver = NIFS::<sha2::Sha256>::verifier(r, &p.0, &q.0, &ct);
            (t, fw, fi, ver)
        });
        let v = res(&out, |(t, fw, fi, ver)| json!({"t": fv(t), "fw": fw_j(fw), "fi": fi_j(fi), "ver": fi_j(ver)}));
        self.rec.ev("foldwith", json!({"i": i, "j": j, "r": fj(&r), "res": v}));
        out.map(|(_, fw, fi, _)| self.pairs.push((fi, fw))).is_ok()
    }
    pub fn fold(&mut self, i: usize, j: usize, pre: &[Item]) -> Option<(KzgCommitment, Fr)> {
        with_hash!(self.hash, fold_t(self, i, j, pre))
    }
    /// Proves the fold of i and j (the last pair) and checks `n` alterations of the proof besides the proof itself.
    pub fn prove_and_verify(&mut self, i: usize, j: usize, pre: &[Item], alter: &[(String, Fr)]) -> bool {
        with_hash!(self.hash, prove_and_verify_t(self, i, j, pre, alter))
    }
}
fn fold_t<T: Digest + Default>(s: &mut Ses, i: usize, j: usize, pre: &[Item]) -> Option<(KzgCommitment, Fr)> {
    let (p, q) = (s.pairs[i - 1].clone(), s.pairs[j - 1].clone());
    let out = guard(|| {
        let mut tr = Transcript::<T>::default();
        feed(&mut tr, pre);
        let (fw, fi, ct, r) = NIFS::<T>::prover(&s.sys.r1cs, &p.1, &q.1, &p.0, &q.0, &s.scheme, &mut tr);
        let ver = NIFS::<T>::verifier(r, &p.0, &q.0, &ct);
        (fw, fi, ct, r, ver)
    });
    let mut v = json!({"i": i, "j": j, "pre": items_j(pre), "fed": [], "r": "0"});
    if let Ok((_, _, ct, _, _)) = &out {
        let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(&p.0, &q.0, ct)).collect();
        v["fed"] = items_j(&fed);
        v["r"] = fj(&oracle::<T>(&fed, &[Item::S(Fr::zero())]).0);
    }
    v["res"] = res(&out, |(fw, fi, ct, r, ver)| json!({"fw": fw_j(fw), "fi": fi_j(fi), "ct": g1(&ct.0), "r": fj(r), "ver": fi_j(ver)}));
    s.rec.ev("fold", v);
    out.ok().map(|(fw, fi, ct, r, _)| {
        s.pairs.push((fi, fw));
        (ct, r)
    })
}
fn prove_and_verify_t<T: Digest + Default>(s: &mut Ses, i: usize, j: usize, pre: &[Item], alter: &[(String, Fr)]) -> bool {
    let Some((ct, r)) = fold_t::<T>(s, i, j, pre) else {
        return false;
    };
    let k = s.pairs.len();
    let (p, q, f) = (s.pairs[i - 1].clone(), s.pairs[j - 1].clone(), s.pairs[k - 1].clone());
    let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(&p.0, &q.0, &ct)).collect();
    let fed2 = point_items(&f.0);
    let (_, point) = oracle::<T>(&fed, &fed2);
    let out = guard(|| {
        let mut tr = Transcript::<T>::default();
        feed(&mut tr, &fed);
        let [_r] = tr.generate_challenges::<1>();
        NIFS::<T>::prove(r, &f.1, &f.0, &s.scheme, &mut tr)
    });
    s.rec.ev("prove", json!({"k": k, "r": fj(&r), "fed2": items_j(&fed2), "point": fj(&point), "res": res(&out, proof_j)}));
    let Ok(proof) = out else {
        return false;
    };
    verify_t::<T>(s, &proof, &p.0, &q.0, &f.0, &ct, pre, true);
    for (field, d) in alter {
        let (mut pf, mut a, mut b, mut c, mut t) = (proof.clone(), p.0.clone(), q.0.clone(), f.0.clone(), ct.clone());
        let one = |fi: &mut FInstance, part: &str| match part {
            "ce" => fi.com_e = shift(&fi.com_e, *d),
            "cw" => fi.com_w = shift(&fi.com_w, *d),
            "u" => fi.u += d,
            x => {
                let n: usize = x[1..].parse().unwrap();
                if !fi.x.is_empty() {
                    let l = fi.x.len();
                    fi.x[n % l] += d;
                }
            }
        };
        let mut before: Vec<Item> = pre.to_vec();
        match field.split_once('.').unwrap_or((field, "")) {
            ("r", _) => pf.r += d,
            ("point", _) => pf.opening_point += d,
            ("oey", _) => pf.opening_e.1 += d,
            ("oew", _) => pf.opening_e.0 = (pf.opening_e.0 + gmul(*d)).into_affine(),
            ("owy", _) => pf.opening_w.1 += d,
            ("oww", _) => pf.opening_w.0 = (pf.opening_w.0 + gmul(*d)).into_affine(),
            ("swap", _) => std::mem::swap(&mut pf.opening_e, &mut pf.opening_w),
            ("ct", _) => t = shift(&t, *d),
            ("exchange", _) => std::mem::swap(&mut a, &mut b),
            ("fi1", part) => one(&mut a, part),
            ("fi2", part) => one(&mut b, part),
            ("fi3", part) => one(&mut c, part),
            // the openings of a fold made with another challenge, honest otherwise
            ("other", _) => {
                pf.r += d;
                c = NIFS::<T>::fold_instance(pf.r, &a, &b, &t);
                let tt = cross(&s.sys, &p, &q);
                let fw = NIFS::<T>::fold_witness(pf.r, &p.1, &q.1, &tt);
                let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(&a, &b, &t)).collect();
                let (_, z) = oracle::<T>(&fed, &point_items(&c));
                pf.opening_point = z;
                pf.opening_e = s.scheme.open_vector(&fw.e, z);
                pf.opening_w = s.scheme.open_vector(&fw.w, z);
            }
            // both openings at another point, valid there
            ("elsewhere", _) => {
                let z = pf.opening_point + d;
                pf.opening_e = s.scheme.open_vector(&f.1.e, z);
                pf.opening_w = s.scheme.open_vector(&f.1.w, z);
            }
            ("elsewherealso", _) => {
                let z = pf.opening_point + d;
                pf.opening_point = z;
                pf.opening_e = s.scheme.open_vector(&f.1.e, z);
                pf.opening_w = s.scheme.open_vector(&f.1.w, z);
            }
            ("pre", "none") => before = vec![],
            ("pre", _) => before.push(Item::S(*d)),
            _ => {}
        }
        verify_t::<T>(s, &pf, &a, &b, &c, &t, &before, false);
    }
    true
}
fn cross(sys: &System, p: &Pair, q: &Pair) -> Vec<Fr> {
    let z = |p: &Pair| -> Vec<Fr> { p.1.w.iter().chain(&p.0.x).chain([&p.0.u]).copied().collect() };
    let (z1, z2, r) = (z(p), z(q), &sys.r1cs);
    (0..sys.rows()).map(|i| {
        dot(&r.matrix_a[i], &z1) * dot(&r.matrix_b[i], &z2) + dot(&r.matrix_a[i], &z2) * dot(&r.matrix_b[i], &z1)
            - p.0.u * dot(&r.matrix_c[i], &z2) - q.0.u * dot(&r.matrix_c[i], &z1)
    }).collect()
}
#[allow(clippy::too_many_arguments)]
fn verify_t<T: Digest + Default>(s: &mut Ses, pf: &NIFSProof, a: &FInstance, b: &FInstance, c: &FInstance, ct: &KzgCommitment, pre: &[Item], honest: bool) {
    let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(a, b, ct)).collect();
    let fed2 = point_items(c);
    let (r, point) = oracle::<T>(&fed, &fed2);
    let start = |upto: &[Item]| {
        let mut tr = Transcript::<T>::default();
        feed(&mut tr, upto);
        tr
    };
    let chal = guard(|| NIFS::<T>::verify_challenge(pf.r, a, b, ct, &mut start(pre)).is_ok());
    let open = guard(|| {
        let mut tr = start(&fed);
        let [_r] = tr.generate_challenges::<1>();
        NIFS::<T>::verify_opening(pf, c, &s.scheme, &mut tr).is_ok()
    });
    let full = guard(|| NIFS::<T>::verify(pf, a, b, c, ct, &s.scheme, &mut start(pre)).is_ok());
    let v = |r: &Result<bool, String>| res(r, |b| json!(b));
    s.rec.ev("verify", json!({"fi1": fi_j(a), "fi2": fi_j(b), "fi3": fi_j(c), "ct": g1(&ct.0), "pf": proof_j(pf), "pre": items_j(pre),
        "fed": items_j(&fed), "fed2": items_j(&fed2), "r": fj(&r), "point": fj(&point), "honest": honest,
        "res": {"chal": v(&chal), "open": v(&open), "full": v(&full)}}));
}

/// Every alteration of a pair, as (pair, what).
fn alterations(s: &Ses, p: &Pair, rng: &mut StdRng) -> Vec<Pair> {
    let mut out = vec![];
    let sec = s.secret;
    let mut add = |fi: &FInstance, fw: &FWitness, fit: bool| {
        out.push((fi.clone(), fw.clone()));
        if fit {
            // with commitments to match
            let mut g = fi.clone();
            g.com_e = com(sec, &fw.e);
            g.com_w = com(sec, &fw.w);
            out.push((g, fw.clone()));
        }
    };
    let delta = |rng: &mut StdRng| if rng.gen_bool(0.5) { Fr::one() } else { rfr(rng) };
    for k in 0..p.1.e.len() {
        let mut fw = p.1.clone();
        fw.e[k] += delta(rng);
        add(&p.0, &fw, true);
    }
    for k in 0..p.1.w.len() {
        let mut fw = p.1.clone();
        fw.w[k] += delta(rng);
        add(&p.0, &fw, true);
    }
    for k in 0..p.0.x.len() {
        let mut fi = p.0.clone();
        fi.x[k] += delta(rng);
        add(&fi, &p.1, false);
    }
    let mut fi = p.0.clone();
    fi.u += delta(rng);
    add(&fi, &p.1, false);
    fi.u = Fr::zero();
    add(&fi, &p.1, false);
    let mut fi = p.0.clone();
    fi.com_e = shift(&fi.com_e, delta(rng));
    add(&fi, &p.1, false);
    fi.com_w = shift(&fi.com_w, delta(rng));
    add(&fi, &p.1, false);
    fi.com_e = p.0.com_e.clone();
    add(&fi, &p.1, false);
    fi = p.0.clone();
    std::mem::swap(&mut fi.com_e, &mut fi.com_w);
    add(&fi, &p.1, false);
    // dimensions
    for d in [Fr::zero(), Fr::one()] {
        let mut fw = p.1.clone();
        fw.e.push(d);
        add(&p.0, &fw, !d.is_zero());
        let mut fw = p.1.clone();
        fw.w.push(d);
        add(&p.0, &fw, !d.is_zero());
        let mut fi = p.0.clone();
        fi.x.push(d);
        add(&fi, &p.1, false);
        fi = p.0.clone();
        fi.x.insert(0, d);
        add(&fi, &p.1, false);
    }
    let mut fw = p.1.clone();
    fw.e.resize(s.sys.rows() + 1, Fr::zero());
    fw.e.push(Fr::one());
    add(&p.0, &fw, true);
    let mut fw = p.1.clone();
    fw.e.resize(s.sys.rows() + 3, Fr::zero());
    add(&p.0, &fw, false);
    for _ in 0..2 {
        if fw.e.pop().is_some() {
            add(&p.0, &fw, true);
        }
    }
    let mut fw = p.1.clone();
    fw.e.clear();
    add(&p.0, &fw, true);
    let mut fw = p.1.clone();
    fw.e.pop();
    add(&p.0, &fw, true);
    let mut fw = p.1.clone();
    let last = fw.w.pop();
    add(&p.0, &fw, true);
    // the last variable handed over to the public values: z stays what it was
    if let Some(l) = last {
        let mut fi = p.0.clone();
        fi.x.insert(0, l);
        add(&fi, &fw, true);
    }
    if !p.0.x.is_empty() {
        let mut fi = p.0.clone();
        let first = fi.x.remove(0);
        add(&fi, &p.1, false);
        let mut fw = p.1.clone();
        fw.w.push(first);
        add(&fi, &fw, true);
    }
    if p.1.w.len() > 1 {
        let mut fw = p.1.clone();
        fw.w.swap(0, 1);
        add(&p.0, &fw, true);
    }
    if p.1.e.len() > 1 {
        // errors that cancel in the sum
        let mut fw = p.1.clone();
        let d = rfr(rng);
        fw.e[0] += d;
        fw.e[1] -= d;
        add(&p.0, &fw, true);
        // and an error that the commitment does not notice
        let mut fw = p.1.clone();
        fw.e[0] += d * sec;
        fw.e[1] -= d;
        add(&p.0, &fw, false);
    }
    if p.1.w.len() > 1 {
        let mut fw = p.1.clone();
        let d = rfr(rng);
        fw.w[0] += d * sec;
        fw.w[1] -= d;
        add(&p.0, &fw, false);
    }
    out
}

fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
/// Replays a behaviour of GenNova. Small numbers stand for themselves or for scalars of their own.
fn replay(rec: &mut Rec, script: &Value, seed: u64, spread: bool, hash: &'static str) {
    let mut rng = StdRng::seed_from_u64(seed);
    let p = script["p"].as_u64().unwrap();
    let table: Vec<Fr> = (0..p).map(|v| match v {
        0 => Fr::zero(),
        _ if !spread => Fr::from(v),
        1 => Fr::one(),
        _ if rng.gen_bool(0.3) => sfr(&mut rng),
        _ => rfr(&mut rng),
    }).collect();
    let coef = |v: &Value| if v.as_u64() == Some(p - 1) { -Fr::one() } else { Fr::from(v.as_u64().unwrap()) };
    let val = |v: &Value| table[num(v)];
    let vals = |v: &Value| -> Vec<Fr> { v.as_array().unwrap().iter().map(val).collect() };
    let m = |k: &str| -> Vec<Vec<Fr>> { script["sys"][k].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(coef).collect()).collect() };
    let sys = System {
        r1cs: R1CS { matrix_a: m("a"), matrix_b: m("b"), matrix_c: m("c"), num_io: num(&script["sys"]["io"]), num_vars: num(&script["sys"]["vars"]) },
        free: num(&script["free"]),
    };
    let secret = if spread { rfr(&mut rng) } else { Fr::from(3u64) };
    let mut s = Ses::new(rec, sys, secret, hash);
    for e in script["hist"].as_array().unwrap() {
        let ok = match e["op"].as_str().unwrap() {
            "fresh" => s.fresh(&vals(&e["free"]), &vals(&e["x"]), num(&e["elen"])),
            "relaxed" => {
                s.relaxed(&vals(&e["w"]), &vals(&e["x"]), val(&e["u"]));
                true
            }
            "trivial" => s.trivial(),
            "fold" if e["how"] == "given" => s.foldwith(num(&e["i"]), num(&e["j"]), val(&e["r"])),
            "fold" => {
                let pre: Vec<Item> = if rng.gen_bool(0.3) { vec![Item::S(sfr(&mut rng))] } else { vec![] };
                s.fold(num(&e["i"]), num(&e["j"]), &pre).is_some()
            }
            "sat" => {
                s.sat(num(&e["i"]));
                true
            }
            "alter" => {
                let (mut fi, mut fw) = s.pairs[num(&e["i"]) - 1].clone();
                let (k, d) = (num(&e["k"]), val(&e["d"]));
                let at = |v: &mut Vec<Fr>| {
                    let n = v.len();
                    if n > 0 {
                        v[k % n] += d;
                    }
                };
                match e["part"].as_str().unwrap() {
                    "e" => at(&mut fw.e),
                    "w" => at(&mut fw.w),
                    "x" => at(&mut fi.x),
                    "u" => fi.u += d,
                    "ce" => fi.com_e = shift(&fi.com_e, d),
                    "cw" => fi.com_w = shift(&fi.com_w, d),
                    "longe" => fw.e.push(d),
                    "taile" => fw.e.push(Fr::zero()),
                    "shorte" => {
                        fw.e.pop();
                    }
                    "longw" => fw.w.push(if k % 2 == 0 { d } else { Fr::zero() }),
                    "shortw" => {
                        fw.w.pop();
                    }
                    "longx" => fi.x.push(if k % 2 == 0 { d } else { Fr::zero() }),
                    "shortx" => {
                        fi.x.pop();
                    }
                    "swapw" => {
                        let n = fw.w.len();
                        if n > 0 {
                            fw.w.swap(k % n, (k + 1) % n)
                        }
                    }
                    _ => {}
                }
                if e["recommit"] == json!(true) {
                    fi.com_e = com(secret, &fw.e);
                    fi.com_w = com(secret, &fw.w);
                }
                // commitments of vectors longer than the setup are refused, which is another matter
                let max = s.sys.r1cs.num_vars.max(s.sys.rows()) + 5;
                fw.e.truncate(max);
                fw.w.truncate(max);
                let n = s.pair((fi, fw));
                s.sat(n);
                true
            }
            "verify" => {
                let pre: Vec<Item> = (0..num(&e["pre"])).map(|k| if k == 0 { Item::S(sfr(&mut rng)) } else { Item::G(KzgCommitment(gmul(rfr(&mut rng)))) }).collect();
                let f = e["f"].as_str().unwrap();
                let d = val(&e["d"]);
                let f = if f.starts_with("fi") { format!("{f}.{}", ["ce", "cw", "u", "x0"][num(&e["d"]) - 1]) } else { f.to_string() };
                s.prove_and_verify(num(&e["i"]), num(&e["j"]), &pre, &[(f, d)])
            }
            _ => true,
        };
        if !ok {
            return;
        }
    }
}

fn fields() -> Vec<String> {
    let mut v: Vec<String> = ["r", "point", "oey", "oew", "owy", "oww", "swap", "ct", "exchange", "other", "elsewhere", "elsewherealso", "pre.none", "pre.more"].iter().map(|s| s.to_string()).collect();
    for fi in ["fi1", "fi2", "fi3"] {
        for p in ["ce", "cw", "u", "x0", "x1", "x3"] {
            v.push(format!("{fi}.{p}"));
        }
    }
    v
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let mut rng = cfg.rng(0x4e0);
    for (n, s) in cfg.scripts.iter().cloned().enumerate() {
        let seed = rng.gen::<u64>();
        scen(&mut out, "generated", move |rec| replay(rec, &s, seed, n % 2 == 1, HASHES[n % 5]));
    }
    let shapes: Vec<(usize, usize, usize, usize)> = vec![(1, 0, 0, 0), (1, 0, 0, 1), (2, 1, 0, 1), (1, 3, 0, 1), (1, 2, 3, 1), (3, 2, 0, 2), (1, 1, 6, 0), (2, 4, 1, 1), (5, 1, 0, 3), (4, 10, 3, 4), (12, 18, 5, 9)];
    // chains of folds: fresh, relaxed and trivial pairs
    if cfg.is(&["N01"]) {
        for rep in 0..cfg.n(2, 20) {
            for (n, &(free, new, again, io)) in shapes.iter().enumerate() {
                let seed = rng.gen::<u64>();
                scen(&mut out, "chains", move |rec| {
                    let mut rng = StdRng::seed_from_u64(seed);
                    let sys = if rep == 0 && n == 0 { System::textbook() } else { System::random(&mut rng, free, new, again, io) };
                    let (rows, vars, free, io) = (sys.rows(), sys.r1cs.num_vars, sys.free, sys.r1cs.num_io);
                    let secret = if rng.gen_bool(0.2) { Fr::from(rng.gen_range(0..3u64)) } else { rfr(&mut rng) };
                    let mut s = Ses::new(rec, sys, secret, HASHES[(rep + n) % 5]);
                    let vec = |rng: &mut StdRng, n: usize| -> Vec<Fr> { (0..n).map(|_| sfr(rng)).collect() };
                    if !s.trivial() {
                        return;
                    }
                    for elen in [rows, vars, rows + 2, 0] {
                        let (f, x) = (vec(&mut rng, free), vec(&mut rng, io));
                        if !s.fresh(&f, &x, elen) {
                            return;
                        }
                        let (w, x, u) = (vec(&mut rng, vars), vec(&mut rng, io), sfr(&mut rng));
                        s.relaxed(&w, &x, u);
                    }
                    let n = s.pairs.len();
                    // one running pair takes in everything, as u or as U
                    let mut run = 1;
                    for k in 2..=n {
                        let ok = match k % 3 {
                            0 => s.fold(k, run, &[]).is_some(),
                            1 => s.fold(run, k, &[Item::S(Fr::from(k as u64))]).is_some(),
                            _ => {
                                let r = [Fr::zero(), Fr::one(), -Fr::one(), rfr(&mut rng)][k % 4];
                                s.foldwith(run, k, r)
                            }
                        };
                        if !ok {
                            return;
                        }
                        run = s.pairs.len();
                        s.sat(run);
                    }
                    // pairs with themselves, and folds of folds
                    for (i, j) in [(run, run), (run, n + 1), (1, 1), (2, 1), (run, 1)] {
                        for r in [Fr::zero(), Fr::one(), rfr(&mut rng)] {
                            if !s.foldwith(i, j, r) {
                                return;
                            }
                            let l = s.pairs.len();
                            s.sat(l);
                        }
                    }
                });
            }
        }
    }
    // every single alteration of fresh, relaxed, trivial and folded pairs
    if cfg.is(&["N02"]) {
        for rep in 0..cfg.n(1, 12) {
            for (n, &(free, new, again, io)) in shapes.iter().enumerate() {
                let seed = rng.gen::<u64>();
                scen(&mut out, "alterations", move |rec| {
                    let mut rng = StdRng::seed_from_u64(seed);
                    let sys = if rep == 0 && n == 0 { System::textbook() } else { System::random(&mut rng, free, new, again, io) };
                    let (rows, vars, free, io) = (sys.rows(), sys.r1cs.num_vars, sys.free, sys.r1cs.num_io);
                    let secret = rfr(&mut rng);
                    let mut s = Ses::new(rec, sys, secret, "sha256");
                    let vec = |rng: &mut StdRng, n: usize| -> Vec<Fr> { (0..n).map(|_| sfr(rng)).collect() };
                    let (f, x) = (vec(&mut rng, free), vec(&mut rng, io));
                    if !s.fresh(&f, &x, rows) || !s.trivial() {
                        return;
                    }
                    let (w, x, u) = (vec(&mut rng, vars), vec(&mut rng, io), rfr(&mut rng));
                    s.relaxed(&w, &x, u);
                    if s.fold(1, 3, &[]).is_none() {
                        return;
                    }
                    for k in 1..=4 {
                        s.sat(k);
                        let p = s.pairs[k - 1].clone();
                        for q in alterations(&s, &p, &mut rng) {
                            let n = s.pair(q);
                            s.sat(n);
                        }
                    }
                });
            }
        }
    }
    // folds in which one pair is unsatisfied: one row, one commitment, an error beyond the rows
    if cfg.is(&["N01", "N02"]) {
        for rep in 0..cfg.n(2, 20) {
            for &(free, new, again, io) in shapes.iter() {
                let seed = rng.gen::<u64>();
                scen(&mut out, "bad-folds", move |rec| {
                    let mut rng = StdRng::seed_from_u64(seed);
                    let sys = System::random(&mut rng, free, new, again, io);
                    let (rows, vars) = (sys.rows(), sys.r1cs.num_vars);
                    let secret = rfr(&mut rng);
                    let mut s = Ses::new(rec, sys, secret, HASHES[rep % 5]);
                    let vec = |rng: &mut StdRng, n: usize| -> Vec<Fr> { (0..n).map(|_| sfr(rng)).collect() };
                    for _ in 0..2 {
                        let (w, x, u) = (vec(&mut rng, vars), vec(&mut rng, io), sfr(&mut rng));
                        s.relaxed(&w, &x, u);
                    }
                    let (fi, fw) = s.pairs[0].clone();
                    let mut bad: Vec<Pair> = vec![];
                    if rows > 0 {
                        let mut g = fw.clone();
                        g.e[rng.gen_range(0..rows)] += Fr::one();
                        let mut i = fi.clone();
                        i.com_e = com(secret, &g.e);
                        bad.push((i, g));
                    }
                    let mut i = fi.clone();
                    i.com_w = shift(&i.com_w, Fr::one());
                    bad.push((i, fw.clone()));
                    let mut i = fi.clone();
                    i.com_e = shift(&i.com_e, Fr::one());
                    bad.push((i, fw.clone()));
                    let mut g = fw.clone();
                    g.w[vars - 1] += Fr::one();
                    let mut i = fi.clone();
                    i.com_w = com(secret, &g.w);
                    bad.push((i, g));
                    for more in [1usize, 4] {
                        let mut g = fw.clone();
                        g.e.resize(rows.max(vars) + more, Fr::zero());
                        *g.e.last_mut().unwrap() = rfr(&mut rng);
                        let mut i = fi.clone();
                        i.com_e = com(secret, &g.e);
                        bad.push((i, g));
                    }
                    for b in bad {
                        let k = s.pair(b);
                        s.sat(k);
                        for (i, j) in [(k, 2), (2, k), (k, k)] {
                            if s.fold(i, j, &[]).is_none() {
                                return;
                            }
                            let n = s.pairs.len();
                            s.sat(n);
                            for r in [Fr::one(), -Fr::one(), Fr::zero()] {
                                if !s.foldwith(i, j, r) {
                                    return;
                                }
                                let n = s.pairs.len();
                                s.sat(n);
                            }
                        }
                    }
                });
            }
        }
    }
    // folding proofs and their alterations
    if cfg.is(&["N03", "N04", "N06"]) {
        for rep in 0..cfg.n(1, 12) {
            for (n, &(free, new, again, io)) in shapes.iter().enumerate() {
                let seed = rng.gen::<u64>();
                scen(&mut out, "folding-proofs", move |rec| {
                    let mut rng = StdRng::seed_from_u64(seed);
                    let sys = if rep == 0 && n == 0 { System::textbook() } else { System::random(&mut rng, free, new, again, io) };
                    let (rows, vars, free, io) = (sys.rows(), sys.r1cs.num_vars, sys.free, sys.r1cs.num_io);
                    let secret = rfr(&mut rng);
                    let mut s = Ses::new(rec, sys, secret, HASHES[(rep + n) % 5]);
                    let vec = |rng: &mut StdRng, n: usize| -> Vec<Fr> { (0..n).map(|_| sfr(rng)).collect() };
                    let (f, x) = (vec(&mut rng, free), vec(&mut rng, io));
                    if !s.fresh(&f, &x, rows) || !s.trivial() {
                        return;
                    }
                    let (w, x, u) = (vec(&mut rng, vars), vec(&mut rng, io), rfr(&mut rng));
                    s.relaxed(&w, &x, u);
                    for (i, j, all) in [(1, 2, false), (1, 3, true), (3, 1, false), (2, 2, false)] {
                        let pre: Vec<Item> = if i == 3 { vec![Item::S(Fr::from(5u64)), Item::G(KzgCommitment(gmul(rfr(&mut rng))))] } else { vec![] };
                        let alter: Vec<(String, Fr)> = fields().into_iter().filter(|f| f != "r" || !all).map(|f| (f, if rng.gen_bool(0.5) { Fr::one() } else { rfr(&mut rng) })).collect();
                        let alter = if all { alter } else { alter.into_iter().filter(|_| rng.gen_bool(0.3)).collect() };
                        if !s.prove_and_verify(i, j, &pre, &alter) {
                            return;
                        }
                    }
                });
            }
        }
    }
    out
}
