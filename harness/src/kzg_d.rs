//! Sessions with the KZG scheme. Every event names the specification's action and carries the real result.
use crate::common::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, Polynomial};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::ops::Mul;

pub struct Session<'a> {
    pub rec: &'a mut Rec,
    scheme: KzgScheme,
    coms: Vec<KzgCommitment>,
    opens: Vec<KzgOpening>,
    seed: u64,
}

fn com(c: &KzgCommitment) -> Value {
    g1(&c.0)
}
fn opening(o: &KzgOpening) -> Value {
    json!({"w": g1(&o.0), "y": fj(&o.1)})
}

impl<'a> Session<'a> {
    pub fn new(rec: &'a mut Rec, secret: Fr, n: usize) -> Self {
        rec.set("secret", fj(&secret));
        rec.set("n", json!(n));
        Session { rec, scheme: KzgScheme::new(Srs::new_from_secret(secret, n)), coms: vec![], opens: vec![], seed: 7 }
    }
    fn push_com(&mut self, op: &str, mut v: Value, r: Result<KzgCommitment, String>) {
        v["res"] = res(&r, com);
        self.rec.ev(op, v);
        if let Ok(c) = r {
            self.coms.push(c);
        }
    }
    fn push_open(&mut self, op: &str, mut v: Value, r: Result<KzgOpening, String>) {
        v["res"] = res(&r, opening);
        self.rec.ev(op, v);
        if let Ok(o) = r {
            self.opens.push(o);
        }
    }
    pub fn commit(&mut self, f: &[Fr], vec: bool) {
        let r = guard(|| {
            if vec {
                self.scheme.commit_vector(f)
            } else {
                self.scheme.commit(&DensePolynomial::from_coefficients_slice(f))
            }
        });
        self.push_com("commit", json!({"f": fv(f), "via": if vec {"vector"} else {"polynomial"}}), r);
    }
    pub fn para(&mut self, v: Fr) {
        let r = guard(|| self.scheme.commit_para(v));
        self.push_com("para", json!({"v": fj(&v)}), r);
    }
    pub fn open(&mut self, f: &[Fr], z: Fr, vec: bool) {
        let r = guard(|| {
            if vec {
                self.scheme.open_vector(f, z)
            } else {
                self.scheme.open(&DensePolynomial::from_coefficients_slice(f), z)
            }
        });
        self.push_open("open", json!({"f": fv(f), "z": fj(&z), "via": if vec {"vector"} else {"polynomial"}}), r);
    }
    pub fn add(&mut self, i: usize, j: usize) {
        let (a, b) = (self.coms[i - 1].clone(), self.coms[j - 1].clone());
        let r = guard(|| a + b);
        self.push_com("add", json!({"i": i, "j": j}), r);
    }
    pub fn sub(&mut self, i: usize, j: usize) {
        let (a, b) = (self.coms[i - 1].clone(), self.coms[j - 1].clone());
        let r = guard(|| a - b);
        self.push_com("sub", json!({"i": i, "j": j}), r);
    }
    pub fn neg(&mut self, i: usize) {
        let a = self.coms[i - 1].clone();
        let r = guard(|| -a);
        self.push_com("neg", json!({"i": i}), r);
    }
    pub fn mul(&mut self, i: usize, k: Fr, by_ref: bool) {
        let a = self.coms[i - 1].clone();
        let r = guard(|| if by_ref { &a * k } else { a * k });
        self.push_com("mul", json!({"i": i, "k": fj(&k), "via": if by_ref {"ref"} else {"value"}}), r);
    }
    pub fn agg(&mut self, is: &[usize], k: Fr) {
        let cs: Vec<&KzgCommitment> = is.iter().map(|i| &self.coms[i - 1]).collect();
        let r = guard(|| KzgScheme::aggregate_commitments(&cs, &k));
        self.push_com("agg", json!({"is": is, "k": fj(&k)}), r);
    }
    pub fn oadd(&mut self, i: usize, j: usize) {
        let (a, b) = (self.opens[i - 1].clone(), self.opens[j - 1].clone());
        let r = guard(|| a + b);
        self.push_open("oadd", json!({"i": i, "j": j}), r);
    }
    pub fn verify(&mut self, i: usize, j: usize, z: Fr) {
        let r = guard(|| self.scheme.verify(&self.coms[i - 1], &self.opens[j - 1], z));
        self.rec.ev("verify", json!({"i": i, "j": j, "z": fj(&z), "res": res(&r, |b| json!(b))}));
    }
    pub fn batch(&mut self, is: &[usize], js: &[usize], zs: &[Fr]) {
        let cs: Vec<_> = is.iter().map(|i| self.coms[i - 1].clone()).collect();
        let os: Vec<_> = js.iter().map(|j| self.opens[j - 1].clone()).collect();
        self.seed += 1;
        let mut rng = StdRng::seed_from_u64(self.seed);
        let r = guard(|| self.scheme.batch_verify(&cs, zs, &os, &mut rng));
        self.rec.ev("batch", json!({"is": is, "js": js, "zs": fv(zs), "res": res(&r, |b| json!(b))}));
    }
    /// The randomness the next batch will be given.
    fn coins(&self) -> StdRng {
        StdRng::seed_from_u64(self.seed + 1)
    }
    pub fn forgecom(&mut self, k: Fr) {
        self.coms.push(KzgCommitment(G1Affine::generator().mul(k).into_affine()));
        self.rec.ev("forgecom", json!({"k": fj(&k)}));
    }
    pub fn forgeopen(&mut self, k: Fr, y: Fr) {
        self.opens.push(KzgOpening(G1Affine::generator().mul(k).into_affine(), y));
        self.rec.ev("forgeopen", json!({"k": fj(&k), "y": fj(&y)}));
    }
    pub fn altery(&mut self, i: usize, d: Fr) {
        let o = self.opens[i - 1].clone();
        self.opens.push(KzgOpening(o.0, o.1 + d));
        self.rec.ev("altery", json!({"i": i, "d": fj(&d)}));
    }
    pub fn alterw(&mut self, i: usize, k: Fr) {
        let o = self.opens[i - 1].clone();
        self.opens.push(KzgOpening((o.0 + G1Affine::generator().mul(k)).into_affine(), o.1));
        self.rec.ev("alterw", json!({"i": i, "k": fj(&k)}));
    }
}

/// Replays a behaviour of GenKzg. Residues of the small model stand for scalars: 0, 1, -1 and the secret for
/// themselves, the others for themselves or for random scalars.
fn replay(rec: &mut Rec, script: &Value, spread: bool, seed: u64) {
    let p = script["p"].as_u64().unwrap();
    let mut rng = StdRng::seed_from_u64(seed);
    let table: Vec<Fr> = (0..p)
        .map(|k| match k {
            0 | 1 => Fr::from(k),
            k if k == p - 1 => -Fr::one(),
            k if spread => {
                let _ = k;
                rfr(&mut rng)
            }
            k => Fr::from(k),
        })
        .collect();
    let f = |v: &Value| table[v.as_u64().unwrap() as usize];
    let fs = |v: &Value| v.as_array().unwrap().iter().map(f).collect::<Vec<_>>();
    let u = |v: &Value| v.as_u64().unwrap() as usize;
    let us = |v: &Value| v.as_array().unwrap().iter().map(u).collect::<Vec<_>>();
    let mut s = Session::new(rec, f(&script["secret"]), u(&script["n"]));
    for (k, e) in script["hist"].as_array().unwrap().iter().enumerate() {
        let alt = k % 2 == 1;
        // a refused commitment or opening shifts the numbering, so indices are checked first
        let bad = |v: &Value, len: usize| v.as_u64().map_or(false, |i| i as usize > len);
        let op = e["op"].as_str().unwrap();
        let on_opens = ["oadd", "altery", "alterw"].contains(&op);
        let len = if on_opens { s.opens.len() } else { s.coms.len() };
        if bad(&e["i"], len) || (op != "verify" && bad(&e["j"], len)) || (op == "verify" && bad(&e["j"], s.opens.len())) {
            continue;
        }
        match op {
            "commit" => s.commit(&fs(&e["f"]), alt),
            "para" => s.para(f(&e["v"])),
            "open" => s.open(&fs(&e["f"]), f(&e["z"]), alt),
            "add" => s.add(u(&e["i"]), u(&e["j"])),
            "sub" => s.sub(u(&e["i"]), u(&e["j"])),
            "neg" => s.neg(u(&e["i"])),
            "mul" => s.mul(u(&e["i"]), f(&e["k"]), alt),
            "agg" => s.agg(&us(&e["is"]), f(&e["k"])),
            "oadd" => s.oadd(u(&e["i"]), u(&e["j"])),
            "verify" => s.verify(u(&e["i"]), u(&e["j"]), f(&e["z"])),
            "batch" => s.batch(&us(&e["is"]), &us(&e["js"]), &fs(&e["zs"])),
            "forgecom" => s.forgecom(f(&e["k"])),
            "forgeopen" => s.forgeopen(f(&e["k"]), f(&e["y"])),
            "altery" => s.altery(u(&e["i"]), f(&e["d"])),
            "alterw" => s.alterw(u(&e["i"]), f(&e["k"])),
            o => panic!("unknown op {o}"),
        }
    }
}

fn poly(rng: &mut StdRng, len: usize) -> Vec<Fr> {
    (0..len).map(|_| sfr(rng)).collect()
}
/// Shapes of polynomials with `len` coefficients that implementations treat differently.
fn shapes(rng: &mut StdRng, len: usize) -> Vec<Vec<Fr>> {
    let mut dense: Vec<Fr> = (0..len).map(|_| rfr(rng)).collect();
    let mut out = vec![dense.clone()];
    if len > 0 {
        let mut sparse = vec![Fr::zero(); len];
        sparse[len - 1] = rfr(rng);
        out.push(sparse.clone());
        sparse[0] = Fr::one();
        out.push(sparse);
        dense[len / 2] = Fr::zero();
        dense[0] = Fr::zero();
        out.push(dense.clone());
        dense.push(Fr::zero());
        dense.push(Fr::zero());
        out.push(dense);
        out.push(vec![-Fr::one(); len]);
        out.push(vec![Fr::zero(); len]);
    }
    out
}
fn secrets(rng: &mut StdRng) -> Vec<Fr> {
    vec![Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2u64), Fr::from(5u64), rfr(rng), rfr(rng), rfr(rng)]
}
fn points(rng: &mut StdRng, secret: Fr, f: &[Fr]) -> Vec<Fr> {
    let mut v = vec![Fr::zero(), Fr::one(), -Fr::one(), secret, secret + Fr::one(), Fr::from(3u64), rfr(rng)];
    if f.len() == 2 && !f[1].is_zero() {
        v.push(-f[0] / f[1]); // a root
    }
    v
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let mut rng = cfg.rng(11);

    for (k, script) in cfg.scripts.iter().enumerate() {
        let script = script.clone();
        let seed = cfg.seed ^ (k as u64);
        scen(&mut out, "history", move |rec| replay(rec, &script, k % 2 == 0, seed));
    }

    // lengths up to and beyond the capacity of the setup
    let sizes: Vec<usize> = if cfg.thorough { vec![0, 1, 2, 3, 5, 8, 13, 29, 61, 125, 300, 509] } else { vec![0, 1, 2, 5, 13, 61, 200] };
    for &n in &sizes {
        let cap = n + 3;
        let all: Vec<usize> = if n <= 13 { (0..=cap + 2).collect() } else { vec![0, 1, 2, n / 2, n, n + 1, n + 2, cap, cap + 1, cap + 5] };
        for chunk in all.chunks(4) {
            let (lens, secret, seed) = (chunk.to_vec(), rfr(&mut rng), rng.gen::<u64>());
            scen(&mut out, "sizes", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let mut s = Session::new(rec, secret, n);
                for &len in &lens {
                    for (k, f) in shapes(&mut rng, len).iter().enumerate() {
                        if len > 40 && k > 2 {
                            continue;
                        }
                        let before = s.coms.len();
                        s.commit(f, k % 2 == 0);
                        s.commit(f, k % 2 == 1);
                        let z = sfr(&mut rng);
                        let ob = s.opens.len();
                        s.open(f, z, k % 2 == 0);
                        if s.coms.len() > before && s.opens.len() > ob {
                            s.verify(s.coms.len(), s.opens.len(), z);
                        }
                    }
                }
            });
        }
    }

    // openings of many polynomials at special points, under special secrets, honest and altered
    for (k, secret) in secrets(&mut rng).into_iter().enumerate() {
        for rep in 0..cfg.n(2, 12) {
            let seed = rng.gen::<u64>();
            scen(&mut out, "openings", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let n = 6;
                let mut s = Session::new(rec, secret, n);
                let mut polys = vec![vec![], vec![rfr(&mut rng)], vec![Fr::one(), -Fr::one()], poly(&mut rng, 2), poly(&mut rng, 4 + k % 4), poly(&mut rng, n + 3)];
                if rep % 2 == 1 {
                    polys = (0..4).map(|i| poly(&mut rng, 1 + 2 * i)).collect();
                }
                for (pi, f) in polys.iter().enumerate() {
                    s.commit(f, pi % 2 == 0);
                    let c = s.coms.len();
                    for z in points(&mut rng, secret, f) {
                        s.open(f, z, rng.gen());
                        let o = s.opens.len();
                        if o == 0 || c == 0 {
                            continue;
                        }
                        s.verify(c, o, z);
                        match rng.gen_range(0..6) {
                            0 => {
                                let d = if rng.gen() { Fr::one() } else { rfr(&mut rng) };
                                s.altery(o, d);
                                s.verify(c, o + 1, z);
                            }
                            1 => {
                                let d = if rng.gen() { Fr::one() } else { rfr(&mut rng) };
                                s.alterw(o, d);
                                s.verify(c, o + 1, z);
                            }
                            2 => s.verify(c, o, z + Fr::one()),
                            3 => {
                                let d = sfr(&mut rng);
                                s.verify(c, o, d)
                            }
                            4 => {
                                let d = sfr(&mut rng);
                                s.forgecom(d);
                                let last = s.coms.len();
                                s.verify(last, o, z);
                                // a value and witness made up to fit a made-up commitment
                                let (w, y) = (rfr(&mut rng), sfr::<Fr>(&mut rng));
                                s.forgecom((secret - z) * w + y);
                                s.forgeopen(w, y);
                                s.verify(s.coms.len(), s.opens.len(), z);
                                s.verify(last, s.opens.len(), z);
                            }
                            _ => s.verify(rng.gen_range(1..=c), o, z),
                        }
                    }
                }
            });
        }
    }

    // polynomials of many coefficients, with zeros at either end and in between
    if cfg.is(&["K01", "K02", "K03", "K05"]) {
        for len in if cfg.thorough { vec![16usize, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257] } else { vec![17, 32, 65, 128] } {
            let (seed, secret) = (rng.gen::<u64>(), rfr(&mut rng));
            scen(&mut out, "many coefficients", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let mut s = Session::new(rec, secret, len);
                for k in 0..4 {
                    let mut f: Vec<Fr> = (0..len + k).map(|_| rfr(&mut rng)).collect();
                    match k {
                        1 => f[..len / 2].fill(Fr::zero()),
                        2 => f[1..len - 1].fill(Fr::zero()),
                        3 => f[len / 4..len / 2].fill(Fr::zero()),
                        _ => {}
                    }
                    s.commit(&f, k % 2 == 0);
                    let c = s.coms.len();
                    for z in [rfr(&mut rng), Fr::one(), secret] {
                        s.open(&f, z, k % 2 == 1);
                        let o = s.opens.len();
                        if c == 0 || o == 0 {
                            return;
                        }
                        s.verify(c, o, z);
                        s.altery(o, Fr::one());
                        s.verify(c, o + 1, z);
                        s.alterw(o, Fr::one());
                        s.verify(c, o + 2, z);
                        s.verify(c, o, z + Fr::one());
                    }
                }
                // sums of many
                let n = s.coms.len();
                for m in [9usize, 16, 17, 33, len] {
                    let is: Vec<usize> = (0..m).map(|_| rng.gen_range(1..=n)).collect();
                    for k in [Fr::one(), rfr(&mut rng)] {
                        s.agg(&is, k);
                    }
                }
                for i in 1..=n {
                    s.add(i, n);
                    s.sub(n, i);
                    s.mul(i, rfr(&mut rng), i % 2 == 0);
                }
            });
        }
    }

    // batches: sizes, duplicates, equal points, and errors chosen to cancel
    if cfg.is(&["K04"]) {
        for m in if cfg.thorough { vec![17, 24, 31, 33, 48, 64, 65, 100, 129] } else { vec![17, 24, 33, 65] } {
            let (seed, secret) = (rng.gen::<u64>(), rfr(&mut rng));
            scen(&mut out, "long batches", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let mut s = Session::new(rec, secret, 4);
                s.seed = seed;
                let mut zs = vec![];
                for i in 0..m {
                    let f = poly(&mut rng, i % 4);
                    let z = sfr(&mut rng);
                    s.commit(&f, i % 2 == 0);
                    s.open(&f, z, i % 2 == 1);
                    zs.push(z);
                }
                let is: Vec<usize> = (1..=m).collect();
                if s.coms.len() != m || s.opens.len() != m {
                    return;
                }
                s.batch(&is, &is, &zs);
                for i in [0, 7, 8, 15, 16, m / 2, m - 2, m - 1] {
                    if i % 2 == 0 {
                        s.altery(i + 1, rfr(&mut rng));
                    } else {
                        s.alterw(i + 1, rfr(&mut rng));
                    }
                    let mut js = is.clone();
                    js[i] = s.opens.len();
                    s.batch(&is, &js, &zs);
                }
                // two that cancel if weighed alike
                for (i, j) in [(0, m - 1), (m - 2, m - 1), (3, m / 2)] {
                    let d = rfr(&mut rng);
                    let mut js = is.clone();
                    s.altery(i + 1, d);
                    js[i] = s.opens.len();
                    s.altery(j + 1, -d);
                    js[j] = s.opens.len();
                    s.batch(&is, &js, &zs);
                }
            });
        }
        for rep in 0..cfg.n(40, 240) {
            let seed = rng.gen::<u64>();
            let secret = if rep % 8 == 0 { Fr::from(rep as u64 / 8) } else { rfr(&mut rng) };
            scen(&mut out, "batches", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let mut s = Session::new(rec, secret, 6);
                s.seed = seed;
                let m = [1, 2, 2, 3, 4, 5, 8, 16][rep % 8];
                let z0 = sfr(&mut rng);
                let mut zs = vec![];
                for i in 0..m {
                    let l = rng.gen_range(0..8);
                    let f = poly(&mut rng, l);
                    let z = if rep % 3 == 0 { z0 } else { sfr(&mut rng) };
                    s.commit(&f, i % 2 == 0);
                    s.open(&f, z, i % 2 == 1);
                    zs.push(z);
                }
                let k = s.coms.len().min(s.opens.len()).min(m);
                let is: Vec<usize> = (1..=k).collect();
                zs.truncate(k);
                s.batch(&[], &[], &[]);
                s.batch(&is, &is, &zs);
                for i in 0..k {
                    s.batch(&is[i..=i], &is[i..=i], &zs[i..=i]);
                }
                // one bad item in each position
                let base = s.opens.len();
                for i in 0..k {
                    match rng.gen_range(0..2) {
                        0 => s.altery(i + 1, if rng.gen() { Fr::one() } else { rfr(&mut rng) }),
                        _ => s.alterw(i + 1, if rng.gen() { Fr::one() } else { rfr(&mut rng) }),
                    }
                    let mut js = is.clone();
                    js[i] = base + i + 1;
                    s.batch(&is, &js, &zs);
                    s.batch(&[i + 1], &[base + i + 1], &zs[i..=i]);
                }
                // one wrong point, one swapped pair of openings
                if k >= 2 {
                    let mut z2 = zs.clone();
                    let i = rng.gen_range(0..k);
                    z2[i] += Fr::one();
                    s.batch(&is, &is, &z2);
                    let mut js = is.clone();
                    js.swap(0, k - 1);
                    s.batch(&is, &js, &zs);
                    let mut z3 = zs.clone();
                    z3.swap(0, k - 1);
                    s.batch(&is, &is, &z3);
                    let mut i3 = is.clone();
                    i3.swap(0, k - 1);
                    s.batch(&i3, &js, &z3);
                }
                // errors that cancel under fixed coefficients: weights (1,-1), (1,-2), (2,-1), (1,1,-2), powers
                if k >= 2 {
                    for weights in [vec![1i64, -1], vec![1, -2], vec![2, -1], vec![1, 1, -2], vec![1, -2, 1], vec![4, -2, 0], vec![1, 0, -1], vec![1, -3, 3, -1]] {
                        if weights.len() > k {
                            continue;
                        }
                        let at = rng.gen_range(0..=k - weights.len());
                        let d = if rng.gen() { Fr::one() } else { rfr(&mut rng) };
                        let mut js = is.clone();
                        for (o, w) in weights.iter().enumerate() {
                            if *w == 0 {
                                continue;
                            }
                            let w = if *w < 0 { -Fr::from((-w) as u64) } else { Fr::from(*w as u64) };
                            // the error enters through the value: C - y G changes by -w d G
                            s.altery(at + o + 1, d * w);
                            js[at + o] = s.opens.len();
                        }
                        s.batch(&is, &js, &zs);
                        // ... or through the witness, scaled so that (s - z) W changes by w d
                        let mut js = is.clone();
                        for (o, w) in weights.iter().enumerate() {
                            let den = secret - zs[at + o];
                            if *w == 0 || den.is_zero() {
                                continue;
                            }
                            let w = if *w < 0 { -Fr::from((-w) as u64) } else { Fr::from(*w as u64) };
                            s.alterw(at + o + 1, d * w / den);
                            js[at + o] = s.opens.len();
                        }
                        s.batch(&is, &js, &zs);
                    }
                    // ... under weights of few bits from the caller's randomness
                    for bits in [8, 16, 32] {
                        let mut coins = s.coins();
                        let narrow: Vec<Fr> = (0..k).map(|_| match bits {
                            8 => Fr::from(coins.gen::<u8>()),
                            16 => Fr::from(coins.gen::<u16>()),
                            _ => Fr::from(coins.gen::<u32>()),
                        }).collect();
                        let (i, j) = (rng.gen_range(0..k - 1), k - 1);
                        let d = rfr(&mut rng);
                        let mut js = is.clone();
                        s.altery(i + 1, d * narrow[j]);
                        js[i] = s.opens.len();
                        s.altery(j + 1, -d * narrow[i]);
                        js[j] = s.opens.len();
                        s.batch(&is, &js, &zs);
                    }
                    // witness shifts that cancel in the sum of witnesses
                    let mut js = is.clone();
                    let d = rfr(&mut rng);
                    s.alterw(1, d);
                    js[0] = s.opens.len();
                    s.alterw(2, -d);
                    js[1] = s.opens.len();
                    s.batch(&is, &js, &zs);
                }
                // lists of different lengths
                if k >= 1 {
                    s.batch(&is[1..], &is, &zs);
                    s.batch(&is, &is[1..], &zs);
                    s.batch(&is, &is, &zs[1..]);
                    s.batch(&is, &is[1..], &zs[1..]);
                    s.batch(&is[1..], &is, &zs[1..]);
                    s.batch(&is[1..], &is[1..], &zs);
                }
            });
        }
    }

    // arithmetic on commitments and openings
    if cfg.is(&["K05", "K01", "K02"]) {
        for rep in 0..cfg.n(16, 120) {
            let seed = rng.gen::<u64>();
            let secret = if rep % 8 == 0 { Fr::from(rep as u64 / 8) } else { rfr(&mut rng) };
            scen(&mut out, "arithmetic", move |rec| {
                let mut rng = StdRng::seed_from_u64(seed);
                let mut s = Session::new(rec, secret, 9);
                let z = if rep % 4 == 0 { secret } else { sfr(&mut rng) };
                let mut fs = vec![vec![], vec![Fr::one()]];
                for _ in 0..4 {
                    let l = rng.gen_range(1..12);
                    fs.push(poly(&mut rng, l));
                }
                let neg: Vec<Fr> = fs[2].iter().map(|x| -*x).collect();
                fs.push(neg);
                fs.push(fs[3].clone());
                for (i, f) in fs.iter().enumerate() {
                    s.commit(f, i % 2 == 0);
                    s.open(f, z, i % 2 == 1);
                }
                let n = s.coms.len();
                if n != s.opens.len() || n == 0 {
                    return;
                }
                s.para(Fr::zero());
                s.para(Fr::one());
                let v = sfr(&mut rng);
                s.para(v);
                for i in 1..=n {
                    let j = rng.gen_range(1..=n);
                    s.add(i, j);
                    let sum = s.coms.len();
                    s.oadd(i, j);
                    s.verify(sum, s.opens.len(), z);
                    s.sub(i, j);
                    s.neg(i);
                    let k = sfr(&mut rng);
                    s.mul(i, k, i % 2 == 0);
                    s.mul(i, k, i % 2 == 1);
                    s.add(i, i);
                    s.sub(i, i);
                }
                for len in [0usize, 1, 2, 3, 5, 7] {
                    for k in [Fr::zero(), Fr::one(), -Fr::one(), sfr(&mut rng), rfr(&mut rng)] {
                        let is: Vec<usize> = (0..len).map(|_| rng.gen_range(1..=n)).collect();
                        s.agg(&is, k);
                    }
                }
                // three openings added one after the other
                s.oadd(3, 4);
                let a = s.opens.len();
                s.oadd(a, 5);
                s.agg(&[3, 4, 5], Fr::one());
                s.verify(s.coms.len(), s.opens.len(), z);
            });
        }
    }

    // setups
    if cfg.is(&["K06", "K01"]) {
        for (k, secret) in secrets(&mut rng).into_iter().enumerate() {
            let ns: Vec<usize> = if cfg.thorough { vec![0, 1, 2, 3, 7, 8, 31, 64, 150, 400] } else { vec![0, 1, 2, 7, 31] };
            for n in ns {
                if k > 3 && !cfg.thorough && n == 31 && k != 7 {
                    continue;
                }
                scen(&mut out, "setups", move |rec| {
                    rec.set("secret", fj(&secret));
                    rec.set("n", json!(n));
                    let r = guard(|| Srs::new_from_secret(secret, n));
                    let v = res(&r, |s| json!({"g1": s.g1_points().iter().map(g1).collect::<Vec<_>>(), "g2": g2(&s.g2()), "g2s": g2(&s.g2s())}));
                    rec.ev("setup", json!({"s": fj(&secret), "n": n, "res": v}));
                });
            }
        }
        for rep in 0..cfg.n(6, 40) {
            let n = [0, 1, 2, 5, 9, 20][rep % 6];
            scen(&mut out, "random-setups", move |rec| {
                rec.set("secret", json!("0"));
                rec.set("n", json!(n));
                let mut seen: Vec<Srs> = vec![];
                for m in [n, n + 1, n] {
                    let r = guard(|| Srs::new(m));
                    let v = res(&r, |s| {
                        let p = s.g1_points();
                        // e(P_i+1, G2) = e(P_i, sG2): the pairing of the curve library is an oracle
                        let chain = (1..p.len()).all(|i| Bls12_381::pairing(p[i], s.g2()) == Bls12_381::pairing(p[i - 1], s.g2s()));
                        let fresh = seen.iter().all(|o| o.g2s() != s.g2s() && o.g1_points()[1] != p[1]);
                        json!({"len": p.len(), "first": g1(&p[0]), "second": g1(&p[1]), "g2": g2(&s.g2()), "g2s": g2(&s.g2s()), "chain": chain, "fresh": fresh})
                    });
                    rec.ev("newsetup", json!({"n": m, "res": v}));
                    if let Ok(s) = r {
                        // the setup works: commit and open under the unknown secret
                        let scheme = KzgScheme::new(s.clone());
                        let f: Vec<Fr> = (0..m + 3).map(|i| Fr::from(i as u64 + 1)).collect();
                        let p = DensePolynomial::from_coefficients_slice(&f);
                        let z = Fr::from(7u64);
                        let ok = guard(|| {
                            let (c, o) = (scheme.commit(&p), scheme.open(&p, z));
                            scheme.verify(&c, &o, z) && o.1 == p.evaluate(&z) && !scheme.verify(&c, &o, z + Fr::one())
                        });
                        rec.ev("usesetup", json!({"n": m, "res": res(&ok, |b| json!(b))}));
                        seen.push(s);
                    }
                }
            });
        }
    }
    out
}
