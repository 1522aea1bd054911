//! Circuits, proofs and verdicts of the plonk crate. The setup's secret is known to the recorder.
use crate::common::*;
use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial};
use digest::generic_array::GenericArray;
use digest::{FixedOutput, HashMarker, OutputSizeUser, Update};
use kzg::commitment::KzgCommitment;
use kzg::srs::Srs;
use plonk::challenge::ChallengeGenerator;
use plonk::circuit::Circuit;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};

/// A hash of eight bytes.
#[derive(Clone, Default)]
pub struct Len8(sha2::Sha256);
impl HashMarker for Len8 {}
impl Update for Len8 {
    fn update(&mut self, d: &[u8]) {
        Update::update(&mut self.0, d)
    }
}
impl OutputSizeUser for Len8 {
    type OutputSize = digest::consts::U8;
}
impl FixedOutput for Len8 {
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) {
        let d = FixedOutput::finalize_fixed(self.0);
        out.copy_from_slice(&d[3..11]);
    }
}
impl std::io::Write for Len8 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Update::update(&mut self.0, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[macro_export]
macro_rules! with_hash {
    ($name:expr, $f:ident ( $($a:expr),* )) => {
        match $name {
            "sha512" => $f::<sha2::Sha512>($($a),*),
            "sha384" => $f::<sha2::Sha384>($($a),*),
            "sha224" => $f::<sha2::Sha224>($($a),*),
            "len8" => $f::<$crate::plonk_d::Len8>($($a),*),
            _ => $f::<sha2::Sha256>($($a),*),
        }
    };
}
pub const HASHES: [&str; 5] = ["sha256", "sha512", "sha384", "sha224", "len8"];

#[derive(Clone, Copy, PartialEq)]
pub struct W(pub usize, pub usize, pub Fr);
#[derive(Clone)]
pub struct Gate {
    pub k: &'static str,
    pub w: [W; 3],
    pub pi: Fr,
}
fn kind(s: &str) -> &'static str {
    match s {
        "add" => "add",
        "mul" => "mul",
        _ => "const",
    }
}
fn gate_json(g: &Gate) -> Value {
    json!({"k": g.k, "w": g.w.iter().map(|w| json!({"c": w.0, "r": w.1, "v": fj(&w.2)})).collect::<Vec<_>>(), "pi": fj(&g.pi)})
}
pub fn build(gates: &[Gate]) -> Circuit {
    let mut c = Circuit::default();
    for g in gates {
        let [a, b, o] = g.w.map(|w| (w.0, w.1, w.2));
        match g.k {
            "add" => c.add_addition_gate(a, b, o, g.pi),
            "mul" => c.add_multiplication_gate(a, b, o, g.pi),
            _ => c.add_constant_gate(a, b, o, g.pi),
        }
    }
    c
}

const GN: [&str; 9] = ["a", "b", "c", "z", "tlo", "tmid", "thi", "wx", "wwx"];
const FN: [&str; 7] = ["ba", "bb", "bc", "bs1", "bs2", "bzw", "u"];
#[derive(Clone, PartialEq)]
pub struct Pf {
    g: [G1Affine; 9],
    f: [Fr; 7],
    deg: usize,
}
impl Pf {
    fn of(p: &Proof) -> Pf {
        Pf {
            g: [&p.a_commit, &p.b_commit, &p.c_commit, &p.z_commit, &p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit, &p.w_ev_x_commit, &p.w_ev_wx_commit].map(|c| c.0),
            f: [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w, p.u],
            deg: p.degree,
        }
    }
    fn proof(&self) -> Proof {
        let c = |i: usize| KzgCommitment(self.g[i]);
        Proof {
            a_commit: c(0), b_commit: c(1), c_commit: c(2), z_commit: c(3), t_lo_commit: c(4), t_mid_commit: c(5), t_hi_commit: c(6),
            w_ev_x_commit: c(7), w_ev_wx_commit: c(8),
            bar_a: self.f[0], bar_b: self.f[1], bar_c: self.f[2], bar_s_sigma_1: self.f[3], bar_s_sigma_2: self.f[4], bar_z_w: self.f[5],
            u: self.f[6], degree: self.deg,
        }
    }
    fn json(&self) -> Value {
        let mut m = serde_json::Map::new();
        for i in 0..9 {
            m.insert(GN[i].into(), g1(&self.g[i]));
        }
        for i in 0..7 {
            m.insert(FN[i].into(), fj(&self.f[i]));
        }
        m.insert("deg".into(), json!(self.deg.to_string()));
        Value::Object(m)
    }
    fn from_json(v: &Value) -> Pf {
        let mut p = Pf { g: [G1Affine::zero(); 9], f: [Fr::zero(); 7], deg: v["deg"].as_str().unwrap().parse().unwrap() };
        for i in 0..9 {
            p.g[i] = crate::common::parse_g1(v[GN[i]].as_str().unwrap());
        }
        for i in 0..7 {
            p.f[i] = crate::common::parse_f(v[FN[i]].as_str().unwrap());
        }
        p
    }
    fn alter(&mut self, f: &str, d: u64, rng: &mut StdRng) {
        let g = G1Affine::generator();
        if let Some(i) = GN.iter().position(|n| *n == f) {
            let x = G1Projective::from(self.g[i]);
            self.g[i] = match d {
                0 => G1Projective::zero(),
                1 => x + g,
                2 => -x,
                3 => x + x,
                _ => x + g * rfr(rng),
            }
            .into_affine();
        } else if let Some(i) = FN.iter().position(|n| *n == f) {
            let x = self.f[i];
            self.f[i] = match d {
                0 => Fr::zero(),
                1 => x + Fr::one(),
                2 => -x,
                3 => x + x,
                _ => x + rfr(rng),
            };
        } else {
            self.deg = match d {
                0 => 0,
                1 => self.deg.wrapping_add(1),
                2 => usize::MAX,
                3 => self.deg.wrapping_mul(2),
                4 => rng.gen(),
                _ => self.deg.wrapping_sub(1),
            };
        }
    }
    fn exchange(&mut self, f: &str, g: &str) {
        if let (Some(i), Some(j)) = (GN.iter().position(|n| *n == f), GN.iter().position(|n| *n == g)) {
            self.g.swap(i, j);
        } else if let (Some(i), Some(j)) = (FN.iter().position(|n| *n == f), FN.iter().position(|n| *n == g)) {
            self.f.swap(i, j);
        }
    }
    fn take(&mut self, f: &str, o: &Pf) {
        if let Some(i) = GN.iter().position(|n| *n == f) {
            self.g[i] = o.g[i];
        } else if let Some(i) = FN.iter().position(|n| *n == f) {
            self.f[i] = o.f[i];
        } else {
            self.deg = o.deg;
        }
    }
}

/// beta, gamma, alpha, zeta, v, u
type Ch = [Fr; 6];
fn pc(x: Fr) -> G1Affine {
    (G1Affine::generator() * x).into_affine()
}
fn fed_json(stm: &[G1Affine], pf: &Pf) -> Value {
    let l = |v: &[G1Affine]| Value::Array(v.iter().map(g1).collect());
    let para: Vec<G1Affine> = pf.f[..6].iter().map(|x| pc(*x)).collect();
    json!([l(stm), l(&pf.g[0..3]), l(&pf.g[3..4]), l(&pf.g[4..7]), l(&para), l(&pf.g[7..9])])
}
/// The code's transcript, asked in the order of the specification.
fn ask<T: sha2::Digest + Default>(stm: &[G1Affine], pf: &Pf) -> Ch {
    let c = |p: &G1Affine| KzgCommitment(*p);
    let mut t = ChallengeGenerator::<T>::from_commitments(&stm.iter().map(c).collect::<Vec<_>>());
    pf.g[0..3].iter().for_each(|p| t.feed(&c(p)));
    let [beta, gamma] = t.generate_challenges();
    t.feed(&c(&pf.g[3]));
    let [alpha] = t.generate_challenges();
    pf.g[4..7].iter().for_each(|p| t.feed(&c(p)));
    let [zeta] = t.generate_challenges();
    pf.f[..6].iter().for_each(|x| t.feed(&KzgCommitment(pc(*x))));
    let [v] = t.generate_challenges();
    pf.g[7..9].iter().for_each(|p| t.feed(&c(p)));
    let [u] = t.generate_challenges();
    [beta, gamma, alpha, zeta, v, u]
}
fn ch_json(c: &Ch) -> Value {
    json!({"beta": fj(&c[0]), "gamma": fj(&c[1]), "alpha": fj(&c[2]), "zeta": fj(&c[3]), "v": fj(&c[4]), "u": fj(&c[5])})
}

pub struct Circ {
    pub cc: CompiledCircuit,
    pub gates: Vec<Gate>,
    coms: Vec<G1Affine>,
    at: Vec<Fr>, // m l r o q s1 s2 s3 pi at the secret
}
pub fn polys(cc: &CompiledCircuit) -> Vec<(&'static str, DensePolynomial<Fr>)> {
    let (g, c) = (cc.gate_constraints(), cc.copy_constraints());
    vec![
        ("m", g.q_mx().clone()), ("l", g.q_lx().clone()), ("r", g.q_rx().clone()), ("o", g.q_ox().clone()), ("q", g.q_cx().clone()),
        ("s1", c.s_sigma_1().clone()), ("s2", c.s_sigma_2().clone()), ("s3", c.s_sigma_3().clone()), ("pi", g.pi_x().clone()),
        ("a", g.f_ax().clone()), ("b", g.f_bx().clone()), ("c", g.f_cx().clone()),
    ]
}
pub fn compiled_json(cc: &CompiledCircuit) -> Value {
    let mut f = serde_json::Map::new();
    for (n, p) in polys(cc) {
        f.insert(n.into(), fv(p.coeffs()));
    }
    let w = GeneralEvaluationDomain::<Fr>::new(cc.size).map_or(Fr::zero(), |d| d.group_gen());
    json!({"n": cc.size, "w": fj(&w), "k1": fj(cc.copy_constraints().k1()), "k2": fj(cc.copy_constraints().k2()), "f": f})
}

pub struct Made {
    c: usize,
    hash: String,
    pf: Option<Pf>,
    cap: usize,
}
pub struct Ses<'a> {
    rec: &'a mut Rec,
    s: Fr,
    circs: Vec<Option<Circ>>,
    made: Vec<Made>,
    rng: StdRng,
    masks: bool,
}
fn prove_t<T: sha2::Digest + Default>(cc: &CompiledCircuit, srs: Srs) -> Result<Pf, String> {
    guard(|| Pf::of(&generate_proof::<T>(cc, srs)))
}
fn verify_t<T: sha2::Digest + Default>(cc: &CompiledCircuit, srs: Srs, pf: &Pf) -> Result<bool, String> {
    guard(|| verify::<T>(cc, srs, pf.proof()).is_ok())
}
/// A proof, and the polynomials its first four commitments are of (if the hook has seen them).
fn prove_seen(hash: &str, cc: &CompiledCircuit, srs: Srs, see: bool) -> (Result<Pf, String>, Value) {
    if !see {
        return (with_hash!(hash, prove_t(cc, srs)), Value::Null);
    }
    kzg::verif::start();
    let r = with_hash!(hash, prove_t(cc, srs));
    let log = kzg::verif::take();
    let mut polys = serde_json::Map::new();
    if let Ok(pf) = &r {
        for (i, k) in ["a", "b", "c", "z"].into_iter().enumerate() {
            if let Some((p, _)) = log.iter().find(|(_, c)| *c == pf.g[i]) {
                polys.insert(k.into(), fv(p.coeffs()));
            }
        }
    }
    let all = polys.len() == 4;
    (r, if all { polys.into() } else { Value::Null })
}
impl<'a> Ses<'a> {
    pub fn new(rec: &'a mut Rec, seed: u64, maskcheck: bool) -> Self {
        let mut rng = StdRng::seed_from_u64(seed);
        let s = rfr(&mut rng);
        rec.set("secret", fj(&s));
        rec.set("maskcheck", json!(maskcheck));
        Ses { rec, s, circs: vec![], made: vec![], rng, masks: maskcheck }
    }
    /// Records and compiles a circuit; its number is returned.
    pub fn circuit(&mut self, gates: &[Gate]) -> usize {
        self.rec.ev("new", json!({}));
        for g in gates {
            self.rec.ev("gate", json!({"g": gate_json(g)}));
        }
        let r = guard(|| build(gates).compile()).and_then(|x| x);
        self.rec.ev("compile", json!({"res": res(&r, compiled_json)}));
        self.circs.push(r.ok().map(|cc| {
            let at: Vec<Fr> = polys(&cc).iter().take(9).map(|(_, p)| p.evaluate(&self.s)).collect();
            Circ { gates: gates.to_vec(), coms: at.iter().map(|x| pc(*x)).collect(), at, cc }
        }));
        self.circs.len()
    }
    fn size(&self, c: usize) -> usize {
        self.circs[c - 1].as_ref().map_or(0, |x| x.cc.size)
    }
    pub fn prove(&mut self, c: usize, hash: &str, extra: usize) -> usize {
        let Some(circ) = &self.circs[c - 1] else { return 0 };
        let cap = circ.cc.size + extra;
        let srs = Srs::new_from_secret(self.s, cap);
        let (r, polys) = prove_seen(hash, &circ.cc, srs, self.masks);
        self.made_event(c, hash, cap, r, polys, "here")
    }
    fn made_event(&mut self, c: usize, hash: &str, cap: usize, r: Result<Pf, String>, polys: Value, via: &str) -> usize {
        let circ = self.circs[c - 1].as_ref().unwrap();
        let mut e = json!({"c": c, "hash": hash, "cap": cap, "via": via, "res": res(&r, Pf::json)});
        if let Ok(pf) = &r {
            let coms = &circ.coms[..];
            e["ch"] = ch_json(&with_hash!(hash, ask(coms, pf)));
            e["fed"] = fed_json(coms, pf);
            if polys.is_object() {
                e["polys"] = polys;
            }
        }
        self.rec.ev("prove", e);
        self.made.push(Made { c, hash: hash.into(), pf: r.ok(), cap });
        self.made.len()
    }
    /// The same statement proved by another process.
    fn prove_elsewhere(&mut self, c: usize, hash: &str) {
        let Some(circ) = &self.circs[c - 1] else { return };
        let req = json!({"gates": circ.gates.iter().map(gate_json).collect::<Vec<_>>(), "hash": hash, "s": fj(&self.s), "n": circ.cc.size});
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("plonk-prove").arg(req.to_string()).output();
        let r = out.map_err(|e| e.to_string()).and_then(|o| {
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            t.lines().find_map(|l| l.strip_prefix("@@").map(|j| serde_json::from_str::<Value>(j).unwrap())).ok_or("no proof".to_string())
        });
        let polys = r.as_ref().map_or(Value::Null, |v| v["polys"].clone());
        let r = r.map(|v| Pf::from_json(&v["pf"]));
        let cap = self.size(c);
        self.made_event(c, hash, cap, r, polys, "elsewhere");
    }
    fn verdict(&mut self, c: usize, pf: &Pf, hash: &str, cap: usize, p: usize, pins: bool, how: &str) {
        let Some(circ) = &self.circs[c - 1] else { return };
        let srs = Srs::new_from_secret(self.s, cap);
        let r = with_hash!(hash, verify_t(&circ.cc, srs, pf));
        let coms = &circ.coms[..];
        let ch = with_hash!(hash, ask(coms, pf));
        self.rec.ev("verify", json!({"c": c, "hash": hash, "cap": cap, "p": p, "pins": pins, "how": how, "pf": pf.json(), "ch": ch_json(&ch), "fed": fed_json(coms, pf), "res": res(&r, |b| json!(b))}));
    }
    fn check(&mut self, p: usize) {
        if p == 0 {
            return;
        }
        let m = &self.made[p - 1];
        if let Some(pf) = m.pf.clone() {
            let (c, h, cap) = (m.c, m.hash.clone(), m.cap);
            self.verdict(c, &pf, &h, cap, p, true, "as made");
        }
    }
    pub fn prove_and_check(&mut self, c: usize, hash: &str, extra: usize) {
        let p = self.prove(c, hash, extra);
        self.check(p);
    }
    /// With the code's own random setup.
    pub fn usual(&mut self, c: usize) {
        let Some(circ) = &self.circs[c - 1] else { return };
        let r = guard(|| {
            let srs = Srs::new(circ.cc.size);
            let pf = generate_proof::<sha2::Sha256>(&circ.cc, srs.clone());
            verify::<sha2::Sha256>(&circ.cc, srs, pf).is_ok()
        });
        self.rec.ev("usual", json!({"c": c, "res": res(&r, |b| json!(b))}));
    }
    /// A proof that satisfies the verification equation by knowledge of the secret, whatever it says before.
    fn forge(&self, c: usize, hash: &str, mut pf: Pf) -> Option<Pf> {
        let circ = self.circs[c - 1].as_ref()?;
        let s = self.s;
        let coms = &circ.coms[..];
        let [beta, gamma, alpha, zeta, v, _] = with_hash!(hash, ask(coms, &pf));
        let n = circ.cc.size as u64;
        let w = GeneralEvaluationDomain::<Fr>::new(circ.cc.size)?.group_gen();
        let (k1, k2) = (*circ.cc.copy_constraints().k1(), *circ.cc.copy_constraints().k2());
        let [m, l, r, o, q, s1, s2, s3, _] = circ.at[..] else { return None };
        let [ba, bb, bc, bs1, bs2, bzw, _] = pf.f;
        let zh = zeta.pow([n]) - Fr::one();
        let l1 = zh / (Fr::from(n) * (zeta - Fr::one()));
        let pi = circ.cc.gate_constraints().pi_x().evaluate(&zeta);
        let a1 = ba + beta * bs1 + gamma;
        let b1 = bb + beta * bs2 + gamma;
        let r0 = pi - l1 * alpha * alpha - alpha * a1 * b1 * (bc + gamma) * bzw;
        let line1 = m * ba * bb + l * ba + r * bb + o * bc + q;
        let zc = alpha * (ba + beta * zeta + gamma) * (bb + beta * k1 * zeta + gamma) * (bc + beta * k2 * zeta + gamma) + l1 * alpha * alpha;
        let shift = zeta.pow([pf.deg as u64]) * zeta;
        let e = -r0 + v * ba + v * v * bb + v.pow([3]) * bc + v.pow([4]) * bs1 + v.pow([5]) * bs2;
        let plain = line1 - s3 * a1 * b1 * alpha * beta * bzw + v.pow([4]) * s1 + v.pow([5]) * s2 - e;
        let g = |i: usize| G1Projective::from(pf.g[i]);
        let f0 = G1Projective::from(pc(plain)) + g(3) * zc - (g(4) + g(5) * shift + g(6) * (shift * shift)) * zh + g(0) * v + g(1) * (v * v) + g(2) * v.pow([3]);
        let wx = f0 * (s - zeta).inverse()?;
        let wwx = (g(3) - G1Projective::from(pc(bzw))) * (s - zeta * w).inverse()?;
        pf.g[7] = wx.into_affine();
        pf.g[8] = wwx.into_affine();
        let ch = with_hash!(hash, ask(coms, &pf));
        pf.f[6] = ch[5];
        Some(pf)
    }
    /// Opening witnesses that are both wrong, so that the errors cancel under a weight known before them.
    fn cancel(&self, c: usize, hash: &str, mut pf: Pf, weight: usize, d: Fr) -> Option<Pf> {
        let circ = self.circs[c - 1].as_ref()?;
        let [beta, gamma, alpha, zeta, v, u] = with_hash!(hash, ask(&circ.coms[..], &pf));
        let w = GeneralEvaluationDomain::<Fr>::new(circ.cc.size)?.group_gen();
        let by = match weight {
            0 => Fr::one(),
            1 => -Fr::one(),
            2..=10 => v.pow([weight as u64 - 1]),
            11 => alpha,
            12 => alpha * alpha,
            13 => alpha * alpha * alpha,
            14 => beta,
            15 => gamma,
            16 => zeta,
            17 => u,
            18 => v * alpha,
            19 => v.inverse()?,
            20 => zeta * w,
            21 => alpha * v.pow([6]),
            22 => Fr::from(2u64),
            _ => Fr::zero(),
        };
        let g = |i: usize| G1Projective::from(pf.g[i]);
        let wx = g(7) + G1Projective::from(pc(-by * d * (self.s - zeta * w) * (self.s - zeta).inverse()?));
        let wwx = g(8) + G1Projective::from(pc(d));
        pf.g[7] = wx.into_affine();
        pf.g[8] = wwx.into_affine();
        self.refresh(c, hash, &mut pf);
        Some(pf)
    }
    /// The last challenge as the transcript says.
    fn refresh(&self, c: usize, hash: &str, pf: &mut Pf) {
        if let Some(circ) = &self.circs[c - 1] {
            let ch = with_hash!(hash, ask(&circ.coms[..], pf));
            pf.f[6] = ch[5];
        }
    }
    fn pick(&self, p: usize) -> Option<(usize, Pf, usize, String, usize)> {
        let live: Vec<usize> = (0..self.made.len()).filter(|i| self.made[*i].pf.is_some()).collect();
        if live.is_empty() {
            return None;
        }
        let i = live[p % live.len()];
        let m = &self.made[i];
        Some((i + 1, m.pf.clone().unwrap(), m.c, m.hash.clone(), m.cap))
    }
    /// A proof with nothing of a prover in it.
    fn noise(&mut self) -> Pf {
        let g = [(); 9].map(|_| pc(sfr(&mut self.rng)));
        let f = [(); 7].map(|_| sfr(&mut self.rng));
        Pf { g, f, deg: self.rng.gen_range(0..20) }
    }
}

fn delta(d: u64, rng: &mut StdRng) -> Fr {
    match d {
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(2u64),
        _ => {
            let x: Fr = rfr(rng);
            x
        }
    }
}

fn break_circuit(gates: &mut [Gate], e: &Value, rng: &mut StdRng) {
    let cell = |v: &Value| (v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize);
    match e["m"].as_str().unwrap() {
        "value" => {
            let (c, r) = cell(&e["x"]);
            gates[r].w[c].2 += delta(e["d"].as_u64().unwrap(), rng);
        }
        "public" => {
            let (_, r) = cell(&e["x"]);
            gates[r].pi += delta(e["d"].as_u64().unwrap(), rng);
        }
        "kind" => {
            let (_, r) = cell(&e["x"]);
            gates[r].k = kind(e["k"].as_str().unwrap());
        }
        "swap" => {
            let ((c, r), (d, t)) = (cell(&e["x"]), cell(&e["y"]));
            let (x, y) = (gates[r].w[c], gates[t].w[d]);
            gates[r].w[c] = W(y.0, y.1, x.2);
            gates[t].w[d] = W(x.0, x.1, y.2);
        }
        _ => {}
    }
}
/// The circuit of a script of GenPlonk, with values.
fn scripted(script: &Value, rng: &mut StdRng) -> Vec<Gate> {
    let nv = script["nvars"].as_u64().unwrap() as usize;
    let mut val: Vec<Option<Fr>> = vec![None; nv + 1];
    script["rows"].as_array().unwrap().iter().map(|r| {
        let x: Vec<usize> = r["x"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
        let k = kind(r["k"].as_str().unwrap());
        let mut pi = if r["pi"].as_u64() == Some(0) { Fr::zero() } else { sfr(rng) };
        for i in 0..2 {
            if val[x[i]].is_none() {
                val[x[i]] = Some(sfr(rng));
            }
        }
        let (a, b) = (val[x[0]].unwrap(), val[x[1]].unwrap());
        let full = match k {
            "add" => a + b,
            "mul" => a * b,
            _ => Fr::zero(),
        };
        if k == "const" {
            pi = Fr::zero();
            if val[x[2]].is_none() {
                val[x[2]] = Some(sfr(rng));
            }
        } else if let Some(c) = val[x[2]] {
            pi = full - c;
        } else {
            val[x[2]] = Some(full - pi);
        }
        let w = [0, 1, 2].map(|j| W(r["s"][j][0].as_u64().unwrap() as usize, r["s"][j][1].as_u64().unwrap() as usize, val[x[j]].unwrap()));
        Gate { k, w, pi }
    }).collect()
}
fn replay(rec: &mut Rec, script: &Value, seed: u64, masks: bool) {
    let mut rng = StdRng::seed_from_u64(seed ^ script["salt"].as_u64().unwrap());
    let mut gates = scripted(script, &mut rng);
    let hist = script["hist"].as_array().unwrap();
    break_circuit(&mut gates, &hist[0], &mut rng);
    let mut s = Ses::new(rec, seed ^ script["salt"].as_u64().unwrap(), masks);
    let c = s.circuit(&gates);
    s.prove_and_check(c, "sha256", 0);
    for e in &hist[1..] {
        session_move(&mut s, e, &mut rng);
    }
}
fn session_move(s: &mut Ses, e: &Value, rng: &mut StdRng) {
    let u = |k: &str| e[k].as_u64().unwrap_or(0);
    let t = |k: &str| e[k].as_str().unwrap_or("").to_string();
    let m = t("m");
    if m == "prove" {
        return s.prove_and_check(1, &t("h"), u("extra") as usize);
    }
    let (p, mut pf, c, hash, cap) = match s.pick(u("p") as usize) {
        Some(x) => x,
        // no prover has made a proof: forgers go on with noise
        None => (0, s.noise(), 1, "sha256".to_string(), s.size(1)),
    };
    match m.as_str() {
        "alter" => {
            pf.alter(&t("f"), u("d"), rng);
            s.verdict(c, &pf, &hash, cap, 0, false, &format!("altered {}", t("f")));
        }
        "amend" => {
            pf.alter(&t("f"), u("d"), rng);
            if !t("g").is_empty() {
                pf.alter(&t("g"), u("d"), rng);
            }
            s.refresh(c, &hash, &mut pf);
            s.verdict(c, &pf, &hash, cap, 0, false, &format!("altered {} {}, last challenge as the transcript says", t("f"), t("g")));
        }
        "spoil" => {
            pf.deg = [0, 1, 2, 3, 17, 1 << 40, usize::MAX, s.size(c)][u("d") as usize % 8];
            if let Some(q) = s.forge(c, &hash, pf) {
                s.verdict(c, &q, &hash, cap, 0, true, "forged for this degree");
                let mut x = q.clone();
                x.f[6] += Fr::one();
                s.verdict(c, &x, &hash, cap, 0, false, "forged, then another last challenge");
                let mut x = q.clone();
                x.alter(&t("f"), 1, rng);
                s.verdict(c, &x, &hash, cap, 0, false, "forged, then altered");
            }
        }
        "mix" => {
            if let Some((_, o, ..)) = s.pick(u("o") as usize) {
                pf.take(&t("f"), &o);
            }
            s.verdict(c, &pf, &hash, cap, 0, false, "mixed");
        }
        "exchange" => {
            pf.exchange(&t("f"), &t("g"));
            s.verdict(c, &pf, &hash, cap, 0, false, "exchanged");
        }
        "forge" => {
            pf.alter(&t("f"), u("d"), rng);
            if let Some(q) = s.forge(c, &hash, pf) {
                s.verdict(c, &q, &hash, cap, 0, true, &format!("forged around {}", t("f")));
            }
        }
        "otherhash" => {
            s.verdict(c, &pf, &t("h"), cap, 0, false, "other hash");
        }
        "biggersetup" => s.verdict(c, &pf, &hash, cap + u("d") as usize, p, true, "bigger setup"),
        "othercircuit" => {
            let mut gates = match &s.circs[c - 1] {
                Some(x) => x.gates.clone(),
                None => return,
            };
            let y = json!([(u("p") + 1) % 3, e["x"][1]]);
            let b = match u("o") {
                1 => json!({"m": "value", "x": e["x"], "d": u("d")}),
                2 => json!({"m": "public", "x": e["x"], "d": u("d")}),
                3 => json!({"m": "kind", "x": e["x"], "k": (["add", "mul", "const"][u("d") as usize % 3])}),
                _ => json!({"m": "swap", "x": e["x"], "y": y}),
            };
            break_circuit(&mut gates, &b, rng);
            let d = s.circuit(&gates);
            let cap = cap.max(s.size(d));
            s.verdict(d, &pf, &hash, cap, 0, false, "for another circuit");
            if let Some(q) = s.forge(d, &hash, pf) {
                s.verdict(d, &q, &hash, cap, 0, true, "forged for another circuit");
            }
        }
        o => panic!("unknown move {o}"),
    }
}

const MISREADINGS: usize = 13;
/// A chain of gates of the two kinds, each result used by the next gate, whose equations hold in a wrong reading `m`.
fn misread(n: usize, m: usize, which: &[&'static str; 2], left: Option<Fr>, public: Option<Fr>, rng: &mut StdRng) -> Vec<Gate> {
    let two = Fr::from(2u64);
    let mut carry: Fr = rfr(rng);
    let mut gates: Vec<Gate> = vec![];
    for r in 0..n {
        let k = which[(r + m) % 2];
        let (a, b, pi) = (left.unwrap_or_else(|| rfr(rng)), carry, public.unwrap_or_else(|| rfr(rng)));
        let other = if k == "add" { a * b } else { a + b };
        let full = if k == "add" { a + b } else { a * b };
        // with no public input, or without regard to it
        let c = match m {
            0 => full + pi,
            1 => full,
            2 => full - pi * two,
            3 => other - pi,
            4 => pi - full,
            5 => -full - pi,
            6 => a - b - pi,
            7 => a - pi,
            8 => b - pi,
            9 => Fr::zero(),
            10 => a * a - pi,
            11 => full * two - pi,
            _ => full * pi,
        };
        let from = if r == 0 { W(1, 0, b) } else { W(2, r - 1, b) };
        if r > 0 {
            gates[r - 1].w[2] = W(1, r, b);
        }
        gates.push(Gate { k, w: [W(0, r, a), from, W(2, r, c)], pi });
        carry = c;
    }
    gates
}

/// A satisfied circuit of `n` gates; cells of equal variables are joined in one cycle in the order of `cyc`.
pub fn satisfied(n: usize, rng: &mut StdRng, pis: bool, fresh: f64) -> Vec<Gate> {
    let mut vals: Vec<Fr> = vec![];
    let mut cells: Vec<Vec<(usize, usize)>> = vec![];
    let mut gates = vec![];
    let wire = |rng: &mut StdRng, vals: &mut Vec<Fr>, cells: &mut Vec<Vec<(usize, usize)>>, c: usize, r: usize, v: Option<Fr>| -> Fr {
        let i = match v {
            None if !vals.is_empty() && !rng.gen_bool(fresh) => rng.gen_range(0..vals.len()),
            _ => {
                vals.push(v.unwrap_or_else(|| sfr(rng)));
                cells.push(vec![]);
                vals.len() - 1
            }
        };
        let at = rng.gen_range(0..=cells[i].len());
        cells[i].insert(at, (c, r));
        vals[i]
    };
    for r in 0..n {
        let k = ["add", "mul", "add", "mul", "const"][rng.gen_range(0..5)];
        let a = wire(rng, &mut vals, &mut cells, 0, r, None);
        let b = wire(rng, &mut vals, &mut cells, 1, r, None);
        let full = if k == "add" { a + b } else { a * b };
        let mut pi = if pis { sfr(rng) } else { Fr::zero() };
        let c = if k == "const" {
            pi = Fr::zero();
            wire(rng, &mut vals, &mut cells, 2, r, None)
        } else if pis && rng.gen_bool(0.4) {
            let c = wire(rng, &mut vals, &mut cells, 2, r, None);
            pi = full - c;
            c
        } else {
            let v = full - pi;
            wire(rng, &mut vals, &mut cells, 2, r, Some(v))
        };
        gates.push(Gate { k, w: [W(0, r, a), W(1, r, b), W(2, r, c)], pi });
    }
    for cyc in &cells {
        for (i, x) in cyc.iter().enumerate() {
            let y = cyc[(i + 1) % cyc.len()];
            let w = &mut gates[x.1].w[x.0];
            w.0 = y.0;
            w.1 = y.1;
        }
    }
    gates
}

pub fn child(req: &str) {
    let v: Value = serde_json::from_str(req).unwrap();
    let gates: Vec<Gate> = v["gates"].as_array().unwrap().iter().map(|g| Gate {
        k: kind(g["k"].as_str().unwrap()),
        w: [0, 1, 2].map(|j| W(g["w"][j]["c"].as_u64().unwrap() as usize, g["w"][j]["r"].as_u64().unwrap() as usize, parse_f(g["w"][j]["v"].as_str().unwrap()))),
        pi: parse_f(g["pi"].as_str().unwrap()),
    }).collect();
    let cc = build(&gates).compile().unwrap();
    let srs = Srs::new_from_secret(parse_f(v["s"].as_str().unwrap()), v["n"].as_u64().unwrap() as usize);
    let (r, polys) = prove_seen(v["hash"].as_str().unwrap(), &cc, srs, true);
    println!("\n@@{}", json!({"pf": r.unwrap().json(), "polys": polys}));
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let base = cfg.seed.wrapping_mul(1_000_003);
    let masks = cfg.is(&["P09"]);
    for (i, sc) in cfg.scripts.iter().enumerate() {
        let sc = sc.clone();
        scen(&mut out, "behaviour of the specification", move |rec| replay(rec, &sc, base + i as u64, masks));
    }
    // every number of gates
    if cfg.is(&["P01", "P02", "P04", "P05"]) {
        let sizes: Vec<usize> = if cfg.thorough { (1..=40).chain([63, 64, 65, 100, 128, 129]).collect() } else { (1..=17).chain([32, 33]).collect() };
        for n in sizes {
            for (j, (pis, fresh)) in [(false, 0.4), (true, 0.1), (true, 1.0)].into_iter().enumerate() {
                if n > 17 && j > 0 {
                    continue;
                }
                scen(&mut out, "satisfied circuit", move |rec| {
                    let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 97 + j as u64));
                    let gates = satisfied(n, &mut rng, pis, fresh);
                    let mut s = Ses::new(rec, base + n as u64, false);
                    let c = s.circuit(&gates);
                    s.prove_and_check(c, HASHES[(n + j) % 5], [0, 1, 40][j]);
                    if j == 0 {
                        s.usual(c);
                    }
                });
            }
        }
    }
    // special circuits: one gate of each kind, all values equal, all zero, self-joined wires
    if cfg.is(&["P01", "P02", "P05", "P03"]) {
        for k in ["add", "mul", "const"] {
            for v in [0u64, 1, 2] {
                for one_cycle in [false, true] {
                    scen(&mut out, "special circuit", move |rec| {
                        let x = Fr::from(v);
                        let full = match k {
                            "add" => x + x,
                            "mul" => x * x,
                            _ => x,
                        };
                        let pi = if k == "const" { Fr::zero() } else if one_cycle { full - x } else { Fr::zero() };
                        let o = if one_cycle { x } else { full };
                        let w = if one_cycle { [W(1, 0, x), W(2, 0, x), W(0, 0, o)] } else { [W(0, 0, x), W(1, 0, x), W(2, 0, o)] };
                        let mut s = Ses::new(rec, base + v, false);
                        let c = s.circuit(&[Gate { k, w, pi }]);
                        s.prove_and_check(c, "sha256", 0);
                        s.usual(c);
                    });
                }
            }
        }
    }
    // one wrong thing: each row, each place
    if cfg.is(&["P02", "P01"]) {
        for n in if cfg.thorough { vec![1, 2, 3, 4, 5, 6, 8, 9, 16] } else { vec![1, 2, 3, 4, 5, 8] } {
            scen(&mut out, "one wrong thing", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 131 + 5));
                let good = satisfied(n, &mut rng, true, 0.3);
                let mut s = Ses::new(rec, base + n as u64, false);
                let c = s.circuit(&good);
                s.prove_and_check(c, "sha256", 0);
                for r in 0..n {
                    for what in 0..5 {
                        let mut bad = good.clone();
                        if what < 3 {
                            bad[r].w[what].2 += Fr::from(1 + what as u64);
                        } else if what == 3 {
                            bad[r].pi += Fr::one();
                        } else {
                            bad[r].k = if bad[r].k == "add" { "mul" } else { "add" };
                        }
                        let c = s.circuit(&bad);
                        s.prove_and_check(c, "sha256", 0);
                    }
                }
            });
        }
        // ... of many rows
        for n in if cfg.thorough { vec![16, 17, 31, 33, 64, 65, 100] } else { vec![16, 33] } {
            scen(&mut out, "one wrong thing of many", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 137 + 5));
                let good = satisfied(n, &mut rng, true, 0.6);
                let mut s = Ses::new(rec, base + n as u64, false);
                for r in [0, 7, 8, 15, 16, n / 2, n - 2, n - 1] {
                    let mut bad = good.clone();
                    let r = r.min(n - 1);
                    match rng.gen_range(0..5) {
                        3 => bad[r].pi += Fr::one(),
                        4 => bad[r].k = if bad[r].k == "add" { "mul" } else { "add" },
                        j => bad[r].w[j].2 += Fr::one(),
                    }
                    let c = s.circuit(&bad);
                    s.prove_and_check(c, "sha256", 0);
                    // two cells change places
                    let mut bad = good.clone();
                    let (x, y) = ((rng.gen_range(0..3), r), (rng.gen_range(0..3), rng.gen_range(0..n)));
                    let (wx, wy) = (bad[x.1].w[x.0], bad[y.1].w[y.0]);
                    if wx.2 != wy.2 {
                        bad[x.1].w[x.0] = W(wy.0, wy.1, wx.2);
                        bad[y.1].w[y.0] = W(wx.0, wx.1, wy.2);
                        let c = s.circuit(&bad);
                        s.prove_and_check(c, "sha256", 0);
                    }
                }
            });
        }
        // circuits that hold only as they could be misread
        for n in 1..=4usize {
            scen(&mut out, "misread circuit", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 19 + 7));
                let mut s = Ses::new(rec, base + n as u64, false);
                for which in [["add", "mul"], ["add", "add"], ["mul", "mul"]] {
                    for m in 0..MISREADINGS {
                        let gates = misread(n, m, &which, None, None, &mut rng);
                        let c = s.circuit(&gates);
                        s.prove_and_check(c, "sha256", 0);
                    }
                }
            });
        }
        // ... with special public inputs and values
        for n in if cfg.thorough { vec![1, 2, 3] } else { vec![1, 2] } {
            scen(&mut out, "misread circuit, special values", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 23 + 9));
                let mut s = Ses::new(rec, base + n as u64, false);
                let one = Fr::one();
                for which in [["add", "add"], ["mul", "mul"]] {
                    for pi in [Fr::zero(), one, -one, one + one] {
                        for a in [None, Some(Fr::zero()), Some(one), Some(-one)] {
                            for m in 0..MISREADINGS {
                                let gates = misread(n, m, &which, a, Some(pi), &mut rng);
                                let c = s.circuit(&gates);
                                s.prove_and_check(c, "sha256", 0);
                            }
                        }
                    }
                }
            });
        }
        // rows all hold, wiring broken between each pair of columns and rows
        let all = cfg.thorough;
        for n in [2usize, 3, 4, 5, 8] {
            scen(&mut out, "one wrong wire", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 17 + 3));
                let good = satisfied(n, &mut rng, true, 1.0);
                let mut s = Ses::new(rec, base + n as u64, false);
                // a pair for each two columns and each distance of rows; all pairs, at length
                // (every cell is wired to itself, so cells and where they are wired to are one)
                let value = |(c, r): (usize, usize)| good[r].w[c].2;
                let mut pairs = vec![((2, n - 1), (0, 0)), ((2, n - 1), (2, 0))];
                for (x, y) in (0..3).flat_map(|x| (x..3).map(move |y| (x, y))) {
                    for d in (x == y) as usize..n {
                        let mut differ: Vec<_> = (0..n).map(|r| ((x, r), (y, (r + d) % n))).filter(|(x, y)| value(*x) != value(*y)).collect();
                        if !all {
                            use rand::seq::SliceRandom;
                            differ.shuffle(&mut rng);
                            differ.truncate(1);
                        }
                        pairs.extend(differ);
                    }
                }
                for (x, y) in pairs {
                    if x == y {
                        continue;
                    }
                    let mut bad = good.clone();
                    let (wx, wy) = (bad[x.1].w[x.0], bad[y.1].w[y.0]);
                    bad[x.1].w[x.0] = W(wy.0, wy.1, wx.2);
                    bad[y.1].w[y.0] = W(wx.0, wx.1, wy.2);
                    let c = s.circuit(&bad);
                    s.prove_and_check(c, "sha256", 0);
                }
            });
        }
    }
    // every field of a proof altered in every way, exchanged, taken from elsewhere, forged around
    if cfg.is(&["P03", "P04"]) {
        for (j, n) in [1usize, 2, 3, 5, 8, 17].into_iter().chain(cfg.thorough.then_some(40)).enumerate() {
            if !cfg.thorough && j > 2 && cfg.is(&["P04"]) && !cfg.is(&["P03"]) {
                continue;
            }
            for part in 0..if j < 2 || cfg.thorough { 7usize } else if n > 8 { 3 } else { 4 } {
                scen(&mut out, "proofs of every kind", move |rec| {
                    let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 7 + 1));
                    let gates = satisfied(n, &mut rng, true, 0.3);
                    let mut s = Ses::new(rec, base + n as u64, false);
                    let c = s.circuit(&gates);
                    let hash = HASHES[(j + part) % 5];
                    s.prove_and_check(c, hash, j);
                    s.prove_and_check(c, hash, j);
                    let names: Vec<&str> = GN.iter().chain(FN.iter()).cloned().chain(["deg"]).collect();
                    let mut k = part as u64;
                    match part {
                        0 | 1 => {
                            for f in &names {
                                for d in 0..3 {
                                    session_move(&mut s, &json!({"m": "alter", "p": 0, "f": f, "d": d + 3 * part}), &mut rng);
                                }
                            }
                        }
                        2 => {
                            for f in &names {
                                k += 1;
                                session_move(&mut s, &json!({"m": "forge", "p": 0, "f": f, "d": 1 + k % 5}), &mut rng);
                                session_move(&mut s, &json!({"m": "mix", "p": 0, "o": 1, "f": f}), &mut rng);
                            }
                            for h in HASHES {
                                session_move(&mut s, &json!({"m": "otherhash", "p": 0, "h": h}), &mut rng);
                            }
                            session_move(&mut s, &json!({"m": "biggersetup", "p": 0, "d": 9}), &mut rng);
                        }
                        4 => {
                            for f in &names {
                                for d in [0, 1, 2, 5] {
                                    session_move(&mut s, &json!({"m": "amend", "p": 0, "f": f, "d": d}), &mut rng);
                                }
                            }
                        }
                        6 => {
                            for weight in 0..24 {
                                let Some((_, pf, ..)) = s.pick(0) else { return };
                                let d = if weight % 2 == 0 { Fr::one() } else { rfr(&mut rng) };
                                if let Some(q) = s.cancel(c, hash, pf, weight, d) {
                                    s.verdict(c, &q, hash, 40, 0, false, "openings whose errors cancel under another weight");
                                }
                            }
                            for f in &names {
                                session_move(&mut s, &json!({"m": "forge", "p": 0, "f": f, "d": 0}), &mut rng);
                            }
                        }
                        5 => {
                            for (a, b) in [("wx", "wwx"), ("a", "ba"), ("z", "bzw"), ("a", "b"), ("tmid", "thi"), ("z", "wwx"), ("bs1", "bs2"), ("c", "bc"), ("b", "bb")] {
                                for d in [0, 1, 2] {
                                    session_move(&mut s, &json!({"m": "amend", "p": 0, "f": a, "g": b, "d": d}), &mut rng);
                                }
                            }
                            for d in 0..8 {
                                session_move(&mut s, &json!({"m": "spoil", "p": 0, "f": names[(d * 3 + n) % 16], "d": d}), &mut rng);
                            }
                            let mut zero = Pf { g: [G1Affine::zero(); 9], f: [Fr::zero(); 7], deg: 0 };
                            s.refresh(c, hash, &mut zero);
                            s.verdict(c, &zero, hash, 40, 0, false, "all zero but the last challenge");
                        }
                        _ => {
                            for (a, b) in [(0, 1), (1, 2), (3, 0), (4, 5), (5, 6), (7, 8), (0, 2)] {
                                session_move(&mut s, &json!({"m": "exchange", "p": 0, "f": GN[a], "g": GN[b]}), &mut rng);
                            }
                            for (a, b) in [(0, 1), (1, 2), (3, 4), (0, 3), (5, 6)] {
                                session_move(&mut s, &json!({"m": "exchange", "p": 0, "f": FN[a], "g": FN[b]}), &mut rng);
                            }
                            for o in 1..=4 {
                                for r in [0, n - 1] {
                                    session_move(&mut s, &json!({"m": "othercircuit", "p": 0, "o": o, "d": 1 + o, "x": [o % 3, r]}), &mut rng);
                                }
                            }
                            // a proof of all zeros, noise, and noise made to fit
                            let zero = Pf { g: [G1Affine::zero(); 9], f: [Fr::zero(); 7], deg: 0 };
                            s.verdict(c, &zero, hash, 40, 0, false, "all zero");
                            for _ in 0..3 {
                                let nz = s.noise();
                                s.verdict(c, &nz, hash, 40, 0, false, "noise");
                                if let Some(q) = s.forge(c, hash, nz) {
                                    s.verdict(c, &q, hash, 40, 0, true, "forged from noise");
                                }
                            }
                            if let Some(q) = s.forge(c, hash, zero) {
                                s.verdict(c, &q, hash, 40, 0, true, "forged from zero");
                            }
                        }
                    }
                });
            }
        }
    }
    // masks
    if masks {
        for n in if cfg.thorough { vec![1, 2, 3, 4, 5, 8, 9, 16, 33] } else { vec![1, 2, 3, 4, 6, 8, 16] } {
            scen(&mut out, "proofs of one statement", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 11 + 2));
                let gates = satisfied(n, &mut rng, true, 0.3);
                let mut s = Ses::new(rec, base + n as u64, true);
                let c = s.circuit(&gates);
                for k in 0..3 {
                    s.prove_and_check(c, HASHES[k], k);
                }
                s.prove_elsewhere(c, "sha256");
                s.prove_elsewhere(c, "sha256");
                let other = satisfied(n, &mut rng, true, 0.3);
                let c = s.circuit(&other);
                s.prove_and_check(c, "sha256", 0);
            });
        }
        // so many that coins from a small set would fall alike
        for k in 0..if cfg.thorough { 6 } else { 2 } {
            scen(&mut out, "many proofs", move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (k * 13 + 5));
                let gates = satisfied(1 + k as usize % 3, &mut rng, true, 0.3);
                let mut s = Ses::new(rec, base + k, true);
                let c = s.circuit(&gates);
                for _ in 0..120 {
                    s.prove(c, "sha256", 0);
                }
            });
        }
    }
    out
}
