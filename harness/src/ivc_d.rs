//! Augmented circuits and the IVC prover and verifier of the nova crate. The setup's secret is known to the recorder.
use crate::common::*;
use crate::nova_d::{challenge_items, com, feed, fi_j, fw_j, gmul, items_j, oracle, point_items, proof_j, shift, sys_j, Item, Pair, System};
use crate::plonk_d::HASHES;
use crate::with_hash;
use ark_bls12_381::{Fq, Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_serialize::Write;
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::r1cs::{is_r1cs_satisfied, FInstance, FWitness};
use nova::transcript::Transcript;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use sha2::Digest;
use std::ops::Mul;

#[derive(Clone)]
pub struct StepFn(&'static str);
fn base(x: &Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
fn scalar(x: &Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
fn step_f(kind: &str, z: Fq, w: &[Fr]) -> Fq {
    let word = |k: usize| w.get(k).map(base).unwrap_or_default();
    match kind {
        "cube" => z * z * z + z + Fq::from(5u64),
        "add" => z + w.iter().map(base).sum::<Fq>(),
        "mul" => z * word(0) + w.last().map(base).unwrap_or_default(),
        _ => Fq::from(7u64),
    }
}
impl FCircuit for StepFn {
    fn run(&self, z: &State, w: &FWitness) -> State {
        State { state: step_f(self.0, z.state, &w.w) }
    }
}
const KINDS: [&str; 4] = ["cube", "add", "mul", "const"];
fn kind(s: &str) -> &'static str {
    KINDS.iter().copied().find(|k| *k == s).unwrap_or("add")
}

type Zk = ZkIVCProof;
fn dup(z: &Zk) -> Zk {
    ZkIVCProof { u_i: z.u_i.clone(), big_u_i: z.big_u_i.clone(), com_t: z.com_t.clone(), folded_u_proof: z.folded_u_proof.clone() }
}
fn opt<A>(o: &Option<A>, f: impl Fn(&A) -> Value) -> Value {
    Value::Array(o.iter().map(f).collect())
}
fn zk_j(z: &Zk) -> Value {
    json!({"u": fi_j(&z.u_i), "U": fi_j(&z.big_u_i), "ct": opt(&z.com_t, |c| g1(&c.0)), "pf": opt(&z.folded_u_proof, proof_j)})
}
fn own_fold(r: Fr, a: &FInstance, b: &FInstance, ct: &KzgCommitment) -> FInstance {
    let at = |v: &Vec<Fr>, i: usize| v.get(i).copied().unwrap_or_default();
    FInstance {
        com_e: KzgCommitment((a.com_e.0 + ct.0.mul(r) + b.com_e.0.mul(r * r)).into_affine()),
        u: a.u + r * b.u,
        com_w: KzgCommitment((a.com_w.0 + b.com_w.0.mul(r)).into_affine()),
        x: (0..a.x.len().max(b.x.len())).map(|i| at(&a.x, i) + r * at(&b.x, i)).collect(),
    }
}
fn refusal(r: &Result<Result<Value, String>, String>) -> Value {
    match r {
        Ok(Ok(v)) => json!({ "ok": v }),
        Ok(Err(m)) => json!({"err": m.chars().filter(|c| c.is_ascii() && *c != '"').collect::<String>()}),
        Err(m) => json!({"refused": true, "msg": m}),
    }
}

struct Chain<T: Digest + Default + Write> {
    ivc: IVC<T, StepFn>,
    running: Pair,
    pending: Option<Pair>,
}
#[derive(Clone)]
struct Question {
    i: Fq,
    z0: Fq,
    z: Fq,
    u: FInstance,
}
impl Question {
    fn j(&self) -> Value {
        json!({"i": fj(&self.i), "z0": fj(&self.z0), "z": fj(&self.z), "U": fi_j(&self.u)})
    }
    fn ask<T: Digest + Default + Write>(&self) -> Result<Fq, String> {
        guard(|| AugmentedCircuit::<T, StepFn>::hash_io(self.i, &State { state: self.z0 }, &State { state: self.z }, &self.u))
    }
}
/// A step that has been proved.
struct Proved {
    zk: Zk,
    c: usize,
    i: Fq,
    pre: Vec<Item>,
    w: FWitness,
    folded: Pair,
}
impl Clone for Proved {
    fn clone(&self) -> Self {
        Proved { zk: dup(&self.zk), c: self.c, i: self.i, pre: self.pre.clone(), w: self.w.clone(), folded: self.folded.clone() }
    }
}

struct Ses<'a, T: Digest + Default + Write> {
    rec: &'a mut Rec,
    sys: System,
    secret: Fr,
    srs: Srs,
    triv: Pair,
    ch: Vec<Chain<T>>,
}
impl<'a, T: Digest + Default + Write> Ses<'a, T> {
    fn new(rec: &'a mut Rec, mut sys: System, secret: Fr) -> Self {
        // public values are hashes: rows that speak about them would not hold
        let (v, io) = (sys.r1cs.num_vars, sys.r1cs.num_io);
        for m in [&mut sys.r1cs.matrix_a, &mut sys.r1cs.matrix_b, &mut sys.r1cs.matrix_c] {
            for row in m.iter_mut() {
                for x in row[v..v + io].iter_mut() {
                    *x = Fr::zero();
                }
            }
        }
        rec.set("sys", sys_j(&sys.r1cs));
        rec.set("secret", fj(&secret));
        let srs = Srs::new_from_secret(secret, v.max(sys.rows()) + 6);
        let zero = KzgCommitment(G1Affine::zero());
        let triv = (
            FInstance { com_e: zero.clone(), u: Fr::zero(), com_w: zero, x: vec![Fr::zero(); io] },
            FWitness { e: vec![Fr::zero(); v], w: vec![Fr::zero(); v] },
        );
        Ses { rec, sys, secret, srs, triv, ch: vec![] }
    }
    fn fields(&self, c: usize) -> Value {
        let a = &self.ch[c - 1].ivc.augmented_circuit;
        json!({"i": fj(&a.i), "z0": fj(&a.z_0.state), "zi": fj(&a.z_i.state), "zn": opt(&a.z_i1, |s| fj(&s.state)), "hi": opt(&a.h_i, fj), "hn": opt(&a.h_i1, fj), "triv": fi_j(&a.trivial_instance)})
    }
    fn start(&mut self, kind: &'static str, z0: Fq) -> usize {
        let circuit = AugmentedCircuit::<T, StepFn>::new(StepFn(kind), &self.triv.0, &State { state: z0 });
        self.ch.push(Chain { ivc: IVC { scheme: KzgScheme::new(self.srs.clone()), augmented_circuit: circuit }, running: self.triv.clone(), pending: None });
        let k = self.ch.len();
        self.rec.ev("new", json!({"kind": kind, "z0": fj(&z0), "triv": fi_j(&self.triv.0), "after": self.fields(k)}));
        k
    }
    fn current(&self, c: usize, u: &FInstance) -> Question {
        let a = &self.ch[c - 1].ivc.augmented_circuit;
        Question { i: a.i, z0: a.z_0.state, z: a.z_i.state, u: u.clone() }
    }
    fn step_no(&self, c: usize) -> Fq {
        self.ch[c - 1].ivc.augmented_circuit.i
    }
    fn run(&mut self, c: usize, u: &FInstance, big: Option<&FInstance>, w: &FWitness, ct: Option<&KzgCommitment>) -> bool {
        let (i, z0, zi, hi, triv, kind) = {
            let a = &self.ch[c - 1].ivc.augmented_circuit;
            (a.i, a.z_0.state, a.z_i.state, a.h_i, a.trivial_instance.clone(), a.f_circuit.0)
        };
        let mut v = json!({"c": c, "u": fi_j(u), "U": opt(&big, |b| fi_j(b)), "w": fv(&w.w), "ct": opt(&ct, |t| g1(&t.0))});
        let next = |folded: FInstance| Question { i: i + Fq::one(), z0, z: step_f(kind, zi, &w.w), u: folded };
        if i.is_zero() {
            let q = next(triv);
            v["nxt"] = json!({"a": q.j(), "h": q.ask::<T>().map_or(json!("0"), |h| fj(&h))});
        } else if let (Some(b), Some(t), Some(_)) = (big, ct, hi) {
            let q = self.current(c, b);
            v["cur"] = json!({"a": q.j(), "h": q.ask::<T>().map_or(json!("0"), |h| fj(&h))});
            let fed = challenge_items(u, b, t);
            let (r, _) = oracle::<T>(&fed, &[Item::S(Fr::zero())]);
            let q = next(own_fold(r, u, b, t));
            v["fed"] = items_j(&fed);
            v["r"] = fj(&r);
            v["nxt"] = json!({"a": q.j(), "h": q.ask::<T>().map_or(json!("0"), |h| fj(&h))});
        }
        let r = guard(|| self.ch[c - 1].ivc.augmented_circuit.run(u, big, w, ct).map(|h| fj(&h)));
        v["res"] = refusal(&r);
        v["after"] = self.fields(c);
        self.rec.ev("run", v);
        matches!(r, Ok(Ok(_)))
    }
    fn next(&mut self, c: usize) -> bool {
        let r = guard(|| self.ch[c - 1].ivc.augmented_circuit.next_step());
        let v = json!({"c": c, "res": res(&r, |_| json!(true)), "after": self.fields(c)});
        self.rec.ev("next", v);
        if r.is_ok() {
            if let Some(p) = self.ch[c - 1].pending.take() {
                self.ch[c - 1].running = p;
            }
        }
        r.is_ok()
    }
    fn set(&mut self, c: usize, f: impl FnOnce(&mut AugmentedCircuit<T, StepFn>)) {
        f(&mut self.ch[c - 1].ivc.augmented_circuit);
        let v = json!({"c": c, "after": self.fields(c)});
        self.rec.ev("set", v);
    }
    fn prove(&mut self, c: usize, u: &Pair, big: &Pair, pre: &[Item]) -> Option<Proved> {
        let i = self.step_no(c);
        let out = guard(|| {
            let mut tr = Transcript::<T>::default();
            feed(&mut tr, pre);
            self.ch[c - 1].ivc.prove(&self.sys.r1cs, &IVCProof::new(&u.0, &u.1, &big.0, &big.1), &mut tr)
        });
        let mut v = json!({"c": c, "u": fi_j(&u.0), "w": fw_j(&u.1), "U": fi_j(&big.0), "W": fw_j(&big.1), "pre": items_j(pre)});
        if let Ok((_, fi, zk)) = &out {
            if let Some(ct) = &zk.com_t {
                let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(&u.0, &big.0, ct)).collect();
                let fed2 = point_items(fi);
                let (r, point) = oracle::<T>(&fed, &fed2);
                v["fed"] = items_j(&fed);
                v["fed2"] = items_j(&fed2);
                v["r"] = fj(&r);
                v["point"] = fj(&point);
            }
        }
        v["res"] = res(&out, |(fw, fi, zk)| json!({"fw": fw_j(fw), "fi": fi_j(fi), "zk": zk_j(zk)}));
        self.rec.ev("prove", v);
        out.ok().map(|(fw, fi, zk)| Proved { zk, c, i, pre: pre.to_vec(), w: u.1.clone(), folded: (fi, fw) })
    }
    fn verify(&mut self, c: usize, zk: &Zk, pre: &[Item], honest: bool, step: Option<&FWitness>) -> bool {
        let q = self.current(c, &zk.big_u_i);
        let mut v = json!({"c": c, "zk": zk_j(zk), "pre": items_j(pre), "cur": {"a": q.j(), "h": q.ask::<T>().map_or(json!("0"), |h| fj(&h))}, "fed": [], "fed2": [], "r": "0", "point": "0"});
        if let (Some(ct), Some(pf)) = (&zk.com_t, &zk.folded_u_proof) {
            let fed: Vec<Item> = pre.iter().cloned().chain(challenge_items(&zk.u_i, &zk.big_u_i, ct)).collect();
            let fed2 = point_items(&own_fold(pf.r, &zk.u_i, &zk.big_u_i, ct));
            let (r, point) = oracle::<T>(&fed, &fed2);
            v["fed"] = items_j(&fed);
            v["fed2"] = items_j(&fed2);
            v["r"] = fj(&r);
            v["point"] = fj(&point);
        }
        if honest {
            v["honest"] = json!(true);
        }
        if let Some(w) = step {
            v["step"] = fw_j(w);
        }
        let r = guard(|| {
            let mut tr = Transcript::<T>::default();
            feed(&mut tr, pre);
            self.ch[c - 1].ivc.verify(zk, &mut tr).is_ok()
        });
        v["res"] = res(&r, |b| json!(b));
        v["after"] = self.fields(c);
        self.rec.ev("verify", v);
        r == Ok(true)
    }
    fn accumulated(&mut self, p: &Pair) {
        let scheme = KzgScheme::new(self.srs.clone());
        let r = guard(|| is_r1cs_satisfied(&self.sys.r1cs, &p.0, &p.1, &scheme).is_ok());
        self.rec.ev("accumulated", json!({"fi": fi_j(&p.0), "fw": fw_j(&p.1), "res": res(&r, |b| json!(b))}));
    }
    fn hash(&mut self, q: &Question) {
        let r = q.ask::<T>();
        self.rec.ev("hash", json!({"a": q.j(), "res": res(&r, fj)}));
    }

    /// The step pair of a chain: satisfied, fresh, carrying the hash of the current state and running instance.
    fn step_pair(&self, c: usize, free: &[Fr]) -> Pair {
        let h = self.current(c, &self.ch[c - 1].running.0).ask::<T>().unwrap_or_default();
        let mut x = vec![scalar(&h)];
        x.resize(self.sys.r1cs.num_io.max(1), Fr::zero());
        let w = self.sys.solve(free, &x);
        (FInstance { com_e: com(self.secret, &[]), u: Fr::one(), com_w: com(self.secret, &w), x }, FWitness { e: vec![Fr::zero(); self.sys.rows()], w })
    }
    fn free(&self, rng: &mut StdRng) -> Vec<Fr> {
        (0..self.sys.free).map(|_| sfr(rng)).collect()
    }
    fn honest_step(&mut self, c: usize, rng: &mut StdRng, pre: &[Item]) -> Option<Proved> {
        let free = self.free(rng);
        let u = self.step_pair(c, &free);
        let big = self.ch[c - 1].running.clone();
        self.prove(c, &u, &big, pre)
    }
    /// Runs a proved step; what it leads to is pending.
    fn run_proved(&mut self, p: &Proved) -> bool {
        let (u, big, ct) = (p.zk.u_i.clone(), p.zk.big_u_i.clone(), p.zk.com_t.clone());
        let ok = self.run(p.c, &u, Some(&big), &p.w, ct.as_ref());
        if ok {
            self.ch[p.c - 1].pending = Some(p.folded.clone());
        }
        ok
    }
    fn first_run(&mut self, c: usize, rng: &mut StdRng) -> bool {
        let free = self.free(rng);
        let u = self.step_pair(c, &free);
        let ok = self.run(c, &u.0, None, &u.1, None);
        if ok {
            self.ch[c - 1].pending = Some(self.triv.clone());
        }
        ok
    }
    /// One honest step from wherever the chain stands.
    fn advance(&mut self, c: usize, rng: &mut StdRng) -> bool {
        let ok = if self.step_no(c).is_zero() {
            self.first_run(c, rng)
        } else {
            match self.honest_step(c, rng, &[]) {
                Some(p) => self.run_proved(&p),
                None => false,
            }
        };
        ok && self.next(c)
    }
}

fn shape(rng: &mut StdRng) -> System {
    let (f, n, a, io) = [(1, 0, 0, 1), (1, 2, 0, 1), (2, 1, 0, 1), (1, 1, 4, 1), (2, 2, 1, 2), (3, 0, 0, 1)][rng.gen_range(0..6)];
    System::random(rng, f, n, a, io)
}
fn state(rng: &mut StdRng) -> Fq {
    sfr::<Fq>(rng)
}

/// What an alteration of a proof does; false if it does nothing.
fn spoil(zk: &mut Zk, part: &str, other: &Zk, d: Fr) {
    let pf = zk.folded_u_proof.as_mut();
    let add = |g: &mut G1Affine| *g = (*g + gmul(d)).into_affine();
    let first = |x: &mut Vec<Fr>| match x.first_mut() {
        Some(x) => *x += d,
        None => x.push(d),
    };
    match part {
        "u" => zk.u_i = other.u_i.clone(),
        "U" => zk.big_u_i = other.big_u_i.clone(),
        "ct" => zk.com_t = other.com_t.clone(),
        "pf" => zk.folded_u_proof = other.folded_u_proof.clone(),
        "uU" => {
            zk.u_i = other.u_i.clone();
            zk.big_u_i = other.big_u_i.clone();
        }
        "noct" => zk.com_t = None,
        "nopf" => zk.folded_u_proof = None,
        "x" => first(&mut zk.u_i.x),
        "nox" => zk.u_i.x.clear(),
        "morex" => zk.u_i.x.push(d),
        "lessx" => zk.u_i.x.truncate(1),
        "ce" => add(&mut zk.u_i.com_e.0),
        "cw" => add(&mut zk.u_i.com_w.0),
        "scalar" => zk.u_i.u += d,
        "scalar0" => zk.u_i.u = Fr::zero(),
        "Uce" => add(&mut zk.big_u_i.com_e.0),
        "Ucw" => add(&mut zk.big_u_i.com_w.0),
        "Uu" => zk.big_u_i.u += d,
        "Ux" => first(&mut zk.big_u_i.x),
        "Umorex" => zk.big_u_i.x.push(d),
        "swap" => std::mem::swap(&mut zk.u_i, &mut zk.big_u_i),
        "ctd" => {
            if let Some(c) = zk.com_t.as_mut() {
                add(&mut c.0)
            }
        }
        _ => {
            if let Some(p) = pf {
                match part {
                    "r" => p.r += d,
                    "point" => p.opening_point += d,
                    "ow" => add(&mut p.opening_w.0),
                    "owy" => p.opening_w.1 += d,
                    "oe" => add(&mut p.opening_e.0),
                    "oey" => p.opening_e.1 += d,
                    "swapo" => std::mem::swap(&mut p.opening_e, &mut p.opening_w),
                    _ => {}
                }
            }
        }
    }
}
const PARTS: [&str; 30] = ["u", "U", "ct", "pf", "uU", "noct", "nopf", "x", "nox", "morex", "lessx", "ce", "cw", "scalar", "scalar0", "Uce", "Ucw", "Uu", "Ux", "Umorex", "swap", "ctd",
    "r", "point", "ow", "owy", "oe", "oey", "swapo", "none"];

fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn replay<T: Digest + Default + Write>(rec: &mut Rec, script: &Value, seed: u64) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let starts = [state(&mut rng), Fq::one(), state(&mut rng)];
    for k in 0..2 {
        s.start(kind(script["kinds"][k].as_str().unwrap()), starts[num(&script["starts"][k])]);
    }
    // witnesses are drawn once, so that equal choices are equal steps
    let words: Vec<Vec<Fr>> = (0..3).map(|_| s.free(&mut rng)).collect();
    let mut proofs: Vec<Proved> = vec![];
    let odd = KzgCommitment(gmul(rfr(&mut rng)));
    for e in script["hist"].as_array().unwrap() {
        match e["op"].as_str().unwrap() {
            "run" => {
                let (c, how) = (num(&e["c"]), e["how"].as_str().unwrap());
                let u = s.step_pair(c, &words[num(&e["w"])]);
                if s.step_no(c).is_zero() {
                    let big = s.triv.0.clone();
                    let ok = s.run(c, &u.0, if how == "none" { None } else { Some(&big) }, &u.1, if how == "ct" { Some(&odd) } else { None });
                    if ok {
                        s.ch[c - 1].pending = Some(s.triv.clone());
                    }
                    continue;
                }
                let big = s.ch[c - 1].running.clone();
                let Some(mut p) = s.prove(c, &u, &big, &[]) else {
                    return;
                };
                let (mut ui, mut bi, mut ct) = (Some(u.0), Some(big.0), p.zk.com_t.clone());
                let x = ui.as_mut().unwrap();
                match how {
                    "noU" => bi = None,
                    "noct" => ct = None,
                    "x" => x.x[0] += Fr::one(),
                    "nox" => x.x.clear(),
                    "ce" => x.com_e = odd.clone(),
                    "cw" => x.com_w = odd.clone(),
                    "u" => x.u += Fr::one(),
                    "U" => bi.as_mut().unwrap().u += Fr::one(),
                    "otherU" => bi = Some(s.ch[2 - c].running.0.clone()),
                    "ct" => ct = Some(odd.clone()),
                    _ => {}
                }
                let ui = ui.unwrap();
                if s.run(c, &ui, bi.as_ref(), &p.w, ct.as_ref()) {
                    if let (Some(b), Some(t)) = (bi, ct) {
                        let (r, _) = oracle::<T>(&challenge_items(&ui, &b, &t), &[Item::S(Fr::zero())]);
                        p.folded.0 = own_fold(r, &ui, &b, &t);
                    }
                    s.ch[c - 1].pending = Some(p.folded);
                }
            }
            "next" => {
                s.next(num(&e["c"]));
            }
            "prove" => {
                let c = num(&e["c"]);
                let pre: Vec<Item> = (0..num(&e["pre"])).map(|_| Item::S(Fr::from(77u64))).collect();
                let u = s.step_pair(c, &words[num(&e["w"])]);
                let big = s.ch[c - 1].running.clone();
                let Some(p) = s.prove(c, &u, &big, &pre) else {
                    return;
                };
                proofs.push(p);
            }
            "verify" => {
                let (c, part) = (num(&e["c"]), e["part"].as_str().unwrap());
                let (Some(p), Some(q)) = (proofs.get(num(&e["p"]) - 1).cloned(), proofs.get(num(&e["q"]) - 1).cloned()) else {
                    return;
                };
                let mut zk = dup(&p.zk);
                spoil(&mut zk, part, &q.zk, Fr::one());
                let honest = part == "none" && p.c == c && p.i == s.step_no(c);
                s.verify(c, &zk, &p.pre, honest, None);
            }
            _ => {}
        }
    }
}

fn honest<T: Digest + Default + Write>(rec: &mut Rec, seed: u64, k: &'static str, steps: usize, textbook: bool) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = if textbook {
        // without the row that says the public value is the result: here public values are hashes
        let mut t = System::textbook();
        for m in [&mut t.r1cs.matrix_a, &mut t.r1cs.matrix_b, &mut t.r1cs.matrix_c] {
            m.pop();
        }
        t
    } else {
        shape(&mut rng)
    };
    let mut s = Ses::<T>::new(rec, sys, secret);
    let z0 = state(&mut rng);
    let c = s.start(k, z0);
    let triv = Zk::trivial_zk_ivc_proof(&s.triv.0);
    // the first step: a proof that proves nothing, and whatever a prover makes of the trivial pairs
    s.verify(c, &triv, &[], true, None);
    let t = s.triv.clone();
    let Some(p) = s.prove(c, &t, &t, &[]) else {
        return;
    };
    s.verify(c, &p.zk, &[], true, None);
    if !s.first_run(c, &mut rng) {
        return;
    }
    s.verify(c, &triv, &[], true, None);
    if !s.next(c) {
        return;
    }
    for n in 1..=steps {
        let pre: Vec<Item> = match n % 3 {
            0 => vec![Item::G(KzgCommitment(gmul(Fr::from(n as u64)))), Item::S(rfr(&mut rng))],
            _ => vec![],
        };
        if !pre.is_empty() {
            // on a transcript that was fed before; the augmented circuit folds with a transcript of its own
            let Some(p) = s.honest_step(c, &mut rng, &pre) else {
                return;
            };
            let w = p.w.clone();
            s.verify(c, &p.zk, &pre, true, Some(&w));
        }
        let Some(p) = s.honest_step(c, &mut rng, &[]) else {
            return;
        };
        let pre: Vec<Item> = vec![];
        let w = p.w.clone();
        s.verify(c, &p.zk, &pre, true, Some(&w));
        if !s.run_proved(&p) {
            return;
        }
        if n % 2 == 0 {
            s.verify(c, &p.zk, &pre, true, Some(&w));
        }
        s.accumulated(&p.folded);
        if !s.next(c) {
            return;
        }
    }
}

fn alterations<T: Digest + Default + Write>(rec: &mut Rec, seed: u64, steps: usize) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let k = KINDS[rng.gen_range(0..4)];
    let z0 = state(&mut rng);
    let a = s.start(k, z0);
    let z0b = state(&mut rng);
    let b = s.start(k, z0b);
    // same start, another history
    let c = s.start(k, z0);
    let mut old: Vec<Proved> = vec![];
    for x in [a, b, c] {
        for _ in 0..steps {
            if let (false, Some(p)) = (s.step_no(x).is_zero(), s.honest_step(x, &mut rng, &[])) {
                old.push(p);
            }
            if !s.advance(x, &mut rng) {
                return;
            }
        }
    }
    let Some(p) = s.honest_step(a, &mut rng, &[]) else {
        return;
    };
    let (Some(q), Some(q2), Some(q3)) = (s.honest_step(a, &mut rng, &[]), s.honest_step(b, &mut rng, &[]), s.honest_step(c, &mut rng, &[])) else {
        return;
    };
    let w = p.w.clone();
    s.verify(a, &p.zk, &[], true, Some(&w));
    // every part of the proof
    for part in PARTS {
        let others = if ["u", "U", "ct", "pf", "uU"].contains(&part) { vec![&q, &q2, &q3] } else { vec![&q] };
        for o in others {
            let mut zk = dup(&p.zk);
            let d = if rng.gen_bool(0.5) { Fr::one() } else { rfr(&mut rng) };
            spoil(&mut zk, part, &o.zk, d);
            s.verify(a, &zk, &[], false, None);
        }
    }
    // from another step, another chain, another history; and on another transcript
    old.extend([q, q2, q3]);
    for o in &old {
        s.verify(a, &o.zk, &[], false, None);
    }
    s.verify(a, &p.zk, &[Item::S(Fr::zero())], false, None);
    s.verify(b, &p.zk, &[], false, None);
    s.verify(c, &p.zk, &[], false, None);
    let t = Zk::trivial_zk_ivc_proof(&s.triv.0);
    s.verify(a, &t, &[], false, None);
    // proofs made with all the care of an honest prover, of pairs in which one thing is wrong
    let big = s.ch[a - 1].running.clone();
    let step = (p.zk.u_i.clone(), p.w.clone());
    let scal = |q: &Question| scalar(&q.ask::<T>().unwrap_or_default());
    let mut wrong: Vec<(Pair, Pair)> = vec![];
    // a relaxed step: an error, a scalar
    let mut u = step.clone();
    u.1.e = vec![rfr(&mut rng); s.sys.rows().max(1)];
    u.0.com_e = com(secret, &u.1.e);
    wrong.push((u, big.clone()));
    let mut u = step.clone();
    u.0.u = Fr::from(2u64);
    wrong.push((u, big.clone()));
    let mut u = step.clone();
    u.0.u = Fr::zero();
    wrong.push((u, big.clone()));
    // the hash of something else
    let now = s.current(a, &big.0);
    let mut qs = vec![];
    let mut o = now.clone();
    o.i += Fq::one();
    qs.push(o.clone());
    o.i -= Fq::from(2u64);
    qs.push(o);
    o = now.clone();
    o.z0 += Fq::one();
    qs.push(o);
    o = now.clone();
    o.z += Fq::one();
    qs.push(o);
    o = now.clone();
    std::mem::swap(&mut o.z0, &mut o.z);
    qs.push(o);
    o = now.clone();
    o.u.u += Fr::one();
    qs.push(o);
    o = now.clone();
    o.u.com_w = shift(&o.u.com_w, Fr::one());
    qs.push(o);
    o = now.clone();
    o.u.com_e = shift(&o.u.com_e, Fr::one());
    qs.push(o);
    o = now.clone();
    if let Some(x) = o.u.x.first_mut() {
        *x += Fr::one();
    }
    qs.push(o);
    for o in &qs {
        let mut u = step.clone();
        u.0.x[0] = scal(o);
        wrong.push((u, big.clone()));
    }
    // the right hash, but second; and negated
    let mut u = step.clone();
    u.0.x.insert(0, Fr::zero());
    wrong.push((u, big.clone()));
    for k in 0..3 {
        let mut u = step.clone();
        match k {
            0 => u.0.x.clear(),
            1 => u.0.x.insert(0, Fr::one()),
            _ => u.0.x[0] += Fr::from(2u64).pow([64u64]),
        }
        wrong.push((u, big.clone()));
    }
    let mut u = step.clone();
    u.0.x[0] = -u.0.x[0];
    wrong.push((u, big.clone()));
    // another running instance, whose hash the step carries; and one it does not carry
    let mut v = big.clone();
    v.1.w[0] += Fr::one();
    v.0.com_w = com(secret, &v.1.w);
    wrong.push((step.clone(), v.clone()));
    let mut u = step.clone();
    u.0.x[0] = scal(&s.current(a, &v.0));
    wrong.push((u, v));
    // running and step pair exchanged
    wrong.push((big.clone(), step.clone()));
    for (u, v) in wrong {
        if let Some(p) = s.prove(a, &u, &v, &[]) {
            s.verify(a, &p.zk, &[], false, None);
        }
    }
    // another challenge or point, everything else to match
    let scheme = KzgScheme::new(s.srs.clone());
    if let Some(pf) = p.zk.folded_u_proof.clone() {
        let two = Fr::from(2u64);
        for d in [Fr::one(), rfr(&mut rng), -pf.r, Fr::one() - pf.r, -two * pf.r, pf.r, two.pow([64u64]), two.pow([128u64]), two.pow([250u64])] {
            let mut zk = dup(&p.zk);
            let ct = zk.com_t.clone().unwrap();
            let r = pf.r + d;
            let v = own_fold(r, &zk.u_i, &zk.big_u_i, &ct);
            // the error of that fold
            let len = p.folded.1.e.len().max(s.sys.rows());
            let at = |v: &Vec<Fr>, i: usize| v.get(i).copied().unwrap_or_default();
            let inv = pf.r.inverse().unwrap_or_default();
            let t: Vec<Fr> = (0..len).map(|i| (at(&p.folded.1.e, i) - at(&step.1.e, i) - pf.r * pf.r * at(&big.1.e, i)) * inv).collect();
            let e: Vec<Fr> = (0..len).map(|i| at(&step.1.e, i) + r * t[i] + r * r * at(&big.1.e, i)).collect();
            let wv: Vec<Fr> = step.1.w.iter().zip(&big.1.w).map(|(a, b)| *a + r * b).collect();
            let fed = challenge_items(&zk.u_i, &zk.big_u_i, &ct);
            let (_, z) = oracle::<T>(&fed, &point_items(&v));
            if let Some(q) = zk.folded_u_proof.as_mut() {
                q.r = r;
                q.opening_point = z;
                if let Ok((a, b)) = guard(|| (scheme.open_vector(&e, z), scheme.open_vector(&wv, z))) {
                    q.opening_e = a;
                    q.opening_w = b;
                }
            }
            s.verify(a, &zk, &[], false, None);
            // both openings elsewhere
            for say in [false, true] {
                let mut zk = dup(&p.zk);
                let z = pf.opening_point + d;
                if let (Some(q), Ok((a, b))) = (zk.folded_u_proof.as_mut(), guard(|| (scheme.open_vector(&p.folded.1.e, z), scheme.open_vector(&p.folded.1.w, z)))) {
                    if say {
                        q.opening_point = z;
                    }
                    q.opening_e = a;
                    q.opening_w = b;
                }
                s.verify(a, &zk, &[], false, None);
            }
        }
    }
    // somebody changes the circuit
    type Ch<T> = Box<dyn Fn(&mut AugmentedCircuit<T, StepFn>)>;
    let changes: Vec<Ch<T>> = vec![
        Box::new(|a| a.i += Fq::one()),
        Box::new(|a| a.i -= Fq::one()),
        Box::new(|a| a.i = Fq::zero()),
        Box::new(|a| a.i = -Fq::one()),
        Box::new(|a| a.z_0.state += Fq::one()),
        Box::new(|a| a.z_i.state += Fq::one()),
        Box::new(|a| a.z_i.state += Fq::from(2u64).pow([64u64])),
        Box::new(|a| a.z_0.state += Fq::from(2u64).pow([256u64])),
        Box::new(|a| a.i += Fq::from(2u64).pow([64u64])),
        Box::new(|a| a.i += Fq::from(256u64)),
        Box::new(|a| a.z_i.state = a.z_0.state),
        Box::new(|a| a.h_i = None),
        Box::new(|a| a.h_i = Some(Fq::one())),
        Box::new(|a| a.trivial_instance.com_e = KzgCommitment(G1Affine::generator())),
        Box::new(|a| a.trivial_instance.com_w = KzgCommitment(G1Affine::generator())),
    ];
    for f in changes {
        let keep = {
            let x = &s.ch[a - 1].ivc.augmented_circuit;
            (x.i, x.z_0.clone(), x.z_i.clone(), x.h_i, x.trivial_instance.clone())
        };
        s.set(a, |x| f(x));
        s.verify(a, &p.zk, &[], false, None);
        s.set(a, |x| {
            x.i = keep.0;
            x.z_0 = keep.1;
            x.z_i = keep.2;
            x.h_i = keep.3;
            x.trivial_instance = keep.4;
        });
    }
    s.verify(a, &p.zk, &[], true, None);
}

/// At the first step only the states count.
fn first_step<T: Digest + Default + Write>(rec: &mut Rec, seed: u64) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let z0 = state(&mut rng);
    let a = s.start("add", z0);
    let t = Zk::trivial_zk_ivc_proof(&s.triv.0);
    s.verify(a, &t, &[], true, None);
    for d in [Fq::one(), state(&mut rng)].into_iter().chain([32u64, 64, 128, 192, 255, 256, 320, 380].map(|e| Fq::from(2u64).pow([e]))) {
        s.set(a, |x| x.z_i.state = z0 + d);
        s.verify(a, &t, &[], false, None);
        s.set(a, |x| {
            x.z_i.state = z0;
            x.z_0.state = z0 - d;
        });
        s.verify(a, &t, &[], false, None);
        s.set(a, |x| x.z_0.state = z0);
    }
    s.verify(a, &t, &[], true, None);
}

fn refusals<T: Digest + Default + Write>(rec: &mut Rec, seed: u64, steps: usize) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let k = KINDS[rng.gen_range(0..3)];
    let z0 = state(&mut rng);
    let c = s.start(k, z0);
    let b = s.start(k, z0 + Fq::one());
    // nothing has been run yet
    s.next(c);
    if !s.first_run(c, &mut rng) || !s.first_run(c, &mut rng) || !s.first_run(b, &mut rng) {
        return;
    }
    s.next(c);
    s.next(c);
    for n in 1..=steps {
        let (Some(p), Some(q)) = (s.honest_step(c, &mut rng, &[]), s.honest_step(c, &mut rng, &[])) else {
            return;
        };
        let (u, big, ct, w) = (p.zk.u_i.clone(), p.zk.big_u_i.clone(), p.zk.com_t.clone().unwrap(), p.w.clone());
        let odd = KzgCommitment(gmul(rfr(&mut rng)));
        let mut bad: Vec<(FInstance, Option<FInstance>, Option<KzgCommitment>)> = vec![];
        bad.push((u.clone(), None, Some(ct.clone())));
        bad.push((u.clone(), Some(big.clone()), None));
        bad.push((u.clone(), None, None));
        let mut edit = |f: &dyn Fn(&mut FInstance), g: &dyn Fn(&mut FInstance)| {
            let (mut x, mut y) = (u.clone(), big.clone());
            f(&mut x);
            g(&mut y);
            bad.push((x, Some(y), Some(ct.clone())));
        };
        let same = |_: &mut FInstance| {};
        edit(&|x| x.x[0] += Fr::one(), &same);
        edit(&|x| x.x[0] = Fr::zero(), &same);
        edit(&|x| x.x.clear(), &same);
        edit(&|x| x.x.insert(0, Fr::one()), &same);
        edit(&|x| x.com_e = odd.clone(), &same);
        edit(&|x| x.com_e = x.com_w.clone(), &same);
        edit(&|x| x.u = Fr::zero(), &same);
        edit(&|x| x.u += Fr::one(), &same);
        edit(&|x| x.u = -Fr::one(), &same);
        edit(&same, &|y| y.u += Fr::one());
        edit(&same, &|y| y.com_e = shift(&y.com_e, Fr::one()));
        edit(&same, &|y| y.com_w = shift(&y.com_w, Fr::one()));
        edit(&same, &|y| {
            if let Some(x) = y.x.first_mut() {
                *x += Fr::one()
            }
        });
        edit(&same, &|y| *y = u.clone());
        // the hash of another state, though consistent with the running instance
        let a = s.current(c, &big);
        for d in 0..4 {
            let mut o = a.clone();
            match d {
                0 => o.i += Fq::one(),
                1 => o.z += Fq::one(),
                2 => o.z0 += Fq::one(),
                _ => o.u = u.clone(),
            }
            let h = scalar(&o.ask::<T>().unwrap_or_default());
            edit(&|x| x.x[0] = h, &same);
        }
        let at = rng.gen_range(0..bad.len());
        for (m, (x, y, t)) in bad.iter().enumerate() {
            s.run(c, x, y.as_ref(), &w, t.as_ref());
            if m == at {
                // in the middle a good one, after which refusals still change nothing
                if !s.run_proved(&p) {
                    return;
                }
            }
        }
        // any cross term and any witness commitment pass: they are for the verifier
        if n % 2 == 0 {
            let mut x = u.clone();
            x.com_w = odd.clone();
            s.run(c, &x, Some(&big), &w, Some(&odd));
        }
        // the other chain does not take the step
        s.run(b, &u, Some(&big), &w, Some(&ct));
        // run again with another witness: the last run counts
        if !s.run_proved(&q) {
            return;
        }
        s.run(c, &u, Some(&big), &w, None);
        // step numbers and hashes of somebody else's making
        if n == 1 {
            let (i, h) = (s.step_no(c), s.ch[c - 1].ivc.augmented_circuit.h_i);
            for (j, g) in [(i, None), (i, Some(Fq::one())), (i + Fq::one(), h), (Fq::from(2u64).pow([64u64]), h), (-Fq::one(), h)] {
                s.set(c, |x| {
                    x.i = j;
                    x.h_i = g;
                });
                s.run(c, &u, Some(&big), &w, Some(&ct));
            }
            // consistent, but far away
            let far = Fq::from(2u64).pow([70u64]);
            s.set(c, |x| x.i = far);
            let h = s.current(c, &big).ask::<T>().unwrap_or_default();
            s.set(c, |x| x.h_i = Some(h));
            let mut x = u.clone();
            x.x[0] = scalar(&h);
            s.run(c, &x, Some(&big), &w, Some(&ct));
            s.set(c, |x| {
                x.i = i;
                x.h_i = p_hash(&a.ask::<T>());
            });
            if !s.run_proved(&q) {
                return;
            }
        }
        s.next(c);
        s.next(c);
    }
    // the other chain is where it was
    s.next(b);
}
fn p_hash(h: &Result<Fq, String>) -> Option<Fq> {
    h.as_ref().ok().copied()
}

fn hashes<T: Digest + Default + Write>(rec: &mut Rec, seed: u64) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let pt = |rng: &mut StdRng| KzgCommitment(gmul(sfr(rng)));
    let x: Vec<Fr> = (0..3).map(|_| rfr(&mut rng)).collect();
    let basis = vec![
        Question { i: Fq::one(), z0: state(&mut rng), z: Fq::rand_(&mut rng), u: FInstance { com_e: pt(&mut rng), u: rfr(&mut rng), com_w: KzgCommitment(gmul(rfr(&mut rng))), x } },
        Question { i: Fq::zero(), z0: Fq::zero(), z: Fq::zero(), u: s.triv.0.clone() },
    ];
    for q in basis {
        s.hash(&q);
        let mut vary = |f: &dyn Fn(&mut Question)| {
            let mut o = q.clone();
            f(&mut o);
            s.hash(&o);
        };
        for d in [Fq::one(), -Fq::one(), Fq::from(2u64).pow([64u64]), Fq::from(2u64).pow([256u64]), Fq::from(2u64).pow([376u64])] {
            vary(&|o| o.i += d);
            vary(&|o| o.z0 += d);
            vary(&|o| o.z += d);
            vary(&|o| {
                o.z0 += d;
                o.z -= d;
            });
        }
        vary(&|o| std::mem::swap(&mut o.z0, &mut o.z));
        vary(&|o| std::mem::swap(&mut o.i, &mut o.z0));
        vary(&|o| std::mem::swap(&mut o.i, &mut o.z));
        for d in [Fr::one(), -Fr::one(), Fr::from(2u64).pow([64u64]), Fr::from(2u64).pow([128u64]), Fr::from(2u64).pow([250u64])] {
            vary(&|o| o.u.com_e = shift(&o.u.com_e, d));
            vary(&|o| o.u.com_w = shift(&o.u.com_w, d));
            vary(&|o| o.u.u += d);
            for k in 0..q.u.x.len() {
                vary(&|o| o.u.x[k] += d);
            }
        }
        vary(&|o| std::mem::swap(&mut o.u.com_e, &mut o.u.com_w));
        vary(&|o| o.u.com_e = KzgCommitment((-o.u.com_e.0).into()));
        vary(&|o| o.u.com_w = KzgCommitment((-o.u.com_w.0).into()));
        vary(&|o| o.u.com_e = KzgCommitment(G1Affine::zero()));
        vary(&|o| o.u.com_w = KzgCommitment(G1Affine::zero()));
        vary(&|o| o.u.x.push(Fr::zero()));
        vary(&|o| o.u.x.insert(0, Fr::zero()));
        vary(&|o| {
            o.u.x.pop();
        });
        vary(&|o| o.u.x.clear());
        vary(&|o| o.u.x.reverse());
        vary(&|o| {
            let k = o.u.x.len().min(1);
            o.u.x.rotate_left(k)
        });
        vary(&|o| {
            if let Some(x) = o.u.x.first_mut() {
                std::mem::swap(x, &mut o.u.u)
            }
        });
        s.hash(&q);
    }
}
/// Public hashes of so many different questions that they would fall alike if they depended on too little of them.
fn hash_crowd<T: Digest + Default + Write>(rec: &mut Rec, seed: u64, n: u64) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = shape(&mut rng);
    let s = Ses::<T>::new(rec, sys, secret);
    let mut q = Question { i: Fq::one(), z0: state(&mut rng), z: Fq::rand_(&mut rng), u: s.triv.0.clone() };
    let mut heard = std::collections::HashSet::new();
    for k in 0..n {
        match k % 4 {
            0 => q.i += Fq::one(),
            1 => q.z += Fq::from(0x9e37_79b9_7f4a_7c15u64),
            2 => q.z0 += Fq::from(0x9e37_79b9_7f4a_7c15u64),
            _ => q.u.u += Fr::one(),
        }
        heard.insert(AugmentedCircuit::<T, StepFn>::hash_io(q.i, &State { state: q.z0 }, &State { state: q.z }, &q.u));
    }
    s.rec.ev("hashcrowd", json!({"n": n, "distinct": heard.len()}));
}
trait Rand_ {
    fn rand_(rng: &mut StdRng) -> Self;
}
impl Rand_ for Fq {
    fn rand_(rng: &mut StdRng) -> Fq {
        use ark_ff::UniformRand;
        Fq::rand(rng)
    }
}

/// Steps that do not satisfy the constraint system, proved with all care otherwise.
fn unsatisfied<T: Digest + Default + Write>(rec: &mut Rec, seed: u64) {
    let mut rng = StdRng::seed_from_u64(seed);
    let secret = rfr(&mut rng);
    let sys = System::random(&mut rng, 1, 2, 0, 1);
    let mut s = Ses::<T>::new(rec, sys, secret);
    let c = s.start("add", Fq::one());
    for _ in 0..2 {
        if !s.advance(c, &mut rng) {
            return;
        }
    }
    let free = s.free(&mut rng);
    let mut u = s.step_pair(c, &free);
    u.1.w[1] += Fr::one();
    u.0.com_w = com(secret, &u.1.w);
    let big = s.ch[c - 1].running.clone();
    if let Some(p) = s.prove(c, &u, &big, &[]) {
        let w = u.1.clone();
        s.verify(c, &p.zk, &[], false, Some(&w));
    }
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let mut rng = cfg.rng(0x1fc);
    let cfg_steps = cfg.n(6, 10);
    for (n, s) in cfg.scripts.iter().cloned().enumerate() {
        let seed = rng.gen::<u64>();
        scen(&mut out, "generated", move |rec| with_hash!(HASHES[n % 5], replay(rec, &s, seed)));
    }
    if cfg.is(&["N03"]) {
        for n in 0..cfg.n(16, 80) {
            let seed = rng.gen::<u64>();
            let (k, steps) = (KINDS[n % 4], if n % 8 == 7 { 10 + n / 8 } else { 1 + n % cfg.n(6, 12) });
            scen(&mut out, "honest", move |rec| with_hash!(HASHES[n % 5], honest(rec, seed, k, steps, n % 7 == 3)));
        }
    }
    // far longer ones
    let far: Vec<usize> = if cfg.thorough { vec![17, 33, 40, 70, 130] } else { vec![17, 34] };
    for (n, steps) in far.into_iter().enumerate() {
        let seed = rng.gen::<u64>();
        if cfg.is(&["N03"]) {
            scen(&mut out, "honest", move |rec| with_hash!(HASHES[n % 5], honest(rec, seed, KINDS[n % 4], steps, false)));
        }
        if cfg.is(&["N04"]) && (steps < 40 && n < 1 || cfg.thorough) {
            scen(&mut out, "alterations", move |rec| with_hash!(HASHES[n % 5], alterations(rec, seed, steps)));
        }
        if cfg.is(&["N05"]) && (steps < 40 && n < 1 || cfg.thorough) {
            scen(&mut out, "refusals", move |rec| with_hash!(HASHES[n % 5], refusals(rec, seed, steps)));
        }
    }
    if cfg.is(&["N04"]) {
        for n in 0..cfg.n(6, 40) {
            let seed = rng.gen::<u64>();
            scen(&mut out, "alterations", move |rec| with_hash!(HASHES[n % 5], alterations(rec, seed, 1 + n % cfg_steps)));
        }
        for n in 0..5 {
            let seed = rng.gen::<u64>();
            scen(&mut out, "first-step", move |rec| with_hash!(HASHES[n % 5], first_step(rec, seed)));
        }
        let seed = rng.gen::<u64>();
        scen(&mut out, "unsatisfied-step", move |rec| with_hash!("sha256", unsatisfied(rec, seed)));
    }
    if cfg.is(&["N05"]) {
        for n in 0..cfg.n(10, 60) {
            let seed = rng.gen::<u64>();
            scen(&mut out, "refusals", move |rec| with_hash!(HASHES[n % 5], refusals(rec, seed, 1 + n % cfg_steps)));
        }
    }
    if cfg.is(&["N06"]) {
        for n in 0..cfg.n(5, 20) {
            let seed = rng.gen::<u64>();
            scen(&mut out, "hashes", move |rec| with_hash!(HASHES[n % 5], hashes(rec, seed)));
        }
        let many = cfg.n(200_000, 1_000_000) as u64;
        let seed = rng.gen::<u64>();
        scen(&mut out, "many hashes", move |rec| with_hash!("sha256", hash_crowd(rec, seed, many)));
    }
    out
}
