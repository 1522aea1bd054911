//! Histories of the three Fiat-Shamir transcripts.
use crate::common::*;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use fri::fiat_shamir::transcript::Transcript as FriT;
use fri::fields::goldilocks::Fq;
use kzg::commitment::KzgCommitment;
use nova::transcript::Transcript as NovaT;
use plonk::challenge::ChallengeGenerator;
use rand::Rng;
use std::ops::Mul;

fn points() -> Vec<G1Affine> {
    let g = G1Affine::generator();
    let k = |n: u64| g.mul(Fr::from(n)).into_affine();
    vec![g, k(2), -k(2), G1Affine::zero(), k(12), -g, k(1 << 40), g.mul(-Fr::from(3u64)).into_affine()]
}
/// values that are easily confused: equal low or high parts, texts that run into each other
fn scalars<F: PrimeField>() -> Vec<F> {
    let two = F::from(2u64);
    let a = F::from(12u64);
    vec![F::zero(), F::one(), a, two, F::from(21u64), a + two.pow([40u64]), -F::one(), a + two.pow([130u64]), F::from(112u64), F::from(1u64 << 32)]
}

trait Tr {
    fn feed(&mut self, kind: &str, v: usize) -> Value;
    fn draw(&mut self, n: usize, out: &str) -> Result<Vec<String>, String>;
    fn dup(&self) -> Box<dyn Tr>;
}
fn ss(v: &[Fr]) -> Vec<String> {
    v.iter().map(fs).collect()
}
fn pt(v: usize) -> KzgCommitment {
    let p = points();
    KzgCommitment(p[v % p.len()])
}
fn item(k: &str, v: String) -> Value {
    json!({"k": k, "v": v})
}
fn g1s(p: &G1Affine) -> String {
    g1(p).as_str().unwrap().to_string()
}

struct P<T: sha2::Digest + Default + Clone>(ChallengeGenerator<T>);
impl<T: sha2::Digest + Default + Clone + 'static> Tr for P<T> {
    fn feed(&mut self, _k: &str, v: usize) -> Value {
        self.0.feed(&pt(v));
        item("c", g1s(&pt(v).0))
    }
    fn draw(&mut self, n: usize, _o: &str) -> Result<Vec<String>, String> {
        guard(|| match n {
            1 => ss(&self.0.generate_challenges::<1>()),
            2 => ss(&self.0.generate_challenges::<2>()),
            3 => ss(&self.0.generate_challenges::<3>()),
            _ => ss(&self.0.generate_challenges::<5>()),
        })
    }
    fn dup(&self) -> Box<dyn Tr> {
        Box::new(P(self.0.clone()))
    }
}
struct N<T: sha2::Digest + Default + Clone>(NovaT<T>);
impl<T: sha2::Digest + Default + Clone + 'static> Tr for N<T> {
    fn feed(&mut self, k: &str, v: usize) -> Value {
        if k == "c" {
            self.0.feed(&pt(v));
            item("c", g1s(&pt(v).0))
        } else {
            let l = scalars::<Fr>();
            self.0.feed_scalar_num(l[v % l.len()]);
            item("s", fs(&l[v % l.len()]))
        }
    }
    fn draw(&mut self, n: usize, _o: &str) -> Result<Vec<String>, String> {
        guard(|| match n {
            1 => ss(&self.0.generate_challenges::<1>()),
            2 => ss(&self.0.generate_challenges::<2>()),
            3 => ss(&self.0.generate_challenges::<3>()),
            _ => ss(&self.0.generate_challenges::<5>()),
        })
    }
    fn dup(&self) -> Box<dyn Tr> {
        Box::new(N(self.0.clone()))
    }
}
struct R<T: sha2_fri::Digest + Default + Clone, F: PrimeField>(FriT<T, F>);
impl<T: sha2_fri::Digest + Default + Clone + 'static, F: PrimeField> Tr for R<T, F> {
    fn feed(&mut self, _k: &str, v: usize) -> Value {
        let l = scalars::<F>();
        self.0.digest(l[v % l.len()]);
        item("s", fs(&l[v % l.len()]))
    }
    fn draw(&mut self, n: usize, o: &str) -> Result<Vec<String>, String> {
        guard(|| match (o, n) {
            ("u", _) => self.0.generate_challenge_list_usize(n).iter().map(|x| x.to_string()).collect(),
            (_, 1) => vec![fs(&self.0.generate_a_challenge())],
            _ => self.0.generate_challenges(n).iter().map(fs).collect(),
        })
    }
    fn dup(&self) -> Box<dyn Tr> {
        Box::new(R(self.0.clone()))
    }
}

const KINDS: [(&str, &str); 10] = [
    ("plonk", "sha256"), ("plonk", "sha512"), ("plonk", "sha224"),
    ("nova", "sha256"), ("nova", "sha512"), ("nova", "sha384"),
    ("fri", "sha256"), ("fri", "sha512"), ("fri", "sha384"), ("fri", "sha256r"),
];
/// A new transcript that has been fed `items`; the second element are the items as fed.
fn make(kind: &str, hash: &str, items: &[(String, usize)]) -> (Box<dyn Tr>, Vec<Value>) {
    let coms: Vec<KzgCommitment> = items.iter().map(|(_, v)| pt(*v)).collect();
    let fed_c: Vec<Value> = coms.iter().map(|c| item("c", g1s(&c.0))).collect();
    macro_rules! plonk {
        ($t:ty) => {
            return (Box::new(P::<$t>(ChallengeGenerator::from_commitments(&coms))), fed_c)
        };
    }
    macro_rules! nova {
        ($t:ty) => {{
            let nums: Vec<Fr> = items.iter().map(|(_, v)| scalars::<Fr>()[*v % scalars::<Fr>().len()]).collect();
            if !items.is_empty() && items.iter().all(|(k, _)| k == "c") {
                return (Box::new(N::<$t>(NovaT::from_commitment(&coms))), fed_c);
            }
            if items.iter().all(|(k, _)| k == "s") {
                return (Box::new(N::<$t>(NovaT::from_scalar_number(&nums))), nums.iter().map(|x| item("s", fs(x))).collect());
            }
            let mut t = N::<$t>(NovaT::default());
            let fed = items.iter().map(|(k, v)| t.feed(k, *v)).collect();
            return (Box::new(t), fed);
        }};
    }
    macro_rules! fri {
        ($t:ty, $f:ty) => {{
            if items.is_empty() {
                return (Box::new(R::<$t, $f>(FriT::default())), vec![]);
            }
            let l = scalars::<$f>();
            let first = l[items[0].1 % l.len()];
            let mut t = R::<$t, $f>(FriT::new(first));
            let mut fed = vec![item("s", fs(&first))];
            fed.extend(items[1..].iter().map(|(k, v)| t.feed(k, *v)));
            return (Box::new(t), fed);
        }};
    }
    match (kind, hash) {
        ("plonk", "sha256") => plonk!(sha2::Sha256),
        ("plonk", "sha512") => plonk!(sha2::Sha512),
        ("plonk", _) => plonk!(sha2::Sha224),
        ("nova", "sha256") => nova!(sha2::Sha256),
        ("nova", "sha512") => nova!(sha2::Sha512),
        ("nova", _) => nova!(sha2::Sha384),
        ("fri", "sha256") => fri!(sha2_fri::Sha256, Fq),
        ("fri", "sha512") => fri!(sha2_fri::Sha512, Fq),
        ("fri", "sha384") => fri!(sha2_fri::Sha384, Fq),
        _ => fri!(sha2_fri::Sha256, Fr),
    }
}

struct Ses<'a> {
    rec: &'a mut Rec,
    ts: Vec<Box<dyn Tr>>,
}
impl<'a> Ses<'a> {
    fn new(&mut self, kind: &str, hash: &str, items: &[(String, usize)]) -> usize {
        let (t, fed) = make(kind, hash, items);
        self.ts.push(t);
        // the field is part of what distinguishes oracles
        self.rec.ev("new", json!({"kind": kind, "hash": hash, "items": fed}));
        self.ts.len()
    }
    fn feed(&mut self, h: usize, k: &str, v: usize) {
        let i = self.ts[h - 1].feed(k, v);
        self.rec.ev("feed", json!({"h": h, "item": i}));
    }
    fn clone(&mut self, h: usize) {
        let c = self.ts[h - 1].dup();
        self.ts.push(c);
        self.rec.ev("clone", json!({"h": h}));
    }
    fn draw(&mut self, h: usize, n: usize, out: &str) {
        let r = self.ts[h - 1].draw(n, out);
        self.rec.ev("draw", json!({"h": h, "n": n, "out": out, "res": res(&r, |v| json!(v))}));
    }
}
fn outs(kind: &str, out: &str) -> String {
    if kind == "fri" { out.into() } else { "f".into() }
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let kinds: Vec<(&'static str, &'static str)> = KINDS.iter().copied().filter(|(k, _)| match cfg.prop.as_str() {
        "P04" => *k == "plonk",
        "F05" => *k == "fri",
        "N06" => *k == "nova",
        _ => true,
    }).collect();
    // behaviours of the specification, on every kind of transcript
    for (n, s) in cfg.scripts.iter().cloned().enumerate() {
        for (j, (kind, hash)) in kinds.iter().copied().enumerate() {
            if !cfg.thorough && (n + j) % 3 != 0 {
                continue;
            }
            let s = s.clone();
            scen(&mut out, "generated", move |rec| {
                let mut t = Ses { rec, ts: vec![] };
                let it = |v: &Value| (v["k"].as_str().unwrap().to_string(), v["v"].as_u64().unwrap() as usize);
                for e in s["hist"].as_array().unwrap() {
                    let h = e["h"].as_u64().unwrap_or(0) as usize;
                    match e["op"].as_str().unwrap() {
                        "new" => {
                            t.new(kind, hash, &e["items"].as_array().unwrap().iter().map(it).collect::<Vec<_>>());
                        }
                        "feed" => {
                            let (k, v) = it(&e["item"]);
                            t.feed(h, &k, v);
                        }
                        "clone" => t.clone(h),
                        "draw" => t.draw(h, e["n"].as_u64().unwrap() as usize, &outs(kind, e["out"].as_str().unwrap())),
                        _ => {}
                    }
                }
                // at the end every transcript answers for where it is
                for h in 1..=t.ts.len() {
                    t.draw(h, 2, "f");
                }
            });
        }
    }
    // every sequence of up to three items of a small alphabet
    for (kind, hash) in kinds.iter().copied() {
        scen(&mut out, "all-short", move |rec| {
            let mut t = Ses { rec, ts: vec![] };
            let letters: Vec<(String, usize)> = match kind {
                "nova" => vec![("c".into(), 0), ("c".into(), 3), ("s".into(), 0), ("s".into(), 1)],
                "plonk" => vec![("c".into(), 0), ("c".into(), 1), ("c".into(), 2), ("c".into(), 3)],
                _ => vec![("s".into(), 0), ("s".into(), 1), ("s".into(), 2), ("s".into(), 3)],
            };
            let mut seqs: Vec<Vec<(String, usize)>> = vec![vec![]];
            let mut last = seqs.clone();
            for _ in 0..3 {
                last = last.iter().flat_map(|s| letters.iter().map(move |l| [s.clone(), vec![l.clone()]].concat())).collect();
                seqs.extend(last.clone());
            }
            for (n, s) in seqs.iter().enumerate() {
                // alternately fed at once and one by one
                let h = if n % 2 == 0 || s.is_empty() {
                    t.new(kind, hash, s)
                } else {
                    let h = t.new(kind, hash, &s[..1]);
                    for (k, v) in &s[1..] {
                        t.feed(h, k, *v);
                    }
                    h
                };
                t.draw(h, 2, "f");
            }
        });
        // every letter of the full alphabet in one place of a longer sequence, and one item more or less
        scen(&mut out, "one-place", move |rec| {
            let mut t = Ses { rec, ts: vec![] };
            let base: Vec<(String, usize)> = (0..7).map(|i| (if i % 3 == 1 { "s".into() } else { "c".into() }, (i * 5) % 8)).collect();
            for place in 0..base.len() {
                for v in 0..10 {
                    let mut s = base.clone();
                    if kind == "nova" && v % 2 == 1 {
                        s[place].0 = if s[place].0 == "c" { "s".into() } else { "c".into() };
                    }
                    s[place].1 = v;
                    let h = t.new(kind, hash, &s);
                    t.draw(h, 1, &outs(kind, if v % 3 == 2 { "u" } else { "f" }));
                }
                let mut s = base.clone();
                s.remove(place);
                let h = t.new(kind, hash, &s);
                t.draw(h, 1, "f");
                let mut s = base.clone();
                s.insert(place, base[place].clone());
                let h = t.new(kind, hash, &s);
                t.draw(h, 1, "f");
                let mut s = base.clone();
                s.swap(place, (place + 1) % 7);
                let h = t.new(kind, hash, &s);
                t.draw(h, 1, "f");
            }
        });
        // histories that differ early on and are fed the same ever after
        let steps = cfg.n(20, 70);
        scen(&mut out, "diverged", move |rec| {
            let mut t = Ses { rec, ts: vec![] };
            let c = |v: usize| ("c".to_string(), v);
            let starts = [vec![c(1), c(2)], vec![c(3), c(2)], vec![c(1), c(3)], vec![c(2), c(1)], vec![c(4), c(1), c(2)]];
            let hs: Vec<usize> = starts.iter().map(|s| t.new(kind, hash, s)).collect();
            for i in 0..steps {
                for h in &hs {
                    t.draw(*h, 1, "f");
                    t.feed(*h, if i % 3 == 1 { "s" } else { "c" }, (i * 7 + 5) % 10);
                }
            }
            for h in &hs {
                t.draw(*h, 5, &outs(kind, "u"));
            }
        });
        if kind == "fri" {
            scen(&mut out, "many", move |rec| {
                let mut t = Ses { rec, ts: vec![] };
                for o in ["u", "f"] {
                    let h = t.new(kind, hash, &[("s".to_string(), 3), ("s".to_string(), if o == "u" { 1 } else { 2 })]);
                    t.draw(h, 1500, &outs(kind, o));
                }
            });
        }
        // a long history: challenges drawn all along never repeat, a transcript fed the same without drawing agrees
        let steps = cfg.n(40, 300);
        let seed = cfg.seed;
        scen(&mut out, "long", move |rec| {
            use rand::SeedableRng;
            let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
            let mut t = Ses { rec, ts: vec![] };
            let a = t.new(kind, hash, &[("c".into(), 0)]);
            let b = t.new(kind, hash, &[("c".into(), 0)]);
            for i in 0..steps {
                let k = if rng.gen() { "c" } else { "s" };
                let v = if i % 4 == 0 { 1 } else { rng.gen_range(0..10) };
                t.feed(a, k, v);
                t.feed(b, k, v);
                t.draw(a, 1, "f");
                if i % 7 == 0 {
                    t.draw(a, 1, "f");
                    t.draw(b, 2, "f");
                }
            }
            t.draw(b, 3, "f");
            t.draw(b, 3, "f");
        });
    }
    // so many transcripts that challenges from a small set would fall alike
    let crowd = cfg.n(300_000, 1_000_000);
    for kind in ["plonk", "nova", "fri"] {
        if !kinds.iter().any(|(k, _)| *k == kind) {
            continue;
        }
        scen(&mut out, "crowd", move |rec| {
            use rand::SeedableRng;
            use ark_ff::UniformRand;
            let step = (0..crowd).scan(G1Affine::generator().mul(Fr::from(1_000_003u64)), |p, _| {
                *p += G1Affine::generator();
                Some(*p)
            });
            let points: Vec<KzgCommitment> = if kind == "fri" { vec![] } else { CurveGroup::normalize_batch(&step.collect::<Vec<_>>()).into_iter().map(KzgCommitment).collect() };
            let mut rng = rand::rngs::StdRng::seed_from_u64(11);
            let mut drew = std::collections::HashSet::new();
            let r = guard(|| {
                for i in 0..crowd {
                    let v = match kind {
                        "plonk" => ChallengeGenerator::<sha2::Sha256>::from_commitments(&points[i..=i]).generate_challenges::<1>()[0].to_string(),
                        "nova" if i % 2 == 0 => NovaT::<sha2::Sha256>::from_commitment(&points[i..=i]).generate_challenges::<1>()[0].to_string(),
                        "nova" => NovaT::<sha2::Sha256>::from_scalar_number(&[Fr::from(i as u64)]).generate_challenges::<1>()[0].to_string(),
                        _ if i % 2 == 0 => FriT::<sha2_fri::Sha256, Fr>::new(Fr::from(i as u64)).generate_a_challenge().to_string(),
                        _ => FriT::<sha2_fri::Sha256, Fr>::new(Fr::rand(&mut rng)).generate_a_challenge().to_string(),
                    };
                    drew.insert(v);
                }
            });
            rec.ev("crowd", json!({"kind": kind, "n": crowd, "distinct": drew.len(), "res": res(&r, |_| json!(true))}));
        });
    }
    // one history under every hash of a kind
    for kind in ["plonk", "nova", "fri"] {
        if !kinds.iter().any(|(k, _)| *k == kind) {
            continue;
        }
        scen(&mut out, "hashes", move |rec| {
            let mut t = Ses { rec, ts: vec![] };
            for (k, hash) in KINDS {
                if k == kind && hash != "sha256r" {
                    for n in 1..4 {
                        let h = t.new(kind, hash, &(0..n).map(|i| ("s".to_string(), i)).collect::<Vec<_>>());
                        t.draw(h, 3, "f");
                    }
                }
            }
        });
    }
    let _ = Fr::zero();
    out
}
