//! Equations as text: both parsers of the plonk crate.
use crate::common::*;
use crate::plonk_d::{build, compiled_json, satisfied, Gate};
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::common_preprocessed_input::cpi_parser::{CPIGenerator, CommonPreprocessedInput};
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::parser::Parser;
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use sha2::Sha256;
use std::collections::BTreeMap;

/// Only for choosing values: the difference of the sides, if the text is what the harness takes it for.
struct Guess {
    sum: Vec<Vec<(bool, String, u64)>>,
}
fn guess(text: &str) -> Option<Guess> {
    let t: String = text.to_lowercase().split_whitespace().collect();
    let (l, r) = t.split_once('=')?;
    let term = |s: &str| -> Option<Vec<(bool, String, u64)>> {
        s.split('*').map(|f| {
            let u = f.trim_start_matches('-');
            let neg = (f.len() - u.len()) % 2 == 1;
            let (b, p) = u.split_once('^').unwrap_or((u, "1"));
            let p = p.parse::<u64>().ok()?;
            (!b.is_empty() && b.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).then(|| (neg, b.to_string(), p))
        }).collect()
    };
    let mut sum: Vec<_> = l.split('+').map(term).collect::<Option<_>>()?;
    let mut last = term(r)?;
    last.push((true, "1".into(), 1));
    sum.push(last);
    Some(Guess { sum })
}
impl Guess {
    fn value(&self, val: &BTreeMap<String, Fr>) -> Option<Fr> {
        let mut s = Fr::zero();
        for t in &self.sum {
            let mut p = Fr::one();
            for (neg, b, e) in t {
                let v = match val.get(b) {
                    Some(v) => *v,
                    None => Fr::from(b.parse::<u64>().ok()?),
                };
                let v = v.pow([*e]);
                p *= if *neg { -v } else { v };
            }
            s += p;
        }
        Some(s)
    }
    fn names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.sum.iter().flatten().map(|f| f.1.clone()).filter(|b| b.starts_with(|c: char| c.is_alphabetic() || c == '_')).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Makes the equation hold by the choice of one value, where that is easy.
    fn solve(&self, val: &mut BTreeMap<String, Fr>, rng: &mut StdRng) -> bool {
        let mut ns = self.names();
        ns.shuffle(rng);
        for n in ns {
            let mut at = |x: Fr| {
                let mut v = val.clone();
                v.insert(n.clone(), x);
                self.value(&v)
            };
            if let (Some(a), Some(b), Some(c)) = (at(Fr::zero()), at(Fr::one()), at(Fr::from(2u64))) {
                let k = b - a;
                if !k.is_zero() && c - b == k {
                    let x = -a / k;
                    val.insert(n, x);
                    return true;
                }
            }
        }
        false
    }
}

fn chars(t: &str) -> Value {
    Value::Array(t.chars().map(|c| json!(c.to_string())).collect())
}
type Wit = Vec<(String, Fr)>;
fn wit_json(w: &Wit) -> Value {
    Value::Array(w.iter().map(|(n, v)| json!([chars(n), fj(v)])).collect())
}
fn compile(text: &str, wit: &Wit) -> Result<CompiledCircuit, String> {
    guard(|| {
        let mut p = Parser::default();
        for (n, v) in wit {
            p.add_witness(n, *v);
        }
        p.parse(text).compile()
    })
    .and_then(|x| x)
}
fn parse_event(rec: &mut Rec, text: &str, wit: &Wit, prove: bool) -> Option<CompiledCircuit> {
    let r = compile(text, wit);
    let mut e = json!({"text": chars(text), "wit": wit_json(wit), "res": res(&r, |c| if prove { json!({"n": c.size}) } else { compiled_json(c) })});
    if let (true, Ok(c)) = (prove, &r) {
        let v = guard(|| {
            let srs = Srs::new_from_secret(Fr::from(123456789u64), c.size);
            let pf = generate_proof::<Sha256>(c, srs.clone());
            verify::<Sha256>(c, srs, pf).is_ok()
        });
        e["verdict"] = res(&v, |b| json!(b));
    }
    rec.ev("parse", e);
    r.ok()
}

/// The names in a text, whatever it is.
fn words(text: &str) -> Vec<String> {
    let mut v: Vec<String> = text.to_lowercase().split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')).map(|w| w.to_string()).collect();
    v.sort();
    v.dedup();
    v
}
fn values(text: &str, rng: &mut StdRng, special: bool) -> BTreeMap<String, Fr> {
    words(text).into_iter().map(|w| (w, if special { sfr(rng) } else { rfr(rng) })).collect()
}
fn wit_of(val: &BTreeMap<String, Fr>, rng: &mut StdRng, fancy: bool) -> Wit {
    let mut w: Wit = vec![];
    for (n, v) in val {
        if fancy && rng.gen_bool(0.1) {
            w.push((n.clone(), *v + Fr::one())); // replaced by the next
        }
        let m = if fancy && rng.gen_bool(0.2) { n.to_uppercase() } else { n.clone() };
        w.push((m, *v));
    }
    if fancy && rng.gen_bool(0.2) {
        w.push(("unused".into(), rfr(rng)));
    }
    if fancy && !w.is_empty() && rng.gen_bool(0.05) {
        let n = val.keys().next().unwrap().clone();
        w.retain(|x| x.0.to_lowercase() != n); // a name without a value
    }
    w
}

/// One text, with values for which it holds (where these are found) and with values for which it does not.
fn meaning(rec: &mut Rec, text: &str, rng: &mut StdRng, solve: bool, fancy: bool) {
    let special = rng.gen_bool(0.5);
    let mut val = values(text, rng, special);
    if solve {
        if let Some(g) = guess(text) {
            g.solve(&mut val, rng);
        }
    }
    let w = wit_of(&val, rng, fancy);
    parse_event(rec, text, &w, true);
    if solve && !val.is_empty() && rng.gen_bool(0.5) {
        // one value off
        let i = rng.gen_range(0..val.len());
        *val.values_mut().nth(i).unwrap() += Fr::from(rng.gen_range(1..4u64));
        let w = wit_of(&val, rng, false);
        parse_event(rec, text, &w, true);
    }
}
/// What the constraints of the circuit of a text force.
fn forced(rec: &mut Rec, text: &str, rng: &mut StdRng) {
    // random values tell the names from one another and from everything else
    let val = values(text, rng, false);
    let w = wit_of(&val, rng, false);
    parse_event(rec, text, &w, false);
    let rho: Wit = val.keys().map(|n| (n.clone(), rfr(rng))).collect();
    rec.ev("forced", json!({"text": chars(text), "wit": wit_json(&w), "rho": wit_json(&rho)}));
}
fn coms_json(c: &CommonPreprocessedInput) -> Value {
    json!({"n": c.n, "k1": fj(&c.k1), "k2": fj(&c.k2), "f": {
        "l": g1(&c.com_q_lx.0), "r": g1(&c.com_q_rx.0), "m": g1(&c.com_q_mx.0), "o": g1(&c.com_q_ox.0), "q": g1(&c.com_q_cx.0),
        "s1": g1(&c.com_s_sigma_1.0), "s2": g1(&c.com_s_sigma_2.0), "s3": g1(&c.com_s_sigma_3.0), "pi": fv(c.pi_x.coeffs())}})
}
fn preprocess(rec: &mut Rec, text: &str, secret: Fr, rng: &mut StdRng) {
    let special = rng.gen_bool(0.3);
    let val = values(text, rng, special);
    let w = wit_of(&val, rng, false);
    let c = parse_event(rec, text, &w, false);
    let size = c.map_or(64, |c| c.size);
    let r = guard(|| CPIGenerator::default().compute_common_preprocessed_input(text, KzgScheme::new(Srs::new_from_secret(secret, size)))).and_then(|x| x);
    rec.ev("cpi", json!({"text": chars(text), "named": true, "res": res(&r, coms_json)}));
}

fn cpi_of(gates: &[Gate]) -> CPICircuit {
    let mut c = CPICircuit::default();
    for g in gates {
        let [a, b, o] = g.w.map(|w| (w.0, w.1));
        c = match g.k {
            "add" => c.add_addition_gate(a, b, o, g.pi),
            "mul" => c.add_multiplication_gate(a, b, o, g.pi),
            "dummy" => {
                c.add_dummy_gate();
                c
            }
            _ => c.add_constant_gate(a, b, o, g.w[0].2, g.pi),
        };
    }
    c
}
fn parts_json(x: &(GateConstraints, CopyConstraints, usize)) -> Value {
    let (g, c, n) = x;
    let w = GeneralEvaluationDomain::<Fr>::new(*n).map_or(Fr::zero(), |d| d.group_gen());
    json!({"n": n, "w": fj(&w), "k1": fj(c.k1()), "k2": fj(c.k2()), "f": {
        "l": fv(g.q_lx().coeffs()), "r": fv(g.q_rx().coeffs()), "o": fv(g.q_ox().coeffs()), "m": fv(g.q_mx().coeffs()), "q": fv(g.q_cx().coeffs()), "pi": fv(g.pi_x().coeffs()),
        "s1": fv(c.s_sigma_1().coeffs()), "s2": fv(c.s_sigma_2().coeffs()), "s3": fv(c.s_sigma_3().coeffs())}})
}
fn gates_json(gates: &[Gate]) -> Value {
    Value::Array(gates.iter().map(|g| json!({"k": g.k, "w": g.w.iter().map(|w| json!({"c": w.0, "r": w.1, "v": fj(&w.2)})).collect::<Vec<_>>(), "pi": fj(&g.pi)})).collect())
}
fn twin(rec: &mut Rec, gates: &[Gate], dummies: usize) {
    let a = guard(|| build(gates).compile()).and_then(|x| x);
    let mut more = gates.to_vec();
    for i in 0..dummies {
        let r = gates.len() + i;
        more.push(dummy(r));
    }
    let b = guard(|| cpi_of(&more).compile()).and_then(|x| x);
    rec.ev("twin", json!({"prover": res(&a, compiled_json), "cpi": res(&b, parts_json)}));
}
fn dummy(r: usize) -> Gate {
    use crate::plonk_d::W;
    Gate { k: "dummy", w: [W(0, r, Fr::zero()), W(1, r, Fr::zero()), W(2, r, Fr::zero())], pi: Fr::zero() }
}
/// Padding gates at the given rows; the other gates and what their wires name move down.
fn dummies_between(gates: &[Gate], rows: &[usize]) -> Vec<Gate> {
    let n = gates.len() + rows.len();
    let free: Vec<usize> = (0..n).filter(|r| !rows.contains(r)).collect();
    let mut out: Vec<Gate> = (0..n).map(dummy).collect();
    for (i, g) in gates.iter().enumerate() {
        let mut g = g.clone();
        for w in g.w.iter_mut() {
            w.1 = free[w.1];
        }
        out[free[i]] = g;
    }
    out
}

const TEXTS: &[&str] = &[
    "2*3+4=10", "16777217=x", "x=16777217", "16777217+0=16777217", "16777216+1=16777217", "16777217=16777216", "123456789*1=123456789", "x*987654321=y", "x+1999999999=y", "33554433+-33554432=1", "9007199=x", "x_+_x=y", "_x*x_=__", "2*3+4=11", "0=0", "0=1", "1=0", "0=-0", "-0=0", "3=3", "3=-3", "-3=-3", "--3=3", "---3=-3", "3+0=3", "0+3=3", "3+0+0=3", "0*5=0", "-1*-1=1", "-1*1=1", "2^3=8", "2^3=6",
    "2^0=1", "0^0=1", "0^1=0", "0^3=0", "2^1=2", "-2^2=-4", "-2^2=4", "12^2=144", "12=12", "12=3", "10+2=12", "1+2+3+4+5=15", "007=7", "00=0", "2147483647=2147483647", "2147483647+1=2147483647",
    "65536*65536=2147483647", "2*2^2=8", "2^2*2=8", "2*3^2=18", "2*3^2=36", "-2*-3=6", "2*-3=-6", "2+-3=-1", "-1=-1", "-1+1=0", "1+-1=0", "-0+-0=0", "1*1*1*1=1", "3*2=2*3", "3*2=2*2",
    "x=x", "x=-x", "-x=x", "x+x=2*x", "x*x=x^2", "x^2=x*x", "x+-x=0", "-x+x=0", "x*y=y*x", "x^0=1", "x^0=0", "x^1=x", "x^2*x=x^3", "-x^2=-x^2", "x*0=0", "0*x=0", "x*1=x", "1*x=x", "x+0=x", "0+x=x", "x+1=1",
    "x+y=z", "x*y=z", "x*y+z=z", "x+y*z=x", "x*y+y*z=x*z", "xy+x*y=x", "x1+x2=x12", "x_1+_x=_", "abc+bca=cab", "x*y+3*x^2+x*y*z=11", "x^3+x+5=y", "-x*y+-y*z=-z", "x*-y=z", "-x*-y=z", "--x=y", "-x+-y+-z=-x", "x+x+x+x=y",
    "x*x*x*x=y", "x^2+y^2=z^2", "x^2*y^3=z", "2*x+3*y=5*z", "x*2=y", "x*2*y=z", "2*x*2=y", "x*x+x*x=y", "x*y+x*y=z", "x*y+x*y+x*y=z", "x+y+x=z", "x+y+x+y=z", "-x*x=y", "x*-x=y", "-x*-x=y", "-1*x=y", "x*-1=y", "-x+x*y=z", "x*y+-x=z", "-x+-x=y", "-x=y*-x",
    "x=y", "x=-y", "x=2", "x=-2", "x=y*z", "x=y*y", "x=y^2", "x=-y^2", "x=2*y", "x=y*2", "x=-2*y", "x=y*-2", "x=--y", "x=0", "x=-0", "x=y^0", "x+y=0", "x=x*x", "x=-x*x", "x*y*z=x*y*z", "x*y*z=-x*y*z",
    // blanks and capitals
    " x = y ", "X=x", "X+Y=z*Z", "x\t+\ny = z", "x ^ 2 = y", "x^ 2=y", "x ^2=y", "- x = y", "- - x=y", "x * - y = z", "  2*3  =  6  ", "12 = 12", "Xy_1 = xY_1",
];
const NOT_EQUATIONS: &[&str] = &[
    "", " ", "=", "x", "x=", "=x", "x==y", "x=y=z", "x+=y", "+x=y", "x++y=z", "x+*y=z", "x**y=z", "x*=y", "*x=y", "x-y=z", "x -y=z", "x*y-z=x", "1-1=0", "2-1=1", "x=y+z", "x=1+1", "x=+y", "x=y-z", "x=y*", "x=*y",
    "x^=y", "^2=x", "x^y=z", "x^-2=y", "x^2^2=y", "x^2^3=y", "2^2^2=x", "x^^2=y", "x^2x=y", "x^ =y", "x^(2)=y", "(x)=y", "(x+y)*z=x", "x/y=z", "x.y=z", "1.5=x", "2x=y", "2 x=y", "x 2=y", "x y=z", "1 2=12", "1 2=3", "x^1 2=y", "x ^ 1 0=y",
    "-=x", "x=-", "--=x", "x*-=y", "-*x=y", "x,y=z", "x;y=z", "x=y;", "x&y=z", "2147483648=x", "4294967296=x", "99999999999=x", "x=2147483648", "x=4294967297", "-2147483648=x", "x^2147483648=y", "x^4294967297=y", "x^99999999999999999999999=y", "0x10=x", "1e3=x", "1_000=x", "$x=y", "x _=y", "x_ y=z", "x_ _y=z", "_ x=y", "x_ 2=y", "2 _x=y", "_ _=y", "x y_=z", "x*y _z=1", "x _^2=y", "x\t_=y", "_1 _=_1_", "x'=y", "x!=y", "x<y", "x=>y", "x:=y", "²=x", "x²=y", "3²=x",
];

fn long_texts(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    for n in if thorough { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 50] } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17] } {
        let t = |f: &dyn Fn(usize) -> String, s: &str| (0..n).map(f).collect::<Vec<_>>().join(s);
        v.push(format!("{}=y", t(&|_| "x".into(), "+")));
        v.push(format!("{}=y", t(&|_| "x".into(), "*")));
        v.push(format!("{}=y", t(&|i| format!("v{i}"), "+")));
        v.push(format!("{}=y", t(&|i| format!("v{i}"), "*")));
        v.push(format!("y={}", t(&|i| format!("v{i}"), "*")));
        v.push(format!("x^{n}=y"));
        v.push(format!("y=-x^{n}"));
        v.push(format!("{}=y", t(&|i| format!("{i}"), "+")));
        v.push(format!("{}=y", t(&|i| format!("{}*x^{}", i + 1, i % 5), "+")));
        v.push(format!("{}=y", t(&|i| format!("x*v{}", i % 3), "+")));
        v.push(format!("{}=y", t(&|i| (if i % 2 == 0 { "-x" } else { "x" }).into(), "+")));
    }
    v
}
/// All equations of two factors on the left and one on the right.
fn small_texts() -> Vec<String> {
    let f = ["x", "y", "-x", "2", "-2", "x^2", "0", "xy", "1"];
    let mut v = vec![];
    for a in f {
        for b in f {
            for c in f {
                for op in ["+", "*"] {
                    v.push(format!("{a}{op}{b}={c}"));
                }
            }
        }
    }
    v
}
/// Every factor: signs, base and power, in every place of an equation (all at once is the thorough tier's).
fn factor_texts(thorough: bool, seed: usize) -> Vec<String> {
    let mut v = vec![];
    for (i, s) in ["", "-", "--", "---"].iter().enumerate() {
        for (j, b) in ["x", "0", "1", "2", "x1", "13"].iter().enumerate() {
            for (k, p) in ["", "^0", "^1", "^2", "^3", "^5"].iter().enumerate() {
                let f = format!("{s}{b}{p}");
                let places = [format!("{f}=y"), format!("y={f}"), format!("z+{f}=y"), format!("{f}*z+x=y"), format!("z*{f}=-y"), format!("y=z*{f}*x")];
                let n = places.len();
                v.extend(places.into_iter().enumerate().filter(|(at, _)| thorough || (at + i + j + k + seed) % n == 0).map(|(_, t)| t));
            }
        }
    }
    v
}
fn scripted(sc: &Value, rng: &mut StdRng) -> String {
    let t: String = sc["toks"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    if sc["capital"].as_bool().unwrap() {
        t.chars().map(|c| if rng.gen_bool(0.5) { c.to_ascii_uppercase() } else { c }).collect()
    } else {
        t
    }
}

pub fn scenarios(cfg: &Cfg) -> Vec<Scenario> {
    let mut out = vec![];
    let base = cfg.seed.wrapping_mul(1_000_003);
    let (p6, p7, p8) = (cfg.is(&["P06"]), cfg.is(&["P07"]), cfg.is(&["P08"]));
    let secret = Fr::from(987654321u64).pow([5]);
    let one = move |rec: &mut Rec, text: &str, rng: &mut StdRng, solve: bool, fancy: bool| {
        if p6 {
            meaning(rec, text, rng, solve, fancy);
        }
        if p7 {
            forced(rec, text, rng);
        }
        if p8 {
            rec.set("secret", fj(&secret));
            preprocess(rec, text, secret, rng);
        }
    };
    for (i, sc) in cfg.scripts.iter().enumerate() {
        let sc = sc.clone();
        scen(&mut out, "behaviour of the specification", move |rec| {
            let mut rng = StdRng::seed_from_u64(base ^ (i as u64) << 20 ^ sc["salt"].as_u64().unwrap());
            let t = scripted(&sc, &mut rng);
            one(rec, &t, &mut rng, sc["solve"].as_bool().unwrap(), true);
        });
    }
    let long = long_texts(cfg.thorough);
    let mut small = small_texts();
    if !cfg.thorough {
        let mut rng = cfg.rng(77);
        small.shuffle(&mut rng);
        small.truncate(250);
    }
    let lists: Vec<(&str, Vec<String>)> = vec![
        ("chosen equation", TEXTS.iter().map(|s| s.to_string()).collect()),
        ("long equation", long),
        ("every factor", factor_texts(cfg.thorough, cfg.seed as usize)),
        ("small equation", small),
        ("no equation", NOT_EQUATIONS.iter().map(|s| s.to_string()).collect()),
    ];
    for (fam, texts) in lists {
        for (k, chunk) in texts.chunks(8).enumerate() {
            let chunk = chunk.to_vec();
            scen(&mut out, fam, move |rec| {
                let mut rng = StdRng::seed_from_u64(base ^ (k as u64 * 7919));
                for t in &chunk {
                    one(rec, t, &mut rng, true, false);
                    if p6 && fam == "chosen equation" {
                        // plain small values, for which several of them hold
                        for (x, y, z) in [(1u64, 2, 3), (2, 4, 8), (0, 0, 0), (1, 1, 1)] {
                            let w: Wit = words(t).into_iter().enumerate().map(|(i, n)| (n, Fr::from([x, y, z][i % 3]))).collect();
                            if w.is_empty() {
                                break;
                            }
                            parse_event(rec, t, &w, true);
                        }
                    }
                }
            });
        }
    }
    if p8 {
        for n in if cfg.thorough { (1..=33).collect::<Vec<usize>>() } else { (1..=9).chain([15, 16, 17]).collect() } {
            scen(&mut out, "circuits built by hand", move |rec| {
                rec.set("secret", fj(&secret));
                let mut rng = StdRng::seed_from_u64(base ^ (n as u64 * 41));
                for pis in [false, true] {
                    let gates = satisfied(n, &mut rng, pis, 0.4);
                    twin(rec, &gates, 0);
                    let room = n.next_power_of_two() - n;
                    if room > 0 {
                        twin(rec, &gates, 1);
                        twin(rec, &gates, room);
                    }
                    let rows: Vec<usize> = (0..n + 3).filter(|_| rng.gen_bool(0.3)).take(3).collect();
                    let rows: Vec<usize> = rows.iter().cloned().filter(|r| *r < n + rows.len()).collect();
                    let d = dummies_between(&gates, &rows);
                    let b = guard(|| cpi_of(&d).compile()).and_then(|x| x);
                    rec.ev("dummies", json!({"gates": gates_json(&d), "cpi": res(&b, parts_json)}));
                }
            });
        }
    }
    out
}
