//! What every driver needs: values in trace notation, guarded calls, the event recorder and seeded values.
use ark_bls12_381::{Fr, G1Affine, G2Affine};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, Field, PrimeField};
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
pub use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A field element as a decimal string.
pub fn fj<F: PrimeField>(x: &F) -> Value {
    Value::String(fs(x))
}
pub fn fs<F: PrimeField>(x: &F) -> String {
    // Display of zero is not uniform across versions of the library
    let b = x.into_bigint().to_bytes_be();
    dec(&b)
}
pub fn dec(be: &[u8]) -> String {
    let mut digits: Vec<u32> = vec![0]; // base 10^9, lowest first
    for &byte in be {
        let mut carry = byte as u64;
        for d in digits.iter_mut() {
            let v = (*d as u64) * 256 + carry;
            *d = (v % 1_000_000_000) as u32;
            carry = v / 1_000_000_000;
        }
        while carry > 0 {
            digits.push((carry % 1_000_000_000) as u32);
            carry /= 1_000_000_000;
        }
    }
    let mut s = digits.last().unwrap().to_string();
    for d in digits.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", d));
    }
    s
}
pub fn fv<F: PrimeField>(v: &[F]) -> Value {
    Value::Array(v.iter().map(fj).collect())
}
pub fn g1(p: &G1Affine) -> Value {
    if p.is_zero() {
        return json!("inf");
    }
    Value::String(format!("{}:{}", fs(p.x().unwrap()), fs(p.y().unwrap())))
}
pub fn g2(p: &G2Affine) -> Value {
    if p.is_zero() {
        return json!("inf");
    }
    let (x, y) = (p.x().unwrap(), p.y().unwrap());
    Value::String(format!("{},{}:{},{}", fs(&x.c0), fs(&x.c1), fs(&y.c0), fs(&y.c1)))
}
pub fn parse_f<F: PrimeField>(s: &str) -> F {
    let ten = F::from(10u64);
    s.bytes().fold(F::zero(), |a, b| a * ten + F::from((b - b'0') as u64))
}
pub fn parse_g1(s: &str) -> G1Affine {
    if s == "inf" {
        return G1Affine::zero();
    }
    let (x, y) = s.split_once(':').unwrap();
    G1Affine::new_unchecked(parse_f(x), parse_f(y))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Runs code under test; a panic is a result like any other.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        s.chars().take(160).filter(|c| c.is_ascii() && *c != '"' && *c != '\\' && !c.is_control()).collect()
    })
}
/// {"ok": v} or {"refused": true, "msg": ..}
pub fn res<R>(r: &Result<R, String>, f: impl FnOnce(&R) -> Value) -> Value {
    match r {
        Ok(v) => json!({ "ok": f(v) }),
        Err(m) => json!({"refused": true, "msg": m}),
    }
}

/// The events of one scenario.
#[derive(Default)]
pub struct Rec {
    pub head: serde_json::Map<String, Value>,
    pub events: Vec<Value>,
}
impl Rec {
    pub fn set(&mut self, k: &str, v: Value) {
        self.head.insert(k.into(), v);
    }
    pub fn ev(&mut self, op: &str, mut v: Value) {
        v.as_object_mut().unwrap().insert("op".into(), json!(op));
        self.events.push(v);
    }
}

pub struct Scenario {
    pub fam: String,
    pub run: Box<dyn Fn(&mut Rec) + Send + Sync>,
}
pub fn scen(out: &mut Vec<Scenario>, fam: &str, run: impl Fn(&mut Rec) + Send + Sync + 'static) {
    out.push(Scenario { fam: fam.into(), run: Box::new(run) });
}

#[derive(Clone)]
pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub prop: String,
    pub scripts: Vec<Value>,
}
impl Cfg {
    pub fn rng(&self, salt: u64) -> StdRng {
        StdRng::seed_from_u64(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD134_2543_DE82_EF95))
    }
    /// quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn is(&self, props: &[&str]) -> bool {
        self.prop == "all" || props.contains(&self.prop.as_str())
    }
}

pub fn rfr(rng: &mut impl RngCore) -> Fr {
    use ark_ff::UniformRand;
    Fr::rand(rng)
}
/// A scalar that is special more often than chance would have it.
pub fn sfr<F: PrimeField>(rng: &mut impl RngCore) -> F {
    match rng.gen_range(0..12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2u64),
        4 => F::from(rng.gen_range(0..20u64)),
        5 => -F::from(rng.gen_range(0..20u64)),
        6 => F::from(u64::MAX),
        7 => F::from(2u64).pow([rng.gen_range(0..250u64)]),
        _ => F::rand(rng),
    }
}
