//! A builder that evaluates the circuit while it is built, under a chosen assignment: every hint output is
//! the prescribed one unless the prover overrides it, every constraint leaves a residual (zero = satisfied).
use arith::{Field as _, Fp};
use circuit_std_rs::logup::{query_count_by_key_hint, query_count_hint, rangeproof_hint};
use ethnum::U256;
use expander_compiler::frontend::api::*;
use expander_compiler::frontend::builder::{ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::{Config, Variable};
use expander_compiler::hints::builtin::{impl_builtin_hint, BuiltinHintIds as H};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Cf<const K: usize>;
impl<const K: usize> Config for Cf<K> { type CircuitField = Fp<K>; }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9e37_79b9_7f4a_7c15); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ (z >> 31) }
    pub fn n(&mut self, k: u64) -> u64 { if k == 0 { 0 } else { self.u() % k } }
    pub fn r(&mut self, a: i64, b: i64) -> i64 { a + self.n((b - a + 1).max(1) as u64) as i64 }
    pub fn p(&mut self, pct: u64) -> bool { self.n(100) < pct }
    pub fn wide(&mut self) -> u128 { (self.u() as u128) << 64 | self.u() as u128 }
}
impl rand::RngCore for Rng { fn next_u64(&mut self) -> u64 { self.u() } }

pub struct Api<const K: usize> {
    pub vals: Vec<Fp<K>>,
    pub set: HashMap<usize, Fp<K>>,
    pub tape: Vec<Fp<K>>,
    /// tape indices of lookup multiplicities
    pub counts: Vec<usize>,
    /// tape indices of digits (recomputed from their value, so rarely worth overriding)
    pub digits: Vec<usize>,
    pub res: Vec<Fp<K>>,
    pub refused: Option<String>,
    pub chal: Rng,
}
type V<const K: usize> = Fp<K>;
impl<const K: usize> Api<K> {
    pub fn new(set: HashMap<usize, V<K>>, seed: u64) -> Self { Api { vals: vec![V::ZERO], set, tape: vec![], counts: vec![], digits: vec![], res: vec![], refused: None, chal: Rng::new(seed) } }
    pub fn put(&mut self, v: V<K>) -> Variable { self.vals.push(v); Variable::of(self.vals.len() - 1) }
    pub fn of(&self, v: Variable) -> V<K> { self.vals[v.id()] }
    fn ev(&mut self, x: impl ToVariableOrValue<V<K>>) -> V<K> { match x.convert_to_variable_or_value() { VariableOrValue::Variable(v) => self.vals[v.id()], VariableOrValue::Value(v) => v } }
    fn check(&mut self, r: V<K>) { self.res.push(r) }
    fn hint(&mut self, v: V<K>) -> Variable {
        let v = self.set.get(&self.tape.len()).copied().unwrap_or(v);
        self.tape.push(v);
        self.put(v)
    }
    fn bi(&mut self, h: H, x: V<K>, y: V<K>) -> Variable { let v = impl_builtin_hint(h, &[x, y], 1)[0]; self.hint(v) }
    fn bool_(&mut self, x: V<K>) { self.check(x * (x - V::ONE)) }
}
macro_rules! un { ($($f:ident $h:ident)*) => { $(fn $f(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>) -> Variable { let (x, y) = (self.ev(x), self.ev(y)); self.bi(H::$h, x, y) })* } }
impl<const K: usize> UnconstrainedAPI<Cf<K>> for Api<K> {
    fn unconstrained_identity(&mut self, x: impl ToVariableOrValue<V<K>>) -> Variable { let x = self.ev(x); self.hint(x) }
    fn unconstrained_add(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>) -> Variable { let (x, y) = (self.ev(x), self.ev(y)); self.hint(x + y) }
    fn unconstrained_mul(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>) -> Variable { let (x, y) = (self.ev(x), self.ev(y)); self.hint(x * y) }
    un! { unconstrained_div Div unconstrained_pow Pow unconstrained_int_div IntDiv unconstrained_mod Mod unconstrained_shift_l ShiftL unconstrained_shift_r ShiftR
        unconstrained_lesser_eq LesserEq unconstrained_greater_eq GreaterEq unconstrained_lesser Lesser unconstrained_greater Greater unconstrained_eq Eq unconstrained_not_eq NotEq
        unconstrained_bool_or BoolOr unconstrained_bool_and BoolAnd unconstrained_bit_or BitOr unconstrained_bit_and BitAnd unconstrained_bit_xor BitXor }
}
macro_rules! bin { ($($f:ident |$x:ident, $y:ident| $e:expr;)*) => { $(fn $f(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>) -> Variable { let ($x, $y) = (self.ev(x), self.ev(y)); let v = $e; self.put(v) })* } }
macro_rules! bol { ($($f:ident |$x:ident, $y:ident| $e:expr;)*) => { $(fn $f(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>) -> Variable { let ($x, $y) = (self.ev(x), self.ev(y)); self.bool_($x); self.bool_($y); let v = $e; self.put(v) })* } }
impl<const K: usize> BasicAPI<Cf<K>> for Api<K> {
    bin! { add |x, y| x + y; sub |x, y| x - y; mul |x, y| x * y; }
    bol! { xor |x, y| x + y - x * y - x * y; or |x, y| x + y - x * y; and |x, y| x * y; }
    bin! { gt |x, y| V::from((x > y) as u32); geq |x, y| V::from((x >= y) as u32); }
    fn div(&mut self, x: impl ToVariableOrValue<V<K>>, y: impl ToVariableOrValue<V<K>>, checked: bool) -> Variable {
        let (x, y) = (self.ev(x), self.ev(y));
        match y.inv() { Some(i) => self.put(x * i), None => { if checked || !x.is_zero() { self.check(V::ONE); } self.put(V::ZERO) } }
    }
    fn neg(&mut self, x: impl ToVariableOrValue<V<K>>) -> Variable { let x = self.ev(x); self.put(-x) }
    fn is_zero(&mut self, x: impl ToVariableOrValue<V<K>>) -> Variable { let x = self.ev(x); self.put(V::from(x.is_zero() as u32)) }
    fn to_binary(&mut self, x: impl ToVariableOrValue<V<K>>, n: usize) -> Vec<Variable> {
        let v = self.ev(x).to_u256();
        if n < 256 && v >> n != U256::ZERO { self.check(V::ONE); }
        (0..n).map(|i| self.put(V::from((i < 256 && v.bit(i as u32)) as u32))).collect()
    }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<V<K>>) { let x = self.ev(x); self.check(x) }
    fn assert_is_non_zero(&mut self, x: impl ToVariableOrValue<V<K>>) { let x = self.ev(x); self.check(V::from(x.is_zero() as u32)) }
    fn assert_is_bool(&mut self, x: impl ToVariableOrValue<V<K>>) { let x = self.ev(x); self.bool_(x) }
    fn get_random_value(&mut self) -> Variable { let v = V::random_unsafe(&mut self.chal); self.put(v) }
    fn new_hint(&mut self, key: &str, inputs: &[Variable], n: usize) -> Vec<Variable> {
        let ins: Vec<V<K>> = inputs.iter().map(|v| self.of(*v)).collect();
        let mut out = vec![V::ZERO; n];
        let r = match key {
            "myhint.querycounthint" => { self.counts.extend(self.tape.len()..self.tape.len() + n); query_count_hint(&ins, &mut out) }
            "myhint.querycountbykeyhint" => { self.counts.extend(self.tape.len()..self.tape.len() + n); query_count_by_key_hint(&ins, &mut out) }
            "myhint.rangeproofhint" => { self.digits.extend(self.tape.len()..self.tape.len() + n); rangeproof_hint(&ins, &mut out) }
            _ => panic!("unknown hint {key}"),
        };
        if let Err(e) = r {
            self.refused.get_or_insert(format!("{key}: {e}"));
            if key == "myhint.querycounthint" { // a prover that goes on: it counts the digits that are in the table
                for o in out.iter_mut() { *o = V::ZERO; }
                for q in &ins { let q = q.to_u256(); if q < U256::from(n) { out[q.as_usize()] += V::ONE; } }
            }
        }
        out.into_iter().map(|v| self.hint(v)).collect()
    }
    fn constant(&mut self, x: impl ToVariableOrValue<V<K>>) -> Variable { let x = self.ev(x); self.put(x) }
    fn constant_value(&mut self, x: impl ToVariableOrValue<V<K>>) -> Option<V<K>> { Some(self.ev(x)) }
}
impl<const K: usize> RootAPI<Cf<K>> for Api<K> {
    fn memorized_simple_call<G: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: G, inputs: &[Variable]) -> Vec<Variable> { f(self, &inputs.to_vec()) }
    fn hash_to_sub_circuit_id(&mut self, _: &[u8; 32]) -> usize { 0 }
    fn call_sub_circuit<G: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _: usize, inputs: &[Variable], f: G) -> Vec<Variable> { f(self, &inputs.to_vec()) }
    fn register_sub_circuit_output_structure(&mut self, _: usize, _: Vec<usize>) { }
    fn get_sub_circuit_output_structure(&self, _: usize) -> Vec<usize> { vec![] }
    fn set_outputs(&mut self, _: Vec<Variable>) { }
}

/// what a circuit program reports: its output variables, or the error it was refused with
pub type Prog<'a, const K: usize> = &'a dyn Fn(&mut Api<K>, &[Variable]) -> Result<Vec<Variable>, String>;
pub struct Run<const K: usize> { pub out: Result<Vec<V<K>>, String>, pub panic: Option<String>, pub api: Api<K> }
impl<const K: usize> Run<K> {
    pub fn bad(&self) -> Option<usize> { self.api.res.iter().position(|r| !r.is_zero()) }
    pub fn accepted(&self) -> bool { self.panic.is_none() && self.out.is_ok() && self.bad().is_none() }
}
pub fn run<const K: usize>(f: Prog<K>, ins: &[V<K>], set: &HashMap<usize, V<K>>, seed: u64) -> Run<K> {
    let mut api = Api::new(set.clone(), seed);
    let vs: Vec<Variable> = ins.iter().map(|v| api.put(*v)).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut api, &vs)));
    match r {
        Ok(Ok(o)) => Run { out: Ok(o.iter().map(|v| api.of(*v)).collect()), panic: None, api },
        Ok(Err(e)) => Run { out: Err(e), panic: None, api },
        Err(p) => { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); Run { out: Err(String::new()), panic: Some(m), api } }
    }
}
/// the prescribed witness: Some(why not) when it is refused
pub fn honest<const K: usize>(f: Prog<K>, ins: &[V<K>], seed: u64) -> Result<Vec<V<K>>, String> {
    let r = run(f, ins, &HashMap::new(), seed);
    if let Some(p) = &r.panic { return Err(format!("panic: {p}")); }
    let o = r.out.clone().map_err(|e| format!("error: {e}"))?;
    if let Some(e) = &r.api.refused { return Err(format!("the witness generator refuses: {e}")); }
    if let Some(i) = r.bad() { return Err(format!("constraint {i} of {} is not satisfied by the prescribed witness", r.api.res.len())); }
    Ok(o)
}
/// search for an assignment that satisfies every constraint although `wrong(outputs)`
pub fn attack<const K: usize>(f: Prog<K>, ins: &[V<K>], rng: &mut Rng, tries: u64, wrong: &dyn Fn(&[V<K>]) -> bool) -> Option<String> {
    let base = run(f, ins, &HashMap::new(), rng.u());
    if base.panic.is_some() || base.out.is_err() { return None; }
    let n = base.api.tape.len();
    let mut free: Vec<usize> = (0..n).filter(|i| !base.api.counts.contains(i)).collect();
    if free.is_empty() { free = (0..n).collect(); }
    let mut main: Vec<usize> = free.iter().copied().filter(|i| !base.api.digits.contains(i)).collect();
    if main.is_empty() { main = free.clone(); }
    let pick = |rng: &mut Rng, any: u64| { let l = if rng.p(55) { &main } else { &free }; if rng.p(any) { l[rng.n(l.len() as u64) as usize] } else { rng.n(n as u64) as usize } };
    for t in 0..tries {
        let mut set: HashMap<usize, V<K>> = HashMap::new();
        if t > 0 && n > 0 {
            for _ in 0..rng.r(0, 2) {
                let i = pick(rng, 92);
                let h = base.api.tape[i];
                let v = match rng.n(12) {
                    9 => h + V::ONE,
                    10 | 11 => h - V::ONE,
                    0 => V::ZERO,
                    1 => V::ONE,
                    2 => h + V::ONE,
                    3 => h - V::ONE,
                    4 => V::ONE - h,
                    5 => ins[rng.n(ins.len() as u64) as usize],
                    6 => base.api.vals[rng.n(base.api.vals.len() as u64) as usize],
                    7 => h + V::from_u256(U256::ONE << (rng.n(40) as u32)),
                    _ => V::random_unsafe(&mut *rng),
                };
                set.insert(i, v);
            }
        }
        for _ in 0..5 {
            let seed = rng.u();
            let o = run(f, ins, &set, seed);
            if o.panic.is_some() { break; }
            let Some(j) = o.bad() else {
                let out = match &o.out { Ok(x) => x.clone(), Err(_) => break };
                if wrong(&out) && (0..2).all(|_| run(f, ins, &set, rng.u()).accepted()) {
                    let mut s: Vec<_> = set.iter().collect();
                    s.sort_by_key(|x| x.0);
                    return Some(format!("a prover's assignment satisfies all {} constraints; hint outputs {:?} (overridden: {:?}), outputs {:?}", o.api.res.len(), o.api.tape.iter().take(24).collect::<Vec<_>>(), s, out));
                }
                break;
            };
            if n == 0 { break; }
            let mut fixed = false;
            for _ in 0..6 {
                let x = pick(rng, 75);
                if set.contains_key(&x) && rng.p(80) { continue; }
                let mut s2 = set.clone();
                s2.insert(x, o.api.tape[x] + V::ONE);
                let o2 = run(f, ins, &s2, seed);
                if o2.panic.is_some() || o2.api.res.len() <= j { continue; }
                let (d0, d1) = (o.api.res[j], o2.api.res[j]);
                let Some(inv) = (d1 - d0).inv() else { continue };
                set.insert(x, o.api.tape[x] - d0 * inv);
                fixed = true;
                break;
            }
            if !fixed { break; }
        }
    }
    None
}
