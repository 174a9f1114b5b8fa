//! vhx PROPERTY [--seed N] [--cases N]: runs the circuit gadgets copied from /repo under prescribed and
//! under dishonest assignments and compares with integer arithmetic. `OK cases=N` or `FAIL ...` (exit 1).
#![allow(dead_code, unused)]
mod api;
mod circuit_functions;
use api::*;
use arith::{Field as _, Fp};
use circuit_functions::gadgets::*;
use circuit_functions::gadgets::euclidean_division::*;
use circuit_functions::layers::LayerKind;
use circuit_functions::utils::quantization::*;
use ethnum::U256;
use expander_compiler::frontend::{BasicAPI, Variable};

type Ctx = LogupRangeCheckContext;
pub struct Cfg { pub seed: u64, pub cases: u64 }
type Res = Result<u64, String>;

fn fe<const K: usize>(x: i128) -> Fp<K> { let m = Fp::from_u256(U256::new(x.unsigned_abs())); if x < 0 { -m } else { m } }
/// the signed reading, when it fits 127 bits
fn sv<const K: usize>(x: Fp<K>) -> Option<i128> {
    let u = x.to_u256();
    let n = Fp::<K>::MODULUS - u;
    if u < n { u128::try_from(u).ok().and_then(|v| i128::try_from(v).ok()) } else { u128::try_from(n).ok().and_then(|v| i128::try_from(v).ok()).map(|v| -v) }
}
fn bits_of<const K: usize>() -> usize { 256 - Fp::<K>::MODULUS.leading_zeros() as usize }
fn p2(n: usize) -> i128 { 1i128 << n }
/// 2^n below the modulus with room for the digits, as the contract demands
fn sized<const K: usize>(b: usize, n: usize) -> bool { b >= 1 && b <= 24 && n >= 1 && n <= 128 && (n < 128 || n % b == 0) && n + b + 1 < bits_of::<K>() }
/// a value close to the interesting places of [lo, hi)
fn near(r: &mut Rng, lo: i128, hi: i128) -> i128 {
    let v = match r.n(6) {
        0 => lo, 1 => hi - 1, 2 => lo + r.n(8) as i128, 3 => hi - 1 - r.n(8) as i128,
        4 => { let k = r.n(100) as u32; let m = if k < 120 { 1i128 << k } else { 1 }; let m = if r.p(50) { m } else { -m }; m + r.r(-1, 1) as i128 }
        _ => { let w = (hi as u128).wrapping_sub(lo as u128); (lo as u128).wrapping_add(r.wide() % w) as i128 }
    };
    v.clamp(lo, hi - 1)
}
fn chunk(r: &mut Rng, slow: bool) -> usize { if slow && r.p(2) { 12 } else if r.p(4) { 8 } else { r.r(1, 6) as usize } }
fn fail(kind: &str, desc: String, why: String) -> String { format!("{kind}\n  {desc}\n  {why}") }

// ------------------------------------------------------------------ X01
#[derive(Debug, Clone)]
enum Chk { Look(usize, usize), Bits(usize, usize), Recon(Vec<usize>) }
fn x01_prog<const K: usize>(chunk_bits: usize, cs: Vec<Chk>) -> impl Fn(&mut Api<K>, &[Variable]) -> Result<Vec<Variable>, String> {
    move |api, v| {
        let mut ctx = if chunk_bits == DEFAULT_LOGUP_CHUNK_BITS { Ctx::new_default() } else { Ctx::new(chunk_bits) };
        ctx.init::<Cf<K>, _>(api);
        let mut out = vec![];
        for c in &cs {
            match c {
                Chk::Look(i, n) => ctx.range_check::<Cf<K>, _>(api, v[*i], *n).map_err(|e| e.to_string())?,
                Chk::Bits(i, n) => out.extend(range_check_pow2_unsigned::<Cf<K>, _>(api, v[*i], *n).map_err(|e| e.to_string())?),
                Chk::Recon(ix) => { let b: Vec<Variable> = ix.iter().map(|i| v[*i]).collect(); out.push(constrained_reconstruct_from_bits::<Cf<K>, _>(api, &b).map_err(|e| e.to_string())?) }
            }
        }
        ctx.finalize::<Cf<K>, _>(api);
        Ok(out)
    }
}
fn x01_case<const K: usize>(r: &mut Rng, big: bool) -> Result<(), String> {
    let b = chunk(r, big);
    let lookups = b > 6 || r.p(75);
    let maxw = if b >= 8 { 40 } else { 128 };
    let mut ins: Vec<Fp<K>> = vec![];
    let mut ivals: Vec<i128> = vec![];
    let mut cs: Vec<Chk> = vec![];
    let mut want: Vec<Fp<K>> = vec![];
    let mut widths: Vec<(usize, usize, bool)> = vec![];
    let mut stale: Vec<usize> = vec![];
    for _ in 0..r.r(1, 3) {
        let kind = if lookups && r.p(80) { 0 } else { r.n(3) };
        match kind {
            0 => {
                let n = loop { let n = match r.n(4) { 0 => b * r.r(1, 6) as usize, 1 => r.r(1, b as i64) as usize, 2 => r.r(1, 24) as usize, _ => r.r(1, 128) as usize }; if n <= maxw.max(b) && n <= 120 && sized::<K>(b, n) { break n; } };
                if !widths.is_empty() && r.p(35) { // a further check of a value that is checked already
                    let (i, m, _) = widths[r.n(widths.len() as u64) as usize];
                    if n >= m { widths.push((i, n, false)); cs.push(Chk::Look(i, n)); continue; }
                    if ivals[i] < p2(n) || r.p(70) { ivals[i] = ivals[i].min(near(r, 0, p2(n))); ins[i] = fe(ivals[i]); stale.push(i); widths.push((i, n, false)); cs.push(Chk::Look(i, n)); continue; }
                }
                let v = near(r, 0, p2(n));
                widths.push((ins.len(), n, false));
                cs.push(Chk::Look(ins.len(), n));
                ins.push(fe(v)); ivals.push(v);
            }
            1 => {
                let n = r.r(1, (bits_of::<K>() as i64 - 2).min(70)) as usize;
                let v = near(r, 0, p2(n));
                widths.push((ins.len(), n, true));
                cs.push(Chk::Bits(ins.len(), n));
                ins.push(fe(v)); ivals.push(v);
                for i in 0..n { want.push(fe(v >> i & 1)); }
            }
            _ => {
                let n = r.r(0, 20) as usize;
                let ix: Vec<usize> = (0..n).map(|i| ins.len() + i).collect();
                let mut s = 0i128;
                for i in 0..n { let v = r.n(2) as i128; s += v << i; ins.push(fe(v)); ivals.push(v); }
                want.push(fe(s));
                cs.push(Chk::Recon(ix));
            }
        }
    }
    if ins.is_empty() { return Ok(()); }
    if !stale.is_empty() { // expected bits and sums of the values as they are now
        want.clear();
        for c in &cs { match c { Chk::Bits(i, n) => for k in 0..*n { want.push(fe(ivals[*i] >> k & 1)); }, Chk::Recon(ix) => want.push(fe(ix.iter().enumerate().map(|(k, i)| ivals[*i] << k).sum())), _ => {} } }
    }
    let f = x01_prog::<K>(b, cs.clone());
    let desc = |iv: &[i128]| format!("field {} digits of {b} bits, checks {cs:?}, values {iv:?}", ["Goldilocks,", "BN254,", "2^127-1,"][K]);
    match honest(&f, &ins, r.u()) {
        Err(e) => return Err(fail("a value of the checked width is refused", desc(&ivals), e)),
        Ok(o) if o != want => return Err(fail("wrong bits or recomposition", desc(&ivals), format!("got {o:?}, expected {want:?}"))),
        _ => {}
    }
    // a value outside its width, which no assignment may satisfy
    let (mut iv, mut kind) = (ivals.clone(), "");
    let recs: Vec<usize> = cs.iter().flat_map(|c| if let Chk::Recon(ix) = c { ix.clone() } else { vec![] }).collect();
    let half = if K == 1 { i128::MAX >> 1 } else { (Fp::<K>::MODULUS.as_u128() / 2) as i128 };
    if !recs.is_empty() && r.p(40) {
        let i = recs[r.n(recs.len() as u64) as usize];
        iv[i] = *[2, -1, 3, half, 1 << 20].get(r.n(5) as usize).unwrap();
        kind = "a value that is no bit passes as one";
    } else if !widths.is_empty() {
        let (i, n, bitwise) = widths[r.n(widths.len() as u64) as usize];
        let slack = if bitwise || n % b == 0 { 0 } else { let s = b - n % b; (p2(s) - 1) * p2(n) };
        iv[i] = match r.n(5) {
            0 => p2(n) + r.n(4) as i128,
            1 => -slack - 1 - r.n(4) as i128,
            2 => near(r, p2(n), half),
            3 => near(r, -half, -slack),
            _ => p2(n + r.n(b as u64 + 2) as usize),
        };
        if iv[i] > half || iv[i] < -half { return Ok(()); }
        if (-slack..p2(n)).contains(&iv[i]) { return Ok(()); }
        kind = "a value outside the checked width is accepted";
    } else { return Ok(()); }
    let ins2: Vec<Fp<K>> = iv.iter().map(|v| fe(*v)).collect();
    let tries = if b >= 8 { 6 } else { 14 };
    if let Some(e) = attack(&f, &ins2, r, tries, &|_| true) { return Err(fail(kind, desc(&iv), e)); }
    Ok(())
}
fn x01_edges() -> Result<u64, String> {
    for n in [0usize, 1, 12, 100, 128, 129, 200, 256, 1000, usize::MAX] {
        for b in [2usize, 4, 8] {
            let f = x01_prog::<1>(b, vec![Chk::Look(0, n)]);
            let o = run(&f, &[fe(1)], &Default::default(), 7);
            if o.panic.is_some() || o.out.is_ok() != (1..=128).contains(&n) { return Err(format!("range_check of {n} bits (digits of {b}): {:?} {:?}", o.out.err(), o.panic)); }
        }
    }
    for n in [0usize, 1, 60, 61, 62, 63, 64, 252, 253, 254, 255, 256, 300, usize::MAX] {
        let o = run(&x01_prog::<0>(2, vec![Chk::Bits(0, n)]), &[fe(1)], &Default::default(), 7);
        if o.panic.is_some() || o.out.is_ok() != (1..=62).contains(&n) { return Err(format!("range_check_pow2_unsigned({n}) over Goldilocks: {:?} {:?}", o.out.err(), o.panic)); }
        let o = run(&x01_prog::<1>(2, vec![Chk::Bits(0, n)]), &[fe(1)], &Default::default(), 7);
        if o.panic.is_some() || o.out.is_ok() != (1..=252).contains(&n) { return Err(format!("range_check_pow2_unsigned({n}) over BN254: {:?} {:?}", o.out.err(), o.panic)); }
    }
    for n in [0usize, 1, 255, 256, 257, 400] {
        let o = run(&x01_prog::<1>(2, vec![Chk::Recon((0..n).collect())]), &vec![fe(0); n.max(1)], &Default::default(), 7);
        if o.panic.is_some() || o.out.is_ok() != (n <= 256) { return Err(format!("recomposition of {n} bits: {:?} {:?}", o.out.err(), o.panic)); }
    }
    // the production widths: 18 and 64 bits over digits of 12
    for (n, v) in [(18usize, p2(18) - 1), (64, p2(64) - 1), (64, 0), (12, 4095), (24, p2(24) - 1)] {
        let one = move |api: &mut Api<1>, x: &[Variable]| { logup_range_check_pow2_unsigned::<Cf<1>, _>(api, x[0], n).map_err(|e| e.to_string())?; Ok(vec![]) };
        if let Err(e) = honest(&one, &[fe(v)], 5) { return Err(fail("a value of the checked width is refused", format!("logup_range_check_pow2_unsigned({v}, {n})"), e)); }
        if honest(&one, &[fe(p2(n))], 5).is_ok() { return Err(fail("a value outside the checked width is accepted", format!("logup_range_check_pow2_unsigned(2^{n}, {n})"), String::new())); }
    }
    Ok(8)
}
fn x01(cfg: &Cfg) -> Res {
    let mut n = x01_edges()?;
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_003) ^ c << 20);
        match r.n(10) { 0..=5 => x01_case::<0>(&mut r, false), 6..=7 => x01_case::<2>(&mut r, false), _ => x01_case::<1>(&mut r, c % 16 == 0) }.map_err(|e| format!("case {c}: {e}"))?;
        n += 1;
    }
    Ok(n)
}

// ------------------------------------------------------------------ X02
#[derive(Debug, Clone)]
enum Op { Relu, Max2, Min2, Max, Min, Clip(bool, bool), Pow2(usize), Const(u32), Rescale(usize, bool), Array(usize, bool, bool) }
/// inputs per operation
fn arity(op: &Op, r: &mut Rng) -> usize { match op { Op::Relu | Op::Pow2(_) | Op::Const(_) | Op::Rescale(..) => 1, Op::Max2 | Op::Min2 => 2, Op::Max | Op::Min => r.r(1, 5) as usize, Op::Clip(a, b) => 1 + *a as usize + *b as usize, Op::Array(..) => r.r(1, 4) as usize } }
fn value(op: &Op, x: &[i128]) -> Vec<i128> {
    let relu = |v: i128, on: bool| if on { v.max(0) } else { v };
    match op {
        Op::Relu => vec![x[0].max(0)],
        Op::Max2 | Op::Max => vec![*x.iter().max().unwrap()],
        Op::Min2 | Op::Min => vec![*x.iter().min().unwrap()],
        Op::Clip(lo, hi) => { let mut v = x[0]; if *lo { v = v.max(x[1]); } if *hi { v = v.min(x[1 + *lo as usize]); } vec![v] }
        Op::Pow2(k) => vec![x[0] >> k],
        Op::Const(d) => vec![x[0].div_euclid(*d as i128)],
        Op::Rescale(k, on) => vec![relu(x[0] >> k, *on)],
        Op::Array(k, resc, on) => x.iter().map(|v| relu(if *resc { v >> k } else { *v }, *on)).collect(),
    }
}
fn emit<const K: usize>(api: &mut Api<K>, ctx: &mut Ctx, s: usize, op: &Op, v: &[Variable]) -> Result<Vec<Variable>, String> {
    let st = |e: &dyn std::fmt::Display| e.to_string();
    let sc = |api: &mut Api<K>| ShiftRangeContext::new::<Cf<K>, _>(api, LayerKind::Max, s).map_err(|e| st(&e));
    let one = |x: Variable| vec![x];
    Ok(match op {
        Op::Relu => { let c = sc(api)?; one(constrained_relu::<Cf<K>, _>(api, &c, ctx, v[0]).map_err(|e| st(&e))?) }
        Op::Max2 => { let c = sc(api)?; one(constrained_max_2::<Cf<K>, _>(api, &c, ctx, v[0], v[1]).map_err(|e| st(&e))?) }
        Op::Min2 => { let c = sc(api)?; one(constrained_min_2::<Cf<K>, _>(api, &c, ctx, v[0], v[1]).map_err(|e| st(&e))?) }
        Op::Max => { let c = sc(api)?; one(constrained_max::<Cf<K>, _>(api, &c, ctx, v).map_err(|e| st(&e))?) }
        Op::Min => { let c = sc(api)?; one(constrained_min::<Cf<K>, _>(api, &c, ctx, v).map_err(|e| st(&e))?) }
        Op::Clip(lo, hi) => { let c = sc(api)?; one(constrained_clip::<Cf<K>, _>(api, &c, ctx, v[0], if *lo { Some(v[1]) } else { None }, if *hi { Some(v[1 + *lo as usize]) } else { None }).map_err(|e| st(&e))?) }
        Op::Pow2(k) => {
            let (d, ds, sh) = (api.put(fe(p2(*k))), api.put(fe(p2(*k + s))), api.put(fe(p2(s))));
            one(div_pos_integer_pow2_constant::<Cf<K>, _>(api, ctx, v[0], d, ds, *k, s, sh).map_err(|e| st(&e))?)
        }
        Op::Const(k) => {
            let (d, ds, sh) = (api.put(Fp::from(*k)), api.put(fe(*k as i128 * p2(s))), api.put(fe(p2(s))));
            one(div_pos_integer_constant::<Cf<K>, _>(api, ctx, v[0], d, *k, ds, s, sh).map_err(|e| st(&e))?)
        }
        Op::Rescale(k, on) => { let c = RescalingContext::new::<Cf<K>, _>(api, *k, s).map_err(|e| st(&e))?; one(rescale::<Cf<K>, _>(api, &c, ctx, v[0], *on).map_err(|e| st(&e))?) }
        Op::Array(k, resc, on) => {
            let shape = if v.len() % 2 == 0 { vec![2, v.len() / 2] } else { vec![v.len()] };
            let a = ndarray::ArrayD::from_shape_vec(shape.clone(), v.to_vec()).unwrap();
            let p = MaybeRescaleParams { is_rescale: *resc, scaling_exponent: *k as u64, n_bits: s + 1, is_relu: *on, layer_kind: LayerKind::Max, layer_name: "l".into() };
            let o = maybe_rescale::<Cf<K>, _>(api, ctx, a, &p).map_err(|e| st(&e))?;
            if o.shape() != &shape[..] { return Err(format!("shape {:?} for {shape:?}", o.shape())); }
            o.into_iter().collect()
        }
    })
}
fn x02_prog<const K: usize>(b: usize, s: usize, ops: Vec<(Op, Vec<usize>)>) -> impl Fn(&mut Api<K>, &[Variable]) -> Result<Vec<Variable>, String> {
    move |api, v| {
        let mut ctx = Ctx::new(b);
        ctx.init::<Cf<K>, _>(api);
        let mut out = vec![];
        for (op, ix) in &ops { let a: Vec<Variable> = ix.iter().map(|i| v[*i]).collect(); out.extend(emit(api, &mut ctx, s, op, &a)?); }
        ctx.finalize::<Cf<K>, _>(api);
        Ok(out)
    }
}
fn rbits(d: u32) -> usize { (32 - (d - 1).leading_zeros()) as usize }
/// the width whose check bounds the remainder
fn rem_width(op: &Op) -> Option<usize> { match op { Op::Pow2(k) | Op::Rescale(k, _) | Op::Array(k, true, _) => Some(*k), Op::Const(d) if *d > 1 => Some(rbits(*d)), _ => None } }
fn scale_bits(op: &Op) -> usize { match op { Op::Const(d) => 32 - d.leading_zeros() as usize, _ => rem_width(op).unwrap_or(0) } }
fn x02_case<const K: usize>(r: &mut Rng, big: bool) -> Result<(), String> {
    let exact = K != 1 && r.p(60); // whole-digit widths: dishonest assignments are examined too
    let b = chunk(r, big);
    let cap = bits_of::<K>() - 4;
    let s = loop { let s = if exact { b * r.r(1, 12) as usize - 1 } else { (match r.n(3) { 0 => r.r(0, 12), 1 => r.r(0, 63), _ => r.r(10, 31) }) as usize }; if s < 64 && sized::<K>(b, s + 1) && s + 6 < cap && (b < 8 || s < 40) { break s; } };
    let mut ops = vec![];
    let (mut iv, mut want) = (vec![], vec![]);
    for _ in 0..r.r(1, 2) {
        let k = |r: &mut Rng| if exact { b * r.r(1, 4) as usize } else { r.r(1, 24) as usize };
        let op = match r.n(13) { 12 => Op::Const({ let w = k(r).min(20); ((1u64 << (w - 1)) + 1 + r.n((1 << w) / 8 + 1)) as u32 }), 0 | 1 => Op::Relu, 2 => Op::Max2, 3 => Op::Min2, 4 => Op::Max, 5 => Op::Min, 6 => Op::Clip(r.p(70), r.p(70)), 7 => Op::Pow2(k(r)),
            8 => Op::Const(match r.n(8) { 0 => 1, 1 => 1 << r.n(10), 2 | 3 => { let w = k(r).min(20); (r.n(1 << w) + 1) as u32 } _ => { let w = k(r).min(20); ((1u64 << (w - 1)) + 1 + r.n((1 << w) / 8 + 1)) as u32 } }), 9 | 10 => Op::Rescale(k(r), r.p(60)), _ => Op::Array(k(r), r.p(70), r.p(60)) };
        if let Some(w) = rem_width(&op) { if w == 0 || w > 31 || !sized::<K>(b, w) || (exact && w % b != 0) { continue; } }
        if scale_bits(&op) + s + 4 >= bits_of::<K>() || scale_bits(&op) + s > 110 { continue; }
        let m = arity(&op, r);
        let lim = match &op { Op::Const(d) => *d as i128 * p2(s), _ => p2(s + scale_bits(&op)) };
        let x: Vec<i128> = (0..m).map(|_| if !iv.is_empty() && r.p(8) { let v: i128 = iv[r.n(iv.len() as u64) as usize]; v.clamp(-lim, lim - 1) } else if r.p(30) { (r.r(-3, 3) as i128).clamp(-lim, lim - 1) } else { near(r, -lim, lim) }).collect();
        // dividends just above a multiple: a second remainder below the next power of two may exist
        let x: Vec<i128> = match &op { Op::Const(d) if r.p(50) => vec![(x[0].div_euclid(*d as i128) * *d as i128 + r.n(*d as u64 / 3 + 2) as i128).clamp(-lim, lim - 1)], _ => x };
        let ix: Vec<usize> = (0..m).map(|i| iv.len() + i).collect();
        want.extend(value(&op, &x));
        iv.extend(x);
        ops.push((op, ix));
    }
    if ops.is_empty() { return Ok(()); }
    let ins: Vec<Fp<K>> = iv.iter().map(|v| fe(*v)).collect();
    let f = x02_prog::<K>(b, s, ops.clone());
    let desc = |iv: &[i128]| format!("field {} digits of {b} bits, shift exponent {s}, operations (with operand indices) {ops:?}, values {iv:?}", ["Goldilocks,", "BN254,", "2^127-1,"][K]);
    let wf: Vec<Fp<K>> = want.iter().map(|v| fe(*v)).collect();
    match honest(&f, &ins, r.u()) {
        Err(e) => return Err(fail("operands within the declared range are refused", desc(&iv), e)),
        Ok(o) if o != wf => return Err(fail("wrong result", desc(&iv), format!("got {o:?}, expected {want:?}"))),
        _ => {}
    }
    if !exact { return Ok(()); }
    // the same circuit on operands of any size (below a quarter of the field), under any assignment
    let quarter = (Fp::<K>::MODULUS.as_u128() / 4) as i128 - 2;
    if r.p(35) { for (op, ix) in &ops { for &i in ix { if r.p(60) { let l = p2(s + scale_bits(op)); iv[i] = match r.n(5) { 0 => l + r.n(3) as i128, 1 => -l - 1 - r.n(3) as i128, 2 => 2 * l + r.r(-2, 2) as i128, 3 => -2 * l + r.r(-2, 2) as i128, _ => near(r, -quarter, quarter) }.clamp(-quarter, quarter); } } } }
    let ins: Vec<Fp<K>> = iv.iter().map(|v| fe(*v)).collect();
    let want: Vec<Fp<K>> = ops.iter().flat_map(|(op, ix)| value(op, &ix.iter().map(|i| iv[*i]).collect::<Vec<_>>())).map(fe).collect();
    let plain: bool = ops.iter().all(|(op, _)| !matches!(op, Op::Array(_, false, false)));
    let tries = if b >= 8 { 8 } else { 24 };
    if let Some(e) = attack(&f, &ins, r, tries, &|o| o != &want[..]) { return Err(fail("a wrong result is accepted", desc(&iv), format!("{e}, expected {want:?}"))); }
    Ok(())
}
fn x02_edges() -> Result<u64, String> {
    for s in [0usize, 1, 31, 62, 63, 64, 65, 100, 1 << 32, usize::MAX] {
        let o = run::<1>(&move |api, _| Ok(vec![ShiftRangeContext::new::<Cf<1>, _>(api, LayerKind::Max, s).map_err(|e| e.to_string())?.offset]), &[], &Default::default(), 1);
        if o.panic.is_some() || (s < 64) != o.out.is_ok() || (s < 64 && o.out.as_ref().unwrap()[0] != fe(p2(s))) { return Err(format!("ShiftRangeContext::new({s}): {:?} {:?}", o.out, o.panic)); }
        for k in [0usize, 1, 18, 31, 32, 33, 1 << 32, usize::MAX] {
            let o = run::<1>(&move |api, _| { let c = RescalingContext::new::<Cf<1>, _>(api, k, s).map_err(|e| e.to_string())?; Ok(vec![c.scaling_factor, c.shift, c.scaled_shift]) }, &[], &Default::default(), 1);
            if o.panic.is_some() || (s < 64 && k < 32) != o.out.is_ok() || (s < 64 && k < 32 && o.out.as_ref().unwrap()[..] != [fe(p2(k)), fe(p2(s)), fe(p2(k + s))]) { return Err(format!("RescalingContext::new({k}, {s}): {:?} {:?}", o.out, o.panic)); }
        }
    }
    for (op, ok) in [(Op::Max, false), (Op::Min, false), (Op::Const(0), false), (Op::Pow2(0), false), (Op::Rescale(0, false), false), (Op::Const(1), true)] {
        let ix = if matches!(op, Op::Max | Op::Min) { vec![] } else { vec![0] };
        let o = run::<1>(&x02_prog(4, 15, vec![(op.clone(), ix)]), &[fe(5)], &Default::default(), 1);
        if o.panic.is_some() || o.out.is_ok() != ok { return Err(format!("{op:?} with degenerate parameters: {:?} {:?}", o.out, o.panic)); }
    }
    // the production configuration: BN254, kappa 18, 64 bits, digits of 12
    for v in [0i128, 1, -1, p2(81) - 1, -p2(81), 12_345_678_901, -987_654_321_000] {
        for relu in [false, true] {
            let f = x02_prog::<1>(12, 63, vec![(Op::Rescale(18, relu), vec![0])]);
            let w = if relu { (v >> 18).max(0) } else { v >> 18 };
            match honest(&f, &[fe(v)], 3) { Ok(o) if o == vec![fe(w)] => {} e => return Err(fail("operands within the declared range are refused", format!("rescale of {v} by 2^18, 64 bits, relu {relu}"), format!("{e:?}, expected {w}"))) }
        }
    }
    Ok(30)
}
fn x02(cfg: &Cfg) -> Res {
    let mut n = x02_edges()?;
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_033) ^ c << 20);
        match r.n(10) { 0..=5 => x02_case::<0>(&mut r, false), 6..=7 => x02_case::<2>(&mut r, false), _ => x02_case::<1>(&mut r, c % 16 == 0) }.map_err(|e| format!("case {c}: {e}"))?;
        n += 1;
    }
    Ok(n)
}

fn main() {
    if std::env::var("VHX_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d);
    let cfg = Cfg { seed: get("--seed", 1), cases: get("--cases", 1000) };
    let prop = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let r = match prop {
        "X01" => x01(&cfg),
        "X02" => x02(&cfg),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2); }
    };
    match r {
        Ok(n) => println!("OK cases={n}"),
        Err(e) => { println!("FAIL property={prop} seed={}\n{e}", cfg.seed); std::process::exit(1); }
    }
}
