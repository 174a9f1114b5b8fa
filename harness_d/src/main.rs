//! vhd D01 --seed S --cases N: ExpSerde on the real code: layout, exact read-back, refusal of short input.
use samples::{Choice, Deep, Mixed, One, Three, Two};
use serdes::{ExpSerde, SerdeError};
use std::collections::HashMap;
use std::fmt::Debug;
use std::io::{Read, Write};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn word(&mut self) -> u64 {
        match self.below(6) { 0 => self.below(3), 1 => u64::MAX - self.below(3), 2 => 1 << self.below(64), 3 => self.below(256), _ => self.next() }
    }
}

/// a value, how it is laid out, and how to draw one
trait Case: ExpSerde + Debug + Sized {
    fn draw(g: &mut Rng) -> Self;
    fn lay(&self, o: &mut Vec<u8>);
    fn same(&self, o: &Self) -> bool;
    /// the layout is fixed (maps are written in any order)
    const FIXED: bool = true;
}
macro_rules! number {
    ($t:ty, $d:expr) => {
        impl Case for $t {
            fn draw(g: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $d; f(g) }
            fn lay(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
            fn same(&self, x: &Self) -> bool { self.to_le_bytes() == x.to_le_bytes() }
        }
    };
}
number!(u8, |g| g.word() as u8);
number!(u32, |g| g.word() as u32);
number!(u64, |g| g.word());
number!(usize, |g| g.word() as usize);
number!(u128, |g| (g.word() as u128) << 64 | g.word() as u128);
number!(f64, |g| f64::from_bits(g.word()));
number!(ethnum::U256, |g| ethnum::U256([(g.word() as u128) << 64 | g.word() as u128, (g.word() as u128) << 64 | g.word() as u128]));
impl Case for () {
    fn draw(_: &mut Rng) -> Self {}
    fn lay(&self, _: &mut Vec<u8>) {}
    fn same(&self, _: &Self) -> bool { true }
}
impl Case for bool {
    fn draw(g: &mut Rng) -> Self { g.below(2) == 1 }
    fn lay(&self, o: &mut Vec<u8>) { o.push(u8::from(*self)); }
    fn same(&self, x: &Self) -> bool { self == x }
}
impl Case for String {
    fn draw(g: &mut Rng) -> Self { (0..g.below(6)).map(|_| ['a', 'é', '\0', '漢', '😀', '\n', 'z'][g.below(7) as usize]).collect() }
    fn lay(&self, o: &mut Vec<u8>) { (self.len() as u64).lay(o); o.extend_from_slice(self.as_bytes()); }
    fn same(&self, x: &Self) -> bool { self == x }
}
impl<T: Case> Case for Option<T> {
    fn draw(g: &mut Rng) -> Self { if g.below(3) == 0 { None } else { Some(T::draw(g)) } }
    fn lay(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(v) => { o.push(1); v.lay(o) } } }
    fn same(&self, x: &Self) -> bool { match (self, x) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    const FIXED: bool = T::FIXED;
}
impl<T: Case> Case for Vec<T> {
    fn draw(g: &mut Rng) -> Self { (0..if g.below(12) == 0 { 200 + g.below(200) } else { g.below(5) }).map(|_| T::draw(g)).collect() }
    fn lay(&self, o: &mut Vec<u8>) { (self.len() as u64).lay(o); for v in self { v.lay(o) } }
    fn same(&self, x: &Self) -> bool { self.len() == x.len() && self.iter().zip(x).all(|(a, b)| a.same(b)) }
    const FIXED: bool = T::FIXED;
}
macro_rules! array {
    ($($n:expr),*) => { $(impl<T: Case> Case for [T; $n] {
        fn draw(g: &mut Rng) -> Self { std::array::from_fn(|_| T::draw(g)) }
        fn lay(&self, o: &mut Vec<u8>) { for v in self { v.lay(o) } }
        fn same(&self, x: &Self) -> bool { self.iter().zip(x).all(|(a, b)| a.same(b)) }
        const FIXED: bool = T::FIXED;
    })* };
}
array!(2, 3, 4, 8, 16, 32, 64);
impl<A: Case, B: Case> Case for (A, B) {
    fn draw(g: &mut Rng) -> Self { (A::draw(g), B::draw(g)) }
    fn lay(&self, o: &mut Vec<u8>) { self.0.lay(o); self.1.lay(o) }
    fn same(&self, x: &Self) -> bool { self.0.same(&x.0) && self.1.same(&x.1) }
    const FIXED: bool = A::FIXED && B::FIXED;
}
impl<K: Case + Eq + std::hash::Hash, V: Case> Case for HashMap<K, V> {
    fn draw(g: &mut Rng) -> Self { (0..if g.below(6) == 0 { 20 + g.below(80) } else { g.below(7) }).map(|_| (K::draw(g), V::draw(g))).collect() }
    fn lay(&self, o: &mut Vec<u8>) { (self.len() as u64).lay(o); for (k, v) in self { k.lay(o); v.lay(o) } }
    fn same(&self, x: &Self) -> bool { self.len() == x.len() && self.iter().all(|(k, v)| x.get(k).is_some_and(|w| w.same(v))) }
    const FIXED: bool = false;
}
macro_rules! point {
    ($t:ident, $n:expr) => {
        impl Case for halo2curves::bn256::$t {
            fn draw(g: &mut Rng) -> Self { let mut b: [u8; $n] = std::array::from_fn(|_| g.word() as u8); b[$n - 1] &= 0x3f; halo2curves::bn256::$t(b) }
            fn lay(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.0) }
            fn same(&self, x: &Self) -> bool { self.0 == x.0 }
        }
    };
}
point!(Fr, 32);
point!(G1Affine, 32);
point!(G2Affine, 64);
impl Case for One {
    fn draw(g: &mut Rng) -> Self { One { a: u32::draw(g) } }
    fn lay(&self, o: &mut Vec<u8>) { self.a.lay(o) }
    fn same(&self, x: &Self) -> bool { self == x }
}
impl Case for Two {
    fn draw(g: &mut Rng) -> Self { Two { b: u8::draw(g), a: Vec::draw(g) } }
    fn lay(&self, o: &mut Vec<u8>) { self.b.lay(o); self.a.lay(o) }
    fn same(&self, x: &Self) -> bool { self == x }
}
impl<T: Case> Case for Three<T> {
    fn draw(g: &mut Rng) -> Self { Three { z: u32::draw(g), y: T::draw(g), x: u32::draw(g) } }
    fn lay(&self, o: &mut Vec<u8>) { self.z.lay(o); self.y.lay(o); self.x.lay(o) }
    fn same(&self, x: &Self) -> bool { self.z == x.z && self.y.same(&x.y) && self.x == x.x }
    const FIXED: bool = T::FIXED;
}
impl<T: Case> Case for Deep<T> {
    fn draw(g: &mut Rng) -> Self { Deep { head: Option::draw(g), rest: Vec::draw(g) } }
    fn lay(&self, o: &mut Vec<u8>) { self.head.lay(o); self.rest.lay(o) }
    fn same(&self, x: &Self) -> bool { self.head.same(&x.head) && self.rest.same(&x.rest) }
    const FIXED: bool = T::FIXED;
}
impl Case for Mixed {
    fn draw(g: &mut Rng) -> Self {
        match g.below(5) { 0 => Mixed::Empty, 1 => Mixed::Single(u32::draw(g)), 2 => Mixed::Double(u8::draw(g), String::draw(g)), 3 => Mixed::Named { y: u64::draw(g), x: Vec::draw(g) }, _ => Mixed::Last }
    }
    fn lay(&self, o: &mut Vec<u8>) {
        match self {
            Mixed::Empty => 0u32.lay(o),
            Mixed::Single(a) => { 1u32.lay(o); a.lay(o) }
            Mixed::Double(a, b) => { 2u32.lay(o); a.lay(o); b.lay(o) }
            Mixed::Named { y, x } => { 3u32.lay(o); y.lay(o); x.lay(o) }
            Mixed::Last => 4u32.lay(o),
        }
    }
    fn same(&self, x: &Self) -> bool { self == x }
}
impl<T: Case> Case for Choice<T> {
    fn draw(g: &mut Rng) -> Self {
        match g.below(4) { 0 => Choice::Left(T::draw(g)), 1 => Choice::Right { only: T::draw(g) }, 2 => Choice::Both(T::draw(g), T::draw(g)), _ => Choice::Neither }
    }
    fn lay(&self, o: &mut Vec<u8>) {
        match self {
            Choice::Left(a) => { 0u32.lay(o); a.lay(o) }
            Choice::Right { only } => { 1u32.lay(o); only.lay(o) }
            Choice::Both(a, b) => { 2u32.lay(o); a.lay(o); b.lay(o) }
            Choice::Neither => 3u32.lay(o),
        }
    }
    fn same(&self, x: &Self) -> bool {
        match (self, x) {
            (Choice::Left(a), Choice::Left(b)) => a.same(b),
            (Choice::Right { only: a }, Choice::Right { only: b }) => a.same(b),
            (Choice::Both(a, c), Choice::Both(b, d)) => a.same(b) && c.same(d),
            (Choice::Neither, Choice::Neither) => true,
            _ => false,
        }
    }
    const FIXED: bool = T::FIXED;
}

/// delivers a few bytes at a time
struct Drip<'a>(&'a [u8], usize);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// takes a few bytes at a time, and no more than `left` of them
struct Narrow { got: Vec<u8>, step: usize, left: usize }
impl Write for Narrow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.left);
        if n == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

type Out = Result<(), String>;
fn fail<T>(m: String) -> Result<T, String> { Err(m) }
fn one<T: Case>(g: &mut Rng) -> Out {
    let v = T::draw(g);
    let what = || format!("{} value {v:?}", std::any::type_name::<T>());
    let mut b = vec![];
    let pre: Vec<u8> = (0..g.below(4)).map(|_| g.next() as u8).collect();
    b.extend(&pre);
    if let Err(e) = v.serialize_into(&mut b) { return fail(format!("{}: writing to memory fails: {e:?}", what())); }
    if b[..pre.len()] != pre[..] { return fail(format!("{}: what was written before is changed", what())); }
    let b = b.split_off(pre.len());
    let mut want = vec![];
    v.lay(&mut want);
    if T::FIXED && b != want { return fail(format!("{}: written as {b:?}, laid out as {want:?}", what())); }
    if b.len() != want.len() { return fail(format!("{}: {} bytes written, {} expected", what(), b.len(), want.len())); }
    // read back, with and without bytes behind it, in one piece and in small ones
    let tail: Vec<u8> = (0..g.below(9)).map(|_| g.next() as u8).collect();
    let all = [&b[..], &tail[..]].concat();
    let mut r = &all[..];
    match T::deserialize_from(&mut r) {
        Ok(x) if !x.same(&v) => return fail(format!("{}: read back as {x:?}", what())),
        Ok(_) if r.len() != tail.len() => return fail(format!("{}: {} of the {} bytes behind it are left", what(), r.len(), tail.len())),
        Ok(_) => {}
        Err(e) => return fail(format!("{}: refused on reading back: {e:?}", what())),
    }
    let mut d = Drip(&all, 1 + g.below(3) as usize);
    match T::deserialize_from(&mut d) {
        Ok(x) if x.same(&v) && d.0.len() == tail.len() => {}
        Ok(x) => return fail(format!("{}: read in small pieces as {x:?}, {} bytes left of {}", what(), d.0.len(), tail.len())),
        Err(e) => return fail(format!("{}: refused when read in small pieces: {e:?}", what())),
    }
    // cut short
    let cuts: Vec<usize> = if b.len() <= 40 { (0..b.len()).collect() } else { (0..12).map(|_| g.below(b.len() as u64) as usize).chain([b.len() - 1, b.len() - 2, b.len() - 4]).collect() };
    for k in cuts {
        if let Ok(x) = T::deserialize_from(&b[..k]) { return fail(format!("{}: its first {k} of {} bytes read as {x:?}", what(), b.len())); }
    }
    // a writer that takes little at a time, and one that fills up
    let mut w = Narrow { got: vec![], step: 1 + g.below(3) as usize, left: usize::MAX };
    if let Err(e) = v.serialize_into(&mut w) { return fail(format!("{}: fails on a writer that takes little at a time: {e:?}", what())); }
    if w.got.len() != b.len() || T::FIXED && w.got != b { return fail(format!("{}: written differently to a writer that takes little at a time", what())); }
    if !b.is_empty() {
        let room = g.below(b.len() as u64) as usize;
        let mut w = Narrow { got: vec![], step: 64, left: room };
        match v.serialize_into(&mut w) {
            Err(SerdeError::IOError(_)) => {}
            Err(e) => return fail(format!("{}: a full writer reported as {e:?}", what())),
            Ok(()) => return fail(format!("{}: reported as written to a writer with room for {room} of {} bytes", what(), b.len())),
        }
    }
    Ok(())
}
/// several values behind each other
fn row<A: Case, B: Case, C: Case>(g: &mut Rng) -> Out {
    let (a, b, c) = (A::draw(g), B::draw(g), C::draw(g));
    let mut o = vec![];
    a.serialize_into(&mut o).map_err(|e| format!("{e:?}"))?;
    b.serialize_into(&mut o).map_err(|e| format!("{e:?}"))?;
    c.serialize_into(&mut o).map_err(|e| format!("{e:?}"))?;
    let mut r = &o[..];
    let x = A::deserialize_from(&mut r).map_err(|e| format!("first of {a:?} {b:?} {c:?}: {e:?}"))?;
    let y = B::deserialize_from(&mut r).map_err(|e| format!("second of {a:?} {b:?} {c:?}: {e:?}"))?;
    let z = C::deserialize_from(&mut r).map_err(|e| format!("third of {a:?} {b:?} {c:?}: {e:?}"))?;
    if !(x.same(&a) && y.same(&b) && z.same(&c) && r.is_empty()) { return fail(format!("{a:?} {b:?} {c:?} one behind the other read as {x:?} {y:?} {z:?}, {} bytes left", r.len())); }
    Ok(())
}
/// bytes that encode nothing
fn foreign(g: &mut Rng) -> Out {
    let n = match g.below(3) { 0 => 5 + g.below(3) as u32, 1 => 1u32 << (8 * (1 + g.below(3))) | g.below(5) as u32, _ => u32::MAX - g.below(4) as u32 };
    let mut o = vec![];
    n.lay(&mut o);
    o.extend([0u8; 64]);
    if let Ok(x) = Mixed::deserialize_from(&o[..]) { return fail(format!("variant index {n} of a five-variant enum read as {x:?}")); }
    if let Ok(x) = Choice::<u8>::deserialize_from(&o[..]) { return fail(format!("variant index {n} of a four-variant enum read as {x:?}")); }
    let mut o = vec![];
    2u64.lay(&mut o);
    o.extend([[0xff, 0x41], [0xc3, 0x28], [0xe2, 0x82], [0x80, 0x80]][g.below(4) as usize]);
    if let Ok(x) = String::deserialize_from(&o[..]) { return fail(format!("bytes {o:?}, which are no UTF-8, read as {x:?}")); }
    let mut b = vec![0u8; 64];
    b[31] = 0x40 | g.next() as u8;
    b[63] = 0xff;
    if let Ok(x) = halo2curves::bn256::Fr::deserialize_from(&b[..]) { return fail(format!("a non-canonical scalar read as {x:?}")); }
    if let Ok(x) = halo2curves::bn256::G1Affine::deserialize_from(&b[..]) { return fail(format!("no point, read as {x:?}")); }
    if let Ok(x) = halo2curves::bn256::G2Affine::deserialize_from(&b[..]) { return fail(format!("no point, read as {x:?}")); }
    Ok(())
}
fn case(g: &mut Rng) -> Out {
    use halo2curves::bn256::{Fr, G1Affine, G2Affine};
    let all: &[fn(&mut Rng) -> Out] = &[
        one::<u8>, one::<u32>, one::<u64>, one::<usize>, one::<u128>, one::<f64>, one::<ethnum::U256>, one::<()>, one::<bool>, one::<String>,
        one::<Option<u32>>, one::<Option<Option<bool>>>, one::<Option<Vec<()>>>, one::<Vec<u8>>, one::<Vec<u64>>, one::<Vec<Vec<u32>>>, one::<Vec<Option<String>>>, one::<Vec<bool>>,
        one::<[u32; 2]>, one::<[bool; 3]>, one::<[Vec<u8>; 4]>, one::<[u8; 8]>, one::<[u64; 16]>, one::<[u8; 32]>, one::<[Option<u8>; 64]>, one::<[[u8; 3]; 2]>,
        one::<(u8, u64)>, one::<(Vec<u8>, String)>, one::<((u32, bool), Option<u8>)>, one::<HashMap<u32, u64>>, one::<HashMap<String, Vec<u8>>>, one::<HashMap<u8, Option<bool>>>, one::<HashMap<(u8, bool), HashMap<u32, u8>>>,
        one::<Fr>, one::<G1Affine>, one::<G2Affine>, one::<Vec<Fr>>, one::<Vec<G1Affine>>, one::<(G1Affine, G2Affine)>,
        one::<One>, one::<Two>, one::<Three<u8>>, one::<Three<Vec<String>>>, one::<Three<Two>>, one::<Deep<u64>>, one::<Deep<Mixed>>, one::<Mixed>, one::<Vec<Mixed>>, one::<Choice<u32>>, one::<Choice<Deep<bool>>>, one::<Option<Choice<Three<()>>>>, one::<HashMap<u8, Mixed>>,
        row::<u8, Vec<u32>, bool>, row::<Mixed, Choice<u8>, Mixed>, row::<HashMap<u8, u8>, String, Two>, row::<Option<u64>, f64, Three<u8>>, foreign,
    ];
    all[g.below(all.len() as u64) as usize](g)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, cases) = (get("--seed", 1), get("--cases", 1000));
    std::panic::set_hook(Box::new(|_| {}));
    for i in 0..cases {
        let mut g = Rng(seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(i));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut g))).unwrap_or_else(|p| Err(format!("panic: {:?}", p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()))));
        if let Err(m) = r {
            println!("FAIL case {i}: {m}");
            std::process::exit(1);
        }
        if i == 0 { println!("SAMPLE case 0 ok"); }
    }
    println!("OK cases={cases}");
}
