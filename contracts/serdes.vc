%%include prelude.vc
%%set macros prover/serdes/src/macros.rs
%%set map_result 1
%%type .to_le_bytes() => .vx_to_le()
%%type u8::from_le_bytes => vx_from_le::<u8, _>
%%type u32::from_le_bytes => vx_from_le::<u32, _>
%%type u64::from_le_bytes => vx_from_le::<u64, _>
%%type usize::from_le_bytes => vx_from_le::<usize, _>
%%type u128::from_le_bytes => vx_from_le::<u128, _>
%%type f64::from_le_bytes => vx_from_le::<f64, _>
%%type U256::from_le_bytes => vx_from_le::<U256, _>
%%type std::io::Write => Write
%%type std::io::Read => Read
%%type Vec::<V>::default() => Vec::<V>::new()
%%type _writer => writer
%%type _reader => reader
%%type .try_into() => .vx_arr()
%%type this.as_bytes() => vx_bytes(this)
%%type String::from_utf8 => vx_from_utf8
%%type ExpSerde + Eq + Hash => ExpSerde
%%type HashMap<K, V> => KMap<K, V>
%%type HashMap::with_capacity => KMap::with_capacity
%%type HashMap::new => KMap::new
%%type HashMap::default => KMap::default
%%type .as_ref() => .vx_s()
%%type .copy_from_slice( => .vx_fill(
%%type .as_mut(). => .
%%type <G1Affine as GroupEncoding>::Repr::default => G1AffineRepr::vx_new
%%type <G2Affine as GroupEncoding>::Repr::default => G2AffineRepr::vx_new
%%type SerdeError::DeserializeError => vx_err()
%%type SerdeError::InvalidVariantIndex => vx_bad_index
%%raw
pub type SerdeResult<T> = Result<T, VErr>;
pub fn vx_bad_index(i: usize) -> VErr { vx_err() }
// ---- byte strings ------------------------------------------------------------------------------
pub open spec fn starts(d: Seq<u8>, p: Seq<u8>) -> bool { d.len() >= p.len() && d.take(p.len() as int) == p }
/// d is p cut short
pub open spec fn cut(d: Seq<u8>, p: Seq<u8>) -> bool { d.len() < p.len() && p.take(d.len() as int) == d }
pub proof fn lemma_split(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures starts(d, a + b) == (starts(d, a) && starts(d.skip(a.len() as int), b)), cut(d, a + b) == (cut(d, a) || starts(d, a) && cut(d.skip(a.len() as int), b)),
        starts(d, a + b) ==> d.skip((a + b).len() as int) == d.skip(a.len() as int).skip(b.len() as int)
{
    let n = a.len() as int; let p = a + b;
    if starts(d, p) { assert(d.take(n) =~= p.take(n)); assert(p.take(n) =~= a); assert(d.skip(n).take(b.len() as int) =~= p.skip(n)); assert(p.skip(n) =~= b); }
    if starts(d, a) && starts(d.skip(n), b) { assert(d.take(p.len() as int) =~= d.take(n) + d.skip(n).take(b.len() as int)); }
    if cut(d, p) { if d.len() < n { assert(a.take(d.len() as int) =~= p.take(d.len() as int)); } else { assert(d.take(n) =~= a); assert(b.take(d.skip(n).len() as int) =~= d.skip(n)); } }
    if cut(d, a) { assert(p.take(d.len() as int) =~= a.take(d.len() as int)); }
    if starts(d, a) && cut(d.skip(n), b) { assert(d =~= d.take(n) + d.skip(n)); assert(p.take(d.len() as int) =~= d); }
    if starts(d, a) && p.len() <= d.len() { assert(d.skip(p.len() as int) =~= d.skip(n).skip(b.len() as int)); }
}
pub open spec fn le_enc(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_enc(v / 256, (n - 1) as nat) } }
pub open spec fn le_val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] as int + 256 * le_val(s.skip(1)) } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn lemma_le_enc(v: int, n: nat) requires 0 <= v < pow256(n) ensures le_enc(v, n).len() == n, le_val(le_enc(v, n)) == v decreases n
{
    if n > 0 {
        let t = le_enc(v / 256, (n - 1) as nat);
        assert(v / 256 < pow256((n - 1) as nat)) by(nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_le_enc(v / 256, (n - 1) as nat);
        assert(le_enc(v, n).skip(1) =~= t);
    }
}
pub proof fn lemma_pows() ensures pow256(1) == 0x100, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 17); assert(pow256(8) == 0x1_0000_0000_0000_0000); }
/// fixed-width numbers and their little-endian bytes (std / ethnum: assumed)
pub trait VxLe : Sized {
    spec fn les(self) -> Seq<u8>;
    spec fn le_n() -> nat;
    spec fn num(self) -> int;
    proof fn lemma_num(a: Self, b: Self) ensures a.les().len() == Self::le_n(), a.les() == b.les() ==> a.num() == b.num();
    fn vx_to_le(&self) -> (r: Vec<u8>) ensures r@ == self.les();
    fn vx_of(b: &[u8]) -> (r: Self) requires b@.len() == Self::le_n() ensures r.les() == b@;
}
pub fn vx_from_le<T: VxLe, B: VxSrc<u8>>(b: B) -> (r: T) requires b.sv().len() == T::le_n() ensures r.les() == b.sv() { T::vx_of(b.vx_s()) }
impl VxLe for u8 { open spec fn les(self) -> Seq<u8> { le_enc(self as int, 1) } open spec fn le_n() -> nat { 1 } open spec fn num(self) -> int { self as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(a as int, 1); lemma_le_enc(b as int, 1); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
impl VxLe for u32 { open spec fn les(self) -> Seq<u8> { le_enc(self as int, 4) } open spec fn le_n() -> nat { 4 } open spec fn num(self) -> int { self as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(a as int, 4); lemma_le_enc(b as int, 4); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
impl VxLe for u64 { open spec fn les(self) -> Seq<u8> { le_enc(self as int, 8) } open spec fn le_n() -> nat { 8 } open spec fn num(self) -> int { self as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(a as int, 8); lemma_le_enc(b as int, 8); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
impl VxLe for usize { open spec fn les(self) -> Seq<u8> { le_enc(self as int, 8) } open spec fn le_n() -> nat { 8 } open spec fn num(self) -> int { self as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(a as int, 8); lemma_le_enc(b as int, 8); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
impl VxLe for u128 { open spec fn les(self) -> Seq<u8> { le_enc(self as int, 16) } open spec fn le_n() -> nat { 16 } open spec fn num(self) -> int { self as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(a as int, 16); lemma_le_enc(b as int, 16); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
/// the bit pattern of a float
pub uninterp spec fn fbits(x: f64) -> u64;
impl VxLe for f64 { open spec fn les(self) -> Seq<u8> { le_enc(fbits(self) as int, 8) } open spec fn le_n() -> nat { 8 } open spec fn num(self) -> int { fbits(self) as int }
    proof fn lemma_num(a: Self, b: Self) { lemma_pows(); lemma_le_enc(fbits(a) as int, 8); lemma_le_enc(fbits(b) as int, 8); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { Self::from_le_bytes(b.try_into().unwrap()) } }
#[verifier::external_body] pub struct U256 { x: u8 }
pub uninterp spec fn u256v(x: U256) -> nat;
pub uninterp spec fn u256b(v: nat) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_u256(a: nat, b: nat) ensures u256b(a).len() == 32, u256b(a) == u256b(b) ==> a == b { }
impl VxLe for U256 { open spec fn les(self) -> Seq<u8> { u256b(u256v(self)) } open spec fn le_n() -> nat { 32 } open spec fn num(self) -> int { u256v(self) as int }
    proof fn lemma_num(a: Self, b: Self) { axiom_u256(u256v(a), u256v(b)); }
    #[verifier::external_body] fn vx_to_le(&self) -> (r: Vec<u8>) { vec![] } #[verifier::external_body] fn vx_of(b: &[u8]) -> (r: Self) { U256 { x: 0 } } }
// ---- streams: assumed contract on std::io ------------------------------------------------------
pub trait VxBuf { spec fn bv(&self) -> Seq<u8>; }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
pub trait Write : Sized {
    /// bytes accepted so far
    spec fn text(&self) -> Seq<u8>;
    /// writing here does not fail
    spec fn open(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VErr>)
        ensures final(self).open() == old(self).open(), match r { Ok(_) => final(self).text() == old(self).text() + b@, Err(_) => !old(self).open() };
}
pub trait Read : Sized {
    /// bytes still to be delivered
    spec fn rem(&self) -> Seq<u8>;
    /// reading what is there does not fail
    spec fn sound(&self) -> bool;
    fn read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: Result<(), VErr>)
        ensures final(self).sound() == old(self).sound(), final(b).bv().len() == old(b).bv().len(), match r {
            Ok(_) => old(b).bv().len() <= old(self).rem().len() && final(b).bv() == old(self).rem().take(old(b).bv().len() as int) && final(self).rem() == old(self).rem().skip(old(b).bv().len() as int),
            Err(_) => !old(self).sound() || old(self).rem().len() < old(b).bv().len() };
}
pub trait VxArr<T> : Sized { fn vx_arr<const N: usize>(self) -> (r: Result<[T; N], VErr>); }
impl<T> VxArr<T> for Vec<T> {
    /// std: Vec<T> into [T; N]
    #[verifier::external_body]
    fn vx_arr<const N: usize>(self) -> (r: Result<[T; N], VErr>) ensures match r { Ok(a) => a@ == self@, Err(_) => self@.len() != N } { self.try_into().map_err(|_| vx_err()) }
}
/// UTF-8 (std: assumed)
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_utf8(a: Seq<char>, b: Seq<char>) ensures utf8(a) == utf8(b) ==> a == b { }
#[verifier::external_body] pub fn vx_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body] pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, VErr>) ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => forall|t: Seq<char>| #[trigger] utf8(t) != b@ } { String::from_utf8(b).map_err(|_| vx_err()) }
// ---- what the two methods promise ---------------------------------------------------------------
pub trait Enc : Sized {
    /// `b` encodes the value
    spec fn enc(&self, b: Seq<u8>) -> bool;
    /// the same value
    spec fn same(&self, o: &Self) -> bool;
}
pub trait ExpSerde : Enc {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) ensures put_ok(*self, *old(writer), *final(writer), r);
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) ensures get_ok::<Self, R>(*old(reader), *final(reader), r);
}
/// an encoding of the value is appended, unless the writer fails
pub open spec fn put_ok<T: Enc, W: Write>(v: T, pre: W, post: W, r: SerdeResult<()>) -> bool {
    post.open() == pre.open() && (match r { Ok(_) => exists|b: Seq<u8>| #[trigger] v.enc(b) && post.text() == pre.text() + b, Err(_) => !pre.open() })
}
/// input that starts with an encoding is read as the value encoded, and what follows is left unread;
/// an encoding cut short is refused
pub open spec fn get_ok<T: Enc, R: Read>(pre: R, post: R, r: SerdeResult<T>) -> bool {
    post.sound() == pre.sound() && forall|v: T, b: Seq<u8>| #[trigger] v.enc(b) ==> got(v, b, pre, post, r)
}
pub open spec fn got<T: Enc, R: Read>(v: T, b: Seq<u8>, pre: R, post: R, r: SerdeResult<T>) -> bool {
    (starts(pre.rem(), b) ==> match r { Ok(x) => x.same(&v) && post.rem() == pre.rem().skip(b.len() as int), Err(_) => !pre.sound() }) && (cut(pre.rem(), b) ==> r is Err)
}
%%raw
pub proof fn lemma_nums<T: VxLe>() ensures forall|a: T| #![trigger a.les()] a.les().len() == T::le_n(), forall|a: T, b: T| #![trigger a.les(), b.les()] a.les() == b.les() ==> a.num() == b.num()
{ assert forall|a: T, b: T| #![trigger a.les(), b.les()] a.les() == b.les() implies a.num() == b.num() by { T::lemma_num(a, b); } assert forall|a: T| #![trigger a.les()] a.les().len() == T::le_n() by { T::lemma_num(a, a); } }
%%fn prover/serdes/src/serdes.rs::u64::serialize_into
%%as ser_u64
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::u64::deserialize_from
%%as de_u64
%%opt free 1
ensures get_ok::<u64, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<u64>();
assert forall|v: u64, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 8 by { }
%%raw
impl Enc for u64 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for u64 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_u64(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_u64(reader) }
}
%%fn prover/serdes/src/serdes.rs::usize::serialize_into
%%as ser_usize
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::usize::deserialize_from
%%as de_usize
%%opt free 1
ensures get_ok::<usize, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<usize>();
assert forall|v: usize, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 8 by { }
%%raw
impl Enc for usize {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for usize {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_usize(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_usize(reader) }
}
%%fn prover/serdes/src/serdes.rs::u8::serialize_into
%%as ser_u8
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::u8::deserialize_from
%%as de_u8
%%opt free 1
ensures get_ok::<u8, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<u8>();
assert forall|v: u8, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 1 by { }
%%raw
impl Enc for u8 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for u8 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_u8(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_u8(reader) }
}
%%fn prover/serdes/src/serdes.rs::f64::serialize_into
%%as ser_f64
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::f64::deserialize_from
%%as de_f64
%%opt free 1
ensures get_ok::<f64, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<f64>();
assert forall|v: f64, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 8 by { }
%%raw
impl Enc for f64 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for f64 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_f64(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_f64(reader) }
}
%%fn prover/serdes/src/serdes.rs::u128::serialize_into
%%as ser_u128
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::u128::deserialize_from
%%as de_u128
%%opt free 1
ensures get_ok::<u128, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<u128>();
assert forall|v: u128, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 16 by { }
%%raw
impl Enc for u128 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for u128 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_u128(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_u128(reader) }
}
%%fn prover/serdes/src/serdes.rs::u32::serialize_into
%%as ser_u32
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::u32::deserialize_from
%%as de_u32
%%opt free 1
ensures get_ok::<u32, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<u32>();
assert forall|v: u32, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 4 by { }
%%raw
impl Enc for u32 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for u32 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_u32(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_u32(reader) }
}
%%fn prover/serdes/src/serdes.rs::U256::serialize_into
%%as ser_U256
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(this.les()));
%%fn prover/serdes/src/serdes.rs::U256::deserialize_from
%%as de_U256
%%opt free 1
ensures get_ok::<U256, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<U256>();
assert forall|v: U256, b: Seq<u8>| #[trigger] v.enc(b) implies b.len() == 32 by { }
%%raw
impl Enc for U256 {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == self.les() }
    open spec fn same(&self, o: &Self) -> bool { self.num() == o.num() }
}
impl ExpSerde for U256 {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_U256(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_U256(reader) }
}
// ---- sequences of encodings -----------------------------------------------------------------------
pub open spec fn flat(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { p[0] + flat(p.skip(1)) } }
pub open spec fn parts_of<V: Enc>(s: Seq<V>, p: Seq<Seq<u8>>) -> bool { p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).enc(p[i]) }
pub proof fn lemma_flat_push(p: Seq<Seq<u8>>, x: Seq<u8>) ensures flat(p.push(x)) == flat(p) + x decreases p.len()
{
    reveal_with_fuel(flat, 3);
    if p.len() == 0 { assert(p.push(x).skip(1) =~= Seq::<Seq<u8>>::empty()); assert(p.push(x)[0] == x); assert(flat(p.push(x)) =~= flat(p) + x); }
    else { assert(p.push(x).skip(1) =~= p.skip(1).push(x)); lemma_flat_push(p.skip(1), x); assert(flat(p.push(x)) =~= flat(p) + x); }
}
pub open spec fn lenc<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>) -> bool { exists|p: Seq<Seq<u8>>| #[trigger] parts_of(s, p) && b == h + flat(p) }
pub open spec fn lparts<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>) -> Seq<Seq<u8>> { choose|p: Seq<Seq<u8>>| #[trigger] parts_of(s, p) && b == h + flat(p) }
pub open spec fn same_upto<V: Enc>(a: Seq<V>, s: Seq<V>, n: int) -> bool { a.len() == n && n <= s.len() && forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).same(&s[j]) }
pub open spec fn same_seq<V: Enc>(a: Seq<V>, s: Seq<V>) -> bool { a.len() == s.len() && same_upto(a, s, s.len() as int) }
/// what an encoding b of s (behind the header h) says once the header has been read
pub open spec fn mid0<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>) -> bool {
    let p = lparts(s, h, b);
    &&& parts_of(s, p) && b == h + flat(p)
    &&& starts(d0, b) ==> starts(d0, h) && starts(d0.skip(h.len() as int), flat(p)) && d0.skip(b.len() as int) == d0.skip(h.len() as int).skip(flat(p).len() as int)
    &&& cut(d0, b) ==> cut(d0, h) || starts(d0, h) && cut(d0.skip(h.len() as int), flat(p))
}
pub proof fn lemma_mid0<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>) requires lenc(s, h, b) ensures mid0(s, h, b, d0)
{ let p = lparts(s, h, b); lemma_split(d0, h, flat(p)); }
/// and after i elements, with d still unread
pub open spec fn mid<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>, d: Seq<u8>, out: Seq<V>, i: int, n: int) -> bool {
    let p = lparts(s, h, b); let t = flat(p.skip(i));
    &&& parts_of(s, p)
    &&& starts(d0, b) ==> s.len() == n && i <= n && starts(d, t) && d.skip(t.len() as int) == d0.skip(b.len() as int) && same_upto(out, s, i) && (i < n ==> s[i].enc(p[i]) && starts(d, p[i]))
    &&& cut(d0, b) ==> s.len() == n && i <= n && cut(d, t) && (i < n ==> s[i].enc(p[i]))
}
pub proof fn lemma_mid_first<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>, n: int)
    requires mid0(s, h, b, d0), starts(d0, h) ==> s.len() == n, !cut(d0, h)
    ensures mid(s, h, b, d0, d0.skip(h.len() as int), Seq::empty(), 0, n)
{ let p = lparts(s, h, b); assert(p.skip(0) =~= p); if p.len() > 0 { lemma_split(d0.skip(h.len() as int), p[0], flat(p.skip(1))); } }
pub proof fn lemma_mid_step<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>, d: Seq<u8>, d2: Seq<u8>, out: Seq<V>, x: V, i: int, n: int)
    requires mid(s, h, b, d0, d, out, i, n), 0 <= i < n,
        starts(d0, b) ==> x.same(&s[i]) && d2 == d.skip(lparts(s, h, b)[i].len() as int),
        cut(d0, b) && starts(d, lparts(s, h, b)[i]) ==> d2 == d.skip(lparts(s, h, b)[i].len() as int),
        cut(d0, b) ==> !cut(d, lparts(s, h, b)[i]),
    ensures mid(s, h, b, d0, d2, out.push(x), i + 1, n)
{
    let p = lparts(s, h, b);
    if starts(d0, b) || cut(d0, b) {
        assert(p.skip(i).skip(1) =~= p.skip(i + 1));
        lemma_split(d, p[i], flat(p.skip(i + 1)));
        if i + 1 < n { assert(p.skip(i + 1).skip(1) =~= p.skip(i + 2)); lemma_split(d2, p[i + 1], flat(p.skip(i + 2))); }
        if starts(d0, b) { assert(same_upto(out.push(x), s, i + 1)); }
    }
}
pub proof fn lemma_mid_last<V: Enc>(s: Seq<V>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>, d: Seq<u8>, out: Seq<V>, n: int)
    requires mid(s, h, b, d0, d, out, n, n), n >= 0
    ensures starts(d0, b) ==> same_seq(out, s) && d == d0.skip(b.len() as int), !cut(d0, b)
{ let p = lparts(s, h, b); if starts(d0, b) || cut(d0, b) { assert(p.skip(n) =~= Seq::<Seq<u8>>::empty()); assert(d.skip(0) =~= d); } }
pub open spec fn hdr(n: int) -> Seq<u8> { le_enc(n, 8) }
impl<V: Enc> Enc for Vec<V> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, hdr(self@.len() as int), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::Vec::serialize_into
%%as ser_vec
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + hdr(this@.len() as int) + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + hdr(this@.len() as int) + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(lenc(this@, hdr(this@.len() as int), hdr(this@.len() as int) + flat(p)));
assert(this.enc(hdr(this@.len() as int) + flat(p)));
assert(writer.text() =~= old(writer).text() + (hdr(this@.len() as int) + flat(p)));
%%fn prover/serdes/src/serdes.rs::Vec::deserialize_from
%%as de_vec
%%opt free 1
ensures get_ok::<Vec<V>, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<usize>();
assert forall|w: Vec<V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, hdr(w@.len() as int), b, reader.rem()) && w.len().enc(hdr(w@.len() as int)) by { lemma_mid0(w@, hdr(w@.len() as int), b, reader.rem()); }
%%pre L0
assert forall|w: Vec<V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, hdr(w@.len() as int), b, old(reader).rem(), reader.rem(), v@, 0, len as int) by { lemma_mid_first(w@, hdr(w@.len() as int), b, old(reader).rem(), len as int); }
%%loop L0
reader.sound() == old(reader).sound(), v@.len() == ixL0,
forall|w: Vec<V>, b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, hdr(w@.len() as int), b, old(reader).rem(), reader.rem(), v@, ixL0 as int, len as int),
%%gbody L0
let ghost d = reader.rem();
let ghost o = v@;
%%end L0
assert forall|w: Vec<V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, hdr(w@.len() as int), b, old(reader).rem(), reader.rem(), v@, ixL0 as int, len as int) by {
    assert(v@ =~= o.push(v@.last()));
    lemma_mid_step(w@, hdr(w@.len() as int), b, old(reader).rem(), d, reader.rem(), o, v@.last(), ixL0 - 1, len as int);
}
%%post L0
assert forall|w: Vec<V>, b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> v.same(&w) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, hdr(w@.len() as int), b, old(reader).rem(), reader.rem(), v@, len as int);
}
%%raw
impl<V: ExpSerde> ExpSerde for Vec<V> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_vec(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_vec(reader) }
}
%%raw
impl Enc for () { open spec fn enc(&self, b: Seq<u8>) -> bool { b == Seq::<u8>::empty() } open spec fn same(&self, o: &Self) -> bool { true } }
%%fn prover/serdes/src/serdes.rs::()::serialize_into
%%as ser_unit
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(Seq::empty())); assert(old(writer).text() + Seq::<u8>::empty() =~= old(writer).text());
%%fn prover/serdes/src/serdes.rs::()::deserialize_from
%%as de_unit
%%opt free 1
ensures get_ok::<(), R>(*old(reader), *final(reader), r),
%%entry
assert(reader.rem().skip(0) =~= reader.rem());
%%raw
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_unit(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_unit(reader) }
}
%%raw
impl Enc for bool { open spec fn enc(&self, b: Seq<u8>) -> bool { (if *self { 1u8 } else { 0u8 }).enc(b) } open spec fn same(&self, o: &Self) -> bool { *self == *o } }
%%fn prover/serdes/src/serdes.rs::bool::serialize_into
%%as ser_bool
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc((if *this { 1u8 } else { 0u8 }).les()));
%%fn prover/serdes/src/serdes.rs::bool::deserialize_from
%%as de_bool
%%opt free 1
ensures get_ok::<bool, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<u8>();
%%raw
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_bool(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_bool(reader) }
}
%%raw
impl<T1: Enc, T2: Enc> Enc for (T1, T2) {
    open spec fn enc(&self, b: Seq<u8>) -> bool { exists|x: Seq<u8>, y: Seq<u8>| #![trigger self.0.enc(x), self.1.enc(y)] self.0.enc(x) && self.1.enc(y) && b == x + y }
    open spec fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
}
pub open spec fn sp2<A: Enc, B: Enc>(a: A, c: B, b: Seq<u8>, d: Seq<u8>) -> bool {
    exists|x: Seq<u8>, y: Seq<u8>| #![trigger a.enc(x), c.enc(y)] a.enc(x) && c.enc(y) && b == x + y && starts(d, b) == (starts(d, x) && starts(d.skip(x.len() as int), y)) && cut(d, b) == (cut(d, x) || starts(d, x) && cut(d.skip(x.len() as int), y))
        && (starts(d, b) ==> d.skip(b.len() as int) == d.skip(x.len() as int).skip(y.len() as int))
}
pub proof fn lemma_sp2<A: Enc, B: Enc>(a: A, c: B, b: Seq<u8>, d: Seq<u8>)
    requires exists|x: Seq<u8>, y: Seq<u8>| #![trigger a.enc(x), c.enc(y)] a.enc(x) && c.enc(y) && b == x + y
    ensures sp2(a, c, b, d)
{ let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| #![trigger a.enc(x), c.enc(y)] a.enc(x) && c.enc(y) && b == x + y; lemma_split(d, x, y); }
%%fn prover/serdes/src/serdes.rs::(T1,T2)::serialize_into
%%as ser_pair
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert forall|x: Seq<u8>, y: Seq<u8>| #![trigger this.0.enc(x), this.1.enc(y)] this.0.enc(x) && this.1.enc(y) implies this.enc(x + y) by { }
%%fn prover/serdes/src/serdes.rs::(T1,T2)::deserialize_from
%%as de_pair
%%opt free 1
ensures get_ok::<(T1,T2), R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: (T1, T2), b: Seq<u8>| #[trigger] w.enc(b) implies sp2(w.0, w.1, b, reader.rem()) by { lemma_sp2(w.0, w.1, b, reader.rem()); }
%%raw
impl<T1: ExpSerde, T2: ExpSerde> ExpSerde for (T1,T2) {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_pair(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_pair(reader) }
}
%%raw
impl<T: Enc> Enc for Option<T> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { match *self { Some(v) => (exists|x: Seq<u8>, y: Seq<u8>| #![trigger true.enc(x), v.enc(y)] true.enc(x) && v.enc(y) && b == x + y), None => false.enc(b) } }
    open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(c)) => a.same(&c), (None, None) => true, _ => false } }
}
%%fn prover/serdes/src/serdes.rs::Option<T>::serialize_into
%%as ser_option
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger true.enc(x), this->Some_0.enc(y)] *this is Some && true.enc(x) && this->Some_0.enc(y) ==> this.enc(x + y));
assert(forall|x: Seq<u8>| #![trigger false.enc(x)] *this is None && false.enc(x) ==> this.enc(x));
%%fn prover/serdes/src/serdes.rs::Option<T>::deserialize_from
%%as de_option
%%opt free 1
ensures get_ok::<Option<T>, R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: Option<T>, b: Seq<u8>| #[trigger] w.enc(b) && w is Some implies sp2(true, w->Some_0, b, reader.rem()) by { lemma_sp2(true, w->Some_0, b, reader.rem()); }
%%raw
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_option(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_option(reader) }
}
%%raw
impl<S: Enc> Enc for [S;2] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;2]::serialize_into
%%as ser_arr2
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;2]::deserialize_from
%%as de_arr2
%%opt free 1
ensures get_ok::<[S;2], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;2], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;2], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 2) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 2); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;2], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 2),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;2], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 2) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 2);
}
%%post L0
assert forall|w: [S;2], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 2);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;2] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr2(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr2(reader) }
}
%%raw
impl<S: Enc> Enc for [S;3] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;3]::serialize_into
%%as ser_arr3
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;3]::deserialize_from
%%as de_arr3
%%opt free 1
ensures get_ok::<[S;3], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;3], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;3], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 3) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 3); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;3], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 3),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;3], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 3) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 3);
}
%%post L0
assert forall|w: [S;3], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 3);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;3] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr3(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr3(reader) }
}
%%raw
impl<S: Enc> Enc for [S;4] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;4]::serialize_into
%%as ser_arr4
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;4]::deserialize_from
%%as de_arr4
%%opt free 1
ensures get_ok::<[S;4], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;4], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;4], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 4) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 4); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;4], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 4),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;4], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 4) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 4);
}
%%post L0
assert forall|w: [S;4], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 4);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;4] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr4(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr4(reader) }
}
%%raw
impl<S: Enc> Enc for [S;8] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;8]::serialize_into
%%as ser_arr8
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;8]::deserialize_from
%%as de_arr8
%%opt free 1
ensures get_ok::<[S;8], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;8], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;8], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 8) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 8); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;8], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 8),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;8], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 8) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 8);
}
%%post L0
assert forall|w: [S;8], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 8);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;8] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr8(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr8(reader) }
}
%%raw
impl<S: Enc> Enc for [S;16] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;16]::serialize_into
%%as ser_arr16
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;16]::deserialize_from
%%as de_arr16
%%opt free 1
ensures get_ok::<[S;16], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;16], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;16], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 16) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 16); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;16], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 16),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;16], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 16) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 16);
}
%%post L0
assert forall|w: [S;16], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 16);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;16] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr16(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr16(reader) }
}
%%raw
impl<S: Enc> Enc for [S;32] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;32]::serialize_into
%%as ser_arr32
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;32]::deserialize_from
%%as de_arr32
%%opt free 1
ensures get_ok::<[S;32], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;32], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;32], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 32) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 32); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;32], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 32),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;32], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 32) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 32);
}
%%post L0
assert forall|w: [S;32], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 32);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;32] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr32(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr32(reader) }
}
%%raw
impl<S: Enc> Enc for [S;64] {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self@, Seq::<u8>::empty(), b) }
    open spec fn same(&self, o: &Self) -> bool { same_seq(self@, o@) }
}
%%fn prover/serdes/src/serdes.rs::[S;64]::serialize_into
%%as ser_arr64
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(old(writer).text() + flat(Seq::empty()) =~= old(writer).text());
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this@.take(ixL0 as int), p), writer.text() == old(writer).text() + flat(p),
%%gbody L0
let ghost t0 = writer.text();
%%gend L0
let ghost q = p;
proof { p = p.push(choose|b: Seq<u8>| #[trigger] this@[ixL0 - 1].enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + flat(p));
assert(parts_of(this@.take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this@.take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this@.take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this@.take(ixL0 as int) =~= this@);
assert(Seq::<u8>::empty() + flat(p) =~= flat(p));
assert(lenc(this@, Seq::<u8>::empty(), flat(p)));
assert(this.enc(flat(p)));
%%fn prover/serdes/src/serdes.rs::[S;64]::deserialize_from
%%as de_arr64
%%opt free 1
ensures get_ok::<[S;64], R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: [S;64], b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w@, Seq::<u8>::empty(), b, reader.rem()) by { lemma_mid0(w@, Seq::<u8>::empty(), b, reader.rem()); }
%%pre L0
assert(old(reader).rem().skip(0) =~= old(reader).rem());
assert forall|w: [S;64], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 0, 64) by { lemma_mid_first(w@, Seq::<u8>::empty(), b, old(reader).rem(), 64); }
%%loop L0
reader.sound() == old(reader).sound(), ret@.len() == ixL0,
forall|w: [S;64], b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 64),
%%gbody L0
let ghost d = reader.rem();
let ghost o = ret@;
%%end L0
assert forall|w: [S;64], b: Seq<u8>| #[trigger] w.enc(b) implies mid(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, ixL0 as int, 64) by {
    assert(ret@ =~= o.push(ret@.last()));
    lemma_mid_step(w@, Seq::<u8>::empty(), b, old(reader).rem(), d, reader.rem(), o, ret@.last(), ixL0 - 1, 64);
}
%%post L0
assert forall|w: [S;64], b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_seq(ret@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w@, Seq::<u8>::empty(), b, old(reader).rem(), reader.rem(), ret@, 64);
}
%%raw
impl<S: ExpSerde> ExpSerde for [S;64] {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_arr64(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_arr64(reader) }
}
%%raw
impl Enc for String {
    open spec fn enc(&self, b: Seq<u8>) -> bool { b == hdr(utf8(self@).len() as int) + utf8(self@) && utf8(self@).len() <= usize::MAX }
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
}
%%fn prover/serdes/src/serdes.rs::String::serialize_into
%%as ser_string
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
let h = hdr(utf8(this@).len() as int); let u = utf8(this@);
assert((old(writer).text() + h) + u =~= old(writer).text() + (h + u));
assert(utf8(this@).len() <= usize::MAX ==> this.enc(h + u));
%%fn prover/serdes/src/serdes.rs::String::deserialize_from
%%as de_string
%%opt free 1
ensures get_ok::<String, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<usize>();
assert forall|w: String, b: Seq<u8>| #[trigger] w.enc(b) implies str_split(w@, b, reader.rem()) && (utf8(w@).len() as usize).enc(hdr(utf8(w@).len() as int)) by { lemma_split(reader.rem(), hdr(utf8(w@).len() as int), utf8(w@)); }
assert(forall|a: Seq<char>, b: Seq<char>| #![trigger utf8(a), utf8(b)] utf8(a) == utf8(b) ==> a == b) by { assert forall|a: Seq<char>, b: Seq<char>| #![trigger utf8(a), utf8(b)] utf8(a) == utf8(b) implies a == b by { axiom_utf8(a, b); } }
%%raw
pub open spec fn str_split(s: Seq<char>, b: Seq<u8>, d: Seq<u8>) -> bool {
    let h = hdr(utf8(s).len() as int); let u = utf8(s);
    &&& starts(d, b) == (starts(d, h) && starts(d.skip(h.len() as int), u)) && cut(d, b) == (cut(d, h) || starts(d, h) && cut(d.skip(h.len() as int), u))
    &&& starts(d, b) ==> d.skip(b.len() as int) == d.skip(h.len() as int).skip(u.len() as int)
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_string(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_string(reader) }
}
%%raw
// ---- maps: assumed contract on std HashMap; iteration visits every entry once, in some order -------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct KMap<K, V> { m: Vec<(K, V)> }
impl<K, V> KMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    /// the order of iteration
    pub uninterp spec fn order(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { KMap { m: vec![] } }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { None }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { KMap { m: vec![] } }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { KMap { m: vec![] } }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { false }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.order().len() == 0) { false }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.order().len() { 0 }
    #[verifier::external_body] pub fn vx_s(&self) -> (r: &[(K, V)]) ensures r@ == self.order() { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_order<K, V>(m: KMap<K, V>)
    ensures entries(m@, m.order()) { }
pub open spec fn entries<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0
    &&& forall|k: K| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k
}
/// keys for which the same value is the same key
pub open spec fn exact<K: Enc>() -> bool { forall|a: K, b: K| #[trigger] a.same(&b) ==> a == b }
pub open spec fn same_map<K: Enc, V: Enc>(a: Map<K, V>, b: Map<K, V>) -> bool { exact::<K>() ==> (forall|k: K| a.contains_key(k) == b.contains_key(k)) && (forall|k: K| #![trigger a[k]] b.contains_key(k) ==> a[k].same(&b[k])) }
pub open spec fn built<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { built(s.drop_last()).insert(s.last().0, s.last().1) } }
pub proof fn lemma_built<K, V>(s: Seq<(K, V)>)
    requires forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0
    ensures entries(built(s), s) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let m = built(s);
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].0 != t[j].0 by { assert(s[i].0 != s[j].0); }
        lemma_built(t);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies m.contains_key(s[i].0) && m[s[i].0] == s[i].1 by { if i < s.len() - 1 { assert(t[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); } }
        assert forall|k: K| #![trigger m.contains_key(k)] m.contains_key(k) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(built(t).contains_key(k)); let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == k; assert(s[i].0 == k); }
        }
    }
}
pub proof fn lemma_same_map<K: Enc, V: Enc>(o: Seq<(K, V)>, m: Map<K, V>, s: Seq<(K, V)>)
    requires entries(m, s), same_seq(o, s)
    ensures same_map(built(o), m)
{
    if exact::<K>() {
        assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies o[i].0 == s[i].0 && o[i].1.same(&s[i].1) by { assert(o[i].same(&s[i])); }
        assert forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < j < o.len() implies o[i].0 != o[j].0 by { assert(s[i].0 != s[j].0); }
        lemma_built(o);
        let a = built(o);
        assert forall|k: K| a.contains_key(k) == m.contains_key(k) by {
            if a.contains_key(k) { let i = choose|i: int| #![trigger o[i]] 0 <= i < o.len() && o[i].0 == k; assert(m.contains_key(s[i].0)); }
            if m.contains_key(k) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(a.contains_key(o[i].0)); }
        }
        assert forall|k: K| #![trigger a[k]] m.contains_key(k) implies a[k].same(&m[k]) by { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(o[i].0 == k); assert(a[o[i].0] == o[i].1); }
    }
}
impl<K: Enc, V: Enc> Enc for KMap<K, V> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { lenc(self.order(), hdr(self.order().len() as int), b) && self.order().len() <= usize::MAX }
    open spec fn same(&self, o: &Self) -> bool { same_map(self@, o@) }
}
pub open spec fn midk<K: Enc, V: Enc>(s: Seq<(K, V)>, h: Seq<u8>, b: Seq<u8>, d0: Seq<u8>, d: Seq<u8>, i: int) -> bool {
    let p = lparts(s, h, b);
    starts(d0, b) || cut(d0, b) ==> i < s.len() && sp2(s[i].0, s[i].1, p[i], d)
}
pub proof fn lemma_glue<A: Enc, B: Enc>(a: A, c: B, t0: Seq<u8>, t: Seq<u8>)
    requires exists|x: Seq<u8>, y: Seq<u8>| #[trigger] a.enc(x) && #[trigger] c.enc(y) && t == t0 + x + y
    ensures exists|b: Seq<u8>| #[trigger] (a, c).enc(b) && t == t0 + b
{
    let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| #[trigger] a.enc(x) && #[trigger] c.enc(y) && t == t0 + x + y;
    assert(t0 + x + y =~= t0 + (x + y)); let pr = (a, c); assert(pr.0.enc(x) && pr.1.enc(y)); assert(pr.enc(x + y));
}
%%fn prover/serdes/src/serdes.rs::HashMap::serialize_into
%%as ser_map
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%gpre L0
let ghost mut p: Seq<Seq<u8>> = Seq::empty();
%%loop L0
writer.open() == old(writer).open(), p.len() == ixL0, parts_of(this.order().take(ixL0 as int), p), writer.text() == old(writer).text() + hdr(this.order().len() as int) + flat(p),
%%gbody L0
let ghost t0 = writer.text();
let ghost e = this.order()[ixL0 - 1];
%%gend L0
let ghost q = p;
proof { lemma_glue(e.0, e.1, t0, writer.text()); }
proof { p = p.push(choose|b: Seq<u8>| #[trigger] e.enc(b) && writer.text() == t0 + b); }
%%end L0
lemma_flat_push(q, p.last());
assert(writer.text() =~= old(writer).text() + hdr(this.order().len() as int) + flat(p));
assert(parts_of(this.order().take(ixL0 as int), p)) by { assert forall|i: int| 0 <= i < ixL0 implies (#[trigger] this.order().take(ixL0 as int)[i]).enc(p[i]) by { if i < ixL0 - 1 { assert(this.order().take(ixL0 - 1)[i].enc(q[i])); } } }
%%post L0
assert(this.order().take(ixL0 as int) =~= this.order());
assert(lenc(this.order(), hdr(this.order().len() as int), hdr(this.order().len() as int) + flat(p)));
assert(this.enc(hdr(this.order().len() as int) + flat(p)));
assert(writer.text() =~= old(writer).text() + (hdr(this.order().len() as int) + flat(p)));
%%fn prover/serdes/src/serdes.rs::HashMap::deserialize_from
%%as de_map
%%opt free 1
ensures get_ok::<KMap<K, V>, R>(*old(reader), *final(reader), r),
%%entry
lemma_nums::<usize>();
assert forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid0(w.order(), hdr(w.order().len() as int), b, reader.rem()) && (w.order().len() as usize).enc(hdr(w.order().len() as int)) by { lemma_mid0(w.order(), hdr(w.order().len() as int), b, reader.rem()); }
%%gpre L0
let ghost mut o: Seq<(K, V)> = Seq::empty();
%%pre L0
assert forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), reader.rem(), o, 0, len as int) by { lemma_mid_first(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), len as int); }
%%loop L0
reader.sound() == old(reader).sound(), o.len() == ixL0, map@ == built(o),
forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) ==> mid(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), reader.rem(), o, ixL0 as int, len as int),
%%gbody L0
let ghost d = reader.rem();
%%body L0
assert forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) implies midk(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), d, ixL0 - 1) by {
    let s = w.order(); let h = hdr(s.len() as int); let p = lparts(s, h, b);
    if starts(old(reader).rem(), b) || cut(old(reader).rem(), b) { assert(s[ixL0 - 1].enc(p[ixL0 - 1])); lemma_sp2(s[ixL0 - 1].0, s[ixL0 - 1].1, p[ixL0 - 1], d); }
}
%%gend L0
let ghost o1 = o;
proof { o = o.push((k, v)); assert(o.drop_last() =~= o1); }
%%end L0
assert forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) implies mid(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), reader.rem(), o, ixL0 as int, len as int) by {
    assert(midk(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), d, ixL0 - 1));
    lemma_mid_step(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), d, reader.rem(), o1, (k, v), ixL0 - 1, len as int);
}
%%post L0
assert forall|w: KMap<K, V>, b: Seq<u8>| #[trigger] w.enc(b) implies (starts(old(reader).rem(), b) ==> same_map(map@, w@) && reader.rem() == old(reader).rem().skip(b.len() as int)) && !cut(old(reader).rem(), b) by {
    lemma_mid_last(w.order(), hdr(w.order().len() as int), b, old(reader).rem(), reader.rem(), o, len as int);
    axiom_order(w);
    if starts(old(reader).rem(), b) { lemma_same_map(o, w@, w.order()); }
}
%%raw
impl<K: ExpSerde, V: ExpSerde> ExpSerde for KMap<K, V> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_map(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_map(reader) }
}
// ==== scalars and curve points: assumed contract on halo2curves (canonical encodings of fixed length) ====
%%raw
pub struct CtOption<T> { pub o: Option<T> }
impl<T> CtOption<T> { pub fn into_option(self) -> (r: Option<T>) ensures r == self.o { self.o } }
pub trait VxFill { spec fn fv(&self) -> Seq<u8>; fn vx_fill(&mut self, s: &[u8]) requires old(self).fv().len() == s@.len() ensures final(self).fv() == s@; }
impl<const N: usize> VxFill for [u8; N] { open spec fn fv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_fill(&mut self, s: &[u8]) { self.copy_from_slice(s) } }
/// an array of bytes is laid out as itself
pub proof fn lemma_raw(s: Seq<u8>, b: Seq<u8>) ensures lenc(s, Seq::<u8>::empty(), b) == (b == s)
{
    assert forall|p: Seq<Seq<u8>>| #[trigger] parts_of(s, p) implies flat(p) == s by { lemma_bytes(s, p); }
    let q = Seq::new(s.len(), |i: int| seq![s[i]]);
    assert(parts_of(s, q)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).enc(q[i]) by { lemma_byte(s[i]); } }
    assert(Seq::<u8>::empty() + s =~= s);
    lemma_bytes(s, q);
    assert(b == s ==> lenc(s, Seq::<u8>::empty(), b));
}
pub proof fn lemma_byte(x: u8) ensures x.les() == seq![x] { reveal_with_fuel(le_enc, 2); assert(x.les() =~= seq![x]); }
pub proof fn lemma_bytes(s: Seq<u8>, p: Seq<Seq<u8>>) requires parts_of(s, p) ensures flat(p) == s decreases s.len()
{
    if s.len() == 0 { assert(flat(p) =~= s); } else {
        let t = s.drop_last(); let q = p.drop_last();
        assert(parts_of(t, q)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).enc(q[i]) by { assert(s[i].enc(p[i])); } }
        lemma_bytes(t, q); assert(p =~= q.push(p.last())); lemma_flat_push(q, p.last()); assert(s.last().enc(p.last())); lemma_byte(s.last()); assert(s =~= t + seq![s.last()]);
    }
}
%%raw
#[verifier::external_body] pub struct Fr { x: u8 }
pub uninterp spec fn canon_fr(x: Fr) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_fr(a: Fr, b: Fr) ensures canon_fr(a).len() == 32, canon_fr(a) == canon_fr(b) ==> a == b { }
pub struct FrRepr { pub b: [u8; 32] }
impl FrRepr { #[verifier::external_body] pub fn vx_new() -> (r: Self) { FrRepr { b: [0; 32] } } }
impl VxSrc<u8> for FrRepr { open spec fn sv(&self) -> Seq<u8> { self.b@ } fn vx_s(&self) -> (r: &[u8]) { self.b.as_slice() } }
impl VxFill for FrRepr { open spec fn fv(&self) -> Seq<u8> { self.b@ } #[verifier::external_body] fn vx_fill(&mut self, s: &[u8]) { self.b.copy_from_slice(s) } }
pub open spec fn is_fr(o: Option<Fr>, b: Seq<u8>) -> bool { match o { Some(v) => canon_fr(v) == b, None => forall|v: Fr| #[trigger] canon_fr(v) != b } }
impl Fr {
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: FrRepr) ensures r.b@ == canon_fr(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes<B: VxSrc<u8>>(b: &B) -> (r: CtOption<Fr>) requires b.sv().len() == 32 ensures is_fr(r.o, b.sv()) { unimplemented!() }
}
impl Enc for Fr { open spec fn enc(&self, b: Seq<u8>) -> bool { b == canon_fr(*self) } open spec fn same(&self, o: &Self) -> bool { *self == *o } }
%%fn prover/serdes/src/serdes.rs::Fr::serialize_into
%%as ser_fr
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(this.enc(canon_fr(*this)));
%%fn prover/serdes/src/serdes.rs::Fr::deserialize_from
%%as de_fr
%%opt free 1
ensures get_ok::<Fr, R>(*old(reader), *final(reader), r),
    // only an encoding is read
    r matches Ok(x) ==> starts(old(reader).rem(), canon_fr(x)),
%%entry
assert forall|v: Fr, w: Fr| #![trigger canon_fr(v), canon_fr(w)] canon_fr(v).len() == 32 && (canon_fr(v) == canon_fr(w) ==> v == w) by { axiom_fr(v, w); }
%%raw
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_fr(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_fr(reader) }
}
%%raw
#[verifier::external_body] pub struct G1Affine { x: u8 }
pub uninterp spec fn canon_g1affine(x: G1Affine) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_g1affine(a: G1Affine, b: G1Affine) ensures canon_g1affine(a).len() == 32, canon_g1affine(a) == canon_g1affine(b) ==> a == b { }
pub struct G1AffineRepr { pub b: [u8; 32] }
impl G1AffineRepr { #[verifier::external_body] pub fn vx_new() -> (r: Self) { G1AffineRepr { b: [0; 32] } } }
impl VxSrc<u8> for G1AffineRepr { open spec fn sv(&self) -> Seq<u8> { self.b@ } fn vx_s(&self) -> (r: &[u8]) { self.b.as_slice() } }
impl VxFill for G1AffineRepr { open spec fn fv(&self) -> Seq<u8> { self.b@ } #[verifier::external_body] fn vx_fill(&mut self, s: &[u8]) { self.b.copy_from_slice(s) } }
pub open spec fn is_g1affine(o: Option<G1Affine>, b: Seq<u8>) -> bool { match o { Some(v) => canon_g1affine(v) == b, None => forall|v: G1Affine| #[trigger] canon_g1affine(v) != b } }
impl G1Affine {
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: G1AffineRepr) ensures r.b@ == canon_g1affine(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes<B: VxSrc<u8>>(b: &B) -> (r: CtOption<G1Affine>) requires b.sv().len() == 32 ensures is_g1affine(r.o, b.sv()) { unimplemented!() }
}
impl Enc for G1Affine { open spec fn enc(&self, b: Seq<u8>) -> bool { b == canon_g1affine(*self) } open spec fn same(&self, o: &Self) -> bool { *self == *o } }
%%fn prover/serdes/src/serdes.rs::G1Affine::serialize_into
%%as ser_g1affine
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
axiom_g1affine(*this, *this);
assert forall|b: Seq<u8>| #[trigger] lenc(canon_g1affine(*this), Seq::<u8>::empty(), b) implies this.enc(b) by { lemma_raw(canon_g1affine(*this), b); }
%%fn prover/serdes/src/serdes.rs::G1Affine::deserialize_from
%%as de_g1affine
%%opt free 1
ensures get_ok::<G1Affine, R>(*old(reader), *final(reader), r),
    // only an encoding is read
    r matches Ok(x) ==> starts(old(reader).rem(), canon_g1affine(x)),
%%entry
assert forall|v: G1Affine, w: G1Affine| #![trigger canon_g1affine(v), canon_g1affine(w)] canon_g1affine(v).len() == 32 && (canon_g1affine(v) == canon_g1affine(w) ==> v == w) by { axiom_g1affine(v, w); }
%%raw
impl ExpSerde for G1Affine {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_g1affine(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_g1affine(reader) }
}
%%raw
#[verifier::external_body] pub struct G2Affine { x: u8 }
pub uninterp spec fn canon_g2affine(x: G2Affine) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_g2affine(a: G2Affine, b: G2Affine) ensures canon_g2affine(a).len() == 64, canon_g2affine(a) == canon_g2affine(b) ==> a == b { }
pub struct G2AffineRepr { pub b: [u8; 64] }
impl G2AffineRepr { #[verifier::external_body] pub fn vx_new() -> (r: Self) { G2AffineRepr { b: [0; 64] } } }
impl VxSrc<u8> for G2AffineRepr { open spec fn sv(&self) -> Seq<u8> { self.b@ } fn vx_s(&self) -> (r: &[u8]) { self.b.as_slice() } }
impl VxFill for G2AffineRepr { open spec fn fv(&self) -> Seq<u8> { self.b@ } #[verifier::external_body] fn vx_fill(&mut self, s: &[u8]) { self.b.copy_from_slice(s) } }
pub open spec fn is_g2affine(o: Option<G2Affine>, b: Seq<u8>) -> bool { match o { Some(v) => canon_g2affine(v) == b, None => forall|v: G2Affine| #[trigger] canon_g2affine(v) != b } }
impl G2Affine {
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: G2AffineRepr) ensures r.b@ == canon_g2affine(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes<B: VxSrc<u8>>(b: &B) -> (r: CtOption<G2Affine>) requires b.sv().len() == 64 ensures is_g2affine(r.o, b.sv()) { unimplemented!() }
}
impl Enc for G2Affine { open spec fn enc(&self, b: Seq<u8>) -> bool { b == canon_g2affine(*self) } open spec fn same(&self, o: &Self) -> bool { *self == *o } }
%%fn prover/serdes/src/serdes.rs::G2Affine::serialize_into
%%as ser_g2affine
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
axiom_g2affine(*this, *this);
assert forall|b: Seq<u8>| #[trigger] lenc(canon_g2affine(*this), Seq::<u8>::empty(), b) implies this.enc(b) by { lemma_raw(canon_g2affine(*this), b); }
%%fn prover/serdes/src/serdes.rs::G2Affine::deserialize_from
%%as de_g2affine
%%opt free 1
ensures get_ok::<G2Affine, R>(*old(reader), *final(reader), r),
    // only an encoding is read
    r matches Ok(x) ==> starts(old(reader).rem(), canon_g2affine(x)),
%%entry
assert forall|v: G2Affine, w: G2Affine| #![trigger canon_g2affine(v), canon_g2affine(w)] canon_g2affine(v).len() == 64 && (canon_g2affine(v) == canon_g2affine(w) ==> v == w) by { axiom_g2affine(v, w); }
%%raw
impl ExpSerde for G2Affine {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_g2affine(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_g2affine(reader) }
}

// ==== what #[derive(ExpSerde)] generates (types of every shape the macro knows; expanded by rustc on this run)
%%raw
pub open spec fn cat2<A: Enc, B: Enc>(a: A, c: B, b: Seq<u8>) -> bool { exists|x: Seq<u8>, y: Seq<u8>| #![trigger a.enc(x), c.enc(y)] a.enc(x) && c.enc(y) && b == x + y }
pub open spec fn cat3<A: Enc, B: Enc, C: Enc>(a: A, c: B, e: C, b: Seq<u8>) -> bool { exists|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger a.enc(x), c.enc(y), e.enc(z)] a.enc(x) && c.enc(y) && e.enc(z) && b == x + (y + z) }
pub open spec fn sp3<A: Enc, B: Enc, C: Enc>(a: A, c: B, e: C, b: Seq<u8>, d: Seq<u8>) -> bool {
    exists|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger a.enc(x), c.enc(y), e.enc(z)] a.enc(x) && c.enc(y) && e.enc(z) && b == x + (y + z)
        && starts(d, b) == (starts(d, x) && starts(d.skip(x.len() as int), y) && starts(d.skip(x.len() as int).skip(y.len() as int), z))
        && cut(d, b) == (cut(d, x) || starts(d, x) && (cut(d.skip(x.len() as int), y) || starts(d.skip(x.len() as int), y) && cut(d.skip(x.len() as int).skip(y.len() as int), z)))
        && (starts(d, b) ==> d.skip(b.len() as int) == d.skip(x.len() as int).skip(y.len() as int).skip(z.len() as int))
}
pub proof fn lemma_sp3<A: Enc, B: Enc, C: Enc>(a: A, c: B, e: C, b: Seq<u8>, d: Seq<u8>)
    requires cat3(a, c, e, b)
    ensures sp3(a, c, e, b, d)
{
    let (x, y, z) = choose|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger a.enc(x), c.enc(y), e.enc(z)] a.enc(x) && c.enc(y) && e.enc(z) && b == x + (y + z);
    lemma_split(d, x, y + z);
    lemma_split(d.skip(x.len() as int), y, z);
}
%%item @gen/samples.rs::One bare=1
%%raw
impl Enc for One {
    open spec fn enc(&self, b: Seq<u8>) -> bool { self.a.enc(b) }
    open spec fn same(&self, o: &Self) -> bool { self.a.same(&o.a) }
}
%%fn @gen/samples.rs::One::serialize_into
%%as ser_one
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>| #![trigger this.a.enc(x)] this.a.enc(x) ==> this.enc(x));
%%fn @gen/samples.rs::One::deserialize_from
%%as de_one
%%opt free 1
ensures get_ok::<One, R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: One, b: Seq<u8>| #[trigger] w.enc(b) implies w.a.enc(b) by {  }
%%raw
impl ExpSerde for One {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_one(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_one(reader) }
}
%%item @gen/samples.rs::Two bare=1
%%raw
impl Enc for Two {
    open spec fn enc(&self, b: Seq<u8>) -> bool { cat2(self.b, self.a, b) }
    open spec fn same(&self, o: &Self) -> bool { self.b.same(&o.b) && self.a.same(&o.a) }
}
%%fn @gen/samples.rs::Two::serialize_into
%%as ser_two
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger this.b.enc(x), this.a.enc(y)] this.b.enc(x) && this.a.enc(y) ==> this.enc(x + y));
%%fn @gen/samples.rs::Two::deserialize_from
%%as de_two
%%opt free 1
ensures get_ok::<Two, R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: Two, b: Seq<u8>| #[trigger] w.enc(b) implies sp2(w.b, w.a, b, reader.rem()) by { lemma_sp2(w.b, w.a, b, reader.rem()); }
%%raw
impl ExpSerde for Two {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_two(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_two(reader) }
}
%%item @gen/samples.rs::Three bare=1
%%raw
impl<T: Enc> Enc for Three<T> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { cat3(self.z, self.y, self.x, b) }
    open spec fn same(&self, o: &Self) -> bool { self.z.same(&o.z) && self.y.same(&o.y) && self.x.same(&o.x) }
}
%%fn @gen/samples.rs::Three::serialize_into
%%as ser_three
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger this.z.enc(x), this.y.enc(y), this.x.enc(z)] this.z.enc(x) && this.y.enc(y) && this.x.enc(z) ==> this.enc(x + (y + z)));
%%fn @gen/samples.rs::Three::deserialize_from
%%as de_three
%%opt free 1
ensures get_ok::<Three<T>, R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: Three<T>, b: Seq<u8>| #[trigger] w.enc(b) implies sp3(w.z, w.y, w.x, b, reader.rem()) by { lemma_sp3(w.z, w.y, w.x, b, reader.rem()); }
%%raw
impl<T: ExpSerde> ExpSerde for Three<T> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_three(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_three(reader) }
}
%%item @gen/samples.rs::Deep bare=1
%%raw
impl<T: Enc> Enc for Deep<T> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { cat2(self.head, self.rest, b) }
    open spec fn same(&self, o: &Self) -> bool { self.head.same(&o.head) && self.rest.same(&o.rest) }
}
%%fn @gen/samples.rs::Deep::serialize_into
%%as ser_deep
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger this.head.enc(x), this.rest.enc(y)] this.head.enc(x) && this.rest.enc(y) ==> this.enc(x + y));
%%fn @gen/samples.rs::Deep::deserialize_from
%%as de_deep
%%opt free 1
ensures get_ok::<Deep<T>, R>(*old(reader), *final(reader), r),
%%entry
assert forall|w: Deep<T>, b: Seq<u8>| #[trigger] w.enc(b) implies sp2(w.head, w.rest, b, reader.rem()) by { lemma_sp2(w.head, w.rest, b, reader.rem()); }
%%raw
impl<T: ExpSerde> ExpSerde for Deep<T> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_deep(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_deep(reader) }
}
%%item @gen/samples.rs::Mixed bare=1
%%raw
impl Enc for Mixed {
    open spec fn enc(&self, b: Seq<u8>) -> bool { match *self { Mixed::Empty => 0u32.enc(b), Mixed::Single(p0) => cat2(1u32, p0, b), Mixed::Double(p0, p1) => cat3(2u32, p0, p1, b), Mixed::Named { y: py, x: px } => cat3(3u32, py, px, b), Mixed::Last => 4u32.enc(b) } }
    open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Mixed::Empty, Mixed::Empty) => true, (Mixed::Single(p0), Mixed::Single(q0)) => p0.same(&q0), (Mixed::Double(p0, p1), Mixed::Double(q0, q1)) => p0.same(&q0) && p1.same(&q1), (Mixed::Named { y: py, x: px }, Mixed::Named { y: qy, x: qx }) => py.same(&qy) && px.same(&qx), (Mixed::Last, Mixed::Last) => true, _ => false } }
}
%%fn @gen/samples.rs::Mixed::serialize_into
%%as ser_mixed
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>| #![trigger 0u32.enc(x)] *this is Empty && 0u32.enc(x) ==> this.enc(x));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger 1u32.enc(x), this->Single_0.enc(y)] *this is Single && 1u32.enc(x) && this->Single_0.enc(y) ==> this.enc(x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger 2u32.enc(x), this->Double_0.enc(y), this->Double_1.enc(z)] *this is Double && 2u32.enc(x) && this->Double_0.enc(y) && this->Double_1.enc(z) ==> this.enc(x + (y + z)));
assert(forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger 3u32.enc(x), this->Named_y.enc(y), this->Named_x.enc(z)] *this is Named && 3u32.enc(x) && this->Named_y.enc(y) && this->Named_x.enc(z) ==> this.enc(x + (y + z)));
assert(forall|x: Seq<u8>| #![trigger 4u32.enc(x)] *this is Last && 4u32.enc(x) ==> this.enc(x));
%%fn @gen/samples.rs::Mixed::deserialize_from
%%as de_mixed
%%opt free 1
ensures get_ok::<Mixed, R>(*old(reader), *final(reader), r),
    // an index no variant has is refused
    forall|i: u32, b: Seq<u8>| #[trigger] i.enc(b) && starts(old(reader).rem(), b) && i >= 5 ==> r is Err,
%%entry
lemma_nums::<u32>();
assert forall|w: Mixed, b: Seq<u8>| #[trigger] w.enc(b) && w is Empty implies 0u32.enc(b) by {  }
assert forall|w: Mixed, b: Seq<u8>| #[trigger] w.enc(b) && w is Single implies sp2(1u32, w->Single_0, b, reader.rem()) by { lemma_sp2(1u32, w->Single_0, b, reader.rem()); }
assert forall|w: Mixed, b: Seq<u8>| #[trigger] w.enc(b) && w is Double implies sp3(2u32, w->Double_0, w->Double_1, b, reader.rem()) by { lemma_sp3(2u32, w->Double_0, w->Double_1, b, reader.rem()); }
assert forall|w: Mixed, b: Seq<u8>| #[trigger] w.enc(b) && w is Named implies sp3(3u32, w->Named_y, w->Named_x, b, reader.rem()) by { lemma_sp3(3u32, w->Named_y, w->Named_x, b, reader.rem()); }
assert forall|w: Mixed, b: Seq<u8>| #[trigger] w.enc(b) && w is Last implies 4u32.enc(b) by {  }
%%raw
impl ExpSerde for Mixed {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_mixed(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_mixed(reader) }
}
%%item @gen/samples.rs::Choice bare=1
%%raw
impl<T: Enc> Enc for Choice<T> {
    open spec fn enc(&self, b: Seq<u8>) -> bool { match *self { Choice::Left(p0) => cat2(0u32, p0, b), Choice::Right { only: ponly } => cat2(1u32, ponly, b), Choice::Both(p0, p1) => cat3(2u32, p0, p1, b), Choice::Neither => 3u32.enc(b) } }
    open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Choice::Left(p0), Choice::Left(q0)) => p0.same(&q0), (Choice::Right { only: ponly }, Choice::Right { only: qonly }) => ponly.same(&qonly), (Choice::Both(p0, p1), Choice::Both(q0, q1)) => p0.same(&q0) && p1.same(&q1), (Choice::Neither, Choice::Neither) => true, _ => false } }
}
%%fn @gen/samples.rs::Choice::serialize_into
%%as ser_choice
%%opt free 1
ensures put_ok(*this, *old(writer), *final(writer), r),
%%entry
assert(forall|a: Seq<u8>, x: Seq<u8>, y: Seq<u8>| #![trigger (a + x) + y] (a + x) + y =~= a + (x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger 0u32.enc(x), this->Left_0.enc(y)] *this is Left && 0u32.enc(x) && this->Left_0.enc(y) ==> this.enc(x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>| #![trigger 1u32.enc(x), this->Right_only.enc(y)] *this is Right && 1u32.enc(x) && this->Right_only.enc(y) ==> this.enc(x + y));
assert(forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #![trigger 2u32.enc(x), this->Both_0.enc(y), this->Both_1.enc(z)] *this is Both && 2u32.enc(x) && this->Both_0.enc(y) && this->Both_1.enc(z) ==> this.enc(x + (y + z)));
assert(forall|x: Seq<u8>| #![trigger 3u32.enc(x)] *this is Neither && 3u32.enc(x) ==> this.enc(x));
%%fn @gen/samples.rs::Choice::deserialize_from
%%as de_choice
%%opt free 1
ensures get_ok::<Choice<T>, R>(*old(reader), *final(reader), r),
    // an index no variant has is refused
    forall|i: u32, b: Seq<u8>| #[trigger] i.enc(b) && starts(old(reader).rem(), b) && i >= 4 ==> r is Err,
%%entry
lemma_nums::<u32>();
assert forall|w: Choice<T>, b: Seq<u8>| #[trigger] w.enc(b) && w is Left implies sp2(0u32, w->Left_0, b, reader.rem()) by { lemma_sp2(0u32, w->Left_0, b, reader.rem()); }
assert forall|w: Choice<T>, b: Seq<u8>| #[trigger] w.enc(b) && w is Right implies sp2(1u32, w->Right_only, b, reader.rem()) by { lemma_sp2(1u32, w->Right_only, b, reader.rem()); }
assert forall|w: Choice<T>, b: Seq<u8>| #[trigger] w.enc(b) && w is Both implies sp3(2u32, w->Both_0, w->Both_1, b, reader.rem()) by { lemma_sp3(2u32, w->Both_0, w->Both_1, b, reader.rem()); }
assert forall|w: Choice<T>, b: Seq<u8>| #[trigger] w.enc(b) && w is Neither implies 3u32.enc(b) by {  }
%%raw
impl<T: ExpSerde> ExpSerde for Choice<T> {
    fn serialize_into<W: Write>(&self, writer: &mut W) -> (r: SerdeResult<()>) { ser_choice(self, writer) }
    fn deserialize_from<R: Read>(reader: &mut R) -> (r: SerdeResult<Self>) { de_choice(reader) }
}
