%%include prelude.vc
%%raw
// ---- little-endian numbers -------------------------------------------------------------------
pub open spec fn le_val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] as int + 256 * le_val(s.skip(1)) } }
pub open spec fn le_enc(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_enc(v / 256, (n - 1) as nat) } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn lemma_le(v: int, n: nat) requires 0 <= v < pow256(n) ensures le_enc(v, n).len() == n, le_val(le_enc(v, n)) == v decreases n
{
    if n > 0 {
        let t = le_enc(v / 256, (n - 1) as nat);
        assert(v / 256 < pow256((n - 1) as nat)) by(nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_le(v / 256, (n - 1) as nat);
        assert(le_enc(v, n).skip(1) =~= t);
    }
}
pub proof fn lemma_pow256() ensures pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 9); }
pub trait VxLe { spec fn le_int(self) -> int; spec fn le_n() -> nat; fn vx_to_le(self) -> (r: Vec<u8>) ensures r@ == le_enc(self.le_int(), Self::le_n()); }
impl VxLe for u32 {
    open spec fn le_int(self) -> int { self as int } open spec fn le_n() -> nat { 4 }
    #[verifier::external_body] fn vx_to_le(self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() }
}
impl VxLe for u64 {
    open spec fn le_int(self) -> int { self as int } open spec fn le_n() -> nat { 8 }
    #[verifier::external_body] fn vx_to_le(self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() }
}
#[verifier::external_body]
pub fn vx_from_le_u32(s: &[u8]) -> (r: u32) requires s@.len() == 4 ensures r == le_val(s@) { u32::from_le_bytes(s.try_into().unwrap()) }
#[verifier::external_body]
pub fn vx_from_le_u64(s: &[u8]) -> (r: u64) requires s@.len() == 8 ensures r == le_val(s@) { u64::from_le_bytes(s.try_into().unwrap()) }
pub fn vx_seq_eq<A: VxSrc<u8> + ?Sized, B: VxSrc<u8> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sv() == b.sv())
{
    let x = a.vx_s(); let y = b.vx_s();
    if x.len() != y.len() { return false; }
    let mut i = 0usize;
    while i < x.len() invariant i <= x@.len(), x@.len() == y@.len(), x@ == a.sv(), y@ == b.sv(), forall|j: int| 0 <= j < i ==> x@[j] == y@[j] decreases x@.len() - i
    { if x[i] != y[i] { return false; } i = i + 1; }
    proof { assert(x@ =~= y@); }
    true
}
pub open spec fn starts(d: Seq<u8>, p: Seq<u8>) -> bool { d.len() >= p.len() && d.take(p.len() as int) == p }
pub fn vx_starts<A: VxSrc<u8> + ?Sized, B: VxSrc<u8> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == starts(a.sv(), b.sv())
{ let x = a.vx_s(); let y = b.vx_s(); if x.len() < y.len() { false } else { vx_seq_eq(&x[..y.len()], y) } }
// ---- CRC-32C: uninterpreted, with the law of the incremental form (crate crc32c) ----------------
pub uninterp spec fn crc_app(c: u32, s: Seq<u8>) -> u32;
pub open spec fn crc_of(s: Seq<u8>) -> u32 { crc_app(0, s) }
#[verifier::external_body]
pub proof fn axiom_crc(c: u32, a: Seq<u8>, b: Seq<u8>) ensures crc_app(c, Seq::empty()) == c, crc_app(crc_app(c, a), b) == crc_app(c, a + b) { }
pub mod crc32c {
    use super::*;
    #[verifier::external_body]
    pub fn crc32c(d: &[u8]) -> (r: u32) ensures r == crc_of(d@) { 0 }
    #[verifier::external_body]
    pub fn crc32c_append(c: u32, d: &[u8]) -> (r: u32) ensures r == crc_app(c, d@) { 0 }
}
// ---- zstd: uninterpreted, with decode(encode(x)) = x and the frame magic (crate zstd) -----------
pub uninterp spec fn zenc(s: Seq<u8>, level: i32) -> Seq<u8>;
pub uninterp spec fn zdec(s: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn zmagic() -> Seq<u8> { seq![0x28u8, 0xB5, 0x2F, 0xFD] }
pub open spec fn emagic() -> Seq<u8> { seq![74u8, 83, 84, 1] }
#[verifier::external_body]
pub proof fn axiom_zstd(s: Seq<u8>, level: i32) ensures zdec(zenc(s, level)) == Some(s), starts(zenc(s, level), zmagic()) { }
pub mod zstd {
    use super::*;
    #[verifier::external_body]
    pub fn encode_all(d: &[u8], level: i32) -> (r: Result<Vec<u8>, VErr>) ensures r is Ok ==> r->Ok_0@ == zenc(d@, level) { Err(vx_err()) }
    #[verifier::external_body]
    pub fn decode_all(d: &[u8]) -> (r: Result<Vec<u8>, VErr>) ensures match r { Ok(v) => zdec(d@) == Some(v@), Err(_) => zdec(d@) is None } { Err(vx_err()) }
    pub mod stream { pub mod read { use super::super::super::*;
        /// streaming decoder over a reader
        pub struct Decoder<R> { pub r: R }
        impl<R: Read> Decoder<R> {
            #[verifier::external_body]
            pub fn new(r: R) -> (d: Result<Self, VErr>) ensures match d { Ok(d) => d.r == r, Err(e) => !r.sound() && !not_found(e) } { Err(vx_err()) }
        }
        impl<R: Read> Read for Decoder<R> {
            open spec fn rem(&self) -> Seq<u8> { zstream(self.r.rem()) }
            open spec fn sound(&self) -> bool { self.r.sound() && zdec(self.r.rem()) is Some }
            open spec fn whole(&self) -> bool { self.r.whole() && zdec(self.r.rem()) is Some }
            #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
            #[verifier::prophetic] open spec fn done(&self) -> bool { self.r.done() }
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
            #[verifier::external_body]
            proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
        }
    } }
}
// ---- MessagePack: uninterpreted encoding of values (crate rmp-serde) ----------------------------
pub uninterp spec fn mp_enc<T>(v: T) -> Seq<u8>;
pub uninterp spec fn mp_dec<T>(s: Seq<u8>) -> Option<T>;
/// the value survives its own serde implementation (a property of T, not of this code)
pub open spec fn faithful<T>(v: T) -> bool { mp_dec::<T>(mp_enc(v)) == Some(v) }
pub trait Serialize : Sized { }
pub trait DeserializeOwned : Sized { }
pub mod rmp_serde {
    use super::*;
    #[verifier::external_body]
    pub fn to_vec_named<T: Serialize>(v: &T) -> (r: Result<Vec<u8>, VErr>) ensures r is Ok ==> r->Ok_0@ == mp_enc(*v) { Err(vx_err()) }
    #[verifier::external_body]
    pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> (r: Result<T, VErr>) ensures match r { Ok(v) => mp_dec::<T>(s@) == Some(v), Err(_) => mp_dec::<T>(s@) is None } { Err(vx_err()) }
    #[verifier::external_body]
    pub fn from_read<T: DeserializeOwned, R: Read>(rd: R) -> (r: Result<T, VErr>)
        ensures rd.done(), match r { Ok(v) => mp_dec::<T>(rd.rem()) == Some(v), Err(_) => mp_dec::<T>(rd.rem()) is None || !rd.sound() } { Err(vx_err()) }
}
/// what a streaming decoder yields; for a complete frame sequence exactly its content
pub uninterp spec fn zstream(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_zstream(s: Seq<u8>) ensures zdec(s) is Some ==> zdec(s) == Some(zstream(s)) { }
// ---- readers: assumed contract on std::io ------------------------------------------------------
pub trait Read : Sized {
    /// bytes still to be delivered
    spec fn rem(&self) -> Seq<u8>;
    /// no input/output fault will happen
    spec fn sound(&self) -> bool;
    /// everything read through here is well formed up to its end
    spec fn whole(&self) -> bool;
    /// `post` is reached from `pre` by reads that delivered k bytes
    #[verifier::prophetic] spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    /// for a reader given away: readers it borrows have only been advanced by reads
    #[verifier::prophetic] spec fn done(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>)
        ensures final(buf)@.len() == old(buf)@.len(), match r {
            Ok(n) => n <= old(buf)@.len() && Self::adv(*old(self), *final(self), n as nat) && n <= (*old(self)).rem().len()
                && final(buf)@.take(n as int) == (*old(self)).rem().take(n as int) && (forall|i: int| 0 <= i < n ==> (*final(buf))@[i] == (*old(self)).rem()[i]) && (n == 0 ==> old(buf)@.len() == 0 || (*old(self)).rem().len() == 0),
            Err(e) => Self::adv(*old(self), *final(self), 0) && !(*old(self)).sound() && !not_found(e) };
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat)
        ensures Self::adv(a, b, j) ==> j <= a.rem().len() && b.rem() == a.rem().skip(j as int) && b.sound() == a.sound() && b.whole() == a.whole(),
            Self::adv(a, b, j) && Self::adv(b, c, k) ==> Self::adv(a, c, (j + k) as nat);
}
impl<R: Read> Read for &mut R {
    open spec fn rem(&self) -> Seq<u8> { mut_ref_current(*self).rem() }
    open spec fn sound(&self) -> bool { mut_ref_current(*self).sound() }
    open spec fn whole(&self) -> bool { mut_ref_current(*self).whole() }
    #[verifier::prophetic] open spec fn adv(pre: Self, post: Self, k: nat) -> bool { R::adv(mut_ref_current(pre), mut_ref_current(post), k) && mut_ref_future(pre) == mut_ref_future(post) }
    #[verifier::prophetic] open spec fn done(&self) -> bool { exists|k: nat| R::adv(mut_ref_current(*self), mut_ref_future(*self), k) }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { (**self).read(buf) }
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { R::lemma_adv(mut_ref_current(a), mut_ref_current(b), mut_ref_current(c), j, k); }
}
// ---- paths and files (assumed contract on std::path, std::fs) -----------------------------------
#[verifier::external_body] pub struct Path { x: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn pjoin(p: Seq<char>, s: Seq<char>) -> Seq<char>;
impl Path {
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: Path) ensures r@ == pjoin(self@, s@) { Path { x: 0 } }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Path) ensures r@ == self@ { Path { x: 0 } }
    #[verifier::external_body] pub fn clone(&self) -> (r: Path) ensures r@ == self@ { Path { x: 0 } }
    #[verifier::external_body] pub fn is_dir(&self) -> bool { false }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == fs_exists(self@) { false }
}
pub trait VAsRef : Sized { spec fn pv(&self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r@ == self.pv(); }
impl VAsRef for Path { open spec fn pv(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &Path) { self } }
impl VAsRef for &Path { open spec fn pv(&self) -> Seq<char> { (**self)@ } fn as_ref(&self) -> (r: &Path) { *self } }
pub uninterp spec fn fs_exists(p: Seq<char>) -> bool;
/// a path this call created / attempted to remove
pub uninterp spec fn made_dir(p: Seq<char>) -> bool;
pub uninterp spec fn undone(p: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_create_dir(p: &Path) -> (r: Result<(), VErr>) ensures r is Ok ==> made_dir(p@) { Err(vx_err()) }
#[verifier::external_body] pub fn vx_remove_dir(p: &Path) -> (r: Result<(), VErr>) ensures undone(p@) { Err(vx_err()) }
#[verifier::external_body] pub fn vx_remove_file(p: &Path) -> (r: Result<(), VErr>) ensures undone(p@) { Err(vx_err()) }
/// content of the file at a path (while it is being read), and whether reading it works
pub uninterp spec fn fs_bytes(p: Seq<char>) -> Seq<u8>;
pub uninterp spec fn fs_sound(p: Seq<char>) -> bool;
/// the error is an I/O error of kind NotFound
pub uninterp spec fn not_found(e: VErr) -> bool;
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub enum IoKind { NotFound, Interrupted, UnexpectedEof, InvalidData, PermissionDenied, AlreadyExists, Other }
pub struct IoErr { pub k: IoKind }
impl IoErr { pub fn kind(&self) -> (r: IoKind) ensures r == self.k { self.k } }
impl VErr { pub fn into(self) -> (r: VErr) ensures r == self { self }
    #[verifier::external_body] pub fn as_io(&self) -> (r: Option<IoErr>) ensures not_found(*self) == (r matches Some(e) && e.k == IoKind::NotFound) { None } }
pub struct Meta { pub n: u64 }
impl Meta { pub fn len(&self) -> u64 { self.n } }
#[verifier::external_body] pub fn vx_meta(f: &VFile) -> Option<Meta> { None }
#[verifier::external_body] pub fn vx_interrupted(e: &VErr) -> bool { false }
#[verifier::external_body] pub struct VFile { x: u8 }
impl VFile {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: Result<VFile, VErr>)
        ensures match r { Ok(f) => fs_exists(p@) && f.path() == p@ && f.rem() == fs_bytes(p@) && f.sound() == fs_sound(p@), Err(e) => !fs_sound(p@) && (not_found(e) ==> !fs_exists(p@)) && (not_found(e) || fs_exists(p@)) } { Err(vx_err()) }
}
impl Read for VFile {
    uninterp spec fn rem(&self) -> Seq<u8>;
    open spec fn whole(&self) -> bool { true }
    uninterp spec fn sound(&self) -> bool;
    #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    #[verifier::prophetic] open spec fn done(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body]
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R> BufReader<R> { pub uninterp spec fn br(&self) -> R; }
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.br() == r, b.rem() == r.rem(), b.sound() == r.sound() { BufReader { r } }
}
impl<R: Read> Read for BufReader<R> {
    open spec fn whole(&self) -> bool { self.br().whole() }
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    #[verifier::prophetic] open spec fn done(&self) -> bool { self.br().done() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body]
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
}
pub struct Take<R> { pub r: R, pub n: u64 }
impl<R> Take<R> { pub fn limit(&self) -> (n: u64) ensures n == self.n { self.n } }
pub open spec fn tk(s: Seq<u8>, n: u64) -> Seq<u8> { if s.len() <= n { s } else { s.take(n as int) } }
impl<R: Read> Read for Take<R> {
    open spec fn rem(&self) -> Seq<u8> { tk(self.r.rem(), self.n) }
    open spec fn sound(&self) -> bool { self.r.sound() }
    open spec fn whole(&self) -> bool { self.r.whole() }
    #[verifier::prophetic] open spec fn adv(pre: Self, post: Self, k: nat) -> bool { R::adv(pre.r, post.r, k) && post.n == pre.n - k && k <= pre.r.rem().len() }
    #[verifier::prophetic] open spec fn done(&self) -> bool { self.r.done() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) {
        R::lemma_adv(a.r, b.r, c.r, j, k);
        if Self::adv(a, b, j) { assert(b.rem() =~= a.rem().skip(j as int)); R::lemma_adv(b.r, c.r, c.r, k, 0); }
    }
}
/// Box<dyn Read>: which reader it is has been forgotten
#[verifier::external_body] pub struct AnyRead { x: u8 }
#[verifier::external_body]
pub fn vx_any<R: Read>(r: R) -> (b: AnyRead) ensures b.rem() == r.rem(), b.sound() == r.sound(), b.whole() == r.whole(), b.done() ==> r.done() { AnyRead { x: 0 } }
impl Read for AnyRead {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    #[verifier::prophetic] uninterp spec fn done(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body]
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
}
pub struct Cursor<T> { pub t: T }
impl<T> Cursor<T> { pub fn new(t: T) -> (c: Self) ensures c.t == t { Cursor { t } } }
pub struct Chain<A, B> { pub a: A, pub b: B }
impl<A: Read, B: Read> Read for Chain<A, B> {
    open spec fn rem(&self) -> Seq<u8> { self.a.rem() + self.b.rem() }
    open spec fn sound(&self) -> bool { self.a.sound() && self.b.sound() }
    open spec fn whole(&self) -> bool { self.a.whole() && self.b.whole() }
    #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    #[verifier::prophetic] open spec fn done(&self) -> bool { self.a.done() && self.b.done() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body]
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
}
impl<T: VxSrc<u8>> Read for Cursor<T> {
    open spec fn rem(&self) -> Seq<u8> { self.t.sv() }
    open spec fn sound(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    #[verifier::prophetic] uninterp spec fn adv(pre: Self, post: Self, k: nat) -> bool;
    #[verifier::prophetic] open spec fn done(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body]
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) { }
}
/// the provided methods of std::io::Read
pub trait ReadExt : Read {
    fn by_ref(&mut self) -> (r: &mut Self) ensures mut_ref_current(r) == *old(self), mut_ref_future(r) == *final(self) { self }
    fn take(self, n: u64) -> (t: Take<Self>) ensures t.r == self, t.n == n { Take { r: self, n } }
    fn chain<B: Read>(self, b: B) -> (t: Chain<Self, B>) ensures t.a == self, t.b == b { Chain { a: self, b } }
}
impl<R: Read> ReadExt for R { }
pub trait ReadEnd : Read { fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, VErr>)
    ensures match r { Ok(_) => (*old(self)).whole() && final(out)@ == old(out)@ + (*old(self)).rem() && Self::adv(*old(self), *final(self), (*old(self)).rem().len()), Err(e) => !(*old(self)).sound() && !not_found(e) }; }
impl<R: Read> ReadEnd for R {
    #[verifier::external_body]
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, VErr>) { Err(vx_err()) }
}
pub struct Sink { pub x: u8 }
pub fn vx_sink() -> Sink { Sink { x: 0 } }
/// std::io::copy into a sink
#[verifier::external_body]
pub fn vx_copy<R: Read>(r: &mut R, w: &mut Sink) -> (n: Result<u64, VErr>)
    ensures match n { Ok(_) => R::adv(*old(r), *final(r), (*old(r)).rem().len()), Err(_) => !(*old(r)).sound() } { Err(vx_err()) }

pub broadcast proof fn lemma_adv_b<R: Read>(a: R, b: R, j: nat) ensures #[trigger] R::adv(a, b, j) ==> j <= a.rem().len() && b.rem() == a.rem().skip(j as int) && b.sound() == a.sound() && b.whole() == a.whole()
{ R::lemma_adv(a, b, b, j, 0); }
// ---- writers: assumed contract on std::io and the zstd encoder ----------------------------------
/// during the call the file at `p` came to hold exactly `b` (written and flushed)
pub uninterp spec fn wrote(p: Seq<char>, b: Seq<u8>) -> bool;
impl VFile {
    #[verifier::external_body]
    pub fn create(p: &Path) -> (r: Result<VFile, VErr>) ensures r is Ok ==> r->Ok_0.path() == p@ { Err(vx_err()) }
}
#[verifier::external_body]
pub fn vx_fs_write(p: &Path, b: &Vec<u8>) -> (r: Result<(), VErr>) ensures r is Ok ==> wrote(p@, b@) { Err(vx_err()) }
pub trait Write : Sized {
    /// bytes accepted so far
    spec fn text(&self) -> Seq<u8>;
    /// where and how they end up (unchanged by writing)
    spec fn dest(&self) -> (Seq<char>, Option<i32>);
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, VErr>)
        ensures (*final(self)).dest() == (*old(self)).dest(), match r { Ok(n) => n <= buf@.len() && (*final(self)).text() == (*old(self)).text() + buf@.take(n as int), Err(_) => true };
    fn flush(&mut self) -> (r: Result<(), VErr>)
        ensures (*final(self)).dest() == (*old(self)).dest(), r is Ok ==> (*final(self)).text() == (*old(self)).text() && ((*old(self)).dest().1 is None ==> wrote((*old(self)).dest().0, (*old(self)).text()));
}
pub trait WriteAll : Write {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VErr>)
        ensures (*final(self)).dest() == (*old(self)).dest(), r is Ok ==> (*final(self)).text() == (*old(self)).text() + buf@;
}
impl<W: Write> WriteAll for W {
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VErr>) { Err(vx_err()) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<W> { w: W }
impl BufWriter<VFile> {
    #[verifier::external_body]
    pub fn new(f: VFile) -> (w: Self) ensures w.text() == Seq::<u8>::empty(), w.dest() == (f.path(), None::<i32>) { BufWriter { w: f } }
}
impl<W> BufWriter<W> { pub uninterp spec fn to(&self) -> Seq<char>; }
impl Write for BufWriter<VFile> {
    uninterp spec fn text(&self) -> Seq<u8>;
    open spec fn dest(&self) -> (Seq<char>, Option<i32>) { (self.to(), None) }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<(), VErr>) { Err(vx_err()) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct Encoder<W> { w: W }
impl Encoder<BufWriter<VFile>> {
    #[verifier::external_body]
    pub fn new(w: BufWriter<VFile>, level: i32) -> (r: Result<Self, VErr>)
        requires w.text().len() == 0
        ensures r is Ok ==> r->Ok_0.text() == Seq::<u8>::empty() && r->Ok_0.dest() == (w.dest().0, Some(level)) { Err(vx_err()) }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Result<BufWriter<VFile>, VErr>)
        ensures r is Ok ==> r->Ok_0.dest() == (self.dest().0, None::<i32>) && (self.dest().1 is Some ==> r->Ok_0.text() == zenc(self.text(), self.dest().1->0)) { Err(vx_err()) }
}
impl<W> Encoder<W> { pub uninterp spec fn to(&self) -> Seq<char>; pub uninterp spec fn level(&self) -> i32; }
impl Write for Encoder<BufWriter<VFile>> {
    uninterp spec fn text(&self) -> Seq<u8>;
    open spec fn dest(&self) -> (Seq<char>, Option<i32>) { (self.to(), Some(self.level())) }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize, VErr>) { Err(vx_err()) }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<(), VErr>) { Err(vx_err()) }
}
