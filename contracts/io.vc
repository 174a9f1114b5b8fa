%%include io_base.vc
%%type std::io::Result<usize> => Result<usize, VErr>
%%type io::Result<usize> => Result<usize, VErr>
%%type io::Result<()> => Result<(), VErr>
%%type std::fs::File => VFile
%%type std::fs::create_dir => vx_create_dir
%%type std::fs::remove_dir => vx_remove_dir
%%type std::fs::remove_file => vx_remove_file
%%type std::fs::write => vx_fs_write
%%type PathBuf => Path
%%type file.metadata().ok() => vx_meta(&file)
%%type e.kind() == io::ErrorKind::Interrupted => vx_interrupted(&e)
%%type e.kind() == std::io::ErrorKind::Interrupted => vx_interrupted(&e)
%%type impl AsRef<Path> => impl VAsRef
%%type Box<dyn Read> => AnyRead
%%type Box::new( => vx_any(
%%type zstd::stream::write::Encoder<'static, BufWriter<VFile>> => Encoder<BufWriter<VFile>>
%%type zstd::stream::write::Encoder => Encoder
%%type Cow<'_, [u8]> => Cow<'_>
%%type crate::serialize_to_file => serialize_to_file
%%type crate::deserialize_from_file => deserialize_from_file
%%type std::io::Cursor => Cursor
%%type std::io::copy => vx_copy
%%type std::io::sink => vx_sink
%%type io::Cursor => Cursor
%%type anyhow::Error => VErr
%%type envelope::parse_header => parse_header
%%type envelope::detect_format => detect_format
%%type envelope::verify_crc => verify_crc
%%type envelope::write_envelope => write_envelope
%%type flags.to_le_bytes() => flags.vx_to_le()
%%type (payload.len() as u64).to_le_bytes() => (payload.len() as u64).vx_to_le()
%%type crc.to_le_bytes() => crc.vx_to_le()
%%type magic == ZSTD_MAGIC => vx_seq_eq(&magic, &ZSTD_MAGIC)
%%type ZSTD_MAGIC == magic => vx_seq_eq(&magic, &ZSTD_MAGIC)
%%type downcast_ref::<std::io::Error>() => as_io()
%%type std::io::ErrorKind => IoKind
%%type io::ErrorKind => IoKind
%%item rust/jstprove_io/src/envelope.rs::ENVELOPE_MAGIC
%%item rust/jstprove_io/src/envelope.rs::ENVELOPE_HEADER_LEN
%%item rust/jstprove_io/src/envelope.rs::FLAG_ZSTD
%%item rust/jstprove_io/src/envelope.rs::ZSTD_MAGIC
%%item rust/jstprove_io/src/envelope.rs::EnvelopeHeader
%%item rust/jstprove_io/src/envelope.rs::DetectedFormat
%%item rust/jstprove_io/src/compress.rs::ZSTD_COMPRESSION_LEVEL
%%item rust/jstprove_io/src/lib.rs::Crc32cReader
%%item rust/jstprove_io/src/compress.rs::MaybeCompressed
%%item rust/jstprove_io/src/version.rs::ArtifactVersion
%%item rust/jstprove_io/src/bundle.rs::BundleManifest
%%item rust/jstprove_io/src/bundle.rs::BundleBlobs
%%item rust/jstprove_io/src/bundle.rs::WriteGuard
%%item rust/jstprove_io/src/bundle.rs::CIRCUIT_FILENAME
%%item rust/jstprove_io/src/bundle.rs::WITNESS_SOLVER_FILENAME
%%item rust/jstprove_io/src/bundle.rs::MANIFEST_FILENAME
%%item rust/jstprove_io/src/bundle.rs::VK_FILENAME
%%raw
// ---- the artifact format -----------------------------------------------------------------------
pub open spec fn head(flags: int, p: Seq<u8>) -> Seq<u8> { emagic() + le_enc(flags, 4) + le_enc(p.len() as int, 8) + le_enc(crc_of(p) as int, 4) }
pub open spec fn env(flags: int, p: Seq<u8>) -> Seq<u8> { head(flags, p) + p }
pub open spec fn h_flags(d: Seq<u8>) -> u32 { le_val(d.subrange(4, 8)) as u32 }
pub open spec fn h_len(d: Seq<u8>) -> int { le_val(d.subrange(8, 16)) }
pub open spec fn h_crc(d: Seq<u8>) -> int { le_val(d.subrange(16, 20)) }
pub open spec fn h_comp(d: Seq<u8>) -> bool { h_flags(d) & 1u32 != 0 }
/// payload of an intact envelope
pub open spec fn payload(d: Seq<u8>) -> Option<Seq<u8>> {
    if d.len() < 20 || d.len() - 20 < h_len(d) { None }
    else { let p = d.subrange(20, 20 + h_len(d)); if crc_of(p) != h_crc(d) { None } else { Some(p) } }
}
pub open spec fn unz<T>(s: Seq<u8>) -> Option<T> { match zdec(s) { Some(m) => mp_dec::<T>(m), None => None } }
/// the value an artifact stands for
pub open spec fn art<T>(d: Seq<u8>) -> Option<T> {
    if starts(d, emagic()) { match payload(d) { Some(p) => if h_comp(d) { unz::<T>(p) } else { mp_dec::<T>(p) }, None => None } }
    else if starts(d, zmagic()) { unz::<T>(d) } else { mp_dec::<T>(d) }
}
/// every compressed part of the artifact is a complete sequence of frames
pub open spec fn framed(d: Seq<u8>) -> bool {
    if starts(d, emagic()) { payload(d) is Some && h_comp(d) ==> zdec(payload(d)->0) is Some } else { starts(d, zmagic()) ==> zdec(d) is Some }
}
pub proof fn lemma_le_bound(s: Seq<u8>) ensures 0 <= le_val(s) < pow256(s.len()) decreases s.len()
{ if s.len() > 0 { lemma_le_bound(s.skip(1)); } }
pub proof fn lemma_head(d: Seq<u8>) requires d.len() >= 20 ensures 0 <= h_len(d) < 0x1_0000_0000_0000_0000, 0 <= h_crc(d) < 0x1_0000_0000
{ lemma_pow256(); lemma_le_bound(d.subrange(8, 16)); lemma_le_bound(d.subrange(16, 20)); lemma_le_bound(d.subrange(4, 8)); }
pub proof fn lemma_env(flags: int, p: Seq<u8>)
    requires 0 <= flags < 0x1_0000_0000, p.len() < 0x1_0000_0000_0000_0000
    ensures head(flags, p).len() == 20, starts(env(flags, p), emagic()), payload(env(flags, p)) == Some(p), h_flags(env(flags, p)) == flags
{
    lemma_pow256();
    lemma_le(flags, 4); lemma_le(p.len() as int, 8); lemma_le(crc_of(p) as int, 4);
    let d = env(flags, p);
    assert(d.take(4) =~= emagic());
    assert(d.subrange(4, 8) =~= le_enc(flags, 4));
    assert(d.subrange(8, 16) =~= le_enc(p.len() as int, 8));
    assert(d.subrange(16, 20) =~= le_enc(crc_of(p) as int, 4));
    assert(d.subrange(20, 20 + p.len() as int) =~= p);
}
/// what serialisation writes
pub open spec fn file_of<T>(v: T, compress: bool) -> Seq<u8> { if compress { env(1, zenc(mp_enc(v), 3)) } else { env(0, mp_enc(v)) } }
/// I01: whatever was written reads back
pub proof fn lemma_roundtrip<T>(v: T, compress: bool)
    requires faithful(v), mp_enc(v).len() < 0x1_0000_0000_0000_0000, zenc(mp_enc(v), 3).len() < 0x1_0000_0000_0000_0000
    ensures art::<T>(file_of(v, compress)) == Some(v), framed(file_of(v, compress))
{
    axiom_zstd(mp_enc(v), 3);
    lemma_env(1, zenc(mp_enc(v), 3)); lemma_env(0, mp_enc(v));
    assert(1u32 & 1u32 != 0) by(bit_vector); assert(0u32 & 1u32 == 0) by(bit_vector);
}
/// I02: a payload whose checksum is not the stored one, or that is shorter than declared, has no value
pub proof fn lemma_refused<T>(d: Seq<u8>)
    requires starts(d, emagic())
    ensures d.len() < 20 || d.len() - 20 < h_len(d) || crc_of(d.subrange(20, 20 + h_len(d))) != h_crc(d) ==> art::<T>(d) is None
{ }
/// every proper prefix of a written artifact that still shows its magic has no value
pub proof fn lemma_truncated<T>(flags: int, p: Seq<u8>, k: int)
    requires 0 <= flags < 0x1_0000_0000, p.len() < 0x1_0000_0000_0000_0000, 4 <= k < env(flags, p).len()
    ensures art::<T>(env(flags, p).take(k)) is None
{
    lemma_env(flags, p);
    let d = env(flags, p); let e = d.take(k);
    assert(e.take(4) =~= d.take(4));
    if k >= 20 { assert(e.subrange(8, 16) =~= d.subrange(8, 16)); lemma_pow256(); lemma_le(p.len() as int, 8); lemma_le(flags, 4); lemma_le(crc_of(p) as int, 4); assert(d.subrange(8, 16) =~= le_enc(p.len() as int, 8)); }
}
/// the whole declared payload went through the checksum
pub broadcast proof fn lemma_drained<R: Read>(a: Crc32cReader<Take<R>>, b: Crc32cReader<Take<R>>, c: Crc32cReader<Take<R>>, j: nat, k: nat)
    ensures #[trigger] Read::adv(a, b, j) && #[trigger] Read::adv(b, c, k) && k == b.rem().len() ==> c.crc == crc_app(a.crc, a.rem()) && c.inner.n == a.inner.n - a.rem().len()
{
    if <Crc32cReader<Take<R>> as Read>::adv(a, b, j) && <Crc32cReader<Take<R>> as Read>::adv(b, c, k) && k == b.rem().len() {
        <Crc32cReader<Take<R>> as Read>::lemma_adv(a, b, c, j, k);
        assert(a.rem().take((j + k) as int) =~= a.rem());
    }
}
/// facts about the file's text, split at the header
pub proof fn lemma_split(d: Seq<u8>)
    ensures ({ let h = tk(d, 20); let t = d.skip(h.len() as int);
        &&& Seq::<u8>::empty() + h == h && h + t == d
        &&& starts(h, emagic()) == starts(d, emagic()) && starts(h, zmagic()) == starts(d, zmagic())
        &&& h.len() == 20 || h == d
        &&& d.len() >= 20 ==> h_flags(h) == h_flags(d) && h_len(h) == h_len(d) && h_crc(h) == h_crc(d) && 0 <= h_len(d) < 0x1_0000_0000_0000_0000
            && (payload(d) is Some ==> payload(d)->0 == tk(t, h_len(d) as u64))
            && (payload(d) is Some <==> tk(t, h_len(d) as u64).len() == h_len(d) && crc_of(tk(t, h_len(d) as u64)) == h_crc(d))
        &&& d.len() < 20 ==> payload(d) is None })
{
    let h = tk(d, 20); let t = d.skip(h.len() as int);
    assert(Seq::<u8>::empty() + h =~= h); assert(h + t =~= d);
    if h.len() >= 4 { assert(h.take(4) =~= d.take(4)); }
    if d.len() >= 20 {
        lemma_head(d);
        assert(h.subrange(4, 8) =~= d.subrange(4, 8)); assert(h.subrange(8, 16) =~= d.subrange(8, 16)); assert(h.subrange(16, 20) =~= d.subrange(16, 20));
        if d.len() - 20 >= h_len(d) { assert(tk(t, h_len(d) as u64) =~= d.subrange(20, 20 + h_len(d))); }
    }
}
pub enum Cow<'a> { Owned(Vec<u8>), Borrowed(&'a [u8]) }
impl<'a> Cow<'a> { pub open spec fn cv(&self) -> Seq<u8> { match *self { Cow::Owned(v) => v@, Cow::Borrowed(s) => s@ } } }
/// what stored bytes stand for: the content of a zstd frame, else themselves
pub open spec fn unframed(b: Seq<u8>) -> Option<Seq<u8>> { if starts(b, zmagic()) { zdec(b) } else { Some(b) } }
/// what writing `d` stores
pub open spec fn stored(b: Seq<u8>, d: Seq<u8>, compress: bool) -> bool { unframed(b) == Some(d) && (compress ==> b == zenc(d, 3)) }
impl<M> DeserializeOwned for BundleManifest<M> { }
impl<M> Serialize for BundleManifest<M> { }
impl Write for MaybeCompressed {
    open spec fn text(&self) -> Seq<u8> { match *self { MaybeCompressed::Compressed(e) => e.text(), MaybeCompressed::Plain(w) => w.text() } }
    open spec fn dest(&self) -> (Seq<char>, Option<i32>) { match *self { MaybeCompressed::Compressed(e) => e.dest(), MaybeCompressed::Plain(w) => w.dest() } }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, VErr>) { self.write_(buf) }
    fn flush(&mut self) -> (r: Result<(), VErr>) { self.flush_() }
}
impl MaybeCompressed {
    /// bytes the file holds once this writer is finished
    pub open spec fn image(&self) -> Seq<u8> { match self.dest().1 { Some(l) => zenc(self.text(), l), None => self.text() } }
}
// ---- Crc32cReader: the checksum follows the bytes delivered ------------------------------------
impl<R: Read> Read for Crc32cReader<R> {
    open spec fn rem(&self) -> Seq<u8> { self.inner.rem() }
    open spec fn sound(&self) -> bool { self.inner.sound() }
    open spec fn whole(&self) -> bool { self.inner.whole() }
    #[verifier::prophetic] open spec fn adv(pre: Self, post: Self, k: nat) -> bool { R::adv(pre.inner, post.inner, k) && k <= pre.inner.rem().len() && post.crc == crc_app(pre.crc, pre.inner.rem().take(k as int)) }
    #[verifier::prophetic] open spec fn done(&self) -> bool { self.inner.done() }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VErr>) { self.read_crc(buf) }
    proof fn lemma_adv(a: Self, b: Self, c: Self, j: nat, k: nat) {
        R::lemma_adv(a.inner, b.inner, c.inner, j, k);
        if Self::adv(a, b, j) && Self::adv(b, c, k) {
            let s = a.inner.rem();
            axiom_crc(a.crc, s.take(j as int), s.skip(j as int).take(k as int));
            R::lemma_adv(b.inner, c.inner, c.inner, k, 0);
            assert(s.take(j as int) + s.skip(j as int).take(k as int) =~= s.take((j + k) as int));
        }
    }
}
%%fn rust/jstprove_io/src/lib.rs::Crc32cReader as Read::read
%%as read_crc
%%opt impl impl<R: Read> Crc32cReader<R>
ensures
    final(buf)@.len() == old(buf)@.len(), match r {
        Ok(n) => n <= old(buf)@.len() && Self::adv(*old(self), *final(self), n as nat) && n <= (*old(self)).rem().len()
            && final(buf)@.take(n as int) == (*old(self)).rem().take(n as int) && (forall|i: int| 0 <= i < n ==> (*final(buf))@[i] == (*old(self)).rem()[i]) && (n == 0 ==> old(buf)@.len() == 0 || (*old(self)).rem().len() == 0),
        Err(e) => Self::adv(*old(self), *final(self), 0) && !(*old(self)).sound() && !not_found(e) },
%%entry
axiom_crc(self.crc, Seq::empty(), Seq::empty());
assert(self.inner.rem().take(0) =~= Seq::<u8>::empty());
%%fn rust/jstprove_io/src/envelope.rs::write_envelope
requires payload@.len() <= u64::MAX - 20,
ensures r@ == env(if compressed { 1int } else { 0int }, payload@),
%%entry
assert(0u32 | FLAG_ZSTD == FLAG_ZSTD) by (bit_vector);
%%fn rust/jstprove_io/src/envelope.rs::parse_header
ensures match r { Ok(h) => buf@.len() >= 20 && h.compressed == h_comp(buf@) && h.payload_len == h_len(buf@) && h.crc32 == h_crc(buf@), Err(_) => buf@.len() < 20 },
%%fn rust/jstprove_io/src/envelope.rs::verify_crc
ensures r is Ok == (crc_of(payload@) == expected),
%%fn rust/jstprove_io/src/envelope.rs::verify_crc_computed
ensures r is Ok == (actual == expected),
%%fn rust/jstprove_io/src/envelope.rs::detect_format
ensures r == (if starts(data@, emagic()) { DetectedFormat::Envelope } else if starts(data@, zmagic()) { DetectedFormat::LegacyZstd } else { DetectedFormat::RawMsgpack }),
%%entry
assert(ENVELOPE_MAGIC@ =~= emagic()); assert(ZSTD_MAGIC@ =~= zmagic());
assert(ENVELOPE_MAGIC@.is_prefix_of(data@) == starts(data@, emagic())); assert(ZSTD_MAGIC@.is_prefix_of(data@) == starts(data@, zmagic()));
if data@.len() >= 4 { assert(data@.subrange(0, 4) =~= data@.take(4)); }
%%fn rust/jstprove_io/src/compress.rs::compress_bytes
ensures r is Ok ==> r->Ok_0@ == zenc(data@, 3),
%%fn rust/jstprove_io/src/compress.rs::decompress_bytes
ensures match r { Ok(v) => zdec(data@) == Some(v@), Err(_) => zdec(data@) is None },
%%fn rust/jstprove_io/src/lib.rs::serialize_to_bytes
requires mp_enc(*value).len() <= u64::MAX - 20, zenc(mp_enc(*value), 3).len() <= u64::MAX - 20,
ensures r is Ok ==> r->Ok_0@ == file_of(*value, compress),
%%fn rust/jstprove_io/src/lib.rs::deserialize_from_bytes
ensures match r { Ok(v) => art::<T>(data@) == Some(v), Err(_) => art::<T>(data@) is None },
%%entry
if data@.len() >= 20 { lemma_head(data@); assert(data@.skip(20).take(h_len(data@)) == data@.skip(20).take(h_len(data@))); if data@.len() - 20 >= h_len(data@) { assert(data@.skip(20).take(h_len(data@)) =~= data@.subrange(20, 20 + h_len(data@))); assert(data@.subrange(20, data@.len() as int).subrange(0, h_len(data@)) =~= data@.subrange(20, 20 + h_len(data@))); } }
%%fn rust/jstprove_io/src/lib.rs::deserialize_from_file
%%opt use lemma_adv_b, lemma_drained
ensures match r {
    Ok(v) => framed(fs_bytes(path@)) ==> art::<T>(fs_bytes(path@)) == Some(v),
    Err(_) => !fs_sound(path@) || art::<T>(fs_bytes(path@)) is None },
%%entry
let d = fs_bytes(path@); lemma_split(d); axiom_zstream(d);
if d.len() >= 20 { axiom_zstream(tk(d.skip(20), h_len(d) as u64)); }
%%fn rust/jstprove_io/src/lib.rs::read_msgpack_reader
ensures match r { Ok(v) => mp_dec::<T>(reader.rem()) == Some(v), Err(_) => mp_dec::<T>(reader.rem()) is None || !reader.sound() },
%%fn rust/jstprove_io/src/lib.rs::serialize_to_file
requires mp_enc(*value).len() <= u64::MAX - 20, zenc(mp_enc(*value), 3).len() <= u64::MAX - 20,
ensures r is Ok ==> wrote(path@, file_of(*value, compress)) && r->Ok_0 == file_of(*value, compress).len(),
%%fn rust/jstprove_io/src/compress.rs::maybe_compress_bytes
ensures r is Ok ==> stored(r->Ok_0@, data@, compress),
%%entry
axiom_zstd(data@, 3); assert(ZSTD_MAGIC@ =~= zmagic());
%%fn rust/jstprove_io/src/compress.rs::auto_decompress_bytes
%%opt map_result 1
ensures match r { Ok(c) => unframed(data@) == Some(c.cv()), Err(_) => unframed(data@) is None },
%%entry
assert(ZSTD_MAGIC@ =~= zmagic()); if data@.len() >= 4 { assert(data@.subrange(0, 4) =~= data@.take(4)); }
%%fn rust/jstprove_io/src/compress.rs::MaybeCompressed as Write::write
%%as write_
ensures (*final(self)).dest() == (*old(self)).dest(), match r { Ok(n) => n <= buf@.len() && (*final(self)).text() == (*old(self)).text() + buf@.take(n as int), Err(_) => true },
%%fn rust/jstprove_io/src/compress.rs::MaybeCompressed as Write::flush
%%as flush_
ensures (*final(self)).dest() == (*old(self)).dest(), r is Ok ==> (*final(self)).text() == (*old(self)).text() && ((*old(self)).dest().1 is None ==> wrote((*old(self)).dest().0, (*old(self)).text())),
%%fn rust/jstprove_io/src/compress.rs::MaybeCompressed::finish
ensures r is Ok ==> wrote(self.dest().0, self.image()),
%%fn rust/jstprove_io/src/compress.rs::compressed_writer
ensures r is Ok ==> r->Ok_0.text() == Seq::<u8>::empty() && r->Ok_0.dest() == (file.path(), if compress { Some(3i32) } else { None }),
%%fn rust/jstprove_io/src/compress.rs::auto_reader
%%attr #[verifier::exec_allows_no_decreases_clause]
%%opt use lemma_adv_b
ensures match r {
    Ok(b) => b.rem() == (if starts(file.rem(), zmagic()) { zstream(file.rem()) } else { file.rem() }) && b.whole() == (starts(file.rem(), zmagic()) ==> zdec(file.rem()) is Some)
        && (file.sound() && (starts(file.rem(), zmagic()) ==> zdec(file.rem()) is Some) ==> b.sound()),
    Err(e) => !file.sound() && !not_found(e) },
%%entry
assert(ZSTD_MAGIC@ =~= zmagic());
%%loop L0
total <= 4,
magic@.len() == 4,
total <= file.rem().len(),
forall|i: int| 0 <= i < total ==> magic@[i] == file.rem()[i],
reader.rem() == file.rem().skip(total as int),
reader.sound() == file.sound(), reader.whole(),
%%post L0
let d = file.rem();
if total == 4 { assert(magic@ =~= d.take(4)); assert(magic@ + d.skip(4) =~= d); } else { assert(magic@.take(total as int) =~= d); assert(d + d.skip(total as int) =~= d); assert(magic@.subrange(0, total as int) =~= d); }
axiom_zstream(d);
%%fn rust/jstprove_io/src/bundle.rs::write_blob
ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] wrote(path.pv(), b) && stored(b, data@, compress),
%%entry
axiom_zstd(data@, 3); assert(ZSTD_MAGIC@ =~= zmagic()); assert(Seq::<u8>::empty() + data@ =~= data@);
%%fn rust/jstprove_io/src/bundle.rs::read_blob
ensures match r { Ok(v) => fs_exists(path.pv()) && unframed(fs_bytes(path.pv())) == Some(v@), Err(e) => (!fs_sound(path.pv()) || unframed(fs_bytes(path.pv())) is None) && (!fs_exists(path.pv()) == not_found(e)) },
%%entry
axiom_zstream(fs_bytes(path.pv()));

%%raw
// ---- bundles -----------------------------------------------------------------------------------
/// a file whose content stands for `d` was written at `p`
pub open spec fn put(p: Seq<char>, d: Seq<u8>, compress: bool) -> bool { exists|b: Seq<u8>| #[trigger] wrote(p, b) && stored(b, d, compress) }
pub open spec fn manifest<M>(metadata: Option<M>, version: Option<ArtifactVersion>) -> BundleManifest<M> { BundleManifest { metadata, version } }
/// everything `read_bundle` consults is readable and well formed
pub open spec fn blob_ok(p: Seq<char>) -> bool { fs_sound(p) && unframed(fs_bytes(p)) is Some }
pub open spec fn man_ok<M>(p: Seq<char>) -> bool { fs_sound(p) && art::<BundleManifest<M>>(fs_bytes(p)) is Some }
/// the paths recorded by the guard after one more
pub open spec fn noted(a: WriteGuard, b: WriteGuard, p: Seq<char>) -> bool { b.committed == a.committed && b.paths@.len() == a.paths@.len() + 1 && b.paths@.last()@ == p && b.paths@.drop_last() =~= a.paths@ }
/// I04: what was put is what is read
pub proof fn lemma_put(p: Seq<char>, d: Seq<u8>, b: Seq<u8>, compress: bool)
    requires stored(b, d, compress), fs_bytes(p) == b
    ensures unframed(fs_bytes(p)) == Some(d)
{ }
pub proof fn lemma_put_manifest<M>(p: Seq<char>, m: BundleManifest<M>)
    requires faithful(m), mp_enc(m).len() < 0x1_0000_0000_0000_0000, zenc(mp_enc(m), 3).len() < 0x1_0000_0000_0000_0000, fs_bytes(p) == file_of(m, false)
    ensures art::<BundleManifest<M>>(fs_bytes(p)) == Some(m), framed(fs_bytes(p))
{ lemma_roundtrip(m, false); }
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard::new
ensures r.paths@.len() == 0, !r.committed,
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard::create_dir
ensures r is Ok ==> made_dir(p@) && noted(*old(self), *final(self), p@), r is Err ==> *final(self) == *old(self),
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard::write_blob
ensures noted(*old(self), *final(self), path@), r is Ok ==> put(path@, data@, compress),
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard::serialize_to_file
requires mp_enc(*val).len() <= u64::MAX - 20, zenc(mp_enc(*val), 3).len() <= u64::MAX - 20,
ensures noted(*old(self), *final(self), path@), r is Ok ==> wrote(path@, file_of(*val, false)),
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard::commit
%%fn rust/jstprove_io/src/bundle.rs::WriteGuard as Drop::drop
%%as drop_
%%opt impl impl WriteGuard
ensures !old(self).committed ==> forall|i: int| 0 <= i < old(self).paths@.len() ==> undone(#[trigger] old(self).paths@[i]@),
%%loop L0
srcL0@ == old(self).paths@,
forall|i: int| ixL0 <= i < srcL0@.len() ==> undone(#[trigger] srcL0@[i]@),
%%fn rust/jstprove_io/src/bundle.rs::write_bundle
requires mp_enc(manifest(metadata, version)).len() <= u64::MAX - 20, zenc(mp_enc(manifest(metadata, version)), 3).len() <= u64::MAX - 20,
ensures r is Ok ==> made_dir(dir@) && put(pjoin(dir@, "circuit.bin"@), circuit@, compress) && put(pjoin(dir@, "witness_solver.bin"@), witness_solver@, compress)
        && wrote(pjoin(dir@, "manifest.msgpack"@), file_of(manifest(metadata, version), false)),
%%fn rust/jstprove_io/src/bundle.rs::write_bundle_with_vk
requires mp_enc(manifest(metadata, version)).len() <= u64::MAX - 20, zenc(mp_enc(manifest(metadata, version)), 3).len() <= u64::MAX - 20,
ensures r is Ok ==> made_dir(dir@) && put(pjoin(dir@, "circuit.bin"@), circuit@, compress) && put(pjoin(dir@, "witness_solver.bin"@), witness_solver@, compress)
        && (vk matches Some(v) ==> put(pjoin(dir@, "vk.bin"@), v@, compress))
        && wrote(pjoin(dir@, "manifest.msgpack"@), file_of(manifest(metadata, version), false)),
%%fn rust/jstprove_io/src/bundle.rs::read_bundle
ensures match r {
    Ok(b) => unframed(fs_bytes(pjoin(dir@, "circuit.bin"@))) == Some(b.circuit@) && unframed(fs_bytes(pjoin(dir@, "witness_solver.bin"@))) == Some(b.witness_solver@)
        && (match b.vk { Some(v) => fs_exists(pjoin(dir@, "vk.bin"@)) && unframed(fs_bytes(pjoin(dir@, "vk.bin"@))) == Some(v@), None => !fs_exists(pjoin(dir@, "vk.bin"@)) })
        && (framed(fs_bytes(pjoin(dir@, "manifest.msgpack"@))) ==> art::<BundleManifest<M>>(fs_bytes(pjoin(dir@, "manifest.msgpack"@))) == Some(manifest(b.metadata, b.version))),
    Err(_) => !man_ok::<M>(pjoin(dir@, "manifest.msgpack"@)) || !blob_ok(pjoin(dir@, "circuit.bin"@)) || !blob_ok(pjoin(dir@, "witness_solver.bin"@)) || (fs_exists(pjoin(dir@, "vk.bin"@)) && !blob_ok(pjoin(dir@, "vk.bin"@))) },
%%fn rust/jstprove_io/src/bundle.rs::read_circuit_blob
ensures match r { Ok(v) => unframed(fs_bytes(pjoin(dir@, "circuit.bin"@))) == Some(v@), Err(_) => !blob_ok(pjoin(dir@, "circuit.bin"@)) },
%%fn rust/jstprove_io/src/bundle.rs::read_vk_only
ensures match r { Ok(v) => fs_exists(pjoin(dir@, "vk.bin"@)) && unframed(fs_bytes(pjoin(dir@, "vk.bin"@))) == Some(v@), Err(_) => !blob_ok(pjoin(dir@, "vk.bin"@)) },
%%fn rust/jstprove_io/src/bundle.rs::bundle_has_vk
ensures r == fs_exists(pjoin(dir@, "vk.bin"@)),
%%fn rust/jstprove_io/src/bundle.rs::read_bundle_metadata
ensures match r {
    Ok(b) => framed(fs_bytes(pjoin(dir@, "manifest.msgpack"@))) ==> art::<BundleManifest<M>>(fs_bytes(pjoin(dir@, "manifest.msgpack"@))) == Some(manifest(b.0, b.1)),
    Err(_) => !man_ok::<M>(pjoin(dir@, "manifest.msgpack"@)) },
