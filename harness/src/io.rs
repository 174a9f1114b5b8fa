//! Artifact files (I01-I04): envelope, legacy formats, compression helpers, bundles.
use crate::core::Rng;
use crate::{Cfg, Res};
use jstprove_io as jio;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind { Unit, New(i64), Tup(u8, String), Rec { a: Option<bool>, b: Vec<f64> } }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Doc { name: String, values: Vec<i64>, map: BTreeMap<String, u64>, kinds: Vec<Kind>, opt: Option<Box<Doc>>, raw: Vec<u8> }

fn text(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['a', 'b', '\0', 'é', '☃', 'z', '"', '\u{10FFFF}'])).collect() }
fn size(r: &mut Rng) -> usize {
    match r.u(0, 40) { 0..=14 => r.u(0, 3), 15..=30 => r.u(0, 40), 31..=36 => r.u(200, 3000), 37..=38 => r.u(7000, 20000), 39 => r.u(60000, 70000), _ => r.u(120000, 300000) }
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.u(0, 3) {
        0 => vec![r.next() as u8; n],
        1 => (0..n).map(|i| (i / 7) as u8).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
fn int(r: &mut Rng) -> i64 { match r.u(0, 4) { 0 => r.i(-40, 200), 1 => *r.pick(&[0, -1, i64::MIN, i64::MAX, 127, 128, -32, -33, 255, 256, 65535, 65536]), _ => r.next() as i64 >> r.u(0, 63) } }
fn doc(r: &mut Rng, depth: usize) -> Doc {
    let nv = size(r) / 8;
    Doc {
        name: { let n = r.u(0, 40); text(r, n) },
        values: if r.b() { vec![int(r); nv] } else { (0..nv).map(|_| int(r)).collect() },
        map: (0..r.u(0, 5)).map(|k| (format!("k{k}"), r.next() >> r.u(0, 60))).collect(),
        kinds: (0..r.u(0, 4)).map(|_| match r.u(0, 3) { 0 => Kind::Unit, 1 => Kind::New(int(r)), 2 => Kind::Tup(r.next() as u8, text(r, 3)), _ => Kind::Rec { a: *r.pick(&[None, Some(true), Some(false)]), b: vec![0.5, -1e300, f64::MAX] } }).collect(),
        opt: if depth > 0 && r.b() { Some(Box::new(doc(r, depth - 1))) } else { None },
        raw: { let n = size(r); bytes(r, n) },
    }
}
pub fn quiet<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("{what}: panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}
fn show<T: Debug>(v: &T) -> String { let s = format!("{v:?}"); if s.len() > 300 { format!("{}.. ({} chars)", s.chars().take(300).collect::<String>(), s.len()) } else { s } }
fn hex(b: &[u8]) -> String { let s: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect(); if b.len() > 64 { format!("{s}.. ({} bytes)", b.len()) } else { s } }

/// independent writer of the envelope format (also of envelopes this version would not write itself)
pub fn envelope(payload: &[u8], flags: u32) -> Vec<u8> {
    let mut o = vec![0x4a, 0x53, 0x54, 1];
    for k in 0..4 { o.push((flags >> (8 * k)) as u8); }
    for k in 0..8 { o.push(((payload.len() as u64) >> (8 * k)) as u8); }
    let c = crc32c::crc32c(payload);
    for k in 0..4 { o.push((c >> (8 * k)) as u8); }
    o.extend_from_slice(payload);
    o
}
fn both<T: DeserializeOwned>(dir: &Path, data: &[u8]) -> Result<(anyhow::Result<T>, anyhow::Result<T>), String> {
    let p = dir.join("artifact.bin");
    std::fs::write(&p, data).map_err(|e| e.to_string())?;
    let a = quiet("deserialize_from_bytes", || jio::deserialize_from_bytes::<T>(data))?;
    let b = quiet("deserialize_from_file", || jio::deserialize_from_file::<T>(&p))?;
    Ok((a, b))
}
fn expect<T: DeserializeOwned + Debug + PartialEq>(dir: &Path, data: &[u8], want: &T, what: &str) -> Result<(), String> {
    let (a, b) = both::<T>(dir, data)?;
    for (n, x) in [("deserialize_from_bytes", a), ("deserialize_from_file", b)] {
        match x {
            Ok(v) if v == *want => {}
            Ok(v) => return Err(format!("{n} of {what}\n  bytes {}\n  wrote {}\n  read  {}", hex(data), show(want), show(&v))),
            Err(e) => return Err(format!("{n} refuses {what}: {e:#}\n  bytes {}\n  value {}", hex(data), show(want))),
        }
    }
    Ok(())
}
/// the msgpack text of a value is unique enough to be pinned: named structs
fn one_roundtrip<T: Serialize + DeserializeOwned + Debug + PartialEq>(dir: &Path, v: &T) -> Result<(), String> {
    let mp = rmp_serde::to_vec_named(v).map_err(|e| e.to_string())?;
    for compress in [false, true] {
        let b = quiet("serialize_to_bytes", || jio::serialize_to_bytes(v, compress))?.map_err(|e| format!("serialize_to_bytes({compress}) of {}: {e:#}", show(v)))?;
        let pay = if compress { zstd::decode_all(&b[20.min(b.len())..]).map_err(|e| format!("payload of serialize_to_bytes(compress=true) is no zstd frame: {e}\n {}", hex(&b)))? } else { b[20.min(b.len())..].to_vec() };
        if pay != mp { return Err(format!("serialize_to_bytes(compress={compress}): payload is not the msgpack text of the value\n  value {}\n  bytes {}", show(v), hex(&b))); }
        if b != envelope(&b[20..], compress as u32) { return Err(format!("serialize_to_bytes(compress={compress}): header is not magic, flags, length, checksum (little endian)\n  value {}\n  bytes {}\n  want  {}", show(v), hex(&b), hex(&envelope(&b[20..], compress as u32)))); }
        expect(dir, &b, v, &format!("the artifact just written (compress={compress})"))?;
        let p = dir.join("file.bin");
        let n = quiet("serialize_to_file", || jio::serialize_to_file(v, &p, compress))?.map_err(|e| format!("serialize_to_file({compress}) of {}: {e:#}", show(v)))?;
        let f = std::fs::read(&p).map_err(|e| e.to_string())?;
        if f != b || n != f.len() { return Err(format!("serialize_to_file(compress={compress}) wrote {} bytes and reported {n}; serialize_to_bytes gives {} bytes for {}", f.len(), b.len(), show(v))); }
        let w: T = quiet("deserialize_from_file", || jio::deserialize_from_file(&p))?.map_err(|e| format!("deserialize_from_file of what serialize_to_file(compress={compress}) wrote: {e:#}\n  value {}", show(v)))?;
        if w != *v { return Err(format!("file round trip (compress={compress})\n  wrote {}\n  read  {}", show(v), show(&w))); }
    }
    Ok(())
}
macro_rules! any_value { ($r:expr, $f:ident $(, $a:expr)*) => {{
    let r: &mut Rng = $r;
    match r.u(0, 9) {
        0 => { let v = int(r); $f(&v $(, $a)*)? }
        1 => { let n = r.u(0, 30); let v = text(r, n); $f(&v $(, $a)*)? }
        2 => { let n = size(r); let v = bytes(r, n); $f(&v $(, $a)*)? }
        3 => { let v: Option<u8> = *r.pick(&[None, Some(0), Some(200)]); $f(&v $(, $a)*)? }
        4 => { let v = (r.b(), int(r), "x".to_string()); $f(&v $(, $a)*)? }
        5 => { let v: () = (); $f(&v $(, $a)*)? }
        _ => { let v = doc(r, 2); $f(&v $(, $a)*)? }
    }
}} }
fn each(cfg: &Cfg, salt: u64, f: impl Fn(&mut Rng, &Path) -> Result<(), String>) -> Res {
    let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_003) ^ (salt << 44) ^ c);
        f(&mut r, tmp.path()).map_err(|e| format!("case {c}\n{e}"))?;
    }
    Ok(cfg.cases)
}
pub fn i01(cfg: &Cfg) -> Res {
    each(cfg, 1, |r, d| {
        fn go<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T, d: &Path) -> Result<(), String> { one_roundtrip(d, v) }
        any_value!(r, go, d);
        helpers(r, d)
    })
}
/// byte-level compression helpers and the writer / reader pair
fn helpers(r: &mut Rng, d: &Path) -> Result<(), String> {
    let n = size(r);
    let mut data = bytes(r, n);
    if r.p(30) { let mut m = r.pick(&[vec![0x28u8, 0xb5, 0x2f, 0xfd], vec![0x4a, 0x53, 0x54, 1], vec![0x28, 0xb5, 0x2f], zstd::encode_all(&b"inner"[..], 3).unwrap(), vec![0xfd, 0x2f, 0xb5, 0x28]]).clone(); m.extend(data); data = m; }
    let z = quiet("compress_bytes", || jio::compress_bytes(&data))?.map_err(|e| format!("compress_bytes: {e:#}"))?;
    let back = quiet("decompress_bytes", || jio::decompress_bytes(&z))?.map_err(|e| format!("decompress_bytes(compress_bytes(x)): {e:#}"))?;
    if back != data { return Err(format!("decompress_bytes(compress_bytes(x)) != x for x = {}", hex(&data))); }
    for compress in [false, true] {
        let m = quiet("maybe_compress_bytes", || jio::maybe_compress_bytes(data.clone(), compress))?.map_err(|e| format!("maybe_compress_bytes: {e:#}"))?;
        if m.starts_with(&[0x28, 0xb5, 0x2f, 0xfd]) != (compress || data.starts_with(&[0x28, 0xb5, 0x2f, 0xfd])) { return Err(format!("maybe_compress_bytes(x, {compress}) did not honour the setting\n  x   {}\n  out {}", hex(&data), hex(&m))); }
        let a = quiet("auto_decompress_bytes", || jio::auto_decompress_bytes(&m).map(|c| c.into_owned()))?.map_err(|e| format!("auto_decompress_bytes of maybe_compress_bytes(x, {compress}) for x = {}: {e:#}", hex(&data)))?;
        if a != data { return Err(format!("auto_decompress_bytes(maybe_compress_bytes(x, {compress})) != x\n  x    {}\n  back {}", hex(&data), hex(&a))); }
        let p = d.join("w.bin");
        let w = (|| -> anyhow::Result<()> {
            let mut w = jio::compressed_writer(std::fs::File::create(&p)?, compress)?;
            let mut o = 0;
            while o < data.len() { let k = r.u(1, 9000).min(data.len() - o); w.write_all(&data[o..o + k])?; o += k; if r.p(10) { w.flush()?; } }
            w.finish()?;
            Ok(())
        })();
        if let Err(e) = w { return Err(format!("compressed_writer({compress}): {e:#}")); }
        let f = std::fs::read(&p).unwrap();
        if compress { if zstd::decode_all(&f[..]).ok().as_ref() != Some(&data) { return Err(format!("compressed_writer(true) wrote no zstd frame of its input {}", hex(&data))); } }
        else if f != data { return Err(format!("compressed_writer(false) altered the bytes\n  x    {}\n  file {}", hex(&data), hex(&f))); }
        // what the reader returns for a stored file: the frame's content, or the bytes themselves
        let want = if f.len() >= 4 && f[..4] == [0x28, 0xb5, 0x2f, 0xfd] { if compress { Some(data.clone()) } else { zstd::decode_all(&f[..]).ok() } } else { Some(f.clone()) };
        let got = quiet("auto_reader", || -> anyhow::Result<Vec<u8>> {
            let mut rd = jio::auto_reader(std::fs::File::open(&p)?)?;
            let mut o = vec![];
            let mut buf = [0u8; 777];
            loop { let k = rd.read(&mut buf)?; if k == 0 { break; } o.extend_from_slice(&buf[..k]); }
            Ok(o)
        })?;
        match (want, got) { (Some(x), Ok(y)) if x == y => {} (None, Err(_)) => {} (a, b) => return Err(format!("auto_reader of a file starting {}\n  want {}\n  got  {}", hex(&f), show(&a.map(|v| hex(&v))), show(&b.map(|v| hex(&v)).map_err(|e| format!("{e:#}"))))) }
    }
    Ok(())
}
fn refuse<T: DeserializeOwned + Debug>(d: &Path, data: &[u8], what: &str) -> Result<(), String> {
    let (a, b) = both::<T>(d, data)?;
    for (n, x) in [("deserialize_from_bytes", a), ("deserialize_from_file", b)] {
        if let Ok(v) = x { return Err(format!("{n} accepts {what}\n  bytes {}\n  value {}", hex(data), show(&v))); }
    }
    Ok(())
}
pub fn i02(cfg: &Cfg) -> Res {
    each(cfg, 2, |r, d| {
        fn go<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T, r: &mut Rng, d: &Path) -> Result<(), String> {
            let compress = r.b();
            let good = jio::serialize_to_bytes(v, compress).map_err(|e| e.to_string())?;
            let n = good.len();
            // one burst of at most 32 bits anywhere in payload or checksum: always visible to the checksum
            let mut b = good.clone();
            let at = if r.p(20) { r.u(16, 19) } else if r.p(30) { n - 1 - r.u(0, 9.min(n - 21)) } else { r.u(20, n - 1) };
            let x = r.u(1, 255) as u8;
            b[at] ^= x;
            if at >= 20 && r.b() && at + 1 < n { b[at + 1] ^= r.next() as u8; }
            refuse::<T>(d, &b, &format!("an artifact whose byte {at} was altered by {x:#x} (compress={compress})"))?;
            // truncation at every kind of place
            let k = if r.b() { n - 1 - r.u(0, 12.min(n - 2)) } else { r.u(1, n - 1) };
            if k >= 4 { refuse::<T>(d, &good[..k], &format!("an artifact of {n} bytes cut to {k} (compress={compress})"))?; }
            // declared length too long (checksum of what is there still right)
            let mut b = good.clone();
            let more = *r.pick(&[1u64, 2, 255, 256, 1 << 32, 1 << 40, 1 << 63, u64::MAX - (n as u64 - 20)]);
            let l = (n as u64 - 20).wrapping_add(more);
            b[8..16].copy_from_slice(&l.to_le_bytes());
            refuse::<T>(d, &b, &format!("an artifact declaring {l} payload bytes but carrying {} (compress={compress})", n - 20))?;
            // an otherwise decodable payload with the wrong checksum, under any flags
            let fl = if r.b() { compress as u32 } else { (r.next() as u32 & !1) | compress as u32 };
            let mut b = envelope(&good[20..], fl);
            let right = u32::from_le_bytes([b[16], b[17], b[18], b[19]]);
            let c = match r.u(0, 9) { 0 | 1 => 0, 2 => u32::MAX, 3 => right.swap_bytes(), 4 => !right, 5 => right ^ (1 << r.u(0, 31)), 6 => n as u32 - 20, 7 => crc32c::crc32c(&good), _ => r.next() as u32 };
            if right != c { b[16..20].copy_from_slice(&c.to_le_bytes()); refuse::<T>(d, &b, &format!("an artifact with the foreign checksum {c:#010x} (flags {fl:#x})"))?; }
            // a declared length that leaves out part of the payload, or blanked stretches of it
            let mut b = good.clone();
            let l = r.u(0, n - 21) as u64;
            if crc32c::crc32c(&good[20..20 + l as usize]) != right { b[8..16].copy_from_slice(&l.to_le_bytes()); refuse::<T>(d, &b, &format!("an artifact declaring only {l} of its {} payload bytes (compress={compress})", n - 20))?; }
            let mut b = good.clone();
            let (x, k) = (r.u(20, n - 1), r.u(1, 600));
            let v = *r.pick(&[0u8, 0xff, 0xc0]);
            for y in b.iter_mut().skip(x).take(k) { *y = v; }
            if crc32c::crc32c(&b[20..]) != right { refuse::<T>(d, &b, &format!("an artifact whose bytes {x}.. were overwritten with {v:#x} (compress={compress})"))?; }
            Ok(())
        }
        let mut q = Rng::new(r.next());
        any_value!(r, go, &mut q, d);
        Ok(())
    })
}
pub fn i03(cfg: &Cfg) -> Res {
    each(cfg, 3, |r, d| {
        fn go<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T, r: &mut Rng, d: &Path) -> Result<(), String> {
            let mp = rmp_serde::to_vec_named(v).map_err(|e| e.to_string())?;
            let lvl = *r.pick(&[1, 3, 9]);
            let z = zstd::encode_all(&mp[..], lvl).unwrap();
            expect(d, &z, v, "a legacy zstd artifact")?;
            if !(mp.len() >= 4 && (mp[..4] == [0x28, 0xb5, 0x2f, 0xfd] || mp[..4] == [0x4a, 0x53, 0x54, 1])) {
                expect(d, &mp, v, "a legacy plain msgpack artifact")?;
            }
            expect(d, &envelope(&z, 1), v, "an envelope with compressed payload")?;
            expect(d, &envelope(&mp, 0), v, "an envelope with plain payload")?;
            // reserved flag bits are ignored, trailing bytes after the declared payload too
            let fl = (r.next() as u32) & !1;
            expect(d, &envelope(&z, fl | 1), v, "an envelope with reserved flags")?;
            expect(d, &envelope(&mp, fl), v, "an envelope with reserved flags")?;
            let mut t = envelope(&mp, 0);
            let n = size(r);
            t.extend(bytes(r, n));
            expect(d, &t, v, "an envelope followed by other bytes")?;
            let mut t = envelope(&z, 1);
            let n = size(r);
            t.extend(bytes(r, n));
            expect(d, &t, v, "a compressed envelope followed by other bytes")?;
            // payload larger than the value it starts with: covered by the checksum, ignored by the decoder
            let mut big = mp.clone();
            let n = size(r);
            big.extend(bytes(r, n));
            expect(d, &envelope(&big, 0), v, "an envelope whose payload continues after the value")?;
            // several frames in one compressed payload
            let k = r.u(0, mp.len());
            let mut zz = zstd::encode_all(&mp[..k], 3).unwrap();
            zz.extend(zstd::encode_all(&mp[k..], 3).unwrap());
            expect(d, &envelope(&zz, 1), v, "an envelope with a payload of two frames")?;
            let s = jio::read_msgpack_reader::<T>(&mp[..]).map_err(|e| format!("read_msgpack_reader: {e:#}"))?;
            if s != *v { return Err(format!("read_msgpack_reader: wrote {} read {}", show(v), show(&s))); }
            // any short text: both readers agree
            let n = r.u(0, 26);
            let mut junk = bytes(r, n);
            if r.b() { let m = r.pick(&[vec![0x4au8, 0x53, 0x54, 1], vec![0x4a, 0x53, 0x54, 2], vec![0x4a, 0x53, 0x54], vec![1, 2, 3, 0xfd]]).clone(); for (k, x) in m.into_iter().enumerate() { if k < junk.len() { junk[k] = x; } } }
            let (a, b) = both::<i64>(d, &junk)?;
            if a.as_ref().ok() != b.as_ref().ok() { return Err(format!("readers disagree on {}: bytes {}, file {}", hex(&junk), show(&a), show(&b))); }
            Ok(())
        }
        let mut q = Rng::new(r.next());
        any_value!(r, go, &mut q, d);
        Ok(())
    })
}
// ---- bundles ------------------------------------------------------------------------------------
use jio::bundle::*;
use jio::version::ArtifactVersion;
#[derive(Debug, Clone, PartialEq)]
struct Failing(Doc, bool);
impl Serialize for Failing { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.1 { Err(serde::ser::Error::custom("no")) } else { self.0.serialize(s) } } }
fn blob(r: &mut Rng) -> Vec<u8> {
    let n = size(r);
    let mut data = bytes(r, n);
    match r.u(0, 9) {
        0 => { let mut m = vec![0x28u8, 0xb5, 0x2f, 0xfd]; m.extend(data); data = m; }
        1 => data = zstd::encode_all(&data[..], 3).unwrap(),
        2 => data = envelope(&data, 1),
        3 => data = vec![0x28, 0xb5, 0x2f][..r.u(0, 3)].to_vec(),
        _ => {}
    }
    data
}
extern "C" { fn setrlimit(res: i32, l: *const [u64; 2]) -> i32; fn getrlimit(res: i32, l: *mut [u64; 2]) -> i32; fn signal(n: i32, h: usize) -> usize; }
fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        signal(25, 1);
        let mut old = [0u64; 2];
        getrlimit(1, &mut old);
        setrlimit(1, &[n, old[1]]);
        let t = f();
        setrlimit(1, &old);
        t
    }
}
fn tree(p: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(p) { for e in rd.flatten() { let q = e.path(); let n = e.file_name().to_string_lossy().to_string(); if q.is_dir() { v.push((n.clone(), None)); for (m, c) in tree(&q) { v.push((format!("{n}/{m}"), c)); } } else { v.push((n, std::fs::read(&q).ok())); } } }
    v.sort();
    v
}
pub fn i04(cfg: &Cfg) -> Res {
    each(cfg, 4, |r, tmp| {
        let root = tmp.join("case");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir(&root).map_err(|e| e.to_string())?;
        let dir = root.join("bundle");
        let (circuit, ws) = (blob(r), blob(r));
        let vk = if r.b() { Some(blob(r)) } else { None };
        let meta = if r.b() { Some(Failing(doc(r, 1), false)) } else { None };
        let ver = if r.b() { Some(ArtifactVersion { crate_version: text(r, 5), git_rev: text(r, 9) }) } else { None };
        let compress = r.b();
        let write = |m: Option<Failing>, dir: &Path| -> anyhow::Result<()> {
            if vk.is_none() && circuit.len() % 2 == 0 { write_bundle(dir, &circuit, &ws, m, ver.clone(), compress) } else { write_bundle_with_vk(dir, &circuit, &ws, vk.as_deref(), m, ver.clone(), compress) }
        };
        let ctx = format!("bundle circuit {} solver {} vk {} compress={compress}", hex(&circuit), hex(&ws), vk.as_ref().map_or("-".into(), |v| hex(v)));
        // a write that fails leaves nothing behind and touches nothing that was there
        let mode = r.u(0, 5);
        match mode {
            0 => {
                if quiet("write_bundle", || write(Some(Failing(doc(r, 0), true)), &dir))?.is_ok() { return Err(format!("{ctx}: metadata that cannot be serialised was accepted")); }
                let t = tree(&root);
                if !t.is_empty() { return Err(format!("{ctx}: failed write (metadata) left {:?}", t.iter().map(|x| &x.0).collect::<Vec<_>>())); }
            }
            1 | 2 => {
                let lim = if r.b() { r.u(0, 200) } else { r.u(200, 60000) } as u64;
                let res = with_file_limit(lim, || quiet("write_bundle", || write(meta.clone(), &dir)))?;
                if res.is_err() {
                    let t = tree(&root);
                    if !t.is_empty() { return Err(format!("{ctx}: write that failed after {lim} bytes of a file left {:?}", t.iter().map(|x| &x.0).collect::<Vec<_>>())); }
                } else {
                    match read_bundle::<Doc>(&dir) {
                        Ok(b) if b.circuit == circuit && b.witness_solver == ws && b.vk == vk && b.metadata == meta.clone().map(|f| f.0) => {}
                        Ok(_) => return Err(format!("{ctx}: a write that hit the size limit {lim} reported success; the bundle reads back as something else")),
                        Err(e) => return Err(format!("{ctx}: a write that hit the size limit {lim} reported success; the bundle does not read back: {e:#}")),
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                }
            }
            3 => {
                std::fs::create_dir(&dir).unwrap();
                for n in ["circuit.bin", "other", "manifest.msgpack", "vk.bin"] { if r.b() { std::fs::write(dir.join(n), n).unwrap(); } }
                let before = tree(&root);
                if quiet("write_bundle", || write(meta.clone(), &dir))?.is_ok() { return Err(format!("{ctx}: write into an existing directory was accepted")); }
                if tree(&root) != before { return Err(format!("{ctx}: refused write into an existing directory changed it: {:?} -> {:?}", before.iter().map(|x| &x.0).collect::<Vec<_>>(), tree(&root).iter().map(|x| &x.0).collect::<Vec<_>>())); }
                let _ = std::fs::remove_dir_all(&dir);
            }
            _ => {}
        }
        quiet("write_bundle", || write(meta.clone(), &dir))?.map_err(|e| format!("{ctx}: {e:#}"))?;
        let mut names: Vec<String> = tree(&dir).into_iter().map(|x| x.0).collect();
        names.sort();
        let mut want = vec!["circuit.bin", "manifest.msgpack"];
        if vk.is_some() { want.push("vk.bin"); }
        want.push("witness_solver.bin");
        if names != want { return Err(format!("{ctx}: files {names:?} instead of {want:?}")); }
        let before = tree(&root);
        let b = quiet("read_bundle", || read_bundle::<Doc>(&dir))?.map_err(|e| format!("{ctx}: read_bundle: {e:#}"))?;
        if b.circuit != circuit { return Err(format!("{ctx}: circuit reads back as {}", hex(&b.circuit))); }
        if b.witness_solver != ws { return Err(format!("{ctx}: witness solver reads back as {}", hex(&b.witness_solver))); }
        if b.vk != vk { return Err(format!("{ctx}: verifying key reads back as {:?}", b.vk.map(|v| hex(&v)))); }
        if b.metadata != meta.clone().map(|f| f.0) { return Err(format!("{ctx}: metadata reads back as {}", show(&b.metadata))); }
        let v2 = |v: &Option<ArtifactVersion>| v.as_ref().map(|v| (v.crate_version.clone(), v.git_rev.clone()));
        if v2(&b.version) != v2(&ver) { return Err(format!("{ctx}: version reads back as {:?}", b.version)); }
        let c = quiet("read_circuit_blob", || read_circuit_blob(&dir))?.map_err(|e| format!("{ctx}: read_circuit_blob: {e:#}"))?;
        if c != circuit { return Err(format!("{ctx}: read_circuit_blob gives {}", hex(&c))); }
        let (m, v) = quiet("read_bundle_metadata", || read_bundle_metadata::<Doc>(&dir))?.map_err(|e| format!("{ctx}: read_bundle_metadata: {e:#}"))?;
        if m != meta.map(|f| f.0) || v2(&v) != v2(&ver) { return Err(format!("{ctx}: read_bundle_metadata gives {} {:?}", show(&m), v)); }
        if bundle_has_vk(&dir) != vk.is_some() { return Err(format!("{ctx}: bundle_has_vk is {}", vk.is_none())); }
        match (quiet("read_vk_only", || read_vk_only(&dir))?, &vk) { (Ok(a), Some(b)) if a == *b => {} (Err(e), None) if format!("{e:#}").contains("vk.bin") => {} (g, _) => return Err(format!("{ctx}: read_vk_only gives {}", show(&g.map(|v| hex(&v)).map_err(|e| format!("{e:#}"))))) }
        if tree(&root) != before { return Err(format!("{ctx}: reading changed the bundle")); }
        // a damaged part is reported, never replaced by a default
        if r.p(50) {
            let victim = *r.pick(&want);
            let p = dir.join(victim);
            let f = std::fs::read(&p).unwrap();
            let z = f.len() >= 12 && f[..4] == [0x28, 0xb5, 0x2f, 0xfd];
            if r.p(30) && victim != "vk.bin" {
                std::fs::remove_file(&p).unwrap();
                if quiet("read_bundle", || read_bundle::<Doc>(&dir))?.is_ok() { return Err(format!("{ctx}: read_bundle accepts a bundle without {victim}")); }
            } else if z || victim == "manifest.msgpack" {
                let k = if victim == "manifest.msgpack" { r.u(0, f.len() - 1) } else { r.u(5, f.len() - 1) };
                std::fs::write(&p, &f[..k]).unwrap();
                if let Ok(b) = quiet("read_bundle", || read_bundle::<Doc>(&dir))? { return Err(format!("{ctx}: read_bundle accepts a bundle whose {victim} is cut from {} to {k} bytes (vk present: {})", f.len(), b.vk.is_some())); }
                if victim == "vk.bin" && quiet("read_vk_only", || read_vk_only(&dir))?.is_ok() { return Err(format!("{ctx}: read_vk_only accepts a cut vk.bin")); }
            }
        }
        Ok(())
    })
}
