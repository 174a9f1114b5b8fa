//! Contract files (.vc): line-oriented sections introduced by `%%`.
//!   %%raw                     Verus text copied verbatim (spec functions, lemmas, stubs)
//!   %%type FROM => TO         token-level type/path renaming (documented abstraction)
//!   %%fn FILE::[Type::]name   function under contract; following lines: requires/ensures
//!   %%as NAME                 (after %%fn) name used in the Verus text
//!   %%attr TEXT               (after %%fn) extra attribute
//!   %%entry                   proof text at function entry
//!   %%loop L0                 invariant/decreases for loop L0 (explicit) or A0 (lowered iterator)
//!   %%pre L0 / %%body L0 / %%end L0 / %%post L0   proof text around a loop
//!   %%gpre L0 / %%gbody L0 ..   ghost declarations at the same places (inserted before the proof text)
//!   %%item FILE::NAME         type/const/enum copied from source
//!   %%opt KEY VALUE           per-function option
//!                            (opaque NAME=call: the loop body from `let NAME` on becomes one assumed call, after a purity check)
use std::collections::BTreeMap;
#[derive(Default, Debug, Clone)]
pub struct FnC {
    pub file: String,
    pub path: String,
    pub asname: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<String, String>,
    pub proofs: BTreeMap<String, String>,
    pub opts: BTreeMap<String, String>,
}
#[derive(Debug, Clone)]
pub enum Sec {
    Raw(String),
    Fn(FnC),
    Item { file: String, name: String, opts: BTreeMap<String, String> },
}
#[derive(Default, Debug)]
pub struct Contract {
    pub secs: Vec<Sec>,
    pub types: Vec<(String, String)>,
    pub stubs: Vec<String>,
    pub opts: BTreeMap<String, String>,
}
pub fn parse(path: &str) -> Result<Contract, String> {
    let mut c = Contract::default();
    parse_into(path, &mut c)?;
    Ok(c)
}
fn split_file(s: &str) -> Result<(String, String), String> {
    let k = s.find(".rs::").ok_or_else(|| format!("bad anchor {s}"))?;
    Ok((s[..k + 3].to_string(), s[k + 5..].trim().to_string()))
}
fn parse_into(path: &str, c: &mut Contract) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    enum Cur {
        None,
        Raw,
        FnSpec,
        Entry,
        Loop(String),
        Proof(String),
    }
    let mut cur = Cur::None;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("%%") {
            let (kw, arg) = match rest.find(char::is_whitespace) {
                Some(k) => (&rest[..k], rest[k..].trim()),
                None => (rest, ""),
            };
            match kw {
                "" | "#" => { cur = Cur::None; }
                "include" => {
                    let dir = std::path::Path::new(path).parent().unwrap();
                    parse_into(dir.join(arg).to_str().unwrap(), c)?;
                    cur = Cur::None;
                }
                "raw" => {
                    c.secs.push(Sec::Raw(String::new()));
                    cur = Cur::Raw;
                }
                "type" => {
                    let (a, b) = arg.split_once("=>").ok_or("bad %%type")?;
                    c.types.push((a.trim().into(), b.trim().into()));
                    cur = Cur::None;
                }
                "stub" => {
                    c.stubs.extend(arg.split_whitespace().map(String::from));
                    cur = Cur::None;
                }
                "set" => {
                    let (k, v) = arg.split_once(' ').unwrap_or((arg, "1"));
                    c.opts.insert(k.into(), v.trim().into());
                    cur = Cur::None;
                }
                "fn" => {
                    let (file, p) = split_file(arg)?;
                    c.secs.push(Sec::Fn(FnC { file, path: p, ..Default::default() }));
                    cur = Cur::FnSpec;
                }
                "item" => {
                    let mut it = arg.split_whitespace();
                    let (file, name) = split_file(it.next().ok_or("bad item")?)?;
                    let opts = it.map(|o| { let (k, v) = o.split_once('=').unwrap_or((o, "1")); (k.to_string(), v.to_string()) }).collect();
                    c.secs.push(Sec::Item { file, name, opts });
                    cur = Cur::None;
                }
                _ => {
                    let f = match c.secs.last_mut() {
                        Some(Sec::Fn(f)) => f,
                        _ => return Err(format!("%%{kw} outside %%fn")),
                    };
                    match kw {
                        "as" => f.asname = Some(arg.into()),
                        "attr" => f.attrs.push(arg.into()),
                        "opt" => {
                            let (k, v) = arg.split_once(' ').unwrap_or((arg, "1"));
                            f.opts.insert(k.into(), v.trim().into());
                        }
                        "entry" => cur = Cur::Entry,
                        "loop" => {
                            f.loops.insert(arg.into(), String::new());
                            cur = Cur::Loop(arg.into());
                        }
                        "pre" | "body" | "end" | "post" | "gpre" | "gbody" | "gend" | "gpost" => {
                            let k = format!("{kw}:{arg}");
                            f.proofs.insert(k.clone(), String::new());
                            cur = Cur::Proof(k);
                        }
                        _ => return Err(format!("unknown section %%{kw}")),
                    }
                }
            }
            continue;
        }
        match (&cur, c.secs.last_mut()) {
            (Cur::None, _) => {}
            (Cur::Raw, Some(Sec::Raw(t))) => { t.push_str(line); t.push('\n'); }
            (Cur::FnSpec, Some(Sec::Fn(f))) => { f.spec.push_str(line); f.spec.push('\n'); }
            (Cur::Entry, Some(Sec::Fn(f))) => { f.entry.push_str(line); f.entry.push('\n'); }
            (Cur::Loop(k), Some(Sec::Fn(f))) => { let t = f.loops.get_mut(k).unwrap(); t.push_str(line); t.push('\n'); }
            (Cur::Proof(k), Some(Sec::Fn(f))) => { let t = f.proofs.get_mut(k).unwrap(); t.push_str(line); t.push('\n'); }
            _ => {}
        }
    }
    Ok(())
}
