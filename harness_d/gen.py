#!/usr/bin/env python3
"""gen.py REPO OUT: lay out the crate `vhd` in OUT: /repo's serialization crates copied unchanged (their
workspace does not build offline) beside stand-ins for ethnum and halo2curves; the only rewriting is the derive
of `thiserror::Error`, which becomes plain Display/From impls."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, OUT = sys.argv[1], sys.argv[2]


def put(path, text):
    p = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def src(path):
    return open(os.path.join(REPO, path)).read()


def errors(text):
    text = re.sub(r"use thiserror::Error;\n", "", text)
    text = re.sub(r"#\[derive\((Debug, )?(thiserror::)?Error(, Debug)?\)\]", "#[derive(Debug)]", text)
    text = re.sub(r"#\[error\((?:[^()\"]|\"(?:[^\"\\]|\\.)*\"|\([^()]*\))*\)\]\s*", "", text)
    tail = []
    for m in re.finditer(r"pub enum (\w+) \{(.*?)\n\}", text, re.S):
        name, body = m.group(1), m.group(2)
        tail.append(f"impl std::fmt::Display for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{self:?}}\") }} }}\nimpl std::error::Error for {name} {{ }}\n")
        for v in re.finditer(r"(\w+)\(#\[from\] ([\w:]+)\)", body):
            tail.append(f"impl From<{v.group(2)}> for {name} {{ fn from(e: {v.group(2)}) -> Self {{ {name}::{v.group(1)}(e) }} }}\n")
    return re.sub(r"#\[from\] ", "", text) + "\n" + "".join(tail)


def toml(name, deps, extra=""):
    return f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n{extra}[dependencies]\n' + "".join(f"{d}\n" for d in deps)


for n in ("ethnum", "halo2curves"):
    put(f"stubs/{n}/Cargo.toml", toml(n, []))
    put(f"stubs/{n}/src/lib.rs", open(os.path.join(HERE, "stubs", n, "lib.rs")).read())
put("serdes_derive/Cargo.toml", toml("serdes_derive", ['syn = { version = "2", features = ["full"] }', 'quote = "1"', 'proc-macro2 = "1"'], "[lib]\nproc-macro = true\n\n"))
D = "prover/serdes_derive/src/"
for f in sorted(os.listdir(os.path.join(REPO, D))):
    if f.endswith(".rs"):
        put("serdes_derive/src/" + f, src(D + f))
put("serdes/Cargo.toml", toml("serdes", ['ethnum = { path = "../stubs/ethnum" }', 'halo2curves = { path = "../stubs/halo2curves" }', 'serdes_derive = { path = "../serdes_derive" }']))
D = "prover/serdes/src/"
for f in sorted(os.listdir(os.path.join(REPO, D))):
    if f.endswith(".rs"):
        put("serdes/src/" + f, errors(src(D + f)) if f == "error.rs" else src(D + f))
put("samples/Cargo.toml", toml("samples", ['serdes = { path = "../serdes" }'], '[lints.rust]\nunexpected_cfgs = "allow"\n\n'))
put("samples/src/lib.rs", open(os.path.join(HERE, "samples", "lib.rs")).read())
put("src/main.rs", open(os.path.join(HERE, "src", "main.rs")).read())
put("Cargo.toml", '[package]\nname = "vhd"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\nmembers = ["samples", "serdes", "serdes_derive"]\n\n[dependencies]\n'
    'serdes = { path = "serdes" }\nsamples = { path = "samples" }\nethnum = { path = "stubs/ethnum" }\nhalo2curves = { path = "stubs/halo2curves" }\n'
    '\n[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\nincremental = false\n')
