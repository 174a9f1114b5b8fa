#!/usr/bin/env python3
"""gen.py REPO OUT: lay out the crate `vhx` in OUT. The circuit gadgets' source files are copied
unchanged from REPO (their workspace does not build offline); what they need of crates that cannot be
built here comes from the stand-ins in stubs/. The only rewriting: `mod.rs` files keep the lines naming a
copied module, and the derive of `thiserror::Error` on error enums becomes plain Display/From impls."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, OUT = sys.argv[1], sys.argv[2]
CF = "rust/jstprove_circuits/src/circuit_functions/"
GADGETS = ["range_check", "max_min_clip", "euclidean_division", "chunk_table"]
HINTS = ["bits", "max_min_clip"]

def put(path, text):
    p = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)

def src(path):
    return open(os.path.join(REPO, path)).read()

def filtered(mod, keep):
    text = re.sub(r"//[^\n]*", "", src(mod))
    out = []
    for m in re.finditer(r"(?:pub(?:\([a-z]+\))? )?(mod|use) ([^;]+);", text):
        kind, what = m.group(1), m.group(2)
        first = re.match(r"(?:self::)?(\w+)", what).group(1)
        if first in keep and (kind == "mod" or "::" in what):
            out.append(re.sub(r"^(pub(\([a-z]+\))? )?", "pub ", m.group(0)))
    return "\n".join(out) + "\n"

def errors(text):
    """`#[derive(Debug, Error)]` enums without the derive"""
    text = re.sub(r"use thiserror::Error;\n", "", text)
    text = re.sub(r"use crate::io::[^;]*;\n", "", text)
    text = re.sub(r"#\[derive\((Debug, )?(thiserror::)?Error(, Debug)?\)\]", "#[derive(Debug)]", text)
    text = re.sub(r"#\[error\((?:[^()\"]|\"(?:[^\"\\]|\\.)*\"|\([^()]*\))*\)\]\s*", "", text)
    text = text.replace("#[source]", "")
    tail = []
    for m in re.finditer(r"pub enum (\w+) \{(.*?)\n\}", text, re.S):
        name, body = m.group(1), m.group(2)
        tail.append(f"impl std::fmt::Display for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{self:?}}\") }} }}\nimpl std::error::Error for {name} {{ }}\n")
        for v in re.finditer(r"(\w+)\(#\[from\] ([\w:]+)\)", body):
            tail.append(f"impl From<{v.group(2)}> for {name} {{ fn from(e: {v.group(2)}) -> Self {{ {name}::{v.group(1)}(e) }} }}\n")
    text = re.sub(r"#\[from\] ", "", text)
    text = re.sub(r"[^\n]*OnnxContext[^\n]*\n", "", text)
    return text + "".join(t for t in tail if "OnnxContext" not in t)

def main():
    for d, _, fs in os.walk(os.path.join(HERE, "stubs")):
        for f in fs:
            p = os.path.join(d, f)
            put(os.path.relpath(p, HERE), open(p).read())
    for f in os.listdir(os.path.join(HERE, "src")):
        put("src/" + f, open(os.path.join(HERE, "src", f)).read())
    dep = {"ethnum": [], "rand": [], "arith": ["ethnum", "rand"], "ndarray": [], "rmpv": [], "expander_compiler": ["ethnum", "rand", "arith"],
           "circuit-std-rs": ["ethnum", "rand", "arith", "expander_compiler"]}
    for n, ds in dep.items():
        put(f"stubs/{n}/Cargo.toml", f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' + "".join(f'{x} = {{ path = "../{x}" }}\n' for x in ds))
    put("Cargo.toml", '[package]\nname = "vhx"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n'
        + "".join(f'{x} = {{ path = "stubs/{x}" }}\n' for x in dep)
        + '\n[profile.dev]\nopt-level = 2\ndebug = false\noverflow-checks = true\nincremental = false\n\n[profile.dev.package."*"]\nopt-level = 3\n')
    FE = "compiler/expander_compiler/src/"
    for f in ["frontend/api.rs", "frontend/circuit.rs", "frontend/variables.rs", "hints/builtin.rs", "utils/error.rs"]:
        put("stubs/expander_compiler/src/" + f, src(FE + f))
    for f in ["logup.rs", "traits.rs"]:
        put("stubs/circuit-std-rs/src/" + f, src("compiler/circuit-std-rs/src/" + f))
    o = "src/circuit_functions/"
    put(o + "mod.rs", "pub mod errors;\npub mod gadgets;\npub mod hints;\npub mod layers;\npub mod utils;\npub use errors::CircuitError;\n")
    put(o + "errors.rs", errors(src(CF + "errors.rs")))
    put(o + "gadgets/mod.rs", filtered(CF + "gadgets/mod.rs", GADGETS))
    put(o + "hints/mod.rs", filtered(CF + "hints/mod.rs", HINTS))
    for f in GADGETS:
        put(o + f"gadgets/{f}.rs", src(CF + f"gadgets/{f}.rs"))
    for f in HINTS:
        put(o + f"hints/{f}.rs", src(CF + f"hints/{f}.rs"))
    put(o + "utils/mod.rs", filtered(CF + "utils/mod.rs", ["errors", "quantization"]))
    put(o + "utils/errors.rs", errors(src(CF + "utils/errors.rs")))
    put(o + "utils/quantization.rs", src(CF + "utils/quantization.rs"))
    kinds = sorted(set(re.findall(r"LayerKind::([A-Z]\w*)", "".join(src(CF + f"gadgets/{f}.rs") for f in GADGETS) + src(CF + "utils/quantization.rs"))))
    put(o + "layers/mod.rs", "pub mod errors;\npub use errors::LayerError;\n#[derive(Debug, Clone, PartialEq, Eq)]\npub enum LayerKind { " + ", ".join(kinds) + " }\n"
        "impl std::fmt::Display for LayerKind { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{self:?}\") } }\n")
    put(o + "layers/errors.rs", errors(src(CF + "layers/errors.rs")))

main()
