"""Property table used by check.py: contract units (contracts/*.vc) and harness runs."""


def vh(arg, quick=40000, **k):
    return dict(crate="harness", args=[arg], quick=quick, **k)


def vhx(arg, quick=16000, **k):
    return dict(crate="harness_x", args=[arg], quick=quick, **k)


def vhd(arg, quick=200000, **k):
    return dict(crate="harness_d", args=[arg], quick=quick, **k)


MACHINE = "machine-size side condition: every dimension, rank and attribute value is at most 2^30 and every element count fits 64 bits (stated as requires)"
NOTE = "Every obligation generated from the current source of the named functions is discharged by Verus for all inputs (within the stated machine-size preconditions); the harness replays on the public API and only supplies failing inputs."
IOA = ["assumed contracts on std::io / std::fs (readers deliver a fixed byte sequence, files hold what was written), on the crates zstd and rmp-serde (decode undoes encode; the streaming and the one-shot decoder agree on complete frames) and crc32c (incremental form); fs facts are per call: no concurrent modification"]
QA = ["floating point is modelled as exact real arithmetic: rounding is not modelled, overflow and non-finite results only where the code tests for them (the harness runs the real f64 code with a relative tolerance of 1e-9)", "every stored constant is finite and holds one value per element (checked for decoded tensors by P01)", "monotonicity and sign of exp, sqrt, powf, ln on the reals are assumed facts"]
QNOTE = "Every obligation is discharged by Verus for all models and weights over exact reals; f64 rounding is outside the proof and covered only by the harness."
XA = ["the front end (expander_compiler) is modelled: one arbitrary assignment of field elements to variables; each API call means what its documentation says; hints return what their registered function computes when the prover is honest", "the field is prime and leaves two digits of room above the checked width", "the final LogUp identity (every queried key is a table key) is assumed: it is the random-challenge argument of the lookup, a probabilistic statement", "soundness of widths that are not a whole number of digits is a recorded finding (known-findings.txt)", "the crate ethnum (256-bit integers) is assumed"]
XNOTE = "Every obligation is discharged by Verus for all widths, values and prover-chosen assignments over the functions extracted from /repo; the replay harness compiles the same source files against stand-ins for the unavailable crates and searches for a concrete refused or forged witness."
DA = ["readers deliver a fixed byte string and writers append (assumed contract on std::io); std conversions between numbers or text and bytes, and iteration over a HashMap visiting every entry once, are assumed", "byte conversions of scalars and curve points (halo2curves) and of 256-bit integers (ethnum) are assumed to be canonical", "what the derive macro generates is proved for six sample types covering every shape it knows (named struct, generic struct, where-clause, unit / tuple / named variants), as expanded by rustc on the run; other field counts are bounded by these samples", "keys for which equal means identical (HashMap)"]
DNOTE = "Every obligation is discharged by Verus for all values, nestings, readers and writers over the functions extracted from /repo (declarative macros expanded by the extractor, the derive by rustc); the replay harness compiles the same files against stand-ins for the unavailable crates."
PROPS = {
    "S01": dict(units=["shape_win"], harness=[vh("S01")], assumptions=[MACHINE], note=NOTE),
    "S02": dict(units=["shape_view"], harness=[vh("S02")], assumptions=[MACHINE], note=NOTE),
    "S03": dict(units=["shape_bcast"], harness=[vh("S03")], assumptions=[MACHINE], note=NOTE),
    "S04": dict(units=["shape_mm"], harness=[vh("S04")], assumptions=[MACHINE], note=NOTE),
    "S05": dict(units=["shape_join"], harness=[vh("S05")], assumptions=[MACHINE], note=NOTE),
    "S06": dict(units=["shape_sel"], harness=[vh("S06")], assumptions=[MACHINE], note=NOTE),
    "S07": dict(units=["shape_red"], harness=[vh("S07")], assumptions=[MACHINE], note=NOTE),
    "S08": dict(units=["folds", "folds_sel", "folds_ge"], harness=[vh("S08")], assumptions=[MACHINE, "a decoded constant stores one value per element (checked for decoded tensors by P01)"], note=NOTE),
    "S09": dict(units=["dispatch"], harness=[vh("S09")], assumptions=["initializers are keyed by their own name (what the parser builds)", "the per-operator rules enter as their contracts' names; their obligations are discharged under S01-S08"], note=NOTE),
    "G01": dict(units=["topo", "graph"], harness=[vh("G01", 20000)], assumptions=["assumed contracts on the standard map/set types (listed in the evidence)"], note=NOTE),
    "I01": dict(units=["io"], harness=[vh("I01", 6000)], scope=r"lib\.rs::|envelope\.rs::|compress\.rs::", assumptions=IOA, note=NOTE),
    "I02": dict(units=["io"], harness=[vh("I02", 6000)], scope=r"lib\.rs::(deser|Crc)|envelope\.rs::(parse|verify|detect)|decompress_bytes", assumptions=IOA, note=NOTE),
    "I03": dict(units=["io"], harness=[vh("I03", 6000)], scope=r"lib\.rs::(deser|Crc)|envelope\.rs::(parse|verify|detect)|decompress_bytes", assumptions=IOA, note=NOTE),
    "I04": dict(units=["io"], harness=[vh("I04", 6000)], scope=r"bundle\.rs::|compress\.rs::|lib\.rs::|envelope\.rs::", assumptions=IOA, bounded=["clean-up through Drop when a bundle write fails (guard contents and the drop body are proved; that Rust runs drop is the language's)"], note=NOTE),
    "P01": dict(units=["parser"], harness=[vh("P01", 40000)], assumptions=["file reading and protobuf decoding (std::fs, prost) are assumed: the contracts start at the decoded message, whose vectors are below 2^44 elements", "the generated protobuf structs enter as mirrors with the fields the parser reads", "numbers are assembled from little-endian bytes by the standard library (uninterpreted)"], note=NOTE),
    "L01": dict(units=["params"], harness=[vh("L01")], assumptions=[MACHINE, "alpha and beta as exact reals"], note=NOTE),
    "K01": dict(units=["compat"], harness=[vh("K01", 20000)], assumptions=["std::fs and prost are assumed: a file holds the bytes written, decode undoes encode; the message structs enter as mirrors with the fields the code touches and an opaque rest", "weights have a first extent of at most 2^30", "element sizes: double 8, half and bfloat 2, all others 4 bytes (integer weights of other sizes are outside ONNX Conv)", "termination of the search for an unused name is not proved"], note=NOTE),
    "Q01": dict(units=["bounds", "qshapes"], harness=[vh("Q01", 20000)], assumptions=QA + ["element counts of ReduceSum and of run-time matrix products are the shapes of propagate_shapes, which is proved (unit qshapes) to start from the inputs, weights and constants of the graph and to record for every layer, in the graph's order, what the shape rules proved under S01-S09 say", "element counts fit 64 bits", "for a layer the shape rules refuse, the estimates of propagate_shapes enter as an assumed function that touches only that layer's outputs"], bounded=["the estimates of propagate_shapes for layers the shape rules refuse: compared with true extents by the harness only"], note=QNOTE),
    "Q02": dict(units=["qmodel"], harness=[vh("Q02", 20000)], scope=r"ops\.rs::|quantize_|fold_|rewrite_|ScaleConfig|compute_max_bound|apply_observed", assumptions=QA + ["the scaled operands of one layer (inputs 1 and 2) are different tensors, and no tensor already carries the name of a folded BatchNormalization parameter", "target fields of at most 125 usable bits", "log2(10) and the real logarithm enter through their defining inequalities"], bounded=["the estimates of propagate_shapes for layers the shape rules refuse (accumulation lengths): harness only"], note=QNOTE),
    "X01": dict(units=["logup"], harness=[vhx("X01", thorough=200000)], assumptions=XA, note=XNOTE),
    "X02": dict(units=["gadgets"], harness=[vhx("X02")], assumptions=XA, note=XNOTE),
    "D01": dict(units=["serdes"], harness=[vhd("D01")], assumptions=DA, note=DNOTE),
}
