HOOKS = None
NOT_APPLICABLE = []
p("S01", "Convolution and pooling extents follow the sliding-window formula",
  "For every convolution, transposed convolution and pooling layer with positive extents, kernels, strides and dilations, the inferred output extent of each spatial axis is the ONNX sliding-window value for its kernel, stride, dilation and the sum of its two pads, and batch and channel extents are the ones ONNX prescribes. A window larger than the padded input, a padding mode or a rounding mode the formula does not cover is refused with an error, never given a made-up shape.",
  "all input shapes (1 to n spatial axes), kernel shapes, strides, dilations, pads, channel and group counts up to 2^30", TESTS_ONNX, [SI],
  [("sliding window arithmetic", SI + " infer_conv / infer_conv_transpose / infer_pool / spatial_output")], observe=["infer_all_shapes"])
p("S02", "Reshape-like layers preserve the element count and follow the ONNX rules",
  "For every layer that only rearranges a tensor (reshape, flatten, squeeze, unsqueeze, transpose) the inferred output shape has exactly as many elements as the input and is the shape ONNX prescribes for the given target, axis or permutation, including copied and inferred dimensions, negative axes and defaults. Targets, axes or permutations that ONNX forbids (element count mismatch, two inferred dimensions, repeated or out-of-range axes, squeezing an extent other than one) are errors.",
  "all input shapes, targets, axes and permutations up to 2^30 elements", TESTS_ONNX, [SI],
  [("view shapes", SI + " infer_reshape / infer_flatten / infer_squeeze / infer_unsqueeze / infer_transpose")], observe=["infer_all_shapes"])
p("S03", "Element-wise layers use multidirectional broadcasting",
  "For every two-operand element-wise layer, three-operand selection and expand layer, the inferred shape is the ONNX multidirectional broadcast of the operand shapes: right-aligned, each extent the common one with ones stretched. Operands whose extents disagree where neither is one are an error.",
  "all operand ranks and extents up to 2^30", TESTS_ONNX, [SI],
  [("broadcasting", SI + " broadcast_shapes / infer_broadcast_binary / infer_where / infer_expand")], observe=["infer_all_shapes"])
p("S04", "Matrix products get the shape of the product and refuse mismatched operands",
  "For every matrix-product layer the inferred output shape is the one of the product: rows of the left operand, columns of the right operand after the transpositions the layer requests, batch axes broadcast and one-dimensional operands promoted and dropped as ONNX prescribes. Operands whose inner extents differ, or of a rank the layer does not take, are an error.",
  "all operand ranks, extents and transposition flags up to 2^30", TESTS_ONNX, [SI],
  [("matrix products", SI + " infer_gemm / infer_matmul")], observe=["infer_all_shapes"])
p("S05", "Concatenate, split, pad and tile account for every element of their inputs",
  "Concatenation sums the extents along its axis and needs all others equal; splitting gives every declared output a part whose extents along the axis sum to the input extent, as listed or as equal chunks; padding adds both pads of each axis; tiling multiplies each extent by its repeat count. Ranks, axes, counts or sums that do not fit are an error.",
  "all input shapes, numbers of inputs and outputs, axes, pads, repeats up to 2^30", TESTS_ONNX, [SI],
  [("join and cut shapes", SI + " infer_concat / infer_split / infer_pad / infer_tile")], observe=["infer_all_shapes"])
p("S06", "Slicing, gathering and sampling layers get the extents ONNX prescribes",
  "A slice whose starts, ends, axes and steps are constants gets along each listed axis the number of positions ONNX selects after clamping negative and out-of-range bounds, and leaves other axes alone. Gather replaces its axis by the index shape, gather-elements takes the index shape, top-k replaces its axis by k, grid sampling combines the batch and channels of its input with the grid's spatial extents; forbidden axes, steps, ranks or counts are errors.",
  "all input shapes, axes, bounds, steps, index shapes and k up to 2^30", TESTS_ONNX, [SI],
  [("selection shapes", SI + " infer_slice / infer_gather / infer_topk / infer_gridsample")], observe=["infer_all_shapes"])
p("S07", "Reductions and generated tensors get the extents ONNX prescribes",
  "A reduction removes each listed axis (or keeps it as one when keepdims is set, and reduces all axes when none are listed), with negative axes counted from the end. A shape layer yields the number of selected dimensions, constant-of-shape the extents its constant lists, a range the number of steps between its constant limits, a resize the listed sizes or the scaled extents rounded down; forbidden or non-constant parameters are errors.",
  "all input shapes, axes, flags, sizes, scales and range limits up to 2^30", TESTS_ONNX, [SI],
  [("reductions and generators", SI + " infer_reduce / infer_shape_op / infer_constant_of_shape / infer_range / infer_resize")], observe=["infer_all_shapes"])
p("S08", "A constant computed at compile time is the value the layer would compute",
  "Whenever shape inference replaces the output of a shape, gather, gather-elements, slice, concat, squeeze, unsqueeze, reshape or cast layer by a constant, that constant has exactly the values, order, extents and element type which ONNX defines for that layer on those constant inputs. A layer whose inputs are not all constant, or whose attributes it cannot apply, is left unfolded.",
  "all constant inputs (values, extents, element types) and attributes", TESTS_ONNX, [SI],
  [("constant folding", SI + " fold_constants and fold_*")], observe=["infer_all_shapes"])
G = "rust/jstprove_onnx/src/graph.rs"
p("S09", "Shape inference gives every tensor of a model its operator's shape",
  "Starting from the declared inputs, initializers and constants, shape inference visits the layers in data-flow order and applies to each the shape rule of its own operator, using the shapes and compile-time constants of everything computed before it. Element-wise, activation and normalisation layers keep the shape of their first input (gather-elements that of its indices), every output name of every layer is recorded, and computed shapes replace declared ones. A layer whose rule refuses makes the whole inference fail.",
  "all models: any number of layers, any operator mix, any listing order of the nodes", TESTS_ONNX, [SI, G],
  [("dispatch", SI + " infer_layer_output_shape / fold_constants"), ("pass", SI + " infer_all_shapes")], over=("inputs", "histories"), observe=["infer_all_shapes"])
p("G01", "The layer graph mirrors the model and orders layers by data flow",
  "Building the layer graph yields one layer per node with its name, operator, inputs, outputs and attributes unchanged and with exactly the initializers and constants its inputs name as weights. The computed order lists every layer once, with no layer before another one that produces one of its inputs, for any listing order of the nodes; a graph is refused only for an operator name outside the supported set or when no such order exists. Model inputs are the declared ones that are not initializers, with the batch axis dropped and unknown extents one.",
  "all node sets, listing orders, name patterns, aliases and cycles", TESTS_ONNX, [G],
  [("ordering", G + " topological_sort"), ("construction", G + " LayerGraph::from_parsed / OpType::from_str")], over=("inputs", "histories"), observe=["LayerGraph::from_parsed"])
IOL, ENV, CMP, BUN = ("rust/jstprove_io/src/" + x for x in ("lib.rs", "envelope.rs", "compress.rs", "bundle.rs"))
TESTS_IO = "The crate's unit tests round-trip a few small fixed values and damage one or two bytes; the guarantee is over every value, length, byte position and file content."
p("I01", "A saved artifact loads back as the value that was saved",
  "Every value written with the artifact functions, compressed or not, to memory or to a file, is read back as the same value by both readers, provided its own MessagePack encoding is faithful and the payload length fits the header. The written bytes are the documented envelope: four magic bytes, a flag word with the compression bit, the payload length and its CRC-32C in little-endian order, then exactly the payload. The compression helpers and the MessagePack reader return exactly what was put in, also for data that itself looks compressed.",
  "all values, payload lengths and both compression settings", TESTS_IO, [IOL, ENV, CMP],
  [("writing", IOL + " serialize_to_bytes / serialize_to_file; " + ENV + " write_envelope"), ("reading", IOL + " deserialize_from_bytes / deserialize_from_file"), ("compression", CMP + " all functions")], observe=["serialize_to_bytes", "deserialize_from_bytes", "serialize_to_file", "deserialize_from_file"])
p("I02", "A damaged or truncated artifact is refused",
  "An envelope whose payload does not have the stored CRC-32C, or which ends before the declared payload does, is an error from the bytes reader and the file reader, wherever the damage lies and whatever the payload decodes to. In particular every artifact cut short after its magic bytes, and every artifact with a payload, length or checksum changed such that the checksum of the declared payload no longer agrees, is refused rather than read as some value.",
  "all artifact contents, damage positions and truncation points", TESTS_IO, [IOL, ENV],
  [("checksum", ENV + " verify_crc / verify_crc_computed; " + IOL + " Crc32cReader"), ("lengths", ENV + " parse_header; " + IOL + " deserialize_from_bytes / deserialize_from_file")], over=("inputs", "fault_sequences"), observe=["deserialize_from_bytes", "deserialize_from_file"])
p("I03", "The bytes reader and the file reader agree on every file",
  "Whatever a file contains (an envelope, a bare zstd stream, bare MessagePack, any of these cut short, with bytes appended or damaged), reading the file succeeds with a value exactly when reading its bytes does, and with the same value. The reading entry points recognise the format from the first four bytes alone, so legacy artifacts of every length keep loading. Exempt are compressed payloads that are not complete zstd frames and read faults of the file system.",
  "all file contents", TESTS_IO, [IOL, ENV, CMP],
  [("format", ENV + " detect_format"), ("readers", IOL + " deserialize_from_bytes / deserialize_from_file")], observe=["deserialize_from_bytes", "deserialize_from_file"])
p("I04", "A bundle reads back exactly and a failed write leaves nothing behind",
  "After a successful bundle write, reading the bundle yields exactly the circuit, witness solver, verifying key (absent exactly when none was written), metadata and version that were given, and the single-part readers yield the same parts, for all contents and both compression settings. When writing fails at any point, every file and the directory created by that write are removed again and nothing that existed before is touched. A missing or damaged part is an error, never a made-up value; only the verifying key may be absent.",
  "all blob contents and metadata, and every point at which a write can fail", TESTS_IO, [BUN, CMP],
  [("bundle", BUN + " write_bundle_with_vk / read_bundle"), ("clean-up", BUN + " WriteGuard")], over=("inputs", "fault_sequences"), observe=["write_bundle_with_vk", "read_bundle"])
PA = "rust/jstprove_onnx/src/parser.rs"
p("P01", "A parsed model holds exactly what the ONNX file says",
  "Every initializer and tensor attribute of the supported element types is loaded with its name, extents, element type and exactly the values stored in the file, in order, whichever of the raw or typed fields carries them. Every node keeps its name, operator, domain, inputs, outputs and all attributes of the supported kinds with their values (an absent value is the zero of its kind; the last of several of one name counts), every declared input and output its name, element type and extents (minus one where unknown), and the opset is the highest version imported for the default domain. A tensor whose data do not match its extents or whose element type is not supported makes loading fail; nothing else does, once the file decodes.",
  "all decodable model files: any number of tensors, nodes, attributes, extents, data representations", TESTS_ONNX, [PA],
  [("tensors", PA + " extract_tensor_data / parse_initializers"), ("nodes", PA + " parse_nodes / parse_attribute"), ("interface", PA + " parse_value_infos / parse_onnx")], observe=["parse_onnx"])

QZ = "rust/jstprove_onnx/src/quantizer.rs"
TESTS_Q = "The crate's unit tests quantize a few tiny layers with fixed weights; the guarantee is over every graph, every weight tensor and every scale."
p("Q01", "Bit widths chosen by the quantizer cover every value a layer can take",
  "For every layer whose circuit decomposes values into bits, the bit width recorded for it is large enough that the scaled value fits as a signed number, whatever inputs of magnitude at most one the model receives and whatever its constants are: propagated bounds cover worst-case accumulation over weights, bias entries, all operands and stored constants. Layers sharing a name get a width that covers all of them. A model whose bound cannot be established (unknown exponent, overflow) is refused.",
  "all layer graphs, weight values and shapes, and scales (values as exact reals)", TESTS_Q, [QZ],
  [("bound of one layer", QZ + " compute_layer_bound"), ("propagation and width", QZ + " compute_bounds / compute_n_bits / is_range_check_op")], observe=["quantize_model", "QuantizedModel.n_bits_config"])
p("Q02", "A quantized model is the original model at the requested scale",
  "Quantizing changes nothing but what it documents: each planned weight or bias operand becomes the rounded product of its value with the scale to its planned power (one for weights, two for biases) or the model is refused, a five-parameter batch normalisation becomes the equivalent multiply-add, a power of one half becomes a square root, and each layer carries exactly the bit width recorded for its name. A scale chosen for a number of decimal digits resolves that many digits and its square times the largest rescaled accumulation fits the field, otherwise the request is refused. Observed widths replace recorded ones for the named layers only.",
  "all layer graphs, weights, scales, digit counts and field sizes up to 125 bits (values as exact reals)", TESTS_Q, [QZ, "rust/jstprove_onnx/src/ops.rs"],
  [("weights", QZ + " quantize_layer_weights; rust/jstprove_onnx/src/ops.rs get_scale_plan"), ("rewrites", QZ + " fold_batchnorm_params / rewrite_pow_sqrt"), ("scale choice", QZ + " ScaleConfig / compute_max_bound / quantize_model_for_precision")], observe=["quantize_model", "quantize_model_for_precision", "QuantizedModel::apply_observed_n_bits"])
LP = "rust/jstprove_onnx/src/layer_params.rs"
p("L01", "Layer parameters handed to a back end describe the layer or are refused",
  "The parameters extracted from a two-dimensional convolution, max-pooling, matrix-product (Gemm), batch-normalisation or addition layer name the right operands in the right roles and give exactly the kernel, stride, padding, channel, patch and output extents the layer has. A layer with a feature these parameters cannot express (groups, dilation, automatic or pooling padding, ceiling mode, transposed left operand, scaling factors other than one), with missing operands, with channels that disagree with the input or with a window larger than the padded input is refused.",
  "all layers, weight extents, attribute values and input sizes up to 2^30", TESTS_ONNX, [LP],
  [("parameters", LP + " GemmParams / ConvParams / MaxPoolParams / BatchNormParams / AddSubParams ::from_layer")], observe=["layer_params::*::from_layer"])
KC = "rust/jstprove_onnx/src/compat.rs"
p("K01", "Compatibility report and zero-bias rewriting of model files are exact",
  "A model file is reported compatible exactly when it decodes to a graph all of whose named operators are in the supported list, every one of which the layer graph accepts; otherwise the missing operators are listed, each once, in order of first use. Adding zero biases changes nothing but this: every convolution with exactly two inputs whose weight is a stored tensor gets a third input, a new stored tensor of zeros with one entry per output channel and the weight's element type, under a name no other tensor has.",
  "all decodable model files: any nodes, names, initializers", TESTS_ONNX, [KC],
  [("report", KC + " is_compatible / SUPPORTED_OPS"), ("rewriting", KC + " add_zero_bias_to_conv")], observe=["is_compatible", "add_zero_bias_to_conv"])
CF = "rust/jstprove_circuits/src/circuit_functions/"
RG, LU, MM = CF + "gadgets/range_check.rs", "compiler/circuit-std-rs/src/logup.rs", CF + "gadgets/max_min_clip.rs"
TESTS_X = "The circuit crate's own tests prove a few fixed models; what matters is every witness a dishonest prover may choose and every value an honest one may meet, for every width."
SD = "prover/serdes/src/"
p("X01", "A range check in the circuit accepts exactly the values of its width",
  "Whatever values a prover assigns to the circuit's unconstrained variables, a range check of n bits can only be satisfied when the checked value, read as a signed field element, is between 0 and 2^n - 1, and it can always be satisfied for such a value by the prescribed witness. This holds for the lookup-based check at every digit size (single digit, several digits, shifted last digit), for bit decomposition and recomposition, and for every sequence of checks that shares one lookup table.",
  "all widths from 1 to 128 bits, digit sizes, checked values and prover-chosen assignments", TESTS_X, [RG, LU, CF + "hints/bits.rs"],
  [("lookup range check", RG + " LogupRangeCheckContext / range_check_pow2_unsigned"), ("lookup table", LU + " LogUpRangeProofTable"), ("bits", CF + "hints/bits.rs unconstrained_to_bits; " + RG + " constrained_reconstruct_from_bits")], over=("inputs", "programs"), observe=["LogupRangeCheckContext::range_check"])
p("X02", "The circuit's selection and rescaling gadgets force exactly the right result",
  "For every prover-chosen assignment that satisfies the constraints they emit, the ReLU, maximum, minimum, clip, power-of-two or constant division and rescaling gadgets return exactly the mathematical result on the signed values of their operands (rescaling: the floor of the quotient by the scale, ReLU applied when asked). For operands within the declared shift range the prescribed witness satisfies all constraints, so an honest prover is never refused. Shift ranges or scales that do not fit the field or the word size are errors.",
  "all operand values, shift exponents, scales and prover-chosen assignments", TESTS_X, [MM, CF + "gadgets/euclidean_division.rs", CF + "utils/quantization.rs", CF + "hints/max_min_clip.rs"],
  [("selection", MM + " constrained_relu / constrained_max / constrained_min / constrained_clip"), ("division", CF + "gadgets/euclidean_division.rs"), ("rescaling", CF + "utils/quantization.rs rescale")], over=("inputs", "programs"), observe=["constrained_relu", "rescale"])


p("D01", "Proof-system data written with ExpSerde reads back exactly",
  "Writing a number, boolean, string, option, array, vector, pair, map, scalar, curve point or any struct or enum deriving ExpSerde appends its fixed layout (little-endian numbers, 8-byte lengths, fields in declaration order, a 4-byte variant index), and reading from data that starts with such an encoding returns the same value and leaves what follows unread. An encoding cut short, and one naming a variant that does not exist, is refused. Writing fails only when the writer fails, and a failing writer is always reported.",
  "all values of the supported types and all nestings of them, all trailing data, cut points, readers and writers", "The unit tests round-trip a few fixed values of two derived types; field order, lengths, variants and cut points vary with every type the macro is applied to.",
  [SD + "serdes.rs", SD + "macros.rs", "prover/serdes_derive/src/lib.rs"],
  [("built-in types", SD + "serdes.rs impl ExpSerde"), ("numbers and arrays", SD + "macros.rs"), ("derive", "prover/serdes_derive/src/lib.rs serdes_derive")], over=("inputs", "programs"), observe=["serialize_into", "deserialize_from"])