%%include axes_spec.vc
%%item rust/jstprove_onnx/src/shape_inference.rs::AxesInput
%%fn rust/jstprove_onnx/src/shape_inference.rs::resolve_axes_from_input
ensures
    match inp_ne(*layer, input_idx as int) {
        None => r is Omitted,
        Some(n) => match konst(n, *initializers, *constant_tensors) { Some(t) => r is Resolved && r->Resolved_0@ == td_ints(t), None => r is Unresolved },
    },
