%%fn rust/jstprove_onnx/src/shape_inference.rs::get_shape
ensures oshape(r) == shp(*shapes, name@),
%%fn rust/jstprove_onnx/src/shape_inference.rs::lookup_constant
ensures r == (match konst(name@, *initializers, *constant_tensors) { Some(t) => Some(&t), None => None::<&TensorData> }),
