%%include prelude.vc
%%raw
pub type Fl64 = f64;
%%include onnx_core.vc
