%%raw
/// the operator an ONNX operator name (or accepted alias) stands for
pub open spec fn optab(s: Seq<char>) -> Option<OpType> {
    if s == "Add"@ { Some(OpType::Add) } else
    if s == "Div"@ { Some(OpType::Div) } else
    if s == "Sub"@ { Some(OpType::Sub) } else
    if s == "Mul"@ { Some(OpType::Mul) } else
    if s == "Gemm"@ || s == "Int64Gemm"@ { Some(OpType::Gemm) } else
    if s == "Conv"@ || s == "Int64Conv"@ { Some(OpType::Conv) } else
    if s == "Relu"@ || s == "ReLU"@ || s == "Int64Relu"@ { Some(OpType::Relu) } else
    if s == "MaxPool"@ || s == "Int64MaxPool"@ { Some(OpType::MaxPool) } else
    if s == "BatchNormalization"@ || s == "Int64BatchNormalization"@ { Some(OpType::BatchNormalization) } else
    if s == "Max"@ || s == "Int64Max"@ { Some(OpType::Max) } else
    if s == "Min"@ || s == "Int64Min"@ { Some(OpType::Min) } else
    if s == "Cast"@ { Some(OpType::Cast) } else
    if s == "Clip"@ || s == "Int64Clip"@ { Some(OpType::Clip) } else
    if s == "Exp"@ { Some(OpType::Exp) } else
    if s == "Reshape"@ { Some(OpType::Reshape) } else
    if s == "Flatten"@ { Some(OpType::Flatten) } else
    if s == "Squeeze"@ { Some(OpType::Squeeze) } else
    if s == "Unsqueeze"@ { Some(OpType::Unsqueeze) } else
    if s == "Constant"@ { Some(OpType::Constant) } else
    if s == "Softmax"@ { Some(OpType::Softmax) } else
    if s == "Sigmoid"@ { Some(OpType::Sigmoid) } else
    if s == "Gelu"@ { Some(OpType::Gelu) } else
    if s == "Tile"@ { Some(OpType::Tile) } else
    if s == "Gather"@ { Some(OpType::Gather) } else
    if s == "LayerNormalization"@ { Some(OpType::LayerNormalization) } else
    if s == "Resize"@ { Some(OpType::Resize) } else
    if s == "GridSample"@ { Some(OpType::GridSample) } else
    if s == "Transpose"@ { Some(OpType::Transpose) } else
    if s == "Concat"@ { Some(OpType::Concat) } else
    if s == "Slice"@ { Some(OpType::Slice) } else
    if s == "TopK"@ { Some(OpType::TopK) } else
    if s == "Shape"@ { Some(OpType::Shape) } else
    if s == "Log"@ { Some(OpType::Log) } else
    if s == "Expand"@ { Some(OpType::Expand) } else
    if s == "ReduceMean"@ { Some(OpType::ReduceMean) } else
    if s == "MatMul"@ { Some(OpType::MatMul) } else
    if s == "AveragePool"@ { Some(OpType::AveragePool) } else
    if s == "Pad"@ { Some(OpType::Pad) } else
    if s == "Split"@ { Some(OpType::Split) } else
    if s == "Where"@ { Some(OpType::Where) } else
    if s == "Pow"@ { Some(OpType::Pow) } else
    if s == "Sqrt"@ { Some(OpType::Sqrt) } else
    if s == "Tanh"@ { Some(OpType::Tanh) } else
    if s == "ReduceSum"@ { Some(OpType::ReduceSum) } else
    if s == "Erf"@ { Some(OpType::Erf) } else
    if s == "ConvTranspose"@ { Some(OpType::ConvTranspose) } else
    if s == "LeakyRelu"@ || s == "LeakyReLU"@ { Some(OpType::LeakyRelu) } else
    if s == "Identity"@ { Some(OpType::Identity) } else
    if s == "Neg"@ { Some(OpType::Neg) } else
    if s == "HardSwish"@ || s == "Hardswish"@ { Some(OpType::HardSwish) } else
    if s == "GlobalAveragePool"@ { Some(OpType::GlobalAveragePool) } else
    if s == "InstanceNormalization"@ { Some(OpType::InstanceNormalization) } else
    if s == "GroupNormalization"@ { Some(OpType::GroupNormalization) } else
    if s == "Not"@ { Some(OpType::Not) } else
    if s == "And"@ { Some(OpType::And) } else
    if s == "Equal"@ { Some(OpType::Equal) } else
    if s == "Greater"@ { Some(OpType::Greater) } else
    if s == "Less"@ { Some(OpType::Less) } else
    if s == "ConstantOfShape"@ { Some(OpType::ConstantOfShape) } else
    if s == "Sin"@ { Some(OpType::Sin) } else
    if s == "Cos"@ { Some(OpType::Cos) } else
    if s == "Range"@ { Some(OpType::Range) } else
    if s == "ReduceMax"@ { Some(OpType::ReduceMax) } else
    if s == "ScatterND"@ { Some(OpType::ScatterND) } else
    if s == "GatherElements"@ { Some(OpType::GatherElements) } else
    { None }
}
pub proof fn lemma_names()
    ensures true
{
    reveal_strlit("Add"); reveal_strlit("Div"); reveal_strlit("Sub"); reveal_strlit("Mul"); reveal_strlit("Gemm"); reveal_strlit("Int64Gemm"); reveal_strlit("Conv"); reveal_strlit("Int64Conv"); reveal_strlit("Relu"); reveal_strlit("ReLU"); reveal_strlit("Int64Relu"); reveal_strlit("MaxPool"); reveal_strlit("Int64MaxPool"); reveal_strlit("BatchNormalization"); reveal_strlit("Int64BatchNormalization"); reveal_strlit("Max"); reveal_strlit("Int64Max"); reveal_strlit("Min"); reveal_strlit("Int64Min"); reveal_strlit("Cast"); reveal_strlit("Clip"); reveal_strlit("Int64Clip"); reveal_strlit("Exp"); reveal_strlit("Reshape"); reveal_strlit("Flatten"); reveal_strlit("Squeeze"); reveal_strlit("Unsqueeze"); reveal_strlit("Constant"); reveal_strlit("Softmax"); reveal_strlit("Sigmoid"); reveal_strlit("Gelu"); reveal_strlit("Tile"); reveal_strlit("Gather"); reveal_strlit("LayerNormalization"); reveal_strlit("Resize"); reveal_strlit("GridSample"); reveal_strlit("Transpose"); reveal_strlit("Concat"); reveal_strlit("Slice"); reveal_strlit("TopK"); reveal_strlit("Shape"); reveal_strlit("Log"); reveal_strlit("Expand"); reveal_strlit("ReduceMean"); reveal_strlit("MatMul"); reveal_strlit("AveragePool"); reveal_strlit("Pad"); reveal_strlit("Split"); reveal_strlit("Where"); reveal_strlit("Pow"); reveal_strlit("Sqrt"); reveal_strlit("Tanh"); reveal_strlit("ReduceSum"); reveal_strlit("Erf"); reveal_strlit("ConvTranspose"); reveal_strlit("LeakyRelu"); reveal_strlit("LeakyReLU"); reveal_strlit("Identity"); reveal_strlit("Neg"); reveal_strlit("HardSwish"); reveal_strlit("Hardswish"); reveal_strlit("GlobalAveragePool"); reveal_strlit("InstanceNormalization"); reveal_strlit("GroupNormalization"); reveal_strlit("Not"); reveal_strlit("And"); reveal_strlit("Equal"); reveal_strlit("Greater"); reveal_strlit("Less"); reveal_strlit("ConstantOfShape"); reveal_strlit("Sin"); reveal_strlit("Cos"); reveal_strlit("Range"); reveal_strlit("ReduceMax"); reveal_strlit("ScatterND"); reveal_strlit("GatherElements");
}
pub open spec fn rescales(o: OpType) -> bool {
    o == OpType::Gemm || o == OpType::Conv || o == OpType::BatchNormalization || o == OpType::Mul || o == OpType::MatMul || o == OpType::ConvTranspose
}
