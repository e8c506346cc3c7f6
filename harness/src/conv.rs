//! Binding between the library's data types and the reference model's values.

use crate::spec::{Inst, SetSpec, E, K, M, V};
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, MemoryBlock, MemoryBlockRead, MemoryBlockResult, RawModule, ReadError};
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstBox, ExtInstSet, Op};
use std::any::Any;
use std::fmt;

pub trait Fld {
    fn v(&self) -> V;
}

impl Fld for OpId {
    fn v(&self) -> V {
        V::Id(self.0)
    }
}
impl Fld for ResultId {
    fn v(&self) -> V {
        V::Id(self.0)
    }
}
impl Fld for u32 {
    fn v(&self) -> V {
        V::Lit(*self)
    }
}
impl Fld for SourceVersion {
    fn v(&self) -> V {
        V::Lit(self.0)
    }
}
impl Fld for MemberIndex {
    fn v(&self) -> V {
        V::Lit(self.0)
    }
}
impl Fld for String {
    fn v(&self) -> V {
        V::Str(self.clone())
    }
}
impl<T: Fld> Fld for Option<T> {
    fn v(&self) -> V {
        match self {
            Some(x) => x.v(),
            None => V::Absent,
        }
    }
}
impl<T: Fld> Fld for Vec<T> {
    fn v(&self) -> V {
        V::List(self.iter().map(|x| x.v()).collect())
    }
}
impl Fld for PhiArg {
    fn v(&self) -> V {
        V::Pair(self.variable.0, self.parent.0, true)
    }
}
impl Fld for BranchWeights {
    fn v(&self) -> V {
        V::Pair(self.true_weight, self.false_weight, false)
    }
}

macro_rules! fld_enum {
    ($ty:ident, $e:expr; $($var:ident = $code:expr),* $(,)*) => {
        impl Fld for $ty {
            #[allow(unreachable_patterns)]
            fn v(&self) -> V {
                match *self {
                    $($ty::$var => V::En($e, $code, vec![]),)*
                    _ => V::En($e, u32::MAX, vec![]),
                }
            }
        }
    };
}

impl Fld for SourceLanguage {
    fn v(&self) -> V {
        let c = match *self {
            SourceLanguage::Unknown => 0,
            SourceLanguage::Essl => 1,
            SourceLanguage::Glsl => 2,
            SourceLanguage::OpenCL_C => 3,
            SourceLanguage::OpenCL_Cpp => 4,
            SourceLanguage::Other(n) => {
                if n <= 4 {
                    // a named language in disguise is not the same value
                    return V::En(E::Src, n, vec![V::Absent]);
                }
                n
            }
        };
        V::En(E::Src, c, vec![])
    }
}

fld_enum!(AddressingModel, E::AddrModel; Logical = 0, Physical32 = 1, Physical64 = 2);
fld_enum!(MemoryModel, E::MemModel; Simple = 0, Glsl450 = 1, OpenCL = 2);
fld_enum!(ExecutionModel, E::ExecModel; Vertex = 0, TesselationControl = 1, TesselationEvaluation = 2, Geometry = 3,
    Fragment = 4, GlCompute = 5, Kernel = 6);
fld_enum!(Capability, E::Cap; Matrix = 0, Shader = 1, Geometry = 2, Tessellation = 3, Addresses = 4, Linkage = 5,
    Kernel = 6, Vector16 = 7, Float16Buffer = 8, Float16 = 9, Float64 = 10, Int64 = 11, Int64Atomics = 12,
    ImageBasic = 13, ImageReadWrite = 14, ImageMipmap = 15, Pipes = 17, Groups = 18, DeviceEnqueue = 19,
    LiteralSampler = 20, AtomicStorage = 21, Int16 = 22, TessellationPointSize = 23, GeometryPointSize = 24,
    ImageGatherExtended = 25, StorageImageMultisample = 27, UniformBufferArrayDynamicIndexing = 28,
    SampledImageArrayDynamicIndexing = 29, StorageBufferArrayDynamicIndexing = 30,
    StorageImageArrayDynamicIndexing = 31, ClipDistance = 32, CullDistance = 33, ImageCubeArray = 34,
    SampleRateShading = 35, ImageRect = 36, SampledRect = 37, GenericPointer = 38, Int8 = 39, InputAttachment = 40,
    SparseResidency = 41, MinLod = 42, Sampled1D = 43, Image1D = 44, SampledCubeArray = 45, SampledBuffer = 46,
    ImageBuffer = 47, ImageMSArray = 48, StorageImageExtendedFormats = 49, ImageQuery = 50, DerivativeControl = 51,
    InterpolationFunction = 52, TransformFeedback = 53, GeometryStreams = 54, StorageImageReadWithoutFormat = 55,
    StorageImageWriteWithoutFormat = 56, MultiViewport = 57);
fld_enum!(Signedness, E::Sign; UnsignedOrNone = 0, Signed = 1);
fld_enum!(Dim, E::Dim; Tex1D = 0, Tex2D = 1, Tex3D = 2, Cube = 3, Rect = 4, Buffer = 5, SubpassData = 6);
fld_enum!(DepthStatus, E::Depth; NotDepth = 0, Depth = 1, NoIndication = 2);
fld_enum!(Arrayed, E::Arrayed; False = 0, True = 1);
fld_enum!(MS, E::Ms; Single = 0, Multi = 1);
fld_enum!(SampledStatus, E::Sampled; RuntimeChoice = 0, WithSampler = 1, WithoutSampler = 2);
fld_enum!(ImageFormat, E::Format; Unknown = 0, Rgba32f = 1, Rgba16f = 2, R32f = 3, Rgba8 = 4, Rgba8Snorm = 5,
    Rg32f = 6, Rg16f = 7, R11fG11fB10f = 8, R16f = 9, Rgba16 = 10, Rgb10A2 = 11, Rg16 = 12, Rg8 = 13, R16 = 14,
    R8 = 15, Rgba16Snorm = 16, Rg16Snorm = 17, Rg8Snorm = 18, R16Snorm = 19, R8Snorm = 20, Rgba32i = 21,
    Rgba16i = 22, Rgba8i = 23, R32i = 24, Rg32i = 25, Rg16i = 26, Rg8i = 27, R16i = 28, R8i = 29, Rgba32ui = 30,
    Rgba16ui = 31, Rgba8ui = 32, R32ui = 33, Rgb10a2ui = 34, Rg32ui = 35, Rg16ui = 36, Rg8ui = 37, R16ui = 38,
    R8ui = 39);
fld_enum!(AccessQualifier, E::Access; ReadOnly = 0, WriteOnly = 1, ReadWrite = 2);
fld_enum!(StorageClass, E::Storage; UniformConstant = 0, Input = 1, Uniform = 2, Output = 3, Workgroup = 4,
    CrossWorkgroup = 5, Private = 6, Function = 7, Generic = 8, PushConstant = 9, AtomicCounter = 10, Image = 11);
fld_enum!(BuiltIn, E::BuiltIn; Position = 0, PointSize = 1, ClipDistance = 3, CullDistance = 4, VertexId = 5,
    InstanceId = 6, PrimitiveId = 7, InvocationId = 8, Layer = 9, ViewportIndex = 10, TessLevelOuter = 11,
    TessLevelInner = 12, TessCoord = 13, PatchVerticies = 14, FragCoord = 15, PointCoord = 16, FrontFacing = 17,
    SampleId = 18, SamplePosition = 19, SampleMask = 20, FragDepth = 22, HelperInvocation = 23, NumWorkgroups = 24,
    WorkgroupSize = 25, WorkgroupId = 26, LocalInvocationId = 27, GlobalInvocationId = 28, LocalInvocationIndex = 29,
    WorkDim = 30, GlobalSize = 31, EnqueuedWorkgroupSize = 32, GlobalOffset = 33, GlobalLinearId = 34,
    SubgroupSize = 36, SubgroupMaxSize = 37, NumSubgroups = 38, NumEnqueuedSubgroups = 39, SubgroupId = 40,
    SubgroupLocalInvocationId = 41, VertexIndex = 42, InstanceIndex = 43);
fld_enum!(FunctionParameterAttribute, E::ParamAttr; Zext = 0, Sext = 1, ByVal = 2, Sret = 3, NoAlias = 4,
    NoCapture = 5, NoWrite = 6, NoReadWrite = 7);
fld_enum!(FpRoundingMode, E::Rounding; Rte = 0, Rtz = 1, Rtp = 2, Rtn = 3);
fld_enum!(LinkageType, E::Linkage; Export = 0, Import = 1);

impl Fld for ExecutionMode {
    #[allow(unreachable_patterns)]
    fn v(&self) -> V {
        use magmaflow::spv::types::ExecutionMode::*;
        let (c, p) = match *self {
            Invocations(n) => (0, vec![n.v()]),
            SpacingEqual => (1, vec![]),
            SpacingFractionalEven => (2, vec![]),
            SpacingFractionalOdd => (3, vec![]),
            VertexOrderCw => (4, vec![]),
            VertexOrderCcw => (5, vec![]),
            PixelCenterInteger => (6, vec![]),
            OriginUpperLeft => (7, vec![]),
            OriginLowerLeft => (8, vec![]),
            EarlyFragmentTests => (9, vec![]),
            PointMode => (10, vec![]),
            Xfb => (11, vec![]),
            DepthReplacing => (12, vec![]),
            DepthGreater => (14, vec![]),
            DepthLess => (15, vec![]),
            DepthUnchanged => (16, vec![]),
            LocalSize(a, b, c) => (17, vec![a.v(), b.v(), c.v()]),
            LocalSizeHint(a, b, c) => (18, vec![a.v(), b.v(), c.v()]),
            InputPoints => (19, vec![]),
            InputLines => (20, vec![]),
            InputLinesAdjacency => (21, vec![]),
            Triangles => (22, vec![]),
            InputTrianglesAdjacency => (23, vec![]),
            Quads => (24, vec![]),
            Isolines => (25, vec![]),
            OutputVerticies(n) => (26, vec![n.v()]),
            OutputPoints => (27, vec![]),
            OutputLineStrip => (28, vec![]),
            OutputTriangleStrip => (29, vec![]),
            VecTypeHint(ref i) => (30, vec![i.v()]),
            ContractionOff => (31, vec![]),
            _ => (u32::MAX, vec![]),
        };
        V::En(E::ExecMode, c, p)
    }
}

impl Fld for Decoration {
    #[allow(unreachable_patterns)]
    fn v(&self) -> V {
        use magmaflow::spv::types::Decoration as D;
        let (c, p) = match *self {
            D::RelaxedPrecision => (0, vec![]),
            D::SpecId(n) => (1, vec![n.v()]),
            D::Block => (2, vec![]),
            D::BufferBlock => (3, vec![]),
            D::RowMajor => (4, vec![]),
            D::ColMajor => (5, vec![]),
            D::ArrayStride(n) => (6, vec![n.v()]),
            D::MatrixStride(n) => (7, vec![n.v()]),
            D::GlslShared => (8, vec![]),
            D::GlslPacked => (9, vec![]),
            D::CPacked => (10, vec![]),
            D::BuiltIn(ref b) => (11, vec![b.v()]),
            D::NoPerspective => (13, vec![]),
            D::Flat => (14, vec![]),
            D::Patch => (15, vec![]),
            D::Centroid => (16, vec![]),
            D::Sample => (17, vec![]),
            D::Invariant => (18, vec![]),
            D::Restrict => (19, vec![]),
            D::Aliased => (20, vec![]),
            D::Volatile => (21, vec![]),
            D::Constant => (22, vec![]),
            D::Coherent => (23, vec![]),
            D::NonWritable => (24, vec![]),
            D::NonReadable => (25, vec![]),
            D::Uniform => (26, vec![]),
            D::SaturatedConversion => (28, vec![]),
            D::Stream(n) => (29, vec![n.v()]),
            D::Location(n) => (30, vec![n.v()]),
            D::Component(n) => (31, vec![n.v()]),
            D::Index(n) => (32, vec![n.v()]),
            D::Binding(n) => (33, vec![n.v()]),
            D::DescriptorSet(n) => (34, vec![n.v()]),
            D::Offset(n) => (35, vec![n.v()]),
            D::XfbBuffer(n) => (36, vec![n.v()]),
            D::XfbStride(n) => (37, vec![n.v()]),
            D::FuncParamAttr(ref x) => (38, vec![x.v()]),
            D::FpRoundingMode(ref x) => (39, vec![x.v()]),
            D::FpFastMathMode(ref x) => (40, vec![x.v()]),
            D::LinkageAttributes(ref s, ref l) => (41, vec![s.v(), l.v()]),
            D::NoContraction => (42, vec![]),
            D::InputAttachmentIndex(n) => (43, vec![n.v()]),
            D::Alignment(n) => (44, vec![n.v()]),
            _ => (u32::MAX, vec![]),
        };
        V::En(E::Deco, c, p)
    }
}

fn bits(bs: &[bool]) -> u32 {
    bs.iter().enumerate().map(|(i, b)| (*b as u32) << i).sum()
}

impl Fld for FunctionControl {
    fn v(&self) -> V {
        V::Mk(M::FnControl, bits(&[self.inline, self.dont_inline, self.pure_function, self.const_function]), vec![])
    }
}
impl Fld for MemoryAccess {
    fn v(&self) -> V {
        V::Mk(
            M::MemAccess,
            bits(&[self.volatile, self.aligned.is_some(), self.non_temporal]),
            self.aligned.iter().map(|n| V::Lit(*n)).collect(),
        )
    }
}
impl Fld for FpFastMathMode {
    fn v(&self) -> V {
        V::Mk(M::FastMath, bits(&[self.not_nan, self.not_inf, self.nsz, self.allow_recip, self.fast]), vec![])
    }
}
impl Fld for LoopControl {
    fn v(&self) -> V {
        V::Mk(
            M::LoopControl,
            bits(&[self.unroll, self.dont_unroll, self.dependency_infinite, self.dependency_length.is_some()]),
            self.dependency_length.iter().map(|n| V::Lit(*n)).collect(),
        )
    }
}
impl Fld for SelectionControl {
    fn v(&self) -> V {
        V::Mk(M::SelControl, bits(&[self.flatten, self.dont_flatten]), vec![])
    }
}

impl Fld for ExtInstBox {
    fn v(&self) -> V {
        let e: &dyn ExtInst = self.as_ref();
        if let Some(i) = e.as_any().downcast_ref::<glsl450::Inst>() {
            return match *i {
                glsl450::Inst::Sin(ref o) => V::Ext("Sin", 13, vec![o.x.v()]),
                glsl450::Inst::Cos(ref o) => V::Ext("Cos", 14, vec![o.x.v()]),
            };
        }
        if let Some(i) = e.as_any().downcast_ref::<CInst>() {
            return V::Ext(i.op.name, i.num, i.vals.clone());
        }
        if let Some(i) = e.as_any().downcast_ref::<Twin>() {
            return V::Ext(i.op.name, i.num, vec![V::Id(i.x)]);
        }
        V::Ext("?", u32::MAX, vec![])
    }
}

// ---------------------------------------------------------------- instructions

pub trait ToInst {
    fn inst(&self) -> Inst;
}

macro_rules! ops {
    ($($name:ident $code:tt [$($f:ident)*])*) => {
        $(impl ToInst for $name {
            fn inst(&self) -> Inst {
                Inst { op: $code, vals: vec![$(self.$f.v()),*] }
            }
        })*

        impl ToInst for Core {
            #[allow(unreachable_patterns)]
            fn inst(&self) -> Inst {
                match *self {
                    $(Core::$name(ref o) => o.inst(),)*
                    _ => Inst { op: 0xFFFF, vals: vec![] },
                }
            }
        }
    };
}

ops! {
    OpNop 0 []
    OpUndef 1 [result_type result_id]
    OpSourceContinued 2 [continued_source]
    OpSource 3 [language version file source]
    OpSourceExtension 4 [extension]
    OpName 5 [target name]
    OpMemberName 6 [struct_type member name]
    OpString 7 [result_id string]
    OpExtension 10 [name]
    OpExtInstImport 11 [result_id name]
    OpExtInst 12 [result_type result_id set instruction]
    OpMemoryModel 14 [addressing_model memory_model]
    OpEntryPoint 15 [execution_model entry_point name interface]
    OpExecutionMode 16 [entry_point mode]
    OpCapability 17 [capability]
    OpTypeVoid 19 [result_id]
    OpTypeBool 20 [result_id]
    OpTypeInt 21 [result_id width signedness]
    OpTypeFloat 22 [result_id width]
    OpTypeVector 23 [result_id component_type component_count]
    OpTypeMatrix 24 [result_id column_type column_count]
    OpTypeImage 25 [result_id sampled_type dim depth arrayed ms sampled format access_qualifier]
    OpTypeSampler 26 [result_id]
    OpTypeSampledImage 27 [result_id image_type]
    OpTypeArray 28 [result_id element_type length]
    OpTypeRuntimeArray 29 [result_id element_type]
    OpTypeStruct 30 [result_id member_types]
    OpTypeOpaque 31 [result_id name]
    OpTypePointer 32 [result_id storage_class pointed_type]
    OpTypeFunction 33 [result_id return_type parameter_types]
    OpTypeEvent 34 [result_id]
    OpTypeDeviceEvent 35 [result_id]
    OpTypeQueue 37 [result_id]
    OpTypePipe 38 [result_id access_qualifier]
    OpTypeForwardPointer 39 [pointer_type storage_class]
    OpConstant 43 [result_type result_id value]
    OpConstantComposite 44 [result_type result_id constituents]
    OpFunction 54 [result_type result_id function_control function_type]
    OpFunctionParameter 55 [result_type result_id]
    OpFunctionEnd 56 []
    OpVariable 59 [result_type result_id storage_class initializer]
    OpLoad 61 [result_type result_id pointer memory_access]
    OpStore 62 [pointer object memory_access]
    OpAccessChain 65 [result_type result_id base indexes]
    OpDecorate 71 [target decoration]
    OpMemberDecorate 72 [structure_type member decoration]
    OpConvertUToF 112 [result_type result_id unsigned_value]
    OpBitcast 124 [result_type result_id operand]
    OpIAdd 128 [result_type result_id operand1 operand2]
    OpFAdd 129 [result_type result_id operand1 operand2]
    OpISub 130 [result_type result_id operand1 operand2]
    OpFSub 131 [result_type result_id operand1 operand2]
    OpIMul 132 [result_type result_id operand1 operand2]
    OpFMul 133 [result_type result_id operand1 operand2]
    OpUDiv 134 [result_type result_id operand1 operand2]
    OpSDiv 135 [result_type result_id operand1 operand2]
    OpFDiv 136 [result_type result_id operand1 operand2]
    OpUMod 137 [result_type result_id operand1 operand2]
    OpSRem 138 [result_type result_id operand1 operand2]
    OpSMod 139 [result_type result_id operand1 operand2]
    OpFRem 140 [result_type result_id operand1 operand2]
    OpFMod 141 [result_type result_id operand1 operand2]
    OpIAddCarry 149 [result_type result_id operand1 operand2]
    OpISubBorrow 150 [result_type result_id operand1 operand2]
    OpUMulExtended 151 [result_type result_id operand1 operand2]
    OpSMulExtended 152 [result_type result_id operand1 operand2]
    OpIEqual 170 [result_type result_id operand1 operand2]
    OpINotEqual 171 [result_type result_id operand1 operand2]
    OpUGreaterThan 172 [result_type result_id operand1 operand2]
    OpSGreaterThan 173 [result_type result_id operand1 operand2]
    OpUGreaterThanEqual 174 [result_type result_id operand1 operand2]
    OpSGreaterThanEqual 175 [result_type result_id operand1 operand2]
    OpULessThan 176 [result_type result_id operand1 operand2]
    OpSLessThan 177 [result_type result_id operand1 operand2]
    OpULessThanEqual 178 [result_type result_id operand1 operand2]
    OpSLessThanEqual 179 [result_type result_id operand1 operand2]
    OpFOrdEqual 180 [result_type result_id operand1 operand2]
    OpFUnordEqual 181 [result_type result_id operand1 operand2]
    OpFOrdNotEqual 182 [result_type result_id operand1 operand2]
    OpFUnordNotEqual 183 [result_type result_id operand1 operand2]
    OpFOrdLessThan 184 [result_type result_id operand1 operand2]
    OpFUnordLessThan 185 [result_type result_id operand1 operand2]
    OpFOrdGreaterThan 186 [result_type result_id operand1 operand2]
    OpFUnordGreaterThan 187 [result_type result_id operand1 operand2]
    OpFOrdLessThanEqual 188 [result_type result_id operand1 operand2]
    OpFUnordLessThanEqual 189 [result_type result_id operand1 operand2]
    OpFOrdGreaterThanEqual 190 [result_type result_id operand1 operand2]
    OpFUnordGreaterThanEqual 191 [result_type result_id operand1 operand2]
    OpBitwiseOr 197 [result_type result_id operand1 operand2]
    OpBitwiseXor 198 [result_type result_id operand1 operand2]
    OpBitwiseAnd 199 [result_type result_id operand1 operand2]
    OpPhi 245 [result_type result_id variables]
    OpLoopMerge 246 [merge_block continue_target loop_control]
    OpSelectionMerge 247 [merge_block selection_control]
    OpLabel 248 [result_id]
    OpBranch 249 [target_label]
    OpBranchConditional 250 [condition true_label false_label weights]
    OpReturn 253 []
}

macro_rules! group {
    ($g:ident; $($name:ident)*) => {
        impl ToInst for $g {
            #[allow(unreachable_patterns)]
            fn inst(&self) -> Inst {
                match *self {
                    $($g::$name(ref o) => o.inst(),)*
                    _ => Inst { op: 0xFFFF, vals: vec![] },
                }
            }
        }
    };
}

group!(GroupDebug; OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString);
group!(GroupAnnotation; OpDecorate OpMemberDecorate);
group!(GroupType; OpTypeVoid OpTypeBool OpTypeInt OpTypeFloat OpTypeVector OpTypeMatrix OpTypeImage OpTypeSampler
    OpTypeSampledImage OpTypeArray OpTypeRuntimeArray OpTypeStruct OpTypeOpaque OpTypePointer OpTypeFunction
    OpTypeEvent OpTypeDeviceEvent OpTypeQueue OpTypePipe OpTypeForwardPointer);
group!(GroupConstant; OpConstant OpConstantComposite);
group!(GroupGlobal; GroupType GroupConstant OpVariable);
group!(GroupCode; OpNop OpUndef OpExtInst OpVariable OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast OpIAdd OpFAdd
    OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow
    OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan
    OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan OpULessThanEqual OpSLessThanEqual
    OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan OpFOrdGreaterThan
    OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual
    OpPhi);
group!(GroupMerge; OpLoopMerge OpSelectionMerge);
group!(GroupBranch; OpBranch OpBranchConditional OpReturn);

pub fn tool_code(t: &Tool) -> u32 {
    match *t {
        Tool::KhronosReserved => 0,
        Tool::LunarG => 1,
        Tool::Valve => 2,
        Tool::Codeplay => 3,
        Tool::Nvidia => 4,
        Tool::Arm => 5,
        Tool::KhronosLLvmTranslator => 6,
        Tool::KhronosAssembler => 7,
        Tool::KhronosGlslang => 8,
        Tool::Qualcomm => 9,
        Tool::Amd => 10,
        Tool::Intel => 11,
        Tool::Other(n) => {
            if n <= 11 {
                0xFFFF_FFFF
            } else {
                n as u32
            }
        }
    }
}

pub fn module_of(m: &RawModule) -> Result<crate::spec::Module, String> {
    if m.version != Version(1, 0) {
        return Err(format!("version {:?}", m.version));
    }
    let t = tool_code(&m.generator.tool);
    if t > 0xFFFF {
        return Err(format!("tool {:?} hides a named tool", m.generator.tool));
    }
    Ok(crate::spec::Module {
        generator: t << 16 | m.generator.version as u32,
        bound: m.bound,
        insts: m.instructions.iter().map(|i| i.inst()).collect(),
    })
}

// ---------------------------------------------------------------- harness owned extended sets

/// Operand shapes of the harness's own extended instructions
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct COp {
    pub name: &'static str,
}

impl fmt::Display for COp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.name)
    }
}

impl Op for COp {
    fn get_name(&self) -> &'static str {
        self.name
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct CInst {
    pub set: &'static str,
    pub op: COp,
    pub num: u32,
    pub vals: Vec<V>,
}

impl fmt::Display for CInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", crate::spec::val_text(&V::Ext(self.op.name, self.num, self.vals.clone())))
    }
}

impl ExtInst for CInst {
    fn get_op(&self) -> &dyn Op {
        &self.op
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<CInst>() {
            Some(o) => self == o,
            None => false,
        }
    }
}

/// A set implemented by the caller of the library, driven by a table
pub struct CSet(pub SetSpec);

fn read_kinds<'a>(mut b: MemoryBlock<'a>, kinds: &[K]) -> MemoryBlockResult<'a, Vec<V>> {
    let mut vals = vec![];
    for k in kinds {
        match *k {
            K::I => {
                let (n, x) = b.read_op_id()?;
                b = n;
                vals.push(V::Id(x.0));
            }
            K::L => {
                let (n, x) = b.read_word()?;
                b = n;
                vals.push(V::Lit(x));
            }
            K::ManyL => {
                // uses remaining()
                let mut l = vec![];
                for _ in 0..b.remaining() {
                    let (n, x) = b.read_word()?;
                    b = n;
                    l.push(V::Lit(x));
                }
                vals.push(V::List(l));
            }
            K::ManyI => {
                // uses end()
                let mut l = vec![];
                while !b.end() {
                    let (n, x) = b.read_op_id()?;
                    b = n;
                    l.push(V::Id(x.0));
                }
                vals.push(V::List(l));
            }
            K::S => {
                let (n, x) = <String as MemoryBlockRead>::read(b)?;
                b = n;
                vals.push(V::Str(x));
            }
            _ => unreachable!(),
        }
    }
    Ok((b, vals))
}

impl ExtInstSet for CSet {
    fn get_name(&self) -> &'static str {
        self.0.name
    }
    fn read_instruction<'a, 'b>(&'b self, num: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        match self.0.insts.iter().find(|i| i.0 == num) {
            None => Err(ReadError::UnknownExtInstOp(self.0.name, num)),
            Some(i) => {
                let (b, vals) = read_kinds(block, &i.2)?;
                Ok((b, Box::new(CInst { set: self.0.name, op: COp { name: i.1 }, num, vals })))
            }
        }
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(CSet(self.0.clone()))
    }
}

pub fn glsl() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(glsl450::InstSet)]
}

// ---------------------------------------------------------------- a set that looks like the built in one

thread_local! {
    static HOOK: std::cell::RefCell<(usize, Option<(usize, Box<dyn FnOnce()>)>)> = std::cell::RefCell::new((0, None));
}

/// A place where the library is inside a call of the caller's code
fn hook_point() {
    let f = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        h.0 += 1;
        let at = h.0;
        match h.1 {
            Some((n, _)) if n == at => h.1.take().map(|x| x.1),
            _ => None,
        }
    });
    if let Some(f) = f {
        f();
    }
}

/// Run `f` and, inside of it, `inner` at the given call of the caller's code (counted from one); how many there were
pub fn with_hook<T>(at: usize, inner: Box<dyn FnOnce()>, f: impl FnOnce() -> T) -> (T, usize) {
    HOOK.with(|h| *h.borrow_mut() = (0, Some((at, inner))));
    let r = f();
    let n = HOOK.with(|h| std::mem::replace(&mut *h.borrow_mut(), (0, None)).0);
    (r, n)
}

/// An instruction of another set with the texts of the built in one
#[derive(PartialEq)]
pub struct Twin {
    pub op: COp,
    pub num: u32,
    pub x: u32,
}

impl Clone for Twin {
    fn clone(&self) -> Twin {
        hook_point();
        Twin { op: self.op.clone(), num: self.num, x: self.x }
    }
}

impl fmt::Display for Twin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        hook_point();
        write!(f, "{} %{}", self.op.name, self.x)
    }
}

impl fmt::Debug for Twin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        hook_point();
        write!(f, "{}({} {{ x: OpId({}) }})", self.op.name, self.op.name, self.x)
    }
}

impl ExtInst for Twin {
    fn get_op(&self) -> &dyn Op {
        hook_point();
        &self.op
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        hook_point();
        match other.as_any().downcast_ref::<Twin>() {
            Some(o) => self == o,
            None => false,
        }
    }
}

pub struct TwinSet;

impl ExtInstSet for TwinSet {
    fn get_name(&self) -> &'static str {
        hook_point();
        "GLSL.std.450"
    }
    fn read_instruction<'a, 'b>(&'b self, num: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        hook_point();
        let name = match num {
            13 => "Sin",
            14 => "Cos",
            _ => return Err(ReadError::UnknownExtInstOp("GLSL.std.450", num)),
        };
        let (block, x) = block.read_op_id()?;
        hook_point();
        Ok((block, Box::new(Twin { op: COp { name }, num, x: x.0 })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        hook_point();
        Box::new(TwinSet)
    }
}
