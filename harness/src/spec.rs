//! Independent reference model of the SPIR-V subset magmaflow reads: grammar tables written
//! down from the SPIR-V 1.0 specification, an encoder, a reference decoder that returns the
//! set of faults of an input, and a reference disassembler. Nothing here calls the library;
//! only the error type is shared so that verdicts can be compared.

use magmaflow::spv::raw::ReadError;
use magmaflow::spv::types::{OpId, ResultId};

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum E {
    Src,
    AddrModel,
    MemModel,
    ExecModel,
    ExecMode,
    Cap,
    Sign,
    Dim,
    Depth,
    Arrayed,
    Ms,
    Sampled,
    Format,
    Access,
    Storage,
    Deco,
    BuiltIn,
    ParamAttr,
    Rounding,
    Linkage,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum M {
    FnControl,
    MemAccess,
    FastMath,
    LoopControl,
    SelControl,
}

/// Operand kinds
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    T,
    R,
    I,
    L,
    S,
    OptI,
    OptS,
    ManyI,
    ManyL,
    ManyPhi,
    OptW,
    En(E),
    OptEn(E),
    Mk(M),
    OptMk(M),
    /// instruction number and operands of an extended instruction
    Ext,
}

/// Operand values
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
    Id(u32),
    Lit(u32),
    Str(String),
    En(E, u32, Vec<V>),
    Mk(M, u32, Vec<V>),
    Absent,
    List(Vec<V>),
    Pair(u32, u32, bool),
    Ext(&'static str, u32, Vec<V>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Inst {
    pub op: u16,
    pub vals: Vec<V>,
}

pub struct OpDef {
    pub code: u16,
    pub name: &'static str,
    pub kinds: &'static [K],
    /// produced by the reader (false: part of the instruction enumeration only)
    pub readable: bool,
}

use K::*;

const fn d(code: u16, name: &'static str, kinds: &'static [K]) -> OpDef {
    OpDef { code, name, kinds, readable: true }
}
const fn n(code: u16, name: &'static str, kinds: &'static [K]) -> OpDef {
    OpDef { code, name, kinds, readable: false }
}

pub static OPS: &[OpDef] = &[
    d(0, "OpNop", &[]),
    d(1, "OpUndef", &[T, R]),
    d(2, "OpSourceContinued", &[S]),
    d(3, "OpSource", &[En(E::Src), L, OptI, OptS]),
    d(4, "OpSourceExtension", &[S]),
    d(5, "OpName", &[I, S]),
    d(6, "OpMemberName", &[I, L, S]),
    d(7, "OpString", &[R, S]),
    d(10, "OpExtension", &[S]),
    d(11, "OpExtInstImport", &[R, S]),
    d(12, "OpExtInst", &[T, R, I, Ext]),
    d(14, "OpMemoryModel", &[En(E::AddrModel), En(E::MemModel)]),
    d(15, "OpEntryPoint", &[En(E::ExecModel), I, S, ManyI]),
    d(16, "OpExecutionMode", &[I, En(E::ExecMode)]),
    d(17, "OpCapability", &[En(E::Cap)]),
    d(19, "OpTypeVoid", &[R]),
    d(20, "OpTypeBool", &[R]),
    d(21, "OpTypeInt", &[R, L, En(E::Sign)]),
    d(22, "OpTypeFloat", &[R, L]),
    d(23, "OpTypeVector", &[R, I, L]),
    d(24, "OpTypeMatrix", &[R, I, L]),
    d(
        25,
        "OpTypeImage",
        &[R, I, En(E::Dim), En(E::Depth), En(E::Arrayed), En(E::Ms), En(E::Sampled), En(E::Format), OptEn(E::Access)],
    ),
    d(26, "OpTypeSampler", &[R]),
    d(27, "OpTypeSampledImage", &[R, I]),
    d(28, "OpTypeArray", &[R, I, I]),
    d(29, "OpTypeRuntimeArray", &[R, I]),
    d(30, "OpTypeStruct", &[R, ManyI]),
    d(31, "OpTypeOpaque", &[R, S]),
    d(32, "OpTypePointer", &[R, En(E::Storage), I]),
    d(33, "OpTypeFunction", &[R, I, ManyI]),
    n(34, "OpTypeEvent", &[R]),
    n(35, "OpTypeDeviceEvent", &[R]),
    n(37, "OpTypeQueue", &[R]),
    n(38, "OpTypePipe", &[R, En(E::Access)]),
    n(39, "OpTypeForwardPointer", &[I, En(E::Storage)]),
    d(43, "OpConstant", &[T, R, ManyL]),
    d(44, "OpConstantComposite", &[T, R, ManyI]),
    d(54, "OpFunction", &[T, R, Mk(M::FnControl), I]),
    d(55, "OpFunctionParameter", &[T, R]),
    d(56, "OpFunctionEnd", &[]),
    d(59, "OpVariable", &[T, R, En(E::Storage), OptI]),
    d(61, "OpLoad", &[T, R, I, OptMk(M::MemAccess)]),
    d(62, "OpStore", &[I, I, OptMk(M::MemAccess)]),
    d(65, "OpAccessChain", &[T, R, I, ManyI]),
    d(71, "OpDecorate", &[I, En(E::Deco)]),
    d(72, "OpMemberDecorate", &[I, L, En(E::Deco)]),
    d(112, "OpConvertUToF", &[T, R, I]),
    d(124, "OpBitcast", &[T, R, I]),
    d(128, "OpIAdd", &[T, R, I, I]),
    d(129, "OpFAdd", &[T, R, I, I]),
    d(130, "OpISub", &[T, R, I, I]),
    d(131, "OpFSub", &[T, R, I, I]),
    d(132, "OpIMul", &[T, R, I, I]),
    d(133, "OpFMul", &[T, R, I, I]),
    d(134, "OpUDiv", &[T, R, I, I]),
    d(135, "OpSDiv", &[T, R, I, I]),
    d(136, "OpFDiv", &[T, R, I, I]),
    d(137, "OpUMod", &[T, R, I, I]),
    d(138, "OpSRem", &[T, R, I, I]),
    d(139, "OpSMod", &[T, R, I, I]),
    d(140, "OpFRem", &[T, R, I, I]),
    d(141, "OpFMod", &[T, R, I, I]),
    d(149, "OpIAddCarry", &[T, R, I, I]),
    d(150, "OpISubBorrow", &[T, R, I, I]),
    d(151, "OpUMulExtended", &[T, R, I, I]),
    d(152, "OpSMulExtended", &[T, R, I, I]),
    d(170, "OpIEqual", &[T, R, I, I]),
    d(171, "OpINotEqual", &[T, R, I, I]),
    d(172, "OpUGreaterThan", &[T, R, I, I]),
    d(173, "OpSGreaterThan", &[T, R, I, I]),
    d(174, "OpUGreaterThanEqual", &[T, R, I, I]),
    d(175, "OpSGreaterThanEqual", &[T, R, I, I]),
    d(176, "OpULessThan", &[T, R, I, I]),
    d(177, "OpSLessThan", &[T, R, I, I]),
    d(178, "OpULessThanEqual", &[T, R, I, I]),
    d(179, "OpSLessThanEqual", &[T, R, I, I]),
    d(180, "OpFOrdEqual", &[T, R, I, I]),
    d(181, "OpFUnordEqual", &[T, R, I, I]),
    d(182, "OpFOrdNotEqual", &[T, R, I, I]),
    d(183, "OpFUnordNotEqual", &[T, R, I, I]),
    d(184, "OpFOrdLessThan", &[T, R, I, I]),
    d(185, "OpFUnordLessThan", &[T, R, I, I]),
    d(186, "OpFOrdGreaterThan", &[T, R, I, I]),
    d(187, "OpFUnordGreaterThan", &[T, R, I, I]),
    d(188, "OpFOrdLessThanEqual", &[T, R, I, I]),
    d(189, "OpFUnordLessThanEqual", &[T, R, I, I]),
    d(190, "OpFOrdGreaterThanEqual", &[T, R, I, I]),
    d(191, "OpFUnordGreaterThanEqual", &[T, R, I, I]),
    d(197, "OpBitwiseOr", &[T, R, I, I]),
    d(198, "OpBitwiseXor", &[T, R, I, I]),
    d(199, "OpBitwiseAnd", &[T, R, I, I]),
    d(245, "OpPhi", &[T, R, ManyPhi]),
    d(246, "OpLoopMerge", &[I, I, Mk(M::LoopControl)]),
    d(247, "OpSelectionMerge", &[I, Mk(M::SelControl)]),
    d(248, "OpLabel", &[R]),
    d(249, "OpBranch", &[I]),
    d(250, "OpBranchConditional", &[I, I, I, OptW]),
    d(253, "OpReturn", &[]),
];

/// Opcodes of the specification that the library does not implement; they are reported by name
pub static UNIMPLEMENTED: &[(u16, &str)] = &[
    (8, "OpLine"), (34, "OpTypeEvent"), (35, "OpTypeDeviceEvent"), (36, "OpTypeReserveId"), (37, "OpTypeQueue"),
    (38, "OpTypePipe"), (39, "OpTypeForwardPointer"), (73, "OpDecorationGroup"), (74, "OpGroupDecorate"),
    (75, "OpGroupMemberDecorate"), (41, "OpConstantTrue"), (42, "OpConstantFalse"), (45, "OpConstantSampler"), (46, "OpConstantNull"),
    (48, "OpSpecConstantTrue"), (49, "OpSpecConstantFalse"), (50, "OpSpecConstant"), (51, "OpSpecConstantComposite"),
    (52, "OpSpecConstantOp"), (57, "OpFunctionCall"), (60, "OpImageTexelPointer"), (63, "OpCopyMemory"),
    (64, "OpCopyMemorySized"), (66, "OpInBoundsAccessChain"), (67, "OpPtrAccessChain"), (68, "OpArrayLength"),
    (69, "OpGenericPtrMemSemantics"), (70, "OpInBoundsPtrAccessChain"), (77, "OpVectorExtractDynamic"),
    (78, "OpVectorInsertDynamic"), (79, "OpVectorShuffle"), (80, "OpCompositeConstruct"), (81, "OpCompositeExtract"),
    (82, "OpCompositeInsert"), (83, "OpCopyObject"), (84, "OpTranspose"), (86, "OpSampledImage"),
    (87, "OpImageSampleImplicitLod"), (88, "OpImageSampleExplicitLod"), (89, "OpImageSampleDrefImplicitLod"),
    (90, "OpImageSampleDrefExplicitLod"), (91, "OpImageSampleProjImplicitLod"), (92, "OpImageSampleProjExplicitLod"),
    (93, "OpImageSampleProjDrefImplicitLod"), (94, "OpImageSampleProjDrefExplicitLod"), (95, "OpImageFetch"),
    (96, "OpImageGather"), (97, "OpImageDrefGather"), (98, "OpImageRead"), (99, "OpImageWrite"), (100, "OpImage"),
    (101, "OpImageQueryFormat"), (102, "OpImageQueryOrder"), (103, "OpImageQuerySizeLod"), (104, "OpImageQuerySize"),
    (105, "OpImageQueryLod"), (106, "OpImageQueryLevels"), (107, "OpImageQuerySamples"), (109, "OpConvertFToU"),
    (110, "OpConvertFToS"), (111, "OpConvertSToF"), (113, "OpUConvert"), (114, "OpSConvert"), (115, "OpFConvert"),
    (116, "OpQuantizeToF16"), (117, "OpConvertPtrToU"), (118, "OpSatConvertSToU"), (119, "OpSatConvertUToS"),
    (120, "OpConvertUToPtr"), (121, "OpPtrCastToGeneric"), (122, "OpGenericCastToPtr"),
    (123, "OpGenericCastToPtrExplicit"), (126, "OpSNegate"), (127, "OpFNegate"), (142, "OpVectorTimesScalar"),
    (143, "OpMatrixTimesScalar"), (144, "OpVectorTimesMatrix"), (145, "OpMatrixTimesVector"),
    (146, "OpMatrixTimesMatrix"), (147, "OpOuterProduct"), (148, "OpDot"), (154, "OpAny"), (155, "OpAll"),
    (156, "OpIsNan"), (157, "OpIsInf"), (158, "OpIsFinite"), (159, "OpIsNormal"), (160, "OpSignBitSet"),
    (161, "OpLessOrGreater"), (162, "OpOrdered"), (163, "OpUnordered"), (164, "OpLogicalEqual"),
    (165, "OpLogicalNotEqual"), (166, "OpLogicalOr"), (167, "OpLogicalAnd"), (168, "OpLogicalNot"), (169, "OpSelect"),
    (194, "OpShiftRightLogical"), (195, "OpShiftRightArithmetic"), (196, "OpShiftLeftLogical"), (200, "OpNot"),
    (201, "OpBitFieldInsert"), (202, "OpBitFieldSExtract"), (203, "OpBitFieldUExtract"), (204, "OpBitReverse"),
    (205, "OpBitCount"), (207, "OpDPdx"), (208, "OpDPdy"), (209, "OpFwidth"), (210, "OpDPdxFine"), (211, "OpDPdyFine"),
    (212, "OpFwidthFine"), (213, "OpDPdxCoarse"), (214, "OpDPdyCoarse"), (215, "OpFwidthCoarse"),
    (218, "OpEmitVertex"), (219, "OpEndPrimitive"), (220, "OpEmitStreamVertex"), (221, "OpEndStreamPrimitive"),
    (224, "OpControlBarrier"), (225, "OpMemoryBarrier"), (227, "OpAtomicLoad"), (228, "OpAtomicStore"),
    (229, "OpAtomicExchange"), (230, "OpAtomicCompareExchange"), (231, "OpAtomicCompareExchangeWeak"),
    (232, "OpAtomicIIncrement"), (233, "OpAtomicIDecrement"), (234, "OpAtomicIAdd"), (235, "OpAtomicISub"),
    (236, "OpAtomicSMin"), (237, "OpAtomicUMin"), (238, "OpAtomicSMax"), (239, "OpAtomicUMax"), (240, "OpAtomicAnd"),
    (241, "OpAtomicOr"), (242, "OpAtomicXor"), (251, "OpSwitch"), (252, "OpKill"), (254, "OpReturnValue"),
    (255, "OpUnreachable"), (256, "OpLifetimeStart"), (257, "OpLifetimeStop"), (259, "OpGroupAsyncCopy"),
    (260, "OpGroupWaitEvents"), (261, "OpGroupAll"), (262, "OpGroupAny"), (263, "OpGroupBroadcast"),
    (264, "OpGroupIAdd"), (265, "OpGroupFAdd"), (266, "OpGroupFMin"), (267, "OpGroupUMin"), (268, "OpGroupSMin"),
    (269, "OpGroupFMax"), (270, "OpGroupUMax"), (271, "OpGroupSMax"), (274, "OpReadPipe"), (275, "OpWritePipe"),
    (276, "OpReservedReadPipe"), (277, "OpReservedWritePipe"), (278, "OpReserveReadPipePackets"),
    (279, "OpReserveWritePipePackets"), (280, "OpCommitReadPipe"), (281, "OpCommitWritePipe"),
    (282, "OpIsValidReserveId"), (283, "OpGetNumPipePackets"), (284, "OpGetMaxPipePackets"),
    (285, "OpGroupReserveReadPipePackets"), (286, "OpGroupReserveWritePipePackets"), (287, "OpGroupCommitReadPipe"),
    (288, "OpGroupCommitWritePipe"), (291, "OpEnqueueMarker"), (292, "OpEnqueueKernel"),
    (293, "OpGetKernelNDrangeSubGroupCount"), (294, "OpGetKernelNDrangeMaxSubGroupSize"),
    (295, "OpGetKernelWorkGroupSize"), (296, "OpGetKernelPreferredWorkGroupSizeMultiple"), (297, "OpRetainEvent"),
    (298, "OpReleaseEvent"), (299, "OpCreateUserEvent"), (300, "OpIsValidEvent"), (301, "OpSetUserEventStatus"),
    (302, "OpCaptureEventProfilingInfo"), (303, "OpGetDefaultQueue"), (304, "OpBuildNDRange"),
    (305, "OpImageSparseSampleImplicitLod"), (306, "OpImageSparseSampleExplicitLod"),
    (307, "OpImageSparseSampleDrefImplicitLod"), (308, "OpImageSparseSampleDrefExplicitLod"),
    (309, "OpImageSparseSampleProjImplicitLod"), (310, "OpImageSparseSampleProjExplicitLod"),
    (311, "OpImageSparseSampleProjDrefImplicitLod"), (312, "OpImageSparseSampleProjDrefExplicitLod"),
    (313, "OpImageSparseFetch"), (314, "OpImageSparseGather"), (315, "OpImageSparseDrefGather"),
    (316, "OpImageSparseTexelsResident"), (317, "OpNoLine"), (318, "OpAtomicFlagTestAndSet"),
    (319, "OpAtomicFlagClear"), (320, "OpImageSparseRead"),
];

pub enum OpClass {
    Known(&'static OpDef),
    Unimpl(&'static str),
    Unknown,
}

pub fn op_class(code: u16) -> OpClass {
    if code > 320 {
        return OpClass::Unknown;
    }
    static IDX: std::sync::OnceLock<Vec<(u8, usize)>> = std::sync::OnceLock::new();
    let idx = IDX.get_or_init(|| {
        let mut v = vec![(0u8, 0usize); 321];
        for (i, o) in OPS.iter().enumerate() {
            if o.readable {
                v[o.code as usize] = (1, i);
            }
        }
        for (i, o) in UNIMPLEMENTED.iter().enumerate() {
            v[o.0 as usize] = (2, i);
        }
        v
    });
    match idx[code as usize] {
        (1, i) => OpClass::Known(&OPS[i]),
        (2, i) => OpClass::Unimpl(UNIMPLEMENTED[i].1),
        _ => OpClass::Unknown,
    }
}

pub fn def(code: u16) -> &'static OpDef {
    OPS.iter().find(|o| o.code == code).unwrap()
}

pub fn by_name(name: &str) -> &'static OpDef {
    OPS.iter().find(|o| o.name == name).unwrap()
}

type En_ = (u32, &'static str, &'static [K]);

static SRC: &[En_] = &[(0, "Unknown", &[]), (1, "ESSL", &[]), (2, "GLSL", &[]), (3, "OpenCL_C", &[]), (4, "OpenCL_CPP", &[])];
static ADDR: &[En_] = &[(0, "Logical", &[]), (1, "Physical32", &[]), (2, "Physical64", &[])];
static MEM: &[En_] = &[(0, "Simple", &[]), (1, "GLSL450", &[]), (2, "OpenCL", &[])];
static EXEC: &[En_] = &[
    (0, "Vertex", &[]),
    (1, "TessellationControl", &[]),
    (2, "TessellationEvaluation", &[]),
    (3, "Geometry", &[]),
    (4, "Fragment", &[]),
    (5, "GLCompute", &[]),
    (6, "Kernel", &[]),
];
static MODE: &[En_] = &[
    (0, "Invocations", &[L]),
    (1, "SpacingEqual", &[]),
    (2, "SpacingFractionalEven", &[]),
    (3, "SpacingFractionalOdd", &[]),
    (4, "VertexOrderCw", &[]),
    (5, "VertexOrderCcw", &[]),
    (6, "PixelCenterInteger", &[]),
    (7, "OriginUpperLeft", &[]),
    (8, "OriginLowerLeft", &[]),
    (9, "EarlyFragmentTests", &[]),
    (10, "PointMode", &[]),
    (11, "Xfb", &[]),
    (12, "DepthReplacing", &[]),
    (14, "DepthGreater", &[]),
    (15, "DepthLess", &[]),
    (16, "DepthUnchanged", &[]),
    (17, "LocalSize", &[L, L, L]),
    (18, "LocalSizeHint", &[L, L, L]),
    (19, "InputPoints", &[]),
    (20, "InputLines", &[]),
    (21, "InputLinesAdjacency", &[]),
    (22, "Triangles", &[]),
    (23, "InputTrianglesAdjacency", &[]),
    (24, "Quads", &[]),
    (25, "Isolines", &[]),
    (26, "OutputVertices", &[L]),
    (27, "OutputPoints", &[]),
    (28, "OutputLineStrip", &[]),
    (29, "OutputTriangleStrip", &[]),
    (30, "VecTypeHint", &[I]),
    (31, "ContractionOff", &[]),
];
static CAP: &[En_] = &[
    (0, "Matrix", &[]), (1, "Shader", &[]), (2, "Geometry", &[]), (3, "Tessellation", &[]), (4, "Addresses", &[]),
    (5, "Linkage", &[]), (6, "Kernel", &[]), (7, "Vector16", &[]), (8, "Float16Buffer", &[]), (9, "Float16", &[]),
    (10, "Float64", &[]), (11, "Int64", &[]), (12, "Int64Atomics", &[]), (13, "ImageBasic", &[]),
    (14, "ImageReadWrite", &[]), (15, "ImageMipmap", &[]), (17, "Pipes", &[]), (18, "Groups", &[]),
    (19, "DeviceEnqueue", &[]), (20, "LiteralSampler", &[]), (21, "AtomicStorage", &[]), (22, "Int16", &[]),
    (23, "TessellationPointSize", &[]), (24, "GeometryPointSize", &[]), (25, "ImageGatherExtended", &[]),
    (27, "StorageImageMultisample", &[]), (28, "UniformBufferArrayDynamicIndexing", &[]),
    (29, "SampledImageArrayDynamicIndexing", &[]), (30, "StorageBufferArrayDynamicIndexing", &[]),
    (31, "StorageImageArrayDynamicIndexing", &[]), (32, "ClipDistance", &[]), (33, "CullDistance", &[]),
    (34, "ImageCubeArray", &[]), (35, "SampleRateShading", &[]), (36, "ImageRect", &[]), (37, "SampledRect", &[]),
    (38, "GenericPointer", &[]), (39, "Int8", &[]), (40, "InputAttachment", &[]), (41, "SparseResidency", &[]),
    (42, "MinLod", &[]), (43, "Sampled1D", &[]), (44, "Image1D", &[]), (45, "SampledCubeArray", &[]),
    (46, "SampledBuffer", &[]), (47, "ImageBuffer", &[]), (48, "ImageMSArray", &[]),
    (49, "StorageImageExtendedFormats", &[]), (50, "ImageQuery", &[]), (51, "DerivativeControl", &[]),
    (52, "InterpolationFunction", &[]), (53, "TransformFeedback", &[]), (54, "GeometryStreams", &[]),
    (55, "StorageImageReadWithoutFormat", &[]), (56, "StorageImageWriteWithoutFormat", &[]), (57, "MultiViewport", &[]),
];
static SIGN: &[En_] = &[(0, "0", &[]), (1, "1", &[])];
static DIM: &[En_] = &[
    (0, "1D", &[]),
    (1, "2D", &[]),
    (2, "3D", &[]),
    (3, "Cube", &[]),
    (4, "Rect", &[]),
    (5, "Buffer", &[]),
    (6, "SubpassData", &[]),
];
static NUM3: &[En_] = &[(0, "0", &[]), (1, "1", &[]), (2, "2", &[])];
static NUM2: &[En_] = &[(0, "0", &[]), (1, "1", &[])];
static FMT: &[En_] = &[
    (0, "Unknown", &[]), (1, "Rgba32f", &[]), (2, "Rgba16f", &[]), (3, "R32f", &[]), (4, "Rgba8", &[]),
    (5, "Rgba8Snorm", &[]), (6, "Rg32f", &[]), (7, "Rg16f", &[]), (8, "R11fG11fB10f", &[]), (9, "R16f", &[]),
    (10, "Rgba16", &[]), (11, "Rgb10A2", &[]), (12, "Rg16", &[]), (13, "Rg8", &[]), (14, "R16", &[]), (15, "R8", &[]),
    (16, "Rgba16Snorm", &[]), (17, "Rg16Snorm", &[]), (18, "Rg8Snorm", &[]), (19, "R16Snorm", &[]),
    (20, "R8Snorm", &[]), (21, "Rgba32i", &[]), (22, "Rgba16i", &[]), (23, "Rgba8i", &[]), (24, "R32i", &[]),
    (25, "Rg32i", &[]), (26, "Rg16i", &[]), (27, "Rg8i", &[]), (28, "R16i", &[]), (29, "R8i", &[]),
    (30, "Rgba32ui", &[]), (31, "Rgba16ui", &[]), (32, "Rgba8ui", &[]), (33, "R32ui", &[]), (34, "Rgb10a2ui", &[]),
    (35, "Rg32ui", &[]), (36, "Rg16ui", &[]), (37, "Rg8ui", &[]), (38, "R16ui", &[]), (39, "R8ui", &[]),
];
static ACC: &[En_] = &[(0, "ReadOnly", &[]), (1, "WriteOnly", &[]), (2, "ReadWrite", &[])];
static STO: &[En_] = &[
    (0, "UniformConstant", &[]),
    (1, "Input", &[]),
    (2, "Uniform", &[]),
    (3, "Output", &[]),
    (4, "Workgroup", &[]),
    (5, "CrossWorkgroup", &[]),
    (6, "Private", &[]),
    (7, "Function", &[]),
    (8, "Generic", &[]),
    (9, "PushConstant", &[]),
    (10, "AtomicCounter", &[]),
    (11, "Image", &[]),
];
static DECO: &[En_] = &[
    (0, "RelaxedPrecision", &[]), (1, "SpecId", &[L]), (2, "Block", &[]), (3, "BufferBlock", &[]), (4, "RowMajor", &[]),
    (5, "ColMajor", &[]), (6, "ArrayStride", &[L]), (7, "MatrixStride", &[L]), (8, "GLSLShared", &[]),
    (9, "GLSLPacked", &[]), (10, "CPacked", &[]), (11, "BuiltIn", &[En(E::BuiltIn)]), (13, "NoPerspective", &[]),
    (14, "Flat", &[]), (15, "Patch", &[]), (16, "Centroid", &[]), (17, "Sample", &[]), (18, "Invariant", &[]),
    (19, "Restrict", &[]), (20, "Aliased", &[]), (21, "Volatile", &[]), (22, "Constant", &[]), (23, "Coherent", &[]),
    (24, "NonWritable", &[]), (25, "NonReadable", &[]), (26, "Uniform", &[]), (28, "SaturatedConversion", &[]),
    (29, "Stream", &[L]), (30, "Location", &[L]), (31, "Component", &[L]), (32, "Index", &[L]), (33, "Binding", &[L]),
    (34, "DescriptorSet", &[L]), (35, "Offset", &[L]), (36, "XfbBuffer", &[L]), (37, "XfbStride", &[L]),
    (38, "FuncParamAttr", &[En(E::ParamAttr)]), (39, "FPRoundingMode", &[En(E::Rounding)]),
    (40, "FPFastMathMode", &[Mk(M::FastMath)]), (41, "LinkageAttributes", &[S, En(E::Linkage)]),
    (42, "NoContraction", &[]), (43, "InputAttachmentIndex", &[L]), (44, "Alignment", &[L]),
];
static BI: &[En_] = &[
    (0, "Position", &[]), (1, "PointSize", &[]), (3, "ClipDistance", &[]), (4, "CullDistance", &[]),
    (5, "VertexId", &[]), (6, "InstanceId", &[]), (7, "PrimitiveId", &[]), (8, "InvocationId", &[]), (9, "Layer", &[]),
    (10, "ViewportIndex", &[]), (11, "TessLevelOuter", &[]), (12, "TessLevelInner", &[]), (13, "TessCoord", &[]),
    (14, "PatchVertices", &[]), (15, "FragCoord", &[]), (16, "PointCoord", &[]), (17, "FrontFacing", &[]),
    (18, "SampleId", &[]), (19, "SamplePosition", &[]), (20, "SampleMask", &[]), (22, "FragDepth", &[]),
    (23, "HelperInvocation", &[]), (24, "NumWorkgroups", &[]), (25, "WorkgroupSize", &[]), (26, "WorkgroupId", &[]),
    (27, "LocalInvocationId", &[]), (28, "GlobalInvocationId", &[]), (29, "LocalInvocationIndex", &[]),
    (30, "WorkDim", &[]), (31, "GlobalSize", &[]), (32, "EnqueuedWorkgroupSize", &[]), (33, "GlobalOffset", &[]),
    (34, "GlobalLinearId", &[]), (36, "SubgroupSize", &[]), (37, "SubgroupMaxSize", &[]), (38, "NumSubgroups", &[]),
    (39, "NumEnqueuedSubgroups", &[]), (40, "SubgroupId", &[]), (41, "SubgroupLocalInvocationId", &[]),
    (42, "VertexIndex", &[]), (43, "InstanceIndex", &[]),
];
static PA: &[En_] = &[
    (0, "Zext", &[]),
    (1, "Sext", &[]),
    (2, "ByVal", &[]),
    (3, "Sret", &[]),
    (4, "NoAlias", &[]),
    (5, "NoCapture", &[]),
    (6, "NoWrite", &[]),
    (7, "NoReadWrite", &[]),
];
static RND: &[En_] = &[(0, "RTE", &[]), (1, "RTZ", &[]), (2, "RTP", &[]), (3, "RTN", &[])];
static LINK: &[En_] = &[(0, "Export", &[]), (1, "Import", &[])];

impl E {
    pub const ALL: &'static [E] = &[
        E::Src, E::AddrModel, E::MemModel, E::ExecModel, E::ExecMode, E::Cap, E::Sign, E::Dim, E::Depth, E::Arrayed,
        E::Ms, E::Sampled, E::Format, E::Access, E::Storage, E::Deco, E::BuiltIn, E::ParamAttr, E::Rounding, E::Linkage,
    ];
    pub fn table(self) -> &'static [En_] {
        match self {
            E::Src => SRC,
            E::AddrModel => ADDR,
            E::MemModel => MEM,
            E::ExecModel => EXEC,
            E::ExecMode => MODE,
            E::Cap => CAP,
            E::Sign => SIGN,
            E::Dim => DIM,
            E::Depth => NUM3,
            E::Arrayed => NUM2,
            E::Ms => NUM2,
            E::Sampled => NUM3,
            E::Format => FMT,
            E::Access => ACC,
            E::Storage => STO,
            E::Deco => DECO,
            E::BuiltIn => BI,
            E::ParamAttr => PA,
            E::Rounding => RND,
            E::Linkage => LINK,
        }
    }
    pub fn find(self, code: u32) -> Option<&'static En_> {
        self.table().iter().find(|e| e.0 == code)
    }
    /// Every word is a value of an open enumeration
    pub fn open(self) -> bool {
        self == E::Src
    }
    pub fn unknown(self, w: u32) -> ReadError {
        match self {
            E::Src => unreachable!(),
            E::AddrModel => ReadError::UnknownAddressingModel(w),
            E::MemModel => ReadError::UnknownMemoryModel(w),
            E::ExecModel => ReadError::UnknownExecutionModel(w),
            E::ExecMode => ReadError::UnknownExecutionMode(w),
            E::Cap => ReadError::UnknownCapability(w),
            E::Sign => ReadError::UnknownSignedness(w),
            E::Dim => ReadError::UnknownDim(w),
            E::Depth => ReadError::UnknownDepthStatus(w),
            E::Arrayed => ReadError::UnknownArrayed(w),
            E::Ms => ReadError::UnknownMS(w),
            E::Sampled => ReadError::UnknownSampledStatus(w),
            E::Format => ReadError::UnknownImageFormat(w),
            E::Access => ReadError::UnknownAccessQualifier(w),
            E::Storage => ReadError::UnknownStorageClass(w),
            E::Deco => ReadError::UnknownDecoration(w),
            E::BuiltIn => ReadError::UnknownBuiltIn(w),
            E::ParamAttr => ReadError::UnknownFunctionParameterAttribute(w),
            E::Rounding => ReadError::UnknownFpRoundingMode(w),
            E::Linkage => ReadError::UnknownLinkageType(w),
        }
    }
}

impl M {
    pub const ALL: &'static [M] = &[M::FnControl, M::MemAccess, M::FastMath, M::LoopControl, M::SelControl];
    /// (bit, name, has literal)
    pub fn bits(self) -> &'static [(u32, &'static str, bool)] {
        match self {
            M::FnControl => &[(1, "Inline", false), (2, "DontInline", false), (4, "Pure", false), (8, "Const", false)],
            M::MemAccess => &[(1, "Volatile", false), (2, "Aligned", true), (4, "Nontemporal", false)],
            M::FastMath => {
                &[(1, "NotNaN", false), (2, "NotInf", false), (4, "NSZ", false), (8, "AllowRecip", false), (16, "Fast", false)]
            }
            M::LoopControl => {
                &[(1, "Unroll", false), (2, "DontUnroll", false), (4, "DependencyInfinite", false), (8, "DependencyLength", true)]
            }
            M::SelControl => &[(1, "Flatten", false), (2, "DontFlatten", false)],
        }
    }
    pub fn mask(self) -> u32 {
        self.bits().iter().map(|b| b.0).sum()
    }
    pub fn lits(self, w: u32) -> usize {
        self.bits().iter().filter(|b| b.2 && w & b.0 != 0).count()
    }
    pub fn unknown(self, w: u32) -> ReadError {
        match self {
            M::FnControl => ReadError::UnknownFunctionControl(w),
            M::MemAccess => ReadError::UnknownMemoryAccess(w),
            M::FastMath => ReadError::UnknownFpFastMathMode(w),
            M::LoopControl => ReadError::UnknownLoopControl(w),
            M::SelControl => ReadError::UnknownSelectionControl(w),
        }
    }
}

// ---------------------------------------------------------------- encoding

pub fn str_words(s: &[u8], out: &mut Vec<u32>) {
    let mut b = s.to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    for c in b.chunks(4) {
        out.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
    }
}

pub fn enc_val(v: &V, out: &mut Vec<u32>) {
    match v {
        V::Id(n) | V::Lit(n) => out.push(*n),
        V::Str(s) => str_words(s.as_bytes(), out),
        V::En(_, c, ps) | V::Mk(_, c, ps) | V::Ext(_, c, ps) => {
            out.push(*c);
            for p in ps {
                enc_val(p, out);
            }
        }
        V::Absent => {}
        V::List(vs) => {
            for v in vs {
                enc_val(v, out);
            }
        }
        V::Pair(a, b, _) => {
            out.push(*a);
            out.push(*b);
        }
    }
}

pub fn enc_inst(i: &Inst, out: &mut Vec<u32>) {
    let at = out.len();
    out.push(0);
    for v in &i.vals {
        enc_val(v, out);
    }
    let wc = out.len() - at;
    assert!(wc <= 0xFFFF);
    out[at] = (wc as u32) << 16 | i.op as u32;
}

pub const MAGIC: u32 = 0x07230203;
pub const VERSION_WORD: u32 = 0x0001_0000;

pub fn header(bound: u32) -> Vec<u32> {
    vec![MAGIC, VERSION_WORD, 0x0008_0001, bound, 0]
}

pub fn to_bytes(words: &[u32], le: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(words.len() * 4);
    for w in words {
        b.extend_from_slice(&if le { w.to_le_bytes() } else { w.to_be_bytes() });
    }
    b
}

pub fn module_words(insts: &[Inst]) -> Vec<u32> {
    let mut w = header(1000);
    for i in insts {
        enc_inst(i, &mut w);
    }
    w
}

// ---------------------------------------------------------------- reference decoder

/// An extended instruction set of the caller
#[derive(Clone, Debug)]
pub struct SetSpec {
    pub name: &'static str,
    /// number, name, operand kinds
    pub insts: Vec<(u32, &'static str, Vec<K>)>,
}

pub fn glsl_spec() -> SetSpec {
    SetSpec { name: "GLSL.std.450", insts: vec![(13, "Sin", vec![I]), (14, "Cos", vec![I])] }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Module {
    pub generator: u32,
    pub bound: u32,
    pub insts: Vec<Inst>,
}

pub enum Expect {
    Ok(Module),
    /// Exactly this error
    Err(ReadError),
    /// Several independent faults: some error
    AnyErr(Vec<ReadError>),
}

pub struct Dec<'a> {
    w: &'a [u32],
    pos: usize,
    pub faults: Vec<ReadError>,
    dead: bool,
}

impl<'a> Dec<'a> {
    pub fn new(w: &'a [u32]) -> Dec<'a> {
        Dec { w, pos: 0, faults: vec![], dead: false }
    }
    pub fn left(&self) -> usize {
        self.w.len() - self.pos
    }
    fn word(&mut self) -> u32 {
        if self.pos < self.w.len() {
            self.pos += 1;
            self.w[self.pos - 1]
        } else {
            if !self.dead {
                self.faults.push(ReadError::UnexpectedEndOfInstruction);
                self.dead = true;
            }
            0
        }
    }
    fn string(&mut self) -> V {
        let mut b = vec![];
        'o: loop {
            let x = self.word();
            if self.dead {
                break;
            }
            for k in 0..4 {
                let c = (x >> (8 * k)) as u8;
                if c == 0 {
                    break 'o;
                }
                b.push(c);
            }
        }
        match String::from_utf8(b) {
            Ok(s) => V::Str(s),
            Err(_) => {
                self.faults.push(ReadError::InvalidString);
                V::Str(String::new())
            }
        }
    }
    fn enumerant(&mut self, e: E) -> V {
        let w = self.word();
        if self.dead {
            return V::Absent;
        }
        match e.find(w) {
            Some(t) => {
                let ps = t.2.iter().map(|k| self.val(*k)).collect();
                V::En(e, w, ps)
            }
            None if e.open() => V::En(e, w, vec![]),
            None => {
                self.faults.push(e.unknown(w));
                V::Absent
            }
        }
    }
    fn mask(&mut self, m: M) -> V {
        let w = self.word();
        if self.dead {
            return V::Absent;
        }
        if w & !m.mask() != 0 {
            self.faults.push(m.unknown(w));
            return V::Absent;
        }
        let ps = (0..m.lits(w)).map(|_| V::Lit(self.word())).collect();
        V::Mk(m, w, ps)
    }
    pub fn val(&mut self, k: K) -> V {
        match k {
            T | R | I => V::Id(self.word()),
            L => V::Lit(self.word()),
            S => self.string(),
            OptI => {
                if self.left() == 0 {
                    V::Absent
                } else {
                    V::Id(self.word())
                }
            }
            OptS => {
                if self.left() == 0 {
                    V::Absent
                } else {
                    self.string()
                }
            }
            ManyI => {
                let mut v = vec![];
                while self.left() > 0 {
                    v.push(V::Id(self.word()));
                }
                V::List(v)
            }
            ManyL => {
                let mut v = vec![];
                while self.left() > 0 {
                    v.push(V::Lit(self.word()));
                }
                V::List(v)
            }
            ManyPhi => {
                let mut v = vec![];
                while self.left() > 0 {
                    let a = self.word();
                    v.push(V::Pair(a, self.word(), true));
                }
                V::List(v)
            }
            OptW => {
                if self.left() == 0 {
                    V::Absent
                } else {
                    let a = self.word();
                    V::Pair(a, self.word(), false)
                }
            }
            En(e) => self.enumerant(e),
            OptEn(e) => {
                if self.left() == 0 {
                    V::Absent
                } else {
                    self.enumerant(e)
                }
            }
            Mk(m) => self.mask(m),
            OptMk(m) => {
                if self.left() == 0 {
                    V::Absent
                } else {
                    self.mask(m)
                }
            }
            Ext => unreachable!(),
        }
    }
}

/// State of the reference reader between two instructions: the bound sets
#[derive(Clone, Default, Debug)]
pub struct Bound(pub Vec<(u32, usize)>);

/// Decode one instruction from its operand words
pub fn dec_inst(op: &'static OpDef, words: &[u32], sets: &[SetSpec], bound: &mut Bound) -> (Inst, Vec<ReadError>) {
    let mut d = Dec::new(words);
    let mut vals = vec![];
    let mut stop = false;
    for k in op.kinds {
        match *k {
            Ext => {
                let set_id = match vals[2] {
                    V::Id(n) => n,
                    _ => unreachable!(),
                };
                let num = d.word();
                if d.dead {
                    break;
                }
                match bound.0.iter().find(|b| b.0 == set_id) {
                    None => {
                        d.faults.push(ReadError::UnknownInstSetId(OpId(set_id)));
                        stop = true;
                        vals.push(V::Absent);
                    }
                    Some(&(_, s)) => match sets[s].insts.iter().find(|i| i.0 == num) {
                        None => {
                            d.faults.push(ReadError::UnknownExtInstOp(sets[s].name, num));
                            stop = true;
                            vals.push(V::Absent);
                        }
                        Some(inst) => {
                            let ps = inst.2.iter().map(|k| d.val(*k)).collect();
                            vals.push(V::Ext(inst.1, num, ps));
                        }
                    },
                }
            }
            k => vals.push(d.val(k)),
        }
        if d.dead {
            break;
        }
    }
    if !d.dead && !stop && d.left() > 0 {
        d.faults.push(ReadError::InstructionHadExcessData);
    }
    if op.code == 11 && !d.dead && vals.len() == 2 && !d.faults.contains(&ReadError::InvalidString) {
        if let (V::Id(r), V::Str(name)) = (&vals[0], &vals[1]) {
            match sets.iter().position(|s| s.name == name) {
                None => d.faults.push(ReadError::UnknownInstSet(name.clone())),
                Some(s) => {
                    if bound.0.iter().any(|b| b.0 == *r) {
                        d.faults.push(ReadError::DuplicateResultId(ResultId(*r)));
                    } else {
                        bound.0.push((*r, s));
                    }
                }
            }
        }
    }
    (Inst { op: op.code, vals }, d.faults)
}

pub fn faults_to_expect(mut f: Vec<ReadError>) -> Expect {
    if f.len() == 1 {
        Expect::Err(f.pop().unwrap())
    } else {
        Expect::AnyErr(f)
    }
}

/// Reference reader
pub fn decode(data: &[u8], sets: &[SetSpec]) -> Expect {
    let odd = data.len() % 4 != 0;
    let short = || if odd { ReadError::UnexpectedStreamAlignment } else { ReadError::UnexpectedEndOfStream };
    let nw = data.len() / 4;
    let fail = |mut f: Vec<ReadError>| {
        if odd && !f.contains(&ReadError::UnexpectedStreamAlignment) {
            f.push(ReadError::UnexpectedStreamAlignment);
        }
        faults_to_expect(f)
    };
    if nw == 0 {
        return fail(vec![short()]);
    }
    let magic = u32::from_le_bytes([data[0], data[1], data[2], data[3]]);
    let le = if magic == MAGIC {
        true
    } else if magic == MAGIC.swap_bytes() {
        false
    } else {
        let mut f = vec![ReadError::BadMagic];
        if nw < 5 {
            f.push(short());
        }
        return fail(f);
    };
    let w: Vec<u32> = data
        .chunks_exact(4)
        .map(|c| {
            let a = [c[0], c[1], c[2], c[3]];
            if le {
                u32::from_le_bytes(a)
            } else {
                u32::from_be_bytes(a)
            }
        })
        .collect();
    let mut f = vec![];
    if nw > 1 && w[1] != VERSION_WORD {
        f.push(ReadError::UnknownVersionBytes((w[1] >> 24) as u8, (w[1] >> 16) as u8, (w[1] >> 8) as u8, w[1] as u8));
    }
    if nw > 4 && w[4] != 0 {
        f.push(ReadError::UnknownReservedSchema);
    }
    if nw < 5 {
        f.push(short());
    }
    if !f.is_empty() {
        return fail(f);
    }
    let mut pos = 5;
    let mut insts = vec![];
    let mut bound = Bound::default();
    while pos < nw {
        let head = w[pos];
        let op = head as u16;
        let wc = (head >> 16) as usize;
        let class = op_class(op);
        let mut f = vec![];
        match class {
            OpClass::Unimpl(n) => f.push(ReadError::UnimplementedOp(n)),
            OpClass::Unknown => f.push(ReadError::UnknownOp(op, wc as u16)),
            _ => {}
        }
        if wc == 0 {
            f.push(ReadError::WrongWordCountForOp);
            return fail(f);
        }
        if pos + wc > nw {
            if let OpClass::Known(d) = class {
                let mut ops = w[pos + 1..].to_vec();
                ops.resize(wc - 1, 0);
                let (_, g) = dec_inst(d, &ops, sets, &mut bound.clone());
                f.extend(g);
            }
            f.push(short());
            return fail(f);
        }
        if !f.is_empty() {
            return fail(f);
        }
        if let OpClass::Known(d) = class {
            let (i, g) = dec_inst(d, &w[pos + 1..pos + wc], sets, &mut bound);
            if !g.is_empty() {
                return fail(g);
            }
            insts.push(i);
        }
        pos += wc;
    }
    if odd {
        return fail(vec![ReadError::UnexpectedStreamAlignment]);
    }
    Expect::Ok(Module { generator: w[2], bound: w[3], insts })
}

// ---------------------------------------------------------------- reference disassembler

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

pub fn mask_text(m: M, w: u32, ps: &[V]) -> String {
    let mut parts = vec![];
    let mut lit = ps.iter();
    for b in m.bits() {
        if w & b.0 != 0 {
            if b.2 {
                match lit.next() {
                    Some(V::Lit(n)) => parts.push(format!("{}({})", b.1, n)),
                    _ => parts.push(format!("{}(?)", b.1)),
                }
            } else {
                parts.push(b.1.to_string());
            }
        }
    }
    if parts.is_empty() {
        "None".into()
    } else {
        parts.join(" | ")
    }
}

pub fn val_text(v: &V) -> String {
    match v {
        V::Id(n) => format!("%{}", n),
        V::Lit(n) => format!("{}", n),
        V::Str(s) => quote(s),
        V::En(e, c, ps) => match e.find(*c) {
            Some(t) => {
                let mut o = t.1.to_string();
                for p in ps {
                    o.push(' ');
                    o.push_str(&val_text(p));
                }
                o
            }
            None => format!("Unknown({})", c),
        },
        V::Mk(m, w, ps) => mask_text(*m, *w, ps),
        V::Absent => String::new(),
        V::List(vs) => vs.iter().map(val_text).collect::<Vec<_>>().join(" "),
        V::Pair(a, b, ids) => {
            if *ids {
                format!("%{} %{}", a, b)
            } else {
                format!("{} {}", a, b)
            }
        }
        V::Ext(name, _, ps) => {
            let mut o = name.to_string();
            for p in ps {
                let t = val_text(p);
                if !t.is_empty() {
                    o.push(' ');
                    o.push_str(&t);
                }
            }
            o
        }
    }
}

pub fn inst_text(i: &Inst) -> String {
    let d = def(i.op);
    let mut o = match d.kinds.iter().position(|k| *k == R) {
        Some(p) => format!("{:>12} = {}", val_text(&i.vals[p]), d.name),
        None => format!("{:15}{}", "", d.name),
    };
    for (k, v) in d.kinds.iter().zip(&i.vals) {
        if *k == R {
            continue;
        }
        let t = val_text(v);
        if !t.is_empty() {
            o.push(' ');
            o.push_str(&t);
        }
    }
    o
}

pub fn generator_text(word: u32) -> String {
    let name = match word >> 16 {
        0 => "Khronos",
        1 => "LunarG",
        2 => "Valve",
        3 => "Codeplay",
        4 => "NVIDIA",
        5 => "ARM",
        6 => "Khronos LLVM/SPIR-V Translator",
        7 => "Khronos SPIR-V Tools Assembler",
        8 => "Khronos Glslang Reference Front End",
        9 => "Qualcomm",
        10 => "AMD",
        11 => "Intel",
        _ => "Unknown",
    };
    format!("{}; {}", name, word & 0xFFFF)
}

pub fn module_text(m: &Module) -> String {
    let mut o = format!(
        "; SPIR-V\n; Version: 1.0\n; Generator: {}\n; Bound: {}\n; Schema: 0\n",
        generator_text(m.generator),
        m.bound
    );
    for i in &m.insts {
        o.push_str(&inst_text(i));
        o.push('\n');
    }
    o
}
