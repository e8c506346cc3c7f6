//! Instructions the library defines but neither reads nor puts into a module: their texts
//! (C10) and their equality (C19). The operands' kinds are the specification's: `i` for ids,
//! `l` for everything else.

use magmaflow::spv::op::*;
use magmaflow::spv::types::*;

/// Values of an operand: number 0 is the default at a position, the others differ from it and
/// from each other
pub trait Cand: Sized {
    fn cand(pos: u32, k: usize) -> Option<Self>;
    /// The words of its text, without the sign of an id
    fn raw(&self) -> Vec<String>;
}

fn num(pos: u32, k: usize) -> Option<u32> {
    let all = [100 + pos, 0, 1, 2, 9, 10, 99, 1000, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0064 + pos, 200 + pos];
    all.get(k).cloned()
}

macro_rules! num_cand {
    ($($t: ident)*) => {
        $(impl Cand for $t {
            fn cand(pos: u32, k: usize) -> Option<$t> {
                num(pos, k).map($t)
            }
            fn raw(&self) -> Vec<String> {
                vec![self.0.to_string()]
            }
        })*
    };
}

num_cand!(OpId ResultId MemberIndex Line Column ScopeId MemorySemanticsId);

impl Cand for u32 {
    fn cand(pos: u32, k: usize) -> Option<u32> {
        num(pos, k)
    }
    fn raw(&self) -> Vec<String> {
        vec![self.to_string()]
    }
}

macro_rules! enum_cand {
    ($t: ident; $($v: ident = $n: expr),*) => {
        impl Cand for $t {
            fn cand(_: u32, k: usize) -> Option<$t> {
                vec![$($t::$v),*].into_iter().nth(k)
            }
            fn raw(&self) -> Vec<String> {
                $(if let $t::$v = *self {
                    return vec![$n.to_string()];
                })*
                vec![]
            }
        }
    };
}

enum_cand!(SamplerAddressingMode; RepeatMirrored = "RepeatMirrored", None = "None", ClampToEdge = "ClampToEdge", Clamp = "Clamp", Repeat = "Repeat");
enum_cand!(SamplerParam; NonNormalized = "0", Normalized = "1");
enum_cand!(SamplerFilterMode; Nearest = "Nearest", Linear = "Linear");
enum_cand!(StorageClass; UniformConstant = "UniformConstant", Input = "Input", Uniform = "Uniform", Output = "Output", Workgroup = "Workgroup",
    CrossWorkgroup = "CrossWorkgroup", Private = "Private", Function = "Function", Generic = "Generic", PushConstant = "PushConstant",
    AtomicCounter = "AtomicCounter", Image = "Image");
enum_cand!(GroupOperation; Reduce = "Reduce", InclusiveScan = "InclusiveScan", ExclusiveScan = "ExclusiveScan");

impl<T: Cand> Cand for Vec<T> {
    fn cand(pos: u32, k: usize) -> Option<Vec<T>> {
        let at = |i: u32| T::cand(pos + 10 * i, 0);
        match k {
            0 => Some((0..2).filter_map(at).collect()),
            1..=12 => Some((0..if k < 3 { k as u32 - 1 } else { k as u32 }).filter_map(at).collect()),
            13 => Some((0..2).rev().filter_map(at).collect()),
            14..=27 => {
                let x = T::cand(pos, k - 13)?;
                Some(vec![x, at(1)?])
            }
            28..=41 => {
                let x = T::cand(pos + 10, k - 27)?;
                Some(vec![at(0)?, x])
            }
            _ => None,
        }
    }
    fn raw(&self) -> Vec<String> {
        self.iter().flat_map(|x| x.raw()).collect()
    }
}

impl<T: Cand> Cand for Option<T> {
    fn cand(pos: u32, k: usize) -> Option<Option<T>> {
        match k {
            0 => T::cand(pos, 0).map(Some),
            1 => Some(None),
            _ => T::cand(pos, k - 1).map(Some),
        }
    }
    fn raw(&self) -> Vec<String> {
        self.iter().flat_map(|x| x.raw()).collect()
    }
}

impl<A: Cand, B: Cand> Cand for (A, B) {
    fn cand(pos: u32, k: usize) -> Option<(A, B)> {
        if k % 2 == 0 {
            Some((A::cand(pos, k / 2)?, B::cand(pos + 5, 0)?))
        } else {
            Some((A::cand(pos, 0)?, B::cand(pos + 5, k / 2 + 1)?))
        }
    }
    fn raw(&self) -> Vec<String> {
        let mut v = self.0.raw();
        v.extend(self.1.raw());
        v
    }
}

impl Cand for MemoryAccess {
    fn cand(_: u32, k: usize) -> Option<MemoryAccess> {
        let al = [None, Some(0), Some(1), Some(16), Some(0xFFFF_FFFF)];
        if k < 20 {
            Some(MemoryAccess { volatile: k & 1 != 0, non_temporal: k & 2 != 0, aligned: al[k >> 2].clone() })
        } else {
            None
        }
    }
    fn raw(&self) -> Vec<String> {
        let mut v = vec![];
        if self.volatile {
            v.push("Volatile".to_string());
        }
        if let Some(n) = self.aligned {
            v.push(format!("Aligned({})", n));
        }
        if self.non_temporal {
            v.push("Nontemporal".to_string());
        }
        if v.is_empty() {
            v.push("None".to_string());
        }
        vec![v.join(" | ")]
    }
}

impl Cand for ImageOperands {
    fn cand(pos: u32, k: usize) -> Option<ImageOperands> {
        let id = |b: usize| if k >> b & 1 != 0 { Some(OpId(100 + pos + b as u32)) } else { None };
        if k < 128 {
            return Some(ImageOperands {
                bias: id(0),
                lod: id(1),
                grad: id(2).map(|i| (OpId(i.0 + 50), i)),
                const_offset: id(3),
                offset: id(4),
                const_offsets: id(5),
                min_lod: id(6),
            });
        }
        // other ids, one at a time
        let mut x = ImageOperands::cand(pos, 127)?;
        match k - 128 {
            0 => x.bias = Some(OpId(7)),
            1 => x.lod = Some(OpId(7)),
            2 => x.grad = x.grad.map(|g| (OpId(7), g.1)),
            3 => x.grad = x.grad.map(|g| (g.0, OpId(7))),
            4 => x.const_offset = Some(OpId(7)),
            5 => x.offset = Some(OpId(7)),
            6 => x.const_offsets = Some(OpId(7)),
            7 => x.min_lod = Some(OpId(7)),
            _ => return None,
        }
        Some(x)
    }
    fn raw(&self) -> Vec<String> {
        vec![]
    }
}

pub trait Visit {
    /// All values of one instruction, pairwise different, with their texts if they have some:
    /// the library's and the expected one
    fn see<T: Clone + PartialEq + std::fmt::Debug>(&mut self, name: &'static str, all: Vec<T>, text: Option<&dyn Fn(&T) -> (String, String)>);
}

macro_rules! field_text {
    ($x: expr, i) => {
        $x.raw().iter().map(|s| format!(" %{}", s)).collect::<String>()
    };
    ($x: expr, l) => {
        $x.raw().iter().map(|s| format!(" {}", s)).collect::<String>()
    };
}

macro_rules! named {
    ($v: expr, $n: ident, $d: tt; $($f: ident : $k: tt)*) => {{
        let mut pos = 0;
        let mut next = || {
            pos += 1;
            pos
        };
        let base = $n { $($f: Cand::cand(next(), 0).unwrap()),* };
        let mut all = vec![base.clone()];
        let mut pos = 0;
        $(
            pos += 1;
            let mut k = 1;
            while let Some(x) = Cand::cand(pos, k) {
                let mut b = base.clone();
                b.$f = x;
                all.push(b);
                k += 1;
            }
        )*
        named_text!($v, $n, $d, all; $($f : $k)*);
    }};
}

macro_rules! named_text {
    ($v: expr, $n: ident, false, $all: expr; $($f: ident : $k: tt)*) => {
        $v.see(stringify!($n), $all, None);
    };
    ($v: expr, $n: ident, true, $all: expr; $($f: ident : $k: tt)*) => {
        $v.see(stringify!($n), $all, Some(&|x: &$n| {
            let mut res = String::new();
            let mut rest = String::new();
            $(
                if stringify!($f) == "result_id" {
                    res = format!("{} =", field_text!(x.$f, i));
                } else {
                    rest += &field_text!(x.$f, $k);
                }
            )*
            (x.to_string(), format!("{} {}{}", res, stringify!($n), rest))
        }));
    };
}

macro_rules! unit {
    ($v: expr, $n: ident, true) => {
        $v.see(stringify!($n), vec![$n], Some(&|x: &$n| (x.to_string(), stringify!($n).to_string())));
    };
    ($v: expr, $n: ident, false) => {
        $v.see(stringify!($n), vec![$n], None);
    };
}

macro_rules! tup {
    ($v: expr, $n: ident; $($i: tt)*) => {{
        let base = $n($(Cand::cand($i, 0).unwrap()),*);
        let mut all = vec![base.clone()];
        $(
            let mut k = 1;
            while let Some(x) = Cand::cand($i, k) {
                let mut b = base.clone();
                b.$i = x;
                all.push(b);
                k += 1;
            }
        )*
        $v.see(stringify!($n), all, None);
    }};
}

pub fn texts<F: Visit>(f: &mut F) {
    named!(f, OpLine, true; file:i line:l column:l);
    named!(f, OpDecorationGroup, true; result_id:i);
    named!(f, OpGroupDecorate, true; decoration_group:i targets:i);
    named!(f, OpTypeReserveId, true; result_id:i);
    named!(f, OpConstantTrue, true; result_type:i result_id:i);
    named!(f, OpConstantFalse, true; result_type:i result_id:i);
    named!(f, OpConstantSampler, true; result_type:i result_id:i addressing_mode:l param:l filter_mode:l);
    named!(f, OpConstantNull, true; result_type:i result_id:i);
    named!(f, OpSpecConstantTrue, true; result_type:i result_id:i);
    named!(f, OpSpecConstantFalse, true; result_type:i result_id:i);
    named!(f, OpSpecConstant, true; result_type:i result_id:i value:l);
    named!(f, OpSpecConstantComposite, true; result_type:i result_id:i constituents:i);
    named!(f, OpImageTexelPointer, true; result_type:i result_id:i image:i coordinate:i sample:i);
    named!(f, OpCopyMemory, true; target:i source:i memory_access:l);
    named!(f, OpCopyMemorySized, true; target:i source:i size:i memory_access:l);
    named!(f, OpInBoundsAccessChain, true; result_type:i result_id:i base:i indexes:i);
    named!(f, OpPtrAccessChain, true; result_type:i result_id:i base:i element:i indexes:i);
    named!(f, OpArrayLength, true; result_type:i result_id:i structure:i array_member:l);
    named!(f, OpGenericPtrMemSemantics, true; result_type:i result_id:i pointer:i);
    named!(f, OpInBoundsPtrAccessChain, true; result_type:i result_id:i base:i element:i indexes:i);
    named!(f, OpFunctionCall, true; result_type:i result_id:i function:i arguments:i);
    named!(f, OpSampledImage, true; result_type:i result_id:i image:i sampler:i);
    named!(f, OpConvertFToU, true; result_type:i result_id:i float_value:i);
    named!(f, OpConvertFToS, true; result_type:i result_id:i float_value:i);
    named!(f, OpConvertSToF, true; result_type:i result_id:i signed_value:i);
    named!(f, OpUConvert, true; result_type:i result_id:i unsigned_value:i);
    named!(f, OpSConvert, true; result_type:i result_id:i signed_value:i);
    named!(f, OpFConvert, true; result_type:i result_id:i float_value:i);
    named!(f, OpQuantizeToF16, true; result_type:i result_id:i value:i);
    named!(f, OpConvertPtrToU, true; result_type:i result_id:i pointer:i);
    named!(f, OpSatConvertSToU, true; result_type:i result_id:i signed_value:i);
    named!(f, OpSatConvertUToS, true; result_type:i result_id:i unsigned_value:i);
    named!(f, OpConvertUToPtr, true; result_type:i result_id:i integer_value:i);
    named!(f, OpPtrCastToGeneric, true; result_type:i result_id:i pointer:i);
    named!(f, OpGenericCastToPtr, true; result_type:i result_id:i pointer:i);
    named!(f, OpGenericCastToPtrExplicit, true; result_type:i result_id:i pointer:i storage_class:l);
    named!(f, OpVectorExtractDynamic, true; result_type:i result_id:i vector:i index:i);
    named!(f, OpVectorInsertDynamic, true; result_type:i result_id:i vector:i component:i index:i);
    named!(f, OpVectorShuffle, true; result_type:i result_id:i operand1:i operand2:i components:l);
    named!(f, OpCompositeConstruct, true; result_type:i result_id:i constituents:i);
    named!(f, OpCompositeExtract, true; result_type:i result_id:i composite:i indexes:l);
    named!(f, OpCompositeInsert, true; result_type:i result_id:i object:i composite:i indexes:l);
    named!(f, OpCopyObject, true; result_type:i result_id:i operand:i);
    named!(f, OpTranspose, true; result_type:i result_id:i matrix:i);
    named!(f, OpSNegate, true; result_type:i result_id:i operand:i);
    named!(f, OpFNegate, true; result_type:i result_id:i operand:i);
    named!(f, OpVectorTimesScalar, true; result_type:i result_id:i vector:i scalar:i);
    named!(f, OpMatrixTimesScalar, true; result_type:i result_id:i matrix:i scalar:i);
    named!(f, OpVectorTimesMatrix, true; result_type:i result_id:i vector:i matrix:i);
    named!(f, OpMatrixTimesVector, true; result_type:i result_id:i matrix:i vector:i);
    named!(f, OpMatrixTimesMatrix, true; result_type:i result_id:i left_matrix:i right_matrix:i);
    named!(f, OpOuterProduct, true; result_type:i result_id:i vector1:i vector2:i);
    named!(f, OpDot, true; result_type:i result_id:i vector1:i vector2:i);
    named!(f, OpShiftRightLogical, true; result_type:i result_id:i base:i shift:i);
    named!(f, OpShiftRightArithmetic, true; result_type:i result_id:i base:i shift:i);
    named!(f, OpShiftLeftLogical, true; result_type:i result_id:i base:i shift:i);
    named!(f, OpNot, true; result_type:i result_id:i operand:i);
    unit!(f, OpNoLine, true);
}

pub fn others<F: Visit>(f: &mut F) {
    named!(f, OpGroupMemberDecorate, false; decoration_group:i targets:i);
    tup!(f, OpImageSampledImplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSampledExplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSampleDrefImplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSampleDrefExplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSampleProjImplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSampleProjExplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSampleProjDrefImplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSampleProjDrefExplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageFetch; 0 1 2 3 4);
    tup!(f, OpImageGather; 0 1 2 3 4 5);
    tup!(f, OpImageDrefGather; 0 1 2 3 4 5);
    tup!(f, OpImageRead; 0 1 2 3 4);
    tup!(f, OpImageWrite; 0 1 2 3);
    tup!(f, OpImage; 0 1 2);
    tup!(f, OpImageQueryFormat; 0 1 2);
    tup!(f, OpImageQueryOrder; 0 1 2);
    tup!(f, OpImageQuerySizeLod; 0 1 2 3);
    tup!(f, OpImageQuerySize; 0 1 2);
    tup!(f, OpImageQueryLod; 0 1 2 3);
    tup!(f, OpImageQueryLevels; 0 1 2);
    tup!(f, OpImageQuerySamples; 0 1 2);
    tup!(f, OpImageSparseSampleImplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSparseSampleExplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSparseSampleDrefImplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSparseSampleDrefExplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSparseSampleProjImplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSparseSampleProjExplicitLod; 0 1 2 3 4);
    tup!(f, OpImageSparseSampleProjDrefImplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSparseSampleProjDrefExplicitLod; 0 1 2 3 4 5);
    tup!(f, OpImageSparseFetch; 0 1 2 3 4);
    tup!(f, OpImageSparseGather; 0 1 2 3 4 5);
    tup!(f, OpImageSparseDrefGather; 0 1 2 3 4 5);
    tup!(f, OpImageSparseTexelsResident; 0 1 2);
    tup!(f, OpImageSparseRead; 0 1 2 3 4);
    tup!(f, OpBitFieldInsert; 0 1 2 3 4 5);
    tup!(f, OpBitFieldSExtract; 0 1 2 3 4);
    tup!(f, OpBitFieldUExtract; 0 1 2 3 4);
    tup!(f, OpBitReverse; 0 1 2);
    tup!(f, OpBitCount; 0 1 2);
    tup!(f, OpAny; 0 1 2);
    tup!(f, OpAll; 0 1 2);
    tup!(f, OpIsNan; 0 1 2);
    tup!(f, OpIsInf; 0 1 2);
    tup!(f, OpIsFinite; 0 1 2);
    tup!(f, OpIsNormal; 0 1 2);
    tup!(f, OpSignBitSet; 0 1 2);
    tup!(f, OpLessOrGreater; 0 1 2 3);
    tup!(f, OpOrdered; 0 1 2 3);
    tup!(f, OpUnordered; 0 1 2 3);
    tup!(f, OpLogicalEqual; 0 1 2 3);
    tup!(f, OpLogicalNotEqual; 0 1 2 3);
    tup!(f, OpLogicalOr; 0 1 2 3);
    tup!(f, OpLogicalAnd; 0 1 2 3);
    tup!(f, OpLogicalNot; 0 1 2);
    tup!(f, OpSelect; 0 1 2 3 4);
    tup!(f, OpDPdx; 0 1 2);
    tup!(f, OpDPdy; 0 1 2);
    tup!(f, OpFwidth; 0 1 2);
    tup!(f, OpDPdxFine; 0 1 2);
    tup!(f, OpDPdyFine; 0 1 2);
    tup!(f, OpFwidthFine; 0 1 2);
    tup!(f, OpDPdxCoarse; 0 1 2);
    tup!(f, OpDPdyCoarse; 0 1 2);
    tup!(f, OpFwidthCoarse; 0 1 2);
    tup!(f, OpSwitch; 0 1 2);
    tup!(f, OpReturnValue; 0);
    tup!(f, OpLifetimeStart; 0 1);
    tup!(f, OpLifetimeStop; 0 1);
    tup!(f, OpAtomicLoad; 0 1 2 3 4);
    tup!(f, OpAtomicStore; 0 1 2 3);
    tup!(f, OpAtomicExchange; 0 1 2 3 4 5);
    tup!(f, OpAtomicCompareExchange; 0 1 2 3 4 5 6 7);
    tup!(f, OpAtomicCompareExchangeWeak; 0 1 2 3 4 5 6 7);
    tup!(f, OpAtomicIIncrement; 0 1 2 3 4 5);
    tup!(f, OpAtomicIDecrement; 0 1 2 3 4 5);
    tup!(f, OpAtomicIAdd; 0 1 2 3 4 5);
    tup!(f, OpAtomicISub; 0 1 2 3 4 5);
    tup!(f, OpAtomicSMin; 0 1 2 3 4 5);
    tup!(f, OpAtomicUMin; 0 1 2 3 4 5);
    tup!(f, OpAtomicSMax; 0 1 2 3 4 5);
    tup!(f, OpAtomicUMax; 0 1 2 3 4 5);
    tup!(f, OpAtomicAnd; 0 1 2 3 4 5);
    tup!(f, OpAtomicOr; 0 1 2 3 4 5);
    tup!(f, OpAtomicXor; 0 1 2 3 4 5);
    tup!(f, OpAtomicFlagTestAndSet; 0 1 2 3 4);
    tup!(f, OpAtomicFlagClear; 0 1 2);
    tup!(f, OpEmitStreamVertex; 0);
    tup!(f, OpEndStreamPrimitive; 0);
    tup!(f, OpControlBarrier; 0 1 2);
    tup!(f, OpMemoryBarrier; 0 1);
    tup!(f, OpNamedBarrierInitialize; 0 1 2);
    tup!(f, OpMemoryNamedBarrier; 0 1 2);
    tup!(f, OpGroupAsyncCopy; 0 1 2 3 4 5 6 7);
    tup!(f, OpGroupWaitEvents; 0 1 2);
    tup!(f, OpGroupAll; 0 1 2 3);
    tup!(f, OpGroupAny; 0 1 2 3);
    tup!(f, OpGroupBroadcast; 0 1 2 3 4);
    tup!(f, OpGroupIAdd; 0 1 2 3 4);
    tup!(f, OpGroupFAdd; 0 1 2 3 4);
    tup!(f, OpGroupFMin; 0 1 2 3 4);
    tup!(f, OpGroupUMin; 0 1 2 3 4);
    tup!(f, OpGroupSMin; 0 1 2 3 4);
    tup!(f, OpGroupFMax; 0 1 2 3 4);
    tup!(f, OpGroupUMax; 0 1 2 3 4);
    tup!(f, OpGroupSMax; 0 1 2 3 4);
    tup!(f, OpEnqueueMarker; 0 1 2 3 4 5);
    tup!(f, OpEnqueueKernel; 0 1 2 3 4 5 6 7 8 9 10 11 12);
    tup!(f, OpGetKernelNDrangeSubGroupCount; 0 1 2 3 4 5 6);
    tup!(f, OpGetKernelNDrangeMaxSubGroupSize; 0 1 2 3 4 5 6);
    tup!(f, OpGetKernelWorkGroupSize; 0 1 2 3 4 5);
    tup!(f, OpGetKernelPreferredWorkGroupSizeMultiple; 0 1 2 3 4 5);
    tup!(f, OpRetainEvent; 0);
    tup!(f, OpReleaseEvent; 0);
    tup!(f, OpCreateUserEvent; 0 1);
    tup!(f, OpIsValidEvent; 0 1 2);
    tup!(f, OpSetUserEventStatus; 0 1);
    tup!(f, OpCaptureEventProfilingInfo; 0 1 2);
    tup!(f, OpGetDefaultQueue; 0 1);
    tup!(f, OpBuildNDRange; 0 1 2 3 4);
    tup!(f, OpGetKernelLocalSizeForSubgroupCount; 0 1 2 3 4 5 6);
    tup!(f, OpGetKernelMaxNumSubgroups; 0 1 2 3 4 5);
    tup!(f, OpReadPipe; 0 1 2 3 4 5);
    tup!(f, OpWritePipe; 0 1 2 3 4 5);
    tup!(f, OpReservedReadPipe; 0 1 2 3 4 5 6 7);
    tup!(f, OpReservedWritePipe; 0 1 2 3 4 5 6 7);
    tup!(f, OpReserveReadPipePackets; 0 1 2 3 4 5);
    tup!(f, OpReserveWritePipePackets; 0 1 2 3 4 5);
    tup!(f, OpCommitReadPipe; 0 1 2 3);
    tup!(f, OpCommitWritePipe; 0 1 2 3);
    tup!(f, OpIsValidReserveId; 0 1 2);
    tup!(f, OpGetNumPipePackets; 0 1 2 3 4);
    tup!(f, OpGetMaxPipePackets; 0 1 2 3 4);
    tup!(f, OpGroupReserveReadPipePackets; 0 1 2 3 4 5 6);
    tup!(f, OpGroupReserveWritePipePackets; 0 1 2 3 4 5 6);
    tup!(f, OpGroupCommitReadPipe; 0 1 2 3 4);
    tup!(f, OpGroupCommitWritePipe; 0 1 2 3 4);
    tup!(f, OpConstantPipeStorage; 0 1 2 3 4);
    tup!(f, OpCreatePipeFromPipeStorage; 0 1 2);
    unit!(f, OpKill, false);
    unit!(f, OpUnreachable, false);
    unit!(f, OpEmitVertex, false);
    unit!(f, OpEndPrimitive, false);
}
