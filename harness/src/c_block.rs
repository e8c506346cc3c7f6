//! What an extended instruction set of the caller reads from the block it is handed (C21)

use crate::c_read::clip;
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    One,
    Opt,
    Many,
}

/// One read: how the library does it and what the reference reads
#[derive(Clone)]
struct Rd {
    name: String,
    k: Kind,
    w: W,
    f: for<'a> fn(MemoryBlock<'a>) -> MemoryBlockResult<'a, V>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Of(K),
    Phi,
    Weights,
}

fn one<T: MemoryBlockRead + Fld>(b: MemoryBlock) -> MemoryBlockResult<V> {
    let (b, x) = <T as MemoryBlockRead>::read(b)?;
    Ok((b, x.v()))
}

fn word(b: MemoryBlock) -> MemoryBlockResult<V> {
    let (b, x) = b.read_word()?;
    Ok((b, V::Lit(x)))
}

fn op_id(b: MemoryBlock) -> MemoryBlockResult<V> {
    let (b, x) = b.read_op_id()?;
    Ok((b, V::Id(x.0)))
}

fn reads() -> Vec<Rd> {
    let mut v = vec![
        Rd { name: "read_word".into(), k: Kind::Of(K::L), w: W::One, f: word },
        Rd { name: "read_op_id".into(), k: Kind::Of(K::I), w: W::One, f: op_id },
    ];
    macro_rules! add {
        ($($t:ty, $k:expr;)*) => {
            $(
                let n = stringify!($t);
                v.push(Rd { name: n.into(), k: $k, w: W::One, f: one::<$t> });
                v.push(Rd { name: format!("Option<{}>", n), k: $k, w: W::Opt, f: one::<Option<$t>> });
                v.push(Rd { name: format!("Vec<{}>", n), k: $k, w: W::Many, f: one::<Vec<$t>> });
            )*
        };
    }
    add! {
        u32, Kind::Of(K::L);
        OpId, Kind::Of(K::I);
        ResultId, Kind::Of(K::I);
        String, Kind::Of(K::S);
        SourceVersion, Kind::Of(K::L);
        MemberIndex, Kind::Of(K::L);
        PhiArg, Kind::Phi;
        BranchWeights, Kind::Weights;
        SourceLanguage, Kind::Of(K::En(E::Src));
        AddressingModel, Kind::Of(K::En(E::AddrModel));
        MemoryModel, Kind::Of(K::En(E::MemModel));
        ExecutionModel, Kind::Of(K::En(E::ExecModel));
        ExecutionMode, Kind::Of(K::En(E::ExecMode));
        Capability, Kind::Of(K::En(E::Cap));
        Signedness, Kind::Of(K::En(E::Sign));
        Dim, Kind::Of(K::En(E::Dim));
        DepthStatus, Kind::Of(K::En(E::Depth));
        Arrayed, Kind::Of(K::En(E::Arrayed));
        MS, Kind::Of(K::En(E::Ms));
        SampledStatus, Kind::Of(K::En(E::Sampled));
        ImageFormat, Kind::Of(K::En(E::Format));
        AccessQualifier, Kind::Of(K::En(E::Access));
        StorageClass, Kind::Of(K::En(E::Storage));
        Decoration, Kind::Of(K::En(E::Deco));
        BuiltIn, Kind::Of(K::En(E::BuiltIn));
        FunctionParameterAttribute, Kind::Of(K::En(E::ParamAttr));
        FpRoundingMode, Kind::Of(K::En(E::Rounding));
        LinkageType, Kind::Of(K::En(E::Linkage));
        FunctionControl, Kind::Of(K::Mk(M::FnControl));
        MemoryAccess, Kind::Of(K::Mk(M::MemAccess));
        FpFastMathMode, Kind::Of(K::Mk(M::FastMath));
        LoopControl, Kind::Of(K::Mk(M::LoopControl));
        SelectionControl, Kind::Of(K::Mk(M::SelControl));
    }
    v
}

fn table() -> Rc<Vec<Rd>> {
    thread_local!(static T: Rc<Vec<Rd>> = Rc::new(reads()));
    T.with(|t| t.clone())
}

fn single(d: &mut Dec, k: Kind) -> V {
    match k {
        Kind::Of(k) => d.val(k),
        Kind::Phi => {
            let a = d.val(K::L);
            let b = d.val(K::L);
            match (a, b) {
                (V::Lit(a), V::Lit(b)) => V::Pair(a, b, true),
                _ => V::Absent,
            }
        }
        Kind::Weights => {
            let a = d.val(K::L);
            let b = d.val(K::L);
            match (a, b) {
                (V::Lit(a), V::Lit(b)) => V::Pair(a, b, false),
                _ => V::Absent,
            }
        }
    }
}

fn reference(d: &mut Dec, r: &Rd) -> V {
    match r.w {
        W::One => single(d, r.k),
        W::Opt if d.left() == 0 => V::Absent,
        W::Opt => single(d, r.k),
        W::Many => {
            let mut v = vec![];
            while d.left() > 0 && d.faults.is_empty() {
                v.push(single(d, r.k));
            }
            V::List(v)
        }
    }
}

/// What the set saw: the number, then what was left before and after each read and what it gave
#[derive(Clone, PartialEq, Debug, Default)]
struct Seen {
    num: u32,
    left: Vec<(usize, bool)>,
    vals: Vec<V>,
    error: Option<String>,
}

struct Script {
    reads: Vec<usize>,
    /// answer with this error after the reads
    answer: Option<Rc<dyn Fn() -> ReadError>>,
    seen: Rc<RefCell<Vec<Seen>>>,
}

impl Script {
    fn run<'a>(&self, num: u32, mut b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<V>> {
        let t = table();
        let mut s = Seen { num, ..Default::default() };
        s.left.push((b.remaining(), b.end()));
        for r in &self.reads {
            match (t[*r].f)(b) {
                Ok((n, v)) => {
                    b = n;
                    s.vals.push(v);
                    s.left.push((b.remaining(), b.end()));
                }
                Err(e) => {
                    s.error = Some(format!("{:?}", e));
                    self.seen.borrow_mut().push(s);
                    return Err(e);
                }
            }
        }
        let vals = s.vals.clone();
        self.seen.borrow_mut().push(s);
        if let Some(a) = &self.answer {
            return Err(a());
        }
        Ok((b, vals))
    }
}

impl ExtInstSet for Script {
    fn get_name(&self) -> &'static str {
        "Script"
    }
    fn read_instruction<'a, 'b>(&'b self, num: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (b, vals) = self.run(num, block)?;
        Ok((b, Box::new(CInst { set: "Script", op: COp { name: "Script" }, num, vals })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Script { reads: self.reads.clone(), answer: self.answer.clone(), seen: self.seen.clone() })
    }
}

fn words_of(block: &[u32], num: u32) -> Vec<u32> {
    let mut w = header(9);
    let mut imp = vec![5];
    str_words(b"Script", &mut imp);
    w.push(((imp.len() + 1) as u32) << 16 | 11);
    w.extend(imp);
    w.push((5 + block.len() as u32) << 16 | 12);
    w.extend([1, 2, 5, num]);
    w.extend(block);
    w
}

fn case(ctx: &mut Ctx, script: &[usize], block: &[u32], num: u32, after: &[u32]) {
    let t = table();
    let desc = || clip(format!("reads {:?} from {:x?} (instruction {})", script.iter().map(|r| t[*r].name.clone()).collect::<Vec<_>>(), block, num));
    if !ctx.begin(desc) {
        return;
    }
    // reference
    let mut d = Dec::new(block);
    let mut want = Seen { num, ..Default::default() };
    want.left.push((d.left(), d.left() == 0));
    for r in script {
        let v = reference(&mut d, &t[*r]);
        if !d.faults.is_empty() {
            break;
        }
        want.vals.push(v);
        want.left.push((d.left(), d.left() == 0));
    }
    // library
    let seen = Rc::new(RefCell::new(vec![]));
    let mut w = words_of(block, num);
    w.extend(after);
    let b = to_bytes(&w, true);
    let set = Script { reads: script.to_vec(), answer: None, seen: seen.clone() };
    let res = ctx.lib(desc, || read_module(&b, vec![Box::new(set)]));
    ctx.sum_states += want.left.len() as u64;
    ctx.sum_trans += script.len() as u64;
    let seen = seen.borrow();
    if seen.len() != 1 {
        ctx.fail(desc, format!("the set was asked {} times", seen.len()));
        return;
    }
    let got = &seen[0];
    if got.num != want.num || got.vals != want.vals || got.left != want.left {
        ctx.fail(desc, clip(format!("the set saw {:?}\nexpected    {:?}", got, want)));
        return;
    }
    if d.faults.is_empty() != got.error.is_none() {
        ctx.fail(desc, clip(format!("a read gave {:?}, expected {:?}", got.error, d.faults)));
        return;
    }
    let fault = if !d.faults.is_empty() {
        if d.faults.len() == 1 && got.error != Some(format!("{:?}", d.faults[0])) {
            ctx.fail(desc, clip(format!("a read failed with {:?}, expected {:?}", got.error, d.faults)));
            return;
        }
        got.error.clone()
    } else if d.left() > 0 {
        Some(format!("{:?}", ReadError::InstructionHadExcessData))
    } else {
        None
    };
    match (&res, &fault) {
        (Err(e), Some(f)) if format!("{:?}", e) == *f => ctx.ok("rejected"),
        (Ok(m), None) => {
            let n = m.instructions.get(1).map(|c| c.inst());
            if n.as_ref().map(|i| i.vals.get(3)) != Some(Some(&V::Ext("Script", num, want.vals.clone()))) {
                ctx.fail(desc, clip(format!("the module holds {:?}", n)));
                return;
            }
            ctx.ok("read");
        }
        _ => {
            ctx.fail(desc, clip(format!("reading gave {:?}, expected {:?}", res, fault)));
            return;
        }
    }
    ctx.sample(desc);
}

fn blocks(alpha: &[u32], len: usize) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![vec![]];
    let mut at = 0;
    while at < out.len() {
        if out[at].len() < len {
            for w in alpha {
                let mut x = out[at].clone();
                x.push(*w);
                out.push(x);
            }
        }
        at += 1;
    }
    out
}

/// What readers give to extended instruction sets (C21)
pub fn c21(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a list reads to the end of the instruction, an optional operand is there if any word is left, as for the library's own instructions");
    let n = reads().len();
    let alpha = [0u32, 1, 2, 5, 0x0041_4242, 0x6162_6364, 0xFFFF_FFFF];
    for a in 0..n {
        p.unit(format!("two reads, first {}", a), move |ctx| {
            let bs = blocks(&alpha, tier.pick(3, 4));
            for b in &bs {
                case(ctx, &[a], b, 7, &[]);
            }
            for c in 0..n {
                for b in &bs {
                    case(ctx, &[a, c], b, 7, &[]);
                }
            }
        });
    }
    p.bound(format!("all sequences of 1 and 2 reads over {} reads (words, ids, strings, every enumeration and bit mask, each alone, optional and as list) from all blocks of up to {} words over 7 words", n, tier.pick(3, 4)));
    // longer scripts
    let short: Vec<usize> = {
        let t = reads();
        ["read_word", "read_op_id", "String", "Option<String>", "Vec<u32>", "Option<u32>", "PhiArg", "Decoration", "LoopControl", "Vec<Capability>", "Option<BranchWeights>", "ExecutionMode"]
            .iter()
            .map(|n| t.iter().position(|r| r.name == *n).unwrap())
            .collect()
    };
    let depth = tier.pick(4usize, 5);
    for (i, a) in short.clone().into_iter().enumerate() {
        let short = short.clone();
        p.unit(format!("longer scripts, part {}", i), move |ctx| {
            let alpha = [0u32, 5, 0x6100_6364, 0x6162_6364];
            let bs = blocks(&alpha, tier.pick(4, 5));
            let m = short.len();
            for len in 3..=depth {
                let bs = if len > 3 { blocks(&alpha, 3) } else { bs.clone() };
                for x in 0..m.pow(len as u32 - 1) {
                    let mut y = x;
                    let mut s = vec![a];
                    for _ in 1..len {
                        s.push(short[y % m]);
                        y /= m;
                    }
                    for b in &bs {
                        case(ctx, &s, b, 7, &[]);
                    }
                }
            }
        });
    }
    p.bound(format!("all sequences of 3 to {} reads over 12 reads from all blocks of up to {} words over 4 words", depth, tier.pick("4 (3 for 4 reads)", "5 (3 for more than 3 reads)")));
    // values
    for a in 0..n {
        p.unit(format!("values of read {}", a), move |ctx| {
            let mut ws = gen::words();
            ws.extend(0..tier.pick(0x3000u32, 0x20000));
            for w in ws {
                case(ctx, &[a], &[w], 7, &[]);
                case(ctx, &[a, 0], &[w, 0x0042_4344, 9], 7, &[]);
                case(ctx, &[0, a], &[9, w, 3, 0], 7, &[]);
            }
        });
    }
    p.bound(format!("each read of all words below {} and of ~90 others, alone and between others", tier.pick("12288", "131072")));
    p.unit("numbers and neighbours", move |ctx| {
        let afters: Vec<Vec<u32>> = vec![vec![], vec![2 << 16 | 248, 4], vec![1 << 16], vec![3 << 16 | 5, 1, 0x61], vec![2 << 16 | 248, 4, 1 << 16]];
        for num in gen::words().into_iter().chain(0..300) {
            for a in 0..n {
                for after in &afters {
                    case(ctx, &[a], &[0x61, 2], num, after);
                    case(ctx, &[a], &[], num, after);
                }
            }
        }
    });
    p.bound("~390 instruction numbers, 5 kinds of instructions after it");
    p.unit("long blocks", move |ctx| {
        for len in (0..70usize).chain([127, 128, 129, 255, 256, 257, 1000, 4096, 16383, 16384, 32767, 32768, 65530]) {
            let all: Vec<u32> = (0..len as u32).map(|k| k % 3).collect();
            let text: Vec<u32> = (0..len).map(|k| if k + 1 == len { 0x61 } else { 0x6162_6364 }).collect();
            for a in 0..n {
                case(ctx, &[a], &all, 7, &[]);
                case(ctx, &[0, a], &all, 7, &[]);
                case(ctx, &[a], &text, 7, &[]);
                case(ctx, &[1, 0, a, 0], &text, 7, &[]);
            }
            if len < 3000 {
                case(ctx, &vec![0; len], &all, 7, &[]);
                case(ctx, &vec![0; len + 1], &all, 7, &[]);
                case(ctx, &vec![1; len], &text, 7, &[]);
            }
        }
    });
    p.bound("blocks of 0 to 69 words and 13 lengths up to 65530");
    // the set's own errors
    p.unit("errors of the set", move |ctx| {
        let k = crate::c_misc::error_values().len();
        for reads in [vec![], vec![0usize], vec![0, 0]] {
            for i in 0..k {
                let e = crate::c_misc::error_values().swap_remove(i);
                let desc = || format!("the set answers {:?} after {} reads", e, reads.len());
                if !ctx.begin(desc) {
                    continue;
                }
                let b = to_bytes(&words_of(&[1, 2], 7), true);
                let seen = Rc::new(RefCell::new(vec![]));
                let set = Script { reads: reads.clone(), answer: Some(Rc::new(move || crate::c_misc::error_values().swap_remove(i))), seen: seen.clone() };
                let r = ctx.lib(desc, || read_module(&b, vec![Box::new(set)]));
                match r {
                    Err(f) if f == e => ctx.ok("rejected"),
                    r => {
                        ctx.fail(desc, clip(format!("reading gave {:?}", r)));
                        return;
                    }
                }
                ctx.sum_states += 1;
                ctx.sum_trans += 1;
            }
        }
    });
    p.bound("every error value (over 1000) as the answer of a set, with 0 to 2 of 2 words read");
    p
}
