//! Layout validation (C11) and preservation of the module's content (C12).
//!
//! The reference is an automaton over instruction classes (the module layout grammar). All
//! class sequences up to a length, and all sequences that reach each automaton state by its
//! access word and go on for a few symbols, are given to the real validator.

use crate::c_dis::{core_of, module, storage};
use crate::c_read::clip;
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum C {
    Cap,
    Ext,
    Imp,
    Mm,
    Ep,
    Em,
    Dbg,
    Ann,
    Glob,
    Fn,
    Fp,
    Fe,
    Lbl,
    Code,
    Mrg,
    Br,
}

pub const ALL: [C; 16] =
    [C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Fe, C::Lbl, C::Code, C::Mrg, C::Br];

/// Where an instruction belongs in the module layout (SPIR-V 2.4 and the group types)
pub fn class(i: &Inst) -> C {
    match i.op {
        17 => C::Cap,
        10 => C::Ext,
        11 => C::Imp,
        14 => C::Mm,
        15 => C::Ep,
        16 => C::Em,
        2..=7 => C::Dbg,
        71 | 72 => C::Ann,
        19..=39 | 43 | 44 => C::Glob,
        54 => C::Fn,
        55 => C::Fp,
        56 => C::Fe,
        248 => C::Lbl,
        246 | 247 => C::Mrg,
        249 | 250 | 253 => C::Br,
        59 => match i.vals[2] {
            V::En(E::Storage, 7, _) => C::Code,
            _ => C::Glob,
        },
        _ => C::Code,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Verdict {
    Accept,
    /// any of these errors
    Reject(Vec<ValidationError>),
}

/// Reference verdict for a class sequence
pub fn layout(w: &[C]) -> Verdict {
    use ValidationError::*;
    let mut i = 0;
    let rej = |e: Vec<ValidationError>| Verdict::Reject(e);
    let many = |i: &mut usize, c: C| {
        while *i < w.len() && w[*i] == c {
            *i += 1;
        }
    };
    for c in [C::Cap, C::Ext, C::Imp] {
        many(&mut i, c);
    }
    if i >= w.len() || w[i] != C::Mm {
        return rej(vec![MemoryModelMissing]);
    }
    i += 1;
    for c in [C::Ep, C::Em, C::Dbg, C::Ann, C::Glob] {
        many(&mut i, c);
    }
    let mut defs = false;
    while i < w.len() {
        let start = i;
        if w[i] != C::Fn {
            return if w.len() - i == 1 { rej(vec![UnexpectedInstruction(i), ExpectedOpFunction(i)]) } else { rej(vec![ExpectedOpFunction(i)]) };
        }
        i += 1;
        many(&mut i, C::Fp);
        let mut blocks = 0;
        while i < w.len() && w[i] == C::Lbl {
            i += 1;
            many(&mut i, C::Code);
            if i < w.len() && w[i] == C::Mrg {
                i += 1;
            }
            if i >= w.len() || w[i] != C::Br {
                return rej(vec![ExpectedBranch(i)]);
            }
            i += 1;
            blocks += 1;
        }
        if i >= w.len() || w[i] != C::Fe {
            // a module that ends with a lone OpFunction may be told either way
            return if start + 1 == w.len() { rej(vec![UnexpectedInstruction(start), ExpectedOpFunctionEnd(i)]) } else { rej(vec![ExpectedOpFunctionEnd(i)]) };
        }
        if blocks == 0 && defs {
            return rej(vec![UnexpectedInstruction(i), UnexpectedInstruction(start)]);
        }
        if blocks > 0 {
            defs = true;
        }
        i += 1;
    }
    Verdict::Accept
}

/// State of the layout automaton after a prefix (for the state count and the state cover)
pub fn auto(w: &[C]) -> u32 {
    // 0..=2 before the memory model, 3..=8 sections, then functions, 99 dead
    let mut st = 0u32;
    for c in w {
        st = step(st, *c);
    }
    st
}

pub fn step(st: u32, c: C) -> u32 {
    const DEAD: u32 = 99;
    let sect = |from: u32, c: C| -> u32 {
        let k = match c {
            C::Ep => 3,
            C::Em => 4,
            C::Dbg => 5,
            C::Ann => 6,
            C::Glob => 7,
            C::Fn => 10,
            _ => return DEAD,
        };
        if k >= from {
            k
        } else {
            DEAD
        }
    };
    match st {
        0..=2 => {
            let k = match c {
                C::Cap => 0,
                C::Ext => 1,
                C::Imp => 2,
                C::Mm => return 3,
                _ => return DEAD,
            };
            if k >= st {
                k
            } else {
                DEAD
            }
        }
        3..=7 => sect(st, c),
        // 10 Fn/Fp (declaration possible), 11 between functions (no definition yet)
        10 => match c {
            C::Fp => 10,
            C::Fe => 11,
            C::Lbl => 12,
            _ => DEAD,
        },
        11 => match c {
            C::Fn => 10,
            _ => DEAD,
        },
        // 12 in a block, 13 after its merge, 14 between blocks, 15 after a definition, 16 in a later function
        12 => match c {
            C::Code => 12,
            C::Mrg => 13,
            C::Br => 14,
            _ => DEAD,
        },
        13 => match c {
            C::Br => 14,
            _ => DEAD,
        },
        14 => match c {
            C::Lbl => 12,
            C::Fe => 15,
            _ => DEAD,
        },
        15 => match c {
            C::Fn => 16,
            _ => DEAD,
        },
        16 => match c {
            C::Fp => 16,
            C::Lbl => 12,
            _ => DEAD,
        },
        _ => DEAD,
    }
}

/// A short access word for every live state of the automaton
fn cover() -> Vec<Vec<C>> {
    let mut seen: Vec<(u32, Vec<C>)> = vec![(0, vec![])];
    let mut k = 0;
    while k < seen.len() {
        let (st, w) = seen[k].clone();
        for c in ALL {
            let t = step(st, c);
            if t != 99 && !seen.iter().any(|s| s.0 == t) {
                let mut x = w.clone();
                x.push(c);
                seen.push((t, x));
            }
        }
        k += 1;
    }
    seen.into_iter().map(|s| s.1).collect()
}

/// All cycles of the automaton at a state, of up to `left` classes
fn cycles(st: u32, home: u32, w: &mut Vec<C>, left: usize, out: &mut Vec<Vec<C>>) {
    if st == home && !w.is_empty() {
        out.push(w.clone());
        return;
    }
    if left == 0 {
        return;
    }
    for c in ALL {
        let t = step(st, c);
        if t != 99 {
            w.push(c);
            cycles(t, home, w, left - 1, out);
            w.pop();
        }
    }
}

/// Shortest sequence of classes that completes a module from a state
fn completion(st: u32) -> Vec<C> {
    let mut seen: Vec<(u32, Vec<C>)> = vec![(st, vec![])];
    let mut k = 0;
    while k < seen.len() {
        let (s, w) = seen[k].clone();
        if matches!(s, 3..=7 | 11 | 15) {
            return w;
        }
        for c in ALL {
            let t = step(s, c);
            if t != 99 && !seen.iter().any(|x| x.0 == t) {
                let mut x = w.clone();
                x.push(c);
                seen.push((t, x));
            }
        }
        k += 1;
    }
    unreachable!()
}

/// A representative of a class; `n` makes each one different
pub fn rep(c: C, n: u32) -> Core {
    let id = 100 + n;
    match c {
        C::Cap => Core::OpCapability(OpCapability {
            capability: match n % 4 {
                0 => Capability::Matrix,
                1 => Capability::Shader,
                2 => Capability::Kernel,
                _ => Capability::MultiViewport,
            },
        }),
        C::Ext => Core::OpExtension(OpExtension { name: format!("e{}", id) }),
        C::Imp => Core::OpExtInstImport(OpExtInstImport { result_id: ResultId(id), name: "i".into() }),
        C::Mm => Core::OpMemoryModel(OpMemoryModel {
            addressing_model: if n % 2 == 0 { AddressingModel::Logical } else { AddressingModel::Physical64 },
            memory_model: if n % 3 == 0 { MemoryModel::Glsl450 } else { MemoryModel::Simple },
        }),
        C::Ep => Core::OpEntryPoint(OpEntryPoint {
            execution_model: ExecutionModel::Vertex,
            entry_point: OpId(id),
            name: String::new(),
            interface: vec![OpId(n)],
        }),
        C::Em => Core::OpExecutionMode(OpExecutionMode { entry_point: OpId(id), mode: ExecutionMode::OriginUpperLeft }),
        C::Dbg => Core::OpName(OpName { target: OpId(id), name: String::new() }),
        C::Ann => Core::OpDecorate(OpDecorate { target: OpId(id), decoration: Decoration::Flat }),
        C::Glob => match n % 3 {
            0 => Core::OpTypeVoid(OpTypeVoid { result_id: ResultId(id) }),
            1 => Core::OpVariable(OpVariable { result_type: OpId(id), result_id: ResultId(id), storage_class: StorageClass::Private, initializer: None }),
            _ => Core::OpConstant(OpConstant { result_type: OpId(1), result_id: ResultId(id), value: vec![n] }),
        },
        C::Fn => Core::OpFunction(OpFunction { result_type: OpId(1), result_id: ResultId(id), function_control: FunctionControl::default(), function_type: OpId(3) }),
        C::Fp => Core::OpFunctionParameter(OpFunctionParameter { result_type: OpId(1), result_id: ResultId(id) }),
        C::Fe => Core::OpFunctionEnd(OpFunctionEnd),
        C::Lbl => Core::OpLabel(OpLabel { result_id: ResultId(id) }),
        C::Code => match n % 3 {
            0 => Core::OpUndef(OpUndef { result_type: OpId(1), result_id: ResultId(id) }),
            1 => Core::OpVariable(OpVariable { result_type: OpId(id), result_id: ResultId(id), storage_class: StorageClass::Function, initializer: None }),
            _ => Core::OpStore(OpStore { pointer: OpId(id), object: OpId(1), memory_access: None }),
        },
        C::Mrg => {
            if n % 2 == 0 {
                Core::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(id), selection_control: SelectionControl::default() })
            } else {
                Core::OpLoopMerge(OpLoopMerge { merge_block: OpId(id), continue_target: OpId(1), loop_control: LoopControl::default() })
            }
        }
        C::Br => match n % 3 {
            0 => Core::OpReturn(OpReturn),
            1 => Core::OpBranch(OpBranch { target_label: OpId(id) }),
            _ => Core::OpBranchConditional(OpBranchConditional { condition: OpId(1), true_label: OpId(id), false_label: OpId(2), weights: None }),
        },
    }
}

/// The instructions of a logical module in module order
pub fn flatten(m: &LogicalModule) -> Vec<Inst> {
    let mut v = vec![];
    for c in &m.capabilities {
        v.push(OpCapability { capability: c.clone() }.inst());
    }
    for e in &m.extensions {
        v.push(OpExtension { name: e.clone() }.inst());
    }
    v.extend(m.ext_inst_imports.iter().map(|o| o.inst()));
    v.push(m.memory_model.inst());
    v.extend(m.entry_points.iter().map(|o| o.inst()));
    v.extend(m.execution_modes.iter().map(|o| o.inst()));
    v.extend(m.debug.iter().map(|o| o.inst()));
    v.extend(m.annotations.iter().map(|o| o.inst()));
    v.extend(m.globals.iter().map(|o| o.inst()));
    let fe = OpFunctionEnd.inst();
    for f in &m.function_declarations {
        v.push(f.function.inst());
        v.extend(f.parameters.iter().map(|o| o.inst()));
        v.push(fe.clone());
    }
    for f in &m.function_definitions {
        v.push(f.function.inst());
        v.extend(f.parameters.iter().map(|o| o.inst()));
        for b in &f.blocks {
            v.push(b.label.inst());
            v.extend(b.code.iter().map(|o| o.inst()));
            v.extend(b.merge.iter().map(|o| o.inst()));
            v.push(b.branch.inst());
        }
        v.push(fe.clone());
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    Layout,
    Content,
}

/// Give a module to the validator and judge the answer
pub fn vcase(ctx: &mut Ctx, look: Look, m: RawModule) {
    let insts: Vec<Inst> = m.instructions.iter().map(|c| c.inst()).collect();
    let classes: Vec<C> = insts.iter().map(class).collect();
    vcase_with(ctx, look, m, &classes, Some(insts));
}

fn vcase_with(ctx: &mut Ctx, look: Look, m: RawModule, classes: &[C], insts: Option<Vec<Inst>>) {
    let desc = || {
        if classes.len() > 300 {
            format!("module of {} instructions, starting {:?}", classes.len(), &classes[..300])
        } else {
            clip(format!("instruction classes {:?}\ninstructions {:?}", classes, insts))
        }
    };
    if !ctx.begin(desc) {
        return;
    }
    let keep = if look == Look::Content && insts.is_none() { Some(m.instructions.iter().map(|c| c.inst()).collect::<Vec<_>>()) } else { None };
    let res = ctx.lib(desc, move || validate(m));
    match look {
        Look::Layout => {
            let exp = layout(classes);
            match (&res, &exp) {
                (Ok(_), Verdict::Accept) => ctx.ok("accepted"),
                (Err(e), Verdict::Reject(es)) if es.contains(e) => ctx.ok(match e {
                    ValidationError::MemoryModelMissing => "rejected: memory model missing",
                    ValidationError::ExpectedOpFunction(_) => "rejected: expected OpFunction",
                    ValidationError::ExpectedOpFunctionEnd(_) => "rejected: expected OpFunctionEnd",
                    ValidationError::ExpectedBranch(_) => "rejected: expected branch",
                    ValidationError::UnexpectedInstruction(_) => "rejected: unexpected instruction",
                }),
                _ => {
                    let got = match &res {
                        Ok(_) => "accepted".to_string(),
                        Err(e) => format!("rejected with {:?}", e),
                    };
                    ctx.fail(desc, format!("{}, expected {:?}", got, exp));
                }
            }
        }
        Look::Content => match &res {
            Err(_) => ctx.ok("rejected"),
            Ok(l) => {
                let got = flatten(l);
                let want = insts.as_ref().or(keep.as_ref()).unwrap();
                if got == *want {
                    ctx.ok("content preserved");
                } else {
                    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
                    ctx.fail(
                        desc,
                        clip(format!(
                            "content differs at instruction {}: {} instructions in, {} out\nin:  {:?}\nout: {:?}",
                            at,
                            want.len(),
                            got.len(),
                            want.get(at),
                            got.get(at)
                        )),
                    );
                }
            }
        },
    }
    ctx.sum_trans += classes.len() as u64;
    ctx.sample(|| format!("{:?} -> {}", classes, match &res {
        Ok(_) => "Ok".to_string(),
        Err(e) => format!("{:?}", e),
    }));
}

fn word_case(ctx: &mut Ctx, look: Look, w: &[C]) {
    let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
    // distinct model states: automaton state and position
    ctx.state(mix(auto(w) as u64, w.len() as u64));
    vcase_with(ctx, look, m, w, None);
}

fn words_rec(ctx: &mut Ctx, look: Look, w: &mut Vec<C>, left: usize) {
    word_case(ctx, look, w);
    if left == 0 {
        return;
    }
    for c in ALL {
        w.push(c);
        words_rec(ctx, look, w, left - 1);
        w.pop();
    }
}

/// All words whose prefixes are live, up to a length; with `beyond` symbols after a dead end
fn live_rec(ctx: &mut Ctx, look: Look, w: &mut Vec<C>, st: u32, left: usize, beyond: usize) {
    word_case(ctx, look, w);
    if left == 0 {
        return;
    }
    for c in ALL {
        let t = step(st, c);
        w.push(c);
        if t == 99 {
            if beyond > 0 {
                live_rec(ctx, look, w, 99, (beyond - 1).min(left - 1), beyond - 1);
            }
        } else {
            live_rec(ctx, look, w, t, left - 1, beyond);
        }
        w.pop();
    }
}

fn plan(look: Look, tier: Tier) -> Plan {
    let mut p = Plan::new();
    let full = tier.pick(6usize, 7);
    p.unit("short class sequences", move |ctx| {
        word_case(ctx, look, &[]);
        for a in ALL {
            word_case(ctx, look, &[a]);
        }
    });
    for a in ALL {
        for b in ALL {
            p.unit(format!("class sequences starting with {:?} {:?}", a, b), move |ctx| {
                words_rec(ctx, look, &mut vec![a, b], full - 2);
            });
        }
    }
    p.bound(format!("all sequences of up to {} instruction classes out of 16", full));
    let cov = cover();
    let ext = tier.pick(4usize, 5);
    p.bound(format!("all {} live automaton states by their access words, each followed by all class sequences of up to {} (a complete test of any implementation with up to {} more states than the automaton)", cov.len(), ext, ext - 1));
    for w in cov {
        for a in ALL {
            let w = w.clone();
            p.unit(format!("{:?} then {:?}", w, a), move |ctx| {
                let mut x = w.clone();
                x.push(a);
                words_rec(ctx, look, &mut x, ext - 1);
            });
        }
    }
    let live = tier.pick(8usize, 10);
    for a in ALL {
        for b in ALL {
            let st = step(step(3, a), b);
            if step(3, a) == 99 || st == 99 {
                continue;
            }
            p.unit(format!("live sequences starting with a memory model, {:?} {:?}", a, b), move |ctx| {
                live_rec(ctx, look, &mut vec![C::Mm, a, b], st, live - 3, 1);
            });
        }
    }
    p.bound(format!("all live class sequences of up to {} after the memory model, and each with one class beyond its dead end", live));
    // functions only, deeper
    let fdepth = tier.pick(11usize, 14);
    for a in [C::Fp, C::Fe, C::Lbl] {
        for b in ALL {
            let s1 = step(10, a);
            let s2 = step(s1, b);
            if s2 == 99 {
                continue;
            }
            p.unit(format!("function bodies starting with {:?} {:?}", a, b), move |ctx| {
                live_rec(ctx, look, &mut vec![C::Mm, C::Fn, a, b], s2, fdepth - 4, 1);
            });
        }
    }
    p.bound(format!("function sections: all live class sequences of up to {}, and each with one class beyond its dead end", fdepth));
    // every instruction in every place of a complete module
    for d in OPS.iter() {
        p.unit(format!("{} in every place", d.name), move |ctx| {
            let base = [
                C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Fe, C::Fn, C::Fp, C::Lbl, C::Code, C::Mrg, C::Br, C::Lbl,
                C::Code, C::Br, C::Fe, C::Fn, C::Lbl, C::Br, C::Fe,
            ];
            let mut subs: Vec<Core> = gen::instances(d, false).iter().filter_map(core_of).collect();
            // storage classes decide the place of a variable
            if d.code == 59 {
                for c in 0..12 {
                    for init in [None, Some(OpId(9))] {
                        subs.push(Core::OpVariable(OpVariable { result_type: OpId(1), result_id: ResultId(2), storage_class: storage(c), initializer: init }));
                    }
                }
            }
            let own = class(&gen::base_inst(d));
            for (n, s) in subs.iter().enumerate() {
                for at in 0..=base.len() {
                    // all places for the first shapes, the fitting places for all
                    let fits = at < base.len() && (base[at] == own || base[at] == C::Code || base[at] == C::Glob);
                    if n > 40 && !fits && d.code != 59 {
                        continue;
                    }
                    for replace in [true, false] {
                        let mut v: Vec<Core> = base.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect();
                        if replace && at < base.len() {
                            v[at] = s.clone();
                        } else if !replace {
                            v.insert(at, s.clone());
                        } else {
                            continue;
                        }
                        vcase(ctx, look, module(v));
                    }
                }
            }
        });
    }
    p.bound("every instruction of the enumeration, in all its shapes, inserted at and substituted for every place of a complete module");
    // pairs of instructions of one section keep their order
    for d in OPS.iter() {
        p.unit(format!("pairs with {}", d.name), move |ctx| {
            let a = match core_of(&gen::base_inst(d)) {
                Some(a) => a,
                None => return,
            };
            for e in OPS.iter() {
                if let Some(b) = core_of(&gen::base_inst(e)) {
                    for (x, y) in [(&a, &b), (&b, &a)] {
                        for at in [0usize, 1, 2, 4, 6] {
                            let mut v = vec![rep(C::Mm, 0), rep(C::Fn, 1), rep(C::Fe, 2), rep(C::Fn, 3), rep(C::Lbl, 4), rep(C::Br, 5), rep(C::Fe, 6)];
                            let at = at.min(v.len());
                            v.insert(at, x.clone());
                            v.insert(at + 1, y.clone());
                            vcase(ctx, look, module(v));
                        }
                        let v = vec![rep(C::Mm, 0), rep(C::Fn, 3), rep(C::Lbl, 4), x.clone(), y.clone(), rep(C::Br, 5), rep(C::Fe, 6)];
                        vcase(ctx, look, module(v));
                    }
                }
            }
        });
    }
    p.bound("all ordered pairs of instructions at six places of a module");
    // repetition counts
    let max = tier.pick(300u32, 1200);
    for c in ALL {
        p.unit(format!("repetitions of {:?}", c), move |ctx| {
            let base = [C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Lbl, C::Code, C::Mrg, C::Br, C::Fe];
            for n in (0..max).chain([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]) {
                let mut w = vec![];
                for b in base {
                    for _ in 0..if b == c { n } else { 1 } {
                        w.push(b);
                    }
                }
                word_case(ctx, look, &w);
            }
        });
    }
    p.unit("repetitions of blocks and functions", move |ctx| {
        for n in (0..max).chain([1024, 4096, 10000]) {
            for shape in 0..5 {
                let mut w = vec![C::Mm];
                for k in 0..n {
                    match shape {
                        0 => w.extend([C::Fn, C::Fp, C::Fe]),
                        1 => w.extend([C::Fn, C::Lbl, C::Code, C::Br, C::Fe]),
                        2 => {
                            if k == 0 {
                                w.push(C::Fn);
                            }
                            w.extend([C::Lbl, C::Code, C::Mrg, C::Br]);
                            if k + 1 == n {
                                w.push(C::Fe);
                            }
                        }
                        3 => {
                            // declarations, then definitions
                            if k < n / 2 {
                                w.extend([C::Fn, C::Fe]);
                            } else {
                                w.extend([C::Fn, C::Lbl, C::Br, C::Fe]);
                            }
                        }
                        _ => {
                            // one declaration after the definitions
                            if k + 1 < n {
                                w.extend([C::Fn, C::Lbl, C::Br, C::Fe]);
                            } else {
                                w.extend([C::Fn, C::Fe]);
                            }
                        }
                    }
                }
                word_case(ctx, look, &w);
            }
        }
    });
    p.bound(format!("every class, block and function repeated 0..{} times and up to 65537", max));
    // every cycle of the automaton, gone round many times, from every state
    for (n, w) in cover().into_iter().enumerate() {
        let st = auto(&w);
        p.unit(format!("cycles at state {} reached by {:?}", n, w), move |ctx| {
            let mut cs = vec![];
            cycles(st, st, &mut vec![], tier.pick(6, 8), &mut cs);
            for cy in cs {
                let max = if cy.len() == 1 { tier.pick(300, 600) } else { tier.pick(60, 200) };
                for n in 1..max {
                    let mut x = w.clone();
                    for _ in 0..n {
                        x.extend(cy.iter().cloned());
                    }
                    let len = x.len();
                    for a in std::iter::once(None).chain(ALL.into_iter().map(Some)) {
                        x.truncate(len);
                        let mut t = st;
                        if let Some(a) = a {
                            x.push(a);
                            t = step(t, a);
                        }
                        word_case(ctx, look, &x);
                        if t != 99 {
                            x.extend(completion(t));
                            if x.len() > len + a.is_some() as usize {
                                word_case(ctx, look, &x);
                            }
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("every cycle of up to {} classes at every live automaton state, gone round 1..{} times (single classes 1..{}), followed by every class and the shortest completion", tier.pick(6, 8), tier.pick(60, 200), tier.pick(300, 600)));
    // two repetition counts at a time
    const COUNTS: [usize; 22] = [0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 257];
    let places: [usize; 13] = [0, 1, 2, 4, 5, 6, 7, 8, 10, 13, 15, 17, 21];
    for (ai, a) in places.into_iter().enumerate() {
        p.unit(format!("two repetition counts, first at {}", a), move |ctx| {
            let base = [
                C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Fe, C::Fn, C::Fp, C::Lbl, C::Code, C::Br, C::Lbl,
                C::Br, C::Fe, C::Fn, C::Fp, C::Lbl, C::Mrg, C::Br, C::Fe,
            ];
            for b in &places[ai + 1..] {
                for n in COUNTS {
                    for m in COUNTS {
                        let mut w = vec![];
                        for (i, c) in base.iter().enumerate() {
                            // blocks repeat as a whole
                            let k = if i == a { n } else if i == *b { m } else { 1 };
                            if i == 17 {
                                for _ in 0..k {
                                    w.extend([C::Lbl, C::Br]);
                                }
                            } else if i != 18 {
                                for _ in 0..k {
                                    w.push(*c);
                                }
                            }
                        }
                        word_case(ctx, look, &w);
                    }
                }
            }
        });
    }
    p.bound("a complete module with every pair of its repeatable parts at 22 x 22 counts up to 257");
    // the header has no say
    p.unit("header fields", move |ctx| {
        for bound in [0u32, 1, 5, 1000, u32::MAX] {
            for tool in [Tool::KhronosReserved, Tool::Other(77), Tool::Intel] {
                for w in [vec![C::Mm], vec![], vec![C::Mm, C::Fn, C::Lbl, C::Br, C::Fe], vec![C::Cap, C::Mm, C::Glob, C::Fn]] {
                    let mut m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
                    m.bound = bound;
                    m.generator = Generator { tool: tool.clone(), version: 3 };
                    vcase(ctx, look, m);
                }
            }
        }
    });
    // identical instructions are not collapsed
    p.unit("identical instructions", move |ctx| {
        for c in ALL {
            for n in 0..6usize {
                for s in 0..3u32 {
                    let mut w = vec![];
                    let base = [C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Lbl, C::Code, C::Mrg, C::Br, C::Fe];
                    for b in base {
                        for _ in 0..if b == c { n } else { 1 } {
                            w.push(rep(b, s));
                        }
                    }
                    vcase(ctx, look, module(w));
                }
            }
        }
    });
    p.bound("up to 5 identical instructions of every class");
    // the numbers that instructions carry do not matter, whether they are the same or not
    for a in ALL {
        for b in ALL {
            let (s1, s2) = (step(3, a), step(step(3, a), b));
            if s1 == 99 || s2 == 99 {
                continue;
            }
            p.unit(format!("other numbers after a memory model, {:?} {:?}", a, b), move |ctx| {
                live_words(&mut vec![C::Mm, a, b], s2, tier.pick(5, 7), &mut |w| {
                    numbered(ctx, look, w, &|_| 0);
                    numbered(ctx, look, w, &|i| i as u32 / 2);
                    numbered(ctx, look, w, &|i| (w.len() - i) as u32);
                    numbered(ctx, look, w, &|i| i as u32 % 3);
                });
            });
        }
    }
    p.bound(format!("all complete class sequences of up to {} after the memory model with 4 other numberings: all the same, in pairs, descending, modulo 3", tier.pick(7, 9)));
    p.unit("equal numbers in two places", move |ctx| {
        let base = complete_module();
        for i in 0..base.len() {
            for j in 0..base.len() {
                for k in 0..base.len() {
                    let n = |x: usize| if x == j || x == k { i as u32 } else { x as u32 };
                    numbered(ctx, look, &base, &n);
                }
            }
        }
    });
    p.bound("a complete module of 32 instructions with every three of them carrying the same number");
    // several instructions of different kinds in one section
    for sect in [C::Dbg, C::Ann, C::Glob, C::Code] {
        let n = OPS.iter().filter(|d| class_of(d) == sect).count();
        for k in 0..n {
            p.unit(format!("three instructions of {:?}, first {}", sect, k), move |ctx| {
                let all: Vec<Core> = OPS.iter().filter(|d| class_of(d) == sect).filter_map(|d| core_of(&base_of(d, sect))).collect();
                let run = |ctx: &mut Ctx, xs: Vec<Core>| {
                    let mut v = vec![rep(C::Mm, 0)];
                    if sect == C::Code {
                        v.extend([rep(C::Fn, 1), rep(C::Lbl, 2)]);
                    }
                    v.extend(xs);
                    if sect == C::Code {
                        v.extend([rep(C::Br, 3), rep(C::Fe, 4)]);
                    }
                    vcase(ctx, look, module(v));
                };
                let a = match all.get(k) {
                    Some(a) => a.clone(),
                    None => return,
                };
                for b in &all {
                    for c in &all {
                        run(ctx, vec![a.clone(), b.clone(), c.clone()]);
                    }
                    for n in [3usize, 4, 5, 8, 9, 16, 17, 33] {
                        let mut x = vec![a.clone(); n];
                        x.push(b.clone());
                        run(ctx, x.clone());
                        x.insert(0, b.clone());
                        run(ctx, x.clone());
                        x.remove(0);
                        x.push(a.clone());
                        run(ctx, x);
                        run(ctx, (0..n).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect());
                    }
                }
            });
        }
    }
    p.bound("every three instructions of the debug, annotation, global and code sections after each other; every two in runs of up to 33 and alternating");
    // two instances of one instruction
    for d in OPS.iter() {
        p.unit(format!("pairs of instances of {}", d.name), move |ctx| {
            let all: Vec<Core> = gen::instances(d, false).iter().filter_map(core_of).collect();
            let stride = if all.len() > 400 { all.len() / 300 } else { 1 };
            for a in &all {
                for b in all.iter().step_by(stride) {
                    let k = class(&a.inst());
                    if k == C::Mm || k == C::Fe || class(&b.inst()) != k {
                        continue;
                    }
                    let pre = completion_between(k);
                    let mut v: Vec<Core> = pre.0.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect();
                    for (n, x) in [a, b, a].iter().enumerate() {
                        v.push((*x).clone());
                        if n < 2 {
                            v.extend(pre.1.iter().enumerate().map(|(i, c)| rep(*c, i as u32)));
                        }
                    }
                    v.extend(pre.2.iter().enumerate().map(|(i, c)| rep(*c, i as u32)));
                    vcase(ctx, look, module(v));
                }
            }
        });
    }
    p.bound("every two instances a, b of every instruction as a b a in the places of their section (up to 400 x 400 per instruction)");
    for d in OPS.iter() {
        p.unit(format!("all shapes of {}", d.name), move |ctx| {
            for i in gen::instances(d, true) {
                if let Some(c) = core_of(&i) {
                    let mut v = vec![];
                    let k = class(&c.inst());
                    let base = [C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Lbl, C::Code, C::Mrg, C::Br, C::Fe];
                    for b in base {
                        v.push(if b == k { c.clone() } else { rep(b, 3) });
                    }
                    vcase(ctx, look, module(v));
                }
            }
        });
    }
    p.bound("every instruction with every operand over ~100 words, all enumerants, masks and strings, at its own place");
    // parts that repeat, the same or all but the same
    let parts: [&[C]; 12] = [
        &[C::Fn, C::Fe],
        &[C::Fn, C::Fp, C::Fe],
        &[C::Fn, C::Fp, C::Fp, C::Fe],
        &[C::Fn, C::Fp, C::Fp, C::Fp, C::Fe],
        &[C::Fn, C::Lbl, C::Br, C::Fe],
        &[C::Fn, C::Fp, C::Lbl, C::Br, C::Fe],
        &[C::Fn, C::Fp, C::Fp, C::Lbl, C::Code, C::Br, C::Fe],
        &[C::Fn, C::Lbl, C::Br, C::Lbl, C::Br, C::Fe],
        &[C::Fn, C::Lbl, C::Code, C::Code, C::Br, C::Lbl, C::Mrg, C::Br, C::Fe],
        &[C::Fn, C::Lbl, C::Code, C::Mrg, C::Br, C::Lbl, C::Code, C::Mrg, C::Br, C::Lbl, C::Br, C::Fe],
        &[C::Fn, C::Fp, C::Lbl, C::Br, C::Lbl, C::Br, C::Lbl, C::Br, C::Fe],
        &[C::Fn, C::Lbl, C::Code, C::Br, C::Lbl, C::Code, C::Br, C::Lbl, C::Code, C::Br, C::Lbl, C::Code, C::Br, C::Fe],
    ];
    for (i, a) in parts.into_iter().enumerate() {
        p.unit(format!("repeated functions {}", i), move |ctx| {
            for b in parts {
                for c in parts {
                    let w: Vec<C> = std::iter::once(C::Mm).chain(a.iter().chain(b).chain(c).cloned()).collect();
                    numbered(ctx, look, &w, &|_| 4);
                    for odd in 0..w.len() {
                        numbered(ctx, look, &w, &|x| if x == odd { 5 } else { 4 });
                    }
                    // each instruction has the number of its place in the function
                    let place = |x: usize| if x == 0 { 0 } else if x <= a.len() { x } else if x <= a.len() + b.len() { x - a.len() } else { x - a.len() - b.len() } as u32;
                    numbered(ctx, look, &w, &place);
                    for odd in 0..w.len() {
                        numbered(ctx, look, &w, &|x| if x == odd { 77 } else { place(x) });
                    }
                }
            }
            for n in [2usize, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257] {
                let w: Vec<C> = std::iter::once(C::Mm).chain(a.iter().cloned().cycle().take(n * a.len())).collect();
                numbered(ctx, look, &w, &|_| 4);
                numbered(ctx, look, &w, &|x| if x == 0 { 0 } else { ((x - 1) % a.len()) as u32 });
                numbered(ctx, look, &w, &|x| if x == 0 { 0 } else { ((x - 1) / a.len()) as u32 });
                numbered(ctx, look, &w, &|x| if x + 2 >= w.len() { 9 } else { 4 });
            }
        });
    }
    p.bound("every three functions out of 12 shapes after each other with the same numbers throughout, or in the same places, but for every single instruction; up to 257 copies of each");
    p
}

fn class_of(d: &OpDef) -> C {
    class(&gen::base_inst(d))
}

/// The base instance of an instruction in a section (variables can stand in two)
fn base_of(d: &OpDef, _sect: C) -> Inst {
    gen::base_inst(d)
}


pub fn complete_module() -> Vec<C> {
    vec![
        C::Cap, C::Cap, C::Ext, C::Imp, C::Imp, C::Mm, C::Ep, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Glob, C::Fn, C::Fp, C::Fe, C::Fn, C::Fe, C::Fn, C::Fp, C::Lbl, C::Code,
        C::Code, C::Mrg, C::Br, C::Lbl, C::Br, C::Fe, C::Fn, C::Lbl, C::Br, C::Fe,
    ]
}

/// What has to stand before, between and after instructions of a class
fn completion_between(c: C) -> (Vec<C>, Vec<C>, Vec<C>) {
    match c {
        C::Cap | C::Ext | C::Imp => (vec![], vec![], vec![C::Mm]),
        C::Ep | C::Em | C::Dbg | C::Ann | C::Glob => (vec![C::Mm], vec![], vec![]),
        C::Fn => (vec![C::Mm], vec![C::Fe], vec![C::Lbl, C::Br, C::Fe]),
        C::Fp => (vec![C::Mm, C::Fn], vec![], vec![C::Fe]),
        C::Lbl => (vec![C::Mm, C::Fn], vec![C::Br], vec![C::Br, C::Fe]),
        C::Code => (vec![C::Mm, C::Fn, C::Lbl], vec![], vec![C::Br, C::Fe]),
        C::Mrg => (vec![C::Mm, C::Fn, C::Lbl], vec![C::Br, C::Lbl], vec![C::Br, C::Fe]),
        C::Br => (vec![C::Mm, C::Fn, C::Lbl], vec![C::Lbl], vec![C::Fe]),
        C::Mm | C::Fe => (vec![], vec![], vec![]),
    }
}

/// All complete words of up to `left` more classes
fn live_words(w: &mut Vec<C>, st: u32, left: usize, f: &mut dyn FnMut(&[C])) {
    if matches!(st, 3..=7 | 11 | 15) {
        f(w);
    }
    if left == 0 {
        return;
    }
    for c in ALL {
        let t = step(st, c);
        if t != 99 {
            w.push(c);
            live_words(w, t, left - 1, f);
            w.pop();
        }
    }
}

fn numbered(ctx: &mut Ctx, look: Look, w: &[C], n: &dyn Fn(usize) -> u32) {
    let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, n(i))).collect());
    vcase_with(ctx, look, m, w, None);
}

pub fn c11(tier: Tier) -> Plan {
    let mut p = plan(Look::Layout, tier);
    p.assume("a module ending in a single left over instruction may be reported as unexpected instruction or as the function part that is missing");
    p
}

pub fn c12(tier: Tier) -> Plan {
    plan(Look::Content, tier)
}
