//! Control flow recovery: same executions (C13), structured functions recovered (C14), hints
//! and weights (C15), malformed functions rejected (C16), printed structure (C17).

use crate::c_dis::core_of;
use crate::c_read::clip;
use crate::c_valid::{class, C};
use crate::cfg::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::Core;
use magmaflow::spv::types::*;
use std::rc::Rc;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Look {
    Same,
    Structured,
    Hints,
    Malformed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ek {
    Dup(u32),
    Empty,
    Unknown(u32),
    Converge(u32),
    Predict(bool, u32),
    Failed,
}

fn ek(e: &ControlFlowError) -> Ek {
    match *e {
        ControlFlowError::DuplicateBlockId(ref b) => Ek::Dup(label(b)),
        ControlFlowError::NoBlocks => Ek::Empty,
        ControlFlowError::UnknownBlockId(ref b) => Ek::Unknown(label(b)),
        ControlFlowError::CouldNotPredictConverge(ref b) => Ek::Converge(label(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Selection, ref b) => Ek::Predict(true, label(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Loop, ref b) => Ek::Predict(false, label(b)),
        ControlFlowError::Failed => Ek::Failed,
    }
}

/// What the function is known to be
pub enum Known<'a> {
    /// nothing: a tree, if any, must have the function's executions
    Nothing,
    /// the tree of the program it was made from
    Tree(&'a [N]),
    /// a structured function with one branch target that is undefined
    Undefined(u32),
    /// has no tree
    Broken,
}

impl<'a> Known<'a> {
    fn again(&self) -> Known<'a> {
        match *self {
            Known::Nothing => Known::Nothing,
            Known::Tree(t) => Known::Tree(t),
            Known::Undefined(l) => Known::Undefined(l),
            Known::Broken => Known::Broken,
        }
    }
}

fn dup(bs: &[B]) -> Option<u32> {
    if bs.len() > 32 {
        let mut seen = std::collections::HashSet::new();
        return bs.iter().find(|b| !seen.insert(b.label)).map(|b| b.label);
    }
    for (i, b) in bs.iter().enumerate() {
        if bs[..i].iter().any(|c| c.label == b.label) {
            return Some(b.label);
        }
    }
    None
}

/// An error must be true of the function
fn truthful(bs: &[B], e: Ek) -> Result<(), String> {
    let has = |l: u32| bs.iter().any(|b| b.label == l);
    match e {
        Ek::Dup(l) => {
            if bs.iter().filter(|b| b.label == l).count() < 2 {
                return Err(format!("%{} is reported as duplicate but is not", l));
            }
        }
        Ek::Empty => {
            if !bs.is_empty() {
                return Err("reported as empty".into());
            }
        }
        Ek::Unknown(l) => {
            if has(l) {
                return Err(format!("%{} is reported as unknown but is defined", l));
            }
            let used = bs.iter().any(|b| {
                let m = match b.mg {
                    Mg::Loop { m, c, .. } => m == l || c == l,
                    Mg::Sel { m, .. } => m == l,
                    Mg::None => false,
                };
                m || match b.br {
                    Br::To(t) => t == l,
                    Br::Cond(t, f, _) => t == l || f == l,
                    Br::Ret => false,
                }
            });
            if !used {
                return Err(format!("%{} is reported as unknown but is not used", l));
            }
        }
        Ek::Converge(l) => {
            if !has(l) {
                return Err(format!("the error names %{} which is not a block of the function", l));
            }
        }
        Ek::Predict(sel, l) => {
            if !has(l) {
                return Err(format!("the error names %{} which is not a block of the function", l));
            }
            let b = bs.iter().find(|b| b.label == l).unwrap();
            let fine = match (sel, b.mg, b.br) {
                (true, Mg::Sel { .. }, _) => true,
                (false, Mg::Loop { .. }, _) => true,
                (false, Mg::None, Br::Cond(..)) => true,
                _ => false,
            };
            if !fine {
                return Err(format!("the error blames %{} for a construct it does not start", l));
            }
        }
        Ek::Failed => return Err("the error names no block".into()),
    }
    Ok(())
}

pub fn fcase(ctx: &mut Ctx, look: Look, bs: &[B], known: Known) {
    let desc = || format!("function with blocks\n{}", show(bs));
    if !ctx.begin(desc) {
        return;
    }
    let res = ctx.lib(desc, || find_control_flow(func(bs)));
    judge(ctx, look, bs, known, res, &desc);
}

/// The same with contents: code, conditions, parameters, and hints and weights
fn fcase_dressed(ctx: &mut Ctx, look: Look, bs: &[B], known: Known, k: u32, all: &[GroupCode]) {
    let mut bs = bs.to_vec();
    if k % 5 != 0 {
        decorate_by(&mut bs, k);
    }
    let bs = &bs[..];
    let desc = || format!("function (contents {}) with blocks\n{}", k, show(bs));
    if !ctx.begin(desc) {
        return;
    }
    let res = ctx.lib(desc, || find_control_flow(dress(bs, k, all)));
    judge(ctx, look, bs, known, res, &desc);
}

/// Contents that may not make a difference
fn dress(bs: &[B], k: u32, all: &[GroupCode]) -> FunctionDefinition {
    let n = all.len();
    let pick = |x: u32| all[x as usize % n].clone();
    let blocks = bs
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let code = if n == 0 {
                vec![]
            } else {
                match k % 4 {
                    0 => code_for(b.label, all),
                    1 => vec![pick(b.label.wrapping_mul(11).wrapping_add(k))],
                    2 => (0..40).map(|x| pick(x * 3 + i as u32 + k)).collect(),
                    _ => (0..(i % 3)).map(|_| pick(k / 4)).collect(),
                }
            };
            let mut x = block(b, code);
            if let GroupBranch::OpBranchConditional(ref mut c) = x.branch {
                c.condition = OpId(match k % 4 {
                    0 => b.label,
                    1 => c.true_label.0,
                    2 => c.false_label.0,
                    _ => if i % 2 == 0 { 0 } else { u32::MAX },
                });
            }
            x
        })
        .collect();
    let l = bs.first().map(|b| b.label).unwrap_or(0);
    FunctionDefinition {
        function: OpFunction {
            result_type: OpId(l),
            result_id: ResultId(if k % 2 == 0 { l } else { 2 }),
            function_control: FunctionControl { inline: k & 1 != 0, dont_inline: k & 2 != 0, pure_function: k & 4 != 0, const_function: k & 8 != 0 },
            function_type: OpId(l),
        },
        parameters: (0..k % 3).map(|p| OpFunctionParameter { result_type: OpId(l), result_id: ResultId(l.wrapping_add(p)) }).collect(),
        blocks,
    }
}

fn judge(ctx: &mut Ctx, look: Look, bs: &[B], known: Known, res: Result<ControlFlowChain, ControlFlowError>, desc: &dyn Fn() -> String) {
    if ctx.crash_only {
        // only crashes count: print and drop the answer
        let n = ctx.lib(desc, || match &res {
            Ok(t) => t.to_string().len() + format!("{:?}", t).len(),
            Err(e) => format!("{:?}", e).len(),
        });
        ctx.sum_states += (n > 0) as u64;
        ctx.ok(if res.is_ok() { "recovered" } else { "rejected" });
        return;
    }
    let tree = res.as_ref().ok().map(tree_of);
    let show_tree = |t: &Vec<N>| clip(format!("{:?}", t));
    match look {
        Look::Same => match &tree {
            None => ctx.ok("no tree"),
            Some(t) => {
                if dup(bs).is_none() {
                    match bisim(bs, t) {
                        Ok((s, e)) => {
                            ctx.sum_states += s;
                            ctx.sum_trans += e;
                            ctx.ok("same executions");
                        }
                        Err(m) => ctx.fail(desc, format!("{}\ntree {}", m, show_tree(t))),
                    }
                }
            }
        },
        Look::Structured => {
            if let Known::Tree(want) = known {
                match &tree {
                    Some(t) if shape(t) == shape(want) => {
                        ctx.ok("intended tree");
                        ctx.sum_states += bs.len() as u64;
                        ctx.sum_trans += slots(bs).len() as u64;
                    }
                    Some(t) => ctx.fail(desc, format!("recovered {}\nintended  {}", show_tree(t), clip(format!("{:?}", want)))),
                    None => ctx.fail(desc, format!("rejected with {:?}\nintended {}", res.as_ref().err(), clip(format!("{:?}", want)))),
                }
            }
        }
        Look::Hints => match &tree {
            None => ctx.ok("no tree"),
            Some(t) => match hints_ok(bs, t) {
                Ok(()) => {
                    ctx.ok("hints and weights match");
                    ctx.sum_states += bs.len() as u64;
                    ctx.sum_trans += bs.len() as u64;
                }
                Err(m) => ctx.fail(desc, format!("{}\ntree {}", m, show_tree(t))),
            },
        },
        Look::Malformed => {
            let d = dup(bs);
            match &res {
                Ok(_) => {
                    let t = tree.as_ref().unwrap();
                    if d.is_some() {
                        ctx.fail(desc, format!("accepted although %{} is defined twice", d.unwrap()));
                        return;
                    }
                    match (&known, bisim(bs, t)) {
                        (Known::Undefined(l), Ok(_)) => {
                            ctx.fail(desc, format!("accepted although it branches to %{} which is undefined", l));
                            return;
                        }
                        (_, Ok((s, e))) => {
                            ctx.sum_states += s;
                            ctx.sum_trans += e;
                            ctx.ok("well formed");
                        }
                        (_, Err(m)) => ctx.fail(desc, format!("accepted, but no tree describes it: {}\ntree {}", m, show_tree(t))),
                    }
                }
                Err(e) => {
                    let e = ek(e);
                    if let Err(m) = truthful(bs, e) {
                        ctx.fail(desc, format!("{}: {:?}", m, e));
                        return;
                    }
                    if bs.is_empty() && e != Ek::Empty {
                        ctx.fail(desc, format!("a function without blocks is reported as {:?}", e));
                    }
                    if d.is_some() && !matches!(e, Ek::Dup(_)) {
                        ctx.fail(desc, format!("%{} is defined twice, reported as {:?}", d.unwrap(), e));
                    }
                    if let Known::Undefined(l) = known {
                        if d.is_none() && e != Ek::Unknown(l) {
                            ctx.fail(desc, format!("%{} is undefined, reported as {:?}", l, e));
                        }
                    }
                    ctx.sum_states += bs.len() as u64;
                    ctx.sum_trans += 1;
                    ctx.ok(match e {
                        Ek::Dup(_) => "rejected: duplicate label",
                        Ek::Empty => "rejected: no blocks",
                        Ek::Unknown(_) => "rejected: unknown label",
                        Ek::Converge(_) => "rejected: cannot predict",
                        Ek::Predict(..) => "rejected: does not converge",
                        Ek::Failed => "rejected",
                    });
                }
            }
        }
    }
    ctx.sample(|| format!("\n{}-> {:?}", show(bs), res));
}

/// Labels of lazily enumerated graphs
fn lab(l: u32) -> u32 {
    if l == UNDEF {
        999
    } else {
        10 + l * 3
    }
}

pub fn decorate(bs: &mut [B]) {
    decorate_by(bs, 0)
}

/// Hints and weights that depend on the label and a number
pub fn decorate_by(bs: &mut [B], k: u32) {
    for b in bs {
        let l = b.label.wrapping_add(k);
        match b.mg {
            Mg::Sel { ref mut sc, .. } => *sc = l.wrapping_add(1) % 4,
            Mg::Loop { ref mut lc, .. } => *lc = (l.wrapping_mul(5).wrapping_add(3) % 16, l.wrapping_add(1)),
            Mg::None => {}
        }
        if let Br::Cond(_, _, ref mut w) = b.br {
            *w = if l % 5 == 4 { None } else { Some((l.wrapping_mul(2).wrapping_add(1), l.wrapping_mul(7).wrapping_add(2))) };
        }
    }
}

fn graph_case(ctx: &mut Ctx, look: Look, p: &Part, r: &Rec, all_orders: bool) {
    ctx.tick();
    // blocks that are mentioned but not looked at: returning, or undefined
    for fill in 0..2 {
        let mut bs: Vec<B> = vec![];
        let mut open = false;
        for l in 0..p.found {
            match p.blocks[l as usize] {
                Some(b) => bs.push(b),
                None => {
                    open = true;
                    if fill == 0 {
                        bs.push(B { label: l, mg: Mg::None, br: Br::Ret });
                    }
                }
            }
        }
        if fill == 1 && !open {
            break;
        }
        let mut bs = rename(&bs, &lab);
        if look == Look::Hints {
            decorate(&mut bs);
        }
        let tree = match r {
            Rec::Ok(t) => Some(rename_tree(t, &lab)),
            _ => None,
        };
        let odd = bs.iter().any(|b| b.br == Br::Ret && b.mg != Mg::None);
        let single = tree.as_ref().map(|t| {
            let mut m = HashMap::new();
            count(t, &mut m);
            m.values().all(|n| *n == 1)
        });
        for rev in 0..if all_orders && bs.len() > 2 { 2 } else { 1 } {
            if rev == 1 {
                bs[1..].reverse();
            }
            let known = match (&tree, r) {
                (Some(t), _) if single == Some(true) && !odd => Known::Tree(t),
                (None, Rec::Reject) | (None, Rec::Unknown(_)) => Known::Broken,
                _ => Known::Nothing,
            };
            if look == Look::Structured && !matches!(known, Known::Tree(_)) {
                continue;
            }
            if look == Look::Hints && tree.is_none() {
                continue;
            }
            if !all_orders {
                // some continue target: it may not make a difference
                let shift = p.found + bs.len() as u32;
                for i in 0..bs.len() {
                    let at = (i as u32 * 3 + shift) as usize % bs.len();
                    let l = bs[at].label;
                    set(&mut bs, (i, 1), l);
                }
                if bs.iter().filter(|b| matches!(b.br, Br::Cond(..))).count() % 2 == 1 {
                    decorate_by(&mut bs, shift);
                }
                fcase(ctx, look, &bs, known);
                continue;
            }
            fcase(ctx, look, &bs, known.again());
            // continue targets and contents may not make a difference
            let loops: Vec<usize> = (0..bs.len()).filter(|i| matches!(bs[*i].mg, Mg::Loop { .. })).collect();
            let labels: Vec<u32> = bs.iter().map(|b| b.label).chain([997]).collect();
            for &i in &loops {
                for &l in &labels {
                    if l != bs[i].label {
                        let mut x = bs.clone();
                        set(&mut x, (i, 1), l);
                        fcase(ctx, look, &x, known.again());
                    }
                }
            }
            let all = all_code_cached();
            for k in 0..2 {
                fcase_dressed(ctx, look, &bs, known.again(), 1 + k * 4 + p.found % 3, &all);
            }
        }
    }
}

fn graph_units(p: &mut Plan, look: Look, n: u32, undef: bool, odd: bool, split: usize) {
    let roots = options(0, 1, n, undef, odd);
    for (i, (b, found)) in roots.into_iter().enumerate() {
        for j in 0..split {
            p.unit(format!("graphs of {} blocks, entry {}, part {}", n, i, j), move |ctx| {
                let mut part = Part { blocks: vec![None; n as usize], found };
                part.blocks[0] = Some(b);
                let mut run = |p: &Part, r: &Rec| graph_case(ctx, look, p, r, n <= 4);
                match recognise(&part, 0) {
                    Rec::Need(l) => {
                        for (k, (b, f)) in options(l, part.found, n, undef, odd).into_iter().enumerate() {
                            if k % split != j {
                                continue;
                            }
                            part.blocks[l as usize] = Some(b);
                            let old = part.found;
                            part.found = f;
                            graphs(&mut part, n, undef, odd, &mut run);
                            part.blocks[l as usize] = None;
                            part.found = old;
                        }
                    }
                    r => {
                        if j == 0 {
                            run(&part, &r)
                        }
                    }
                }
            });
        }
    }
    p.bound(format!(
        "all control flow graphs of up to {} blocks up to renaming{}{}, each block branching, selecting, looping, leaving or returning to any label, explored as far as a verdict depends on them",
        n,
        if undef { " and undefined labels" } else { "" },
        if odd { " and unsupported merge/branch combinations" } else { "" }
    ));
}

/// Every assignment of every block (also unreachable ones)
fn total_units(p: &mut Plan, look: Look, n: u32, undef: bool, odd: bool) {
    // all labels are known from the start
    let opts: Vec<Vec<B>> = (0..n).map(|l| options(l, n, n, undef, odd).into_iter().map(|o| o.0).collect()).collect();
    let opts = std::sync::Arc::new(opts);
    for first in 0..opts[0].len() {
        let opts = opts.clone();
        p.unit(format!("total graphs of {} blocks, entry {}", n, first), move |ctx| {
            let mut v = vec![opts[0][first]];
            all_graphs(&mut v, n, &opts, &mut |bs| {
                let mut x = rename(bs, &lab);
                if look == Look::Hints {
                    decorate(&mut x);
                }
                fcase(ctx, look, &x, Known::Nothing);
            });
        });
    }
    p.bound(format!("every assignment of {} blocks, reachable or not ({} per block)", n, opts[0].len()));
}

fn orders(bs: &[B], all: bool, f: &mut dyn FnMut(&[B])) {
    f(bs);
    if bs.len() < 3 {
        return;
    }
    if all {
        let mut v = bs.to_vec();
        permute(&mut v, 1, f);
    } else {
        let mut v = bs.to_vec();
        v[1..].reverse();
        f(&v);
        let mut v = bs.to_vec();
        let k = v.len() / 2;
        let r = k.min(v.len() - 2);
        v[1..].rotate_left(r);
        f(&v);
    }
}

fn permute(v: &mut Vec<B>, at: usize, f: &mut dyn FnMut(&[B])) {
    if at + 1 >= v.len() {
        f(v);
        return;
    }
    for i in at..v.len() {
        v.swap(at, i);
        permute(v, at + 1, f);
        v.swap(at, i);
    }
}

/// Units over all structured programs of n blocks (plus the final return)
fn program_units(p: &mut Plan, n: usize, parts: usize, name: &str, f: impl Fn(&mut Ctx, &[A]) + Send + Sync + Clone + 'static) {
    program_units_of(p, n, parts, name, false, f)
}

fn program_units_of(p: &mut Plan, n: usize, parts: usize, name: &str, tails: bool, f: impl Fn(&mut Ctx, &[A]) + Send + Sync + Clone + 'static) {
    for j in 0..parts {
        let f = f.clone();
        p.unit(format!("{} {} blocks, part {}", name, n, j), move |ctx| {
            let g = if tails { Programs::with_tails(n) } else { Programs::new(n) };
            let mut i = j as u64;
            while i < g.len(n) {
                ctx.tick();
                f(ctx, &g.get(n, false, i));
                i += parts as u64;
            }
        });
    }
}

pub fn label_maps() -> Vec<Box<dyn Fn(u32) -> u32>> {
    vec![
        Box::new(|l| l + 1),
        Box::new(|l| 1000u32.wrapping_sub(l.wrapping_mul(7))),
        Box::new(|l| u32::MAX - l),
        Box::new(|l| l),
        Box::new(|l| l.rotate_left(24).wrapping_add(5)),
        Box::new(|l| l.wrapping_mul(0x9E37_79B1)),
    ]
}

fn structured(p: &mut Plan, look: Look, tier: Tier) {
    let max = tier.pick(7usize, 9);
    for n in 0..=max {
        let perms = n <= 5;
        program_units(p, n, if n < 5 { 1 } else { 24 }, "programs of", move |ctx, a| {
            let (bs, tree) = emit(a, &mut Plain);
            let maps = label_maps();
            let nm = if n <= 6 { maps.len() } else { 1 };
            for m in maps.iter().take(nm) {
                let mut x = rename(&bs, m);
                let t = rename_tree(&tree, m);
                if look == Look::Hints {
                    decorate(&mut x);
                }
                fcase(ctx, look, &x, Known::Tree(&t));
                if look != Look::Hints {
                    // hints and weights do not change the structure
                    for k in 0..if n <= 6 { 4 } else { 1 } {
                        decorate_by(&mut x, k);
                        fcase(ctx, look, &x, Known::Tree(&t));
                    }
                }
            }
            if n <= 3 && look != Look::Hints {
                let mut od = odometer(n <= 1);
                loop {
                    od.at = 0;
                    let (x, t) = emit(a, &mut od);
                    fcase(ctx, look, &x, Known::Tree(&t));
                    if !od.next() {
                        break;
                    }
                }
            }
            if n <= 7 {
                orders(&bs, perms, &mut |o| fcase(ctx, look, &o, Known::Tree(&tree)));
            }
            // the continue target of a loop does not change its structure here
            if n <= 6 {
                for (i, b) in bs.iter().enumerate() {
                    if let Mg::Loop { .. } = b.mg {
                        for l in 0..bs.len() as u32 + 1 {
                            let mut x = bs.clone();
                            set(&mut x, (i, 1), if l as usize == bs.len() { 999 } else { l });
                            fcase(ctx, look, &x, Known::Tree(&tree));
                        }
                    }
                }
            }
        });
    }
    p.bound(format!(
        "all structured programs (sequences, selections with possibly empty arms, loops, conditional break and continue, nested in every way) of up to {} blocks and a return; up to 6 blocks with 6 label maps, 5 assignments of hints and weights, and all continue targets; up to 3 blocks with all hints and weights; all block orders up to 6 blocks, 3 orders up to 8 blocks",
        max
    ));
    // exits in the arms of a selection that ends a loop body
    let tails = tier.pick(6usize, 8);
    for n in 3..=tails {
        program_units_of(p, n, if n < 5 { 1 } else { 24 }, "programs with exits in selections,", true, move |ctx, a| {
            if !exits_in_arms(a, false) {
                return;
            }
            let (mut bs, tree) = emit(a, &mut Plain);
            if look == Look::Hints {
                decorate(&mut bs);
            }
            fcase(ctx, look, &bs, Known::Tree(&tree));
            bs[1..].reverse();
            fcase(ctx, look, &bs, Known::Tree(&tree));
        });
    }
    p.bound(format!("all such programs of up to {} blocks that have exits in the arms of a selection that ends a loop body", tails));
    // contents do not matter
    for n in 0..=tier.pick(5usize, 6) {
        program_units(p, n, if n < 4 { 1 } else { 16 }, "programs with contents,", move |ctx, a| {
            let (mut bs, tree) = emit(a, &mut Plain);
            if look == Look::Hints {
                decorate(&mut bs);
            }
            let all = all_code_cached();
            for k in 0..8 {
                fcase_dressed(ctx, look, &bs, Known::Tree(&tree), k, &all);
            }
        });
    }
    p.unit("contents of every kind", move |ctx| {
        let all = all_code();
        let progs: Vec<Vec<A>> = vec![
            vec![],
            vec![A::Sel(vec![A::Atom], vec![A::Atom]), A::Atom],
            vec![A::Loop(vec![A::Atom, A::BreakIf(vec![A::Atom])])],
            vec![A::Atom, A::Loop(vec![A::Sel(vec![], vec![A::Atom]), A::ContIf(vec![A::BreakIf(vec![])])])],
        ];
        for a in progs {
            let (mut bs, tree) = emit(&a, &mut Plain);
            if look == Look::Hints {
                decorate(&mut bs);
            }
            for k in 0..(all.len() as u32 * 4) {
                fcase_dressed(ctx, look, &bs, Known::Tree(&tree), k, &all);
            }
            // one block only
            for c in &all {
                for at in 0..bs.len() {
                    let mut f = func(&bs);
                    f.blocks[at].code = vec![c.clone()];
                    let desc = || format!("function with code {:?} in block {} of\n{}", c, at, show(&bs));
                    if ctx.begin(desc) {
                        let res = ctx.lib(desc, || find_control_flow(f));
                        judge(ctx, look, &bs, Known::Tree(&tree), res, &desc);
                    }
                }
            }
        }
    });
    p.bound(format!("programs of up to {} blocks with 8 choices of code, conditions, parameters and function operands; four programs with every code instruction in each block", tier.pick(5, 6)));
    // an unreachable block or code does not matter
    for n in 0..=5usize {
        program_units(p, n, 4, "programs with unreachable blocks,", move |ctx, a| {
            let (bs, tree) = emit(a, &mut Plain);
            for at in 1..=bs.len() {
                for br in [Br::Ret, Br::To(0), Br::To(777), Br::Cond(0, 1, None), Br::To(500)] {
                    for mg in [Mg::None, Mg::Sel { m: 0, sc: 1 }, Mg::Loop { m: 1, c: 0, lc: (1, 0) }] {
                        let mut x = bs.clone();
                        x.insert(at, B { label: 500, mg, br });
                        fcase(ctx, look, &x, Known::Tree(&tree));
                    }
                }
            }
        });
    }
    p.bound("programs of up to 5 blocks with one unreachable block of 15 kinds at every place");
    for n in 0..=3usize {
        program_units(p, n, 1, "programs with two unreachable blocks,", move |ctx, a| {
            let (bs, tree) = emit(a, &mut Plain);
            let kinds = [
                (Mg::None, Br::Ret),
                (Mg::None, Br::To(501)),
                (Mg::None, Br::To(500)),
                (Mg::None, Br::To(0)),
                (Mg::None, Br::Cond(501, 500, Some((1, 2)))),
                (Mg::Sel { m: 501, sc: 1 }, Br::Cond(500, 0, None)),
                (Mg::Loop { m: 500, c: 501, lc: (1, 0) }, Br::To(501)),
                (Mg::Loop { m: 0, c: 501, lc: (8, 4) }, Br::To(500)),
            ];
            for at in 1..=bs.len() {
                for at2 in 1..=bs.len() + 1 {
                    for x in &kinds {
                        for y in &kinds {
                            let mut v = bs.clone();
                            v.insert(at, B { label: 500, mg: x.0, br: x.1 });
                            v.insert(at2, B { label: 501, mg: y.0, br: y.1 });
                            fcase(ctx, look, &v, Known::Tree(&tree));
                        }
                    }
                }
            }
        });
    }
    p.bound("programs of up to 3 blocks with two unreachable blocks of 8 kinds each at every two places");
    nested(p, look, tier);
    near_labels(p, look);
    // size
    let many = tier.pick(400usize, 3000);
    p.unit("long sequences", move |ctx| {
        let units: Vec<Vec<A>> = vec![
            vec![A::Atom],
            vec![A::Sel(vec![], vec![])],
            vec![A::Sel(vec![A::Atom], vec![A::Atom])],
            vec![A::Loop(vec![])],
            vec![A::Loop(vec![A::Atom, A::BreakIf(vec![A::Atom])])],
            vec![A::Loop(vec![A::ContIf(vec![A::BreakIf(vec![])])]), A::Atom],
        ];
        for u in &units {
            let mut n = 1;
            while n <= many {
                let prog: Vec<A> = (0..n).flat_map(|_| u.iter().cloned()).collect();
                large_case(ctx, look, &prog, n);
                n += if n < 40 { 1 } else { n / 7 };
            }
        }
    });
    for kind in 0..4usize {
        p.unit(format!("very long sequences, kind {}", kind), move |ctx| {
            let u = match kind {
                0 => vec![A::Atom],
                1 => vec![A::Sel(vec![A::Atom], vec![])],
                2 => vec![A::Loop(vec![A::BreakIf(vec![A::Atom])])],
                _ => vec![A::Sel(vec![], vec![A::Atom]), A::Loop(vec![A::Atom, A::ContIf(vec![])])],
            };
            for n in [513usize, 1025, 2049, 4097, 10_001, 16_385, tier.pick(33_000, 66_000)] {
                let prog: Vec<A> = (0..n).flat_map(|_| u.iter().cloned()).collect();
                let (mut bs, tree) = emit(&prog, &mut Plain);
                if look == Look::Hints {
                    decorate(&mut bs);
                }
                fcase(ctx, look, &bs, Known::Tree(&tree));
                let (bs, tree) = emit(&[A::Loop(prog)], &mut Plain);
                fcase(ctx, look, &bs, Known::Tree(&tree));
            }
        });
    }
    p.bound(format!("sequences of up to {} constructs of 4 kinds, alone and in a loop", tier.pick(33_000, 66_000)));
    p.unit("deep nesting", move |ctx| {
        for kind in 0..6 {
            for depth in (1..=tier.pick(130usize, 300)).chain([256, 257, 300]) {
                let mut s: Vec<A> = vec![A::Atom];
                for k in 0..depth {
                    s = match kind {
                        0 => vec![A::Sel(s, vec![])],
                        1 => vec![A::Sel(vec![], s), A::Atom],
                        2 => vec![A::Loop(s)],
                        3 => vec![A::Loop({
                            s.push(A::BreakIf(vec![]));
                            s
                        })],
                        4 => {
                            if k % 2 == 0 {
                                vec![A::Sel(s, vec![A::Atom])]
                            } else {
                                s.push(A::ContIf(vec![A::Atom]));
                                vec![A::Atom, A::Loop(s), A::Atom]
                            }
                        }
                        _ => vec![A::Loop(vec![A::Sel(s, vec![]), A::BreakIf(vec![A::Atom])]), A::Atom],
                    };
                }
                large_case(ctx, look, &s, depth);
            }
        }
    });
    p.unit("chains of conditional exits", move |ctx| {
        for depth in (1..=tier.pick(130usize, 300)).chain([256, 257, 300]) {
            for bits in 0..8usize {
                let mut s: Vec<A> = vec![A::Atom];
                for k in 0..depth {
                    s = match (bits >> (k % 3)) & 1 {
                        0 => vec![A::Atom, A::BreakIf(s)],
                        _ => vec![A::ContIf(s)],
                    };
                }
                large_case(ctx, look, &[A::Loop(s)], depth);
            }
        }
    });
    p.bound(format!("sequences of up to {} constructs of 6 kinds, nesting of 6 kinds and chains of exits up to depth {} and of 3 depths up to 300, each with 7 label maps (among them one in which the first or an inner block is 0), 3 block orders and 2 contents", many, tier.pick(130, 300)));
}


/// A large program in several dresses
fn large_case(ctx: &mut Ctx, look: Look, a: &[A], n: usize) {
    let (mut bs, tree) = emit(a, &mut Plain);
    if look == Look::Hints || n % 2 == 0 {
        decorate(&mut bs);
    }
    fcase(ctx, look, &bs, Known::Tree(&tree));
    let all = all_code_cached();
    for k in 0..2 {
        fcase_dressed(ctx, look, &bs, Known::Tree(&tree), k, &all);
    }
    let mut maps = label_maps();
    maps.push(Box::new(|l| l.wrapping_sub(1)));
    for (i, m) in maps.iter().enumerate() {
        let mut x = rename(&bs, m);
        let t = rename_tree(&tree, m);
        match i % 3 {
            0 => {}
            1 => x[1..].reverse(),
            _ => {
                let h = (x.len() - 1) / 2;
                x[1..].rotate_left(h);
            }
        }
        fcase(ctx, look, &x, Known::Tree(&t));
    }
}

fn exits_in_arms(s: &[A], arm: bool) -> bool {
    s.iter().any(|a| match a {
        A::Atom => false,
        A::Sel(x, y) => exits_in_arms(x, true) || exits_in_arms(y, true),
        A::Loop(x) => exits_in_arms(x, false),
        A::BreakIf(x) | A::ContIf(x) => arm || exits_in_arms(x, arm),
    })
}

/// The program with its k-th plain block replaced
fn fill(s: &[A], k: &mut usize, with: &[A]) -> Vec<A> {
    let mut v = vec![];
    for a in s {
        match a {
            A::Atom => {
                if *k == 0 {
                    v.extend(with.iter().cloned());
                } else {
                    v.push(A::Atom);
                }
                *k = k.wrapping_sub(1);
            }
            A::Sel(x, y) => {
                let x = fill(x, k, with);
                let y = fill(y, k, with);
                v.push(A::Sel(x, y));
            }
            A::Loop(x) => v.push(A::Loop(fill(x, k, with))),
            A::BreakIf(x) => v.push(A::BreakIf(fill(x, k, with))),
            A::ContIf(x) => v.push(A::ContIf(fill(x, k, with))),
        }
    }
    v
}

fn plain_blocks(s: &[A]) -> usize {
    s.iter()
        .map(|a| match a {
            A::Atom => 1,
            A::Sel(x, y) => plain_blocks(x) + plain_blocks(y),
            A::Loop(x) | A::BreakIf(x) | A::ContIf(x) => plain_blocks(x),
        })
        .sum()
}

/// Programs of up to n blocks with a hole in place of a plain block
fn holes(n: usize) -> Vec<(Vec<A>, usize)> {
    let mut out: Vec<(Vec<A>, usize)> = vec![];
    for n in 1..=n {
        let g = Programs::new(n);
        for i in 0..g.len(n) {
            let a = g.get(n, false, i);
            for h in 0..plain_blocks(&a) {
                out.push((a.clone(), h));
            }
        }
    }
    out
}

/// Pumping: small programs put into each other again and again
fn nested(p: &mut Plan, look: Look, tier: Tier) {
    let run = move |ctx: &mut Ctx, s: &[A]| {
        let (mut bs, tree) = emit(s, &mut Plain);
        if look == Look::Hints {
            decorate(&mut bs);
        }
        fcase(ctx, look, &bs, Known::Tree(&tree));
    };
    let one = tier.pick(4usize, 5);
    let parts = 16;
    for j in 0..parts {
        p.unit(format!("nested contexts, part {}", j), move |ctx| {
            for (a, h) in holes(one).into_iter().skip(j).step_by(parts) {
                let mut s = vec![A::Atom];
                for _ in 0..tier.pick(8, 12) {
                    let mut k = h;
                    s = fill(&a, &mut k, &s);
                    run(ctx, &s);
                }
                // and one after the other
                for n in 2..6 {
                    let v: Vec<A> = (0..n).flat_map(|_| a.iter().cloned()).collect();
                    run(ctx, &v);
                }
            }
        });
    }
    let two = tier.pick(3usize, 4);
    for j in 0..parts {
        p.unit(format!("pairs of nested contexts, part {}", j), move |ctx| {
            let cs = holes(two);
            for (a, h) in cs.iter().skip(j).step_by(parts) {
                for (b, g) in &cs {
                    let mut s = vec![A::Atom];
                    for d in 0..4 {
                        let mut k = if d % 2 == 0 { *h } else { *g };
                        s = fill(if d % 2 == 0 { a } else { b }, &mut k, &s);
                    }
                    run(ctx, &s);
                    // next to each other within one another
                    let mut k = *h;
                    let mut x = b.clone();
                    x.extend(a.iter().cloned());
                    run(ctx, &fill(a, &mut k, &x));
                }
            }
        });
    }
    p.bound(format!("all programs of up to {} blocks with a hole, put into themselves up to {} times and repeated up to 5 times; all pairs of such programs of up to {} blocks put into each other alternately, and next to each other into the first", one, tier.pick(8, 12), two));
}

/// Structured programs with changed branch targets
fn deviations(p: &mut Plan, look: Look, tier: Tier) {
    deviations_up_to(p, look, tier.pick(5usize, 7), tier.pick(4usize, 5));
}

fn deviations_up_to(p: &mut Plan, look: Look, one: usize, two: usize) {
    for n in 0..=one {
        program_units(p, n, if n < 4 { 1 } else { 24 }, "deviating programs of", move |ctx, a| {
            let (bs, _) = emit(a, &mut Plain);
            let all = all_code_cached();
            for s in slots(&bs) {
                for l in (0..bs.len() as u32).chain([999]) {
                    let mut x = bs.clone();
                    set(&mut x, s, l);
                    let known = if l == 999 && undefined_is_exact(&bs, s) { Known::Undefined(999) } else { Known::Nothing };
                    fcase(ctx, look, &x, known.again());
                    fcase_dressed(ctx, look, &x, known, l, &all);
                }
            }
            // a block loses or gains its merge, changes its branch
            for i in 0..bs.len() {
                let l = bs[i].label;
                let others: Vec<u32> = vec![l, 0, bs[0].label, bs[(i + 1) % bs.len()].label];
                for mg in [Mg::None, Mg::Sel { m: others[1], sc: 0 }, Mg::Loop { m: others[1], c: l, lc: (0, 0) }, Mg::Sel { m: others[3], sc: 0 }, Mg::Loop { m: others[3], c: l, lc: (0, 0) }] {
                    let mut x = bs.clone();
                    x[i].mg = mg;
                    fcase(ctx, look, &x, Known::Nothing);
                    for br in [Br::Ret, Br::To(others[2]), Br::To(others[3]), Br::Cond(others[3], others[1], None), Br::Cond(others[1], others[3], None)] {
                        let mut y = x.clone();
                        y[i].br = br;
                        fcase(ctx, look, &y, Known::Nothing);
                    }
                }
            }
        });
    }
    p.bound(format!("all structured programs of up to {} blocks with each branch or merge target replaced by each label and an undefined one, and each block's merge and branch replaced by 30 others", one));
    for n in 0..=two {
        program_units(p, n, if n < 3 { 1 } else { 24 }, "twice deviating programs of", move |ctx, a| {
            let (bs, _) = emit(a, &mut Plain);
            let ss = slots(&bs);
            for i in 0..ss.len() {
                for j in i + 1..ss.len() {
                    for l in (0..bs.len() as u32).chain([999]) {
                        for m in (0..bs.len() as u32).chain([998]) {
                            let mut x = bs.clone();
                            set(&mut x, ss[i], l);
                            set(&mut x, ss[j], m);
                            fcase(ctx, look, &x, Known::Nothing);
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("and all pairs of such target changes up to {} blocks", two));
}

/// Replacing this target of a structured function by an undefined label has exactly one fault
fn undefined_is_exact(bs: &[B], s: (usize, u8)) -> bool {
    let mut x = bs.to_vec();
    set(&mut x, s, 999);
    // plain branches, selection arms and the true side of a conditional exit are followed as they are
    match (s.1, x[s.0].mg, x[s.0].br) {
        (2, _, Br::To(_)) => true,
        (2, _, Br::Cond(..)) | (3, Mg::Sel { .. }, _) => true,
        _ => false,
    }
}

fn duplicates(p: &mut Plan, look: Look, tier: Tier) {
    let max = tier.pick(5usize, 6);
    p.unit("no blocks", move |ctx| fcase(ctx, look, &[], Known::Broken));
    for n in 0..=max {
        program_units(p, n, if n < 4 { 1 } else { 16 }, "programs with a duplicate label,", move |ctx, a| {
            let (bs, _) = emit(a, &mut Plain);
            let all = all_code_cached();
            for i in 0..bs.len() {
                // a copy, or another block, under the same label, at every place
                for at in 0..=bs.len() {
                    for br in [bs[i].br, Br::Ret, Br::To(0), Br::Cond(0, bs[i].label, None)] {
                        for mg in [bs[i].mg, Mg::None, Mg::Sel { m: 0, sc: 1 }, Mg::Loop { m: 0, c: 0, lc: (2, 0) }] {
                            let mut x = bs.clone();
                            x.insert(at, B { label: bs[i].label, mg, br });
                            fcase(ctx, look, &x, Known::Broken);
                            for k in 0..if n < 5 { 4 } else { 1 } {
                                fcase_dressed(ctx, look, &x, Known::Broken, k + at as u32, &all);
                            }
                        }
                    }
                }
                // an unreachable block twice
                let mut x = bs.clone();
                x.push(B { label: 800, mg: Mg::None, br: Br::Ret });
                x.insert(1 + i.min(x.len() - 1), B { label: 800, mg: Mg::None, br: Br::To(0) });
                fcase(ctx, look, &x, Known::Broken);
            }
        });
    }
    p.bound(format!("a duplicate of each label at each place, with 16 merges and branches and several contents, in all programs of up to {} blocks; the function without blocks", max));
    // missing blocks
    let miss = tier.pick(6usize, 7);
    for n in 0..=miss {
        program_units(p, n, if n < 4 { 1 } else { 16 }, "programs with a missing block,", move |ctx, a| {
            let (bs, _) = emit(a, &mut Plain);
            let all = all_code_cached();
            for i in 1..bs.len() {
                let gone = bs[i].label;
                let mut x = bs.clone();
                x.remove(i);
                // every block of a structured program is reached: its absence is the only fault
                fcase(ctx, look, &x, Known::Undefined(gone));
                for k in 1..4 {
                    fcase_dressed(ctx, look, &x, Known::Undefined(gone), k, &all);
                }
            }
        });
    }
    p.bound(format!("each block but the entry removed from all programs of up to {} blocks", miss));
}

fn bases() -> Vec<u32> {
    let mut v = vec![0u32, 1, 2, 3, 7, 0x7F, 0x80, 0xFF, 0x100, 999, 1000, 0x7FFF, 0xFFFF, 0x10000, 0x12345678, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF];
    v.extend((0..32).map(|b| 1 << b));
    v.sort();
    v.dedup();
    v
}

/// Labels that are nearly the same, defined or not
fn near_labels(p: &mut Plan, look: Look) {
    for part in 0..16usize {
        p.unit(format!("near labels, part {}", part), move |ctx| {
            let progs: Vec<Vec<A>> = vec![
                vec![A::Atom],
                vec![A::Sel(vec![A::Atom], vec![])],
                vec![A::Loop(vec![A::Atom, A::BreakIf(vec![A::Atom])])],
                vec![A::Loop(vec![A::ContIf(vec![A::Sel(vec![], vec![A::Atom])])]), A::Atom],
            ];
            for &a in bases().iter().skip(part).step_by(16) {
                let others: Vec<u32> = (0..32).map(|k| a ^ 1 << k).chain([a.swap_bytes(), a.rotate_left(16), !a, a.wrapping_neg(), a.wrapping_add(1), a.wrapping_sub(1)]).filter(|b| *b != a).collect();
                for b in others {
                    for prog in &progs {
                        let (bs, tree) = emit(prog, &mut Plain);
                        let n = bs.len() as u32;
                        for x in 0..n {
                            // one block has label a, another one b, the rest others
                            for y in 0..n {
                                if x == y {
                                    continue;
                                }
                                let m = |l: u32| {
                                    if l == x {
                                        a
                                    } else if l == y {
                                        b
                                    } else {
                                        let mut c = 0x00AA_0000u32.wrapping_add(l * 16);
                                        while c == a || c == b {
                                            c += 1;
                                        }
                                        c
                                    }
                                };
                                let mut f = rename(&bs, &m);
                                let t = rename_tree(&tree, &m);
                                if look == Look::Hints {
                                    decorate(&mut f);
                                }
                                fcase(ctx, look, &f, Known::Tree(&t));
                            }
                            if look == Look::Malformed || look == Look::Same {
                                // block x has label a, one branch leads to b instead
                                let m = |l: u32| if l == x { a } else { 0x00AA_0000u32.wrapping_add(l * 16) };
                                let f = rename(&bs, &m);
                                if f.iter().filter(|q| q.label == b).count() > 0 {
                                    continue;
                                }
                                for s in slots(&f) {
                                    let mut g = f.clone();
                                    set(&mut g, s, b);
                                    let known = if undefined_is_exact(&f, s) { Known::Undefined(b) } else { Known::Nothing };
                                    fcase(ctx, look, &g, known);
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    p.bound("four functions with ~50 labels, each together with labels that differ in one bit, by byte order, sign or one: both defined in every two places, or one used in place of the other");
}

/// Faults in long and deep functions
fn large_faults(p: &mut Plan, look: Look, tier: Tier) {
    let many = tier.pick(120usize, 400);
    for kind in 0..8usize {
        p.unit(format!("faults in large functions of kind {}", kind), move |ctx| {
            let sizes: Vec<usize> = [1usize, 2, 3, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 120, 200, 256, 300, 400].iter().cloned().filter(|n| *n <= many).collect();
            for n in sizes {
                let prog: Vec<A> = match kind {
                    0 => vec![A::Atom; n],
                    1 => vec![A::Sel(vec![A::Atom], vec![]); n],
                    2 => vec![A::Loop(vec![A::Atom, A::BreakIf(vec![A::Atom])]); n],
                    _ => {
                        if n > 65 {
                            continue;
                        }
                        let mut s = vec![A::Atom];
                        for k in 0..n {
                            s = match kind {
                                3 => vec![A::Sel(s, vec![A::Atom])],
                                4 => vec![A::Loop(s)],
                                5 => vec![A::Atom, A::Loop(vec![A::Sel(vec![], s), A::BreakIf(vec![])])],
                                6 => vec![A::Atom, if k % 2 == 0 { A::BreakIf(s) } else { A::ContIf(s) }],
                                _ => if k % 2 == 0 { vec![A::Sel(vec![A::Atom], s)] } else { vec![A::Loop(s), A::Atom] },
                            };
                        }
                        if kind == 6 {
                            s = vec![A::Loop(s)];
                        }
                        s
                    }
                };
                let (bs, _) = emit(&prog, &mut Plain);
                let len = bs.len();
                let places: Vec<usize> = if len <= 40 { (0..len).collect() } else { (0..12).chain((12..len - 12).step_by(len / 13)).chain(len - 12..len).collect() };
                for &i in &places {
                    // the same label again at some places
                    for at in [0, 1, i, i + 1, len / 2, len - 1, len] {
                        for br in [bs[i].br, Br::Ret] {
                            let mut x = bs.clone();
                            x.insert(at, B { label: bs[i].label, mg: if br == bs[i].br { bs[i].mg } else { Mg::None }, br });
                            fcase(ctx, look, &x, Known::Broken);
                        }
                    }
                    // the block is missing
                    if i > 0 {
                        let mut x = bs.clone();
                        x.remove(i);
                        fcase(ctx, look, &x, Known::Undefined(bs[i].label));
                    }
                    // a target leads to an undefined label, back to the start, to itself, elsewhere
                    for s in slots(&bs).into_iter().filter(|s| s.0 == i) {
                        for l in [9999, bs[0].label, bs[i].label, bs[(i + 1) % len].label, bs[len / 2].label, bs[len - 1].label, 0] {
                            let mut x = bs.clone();
                            set(&mut x, s, l);
                            let known = if l == 9999 && undefined_is_exact(&bs, s) { Known::Undefined(9999) } else { Known::Nothing };
                            fcase(ctx, look, &x, known);
                        }
                    }
                    for mg in [Mg::None, Mg::Sel { m: 0, sc: 0 }, Mg::Loop { m: 0, c: 0, lc: (0, 0) }] {
                        for br in [Br::Ret, bs[i].br, Br::Cond(bs[i].label, 0, None), Br::Cond(0, bs[len / 2].label, None)] {
                            let mut x = bs.clone();
                            x[i].mg = mg;
                            x[i].br = br;
                            fcase(ctx, look, &x, Known::Nothing);
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("sequences of up to {} constructs and nesting up to 65, of 8 kinds, with one of: a label defined twice, a missing block, a target replaced by one of 7, a merge and branch replaced by 12 others, at every block (at ~37 blocks of the larger ones)", many));
}

pub fn c13(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("conditions are treated as unknown: both directions of every conditional branch are followed at every visit");
    for n in 1..=3 {
        total_units(&mut p, Look::Same, n, n < 3 || tier == Tier::Thorough, true);
    }
    graph_units(&mut p, Look::Same, 4, true, true, 8);
    graph_units(&mut p, Look::Same, 5, tier == Tier::Thorough, tier == Tier::Thorough, 16);
    if tier == Tier::Thorough {
        graph_units(&mut p, Look::Same, 6, false, false, 64);
    }
    structured(&mut p, Look::Same, tier);
    deviations(&mut p, Look::Same, tier);
    large_faults(&mut p, Look::Same, tier);
    p
}

pub fn c14(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("supported constructs: straight line code, selections whose arms both reach the merge block, loops whose body returns to the header, conditional branches in a loop body whose false target is the innermost loop's merge block or header, one return at the end");
    structured(&mut p, Look::Structured, tier);
    graph_units(&mut p, Look::Structured, 4, false, false, 8);
    graph_units(&mut p, Look::Structured, 5, false, false, 16);
    if tier == Tier::Thorough {
        graph_units(&mut p, Look::Structured, 6, false, false, 64);
    }
    end_to_end(&mut p, tier);
    p
}

/// From the binary: encode the program, read, validate and recover it
fn end_to_end(p: &mut Plan, tier: Tier) {
    let max = tier.pick(5usize, 7);
    for n in 0..=max {
        program_units(p, n, if n < 4 { 1 } else { 16 }, "binaries of", move |ctx, a| {
            let (bs, tree) = emit(a, &mut Plain);
            let mut bs = rename(&bs, &|l| l + 50);
            decorate(&mut bs);
            let tree = rename_tree(&tree, &|l| l + 50);
            let desc = || format!("binary of a function with blocks\n{}", show(&bs));
            if !ctx.begin(desc) {
                return;
            }
            let w = binary(&bs);
            let bytes = to_bytes(&w, n % 2 == 0);
            let r = ctx.lib(desc, || {
                let m = magmaflow::spv::raw::read_module(&bytes, glsl()).map_err(|e| format!("read: {:?}", e))?;
                let l = validate(m).map_err(|e| format!("validate: {:?}", e))?;
                let f = l.function_definitions.into_iter().next().ok_or("no function".to_string())?;
                find_control_flow(f).map_err(|e| format!("control flow: {:?}", e))
            });
            match r {
                Ok(c) if shape(&tree_of(&c)) == shape(&tree) => ctx.ok("intended tree from the binary"),
                Ok(c) => ctx.fail(desc, clip(format!("recovered {:?}\nintended {:?}", tree_of(&c), tree))),
                Err(e) => ctx.fail(desc, e),
            }
            ctx.sum_states += bs.len() as u64;
            ctx.sum_trans += w.len() as u64;
        });
    }
    p.bound(format!("the same from the binary (reading, validating, recovering) for all programs of up to {} blocks", max));
}

pub fn binary(bs: &[B]) -> Vec<u32> {
    let mut v = vec![
        Inst { op: 14, vals: vec![V::En(E::AddrModel, 0, vec![]), V::En(E::MemModel, 1, vec![])] },
        Inst { op: 54, vals: vec![V::Id(1), V::Id(2), V::Mk(M::FnControl, 0, vec![]), V::Id(3)] },
    ];
    for b in bs {
        v.push(Inst { op: 248, vals: vec![V::Id(b.label)] });
        v.push(Inst { op: 62, vals: vec![V::Id(b.label), V::Id(4), V::Absent] });
        match b.mg {
            Mg::None => {}
            Mg::Loop { m, c, lc } => v.push(Inst {
                op: 246,
                vals: vec![V::Id(m), V::Id(c), V::Mk(M::LoopControl, lc.0, if lc.0 & 8 != 0 { vec![V::Lit(lc.1)] } else { vec![] })],
            }),
            Mg::Sel { m, sc } => v.push(Inst { op: 247, vals: vec![V::Id(m), V::Mk(M::SelControl, sc, vec![])] }),
        }
        v.push(match b.br {
            Br::To(t) => Inst { op: 249, vals: vec![V::Id(t)] },
            Br::Cond(t, f, w) => Inst {
                op: 250,
                vals: vec![V::Id(77), V::Id(t), V::Id(f), w.map(|w| V::Pair(w.0, w.1, false)).unwrap_or(V::Absent)],
            },
            Br::Ret => Inst { op: 253, vals: vec![] },
        });
    }
    v.push(Inst { op: 56, vals: vec![] });
    module_words(&v)
}

/// All combinations of hints and weights over the constructs of a program
struct Odometer {
    digits: Vec<usize>,
    at: usize,
    sizes: Vec<usize>,
    ws: Vec<W>,
    lcs: Vec<LC>,
}

impl Odometer {
    fn digit(&mut self, size: usize) -> usize {
        if self.at == self.digits.len() {
            self.digits.push(0);
            self.sizes.push(size);
        }
        self.at += 1;
        self.digits[self.at - 1]
    }
    fn next(&mut self) -> bool {
        self.at = 0;
        for i in 0..self.digits.len() {
            self.digits[i] += 1;
            if self.digits[i] < self.sizes[i] {
                return true;
            }
            self.digits[i] = 0;
        }
        false
    }
}

impl Deco for Odometer {
    fn sel(&mut self) -> u32 {
        self.digit(4) as u32
    }
    fn lp(&mut self) -> LC {
        let n = self.lcs.len();
        let d = self.digit(n);
        self.lcs[d]
    }
    fn w(&mut self) -> W {
        let n = self.ws.len();
        let d = self.digit(n);
        self.ws[d]
    }
}

fn odometer(rich: bool) -> Odometer {
    let mut lcs = vec![];
    for m in 0..16u32 {
        if m & 8 != 0 {
            for d in if rich { vec![0, 1, 7, u32::MAX] } else { vec![3] } {
                lcs.push((m, d));
            }
        } else {
            lcs.push((m, 0));
        }
    }
    if !rich {
        lcs = vec![(0, 0), (1, 0), (2, 0), (12, 9)];
    }
    let ws = if rich {
        vec![None, Some((0, 0)), Some((1, 2)), Some((2, 1)), Some((u32::MAX, 0)), Some((0, u32::MAX)), Some((5, 5))]
    } else {
        vec![None, Some((1, 2)), Some((0, 0))]
    };
    Odometer { digits: vec![], at: 0, sizes: vec![], ws, lcs }
}

pub fn c15(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a loop's own branch is unconditional, so a recovered loop has no weights");
    for n in 1..=tier.pick(4usize, 5) {
        program_units(&mut p, n, if n < 3 { 1 } else { 24 }, "decorated programs of", move |ctx, a| {
            let mut od = odometer(n <= 2);
            loop {
                od.at = 0;
                let (bs, tree) = emit(a, &mut od);
                let bs = rename(&bs, &|l| l + 3);
                let tree = rename_tree(&tree, &|l| l + 3);
                hint_case(ctx, &bs, &tree);
                if !od.next() {
                    break;
                }
            }
        });
    }
    p.bound(format!("all structured programs of up to {} blocks x all combinations of selection controls, loop controls and weights (up to 2 blocks all 16 loop masks with 4 dependency lengths and 7 weights, above that 4 selection controls, 4 loop controls, 3 weights per construct)", tier.pick(4, 5)));
    graph_units(&mut p, Look::Hints, 4, true, true, 8);
    if tier == Tier::Thorough {
        graph_units(&mut p, Look::Hints, 5, false, false, 16);
    }
    structured(&mut p, Look::Hints, tier);
    // every weight word
    p.unit("weight words", |ctx| {
        for w in gen::words() {
            for x in gen::words() {
                for kind in 0..3 {
                    let prog = match kind {
                        0 => vec![A::Sel(vec![A::Atom], vec![])],
                        1 => vec![A::Loop(vec![A::BreakIf(vec![A::Atom])])],
                        _ => vec![A::Loop(vec![A::ContIf(vec![])])],
                    };
                    let mut od = odometer(true);
                    od.ws = vec![Some((w, x))];
                    let (bs, tree) = emit(&prog, &mut od);
                    hint_case(ctx, &bs, &tree);
                }
            }
        }
        for d in gen::words() {
            for m in 0..16 {
                let mut od = odometer(true);
                od.lcs = vec![(m, d)];
                let (bs, tree) = emit(&[A::Loop(vec![A::Atom])], &mut od);
                hint_case(ctx, &bs, &tree);
            }
        }
    });
    p.bound("weights over all pairs of ~90 words for selections, breaks and continues; dependency lengths over ~90 words with all masks");
    p
}

fn hint_case(ctx: &mut Ctx, bs: &[B], tree: &[N]) {
    let desc = || format!("function with blocks\n{}", show(bs));
    if !ctx.begin(desc) {
        return;
    }
    let r = ctx.lib(desc, || find_control_flow(func(bs)));
    match r {
        Ok(c) => {
            let t = tree_of(&c);
            if t != tree {
                ctx.fail(desc, clip(format!("recovered {:?}\nintended  {:?}", t, tree)));
                return;
            }
            if let Err(m) = hints_ok(bs, &t) {
                ctx.fail(desc, m);
                return;
            }
            ctx.ok("hints and weights match");
        }
        Err(_) => ctx.ok("no tree"),
    }
    ctx.sum_states += bs.len() as u64;
    ctx.sum_trans += bs.len() as u64;
    ctx.sample(|| show(bs));
}

pub fn c16(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a function that is not one of the supported constructs may still be accepted if the tree has exactly its executions");
    for n in 1..=3 {
        total_units(&mut p, Look::Malformed, n, n < 3 || tier == Tier::Thorough, true);
    }
    graph_units(&mut p, Look::Malformed, 4, true, true, 8);
    graph_units(&mut p, Look::Malformed, 5, tier == Tier::Thorough, tier == Tier::Thorough, 16);
    if tier == Tier::Thorough {
        graph_units(&mut p, Look::Malformed, 6, false, false, 64);
    }
    deviations(&mut p, Look::Malformed, tier);
    duplicates(&mut p, Look::Malformed, tier);
    large_faults(&mut p, Look::Malformed, tier);
    near_labels(&mut p, Look::Malformed);
    p
}

/// A smaller set of functions, for the robustness property
pub fn small(tier: Tier) -> Plan {
    let mut p = Plan::new();
    graph_units(&mut p, Look::Malformed, tier.pick(4, 5), true, true, 8);
    deviations_up_to(&mut p, Look::Malformed, 4, 3);
    duplicates(&mut p, Look::Malformed, Tier::Quick);
    p
}

// ---------------------------------------------------------------- printing

pub fn ids() -> HashMap<u32, BlockId> {
    // block ids are only handed out by the library
    let mut m = HashMap::new();
    for l in (0..40).chain(bases()).chain(gen::words()) {
        if let Ok(Ok(ControlFlowChain::Atom(b))) = guard(|| find_control_flow(func(&[B { label: l, mg: Mg::None, br: Br::Ret }]))) {
            m.insert(l, b);
        }
    }
    m
}

pub fn chain_of(t: &[N], ids: &HashMap<u32, BlockId>) -> ControlFlowChain {
    let mut v: Vec<ControlFlowChain> = t
        .iter()
        .map(|n| match n {
            N::Atom(l) => ControlFlowChain::Atom(ids[l]),
            N::Sel(l, a, b, sc, w) => ControlFlowChain::Selection(ids[l], Box::new(chain_of(a, ids)), Box::new(chain_of(b, ids)), sel_ctl(*sc), weights(*w)),
            N::Loop(l, a, lc, w) => ControlFlowChain::Loop(ids[l], Box::new(chain_of(a, ids)), loop_ctl(*lc), weights(*w)),
            N::Break => ControlFlowChain::Break,
            N::Continue => ControlFlowChain::Continue,
        })
        .collect();
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        ControlFlowChain::Block(v)
    }
}

fn print_case(ctx: &mut Ctx, chain: &ControlFlowChain, f: Option<&FunctionDefinition>) {
    let desc = || clip(format!("{:?}", chain));
    if !ctx.begin(desc) {
        return;
    }
    let tree = tree_of(chain);
    let text = ctx.lib(desc, || chain.to_string());
    match parse_chain(&text) {
        Ok(t) if t == tree => ctx.ok("tree text parses back"),
        Ok(t) => {
            ctx.fail(desc, clip(format!("text says {:?}\ntree is   {:?}\n{}", t, tree, text)));
            return;
        }
        Err(e) => {
            ctx.fail(desc, clip(format!("text does not parse: {}\n{}", e, text)));
            return;
        }
    }
    if let Some(f) = f {
        let text = ctx.lib(desc, || ControlFlowFunctionPrinter(f, chain).to_string());
        match parse_function(&text) {
            Ok((t, blocks)) => {
                if t != tree {
                    ctx.fail(desc, clip(format!("function text says {:?}\ntree is            {:?}\n{}", t, tree, text)));
                    return;
                }
                let mut order = vec![];
                printed_order(&tree, &mut order);
                let want: Vec<Printed> = order
                    .iter()
                    .map(|l| (*l, f.blocks.iter().find(|b| b.label.result_id.0 == *l).map(block_lines).unwrap_or_default()))
                    .collect();
                if blocks != want {
                    ctx.fail(desc, clip(format!("printed blocks {:?}\nexpected       {:?}\n{}", blocks, want, text)));
                    return;
                }
                ctx.ok("function text parses back");
            }
            Err(e) => {
                ctx.fail(desc, clip(format!("function text does not parse: {}\n{}", e, text)));
                return;
            }
        }
    }
    ctx.sum_states += 1;
    ctx.sum_trans += tree.len() as u64;
    ctx.sample(|| text.clone());
}

fn code_for(l: u32, all: &[GroupCode]) -> Vec<GroupCode> {
    (0..(l % 4)).map(|k| all[(l.wrapping_mul(7).wrapping_add(k * 13) as usize) % all.len()].clone()).collect()
}

fn all_code() -> Vec<GroupCode> {
    let mut v = vec![];
    for d in OPS.iter() {
        let i = gen::base_inst(d);
        if class(&i) == C::Code || d.code == 59 {
            let i = if d.code == 59 { Inst { op: 59, vals: vec![V::Id(5), V::Id(6), V::En(E::Storage, 7, vec![]), V::Id(9)] } } else { i };
            if let Some(c) = core_of(&i).and_then(group_code) {
                v.push(c);
            }
        }
    }
    v
}

/// Through the validator, the only way from an instruction to a code instruction
pub fn group_code(c: Core) -> Option<GroupCode> {
    use crate::c_dis::module;
    use crate::c_valid::rep;
    let m = module(vec![rep(C::Mm, 0), rep(C::Fn, 1), rep(C::Lbl, 2), c, rep(C::Br, 0), rep(C::Fe, 0)]);
    match guard(|| validate(m)) {
        Ok(Ok(mut m)) => {
            let mut f = m.function_definitions.pop()?;
            let mut b = f.blocks.pop()?;
            b.code.pop()
        }
        _ => None,
    }
}

pub fn with_code(bs: &[B], all: &[GroupCode]) -> FunctionDefinition {
    definition(bs.iter().map(|b| block(b, if all.is_empty() { vec![] } else { code_for(b.label, all) })).collect())
}

/// Arbitrary trees, well formed or not, of exactly n nodes
pub fn trees(n: usize, f: &mut dyn FnMut(Vec<N>)) {
    if n == 0 {
        f(vec![]);
        return;
    }
    for k in 1..=n {
        // first node has k nodes in total
        let mut firsts: Vec<N> = vec![];
        if k == 1 {
            firsts.extend([N::Atom(0), N::Break, N::Continue]);
        }
        for a in 0..k {
            trees(a, &mut |x| {
                trees(k - 1 - a, &mut |y| firsts.push(N::Sel(0, x.clone(), y.clone(), 0, None)));
            });
        }
        trees(k - 1, &mut |x| firsts.push(N::Loop(0, x, (0, 0), None)));
        trees(n - k, &mut |rest| {
            for x in &firsts {
                let mut v = vec![x.clone()];
                v.extend(rest.iter().cloned());
                f(v);
            }
        });
    }
}

pub fn number(t: &mut [N], next: &mut u32, hints: u32) {
    let ws: [W; 4] = [None, Some((1, 2)), Some((0, 0)), Some((u32::MAX, 10))];
    for n in t {
        let l = *next;
        match n {
            N::Atom(x) => {
                *x = l;
                *next += 1;
            }
            N::Sel(x, a, b, sc, w) => {
                *x = l;
                *next += 1;
                *sc = (hints + l) % 4;
                *w = ws[((hints / 4 + l) % 4) as usize];
                number(a, next, hints);
                number(b, next, hints);
            }
            N::Loop(x, a, lc, w) => {
                *x = l;
                *next += 1;
                let m = (hints + l * 3) % 16;
                *lc = (m, if m & 8 != 0 { hints * 1000 + l } else { 0 });
                *w = ws[((hints / 16 + l) % 4) as usize];
                number(a, next, hints);
            }
            _ => {}
        }
    }
}

pub fn blocks_of(t: &[N], out: &mut Vec<B>) {
    for n in t {
        match n {
            N::Atom(l) => out.push(B { label: *l, mg: Mg::None, br: if l % 2 == 0 { Br::Ret } else { Br::To(l.wrapping_add(1)) } }),
            N::Sel(l, a, b, _, w) => {
                out.push(B { label: *l, mg: Mg::None, br: Br::Cond(l.wrapping_add(1), l.wrapping_add(2), *w) });
                blocks_of(a, out);
                blocks_of(b, out);
            }
            N::Loop(l, a, _, _) => {
                out.push(B { label: *l, mg: Mg::Loop { m: 0, c: 0, lc: (0, 0) }, br: Br::To(l.wrapping_add(1)) });
                blocks_of(a, out);
            }
            _ => {}
        }
    }
}

pub fn c17(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("spacing is not part of the property; an empty else arm is the same as none");
    p.assume("in the function text a construct whose block ends with a conditional branch is a selection, any other a loop");
    for n in 0..=tier.pick(6usize, 8) {
        program_units(&mut p, n, if n < 4 { 1 } else { 24 }, "printed programs of", move |ctx, a| {
            let all = all_code_cached();
            for h in 0..if n < 4 { 24 } else { 4 } {
                let (bs, _) = emit(a, &mut Plain);
                let mut bs = rename(&bs, &|l| l + h);
                if h > 0 {
                    decorate(&mut bs);
                }
                let f = with_code(&bs, &all);
                if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                    print_case(ctx, &c, Some(&f));
                }
            }
        });
    }
    p.bound(format!("trees and functions of all structured programs of up to {} blocks with 4 or more combinations of hints, weights and code", tier.pick(6, 8)));
    for n in 0..=tier.pick(5usize, 6) {
        for part in 0..24u32 {
            p.unit(format!("arbitrary trees of {} nodes, part {}", n, part), move |ctx| {
                let ids = ids();
                let all = all_code_cached();
                let mut k = 0u32;
                let mut todo = vec![];
                trees(n, &mut |t| {
                    k += 1;
                    if k % 24 == part {
                        todo.push(t);
                    }
                });
                for t in todo {
                    for h in [0u32, 1, 2, 3, 4, 9, 18, 39, 63] {
                        let mut t = t.clone();
                        let mut next = 1;
                        number(&mut t, &mut next, h);
                        if (1..next).any(|l| !ids.contains_key(&l)) {
                            continue;
                        }
                        let c = chain_of(&t, &ids);
                        let mut bs = vec![];
                        blocks_of(&t, &mut bs);
                        let f = with_code(&bs, &all);
                        print_case(ctx, &c, Some(&f));
                    }
                }
            });
        }
    }
    p.bound(format!("all trees (also unusual ones) of up to {} nodes with 9 assignments of hints and weights, and functions to match", tier.pick(5, 6)));
    p.unit("labels", |ctx| {
        let ids = ids();
        for l in (0..40u32).chain(bases()).chain(gen::words()) {
            if let Some(b) = ids.get(&l) {
                print_case(ctx, &ControlFlowChain::Atom(*b), Some(&func(&[B { label: l, mg: Mg::None, br: Br::Ret }])));
            }
            for m in [1u32, 39, 999, u32::MAX] {
                if m == l || !ids.contains_key(&m) || !ids.contains_key(&l) {
                    continue;
                }
                for t in [
                    vec![N::Sel(l, vec![N::Atom(m)], vec![], 1, Some((l, m)))],
                    vec![N::Sel(m, vec![N::Atom(l)], vec![N::Break], 2, None)],
                    vec![N::Loop(l, vec![N::Atom(m)], (8, l), None)],
                    vec![N::Loop(m, vec![N::Sel(l, vec![], vec![N::Continue], 0, Some((m, l)))], (1, 0), None)],
                ] {
                    let mut bs = vec![];
                    blocks_of(&t, &mut bs);
                    print_case(ctx, &chain_of(&t, &ids), Some(&func(&bs)));
                }
            }
        }
    });
    p.bound("~200 labels in every kind of node");
    // block order, unreachable blocks and label numbers
    for n in 0..=tier.pick(4usize, 5) {
        program_units(&mut p, n, if n < 4 { 1 } else { 16 }, "printed in other orders, programs of", move |ctx, a| {
            let all = all_code_cached();
            let (bs, _) = emit(a, &mut Plain);
            for m in label_maps() {
                let mut x = rename(&bs, &m);
                decorate(&mut x);
                orders(&x, n <= 3, &mut |o| {
                    for extra in 0..3 {
                        let mut o = o.to_vec();
                        if extra > 0 {
                            o.insert(1, B { label: 700, mg: Mg::None, br: Br::Ret });
                        }
                        if extra > 1 {
                            o.push(B { label: 701, mg: Mg::Sel { m: 700, sc: 1 }, br: Br::Cond(700, 701, None) });
                        }
                        let f = with_code(&o, &all);
                        if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                            print_case(ctx, &c, Some(&f));
                        }
                    }
                });
            }
        });
    }
    p.bound(format!("programs of up to {} blocks with 6 label maps, in several block orders (all up to 3 blocks), with 0 to 2 unreachable blocks", tier.pick(4, 5)));
    // pumping
    let ctxs = tier.pick(3usize, 4);
    for j in 0..16usize {
        p.unit(format!("printed nests, part {}", j), move |ctx| {
            let all = all_code_cached();
            let cs = holes(ctxs);
            let mut run = |s: &[A]| {
                let (mut bs, _) = emit(s, &mut Plain);
                decorate(&mut bs);
                let f = with_code(&bs, &all);
                if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                    print_case(ctx, &c, Some(&f));
                }
            };
            for (a, h) in cs.iter().skip(j).step_by(16) {
                let mut s = vec![A::Atom];
                for _ in 0..10 {
                    let mut k = *h;
                    s = fill(a, &mut k, &s);
                    run(&s);
                }
                for (b, g) in &cs {
                    let mut s = vec![A::Atom];
                    for d in 0..4 {
                        let mut k = if d % 2 == 0 { *h } else { *g };
                        s = fill(if d % 2 == 0 { a } else { b }, &mut k, &s);
                    }
                    run(&s);
                }
            }
        });
    }
    p.bound(format!("all programs of up to {} blocks with a hole, put into themselves up to 10 times and into each other alternately", ctxs));
    p.unit("pairs of code", |ctx| {
        let all = all_code_cached();
        let (mut bs, _) = emit(&[A::Loop(vec![A::Sel(vec![A::Atom], vec![A::Atom]), A::BreakIf(vec![A::Atom])])], &mut Plain);
        decorate(&mut bs);
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                let mut f = func(&bs);
                let n = f.blocks.len();
                f.blocks[(i + j) % n].code = vec![a.clone(), b.clone()];
                f.blocks[(i * 3 + j + 1) % n].code = vec![b.clone(), a.clone(), b.clone()];
                if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                    print_case(ctx, &c, Some(&f));
                }
            }
        }
    });
    p.bound("every two code instructions in blocks of a loop");
    for part in 0..8usize {
        p.unit(format!("repeated code, part {}", part), move |ctx| {
            let all = all_code_cached();
            let mut run = |code: Vec<GroupCode>| {
                let b = B { label: 9, mg: Mg::None, br: Br::Ret };
                let f = definition(vec![block(&b, code)]);
                if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                    print_case(ctx, &c, Some(&f));
                }
            };
            let m = all.len();
            for i in (part..m).step_by(8) {
                let (a, b) = (&all[i], &all[(i + 1) % m]);
                // all words over two instructions
                for len in 1..=6u32 {
                    for w in 0..1u32 << len {
                        run((0..len).map(|k| if w >> k & 1 == 0 { a.clone() } else { b.clone() }).collect());
                    }
                }
                for b in all.iter() {
                    run(vec![a.clone(), a.clone(), b.clone(), b.clone()]);
                    run(vec![b.clone(), a.clone(), a.clone(), a.clone(), b.clone()]);
                    run(vec![a.clone(), b.clone(), a.clone(), b.clone(), a.clone()]);
                }
            }
        });
    }
    p.bound("all words of up to 6 over two code instructions, each instruction repeated among every other");
    p.unit("hints and weights", |ctx| {
        let ids = ids();
        if !ids.contains_key(&1) || !ids.contains_key(&2) {
            return;
        }
        for sc in 0..4u32 {
            for a in gen::words() {
                for w in [None, Some((a, 3)), Some((3, a))] {
                    for right in [vec![], vec![N::Atom(2)], vec![N::Break], vec![N::Continue]] {
                        let t = vec![N::Sel(1, vec![N::Atom(2)], right, sc, w)];
                        let f = func(&[B { label: 1, mg: Mg::None, br: Br::Cond(2, 2, w) }, B { label: 2, mg: Mg::None, br: Br::Ret }]);
                        print_case(ctx, &chain_of(&t, &ids), Some(&f));
                    }
                }
            }
        }
        for m in 0..16u32 {
            for d in gen::words() {
                for w in [None, Some((1, 2)), Some((d, 0))] {
                    let t = vec![N::Loop(1, vec![N::Atom(2)], (m, if m & 8 != 0 { d } else { 0 }), w)];
                    let f = func(&[B { label: 1, mg: Mg::None, br: Br::To(2) }, B { label: 2, mg: Mg::None, br: Br::Ret }]);
                    print_case(ctx, &chain_of(&t, &ids), Some(&f));
                }
            }
        }
    });
    p.bound("all selection controls x weights over ~90 words; all loop masks x dependency lengths over ~90 words");
    p.unit("code of every kind", |ctx| {
        for d in OPS.iter() {
            if class(&gen::base_inst(d)) != C::Code && d.code != 59 {
                continue;
            }
            for i in gen::instances(d, false) {
                if let Some(c) = core_of(&i).and_then(group_code) {
                    let b = B { label: 9, mg: Mg::None, br: Br::Ret };
                    let f = definition(vec![block(&b, vec![c])]);
                    if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                        print_case(ctx, &c, Some(&f));
                    }
                }
            }
        }
    });
    p.bound("a block with each code instruction in each shape");
    p.unit("long blocks and functions", move |ctx| {
        let all = all_code_cached();
        for n in 0..tier.pick(200usize, 1000) {
            let code: Vec<GroupCode> = (0..n).map(|k| all[k % all.len().max(1)].clone()).collect();
            let f = definition(vec![block(&B { label: 9, mg: Mg::None, br: Br::Ret }, code)]);
            if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                print_case(ctx, &c, Some(&f));
            }
            let (bs, _) = emit(&vec![if n % 2 == 0 { A::Atom } else { A::Sel(vec![A::Atom], vec![]) }; n], &mut Plain);
            let f = func(&bs);
            if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                print_case(ctx, &c, Some(&f));
            }
        }
        for n in [256usize, 257, 999, 1000, 1001, 1024, 1025, 2049, 3000, 4097] {
            let code: Vec<GroupCode> = (0..n).map(|k| all[k % all.len().max(1)].clone()).collect();
            for s in [vec![A::Atom; n], vec![A::Sel(vec![A::Atom], vec![]); n], vec![A::Loop(vec![A::Atom; n])], vec![A::Loop(vec![A::BreakIf(vec![]); n])]] {
                let (bs, _) = emit(&s, &mut Plain);
                let mut f = func(&bs);
                f.blocks[0].code = code.clone();
                if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                    print_case(ctx, &c, Some(&f));
                }
            }
        }
        for depth in (1..tier.pick(130, 300)).chain([255, 256, 257, 258, 300, 400, 513]) {
            let mut s: Vec<A> = vec![A::Atom];
            for k in 0..depth {
                s = if k % 2 == 0 { vec![A::Sel(s, vec![A::Atom])] } else { vec![A::Loop(s)] };
            }
            let (bs, _) = emit(&s, &mut Plain);
            let f = func(&bs);
            if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                print_case(ctx, &c, Some(&f));
            }
        }
    });
    p.bound("blocks of up to 200 instructions, functions of up to 200 constructs (10 sizes up to 4097), nesting up to 129 and 7 depths up to 513 (thorough: 1000, 299)");
    p
}

pub fn all_code_cached() -> Rc<Vec<GroupCode>> {
    thread_local!(static CODE: Rc<Vec<GroupCode>> = Rc::new(all_code()));
    CODE.with(|c| c.clone())
}

#[allow(dead_code)]
fn _unused(_: OpReturn, _: OpId) {}
