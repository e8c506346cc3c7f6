//! Control flow model: functions as graphs, trees as programs, the reference recogniser of the
//! supported constructs, the product construction that compares a tree's executions with the
//! graph's, and the enumerators.

use crate::c_dis::tokens;
use crate::conv::*;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;
use std::collections::{HashMap, HashSet};

pub type W = Option<(u32, u32)>;
/// bits (as in the binary) and the dependency length
pub type LC = (u32, u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mg {
    None,
    Loop { m: u32, c: u32, lc: LC },
    Sel { m: u32, sc: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Br {
    To(u32),
    Cond(u32, u32, W),
    Ret,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct B {
    pub label: u32,
    pub mg: Mg,
    pub br: Br,
}

/// Normalised tree: sequences are flat
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum N {
    Atom(u32),
    Sel(u32, Vec<N>, Vec<N>, u32, W),
    Loop(u32, Vec<N>, LC, W),
    Break,
    Continue,
}

pub fn sel_ctl(sc: u32) -> SelectionControl {
    SelectionControl { flatten: sc & 1 != 0, dont_flatten: sc & 2 != 0 }
}

pub fn loop_ctl(lc: LC) -> LoopControl {
    LoopControl {
        unroll: lc.0 & 1 != 0,
        dont_unroll: lc.0 & 2 != 0,
        dependency_infinite: lc.0 & 4 != 0,
        dependency_length: if lc.0 & 8 != 0 { Some(lc.1) } else { None },
    }
}

pub fn weights(w: W) -> Option<BranchWeights> {
    w.map(|(a, b)| BranchWeights { true_weight: a, false_weight: b })
}

pub fn block(b: &B, code: Vec<GroupCode>) -> BasicBlock {
    BasicBlock {
        label: OpLabel { result_id: ResultId(b.label) },
        code,
        merge: match b.mg {
            Mg::None => None,
            Mg::Loop { m, c, lc } => Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(m), continue_target: OpId(c), loop_control: loop_ctl(lc) })),
            Mg::Sel { m, sc } => Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(m), selection_control: sel_ctl(sc) })),
        },
        branch: match b.br {
            Br::To(t) => GroupBranch::OpBranch(OpBranch { target_label: OpId(t) }),
            Br::Cond(t, f, w) => GroupBranch::OpBranchConditional(OpBranchConditional {
                condition: OpId(77),
                true_label: OpId(t),
                false_label: OpId(f),
                weights: weights(w),
            }),
            Br::Ret => GroupBranch::OpReturn(OpReturn),
        },
    }
}

pub fn definition(blocks: Vec<BasicBlock>) -> FunctionDefinition {
    FunctionDefinition {
        function: OpFunction { result_type: OpId(1), result_id: ResultId(2), function_control: FunctionControl::default(), function_type: OpId(3) },
        parameters: vec![],
        blocks,
    }
}

pub fn func(bs: &[B]) -> FunctionDefinition {
    definition(bs.iter().map(|b| block(b, vec![])).collect())
}

pub fn show(bs: &[B]) -> String {
    let mut s = String::new();
    for b in bs.iter().take(60) {
        let m = match b.mg {
            Mg::None => String::new(),
            Mg::Loop { m, c, lc } => format!("OpLoopMerge %{} %{} {}; ", m, c, lc_text(lc)),
            Mg::Sel { m, sc } => format!("OpSelectionMerge %{} {}; ", m, mask_text(M::SelControl, sc, &[])),
        };
        let t = match b.br {
            Br::To(t) => format!("OpBranch %{}", t),
            Br::Cond(t, f, w) => format!("OpBranchConditional %c %{} %{}{}", t, f, w.map(|w| format!(" {} {}", w.0, w.1)).unwrap_or_default()),
            Br::Ret => "OpReturn".into(),
        };
        s.push_str(&format!("  %{}: {}{}\n", b.label, m, t));
    }
    if bs.len() > 60 {
        s.push_str("  ...\n");
    }
    s
}

pub fn lc_text(lc: LC) -> String {
    mask_text(M::LoopControl, lc.0, &[V::Lit(lc.1)])
}

// ---------------------------------------------------------------- trees of the library

pub fn label(b: &BlockId) -> u32 {
    // the only public view of a block id
    use std::fmt::Write;
    struct P(u32);
    impl Write for P {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.bytes() {
                if c.is_ascii_digit() {
                    self.0 = self.0.wrapping_mul(10).wrapping_add((c - b'0') as u32);
                }
            }
            Ok(())
        }
    }
    let mut p = P(0);
    let _ = write!(p, "{}", b);
    p.0
}

pub fn sc_of(c: &SelectionControl) -> u32 {
    c.flatten as u32 | (c.dont_flatten as u32) << 1
}

pub fn lc_of(c: &LoopControl) -> LC {
    (
        c.unroll as u32 | (c.dont_unroll as u32) << 1 | (c.dependency_infinite as u32) << 2 | (c.dependency_length.is_some() as u32) << 3,
        c.dependency_length.unwrap_or(0),
    )
}

pub fn w_of(w: &Option<BranchWeights>) -> W {
    w.as_ref().map(|w| (w.true_weight, w.false_weight))
}

pub fn tree_of(c: &ControlFlowChain) -> Vec<N> {
    let mut v = vec![];
    tree_into(c, &mut v);
    v
}

fn tree_into(c: &ControlFlowChain, v: &mut Vec<N>) {
    match *c {
        ControlFlowChain::Atom(ref b) => v.push(N::Atom(label(b))),
        ControlFlowChain::Block(ref cs) => {
            for c in cs {
                tree_into(c, v);
            }
        }
        ControlFlowChain::Selection(ref b, ref t, ref f, ref h, ref w) => v.push(N::Sel(label(b), tree_of(t), tree_of(f), sc_of(h), w_of(w))),
        ControlFlowChain::Loop(ref b, ref i, ref h, ref w) => v.push(N::Loop(label(b), tree_of(i), lc_of(h), w_of(w))),
        ControlFlowChain::Break => v.push(N::Break),
        ControlFlowChain::Continue => v.push(N::Continue),
    }
}

pub fn count(t: &[N], m: &mut HashMap<u32, u32>) {
    for n in t {
        match n {
            N::Atom(l) => *m.entry(*l).or_default() += 1,
            N::Sel(l, a, b, _, _) => {
                *m.entry(*l).or_default() += 1;
                count(a, m);
                count(b, m);
            }
            N::Loop(l, a, _, _) => {
                *m.entry(*l).or_default() += 1;
                count(a, m);
            }
            _ => {}
        }
    }
}

/// The tree without hints and weights
pub fn shape(t: &[N]) -> Vec<N> {
    t.iter()
        .map(|n| match n {
            N::Sel(l, a, b, _, _) => N::Sel(*l, shape(a), shape(b), 0, None),
            N::Loop(l, a, _, _) => N::Loop(*l, shape(a), (0, 0), None),
            n => n.clone(),
        })
        .collect()
}

// ---------------------------------------------------------------- product construction

const END: usize = usize::MAX;
const BAD: usize = usize::MAX - 1;

#[derive(Clone, Copy, Debug)]
enum Succ {
    One(usize),
    Two(usize, usize),
}

#[derive(Default)]
struct Auto {
    occ: Vec<(u32, Option<Succ>)>,
}

impl Auto {
    fn seq(&mut self, t: &[N], cont: usize, brk: usize, cnt: usize) -> usize {
        let mut entry = cont;
        for n in t.iter().rev() {
            entry = match n {
                N::Atom(l) => {
                    self.occ.push((*l, Some(Succ::One(entry))));
                    self.occ.len() - 1
                }
                N::Sel(l, a, b, _, _) => {
                    let x = self.seq(a, entry, brk, cnt);
                    let y = self.seq(b, entry, brk, cnt);
                    self.occ.push((*l, Some(Succ::Two(x, y))));
                    self.occ.len() - 1
                }
                N::Loop(l, a, _, _) => {
                    let i = self.occ.len();
                    self.occ.push((*l, None));
                    let x = self.seq(a, i, entry, i);
                    self.occ[i].1 = Some(Succ::One(x));
                    i
                }
                N::Break => brk,
                N::Continue => cnt,
            };
        }
        entry
    }
}

/// Compare all executions of the tree with all executions of the function. Returns the
/// number of product states and transitions.
pub fn bisim(bs: &[B], t: &[N]) -> Result<(u64, u64), String> {
    let idx: HashMap<u32, usize> = bs.iter().enumerate().map(|(i, b)| (b.label, i)).collect();
    let mut a = Auto::default();
    let first = a.seq(t, END, BAD, BAD);
    if bs.is_empty() {
        return Err("a function without blocks has no executions".into());
    }
    let mut labels = HashMap::new();
    count(t, &mut labels);
    for l in labels.keys() {
        if !idx.contains_key(l) {
            return Err(format!("the tree mentions %{} which is not a block of the function", l));
        }
    }
    let mut seen: HashMap<(u32, usize), (u32, usize, &'static str)> = HashMap::new();
    let mut todo = vec![(bs[0].label, first)];
    let mut edges = 0u64;
    seen.insert(todo[0], (u32::MAX, END, "entry"));
    while let Some((l, o)) = todo.pop() {
        let err = |m: String| {
            // shortest explanation: the path of blocks that leads here
            let mut path = vec![];
            let mut cur = (l, o);
            while let Some(p) = seen.get(&cur) {
                path.push(format!("{}->%{}", p.2, cur.0));
                if p.2 == "entry" {
                    break;
                }
                cur = (p.0, p.1);
            }
            path.reverse();
            Err(format!("execution {}: {}", path.join(" "), m))
        };
        let b = match idx.get(&l) {
            Some(i) => bs[*i],
            None => return err(format!("the function branches to %{} which does not exist, the tree accepts it", l)),
        };
        if o == END {
            return err(format!("the function runs %{}, the tree has ended", l));
        }
        if o == BAD {
            return err("break or continue outside of a loop".into());
        }
        if a.occ[o].0 != l {
            return err(format!("the function runs %{}, the tree runs %{}", l, a.occ[o].0));
        }
        let succ = a.occ[o].1.unwrap();
        let mut next = vec![];
        match (b.br, succ) {
            (Br::To(t), Succ::One(n)) => next.push((t, n, "next")),
            (Br::Cond(t, f, _), Succ::Two(x, y)) => {
                next.push((t, x, "true"));
                next.push((f, y, "false"));
            }
            (Br::Ret, Succ::One(n)) => {
                if n != END {
                    return err(format!("the function returns from %{}, the tree goes on", l));
                }
            }
            (br, s) => return err(format!("%{} ends with {:?}, the tree has {:?}", l, br, s)),
        }
        for (t, n, how) in next {
            edges += 1;
            if !seen.contains_key(&(t, n)) {
                seen.insert((t, n), (l, o, how));
                todo.push((t, n));
            }
        }
    }
    Ok((seen.len() as u64, edges))
}

/// Hints and weights of every node against the instructions of its block
pub fn hints_ok(bs: &[B], t: &[N]) -> Result<(), String> {
    let idx: HashMap<u32, &B> = bs.iter().map(|b| (b.label, b)).collect();
    hints_rec(&idx, t)
}

fn hints_rec(idx: &HashMap<u32, &B>, t: &[N]) -> Result<(), String> {
    for n in t {
        match n {
            N::Sel(l, a, b, sc, w) => {
                let bl = match idx.get(l) {
                    Some(b) => b,
                    None => continue,
                };
                let want = match bl.mg {
                    Mg::Sel { sc, .. } => sc,
                    _ => 0,
                };
                if *sc != want {
                    return Err(format!("selection %{} has control {}, its merge says {}", l, mask_text(M::SelControl, *sc, &[]), mask_text(M::SelControl, want, &[])));
                }
                if let Br::Cond(_, _, ww) = bl.br {
                    if *w != ww {
                        return Err(format!("selection %{} has weights {:?}, its branch says {:?}", l, w, ww));
                    }
                }
                hints_rec(idx, a)?;
                hints_rec(idx, b)?;
            }
            N::Loop(l, a, lc, w) => {
                let bl = match idx.get(l) {
                    Some(b) => b,
                    None => continue,
                };
                if let Mg::Loop { lc: want, .. } = bl.mg {
                    let norm = |x: LC| (x.0, if x.0 & 8 != 0 { x.1 } else { 0 });
                    if norm(*lc) != norm(want) {
                        return Err(format!("loop %{} has control {}, its merge says {}", l, lc_text(*lc), lc_text(want)));
                    }
                }
                if w.is_some() {
                    return Err(format!("loop %{} has weights {:?}, its branch has none", l, w));
                }
                hints_rec(idx, a)?;
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- reference recogniser

#[derive(Clone, PartialEq, Debug)]
pub enum Rec {
    /// the verdict depends on this block, which is not chosen yet
    Need(u32),
    Ok(Vec<N>),
    /// first fault: an undefined label is followed
    Unknown(u32),
    Reject,
}

pub trait Look {
    /// None: not chosen yet; Some(None): undefined
    fn get(&self, l: u32) -> Option<Option<B>>;
}

impl Look for [B] {
    fn get(&self, l: u32) -> Option<Option<B>> {
        Some(self.iter().find(|b| b.label == l).cloned())
    }
}

#[derive(Clone, PartialEq)]
enum Next {
    Join(u32),
    Return,
}

#[derive(Clone)]
struct Env {
    joins: Vec<u32>,
    lp: Option<(u32, u32)>,
}

pub fn recognise<L: Look + ?Sized>(g: &L, entry: u32) -> Rec {
    let mut active = HashSet::new();
    match rec_seq(g, entry, &Env { joins: vec![], lp: None }, &mut active) {
        Ok((t, Next::Return)) => Rec::Ok(t),
        Ok(_) => Rec::Reject,
        Err(r) => r,
    }
}

fn rec_seq<L: Look + ?Sized>(g: &L, mut id: u32, env: &Env, active: &mut HashSet<u32>) -> Result<(Vec<N>, Next), Rec> {
    let mut out = vec![];
    let mut mine = vec![];
    let next = loop {
        if env.joins.contains(&id) {
            break Next::Join(id);
        }
        let b = match g.get(id) {
            None => return Err(Rec::Need(id)),
            Some(None) => return Err(Rec::Unknown(id)),
            Some(Some(b)) => b,
        };
        if !active.insert(id) {
            return Err(Rec::Reject);
        }
        mine.push(id);
        match (b.mg, b.br) {
            (_, Br::Ret) => {
                out.push(N::Atom(id));
                break Next::Return;
            }
            (Mg::None, Br::To(t)) => {
                out.push(N::Atom(id));
                id = t;
            }
            (Mg::Loop { m, lc, .. }, Br::To(t)) => {
                let mut e = env.clone();
                e.joins.push(id);
                e.lp = Some((id, m));
                let (body, n) = rec_seq(g, t, &e, active)?;
                if n != Next::Join(id) {
                    return Err(Rec::Reject);
                }
                out.push(N::Loop(id, body, (lc.0, if lc.0 & 8 != 0 { lc.1 } else { 0 }), None));
                id = m;
            }
            (Mg::Sel { m, sc }, Br::Cond(t, f, w)) => {
                let mut e = env.clone();
                e.joins.push(m);
                let (a, na) = rec_seq(g, t, &e, active)?;
                let (c, nc) = rec_seq(g, f, &e, active)?;
                if na != Next::Join(m) || nc != Next::Join(m) {
                    return Err(Rec::Reject);
                }
                out.push(N::Sel(id, a, c, sc, w));
                id = m;
            }
            (Mg::None, Br::Cond(t, f, w)) => {
                let (head, merge) = match env.lp {
                    Some(l) => l,
                    None => return Err(Rec::Reject),
                };
                let exit = if f == merge {
                    N::Break
                } else if f == head {
                    N::Continue
                } else {
                    return Err(Rec::Reject);
                };
                let (a, na) = rec_seq(g, t, env, active)?;
                if na != Next::Join(head) {
                    return Err(Rec::Reject);
                }
                out.push(N::Sel(id, a, vec![exit], 0, w));
                break na;
            }
            _ => return Err(Rec::Reject),
        }
    };
    for m in mine {
        active.remove(&m);
    }
    Ok((out, next))
}

// ---------------------------------------------------------------- lazy enumeration of graphs

/// An undefined label
pub const UNDEF: u32 = 90;

pub struct Part {
    pub blocks: Vec<Option<B>>,
    /// labels mentioned so far: 0..found
    pub found: u32,
}

impl Look for Part {
    fn get(&self, l: u32) -> Option<Option<B>> {
        if l == UNDEF {
            return Some(None);
        }
        match self.blocks.get(l as usize) {
            Some(Some(b)) => Some(Some(*b)),
            _ => None,
        }
    }
}

/// All ways to fill a block, new labels being introduced in order; `odd` adds the merge and
/// branch combinations that are not part of any supported construct
pub fn options(l: u32, found: u32, n: u32, undef: bool, odd: bool) -> Vec<(B, u32)> {
    let mut out = vec![];
    let targets = |f: u32| -> Vec<(u32, u32)> {
        let mut v: Vec<(u32, u32)> = (0..f).map(|t| (t, f)).collect();
        if f < n {
            v.push((f, f + 1));
        }
        if undef {
            v.push((UNDEF, f));
        }
        v
    };
    let mut push = |mg: Mg, br: Br, f: u32| out.push((B { label: l, mg, br }, f));
    push(Mg::None, Br::Ret, found);
    for (t, f) in targets(found) {
        push(Mg::None, Br::To(t), f);
        for (u, f2) in targets(f) {
            push(Mg::None, Br::Cond(t, u, None), f2);
        }
    }
    for (m, f) in targets(found) {
        for (t, f1) in targets(f) {
            push(Mg::Loop { m, c: l, lc: (0, 0) }, Br::To(t), f1);
            if odd {
                push(Mg::Sel { m, sc: 0 }, Br::To(t), f1);
            }
            for (u, f2) in targets(f1) {
                push(Mg::Sel { m, sc: 0 }, Br::Cond(t, u, None), f2);
                if odd {
                    push(Mg::Loop { m, c: l, lc: (0, 0) }, Br::Cond(t, u, None), f2);
                }
            }
        }
        if odd {
            push(Mg::Sel { m, sc: 0 }, Br::Ret, f);
            push(Mg::Loop { m, c: l, lc: (0, 0) }, Br::Ret, f);
        }
    }
    out
}

/// Enumerate all graphs of up to `n` blocks up to renaming, as far as they are looked at
pub fn graphs(p: &mut Part, n: u32, undef: bool, odd: bool, f: &mut dyn FnMut(&Part, &Rec)) {
    match recognise(p, 0) {
        Rec::Need(l) => {
            for (b, found) in options(l, p.found, n, undef, odd) {
                let old = p.found;
                p.blocks[l as usize] = Some(b);
                p.found = found;
                graphs(p, n, undef, odd, f);
                p.blocks[l as usize] = None;
                p.found = old;
            }
        }
        r => f(p, &r),
    }
}

/// All assignments of all blocks, whether looked at or not
pub fn all_graphs(p: &mut Vec<B>, n: u32, opts: &[Vec<B>], f: &mut dyn FnMut(&[B])) {
    if p.len() == n as usize {
        f(p);
        return;
    }
    for b in &opts[p.len()] {
        p.push(*b);
        all_graphs(p, n, opts, f);
        p.pop();
    }
}

// ---------------------------------------------------------------- structured programs

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum A {
    Atom,
    Sel(Vec<A>, Vec<A>),
    Loop(Vec<A>),
    BreakIf(Vec<A>),
    ContIf(Vec<A>),
}

/// Sequences of exactly n blocks; `body` if they can leave or restart the innermost loop at
/// their end. Programs are numbered: they are counted, and made from their number.
pub struct Programs {
    counts: Vec<[u64; 2]>,
    items: Vec<u64>,
    /// Also selections as last construct of a loop body with exits in their arms: their merge
    /// block is the loop's header
    tail: bool,
}

impl Programs {
    pub fn new(max: usize) -> Programs {
        Programs::make(max, false)
    }
    pub fn with_tails(max: usize) -> Programs {
        Programs::make(max, true)
    }
    fn make(max: usize, tail: bool) -> Programs {
        let mut p = Programs { counts: vec![[1, 1]], items: vec![0], tail };
        for n in 1..=max {
            // items of n blocks need sequences of up to n - 1
            let mut it = if n == 1 { 1 } else { 0 };
            for a in 0..n {
                it += p.counts[a][0] * p.counts[n - 1 - a][0];
            }
            it += p.counts[n - 1][1];
            p.items.push(it);
            let mut c = [0, 0];
            for body in 0..2 {
                for k in 1..=n {
                    c[body] += p.items[k] * p.counts[n - k][body];
                }
            }
            c[1] += 2 * p.counts[n - 1][1];
            if tail {
                for a in 0..n {
                    c[1] += p.counts[a][1] * p.counts[n - 1 - a][1];
                }
            }
            p.counts.push(c);
        }
        p
    }
    pub fn len(&self, n: usize) -> u64 {
        self.counts[n][0]
    }
    pub fn bodies(&self, n: usize) -> u64 {
        self.counts[n][1]
    }
    /// The i-th program of n blocks
    pub fn get(&self, n: usize, body: bool, mut i: u64) -> Vec<A> {
        if n == 0 {
            return vec![];
        }
        for k in 1..=n {
            let rest = self.counts[n - k][body as usize];
            let c = self.items[k] * rest;
            if i < c {
                let mut v = vec![self.item(k, i / rest)];
                v.extend(self.get(n - k, body, i % rest));
                return v;
            }
            i -= c;
        }
        if self.tail && body {
            for a in 0..n {
                let y = self.counts[n - 1 - a][1];
                let c = self.counts[a][1] * y;
                if i < c {
                    return vec![A::Sel(self.get(a, true, i / y), self.get(n - 1 - a, true, i % y))];
                }
                i -= c;
            }
        }
        let r = self.get(n - 1, true, i / 2);
        vec![if i % 2 == 0 { A::BreakIf(r) } else { A::ContIf(r) }]
    }
    fn item(&self, k: usize, mut i: u64) -> A {
        if k == 1 {
            if i == 0 {
                return A::Atom;
            }
            i -= 1;
        }
        for a in 0..k {
            let y = self.counts[k - 1 - a][0];
            let c = self.counts[a][0] * y;
            if i < c {
                return A::Sel(self.get(a, false, i / y), self.get(k - 1 - a, false, i % y));
            }
            i -= c;
        }
        A::Loop(self.get(k - 1, true, i))
    }
}

/// Chooses hints and weights of the constructs of a program
pub trait Deco {
    fn sel(&mut self) -> u32 {
        0
    }
    fn lp(&mut self) -> LC {
        (0, 0)
    }
    fn w(&mut self) -> W {
        None
    }
}

pub struct Plain;
impl Deco for Plain {}

struct Emit<'a> {
    next: u32,
    blocks: Vec<B>,
    deco: &'a mut dyn Deco,
}

impl<'a> Emit<'a> {
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn seq(&mut self, s: &[A], cont: u32, lp: Option<(u32, u32)>) -> (u32, Vec<N>) {
        let mut entry = cont;
        let mut tree = vec![];
        for a in s.iter().rev() {
            let (l, n) = match a {
                A::Atom => {
                    let l = self.fresh();
                    self.blocks.push(B { label: l, mg: Mg::None, br: Br::To(entry) });
                    (l, N::Atom(l))
                }
                A::Sel(x, y) => {
                    let l = self.fresh();
                    let (sc, w) = (self.deco.sel(), self.deco.w());
                    // arms that end at the loop's header can leave or restart the loop
                    let inner = lp.filter(|l| l.0 == entry);
                    let (t, tn) = self.seq(x, entry, inner);
                    let (f, fnn) = self.seq(y, entry, inner);
                    self.blocks.push(B { label: l, mg: Mg::Sel { m: entry, sc }, br: Br::Cond(t, f, w) });
                    (l, N::Sel(l, tn, fnn, sc, w))
                }
                A::Loop(x) => {
                    let l = self.fresh();
                    let lc = self.deco.lp();
                    let (t, tn) = self.seq(x, l, Some((l, entry)));
                    self.blocks.push(B { label: l, mg: Mg::Loop { m: entry, c: l, lc }, br: Br::To(t) });
                    (l, N::Loop(l, tn, (lc.0, if lc.0 & 8 != 0 { lc.1 } else { 0 }), None))
                }
                A::BreakIf(x) | A::ContIf(x) => {
                    let l = self.fresh();
                    let (head, merge) = lp.unwrap();
                    let w = self.deco.w();
                    let (t, tn) = self.seq(x, head, lp);
                    let (target, exit) = if matches!(a, A::BreakIf(_)) { (merge, N::Break) } else { (head, N::Continue) };
                    self.blocks.push(B { label: l, mg: Mg::None, br: Br::Cond(t, target, w) });
                    (l, N::Sel(l, tn, vec![exit], 0, w))
                }
            };
            entry = l;
            tree.push(n);
        }
        tree.reverse();
        (entry, tree)
    }
}

/// The function of a program (entry block first) and its tree
pub fn emit(prog: &[A], deco: &mut dyn Deco) -> (Vec<B>, Vec<N>) {
    let mut e = Emit { next: 1, blocks: vec![B { label: 0, mg: Mg::None, br: Br::Ret }], deco };
    let (entry, mut tree) = e.seq(prog, 0, None);
    tree.push(N::Atom(0));
    let mut bs = e.blocks;
    bs.sort_by_key(|b| b.label);
    let at = bs.iter().position(|b| b.label == entry).unwrap();
    let b = bs.remove(at);
    bs.insert(0, b);
    (bs, tree)
}

/// Rename the labels
pub fn rename(bs: &[B], f: &dyn Fn(u32) -> u32) -> Vec<B> {
    bs.iter()
        .map(|b| B {
            label: f(b.label),
            mg: match b.mg {
                Mg::None => Mg::None,
                Mg::Loop { m, c, lc } => Mg::Loop { m: f(m), c: f(c), lc },
                Mg::Sel { m, sc } => Mg::Sel { m: f(m), sc },
            },
            br: match b.br {
                Br::To(t) => Br::To(f(t)),
                Br::Cond(t, u, w) => Br::Cond(f(t), f(u), w),
                Br::Ret => Br::Ret,
            },
        })
        .collect()
}

pub fn rename_tree(t: &[N], f: &dyn Fn(u32) -> u32) -> Vec<N> {
    t.iter()
        .map(|n| match n {
            N::Atom(l) => N::Atom(f(*l)),
            N::Sel(l, a, b, s, w) => N::Sel(f(*l), rename_tree(a, f), rename_tree(b, f), *s, *w),
            N::Loop(l, a, c, w) => N::Loop(f(*l), rename_tree(a, f), *c, *w),
            n => n.clone(),
        })
        .collect()
}

/// Places of a function that hold a label: (block, slot); slots 0 merge, 1 continue, 2 true or target, 3 false
pub fn slots(bs: &[B]) -> Vec<(usize, u8)> {
    let mut v = vec![];
    for (i, b) in bs.iter().enumerate() {
        match b.mg {
            Mg::None => {}
            Mg::Loop { .. } => {
                v.push((i, 0));
                v.push((i, 1));
            }
            Mg::Sel { .. } => v.push((i, 0)),
        }
        match b.br {
            Br::To(_) => v.push((i, 2)),
            Br::Cond(..) => {
                v.push((i, 2));
                v.push((i, 3));
            }
            Br::Ret => {}
        }
    }
    v
}

pub fn set(bs: &mut [B], at: (usize, u8), l: u32) {
    let b = &mut bs[at.0];
    match at.1 {
        0 => match b.mg {
            Mg::Loop { ref mut m, .. } | Mg::Sel { ref mut m, .. } => *m = l,
            Mg::None => {}
        },
        1 => {
            if let Mg::Loop { ref mut c, .. } = b.mg {
                *c = l
            }
        }
        2 => match b.br {
            Br::To(ref mut t) | Br::Cond(ref mut t, _, _) => *t = l,
            Br::Ret => {}
        },
        _ => {
            if let Br::Cond(_, ref mut f, _) = b.br {
                *f = l
            }
        }
    }
}

// ---------------------------------------------------------------- parsing printed structures

struct Toks<'a> {
    t: Vec<&'a str>,
    i: usize,
}

impl<'a> Toks<'a> {
    fn peek(&self) -> Option<&'a str> {
        self.t.get(self.i).cloned()
    }
    fn take(&mut self) -> Result<&'a str, String> {
        let t = self.peek().ok_or("the text ends early")?;
        self.i += 1;
        Ok(t)
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        let t = self.take()?;
        if t == s {
            Ok(())
        } else {
            Err(format!("found {:?} instead of {:?}", t, s))
        }
    }
    /// optional [hint] and [weights] in front of {
    fn attrs(&mut self) -> Result<(Option<String>, W), String> {
        let mut hint = None;
        let mut w = None;
        while self.peek().map(|t| t.starts_with('[')) == Some(true) {
            let mut parts = vec![];
            loop {
                let t = self.take()?;
                parts.push(t);
                if t.ends_with(']') {
                    break;
                }
            }
            let s = parts.join(" ");
            let s = s[1..s.len() - 1].to_string();
            let nums: Vec<&str> = s.split(' ').collect();
            if nums.len() == 2 && nums.iter().all(|n| n.parse::<u32>().is_ok()) {
                if w.is_some() {
                    return Err("weights twice".into());
                }
                w = Some((nums[0].parse().unwrap(), nums[1].parse().unwrap()));
            } else {
                if hint.is_some() {
                    return Err("hints twice".into());
                }
                hint = Some(s);
            }
        }
        Ok((hint, w))
    }
}

fn sel_mask(h: Option<String>) -> Result<u32, String> {
    let h = match h {
        None => return Ok(0),
        Some(h) => h,
    };
    (0..4).find(|m| mask_text(M::SelControl, *m, &[]) == h).ok_or(format!("selection control {:?}", h))
}

fn loop_mask(h: Option<String>) -> Result<LC, String> {
    let h = match h {
        None => return Ok((0, 0)),
        Some(h) => h,
    };
    let dep = h.split(" | ").filter_map(|p| p.strip_prefix("DependencyLength(").and_then(|p| p.strip_suffix(')')).and_then(|p| p.parse::<u32>().ok())).next();
    (0..16)
        .map(|m| (m, if m & 8 != 0 { dep.unwrap_or(0) } else { 0 }))
        .find(|lc| lc_text(*lc) == h && (lc.0 & 8 == 0) == dep.is_none())
        .ok_or(format!("loop control {:?}", h))
}

fn id_tok(t: &str) -> Result<u32, String> {
    t.strip_prefix('%').and_then(|t| t.parse().ok()).ok_or(format!("{:?} is not an id", t))
}

/// Parse the text of a tree
pub fn parse_chain(s: &str) -> Result<Vec<N>, String> {
    let s = s.replace('{', " { ").replace('}', " } ");
    let mut t = Toks { t: s.split_whitespace().collect(), i: 0 };
    let r = chain_seq(&mut t)?;
    match t.peek() {
        None => Ok(r),
        Some(x) => Err(format!("left over {:?}", x)),
    }
}

fn chain_seq(t: &mut Toks) -> Result<Vec<N>, String> {
    let mut out = vec![];
    loop {
        match t.peek() {
            None | Some("}") => return Ok(out),
            Some("break;") => {
                t.i += 1;
                out.push(N::Break);
            }
            Some("continue;") => {
                t.i += 1;
                out.push(N::Continue);
            }
            Some("selection") => {
                t.i += 1;
                let l = id_tok(t.take()?)?;
                let (h, w) = t.attrs()?;
                t.want("{")?;
                let a = chain_seq(t)?;
                t.want("}")?;
                let mut b = vec![];
                if t.peek() == Some("else") {
                    t.i += 1;
                    t.want("{")?;
                    b = chain_seq(t)?;
                    t.want("}")?;
                }
                out.push(N::Sel(l, a, b, sel_mask(h)?, w));
            }
            Some("loop") => {
                t.i += 1;
                let l = id_tok(t.take()?)?;
                let (h, w) = t.attrs()?;
                t.want("{")?;
                let a = chain_seq(t)?;
                t.want("}")?;
                out.push(N::Loop(l, a, loop_mask(h)?, w));
            }
            Some(x) => {
                t.i += 1;
                out.push(N::Atom(id_tok(x)?));
            }
        }
    }
}

/// A block as printed by the function printer: label, instruction texts
pub type Printed = (u32, Vec<String>);

/// Parse the text of the function printer: the tree and the printed blocks in order. Whether
/// a construct is a loop or a selection is told by its block's branch.
pub fn parse_function(s: &str) -> Result<(Vec<N>, Vec<Printed>), String> {
    // lines of blocks are kept whole, everything else is split into tokens
    let mut items: Vec<Item> = vec![];
    for line in s.lines() {
        let l = line.trim();
        if let Some(r) = l.strip_prefix(">>>") {
            items.push(Item::Code(tokens(r).join(" ")));
        } else if let Some(r) = l.strip_prefix("> Begin") {
            items.push(Item::Begin(r.trim().parse().map_err(|_| format!("line {:?}", l))?));
        } else if let Some(r) = l.strip_prefix("> End") {
            items.push(Item::End(r.trim().parse().map_err(|_| format!("line {:?}", l))?));
        } else {
            for t in l.replace('{', " { ").replace('}', " } ").split_whitespace() {
                items.push(Item::Tok(t.to_string()));
            }
        }
    }
    let mut p = FnParse { items, i: 0, blocks: vec![] };
    let t = p.seq()?;
    if p.i != p.items.len() {
        return Err(format!("left over {:?}", p.items[p.i]));
    }
    Ok((t, p.blocks))
}

#[derive(Debug, Clone, PartialEq)]
enum Item {
    Begin(u32),
    Code(String),
    End(u32),
    Tok(String),
}

struct FnParse {
    items: Vec<Item>,
    i: usize,
    blocks: Vec<Printed>,
}

impl FnParse {
    fn tok(&self) -> Option<&str> {
        match self.items.get(self.i) {
            Some(Item::Tok(s)) => Some(s),
            _ => None,
        }
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        if self.tok() == Some(s) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?}", s, self.items.get(self.i)))
        }
    }
    fn seq(&mut self) -> Result<Vec<N>, String> {
        let mut out = vec![];
        loop {
            match self.items.get(self.i).cloned() {
                None => return Ok(out),
                Some(Item::Tok(ref s)) if s == "}" => return Ok(out),
                Some(Item::Tok(ref s)) if s == "break;" => {
                    self.i += 1;
                    out.push(N::Break);
                }
                Some(Item::Tok(ref s)) if s == "continue;" => {
                    self.i += 1;
                    out.push(N::Continue);
                }
                Some(Item::Begin(l)) => {
                    self.i += 1;
                    let mut code = vec![];
                    while let Some(Item::Code(c)) = self.items.get(self.i).cloned() {
                        code.push(c);
                        self.i += 1;
                    }
                    if self.items.get(self.i) != Some(&Item::End(l)) {
                        return Err(format!("block {} does not end", l));
                    }
                    self.i += 1;
                    let cond = code.last().map(|c| c.starts_with("OpBranchConditional")).unwrap_or(false);
                    self.blocks.push((l, code));
                    // construct?
                    let mut toks = vec![];
                    let mut k = self.i;
                    while let Some(Item::Tok(s)) = self.items.get(k) {
                        if s == "{" || s.starts_with('[') || (!toks.is_empty() && s != "}") {
                            toks.push(s.clone());
                            k += 1;
                            if s == "{" {
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    if toks.last().map(|s| s == "{") != Some(true) {
                        if toks.is_empty() {
                            out.push(N::Atom(l));
                            continue;
                        }
                        return Err(format!("after block {}: {:?}", l, toks));
                    }
                    let (h, w) = {
                        let mut t = Toks { t: toks.iter().map(|s| s.as_str()).collect(), i: 0 };
                        t.attrs()?
                    };
                    self.i = k;
                    let a = self.seq()?;
                    self.want("}")?;
                    let mut b = vec![];
                    if self.tok() == Some("else") {
                        self.i += 1;
                        self.want("{")?;
                        b = self.seq()?;
                        self.want("}")?;
                        if !cond {
                            return Err(format!("block {} has an else but no condition", l));
                        }
                    }
                    if cond {
                        out.push(N::Sel(l, a, b, sel_mask(h)?, w));
                    } else {
                        out.push(N::Loop(l, a, loop_mask(h)?, w));
                    }
                }
                Some(x) => return Err(format!("unexpected {:?}", x)),
            }
        }
    }
}

/// The blocks a tree prints, in order
pub fn printed_order(t: &[N], out: &mut Vec<u32>) {
    for n in t {
        match n {
            N::Atom(l) => out.push(*l),
            N::Sel(l, a, b, _, _) => {
                out.push(*l);
                printed_order(a, out);
                printed_order(b, out);
            }
            N::Loop(l, a, _, _) => {
                out.push(*l);
                printed_order(a, out);
            }
            _ => {}
        }
    }
}

pub fn block_lines(b: &BasicBlock) -> Vec<String> {
    let mut v: Vec<String> = b.code.iter().map(|c| tokens(&inst_text(&c.inst())).join(" ")).collect();
    v.push(tokens(&inst_text(&b.branch.inst())).join(" "));
    v
}
