//! No input crashes or hangs the library (C09), results depend only on inputs (C18),
//! equality and copies agree with content (C19).

use crate::c_cfa;
use crate::c_dis;
use crate::c_dis::{core_of, module};
use crate::c_read;
use crate::c_read::{clip, hex};
use crate::c_valid;
use crate::c_valid::{rep, C};
use crate::cfg::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::{read_module, Core, RawModule, ReadError};
use magmaflow::spv::types::*;
use std::fmt::Write as _;

// ---------------------------------------------------------------- everything with one input

/// Everything the library offers for a function
fn use_function(f: &FunctionDefinition, out: &mut String) {
    let _ = write!(out, "{:?}", f);
    match find_control_flow(f.clone()) {
        Err(e) => {
            let _ = write!(out, "{:?}", e);
        }
        Ok(c) => {
            let _ = write!(out, "{:?}{}{}", c, c, ControlFlowFunctionPrinter(f, &c));
        }
    }
}

/// Everything the library offers for a module
fn use_module(m: RawModule, out: &mut String) {
    let _ = write!(out, "{:?}{}", m, m);
    for i in &m.instructions {
        let _ = write!(out, "{}", i);
    }
    let copy = m.clone();
    if copy != m {
        out.push_str("a copy differs");
    }
    match validate(m) {
        Err(e) => {
            let _ = write!(out, "{:?}", e);
        }
        Ok(l) => {
            let _ = write!(out, "{:?}", l);
            let l2 = l.clone();
            if l2 != l {
                out.push_str("a copy differs");
            }
            for f in &l.function_definitions {
                use_function(f, out);
            }
        }
    }
}

fn use_bytes(b: &[u8], out: &mut String) {
    match read_module(b, glsl()) {
        Err(e) => {
            let _ = write!(out, "{:?}{}", e, e);
        }
        Ok(m) => use_module(m, out),
    }
}

/// Everything, in one text
pub fn all_bytes(b: &[u8]) -> String {
    let mut s = String::new();
    use_bytes(b, &mut s);
    s
}

fn crash_bytes(ctx: &mut Ctx, b: &[u8], out: &mut String) {
    if !ctx.begin(|| hex(b)) {
        return;
    }
    out.clear();
    ctx.lib(|| hex(b), || use_bytes(b, out));
    done(ctx, b.len(), out);
}

fn done(ctx: &mut Ctx, size: usize, out: &str) {
    ctx.sum_states += 1;
    ctx.sum_trans += size as u64 / 4;
    ctx.ok(if out.len() < 400 { "returned, short answer" } else { "returned, long answer" });
    ctx.sample(|| clip(out.to_string()));
}

fn crash_module(ctx: &mut Ctx, m: RawModule, what: &dyn Fn() -> String) {
    if !ctx.begin(what) {
        return;
    }
    let mut out = String::new();
    ctx.lib(what, || use_module(m, &mut out));
    done(ctx, out.len(), &out);
}

fn crash_function(ctx: &mut Ctx, bs: &[B]) {
    let what = || show(bs);
    if !ctx.begin(what) {
        return;
    }
    let mut out = String::new();
    ctx.lib(what, || use_function(&func(bs), &mut out));
    done(ctx, out.len(), &out);
}

/// Run the units of another property; wrong answers do not count, crashes and hangs do
fn borrow(p: &mut Plan, from: Plan, name: &str) {
    for u in from.units {
        let run = u.run;
        p.unit(format!("{}: {}", name, u.name), move |ctx| {
            ctx.crash_only = true;
            run(ctx);
            ctx.crash_only = false;
        });
    }
    for b in from.bounds {
        p.bound(format!("({}) {}", name, b));
    }
}

fn adversarial() -> Vec<u32> {
    vec![
        0,
        1,
        0xFFFF_FFFF,
        0x0001_0000,
        0x0001_00F8,
        0x0002_00F8,
        0x0003_000E,
        0x0005_0036,
        0x0001_0038,
        0x0001_00FD,
        0x0002_00F9,
        0x0004_00FA,
        0x0000_000B,
        0x0006_000B,
        0x0005_000C,
        0x0003_0005,
        0x0061_6161,
        0xFFFF_0005,
    ]
}

fn word_tree(ctx: &mut Ctx, w: &mut Vec<u32>, alpha: &[u32], left: usize, out: &mut String) {
    crash_bytes(ctx, &to_bytes(w, true), out);
    if left == 0 {
        return;
    }
    for a in alpha {
        w.push(*a);
        word_tree(ctx, w, alpha, left - 1, out);
        w.pop();
    }
}

/// A program with constructs nested to the given depth
fn nested(depth: usize) -> Vec<B> {
    let mut bs = vec![];
    // %k: selection, merge %(depth * 2 - k), true arm the next level
    let d = depth as u32;
    for k in 0..d {
        bs.push(B { label: k + 1, mg: Mg::Sel { m: 2 * d + 1 - k, sc: 0 }, br: Br::Cond(k + 2, 2 * d + 1 - k, None) });
    }
    bs.push(B { label: d + 1, mg: Mg::None, br: Br::To(d + 2) });
    for k in (0..d).rev() {
        let l = 2 * d + 1 - k;
        bs.push(B { label: l, mg: Mg::None, br: if k == 0 { Br::Ret } else { Br::To(l + 1) } });
    }
    bs
}

/// Selections that share their arms: the tree doubles with each
fn ladder(n: usize) -> Vec<B> {
    let n = n as u32;
    let mut bs = vec![];
    for k in 0..n {
        bs.push(B { label: 3 * k + 1, mg: Mg::Sel { m: 3 * n + 1, sc: 0 }, br: Br::Cond(3 * k + 2, 3 * k + 3, None) });
        bs.push(B { label: 3 * k + 2, mg: Mg::None, br: Br::To(3 * k + 4) });
        bs.push(B { label: 3 * k + 3, mg: Mg::None, br: Br::To(3 * k + 4) });
    }
    bs.push(B { label: 3 * n + 1, mg: Mg::None, br: Br::Ret });
    bs
}

/// Runs in a process of its own (see `probe_case`)
pub fn probe(what: &str, n: usize) -> i32 {
    let print = what == "nested";
    let bs = match what {
        "nested" => nested(n),
        "ladder" => ladder(n),
        _ => return 2,
    };
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match find_control_flow(func(&bs)) {
            Ok(c) => {
                if print {
                    let text = format!("{}{}", c, ControlFlowFunctionPrinter(&func(&bs), &c));
                    std::hint::black_box(text);
                }
                drop(c);
                1
            }
            Err(_) => 0,
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(n)) => {
            println!("returned {}", n);
            0
        }
        _ => 101,
    }
}

/// An input that may kill or exhaust a process
fn probe_case(ctx: &mut Ctx, what: &'static str, n: usize) {
    let desc = || format!("find_control_flow on the function '{} {}'", what, n);
    if !ctx.begin(desc) {
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new("/bin/bash")
        .arg("-c")
        .arg("ulimit -c 0; ulimit -v 2000000; exec timeout -s KILL 8 \"$0\" probe \"$1\" \"$2\" >/dev/null 2>&1")
        .arg(exe)
        .arg(what)
        .arg(n.to_string())
        .status();
    match st {
        Ok(s) if s.success() => ctx.ok("large input handled"),
        Ok(s) => ctx.finding(&format!("{}-{}", what, n), desc, format!("the process ends with {} (8 MB stack, 2 GB memory, 8 s)", s)),
        Err(_) => {}
    }
    ctx.sum_states += 1;
    ctx.sum_trans += n as u64;
}

pub fn c09(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a call that makes no progress for 60 s hangs; calls run on threads with a 2 MB stack, in a build with overflow checks and debug assertions");
    p.assume("memory and time may grow with the size of the answer");
    // sizes first: they take longest
    sizes(&mut p, tier);
    p.unit("probes", |ctx| {
        probe_case(ctx, "nested", 300);
        probe_case(ctx, "nested", 1100);
        probe_case(ctx, "nested", 100_000);
        probe_case(ctx, "ladder", 10);
        probe_case(ctx, "ladder", 64);
    });
    p.bound("functions nested 300, 1100 and 100000 deep, 10 and 64 selections sharing their arms, each in a process of its own");
    // all short byte strings
    for hi in 0..16u32 {
        p.unit(format!("short inputs {}", hi), move |ctx| {
            let mut out = String::new();
            if hi == 0 {
                crash_bytes(ctx, &[], &mut out);
            }
            for a in hi * 16..hi * 16 + 16 {
                crash_bytes(ctx, &[a as u8], &mut out);
                for b in 0..256u32 {
                    crash_bytes(ctx, &[a as u8, b as u8], &mut out);
                    for c in (0..256u32).step_by(if tier == Tier::Quick { 5 } else { 1 }) {
                        crash_bytes(ctx, &[a as u8, b as u8, c as u8], &mut out);
                    }
                }
            }
        });
    }
    p.bound(format!("all byte strings of up to 2 bytes, {} of 3", tier.pick("every fifth", "all")));
    let depth = tier.pick(4usize, 5);
    for a in adversarial() {
        for b in adversarial() {
            p.unit(format!("words {:08x} {:08x}", a, b), move |ctx| {
                let mut out = String::new();
                let mut w = header(9);
                w.push(a);
                w.push(b);
                word_tree(ctx, &mut w, &adversarial(), depth - 2, &mut out);
                // after a memory model, a function and a label
                let mut w = header(9);
                w.extend([0x0003_000E, 0, 1, 0x0005_0036, 1, 2, 0, 3, 0x0002_00F8, 4, a, b]);
                word_tree(ctx, &mut w, &adversarial(), depth - 2, &mut out);
            });
        }
    }
    p.bound(format!("all sequences of up to {} words from 18 awkward ones after the header, and after the start of a function", depth));
    for lo in 0..32u32 {
        p.unit(format!("opcodes part {}", lo), move |ctx| {
            let mut out = String::new();
            let limit = tier.pick(1024u32, 65536);
            for op in (lo..limit).step_by(32) {
                for n in (0..8u32).chain([16, 255, 0x7FFF, 0xFFFF]) {
                    for fill in [0u32, 1, 0xFFFF_FFFF, 0x6161_6161, 0x0000_0061, 0x8000_0000] {
                        for have in [n.saturating_sub(1).min(20), n.min(20)] {
                            let mut w = header(9);
                            w.push(n << 16 | op);
                            for _ in 0..have {
                                w.push(fill);
                            }
                            crash_bytes(ctx, &to_bytes(&w, op % 2 == 0), &mut out);
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("opcodes below {} x 12 word counts (also false ones) x 6 fillings", tier.pick(1024, 65536)));
    for d in OPS {
        p.unit(format!("damaged {}", d.name), move |ctx| {
            let mut out = String::new();
            let ws = if tier == Tier::Quick { gen::few_words() } else { gen::words() };
            for i in gen::instances(d, false) {
                let mut v = gen::prefix(&i);
                v.push(i);
                let w = module_words(&v);
                crash_bytes(ctx, &to_bytes(&w, true), &mut out);
                for cut in 0..24usize.min(w.len() * 4) {
                    let b = to_bytes(&w, false);
                    crash_bytes(ctx, &b[..b.len() - cut], &mut out);
                }
                if w.len() > 60 {
                    continue;
                }
                for at in 0..w.len() {
                    for x in &ws {
                        let mut y = w.clone();
                        y[at] = *x;
                        crash_bytes(ctx, &to_bytes(&y, true), &mut out);
                    }
                    for bit in 0..32 {
                        let mut y = w.clone();
                        y[at] ^= 1 << bit;
                        crash_bytes(ctx, &to_bytes(&y, true), &mut out);
                    }
                }
            }
        });
    }
    p.bound("every instruction in all operand shapes, each with every word replaced, every bit flipped and cut at every byte");
    // functions and modules given directly
    for first in 0..options(0, 3, 3, true, true).len() {
        p.unit(format!("functions of 2 and 3 blocks, entry {}", first), move |ctx| {
            let o: Vec<Vec<B>> = (0..3).map(|l| options(l, 3, 3, true, true).into_iter().map(|o| o.0).collect()).collect();
            for b in &o[1] {
                crash_function(ctx, &[o[0][first], *b]);
                for (k, c) in o[2].iter().enumerate() {
                    if tier == Tier::Thorough || k % 7 == first % 7 {
                        crash_function(ctx, &[o[0][first], *b, *c]);
                        crash_function(ctx, &[*c, *b, o[0][first], *b]);
                    }
                }
            }
        });
    }
    p.bound("functions of up to 3 blocks in every assignment of merges, branches, labels and undefined labels, also with duplicate labels, recovered and printed");
    borrow(&mut p, c_read::c03(Tier::Quick), "C03");
    borrow(&mut p, c_read::c05(Tier::Quick), "C05");
    borrow(&mut p, c_read::c06(Tier::Quick), "C06");
    borrow(&mut p, c_read::c08(Tier::Quick), "C08");
    borrow(&mut p, c_dis::c10(Tier::Quick), "C10");
    borrow(&mut p, c_valid::c12(Tier::Quick), "C12");
    borrow(&mut p, c_cfa::small(tier), "C16");
    p
}

fn sizes(p: &mut Plan, tier: Tier) {
    let n = tier.pick(100_000usize, 400_000);
    // modules of many instructions of one class in a legal place, and in an illegal one
    for kind in 0..14usize {
        p.unit(format!("large modules {}", kind), move |ctx| {
            for size in [10usize, 1000, n] {
                let head = [C::Mm];
                let classes: Vec<C> = match kind {
                    0 => std::iter::repeat(C::Cap).take(size).chain(head).collect(),
                    1 => head.into_iter().chain(std::iter::repeat(C::Ep).take(size)).collect(),
                    2 => head.into_iter().chain(std::iter::repeat(C::Dbg).take(size)).collect(),
                    3 => head.into_iter().chain(std::iter::repeat(C::Ann).take(size)).collect(),
                    4 => head.into_iter().chain(std::iter::repeat(C::Glob).take(size)).collect(),
                    5 => head.into_iter().chain((0..size).flat_map(|_| [C::Fn, C::Fe])).collect(),
                    6 => head.into_iter().chain([C::Fn]).chain(std::iter::repeat(C::Fp).take(size)).chain([C::Fe]).collect(),
                    7 => head.into_iter().chain([C::Fn, C::Lbl]).chain(std::iter::repeat(C::Code).take(size)).chain([C::Br, C::Fe]).collect(),
                    8 => head.into_iter().chain([C::Fn]).chain((0..size.min(20_000)).flat_map(|_| [C::Lbl, C::Br])).chain([C::Fe]).collect(),
                    9 => head.into_iter().chain((0..size).flat_map(|_| [C::Fn, C::Lbl, C::Br, C::Fe])).collect(),
                    10 => std::iter::repeat(C::Br).take(size).collect(),
                    11 => head.into_iter().chain([C::Fn]).chain(std::iter::repeat(C::Lbl).take(size)).collect(),
                    12 => head.into_iter().chain(std::iter::repeat(C::Em).take(size)).collect(),
                    _ => head.into_iter().chain([C::Fn, C::Lbl]).chain(std::iter::repeat(C::Mrg).take(size)).collect(),
                };
                let m = module(classes.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
                crash_module(ctx, m, &|| format!("module of {} instructions of kind {}", size, kind));
            }
        });
    }
    p.bound(format!("modules of up to {} instructions of each class", n));
    p.unit("large binaries", move |ctx| {
        let mut out = String::new();
        for words in [[0x0001_0000u32, 0], [0x0002_00F8, 7], [0x0002_0013, 7]] {
            let mut w = header(9);
            for _ in 0..n {
                w.push(words[0]);
                if words[0] >> 16 == 2 {
                    w.push(words[1]);
                }
            }
            let mut b = to_bytes(&w, true);
            crash_bytes(ctx, &b, &mut out);
            for cut in 1..6 {
                crash_bytes(ctx, &b[..b.len() - cut], &mut out);
            }
            // the first instructions run past the end
            for wc in [0xFFFFu16, 0x8000, 3] {
                b[22..24].copy_from_slice(&wc.to_le_bytes());
                for cut in 0..4 {
                    crash_bytes(ctx, &b[..b.len() - cut], &mut out);
                }
            }
        }
        for size in (0..40usize).chain([1000, 16_384, 65_530, 65_534, 65_535]) {
            // one instruction that is longer than the stream, which ends inside a word
            for wc in [2u32, 3, 1000, 0x7FFF, 0x8000, 0xFFFF] {
                for op in [0u32, 7, 15, 30, 43, 12] {
                    let mut w = header(9);
                    w.push(wc << 16 | op);
                    w.extend(std::iter::repeat(1).take(size));
                    let b = to_bytes(&w, true);
                    for cut in 0..4 {
                        crash_bytes(ctx, &b[..b.len() - cut], &mut out);
                    }
                }
            }
        }
        // one instruction of the largest size
        for (op, fixed) in [(43u32, 2usize), (44, 2), (30, 1), (33, 2), (57, 3), (80, 2), (65, 3), (81, 3), (4, 0), (5, 1), (7, 1), (10, 0), (2, 0), (15, 2), (17, 0), (62, 2), (12, 4)] {
            for fill in [0u32, 0x6161_6161, 0xFFFF_FFFF, 7] {
                let mut w = header(9);
                w.push(0xFFFF_0000 | op);
                for k in 0..0xFFFEusize {
                    w.push(if k < fixed { 1 } else { fill });
                }
                crash_bytes(ctx, &to_bytes(&w, true), &mut out);
                let last = w.len() - 1;
                w[last] = 0;
                crash_bytes(ctx, &to_bytes(&w, true), &mut out);
                w.pop();
                crash_bytes(ctx, &to_bytes(&w, true), &mut out);
            }
        }
        // many imports
        let mut w = header(9);
        for k in 0..20_000u32 {
            let mut imp = vec![k];
            str_words(b"GLSL.std.450", &mut imp);
            w.push(((imp.len() + 1) as u32) << 16 | 11);
            w.extend(imp);
        }
        crash_bytes(ctx, &to_bytes(&w, true), &mut out);
    });
    p.bound(format!("binaries of {} instructions, cut at every byte of the last words; instructions of 6 lengths at the end of streams of 45 lengths, cut in every way; single instructions of 65535 words", n));
    let blocks = tier.pick(6_000usize, 20_000);
    for kind in 0..6usize {
        p.unit(format!("large functions {}", kind), move |ctx| {
            for size in [100usize, 2000, blocks] {
                let unit: Vec<A> = match kind {
                    0 => vec![A::Atom],
                    1 => vec![A::Sel(vec![], vec![])],
                    2 => vec![A::Sel(vec![A::Atom], vec![A::Atom])],
                    3 => vec![A::Loop(vec![])],
                    4 => vec![A::Loop(vec![A::Atom, A::BreakIf(vec![A::Atom])])],
                    _ => vec![A::Atom],
                };
                let seq: Vec<A> = (0..size).flat_map(|_| unit.iter().cloned()).collect();
                let prog = if kind == 5 { vec![A::Loop(vec![A::Sel(seq.clone(), seq), A::BreakIf(vec![])])] } else { seq };
                let (bs, _) = emit(&prog, &mut Plain);
                crash_function(ctx, &bs);
            }
        });
    }
    p.bound(format!("functions of up to {} constructs after each other", blocks));
    p.unit("nesting", |ctx| {
        for d in (1..=200).chain([255, 256, 257, 258, 300, 400, 513]) {
            crash_function(ctx, &nested(d));
        }
        for d in 1..=11 {
            crash_function(ctx, &ladder(d));
        }
    });
    p.bound("constructs nested up to 200 deep, and 7 depths up to 513");
}

// ---------------------------------------------------------------- results depend only on inputs

/// A call of the library: the whole of what it answers, as text
pub struct Call {
    pub name: String,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
}

thread_local! {
    /// All inputs are placed here: same address, different content
    static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(1 << 16));
}

fn placed<T>(b: &[u8], offset: usize, f: impl FnOnce(&[u8]) -> T) -> T {
    let mut v = BUF.with(|v| std::mem::take(&mut *v.borrow_mut()));
    v.clear();
    v.resize(offset, 0xA5);
    v.extend_from_slice(b);
    let r = f(&v[offset..]);
    BUF.with(|s| *s.borrow_mut() = v);
    r
}

fn text_of_read(r: &Result<RawModule, ReadError>) -> String {
    match r {
        Ok(m) => format!("{:?}\n{}", m, m),
        Err(e) => format!("{:?}\n{}", e, e),
    }
}

/// A set that uses the library while the library is using it
struct Reentrant {
    inner: &'static str,
    log: std::rc::Rc<std::cell::RefCell<String>>,
}

impl magmaflow::spv::ExtInstSet for Reentrant {
    fn get_name(&self) -> &'static str {
        "GLSL.std.450"
    }
    fn read_instruction<'a, 'b>(
        &'b self,
        num: u32,
        block: magmaflow::spv::raw::MemoryBlock<'a>,
    ) -> magmaflow::spv::raw::MemoryBlockResult<'a, Box<dyn magmaflow::spv::ExtInst>> {
        let (bs, _) = emit(&[A::Loop(vec![A::Atom, A::BreakIf(vec![])])], &mut Plain);
        let b = match self.inner {
            "ext" => to_bytes(&ext_words(13, 9), true),
            _ => to_bytes(&c_cfa::binary(&rename(&bs, &|l| l + 50)), true),
        };
        self.log.borrow_mut().push_str(&all_bytes(&b));
        let set = magmaflow::glsl450::InstSet;
        magmaflow::spv::ExtInstSet::read_instruction(&set, num, block)
    }
    fn duplicate(&self) -> Box<dyn magmaflow::spv::ExtInstSet> {
        Box::new(Reentrant { inner: self.inner, log: self.log.clone() })
    }
}

fn ext_words(num: u32, operand: u32) -> Vec<u32> {
    let mut w = header(9);
    let mut imp = vec![5];
    str_words(b"GLSL.std.450", &mut imp);
    w.push(((imp.len() + 1) as u32) << 16 | 11);
    w.extend(imp);
    w.extend([6 << 16 | 12, 1, 2, 5, num, operand]);
    w
}

fn byte_inputs() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let prog = |a: &[A], le: bool| {
        let (bs, _) = emit(a, &mut Plain);
        to_bytes(&c_cfa::binary(&rename(&bs, &|l| l + 50)), le)
    };
    // same length, same header, different content
    v.push(("break", prog(&[A::Loop(vec![A::BreakIf(vec![A::Atom])])], true)));
    v.push(("continue", prog(&[A::Loop(vec![A::ContIf(vec![A::Atom])])], true)));
    v.push(("break, big endian", prog(&[A::Loop(vec![A::BreakIf(vec![A::Atom])])], false)));
    v.push(("selection", prog(&[A::Sel(vec![A::Atom], vec![]), A::Atom], true)));
    v.push(("selection, other arm", prog(&[A::Sel(vec![], vec![A::Atom]), A::Atom], true)));
    v.push(("sin", to_bytes(&ext_words(13, 9), true)));
    v.push(("cos", to_bytes(&ext_words(14, 9), true)));
    v.push(("sin, big endian", to_bytes(&ext_words(13, 9), false)));
    v.push(("unknown extended instruction", to_bytes(&ext_words(15, 9), true)));
    // an import missing, a use of an id bound in other modules
    let mut w = header(9);
    w.extend([6 << 16 | 12, 1, 2, 5, 13, 9]);
    v.push(("use without import", to_bytes(&w, true)));
    let mut w = header(9);
    let mut imp = vec![5];
    str_words(b"GLSL.std.451", &mut imp);
    w.push(((imp.len() + 1) as u32) << 16 | 11);
    w.extend(imp);
    v.push(("unknown set", to_bytes(&w, true)));
    let name = |s: &str| to_bytes(&module_words(&[Inst { op: 5, vals: vec![V::Id(3), V::Str(s.into())] }]), true);
    v.push(("name", name("main")));
    v.push(("another name", name("mein")));
    v.push(("bad string", {
        let mut b = name("main");
        let n = b.len();
        b[n - 5] = 0xFF;
        b
    }));
    v.push(("header", to_bytes(&header(9), true)));
    v.push(("header, other bound", to_bytes(&header(10), true)));
    v.push(("header, big endian", to_bytes(&header(9), false)));
    v.push(("header, bound zero", to_bytes(&header(0), true)));
    for (n, f, w) in [("header, other generator", 2usize, 0x000B_0000u32), ("header, version of the generator", 2, 7), ("bad version", 1, 0x0002_0000), ("bad schema", 4, 1)] {
        let mut h = header(9);
        h[f] = w;
        v.push((n, to_bytes(&h, true)));
    }
    v.push(("empty", vec![]));
    v.push(("bad magic", to_bytes(&[1, 2, 3, 4, 5], true)));
    let mut b = to_bytes(&header(9), true);
    b.push(0);
    v.push(("odd length", b));
    let op = |w: &[u32]| {
        let mut h = header(9);
        h.extend(w);
        to_bytes(&h, true)
    };
    v.push(("unknown opcode", op(&[1 << 16 | 9999])));
    v.push(("unimplemented opcode", op(&[1 << 16 | 8])));
    v.push(("long count", op(&[5 << 16 | 248, 1])));
    v.push(("excess", op(&[3 << 16 | 248, 1, 2])));
    v.push(("short", op(&[1 << 16 | 248])));
    v.push(("capability", op(&[2 << 16 | 17, 1])));
    v.push(("unknown capability", op(&[2 << 16 | 17, 999])));
    v.push(("constant", op(&[5 << 16 | 43, 1, 2, 3, 4])));
    v.push(("struct", op(&[5 << 16 | 30, 1, 2, 3, 4])));
    v
}

fn class_words() -> Vec<Vec<C>> {
    use C::*;
    vec![
        vec![Mm],
        vec![],
        vec![Cap, Mm, Ep, Glob],
        vec![Mm, Fn, Fe],
        vec![Mm, Fn, Lbl, Code, Br, Fe],
        vec![Mm, Fn, Lbl, Code, Mrg, Br],
        vec![Mm, Fn, Lbl, Br, Fe, Fn, Fe],
        vec![Mm, Fn, Fe, Fn, Lbl, Br, Fe],
        vec![Mm, Fn, Lbl, Code, Fe],
        vec![Mm, Glob, Ann],
        vec![Mm, Fn, Lbl, Br, Br, Fe],
    ]
}

fn functions() -> Vec<Vec<B>> {
    let mut v = vec![];
    for a in [
        vec![A::Atom, A::Atom],
        vec![A::Sel(vec![A::Atom], vec![])],
        vec![A::Sel(vec![], vec![A::Atom])],
        vec![A::Loop(vec![A::Atom])],
        vec![A::Loop(vec![A::BreakIf(vec![])])],
        vec![A::Loop(vec![A::ContIf(vec![])])],
        vec![A::Sel(vec![A::Atom], vec![A::Atom]), A::Loop(vec![A::Atom])],
    ] {
        let (bs, _) = emit(&a, &mut Plain);
        v.push(rename(&bs, &|l| l + 1));
        let mut d = rename(&bs, &|l| l + 1);
        c_cfa::decorate(&mut d);
        v.push(d);
    }
    let mut bad = v[0].clone();
    set(&mut bad, (0, 2), 900);
    v.push(bad);
    let mut dup = v[2].clone();
    dup.push(dup[0]);
    v.push(dup);
    v.push(vec![]);
    v.push(vec![B { label: 1, mg: Mg::None, br: Br::Ret }]);
    v.push(vec![B { label: 1, mg: Mg::None, br: Br::To(1) }]);
    v.push(vec![B { label: 1, mg: Mg::None, br: Br::Cond(1, 1, None) }]);
    v
}

pub fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    for (n, b) in byte_inputs() {
        let c = b.clone();
        v.push(Call { name: format!("everything with '{}'", n), run: Box::new(move || placed(&c, 0, all_bytes)) });
    }
    for (i, w) in class_words().into_iter().enumerate() {
        v.push(Call {
            name: format!("validate {} {:?}", i, w),
            run: Box::new(move || {
                let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
                let mut s = String::new();
                use_module(m, &mut s);
                s
            }),
        });
    }
    for (i, f) in functions().into_iter().enumerate() {
        v.push(Call {
            name: format!("recover function {}", i),
            run: Box::new(move || {
                let mut s = String::new();
                use_function(&func(&f), &mut s);
                s
            }),
        });
    }
    // other sets, other addresses, calls inside calls
    let by = |n: &str| byte_inputs().into_iter().find(|b| b.0 == n).unwrap().1;
    for n in ["sin", "name", "break"] {
        let b = by(n);
        let c = b.clone();
        v.push(Call { name: format!("read '{}' without sets", n), run: Box::new(move || placed(&c, 0, |c| text_of_read(&read_module(c, vec![])))) });
        let c = b.clone();
        v.push(Call {
            name: format!("read '{}' with two sets", n),
            run: Box::new(move || placed(&c, 0, |c| text_of_read(&read_module(c, vec![Box::new(CSet(c_read::custom("Custom", 0))), Box::new(magmaflow::glsl450::InstSet)])))),
        });
        let c = b.clone();
        v.push(Call {
            name: format!("read '{}' with another set of the name", n),
            run: Box::new(move || placed(&c, 0, |c| text_of_read(&read_module(c, vec![Box::new(CSet(c_read::custom("GLSL.std.450", 0)))])))),
        });
    }
    for (n, inner) in [("sin", "ext"), ("cos", "function")] {
        let b = by(n);
        v.push(Call {
            name: format!("read '{}' with a set that calls the library ({})", n, inner),
            run: Box::new(move || {
                let log = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
                let r = read_module(&b, vec![Box::new(Reentrant { inner, log: log.clone() })]);
                let s = log.borrow().clone();
                format!("{}{}", text_of_read(&r), s)
            }),
        });
    }
    v
}

/// Many more calls, for histories that go through all of them
fn more() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut words: Vec<Vec<C>> = vec![];
    for a in c_valid::ALL {
        words.push(vec![a]);
        for b in c_valid::ALL {
            words.push(vec![a, b]);
        }
    }
    let mut w = vec![];
    accepted(&mut w, 4, &mut |w: &[C]| {
        if w.len() > 2 {
            words.push(w.to_vec());
        }
    });
    for w in words {
        v.push(Call {
            name: format!("validate {:?}", w),
            run: Box::new(move || {
                let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
                let mut s = String::new();
                use_module(m, &mut s);
                s
            }),
        });
    }
    for d in OPS {
        let all = gen::instances(d, false);
        let step = 1 + all.len() / 2;
        for i in all.into_iter().step_by(step) {
            let mut m = gen::prefix(&i);
            m.push(i.clone());
            let b = to_bytes(&module_words(&m), true);
            v.push(Call { name: format!("everything with {:?}", i), run: Box::new(move || placed(&b, 0, all_bytes)) });
        }
    }
    for n in 0..=3usize {
        let g = Programs::new(n);
        for i in 0..g.len(n) {
            let (mut bs, _) = emit(&g.get(n, false, i), &mut Plain);
            c_cfa::decorate(&mut bs);
            v.push(Call {
                name: format!("recover {}", show(&bs)),
                run: Box::new(move || {
                    let mut s = String::new();
                    use_function(&func(&bs), &mut s);
                    s
                }),
            });
        }
    }
    for (b, _) in options(1, 2, 2, true, true) {
        v.push(Call {
            name: format!("recover {}", show(&[b])),
            run: Box::new(move || {
                let mut s = String::new();
                use_function(&func(&[b]), &mut s);
                s
            }),
        });
    }
    v
}

/// Groups of inputs that look alike: same length, beginning, end, sum, header, bound, ids or
/// number of blocks
fn groups() -> Vec<Vec<Call>> {
    let mut out: Vec<Vec<Call>> = vec![];
    let bytes = |name: String, b: Vec<u8>| Call { name, run: Box::new(move || placed(&b, 0, all_bytes)) };
    let with_bound = |insts: &[Inst], bound: u32| {
        let mut w = module_words(insts);
        w[3] = bound;
        to_bytes(&w, true)
    };
    // strings
    for n in [9usize, 25, 64, 300] {
        let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let mut v = vec![base.clone()];
        for (i, j) in [(n / 2, n / 2 + 1), (1, n - 2), (0, 1), (n - 1, n - 2)] {
            let mut x = base.clone();
            x.swap(i, j);
            v.push(x);
        }
        let mut x = base.clone();
        x[n / 2] ^= 1;
        x[n / 2 + 1] ^= 1;
        v.push(x);
        let mut x = base.clone();
        x.reverse();
        v.push(x);
        let strs: Vec<String> = v.into_iter().map(|x| String::from_utf8(x).unwrap()).collect();
        for op in [5u16, 7, 10] {
            out.push(
                strs.iter()
                    .map(|s| {
                        let i = Inst { op, vals: if op == 10 { vec![V::Str(s.clone())] } else { vec![V::Id(3), V::Str(s.clone())] } };
                        bytes(format!("{:?}", i), with_bound(&[i.clone()], 9))
                    })
                    .collect(),
            );
        }
    }
    // long modules with the same ends
    for bound in [0u32, 9, 500] {
        for n in [4usize, 12, 40] {
            let name = |k: usize, s: &str| Inst { op: 5, vals: vec![V::Id(k as u32), V::Str(s.into())] };
            let label = |k: u32| Inst { op: 248, vals: vec![V::Id(k)] };
            let base: Vec<Inst> = (0..n).map(|k| name(k, "n")).collect();
            let mut v = vec![base.clone()];
            let mut x = base.clone();
            x[n / 2] = name(n / 2, "m");
            v.push(x);
            let mut x = base.clone();
            x.swap(1, 2);
            v.push(x);
            let mut x = base.clone();
            x[1] = label(77);
            v.push(x);
            let mut x = base.clone();
            x[1] = label(78);
            v.push(x);
            let mut x = base.clone();
            x[n / 2] = x[0].clone();
            v.push(x);
            out.push(v.iter().enumerate().map(|(k, x)| bytes(format!("module of {} names, bound {}, variant {}", n, bound, k), with_bound(x, bound))).collect());
        }
    }
    // whole modules
    for bound in [0u32, 9] {
        let w = complete();
        let mut v: Vec<Vec<(C, u32)>> = vec![w.iter().enumerate().map(|(i, c)| (*c, i as u32)).collect()];
        let n = w.len();
        for (i, j) in [(n / 2, n / 2 + 1), (1, n - 2), (3, 4), (n - 4, n - 3)] {
            let mut x = v[0].clone();
            x.swap(i, j);
            v.push(x);
        }
        let mut x = v[0].clone();
        x[n / 2].1 = 90;
        v.push(x);
        let mut x = v[0].clone();
        x[n - 5].1 = 91;
        v.push(x);
        out.push(
            v.into_iter()
                .enumerate()
                .map(|(k, x)| Call {
                    name: format!("validate a whole module, bound {}, variant {}", bound, k),
                    run: Box::new(move || {
                        let mut m = module(x.iter().map(|(c, i)| rep(*c, *i)).collect());
                        m.bound = bound;
                        let mut s = String::new();
                        use_module(m, &mut s);
                        s
                    }),
                })
                .collect(),
        );
    }
    // functions of the same labels
    for inner in [vec![A::Atom], vec![A::Sel(vec![A::Atom], vec![A::Atom]), A::Loop(vec![A::BreakIf(vec![A::Atom]), A::Atom]), A::Atom]] {
        let (bs, _) = emit(&inner, &mut Plain);
        let n = bs.len();
        let mut v = vec![bs.clone()];
        let mut x = bs.clone();
        c_cfa::decorate(&mut x);
        v.push(x);
        for i in 0..n {
            let mut x = bs.clone();
            x[i].br = Br::Ret;
            v.push(x);
            let mut x = bs.clone();
            x[i].br = Br::To(bs[n - 1].label);
            v.push(x);
            let mut x = bs.clone();
            x[i].mg = Mg::None;
            v.push(x);
        }
        let mut x = bs.clone();
        x[1..].reverse();
        v.push(x);
        v.truncate(9);
        out.push(
            v.into_iter()
                .map(|bs| Call {
                    name: format!("recover {}", show(&bs)),
                    run: Box::new(move || {
                        let mut s = String::new();
                        use_function(&func(&bs), &mut s);
                        s
                    }),
                })
                .collect(),
        );
    }
    out
}

fn complete() -> Vec<C> {
    c_valid::complete_module()
}

fn all_calls() -> Vec<Call> {
    let mut v = calls();
    v.extend(more());
    v.extend(groups().into_iter().flatten());
    v
}

pub fn digest(i: usize) -> u64 {
    let mut v = calls();
    if i >= v.len() {
        v = all_calls();
    }
    v.get(i).map(|c| hash_str(&(c.run)())).unwrap_or(0)
}

/// The answer of each call in a process that makes no other call
fn fresh() -> &'static Vec<(u64, u64)> {
    static F: std::sync::OnceLock<Vec<(u64, u64)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let n = all_calls().len();
        let run = |i: usize, bare: bool| -> u64 {
            let mut c = std::process::Command::new(&exe);
            c.arg("digest").arg(i.to_string());
            if bare {
                c.env_clear().current_dir("/");
            }
            c.stderr(std::process::Stdio::null());
            let o = c.output().ok();
            o.and_then(|o| String::from_utf8_lossy(&o.stdout).trim().parse().ok()).unwrap_or(u64::MAX)
        };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: Vec<std::sync::Mutex<(u64, u64)>> = (0..n).map(|_| std::sync::Mutex::new((0, 0))).collect();
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    *out[i].lock().unwrap() = (run(i, false), run(i, true));
                });
            }
        });
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    })
}

fn history_case(ctx: &mut Ctx, cs: &[Call], h: &[usize]) {
    let desc = || h.iter().map(|i| cs[*i].name.clone()).collect::<Vec<_>>().join("; then ");
    if !ctx.begin(desc) {
        return;
    }
    let want = fresh();
    for (k, i) in h.iter().enumerate() {
        let t = ctx.lib(desc, || (cs[*i].run)());
        if hash_str(&t) != want[*i].0 {
            ctx.fail(desc, clip(format!("call {} answers differently than in a process that makes only this call:\n{}", k + 1, t)));
            return;
        }
    }
    ctx.sum_states += h.len() as u64;
    ctx.sum_trans += h.len() as u64;
    ctx.ok("same answers");
    ctx.sample(desc);
}

fn histories(ctx: &mut Ctx, cs: &[Call], h: &mut Vec<usize>, n: usize, left: usize) {
    if left == 0 {
        history_case(ctx, cs, h);
        return;
    }
    for i in 0..n {
        h.push(i);
        histories(ctx, cs, h, n, left - 1);
        h.pop();
    }
}

pub fn c18(tier: Tier) -> Plan {
    let mut p = Plan::new();
    let n = calls().len();
    p.assume("the reference answer of a call is that of a new process that makes only this call");
    p.unit("fresh processes", move |ctx| {
        let cs = all_calls();
        for (i, f) in fresh().iter().enumerate() {
            let desc = || cs[i].name.clone();
            if !ctx.begin(desc) {
                continue;
            }
            if f.0 == u64::MAX || f.1 == u64::MAX {
                ctx.fail(desc, "the call does not return in a new process");
                return;
            }
            if f.0 != f.1 {
                ctx.fail(desc, "two new processes (one with another environment and working directory) answer differently");
                return;
            }
            ctx.ok("same answers");
            ctx.sum_states += 2;
            ctx.sum_trans += 1;
        }
    });
    crate::c_sched::units(&mut p, &[("all", 0)]);
    // all pairs and triples of calls
    for a in 0..n {
        p.unit(format!("histories starting with call {}", a), move |ctx| {
            let cs = calls();
            let mut h = vec![a];
            histories(ctx, &cs, &mut h, n, 1);
            histories(ctx, &cs, &mut h, n, 2);
            if tier == Tier::Thorough {
                histories(ctx, &cs, &mut h, n, 3);
            }
        });
    }
    p.bound(format!("all histories of {} calls over {} calls (reading, printing, validating, recovering; inputs that share length, header, labels, ids and buffer address)", tier.pick("2 and 3", "2, 3 and 4"), n));
    for g in 0..groups().len() {
        p.unit(format!("histories of inputs that look alike, group {}", g), move |ctx| {
            let cs = all_calls();
            let sizes: Vec<usize> = groups().iter().map(|g| g.len()).collect();
            let start = cs.len() - sizes.iter().sum::<usize>() + sizes[..g].iter().sum::<usize>();
            let k = sizes[g];
            for x in 0..k * k {
                history_case(ctx, &cs, &[start + x % k, start + x / k]);
            }
            for x in 0..k * k * k {
                history_case(ctx, &cs, &[start + x % k, start + x / k % k, start + x / k / k]);
            }
        });
    }
    p.bound("all histories of 2 and 3 calls inside each group of inputs that look alike (strings and modules of the same length, ends and sums; modules of the same number of instructions; functions of the same labels)");
    // two threads, every assignment of calls to threads
    for a in 0..n {
        p.unit(format!("threads, starting with call {}", a), move |ctx| {
            threads(ctx, a, n);
        });
    }
    p.bound(format!("all histories of 3 calls over {} calls with every assignment of the calls to 2 threads, handed over call by call", n));
    // repetition
    for a in 0..n {
        p.unit(format!("repetition of call {}", a), move |ctx| {
            let cs = calls();
            for _ in 0..tier.pick(700, 9000) {
                history_case(ctx, &cs, &[a]);
            }
            if a == 0 {
                for _ in 0..tier.pick(70_000, 140_000) {
                    history_case(ctx, &cs, &[14]);
                }
            }
            let cs = all_calls();
            for i in 0..cs.len() {
                history_case(ctx, &cs, &[i]);
            }
        });
    }
    let total = all_calls().len();
    p.bound(format!("each call repeated {} times, one {} times, then each of {} calls once", tier.pick(700, 9000), tier.pick(70_000, 140_000), total));
    for part in 0..32usize {
        p.unit(format!("pairs of many calls, part {}", part), move |ctx| {
            let cs = all_calls();
            for step in (part + 1..cs.len()).step_by(tier.pick(64, 32)) {
                // every distance: after every call every other one
                let mut at = 0;
                for _ in 0..cs.len() {
                    history_case(ctx, &cs, &[at]);
                    at = (at + step) % cs.len();
                }
            }
        });
    }
    p.bound(format!("{} calls (all sequences of up to 2 instruction classes, accepted ones up to 4, two instances of each instruction, all structured functions of up to 3 blocks and all single blocks), in rounds through all of them at every {}distance", total, tier.pick("second ", "")));
    for d in 0..8usize {
        p.unit(format!("each of many calls repeated, part {}", d), move |ctx| {
            let cs = all_calls();
            let n = tier.pick(70, 300);
            for i in (d..cs.len()).step_by(8) {
                for _ in 0..n {
                    history_case(ctx, &cs, &[i]);
                }
            }
            for i in 0..cs.len() {
                history_case(ctx, &cs, &[i]);
            }
        });
    }
    p.bound(format!("each of them repeated {} times and all of them after that", tier.pick(70, 300)));
    // every kind of call before the others
    for d in OPS {
        p.unit(format!("after {}", d.name), move |ctx| {
            let cs = calls();
            for i in gen::instances(d, false) {
                let mut v = gen::prefix(&i);
                let start = module_words(&v).len();
                v.push(i.clone());
                let w = module_words(&v);
                let len = w.len() - start;
                let mut ws = vec![w.clone()];
                let recount = |w: &mut Vec<u32>| {
                    let n = (w.len() - start) as u32;
                    w[start] = n << 16 | w[start] & 0xFFFF;
                };
                // too short and too long for its operands, too short for its count
                for cut in 1..len.min(4) {
                    let mut x = w[..w.len() - cut].to_vec();
                    ws.push(x.clone());
                    recount(&mut x);
                    ws.push(x);
                }
                let mut x = w.clone();
                x.push(7);
                recount(&mut x);
                ws.push(x);
                for at in start + 1..w.len().min(start + 12) {
                    for y in [0xFFFF_FFFFu32, 0x4141_4141] {
                        let mut x = w.clone();
                        x[at] = y;
                        ws.push(x);
                    }
                }
                for w in ws {
                    let b = to_bytes(&w, true);
                    after(ctx, &cs, &|| format!("everything with {}", hex(&b)), &|| {
                        all_bytes(&b);
                    });
                }
                let b = to_bytes(&w, false);
                after(ctx, &cs, &|| format!("everything with {}", hex(&b)), &|| {
                    all_bytes(&b);
                });
            }
        });
    }
    p.bound("every instruction in all operand shapes, whole and damaged (cut, too long, operands replaced), each before a series of 16 calls");
    for k in 1..=2usize {
        p.unit(format!("after all functions of {} blocks", k), move |ctx| {
            let cs = calls();
            let opts: Vec<Vec<B>> = (0..k as u32).map(|i| options(i, k as u32, k as u32, true, true).into_iter().map(|o| o.0).collect()).collect();
            let total: usize = opts.iter().map(|o| o.len()).product();
            for mut x in 0..total {
                let bs: Vec<B> = opts
                    .iter()
                    .map(|o| {
                        let b = o[x % o.len()];
                        x /= o.len();
                        b
                    })
                    .collect();
                let f = func(&bs);
                after(ctx, &cs, &|| format!("recovering {}", show(&bs)), &|| {
                    use_function(&f, &mut String::new());
                });
            }
        });
    }
    p.bound("every function of 1 and 2 blocks (also with wrong labels) recovered before the series of calls");
    p.unit("after validating", move |ctx| {
        let cs = calls();
        let n = c_valid::ALL.len();
        for len in 0..=3u32 {
            for idx in 0..n.pow(len) {
                let mut x = idx;
                let w: Vec<C> = (0..len)
                    .map(|_| {
                        let c = c_valid::ALL[x % n];
                        x /= n;
                        c
                    })
                    .collect();
                let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32)).collect());
                after(ctx, &cs, &|| format!("validating {:?}", w), &|| {
                    use_module(m.clone(), &mut String::new());
                });
            }
        }
    });
    p.bound("every sequence of up to 3 instruction classes validated before the series of calls");
    // calls made while another call is under way
    for a in 0..n {
        p.unit(format!("call {} inside other calls", a), move |ctx| {
            inside(ctx, a);
        });
    }
    p.bound(format!("each of {} calls, in the same and in another thread, at each of the places where reading, printing, copying, comparing, validating or recovering calls the caller's instruction set", n));
    // addresses
    p.unit("addresses", move |ctx| {
        for (n, b) in byte_inputs() {
            let want = all_bytes(&b);
            for off in 0..64 {
                let desc = || format!("'{}' at address offset {}", n, off);
                if !ctx.begin(desc) {
                    continue;
                }
                let got = ctx.lib(desc, || placed(&b, off, all_bytes));
                if got != want {
                    ctx.fail(desc, clip(format!("the answer depends on where the input is\n{}\n{}", got, want)));
                    return;
                }
                ctx.ok("same answers");
                ctx.sum_states += 1;
                ctx.sum_trans += 1;
            }
        }
    });
    p.bound("each input at 64 address offsets");
    // the same module printed, validated and recovered repeatedly
    p.unit("values", move |ctx| {
        for d in OPS {
            for i in gen::instances(d, false) {
                let desc = || format!("{:?}", i);
                if !ctx.begin(desc) {
                    continue;
                }
                let c = match core_of(&i) {
                    Some(c) => c,
                    None => continue,
                };
                let d = ctx.lib(desc, || core_of(&i));
                let same = ctx.lib(desc, || d.as_ref().map(|d| *d == c && d.to_string() == c.to_string() && c.to_string() == c.to_string() && format!("{:?}", d) == format!("{:?}", c)));
                if same != Some(true) {
                    ctx.fail(desc, "reading or printing the same instruction twice gives two answers");
                    return;
                }
                ctx.ok("same answers");
                ctx.sum_states += 1;
                ctx.sum_trans += 4;
            }
        }
    });
    p.bound("every instruction in all operand shapes read and printed twice");
    for k in 0..=tier.pick(5usize, 7) {
        p.unit(format!("functions of {} blocks", k), move |ctx| {
            let g = Programs::new(k);
            for i in 0..g.len(k) {
                let (mut bs, _) = emit(&g.get(k, false, i), &mut Plain);
                c_cfa::decorate(&mut bs);
                let desc = || show(&bs);
                if !ctx.begin(desc) {
                    continue;
                }
                let f = func(&bs);
                let (a, b) = ctx.lib(desc, || {
                    let (mut a, mut b) = (String::new(), String::new());
                    use_function(&f, &mut a);
                    use_function(&f, &mut b);
                    (a, b)
                });
                if a != b {
                    ctx.fail(desc, clip(format!("recovering twice gives two answers\n{}\n{}", a, b)));
                    return;
                }
                ctx.ok("same answers");
                ctx.sum_states += 1;
                ctx.sum_trans += 1;
            }
        });
    }
    p.bound(format!("all structured functions of up to {} blocks recovered and printed twice", tier.pick(5, 7)));
    p
}

/// A call, then a series of others that have to answer as ever
fn after(ctx: &mut Ctx, cs: &[Call], what: &dyn Fn() -> String, call: &dyn Fn()) {
    if !ctx.begin(what) {
        return;
    }
    ctx.lib(what, call);
    let want = fresh();
    let series = ["'name'", "'sin, big endian'", "'break'", "'bad string'", "'unknown set'", "'struct'", "'capability'", "validate 4", "validate 8", "function 2", "function 9", "function 14", "function 15", "'use without import'", "'excess'", "'header'"];
    for s in series {
        if let Some(i) = cs.iter().position(|c| c.name.contains(s)) {
            let t = ctx.lib(what, || (cs[i].run)());
            if hash_str(&t) != want[i].0 {
                ctx.fail(what, clip(format!("after it, the call \"{}\" answers differently than in a process that makes only this call:\n{}", cs[i].name, t)));
                return;
            }
        }
    }
    ctx.sum_states += series.len() as u64;
    ctx.sum_trans += series.len() as u64;
    ctx.ok("same answers");
    ctx.sample(what);
}

/// Everything that can be done with a module with extended instructions of a caller's set
fn outer() -> String {
    let mut s = String::new();
    let mut w = header(60);
    let mut imp = vec![5];
    str_words(b"GLSL.std.450", &mut imp);
    w.push(((imp.len() + 1) as u32) << 16 | 11);
    w.extend(imp);
    w.extend([3 << 16 | 14, 0, 1, 5 << 16 | 54, 1, 2, 0, 3, 2 << 16 | 248, 10]);
    w.extend([6 << 16 | 12, 1, 20, 5, 13, 9, 6 << 16 | 12, 1, 21, 5, 14, 8, 3 << 16 | 247, 12, 1, 6 << 16 | 250, 30, 11, 12, 3, 4, 2 << 16 | 248, 11]);
    w.extend([6 << 16 | 12, 1, 22, 5, 13, 7, 2 << 16 | 249, 12, 2 << 16 | 248, 12, 1 << 16 | 253, 1 << 16 | 56]);
    let b = to_bytes(&w, true);
    match read_module(&b, vec![Box::new(TwinSet)]) {
        Err(e) => s.push_str(&format!("{:?}", e)),
        Ok(m) => {
            let c = m.clone();
            let _ = write!(s, "{}\n{:?}\n{}\n", m, c, m == c);
            use_module(c, &mut s);
            if let Ok(l) = validate(m) {
                let k = l.clone();
                let _ = write!(s, "{:?} {}", k, k == l);
                for f in k.function_definitions {
                    use_function(&f, &mut s);
                }
            }
        }
    }
    s
}

fn inside(ctx: &mut Ctx, a: usize) {
    use std::sync::mpsc::channel;
    let cs = std::sync::Arc::new(calls());
    let want = fresh()[a].0;
    let (base, places) = with_hook(0, Box::new(|| {}), outer);
    let (tx, rx) = channel::<()>();
    let (tx2, rx2) = channel::<Result<u64, String>>();
    let cs2 = cs.clone();
    let worker = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        for _ in rx {
            if tx2.send(guard(|| hash_str(&(cs2[a].run)()))).is_err() {
                return;
            }
        }
    });
    if worker.is_err() {
        return;
    }
    let rx2 = std::rc::Rc::new(rx2);
    for at in 1..=places {
        for other in [false, true] {
            let desc = || format!("\"{}\" in {} thread while the library is in place {} of {} of the caller's code", cs[a].name, if other { "another" } else { "the same" }, at, places);
            if !ctx.begin(desc) {
                continue;
            }
            let got = std::rc::Rc::new(std::cell::RefCell::new(None));
            let g = got.clone();
            let inner: Box<dyn FnOnce()> = if other {
                let (tx, rx2) = (tx.clone(), rx2.clone());
                Box::new(move || {
                    let _ = tx.send(());
                    *g.borrow_mut() = rx2.recv().ok().and_then(|r| r.ok());
                })
            } else {
                let cs = cs.clone();
                Box::new(move || *g.borrow_mut() = Some(hash_str(&(cs[a].run)())))
            };
            let (t, _) = ctx.lib(desc, || with_hook(at, inner, outer));
            if t != base {
                ctx.fail(desc, clip(format!("the outer call answers differently\n{}\n{}", t, base)));
                return;
            }
            if *got.borrow() != Some(want) {
                ctx.fail(desc, "the inner call answers differently than in a process that makes only this call");
                return;
            }
            ctx.ok("same answers");
            ctx.sum_states += 2;
            ctx.sum_trans += 1;
        }
    }
}

fn threads(ctx: &mut Ctx, a: usize, n: usize) {
    use std::sync::mpsc::channel;
    let cs = std::sync::Arc::new(calls());
    // a new pair of threads for each first call
    let mut to = vec![];
    let mut from = vec![];
    let mut hs = vec![];
    for _ in 0..2 {
        let (tx, rx) = channel::<usize>();
        let (tx2, rx2) = channel::<Result<u64, String>>();
        let cs = cs.clone();
        hs.push(std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            for i in rx {
                let r = guard(|| hash_str(&(cs[i].run)()));
                if tx2.send(r).is_err() {
                    return;
                }
            }
        }));
        to.push(tx);
        from.push(rx2);
    }
    let want = fresh();
    let depth = 3usize;
    let mut h = vec![0usize; depth];
    'all: for idx in 0..n.pow(depth as u32 - 1) {
        let mut x = idx;
        h[0] = a;
        for k in 1..depth {
            h[k] = x % n;
            x /= n;
        }
        for assign in 0..1usize << depth {
            let desc = || (0..depth).map(|k| format!("thread {}: {}", assign >> k & 1, cs[h[k]].name)).collect::<Vec<_>>().join("; then ");
            if !ctx.begin(desc) {
                continue;
            }
            for k in 0..depth {
                let t = assign >> k & 1;
                let _ = to[t].send(h[k]);
                match from[t].recv() {
                    Ok(Ok(d)) if d == want[h[k]].0 => {}
                    Ok(Ok(_)) => {
                        ctx.fail(desc, format!("call {} answers differently", k + 1));
                        break 'all;
                    }
                    Ok(Err(m)) => {
                        ctx.fail(desc, format!("call {} panics: {}", k + 1, m));
                        break 'all;
                    }
                    Err(_) => break 'all,
                }
            }
            ctx.ok("same answers");
            ctx.sum_states += depth as u64;
            ctx.sum_trans += depth as u64;
        }
    }
}

// ---------------------------------------------------------------- equality

fn eq_case<T: PartialEq>(ctx: &mut Ctx, a: &T, b: &T, same: bool, show: &dyn Fn() -> String) {
    if !ctx.begin(show) {
        return;
    }
    let (e, ne, sym) = ctx.lib(show, || (a == b, a != b, b == a));
    if e != same || ne == same || sym != same {
        ctx.fail(show, format!("{} but == says {}, != says {}, reversed == says {}", if same { "same content" } else { "different content" }, e, ne, sym));
        return;
    }
    ctx.ok(if same { "equal" } else { "different" });
    ctx.sum_trans += 1;
}

struct Equals<'a> {
    ctx: &'a mut Ctx,
}

impl<'a> crate::ops::Visit for Equals<'a> {
    fn see<T: Clone + PartialEq + std::fmt::Debug>(&mut self, name: &'static str, all: Vec<T>, _: Option<&dyn Fn(&T) -> (String, String)>) {
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                eq_case(self.ctx, a, b, i == j, &|| format!("{} {:?} and {:?}", name, a, b));
            }
            let show = || format!("copy of {} {:?}", name, a);
            let copy = self.ctx.lib(show, || a.clone());
            eq_case(self.ctx, a, &copy, true, &show);
            self.ctx.sum_states += 1;
        }
    }
}

pub fn error_values() -> Vec<ReadError> {
    use magmaflow::spv::raw::ReadError::*;
    let mut v = vec![
        UnexpectedEndOfStream,
        UnexpectedStreamAlignment,
        BadMagic,
        UnknownReservedSchema,
        WrongWordCountForOp,
        InvalidString,
        UnexpectedEndOfInstruction,
        InstructionHadExcessData,
    ];
    for n in [0u8, 1, 2, 3, 5, 9, 10, 16, 17, 32, 64, 127, 128, 129, 254, 255] {
        v.push(UnknownVersionBytes(n, 1, 0, 0));
        v.push(UnknownVersionBytes(0, n, 2, 0));
        v.push(UnknownVersionBytes(0, 3, n, 0));
        v.push(UnknownVersionBytes(0, 4, 0, n));
        v.push(UnknownVersion(Version(n, 0)));
        v.push(UnknownVersion(Version(5, n)));
        v.push(UnknownOp(n as u16, 1));
        v.push(UnknownOp(7, n as u16));
        for m in [0u8, 1, 2, 16, 127, 128, 254, 255] {
            v.push(UnknownVersion(Version(n, m)));
            v.push(UnknownVersionBytes(0, n, m, 0));
            v.push(UnknownVersionBytes(n, 0, 0, m));
            v.push(UnknownOp(n as u16, m as u16));
            v.push(UnknownOp((n as u16) << 8, m as u16));
            v.push(UnknownOp(n as u16, (m as u16) << 8));
        }
    }
    for s in ["", "a", "b", "A", "a ", " a", "ab", "ba", "GLSL.std.450", "GLSL.std.451", "glsl.std.450", "two\nlines of a name", "a name\n", "\r\n", "\"quoted\"", "'", "{}", "unknown op", "a name longer than any set has, of more than a hundred characters, to see what is said of it, if anything is said at all"] {
        v.push(UnimplementedOp(match s {
            "" => "OpA",
            "a" => "OpB",
            "b" => "OpBB",
            _ => "",
        }));
        v.push(UnknownInstSet(s.into()));
    }
    for n in [0u32, 1, 2, 3, 0x100, 0x10000, 0x1000000, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX] {
        v.push(UnknownInstSetId(OpId(n)));
        v.push(UnknownExtInstOp("GLSL.std.450", n));
        v.push(UnknownExtInstOp("", n));
        v.push(DuplicateResultId(ResultId(n)));
        for d in OPS {
            for k in d.kinds {
                match *k {
                    K::En(e) | K::OptEn(e) if !e.open() => v.push(e.unknown(n)),
                    K::Mk(m) | K::OptMk(m) => v.push(m.unknown(n)),
                    _ => {}
                }
            }
        }
        for e in [E::BuiltIn, E::ParamAttr, E::Rounding, E::Linkage] {
            v.push(e.unknown(n));
        }
        v.push(M::FastMath.unknown(n));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|e| seen.insert(format!("{:?}", e)));
    v
}

/// The ids and numbers of an operand
fn put(v: &mut V, k: &mut usize, f: &dyn Fn(usize) -> Option<u32>) {
    let mut one = |x: &mut u32, k: &mut usize| {
        if let Some(y) = f(*k) {
            *x = y;
        }
        *k += 1;
    };
    match v {
        V::Id(x) | V::Lit(x) => one(x, k),
        V::Pair(x, y, _) => {
            one(x, k);
            one(y, k);
        }
        V::En(_, _, l) | V::Mk(_, _, l) | V::List(l) => {
            for x in l {
                put(x, k, f);
            }
        }
        _ => {}
    }
}

fn places(i: &Inst) -> usize {
    let mut i = i.clone();
    let mut k = 0;
    for v in &mut i.vals {
        put(v, &mut k, &|_| None);
    }
    k
}

/// Equality and copies (C19)
pub fn c19(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("content is what the public fields of a value say");
    for d in OPS {
        p.unit(format!("pairs of {}", d.name), move |ctx| {
            let insts = gen::instances(d, tier == Tier::Thorough);
            let cores: Vec<(Core, Inst)> = insts.iter().filter_map(core_of).map(|c| { let i = c.inst(); (c, i) }).collect();
            for (a, x) in &cores {
                let sh = || clip(format!("{:?}", x));
                if !ctx.begin(sh) {
                    continue;
                }
                let copy = ctx.lib(sh, || a.clone());
                if copy.inst() != *x {
                    ctx.fail(sh, clip(format!("the copy holds {:?}", copy.inst())));
                    return;
                }
                if ctx.lib(sh, || copy != *a || !(*a == copy) || *a != *a) {
                    ctx.fail(sh, "the copy is not equal");
                    return;
                }
                ctx.ok("copy equal");
                ctx.sum_states += 1;
                for (b, y) in &cores {
                    eq_case(ctx, a, b, x == y, &|| clip(format!("{:?}\nand\n{:?}", x, y)));
                }
            }
        });
    }
    p.bound("every instruction: all pairs of its instances (each operand over its candidates, every optional operand present and absent), and copies");
    for d in OPS {
        p.unit(format!("small values in {}", d.name), move |ctx| {
            let mut bases = vec![gen::base_inst(d)];
            bases.extend(gen::instances(d, false).into_iter().filter(|i| i.vals.iter().any(|v| matches!(v, V::List(l) if l.len() == 2))).take(1));
            for base in bases {
                let n = places(&base);
                for i in 0..n {
                    for j in i + 1..n {
                        let mut all: Vec<(Core, Inst)> = vec![];
                        for x in 0..25u32 {
                            let mut k = 0;
                            let mut y = base.clone();
                            for v in &mut y.vals {
                                put(v, &mut k, &|p| if p == i { Some(x % 5) } else if p == j { Some(x / 5) } else { None });
                            }
                            if let Some(c) = core_of(&y) {
                                let y = c.inst();
                                all.push((c, y));
                            }
                        }
                        for (a, x) in &all {
                            ctx.sum_states += 1;
                            for (b, y) in &all {
                                eq_case(ctx, a, b, x == y, &|| clip(format!("{:?}\nand\n{:?}", x, y)));
                            }
                        }
                    }
                }
            }
        });
    }
    p.bound("every two ids or numbers of every instruction over 0..4, all pairs");
    p.unit("pairs of different instructions", |ctx| {
        let cores: Vec<(Core, Inst)> = OPS
            .iter()
            .flat_map(|d| gen::instances(d, false).into_iter().take(6))
            .filter_map(|i| core_of(&i))
            .map(|c| { let i = c.inst(); (c, i) })
            .collect();
        for (a, x) in &cores {
            ctx.sum_states += 1;
            for (b, y) in &cores {
                eq_case(ctx, a, b, x == y, &|| clip(format!("{:?}\nand\n{:?}", x, y)));
            }
        }
    });
    p.bound("pairs of six instances of every two instructions");
    p.unit("instructions that no module holds", |ctx| {
        let mut v = Equals { ctx };
        crate::ops::texts(&mut v);
        crate::ops::others(&mut v);
    });
    p.bound("201 instructions the library defines but does not read: all pairs of values that differ in one operand, and copies");
    p.unit("extended instructions of different sets", |ctx| {
        let sets: Vec<Box<dyn Fn() -> Vec<Box<dyn magmaflow::spv::ExtInstSet>>>> = vec![
            Box::new(glsl),
            Box::new(|| vec![Box::new(CSet(c_read::custom("GLSL.std.450", 0)))]),
            Box::new(|| vec![Box::new(CSet(c_read::custom("GLSL.std.450", 1)))]),
            Box::new(|| vec![Box::new(TwinSet)]),
        ];
        let mut cores: Vec<(Core, Inst, usize)> = vec![];
        for (k, s) in sets.iter().enumerate() {
            for num in [0, 13u32, 14, 15] {
                for operand in [1u32, 2, u32::MAX] {
                    for ids in [(1u32, 2u32), (2, 1)] {
                        let mut w = ext_words(num, operand);
                        let n = w.len();
                        w[n - 5] = ids.0;
                        w[n - 4] = ids.1;
                        if num == 0 {
                            w.pop();
                            w[n - 6] = 5 << 16 | 12;
                        }
                        let b = to_bytes(&w, true);
                        if let Ok(Ok(mut m)) = guard(|| read_module(&b, s())) {
                            if let Some(c) = m.instructions.pop() {
                                let i = c.inst();
                                cores.push((c, i, k));
                            }
                        }
                    }
                }
            }
        }
        for (a, x, j) in &cores {
            ctx.sum_states += 1;
            let c = a.clone();
            eq_case(ctx, a, &c, true, &|| format!("{:?} and its copy", x));
            for (b, y, k) in &cores {
                eq_case(ctx, a, b, x == y && j == k, &|| format!("{:?} (set {})\nand\n{:?} (set {})", x, j, y, k));
            }
        }
    });
    p.bound("extended instructions of the built in set and three caller's sets of the same name, one with the same texts");
    p.unit("errors", |ctx| {
        let v = error_values();
        for (i, a) in v.iter().enumerate() {
            ctx.sum_states += 1;
            for (j, b) in v.iter().enumerate() {
                eq_case(ctx, a, b, i == j, &|| format!("{:?} and {:?}", a, b));
            }
        }
        let again = error_values();
        for (a, b) in v.iter().zip(&again) {
            eq_case(ctx, a, b, true, &|| format!("{:?} and {:?}", a, b));
        }
        let mut v = vec![ValidationError::MemoryModelMissing];
        for n in (0..70usize).chain([99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 65535, 65536]).chain((17..64).map(|k| 1usize << k)).chain([usize::MAX]) {
            v.push(ValidationError::ExpectedOpFunction(n));
            v.push(ValidationError::ExpectedOpFunctionEnd(n));
            v.push(ValidationError::ExpectedBranch(n));
            v.push(ValidationError::UnexpectedInstruction(n));
        }
        for (i, a) in v.iter().enumerate() {
            for (j, b) in v.iter().enumerate() {
                eq_case(ctx, a, b, i == j, &|| format!("{:?} and {:?}", a, b));
                eq_case(ctx, &a.clone(), b, i == j, &|| format!("copy of {:?} and {:?}", a, b));
            }
        }
    });
    p.bound("all pairs of read errors (11 values) and validation errors (130 positions) over all kinds");
    // modules
    let len = tier.pick(4usize, 5);
    for part in 0..16usize {
        p.unit(format!("modules, part {}", part), move |ctx| {
            let alpha: Vec<Core> = [
                Inst { op: 0, vals: vec![] },
                Inst { op: 248, vals: vec![V::Id(1)] },
                Inst { op: 248, vals: vec![V::Id(2)] },
                Inst { op: 5, vals: vec![V::Id(1), V::Str("a".into())] },
            ]
            .iter()
            .filter_map(core_of)
            .collect();
            let mut lists: Vec<Vec<usize>> = vec![vec![]];
            let mut at = 0;
            while at < lists.len() {
                if lists[at].len() < len {
                    for i in 0..alpha.len() {
                        let mut x = lists[at].clone();
                        x.push(i);
                        lists.push(x);
                    }
                }
                at += 1;
            }
            let make = |l: &[usize]| module(l.iter().map(|i| alpha[*i].clone()).collect());
            let ms: Vec<RawModule> = lists.iter().map(|l| make(l)).collect();
            for (i, a) in ms.iter().enumerate() {
                if i % 16 != part {
                    continue;
                }
                ctx.sum_states += 1;
                let c = a.clone();
                eq_case(ctx, a, &c, true, &|| format!("{:?} and its copy", lists[i]));
                for (j, b) in ms.iter().enumerate() {
                    eq_case(ctx, a, b, i == j, &|| format!("modules {:?} and {:?}", lists[i], lists[j]));
                }
            }
        });
    }
    p.bound(format!("all pairs of modules of up to {} instructions over 4", len));
    p.unit("module headers", |ctx| {
        // each field over many values
        let base = module(vec![]);
        let mut field = |values: Vec<u32>, put: &dyn Fn(&mut RawModule, u32), what: &str| {
            let ms: Vec<RawModule> = values
                .iter()
                .map(|v| {
                    let mut m = base.clone();
                    put(&mut m, *v);
                    m
                })
                .collect();
            for (i, a) in ms.iter().enumerate() {
                eq_case(ctx, a, &a.clone(), true, &|| format!("{} {} and its copy", what, values[i]));
                for (j, b) in ms.iter().enumerate() {
                    eq_case(ctx, a, b, i == j, &|| format!("{} {} and {}", what, values[i], values[j]));
                }
            }
        };
        let mut shorts: Vec<u32> = (0..300).chain((0..16).flat_map(|k| [1u32 << k, (1 << k) - 1, 0xFFFF ^ 1 << k, 0x1234 ^ 1 << k])).chain([0xFFFF, 0x1234, 0x3412]).collect();
        shorts.sort();
        shorts.dedup();
        let mut words: Vec<u32> = gen::words().into_iter().chain((0..32).flat_map(|k| [1u32 << k, 0x1234_5678 ^ 1 << k])).chain(0..40).collect();
        words.sort();
        words.dedup();
        field(shorts.clone(), &|m, v| m.generator.version = v as u16, "generator version");
        field(shorts, &|m, v| m.generator.tool = match read_module(&to_bytes(&[0x0723_0203, 0x10000, v << 16, 1, 0], true), vec![]) { Ok(x) => x.generator.tool, Err(_) => panic!("no module") }, "generator tool");
        field(words, &|m, v| m.bound = v, "bound");
        field((0..256).collect(), &|m, v| m.version = Version(v as u8, 0), "major version");
        field((0..256).collect(), &|m, v| m.version = Version(1, v as u8), "minor version");
        // two fields together: sums, products or packings of them are not the fields
        const B: [u32; 18] = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 127, 128, 129, 254, 255];
        const S: [u32; 18] = [0, 1, 2, 3, 4, 9, 11, 13, 16, 17, 255, 256, 257, 0x7FFF, 0x8000, 0x0B00, 0xFFFE, 0xFFFF];
        let tool = |v: u32| match read_module(&to_bytes(&[0x0723_0203, 0x10000, v << 16, 1, 0], true), vec![]) {
            Ok(x) => x.generator.tool,
            Err(_) => panic!("no module"),
        };
        field((0..18 * 18).collect(), &|m, v| m.version = Version(B[v as usize / 18] as u8, B[v as usize % 18] as u8), "version");
        field((0..18 * 18).collect(), &|m, v| m.generator = Generator { tool: tool(S[v as usize / 18]), version: S[v as usize % 18] as u16 }, "generator");
        field((0..18 * 18).collect(), &|m, v| { m.bound = S[v as usize / 18]; m.generator.version = S[v as usize % 18] as u16 }, "bound and generator version");
        field((0..18 * 18).collect(), &|m, v| { m.bound = B[v as usize / 18]; m.version.1 = B[v as usize % 18] as u8 }, "bound and minor version");
        let mut ms: Vec<RawModule> = vec![];
        let tools = || {
            (0..14u32).map(|t| {
                let mut w = header(9);
                w[2] = t << 16 | 3;
                let b = to_bytes(&w, true);
                guard(|| read_module(&b, vec![]).ok()).ok().and_then(|m| m)
            })
        };
        for m in tools().flatten() {
            ms.push(m.clone());
            let mut x = m.clone();
            x.generator.version = 4;
            ms.push(x);
            let mut x = m.clone();
            x.bound = 10;
            ms.push(x);
            let mut x = m.clone();
            x.version = Version(1, 1);
            ms.push(x);
            let mut x = m;
            x.version = Version(0, 1);
            ms.push(x);
        }
        for (i, a) in ms.iter().enumerate() {
            ctx.sum_states += 1;
            let c = a.clone();
            eq_case(ctx, a, &c, true, &|| format!("{:?} and its copy", a));
            if (c.version.0, c.version.1, c.bound, c.generator.version, tool_code(&c.generator.tool)) != (a.version.0, a.version.1, a.bound, a.generator.version, tool_code(&a.generator.tool)) {
                ctx.fail(|| format!("{:?}", a), "the copy has another header");
            }
            for (j, b) in ms.iter().enumerate() {
                eq_case(ctx, a, b, i == j, &|| format!("{:?} and {:?}", a, b));
            }
        }
    });
    p.bound("pairs of modules that differ in one header field, each field over all pairs of 40 to 400 values, and in two fields over all pairs of 18 x 18 values");
    // logical modules: all accepted class sequences
    for part in 0..16usize {
        p.unit(format!("validated modules, part {}", part), move |ctx| {
            let mut ms: Vec<(LogicalModule, Vec<Inst>)> = vec![];
            let mut w = vec![];
            accepted(&mut w, tier.pick(6, 7), &mut |w: &[C]| {
                for shift in 0..2u32 {
                    let m = module(w.iter().enumerate().map(|(i, c)| rep(*c, i as u32 + shift * (i as u32 % 2))).collect());
                    if let Ok(Ok(l)) = guard(|| validate(m)) {
                        let f = c_valid::flatten(&l);
                        ms.push((l, f));
                    }
                }
            });
            for (i, (a, x)) in ms.iter().map(|m| (&m.0, &m.1)).enumerate() {
                if i % 16 != part {
                    continue;
                }
                ctx.sum_states += 1;
                let c = ctx.lib(|| clip(format!("{:?}", x)), || a.clone());
                if c_valid::flatten(&c) != *x {
                    ctx.fail(|| clip(format!("{:?}", x)), "the copy differs");
                    return;
                }
                eq_case(ctx, a, &c, true, &|| clip(format!("{:?} and its copy", x)));
                for (b, y) in ms.iter().map(|m| (&m.0, &m.1)) {
                    eq_case(ctx, a, b, x == y, &|| clip(format!("{:?}\nand\n{:?}", x, y)));
                }
            }
        });
    }
    p.bound(format!("all pairs of validated modules of up to {} instructions, in two numberings", tier.pick(6, 7)));
    for d in OPS {
        p.unit(format!("validated modules with {}", d.name), move |ctx| {
            let base = [C::Cap, C::Ext, C::Imp, C::Mm, C::Ep, C::Em, C::Dbg, C::Ann, C::Glob, C::Fn, C::Fp, C::Lbl, C::Code, C::Mrg, C::Br, C::Fe];
            let mut ms: Vec<(LogicalModule, Vec<Inst>)> = vec![];
            for i in gen::instances(d, false) {
                if let Some(c) = core_of(&i) {
                    let k = c_valid::class(&c.inst());
                    let v = base.iter().map(|b| if *b == k { c.clone() } else { rep(*b, 3) }).collect();
                    if let Ok(Ok(l)) = guard(|| validate(module(v))) {
                        let f = c_valid::flatten(&l);
                        ms.push((l, f));
                    }
                }
            }
            for (a, x) in &ms {
                ctx.sum_states += 1;
                let c = ctx.lib(|| clip(format!("{:?}", x)), || a.clone());
                if c_valid::flatten(&c) != *x {
                    ctx.fail(|| clip(format!("{:?}", x)), "the copy differs");
                    return;
                }
                for (b, y) in &ms {
                    eq_case(ctx, a, b, x == y, &|| clip(format!("{:?}\nand\n{:?}", x, y)));
                }
            }
        });
    }
    p.bound("pairs of validated modules that differ in one instruction, over all its instances");
    // trees
    for part in 0..16usize {
        p.unit(format!("trees, part {}", part), move |ctx| {
            let ids = c_cfa::ids();
            if (0..12).any(|l| !ids.contains_key(&l)) {
                return;
            }
            let mut ts: Vec<Vec<N>> = vec![];
            for n in 0..=tier.pick(3usize, 4) {
                c_cfa::trees(n, &mut |t| {
                    for h in [0u32, 1, 5] {
                        for base in [1u32, 2] {
                            let mut t = t.clone();
                            let mut next = base;
                            c_cfa::number(&mut t, &mut next, h);
                            if !ts.contains(&t) {
                                ts.push(t);
                            }
                        }
                    }
                });
            }
            // one field apart
            let w = [None, Some((1, 2)), Some((2, 1)), Some((1, 1))];
            for sc in 0..4 {
                for x in w {
                    ts.push(vec![N::Sel(1, vec![], vec![], sc, x)]);
                    for m in 0..16 {
                        for d in [0u32, 1] {
                            if m & 8 != 0 || d == 0 {
                                ts.push(vec![N::Loop(1, vec![], (m, d), x)]);
                            }
                        }
                    }
                }
            }
            let mut seen = std::collections::HashSet::new();
            ts.retain(|t| seen.insert(t.clone()));
            let cs: Vec<ControlFlowChain> = ts.iter().map(|t| c_cfa::chain_of(t, &ids)).collect();
            for (i, a) in cs.iter().enumerate() {
                if i % 16 != part {
                    continue;
                }
                ctx.sum_states += 1;
                let again = c_cfa::chain_of(&ts[i], &ids);
                eq_case(ctx, a, &again, true, &|| format!("{:?} twice", ts[i]));
                for (j, b) in cs.iter().enumerate() {
                    eq_case(ctx, a, b, i == j, &|| format!("{:?} and {:?}", ts[i], ts[j]));
                }
            }
            // the same blocks in other groups
            let b = |v: Vec<ControlFlowChain>| ControlFlowChain::Block(v);
            let a = |l: u32| ControlFlowChain::Atom(ids[&l]);
            let groups = || vec![a(1), b(vec![a(1)]), b(vec![b(vec![a(1)])]), b(vec![]), b(vec![b(vec![])]), b(vec![a(1), b(vec![])]), b(vec![b(vec![]), a(1)]), b(vec![a(1), a(2)]), b(vec![b(vec![a(1)]), a(2)]), b(vec![a(1), b(vec![a(2)])]), b(vec![b(vec![a(1), a(2)])])];
            for (i, x) in groups().iter().enumerate() {
                for (j, y) in groups().iter().enumerate() {
                    eq_case(ctx, x, y, i == j, &|| format!("{:?} and {:?}", x, y));
                }
            }
            for (l, a) in &ids {
                for (m, b) in &ids {
                    eq_case(ctx, a, b, l == m, &|| format!("block ids %{} and %{}", l, m));
                }
            }
        });
    }
    p.bound("all pairs of recovered control flow trees of up to 3 nodes with different labels, hints and weights");
    p
}

/// All accepted sequences of instruction classes up to a length
fn accepted(w: &mut Vec<C>, left: usize, f: &mut dyn FnMut(&[C])) {
    if matches!(c_valid::layout(w), c_valid::Verdict::Accept) {
        f(w);
    }
    if left == 0 {
        return;
    }
    for c in c_valid::ALL {
        w.push(c);
        // prune: a dead prefix stays dead
        if c_valid::auto(w) != 99 {
            accepted(w, left - 1, f);
        }
        w.pop();
    }
}

/// What the message of an error has to speak of, by the name of its kind
const MESSAGES: &[(&str, &[&str])] = &[
    ("UnexpectedEndOfStream", &["end", "stream"]),
    ("UnexpectedStreamAlignment", &["stream", "aligned"]),
    ("BadMagic", &["magic"]),
    ("UnknownVersionBytes", &["unknown", "version", "bytes"]),
    ("UnknownVersion", &["unknown", "version"]),
    ("UnknownReservedSchema", &["unknown", "schema"]),
    ("UnknownOp", &["unknown", "op"]),
    ("UnimplementedOp", &["unimplemented", "op"]),
    ("WrongWordCountForOp", &["word", "count"]),
    ("InvalidString", &["invalid", "string"]),
    ("UnexpectedEndOfInstruction", &["instruction", "enough"]),
    ("InstructionHadExcessData", &["instruction", "require", "all"]),
    ("UnknownInstSet", &["unknown", "instruction", "set"]),
    ("UnknownInstSetId", &["unknown", "instruction", "set", "referenced"]),
    ("UnknownExtInstOp", &["unknown", "op", "extended", "instruction", "set"]),
    ("DuplicateResultId", &["duplicate", "id"]),
    ("UnknownAddressingModel", &["unknown", "addressing"]),
    ("UnknownMemoryModel", &["unknown", "memory", "model"]),
    ("UnknownExecutionModel", &["unknown", "execution", "model"]),
    ("UnknownExecutionMode", &["unknown", "execution", "mode"]),
    ("UnknownCapability", &["unknown", "capability"]),
    ("UnknownDecoration", &["unknown", "decoration"]),
    ("UnknownBuiltIn", &["unknown", "built", "in"]),
    ("UnknownFpRoundingMode", &["unknown", "rounding"]),
    ("UnknownFpFastMathMode", &["unknown", "fast", "math"]),
    ("UnknownLinkageType", &["unknown", "linkage"]),
    ("UnknownSignedness", &["unknown", "signedness"]),
    ("UnknownStorageClass", &["unknown", "storage"]),
    ("UnknownFunctionParameterAttribute", &["unknown", "parameter", "attribute"]),
    ("UnknownFunctionControl", &["unknown", "function", "control"]),
    ("UnknownMemoryAccess", &["unknown", "memory", "access"]),
    ("UnknownDim", &["unknown", "dimension"]),
    ("UnknownDepthStatus", &["unknown", "depth"]),
    ("UnknownArrayed", &["unknown", "arrayed"]),
    ("UnknownMS", &["unknown", "multisampled"]),
    ("UnknownSampledStatus", &["unknown", "sampled"]),
    ("UnknownImageFormat", &["unknown", "image", "format"]),
    ("UnknownAccessQualifier", &["unknown", "access", "qualifier"]),
    ("UnknownLoopControl", &["unknown", "loop", "control"]),
    ("UnknownSelectionControl", &["unknown", "selection", "control"]),
];

fn kind_of(e: &ReadError) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

#[allow(deprecated)]
fn message_case(ctx: &mut Ctx, e: &ReadError, first: &mut std::collections::HashMap<String, String>) {
    use std::error::Error;
    let desc = || format!("{:?}", e);
    if !ctx.begin(desc) {
        return;
    }
    let (text, plain, boxed) = ctx.lib(desc, || {
        let b: &dyn Error = e;
        (e.to_string(), b.description().to_string(), format!("{}", b))
    });
    ctx.sum_states += 1;
    ctx.sum_trans += 2;
    let kind = kind_of(e);
    let words = match MESSAGES.iter().find(|m| m.0 == kind) {
        Some(m) => m.1,
        None => {
            ctx.fail(desc, format!("no error kind {} is known", kind));
            return;
        }
    };
    let said: Vec<String> = text.split(|c: char| !c.is_alphanumeric()).map(|w| w.to_lowercase()).collect();
    if let Some(w) = words.iter().find(|w| !said.iter().any(|s| s == *w)) {
        ctx.fail(desc, format!("the message {:?} does not say {:?}", text, w));
        return;
    }
    if text.lines().count() != 1 || text.trim() != text {
        ctx.fail(desc, format!("the message {:?} is not one line", text));
        return;
    }
    if !text.contains(&plain) || plain.is_empty() || boxed != text {
        ctx.fail(desc, format!("the message {:?} and the description {:?} differ", text, plain));
        return;
    }
    // no other kind has this message
    let k = first.entry(text.clone()).or_insert_with(|| kind.clone()).clone();
    if k != kind {
        ctx.fail(desc, format!("{} has the message of {}: {:?}", kind, k, text));
        return;
    }
    ctx.ok("message tells the fault");
    ctx.sample(|| format!("{:?} -> {}", e, text));
}

/// Messages of errors (C20)
pub fn c20(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a message tells a fault if it has the words for it that are listed in the reference, in any order and with any others");
    p.unit("all kinds of errors", |ctx| {
        let mut first = Default::default();
        let all = error_values();
        for e in &all {
            message_case(ctx, e, &mut first);
        }
        let kinds: std::collections::HashSet<String> = all.iter().map(kind_of).collect();
        ctx.begin(|| "kinds".into());
        match MESSAGES.iter().find(|m| !kinds.contains(m.0)) {
            Some(m) => ctx.fail(|| "kinds".into(), format!("no error of kind {} was tried", m.0)),
            None => ctx.ok("all kinds tried"),
        }
    });
    p.bound("all 40 kinds of errors with what they carry over ~200 values");
    // errors as they come from reading
    for part in 0..16u32 {
        p.unit(format!("errors of opcodes, part {}", part), move |ctx| {
            let mut first = Default::default();
            for op in (part * 4096)..((part + 1) * 4096) {
                for wc in 0..tier.pick(6u32, 12) {
                    let mut w = header(9);
                    w.push(wc << 16 | op);
                    for k in 1..wc {
                        w.push(k + 40);
                    }
                    let b = to_bytes(&w, true);
                    if let Ok(Err(e)) = guard(|| read_module(&b, glsl())) {
                        message_case(ctx, &e, &mut first);
                    }
                }
            }
        });
    }
    p.bound(format!("the errors of all 65536 opcodes with word counts 0..{}", tier.pick(6, 12)));
    p.unit("errors of damaged modules", move |ctx| {
        let mut first = Default::default();
        for d in OPS.iter().filter(|d| d.readable) {
            for i in gen::instances(d, false).into_iter().take(tier.pick(60, 600)) {
                let mut v = gen::prefix(&i);
                v.push(i);
                let w = module_words(&v);
                for at in 0..w.len() {
                    for x in [0u32, 1, 0xFFFF_FFFF, 0x0001_0000, 77] {
                        let mut y = w.clone();
                        y[at] = x;
                        let b = to_bytes(&y, true);
                        for cut in [0usize, 1, 4] {
                            if let Ok(Err(e)) = guard(|| read_module(&b[..b.len() - cut], glsl())) {
                                message_case(ctx, &e, &mut first);
                            }
                        }
                    }
                }
            }
        }
    });
    p.bound("the errors of instances of all instructions with each word replaced by 5 others, whole and cut");
    p
}
