//! Printing to writers that fail (C22) and memory use (C23)

use crate::c_cfa;
use crate::c_dis::module;
use crate::c_misc::error_values;
use crate::c_read::{clip, hex};
use crate::c_valid::{self, rep, C};
use crate::cfg::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::c_dis::core_of;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Display, Write};

// ---------------------------------------------------------------- writers that fail

/// Fails at one call and works again after that
struct Failing {
    at: usize,
    calls: usize,
    text: String,
    late: usize,
}

impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if n == self.at {
            return Err(fmt::Error);
        }
        if n > self.at {
            self.late += 1;
        } else {
            self.text.push_str(s);
        }
        Ok(())
    }
}

fn fail_case(ctx: &mut Ctx, x: &dyn Display, what: &dyn Fn() -> String) {
    let full = ctx.lib(what, || {
        let mut w = Failing { at: usize::MAX, calls: 0, text: String::new(), late: 0 };
        let r = write!(w, "{}", x);
        (r, w)
    });
    if full.0.is_err() {
        ctx.begin(what);
        ctx.fail(what, "printing fails although the writer does not");
        return;
    }
    let full = full.1;
    for at in 0..full.calls {
        let desc = || format!("{}, write {} of {} fails", what(), at + 1, full.calls);
        if !ctx.begin(desc) {
            continue;
        }
        let (r, w) = ctx.lib(desc, || {
            let mut w = Failing { at, calls: 0, text: String::new(), late: 0 };
            let r = write!(w, "{}", x);
            (r, w)
        });
        ctx.sum_states += 1;
        ctx.sum_trans += w.calls as u64;
        if r.is_ok() {
            ctx.fail(desc, clip(format!("printing reports success; written: {:?}", w.text)));
            return;
        }
        if w.late > 0 {
            ctx.fail(desc, clip(format!("printing goes on after the failure ({} writes)", w.late)));
            return;
        }
        if !full.text.starts_with(&w.text) {
            ctx.fail(desc, clip(format!("written {:?}, no beginning of {:?}", w.text, full.text)));
            return;
        }
        ctx.ok("failure reported");
        ctx.sample(desc);
    }
    if full.calls == 0 {
        ctx.begin(what);
        ctx.ok("nothing written");
    }
}

/// An instruction of the caller that cannot be printed
#[derive(Clone, Debug, PartialEq)]
struct Mute(COp);

impl Display for Mute {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Mute")?;
        Err(fmt::Error)
    }
}

impl ExtInst for Mute {
    fn get_op(&self) -> &dyn Op {
        &self.0
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn eq(&self, _: &dyn ExtInst) -> bool {
        true
    }
}

struct MuteSet;

impl ExtInstSet for MuteSet {
    fn get_name(&self) -> &'static str {
        "GLSL.std.450"
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        Ok((block, Box::new(Mute(COp { name: "Mute" }))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(MuteSet)
    }
}

/// Writers that fail (C22)
pub fn c22(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("the writer fails at one of its calls and takes nothing of what that call was given; a later call would succeed");
    for d in OPS {
        p.unit(format!("instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, tier == Tier::Thorough) {
                if let Some(c) = core_of(&i) {
                    fail_case(ctx, &c, &|| clip(format!("{:?}", i)));
                    if let Some(g) = c_cfa::group_code(c) {
                        fail_case(ctx, &g, &|| clip(format!("{:?} as code", i)));
                    }
                }
            }
        });
    }
    p.bound("every instruction in all operand shapes, as instruction and as code of a block: each write fails");
    p.unit("modules", move |ctx| {
        for d in OPS {
            for i in gen::instances(d, false).into_iter().take(tier.pick(4, 40)) {
                if let Some(c) = core_of(&i) {
                    let nop = core_of(&Inst { op: 0, vals: vec![] }).unwrap();
                    let m = module(vec![rep(C::Mm, 0), c.clone(), nop.clone(), c.clone(), rep(C::Lbl, 3)]);
                    fail_case(ctx, &m, &|| clip(format!("a module with {:?}", i)));
                }
            }
        }
        for g in (0..20u32).chain([0xFFFF, 0x10000, 0x0008_0001, 0x000B_FFFF]) {
            let mut w = header(9);
            w[2] = g << 16 | 7;
            for bound in [0, 1, u32::MAX] {
                w[3] = bound;
                let b = to_bytes(&w, true);
                if let Ok(Ok(m)) = guard(|| read_module(&b, glsl())) {
                    fail_case(ctx, &m, &|| format!("header with generator {} and bound {}", g, bound));
                }
            }
        }
        for n in 0..40 {
            let m = module((0..n).map(|k| rep(C::Lbl, k)).collect());
            fail_case(ctx, &m, &|| format!("a module of {} labels", n));
        }
    });
    p.bound("modules with each instruction, with 24 generators and with up to 39 instructions: each write fails");
    p.unit("errors", |ctx| {
        for e in error_values() {
            fail_case(ctx, &e, &|| format!("{:?}", e));
        }
    });
    p.bound("every error value: each write fails");
    for n in 0..=tier.pick(5usize, 6) {
        for part in 0..8usize {
            p.unit(format!("structures of {} blocks, part {}", n, part), move |ctx| {
                let all = c_cfa::all_code_cached();
                let g = Programs::new(n);
                for i in (part as u64..g.len(n) as u64).step_by(8) {
                    let (mut bs, _) = emit(&g.get(n, false, i as _), &mut Plain);
                    c_cfa::decorate(&mut bs);
                    let f = c_cfa::with_code(&bs, &all);
                    if let Ok(Ok(c)) = guard(|| find_control_flow(f.clone())) {
                        fail_case(ctx, &c, &|| format!("structure of {}", show(&bs)));
                        fail_case(ctx, &ControlFlowFunctionPrinter(&f, &c), &|| format!("function {}", show(&bs)));
                    }
                }
            });
        }
    }
    p.bound(format!("structures and functions of all structured programs of up to {} blocks: each write fails", tier.pick(5, 6)));
    for n in 0..=tier.pick(3usize, 4) {
        p.unit(format!("arbitrary trees of {} nodes", n), move |ctx| {
            let ids = c_cfa::ids();
            let mut todo = vec![];
            c_cfa::trees(n, &mut |t| todo.push(t));
            for mut t in todo {
                for h in [0u32, 9, 63] {
                    let mut next = 1;
                    c_cfa::number(&mut t, &mut next, h);
                    if (1..next).any(|l| !ids.contains_key(&l)) {
                        continue;
                    }
                    let c = c_cfa::chain_of(&t, &ids);
                    let mut bs = vec![];
                    c_cfa::blocks_of(&t, &mut bs);
                    let f = func(&bs);
                    fail_case(ctx, &c, &|| format!("{:?}", t));
                    fail_case(ctx, &ControlFlowFunctionPrinter(&f, &c), &|| format!("function with {:?}", t));
                }
            }
        });
    }
    p.bound(format!("all trees of up to {} nodes: each write fails", tier.pick(3, 4)));
    p.unit("instructions of the caller that cannot be printed", |ctx| {
        let mut w = header(9);
        let mut imp = vec![5];
        str_words(b"GLSL.std.450", &mut imp);
        w.push(((imp.len() + 1) as u32) << 16 | 11);
        w.extend(imp);
        for before in 0..4 {
            for after in 0..4 {
                let desc = || format!("an extended instruction that cannot be printed, with {} instructions before and {} after it", before, after);
                if !ctx.begin(desc) {
                    continue;
                }
                let mut w = w.clone();
                w.extend(vec![1 << 16; before]);
                w.extend([5 << 16 | 12, 1, 2, 5, 3]);
                w.extend(vec![1 << 16; after]);
                let b = to_bytes(&w, true);
                let r = ctx.lib(desc, || {
                    let m = match read_module(&b, vec![Box::new(MuteSet)]) {
                        Ok(m) => m,
                        Err(_) => return None,
                    };
                    let mut w = Failing { at: usize::MAX, calls: 0, text: String::new(), late: 0 };
                    Some((write!(w, "{}", m).is_err(), w.text.ends_with("Mute")))
                });
                match r {
                    Some((true, true)) => ctx.ok("failure reported"),
                    r => {
                        ctx.fail(desc, format!("(error, nothing after it) is {:?}", r));
                        return;
                    }
                }
                ctx.sum_states += 1;
                ctx.sum_trans += 1;
            }
        }
    });
    p.bound("an extended instruction whose own text fails, among up to 3 others on either side");
    p
}

// ---------------------------------------------------------------- memory

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}

fn count(more: i64, less: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + more - less;
        l.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n);
            }
        });
    });
    if more > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + more));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, l.size() as i64);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64, l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// The answer, the most memory held at a time and all memory asked for
fn heap<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let total = TOTAL.with(|t| t.get());
    let r = f();
    (r, PEAK.with(|p| p.get()) - base, TOTAL.with(|t| t.get()) - total)
}

/// Takes text and keeps nothing
struct Sink(usize);

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Bytes allowed for each byte of input, and whatever the input
const PER_BYTE: i64 = 512;
const FIXED: i64 = 1 << 20;

fn limit(ctx: &mut Ctx, desc: &dyn Fn() -> String, what: &str, size: usize, peak: i64, total: i64, sizes: i64) -> bool {
    let max = FIXED + PER_BYTE * size as i64;
    if std::env::var_os("MF_RATIO").is_some() && (peak - 1024) / (size as i64 + 1) > 150 {
        println!("{} {} size {} peak {} total {}", what, desc(), size, peak, total);
    }
    if peak > max {
        ctx.fail(desc, format!("{} an input of {} bytes takes {} bytes of memory (limit {})", what, size, peak, max));
        return false;
    }
    if total > sizes * max {
        ctx.fail(desc, format!("{} an input of {} bytes asks for {} bytes of memory in all (limit {})", what, size, total, sizes * max));
        return false;
    }
    true
}

fn memory_case(ctx: &mut Ctx, b: &[u8]) {
    let desc = || hex(&b[..b.len().min(300)]);
    if !ctx.begin(desc) {
        return;
    }
    ctx.sum_states += 1;
    ctx.sum_trans += 1;
    let (r, peak, total) = ctx.lib(desc, || heap(|| read_module(b, glsl())));
    if !limit(ctx, &desc, "reading", b.len(), peak, total, 4) {
        return;
    }
    let m = match r {
        Ok(m) => m,
        Err(_) => {
            ctx.ok("rejected within the limit");
            return;
        }
    };
    let mut s = Sink(0);
    let (_, peak, total) = ctx.lib(desc, || heap(|| write!(s, "{}", m)));
    if !limit(ctx, &desc, "printing", b.len(), peak, total, 16) {
        return;
    }
    let (c, peak, total) = ctx.lib(desc, || heap(|| m.clone()));
    if !limit(ctx, &desc, "copying", b.len(), peak, total, 4) {
        return;
    }
    drop(c);
    let (r, peak, total) = ctx.lib(desc, || heap(|| validate(m)));
    if !limit(ctx, &desc, "validating", b.len(), peak, total, 8) {
        return;
    }
    drop(r);
    ctx.ok("read, printed, copied and validated within the limit");
    ctx.sample(desc);
}

fn damaged(w: &[u32], start: usize, f: &mut dyn FnMut(&[u32])) {
    f(w);
    for at in start..w.len() {
        for x in [0u32, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x00FF_FFFF, 0xFFFF_0000 | w[at] & 0xFFFF, 0x7FFF_0000 | w[at] & 0xFFFF, 0x0100_0000, w[at] ^ 0xFF00_0000] {
            if x != w[at] {
                let mut y = w.to_vec();
                y[at] = x;
                f(&y);
            }
        }
    }
}

/// Memory (C23)
pub fn c23(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume(&format!("the limit is {} bytes and {} bytes for each byte of input held at a time, and a small multiple of that asked for in all (reading and copying 4, validating 8, printing 16)", FIXED, PER_BYTE));
    p.unit("headers", |ctx| {
        for at in 0..5 {
            for x in gen::words().into_iter().chain(0..3000).chain((0..32).map(|k| u32::MAX >> k)) {
                for le in [true, false] {
                    for tail in [vec![], vec![1u32 << 16], vec![2 << 16 | 248, 5]] {
                        let mut w = header(9);
                        w[at] = x;
                        w.extend(tail);
                        memory_case(ctx, &to_bytes(&w, le));
                    }
                }
            }
        }
    });
    p.bound("each header word over ~3100 values (all magnitudes), both byte orders, 3 modules");
    for d in OPS {
        p.unit(format!("instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, tier == Tier::Thorough) {
                let mut v = gen::prefix(&i);
                let start = module_words(&v).len();
                v.push(i);
                let mut w = module_words(&v);
                memory_case(ctx, &to_bytes(&w, true));
                w[3] = u32::MAX;
                damaged(&w, start, &mut |w| memory_case(ctx, &to_bytes(w, true)));
            }
        });
    }
    p.bound("every instruction in all operand shapes, and with each word replaced by 9 others (huge values, huge word counts)");
    for part in 0..8u32 {
        p.unit(format!("word counts, part {}", part), move |ctx| {
            for op in OPS.iter().map(|d| d.code).chain([8, 1, 9999, 65535]) {
                for wc in (part..65536).step_by(tier.pick(8 * 61, 8)).chain([65535, 65534, 32768]) {
                    for fill in [0u32, 1, 0x6161_6161] {
                        let mut w = header(9);
                        w.push(wc << 16 | op as u32);
                        w.extend([fill; 3]);
                        memory_case(ctx, &to_bytes(&w, true));
                    }
                }
            }
        });
    }
    p.bound(format!("every opcode of the library with {} word counts of all magnitudes in front of 3 words", tier.pick("1100", "all")));
    let sizes: Vec<usize> = tier.pick(vec![1, 10, 100, 1000, 10_000, 100_000], vec![1, 3, 10, 30, 100, 300, 1000, 3000, 10_000, 30_000, 100_000, 300_000, 1_000_000]);
    for (k, n) in sizes.into_iter().enumerate() {
        p.unit(format!("large modules {}", k), move |ctx| {
            for d in OPS {
                let i = gen::base_inst(d);
                if d.code == 11 && n > 1 {
                    continue;
                }
                let mut v = gen::prefix(&i);
                let reps = n.min(if d.code == 12 { 10_000 } else { n }) / if n >= 10_000 { 1 + enc_len(&i) } else { 1 };
                for _ in 0..reps {
                    v.push(i.clone());
                }
                memory_case(ctx, &to_bytes(&module_words(&v), true));
            }
            // whole modules
            for w in [
                vec![C::Fn, C::Lbl, C::Code, C::Br, C::Fe],
                vec![C::Lbl, C::Br],
                vec![C::Lbl, C::Mrg, C::Br],
                vec![C::Code],
                vec![C::Fn, C::Fe],
                vec![C::Fn, C::Fp, C::Fp, C::Fe],
            ] {
                let mut v: Vec<Inst> = vec![rep(C::Mm, 0).inst()];
                let inside = !matches!(w[0], C::Fn);
                if inside {
                    v.push(rep(C::Fn, 1).inst());
                }
                if w[0] == C::Code {
                    v.push(rep(C::Lbl, 2).inst());
                }
                for k in 0..n {
                    v.push(rep(w[k % w.len()], k as u32 + 3).inst());
                }
                if inside {
                    if w[0] == C::Code {
                        v.push(rep(C::Br, 0).inst());
                    }
                    v.push(rep(C::Fe, 0).inst());
                }
                memory_case(ctx, &to_bytes(&module_words(&v), true));
            }
        });
    }
    p.bound(format!("modules of one instruction repeated, of one function with many blocks or much code, and of many functions, of up to {} instructions", tier.pick(100_000, 1_000_000)));
    p.unit("whole modules with large ids", |ctx| {
        let full = c_valid::complete_module();
        let mut ws: Vec<Vec<C>> = (0..=full.len()).map(|n| full[..n].to_vec()).collect();
        for a in c_valid::ALL {
            for b in c_valid::ALL {
                for c in c_valid::ALL {
                    ws.push(vec![C::Mm, a, b, c]);
                    ws.push(vec![C::Mm, C::Fn, C::Lbl, a, b, c]);
                }
            }
        }
        for w in ws {
            for n in [0u32, 1000, 0x00FF_0000, 0x7FFF_FF00, 0xFFFF_FF00] {
                let insts: Vec<Inst> = w.iter().enumerate().map(|(k, c)| rep(*c, n + k as u32).inst()).collect();
                let mut words = module_words(&insts);
                words[3] = n;
                memory_case(ctx, &to_bytes(&words, true));
            }
        }
    });
    p.bound("a complete module, all its beginnings and all combinations of three instruction classes in it, with ids and bound of 5 magnitudes");
    p.unit("long instructions", |ctx| {
        for d in OPS {
            for n in [10usize, 100, 1000, 10_000, 60_000] {
                let mut i = gen::base_inst(d);
                let mut any = false;
                for v in &mut i.vals {
                    match v {
                        V::Str(s) if d.code != 11 => {
                            *s = "x".repeat(n * 4);
                            any = true;
                        }
                        V::List(l) if !l.is_empty() => {
                            let x = l[0].clone();
                            *l = vec![x; n / 2];
                            any = true;
                        }
                        _ => {}
                    }
                }
                let words: usize = i.vals.iter().map(|v| match v { V::Str(s) => s.len() / 4 + 1, V::List(l) => l.len() * 2, _ => 8 }).sum();
                if any && words < 65000 {
                    let mut v = gen::prefix(&i);
                    v.push(i);
                    let w = module_words(&v);
                    memory_case(ctx, &to_bytes(&w, true));
                    let mut w = w;
                    w.truncate(w.len() - 1);
                    memory_case(ctx, &to_bytes(&w, true));
                }
            }
        }
    });
    p.bound("strings and lists of up to 60000 words, whole and cut");
    p.unit("small streams", move |ctx| {
        let alpha = [0u32, 1 << 16, 0xFFFF_0000, 2 << 16 | 248, 0xFFFF_0000 | 248, 0xFFFF_0005, 3 << 16 | 5, 0xFFFF_FFFF, 0x8000_001E, 4 << 16 | 11];
        let mut stack: Vec<Vec<u32>> = vec![vec![]];
        while let Some(w) = stack.pop() {
            let mut h = header(0xFFFF_FFFF);
            h.extend(&w);
            memory_case(ctx, &to_bytes(&h, true));
            if w.len() < tier.pick(4, 6) {
                for a in alpha {
                    let mut x = w.clone();
                    x.push(a);
                    stack.push(x);
                }
            }
        }
    });
    p.bound(format!("all streams of up to {} words over 10 awkward words", tier.pick(4, 6)));
    // recovering structured functions
    for n in 0..=tier.pick(6usize, 7) {
        p.unit(format!("structured functions of {} blocks", n), move |ctx| {
            let g = Programs::new(n);
            for i in 0..g.len(n) {
                let (mut bs, _) = emit(&g.get(n, false, i), &mut Plain);
                c_cfa::decorate(&mut bs);
                recover_case(ctx, &bs);
                for m in c_cfa::label_maps() {
                    recover_case(ctx, &rename(&bs, &m));
                }
            }
        });
    }
    p.unit("large structured functions", move |ctx| {
        for n in [10usize, 100, 1000, tier.pick(5000, 20_000)] {
            for c in [A::Atom, A::Sel(vec![A::Atom], vec![A::Atom]), A::Loop(vec![A::Atom]), A::Loop(vec![A::BreakIf(vec![A::Atom]), A::ContIf(vec![])])] {
                let (bs, _) = emit(&vec![c.clone(); n], &mut Plain);
                recover_case(ctx, &bs);
                let (bs, _) = emit(&[A::Loop(vec![c.clone(); n])], &mut Plain);
                recover_case(ctx, &bs);
            }
            let d = n.min(200);
            for kind in 0..3 {
                let mut s = vec![A::Atom];
                for k in 0..d {
                    s = match (kind, k % 2) {
                        (0, _) | (2, 0) => vec![A::Sel(s, vec![A::Atom])],
                        _ => vec![A::Loop(s)],
                    };
                }
                let (bs, _) = emit(&s, &mut Plain);
                recover_case(ctx, &bs);
                for m in c_cfa::label_maps() {
                    recover_case(ctx, &rename(&bs, &m));
                }
            }
        }
    });
    p.unit("deep structured functions", move |ctx| {
        for depth in [500usize, 1500, tier.pick(3000, 6000)] {
            for kind in 0..4 {
                deep_case(ctx, depth, kind);
            }
        }
    });
    p.bound(format!("nests of 500 to {} selections, loops, both, and loops with exits", tier.pick(3000, 6000)));
    p.bound(format!("recovering and printing all structured functions of up to {} blocks, sequences of up to {} constructs and nests of up to 200, with small and large labels", tier.pick(6, 7), tier.pick(5000, 20_000)));
    let _ = c_valid::ALL;
    p
}

fn enc_len(i: &Inst) -> usize {
    let mut w = vec![];
    enc_inst(i, &mut w);
    w.len()
}

/// A nest too deep for the stacks of the workers
fn deep_case(ctx: &mut Ctx, depth: usize, kind: usize) {
    let desc = || format!("nest of {} constructs of kind {}", depth, kind);
    if !ctx.begin(desc) {
        return;
    }
    ctx.sum_states += 1;
    ctx.sum_trans += 1;
    let measured = ctx.lib(desc, || {
        let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut s = vec![A::Atom];
            for k in 0..depth {
                s = match (kind, k % 2) {
                    (0, _) | (2, 0) => vec![A::Sel(s, vec![A::Atom])],
                    (3, 0) => vec![A::Loop(vec![A::BreakIf(s)])],
                    _ => vec![A::Loop(s)],
                };
            }
            let (bs, _) = emit(&s, &mut Plain);
            let f = func(&bs);
            let (r, peak, total) = heap(|| find_control_flow(f.clone()));
            let c = match r {
                Ok(c) => c,
                Err(_) => return (bs.len(), peak, total, None),
            };
            let mut s = Sink(0);
            let (_, ppeak, ptotal) = heap(|| write!(s, "{}{}", c, ControlFlowFunctionPrinter(&f, &c)));
            (bs.len(), peak, total, Some((ppeak, ptotal)))
        });
        t.unwrap().join().unwrap()
    });
    let (blocks, peak, total, printed) = measured;
    if !limit(ctx, &desc, "recovering", 32 * blocks, peak, total, 16) {
        return;
    }
    if let Some((peak, total)) = printed {
        if !limit(ctx, &desc, "printing", 32 * blocks, peak, total, 16) {
            return;
        }
    }
    ctx.ok("recovered within the limit");
}

fn recover_case(ctx: &mut Ctx, bs: &[B]) {
    let desc = || clip(show(bs));
    if !ctx.begin(desc) {
        return;
    }
    ctx.sum_states += 1;
    ctx.sum_trans += 1;
    let f = func(bs);
    let size = 32 * bs.len();
    let (r, peak, total) = ctx.lib(desc, || heap(|| find_control_flow(f.clone())));
    if !limit(ctx, &desc, "recovering", size, peak, total, 16) {
        return;
    }
    if let Ok(c) = r {
        let mut s = Sink(0);
        let (_, peak, total) = ctx.lib(desc, || heap(|| write!(s, "{}{}", c, ControlFlowFunctionPrinter(&f, &c))));
        if !limit(ctx, &desc, "printing", size, peak, total, 16) {
            return;
        }
    }
    ctx.ok("recovered within the limit");
}
