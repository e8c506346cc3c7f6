//! Disassembly (C10): the text of every instruction and module, compared token by token with
//! the reference disassembler, and checked to be injective.

use crate::c_read::{clip, hex};
use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{read_module, Core, RawModule};
use magmaflow::spv::types::*;
use std::collections::HashMap;

/// Tokens of a text: words, quoted strings (verbatim, one token each) and line ends
pub fn tokens(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\n' => {
                out.push(&s[i..i + 1]);
                i += 1;
            }
            b' ' | b'\t' => i += 1,
            _ => {
                let st = i;
                let mut quoted = false;
                while i < b.len() {
                    match b[i] {
                        b'"' => quoted = !quoted,
                        b'\\' if quoted => i += 1,
                        b'\n' | b' ' | b'\t' if !quoted => break,
                        _ => {}
                    }
                    i += 1;
                }
                out.push(&s[st..i.min(b.len())]);
                i = i.min(b.len());
            }
        }
    }
    out
}

pub fn same_text(a: &str, b: &str) -> bool {
    a == b || tokens(a) == tokens(b)
}

fn access(v: &V) -> AccessQualifier {
    match *v {
        V::En(_, 0, _) => AccessQualifier::ReadOnly,
        V::En(_, 1, _) => AccessQualifier::WriteOnly,
        _ => AccessQualifier::ReadWrite,
    }
}

pub fn storage(c: u32) -> StorageClass {
    match c {
        0 => StorageClass::UniformConstant,
        1 => StorageClass::Input,
        2 => StorageClass::Uniform,
        3 => StorageClass::Output,
        4 => StorageClass::Workgroup,
        5 => StorageClass::CrossWorkgroup,
        6 => StorageClass::Private,
        7 => StorageClass::Function,
        8 => StorageClass::Generic,
        9 => StorageClass::PushConstant,
        10 => StorageClass::AtomicCounter,
        _ => StorageClass::Image,
    }
}

/// The library's instruction for an instance: through the reader where the reader produces it,
/// otherwise built from its public fields. None when the reader refuses it.
pub fn core_of(i: &Inst) -> Option<Core> {
    let rid = |v: &V| match *v {
        V::Id(n) => ResultId(n),
        _ => ResultId(0),
    };
    Some(match i.op {
        34 => Core::OpTypeEvent(OpTypeEvent { result_id: rid(&i.vals[0]) }),
        35 => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: rid(&i.vals[0]) }),
        37 => Core::OpTypeQueue(OpTypeQueue { result_id: rid(&i.vals[0]) }),
        38 => Core::OpTypePipe(OpTypePipe { result_id: rid(&i.vals[0]), access_qualifier: access(&i.vals[1]) }),
        39 => Core::OpTypeForwardPointer(OpTypeForwardPointer {
            pointer_type: OpId(rid(&i.vals[0]).0),
            storage_class: match i.vals[1] {
                V::En(_, c, _) => storage(c),
                _ => StorageClass::Generic,
            },
        }),
        11 => Core::OpExtInstImport(OpExtInstImport {
            result_id: rid(&i.vals[0]),
            name: match i.vals[1] {
                V::Str(ref s) => s.clone(),
                _ => String::new(),
            },
        }),
        _ => {
            let mut v = gen::prefix(i);
            v.push(i.clone());
            let b = to_bytes(&module_words(&v), true);
            return guard(|| read_module(&b, glsl()).ok().and_then(|mut m| m.instructions.pop())).ok().and_then(|x| x);
        }
    })
}

pub fn module(insts: Vec<Core>) -> RawModule {
    RawModule { version: Version(1, 0), generator: Generator { tool: Tool::KhronosReserved, version: 0 }, bound: 1000, instructions: insts }
}

fn text_case(ctx: &mut Ctx, want: &Inst, seen: &mut HashMap<u64, u64>) {
    if !ctx.begin(|| format!("{:?}", want)) {
        return;
    }
    let core = match core_of(want) {
        Some(c) => c,
        None => {
            ctx.ok("not readable");
            return;
        }
    };
    // the reference text of what the instruction holds
    let inst = core.inst();
    let desc = || clip(format!("{:?}", inst));
    let text = ctx.lib(desc, || core.to_string());
    let exp = inst_text(&inst);
    if !same_text(&text, &exp) {
        ctx.fail(desc, clip(format!("text is     {:?}\nexpected is {:?}", text, exp)));
        return;
    }
    // injective: one text, one instruction
    let th = hash_str(&tokens(&text).join("\u{0}"));
    let ih = hash_str(&format!("{:?}", inst));
    if let Some(o) = seen.insert(th, ih) {
        if o != ih {
            ctx.fail(desc, clip(format!("another instruction has the same text {:?}", text)));
        }
    }
    ctx.ok("text matches");
    ctx.sum_states += 1;
    ctx.sum_trans += inst.vals.len() as u64;
    ctx.sample(|| text.clone());
}

fn module_case(ctx: &mut Ctx, m: &RawModule, desc: &dyn Fn() -> String) {
    if !ctx.begin(desc) {
        return;
    }
    let model = match module_of(m) {
        Ok(m) => m,
        Err(_) => {
            ctx.ok("not representable");
            return;
        }
    };
    let text = ctx.lib(desc, || m.to_string());
    let exp = module_text(&model);
    if same_text(&text, &exp) {
        ctx.ok("module text matches");
    } else {
        ctx.fail(desc, clip(format!("text is\n{}\nexpected is\n{}", text, exp)));
    }
    ctx.sum_states += 1;
    ctx.sum_trans += model.insts.len() as u64 + 5;
    ctx.sample(|| text.clone());
}

pub fn c10(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("spacing between tokens is not part of the property; line ends are");
    p.assume("generator codes without a registered vendor all print as Unknown");
    for d in OPS.iter() {
        p.unit(format!("text of {}", d.name), move |ctx| {
            let mut seen = HashMap::new();
            for i in gen::instances(d, true) {
                text_case(ctx, &i, &mut seen);
            }
        });
    }
    p.bound("every instruction of the enumeration: all optional shapes, every operand over ~100 boundary words / all enumerants / all mask combinations / 60 strings / lists up to 40, all pairs of operands over small alphabets; injective per instruction");
    // strings
    let sdepth = tier.pick(4usize, 6);
    for first in 0..STR_ALPHA.len() {
        p.unit(format!("strings starting with {:?}", STR_ALPHA[first]), move |ctx| {
            let mut s = STR_ALPHA[first].to_string();
            let mut seen = HashMap::new();
            str_rec(ctx, &mut s, sdepth - 1, &mut seen);
        });
    }
    p.bound(format!("OpName and OpEntryPoint with all texts of up to {} characters over {:?}; injective", sdepth, STR_ALPHA));
    for part in 0..17u32 {
        p.unit(format!("every character, plane {}", part), move |ctx| {
            let mut seen = HashMap::new();
            for c in (part << 16..(part + 1) << 16).filter_map(char::from_u32).filter(|c| *c != '\0') {
                let i = Inst { op: 7, vals: vec![V::Id(1), V::Str(format!("a{}b", c))] };
                text_case(ctx, &i, &mut seen);
            }
        });
    }
    p.bound("every Unicode character inside a text; injective");
    // numbers
    let bits = tier.pick(20u32, 28);
    for c in 0..64u64 {
        p.unit(format!("numbers part {}", c), move |ctx| {
            let n = (1u64 << bits) / 64;
            let step = 1u64 << (32 - bits);
            for k in c * n..(c + 1) * n {
                number_case(ctx, k as u32);
                number_case(ctx, (k * step + (k % step)) as u32);
            }
        });
    }
    p.bound(format!("ids and literals: all numbers below 2^{} and 2^{} numbers spread over all of u32", bits, bits));
    // header
    for c in 0..64u32 {
        p.unit(format!("generator words part {}", c), move |ctx| {
            for w in c * 1024..(c + 1) * 1024 {
                for other in [0u32, 1, 10, 255, 256, 32768, 65535] {
                    for word in [w << 16 | other, other << 16 | w] {
                        let b = to_bytes(&[MAGIC, VERSION_WORD, word, word ^ 0x55, 0], true);
                        if let Ok(Ok(m)) = guard(|| read_module(&b, vec![])) {
                            module_case(ctx, &m, &|| format!("generator word {:#x}", word));
                        }
                    }
                }
            }
        });
    }
    p.bound("header text: all generator codes and versions against 7 values of the other, with as many bounds");
    // modules
    let alpha: Vec<Inst> = [0u16, 1, 3, 5, 7, 11, 12, 15, 17, 25, 30, 38, 43, 54, 56, 61, 71, 245, 246, 250, 253].iter().map(|c| gen::base_inst(def(*c))).collect();
    let depth = tier.pick(4usize, 5);
    let alpha = std::sync::Arc::new(alpha);
    for first in 0..alpha.len() {
        let alpha = alpha.clone();
        p.unit(format!("modules starting with {}", def(alpha[first].op).name), move |ctx| {
            let cores: Vec<Core> = alpha.iter().filter_map(core_of).collect();
            if first >= cores.len() {
                return;
            }
            let mut v = vec![first];
            mod_rec(ctx, &cores, &mut v, depth);
        });
    }
    p.unit("the empty module", |ctx| module_case(ctx, &module(vec![]), &|| "empty module".into()));
    p.bound(format!("modules of up to {} instructions over an alphabet of {}", depth, alpha.len()));
    p.unit("lists", move |ctx| {
        for n in (0..tier.pick(300u32, 3000)).chain([10000, 65000]) {
            for (op, pre) in [(30u16, 0usize), (44, 1), (15, 2), (33, 3), (65, 4), (43, 5), (245, 6)] {
                let d = def(op);
                let mut i = gen::base_inst(d);
                let last = i.vals.len() - 1;
                i.vals[last] = V::List(
                    (0..n)
                        .map(|k| match pre {
                            5 => V::Lit(k * 3),
                            6 => V::Pair(k, k * 5, true),
                            _ => V::Id(k * 3),
                        })
                        .collect(),
                );
                if op == 245 && n > 30000 {
                    continue;
                }
                text_case(ctx, &i, &mut HashMap::new());
                if let V::List(l) = &mut i.vals[last] {
                    if let Some(x) = l.first().cloned() {
                        l.iter_mut().for_each(|y| *y = x.clone());
                    }
                }
                text_case(ctx, &i, &mut HashMap::new());
            }
        }
    });
    p.bound(format!("operand lists of every length up to {}, and of 10000 and 65000", tier.pick(300, 3000)));
    for part in 0..16usize {
        p.unit(format!("long modules, part {}", part), move |ctx| {
            let cores: Vec<Core> = OPS.iter().filter_map(|d| core_of(&gen::base_inst(d))).collect();
            let few = [999usize, 1000, 1001, 1002, 1023, 1024, 1025, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 10_001, 32_767, 32_768, 65_535, 65_536, 65_537, 100_001];
            for (k, n) in (0..tier.pick(400usize, 1500)).chain(few).enumerate() {
                if k % 16 != part {
                    continue;
                }
                let m = module((0..n).map(|i| cores[i % cores.len()].clone()).collect());
                module_case(ctx, &m, &|| format!("a module of {} instructions, every instruction in turn", n));
                let m = module((0..n).map(|_| cores[n % cores.len()].clone()).collect());
                module_case(ctx, &m, &|| format!("a module of {} times {:?}", n, cores[n % cores.len()]));
            }
        });
    }
    p.bound(format!("modules of all lengths up to {} and 24 lengths around powers of two and ten up to 100001: all instructions in turn, and one over and over", tier.pick(400, 1500)));
    // what the rest of the library prints instructions through
    p.unit("instructions inside logical modules", |ctx| {
        for d in OPS.iter() {
            for i in gen::instances(d, false) {
                if let Some(core) = core_of(&i) {
                    group_case(ctx, core);
                }
            }
        }
    });
    p.bound("code and branch instructions printed through the logical module's own types");
    p.unit("names of extended instructions", |ctx| {
        for n in [13u32, 14] {
            for w in gen::words() {
                let i = Inst { op: 12, vals: vec![V::Id(1), V::Id(2), V::Id(3), V::Ext(if n == 13 { "Sin" } else { "Cos" }, n, vec![V::Id(w)])] };
                if !ctx.begin(|| format!("{:?}", i)) {
                    continue;
                }
                if let Some(Core::OpExtInst(o)) = core_of(&i) {
                    let inst = o.inst();
                    let (name, text) = ctx.lib(|| format!("{:?}", i), || (o.instruction.as_ref().get_op().get_name(), o.instruction.as_ref().get_op().to_string()));
                    match &inst.vals[3] {
                        V::Ext(want, _, _) if *want == name && same_text(&text, &val_text(&inst.vals[3])) => ctx.ok("names match"),
                        v => ctx.fail(|| format!("{:?}", i), format!("name {:?}, text {:?} for {:?}", name, text, v)),
                    }
                }
            }
        }
    });
    p.unit("instructions that no module holds", |ctx| {
        let mut v = Texts { ctx };
        crate::ops::texts(&mut v);
    });
    p.bound("58 instructions the library prints but does not read: every operand over 15 values, lists of up to 12");
    // end to end: shipped modules in both byte orders give one text
    p.unit("byte orders", |ctx| {
        for d in OPS.iter().filter(|d| d.readable) {
            let i = gen::base_inst(d);
            let mut v = gen::prefix(&i);
            v.push(i);
            let w = module_words(&v);
            for le in [true, false] {
                let b = to_bytes(&w, le);
                if let Ok(Ok(m)) = guard(|| read_module(&b, glsl())) {
                    module_case(ctx, &m, &|| hex(&b));
                }
            }
        }
    });
    p
}

struct Texts<'a> {
    ctx: &'a mut Ctx,
}

impl<'a> crate::ops::Visit for Texts<'a> {
    fn see<T: Clone + PartialEq + std::fmt::Debug>(&mut self, name: &'static str, all: Vec<T>, text: Option<&dyn Fn(&T) -> (String, String)>) {
        let text = match text {
            Some(t) => t,
            None => return,
        };
        let mut seen = std::collections::HashSet::new();
        for x in &all {
            let desc = || format!("{} {:?}", name, x);
            if !self.ctx.begin(desc) {
                continue;
            }
            let (got, exp) = self.ctx.lib(desc, || text(x));
            if !same_text(&got, &exp) {
                self.ctx.fail(desc, format!("text is     {:?}\nexpected is {:?}", got, exp));
            } else if !seen.insert(tokens(&got).join("\u{0}")) {
                self.ctx.fail(desc, format!("another instruction has the same text {:?}", got));
            } else {
                self.ctx.ok("text matches");
            }
            self.ctx.sum_states += 1;
            self.ctx.sum_trans += 1;
        }
    }
}

const STR_ALPHA: &[&str] = &["a", "\"", "\\", "\n", " ", "é", "%", ";", "n", "\t"];

fn str_rec(ctx: &mut Ctx, s: &mut String, left: usize, seen: &mut HashMap<u64, u64>) {
    let i = Inst { op: 5, vals: vec![V::Id(1), V::Str(s.clone())] };
    text_case(ctx, &i, seen);
    let i = Inst { op: 15, vals: vec![V::En(E::ExecModel, 0, vec![]), V::Id(1), V::Str(s.clone()), V::List(vec![V::Id(4)])] };
    text_case(ctx, &i, seen);
    if left == 0 {
        return;
    }
    for a in STR_ALPHA {
        s.push_str(a);
        str_rec(ctx, s, left - 1, seen);
        s.truncate(s.len() - a.len());
    }
}

fn number_case(ctx: &mut Ctx, n: u32) {
    if !ctx.begin(|| format!("number {}", n)) {
        return;
    }
    let c = Core::OpTypeVector(OpTypeVector { result_id: ResultId(n), component_type: OpId(n), component_count: n });
    let t = ctx.lib(|| format!("OpTypeVector with number {}", n), || c.to_string());
    let inst = c.inst();
    let e = inst_text(&inst);
    if same_text(&t, &e) {
        ctx.ok("text matches");
    } else {
        ctx.fail(|| format!("OpTypeVector with number {}", n), format!("text {:?}, expected {:?}", t, e));
    }
    ctx.sum_states += 1;
    ctx.sum_trans += 3;
}

fn mod_rec(ctx: &mut Ctx, cores: &[Core], v: &mut Vec<usize>, depth: usize) {
    let m = module(v.iter().map(|k| cores[*k].clone()).collect());
    let ids: Vec<usize> = v.clone();
    module_case(ctx, &m, &|| format!("module of instructions {:?}: {}", ids, clip(format!("{:?}", m.instructions))));
    if v.len() == depth {
        return;
    }
    for k in 0..cores.len() {
        v.push(k);
        mod_rec(ctx, cores, v, depth);
        v.pop();
    }
}

/// Put a code or branch instruction into a function and print it from there
fn group_case(ctx: &mut Ctx, core: Core) {
    use magmaflow::spv::logical::validate;
    let inst = core.inst();
    let desc = || clip(format!("{:?} inside a function", inst));
    if !ctx.begin(desc) {
        return;
    }
    let build = |c: Core| -> Vec<Core> {
        let mut v = vec![
            Core::OpMemoryModel(OpMemoryModel { addressing_model: AddressingModel::Logical, memory_model: MemoryModel::Simple }),
            Core::OpFunction(OpFunction { result_type: OpId(1), result_id: ResultId(2), function_control: FunctionControl::default(), function_type: OpId(3) }),
            Core::OpLabel(OpLabel { result_id: ResultId(4) }),
        ];
        v.push(c.clone());
        if !matches!(c, Core::OpBranch(_) | Core::OpBranchConditional(_) | Core::OpReturn(_)) {
            v.push(Core::OpReturn(OpReturn));
        }
        v.push(Core::OpFunctionEnd(OpFunctionEnd));
        v
    };
    let m = module(build(core));
    let lm = match guard(|| validate(m)) {
        Ok(Ok(m)) => m,
        _ => {
            ctx.ok("not a code instruction");
            return;
        }
    };
    for f in &lm.function_definitions {
        for b in &f.blocks {
            for c in &b.code {
                let t = ctx.lib(desc, || c.to_string());
                if !same_text(&t, &inst_text(&c.inst())) {
                    ctx.fail(desc, format!("text {:?}, expected {:?}", t, inst_text(&c.inst())));
                    return;
                }
            }
            let t = ctx.lib(desc, || b.branch.to_string());
            if !same_text(&t, &inst_text(&b.branch.inst())) {
                ctx.fail(desc, format!("text {:?}, expected {:?}", t, inst_text(&b.branch.inst())));
                return;
            }
        }
    }
    ctx.sum_states += 1;
    ctx.sum_trans += 2;
    ctx.ok("text inside a function matches");
}
