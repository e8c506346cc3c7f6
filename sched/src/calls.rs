//! The calls: small, and between them through all parts of the library

use crate::inside;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::fmt;

pub struct Call {
    pub name: String,
    /// explored in new processes with the next such call as well
    pub head: bool,
    /// explored with itself and the next such call only
    pub few: bool,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
}

pub fn heads(cs: &[Call]) -> Vec<usize> {
    (0..cs.len()).filter(|i| cs[*i].head).collect()
}

fn bytes(insts: &[Vec<u32>], le: bool) -> Vec<u8> {
    let mut w = vec![0x07230203, 0x00010000, 0x00080001, 100, 0];
    for i in insts {
        w.extend(i);
    }
    w.iter().flat_map(|w| if le { w.to_le_bytes() } else { w.to_be_bytes() }).collect()
}

fn inst(op: u32, args: &[u32]) -> Vec<u32> {
    let mut w = vec![((args.len() as u32 + 1) << 16) | op];
    w.extend_from_slice(args);
    w
}

fn text(before: &[u32], s: &str) -> Vec<u32> {
    let mut b = s.as_bytes().to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    let mut w = before.to_vec();
    w.extend(b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])));
    w
}

/// A set of the caller
#[derive(Clone)]
struct Set;

#[derive(Clone, Debug, PartialEq)]
struct Own(u32, String, Vec<OpId>);

impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Own {} {} {:?}", self.0, self.1, self.2)
    }
}

impl Op for Own {
    fn get_name(&self) -> &'static str {
        "Own"
    }
}

impl ExtInst for Own {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        other.as_any().downcast_ref::<Own>() == Some(self)
    }
}

impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str {
        "Own"
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (block, a) = block.read_word()?;
        let (block, s) = <String as MemoryBlockRead>::read(block)?;
        let (block, l) = <Vec<OpId> as MemoryBlockRead>::read(block)?;
        Ok((block, Box::new(Own(a, s, l))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Set)
    }
}

fn sets() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(Set), Box::new(magmaflow::glsl450::InstSet)]
}

fn show<T: fmt::Debug>(x: Option<T>) -> String {
    match x {
        Some(x) => format!("{:?}", x),
        None => "panic".into(),
    }
}

fn read(b: &[u8]) -> RawModule {
    read_module(b, sets()).unwrap()
}

fn function(insts: &[Vec<u32>]) -> Vec<u8> {
    let mut all = vec![inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3])];
    all.extend_from_slice(insts);
    all.push(inst(56, &[]));
    bytes(&all, true)
}

fn first(b: &[u8]) -> FunctionDefinition {
    validate(read(b)).unwrap().function_definitions.remove(0)
}

fn label(n: u32) -> Vec<u32> {
    inst(248, &[n])
}
fn to(n: u32) -> Vec<u32> {
    inst(249, &[n])
}
fn cond(t: u32, f: u32) -> Vec<u32> {
    inst(250, &[99, t, f])
}

pub fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut reads: Vec<(&str, bool, Vec<u8>)> = vec![
        ("header only", true, bytes(&[], true)),
        ("a name", true, bytes(&[inst(5, &text(&[7], "abc"))], true)),
        ("another name, big endian", true, bytes(&[inst(5, &text(&[8], "xyzw"))], false)),
        ("a long string", false, bytes(&[inst(7, &text(&[9], "what a long string this one is"))], true)),
        ("a string that is not ASCII", false, bytes(&[inst(7, &text(&[9], "h\u{e9}\u{20ac}"))], true)),
        ("a string that is not UTF-8", true, bytes(&[inst(7, &[1, 0x0061_FF62])], true)),
        ("a string without end", false, bytes(&[inst(7, &[1, 0x6161_6161])], true)),
        ("sine", true, bytes(&[inst(11, &text(&[5], "GLSL.std.450")), inst(12, &[1, 2, 5, 13, 9])], true)),
        ("cosine, other id", false, bytes(&[inst(11, &text(&[6], "GLSL.std.450")), inst(12, &[1, 2, 6, 14, 10])], false)),
        ("own set", true, bytes(&[inst(11, &text(&[5], "Own")), inst(12, &{
            let mut w = text(&[1, 2, 5, 3, 77], "own");
            w.extend([4, 5]);
            w
        })], true)),
        ("unknown set", false, bytes(&[inst(11, &text(&[5], "None"))], true)),
        ("unknown set id", true, bytes(&[inst(12, &[1, 2, 5, 13, 9])], true)),
        ("imported twice", false, bytes(&[inst(11, &text(&[5], "Own")), inst(11, &text(&[5], "Own"))], true)),
        ("unknown opcode", false, bytes(&[inst(9999, &[1])], true)),
        ("unsupported opcode", false, bytes(&[inst(8, &[1, 2, 3])], true)),
        ("enumerants", true, bytes(&[inst(17, &[1]), inst(14, &[0, 1]), inst(71, &[4, 11, 0]), inst(61, &[1, 2, 3, 2, 16])], true)),
        ("unknown enumerant", false, bytes(&[inst(17, &[9999])], true)),
        ("lists", true, bytes(&[inst(30, &[1, 2, 3, 4]), inst(245, &[1, 2, 3, 4])], true)),
        ("zero word count", false, bytes(&[vec![248]], true)),
        ("cut", false, bytes(&[vec![3 << 16 | 5, 1]], true)),
        ("excess data", false, bytes(&[inst(248, &[1, 2])], true)),
        ("bad magic", false, vec![1, 2, 3, 4]),
        ("odd length", false, vec![3, 2, 0x23, 7, 0]),
    ];
    for (n, head, b) in reads.drain(..) {
        v.push(Call { name: format!("read {}", n), head, few: false, run: Box::new(move || show(inside(|| read_module(&b, sets())))) });
    }
    let texts = [
        (true, bytes(&[inst(248, &[1]), inst(5, &text(&[7], "ab\"c"))], true)),
        (false, bytes(&[inst(71, &[4, 11, 0]), inst(43, &[1, 2, 3, 4])], true)),
        (false, bytes(&[inst(11, &text(&[5], "GLSL.std.450")), inst(12, &[1, 2, 5, 13, 9])], true)),
        (false, bytes(&[inst(15, &{
            let mut w = text(&[4, 2], "main");
            w.extend([6, 7]);
            w
        }), inst(246, &[5, 6, 1])], true)),
    ];
    for (i, (head, b)) in texts.into_iter().enumerate() {
        v.push(Call {
            name: format!("print module {}", i),
            head,
            few: false,
            run: Box::new(move || {
                let m = read(&b);
                show(inside(|| m.to_string()))
            }),
        });
    }
    v.push(Call { name: "print errors".into(), head: false, few: false, run: Box::new(|| show(inside(|| format!("{} {}", ReadError::BadMagic, ReadError::UnknownCapability(7))))) });
    let modules = [
        (true, bytes(&[inst(17, &[1]), inst(14, &[0, 1]), inst(5, &text(&[7], "a")), inst(19, &[3])], true)),
        (true, function(&[label(1), inst(128, &[1, 2, 3, 4]), inst(253, &[])])),
        (false, function(&[inst(55, &[1, 2]), label(1), inst(247, &[9, 0]), cond(2, 9), label(2), to(9), label(9), inst(253, &[])])),
        (false, bytes(&[inst(17, &[1])], true)),
        (false, function(&[label(1)])),
        (false, bytes(&[inst(14, &[0, 1]), inst(17, &[1])], true)),
        (false, bytes(&[inst(17, &[1]), inst(14, &[0, 1]), inst(19, &[4]), inst(17, &[1])], true)),
    ];
    for (i, (head, b)) in modules.into_iter().enumerate() {
        v.push(Call {
            name: format!("validate module {}", i),
            head,
            few: false,
            run: Box::new(move || {
                let m = read(&b);
                show(inside(|| validate(m)))
            }),
        });
    }
    let functions = [
        (false, function(&[label(1), to(2), label(2), inst(253, &[])])),
        (true, function(&[label(1), inst(247, &[9, 1]), cond(2, 3), label(2), to(9), label(3), to(9), label(9), inst(253, &[])])),
        (true, function(&[label(1), to(2), label(2), inst(246, &[9, 4, 1]), to(3), label(3), cond(4, 9), label(4), to(2), label(9), inst(253, &[])])),
        // a loop in a selection in a loop in a selection with an else that holds a selection
        (false, function(&[
            label(1), inst(247, &[20, 2]), cond(2, 15),
            label(2), inst(246, &[14, 13, 1]), to(3),
            label(3), cond(4, 14),
            label(4), inst(247, &[9, 0]), cond(8, 9),
            label(8), inst(246, &[11, 10, 2]), to(12), label(12), cond(10, 11), label(10), to(8), label(11), to(9),
            label(9), to(13),
            label(13), to(2),
            label(14), to(20),
            label(15), inst(247, &[19, 0]), inst(250, &[99, 16, 17, 3, 4]), label(16), to(19), label(17), to(19), label(19), to(20),
            label(20), inst(253, &[]),
        ])),
        (false, function(&[label(1), to(1)])),
        (false, function(&[label(1), to(7)])),
        (false, function(&[label(1), inst(253, &[]), label(1), inst(253, &[])])),
    ];
    for (i, (head, b)) in functions.into_iter().enumerate() {
        let c = b.clone();
        v.push(Call {
            name: format!("recover function {}", i),
            head,
            few: false,
            run: Box::new(move || {
                let f = first(&b);
                show(inside(|| find_control_flow(f)))
            }),
        });
        if i == 1 || i == 2 || i == 3 {
            v.push(Call {
                name: format!("print function {} and its structure", i),
                head: false,
                few: false,
                run: Box::new(move || {
                    let f = first(&c);
                    match find_control_flow(f.clone()) {
                        Ok(t) => show(inside(|| format!("{}{}", t, ControlFlowFunctionPrinter(&f, &t)))),
                        Err(e) => format!("{:?}", e),
                    }
                }),
            });
        }
    }
    let b = bytes(&[inst(5, &text(&[7], "abc")), inst(11, &text(&[5], "GLSL.std.450")), inst(12, &[1, 2, 5, 13, 9])], true);
    v.push(Call {
        name: "copy and compare".into(),
        head: false,
        few: false,
        run: Box::new(move || {
            let m = read(&b);
            show(inside(|| {
                let c = m.clone();
                (c == m, c)
            }))
        }),
    });
    // one of each instruction, from the harness
    let words: Vec<Vec<u32>> = std::env::var("MF_INSTS").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.split(',').map(|w| u32::from_str_radix(w, 16).unwrap()).collect()).collect();
    for (i, c) in words.chunks(6).enumerate() {
        let mut all = vec![inst(11, &text(&[0x7FFF_FFF0], "Own"))];
        all.extend_from_slice(c);
        let b = bytes(&all, true);
        let r = b.clone();
        v.push(Call { name: format!("read every instruction, part {}", i), head: false, few: true, run: Box::new(move || show(inside(|| read_module(&r, sets())))) });
        v.push(Call {
            name: format!("print every instruction, part {}", i),
            head: false,
            few: true,
            run: Box::new(move || {
                let m = read(&b);
                show(inside(|| m.to_string()))
            }),
        });
    }
    v
}
