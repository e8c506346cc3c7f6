//! Reader properties: header, byte order, framing, operands, enumerants, strings, dispatch,
//! extended instruction sets. Every input is given to the real reader and to the reference
//! decoder; the verdicts and the decoded modules must agree.

use crate::conv::*;
use crate::engine::*;
use crate::gen;
use crate::spec::*;
use magmaflow::spv::raw::{read_module, RawModule, ReadError};
use magmaflow::spv::ExtInstSet;

pub fn hex(b: &[u8]) -> String {
    let mut s = format!("{} bytes:", b.len());
    for (i, c) in b.iter().enumerate() {
        if i % 4 == 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", c));
        if i > 400 {
            s.push_str(" ...");
            break;
        }
    }
    s
}

pub fn clip(s: String) -> String {
    if s.len() > 1500 {
        s.chars().take(1500).collect::<String>() + " ..."
    } else {
        s
    }
}

/// Compare the reader's answer with the reference
pub fn judge(res: &Result<RawModule, ReadError>, exp: &Expect) -> Result<&'static str, String> {
    match (res, exp) {
        (Ok(m), Expect::Ok(e)) => {
            let got = module_of(m)?;
            if got == *e {
                Ok("accepted")
            } else {
                Err(clip(format!("decoded module differs\nexpected {:?}\ngot      {:?}", e, got)))
            }
        }
        (Err(g), Expect::Err(e)) => {
            if g == e {
                Ok("rejected (exact error)")
            } else {
                Err(clip(format!("wrong error\nexpected {:?}\ngot      {:?}", e, g)))
            }
        }
        (Err(_), Expect::AnyErr(_)) => Ok("rejected (several faults)"),
        (Ok(m), Expect::Err(e)) => Err(clip(format!("accepted, expected error {:?}\ngot {:?}", e, m))),
        (Ok(m), Expect::AnyErr(e)) => Err(clip(format!("accepted, expected one of the errors {:?}\ngot {:?}", e, m))),
        (Err(g), Expect::Ok(e)) => Err(clip(format!("rejected with {:?}, expected {:?}", g, e))),
    }
}

pub fn run_bytes(ctx: &mut Ctx, data: &[u8]) {
    let sets = [glsl_spec()];
    run_bytes_sets(ctx, data, &sets, &glsl);
}

pub fn run_bytes_sets(ctx: &mut Ctx, data: &[u8], sets: &[SetSpec], lib: &dyn Fn() -> Vec<Box<dyn ExtInstSet>>) {
    if !ctx.begin(|| hex(data)) {
        return;
    }
    let res = ctx.lib(|| hex(data), || read_module(data, lib()));
    if ctx.crash_only {
        // only crashes count: everything is to be done with the answer
        ctx.lib(|| hex(data), || exercise(&res));
        ctx.ok(if res.is_ok() { "accepted" } else { "rejected" });
        return;
    }
    let exp = decode(data, sets);
    match judge(&res, &exp) {
        Ok(o) => ctx.ok(o),
        Err(e) => ctx.fail(|| hex(data), e),
    }
    ctx.sum_states += 1;
    ctx.sum_trans += (data.len() / 4) as u64;
    ctx.sample(|| format!("{} -> {}", hex(data), clip(format!("{:?}", res))));
}

/// Print, copy, compare and drop an answer
pub fn exercise(res: &Result<RawModule, ReadError>) {
    use std::fmt::Write;
    struct Sink(u64);
    impl Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len() as u64;
            Ok(())
        }
    }
    let mut o = Sink(0);
    match res {
        Ok(m) => {
            let _ = write!(o, "{} {:?}", m, m);
            let c = m.clone();
            assert_or_ignore(c == *m);
        }
        Err(e) => {
            let _ = write!(o, "{} {:?} {:#?}", e, e, e);
            #[allow(deprecated)]
            let _ = write!(o, "{}", std::error::Error::description(e));
            assert_or_ignore(e == e);
        }
    }
    assert_or_ignore(o.0 > 0);
}

fn assert_or_ignore(_: bool) {}

/// The header (C01)
pub fn c01(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a header fault is reported exactly when it is the only one; inputs with several faults only need an error");
    // pairs of faults and combinations of field values, both byte orders
    p.unit("header combinations", |ctx| {
        let magics = [MAGIC, MAGIC.swap_bytes(), 0, MAGIC ^ 1, MAGIC ^ 0x8000_0000, 0x0203_0723, 0xFFFF_FFFF];
        let versions = [VERSION_WORD, 0, 0x0001_0100, 0x0100_0000, 0x0002_0000, 0x0001_0001, 0x0101_0000, 0x0000_0100, 0xFFFF_FFFF];
        let gens = [0u32, 0x0008_0001, 0x000B_FFFF, 0x000C_0000, 0xFFFF_FFFF];
        let bounds = [0u32, 1, 1000, 0xFFFF_FFFF];
        let schemas = [0u32, 1, 0x0100_0000, 0x8000_0000];
        for le in [true, false] {
            for m in magics {
                for v in versions {
                    for g in gens {
                        for b in bounds {
                            for s in schemas {
                                for tail in [0usize, 1, 2] {
                                    let mut w = vec![m, v, g, b, s];
                                    w.extend(std::iter::repeat(0x0001_0000).take(tail));
                                    let bytes = to_bytes(&w, le);
                                    run_bytes(ctx, &bytes);
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    p.bound("products of 7 magic, 9 version, 5 generator, 4 bound, 4 schema words, 0-2 instructions, both byte orders");
    p.unit("truncated headers", |ctx| {
        for le in [true, false] {
            for w in [header(7), vec![0; 5], vec![MAGIC, 5, 5, 5, 5], vec![MAGIC, VERSION_WORD, 0, 0, 9]] {
                let b = to_bytes(&w, le);
                for n in 0..=b.len() {
                    run_bytes(ctx, &b[..n]);
                }
                // trailing garbage of 1..7 bytes
                for n in 1..8 {
                    let mut c = b.clone();
                    c.extend(vec![0u8; n]);
                    run_bytes(ctx, &c);
                }
            }
        }
    });
    p.bound("every byte length of four headers, with up to 7 trailing bytes, both byte orders");
    p.unit("single byte changes", |ctx| {
        for le in [true, false] {
            let b = to_bytes(&header(0x01020304), le);
            for i in 0..b.len() {
                for v in 0..=255u8 {
                    let mut c = b.clone();
                    c[i] = v;
                    run_bytes(ctx, &c);
                }
            }
        }
    });
    p.bound("every value of every single header byte, both byte orders");
    for le in [true, false] {
        p.unit(format!("headers of large modules, {}", if le { "little endian" } else { "big endian" }), move |ctx| {
            // each header byte changed in one bit or set to an awkward value, before bodies of many sizes
            for size in [3usize, 60, 1019, 1020, 16_379, 16_380, 65_531, 65_536, 262_144] {
                let mut w = header(0x0102_0304);
                w.extend(std::iter::repeat(0x0001_0000).take(size));
                let b = to_bytes(&w, le);
                run_bytes(ctx, &b);
                for i in 0..20 {
                    for v in (0..8).map(|k| b[i] ^ (1 << k)).chain([!b[i], 0, 0xFF]) {
                        if size > 20_000 && v != b[i] ^ 1 && v != b[i] ^ 0x80 {
                            continue;
                        }
                        let mut c = b.clone();
                        c[i] = v;
                        run_bytes(ctx, &c);
                    }
                }
                for cut in 1..4 {
                    run_bytes(ctx, &b[..b.len() - cut]);
                }
                for word in 0..5 {
                    // the words of the header in the other byte order
                    let mut c = b.clone();
                    c[word * 4..word * 4 + 4].reverse();
                    run_bytes(ctx, &c);
                    let mut c = b.clone();
                    c[word * 4..word * 4 + 4].rotate_left(2);
                    run_bytes(ctx, &c);
                }
            }
        });
    }
    p.bound("single bit and byte changes of every header byte, swapped header words, and cut ends, of modules of up to 262144 words, both byte orders");
    // single word sweeps: field 0..4, others valid, empty instruction stream
    let chunk = 1u64 << 24;
    for field in 0..5usize {
        let whole = tier == Tier::Thorough || field == 1 || field == 4 || field == 0;
        let total: u64 = 1 << 32;
        if whole {
            for c in 0..(total / chunk) {
                p.unit(format!("header word {} in [{:#x},{:#x})", field, c * chunk, (c + 1) * chunk), move |ctx| {
                    sweep_header(ctx, field, c * chunk, (c + 1) * chunk, 1);
                });
            }
            p.bound(format!("header word {}: all 2^32 values, other words valid", field));
        } else {
            for hi in 0..16u64 {
                p.unit(format!("header word {} high {:#x}", field, hi), move |ctx| {
                    // every value of each half word, and every 251st word
                    for v in (hi << 12)..((hi + 1) << 12) {
                        for lo in [0u32, 1, 0x7FFF, 0x8000, 0xFFFF, 0x0102] {
                            header_case(ctx, field, (v as u32) << 16 | lo);
                            header_case(ctx, field, lo << 16 | v as u32);
                        }
                    }
                });
            }
            p.bound(format!("header word {}: all values of either half word against 6 values of the other", field));
            for c in 0..64u64 {
                p.unit(format!("header word {} stride, part {}", field, c), move |ctx| {
                    sweep_header(ctx, field, c << 26, (c + 1) << 26, 251);
                });
            }
            p.bound(format!("header word {}: every 251st 32 bit value", field));
        }
    }
    p
}

fn header_case(ctx: &mut Ctx, field: usize, w: u32) {
    let mut words = header(77);
    words[field] = w;
    let b = to_bytes(&words, true);
    run_bytes(ctx, &b);
}

fn sweep_header(ctx: &mut Ctx, field: usize, from: u64, to: u64, step: u64) {
    // both byte orders alternate by the low bit of the value's hash so that each value is seen
    let base_le = to_bytes(&header(77), true);
    let mut b = base_le.clone();
    let mut v = from;
    while v < to {
        let w = v as u32;
        b[field * 4..field * 4 + 4].copy_from_slice(&w.to_le_bytes());
        if ctx.begin(|| format!("header word {} = {:#010x}, little endian: {}", field, w, hex(&b))) {
            let r = guard(|| read_module(&b, vec![]));
            let ok = match (&r, field) {
                (Ok(Ok(m)), 0) => w == MAGIC && m.bound == 77,
                (Ok(Ok(m)), 1) => w == VERSION_WORD && m.version.0 == 1 && m.version.1 == 0,
                (Ok(Ok(m)), 2) => tool_code(&m.generator.tool) == w >> 16 && m.generator.version == w as u16,
                (Ok(Ok(m)), 3) => m.bound == w,
                (Ok(Ok(_)), 4) => w == 0,
                (Ok(Err(e)), 0) => {
                    (*e == ReadError::BadMagic && w != MAGIC && w != MAGIC.swap_bytes()) || (w == MAGIC.swap_bytes() && *e != ReadError::BadMagic)
                }
                (Ok(Err(e)), 1) => {
                    w != VERSION_WORD
                        && *e == ReadError::UnknownVersionBytes((w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8)
                }
                (Ok(Err(e)), 4) => w != 0 && *e == ReadError::UnknownReservedSchema,
                _ => false,
            };
            if ok {
                ctx.ok(if matches!(r, Ok(Ok(_))) { "accepted" } else { "rejected (exact error)" });
            } else {
                let r = ctx.lib(|| format!("header word {} = {:#010x}: {}", field, w, hex(&b)), || read_module(&b, vec![]));
                ctx.fail(|| format!("header word {} = {:#010x}: {}", field, w, hex(&b)), format!("wrong result {:?}", r));
            }
            ctx.sum_states += 1;
            ctx.sum_trans += 5;
            ctx.sample(|| format!("header word {} = {:#010x} -> {:?}", field, w, r));
        }
        v += step;
    }
}

/// Read the same words in both byte orders; the results must be identical (C02)
fn both_orders(ctx: &mut Ctx, words: &[u32], extra: &[u8]) {
    let mut le = to_bytes(words, true);
    let mut be = to_bytes(words, false);
    le.extend_from_slice(extra);
    be.extend_from_slice(extra);
    if !ctx.begin(|| format!("LE {} / BE {}", hex(&le), hex(&be))) {
        return;
    }
    let a = ctx.lib(|| hex(&le), || read_module(&le, glsl()));
    let b = ctx.lib(|| hex(&be), || read_module(&be, glsl()));
    let same = match (&a, &b) {
        (Ok(x), Ok(y)) => match (module_of(x), module_of(y)) {
            (Ok(p), Ok(q)) => p == q && x == y && x.to_string() == y.to_string(),
            _ => false,
        },
        (Err(x), Err(y)) => x == y,
        _ => false,
    };
    if same {
        ctx.ok(if a.is_ok() { "same module" } else { "same error" });
    } else {
        ctx.fail(|| format!("LE {} / BE {}", hex(&le), hex(&be)), clip(format!("little endian: {:?}\nbig endian:    {:?}", a, b)));
    }
    // and the meaning is the one of the words
    match judge(&a, &decode(&le, &[glsl_spec()])) {
        Ok(_) => {}
        Err(e) => ctx.fail(|| hex(&le), e),
    }
    match judge(&b, &decode(&be, &[glsl_spec()])) {
        Ok(_) => {}
        Err(e) => ctx.fail(|| hex(&be), e),
    }
    ctx.sum_states += 2;
    ctx.sum_trans += 2 * words.len() as u64;
    ctx.sample(|| format!("{} -> {}", hex(&be), clip(format!("{:?}", b))));
}

pub fn c02(tier: Tier) -> Plan {
    let mut p = Plan::new();
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, true) {
                let mut v = gen::prefix(&i);
                v.push(i);
                both_orders(ctx, &module_words(&v), &[]);
            }
        });
    }
    p.bound("every instruction, all operand shapes, one operand over ~100 words and two operands over small alphabets");
    p.unit("truncations", move |ctx| {
        for d in OPS.iter().filter(|d| d.readable) {
            let i = gen::base_inst(d);
            let mut v = gen::prefix(&i);
            v.push(i);
            let w = module_words(&v);
            for n in 1..=w.len() {
                for extra in 0..4usize {
                    both_orders(ctx, &w[..n], &vec![1u8; extra]);
                }
            }
        }
    });
    p.bound("every truncation of one module per instruction, at every byte");
    for c in 0..32u32 {
        p.unit(format!("opcodes part {}", c), move |ctx| {
            for op in (c * 2048)..((c + 1) * 2048) {
                for wc in 0..if op < 400 { 8u32 } else { 3 } {
                    let mut w = header(9);
                    w.push(wc << 16 | op);
                    for k in 1..wc {
                        w.push(k - 1);
                    }
                    both_orders(ctx, &w, &[]);
                }
            }
        });
    }
    p.bound("all 65536 opcodes x word counts 0..3 (0..8 for opcodes below 400)");
    p.unit("header bytes", |ctx| {
        for f in 1..5 {
            for sh in 0..4 {
                for v in 0..=255u32 {
                    let mut w = header(0x01020304);
                    w[f] = (w[f] & !(0xFF << (8 * sh))) | v << (8 * sh);
                    both_orders(ctx, &w, &[]);
                }
            }
        }
    });
    p.bound("every value of every byte of the header after the magic number");
    for f in 1..5usize {
        p.unit(format!("header word {} before instructions", f), move |ctx| {
            let mut base = header(9);
            base.extend(everything());
            let all = gen::words().into_iter().chain(0..300).chain((0..32).flat_map(|a| (0..32).map(move |b| 1u32 << a | 1 << b)));
            for v in all.flat_map(|v| [v, v.swap_bytes(), v.rotate_left(16)]) {
                base[f] = v;
                both_orders(ctx, &base[..13], &[]);
                both_orders(ctx, &base, &[]);
            }
        });
    }
    p.bound("~1500 values of each header word (boundaries, two bits, their byte swaps) before a module that holds every instruction");
    for e in contexts() {
        p.unit(format!("enumerants in {}", e.name), move |ctx| {
            for v in 0..300u32 {
                both_orders(ctx, &e.words(v), &[]);
            }
            for b in 0..32 {
                both_orders(ctx, &e.words(1 << b), &[]);
            }
        });
    }
    p.bound("enumerant words 0..300 and single bits in every enumerant position");
    for (k, ctxn) in string_contexts().into_iter().enumerate() {
        let _ = k;
        p.unit(format!("strings in {}", ctxn.name), move |ctx| {
            for s in gen::strings() {
                both_orders(ctx, &ctxn.words(s.as_bytes(), true), &[]);
            }
            for n in 0..tier.pick(600usize, 3000) {
                let s: Vec<u8> = (0..n).map(|i| 1 + (i % 126) as u8).collect();
                both_orders(ctx, &ctxn.words(&s, true), &[]);
                both_orders(ctx, &ctxn.words(&s, false), &[]);
            }
        });
    }
    p.bound(format!("string literals of all lengths up to {}, terminated or not, in every string position", tier.pick(600, 3000)));
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("{} in a large module", d.name), move |ctx| {
            for i in gen::instances(d, false) {
                let mut v = gen::prefix(&i);
                v.push(i);
                let w = module_words(&v);
                both_orders(ctx, &inside(&w, false), &[]);
            }
        });
    }
    p.bound("every instruction in all shapes after a module that holds every instruction");
    for (k, n) in [5_000usize, 16_384, 16_385, 32_768, 65_536, 65_537, 70_000, 131_072, 262_144, 300_000, 1_000_000].into_iter().enumerate() {
        p.unit(format!("modules of {} words", n), move |ctx| {
            let mut w = header(9);
            for shape in 0..4 {
                w.truncate(5);
                while w.len() < n {
                    match shape {
                        0 => w.extend(everything_but_imports()),
                        1 => w.extend([0x0004_002B, 1, w.len() as u32, !(w.len() as u32)]),
                        2 => w.push(0x0001_0000),
                        _ => {
                            let l = (n - w.len()).clamp(2, 65_535) as u32;
                            w.push(l << 16 | 30);
                            w.extend((1..l).map(|x| x.wrapping_mul(0x9E37_79B9)));
                        }
                    }
                }
                both_orders(ctx, &w, &[]);
                if k < 5 {
                    both_orders(ctx, &w[..w.len() - 1], &[]);
                    w.push(0x0002_FFFF);
                    w.push(7);
                    both_orders(ctx, &w, &[1]);
                }
            }
        });
    }
    p.bound("modules of up to a million words: every instruction over and over, constants, no-ops, and longest instructions");
    // all word sequences over an alphabet
    let alpha = stream_alphabet();
    let depth = tier.pick(4, 5);
    for (i, a) in alpha.iter().cloned().enumerate() {
        let alpha = alpha.clone();
        let _ = i;
        p.unit(format!("streams starting with {:#010x}", a), move |ctx| {
            let mut w = header(9);
            w.push(a);
            streams(ctx, &mut w, &alpha, depth - 1, &mut |ctx, w| both_orders(ctx, w, &[]));
        });
    }
    p.bound(format!("all instruction streams of up to {} words over an alphabet of {} words", depth, alpha.len()));
    p
}

fn streams(ctx: &mut Ctx, w: &mut Vec<u32>, alpha: &[u32], left: usize, f: &mut dyn FnMut(&mut Ctx, &[u32])) {
    f(ctx, w);
    if left == 0 {
        return;
    }
    for &a in alpha {
        w.push(a);
        streams(ctx, w, alpha, left - 1, f);
        w.pop();
    }
}

fn stream_alphabet() -> Vec<u32> {
    let mut v = vec![];
    for op in [0u32, 1, 7, 17, 19, 30, 43, 54, 61, 71, 245, 250, 253, 8, 13, 321] {
        for wc in [0u32, 1, 2, 3, 4] {
            if (op == 0 || op == 30 || op == 7 || op == 17) || wc == 1 || wc == 3 {
                v.push(wc << 16 | op);
            }
        }
    }
    v.push(0);
    v.push(1);
    v.push(0x6162_6364);
    v.push(0xFFFF_FFFF);
    v.push(0x0061_0000);
    v.sort();
    v.dedup();
    v
}

/// Framing (C03)
pub fn c03(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("a framing fault is reported exactly when it is the only fault of the first faulty instruction");
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("word counts of {}", d.name), move |ctx| {
            // one instance per shape: optional operands absent/present, lists of 0..4
            let mut insts: Vec<Inst> = vec![];
            for i in gen::instances(d, false) {
                let len = { let mut w = vec![]; enc_inst(&i, &mut w); w.len() };
                if gen::readable(&i) && len < 12 && insts.iter().filter(|j| { let mut w = vec![]; enc_inst(j, &mut w); w.len() == len }).count() < 6 {
                    insts.push(i);
                }
            }
            for i in insts {
                let mut w = module_words(&gen::prefix(&i));
                let at = w.len();
                enc_inst(&i, &mut w);
                let len = w.len() - at;
                for filler in [0u32, 0x0001_0000, 1, 0x0002_0011, 0x6161_6161] {
                    for tail in 0..8usize {
                        let mut x = w.clone();
                        x.extend(std::iter::repeat(filler).take(tail));
                        for wc in (0..len + 8).chain([0x7FFF, 0x8000, 0xFFFF]) {
                            x[at] = (wc as u32) << 16 | d.code as u32;
                            run_bytes(ctx, &to_bytes(&x, true));
                        }
                    }
                }
            }
        });
        p.unit(format!("truncations of {}", d.name), move |ctx| {
            let i = gen::base_inst(d);
            let mut v = gen::prefix(&i);
            v.push(i.clone());
            v.push(Inst { op: 0, vals: vec![] });
            v.push(Inst { op: 248, vals: vec![V::Id(3)] });
            for le in [true, false] {
                let b = to_bytes(&module_words(&v), le);
                for n in 0..=b.len() {
                    run_bytes(ctx, &b[..n]);
                }
                for n in 1..=9usize {
                    for fill in [0u8, 1, 255] {
                        let mut c = b.clone();
                        c.extend(vec![fill; n]);
                        run_bytes(ctx, &c);
                    }
                }
            }
        });
    }
    p.bound("every instruction: word counts 0..len+8 and three large ones x 5 fillers x 0..7 following words; all byte truncations and up to 9 extra bytes");
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("{} in a large module", d.name), move |ctx| {
            for i in variants(d) {
                let mut w = module_words(&gen::prefix(&i));
                let at = w.len();
                enc_inst(&i, &mut w);
                let len = w.len() - at;
                for wc in (0..len + 4).chain([0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]) {
                    w[at] = (wc as u32) << 16 | d.code as u32;
                    run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                    run_bytes(ctx, &to_bytes(&inside(&w, true), true));
                }
                w[at] = (len as u32) << 16 | d.code as u32;
                let b = to_bytes(&inside(&w, false), true);
                for cut in 1..=(w.len() * 4 - 20) {
                    run_bytes(ctx, &b[..b.len() - cut]);
                }
            }
        });
    }
    p.bound("every instruction with word counts 0..len+4 and 5 large ones, and all its byte truncations, after (and between) modules that hold every instruction");
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("cut instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, false) {
                if !gen::readable(&i) {
                    continue;
                }
                let mut w = module_words(&gen::prefix(&i));
                let at = w.len();
                enc_inst(&i, &mut w);
                let len = w.len() - at;
                for cut in (1..len).filter(|c| *c < 24 || len - c < 24) {
                    let mut x = w[..w.len() - cut].to_vec();
                    // the stream ends before the instruction does
                    run_bytes(ctx, &to_bytes(&x, true));
                    run_bytes(ctx, &to_bytes(&x, false));
                    // the instruction ends before its operands do, at the end of the stream and before another
                    x[at] = ((len - cut) as u32) << 16 | d.code as u32;
                    run_bytes(ctx, &to_bytes(&x, true));
                    x.extend([0x0001_00FD, 0x0001_0000]);
                    run_bytes(ctx, &to_bytes(&x, true));
                }
                for more in [1usize, 2, 3] {
                    let mut x = w.clone();
                    x[at] = ((len + more) as u32) << 16 | d.code as u32;
                    run_bytes(ctx, &to_bytes(&x, true));
                    x.extend(vec![0u32; more]);
                    run_bytes(ctx, &to_bytes(&x, true));
                    x[at + len] = 0x0001_00FD;
                    run_bytes(ctx, &to_bytes(&x, true));
                }
            }
        });
    }
    p.bound("every instance of every instruction (all shapes, enumerants with their operands, 60 strings, lists of up to 257) cut after every word, up to 23 from either end, the word count adjusted or not, and lengthened by up to 3");
    let depth = tier.pick(4usize, 5);
    let alpha = stream_alphabet();
    p.bound(format!("all instruction streams of up to {} words over an alphabet of {} words", depth, alpha.len()));
    for a in alpha.iter().cloned() {
        let alpha = alpha.clone();
        p.unit(format!("streams starting with {:#010x}", a), move |ctx| {
            let mut w = header(9);
            w.push(a);
            let mut buf = vec![];
            streams(ctx, &mut w, &alpha, depth - 1, &mut |ctx, w| {
                buf.clear();
                for x in w {
                    buf.extend_from_slice(&x.to_le_bytes());
                }
                run_bytes(ctx, &buf);
            });
        });
    }
    // instruction sequences: every ordered pair (and triple) of base instructions
    let ops: Vec<&'static OpDef> = OPS.iter().filter(|d| d.readable).collect();
    for (k, a) in ops.iter().cloned().enumerate() {
        let ops = ops.clone();
        let _ = k;
        p.unit(format!("sequences starting with {}", a.name), move |ctx| {
            let ia = variants(a);
            for b in &ops {
                for x in &ia {
                    for y in variants(b) {
                        seq(ctx, &[x.clone(), y.clone()]);
                    }
                }
                if tier == Tier::Thorough {
                    for c in &ops {
                        seq(ctx, &[ia[0].clone(), gen::base_inst(b), gen::base_inst(c)]);
                    }
                }
            }
        });
    }
    p.bound(tier.pick(
        "all ordered pairs of instructions (long and short shapes)",
        "all ordered pairs (long and short shapes) and triples of instructions",
    ));
    let max = tier.pick(300u32, 3000);
    p.unit("long instructions", move |ctx| {
        for n in (0..max).chain([4095, 4096, 4097, 16384, 32766, 32767, 32768, 65530, 65531]) {
            for op in ["OpTypeStruct", "OpConstant", "OpAccessChain", "OpTypeFunction"] {
                let d = by_name(op);
                let mut i = gen::base_inst(d);
                let last = i.vals.len() - 1;
                i.vals[last] = match d.kinds[last] {
                    K::ManyI => V::List((0..n).map(|x| V::Id(x ^ 0x5A5A)).collect()),
                    _ => V::List((0..n).map(|x| V::Lit(x ^ 0x5A5A)).collect()),
                };
                seq(ctx, &[i, Inst { op: 0, vals: vec![] }]);
            }
            if n < 32760 {
                let i = Inst { op: 245, vals: vec![V::Id(1), V::Id(2), V::List((0..n).map(|x| V::Pair(x, x + 1, true)).collect())] };
                seq(ctx, &[i, Inst { op: 253, vals: vec![] }]);
            }
            if n > 0 && n <= 65531 {
                let s: String = (0..(n as usize * 4 - 1)).map(|k| (b'a' + (k % 26) as u8) as char).collect();
                seq(ctx, &[Inst { op: 7, vals: vec![V::Id(1), V::Str(s)] }, Inst { op: 0, vals: vec![] }]);
            }
        }
    });
    p.bound(format!("variable length instructions with all operand counts up to {} and boundary counts up to 65531", max));
    p.unit("long streams", move |ctx| {
        for n in (0..tier.pick(600usize, 4000)).chain([65535, 65536, 65537, 200_000]) {
            let mut v = Vec::with_capacity(n);
            for k in 0..n {
                v.push(match k % 3 {
                    0 => Inst { op: 248, vals: vec![V::Id(k as u32)] },
                    1 => Inst { op: 0, vals: vec![] },
                    _ => Inst { op: 43, vals: vec![V::Id(1), V::Id(k as u32), V::List(vec![V::Lit(!(k as u32))])] },
                });
            }
            seq(ctx, &v);
        }
    });
    p.bound("streams of all instruction counts up to 600/4000, and 65535..65537 and 200000");
    p
}

fn variants(d: &OpDef) -> Vec<Inst> {
    let b = gen::base_inst(d);
    let mut out = vec![b.clone()];
    let mut s = b.clone();
    let mut changed = false;
    for (k, v) in d.kinds.iter().zip(s.vals.iter_mut()) {
        match k {
            K::OptI | K::OptS | K::OptW | K::OptEn(_) | K::OptMk(_) => {
                *v = V::Absent;
                changed = true;
            }
            K::ManyI | K::ManyL | K::ManyPhi => {
                *v = V::List(vec![]);
                changed = true;
            }
            K::S if d.code != 11 => {
                *v = V::Str("abcd".into());
                changed = true;
            }
            _ => {}
        }
    }
    if changed {
        out.push(s);
    }
    out
}

fn seq(ctx: &mut Ctx, insts: &[Inst]) {
    let mut v: Vec<Inst> = vec![];
    let mut imported = vec![];
    for i in insts {
        if i.op == 11 {
            if let V::Id(n) = i.vals[0] {
                imported.push(n);
            }
        }
    }
    for i in insts {
        for q in gen::prefix(i) {
            if let V::Id(n) = q.vals[0] {
                if !imported.contains(&n) {
                    imported.push(n);
                    v.insert(0, q);
                }
            }
        }
    }
    v.extend(insts.iter().cloned());
    run_bytes(ctx, &to_bytes(&module_words(&v), true));
}

/// The words of every instruction in every shape, several hundred instructions, without a
/// header: what a case stands in to find out whether it depends on its surroundings
pub fn everything() -> &'static [u32] {
    static W: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut v = vec![gen::import(302, "GLSL.std.450")];
        for d in OPS.iter().filter(|d| d.readable) {
            v.extend(variants(d));
        }
        let w = module_words(&v);
        match decode(&to_bytes(&w, true), &[glsl_spec()]) {
            Expect::Ok(_) => {}
            _ => panic!("the reference rejects the module of all instructions"),
        }
        w[5..].to_vec()
    })
}

/// The module with everything before its instructions, and optionally after them
fn inside(w: &[u32], after: bool) -> Vec<u32> {
    let mut x = w[..5].to_vec();
    x.extend(everything());
    x.extend(&w[5..]);
    if after {
        let n = everything();
        let mut at = 0;
        while at < n.len() {
            let l = (n[at] >> 16) as usize;
            // ids of imports may not repeat, the rest may
            if n[at] & 0xFFFF != 11 {
                x.extend(&n[at..at + l]);
            }
            at += l;
        }
    }
    x
}

/// Every instruction but the extended instructions and their imports
fn everything_but_imports() -> &'static [u32] {
    static W: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let n = everything();
        let (mut at, mut x) = (0, vec![]);
        while at < n.len() {
            let l = (n[at] >> 16) as usize;
            if n[at] & 0xFFFF != 11 && n[at] & 0xFFFF != 12 {
                x.extend(&n[at..at + l]);
            }
            at += l;
        }
        x
    })
}

/// Operand fidelity (C04)
pub fn c04(tier: Tier) -> Plan {
    let mut p = Plan::new();
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, true) {
                let mut v = gen::prefix(&i);
                v.push(i.clone());
                let b = to_bytes(&module_words(&v), true);
                if gen::readable(&i) {
                    // the reference decoder inverts the encoder, so the decoded instance is the one built
                    match decode(&b, &[glsl_spec()]) {
                        Expect::Ok(m) => assert!(m.insts.last() == Some(&i) && m.insts.len() == v.len(), "{:?} {:?}", m, i),
                        _ => panic!("reference decoder rejects {:?}", i),
                    }
                }
                run_bytes(ctx, &b);
                let b = to_bytes(&module_words(&v), false);
                run_bytes(ctx, &b);
            }
        });
        p.unit(format!("{} in a large module", d.name), move |ctx| {
            for i in gen::instances(d, tier == Tier::Thorough) {
                let mut v = gen::prefix(&i);
                v.push(i);
                let w = module_words(&v);
                run_bytes(ctx, &to_bytes(&inside(&w, true), true));
            }
        });
        // one operand word over a large set of values, all others fixed
        p.unit(format!("operand words of {}", d.name), move |ctx| {
            for i in variants(d) {
                if !gen::readable(&i) {
                    continue;
                }
                let mut w = module_words(&gen::prefix(&i));
                let at = w.len();
                enc_inst(&i, &mut w);
                let end = w.len();
                for pos in at + 1..end {
                    let old = w[pos];
                    for v in (0..tier.pick(16384u32, 300_000)).chain(gen::words()).chain((0..32).flat_map(|a| (0..32).map(move |b| 1u32 << a | 1u32 << b))) {
                        w[pos] = v;
                        run_bytes(ctx, &to_bytes(&w, true));
                    }
                    w[pos] = old;
                }
            }
        });
    }
    p.bound("every instruction: all optional shapes, every operand over ~100 boundary words / all enumerants / all mask combinations / 60 strings / lists up to 40, all pairs of operands over small alphabets, both byte orders");
    p.bound("the same instances of every instruction between modules that hold every instruction");
    p.bound(format!("every operand word of every instruction: all values below {}, all words with at most two bits", tier.pick(16384, 300_000)));
    let ops: Vec<&'static OpDef> = OPS.iter().filter(|d| d.readable).collect();
    for a in ops.iter().cloned() {
        let ops = ops.clone();
        p.unit(format!("neighbours of {}", a.name), move |ctx| {
            for b in &ops {
                for x in variants(a) {
                    for y in variants(b) {
                        seq(ctx, &[x.clone(), y.clone()]);
                        seq(ctx, &[y.clone(), x.clone(), y.clone()]);
                    }
                }
            }
        });
    }
    p.bound("every instruction next to every other instruction");
    if tier == Tier::Thorough {
        for d in OPS.iter().filter(|d| d.readable && d.code != 12 && d.code != 11) {
            if !d.kinds.iter().any(|k| matches!(k, K::L | K::I)) {
                continue;
            }
            // two words over all 16 bit values (joint)
            let i = variants(d).pop().unwrap();
            let mut w = module_words(&[]);
            let at = w.len();
            enc_inst(&i, &mut w);
            if w.len() - at < 3 {
                continue;
            }
            p.unit(format!("joint words of {}", d.name), move |ctx| {
                let mut w = w.clone();
                let n = w.len();
                for a in (0..65536u32).step_by(17) {
                    for s in [0u32, 8, 16] {
                        for b in gen::words() {
                            w[at + 1] = a << s;
                            w[n - 1] = b;
                            run_bytes(ctx, &to_bytes(&w, true));
                        }
                    }
                }
            });
        }
        p.bound("first and last operand words jointly: 3855 x 3 shifts x ~100 words");
    }
    let max = tier.pick(1100u32, 3000);
    for d in OPS.iter().filter(|d| d.readable && d.kinds.iter().any(|k| matches!(k, K::ManyI | K::ManyL | K::ManyPhi))) {
        p.unit(format!("list lengths of {}", d.name), move |ctx| {
            let pos = d.kinds.iter().position(|k| matches!(k, K::ManyI | K::ManyL | K::ManyPhi)).unwrap();
            let powers = (11..16).flat_map(|b| [(1u32 << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 2]);
            for n in (0..max).chain(powers).chain([32000, 65000, 65500, 65530]) {
                let mut i = gen::base_inst(d);
                i.vals[pos] = V::List(
                    (0..n)
                        .map(|x| match d.kinds[pos] {
                            K::ManyI => V::Id(x.wrapping_mul(0x9E37_79B9)),
                            K::ManyL => V::Lit(x.wrapping_mul(0x9E37_79B9)),
                            _ => V::Pair(x, !x, true),
                        })
                        .collect(),
                );
                let mut w = vec![];
                for v in &i.vals {
                    enc_val(v, &mut w);
                }
                if w.len() < 65535 {
                    seq(ctx, &[i.clone(), Inst { op: 253, vals: vec![] }]);
                    if n % 8 < 3 {
                        for period in [1u32, 2, 3, 8] {
                            if let V::List(l) = &mut i.vals[pos] {
                                for (x, v) in l.iter_mut().enumerate() {
                                    let x = x as u32 / 4 % period;
                                    *v = match d.kinds[pos] {
                                        K::ManyI => V::Id(x),
                                        K::ManyL => V::Lit(x),
                                        _ => V::Pair(x, x, true),
                                    };
                                }
                            }
                            seq(ctx, &[i.clone(), Inst { op: 253, vals: vec![] }]);
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("list operands of all lengths up to {} and around every power of two up to 65530, of different and of repeated elements", max));
    p
}

// ---------------------------------------------------------------- enumerants

pub struct EnumCtx {
    pub name: String,
    pre: Vec<u32>,
    head_at: usize,
    op: u16,
    kind: Kind,
    post: Vec<u32>,
}

#[derive(Clone, Copy)]
pub enum Kind {
    E(E),
    M(M),
}

impl EnumCtx {
    fn params(&self, w: u32) -> Vec<u32> {
        let mut v = vec![];
        match self.kind {
            Kind::E(e) => {
                if let Some(t) = e.find(w) {
                    for (i, k) in t.2.iter().enumerate() {
                        enc_val(&gen::base(*k, i), &mut v);
                    }
                }
            }
            Kind::M(m) => {
                if w & !m.mask() == 0 {
                    for _ in 0..m.lits(w) {
                        v.push(0xA5A5_0001);
                    }
                }
            }
        }
        v
    }
    pub fn words(&self, w: u32) -> Vec<u32> {
        let mut x = self.pre.clone();
        x.push(w);
        x.extend(self.params(w));
        x.extend(&self.post);
        let wc = x.len() - self.head_at;
        x[self.head_at] = (wc as u32) << 16 | self.op as u32;
        x
    }
    fn kind_name(&self) -> String {
        match self.kind {
            Kind::E(e) => format!("{:?}", e),
            Kind::M(m) => format!("{:?}", m),
        }
    }
    fn defined(&self, w: u32) -> bool {
        match self.kind {
            Kind::E(e) => e.open() || e.find(w).is_some(),
            Kind::M(m) => w & !m.mask() == 0,
        }
    }
    fn unknown(&self, w: u32) -> ReadError {
        match self.kind {
            Kind::E(e) => e.unknown(w),
            Kind::M(m) => m.unknown(w),
        }
    }
}

/// Every place an enumerant or a bit mask can stand
pub fn contexts() -> Vec<EnumCtx> {
    let mut out = vec![];
    for d in OPS.iter().filter(|d| d.readable) {
        for (p, k) in d.kinds.iter().enumerate() {
            let kind = match *k {
                K::En(e) | K::OptEn(e) => Kind::E(e),
                K::Mk(m) | K::OptMk(m) => Kind::M(m),
                _ => continue,
            };
            let b = gen::base_inst(d);
            let mut pre = header(9);
            let head_at = pre.len();
            pre.push(0);
            for v in &b.vals[..p] {
                enc_val(v, &mut pre);
            }
            let mut post = vec![];
            for v in &b.vals[p + 1..] {
                enc_val(v, &mut post);
            }
            if let Kind::E(E::Deco) = kind {
                for t in E::Deco.table() {
                    for (pi, pk) in t.2.iter().enumerate() {
                        let kind = match *pk {
                            K::En(e) => Kind::E(e),
                            K::Mk(m) => Kind::M(m),
                            _ => continue,
                        };
                        let mut pre2 = pre.clone();
                        pre2.push(t.0);
                        for (i, k) in t.2[..pi].iter().enumerate() {
                            enc_val(&gen::base(*k, i), &mut pre2);
                        }
                        out.push(EnumCtx {
                            name: format!("{} {} operand {}", d.name, t.1, pi),
                            pre: pre2,
                            head_at,
                            op: d.code,
                            kind,
                            post: post.clone(),
                        });
                    }
                }
            }
            out.push(EnumCtx { name: format!("{} operand {}", d.name, p), pre, head_at, op: d.code, kind, post });
        }
    }
    out
}

fn enum_case(ctx: &mut Ctx, e: &EnumCtx, w: u32, buf: &mut Vec<u8>) {
    if e.defined(w) {
        let b = to_bytes(&e.words(w), true);
        run_bytes(ctx, &b);
        return;
    }
    // fast path: a single undefined word, exact error expected
    if buf.is_empty() {
        *buf = to_bytes(&e.words(0xFFFF_FFFF), true);
    }
    let at = e.pre.len() * 4;
    buf[at..at + 4].copy_from_slice(&w.to_le_bytes());
    if !ctx.begin(|| format!("{} = {:#x}: {}", e.name, w, hex(buf))) {
        return;
    }
    let r = guard(|| read_module(buf, vec![]));
    match &r {
        Ok(Err(x)) if *x == e.unknown(w) => ctx.ok("undefined rejected (exact error)"),
        _ => {
            let r = ctx.lib(|| format!("{} = {:#x}: {}", e.name, w, hex(buf)), || read_module(buf, vec![]));
            ctx.fail(|| format!("{} = {:#x}: {}", e.name, w, hex(buf)), clip(format!("expected {:?}, got {:?}", e.unknown(w), r)));
        }
    }
    ctx.sum_states += 1;
    ctx.sum_trans += (buf.len() / 4) as u64;
    ctx.sample(|| format!("{} = {:#x} -> {:?}", e.name, w, r.as_ref().map(|r| r.as_ref().err())));
}

/// Enumerants and masks (C05)
pub fn c05(tier: Tier) -> Plan {
    let mut p = Plan::new();
    let n = contexts().len();
    let lim: u64 = tier.pick(1 << 20, 1 << 25);
    let mut kinds = std::collections::HashSet::new();
    for k in 0..n {
        let name = contexts()[k].name.clone();
        // thorough: all words in the first position of each enumeration
        let whole = tier == Tier::Thorough && kinds.insert(contexts()[k].kind_name());
        if !whole {
            for part in 0..8 {
                p.unit(format!("{} words, part {}", name, part), move |ctx| {
                    let e = &contexts()[k];
                    let mut buf = vec![];
                    for w in (lim / 8 * part)..(lim / 8 * (part + 1)) {
                        enum_case(ctx, e, w as u32, &mut buf);
                    }
                });
            }
            p.unit(format!("{} bit patterns", name), move |ctx| {
                let e = &contexts()[k];
                let mut buf = vec![];
                let mut seen = std::collections::HashSet::new();
                let low: Vec<u32> = (0..64).collect();
                for a in 0..32u32 {
                    for b in a..32 {
                        for c in b..32 {
                            for l in &low {
                                let w = 1u32 << a | 1 << b | 1 << c | l;
                                if w as u64 >= lim && seen.insert(w) {
                                    enum_case(ctx, e, w, &mut buf);
                                }
                            }
                        }
                    }
                }
                for b in 0..32 {
                    for l in 0..64u32 {
                        let w = !(1u32 << b) ^ l;
                        if w as u64 >= lim && seen.insert(w) {
                            enum_case(ctx, e, w, &mut buf);
                        }
                    }
                }
            });
        } else {
            for c in 0..64u64 {
                p.unit(format!("{} words part {}", name, c), move |ctx| {
                    let e = &contexts()[k];
                    let mut buf = vec![];
                    for w in (c << 26)..((c + 1) << 26) {
                        enum_case(ctx, e, w as u32, &mut buf);
                    }
                });
            }
        }
    }
    p.bound(format!("{} enumerant and mask positions (including operands of decorations)", n));
    p.bound(tier.pick(
        "in each: all words below 2^20; above, all words with up to three bits beyond every value of the low six bits, and their complements",
        "in one position of each enumeration and mask: all 2^32 words; in every other: all words below 2^25; above, all words with up to three bits beyond every value of the low six bits, and their complements",
    ));
    for k in 0..n {
        p.unit(format!("{} in a large module", contexts()[k].name), move |ctx| {
            let e = &contexts()[k];
            for v in (0..300u32).chain((0..32).map(|b| 1 << b)) {
                let w = e.words(v);
                run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                run_bytes(ctx, &to_bytes(&inside(&w, true), false));
            }
        });
    }
    p.bound("enumerant words 0..300 and single bits in every position after (and between) modules that hold every instruction, both byte orders");
    p.unit("enumerant operands", |ctx| {
        for d in OPS.iter().filter(|d| d.readable) {
            for (pos, k) in d.kinds.iter().enumerate() {
                if matches!(k, K::En(_) | K::OptEn(_) | K::Mk(_) | K::OptMk(_)) {
                    for c in gen::cands(*k, pos, true) {
                        let mut i = gen::base_inst(d);
                        i.vals[pos] = c;
                        // optional operands after an absent one
                        let mut gone = false;
                        for v in i.vals.iter_mut() {
                            if *v == V::Absent {
                                gone = true;
                            }
                            if gone {
                                *v = V::Absent;
                            }
                        }
                        run_bytes(ctx, &to_bytes(&module_words(&[i.clone()]), true));
                        run_bytes(ctx, &to_bytes(&module_words(&[i]), false));
                    }
                }
            }
        }
    });
    p.bound("every defined enumerant and mask with its operands over boundary values, both byte orders");
    for k in 0..n {
        p.unit(format!("cut operands of {}", contexts()[k].name), move |ctx| {
            let e = &contexts()[k];
            for v in (0..64u32).chain((0..32).map(|b| 1 << b)).chain([0xFFFF_FFFF]) {
                let w = e.words(v);
                let at = e.pre.len();
                for end in at..w.len() {
                    let mut x = w[..end].to_vec();
                    x[e.head_at] = ((end - e.head_at) as u32) << 16 | e.op as u32;
                    run_bytes(ctx, &to_bytes(&x, true));
                    x.extend([0x0001_0000, 0x0002_00F8, 1]);
                    run_bytes(ctx, &to_bytes(&x, true));
                }
            }
        });
    }
    p.bound("enumerant words 0..64 and single bits in every position with the instruction cut after every word from there on");
    p.unit("pairs of enumerants", |ctx| {
        // every combination of two enumerant operands of one instruction
        for d in OPS.iter().filter(|d| d.readable) {
            for p1 in 0..d.kinds.len() {
                for p2 in p1 + 1..d.kinds.len() {
                    let is = |k: K| matches!(k, K::En(_) | K::OptEn(_) | K::Mk(_) | K::OptMk(_));
                    if !is(d.kinds[p1]) || !is(d.kinds[p2]) {
                        continue;
                    }
                    for a in gen::cands(d.kinds[p1], p1, false) {
                        for b in gen::cands(d.kinds[p2], p2, false) {
                            let mut i = gen::base_inst(d);
                            i.vals[p1] = a.clone();
                            i.vals[p2] = b;
                            run_bytes(ctx, &to_bytes(&module_words(&[i]), true));
                        }
                    }
                }
            }
        }
    });
    p.bound("every pair of enumerants in two operands of one instruction");
    p.unit("all image types", |ctx| {
        for dim in 0..8u32 {
            for dep in 0..4 {
                for arr in 0..3 {
                    for ms in 0..3 {
                        for sam in 0..4 {
                            for fmt in 0..42 {
                                for acc in 0..5u32 {
                                    let mut w = header(9);
                                    w.extend([0, 1, 2, dim, dep, arr, ms, sam, fmt]);
                                    if acc > 0 {
                                        w.push(acc - 1);
                                    }
                                    w[5] = ((w.len() - 5) as u32) << 16 | 25;
                                    run_bytes(ctx, &to_bytes(&w, true));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    p.bound("OpTypeImage: product of all its enumerants plus one undefined value each");
    p
}

// ---------------------------------------------------------------- strings

#[derive(Clone)]
pub struct StrCtx {
    pub name: String,
    pre: Vec<u32>,
    head_at: usize,
    op: u16,
    post: Vec<u32>,
}

impl StrCtx {
    /// Words of a module with the given bytes as string literal; unterminated if `!term`
    pub fn words(&self, s: &[u8], term: bool) -> Vec<u32> {
        let mut x = self.pre.clone();
        if term {
            str_words(s, &mut x);
            x.extend(&self.post);
        } else {
            let mut b = s.to_vec();
            while b.len() % 4 != 0 {
                b.push(b'x');
            }
            for c in b.chunks(4) {
                x.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
            }
        }
        let wc = x.len() - self.head_at;
        x[self.head_at] = (wc as u32) << 16 | self.op as u32;
        x
    }
    fn raw(&self, ws: &[u32]) -> Vec<u32> {
        let mut x = self.pre.clone();
        x.extend(ws);
        x.extend(&self.post);
        let wc = x.len() - self.head_at;
        x[self.head_at] = (wc as u32) << 16 | self.op as u32;
        x
    }
}

pub fn string_contexts() -> Vec<StrCtx> {
    let mut out = vec![];
    for d in OPS.iter().filter(|d| d.readable) {
        for (p, k) in d.kinds.iter().enumerate() {
            let b = gen::base_inst(d);
            let mut pre = header(9);
            let head_at = pre.len();
            pre.push(0);
            for v in &b.vals[..p] {
                enc_val(v, &mut pre);
            }
            let mut post = vec![];
            for v in &b.vals[p + 1..] {
                enc_val(v, &mut post);
            }
            match *k {
                K::S | K::OptS => out.push(StrCtx { name: d.name.into(), pre, head_at, op: d.code, post }),
                K::En(E::Deco) => {
                    pre.push(41);
                    post.insert(0, 1);
                    out.push(StrCtx { name: format!("{} LinkageAttributes", d.name), pre, head_at, op: d.code, post });
                }
                _ => {}
            }
        }
    }
    out
}

/// String literals (C06)
pub fn c06(tier: Tier) -> Plan {
    let mut p = Plan::new();
    p.assume("bytes after the terminating NUL within the last word are ignored by the reader and not part of the property");
    let cs = string_contexts();
    p.bound(format!("{} string positions", cs.len()));
    let maxlen = tier.pick(700usize, 5000);
    for c in cs.clone() {
        p.unit(format!("lengths in {}", c.name), move |ctx| {
            for n in (0..maxlen).chain([16383, 16384, 65535, 65536, 131071, 250_000, 262_100]) {
                let s: Vec<u8> = (0..n).map(|i| 1 + (i % 127) as u8).collect();
                let t = c.words(&s, true);
                if t.len() - c.head_at <= 65535 {
                    run_bytes(ctx, &to_bytes(&t, true));
                }
                if n < 4000 {
                    let u = c.words(&s, false);
                    run_bytes(ctx, &to_bytes(&u, true));
                }
            }
        });
    }
    p.bound(format!("all lengths up to {} and boundary lengths up to 262100 bytes, terminated and unterminated", maxlen));
    for c in cs.clone() {
        for part in 0..4u32 {
            let c = c.clone();
            p.unit(format!("characters in {} at offset {}", c.name, part), move |ctx| {
                let mut buf = String::new();
                let step = if tier == Tier::Thorough || c.name == "OpString" { 1 } else { 61 };
                let mut v = 0u32;
                while v <= 0x10FFFF {
                    if let Some(ch) = char::from_u32(v) {
                        if v != 0 {
                            buf.clear();
                            for _ in 0..part {
                                buf.push('x');
                            }
                            buf.push(ch);
                            run_bytes(ctx, &to_bytes(&c.words(buf.as_bytes(), true), true));
                        }
                    }
                    v += if v < 0x900 { 1 } else { step };
                }
            });
        }
    }
    p.bound(tier.pick(
        "every Unicode scalar value at each of the 4 byte offsets in OpString (every 61st above U+0900 in the other positions)",
        "every Unicode scalar value at each of the 4 byte offsets in every string position",
    ));
    // all 2^24 three byte literals and the terminator: one word
    let sctx = cs.iter().find(|c| c.name == "OpString").unwrap().clone();
    for hi in 0..64u32 {
        let c = sctx.clone();
        p.unit(format!("three byte literals part {}", hi), move |ctx| {
            let mut b = to_bytes(&c.raw(&[0]), true);
            let at = c.pre.len() * 4;
            for w in (hi << 18)..((hi + 1) << 18) {
                b[at..at + 4].copy_from_slice(&w.to_le_bytes());
                str_fast(ctx, &b, at);
            }
        });
    }
    p.bound("all 2^24 one word literals with a NUL in the last byte");
    if tier == Tier::Thorough {
        for hi in 0..256u32 {
            let c = sctx.clone();
            p.unit(format!("four byte literals part {}", hi), move |ctx| {
                let mut b = to_bytes(&c.raw(&[0, 0]), true);
                let at = c.pre.len() * 4;
                for w in 0..(1u32 << 24) {
                    let w = w | hi << 24;
                    b[at..at + 4].copy_from_slice(&w.to_le_bytes());
                    // a second word follows; if the first has a NUL that is excess data
                    str_fast(ctx, &b, at);
                }
            });
        }
        p.bound("all 2^32 four byte literals followed by a NUL word");
    }
    // byte class sequences (UTF-8 automaton), all positions
    let classes: Vec<u8> = vec![0x61, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF];
    let depth = tier.pick(3usize, 4);
    for c in cs.clone() {
        let classes = classes.clone();
        p.unit(format!("byte classes in {}", c.name), move |ctx| {
            let mut s = vec![];
            byte_seqs(ctx, &mut s, &classes, depth, &mut |ctx, s| {
                for pad in [0usize, 1, 2, 3] {
                    let mut t = vec![b'q'; pad];
                    t.extend_from_slice(s);
                    run_bytes(ctx, &to_bytes(&c.words(&t, true), true));
                }
            });
        });
    }
    for &first in &classes {
        let c = sctx.clone();
        let classes = classes.clone();
        p.unit(format!("byte class sequences from {:#x}", first), move |ctx| {
            let mut s = vec![first];
            byte_seqs(ctx, &mut s, &classes, tier.pick(4, 5), &mut |ctx, s| {
                run_bytes(ctx, &to_bytes(&c.words(s, true), true));
            });
        });
    }
    p.bound(format!(
        "all byte sequences up to length {} over {} UTF-8 boundary bytes at 4 offsets in every position, up to length {} in OpString",
        depth,
        classes.len(),
        tier.pick(5, 6)
    ));
    for c in cs.clone() {
        p.unit(format!("texts in {}", c.name), move |ctx| {
            for s in gen::strings() {
                for le in [true, false] {
                    run_bytes(ctx, &to_bytes(&c.words(s.as_bytes(), true), le));
                }
                // embedded NUL: the literal ends there, what follows is operands
                for cut in 0..s.len().min(9) {
                    let mut b = s.as_bytes().to_vec();
                    b[cut] = 0;
                    run_bytes(ctx, &to_bytes(&c.words(&b, true), true));
                }
            }
            // words after the terminator
            for extra in [vec![], vec![0u32], vec![1], vec![0x61], vec![0, 0], vec![1, 2, 3]] {
                for s in ["", "abc", "abcd"] {
                    let mut ws = vec![];
                    str_words(s.as_bytes(), &mut ws);
                    ws.extend(&extra);
                    run_bytes(ctx, &to_bytes(&c.raw(&ws), true));
                }
            }
        });
    }
    p.bound("60 awkward texts in both byte orders, with a NUL at each of the first 9 bytes, and with excess words");
    for c in cs.clone() {
        p.unit(format!("{} in a large module", c.name), move |ctx| {
            for s in gen::strings() {
                let w = c.words(s.as_bytes(), true);
                run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                run_bytes(ctx, &to_bytes(&inside(&w, true), false));
            }
            for n in 0..40usize {
                let s: Vec<u8> = (0..n).map(|i| 1 + (i * 7 % 126) as u8).collect();
                for t in [true, false] {
                    let w = c.words(&s, t);
                    run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                    run_bytes(ctx, &to_bytes(&inside(&w, true), true));
                }
            }
            let mut s = vec![];
            byte_seqs(ctx, &mut s, &[0x61, 0x80, 0xC3, 0xE2, 0xED, 0xF0, 0xFF], 3, &mut |ctx, s| {
                run_bytes(ctx, &to_bytes(&inside(&c.words(s, true), false), true));
            });
        });
    }
    p.bound("awkward texts, lengths up to 40 terminated or not, and malformed texts in every position after (and between) modules that hold every instruction");
    for c in cs.clone() {
        for part in 0..4usize {
            let c = c.clone();
            p.unit(format!("long texts in {}, part {}", c.name, part), move |ctx| {
                let top = if c.name == "OpString" { tier.pick(270usize, 600) } else { tier.pick(140, 300) };
                // one character or malformed byte at every place of texts of many lengths
                for n in (part..top).step_by(4) {
                    for at in 0..=n {
                        if at > 20 && at + 20 < n && at % 16 > 1 && at % 16 < 13 && n % 16 > 1 {
                            continue;
                        }
                        for ins in [&[0xC3u8, 0xA9][..], &[0xE2, 0x82, 0xAC], &[0xF0, 0x9F, 0x98, 0x80], &[0x80], &[0xE2, 0x82], &[0xFF], &[0xED, 0xA0, 0x80], &[0xC0, 0x80]] {
                            let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                            b.splice(at..at, ins.iter().cloned());
                            run_bytes(ctx, &to_bytes(&c.words(&b, true), true));
                        }
                    }
                }
            });
        }
    }
    p.bound("one multi byte character or one of five malformed sequences at each place of texts of all lengths up to 140 (270 in OpString; 300 and 600 thorough; within 20 bytes of an end or 3 of a multiple of 16)");
    p.unit("very long texts", |ctx| {
        let c = string_contexts().into_iter().find(|c| c.name == "OpString").unwrap();
        for k in 9..18u32 {
            for n in (1usize << k) - 6..(1 << k) + 6 {
                for back in 0..10usize {
                    for ins in [&[0xC3u8, 0xA9][..], &[0xE2, 0x82, 0xAC], &[0xF0, 0x9F, 0x98, 0x80], &[0x80], &[0xE2, 0x82], &[0xFF]] {
                        let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                        let at = n - back;
                        b.splice(at..at, ins.iter().cloned());
                        run_bytes(ctx, &to_bytes(&c.words(&b, true), true));
                    }
                }
            }
        }
    });
    p.bound("the same at the last 10 places of texts of lengths around every power of two up to 131072");
    // two strings in one module, string followed by other operands
    p.unit("string pairs", |ctx| {
        let ss = gen::strings();
        for a in &ss {
            for b in &ss {
                let v = [
                    Inst { op: 7, vals: vec![V::Id(1), V::Str(a.clone())] },
                    Inst { op: 6, vals: vec![V::Id(2), V::Lit(3), V::Str(b.clone())] },
                ];
                run_bytes(ctx, &to_bytes(&module_words(&v), true));
            }
        }
    });
    p.bound("all pairs of the awkward texts in consecutive instructions");
    p
}

fn byte_seqs(ctx: &mut Ctx, s: &mut Vec<u8>, alpha: &[u8], left: usize, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    f(ctx, s);
    if left == 0 {
        return;
    }
    for &a in alpha {
        s.push(a);
        byte_seqs(ctx, s, alpha, left - 1, f);
        s.pop();
    }
}

/// One OpString whose literal starts at byte `at` and is the rest of the module
fn str_fast(ctx: &mut Ctx, b: &[u8], at: usize) {
    if !ctx.begin(|| hex(b)) {
        return;
    }
    let r = guard(|| read_module(b, vec![]));
    let lit = &b[at..];
    let end = lit.iter().position(|c| *c == 0).unwrap();
    let excess = lit.len() / 4 > end / 4 + 1;
    let txt = std::str::from_utf8(&lit[..end]);
    let ok = match (&r, txt) {
        (Ok(Ok(m)), Ok(t)) if !excess => match m.instructions.as_slice() {
            [magmaflow::spv::raw::Core::OpString(o)] => o.string == t,
            _ => false,
        },
        (Ok(Err(e)), Ok(_)) => excess && *e == ReadError::InstructionHadExcessData,
        (Ok(Err(e)), Err(_)) => excess || *e == ReadError::InvalidString,
        _ => false,
    };
    if ok {
        ctx.ok(if matches!(r, Ok(Ok(_))) { "accepted" } else { "rejected (exact error)" });
    } else {
        let r = ctx.lib(|| hex(b), || read_module(b, vec![]));
        ctx.fail(|| hex(b), clip(format!("literal {:?}: got {:?}", txt, r)));
    }
    ctx.sum_states += 1;
    ctx.sum_trans += (b.len() / 4) as u64;
    ctx.sample(|| format!("{} -> {:?}", hex(b), r));
}

/// Opcode dispatch (C07)
pub fn c07(tier: Tier) -> Plan {
    let mut p = Plan::new();
    let maxwc = tier.pick(12u32, 20);
    for c in 0..64u32 {
        p.unit(format!("opcodes part {}", c), move |ctx| {
            for op in (c * 1024)..((c + 1) * 1024) {
                let top = if op < 512 { maxwc } else { 6 };
                for wc in 0..=top {
                    for fill in 0..4u32 {
                        let mut w = header(9);
                        w.push(wc << 16 | op);
                        for k in 1..wc {
                            w.push(match fill {
                                0 => 0,
                                1 => 1,
                                2 => k,
                                _ => 0x0000_6100 + k,
                            });
                        }
                        run_bytes(ctx, &to_bytes(&w, true));
                        if fill == 0 {
                            // something valid follows
                            w.push(0x0001_0000);
                            run_bytes(ctx, &to_bytes(&w, true));
                        }
                    }
                }
            }
        });
    }
    p.bound(format!("all 65536 opcodes x word counts 0..6 (0..{} below 512) x 4 operand patterns, alone and followed by an instruction", maxwc));
    p.unit("large word counts", |ctx| {
        for op in 0..400u32 {
            for wc in [255u32, 256, 257, 1000, 32767, 32768, 65535] {
                let mut w = header(9);
                w.push(wc << 16 | op);
                w.extend(std::iter::repeat(0).take(wc as usize - 1));
                run_bytes(ctx, &to_bytes(&w, true));
            }
        }
    });
    p.bound("opcodes below 400 with 7 large word counts");
    for d in OPS.iter().filter(|d| d.readable) {
        p.unit(format!("after {}", d.name), move |ctx| {
            let i = gen::base_inst(d);
            let mut v = gen::prefix(&i);
            v.push(i);
            let base = module_words(&v);
            for op in 0..1024u32 {
                let top = if op < 400 { 8 } else { 4 };
                for wc in 0..=top {
                    for fill in 0..2u32 {
                        let mut w = base.clone();
                        w.push(wc << 16 | op);
                        for k in 1..wc {
                            w.push(if fill == 0 { k } else { 0x0000_6161 });
                        }
                        run_bytes(ctx, &to_bytes(&w, true));
                        if fill == 0 && op < 400 {
                            // in the other byte order, and with something after it
                            run_bytes(ctx, &to_bytes(&w, false));
                            w.push(0x0001_0000);
                            run_bytes(ctx, &to_bytes(&w, true));
                        }
                    }
                }
            }
        });
        p.unit(format!("before {}", d.name), move |ctx| {
            // the instruction that follows does not matter
            let i = gen::base_inst(d);
            let tail = module_words(&[i.clone()])[5..].to_vec();
            let prefix = module_words(&gen::prefix(&i));
            for op in 0..if tail.len() < 3 { 4096u32 } else { 400 } {
                for wc in 1..=if op < 400 { 5u32 } else { 1 } {
                    let mut w = prefix.clone();
                    w.push(wc << 16 | op);
                    for k in 1..wc {
                        w.push(k);
                    }
                    w.extend(&tail);
                    run_bytes(ctx, &to_bytes(&w, true));
                    if wc == 1 {
                        run_bytes(ctx, &to_bytes(&w, false));
                        w.extend(&tail);
                        run_bytes(ctx, &to_bytes(&w, true));
                    }
                }
            }
        });
        p.unit(format!("instances of {}", d.name), move |ctx| {
            for i in gen::instances(d, false) {
                let mut v = gen::prefix(&i);
                v.push(i);
                run_bytes(ctx, &to_bytes(&module_words(&v), true));
            }
        });
    }
    for c in 0..64u32 {
        p.unit(format!("opcodes in a large module, part {}", c), move |ctx| {
            for op in (c * 32)..((c + 1) * 32) {
                for wc in 0..if op < 400 { 8u32 } else { 3 } {
                    let mut w = header(9);
                    w.push(wc << 16 | op);
                    for k in 1..wc {
                        w.push(k);
                    }
                    run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                    run_bytes(ctx, &to_bytes(&inside(&w, true), false));
                }
            }
            for op in (2048 + c * 992)..(2048 + (c + 1) * 992) {
                let mut w = header(9);
                w.push(1 << 16 | op);
                run_bytes(ctx, &to_bytes(&inside(&w, false), true));
            }
        });
    }
    p.bound("all opcodes after (below 2048 also between) modules that hold every instruction, word counts 0..7 below 400, 0..2 below 2048, 1 above");
    p.bound("opcodes below 400 (4096 before instructions without operands or with one) directly before each instruction, word counts 1..5, both byte orders, and before two of it");
    p.bound("opcodes below 1024 after each instruction, with word counts 0..4 (0..8 below 400), 2 operand patterns, both byte orders, last and not last; every instruction with valid operands in all shapes");
    p
}

// ---------------------------------------------------------------- extended instruction sets

pub fn custom(name: &'static str, tag: u32) -> SetSpec {
    let n: [&'static str; 5] = if tag == 0 { ["A0", "A1", "A2", "AS", "AM"] } else { ["B0", "B1", "B2", "BS", "BM"] };
    SetSpec {
        name,
        insts: vec![
            (0, n[0], vec![]),
            (13, n[1], vec![K::I]),
            (14 + tag, n[2], vec![K::L, K::I]),
            (20, n[3], vec![K::S]),
            (21, n[4], vec![K::I, K::ManyL]),
            (22, n[4], vec![K::ManyI]),
        ],
    }
}

/// The sets a caller can pass: (reference, real)
fn configs() -> Vec<(String, Vec<(SetSpec, bool)>)> {
    let g = || (glsl_spec(), true);
    let c = |name: &'static str, t: u32| (custom(name, t), false);
    vec![
        ("none".into(), vec![]),
        ("glsl".into(), vec![g()]),
        ("custom".into(), vec![c("Custom", 0)]),
        ("glsl, custom".into(), vec![g(), c("Custom", 0)]),
        ("custom, glsl".into(), vec![c("Custom", 0), g()]),
        ("two customs".into(), vec![c("Custom", 0), c("Custom.2", 1)]),
        ("two customs of one name".into(), vec![c("Custom", 1), c("Custom", 0)]),
        ("glsl and a custom of its name".into(), vec![g(), c("GLSL.std.450", 1)]),
        ("custom of the name of glsl, glsl".into(), vec![c("GLSL.std.450", 0), g()]),
        ("empty name".into(), vec![c("", 0), g()]),
        ("three".into(), vec![g(), c("Custom", 0), c("Custom.2", 1)]),
        ("twice glsl".into(), vec![g(), g()]),
    ]
}

/// Names of generated sets
fn intern(k: usize) -> &'static str {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &N.get_or_init(|| (0..400).map(|k| format!("Set.{}", k)).collect())[k]
}

fn real(cfg: &[(SetSpec, bool)]) -> Vec<Box<dyn ExtInstSet>> {
    cfg.iter()
        .map(|(s, is_glsl)| -> Box<dyn ExtInstSet> {
            if *is_glsl {
                Box::new(magmaflow::glsl450::InstSet)
            } else {
                Box::new(CSet(s.clone()))
            }
        })
        .collect()
}

fn ext_alphabet() -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![];
    let mut add = |op: u32, ops: &[u32]| {
        let mut v = vec![((ops.len() + 1) as u32) << 16 | op];
        v.extend(ops);
        out.push(v);
    };
    for id in [1u32, 2] {
        for name in ["GLSL.std.450", "Custom", "Custom.2", "", "GLSL.std.45", "GLSL.std.4500", "glsl.std.450", "GLSL.std.450 "] {
            let mut w = vec![id];
            str_words(name.as_bytes(), &mut w);
            if id == 2 && name.len() > 8 && name != "GLSL.std.450" {
                continue;
            }
            add(11, &w);
        }
    }
    for set in [1u32, 2, 3] {
        for (n, ops) in [
            (13u32, vec![7u32]),
            (14, vec![8]),
            (13, vec![]),
            (13, vec![7, 8]),
            (14, vec![7, 8]),
            (15, vec![7, 8]),
            (0, vec![]),
            (12, vec![7]),
            (20, vec![0x0063_6261]),
            (21, vec![4, 5, 6]),
            (22, vec![]),
            (0xFFFF_FFFF, vec![7]),
        ] {
            if set == 3 && n != 13 {
                continue;
            }
            let mut w = vec![100, 101, set, n];
            w.extend(ops);
            add(12, &w);
        }
    }
    // incomplete extended instructions
    add(12, &[100, 101, 1]);
    add(12, &[100, 101]);
    // other instructions that define or use the same ids
    add(0, &[]);
    add(248, &[1]);
    add(7, &[1, 0x61]);
    add(5, &[1, 0x61]);
    add(19, &[2]);
    out
}

/// Extended instruction set binding (C08): every sequence of imports and uses
pub fn c08(tier: Tier) -> Plan {
    let mut p = Plan::new();
    let alpha = std::sync::Arc::new(ext_alphabet());
    let depth = tier.pick(5usize, 6);
    let cfgs = configs();
    p.bound(format!(
        "all sequences of up to {} instructions over an alphabet of {} (imports of 8 names under 2 ids, extended instructions of 3 set ids, unrelated instructions), extended until the first rejected instruction and one beyond, x {} configurations of known sets",
        depth,
        alpha.len(),
        cfgs.len()
    ));
    p.assume("when several known sets have the same name, the first in the caller's list is the one bound");
    for (ci, (name, _)) in cfgs.iter().enumerate() {
        for first in 0..alpha.len() {
            let alpha = alpha.clone();
            p.unit(format!("sets [{}], first instruction {}", name, first), move |ctx| {
                let cfg = &configs()[ci].1;
                let specs: Vec<SetSpec> = cfg.iter().map(|c| c.0.clone()).collect();
                let mut w = header(9);
                w.extend(&alpha[first]);
                ext_rec(ctx, &mut w, &alpha, depth - 1, &specs, cfg, 0x100 + ci as u64);
            });
        }
    }
    // instruction numbers and operands of the built in set
    p.unit("GLSL.std.450 numbers", |ctx| {
        let near = (0..128u32).flat_map(|n| (7..32).map(move |b| n | 1 << b));
        for n in (0..4096u32).chain(gen::words()).chain(near) {
            for ops in 0..4u32 {
                let mut w = header(9);
                let mut imp = vec![5];
                str_words(b"GLSL.std.450", &mut imp);
                w.push(((imp.len() + 1) as u32) << 16 | 11);
                w.extend(&imp);
                w.push((5 + ops) << 16 | 12);
                w.extend([1, 2, 5, n]);
                for k in 0..ops {
                    w.push(70 + k);
                }
                run_bytes(ctx, &to_bytes(&w, true));
            }
        }
    });
    p.bound("GLSL.std.450: all instruction numbers below 4096, those below 128 with one more bit, and ~100 boundary words x 0..3 operands");
    p.unit("operands and ids", |ctx| {
        for a in gen::words() {
            for pos in 0..4 {
                for n in [13u32, 14] {
                    let mut ops = [1u32, 2, 5, 70];
                    ops[pos] = a;
                    let mut w = header(9);
                    let mut imp = vec![ops[2]];
                    str_words(b"GLSL.std.450", &mut imp);
                    w.push(((imp.len() + 1) as u32) << 16 | 11);
                    w.extend(&imp);
                    w.push(6 << 16 | 12);
                    w.extend([ops[0], ops[1], ops[2], n, ops[3]]);
                    run_bytes(ctx, &to_bytes(&w, true));
                    run_bytes(ctx, &to_bytes(&w, false));
                }
            }
        }
    });
    p.bound("every operand of an extended instruction over ~100 words, both byte orders");
    p.unit("pairs of set ids", |ctx| {
        // ids that differ in few bits are different
        let cfg = [(glsl_spec(), true), (custom("Custom", 0), false)];
        let specs: Vec<SetSpec> = cfg.iter().map(|c| c.0.clone()).collect();
        let import = |w: &mut Vec<u32>, id: u32, name: &[u8]| {
            let mut imp = vec![id];
            str_words(name, &mut imp);
            w.push(((imp.len() + 1) as u32) << 16 | 11);
            w.extend(&imp);
        };
        let ws = gen::words();
        for &a in &ws {
            for b in ws.iter().cloned().chain((0..32).map(|k| a ^ 1 << k)).chain([a.swap_bytes(), a.rotate_left(16), !a, a.wrapping_neg(), a.wrapping_add(1), a.wrapping_sub(1), a.wrapping_mul(2)]) {
                // use under another id
                let mut w = header(9);
                import(&mut w, a, b"GLSL.std.450");
                w.extend([6 << 16 | 12, 1, 2, b, 13, 9]);
                run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| real(&cfg));
                // both are bound
                let mut w = header(9);
                import(&mut w, a, b"GLSL.std.450");
                import(&mut w, b, b"Custom");
                w.extend([6 << 16 | 12, 1, 2, a, 13, 9]);
                w.extend([6 << 16 | 12, 1, 2, b, 13, 9]);
                w.extend([6 << 16 | 12, 1, 2, a, 14, 9]);
                run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| real(&cfg));
            }
        }
    });
    p.bound("all pairs of ~100 set ids, and ids that differ in one bit, by byte order, or by one: one bound and the other used, and both bound");
    p.unit("names", |ctx| {
        // every known name against every requested name, incl. all prefixes and single byte changes
        let names: Vec<&'static str> = vec!["GLSL.std.450", "Custom", "", "a", "abc", "abcd", "é", "OpenCL.std", " Custom", "Custom ", "CUSTOM", "Custom\n", "\tabc", "a b", "GLSL.std.450 ", "GLSL_std_450", "É", "abcabc"];
        for known in &names {
            let specs = [custom(known, 0)];
            let mut wanted: Vec<Vec<u8>> = vec![];
            for n in &names {
                for k in 0..=n.len() {
                    wanted.push(n.as_bytes()[..k].to_vec());
                    wanted.push(n.as_bytes()[k..].to_vec());
                }
                for k in 0..n.len() {
                    for bit in 0..8 {
                        let mut b = n.as_bytes().to_vec();
                        b[k] ^= 1 << bit;
                        wanted.push(b);
                    }
                }
                for k in 1..=255u8 {
                    let mut b = n.as_bytes().to_vec();
                    b.push(k);
                    wanted.push(b);
                    let mut b = vec![k];
                    b.extend(n.as_bytes());
                    wanted.push(b);
                }
            }
            for b in wanted {
                let mut imp = vec![5];
                str_words(&b, &mut imp);
                let mut w = header(9);
                w.push(((imp.len() + 1) as u32) << 16 | 11);
                w.extend(&imp);
                w.extend([6 << 16 | 12, 1, 2, 5, 13, 9]);
                run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| vec![Box::new(CSet(specs[0].clone()))]);
            }
        }
    });
    p.bound("18 known names (also with blanks, in other cases, repeated) x every prefix, suffix, single bit change and one byte extension at either end of these names");
    p.unit("large module", |ctx| {
        // bindings survive a module that holds every instruction
        for n in 0..200u32 {
            for id in [302u32, 200, 5, 301, 303, 0] {
                for ops in 0..3u32 {
                    let mut w = header(9);
                    if id == 5 {
                        let mut imp = vec![5];
                        str_words(b"GLSL.std.450", &mut imp);
                        w.push(((imp.len() + 1) as u32) << 16 | 11);
                        w.extend(&imp);
                    }
                    w.push((5 + ops) << 16 | 12);
                    w.extend([1, 2, id, n]);
                    for k in 0..ops {
                        w.push(70 + k);
                    }
                    run_bytes(ctx, &to_bytes(&inside(&w, false), true));
                    run_bytes(ctx, &to_bytes(&inside(&w, true), false));
                }
            }
        }
    });
    p.bound("extended instructions 0..200 of 6 set ids after (and between) modules that hold every instruction");
    for part in 0..8usize {
        p.unit(format!("instructions between imports and uses, part {}", part), move |ctx| {
            // whatever stands between, the bindings stay: every instruction, with operands that are the ids of the sets
            let cfg = [(glsl_spec(), true), (custom("Custom", 0), false)];
            let specs: Vec<SetSpec> = cfg.iter().map(|c| c.0.clone()).collect();
            let ids: [[u32; 4]; 5] = [[0, 1, 2, 3], [1, 0, 7, 9], [5, 0xFFFF_FFFF, 0, 6], [70, 71, 72, 73], [0x1_0000, 0x100, 1, 0]];
            for (k, d) in OPS.iter().enumerate() {
                if k % 8 != part || d.code == 11 || d.code == 12 {
                    continue;
                }
                let mut between: Vec<Vec<u32>> = vec![];
                for i in gen::instances(d, false) {
                    let mut x = vec![];
                    enc_inst(&i, &mut x);
                    between.push(x);
                }
                for n in 1..=4usize {
                    for set in &ids {
                        for (b, x) in between.iter().enumerate() {
                            let mut w = header(9);
                            for (m, id) in set[..n].iter().enumerate() {
                                let mut imp = vec![*id];
                                str_words(if m % 2 == 0 { b"GLSL.std.450" } else { b"Custom" }, &mut imp);
                                w.push(((imp.len() + 1) as u32) << 16 | 11);
                                w.extend(&imp);
                            }
                            w.extend(x);
                            if b % 2 == 1 {
                                w.extend(x);
                            }
                            for id in &set[..n] {
                                w.extend([6 << 16 | 12, 1, 2, *id, 13, 9]);
                            }
                            // one that is not bound, or one bound again
                            if n < 4 {
                                let mut y = w.clone();
                                y.extend([6 << 16 | 12, 1, 2, set[n], 13, 9]);
                                run_bytes_sets(ctx, &to_bytes(&y, true), &specs, &|| real(&cfg));
                            }
                            run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| real(&cfg));
                        }
                    }
                }
            }
        });
    }
    p.bound("every instruction in all operand shapes, once or twice, between 1 to 4 imports under 5 choices of ids and the uses of all of them");
    p.unit("many known sets", move |ctx| {
        // n known sets, each of which can be imported and used
        for n in (1..tier.pick(40usize, 80)).chain([64, 65, 128, 200, 256, 257, 300]) {
            let cfg: Vec<(SetSpec, bool)> = (0..n)
                .map(|k| {
                    let name: &'static str = intern(k);
                    (custom(name, (k % 2) as u32), false)
                })
                .collect();
            let specs: Vec<SetSpec> = cfg.iter().map(|c| c.0.clone()).collect();
            let mut all = header(9);
            for k in 0..n + 1 {
                let mut w = header(9);
                let mut imp = vec![k as u32 + 10];
                str_words(intern(k).as_bytes(), &mut imp);
                w.push(((imp.len() + 1) as u32) << 16 | 11);
                w.extend(&imp);
                w.extend([7 << 16 | 12, 1, 2, k as u32 + 10, 14 + (k % 2) as u32, 9, 8]);
                if k < n {
                    all.extend(&w[5..]);
                }
                run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| real(&cfg));
            }
            run_bytes_sets(ctx, &to_bytes(&all, true), &specs, &|| real(&cfg));
        }
    });
    p.bound("1..300 known sets, each imported and used alone, all together, and one that is not known");
    p.unit("many imports", move |ctx| {
        for n in 0..tier.pick(260u32, 1500) {
            // n distinct imports, then a use of each end, then a duplicate
            let cfg = [(glsl_spec(), true), (custom("Custom", 0), false)];
            let specs: Vec<SetSpec> = cfg.iter().map(|c| c.0.clone()).collect();
            let mut w = header(9);
            for k in 0..n {
                let mut imp = vec![k * 3 + 1];
                str_words(if k % 2 == 0 { b"GLSL.std.450" } else { b"Custom" }, &mut imp);
                w.push(((imp.len() + 1) as u32) << 16 | 11);
                w.extend(&imp);
            }
            for k in 0..n {
                w.extend([6 << 16 | 12, 1, 2, k * 3 + 1, 13, 9]);
            }
            run_bytes_sets(ctx, &to_bytes(&w, true), &specs, &|| real(&cfg));
            for (i, id) in [(0u32, 1u32), (1, n * 3 + 1), (2, 2)] {
                let mut x = w.clone();
                if i == 0 {
                    let mut imp = vec![id];
                    str_words(b"Custom", &mut imp);
                    x.push(((imp.len() + 1) as u32) << 16 | 11);
                    x.extend(&imp);
                } else {
                    x.extend([6 << 16 | 12, 1, 2, id, 13, 9]);
                }
                run_bytes_sets(ctx, &to_bytes(&x, true), &specs, &|| real(&cfg));
            }
        }
    });
    p.bound(format!("up to {} imports in one module, each used, then a duplicate import and unknown set ids", tier.pick(260, 1500)));
    p
}

fn ext_rec(ctx: &mut Ctx, w: &mut Vec<u32>, alpha: &[Vec<u32>], left: usize, specs: &[SetSpec], cfg: &[(SetSpec, bool)], st: u64) {
    let b = to_bytes(w, true);
    run_bytes_sets(ctx, &b, specs, &|| real(cfg));
    // model state: the bindings; a rejected prefix is only extended by one instruction
    let ok = matches!(decode(&b, specs), Expect::Ok(_));
    if left == 0 {
        return;
    }
    let n = w.len();
    for (k, a) in alpha.iter().enumerate() {
        w.extend(a);
        let to = mix(st, k as u64);
        if ok {
            ext_rec(ctx, w, alpha, left - 1, specs, cfg, to);
        } else if k % 5 == 0 {
            let b = to_bytes(w, true);
            run_bytes_sets(ctx, &b, specs, &|| real(cfg));
        }
        w.truncate(n);
    }
}
