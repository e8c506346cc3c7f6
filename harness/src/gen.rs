//! Enumerators of instruction instances, shared by the checks.

use crate::spec::*;

/// Operand words: boundaries, single bits, byte patterns
pub fn words() -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 2, 3, 7, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
    v.extend([0x0102_0304, 0x1234_5678, 0xFEDC_BA98, 0x0723_0203, 0x0302_2307, 0xFF, 0xFF00, 0xFF_0000, 0xFF00_0000]);
    v.extend([0x7FFF, 0x8000, 0xFFFE, 0x1_0001, 0xFFFF_FFFE, 0xFFFF_0000, 999, 1000, 1001, 0x0001_0000, 320, 321]);
    for b in 0..32 {
        v.push(1 << b);
        v.push(!(1 << b));
    }
    v.sort();
    v.dedup();
    v
}

pub fn few_words() -> Vec<u32> {
    vec![0, 1, 0x12345678, 0xFFFF_FFFF, 0x8000_0000]
}

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "ab", "abc", "abcd", "abcde", "abcdefg", "abcdefgh", "main", "GLSL.std.450", "\"", "\\", "a\"b", "a\\", "\\\"",
        "a\nb", "\n", "\t", "\r\n", " ", "  lead", "trail ", "%1", "é", "aé", "aaé", "aaaé", "€", "a€", "aa€", "aaa€", "😀", "a😀",
        "aa😀", "aaa😀", "\u{FEFF}", "\u{FFFD}", "\u{10FFFF}", "\u{7f}", "\u{80}", "\u{1}", "; c", "\"q\"", "None", "= OpNop", "{}", "{0}",
        "\\n", "%s", "Main", "MAIN", "maiN", "main ", " main", "main\n", "main.", "maim", "nain", "ma", "mainmain", "e\u{301}", "É", "ß", "ss", "ı", "i", "glsl.std.450",
        "GLSL.std.451", "GLSL.std.45", "GLSL.std.450 ", "A", "abcdefgi", "abcdxfgh", "abcD", "1", "01", "0x1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [15usize, 16, 17, 18, 19, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] {
        v.push((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect());
    }
    v.sort();
    v.dedup();
    v
}

fn enums(e: E, rich: bool) -> Vec<V> {
    let mut out = vec![];
    for t in e.table() {
        let mut rows: Vec<Vec<V>> = vec![vec![]];
        for (i, k) in t.2.iter().enumerate() {
            let c = if rich { cands(*k, i, false) } else { vec![base(*k, 40 + i)] };
            let mut next = vec![];
            for r in &rows {
                for x in &c {
                    let mut r2 = r.clone();
                    r2.push(x.clone());
                    next.push(r2);
                }
            }
            rows = next;
        }
        for r in rows {
            out.push(V::En(e, t.0, r));
        }
    }
    if e.open() {
        for w in [5u32, 6, 0xFF, 0xFFFF, 0x10000, 0x1_0001, 0x8000_0000, 0xFFFF_FFFF] {
            out.push(V::En(e, w, vec![]));
        }
    }
    out
}

fn masks(m: M, rich: bool) -> Vec<V> {
    let mut out = vec![];
    for w in 0..=m.mask() {
        if w & !m.mask() != 0 {
            continue;
        }
        if m.lits(w) == 0 {
            out.push(V::Mk(m, w, vec![]));
        } else if rich {
            for l in [0u32, 1, 2, 3, 4, 8, 16, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF] {
                out.push(V::Mk(m, w, vec![V::Lit(l)]));
            }
        } else {
            out.push(V::Mk(m, w, vec![V::Lit(16)]));
        }
    }
    out
}

/// Default operand, different at every position
pub fn base(k: K, pos: usize) -> V {
    let p = pos as u32;
    match k {
        K::T => V::Id(100 + p),
        K::R => V::Id(200 + p),
        K::I => V::Id(300 + p),
        K::L => V::Lit(400 + p),
        K::S => V::Str(format!("s{}", p)),
        K::OptI => V::Id(500 + p),
        K::OptS => V::Str(format!("o{}", p)),
        K::ManyI => V::List(vec![V::Id(600), V::Id(601), V::Id(602)]),
        K::ManyL => V::List(vec![V::Lit(700), V::Lit(701)]),
        K::ManyPhi => V::List(vec![V::Pair(800, 801, true), V::Pair(802, 803, true)]),
        K::OptW => V::Pair(11, 22, false),
        K::En(e) | K::OptEn(e) => {
            let t = &e.table()[e.table().len() - 1];
            V::En(e, t.0, t.2.iter().enumerate().map(|(i, k)| base(*k, 50 + i)).collect())
        }
        K::Mk(m) | K::OptMk(m) => V::Mk(m, 1, vec![]),
        K::Ext => V::Ext("Sin", 13, vec![V::Id(900)]),
    }
}

/// Candidate values of an operand; `rich` also varies nested operands
pub fn cands(k: K, pos: usize, rich: bool) -> Vec<V> {
    let _ = pos;
    match k {
        K::T | K::R | K::I => (if rich { words() } else { few_words() }).into_iter().map(V::Id).collect(),
        K::L => (if rich { words() } else { few_words() }).into_iter().map(V::Lit).collect(),
        K::S => {
            if rich {
                strings().into_iter().map(V::Str).collect()
            } else {
                ["", "abc", "abcd", "\"\\\n", "aaa€"].iter().map(|s| V::Str(s.to_string())).collect()
            }
        }
        K::OptI => {
            let mut v = vec![V::Absent];
            v.extend(cands(K::I, pos, rich));
            v
        }
        K::OptS => {
            let mut v = vec![V::Absent];
            v.extend(cands(K::S, pos, rich));
            v
        }
        K::ManyI => {
            let mut v: Vec<V> = (0..if rich { 40u32 } else { 5 }).map(|n| V::List((0..n).map(|i| V::Id(i * 7 + 1)).collect())).collect();
            if rich {
                for w in words() {
                    v.push(V::List(vec![V::Id(w)]));
                    v.push(V::List(vec![V::Id(1), V::Id(w), V::Id(2)]));
                }
                v.extend(patterns().into_iter().map(|l| V::List(l.into_iter().map(V::Id).collect())));
            }
            v
        }
        K::ManyL => {
            let mut v: Vec<V> = (0..if rich { 40u32 } else { 5 }).map(|n| V::List((0..n).map(|i| V::Lit(i * 7 + 1)).collect())).collect();
            if rich {
                for w in words() {
                    v.push(V::List(vec![V::Lit(w)]));
                    v.push(V::List(vec![V::Lit(1), V::Lit(w), V::Lit(2)]));
                }
                v.extend(patterns().into_iter().map(|l| V::List(l.into_iter().map(V::Lit).collect())));
            }
            v
        }
        K::ManyPhi => {
            let mut v: Vec<V> = (0..if rich { 40u32 } else { 5 })
                .map(|n| V::List((0..n).map(|i| V::Pair(i * 7 + 1, i * 5 + 2, true)).collect()))
                .collect();
            if rich {
                for w in words() {
                    v.push(V::List(vec![V::Pair(w, 5, true)]));
                    v.push(V::List(vec![V::Pair(6, w, true), V::Pair(7, 8, true)]));
                }
                for l in patterns() {
                    v.push(V::List(l.iter().map(|x| V::Pair(*x, *x, true)).collect()));
                    v.push(V::List(l.iter().map(|x| V::Pair(*x, 4, true)).collect()));
                    v.push(V::List(l.iter().enumerate().map(|(i, x)| V::Pair(i as u32, *x, true)).collect()));
                }
            }
            v
        }
        K::OptW => {
            let mut v = vec![V::Absent];
            let ws = if rich { words() } else { few_words() };
            for a in &ws {
                v.push(V::Pair(*a, 3, false));
                v.push(V::Pair(3, *a, false));
            }
            v
        }
        K::En(e) => enums(e, rich),
        K::OptEn(e) => {
            let mut v = vec![V::Absent];
            v.extend(enums(e, rich));
            v
        }
        K::Mk(m) => masks(m, rich),
        K::OptMk(m) => {
            let mut v = vec![V::Absent];
            v.extend(masks(m, rich));
            v
        }
        K::Ext => {
            let mut v = vec![];
            for w in if rich { words() } else { few_words() } {
                v.push(V::Ext("Sin", 13, vec![V::Id(w)]));
                v.push(V::Ext("Cos", 14, vec![V::Id(w)]));
            }
            v
        }
    }
}

/// Numbers of lists in which elements repeat, ascend, descend or lie next to their equals
fn patterns() -> Vec<Vec<u32>> {
    let mut v = vec![];
    for n in (2..21u32).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        v.push(vec![9; n as usize]);
        v.push(vec![0; n as usize]);
        v.push((0..n).rev().collect());
        v.push((0..n).map(|i| i / 2).collect());
        v.push((0..n).map(|i| i % 2).collect());
        v.push((0..n).map(|i| i * 37 % 11).collect());
        v.push((0..n).map(|i| if i + 1 == n { 8 } else { 5 }).collect());
        v.push((0..n).map(|i| if i == 0 { 8 } else { 5 }).collect());
    }
    // all lists of up to four numbers out of three
    for n in 2..5u32 {
        for k in 0..3u32.pow(n) {
            v.push((0..n).map(|i| k / 3u32.pow(i) % 3).collect());
        }
    }
    v
}

fn wants_present(i: &Inst, d: &OpDef) -> bool {
    // an absent optional operand can only be followed by absent ones
    let mut gone = false;
    for (k, v) in d.kinds.iter().zip(&i.vals) {
        let empty = *v == V::Absent;
        if gone && !empty {
            return false;
        }
        if empty {
            gone = true;
        }
        let _ = k;
    }
    true
}

pub fn base_inst(d: &OpDef) -> Inst {
    if d.code == 11 {
        return import(200, "GLSL.std.450");
    }
    Inst { op: d.code, vals: d.kinds.iter().enumerate().map(|(p, k)| base(*k, p)).collect() }
}

/// All instances with every optional operand present or absent, one operand at a time over
/// its rich candidates, and two operands at a time over the small ones
pub fn instances(d: &OpDef, pairwise: bool) -> Vec<Inst> {
    let b = base_inst(d);
    let mut out = vec![b.clone()];
    // shapes of the trailing optionals around every single variation
    let mut bases = vec![b.clone()];
    for p in (0..d.kinds.len()).rev() {
        if matches!(d.kinds[p], K::OptI | K::OptS | K::OptW | K::OptEn(_) | K::OptMk(_)) {
            let mut x = bases.last().unwrap().clone();
            x.vals[p] = V::Absent;
            bases.push(x);
        } else {
            break;
        }
    }
    for b in &bases {
        for p in 0..d.kinds.len() {
            for c in cands(d.kinds[p], p, true) {
                let mut x = b.clone();
                x.vals[p] = c;
                out.push(x);
            }
        }
    }
    if pairwise {
        for p in 0..d.kinds.len() {
            for q in p + 1..d.kinds.len() {
                for c in cands(d.kinds[p], p, false) {
                    for e in cands(d.kinds[q], q, false) {
                        let mut x = b.clone();
                        x.vals[p] = c.clone();
                        x.vals[q] = e;
                        out.push(x);
                    }
                }
            }
        }
    }
    // all operands equal, all extreme
    for w in words() {
        let x = Inst {
            op: d.code,
            vals: b
                .vals
                .iter()
                .map(|v| match v {
                    V::Id(_) => V::Id(w),
                    V::Lit(_) => V::Lit(w),
                    V::Pair(_, _, k) => V::Pair(w, w, *k),
                    v => v.clone(),
                })
                .collect(),
        };
        out.push(x);
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| wants_present(x, d) && seen.insert(x.clone()));
    out
}

pub fn import(id: u32, name: &str) -> Inst {
    Inst { op: 11, vals: vec![V::Id(id), V::Str(name.into())] }
}

/// The instructions needed before an instance so that it can be read
pub fn prefix(i: &Inst) -> Vec<Inst> {
    if i.op == 12 {
        if let V::Id(s) = i.vals[2] {
            return vec![import(s, "GLSL.std.450")];
        }
    }
    vec![]
}

/// Instances whose OpExtInstImport names are known sets
pub fn readable(i: &Inst) -> bool {
    if i.op == 11 {
        return i.vals[1] == V::Str("GLSL.std.450".into());
    }
    true
}
