//! Programs: statement lists, random surface syntax, and a reference assembler written from the LC-3 rules.
use crate::util::*;
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, Label, Offset, PCOffset, Reg};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sig { D, S, RI5, P(u32), I6, V8, OptP9 }
use Sig::*;
#[derive(Debug, PartialEq, Eq)]
pub struct Op { pub name: &'static str, pub base: u16, pub sig: &'static [Sig] }
pub static OPS: &[Op] = &[
    Op { name: "ADD", base: 0x1000, sig: &[D, S, RI5] },
    Op { name: "AND", base: 0x5000, sig: &[D, S, RI5] },
    Op { name: "NOT", base: 0x903F, sig: &[D, S] },
    Op { name: "BR", base: 0x0E00, sig: &[P(9)] },
    Op { name: "BRN", base: 0x0800, sig: &[P(9)] },
    Op { name: "BRZ", base: 0x0400, sig: &[P(9)] },
    Op { name: "BRP", base: 0x0200, sig: &[P(9)] },
    Op { name: "BRNZ", base: 0x0C00, sig: &[P(9)] },
    Op { name: "BRNP", base: 0x0A00, sig: &[P(9)] },
    Op { name: "BRZP", base: 0x0600, sig: &[P(9)] },
    Op { name: "BRNZP", base: 0x0E00, sig: &[P(9)] },
    Op { name: "JMP", base: 0xC000, sig: &[S] },
    Op { name: "JSR", base: 0x4800, sig: &[P(11)] },
    Op { name: "JSRR", base: 0x4000, sig: &[S] },
    Op { name: "LD", base: 0x2000, sig: &[D, P(9)] },
    Op { name: "LDI", base: 0xA000, sig: &[D, P(9)] },
    Op { name: "LDR", base: 0x6000, sig: &[D, S, I6] },
    Op { name: "LEA", base: 0xE000, sig: &[D, P(9)] },
    Op { name: "ST", base: 0x3000, sig: &[D, P(9)] },
    Op { name: "STI", base: 0xB000, sig: &[D, P(9)] },
    Op { name: "STR", base: 0x7000, sig: &[D, S, I6] },
    Op { name: "TRAP", base: 0xF000, sig: &[V8] },
    Op { name: "NOP", base: 0x0000, sig: &[OptP9] },
    Op { name: "RET", base: 0xC1C0, sig: &[] },
    Op { name: "RTI", base: 0x8000, sig: &[] },
    Op { name: "GETC", base: 0xF020, sig: &[] },
    Op { name: "OUT", base: 0xF021, sig: &[] },
    Op { name: "PUTC", base: 0xF021, sig: &[] },
    Op { name: "PUTS", base: 0xF022, sig: &[] },
    Op { name: "IN", base: 0xF023, sig: &[] },
    Op { name: "PUTSP", base: 0xF024, sig: &[] },
    Op { name: "HALT", base: 0xF025, sig: &[] },
];
pub fn op(name: &str) -> &'static Op { OPS.iter().find(|o| o.name == name).unwrap() }

/// An operand: register, number, or label (as first spelled).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Arg { R(u8), N(i32), L(String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K { Ins(&'static Op, Vec<Arg>), Orig(i32), Fill(Arg), Blkw(i32), Str(String), End, Ext(String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct S_ { pub labels: Vec<String>, pub k: K }

pub fn up(s: &str) -> String { s.to_uppercase() }
pub fn s_(k: K) -> S_ { S_ { labels: vec![], k } }

impl K {
    pub fn size(&self) -> u32 {
        match self {
            K::Ins(..) | K::Fill(_) => 1,
            K::Blkw(n) => *n as u32,
            K::Str(s) => s.len() as u32 + 1,
            _ => 0,
        }
    }
}

// ------------------------------------------------------------------------------------------------ reference assembler
pub const KINDS: &[&str] = &["UndetAddrLabel", "UndetAddrStmt", "UnclosedOrig", "UnopenedOrig", "OverlappingOrig", "OverlappingLabels", "WrappingBlock",
    "BlockInIO", "OverlappingBlocks", "OffsetNewErr", "OffsetExternal", "CouldNotFindLabel"];
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LabelRef { pub addr: u16, pub ext: bool, /// statement and label index (`None`: the operand of .external)
    pub at: (usize, Option<usize>) }
#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub mem: BTreeMap<u16, Option<u16>>,
    pub labels: BTreeMap<String, LabelRef>,
    pub rel: BTreeMap<u16, String>,
    /// statement -> address, for statements occupying memory
    pub addr: BTreeMap<usize, u16>,
    /// violated conditions, with the offending labels (uppercase)
    pub errs: BTreeMap<String, BTreeSet<String>>,
}
impl Ref { pub fn ok(&self) -> bool { self.errs.is_empty() } }

pub fn fits(v: i32, bits: u32) -> bool { v >= -(1 << (bits - 1)) && v < (1 << (bits - 1)) }
fn assemble1(p: &[S_], nested_closes: bool) -> Ref {
    let mut f = Ref::default();
    let mut err = |k: &str, l: &[&str]| { f.errs.entry(k.to_string()).or_default().extend(l.iter().map(|s| up(s))); };
    // addresses
    let mut lc: Option<u32> = None;
    let mut start = 0u32;
    let mut blocks: Vec<(u32, u32)> = vec![];
    let mut labels: BTreeMap<String, LabelRef> = BTreeMap::new();
    let mut at: Vec<Option<u32>> = vec![];
    for (i, st) in p.iter().enumerate() {
        at.push(lc);
        let mut add = |name: &str, addr: u16, ext: bool, pos: (usize, Option<usize>)| -> bool {
            match labels.get(&up(name)) {
                Some(o) => o.addr == addr,
                None => { labels.insert(up(name), LabelRef { addr, ext, at: pos }); true }
            }
        };
        for (j, l) in st.labels.iter().enumerate() {
            match lc {
                None => { let ls: Vec<&str> = st.labels.iter().map(|s| &**s).collect(); err("UndetAddrLabel", &ls) },
                Some(a) => if !add(l, a as u16, false, (i, Some(j))) { err("OverlappingLabels", &[l]) },
            }
        }
        match &st.k {
            K::Orig(a) => match lc {
                None => { lc = Some(*a as u32); start = *a as u32; },
                Some(cur) => {
                    err("OverlappingOrig", &[]);
                    if nested_closes { blocks.push((start, cur)); lc = Some(*a as u32); start = *a as u32; }
                },
            },
            K::End => match lc {
                None => err("UnopenedOrig", &[]),
                Some(cur) => { blocks.push((start, cur)); lc = None; },
            },
            K::Ext(l) => if !add(l, 0, true, (i, None)) { err("OverlappingLabels", &[l]) },
            k => match lc {
                None => err("UndetAddrStmt", &[]),
                Some(cur) => {
                    let n = cur + k.size();
                    if n > 0xFE00 { err("BlockInIO", &[]); }
                    if n > 0x10000 { err("WrappingBlock", &[]); }
                    lc = Some(n);
                },
            },
        }
    }
    if lc.is_some() { err("UnclosedOrig", &[]); blocks.push((start, lc.unwrap())); }
    let b: Vec<_> = blocks.iter().filter(|b| b.0 < b.1).collect();
    for (i, x) in b.iter().enumerate() { for y in &b[..i] { if x.0 < y.1 && y.0 < x.1 { err("OverlappingBlocks", &[]); } } }
    // words
    let mut mem: BTreeMap<u16, Option<u16>> = BTreeMap::new();
    let mut rel = BTreeMap::new();
    let mut addrs = BTreeMap::new();
    for (i, st) in p.iter().enumerate() {
        let a = at[i];
        let lcw = a.unwrap_or(0) as u16;
        if a.is_some() && st.k.size() > 0 { addrs.insert(i, lcw); }
        match &st.k {
            K::Ins(op, args) => {
                let w = match encode(op, args, lcw.wrapping_add(1), &labels) {
                    Ok(w) => w,
                    Err((k, l)) => { err(k, &[&l]); continue },
                };
                if a.is_some() { mem.insert(lcw, Some(w)); }
            },
            K::Fill(Arg::N(n)) => if a.is_some() { mem.insert(lcw, Some(*n as u16)); },
            K::Fill(Arg::L(l)) => match labels.get(&up(l)) {
                None => err("CouldNotFindLabel", &[l]),
                Some(d) => if a.is_some() {
                    mem.insert(lcw, Some(d.addr));
                    if d.ext { rel.insert(lcw, up(l)); }
                },
            },
            K::Blkw(n) => if a.is_some() { for j in 0..*n { mem.insert(lcw.wrapping_add(j as u16), None); } },
            K::Str(s) => if a.is_some() {
                for (j, c) in s.bytes().chain([0]).enumerate() { mem.insert(lcw.wrapping_add(j as u16), Some(c as u16)); }
            },
            _ => {},
        }
    }
    Ref { mem, rel, labels, addr: addrs, errs: f.errs }
}
/// Assembles. Where a broken program can be read in several ways (nested blocks), every reading contributes violated conditions.
pub fn assemble(p: &[S_]) -> Ref {
    let mut a = assemble1(p, false);
    if !a.ok() {
        for (k, v) in assemble1(p, true).errs { a.errs.entry(k).or_default().extend(v); }
    }
    a
}
pub fn encode(op: &Op, args: &[Arg], pc: u16, labels: &BTreeMap<String, LabelRef>) -> Result<u16, (&'static str, String)> {
    let mut w = op.base;
    for (s, a) in op.sig.iter().zip(args) {
        let pcoff = |bits: u32| -> Result<u16, (&'static str, String)> {
            let v = match a {
                Arg::N(n) => *n,
                Arg::L(l) => {
                    let d = labels.get(&up(l)).ok_or(("CouldNotFindLabel", l.clone()))?;
                    if d.ext { return Err(("OffsetExternal", l.clone())) }
                    let v = d.addr.wrapping_sub(pc) as i16 as i32;
                    if !fits(v, bits) { return Err(("OffsetNewErr", l.clone())) }
                    v
                },
                Arg::R(_) => unreachable!(),
            };
            Ok(v as u16 & ((1u32 << bits) - 1) as u16)
        };
        w |= match (s, a) {
            (D, Arg::R(r)) => (*r as u16) << 9,
            (S, Arg::R(r)) => (*r as u16) << 6,
            (RI5, Arg::R(r)) => *r as u16,
            (RI5, Arg::N(n)) => 0x20 | (*n as u16 & 0x1F),
            (I6, Arg::N(n)) => *n as u16 & 0x3F,
            (V8, Arg::N(n)) => *n as u16,
            (P(b), _) => pcoff(*b)?,
            (OptP9, _) => pcoff(9)?,
            _ => unreachable!(),
        };
    }
    Ok(w)
}

// ------------------------------------------------------------------------------------------------ generator
#[derive(Clone, Copy)]
pub struct GOpts { pub ext: bool, pub uni: bool, pub big: bool, pub lo: u32, pub hi: u32, pub blocks: usize, pub printable: bool }
impl Default for GOpts { fn default() -> Self { GOpts { ext: true, uni: true, big: true, lo: 0, hi: 0xFE00, blocks: 3, printable: false } } }

pub fn is_label(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let Some(&f) = c.first() else { return false };
    if !(f.is_ascii_alphabetic() || f == '_') { return false }
    if !c.iter().all(|c| c.is_alphanumeric() || *c == '_') { return false }
    if OPS.iter().any(|o| o.name == up(s)) { return false }
    if (f == 'R' || f == 'r') && c.len() > 1 && c[1..].iter().all(|c| c.is_numeric()) { return false }
    if (f == 'X' || f == 'x') && c.len() > 1 && (c[1].is_ascii_hexdigit() || c[1].is_numeric()) { return false }
    true
}
/// A label whose upper- and lowercase forms have the same lengths.
pub fn gen_label(r: &mut Rng, uni: bool) -> String {
    const T: &[&str] = &["A", "B", "LOOP", "x", "xg", "X_1", "R", "R1x", "Rx", "BRx", "ADDS", "_", "_1", "RETI", "LDX", "END", "ORIG", "FILL", "loop2", "a_very_long_label_name_indeed",
        "HALTS", "JS", "N", "nzp", "BRzpn", "trap2", "x_", "r_0", "xyz", "Done", "EXTERNAL", "LINE", "ADDR", "LABEL", "null", "PC"];
    loop {
        let s: String = if r.one(2) { let mut s = r.pick(T).to_string(); if r.one(2) { s.push_str(&r.below(30).to_string()); } s } else {
            let m = if r.one(20) { 60 } else { 7 };
            let n = 1 + r.usize(m);
            (0..n).map(|i| {
                if i > 0 && uni && r.one(8) { *r.pick(&['é', 'Ж', 'ж', 'ö', 'λ', '日', '٣', 'Ñ', 'ð', 'я']) }
                else if i > 0 && r.one(4) { (b'0' + r.below(10) as u8) as char }
                else if r.one(10) { '_' }
                else if r.bool() { (b'A' + r.below(26) as u8) as char } else { (b'a' + r.below(26) as u8) as char }
            }).collect()
        };
        if is_label(&s) { return s }
    }
}
/// Another letter-case spelling of a label.
pub fn respell(r: &mut Rng, s: &str) -> String {
    let mode = r.below(4);
    let t: String = s.chars().map(|c| {
        let u = match mode { 0 => return c, 1 => true, 2 => false, _ => r.bool() };
        let v: Vec<char> = if u { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
        if v.len() == 1 && v[0].len_utf8() == c.len_utf8() { v[0] } else { c }
    }).collect();
    if up(&t) == up(s) && is_label(&t) { t } else { s.to_string() }
}
/// A number of a signed field, biased to its limits.
pub fn field(r: &mut Rng, bits: u32) -> i32 {
    let (lo, hi) = (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1);
    (match r.below(5) { 0 => lo, 1 => hi, 2 => r.range(-2, 2), _ => r.range(lo, hi) }) as i32
}
pub fn gen_string(r: &mut Rng, o: &GOpts) -> String {
    let n = if o.big && r.one(60) { r.usize(3000) } else { r.usize(13) };
    (0..n).map(|_| match r.below(8) {
        0 => *r.pick(&['\n', '\r', '\t', '\0', '\\', '"', '\'', ' ']),
        1 if !o.printable => *r.pick(&['é', '日', '𝄞', '\x1b', '\x7f', '\u{85}', '\x01', 'ß', '\u{2028}', '\u{301}']),
        _ => (0x20 + r.below(95) as u8) as char,
    }).collect()
}
fn gen_kind(r: &mut Rng, o: &GOpts) -> K {
    match r.below(12) {
        0 | 1 => K::Fill(Arg::N(match r.below(4) { 0 => *r.pick(&[-32768, 65535, 0, -1, 32767, 32768]), 1 => r.range(-32768, -1) as i32, _ => r.u16() as i32 })),
        2 => K::Blkw(if o.big && r.one(20) { 1 + r.below(2000) as i32 } else { 1 + r.below(5) as i32 }),
        3 => K::Str(gen_string(r, o)),
        _ => {
            let op = &OPS[r.usize(OPS.len())];
            let mut args = vec![];
            for s in op.sig {
                match s {
                    D | S => args.push(Arg::R(r.below(8) as u8)),
                    RI5 => args.push(if r.bool() { Arg::R(r.below(8) as u8) } else { Arg::N(field(r, 5)) }),
                    P(b) => args.push(Arg::N(field(r, *b))),
                    I6 => args.push(Arg::N(field(r, 6))),
                    V8 => args.push(Arg::N(match r.below(3) { 0 => 0x20 + r.below(6) as i32, 1 => *r.pick(&[0, 255, 128, 127]), _ => r.below(256) as i32 })),
                    OptP9 => if r.bool() { args.push(Arg::N(field(r, 9))) },
                }
            }
            K::Ins(op, args)
        },
    }
}
/// Generates a well-formed program.
pub fn gen_program(r: &mut Rng, o: &GOpts) -> Vec<S_> {
    let nb = if r.one(15) { 0 } else { 1 + r.usize(o.blocks) };
    let mut used: Vec<(u32, u32)> = vec![];
    let mut p: Vec<S_> = vec![];
    for _ in 0..nb {
        let n = match r.below(12) { 0 => 0, 1 => r.usize(60), _ => 1 + r.usize(12) };
        let mut body: Vec<S_> = (0..n).map(|_| s_(gen_kind(r, o))).collect();
        if o.big && r.one(25) { body.push(s_(K::Blkw(r.range(1, 0x8000) as i32))); }
        let size: u32 = body.iter().map(|s| s.k.size()).sum();
        let mut start = None;
        for _ in 0..20 {
            let room = o.hi.saturating_sub(o.lo);
            if size > room { break }
            let s = match r.below(8) {
                0 => o.hi - size,
                1 => o.lo,
                2 => match used.last() { Some(u) if r.bool() => u.1, Some(u) => u.0.wrapping_sub(size), None => o.lo },
                3 => 0x3000,
                _ => o.lo + r.below((room - size + 1) as u64) as u32,
            };
            if size == 0 { start = Some(if r.one(4) { r.u16() as u32 } else { s.min(0xFFFF) }); break }
            if s < o.lo || s > 0xFFFF || s + size > o.hi { continue }
            if used.iter().all(|u| s >= u.1 || u.0 >= s + size) { start = Some(s); break }
        }
        let Some(start) = start else { continue };
        if size > 0 { used.push((start, start + size)); }
        p.push(s_(K::Orig(start as i32)));
        p.extend(body);
        p.push(s_(K::End));
    }
    // labels
    let mut names: Vec<String> = vec![];
    let mut fresh = |r: &mut Rng| loop { let l = gen_label(r, o.uni); if !names.iter().any(|n| up(n) == up(&l)) { names.push(l.clone()); return l } };
    for i in 0..p.len() {
        let pr = match p[i].k { K::Orig(_) => 0, K::End => 10, _ => 30 };
        while r.below(100) < pr {
            let l = fresh(r);
            p[i].labels.push(l.clone());
            if r.one(15) { p[i].labels.push(respell(r, &l)); }
        }
    }
    // externals
    let mut exts = vec![];
    if o.ext && r.one(2) {
        for _ in 0..1 + r.usize(3) {
            let l = fresh(r);
            exts.push(l.clone());
            for _ in 0..if r.one(5) { 2 } else { 1 } {
                // not between labels and their statement: each statement carries its own labels
                let at = r.usize(p.len() + 1);
                p.insert(at, s_(K::Ext(respell(r, &l))));
            }
        }
    }
    // label operands
    let f = assemble(&p);
    assert!(f.ok(), "generated program: {:?}", f.errs);
    let defs: Vec<(String, u16)> = f.labels.iter().filter(|(_, d)| !d.ext).map(|(n, d)| (n.clone(), d.addr)).collect();
    let spell: BTreeMap<String, String> = names.iter().map(|n| (up(n), n.clone())).collect();
    for i in 0..p.len() {
        let Some(&a) = f.addr.get(&i) else { continue };
        let pc = a.wrapping_add(1);
        match &mut p[i].k {
            K::Fill(x) => {
                if r.one(2) {
                    let d = if !exts.is_empty() && r.one(2) { r.pick(&exts).clone() } else if !defs.is_empty() { spell[&r.pick(&defs).0].clone() } else { continue };
                    *x = Arg::L(d);
                }
            },
            K::Ins(op, args) => for (s, x) in op.sig.iter().zip(args.iter_mut()) {
                let b = match s { P(b) => *b, OptP9 => 9, _ => continue };
                if !r.one(3) {
                    let near: Vec<_> = defs.iter().filter(|d| fits(d.1.wrapping_sub(pc) as i16 as i32, b)).collect();
                    if !near.is_empty() { *x = Arg::L(spell[&r.pick(&near).0].clone()); }
                }
            },
            _ => {},
        }
    }
    p
}

// ------------------------------------------------------------------------------------------------ surface syntax
#[derive(Clone, Debug)]
pub struct RStmt { pub span: Range<usize>, pub line: usize, pub labels: Vec<(String, usize)>, pub operand: Option<(String, usize)> }
#[derive(Clone, Debug)]
pub struct Rend { pub src: String, pub stmts: Vec<RStmt> }
/// Which choices a rendering makes.
#[derive(Clone, Copy, PartialEq)]
pub enum Style { Plain, Wild, /// no characters outside ASCII in comments
    Ascii }

fn case(r: &mut Rng, s: &str, st: Style) -> String {
    if st == Style::Plain { return s.to_string() }
    match r.below(4) {
        0 => s.to_uppercase(), 1 => s.to_lowercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
pub fn junk(r: &mut Rng, ascii: bool) -> String {
    const A: &[&str] = &["\"", "\\", "\\n", "\\\"", ":", ",", ";", ".", "#", "x", " ", "\t", "ADD", ".end", " | ", "====", "????", "\r", "\0", "'", "-", "<", "\u{7f}", "\u{1b}", "{}", "\\u{41}", "\\x41", "%"];
    const U: &[&str] = &["é", "日本", "𝄞", "\u{85}", "\u{2028}", "\u{a0}", "ß", "\u{301}", "ŉ", "\u{feff}"];
    (0..r.usize(8)).map(|_| match r.below(4) { 0 if !ascii => r.pick(U).to_string(), 1 | 0 => r.pick(A).to_string(), _ => ((0x20 + r.below(95) as u8) as char).to_string() }).collect()
}
/// `signed`: the operand field is signed (or either); negative zero and signed notation allowed.
pub fn number(r: &mut Rng, v: i32, st: Style) -> String {
    if st == Style::Plain { return format!("#{v}") }
    let neg = v < 0 || (v == 0 && r.one(6));
    let m = v.unsigned_abs();
    let z = "0".repeat(if r.one(4) { 1 + r.usize(5) } else { 0 });
    if r.one(2) {
        let h: String = format!("{m:x}");
        let h = case(r, &h, st);
        let x = if r.bool() { "x" } else { "X" };
        format!("{x}{}{z}{h}", if neg { "-" } else { "" })
    } else {
        format!("{}{}{z}{m}", if r.bool() { "#" } else { "" }, if neg { "-" } else { "" })
    }
}
pub fn string_lit(r: &mut Rng, s: &str, st: Style) -> String {
    let mut o = String::from("\"");
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '\n' => o.push_str("\\n"),
            '"' => o.push_str("\\\""),
            '\\' => {
                // an unknown escape keeps its backslash
                let next = cs.get(i + 1);
                let raw = st != Style::Plain && r.bool() && next.is_some_and(|n| !"nrt\\0\"\n\r\t\0".contains(*n));
                o.push_str(if raw { "\\" } else { "\\\\" });
            },
            '\r' => o.push_str(if st == Style::Plain || r.bool() { "\\r" } else { "\r" }),
            '\t' => o.push_str(if st == Style::Plain || r.bool() { "\\t" } else { "\t" }),
            '\0' => o.push_str(if st == Style::Plain || r.bool() { "\\0" } else { "\0" }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Renders the statements, each with its own surface syntax.
pub fn render(r: &mut Rng, p: &[S_], st: Style) -> Rend {
    let wild = st != Style::Plain;
    let ascii = st == Style::Ascii;
    let crlf = match r.below(4) { 0 if wild => 2, 1 if wild => 1, _ => 0 };
    let mut src = String::new();
    let mut out = vec![];
    fn nl(src: &mut String, r: &mut Rng, crlf: u32) { src.push_str(if crlf == 2 || (crlf == 1 && r.bool()) { "\r\n" } else { "\n" }); }
    let gap = |src: &mut String, r: &mut Rng| {
        if !wild { src.push(' '); return }
        match r.below(4) { 0 => src.push('\t'), 1 => src.push_str("  "), 2 => src.push_str(" \t "), _ => src.push(' ') }
    };
    let blank = |src: &mut String, r: &mut Rng| {
        while wild && r.one(5) {
            if r.bool() { src.push_str("  \t"); }
            if r.bool() { src.push(';'); src.push_str(&junk(r, ascii)); }
            nl(src, r, crlf);
        }
    };
    blank(&mut src, r);
    for (i, s) in p.iter().enumerate() {
        if wild && r.one(2) { gap(&mut src, r); }
        let mut labels = vec![];
        for l in &s.labels {
            let l = if wild { respell(r, l) } else { l.clone() };
            labels.push((l.clone(), src.len()));
            src.push_str(&l);
            let colon = wild && r.one(3);
            if colon { if r.one(4) { src.push(' '); } src.push(':'); }
            if wild && r.one(4) {
                // on its own line
                if r.one(3) { src.push_str(" ;"); src.push_str(&junk(r, ascii)); }
                nl(&mut src, r, crlf);
                blank(&mut src, r);
                if r.bool() { gap(&mut src, r); }
            } else if !(colon && r.one(3)) { gap(&mut src, r); }
        }
        let start = src.len();
        let mut operand = None;
        let comma = |src: &mut String, r: &mut Rng| {
            if wild && r.one(4) { gap(src, r); }
            src.push(',');
            if !wild || !r.one(3) { gap(src, r); }
        };
        let put = |src: &mut String, r: &mut Rng, a: &Arg, operand: &mut Option<(String, usize)>| match a {
            Arg::R(n) => { src.push(if wild && r.bool() { 'r' } else { 'R' }); if wild && r.one(8) { src.push_str("00"); } src.push_str(&n.to_string()); },
            Arg::N(n) => src.push_str(&number(r, *n, st)),
            Arg::L(l) => { let l = if wild { respell(r, l) } else { l.clone() }; *operand = Some((l.clone(), src.len())); src.push_str(&l); },
        };
        match &s.k {
            K::Ins(op, args) => {
                src.push_str(&case(r, op.name, st));
                for (j, a) in args.iter().enumerate() {
                    if j == 0 { gap(&mut src, r) } else { comma(&mut src, r) }
                    put(&mut src, r, a, &mut operand);
                }
            },
            K::Orig(n) => { src.push_str(&case(r, ".orig", st)); gap(&mut src, r); src.push_str(&number(r, *n, st)); },
            K::Fill(a) => { src.push_str(&case(r, ".fill", st)); gap(&mut src, r); put(&mut src, r, a, &mut operand); },
            K::Blkw(n) => { src.push_str(&case(r, ".blkw", st)); gap(&mut src, r); src.push_str(&number(r, *n, st)); },
            K::Str(t) => { src.push_str(&case(r, ".stringz", st)); if !wild || !r.one(6) { gap(&mut src, r); } src.push_str(&string_lit(r, t, st)); },
            K::End => src.push_str(&case(r, ".end", st)),
            K::Ext(l) => { src.push_str(&case(r, ".external", st)); gap(&mut src, r); put(&mut src, r, &Arg::L(l.clone()), &mut operand); },
        }
        let span = start..src.len();
        let line = src[..start].matches('\n').count();
        out.push(RStmt { span, line, labels, operand });
        if wild && r.one(4) { gap(&mut src, r); }
        if wild && r.one(4) { src.push(';'); src.push_str(&junk(r, ascii)); }
        if i + 1 < p.len() || !wild || r.bool() { nl(&mut src, r, crlf); blank(&mut src, r); }
    }
    if wild && r.one(6) && (src.is_empty() || src.ends_with('\n')) {
        src.push_str(*r.pick(&["", "  ", "\t", "; the end", "\n\n", "\r\n \r\n"]));
    }
    Rend { src, stmts: out }
}

// ------------------------------------------------------------------------------------------------ the crate's AST
pub fn reg(n: u8) -> Reg { Reg::try_from(n).unwrap() }
fn off<const N: u32>(a: &Arg, l: &Option<(String, usize)>) -> PCOffset<i16, N> {
    match a {
        Arg::N(n) => PCOffset::Offset(Offset::new(*n as i16).unwrap()),
        Arg::L(_) => PCOffset::Label(lab(l.as_ref().unwrap())),
        Arg::R(_) => unreachable!(),
    }
}
fn lab(l: &(String, usize)) -> Label { Label::new(l.0.clone(), l.1..l.1 + l.0.len()) }
fn ri(a: &Arg) -> ImmOrReg<5> {
    match a { Arg::R(n) => ImmOrReg::Reg(reg(*n)), Arg::N(n) => ImmOrReg::Imm(Offset::new(*n as i16).unwrap()), _ => unreachable!() }
}
/// The statement the parser has to return.
pub fn expected(s: &S_, x: &RStmt) -> Stmt {
    let l = &x.operand;
    let nucleus = match &s.k {
        K::Ins(op, a) => StmtKind::Instr({
            let r = |i: usize| match a[i] { Arg::R(n) => reg(n), _ => unreachable!() };
            let n = |i: usize| match a[i] { Arg::N(n) => n, _ => unreachable!() };
            use AsmInstr::*;
            match op.name {
                "ADD" => ADD(r(0), r(1), ri(&a[2])), "AND" => AND(r(0), r(1), ri(&a[2])), "NOT" => NOT(r(0), r(1)),
                "JMP" => JMP(r(0)), "JSR" => JSR(off(&a[0], l)), "JSRR" => JSRR(r(0)),
                "LD" => LD(r(0), off(&a[1], l)), "LDI" => LDI(r(0), off(&a[1], l)), "LEA" => LEA(r(0), off(&a[1], l)),
                "ST" => ST(r(0), off(&a[1], l)), "STI" => STI(r(0), off(&a[1], l)),
                "LDR" => LDR(r(0), r(1), Offset::new(n(2) as i16).unwrap()), "STR" => STR(r(0), r(1), Offset::new(n(2) as i16).unwrap()),
                "TRAP" => TRAP(Offset::new(n(0) as u16).unwrap()),
                "NOP" => NOP(match a.first() { Some(a) => off(a, l), None => PCOffset::Offset(Offset::new(0).unwrap()) }),
                "RET" => RET, "RTI" => RTI, "GETC" => GETC, "OUT" => OUT, "PUTC" => PUTC, "PUTS" => PUTS, "IN" => IN, "PUTSP" => PUTSP, "HALT" => HALT,
                br => BR(match br { "BR" | "BRNZP" => 7, "BRN" => 4, "BRZ" => 2, "BRP" => 1, "BRNZ" => 6, "BRNP" => 5, "BRZP" => 3, _ => unreachable!() }, off(&a[0], l)),
            }
        }),
        K::Orig(n) => StmtKind::Directive(Directive::Orig(Offset::new(*n as u16).unwrap())),
        K::Fill(Arg::N(n)) => StmtKind::Directive(Directive::Fill(PCOffset::Offset(Offset::new(*n as u16).unwrap()))),
        K::Fill(_) => StmtKind::Directive(Directive::Fill(PCOffset::Label(lab(l.as_ref().unwrap())))),
        K::Blkw(n) => StmtKind::Directive(Directive::Blkw(Offset::new(*n as u16).unwrap())),
        K::Str(s) => StmtKind::Directive(Directive::Stringz(s.clone())),
        K::End => StmtKind::Directive(Directive::End),
        K::Ext(_) => StmtKind::Directive(Directive::External(lab(l.as_ref().unwrap()))),
    };
    Stmt { labels: x.labels.iter().map(lab).collect(), nucleus, span: x.span.clone() }
}
/// The statement without source positions.
pub fn erase(s: &Stmt) -> Stmt {
    fn e(l: &Label) -> Label { Label::new(l.name.clone(), 0..l.name.len()) }
    fn po<O: Copy, const N: u32>(p: &PCOffset<O, N>) -> PCOffset<O, N> { match p { PCOffset::Offset(o) => PCOffset::Offset(*o), PCOffset::Label(l) => PCOffset::Label(e(l)) } }
    use AsmInstr::*;
    let nucleus = match &s.nucleus {
        StmtKind::Instr(i) => StmtKind::Instr(match i {
            BR(c, p) => BR(*c, po(p)), JSR(p) => JSR(po(p)), LD(r, p) => LD(*r, po(p)), LDI(r, p) => LDI(*r, po(p)), LEA(r, p) => LEA(*r, po(p)),
            ST(r, p) => ST(*r, po(p)), STI(r, p) => STI(*r, po(p)), NOP(p) => NOP(po(p)), i => i.clone(),
        }),
        StmtKind::Directive(Directive::Fill(p)) => StmtKind::Directive(Directive::Fill(po(p))),
        StmtKind::Directive(Directive::External(l)) => StmtKind::Directive(Directive::External(e(l))),
        n => n.clone(),
    };
    Stmt { labels: s.labels.iter().map(e).collect(), nucleus, span: 0..0 }
}
