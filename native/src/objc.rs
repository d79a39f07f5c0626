//! Object file contracts: C17 C18 C19 C20 C21 C22 C23.
use crate::asmc::*;
use crate::prog::*;
use crate::util::*;
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::ast::Label;
use lc3_ensemble::ast::asm::{Directive, StmtKind};
use lc3_ensemble::asm::{ObjectFile, SymbolTable, assemble as asm, assemble_debug};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::{SimErr, SimFlags, Simulator};
use std::collections::{BTreeMap, BTreeSet};

pub struct File { pub src: String, pub p: Vec<S_>, pub x: Rend, pub f: Ref, pub obj: ObjectFile, pub dbg: bool }

/// Renames labels consistently.
pub fn rename(p: &mut [S_], m: &BTreeMap<String, String>) {
    let ren = |l: &mut String| if let Some(n) = m.get(&up(l)) { *l = n.clone(); };
    for s in p {
        s.labels.iter_mut().for_each(ren);
        match &mut s.k {
            K::Ext(l) | K::Fill(Arg::L(l)) => ren(l),
            K::Ins(_, a) => for x in a { if let Arg::L(l) = x { ren(l) } },
            _ => {},
        }
    }
}
pub fn build(src: &str, dbg: bool) -> Result<ObjectFile, String> {
    let ast = parse(src)?;
    guard(|| if dbg { assemble_debug(ast, src) } else { asm(ast) })?.map_err(|e| format!("assembling: {:?}", e.kind))
}
const SHARED: &[&str] = &["Shared", "EXT_A", "Ext_b", "lib", "Puts2", "main_"];
/// A file for linking: blocks mostly in the region of its slot, some labels shared with the other slots.
pub fn file(r: &mut Rng, slot: usize) -> File {
    loop {
        let dbg = r.one(2) || r.bool();
        if let Some(f) = file_with(r, slot, dbg) { return f }
    }
}
pub fn file_with(r: &mut Rng, slot: usize, dbg: bool) -> Option<File> {
    let lo = 0x3000 * slot as u32;
    let hi = lo + 0x3000;
    let wide = r.one(12);
    let mut o = GOpts { big: r.one(10), ..Default::default() };
    if !wide { (o.lo, o.hi) = (lo, hi); }
    let mut p = gen_program(r, &o);
    let f = assemble(&p);
    let mut names: Vec<(String, bool)> = f.labels.iter().map(|(l, d)| (l.clone(), d.ext)).collect();
    r.shuffle(&mut names);
    let mut m = BTreeMap::new();
    let mut taken = BTreeSet::new();
    for (l, ext) in names {
        // externals usually get a shared name; definitions the names of their own slot
        let i = if ext { if r.one(8) { continue } r.usize(SHARED.len()) } else { if r.one(3) { continue } if r.one(25) { r.usize(SHARED.len()) } else { (slot + 4 * r.usize(2)) % SHARED.len() } };
        if !ext && i % 4 != slot && !r.one(10) { continue }
        if taken.insert(i) { m.insert(l, SHARED[i].to_string()); }
    }
    rename(&mut p, &m);
    let f = assemble(&p);
    if !f.ok() { return None }
    let st = if r.one(4) { Style::Plain } else { Style::Wild };
    let x = render(r, &p, st);
    let obj = build(&x.src, dbg).ok()?;
    Some(File { src: x.src.clone(), p, x, f, obj, dbg })
}
fn show_files(v: &[File]) -> String { v.iter().map(|f| format!("--- file (debug symbols: {})\n{}", f.dbg, f.src)).collect::<Vec<_>>().join("\n") }
pub fn link(a: &ObjectFile, b: &ObjectFile) -> Result<Result<ObjectFile, String>, String> {
    Ok(guard(|| ObjectFile::link(a.clone(), b.clone())).map_err(|e| format!("linking: {e}"))?.map_err(|e| format!("{:?}", e.kind)))
}
/// The pending relocations, as written by the text format.
pub fn pending(o: &ObjectFile) -> Result<BTreeMap<u16, String>, String> {
    let t = guard(|| TextFormat::serialize(o))?;
    let mut m = BTreeMap::new();
    let mut on = false;
    for l in t.lines() {
        if l.starts_with('.') { on = l == ".LINKER_INFO"; continue }
        if on && !l.trim().is_empty() && !l.starts_with("ADDR") {
            let (a, b) = l.split_once(" | ").ok_or_else(|| format!("linker info line {l:?}"))?;
            m.insert(u16::from_str_radix(a.trim(), 16).map_err(|e| e.to_string())?, up(b.trim()));
        }
    }
    Ok(m)
}

type Linked = (BTreeMap<u16, Option<u16>>, BTreeMap<String, (u16, bool)>, BTreeMap<u16, String>);
/// The reference linker.
pub fn ref_link(v: &[&Ref]) -> Option<Linked> {
    let mut mem = BTreeMap::new();
    for f in v { for (a, w) in &f.mem { if mem.insert(*a, *w).is_some() { return None } } }
    let mut labels: BTreeMap<String, (u16, bool)> = BTreeMap::new();
    for f in v {
        for (l, d) in &f.labels {
            match labels.get(l) {
                None | Some((_, true)) => { if !(d.ext && labels.contains_key(l)) { labels.insert(l.clone(), (d.addr, d.ext)); } },
                Some((a, false)) => if !d.ext && *a != d.addr { return None },
            }
        }
    }
    let mut rel = BTreeMap::new();
    for f in v {
        for (a, l) in &f.rel {
            match labels[l] { (d, false) => { mem.insert(*a, Some(d)); }, _ => { rel.insert(*a, l.clone()); } }
        }
    }
    Some((mem, labels, rel))
}
/// Links the files in the given order with a random grouping.
pub fn link_tree(r: &mut Rng, objs: &[&ObjectFile]) -> Result<Option<ObjectFile>, String> {
    if objs.len() == 1 { return Ok(Some(objs[0].clone())) }
    let k = 1 + r.usize(objs.len() - 1);
    let (Some(a), Some(b)) = (link_tree(r, &objs[..k])?, link_tree(r, &objs[k..])?) else { return Ok(None) };
    Ok(link(&a, &b)?.ok())
}

pub fn c20(c: &mut Ctx) {
    c.rule = "two to four generated object files with symbol tables, linked in several orders and groupings and compared with the reference linker".into();
    while c.go() {
        let mut r = c.rng.fork();
        let n = 2 + r.usize(3);
        let v: Vec<File> = (0..n).map(|i| loop {
            let f = file(&mut r, i);
            if f.dbg || f.obj.symbol_table().is_some() { break f }
        }).collect();
        c.case(&|| show_files(&v), || {
            let want = ref_link(&v.iter().map(|f| &f.f).collect::<Vec<_>>());
            let mut order: Vec<usize> = (0..n).collect();
            let tries = match n { 2 => 4, 3 => 6, _ => 6 };
            for t in 0..tries {
                if t == 1 { order.reverse() } else if t > 1 { r.shuffle(&mut order) }
                let objs: Vec<&ObjectFile> = order.iter().map(|i| &v[*i].obj).collect();
                let got = match link_tree(&mut r, &objs)? { None => None, Some(o) => Some((image(&o)?, labels(&o)?, pending(&o)?)) };
                match (&got, &want) {
                    (Some(g), Some(w)) => {
                        diff(&g.0, &w.0).map_err(|e| format!("order {order:?}: {e}"))?;
                        ensure!(g.1 == w.1, "order {order:?}: labels {:04X?}, expected {:04X?}", g.1, w.1);
                        ensure!(g.2 == w.2, "order {order:?}: pending relocations {:04X?}, expected {:04X?}", g.2, w.2);
                    },
                    (None, None) => {},
                    (Some(_), None) => return Err(format!("order {order:?}: linking succeeds, although blocks overlap or labels conflict")),
                    (None, Some(_)) => return Err(format!("order {order:?}: linking fails, although blocks are disjoint and labels agree")),
                }
                tick();
            }
            Ok((v.iter().any(|f| !f.f.rel.is_empty()) || want.is_none()).then(|| hash(&v.iter().map(|f| &f.src).collect::<Vec<_>>())))
        });
    }
}

pub fn c21(c: &mut Ctx) {
    c.rule = "generated object files with .fill words of external labels, loaded alone and linked with other files".into();
    // the listed finding: the defining file carries no symbol table
    let a = build(".external X\n.orig x3000\n.fill X\n.end", true);
    let b = build(".orig x4000\nX .fill 7\n.end", false);
    if let (Ok(a), Ok(b)) = (a, b) {
        if let Ok(Ok(o)) = link(&a, &b) {
            if image(&o).is_ok_and(|m| m.get(&0x3000) != Some(&Some(0x4000))) { c.known("definer-without-symbols"); }
        }
    }
    let mut sim = Simulator::new(SimFlags::default());
    while c.go() {
        let mut r = c.rng.fork();
        let n = 1 + r.usize(3);
        // the files which only define labels carry debug symbols (see KNOWN_FINDINGS)
        let v: Vec<File> = (0..n).map(|i| loop {
            let dbg = r.bool();
            if let Some(f) = file_with(&mut r, i, dbg) {
                if f.dbg || f.f.labels.values().any(|d| d.ext) { break f }
            }
        }).collect();
        c.case(&|| show_files(&v), || {
            let mut check = |o: &ObjectFile, fs: &[&Ref], what: &str| -> Result<(), String> {
                let Some((mem, labels, rel)) = ref_link(fs) else { return Err(format!("{what}: linked although the files conflict")) };
                let m = image(o)?;
                for f in fs { for (a, l) in &f.rel {
                    if !rel.contains_key(a) { ensure!(m.get(a) == Some(&Some(labels[l].0)), "{what}: the .fill {l} at x{a:04X} holds {:04X?}, expected x{:04X}", m.get(a), labels[l].0); }
                } }
                match guard(|| sim.load_obj_file(o)).map_err(|e| format!("{what}: loading: {e}"))? {
                    Err(SimErr::UnresolvedExternal(l)) => {
                        ensure!(labels.get(&up(&l)).is_some_and(|d| d.1), "{what}: loading reports {l} as unresolved");
                    },
                    Ok(()) => {
                        ensure!(rel.is_empty(), "{what}: loaded although {rel:04X?} are unresolved");
                        for (a, w) in &mem { if let Some(w) = w { ensure!(sim.mem[*a].get() == *w, "{what}: x{a:04X} is loaded with x{:04X}, expected x{w:04X}", sim.mem[*a].get()); } }
                    },
                    Err(e) => return Err(format!("{what}: loading: {e:?}")),
                }
                Ok(())
            };
            for (i, f) in v.iter().enumerate() { check(&f.obj, &[&f.f], &format!("file {i}"))?; }
            for _ in 0..3 {
                let mut order: Vec<usize> = (0..n).collect();
                r.shuffle(&mut order);
                let objs: Vec<&ObjectFile> = order.iter().map(|i| &v[*i].obj).collect();
                if let Some(o) = link_tree(&mut r, &objs)? {
                    check(&o, &order.iter().map(|i| &v[*i].f).collect::<Vec<_>>(), &format!("linked in order {order:?}"))?;
                }
            }
            Ok(v.iter().any(|f| !f.f.rel.is_empty()).then(|| hash(&v.iter().map(|f| &f.src).collect::<Vec<_>>())))
        });
    }
}

pub fn c22(c: &mut Ctx) {
    c.rule = "two to four generated object files with debug symbols linked in a random order and grouping; every statement address and label queried".into();
    let src = ".orig x3000\nLŉ .fill 1\n.end";
    if let (Ok(a), Ok(b)) = (build(src, true), build(".orig x4000\nB .fill 1\n.end", true)) {
        if let Ok(Ok(o)) = link(&a, &b) {
            let s = o.symbol_table().unwrap();
            let t = s.get_label_source("Lŉ").and_then(|r| s.source_info().and_then(|i| i.source().get(r).map(|s| s.to_string())));
            if t.as_deref() != Some("Lŉ") { c.known("uppercase-length"); }
        }
    }
    while c.go() {
        let mut r = c.rng.fork();
        let n = 2 + r.usize(3);
        let v: Vec<File> = (0..n).map(|i| loop { if let Some(f) = file_with(&mut r, i, true) { break f } }).collect();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        c.case(&|| format!("order {order:?}\n{}", show_files(&v)), || {
            let objs: Vec<&ObjectFile> = order.iter().map(|i| &v[*i].obj).collect();
            let Some(o) = link_tree(&mut r, &objs)? else { return Ok(None) };
            let s = o.symbol_table().ok_or("no symbol table")?;
            let info = s.source_info().ok_or("no source")?;
            let mut k = 0;
            for f in &v {
                for (i, a) in &f.f.addr {
                    let text = f.src.split('\n').nth(f.x.stmts[*i].line).unwrap().trim();
                    let l = s.rev_lookup_line(*a).ok_or_else(|| format!("x{a:04X} maps to no line, its source is {text:?}"))?;
                    ensure!(info.read_line(l) == Some(text), "x{a:04X} maps to line {l}, {:?}; its source is {text:?}", info.read_line(l));
                    ensure!(s.lookup_line(l) == Some(*a), "line {l} maps to {:04X?}, expected x{a:04X}", s.lookup_line(l));
                    k += 1;
                }
                for l in f.f.labels.keys() {
                    let sp = s.get_label_source(l).ok_or_else(|| format!("label {l} has no source"))?;
                    let t = info.source().get(sp.clone());
                    ensure!(t.is_some_and(|t| up(t) == *l), "the source span {sp:?} of label {l} covers {t:?}");
                }
            }
            Ok((k >= 3).then(|| hash(&(&order, v.iter().map(|f| &f.src).collect::<Vec<_>>()))))
        });
    }
}

pub fn c23(c: &mut Ctx) {
    c.rule = "a generated well-formed program with labels; every label in several spellings, and names not in the program".into();
    let src = ".orig x3000\nLŉ .fill 1\n.end";
    if let Ok(o) = build(src, true) {
        let t = o.symbol_table().and_then(|s| s.get_label_source("Lŉ"));
        if t.is_some() && t != Some(src.find('L').unwrap()..src.find('L').unwrap() + "Lŉ".len()) { c.known("uppercase-length"); }
    }
    while c.go() {
        let mut r = c.rng.fork();
        let p = gen_program(&mut r, &GOpts { big: false, ..Default::default() });
        let x = render(&mut r, &p, Style::Wild);
        c.case(&|| x.src.clone(), || {
            let f = assemble(&p);
            let ast = parse(&x.src)?;
            let t1 = guard(|| SymbolTable::new(&ast, None))?.map_err(|e| format!("{:?}", e.kind))?;
            let t2 = guard(|| SymbolTable::new(&ast, Some(&x.src)))?.map_err(|e| format!("{:?}", e.kind))?;
            let o = build(&x.src, true)?;
            // the same statements taken from sources of their own
            let mut moved = ast.clone();
            let mut mv = |l: &mut Label| { let k = if r.bool() { 0 } else { r.usize(50) }; *l = Label::new(l.name.clone(), k..k + l.name.len()); };
            for st in &mut moved {
                st.labels.iter_mut().for_each(&mut mv);
                if let StmtKind::Directive(Directive::External(l)) = &mut st.nucleus { mv(l); }
            }
            let t3 = guard(|| SymbolTable::new(&moved, None))?.map_err(|e| format!("{:?}", e.kind))?;
            for (what, s) in [("SymbolTable::new without source", &t1), ("SymbolTable::new of statements parsed separately", &t3), ("SymbolTable::new with source", &t2), ("object file", o.symbol_table().ok_or("no symbol table")?)] {
                let mut listed = BTreeMap::new();
                for (l, a, e) in s.label_iter() { ensure!(listed.insert(up(l), (a, e)).is_none(), "{what}: {l} is listed twice"); }
                ensure!(listed == ref_labels(&f), "{what}: labels {listed:04X?}, expected {:04X?}", ref_labels(&f));
                for (l, d) in &f.labels {
                    let at = match d.at { (i, Some(j)) => x.stmts[i].labels[j].clone(), (i, None) => x.stmts[i].operand.clone().unwrap() };
                    for k in 0..5 {
                        let sp = match k { 0 => l.clone(), 1 => l.to_lowercase(), _ => respell(&mut r, l) };
                        if up(&sp) != *l { continue }
                        let g = guard(|| (s.lookup_label(&sp), s.get_label_source(&sp)))?;
                        ensure!(g.0 == Some(d.addr), "{what}: lookup_label({sp:?}) = {:04X?}, expected x{:04X}", g.0, d.addr);
                        ensure!(what.contains("separately") || g.1 == Some(at.1..at.1 + at.0.len()), "{what}: get_label_source({sp:?}) = {:?}, expected {:?}", g.1, at.1..at.1 + at.0.len());
                    }
                    let b = s.rev_lookup_label(d.addr).ok_or_else(|| format!("{what}: no label at x{:04X}", d.addr))?;
                    ensure!(f.labels.get(&up(b)).is_some_and(|e| e.addr == d.addr), "{what}: rev_lookup_label(x{:04X}) = {b}", d.addr);
                }
                for _ in 0..6 {
                    let a = if r.bool() && !f.mem.is_empty() { *f.mem.keys().nth(r.usize(f.mem.len().min(200))).unwrap() } else { r.word() };
                    if let Some(b) = s.rev_lookup_label(a) { ensure!(f.labels.get(&up(b)).is_some_and(|e| e.addr == a), "{what}: rev_lookup_label(x{a:04X}) = {b}"); }
                    else { ensure!(f.labels.values().all(|d| d.addr != a), "{what}: no label at x{a:04X}"); }
                    let n = match r.below(3) { 0 => gen_label(&mut r, true), 1 => junk(&mut r, false), _ => match f.labels.keys().next() { Some(l) => format!("{l}_"), None => String::new() } };
                    if !f.labels.contains_key(&up(&n)) {
                        let g = guard(|| (s.lookup_label(&n), s.get_label_source(&n)))?;
                        ensure!(g == (None, None), "{what}: {n:?} is no label, but {g:?}");
                    }
                }
            }
            Ok((!f.labels.is_empty()).then(|| hash(&x.src)))
        });
    }
}

// ------------------------------------------------------------------------------------------------ formats
/// Object files produced by assembling and linking.
fn any_object(r: &mut Rng) -> (String, ObjectFile) {
    match r.below(20) {
        0 => ("empty object file".into(), ObjectFile::empty()),
        1..=9 => loop {
            let dbg = r.bool();
            let p = gen_program(r, &GOpts::default());
            let st = if r.one(5) { Style::Plain } else { Style::Wild };
            let mut x = render(r, &p, st);
            if r.one(10) { x.src.push_str(&format!("\n;{}", junk(r, false).repeat(r.usize(3)))); }
            if let Ok(o) = build(&x.src, dbg) { return (format!("debug symbols: {dbg}\n{}", x.src), o) }
        },
        10 => {
            // statements without any source text, only comments
            let src = format!(";{}\n{}", junk(r, false), if r.bool() { ";x" } else { "" });
            match build(&src, true) { Ok(o) => (src, o), Err(_) => ("empty object file".into(), ObjectFile::empty()) }
        },
        _ => loop {
            let n = 2 + r.usize(2);
            let v: Vec<File> = (0..n).map(|i| file(r, i)).collect();
            let objs: Vec<&ObjectFile> = v.iter().map(|f| &f.obj).collect();
            if let Ok(Some(o)) = link_tree(r, &objs) { return (format!("linked:\n{}", show_files(&v)), o) }
        },
    }
}
fn same(a: &ObjectFile, b: &ObjectFile) -> Result<(), String> {
    diff(&image(b)?, &image(a)?)?;
    let (la, lb) = (labels(a)?, labels(b)?);
    ensure!(la == lb, "labels {lb:04X?}, expected {la:04X?}");
    match (a.symbol_table(), b.symbol_table()) {
        (Some(s), Some(t)) => {
            for l in la.keys() { ensure!(s.get_label_source(l) == t.get_label_source(l), "source of {l}: {:?}, expected {:?}", t.get_label_source(l), s.get_label_source(l)); }
            let (x, y): (Vec<_>, Vec<_>) = (s.line_iter().collect(), t.line_iter().collect());
            ensure!(x == y, "line mapping {y:04X?}, expected {x:04X?}");
            let (x, y) = (s.source_info().map(|i| i.source()), t.source_info().map(|i| i.source()));
            ensure!(x == y, "source {y:?}, expected {x:?}");
            ensure!(pending(a)? == pending(b)?, "pending relocations {:04X?}, expected {:04X?}", pending(b)?, pending(a)?);
        },
        (None, None) => {},
        (x, y) => return Err(format!("symbol table: {}, expected {}", y.is_some(), x.is_some())),
    }
    ensure!(a == b, "the object files differ");
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    c.rule = "an object file from assembling or linking generated programs, written in binary format and read back".into();
    while c.go() {
        let mut r = c.rng.fork();
        let (d, o) = any_object(&mut r);
        c.case(&|| d.clone(), || {
            let b = guard(|| BinaryFormat::serialize(&o)).map_err(|e| format!("writing: {e}"))?;
            let p = guard(|| BinaryFormat::deserialize(&b)).map_err(|e| format!("reading: {e}"))?.ok_or("the written object file is rejected")?;
            same(&o, &p)?;
            Ok((image(&o)?.len() >= 2).then(|| hash(&d)))
        });
    }
}
pub fn c18(c: &mut Ctx) {
    c.rule = "an object file from assembling or linking generated programs, written in text format and read back".into();
    while c.go() {
        let mut r = c.rng.fork();
        let (d, o) = any_object(&mut r);
        c.case(&|| d.clone(), || {
            let b = guard(|| TextFormat::serialize(&o)).map_err(|e| format!("writing: {e}"))?;
            let p = guard(|| TextFormat::deserialize(&b)).map_err(|e| format!("reading: {e}"))?.ok_or_else(|| format!("the written object file is rejected:\n{b}"))?;
            same(&o, &p).map_err(|e| format!("{e}\nwritten:\n{b}"))?;
            Ok((image(&o)?.len() >= 2).then(|| hash(&d)))
        });
    }
    // every ASCII character and some others in a comment
    let mut n = 0;
    for ch in (0u32..0x300).chain([0x2028, 0x2029, 0xFEFF, 0xFFFD, 0x1F600, 0x10FFFF, 0xE000]).filter_map(char::from_u32) {
        for tail in ["", "\n", "1\n", "{41}\n"] {
            let src = format!(".orig x3000\nA .fill 1 ;{ch}{tail}.end ;");
            if parse_ast(&src).is_err() { continue }
            n += 1;
            c.case(&|| src.clone(), || {
                let Ok(o) = build(&src, true) else { return Ok(None) };
                let b = guard(|| TextFormat::serialize(&o)).map_err(|e| format!("writing: {e}"))?;
                let p = guard(|| TextFormat::deserialize(&b)).map_err(|e| format!("reading: {e}"))?.ok_or_else(|| format!("the written object file is rejected:\n{b}"))?;
                same(&o, &p).map_err(|e| format!("{e}\nwritten:\n{b}"))?;
                Ok(None)
            });
        }
    }
    c.exhaust("characters U+0000..U+0300 in comments", n);
}

fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.usize(4) {
        if b.is_empty() { return }
        let i = r.usize(b.len());
        match r.below(9) {
            0 => b[i] = r.u8(),
            1 => b[i] ^= 1 << r.below(8),
            2 => { b.truncate(i); },
            3 => { b.remove(i); },
            4 => { b.insert(i, r.u8()); },
            5 => { let v = *r.pick(&[0u64, 1, 0xFFFF, 0x8000, u64::MAX, u64::MAX - 1, u64::MAX - 7, 1 << 63, 1 << 32]); let n = r.pick(&[1usize, 2, 8]).min(&(b.len() - i)).to_owned(); b[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]); },
            6 => { let j = r.usize(b.len()); let (i, j) = (i.min(j), i.max(j)); let part = b[i..j.min(i + 60)].to_vec(); let at = r.usize(b.len() + 1); b.splice(at..at, part); },
            7 => b[i] = *r.pick(&[0, 1, 2, 3, 4, 0xFF, 0x80, 0xFE]),
            _ => {
                // a chunk of our own
                let mut ch: Vec<u8> = match r.below(5) {
                    0 => { let n = r.below(4) as u16; let mut v = vec![0]; v.extend(r.word().to_le_bytes()); v.extend(n.to_le_bytes()); for _ in 0..n { v.push(*r.pick(&[0xFF, 0, 1])); v.extend(r.u16().to_le_bytes()); } v },
                    1 => { let s = gen_label(r, true); let mut v = vec![1]; v.extend(r.word().to_le_bytes()); v.push(r.u8() & 3); v.extend((if r.bool() { r.next() } else { r.below(40) }).to_le_bytes()); v.extend((s.len() as u64).to_le_bytes()); v.extend(s.bytes()); v },
                    2 => { let n = r.below(4) as u16; let mut v = vec![2]; v.extend((if r.one(3) { r.next() } else if r.one(3) { u64::MAX - r.below(4) } else { r.below(9) }).to_le_bytes()); v.extend(n.to_le_bytes()); let mut a = r.word(); for _ in 0..n { v.extend(a.to_le_bytes()); a = a.wrapping_add(r.below(3) as u16); } v },
                    3 => { let s = junk(r, false); let mut v = vec![3]; v.extend((s.len() as u64).to_le_bytes()); v.extend(s.bytes()); v },
                    _ => { let s = r.pick(SHARED).to_uppercase(); let mut v = vec![4]; v.extend(r.word().to_le_bytes()); v.extend((s.len() as u64).to_le_bytes()); v.extend(s.bytes()); v },
                };
                if r.one(6) { let n = ch.len(); ch.truncate(r.usize(n + 1)); }
                if r.bool() { b.extend(ch) } else { let at = 7.min(b.len()); b.splice(at..at, ch); }
            },
        }
    }
}
fn mutate_text(r: &mut Rng, t: &mut String) {
    const W: &[&str] = &["0000", "FFFF", "????", "65535", "99999999999999999999", "18446744073709551615", "-1", " | ", "", ".TEXT", ".SYMBOL", ".DEBUG", ".LINKER_INFO", "====================", "ADDR | EXT | LABEL", "ADDR | LABEL",
        "LABEL | INDEX", "LINE | ADDR | SOURCE", "LC-3 OBJ FILE", "#", "\\", "\\u{110000}", "\\u{41", "\\x", "é", "3000 |   1 | X", "0 | 3000 | \\n", "+123", "0x30", "１２３４", "FDFF", "FE00", "1", "=", "\u{1b}", "x"];
    for _ in 0..1 + r.usize(4) {
        let mut lines: Vec<String> = t.split('\n').map(String::from).collect();
        let i = r.usize(lines.len());
        match r.below(9) {
            0 => { lines.remove(i); },
            1 => { let l = lines[i].clone(); let j = r.usize(lines.len() + 1); lines.insert(j, l); },
            2 => { let j = r.usize(lines.len()); lines.swap(i, j); },
            3 => { lines[i] = r.pick(W).to_string(); },
            4 => { lines.insert(i, r.pick(W).to_string()); },
            5 => {
                // a column
                let mut cols: Vec<String> = lines[i].split(" | ").map(String::from).collect();
                let k = r.usize(cols.len());
                cols[k] = r.pick(W).to_string();
                lines[i] = cols.join(" | ");
            },
            6 => { lines.truncate(i); },
            7 => {
                let cs: Vec<char> = lines[i].chars().collect();
                if !cs.is_empty() { let k = r.usize(cs.len()); let mut cs = cs; cs[k] = *r.pick(&['0', 'F', ' ', '|', '\\', 'é', '?', '9', '.', '#', '\r', '1']); lines[i] = cs.into_iter().collect(); }
            },
            _ => { let j = r.usize(lines.len()); let (i, j) = (i.min(j), i.max(j)); let part: Vec<String> = lines[i..j.min(i + 12)].to_vec(); let at = r.usize(lines.len() + 1); lines.splice(at..at, part); },
        }
        *t = lines.join("\n");
    }
}
pub fn c19(c: &mut Ctx) {
    c.rule = "mutated or random contents which a reader accepts; the object file is then written, read, linked and loaded".into();
    let mut sim = Simulator::new(SimFlags::default());
    let mut pool: Vec<File> = vec![];
    for i in 0..24 { let mut r = c.rng.fork(); pool.push(file(&mut r, i % 4)); }
    while c.go() {
        let mut r = c.rng.fork();
        if r.one(4) { let i = r.usize(pool.len()); let sl = r.usize(4); pool[i] = file(&mut r, sl); }
        let (desc, obj): (String, Result<Option<ObjectFile>, String>) = if r.bool() {
            let mut b = match r.below(6) {
                0 => { let mut b = b"obj\x21\x10\x00\x01".to_vec(); for _ in 0..r.usize(60) { b.push(if r.bool() { r.below(6) as u8 } else { r.u8() }); } b },
                1 => { let mut b = b"obj\x21\x10\x00\x01".to_vec(); for _ in 0..3 { mutate_bytes(&mut r, &mut b); } b },
                _ => BinaryFormat::serialize(&r.pick(&pool).obj),
            };
            if r.one(8) { mutate_bytes(&mut r, &mut b); }
            mutate_bytes(&mut r, &mut b);
            (format!("bytes {b:02X?}"), guard(|| BinaryFormat::deserialize(&b)))
        } else {
            let mut t = if r.one(8) { format!("LC-3 OBJ FILE\n{}", (0..r.usize(10)).map(|_| junk(&mut r, false)).collect::<Vec<_>>().join("\n")) } else { TextFormat::serialize(&r.pick(&pool).obj) };
            mutate_text(&mut r, &mut t);
            (format!("text:\n{t}"), guard(|| TextFormat::deserialize(&t)))
        };
        let other = r.usize(pool.len());
        c.case(&|| format!("{desc}\nlinked with\n{}", pool[other].src), || {
            let Some(o) = obj.map_err(|e| format!("reading: {e}"))? else { return Ok(None) };
            let mut all = vec![("the object file".to_string(), o.clone())];
            for (a, b, w) in [(&o, &pool[other].obj, "the object file linked with another"), (&pool[other].obj, &o, "another file linked with the object file"), (&o, &o, "the object file linked with itself")] {
                if let Ok(l) = link(a, b)? { all.push((w.to_string(), l)); }
            }
            for (w, o) in &all {
                let b = guard(|| BinaryFormat::serialize(o)).map_err(|e| format!("writing {w} in binary format: {e}"))?;
                let t = guard(|| TextFormat::serialize(o)).map_err(|e| format!("writing {w} in text format: {e}"))?;
                guard(|| { BinaryFormat::deserialize(&b); }).map_err(|e| format!("reading {w} back: {e}"))?;
                guard(|| { TextFormat::deserialize(&t); }).map_err(|e| format!("reading {w} back: {e}"))?;
                guard(|| { let _ = sim.load_obj_file(o); }).map_err(|e| format!("loading {w}: {e}"))?;
                guard(|| { o.addr_iter().count(); }).map_err(|e| format!("iterating {w}: {e}"))?;
            }
            Ok(Some(hash(&desc)))
        });
    }
    // a machine whose memory is overwritten over and over stays usable
    c.case(&|| "the simulator used for loading".into(), || { guard(|| { let _ = sim.run_with_limit(10); })?; Ok(None) });
}
