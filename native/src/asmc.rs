//! Parser and assembler contracts: C01 C02 C03 C05 C24 C26 C36.
use crate::prog::*;
use crate::util::*;
use lc3_ensemble::asm::{AsmErr, ObjectFile, assemble as asm, assemble_debug};
use lc3_ensemble::ast::asm::{Directive, Stmt, StmtKind};
use lc3_ensemble::err::Error as _;
use lc3_ensemble::parse::parse_ast;
use std::collections::{BTreeMap, BTreeSet};

pub fn show(s: &str) -> String { format!("{s:?}") }
pub fn parse(src: &str) -> Result<Vec<Stmt>, String> {
    guard(|| parse_ast(src)).map_err(|e| format!("parsing: {e}"))?.map_err(|e| format!("parsing fails: {e} at {:?}", e.span()))
}
pub fn image(o: &ObjectFile) -> Result<BTreeMap<u16, Option<u16>>, String> {
    let mut m = BTreeMap::new();
    for (a, w) in o.addr_iter() { ensure!(m.insert(a, w).is_none(), "address x{a:04X} is defined twice"); }
    Ok(m)
}
pub fn diff(got: &BTreeMap<u16, Option<u16>>, want: &BTreeMap<u16, Option<u16>>) -> Result<(), String> {
    for (a, w) in want {
        ensure!(got.get(a) == Some(w), "x{a:04X} holds {:04X?}, expected {w:04X?}", got.get(a));
    }
    for (a, w) in got { ensure!(want.contains_key(a), "x{a:04X} holds {w:04X?}, but is not part of the program"); }
    Ok(())
}
/// label -> (address, external)
pub fn labels(o: &ObjectFile) -> Result<BTreeMap<String, (u16, bool)>, String> {
    let mut m = BTreeMap::new();
    if let Some(s) = o.symbol_table() {
        for (l, a, e) in s.label_iter() { ensure!(m.insert(up(l), (a, e)).is_none(), "label {l} is listed twice"); }
    }
    Ok(m)
}
pub fn ref_labels(f: &Ref) -> BTreeMap<String, (u16, bool)> { f.labels.iter().map(|(l, d)| (l.clone(), (d.addr, d.ext))).collect() }
fn key(p: &[S_]) -> u64 { hash(&format!("{p:?}")) }

pub fn c01(c: &mut Ctx) {
    c.rule = "a generated well-formed program of at least two statements occupying memory, in random surface syntax, assembled with and without debug symbols".into();
    while c.go() {
        let mut r = c.rng.fork();
        let big = r.one(4);
        let p = gen_program(&mut r, &GOpts { big, ..Default::default() });
        let st = if r.one(4) { Style::Plain } else { Style::Wild };
        let x = render(&mut r, &p, st);
        c.case(&|| x.src.clone(), || {
            let f = assemble(&p);
            let ast = parse(&x.src)?;
            for dbg in [false, true] {
                let o = guard(|| if dbg { assemble_debug(ast.clone(), &x.src) } else { asm(ast.clone()) })?.map_err(|e| format!("assembling fails: {:?}", e.kind))?;
                diff(&image(&o)?, &f.mem)?;
                if dbg || f.labels.values().any(|d| d.ext) {
                    let (g, w) = (labels(&o)?, ref_labels(&f));
                    ensure!(g == w, "labels {g:04X?}, expected {w:04X?}");
                    let s = o.symbol_table().ok_or("no symbol table")?;
                    for (l, d) in &f.labels { ensure!(s.lookup_label(l) == Some(d.addr), "label {l} maps to {:04X?}, expected {:04X}", s.lookup_label(l), d.addr); }
                }
            }
            Ok((f.addr.len() >= 2).then(|| key(&p)))
        });
    }
    exhaustive_encodings(c);
}
/// Every mnemonic with every register and immediate operand, at one address each.
fn exhaustive_encodings(c: &mut Ctx) {
    let mut n = 0u64;
    for op in OPS {
        let mut forms: Vec<Vec<Arg>> = vec![vec![]];
        for s in op.sig {
            let vals: Vec<Arg> = match s {
                Sig::D | Sig::S => (0..8).map(Arg::R).collect(),
                Sig::RI5 => (0..8).map(Arg::R).chain((-16..16).map(Arg::N)).collect(),
                Sig::P(b) => if *b == 9 && op.sig.len() > 1 { [-256, -255, -1, 0, 1, 128, 254, 255].map(Arg::N).to_vec() } else { (-(1 << (b - 1))..1 << (b - 1)).map(Arg::N).collect() },
                Sig::I6 => (-32..32).map(Arg::N).collect(),
                Sig::V8 => (0..256).map(Arg::N).collect(),
                Sig::OptP9 => (-256..256).map(Arg::N).collect(),
            };
            let opt = *s == Sig::OptP9;
            let old = forms.clone();
            forms = forms.iter().flat_map(|f| vals.iter().map(move |v| { let mut f = f.clone(); f.push(v.clone()); f })).collect();
            if opt { forms.extend(old); }
        }
        n += forms.len() as u64;
        let mut p = vec![s_(K::Orig(0x1000))];
        p.extend(forms.into_iter().map(|f| s_(K::Ins(op, f))));
        p.push(s_(K::End));
        let x = render(&mut Rng::new(1), &p, Style::Plain);
        let ok = c.case(&|| format!("every form of {}", op.name), || {
            let f = assemble(&p);
            let o = asm(parse(&x.src)?).map_err(|e| format!("{:?}", e.kind))?;
            diff(&image(&o)?, &f.mem)?;
            Ok(Some(hash(&op.name)))
        });
        if !ok { return }
    }
    c.exhaust("mnemonic x register operands x immediate/vector operands (PC offsets of two-operand instructions at 8 values)", n);
}

// ------------------------------------------------------------------------------------------------ broken programs
fn stmt_of(r: &mut Rng, p: &[S_], f: impl Fn(&S_) -> bool) -> Option<usize> {
    let v: Vec<usize> = (0..p.len()).filter(|i| f(&p[*i])).collect();
    (!v.is_empty()).then(|| *r.pick(&v))
}
/// Makes edits which may break a program. The reference decides whether they do.
pub fn edit(r: &mut Rng, p: &mut Vec<S_>) {
    let all: Vec<String> = p.iter().flat_map(|s| s.labels.iter().cloned().chain(match &s.k { K::Ext(l) => Some(l.clone()), _ => None })).collect();
    let exts: Vec<String> = p.iter().filter_map(|s| match &s.k { K::Ext(l) => Some(l.clone()), _ => None }).collect();
    let mem = |s: &S_| s.k.size() > 0;
    match r.below(15) {
        0 => if let Some(i) = stmt_of(r, p, |s| s.k == K::End) { p.remove(i); },
        1 => if let Some(i) = stmt_of(r, p, |s| matches!(s.k, K::Orig(_))) { p.remove(i); },
        2 => { let i = r.usize(p.len() + 1); p.insert(i, s_(K::Orig(r.u16() as i32))); },
        3 => { let i = r.usize(p.len() + 1); p.insert(i, s_(K::End)); },
        4 => { let i = r.usize(p.len() + 1); let k = if r.bool() { K::Ins(op("HALT"), vec![]) } else { K::Fill(Arg::N(1)) }; p.insert(i, s_(k)); },
        5 => if let Some(i) = stmt_of(r, p, |s| matches!(s.k, K::Orig(_) | K::Ext(_))) { let l = gen_label(r, false); p[i].labels.push(l); },
        6 => if !all.is_empty() { if let Some(i) = stmt_of(r, p, |_| true) { let l = r.pick(&all).clone(); let l = respell(r, &l); let at = r.usize(p[i].labels.len() + 1); p[i].labels.insert(at, l); } },
        7 => if let Some(i) = stmt_of(r, p, |s| matches!(&s.k, K::Fill(_)) || matches!(&s.k, K::Ins(o, a) if o.sig.iter().zip(a).any(|(s, _)| matches!(s, Sig::P(_) | Sig::OptP9)))) {
            // any label, in reach or not, or an undefined one
            let l = if !exts.is_empty() && r.one(3) { r.pick(&exts).clone() } else if all.is_empty() || r.one(3) { gen_label(r, true) } else { r.pick(&all).clone() };
            match &mut p[i].k {
                K::Fill(a) => *a = Arg::L(l),
                K::Ins(o, a) => for (s, x) in o.sig.iter().zip(a.iter_mut()) { if matches!(s, Sig::P(_) | Sig::OptP9) { *x = Arg::L(l.clone()); } },
                _ => {},
            }
        },
        8 | 9 => if let Some(i) = stmt_of(r, p, |s| matches!(s.k, K::Orig(_))) {
            // move a block, next to another or against the limits
            let f = assemble(p);
            let size: u32 = p[i + 1..].iter().take_while(|s| s.k != K::End).map(|s| s.k.size()).sum();
            let others: Vec<u16> = f.mem.keys().copied().collect();
            let a = match r.below(6) {
                0 => 0xFE00u32.wrapping_sub(size).wrapping_add(r.range(-1, 2) as u32),
                1 => 0x10000u32.wrapping_sub(size).wrapping_add(r.range(-1, 2) as u32),
                2 if !others.is_empty() => *r.pick(&others) as u32,
                3 if !others.is_empty() => (*r.pick(&others) as u32).wrapping_sub(size).wrapping_add(r.range(-1, 1) as u32),
                4 if !others.is_empty() => (*r.pick(&others) as u32).wrapping_add(r.range(-1, 2) as u32),
                _ => 0xFDF0 + r.below(0x210) as u32,
            };
            p[i].k = K::Orig((a & 0xFFFF) as i32);
        },
        10 => if let Some(i) = stmt_of(r, p, mem) { p[i].k = K::Blkw(*r.pick(&[0xFFFF, 0x8000, 0xCE00, 0xCE01, 0xD000, 0xD001, 0xFE00, 1, 2, 0xFDFF])); },
        11 => if !all.is_empty() { let l = r.pick(&all).clone(); let i = r.usize(p.len() + 1); let l = respell(r, &l); p.insert(i, s_(K::Ext(l))); },
        12 => { let (i, j) = (r.usize(p.len().max(1)), r.usize(p.len().max(1))); if p.len() > 1 { p.swap(i, j); } },
        13 => if let Some(i) = stmt_of(r, p, |s| matches!(s.k, K::Ext(_))) { p.remove(i); },
        _ => if let Some(i) = stmt_of(r, p, |s| !s.labels.is_empty()) { p[i].labels.pop(); },
    }
}
/// A label both declared external and defined at x0000: left open by the properties.
fn open_case(p: &[S_], f: &Ref) -> bool {
    let exts: BTreeSet<String> = p.iter().filter_map(|s| match &s.k { K::Ext(l) => Some(up(l)), _ => None }).collect();
    p.iter().any(|s| s.labels.iter().any(|l| exts.contains(&up(l)))) && f.labels.iter().any(|(l, d)| exts.contains(l) && d.addr == 0 && p.iter().any(|s| s.labels.iter().any(|x| up(x) == *l)))
        && f.ok()
}
pub fn broken(r: &mut Rng) -> (Vec<S_>, Ref) {
    loop {
        let big = r.one(6);
        let mut p = gen_program(r, &GOpts { big, ..Default::default() });
        for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]) { edit(r, &mut p); }
        let f = assemble(&p);
        // operands which would take excessive time, and cases left open
        if open_case(&p, &f) { continue }
        return (p, f)
    }
}
pub fn kind_name(e: &AsmErr) -> String { let s = format!("{:?}", e.kind); s.split('(').next().unwrap().to_string() }

pub fn c02(c: &mut Ctx) {
    c.rule = "a generated program, well-formed or broken by random edits (structure, labels, operands, block placement), of at least two statements".into();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    while c.go() {
        let mut r = c.rng.fork();
        let (p, f) = broken(&mut r);
        let st = if r.one(3) { Style::Wild } else { Style::Plain };
        let x = render(&mut r, &p, st);
        for k in f.errs.keys() { *kinds.entry(k.clone()).or_default() += 1; }
        c.case(&|| format!("{}\nviolated conditions: {:?}", x.src, f.errs), || {
            let ast = parse(&x.src)?;
            for dbg in [true, false] {
                match guard(|| if dbg { assemble_debug(ast.clone(), &x.src) } else { asm(ast.clone()) }).map_err(|e| format!("assembling: {e}"))? {
                    Ok(o) => {
                        ensure!(f.ok(), "assembled, but {:?}", f.errs);
                        diff(&image(&o)?, &f.mem)?;
                    },
                    Err(e) => {
                        let k = kind_name(&e);
                        ensure!(!f.ok(), "well-formed program rejected with {:?}", e.kind);
                        ensure!(f.errs.contains_key(&k), "rejected with {:?}, but the violated conditions are {:?}", e.kind, f.errs.keys());
                    },
                }
            }
            Ok((p.len() >= 2).then(|| key(&p)))
        });
    }
    if c.ok() { for k in KINDS { if !kinds.contains_key(*k) { c.rule.push_str(&format!("; not generated: {k}")); } } }
}

// ------------------------------------------------------------------------------------------------ parser
pub fn c03(c: &mut Ctx) {
    c.rule = "a generated statement list of at least two statements rendered in random surface syntax; the parsed statements are compared with the written ones".into();
    while c.go() {
        let mut r = c.rng.fork();
        let p = if r.one(4) { broken(&mut r).0 } else { gen_program(&mut r, &GOpts::default()) };
        let p: Vec<S_> = p.into_iter().filter(|s| !matches!(s.k, K::Orig(n) if !(0..=0xFFFF).contains(&n))).collect();
        let x = render(&mut r, &p, Style::Wild);
        let y = render(&mut r, &p, Style::Wild);
        c.case(&|| x.src.clone(), || {
            let a = parse(&x.src)?;
            ensure!(a.len() == p.len(), "{} statements parsed, {} written", a.len(), p.len());
            for (i, (s, g)) in p.iter().zip(&a).enumerate() {
                let w = expected(s, &x.stmts[i]);
                ensure!(*g == w, "statement {i} ({:?}) is parsed as {g:?}, expected {w:?}", &x.src[x.stmts[i].span.clone()]);
            }
            // metamorphic: other surface syntax, same image and labels
            let b = parse(&y.src).map_err(|e| format!("other spelling:\n{}\n{e}", y.src))?;
            let f = |a: &Vec<Stmt>, s: &str| -> Result<_, String> {
                Ok(match guard(|| assemble_debug(a.clone(), s))? { Ok(o) => Some((image(&o)?, labels(&o)?)), Err(_) => None })
            };
            let (ia, ib) = (f(&a, &x.src)?, f(&b, &y.src)?);
            ensure!(ia == ib, "another spelling of the same program assembles differently:\n{}\n{ia:04X?}\n{ib:04X?}", y.src);
            Ok((p.len() >= 2).then(|| hash(&x.src)))
        });
    }
    // every keyword in every letter case
    let mut n = 0;
    for o in OPS {
        for m in 0..1u32 << o.name.len() {
            let name: String = o.name.chars().enumerate().map(|(i, ch)| if m >> i & 1 == 1 { ch.to_ascii_lowercase() } else { ch }).collect();
            let args: Vec<Arg> = o.sig.iter().map(|s| match s { Sig::D | Sig::S | Sig::RI5 => Arg::R(3), _ => Arg::N(5) }).collect();
            let s = s_(K::Ins(o, args));
            let plain = render(&mut Rng::new(0), &[s.clone()], Style::Plain);
            let src = plain.src.replacen(o.name, &name, 1);
            n += 1;
            c.case(&|| src.clone(), || {
                let a = parse(&src)?;
                ensure!(a.len() == 1 && a[0] == expected(&s, &plain.stmts[0]), "parsed as {a:?}");
                Ok(None)
            });
        }
    }
    for d in ["orig", "fill", "blkw", "stringz", "end", "external"] {
        for m in 0..1u32 << d.len() {
            let name: String = d.chars().enumerate().map(|(i, ch)| if m >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
            let tail = match d { "orig" | "fill" | "blkw" => " 7", "stringz" => " \"q\"", "external" => " lab", _ => "" };
            let src = format!(".{name}{tail}");
            n += 1;
            c.case(&|| src.clone(), || {
                let a = parse(&src)?;
                use Directive::*;
                let ok = a.len() == 1 && match (&a[0].nucleus, d) {
                    (StmtKind::Directive(Orig(o)), "orig") => o.get() == 7,
                    (StmtKind::Directive(Fill(lc3_ensemble::ast::PCOffset::Offset(o))), "fill") => o.get() == 7,
                    (StmtKind::Directive(Blkw(o)), "blkw") => o.get() == 7,
                    (StmtKind::Directive(Stringz(s)), "stringz") => s == "q",
                    (StmtKind::Directive(End), "end") => true,
                    (StmtKind::Directive(External(l)), "external") => l.name == "lab",
                    _ => false,
                };
                ensure!(ok && a[0].span == (0..src.len()), "parsed as {a:?}");
                Ok(None)
            });
        }
    }
    c.exhaust("every letter case of every mnemonic and directive", n);
}

pub fn c36(c: &mut Ctx) {
    c.rule = "a statement parsed from generated text, printed and parsed again".into();
    while c.go() {
        let mut r = c.rng.fork();
        let o = GOpts { printable: true, ..Default::default() };
        let p = gen_program(&mut r, &o);
        let x = render(&mut r, &p, Style::Wild);
        c.case(&|| x.src.clone(), || {
            for s in parse(&x.src)? {
                let text = guard(|| s.to_string()).map_err(|e| format!("printing {s:?}: {e}"))?;
                let b = parse(&text).map_err(|e| format!("the printed text {text:?} of {s:?}: {e}"))?;
                ensure!(b.len() == 1, "the printed text {text:?} of {s:?} parses as {} statements", b.len());
                ensure!(erase(&b[0]) == erase(&s), "{s:?} prints as {text:?}, which parses as {:?}", b[0]);
                // the parts print the same way
                let n = s.nucleus.to_string();
                let b = parse(&n).map_err(|e| format!("the printed nucleus {n:?} of {s:?}: {e}"))?;
                ensure!(b.len() == 1 && erase(&b[0]).nucleus == erase(&s).nucleus, "the nucleus of {s:?} prints as {n:?}, which parses as {b:?}");
                tick();
            }
            Ok((p.len() >= 2).then(|| key(&p)))
        });
    }
    // all characters a string literal may contain, alone and in pairs
    let chars: Vec<char> = (0x20u8..0x7F).map(char::from).chain(['\t', '\n', '\r', '\0']).collect();
    let mut n = 0;
    for &a in &chars {
        for b in chars.iter().map(|c| Some(*c)).chain([None]) {
            let t: String = std::iter::once(a).chain(b).collect();
            n += 1;
            c.case(&|| format!("string {t:?}"), || {
                let s = Stmt { labels: vec![], nucleus: StmtKind::Directive(Directive::Stringz(t.clone())), span: 0..0 };
                let text = s.to_string();
                let p = parse(&text)?;
                ensure!(p.len() == 1 && p[0].nucleus == s.nucleus, "prints as {text:?}, which parses as {p:?}");
                Ok(None)
            });
        }
    }
    c.exhaust("one- and two-character string literals over the allowed characters", n);
    // all values of the operands of directives and of immediate and offset fields
    let mut n = 0;
    for v in 0..=0xFFFFu16 {
        let mut texts = vec![format!(".orig x{v:X}"), format!(".fill #{}", v as i16), format!(".fill {v}")];
        if v > 0 { texts.push(format!(".blkw {v}")); }
        let i = v as i16;
        if (-16..16).contains(&i) { texts.extend([format!("ADD R1, R2, #{i}"), format!("AND R7, R0, #{i}")]); }
        if (-32..32).contains(&i) { texts.extend([format!("LDR R1, R2, #{i}"), format!("STR R7, R0, #{i}")]); }
        if (-256..256).contains(&i) {
            texts.extend(["LD R1,", "LDI R2,", "LEA R3,", "ST R4,", "STI R5,", "NOP", "BR", "BRn", "BRz", "BRp", "BRnz", "BRnp", "BRzp", "BRnzp"].map(|m| format!("{m} #{i}")));
        }
        if (-1024..1024).contains(&i) { texts.push(format!("JSR #{i}")); }
        if v < 256 { texts.push(format!("TRAP x{v:X}")); }
        n += texts.len() as u64;
        c.case(&|| format!("{texts:?}"), || {
            for t in &texts {
                let s = parse(t)?;
                ensure!(s.len() == 1, "{t:?} parses as {s:?}");
                let text = s[0].to_string();
                let b = parse(&text).map_err(|e| format!("the printed text {text:?} of {:?}: {e}", s[0]))?;
                ensure!(b.len() == 1 && erase(&b[0]) == erase(&s[0]), "{:?} prints as {text:?}, which parses as {b:?}", s[0]);
            }
            Ok(None)
        });
    }
    c.exhaust("operand values of directives, immediates and offsets", n);
}

// ------------------------------------------------------------------------------------------------ numbers
pub fn c05(c: &mut Ctx) {
    use lc3_ensemble::parse::{Parser, lex::Token};
    c.rule = "a numeric or register token, as a token and as an operand of each kind of field".into();
    let tok = |s: &str| -> Result<Result<(String, i64), String>, String> {
        guard(|| match Parser::new(s) {
            Ok(p) => {
                let (t, span) = p.peek().ok_or("no token")?;
                if *span != (0..s.len()) { return Err(format!("token {t:?} spans {span:?}")) }
                match t {
                    Token::Unsigned(n) => Ok(("u".to_string(), *n as i64)),
                    Token::Signed(n) => Ok(("s".to_string(), *n as i64)),
                    Token::Reg(n) => Ok(("r".to_string(), *n as i64)),
                    t => Err(format!("token {t:?}")),
                }
            },
            Err(e) => Err(e.to_string()),
        })
    };
    // tokens: all values around the range in all notations
    let mut n = 0u64;
    let vals: Vec<i64> = (-33000..=66000).chain([99999, 100000, 655360, 1 << 31, (1 << 32) + 5, 1 << 40, -40000, -65535, -65536, -65537, -(1 << 20), -(1 << 31) - 1, i64::MAX, i64::MIN + 1]).collect();
    for &v in &vals {
        let m = v.unsigned_abs();
        let mut forms = if v >= 0 { vec![format!("{m}"), format!("#{m}"), format!("x{m:x}"), format!("X{m:X}"), format!("#00{m}"), format!("x000{m:X}"), format!("0{m}")] } else { vec![] };
        if v <= 0 { forms.extend([format!("-{m}"), format!("#-{m}"), format!("x-{m:x}"), format!("X-{m:X}"), format!("-000{m}"), format!("#-0{m}"), format!("x-00{m:x}")]); }
        for s in forms {
            n += 1;
            let neg = s.contains('-');
            let want = if neg { (v >= -32768).then_some(("s", v)) } else { (v <= 65535).then_some(("u", v)) };
            let ok = c.case(&|| s.clone(), || {
                match (tok(&s)?, want) {
                    (Ok((k, g)), Some((wk, wv))) => ensure!(k == wk && g == wv, "token {s:?} is {k}{g}, expected {wk}{wv}"),
                    (Err(_), None) => {},
                    (g, w) => return Err(format!("token {s:?} gives {g:?}, expected {w:?}")),
                }
                Ok((v % 7 == 0).then(|| hash(&s)))
            });
            if !ok { return }
        }
    }
    c.exhaust("values -33000..=66000 in 7 notations each", n);
    // registers
    let mut n = 0u64;
    for v in (0..2000u64).chain([9999, 65536, 65543, 1 << 32, (1 << 32) + 3, 256, 257, 263, u64::MAX]) {
        for s in [format!("R{v}"), format!("r{v}"), format!("R0{v}"), format!("r000{v}")] {
            n += 1;
            c.case(&|| s.clone(), || {
                match tok(&s)? {
                    Ok((k, g)) => ensure!(v < 8 && k == "r" && g == v as i64, "token {s:?} is {k}{g}"),
                    Err(e) => ensure!(v >= 8, "register {s} is rejected: {e}"),
                }
                Ok(None)
            });
        }
    }
    c.exhaust("registers 0..2000 in 4 spellings", n);
    // operands
    let mut n = 0u64;
    let fields: &[(&str, &str, i64, i64, bool)] = &[
        // template, field, lo, hi, signed field
        ("ADD R1, R2, {}", "imm5", -16, 15, true), ("AND R1, R2, {}", "imm5", -16, 15, true),
        ("LDR R1, R2, {}", "offset6", -32, 31, true), ("STR R1, R2, {}", "offset6", -32, 31, true),
        ("BR {}", "PCoffset9", -256, 255, true), ("BRnp {}", "PCoffset9", -256, 255, true), ("NOP {}", "PCoffset9", -256, 255, true),
        ("LD R1, {}", "PCoffset9", -256, 255, true), ("LDI R1, {}", "PCoffset9", -256, 255, true), ("LEA R1, {}", "PCoffset9", -256, 255, true),
        ("ST R1, {}", "PCoffset9", -256, 255, true), ("STI R1, {}", "PCoffset9", -256, 255, true),
        ("JSR {}", "PCoffset11", -1024, 1023, true),
        ("TRAP {}", "trapvect8", 0, 255, false),
        (".orig {}", "address", 0, 65535, false), (".blkw {}", "size", 1, 65535, false), (".fill {}", "word", -32768, 65535, false),
    ];
    for &(tmpl, what, lo, hi, _) in fields {
        let mut vs: Vec<i64> = (-2100..2100).collect();
        vs.extend([-32769, -32768, -32767, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65536 + 5, 65536 - 5, 65280, 65520, 40000, -40000, 1 << 20, -(1 << 20), (1 << 32) + 1, 0xFF00, 0xFFF0, 0xFFE0, 0xFE00, 0xFC00, 256 + 0x25]);
        for v in vs {
            let m = v.unsigned_abs();
            let mut forms = vec![];
            if v >= 0 { forms.extend([format!("{m}"), format!("x{m:X}"), format!("#{m}")]); }
            if v <= 0 { forms.extend([format!("-{m}"), format!("x-{m:x}"), format!("#-{m}")]); }
            for s in forms {
                n += 1;
                let src = tmpl.replace("{}", &s);
                // a -0 is 0 in any field
                let fit = (lo..=hi).contains(&v);
                let ok = c.case(&|| src.clone(), || {
                    match guard(|| parse_ast(&src))? {
                        Ok(a) => {
                            ensure!(fit, "{v} is accepted as {what}: {a:?}");
                            ensure!(a.len() == 1, "{a:?}");
                            let g = operand_value(&a[0]).ok_or_else(|| format!("no number in {a:?}"))?;
                            ensure!(g == v || (what == "word" && g == (v as u16) as i64), "{src:?} is parsed with operand {g}");
                        },
                        Err(e) => ensure!(!fit, "{src:?} is rejected: {e}"),
                    }
                    Ok((v % 5 == 0).then(|| hash(&src)))
                });
                if !ok { return }
            }
        }
    }
    c.exhaust("operand fields x values around all field limits x notations", n);
    // malformed numbers are rejected as operands
    for s in ["#", "-", "#-", "x-", "3Q", "#Q", "x1G", "-#5", "##5", "#-Q", "-5Q", "x-G", "--5", "#--5", "x--5", "0x10", "-x5", "5_", "٣", "#٣", "x٣", "1٣", "+5", "#+5", "x+5", "x-+5", "5.0", "-+5", "#-+5"] {
        for t in [".fill {}", "ADD R0, R0, {}", "TRAP {}"] {
            let src = t.replace("{}", s);
            c.case(&|| src.clone(), || {
                ensure!(guard(|| parse_ast(&src))?.is_err(), "malformed number accepted: {:?}", parse_ast(&src));
                Ok(None)
            });
        }
    }
    for s in ["R8", "r9", "R10", "R08", "R70", "R256", "R٣", "r4294967296"] {
        for t in ["NOT R0, {}", "JMP {}", "ADD {}, R0, R0", "ADD R0, R0, {}"] {
            let src = t.replace("{}", s);
            c.case(&|| src.clone(), || {
                ensure!(guard(|| parse_ast(&src))?.is_err(), "register {s} accepted: {:?}", parse_ast(&src));
                Ok(None)
            });
        }
    }
    // random programs with numbers in any notation
    while c.go() {
        let mut r = c.rng.fork();
        let p = gen_program(&mut r, &GOpts { big: false, ..Default::default() });
        let x = render(&mut r, &p, Style::Ascii);
        c.case(&|| x.src.clone(), || {
            let a = parse(&x.src)?;
            for (i, (s, g)) in p.iter().zip(&a).enumerate() {
                ensure!(erase(g) == erase(&expected(s, &x.stmts[i])), "{:?} is parsed as {g:?}", &x.src[x.stmts[i].span.clone()]);
            }
            Ok(Some(key(&p)))
        });
    }
}
/// The numeric operand of a statement.
pub fn operand_value(s: &Stmt) -> Option<i64> {
    use lc3_ensemble::ast::asm::AsmInstr::*;
    use lc3_ensemble::ast::{ImmOrReg, PCOffset};
    fn p<const N: u32>(p: &PCOffset<i16, N>) -> Option<i64> { match p { PCOffset::Offset(o) => Some(o.get() as i64), _ => None } }
    match &s.nucleus {
        StmtKind::Instr(i) => match i {
            ADD(_, _, ImmOrReg::Imm(o)) | AND(_, _, ImmOrReg::Imm(o)) => Some(o.get() as i64),
            LDR(_, _, o) | STR(_, _, o) => Some(o.get() as i64),
            BR(_, o) | NOP(o) | LD(_, o) | LDI(_, o) | LEA(_, o) | ST(_, o) | STI(_, o) => p(o),
            JSR(o) => p(o),
            TRAP(v) => Some(v.get() as i64),
            _ => None,
        },
        StmtKind::Directive(Directive::Orig(o)) | StmtKind::Directive(Directive::Blkw(o)) => Some(o.get() as i64),
        StmtKind::Directive(Directive::Fill(PCOffset::Offset(o))) => Some(o.get() as i64),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------------ debug info and errors
pub fn c24(c: &mut Ctx) {
    c.rule = "a generated well-formed program assembled with debug symbols; every line and every address queried".into();
    while c.go() {
        let mut r = c.rng.fork();
        let p = gen_program(&mut r, &GOpts::default());
        let st = if r.one(4) { Style::Plain } else { Style::Wild };
        let x = render(&mut r, &p, st);
        c.case(&|| x.src.clone(), || {
            let f = assemble(&p);
            let o = guard(|| assemble_debug(parse_ast(&x.src).unwrap(), &x.src))?.map_err(|e| format!("{:?}", e.kind))?;
            let s = o.symbol_table().ok_or("no symbol table")?;
            let want: BTreeMap<usize, u16> = f.addr.iter().map(|(i, a)| (x.stmts[*i].line, *a)).collect();
            let nl = x.src.matches('\n').count() + 1;
            for l in 0..nl + 3 { ensure!(s.lookup_line(l) == want.get(&l).copied(), "line {l} maps to {:04X?}, expected {:04X?}", s.lookup_line(l), want.get(&l)); }
            let back: BTreeMap<u16, usize> = want.iter().map(|(l, a)| (*a, *l)).collect();
            // addresses of first words, and everything near a statement
            let mut probe: BTreeSet<u16> = back.keys().flat_map(|a| [a.wrapping_sub(1), *a, a.wrapping_add(1)]).collect();
            probe.extend([0, 0xFFFF, 0xFE00, 0x3000]);
            for (a, d) in f.mem.iter().take(50) { let _ = d; probe.insert(*a); }
            for a in probe { ensure!(s.rev_lookup_line(a) == back.get(&a).copied(), "x{a:04X} maps to line {:?}, expected {:?}", s.rev_lookup_line(a), back.get(&a)); }
            let it: Vec<(usize, u16)> = s.line_iter().collect();
            let w: Vec<(usize, u16)> = want.into_iter().collect();
            ensure!(it == w, "line_iter gives {it:04X?}, expected {w:04X?}");
            Ok((w.len() >= 2).then(|| hash(&x.src)))
        });
    }
}

/// Queries everything a user can ask of an error.
pub fn query(e: &AsmErr) -> Result<Vec<std::ops::Range<usize>>, String> {
    guard(|| {
        let f = e.span.first();
        let all: Vec<_> = e.span.iter().cloned().collect();
        let sp = e.span();
        (f, all, sp, e.to_string(), e.help().map(|h| h.to_string()))
    }).map_err(|p| format!("querying {:?}: {p}", e.kind)).and_then(|(f, all, sp, _, _)| {
        ensure!(!all.is_empty(), "{:?} has no span", e.kind);
        ensure!(all[0] == f, "{:?}: first span {f:?}, spans {all:?}", e.kind);
        ensure!(sp.is_some(), "{:?} has no span", e.kind);
        Ok(all)
    })
}
pub fn c26(c: &mut Ctx) {
    c.rule = "an error of assembling a generated broken program, or of linking generated object files; all spans queried".into();
    // the listed finding: labels whose uppercase form has another length
    let src = ".orig x3000\nLß .fill 1\nlß .fill 2\n.end";
    let (p, d) = (src.find('ß').unwrap() - 1, parse_ast(src));
    if let Ok(a) = d {
        if let Ok(Err(e)) = guard(|| assemble_debug(a, src)) {
            if let Ok(v) = query(&e) { if v[0] != (p..p + 3) { c.known("uppercase-length"); } }
        }
    }
    let src = ".orig x3000\nLŉ .fill 1\nlŉ .fill 2\n.end";
    if let Ok(a) = parse_ast(src) {
        if let Ok(Err(e)) = guard(|| assemble_debug(a, src)) {
            let at = src.find('L').unwrap();
            if let Ok(v) = query(&e) { if v[0] != (at..at + "Lŉ".len()) { c.known("uppercase-length"); } }
        }
    }
    while c.go() {
        let mut r = c.rng.fork();
        if r.one(5) {
            // linking
            let (a, b) = (crate::objc::file(&mut r, 0), crate::objc::file(&mut r, 1));
            c.case(&|| format!("{}\n--- linked with\n{}", a.src, b.src), || {
                if let Err(e) = guard(|| ObjectFile::link(a.obj.clone(), b.obj.clone())).map_err(|e| format!("linking: {e}"))? {
                    query(&e)?;
                    return Ok(Some(hash(&(&a.src, &b.src))))
                }
                Ok(None)
            });
            continue
        }
        let (p, f) = broken(&mut r);
        if f.ok() { continue }
        let x = render(&mut r, &p, Style::Wild);
        c.case(&|| x.src.clone(), || {
            let ast = parse(&x.src)?;
            for dbg in [true, false] {
                let Err(e) = guard(|| if dbg { assemble_debug(ast.clone(), &x.src) } else { asm(ast.clone()) })? else { continue };
                let spans = query(&e)?;
                for s in &spans { ensure!(s.start <= s.end && s.end <= x.src.len(), "{:?}: span {s:?} is not within the source of length {}", e.kind, x.src.len()); }
                let k = kind_name(&e);
                if ["UndetAddrLabel", "OverlappingLabels", "OffsetNewErr", "OffsetExternal", "CouldNotFindLabel"].contains(&&*k) {
                    let bad = f.errs.get(&k).cloned().unwrap_or_default();
                    let texts: Vec<String> = spans.iter().map(|s| x.src.get(s.clone()).map(up).unwrap_or_default()).collect();
                    for t in &texts { ensure!(bad.contains(t), "{:?}: a span covers {t:?}, the offending labels are {bad:?}", e.kind); }
                    if k == "OverlappingLabels" { ensure!(texts.iter().all(|t| *t == texts[0]), "OverlappingLabels: spans cover {texts:?}"); }
                }
            }
            Ok(Some(hash(&x.src)))
        });
    }
}
