//! C06, C07, C15, C34, C35.
use crate::conv::{from_ins, to_ins};
use crate::util::*;
use lc3_ensemble::asm::assemble;
use lc3_ensemble::ast::asm::{disassemble, disassemble_line};
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{Offset, OffsetNewErr};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::SimErr;
use lc3_ensemble::sim::device::{ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::Word;
use lc3spec::isa::{self, DecErr, Ins, Src};

pub fn all_ins() -> Vec<Ins> {
    let mut v = vec![Ins::Rti];
    for a in 0..8u8 {
        v.push(Ins::Jmp(a));
        v.push(Ins::Jsrr(a));
        for b in 0..8u8 {
            v.push(Ins::Not(a, b));
            for c in 0..8 { v.push(Ins::Add(a, b, Src::Reg(c))); v.push(Ins::And(a, b, Src::Reg(c))); }
            for i in -16..16 { v.push(Ins::Add(a, b, Src::Imm(i))); v.push(Ins::And(a, b, Src::Imm(i))); }
            for i in -32..32 { v.push(Ins::Ldr(a, b, i)); v.push(Ins::Str(a, b, i)); }
        }
        for o in -256..256 {
            v.extend([Ins::Br(a, o), Ins::Ld(a, o), Ins::Ldi(a, o), Ins::Lea(a, o), Ins::St(a, o), Ins::Sti(a, o)]);
        }
    }
    for o in -1024..1024 { v.push(Ins::Jsr(o)); }
    for t in 0..=255 { v.push(Ins::Trap(t)); }
    v
}

pub fn c06(c: &mut Ctx) {
    c.rule = "every 16-bit word is decoded and compared with the ISA table; every representable instruction is encoded; non-trivial: the word or instruction has a canonical encoding".into();
    for w in 0..=0xFFFFu16 {
        if !c.case(&|| format!("decode(x{w:04X})"), || {
            let spec = isa::decode(w);
            match (SimInstr::decode(w), spec) {
                (Ok(i), Ok(s)) => {
                    ensure!(to_ins(i) == s, "decodes to {i}, but is {s:?}");
                    ensure!(i.encode() == w, "re-encodes to x{:04X}", i.encode());
                    Ok(Some(w as u64))
                },
                (Err(SimErr::IllegalOpcode), Err(DecErr::IllegalOpcode)) | (Err(SimErr::InvalidInstrFormat), Err(DecErr::Format)) => Ok(None),
                (g, s) => Err(format!("decodes to {g:?}, but is {s:?}")),
            }
        }) { return }
    }
    c.exhaust("16-bit words", 65536);
    let all = all_ins();
    for &s in &all {
        if !c.case(&|| format!("encode({s:?})"), || {
            let i = from_ins(s);
            let w = i.encode();
            ensure!(w == isa::encode(s), "encodes to x{w:04X}, but the encoding is x{:04X}", isa::encode(s));
            let d = SimInstr::decode(w).map_err(|e| format!("x{w:04X} does not decode: {e:?}"))?;
            ensure!(d == i, "decodes back to {d}");
            Ok(Some(0x10000 + w as u64))
        }) { return }
    }
    c.exhaust("representable instructions", all.len() as u64);
}

pub fn c07(c: &mut Ctx) {
    c.rule = "every 16-bit word is disassembled, printed and reassembled at several origins; non-trivial: the word is an instruction at x0200 or above".into();
    for w in 0..=0xFFFFu16 {
        let origs = [0x3000u16, 0x0000, 0xFDFF, 0x0200u16.wrapping_add(w).min(0xFDFF), w.min(0xFDFF)];
        if !c.case(&|| format!("disassemble_line(x{w:04X}) = {}", disassemble_line(w)), || {
            let s = disassemble_line(w).to_string();
            let is_ins = w >= 0x200 && isa::decode(w).is_ok();
            let word0 = s.split_whitespace().next().unwrap_or("").to_uppercase();
            if !is_ins { ensure!(word0 == ".FILL", "x{w:04X} is printed as {s:?}, not as .fill"); }
            else { ensure!(!word0.starts_with('.'), "instruction x{w:04X} is printed as {s:?}"); }
            let named = match w {
                0xC1C0 => Some("RET"), 0xF020 => Some("GETC"), 0xF021 => None, 0xF022 => Some("PUTS"), 0xF023 => Some("IN"),
                0xF024 => Some("PUTSP"), 0xF025 => Some("HALT"), 0x8000 => Some("RTI"), _ => None,
            };
            if let Some(n) = named { ensure!(s.trim().eq_ignore_ascii_case(n), "x{w:04X} is printed as {s:?}, not as {n}"); }
            if w == 0xF021 { ensure!(matches!(&*s.trim().to_uppercase(), "OUT" | "PUTC"), "x{w:04X} is printed as {s:?}, not as OUT or PUTC"); }
            for o in origs {
                let src = format!(".orig x{o:04X}\n{s}\n.end\n");
                let ast = parse_ast(&src).map_err(|e| format!("{s:?} does not parse: {e:?}"))?;
                let obj = assemble(ast).map_err(|e| format!("{s:?} does not assemble at x{o:04X}: {e:?}"))?;
                let v: Vec<_> = obj.addr_iter().collect();
                ensure!(v == [(o, Some(w))], "{s:?} assembles to {v:04X?} at x{o:04X}");
            }
            Ok(if is_ins { Some(w as u64) } else { None })
        }) { return }
    }
    c.exhaust("16-bit words", 65536);
    // disassemble maps disassemble_line over a slice
    let all: Vec<u16> = (0..=0xFFFF).collect();
    c.case(&|| "disassemble(all words)".into(), || {
        let d = disassemble(&all);
        ensure!(d.len() == all.len(), "gives {} statements", d.len());
        for (w, s) in all.iter().zip(d) { ensure!(s.to_string() == disassemble_line(*w).to_string(), "word x{w:04X} differs from disassemble_line"); }
        Ok(Some(1 << 20))
    });
}

/// Any word: all combinations of data and initialization bits can be made with public operations.
pub fn mk_word(data: u16, init: u16) -> Word {
    let uninit = |mut d: u16| Word::new_uninit(&mut d);
    // ones: bits known to be 1; zeros: bits known to be 0
    let (ones, zeros) = (init & data, init & !data);
    // AND with an initialized 0 initializes bits to 0
    let a = !(uninit(!data) & Word::new_init(!ones)); // bits of `ones` are initialized 1s
    a & Word::new_init(!zeros)
}
/// The initialization bits of a word (through public operations only).
pub fn init_bits(w: Word) -> u16 {
    let mut r = 0;
    for b in 0..16 {
        // keep bit b, clear and initialize the others
        if (w & Word::new_init(1 << b)).is_init() { r |= 1 << b; }
    }
    r
}

pub fn c15(c: &mut Ctx) {
    c.rule = "operand pairs with random data, initialization masks and alternative fillings of the uninitialized bits; non-trivial: some operand is partially initialized".into();
    while c.go() {
        let mut r = c.rng.fork();
        let mut m = |r: &mut Rng| match r.below(5) { 0 => 0xFFFF, 1 => 0, 2 => r.u16() | r.u16(), 3 => !(1 << r.below(16)), _ => r.u16() };
        let (ai, bi) = (m(&mut r), m(&mut r));
        let (ad, bd) = if r.one(3) { (r.word() & 3, r.word()) } else if r.one(2) { (r.word(), r.word() & 1) } else { (r.word(), r.word()) };
        let (ax, bx) = (r.u16(), r.u16());
        for _ in 0..1 {
            c.case(&|| format!("a = (data x{ad:04X}, init x{ai:04X}), b = (data x{bd:04X}, init x{bi:04X}), alternative a x{:04X}, b x{:04X}", (ad & ai) | (ax & !ai), (bd & bi) | (bx & !bi)), || {
                let (a, b) = (mk_word(ad, ai), mk_word(bd, bi));
                ensure!(a.get() == ad && b.get() == bd && a.is_init() == (ai == 0xFFFF), "NOT/AND give wrong words: {a:?} {b:?}");
                ensure!(init_bits(a) & !ai == 0 && init_bits(b) & !bi == 0, "NOT/AND mark uninitialized bits as initialized: {a:?}");
                let (oa, ob) = ((ad & ai) | (ax & !ai), (bd & bi) | (bx & !bi));
                let full = ai == 0xFFFF && bi == 0xFFFF;
                let mut ops: Vec<(&str, Word, u16, u16, bool)> = vec![
                    ("a + b", a + b, ad.wrapping_add(bd), oa.wrapping_add(ob), full),
                    ("a - b", a - b, ad.wrapping_sub(bd), oa.wrapping_sub(ob), full),
                    ("a & b", a & b, ad & bd, oa & ob, full),
                    ("!a", !a, !ad, !oa, ai == 0xFFFF),
                ];
                let mut w = a; w += b; ops.push(("a += b", w, ad.wrapping_add(bd), oa.wrapping_add(ob), full));
                let mut w = a; w -= b; ops.push(("a -= b", w, ad.wrapping_sub(bd), oa.wrapping_sub(ob), full));
                let mut w = a; w &= b; ops.push(("a &= b", w, ad & bd, oa & ob, full));
                let fa = ai == 0xFFFF;
                let mut w = a; w += bd; ops.push(("a += u16", w, ad.wrapping_add(bd), oa.wrapping_add(bd), fa));
                let mut w = a; w -= bd; ops.push(("a -= u16", w, ad.wrapping_sub(bd), oa.wrapping_sub(bd), fa));
                let mut w = a; w += bd as i16; ops.push(("a += i16", w, ad.wrapping_add(bd), oa.wrapping_add(bd), fa));
                let mut w = a; w -= bd as i16; ops.push(("a -= i16", w, ad.wrapping_sub(bd), oa.wrapping_sub(bd), fa));
                for (n, w, e, o, f) in ops {
                    ensure!(w.get() == e, "{n} = x{:04X}, expected x{e:04X}", w.get());
                    ensure!(!f || w.is_init(), "{n} of initialized words is not initialized");
                    let i = init_bits(w);
                    ensure!((e ^ o) & i == 0, "{n} = x{e:04X} reports bits x{i:04X} initialized, but gives x{o:04X} for the alternative operands");
                }
                Ok((ai != 0xFFFF || bi != 0xFFFF).then(|| hash(&(ad, ai, bd, bi, ax, bx))))
            });
        }
    }
}

pub fn c35(c: &mut Ctx) {
    c.rule = "every 16-bit value at every width 1..=16, signed and unsigned; non-trivial: the value fits".into();
    fn one<const N: u32>(v: u16) -> Result<Option<u64>, String> {
        let (s, n) = (v as i16, N);
        let fits = (s as i32) >= -(1 << (n - 1)) && (s as i32) < (1 << (n - 1));
        match Offset::<i16, N>::new(s) {
            Ok(o) => ensure!(fits && o.get() == s, "IOffset<{n}>::new({s}) gives {}", o.get()),
            Err(e) => ensure!(!fits && e == OffsetNewErr::CannotFitSigned(n), "IOffset<{n}>::new({s}) gives {e:?}"),
        }
        let t = Offset::<i16, N>::new_trunc(s).get();
        ensure!(t == isa::sext(v, n), "IOffset<{n}>::new_trunc({s}) gives {t}");
        let ufits = (v as u32) < (1u32 << n);
        match Offset::<u16, N>::new(v) {
            Ok(o) => ensure!(ufits && o.get() == v, "Offset<u16, {n}>::new({v}) gives {}", o.get()),
            Err(e) => ensure!(!ufits && e == OffsetNewErr::CannotFitUnsigned(n), "Offset<u16, {n}>::new({v}) gives {e:?}"),
        }
        let t = Offset::<u16, N>::new_trunc(v).get();
        ensure!(t as u32 == v as u32 % (1u32 << n), "Offset<u16, {n}>::new_trunc({v}) gives {t}");
        Ok((fits || ufits).then_some(v as u64 * 32 + n as u64))
    }
    type F = fn(u16) -> Result<Option<u64>, String>;
    let fs: [F; 16] = [one::<1>, one::<2>, one::<3>, one::<4>, one::<5>, one::<6>, one::<7>, one::<8>, one::<9>, one::<10>, one::<11>, one::<12>, one::<13>, one::<14>, one::<15>, one::<16>];
    for (n, f) in fs.iter().enumerate() {
        for v in 0..=0xFFFFu16 {
            if !c.case(&|| format!("width {}, value x{v:04X}", n + 1), || f(v)) { return }
        }
    }
    c.exhaust("(width, value) pairs", 16 * 65536);
}

pub fn c34(c: &mut Ctx) {
    c.rule = "random timers (seed, range, vector, priority) are polled through scripts of enabling, disabling and resetting; non-trivial: the timer interrupted at least twice".into();
    let mut i = 0u64;
    while c.go() {
        let mut r = c.rng.fork();
        i += 1;
        let lo = if i < 64 { (i % 8) as u32 } else { match r.below(4) { 0 => 0, 1 => r.below(3) as u32, _ => r.below(40) as u32 } };
        let hi = lo + match r.below(3) { 0 => 0, 1 => r.below(3) as u32, _ => r.below(40) as u32 };
        let kind = if lo == hi { r.below(4) } else { r.below(3) };
        let (seed, vect, prio) = (r.next(), r.u8(), r.below(12) as u8);
        let script: Vec<u64> = (0..r.below(6)).map(|_| r.next()).collect();
        c.case(&|| format!("TimerDevice::new(Some({seed}), {lo}..={hi} (given as kind {kind}), {vect}, {prio}), script {script:?}"), || {
            let mk = || match kind {
                0 => TimerDevice::new(Some(seed), lo..=hi, vect, prio),
                1 => TimerDevice::new(Some(seed), lo..hi + 1, vect, prio),
                2 if lo > 0 => TimerDevice::new(Some(seed), (std::ops::Bound::Excluded(lo - 1), std::ops::Bound::Included(hi)), vect, prio),
                2 => TimerDevice::new(Some(seed), ..=hi, vect, prio),
                _ => { let mut t = TimerDevice::new(Some(seed), lo..=lo, vect, prio); t.set_exact(lo); t.reset_remaining(); t },
            };
            let (mut t, mut u) = (mk(), mk());
            for k in 0..50 { ensure!(t.poll_interrupt().is_none(), "a disabled timer interrupts at poll {k}"); u.poll_interrupt(); }
            let mut ints = 0;
            // since: polls since the start (None: since the last interrupt)
            let (mut first, mut quiet) = (true, 0u64);
            t.enabled = true;
            u.enabled = true;
            let mut script = script.iter();
            for k in 0..400u64 {
                if k % 67 == 50 {
                    match script.next().map(|s| s % 4) {
                        Some(0) => { t.io_reset(); u.io_reset(); first = true; quiet = 0; },
                        Some(1) => { t.reset_remaining(); u.reset_remaining(); first = true; quiet = 0; },
                        Some(2) => {
                            t.enabled = false; u.enabled = false;
                            for _ in 0..hi + 5 { ensure!(t.poll_interrupt().is_none(), "a disabled timer interrupts"); u.poll_interrupt(); }
                            t.enabled = true; u.enabled = true; first = true; quiet = 0;
                        },
                        _ => {}
                    }
                }
                let (a, b) = (t.poll_interrupt(), u.poll_interrupt());
                ensure!(a.is_some() == b.is_some(), "the same seed gives different sequences at poll {k}");
                match a {
                    Some(_) => {
                        if !first { ensure!(quiet >= lo as u64 && quiet <= hi as u64, "{quiet} polls between two interrupts (range {lo}..={hi})"); }
                        first = false;
                        quiet = 0;
                        ints += 1;
                    },
                    None => {
                        quiet += 1;
                        // (at most hi + 1 polls until the first interrupt: it is poll number hi + 1 at the latest)
                        ensure!(quiet <= hi as u64, "{quiet} polls without an interrupt (range {lo}..={hi}{})", if first { ", since enabled" } else { "" });
                    }
                }
            }
            Ok((ints >= 2).then(|| hash(&(lo, hi, seed, kind))))
        });
    }
}
