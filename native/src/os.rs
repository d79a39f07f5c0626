//! OS, loading, reset, reproducibility, lock contention: C11 C12 C29 C30 C31 C33.
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex, RwLock};

use crate::asmc::image;
use crate::conv::reg;
use crate::lock::*;
use crate::objc::build;
use crate::prog::{GOpts, Style, assemble as ref_assemble, gen_program, render};
use crate::progs::*;
use crate::run::{Bp, bp_of, cpu_of};
use crate::util::*;
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use lc3spec::isa::{self, Ins, Src};
use lc3spec::step::*;

type KBuf = Arc<RwLock<VecDeque<u8>>>;
type DBuf = Arc<RwLock<Vec<u8>>>;
fn io(s: &mut Simulator) -> (KBuf, DBuf) {
    let (k, d): (KBuf, DBuf) = Default::default();
    s.device_handler.set_keyboard(BufferedKeyboard::new(Arc::clone(&k)));
    s.device_handler.set_display(BufferedDisplay::new(Arc::clone(&d)));
    (k, d)
}
fn text(b: &[u8]) -> String { format!("{:?}", b.iter().map(|&c| c as char).collect::<String>()) }
pub const PROMPT: &[u8] = b"Input character: ";

// ---------------------------------------------------------------- C11

struct T11 { vect: u8, at: u16, regs: [u16; 8], psr: u16, saved: u16, words: Vec<u16>, to: u16, kb: Vec<u8>, late: Option<u64>, real: bool, ignore: bool, strict: bool }
fn trap_case(s: &mut Simulator, base: &mut [u16], k: &KBuf, d: &DBuf, t: &T11) -> Result<(), String> {
    let user = 0x3000..0xFE00u16;
    let mut set = |s: &mut Simulator, a: u16, v: u16| { s.mem[a] = Word::new_init(v); base[a as usize] = v; };
    for (i, &w) in t.words.iter().enumerate() { set(s, t.to + i as u16, w); }
    // (the string may lie where the TRAP is: keep the string)
    let word = 0xF000 | t.vect as u16;
    if !(t.to..t.to + t.words.len() as u16).contains(&t.at) { set(s, t.at, word); }
    s.flags.use_real_traps = t.real;
    s.flags.ignore_privilege = t.ignore;
    s.flags.strict = t.strict;
    for i in 0..8 { s.reg_file[reg(i)] = Word::new_init(t.regs[i as usize]); }
    s.pc = t.at;
    poke_ireg(s, InternalRegister::PSR, t.psr)?;
    poke_ireg(s, InternalRegister::SavedSP, t.saved)?;
    { let mut q = k.write().unwrap(); q.clear(); if t.late.is_none() { q.extend(&t.kb); } }
    d.write().unwrap().clear();
    // what must happen
    let mut out = vec![];
    let (mut used, mut r0) = (0, t.regs[0]);
    match t.vect {
        0x20 => { used = 1; r0 = t.kb[0] as u16; },
        0x21 => out.push(t.regs[0] as u8),
        0x22 => for a in t.regs[0]..0xFE00 { let w = base[a as usize]; if w == 0 { break } out.push(w as u8); },
        0x23 => { out.extend(PROMPT); out.push(t.kb[0]); used = 1; r0 = t.kb[0] as u16; },
        0x24 => 'o: for a in t.regs[0]..0xFE00 { for x in base[a as usize].to_le_bytes() { if x == 0 { break 'o } out.push(x); } },
        _ => {},
    }
    let before = cpu_of(s)?;
    let limit = 20_000 + 400 * out.len() as u64;
    let mut n = 0u64;
    if let Some(m) = t.late {
        // no input yet: the routine waits
        let r = s.run_while(|s| { n += 1; n <= m && !(n > 1 && s.pc == t.at.wrapping_add(1)) });
        tick();
        ensure!(r.is_ok(), "stops with {r:?} at x{:04X} while it waits for input", s.prefetch_pc());
        ensure!(n > m, "returns without input");
        k.write().unwrap().extend(&t.kb);
        n = 0;
    }
    let halt = t.vect == 0x25;
    let r = s.run_while(|s| { n += 1; n <= limit && (halt || !(n > 1 && s.pc == t.at.wrapping_add(1) && s.reg_file[reg(6)].get() == t.regs[6])) });
    tick();
    ensure!(r.is_ok(), "stops with {r:?} at x{:04X}", s.prefetch_pc());
    if halt {
        ensure!(s.hit_halt(), "HALT does not stop the machine (x{:04X} after {n} steps)", s.pc);
        ensure!(d.read().unwrap().is_empty() && k.read().unwrap().len() == t.kb.len(), "HALT uses the keyboard or the display");
    } else {
        ensure!(n <= limit, "does not return within {limit} instructions (x{:04X})", s.pc);
        let after = cpu_of(s)?;
        let mut want = before;
        want.r[0] = r0;
        want.pc = t.at.wrapping_add(1);
        ensure!(after.r == want.r, "registers {:04X?}, expected {:04X?}", after.r, want.r);
        ensure!(after.psr == want.psr, "PSR x{:04X}, expected x{:04X}", after.psr, want.psr);
        ensure!(after.pc == want.pc && after.saved_sp == want.saved_sp, "PC x{:04X}, saved SP x{:04X}, expected x{:04X} x{:04X}", after.pc, after.saved_sp, want.pc, want.saved_sp);
        let o = d.read().unwrap();
        ensure!(*o == out, "output {}, expected {}", text(&o), text(&out));
        let q: Vec<u8> = k.read().unwrap().iter().copied().collect();
        ensure!(q == t.kb[used..], "keyboard buffer {q:?} is left of {:?}, expected to consume {used}", t.kb);
    }
    if let Some(a) = user.into_iter().find(|&a| s.mem[a].get() != base[a as usize]) { return Err(format!("user memory x{a:04X} changed from x{:04X} to x{:04X}", base[a as usize], s.mem[a].get())) }
    Ok(())
}

pub fn c11(c: &mut Ctx) {
    c.rule = "one OS trap called from user or supervisor mode with random registers, stack, strings and keyboard contents (also arriving late); all bytes and condition codes for the single-character routines; non-trivial: every case (each is a full trap call)".into();
    let mut r = c.rng.fork();
    let mut s = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0x5A5A }, ..Default::default() });
    let (k, d) = io(&mut s);
    let mut base: Vec<u16> = (0..=0xFFFFu16).map(|a| if (0x3000..0xFE00).contains(&a) { r.word() } else { 0 }).collect();
    for a in 0x3000..0xFE00u16 { s.mem[a] = Word::new_init(base[a as usize]); }
    let mk = |r: &mut Rng, vect: u8| {
        let user = !r.one(3);
        let mut regs: [u16; 8] = std::array::from_fn(|_| r.word());
        let sys = 0x1000 + r.below(0x2001) as u16;
        if !user { regs[6] = sys; }
        T11 {
            vect, at: *r.pick(&[0x3000u16, 0x3001, 0xFDFD, 0x8000, 0x7FFF, 0x4242, 0x5000]), regs,
            psr: (user as u16) << 15 | (r.below(8) as u16) << 8 | 1 << r.below(3),
            saved: if user { if r.bool() { 0x3000 } else { sys } } else { r.word() },
            words: vec![], to: 0x4000, kb: (0..1 + r.usize(4)).map(|_| r.u8()).collect(), late: None,
            real: r.bool(), ignore: r.one(5), strict: r.one(4),
        }
    };
    let show = |t: &T11| format!("TRAP x{:02X} at x{:04X}, registers {:04X?}, PSR x{:04X}, saved SP x{:04X}, words {:04X?} at x{:04X}, keyboard {:?} (late {:?}), real traps {}, ignore privilege {}, strict {}",
        t.vect, t.at, t.regs, t.psr, t.saved, t.words, t.to, t.kb, t.late, t.real, t.ignore, t.strict);
    // every byte, every condition code, both modes
    for vect in [0x20u8, 0x21, 0x23] {
        for b in 0..=255u8 {
            for v in 0..6 {
                let mut t = mk(&mut r, vect);
                t.psr = (v as u16 % 2) << 15 | t.psr & 0x700 | 1 << (v / 2);
                if v % 2 == 0 { t.regs[6] = 0x2800; } else { t.saved = 0x3000; }
                t.kb[0] = b;
                t.regs[0] = t.regs[0] & 0xFF00 | b as u16;
                let (s, base, k, d) = (&mut s, &mut base, &k, &d);
                if !c.case(&|| show(&t), || trap_case(s, base, k, d, &t).map(|_| Some(hash(&(vect, b, v))))) { return }
            }
        }
    }
    c.exhaust("byte x condition codes x privilege for GETC, OUT and IN", 3 * 256 * 6);
    while c.go() {
        let vect = *r.pick(&[0x20u8, 0x21, 0x22, 0x22, 0x22, 0x23, 0x24, 0x24, 0x24, 0x25]);
        let mut t = mk(&mut r, vect);
        let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.usize(4), 3 => r.usize(60), 4 => r.usize(12), _ => if r.one(40) { 200 + r.usize(400) } else { 1 + r.usize(8) } };
        let byte = |r: &mut Rng| match r.below(4) { 0 => *r.pick(&[1u8, 0x7F, 0x80, 0xFF, 0x0A, 0x41]), 1 => r.u8().max(1), _ => 0x20 + r.below(95) as u8 };
        if matches!(vect, 0x22 | 0x24) {
            for _ in 0..n {
                let (lo, hi) = (byte(&mut r) as u16, byte(&mut r) as u16);
                t.words.push(if vect == 0x24 || r.one(4) { hi << 8 | lo } else { lo });
            }
            t.words.push(if vect == 0x22 || r.one(3) { 0 } else if r.bool() { byte(&mut r) as u16 } else { (byte(&mut r) as u16) << 8 });
            let last = 0xFE00 - t.words.len() as u16;
            t.to = match r.below(4) { 0 => 0x3000, 1 => last, 2 => 0x3000 + r.below((last - 0x2FFF) as u64) as u16, _ => 0x4000 };
            t.regs[0] = t.to;
            // (the string would be cut by the TRAP instruction)
            if (t.to..=t.to + t.words.len() as u16).contains(&t.at) { t.at = if t.to > 0x8000 { 0x3100 } else { 0xF000 } }
        }
        if matches!(vect, 0x20 | 0x23) && r.one(4) { t.late = Some(2 + r.below(4)); if vect == 0x23 { t.late = Some(2 + r.below(3000)) } }
        let (s, base, k, d) = (&mut s, &mut base, &k, &d);
        if !c.case(&|| show(&t), || trap_case(s, base, k, d, &t).map(|_| Some(hash(&(vect, t.at, t.regs, t.psr, &t.words, &t.kb))))) { return }
    }
}

// ---------------------------------------------------------------- C12

pub fn c12(c: &mut Ctx) {
    c.rule = "user programs (structured with OS traps, input and faults; random code; unknown trap vectors) run under virtual and real traps; non-trivial: the virtual run halted or stopped with an access, privilege or illegal-instruction error after at least 2 instructions".into();
    let mut r = c.rng.fork();
    let fl = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() };
    while c.go() {
        let mut mem: Vec<(u16, u16)>;
        let mut pc = 0x3000u16;
        if r.bool() {
            pc = 0x3000 + 0x10 * r.below(0x800) as u16;
            let p = gen_prog(&mut r, pc, &POpts { os: true, input: true, faults: true, halt: true, traps: false });
            mem = p.mem;
            if r.one(3) {
                // leaves user space in some other way
                let k = r.usize(mem.len());
                let w = match r.below(6) {
                    0 => 0xF000 | *r.pick(&[0u16, 0x1F, 0x26, 0x30, 0xFF, 0x25]),
                    1 => 0x8000,
                    2 => 0xC000 | (r.below(8) as u16) << 6,
                    3 => 0xD000,
                    4 => 0x1018,
                    _ => isa::encode(Ins::Ldr(r.below(6) as u8, r.below(6) as u8, 0)),
                };
                mem[k].1 = w;
            }
        } else {
            let o = Opts { user: r.bool(), ..Default::default() };
            pc = if r.one(6) { *r.pick(&[0xFDF0u16, 0xFDFF, 0x3000]) } else { pc + r.below(0x100) as u16 };
            mem = (0..4 + r.below(30) as u16).map(|i| (pc.wrapping_add(i), rand_ins(&mut r, &o))).filter(|m| m.0 < 0xFE00).collect();
            if r.bool() { let n = mem.len(); mem[n - 1].1 = 0xF025; }
        }
        let regs: [u16; 8] = std::array::from_fn(|_| if r.bool() { 0x3000 + r.below(0x100) as u16 } else { r.word() });
        let kb: Vec<u8> = (0..30).map(|_| r.u8()).collect();
        let psr = 0x8000 | (if r.one(3) { r.below(8) as u16 } else { 0 }) << 8 | 1 << r.below(3);
        if !c.case(&|| format!("PC x{pc:04X} PSR x{psr:04X} registers {regs:04X?} memory {mem:04X?} keyboard {kb:?}"), || {
            let mk = |real: bool| -> Result<_, String> {
                let mut s = Simulator::new(SimFlags { use_real_traps: real, ..fl });
                for &(a, v) in &mem { s.mem[a] = Word::new_init(v); }
                for i in 0..8 { s.reg_file[reg(i)] = Word::new_init(regs[i as usize]); }
                s.pc = pc;
                poke_ireg(&mut s, InternalRegister::PSR, psr)?;
                let (k, d) = io(&mut s);
                k.write().unwrap().extend(&kb);
                Ok((s, k, d))
            };
            let (mut v, _, vd) = mk(false)?;
            let mut n = 0u64;
            let rv = v.run_while(|_| { n += 1; n <= 20_000 });
            tick();
            if rv.is_ok() && !v.hit_halt() { return Ok(None) }
            let msg: &[u8] = match &rv {
                Ok(()) => b"",
                Err(SimErr::AccessViolation) => b"\n--- Access violation ---",
                Err(SimErr::PrivilegeViolation) => b"\n--- Privilege violation ---",
                Err(SimErr::IllegalOpcode | SimErr::InvalidInstrFormat) => b"\n--- Illegal opcode ---",
                Err(_) => return Ok(None),
            };
            let (mut s, _, sd) = mk(true)?;
            let mut m = 0u64;
            let rs = s.run_while(|_| { m += 1; m <= n + 20_000 });
            tick();
            ensure!(rs.is_ok(), "virtual traps: {rv:?} (PC x{:04X}); real traps: {rs:?} (PC x{:04X})", v.prefetch_pc(), s.prefetch_pc());
            ensure!(s.hit_halt(), "virtual traps: {rv:?}; the machine does not stop under real traps (PC x{:04X})", s.pc);
            let mut want = vd.read().unwrap().clone();
            want.extend(msg);
            ensure!(*sd.read().unwrap() == want, "virtual traps: {rv:?}; output under real traps {}, expected {}", text(&sd.read().unwrap()), text(&want));
            if rv.is_ok() {
                for i in 0..6 { ensure!(s.reg_file[reg(i)].get() == v.reg_file[reg(i)].get(), "R{i} is x{:04X} under real traps, x{:04X} under virtual traps", s.reg_file[reg(i)].get(), v.reg_file[reg(i)].get()); }
                for a in 0x3000..0xFE00u16 { ensure!(s.mem[a].get() == v.mem[a].get(), "memory x{a:04X} is x{:04X} under real traps, x{:04X} under virtual traps", s.mem[a].get(), v.mem[a].get()); }
            }
            Ok((n > 2).then(|| hash(&(&mem, regs, pc))))
        }) { return }
    }
}

// ---------------------------------------------------------------- C29

fn flags(r: &mut Rng) -> SimFlags {
    SimFlags {
        strict: r.bool(), use_real_traps: r.bool(), debug_frames: r.bool(), ignore_privilege: r.bool(),
        machine_init: if r.bool() { MachineInitStrategy::Seeded { seed: r.below(1000) } } else { MachineInitStrategy::Known { value: r.word() } },
    }
}
fn fresh(s: &Simulator) -> Result<(), String> {
    let os = image(lc3_ensemble::sim::_os_obj_file())?;
    for (&a, &v) in &os {
        let w = s.mem[a];
        match v {
            Some(v) => ensure!(w.get() == v && w.is_init(), "a new machine holds {w:?} at x{a:04X}, the OS image x{v:04X}"),
            None => ensure!(!w.is_init(), "a new machine holds {w:?} at the reserved OS word x{a:04X}"),
        }
    }
    for a in 0xFE00..=0xFFFFu16 { ensure!(s.mem[a].get() == 0, "a new machine holds x{:04X} in the I/O page at x{a:04X}", s.mem[a].get()); }
    Ok(())
}
/// The words of an object file as written in its binary form, built by hand.
fn crafted(r: &mut Rng) -> Option<(ObjectFile, BTreeMap<u16, Option<u16>>)> {
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    let mut m = BTreeMap::new();
    for _ in 0..1 + r.usize(4) {
        let n = match r.below(4) { 0 => 0, 1 => r.usize(600), _ => r.usize(12) };
        let at = match r.below(4) { 0 => (0x10000 - r.usize(n + 1)) as u16, 1 => (0x10000 - n) as u16, 2 => 0, _ => r.word() };
        if (0..=n).any(|i| m.contains_key(&at.wrapping_add(i as u16)) || m.contains_key(&at.wrapping_sub(1))) { continue }
        b.push(0);
        b.extend(at.to_le_bytes());
        b.extend((n as u16).to_le_bytes());
        for i in 0..n {
            let w = r.bool().then(|| r.word());
            match w { Some(w) => { b.push(0xFF); b.extend(w.to_le_bytes()) }, None => b.extend([0; 3]) }
            m.insert(at.wrapping_add(i as u16), w);
        }
    }
    BinaryFormat::deserialize(&b).map(|o| (o, m))
}
pub fn c29(c: &mut Ctx) {
    c.rule = "new simulators of random flags; assembled programs (all memory regions, .blkw, several blocks, blocks ending at the end of memory), linked or read object files loaded one after another into new or used machines; non-trivial: the file has at least one word".into();
    let mut r = c.rng.fork();
    while c.go() {
        let f = flags(&mut r);
        let mut objs: Vec<(ObjectFile, BTreeMap<u16, Option<u16>>, String)> = vec![];
        for _ in 0..1 + r.usize(4) {
            if r.one(3) {
                if let Some((o, m)) = crafted(&mut r) { let t = format!("object file with the words {m:04X?}"); objs.push((o, m, t)); }
                continue
            }
            let o = GOpts { big: r.one(3), ext: false, ..Default::default() };
            let p = gen_program(&mut r, &o);
            let g = ref_assemble(&p);
            if !g.ok() || !g.rel.is_empty() { continue }
            let st = if r.bool() { Style::Plain } else { Style::Wild };
            let x = render(&mut r, &p, st);
            let dbg = r.bool();
            let Ok(o) = build(&x.src, dbg) else { continue };
            // (what assembling gives is the matter of C01)
            let m = o.addr_iter().collect();
            objs.push((o, m, format!("{:?}", x.src)));
        }
        let used = r.bool();
        let seed = r.next();
        if !c.case(&|| format!("{f:?} used machine: {used} (seed {seed}); files {:?}", objs.iter().map(|o| &o.2).collect::<Vec<_>>()), || {
            let mut s = guard(|| Simulator::new(f))?;
            fresh(&s)?;
            let mut r = Rng::new(seed);
            if used { for _ in 0..200 { let w = r.word(); s.mem[r.word()] = Word::new_init(w); s.pc = r.word(); s.reg_file[reg(r.below(8) as u8)].set(w); let _ = s.step_in(); } }
            let mut n = 0;
            for (o, m, _) in &objs {
                tick();
                let before: Vec<Word> = (0..=0xFFFFu16).map(|a| s.mem[a]).collect();
                let cpu = cpu_of(&mut s)?;
                let regs: Vec<Word> = (0..8).map(|i| s.reg_file[reg(i)]).collect();
                // (cpu_of maps a register for a moment)
                let res = guard(|| s.load_obj_file(o))?;
                ensure!(res.is_ok(), "loading a file without externals: {res:?}");
                for a in 0..=0xFFFFu16 {
                    let (b, g) = (before[a as usize], s.mem[a]);
                    match m.get(&a) {
                        Some(Some(v)) => ensure!(g.get() == *v && g.is_init(), "x{a:04X} is {g:?} after loading, the file has x{v:04X}"),
                        Some(None) => ensure!(!g.is_init(), "x{a:04X} is {g:?} after loading, the file reserves it"),
                        None => ensure!(g == b, "x{a:04X} changes from {b:?} to {g:?} by loading, the file does not have it"),
                    }
                }
                for i in 0..8 { ensure!(s.reg_file[reg(i)] == regs[i as usize], "loading changes R{i}"); }
                let now = cpu_of(&mut s)?;
                ensure!(cpu == now, "loading changes the machine: {cpu:04X?} {now:04X?}");
                n += m.len();
            }
            Ok((n > 0).then(|| hash(&seed)))
        }) { return }
    }
}

// ---------------------------------------------------------------- C30

fn state(s: &mut Simulator) -> (Vec<Word>, Vec<Word>, u16) {
    ((0..=0xFFFFu16).map(|a| s.mem[a]).collect(), (0..8).map(|i| s.reg_file[reg(i)]).collect(), s.pc)
}
fn fields(s: &Simulator) -> String {
    format!("frames {} {:?}; instructions {}; halt {}, breakpoint {}; fault address x{:04X}", s.frame_stack.len(), s.frame_stack.frames().map(|f| f.len()), s.instructions_run, s.hit_halt(), s.hit_breakpoint(), s.prefetch_pc())
}
pub fn c30(c: &mut Ctx) {
    c.rule = "histories of configuration (flags, breakpoints, mappings, devices), loading and execution (steps, runs, faults, pauses), then reset, compared with a new simulator; then both execute the same strict program; non-trivial: something was executed before the reset".into();
    let mut r = c.rng.fork();
    while c.go() {
        let f0 = flags(&mut r);
        let f1 = if r.bool() { flags(&mut r) } else { f0 };
        let po = POpts { os: r.bool(), input: r.one(4), faults: true, halt: !r.one(3), traps: false };
        let prog = gen_prog(&mut r, 0x3000, &po);
        let maps: Vec<(u16, u8, bool)> = (0..r.usize(6)).map(|_| (*r.pick(&[0xFE20u16, 0xFE22, 0xFF00, 0xFFFC, 0xFFFE, 0xFFFA, 0xFE06]), r.below(4) as u8, r.one(3))).collect();
        let bps: Vec<Bp> = (0..r.usize(4)).map(|_| match r.below(3) { 0 => Bp::Pc(prog.mem[r.usize(prog.mem.len())].0), 1 => Bp::Reg(r.below(8) as u8, r.below(8) as u8, r.word()), _ => Bp::Mem(r.word(), r.below(8) as u8, r.word()) }).collect();
        let ops: Vec<(u8, u16)> = (0..1 + r.usize(6)).map(|_| (r.below(12) as u8, r.word())).collect();
        let devs = r.bool();
        let seed = r.next();
        let src = "    .orig x4000\nA ADD R0, R0, #1\n BRz A\n .blkw 30\n .fill x1234\n .end\n";
        if !c.case(&|| format!("{f0:?} then {f1:?}; program {:04X?}; mappings {maps:04X?} breakpoints {bps:04X?} operations {ops:04X?} devices {devs} seed {seed}", prog.mem), || {
            let mut q = Rng::new(seed);
            let mut s = Simulator::new(f0);
            let mcr = Arc::clone(s.mcr());
            let mut table: BTreeMap<u16, u8> = [(0xFFFC, 2), (0xFFFE, 1)].into();
            for &(a, k, rem) in &maps {
                if rem { s.munmap_internal(a); table.remove(&a); }
                else if s.mmap_internal(a, ireg_of(k)).is_ok() { table.insert(a, k); }
            }
            let (kb, ds) = io(&mut s);
            let dev = Arc::new(Mutex::new(TestDev { ports: vec![(0xFE30, 0x1111, 0), (0xFE31, 0x2222, 0)], irqs: vec![(5, 1, Irq::Vec(0x42, 5))], ..Default::default() }));
            if devs { s.device_handler.add_device(Arc::clone(&dev), &[0xFE30, 0xFE31]).map_err(|_| "cannot add a device")?; }
            for &b in &bps { s.breakpoints.insert(bp_of(b)); }
            kb.write().unwrap().extend([1u8, 2, 3]);
            for &(a, v) in &prog.mem { s.mem[a] = Word::new_init(v); }
            s.flags = f1;
            let mut did = 0;
            for &(k, v) in &ops {
                tick();
                match k {
                    0..=2 => for _ in 0..v % 60 { let _ = s.step_in(); did += 1; },
                    3 | 4 => { let mut n = 0; let _ = s.run_while(|_| { n += 1; n <= v as u64 % 500 }); did += n; },
                    5 => { let mut n = 0; let _ = s.run_while(|_| { n += 1; n <= 3000 }); did += n; },
                    6 => { let mut n = 0; s.pc = v; let _ = s.run_while(|_| { n += 1; n <= 20 }); },
                    7 => { let o = build(src, q.bool())?; let _ = s.load_obj_file(&o); s.pc = 0x4000; },
                    8 => for _ in 0..50 { let w = q.word(); s.mem[q.word()] = Word::new_init(w); },
                    9 => { poke_ireg(&mut s, InternalRegister::PSR, v & 0x8707)?; poke_ireg(&mut s, InternalRegister::SavedSP, q.word())?; },
                    10 => { s.reg_file[reg((v % 8) as u8)] = if q.bool() { Word::new_init(q.word()) } else { Word::new_uninit(&mut 5u16) }; s.instructions_run = q.next(); },
                    _ => { s.pc = 0x4100; s.mem[0x4100] = Word::new_init(0xF025); let mut n = 0; let _ = s.run_while(|_| { n += 1; n <= 3000 }); did += 1; },
                }
            }
            let want_bps: std::collections::HashSet<_> = s.breakpoints.drain().collect();
            for &b in &bps { s.breakpoints.insert(bp_of(b)); }
            guard(|| s.reset())?;
            let mut n = Simulator::new(f1);
            ensure!(format!("{:?}", s.flags) == format!("{f1:?}"), "reset changes the flags to {:?}", s.flags);
            ensure!(s.breakpoints == want_bps, "reset changes the breakpoints");
            ensure!(Arc::ptr_eq(&mcr, s.mcr()), "reset replaces the MCR");
            ensure!(fields(&s) == fields(&n), "after reset {}, a new simulator has {}", fields(&s), fields(&n));
            let (x, y) = (state(&mut s), state(&mut n));
            if let Some(a) = (0..65536).find(|&a| x.0[a] != y.0[a]) { return Err(format!("memory x{a:04X} is {:?} after reset, {:?} in a new simulator", x.0[a], y.0[a])) }
            for i in 0..8 { ensure!(x.1[i] == y.1[i], "R{i} is {:?} after reset, {:?} in a new simulator", x.1[i], y.1[i]); }
            ensure!(x.2 == y.2, "PC is x{:04X} after reset", x.2);
            let (a, b) = (cpu_of(&mut s)?, cpu_of(&mut n)?);
            ensure!(a == b, "{a:04X?} after reset, {b:04X?} in a new simulator");
            // the mappings
            for a in 0xFE00..=0xFFFFu16 {
                if table.contains_key(&a) || !maps.iter().any(|m| m.0 == a) && a != 0xFFFC && a != 0xFFFE { continue }
                s.mem[a] = Word::new_init(0x0BAD);
                s.mem[0xFE06] = Word::new_init(0x0BAD);
                if a == 0xFE06 { continue }
                let v = s.read_mem(a, MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?.get();
                ensure!(v == 0x0BAD, "x{a:04X}, which was not mapped, is mapped after reset");
            }
            for (&a, &k) in &table {
                s.mem[a] = Word::new_init(0x0BAD);
                let v = s.read_mem(a, MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?.get();
                let want = match k { 0 => s.pc, 1 => (s.mcr().load(Ordering::Relaxed) as u16) << 15, 2 => s.psr().get(), _ => 0x3000 };
                ensure!(v == want, "x{a:04X}, mapped to {:?}, reads x{v:04X} after reset, expected x{want:04X}", ireg_of(k));
                // it is still that register (and not a copy)
                if k == 3 {
                    s.write_mem(a, Word::new_init(0x2345), MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?;
                    ensure!(cpu_of(&mut s)?.saved_sp == 0x2345, "x{a:04X} does not write the saved SP after reset");
                    s.write_mem(a, Word::new_init(0x3000), MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?;
                }
            }
            // the devices
            kb.write().unwrap().push_back(0x7E);
            let io = MemAccessCtx::omnipotent();
            let mut io = io; io.io_effects = true;
            let first = kb.read().unwrap()[0];
            if !table.contains_key(&0xFE02) { ensure!(s.read_mem(0xFE02, io).map_err(|e| format!("{e:?}"))?.get() == first as u16, "the keyboard is gone after reset"); }
            ds.write().unwrap().clear();
            if !table.contains_key(&0xFE06) {
                let _ = s.write_mem(0xFE06, Word::new_init(0x41), io);
                ensure!(*ds.read().unwrap() == [0x41], "the display is gone after reset");
            }
            if devs {
                dev.lock().unwrap().ports[1].1 = 0x7777;
                ensure!(s.read_mem(0xFE31, io).map_err(|e| format!("{e:?}"))?.get() == 0x7777, "the device is gone after reset");
                let p = dev.lock().unwrap().polls;
                let _ = s.step_in();
                ensure!(dev.lock().unwrap().polls == p + 1, "the device is polled {} times in a step after reset", dev.lock().unwrap().polls - p);
                s.reset();
            }
            // and it behaves as a new one
            let obj = build(src, false)?;
            s.breakpoints.clear();
            for a in 0xFE00..=0xFFFFu16 { s.munmap_internal(a); n.munmap_internal(a); }
            let n0 = Simulator::new(f1);
            for a in 0..=0xFFFFu16 { s.mem[a] = n0.mem[a]; n.mem[a] = n0.mem[a]; }
            for z in [&mut s, &mut n] {
                z.device_handler = DeviceHandler::new();
                z.flags.strict = true;
                if seed % 3 == 0 { z.load_obj_file(&obj).map_err(|e| format!("{e:?}"))?; }
                for &(a, v) in &prog.mem { z.mem[a] = Word::new_init(v); }
                z.pc = if seed % 5 == 0 { 0x300 } else { 0x3000 };
            }
            for i in 0..40 {
                let (p, q) = (guard(|| s.step_in())?, guard(|| n.step_in())?);
                ensure!(format!("{p:?}") == format!("{q:?}"), "step {i} (strict) after reset gives {p:?}, in a new simulator {q:?}");
                let (a, b) = (cpu_of(&mut s)?, cpu_of(&mut n)?);
                ensure!(a == b, "step {i} after reset: {a:04X?}, in a new simulator {b:04X?}");
            }
            Ok((did > 0).then(|| hash(&(seed, &ops))))
        }) { return }
    }
}
fn ireg_of(k: u8) -> InternalRegister { match k { 0 => InternalRegister::PC, 1 => InternalRegister::MCR, 2 => InternalRegister::PSR, _ => InternalRegister::SavedSP } }

// ---------------------------------------------------------------- C31

pub fn c31(c: &mut Ctx) {
    c.rule = "two simulators of the same seeds (machine initialization and timers) with the same program, devices and inputs, stepped or run side by side, with resets; known values read from every register and word; non-trivial: at least 10 steps, or a known value checked".into();
    let mut r = c.rng.fork();
    // what a machine of a known value holds
    let os = image(lc3_ensemble::sim::_os_obj_file()).unwrap_or_default();
    for i in 0..40 {
        let v = if i < 4 { [0u16, 0xFFFF, 1, 0x8000][i] } else { r.word() };
        let mut f = flags(&mut r);
        f.machine_init = MachineInitStrategy::Known { value: v };
        let os = &os;
        if !c.case(&|| format!("{f:?}"), || {
            let s = guard(|| Simulator::new(f))?;
            for a in 0..0xFE00u16 {
                if matches!(os.get(&a), Some(Some(_))) { continue }
                ensure!(s.mem[a].get() == v, "x{a:04X} is x{:04X}", s.mem[a].get());
            }
            for i in 0..8 { ensure!(s.reg_file[reg(i)].get() == v, "R{i} is x{:04X}", s.reg_file[reg(i)].get()); }
            Ok(Some(hash(&("known", v))))
        }) { return }
    }
    while c.go() {
        let f = flags(&mut r);
        let known = matches!(f.machine_init, MachineInitStrategy::Known { .. });
        let po = POpts { os: true, input: true, faults: r.bool(), halt: r.bool(), traps: r.bool() };
        let prog = r.bool().then(|| gen_prog(&mut r, 0x3000, &po));
        let mut mem = prog.map(|p| p.mem).unwrap_or_default();
        let handlers = r.bool();
        if handlers {
            for k in 0..3u16 {
                let at = 0x2000 + 0x200 * k;
                mem.extend(gen_handler(&mut r, at));
                mem.push((0x140 + k, at));
                mem.push((0x40 + k, at));
            }
        }
        let timers: Vec<(u64, u32, u32, u8, u8)> = (0..r.usize(3)).map(|_| { let lo = r.below(30) as u32; (r.next(), lo, lo + r.below(40) as u32, 0x40 + r.below(3) as u8, 1 + r.below(7) as u8) }).collect();
        let ops: Vec<(u8, u64)> = (0..1 + r.usize(8)).map(|_| (r.below(8) as u8, r.next())).collect();
        let pc = if r.bool() { 0x3000 } else { r.word() };
        if !c.case(&|| format!("{f:?} PC x{pc:04X} program {mem:04X?} timers {timers:?} operations {ops:?}"), || {
            let mk = || -> Result<_, String> {
                let mut s = Simulator::new(f);
                let (k, d) = io(&mut s);
                let mut ts = vec![];
                for &(seed, lo, hi, v, p) in &timers {
                    let mut t = TimerDevice::new(Some(seed), lo..=hi, v, p);
                    t.enabled = true;
                    let t = Arc::new(Mutex::new(t));
                    s.device_handler.add_device(Arc::clone(&t), &[]).map_err(|_| "cannot add a timer")?;
                    ts.push(t);
                }
                k.write().unwrap().extend(b"input bytes");
                Ok((s, k, d, ts))
            };
            let mut both = [mk()?, mk()?];
            let load = |s: &mut Simulator| { for &(a, v) in &mem { s.mem[a] = Word::new_init(v); } s.pc = pc; };
            for b in &mut both { load(&mut b.0); }
            let mut n = 0u64;
            let same = |both: &mut [(Simulator, KBuf, DBuf, Vec<Arc<Mutex<TimerDevice>>>); 2], all: bool, n: u64| -> Result<(), String> {
                let [a, b] = both;
                let (x, y) = (cpu_of(&mut a.0)?, cpu_of(&mut b.0)?);
                ensure!(x == y, "after {n} steps: {x:04X?} and {y:04X?}");
                for i in 0..8 { ensure!(a.0.reg_file[reg(i)] == b.0.reg_file[reg(i)], "after {n} steps: R{i} differs"); }
                ensure!(*a.2.read().unwrap() == *b.2.read().unwrap(), "after {n} steps: different output");
                ensure!(*a.1.read().unwrap() == *b.1.read().unwrap(), "after {n} steps: different input left");
                for (s, t) in a.3.iter().zip(&b.3) { ensure!(s.lock().unwrap().get_remaining() == t.lock().unwrap().get_remaining(), "after {n} steps: timers differ"); }
                if all { if let Some(m) = (0..=0xFFFFu16).find(|&m| a.0.mem[m] != b.0.mem[m]) { return Err(format!("after {n} steps: memory x{m:04X} is {:?} and {:?}", a.0.mem[m], b.0.mem[m])) } }
                Ok(())
            };
            same(&mut both, true, 0)?;
            for &(k, v) in &ops {
                tick();
                match k {
                    0..=3 => for _ in 0..10 + v % 100 {
                        let res: Vec<String> = both.iter_mut().map(|b| format!("{:?}", guard(|| b.0.step_in()))).collect();
                        n += 1;
                        ensure!(res[0] == res[1], "step {n}: {} and {}", res[0], res[1]);
                        let [x, y] = &mut both;
                        let mut t: Vec<_> = x.0.observer.take_mem_accesses().map(|a| a.0).collect();
                        let mut u: Vec<_> = y.0.observer.take_mem_accesses().map(|a| a.0).collect();
                        t.sort(); u.sort();
                        ensure!(t == u, "step {n}: accesses to {t:04X?} and {u:04X?}");
                        for m in t { ensure!(x.0.mem[m] == y.0.mem[m], "step {n}: memory x{m:04X} differs"); }
                        same(&mut both, false, n)?;
                    },
                    4 => {
                        let res: Vec<String> = both.iter_mut().map(|b| { let mut i = 0; format!("{:?}", guard(|| b.0.run_while(|_| { i += 1; i <= v % 300 }))) }).collect();
                        n += v % 300;
                        ensure!(res[0] == res[1], "a run: {} and {}", res[0], res[1]);
                        same(&mut both, true, n)?;
                    },
                    5 => for b in &mut both { for t in &b.3 { let mut t = t.lock().unwrap(); match v % 4 { 0 => { t.set_exact((v >> 8) as u32 % 40); }, 1 => { t.set_range((v >> 8) as u32 % 20..60); }, 2 => t.reset_remaining(), _ => t.io_reset() } t.enabled = true; } },
                    6 => for b in &mut both { b.0.reset(); load(&mut b.0); for t in &b.3 { t.lock().unwrap().enabled = true; } b.1.write().unwrap().extend(b"more"); },
                    _ => for b in &mut both { b.1.write().unwrap().push_back(v as u8); },
                }
            }
            same(&mut both, true, n)?;
            Ok((n >= 10 || known).then(|| hash(&(&mem, &ops, &timers))))
        }) { return }
    }
}

// ---------------------------------------------------------------- C33

pub fn c33(c: &mut Ctx) {
    c.rule = "programs that read and write characters through OS traps or their own polling loops while the buffer locks are taken and released between instructions by a generated schedule (bytes also arrive that way); non-trivial: a lock was held during at least one instruction and at least one byte was transferred".into();
    let mut r = c.rng.fork();
    let flx = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() };
    const BUF: u16 = 0x3400;
    for k in 0u64.. {
        if !c.go() { return }
        let n = 1 + r.usize(8);
        let kind = r.below(4);
        let own = kind == 3;
        let mut v: Vec<u16> = vec![];
        let put_i = |v: &mut Vec<u16>, i: Ins| v.push(isa::encode(i));
        let mut outs: Vec<Option<u8>> = vec![]; // None: the next input byte
        // LD R5,#1; BR #1; .fill BUF
        v.extend([0x2A01, 0x0E01, BUF]);
        let mut inputs = 0;
        for _ in 0..n {
            let at = v.len() as i16;
            match if own { r.below(2) } else { r.below(5) } {
                0 | 4 => {
                    if own {
                        // L: LDI R0,KBSR; BRzp L; LDI R0,KBDR
                        put_i(&mut v, Ins::Ldi(0, 0xF0 - (at + 1)));
                        put_i(&mut v, Ins::Br(3, -2));
                        put_i(&mut v, Ins::Ldi(0, 0xF1 - (at + 3)));
                    } else if kind == 2 {
                        put_i(&mut v, Ins::Trap(0x23));
                        outs.extend(PROMPT.iter().map(|&b| Some(b)));
                        outs.push(None);
                    } else {
                        put_i(&mut v, Ins::Trap(0x20));
                        if kind == 1 { put_i(&mut v, Ins::Trap(0x21)); outs.push(None); }
                    }
                    inputs += 1;
                    put_i(&mut v, Ins::Str(0, 5, 0));
                    put_i(&mut v, Ins::Add(5, 5, Src::Imm(1)));
                },
                1 | 2 => {
                    let b = r.below(16) as u8;
                    put_i(&mut v, Ins::And(0, 0, Src::Imm(0)));
                    put_i(&mut v, Ins::Add(0, 0, Src::Imm(b as i16)));
                    let at = at + 2;
                    if own {
                        // L: LDI R1,DSR; BRzp L; STI R0,DDR
                        put_i(&mut v, Ins::Ldi(1, 0xF2 - (at + 1)));
                        put_i(&mut v, Ins::Br(3, -2));
                        put_i(&mut v, Ins::Sti(0, 0xF3 - (at + 3)));
                    } else { put_i(&mut v, Ins::Trap(0x21)); }
                    outs.push(Some(b));
                },
                _ => {
                    put_i(&mut v, Ins::Lea(0, 0xF4 - (at + 1)));
                    let packed = r.bool();
                    put_i(&mut v, Ins::Trap(if packed { 0x24 } else { 0x22 }));
                    // the words x41 x7A 0: as packed characters the string ends after the first byte
                    outs.push(Some(0x41));
                    if !packed { outs.push(Some(0x7A)); }
                },
            }
        }
        put_i(&mut v, Ins::Trap(0x25));
        if v.len() > 0xE0 { continue }
        let mut mem: Vec<(u16, u16)> = v.iter().enumerate().map(|(i, &w)| (0x3000 + i as u16, w)).collect();
        mem.extend([(0x30F0, 0xFE00), (0x30F1, 0xFE02), (0x30F2, 0xFE04), (0x30F3, 0xFE06), (0x30F4, 0x41), (0x30F5, 0x7A), (0x30F6, 0)]);
        let bytes: Vec<u8> = (0..inputs + r.usize(3)).map(|_| r.u8()).collect();
        let real = r.bool();
        let seed = r.next();
        let hit = k % 12 == 0; // holds also exactly at the access (the known finding)
        let poison = r.one(8);
        let dens = *r.pick(&[2u64, 4, 10, 50]);
        let len = *r.pick(&[2u64, 5, 30, 200]);
        let mut coincided = false;
        let mut failed: Option<String> = None;
        let (co, fa) = (&mut coincided, &mut failed);
        let done = c.case(&|| format!("program {mem:04X?} (own polling: {own}), input {bytes:?}, real traps {real}, schedule seed {seed} density {dens} length {len} poisoned {poison} holds at accesses {hit}"), || {
            let mut q = Rng::new(seed);
            let mut s = Simulator::new(SimFlags { use_real_traps: real, ignore_privilege: own, ..flx });
            for &(a, w) in &mem { s.mem[a] = Word::new_init(w); }
            s.pc = 0x3000;
            let (kb, ds) = io(&mut s);
            if poison {
                let (kb, ds) = (Arc::clone(&kb), Arc::clone(&ds));
                let _ = std::thread::spawn(move || { let _g = (kb.write(), ds.write()); std::panic::resume_unwind(Box::new(())) }).join();
            }
            macro_rules! w { ($x:expr) => { $x.write().unwrap_or_else(|e| e.into_inner()) } }
            let mut pending: VecDeque<u8> = bytes.iter().copied().collect();
            for _ in 0..q.usize(bytes.len() + 1) { w!(kb).push_back(pending.pop_front().unwrap()); }
            let (mut kh, mut dh, mut held, mut steps, mut idle) = (0u64, 0u64, 0u64, 0u64, 0u64);
            loop {
                if s.mem[s.pc].get() == 0xF025 { break }
                steps += 1;
                if steps % 64 == 0 { tick(); }
                if steps > 400_000 { *fa = Some("the program does not end".to_string()); break }
                // another thread acts between two instructions
                if kh > 0 { kh -= 1 } else if q.one(dens) { kh = q.below(len) }
                if dh > 0 { dh -= 1 } else if q.one(dens) { dh = q.below(len) }
                idle += 1;
                if kh == 0 && !pending.is_empty() && (q.one(40) || idle > 2000) { idle = 0; w!(kb).push_back(pending.pop_front().unwrap()); }
                let (mut hk, mut hd) = (kh > 0, dh > 0);
                if hk || hd {
                    let ea = |o: i16| s.pc.wrapping_add(1).wrapping_add(o as u16);
                    let (mut ra, mut wa) = (None, None);
                    match isa::decode(s.mem[s.pc].get()) {
                        Ok(Ins::Ldi(_, o)) => ra = Some(s.mem[ea(o)].get()),
                        Ok(Ins::Ld(_, o)) => ra = Some(ea(o)),
                        Ok(Ins::Ldr(_, b, o)) => ra = Some(s.reg_file[reg(b)].get().wrapping_add(o as u16)),
                        Ok(Ins::Sti(_, o)) => wa = Some(s.mem[ea(o)].get()),
                        Ok(Ins::St(_, o)) => wa = Some(ea(o)),
                        Ok(Ins::Str(_, b, o)) => wa = Some(s.reg_file[reg(b)].get().wrapping_add(o as u16)),
                        _ => {},
                    }
                    if hk && ra == Some(0xFE02) { if hit { *co = true } else { hk = false } }
                    if hd && wa == Some(0xFE06) { if hit { *co = true } else { hd = false } }
                }
                held += (hk || hd) as u64;
                let reader = q.bool();
                let res = {
                    let _g1 = (hk && reader).then(|| kb.read());
                    let _g2 = (hk && !reader).then(|| kb.write());
                    let _g3 = (hd && reader).then(|| ds.read());
                    let _g4 = (hd && !reader).then(|| ds.write());
                    guard(|| s.step_in())?
                };
                ensure!(res.is_ok(), "stops with {res:?} at x{:04X}", s.prefetch_pc());
            }
            if fa.is_none() {
                let full: Vec<u16> = (0..inputs).map(|i| s.mem[BUF + i as u16].get()).collect();
                let mut i = 0;
                let want: Vec<u8> = outs.iter().map(|o| o.unwrap_or_else(|| { i += 1; bytes[i - 1] })).collect();
                let o = w!(ds).clone();
                let left: Vec<u8> = w!(kb).iter().copied().chain(pending).collect();
                if full.iter().zip(&bytes).any(|(&x, &b)| x != b as u16) { *fa = Some(format!("receives {full:02X?} of the input {bytes:02X?}")); }
                else if o != want { *fa = Some(format!("the display holds {}, the program wrote {}", text(&o), text(&want))); }
                else if left != bytes[inputs..] { *fa = Some(format!("{left:02X?} is left of the input {bytes:02X?} after {inputs} reads")); }
            }
            if let Some(f) = &fa { if !*co { return Err(f.clone()) } }
            Ok((held > 0 && inputs + outs.len() > 0).then(|| hash(&(&mem, seed))))
        });
        if !done { return }
        if failed.is_some() && coincided { c.known("lock-at-access"); }
    }
}

/// The image of the assembled OS, as the source of constants for its proofs.
pub fn image_source() -> String {
    let mut words: Vec<u16> = vec![];
    for (a, w) in lc3_ensemble::sim::_os_obj_file().addr_iter() {
        if a >= 0x3000 { continue }
        if words.len() <= a as usize { words.resize(a as usize + 1, 0); }
        words[a as usize] = w.unwrap_or(0);
    }
    // targets of backward branches
    let mut heads: Vec<u16> = words.iter().enumerate().filter_map(|(a, &w)| {
        let off = ((w << 7) as i16) >> 7;
        (w >> 12 == 0 && w >> 9 != 0 && off < 0).then(|| (a as u16 + 1).wrapping_add(off as u16))
    }).collect();
    heads.sort();
    heads.dedup();
    let list = |v: &[u16]| v.iter().map(|w| format!("{w:#06X}")).collect::<Vec<_>>().join(", ");
    let rows = words.chunks(16).enumerate().map(|(i, c)| {
        let mut c = c.to_vec();
        c.resize(16, 0);
        format!("        {i} => [{}],\n", list(&c))
    }).collect::<String>();
    format!("// Extracted from the real code by the check (lc3native os-image): the assembled OS, and the targets of its backward branches.\n\
        pub const OS_LEN: u16 = {};\npub const HEADS: [u16; {}] = [{}];\n\
        pub fn os(a: u16) -> u16 {{\n    let row: [u16; 16] = match a / 16 {{\n{rows}        _ => [0; 16],\n    }};\n    row[(a % 16) as usize]\n}}\n",
        words.len(), heads.len(), list(&heads))
}
