//! One step of the machine: contract of `Simulator::step_in`/`run` (without strict mode).

use crate::isa::{DecErr, Ins, Src, decode};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Flags { pub real_traps: bool, pub ignore_privilege: bool }

/// Processor state.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cpu {
    pub r: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    /// Saved stack pointer (SSP in user mode, USP in supervisor mode).
    pub saved_sp: u16,
    /// Instructions completed.
    pub count: u64,
    /// Frame depth.
    pub depth: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IReg { Pc, Psr, Mcr, SavedSp }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Poll { None, Vectored(u8, u8), External }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Touch { Read, Write { changed: bool } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FrameKind { Sub, Trap, Int }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exc { IllegalOpcode, Format, Access, Privilege }
/// How the step ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    /// A virtual HALT.
    Halt,
    /// An exception under virtual traps. Holds the faulting instruction's address.
    Exc(Exc, u16),
    /// A device raised an interrupt the machine does not handle.
    External,
}

/// Everything outside of the processor.
pub trait Env {
    fn poll(&mut self) -> Poll;
    fn peek(&mut self, a: u16) -> u16;
    fn poke(&mut self, a: u16, v: u16);
    fn ireg(&mut self, a: u16) -> Option<IReg>;
    fn mcr(&mut self) -> bool;
    fn set_mcr(&mut self, v: bool);
    fn dev_read(&mut self, a: u16) -> Option<u16>;
    fn dev_write(&mut self, a: u16, v: u16) -> bool;
    /// An access by the program (for the access observer).
    fn touch(&mut self, a: u16, t: Touch);
    /// A frame was pushed: calling instruction, start address or vector.
    fn push(&mut self, caller: u16, callee: u16, k: FrameKind, c: &Cpu);
    fn pop(&mut self);
    /// May replace the entry of a handler by its contract.
    fn entry(&mut self, _c: &mut Cpu, _vect: u16, _prio: Option<u8>, _fetched: bool) -> Option<Result<(), Exc>> { None }
}

const IO: u16 = 0xFE00;
const USER: u16 = 0x3000;

pub fn user_mode(psr: u16) -> bool { psr >= 0x8000 }
pub fn priority(psr: u16) -> u8 { (psr / 256 % 8) as u8 }
/// What the PSR holds after a program writes `d` to it through memory-mapped I/O.
pub fn psr_write(d: u16) -> u16 {
    let cc = match d % 8 { c @ (1 | 2 | 4) => c, _ => 2 };
    (d & 0x8700) | cc
}
fn set_cc(c: &mut Cpu, v: u16) {
    let cc = if v == 0 { 2 } else if v >= 0x8000 { 4 } else { 1 };
    c.psr = c.psr / 8 * 8 + cc;
}

fn allowed(c: &Cpu, f: Flags, a: u16) -> bool {
    !user_mode(c.psr) || f.ignore_privilege || (a >= USER && a < IO)
}
pub fn load<E: Env>(c: &mut Cpu, e: &mut E, f: Flags, a: u16) -> Result<u16, Exc> {
    if !allowed(c, f, a) { return Err(Exc::Access) }
    if a >= IO {
        let v = match e.ireg(a) {
            Some(IReg::Pc) => Some(c.pc),
            Some(IReg::Psr) => Some(c.psr),
            Some(IReg::Mcr) => Some(if e.mcr() { 0x8000 } else { 0 }),
            Some(IReg::SavedSp) => Some(c.saved_sp),
            None => e.dev_read(a),
        };
        if let Some(v) = v { e.poke(a, v); }
    }
    e.touch(a, Touch::Read);
    Ok(e.peek(a))
}
fn store<E: Env>(c: &mut Cpu, e: &mut E, f: Flags, a: u16, v: u16) -> Result<(), Exc> {
    if !allowed(c, f, a) { return Err(Exc::Access) }
    if a >= IO {
        match e.ireg(a) {
            Some(IReg::Pc) => c.pc = v,
            Some(IReg::Psr) => c.psr = psr_write(v),
            Some(IReg::Mcr) => e.set_mcr(v >= 0x8000),
            Some(IReg::SavedSp) => c.saved_sp = v,
            None => if !e.dev_write(a, v) { return Ok(()) },
        }
    }
    let changed = e.peek(a) != v;
    e.poke(a, v);
    e.touch(a, Touch::Write { changed });
    Ok(())
}

/// TRAP, interrupt and exception entry. `at` is the calling or interrupted instruction.
pub fn enter<E: Env>(c: &mut Cpu, e: &mut E, f: Flags, vect: u16, prio: Option<u8>, fetched: bool) -> Result<(), Exc> {
    if let Some(r) = e.entry(c, vect, prio, fetched) { return r }
    let (psr, pc) = (c.psr, c.pc);
    if user_mode(psr) {
        (c.r[6], c.saved_sp) = (c.saved_sp, c.r[6]);
        c.psr = psr - 0x8000;
    }
    let sp = c.r[6];
    c.r[6] = sp.wrapping_sub(2);
    // (The stack is accessed in supervisor mode.)
    let sup = Flags { ignore_privilege: true, ..f };
    store(c, e, sup, sp.wrapping_sub(1), psr)?;
    store(c, e, sup, sp.wrapping_sub(2), pc)?;
    c.psr = c.psr / 8 * 8 + 2;
    if let Some(p) = prio { c.psr = (c.psr & 0xF8FF) + p as u16 * 256; }
    let target = load(c, e, f, vect)?;
    let at = if fetched { c.pc.wrapping_sub(1) } else { c.pc };
    c.depth = c.depth.wrapping_add(1);
    e.push(at, vect, if prio.is_some() { FrameKind::Int } else { FrameKind::Trap }, c);
    c.pc = target;
    Ok(())
}

pub fn step<E: Env>(c: &mut Cpu, e: &mut E, f: Flags) -> Out { step_with(c, e, f, decode) }

/// `step` with a given decoder.
pub fn step_with<E: Env>(c: &mut Cpu, e: &mut E, f: Flags, decode: impl FnOnce(u16) -> Result<Ins, DecErr>) -> Out {
    let poll = e.poll();
    let mut fetched = false;
    let mut completed = false;
    let r = match poll {
        Poll::External => return Out::External,
        Poll::Vectored(v, p) if p > priority(c.psr) => enter(c, e, f, 0x100 + v as u16, Some(p), false),
        // Fetch
        _ => match load(c, e, f, c.pc) {
            Err(x) => Err(x),
            Ok(w) => match decode(w) {
                Err(DecErr::IllegalOpcode) => Err(Exc::IllegalOpcode),
                Err(DecErr::Format) => Err(Exc::Format),
                Ok(Ins::Trap(0x25)) if !f.real_traps => return Out::Halt,
                Ok(i) => {
                    c.pc = c.pc.wrapping_add(1);
                    fetched = true;
                    completed = true;
                    exec(c, e, f, i)
                },
            }
        },
    };
    let r = match r {
        Ok(()) => { if completed { c.count = c.count.wrapping_add(1); } Ok(()) },
        Err(x) if f.real_traps => {
            let v = match x { Exc::Privilege => 0x100, Exc::IllegalOpcode | Exc::Format => 0x101, Exc::Access => 0x102 };
            enter(c, e, f, v, None, fetched)
        },
        Err(x) => Err(x),
    };
    match r {
        Ok(()) => Out::Ok,
        Err(x) => Out::Exc(x, if fetched { c.pc.wrapping_sub(1) } else { c.pc }),
    }
}

/// Executes an instruction after its fetch (the PC is incremented already).
pub fn exec<E: Env>(c: &mut Cpu, e: &mut E, f: Flags, i: Ins) -> Result<(), Exc> {
    let rel = |c: &Cpu, o: i16| c.pc.wrapping_add(o as u16);
    let src = |c: &Cpu, s: Src| match s { Src::Reg(r) => c.r[r as usize], Src::Imm(v) => v as u16 };
    match i {
        Ins::Br(cc, o) => if (c.psr % 8) as u8 & cc != 0 { c.pc = rel(c, o); },
        Ins::Add(d, a, s) => { let v = c.r[a as usize].wrapping_add(src(c, s)); c.r[d as usize] = v; set_cc(c, v); },
        Ins::And(d, a, s) => { let v = c.r[a as usize] & src(c, s); c.r[d as usize] = v; set_cc(c, v); },
        Ins::Not(d, a) => { let v = !c.r[a as usize]; c.r[d as usize] = v; set_cc(c, v); },
        Ins::Lea(d, o) => c.r[d as usize] = rel(c, o),
        Ins::Ld(d, o) => { let a = rel(c, o); let v = load(c, e, f, a)?; c.r[d as usize] = v; set_cc(c, v); },
        Ins::Ldr(d, b, o) => {
            let a = c.r[b as usize].wrapping_add(o as u16);
            let v = load(c, e, f, a)?; c.r[d as usize] = v; set_cc(c, v);
        },
        Ins::Ldi(d, o) => {
            let p = rel(c, o);
            let a = load(c, e, f, p)?;
            let v = load(c, e, f, a)?; c.r[d as usize] = v; set_cc(c, v);
        },
        Ins::St(s, o) => { let a = rel(c, o); store(c, e, f, a, c.r[s as usize])?; },
        Ins::Str(s, b, o) => { let a = c.r[b as usize].wrapping_add(o as u16); store(c, e, f, a, c.r[s as usize])?; },
        Ins::Sti(s, o) => { let p = rel(c, o); let a = load(c, e, f, p)?; store(c, e, f, a, c.r[s as usize])?; },
        Ins::Jmp(b) => {
            c.pc = c.r[b as usize];
            if b == 7 { c.depth = c.depth.saturating_sub(1); e.pop(); }
        },
        Ins::Jsr(_) | Ins::Jsrr(_) => {
            let t = match i { Ins::Jsr(o) => rel(c, o), Ins::Jsrr(b) => c.r[b as usize], _ => unreachable!() };
            c.r[7] = c.pc;
            c.depth = c.depth.wrapping_add(1);
            e.push(c.pc.wrapping_sub(1), t, FrameKind::Sub, c);
            c.pc = t;
        },
        Ins::Trap(v) => enter(c, e, f, v as u16, None, true)?,
        Ins::Rti => {
            if user_mode(c.psr) && !f.ignore_privilege { return Err(Exc::Privilege) }
            let sp = c.r[6];
            let pc = load(c, e, f, sp)?;
            let psr = load(c, e, f, sp.wrapping_add(1))?;
            c.r[6] = sp.wrapping_add(2);
            c.pc = pc;
            c.psr = psr;
            if user_mode(psr) { (c.r[6], c.saved_sp) = (c.saved_sp, c.r[6]); }
            c.depth = c.depth.saturating_sub(1);
            e.pop();
        },
    }
    Ok(())
}
