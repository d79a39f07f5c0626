//! Proof engine for the step contract: runs the real `Simulator::step_in` on a symbolic machine and then the
//! ISA specification on the same machine, one harness per opcode.
//!
//! The machine is fully symbolic: registers, PC, PSR, saved stack pointer, flags, counters, memory, the mapping
//! of internal registers, device answers, pending interrupts. Only leaves are replaced by contracts:
//!
//! - `MemArray` indexing: an array over all 65536 addresses, of which the (at most `NC`) cells that are touched
//!   are materialized on demand (a cell limit that is too small fails an `ENV` assertion);
//! - `DeviceHandler::{io_read, io_write, poll_interrupt}`: any answers (recorded);
//! - `HashMap::get` (internal register mapping): any mapping of I/O addresses;
//! - `FrameStack::{push_frame, pop_frame}`, `AccessObserver::{update_mem_accesses, clear}`: recorded;
//! - `SimInstr::decode`: its contract, proved for all words in `c06`.
//!
//! All symbolic inputs are drawn in a fixed order before the step.
use lc3_ensemble::ast::Reg;
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::sim::device::{DeviceHandler, Interrupt};
use lc3_ensemble::sim::frame::{self, FrameStack, FrameType};
use lc3_ensemble::sim::mem::{self, MachineInitStrategy, MemArray, RegFile, Word};
use lc3_ensemble::sim::mem::kani_hooks::{init, word};
use lc3_ensemble::sim::observer::{AccessObserver, AccessSet};
use lc3_ensemble::sim::{InternalRegister, SimErr, SimFlags, Simulator, device, kani_hooks as sim_hooks, kani_hooks::Break};
use lc3spec::isa::{self, DecErr};
use lc3spec::step::{self as spec, Cpu, Env, Exc, Flags, FrameKind, IReg, Out, Poll, Touch};
use crate::conv::{from_ins, reg};
use std::alloc::Allocator;
use std::collections::HashMap;

pub const NC: usize = 6;
pub const ND: usize = 6;
pub const NF: usize = 2;

// Inputs: touched cells (address, content, internal register mapped there), device answers.
pub static mut PA: [u16; NC] = [0; NC];
pub static mut PV: [u16; NC] = [0; NC];
pub static mut PI: [u16; NC] = [0; NC];
pub static mut PM: [u8; NC] = [0; NC];
pub static mut DOK: [bool; ND] = [false; ND];
pub static mut DV: [u16; ND] = [0; ND];
pub static mut POLL: Poll = Poll::None;
pub static mut PRE_PSR: u16 = 0;

// Recorded while the real code runs.
pub static mut LEN: usize = 0;
pub static mut CE: [Word; NC] = [word(0, 0); NC];
pub static mut OB: [u8; NC] = [0; NC];
pub static mut POLLS: u8 = 0;
pub static mut CLEARS: u8 = 0;
pub static mut DN: usize = 0;
pub static mut DK: [u8; ND] = [0; ND];
pub static mut DA: [u16; ND] = [0; ND];
pub static mut DD: [u16; ND] = [0; ND];
pub static mut FN: usize = 0;
pub static mut POPS: u8 = 0;
pub static mut FR: [(u16, u16, u8); NF] = [(0, 0, 0); NF];
pub static mut FREGS: [[u16; 8]; NF] = [[0; 8]; NF];

/// Index of the cell of an address. (Unrolled by hand: this is most of the proof's size.)
pub fn find(a: u16) -> usize {
    unsafe {
        let n = LEN;
        if n > 0 && PA[0] == a { return 0 }
        if n > 1 && PA[1] == a { return 1 }
        if n > 2 && PA[2] == a { return 2 }
        if n > 3 && PA[3] == a { return 3 }
        if n > 4 && PA[4] == a { return 4 }
        if n > 5 && PA[5] == a { return 5 }
        assert!(n < NC, "ENV: more memory cells than the harness provides");
        kani::assume(PA[n] == a);
        LEN = n + 1;
        n
    }
}
fn cell(a: u16) -> &'static mut Word {
    let i = find(a);
    unsafe { &mut *(&raw mut CE[i]) }
}

pub fn st_index(_m: &MemArray, a: u16) -> &Word { cell(a) }
pub fn st_index_mut(_m: &mut MemArray, a: u16) -> &mut Word { cell(a) }
fn dev(k: u8, a: u16, d: u16) -> (bool, u16) {
    unsafe {
        assert!(DN < ND, "ENV: more device accesses than the harness provides");
        let i = DN;
        (DK[i], DA[i], DD[i]) = (k, a, d);
        DN += 1;
        (DOK[i], DV[i])
    }
}
pub fn st_read(_d: &mut DeviceHandler, addr: u16, effectful: bool) -> Option<u16> {
    let (ok, v) = dev(if effectful { 1 } else { 3 }, addr, 0);
    if ok { Some(v) } else { None }
}
pub fn st_write(_d: &mut DeviceHandler, addr: u16, data: u16) -> bool { dev(2, addr, data).0 }
pub fn st_poll(_d: &mut DeviceHandler) -> Option<Interrupt> {
    unsafe {
        POLLS += 1;
        match POLL {
            Poll::Vectored(v, p) => Some(Interrupt::vectored(v, p)),
            _ => None,
        }
    }
}
#[derive(Debug)]
pub struct Ext;
impl std::fmt::Display for Ext { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Ext {}
pub fn st_poll_ext(_d: &mut DeviceHandler) -> Option<Interrupt> {
    unsafe { POLLS += 1; }
    Some(Interrupt::external(Ext))
}
pub fn st_update(_o: &mut AccessObserver, a: u16, s: AccessSet) {
    let i = find(a);
    let b = s.read() as u8 + 2 * s.written() as u8 + 4 * s.modified() as u8;
    unsafe { OB[i] |= b; }
}
pub fn st_clear(_o: &mut AccessObserver) {
    unsafe { OB = [0; NC]; CLEARS += 1; }
}
pub fn st_push(_s: &mut FrameStack, caller: u16, callee: u16, k: FrameType, r: &RegFile, _m: &MemArray) {
    unsafe {
        assert!(FN < NF, "ENV: more frames than the harness provides");
        let k = match k { FrameType::Subroutine => 0, FrameType::Trap => 1, FrameType::Interrupt => 2 };
        FR[FN] = (caller, callee, k);
        let mut i = 0;
        while i < 8 { FREGS[FN][i] = r[reg(i as u8)].get(); i += 1; }
        FN += 1;
    }
}
pub fn st_pop(_s: &mut FrameStack) { unsafe { POPS += 1; } }

static IREGS: [InternalRegister; 4] = [InternalRegister::PC, InternalRegister::PSR, InternalRegister::MCR, InternalRegister::SavedSP];
fn mapped(k: u16) -> u8 { let i = find(k); unsafe { PM[i] } }
fn key<Q: ?Sized>(q: &Q) -> u16 {
    assert!(std::mem::size_of_val(q) == 2, "ENV: unexpected map");
    unsafe { *(q as *const Q as *const u16) }
}
/// (Kani matches the generic parameters of a stub by position in the surrounding `impl`.)
pub struct Map<K, V, S, A: Allocator>(HashMap<K, V, S, A>);
impl<K, V, S, A: Allocator> Map<K, V, S, A> {
    pub fn get<'a, Q: ?Sized>(_m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> {
        assert!(std::mem::size_of::<V>() == std::mem::size_of::<InternalRegister>(), "ENV: unexpected map");
        match mapped(key(k)) {
            0 => None,
            m => Some(unsafe { &*(&IREGS[m as usize - 1] as *const InternalRegister as *const V) }),
        }
    }
    pub fn contains<Q: ?Sized>(_m: &HashMap<K, V, S, A>, k: &Q) -> bool { mapped(key(k)) != 0 }
}

fn dec(op: u16, w: u16) -> Result<SimInstr, SimErr> {
    assume_op(op, w);
    if op == JSRR { return Ok(from_ins(isa::Ins::Jsrr((w / 64 % 8) as u8))) }
    if op == 4 { return Ok(from_ins(isa::Ins::Jsr(isa::sext(w, 11)))) }
    Ok(from_ins(isa::fields(op, w)))
}
/// The two forms of opcode 4 have a harness each.
pub const JSRR: u16 = 16;
fn assume_op(op: u16, w: u16) {
    let o = if op == JSRR { 4 } else { op };
    kani::assume(w / 4096 == o && isa::canonical(o, w));
    if o == 4 { kani::assume((w / 2048 % 2 == 1) == (op == 4)); }
}
fn bad(op: u16, w: u16) -> DecErr {
    if op == ILLEGAL { kani::assume(w / 4096 == 13); return DecErr::IllegalOpcode }
    kani::assume(w / 4096 != 13 && !isa::canonical(w / 4096, w));
    DecErr::Format
}
/// The instruction that a word of opcode `op` encodes.
pub fn instr(op: u16, w: u16) -> Option<isa::Ins> {
    if op == BAD || op == ILLEGAL { bad(op, w); return None }
    assume_op(op, w);
    Some(if op == JSRR { isa::Ins::Jsrr((w / 64 % 8) as u8) } else if op == 4 { isa::Ins::Jsr(isa::sext(w, 11)) } else { isa::fields(op, w) })
}
/// Words which do not decode.
pub fn dec_illegal(w: u16) -> Result<SimInstr, SimErr> { bad(ILLEGAL, w); Err(SimErr::IllegalOpcode) }
pub fn dec_bad(w: u16) -> Result<SimInstr, SimErr> { bad(BAD, w); Err(SimErr::InvalidInstrFormat) }
pub const ILLEGAL: u16 = 13;
pub const BAD: u16 = 99;
macro_rules! dec_ops { ($($n:ident = $op:literal)*) => { $( pub fn $n(w: u16) -> Result<SimInstr, SimErr> { dec($op, w) } )* } }
dec_ops!(dec_jsrr = 16 dec_br = 0 dec_add = 1 dec_ld = 2 dec_st = 3 dec_jsr = 4 dec_and = 5 dec_ldr = 6 dec_str = 7
    dec_rti = 8 dec_not = 9 dec_ldi = 10 dec_sti = 11 dec_jmp = 12 dec_lea = 14 dec_trap = 15);

// Entry of a handler, as far as the step is concerned: recorded, and then any state.
pub static mut ENTRIES: u8 = 0;
pub static mut EARG: (u16, Option<u8>) = (0, None);
pub static mut EPRE: Cpu = CPU0;
pub static mut EFETCHED: bool = false;
/// Whether the entry fails with a strict error.
pub static mut EERR: bool = false;
pub static mut EPOST: Cpu = CPU0;
pub const CPU0: Cpu = Cpu { r: [0; 8], pc: 0, psr: 0, saved_sp: 0, count: 0, depth: 0 };

pub fn cpu(s: &Simulator) -> Cpu {
    let g = |i: u8| s.reg_file[reg(i)].get();
    Cpu { r: [g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7)], pc: s.pc, psr: s.psr().get(),
        saved_sp: sim_hooks::saved_sp(s).get(), count: s.instructions_run, depth: 0 }
}
fn entry(s: &mut Simulator, vect: u16, prio: Option<u8>) -> Result<(), Break> {
    if vect == 0x25 && prio.is_none() && !s.flags.use_real_traps {
        // virtual HALT (proved in `entry`)
        if !sim_hooks::prefetch(s) { s.pc = s.pc.wrapping_sub(1); }
        let (p, q) = (s.psr().get(), sim_hooks::saved_sp(s));
        sim_hooks::set_state(s, p, q, true);
        return Err(Break::Halt)
    }
    unsafe {
        ENTRIES += 1;
        EARG = (vect, prio);
        EPRE = cpu(s);
        EFETCHED = !sim_hooks::prefetch(s);
        // (no loops: all registers)
        s.reg_file[Reg::R0].set(EPOST.r[0]);
        s.reg_file[Reg::R1].set(EPOST.r[1]);
        s.reg_file[Reg::R2].set(EPOST.r[2]);
        s.reg_file[Reg::R3].set(EPOST.r[3]);
        s.reg_file[Reg::R4].set(EPOST.r[4]);
        s.reg_file[Reg::R5].set(EPOST.r[5]);
        s.reg_file[Reg::R6].set(EPOST.r[6]);
        s.reg_file[Reg::R7].set(EPOST.r[7]);
        s.pc = EPOST.pc;
        sim_hooks::set_state(s, EPOST.psr, Word::new_init(EPOST.saved_sp), !EFETCHED);
        if EERR { return Err(Break::Err(SimErr::StrictMemAddrUninit)) }
    }
    Ok(())
}

/// What happened in a step.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Is(Out), Strict, Other }

/// The machine before the step.
#[derive(Clone, Copy)]
pub struct Pre { pub c: Cpu, pub f: Flags, pub strict: bool, pub poll: Poll, pub all_init: bool, pub rinit: [u16; 8], pub sinit: u16 }
/// After the real step.
#[derive(Clone, Copy)]
pub struct Post { pub c: Cpu, pub mcr: bool, pub res: Res }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Strict { Off, On, Any }
#[derive(Clone, Copy)]
pub struct Cfg { pub strict: Strict, pub all_init: bool, pub poll: u8 }

/// Draws all inputs.
pub fn draw(cfg: Cfg) -> Pre {
    let r: [u16; 8] = kani::any();
    let mut rinit: [u16; 8] = kani::any();
    let (pc, psr, saved_sp, mut sinit): (u16, u16, u16, u16) = kani::any();
    let (count, rt, ip, st): (u64, bool, bool, bool) = kani::any();
    let strict = match cfg.strict { Strict::Off => false, Strict::On => true, Strict::Any => st };
    let (vect, prio): (u8, u8) = kani::any();
    let poll = match cfg.poll {
        0 => Poll::None,
        1 => { kani::assume(prio <= spec::priority(psr)); if kani::any() { Poll::None } else { Poll::Vectored(vect, prio) } },
        2 => { kani::assume(prio < 8); if kani::any() { Poll::None } else { Poll::Vectored(vect, prio) } },
        _ => Poll::External,
    };
    unsafe {
        PA = kani::any();
        PV = kani::any();
        PI = kani::any();
        PM = kani::any();
        DOK = kani::any();
        DV = kani::any();
        POLL = poll;
        if cfg.all_init { PI = [0xFFFF; NC]; rinit = [0xFFFF; 8]; sinit = 0xFFFF; }
        let mut i = 0;
        while i < NC {
            kani::assume(PM[i] <= 4 && (PM[i] == 0 || PA[i] >= 0xFE00));
            CE[i] = word(PV[i], PI[i]);
            i += 1;
        }
    }
    let c = Cpu { r, pc, psr, saved_sp, count, depth: 0 };
    Pre { c, f: Flags { real_traps: rt, ignore_privilege: ip }, strict, poll, all_init: cfg.all_init, rinit, sinit }
}

pub fn machine(p: &Pre) -> Simulator {
    let mut regs = [word(0, 0); 8];
    let mut i = 0;
    while i < 8 { regs[i] = word(p.c.r[i], p.rinit[i]); i += 1; }
    let flags = SimFlags {
        strict: p.strict, use_real_traps: p.f.real_traps, ignore_privilege: p.f.ignore_privilege,
        machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: kani::any(),
    };
    let block: (u16, u16) = kani::any();
    sim_hooks::make(mem::kani_hooks::mem_unbacked(), mem::kani_hooks::regs(regs), p.c.pc, sim_hooks::Parts {
        psr: p.c.psr, saved_sp: word(p.c.saved_sp, p.sinit), alloca: Box::new([block]), prefetch: kani::any(),
        instructions_run: p.c.count, mcr: kani::any(),
        frame_stack: frame::kani_hooks::make(0, None), device_handler: device::kani_hooks::no_devices(),
    }, flags)
}

pub fn observe(s: &Simulator, res: Result<(), SimErr>, halt: bool) -> Post {
    let at = s.prefetch_pc();
    let out = match &res {
        Ok(()) => Res::Is(if halt { Out::Halt } else { Out::Ok }),
        Err(SimErr::IllegalOpcode) => Res::Is(Out::Exc(Exc::IllegalOpcode, at)),
        Err(SimErr::InvalidInstrFormat) => Res::Is(Out::Exc(Exc::Format, at)),
        Err(SimErr::AccessViolation) => Res::Is(Out::Exc(Exc::Access, at)),
        Err(SimErr::PrivilegeViolation) => Res::Is(Out::Exc(Exc::Privilege, at)),
        Err(SimErr::Interrupt(_)) => Res::Is(Out::External),
        Err(SimErr::StrictRegSetUninit | SimErr::StrictMemSetUninit | SimErr::StrictIOSetUninit | SimErr::StrictJmpAddrUninit
            | SimErr::StrictSRAddrUninit | SimErr::StrictMemAddrUninit | SimErr::StrictPCCurrUninit | SimErr::StrictPCNextUninit
            | SimErr::StrictPSRSetUninit) => Res::Strict,
        Err(_) => Res::Other,
    };
    std::mem::forget(res);
    Post { c: cpu(s), mcr: s.mcr().load(std::sync::atomic::Ordering::Relaxed), res: out }
}

/// The real step.
pub fn real(p: &Pre) -> Post {
    let mut s = machine(p);
    unsafe {
        EPOST = Cpu { r: kani::any(), pc: kani::any(), psr: kani::any(), saved_sp: kani::any(), count: 0, depth: 0 };
        sim_hooks::ENTRY = entry;
        EERR = p.strict && !p.all_init && kani::any();
    }
    let res = s.step_in();
    let o = observe(&s, res, false);
    std::mem::forget(s);
    o
}

/// The environment of the specification: the same inputs, replayed.
pub struct Replay { pub v: [u16; NC], pub ob: [u8; NC], pub dn: usize, pub mismatch: bool, pub mcr: bool, pub fr: [(u16, u16, u8); NF], pub fregs: [[u16; 8]; NF], pub fn_: usize, pub pops: u8,
    pub modular: bool, pub entries: u8, pub earg: (u16, Option<u8>), pub epre: Cpu, pub efetched: bool }
impl Replay {
    pub fn new() -> Self {
        Replay { v: unsafe { PV }, ob: [0; NC], dn: 0, mismatch: false, mcr: true, fr: [(0, 0, 0); NF], fregs: [[0; 8]; NF], fn_: 0, pops: 0,
            modular: true, entries: 0, earg: (0, None), epre: CPU0, efetched: false }
    }
    fn dev(&mut self, k: u8, a: u16, d: u16) -> (bool, u16) {
        unsafe {
            let i = self.dn;
            if i >= DN || DK[i] != k || DA[i] != a || DD[i] != d { self.mismatch = true; return (false, 0) }
            self.dn += 1;
            (DOK[i], DV[i])
        }
    }
}
impl Env for Replay {
    fn poll(&mut self) -> Poll { unsafe { POLL } }
    fn peek(&mut self, a: u16) -> u16 { self.v[find(a)] }
    fn poke(&mut self, a: u16, v: u16) { let i = find(a); self.v[i] = v; }
    fn ireg(&mut self, a: u16) -> Option<IReg> {
        match mapped(a) { 0 => None, 1 => Some(IReg::Pc), 2 => Some(IReg::Psr), 3 => Some(IReg::Mcr), _ => Some(IReg::SavedSp) }
    }
    fn mcr(&mut self) -> bool { self.mcr }
    fn set_mcr(&mut self, v: bool) { self.mcr = v; }
    fn dev_read(&mut self, a: u16) -> Option<u16> { let (ok, v) = self.dev(1, a, 0); if ok { Some(v) } else { None } }
    fn dev_write(&mut self, a: u16, v: u16) -> bool { self.dev(2, a, v).0 }
    fn touch(&mut self, a: u16, t: Touch) {
        let i = find(a);
        self.ob[i] |= match t { Touch::Read => 1, Touch::Write { changed } => if changed { 6 } else { 2 } };
    }
    fn push(&mut self, caller: u16, callee: u16, k: FrameKind, c: &Cpu) {
        if self.fn_ < NF {
            self.fr[self.fn_] = (caller, callee, match k { FrameKind::Sub => 0, FrameKind::Trap => 1, FrameKind::Int => 2 });
            self.fregs[self.fn_] = c.r;
        }
        self.fn_ += 1;
    }
    fn pop(&mut self) { self.pops += 1; }
    fn entry(&mut self, c: &mut Cpu, vect: u16, prio: Option<u8>, fetched: bool) -> Option<Result<(), Exc>> {
        if !self.modular { return None }
        self.entries += 1;
        self.earg = (vect, prio);
        self.epre = *c;
        self.efetched = fetched;
        let n = c.count;
        *c = unsafe { EPOST };
        c.count = n;
        Some(Ok(()))
    }
}

/// The specified step of opcode `op`.
pub fn specified(p: &Pre, op: u16) -> (Cpu, Out, Replay) {
    let mut c = p.c;
    let mut e = Replay::new();
    let out = spec::step_with(&mut c, &mut e, p.f, |w| {
        if op == BAD || op == ILLEGAL { return Err(bad(op, w)) }
        Ok(instr(op, w).unwrap())
    });
    (c, out, e)
}
pub fn cells_equal(e: &Replay) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < NC {
        unsafe { if i < LEN && CE[i].get() != e.v[i] { ok = false; } }
        i += 1;
    }
    ok
}
pub fn regs_equal(a: &Cpu, b: &Cpu) -> bool {
    a.r[0] == b.r[0] && a.r[1] == b.r[1] && a.r[2] == b.r[2] && a.r[3] == b.r[3]
        && a.r[4] == b.r[4] && a.r[5] == b.r[5] && a.r[6] == b.r[6] && a.r[7] == b.r[7]
}
pub fn state_equal(a: &Cpu, b: &Cpu) -> bool { regs_equal(a, b) && a.pc == b.pc && a.psr == b.psr && a.saved_sp == b.saved_sp }
/// Whether a handler was entered in the same state, for the same reason.
pub fn entry_equal(e: &Replay) -> bool {
    unsafe { ENTRIES == e.entries && (ENTRIES == 0 || (EARG == e.earg && EFETCHED == e.efetched && state_equal(&EPRE, &e.epre))) }
}
pub fn result_matches(res: Res, out: Out) -> bool {
    // `step_in` does not report a virtual HALT
    res == Res::Is(if out == Out::Halt { Out::Ok } else { out })
}

// --- entry of handlers ---

/// Arguments of `Simulator::handle_interrupt`. `fetched`: whether the PC is past the instruction.
#[derive(Clone, Copy)]
pub struct EArgs { pub vect: u16, pub prio: Option<u8>, pub fetched: bool }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ERes { Ok, Halt, Exc(Exc), Strict, Other }
#[derive(Clone, Copy)]
pub struct EPost { pub c: Cpu, pub res: ERes, pub prefetch: bool }
pub struct ESpec { pub c: Cpu, pub res: ERes, pub prefetch: bool, pub e: Replay }

pub fn entry_args(p: &Pre) -> EArgs {
    let vect: u16 = kani::any();
    let q: u8 = kani::any();
    let interrupt: bool = kani::any();
    let fetched: bool = kani::any();
    // interrupts are taken before the fetch, with an exceeding priority
    let prio = if interrupt { kani::assume(q < 8 && q > spec::priority(p.c.psr) && !fetched && vect >= 0x100); Some(q) } else { None };
    kani::assume(vect < 0x200);
    EArgs { vect, prio, fetched }
}
pub fn real_entry(p: &Pre, a: &EArgs) -> EPost {
    let mut s = machine(p);
    sim_hooks::set_state(&mut s, p.c.psr, word(p.c.saved_sp, p.sinit), !a.fetched);
    let r = sim_hooks::handle_interrupt(&mut s, a.vect, a.prio);
    let res = match &r {
        Ok(()) => ERes::Ok,
        Err(Break::Halt) => ERes::Halt,
        Err(Break::Err(SimErr::PrivilegeViolation)) => ERes::Exc(Exc::Privilege),
        Err(Break::Err(SimErr::IllegalOpcode)) => ERes::Exc(Exc::IllegalOpcode),
        Err(Break::Err(SimErr::AccessViolation)) => ERes::Exc(Exc::Access),
        Err(Break::Err(SimErr::StrictMemSetUninit | SimErr::StrictIOSetUninit | SimErr::StrictJmpAddrUninit | SimErr::StrictRegSetUninit
            | SimErr::StrictSRAddrUninit | SimErr::StrictMemAddrUninit | SimErr::StrictPCNextUninit)) => ERes::Strict,
        Err(Break::Err(_)) => ERes::Other,
    };
    std::mem::forget(r);
    let o = EPost { c: cpu(&s), res, prefetch: sim_hooks::prefetch(&s) };
    std::mem::forget(s);
    o
}
pub fn specified_entry(p: &Pre, a: &EArgs) -> ESpec {
    let mut c = p.c;
    let mut e = Replay::new();
    e.modular = false;
    let virt = match (p.f.real_traps, a.prio, a.vect) {
        (false, None, 0x25) => Some(ERes::Halt),
        (false, None, 0x100) => Some(ERes::Exc(Exc::Privilege)),
        (false, None, 0x101) => Some(ERes::Exc(Exc::IllegalOpcode)),
        (false, None, 0x102) => Some(ERes::Exc(Exc::Access)),
        _ => None,
    };
    if let Some(res) = virt {
        // the PC is moved back to the instruction
        if a.fetched { c.pc = c.pc.wrapping_sub(1); }
        return ESpec { c, res, prefetch: true, e }
    }
    let res = match spec::enter(&mut c, &mut e, p.f, a.vect, a.prio, a.fetched) { Ok(()) => ERes::Ok, Err(x) => ERes::Exc(x) };
    ESpec { c, res, prefetch: !a.fetched, e }
}

/// A harness over the symbolic machine.
#[macro_export]
macro_rules! machine_proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::stub(lc3_ensemble::sim::observer::AccessObserver::update_mem_accesses, $crate::eng::st_update)]
        #[kani::stub(lc3_ensemble::sim::observer::AccessObserver::clear, $crate::eng::st_clear)]
        #[kani::stub(lc3_ensemble::sim::frame::FrameStack::pop_frame, $crate::eng::st_pop)]
        #[kani::stub(lc3_ensemble::sim::frame::FrameStack::push_frame, $crate::eng::st_push)]
        #[kani::stub(<lc3_ensemble::sim::device::DeviceHandler as lc3_ensemble::sim::device::ExternalDevice>::io_read, $crate::eng::st_read)]
        #[kani::stub(<lc3_ensemble::sim::device::DeviceHandler as lc3_ensemble::sim::device::ExternalDevice>::io_write, $crate::eng::st_write)]
        #[kani::stub(<lc3_ensemble::sim::mem::MemArray as std::ops::Index<u16>>::index, $crate::eng::st_index)]
        #[kani::stub(<lc3_ensemble::sim::mem::MemArray as std::ops::IndexMut<u16>>::index_mut, $crate::eng::st_index_mut)]
        #[kani::stub(std::collections::HashMap::get, $crate::eng::Map::get)]
        #[kani::stub(std::collections::HashMap::contains_key, $crate::eng::Map::contains)]
        $(#[$m])*
        fn $name() $body
    };
}
/// A harness over the symbolic machine and one step, where the entry of a handler is replaced by its contract.
#[macro_export]
macro_rules! step_proof {
    (decode = $dec:ident, poll = $poll:ident, fn $name:ident() $body:block) => {
        $crate::machine_proof! {
            #[kani::stub(lc3_ensemble::sim::Simulator::handle_interrupt, lc3_ensemble::sim::kani_hooks::entry_stub)]
            #[kani::stub(lc3_ensemble::ast::sim::SimInstr::decode, $crate::eng::$dec)]
            #[kani::stub(<lc3_ensemble::sim::device::DeviceHandler as lc3_ensemble::sim::device::ExternalDevice>::poll_interrupt, $crate::eng::$poll)]
            fn $name() $body
        }
    };
}
/// Harnesses for all opcodes and for the words which do not decode; `$body` is the contract, a function of the opcode.
#[macro_export]
macro_rules! per_op {
    ($body:ident: $($name:ident $dec:ident = $op:literal)*) => { $(
        $crate::step_proof! { decode = $dec, poll = st_poll, fn $name() { $body($op) } }
    )* };
    ($body:ident) => {
        $crate::per_op! { $body:
            op_br dec_br = 0  op_add dec_add = 1  op_ld dec_ld = 2  op_st dec_st = 3
            op_jsr dec_jsr = 4  op_and dec_and = 5  op_ldr dec_ldr = 6  op_str dec_str = 7
            op_rti dec_rti = 8  op_not dec_not = 9  op_ldi dec_ldi = 10  op_sti dec_sti = 11
            op_jmp dec_jmp = 12  op_lea dec_lea = 14  op_trap dec_trap = 15  op_jsrr dec_jsrr = 16  bad_word dec_bad = 99  illegal dec_illegal = 13 }
    };
}
