//! Lockstep engine: the real simulator and the step contract (`lc3spec::step`) side by side.
//! C08, C09, C10 (entry), C14, C16, C27, C28.
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::sync::{Arc, Mutex, RwLock};

use crate::conv::reg;
use crate::util::*;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, Interrupt};
use lc3_ensemble::sim::frame::{FrameType, ParameterList};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use lc3spec::isa::{self, Ins};
use lc3spec::step::*;

// ---------------------------------------------------------------- devices

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Irq { Vec(u8, u8), Ext }

/// A deterministic device, used both by the simulator and by the model.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct TestDev {
    /// Port, value, behaviour (0: storage, 1: counts reads, 2: rejects writes, 3: no reads, 4: rejects every other access)
    pub ports: Vec<(u16, u16, u8)>,
    pub log: Vec<(char, u16, u16)>,
    /// First poll, number of polls, what.
    pub irqs: Vec<(u64, u64, Irq)>,
    pub polls: u64,
    pub n: u64,
}
#[derive(Debug)]
struct Ext;
impl std::fmt::Display for Ext { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("external") } }
impl std::error::Error for Ext {}

impl TestDev {
    pub fn read(&mut self, a: u16, eff: bool) -> Option<u16> {
        if eff { self.log.push(('r', a, 0)); self.n += 1; } else { self.log.push(('p', a, 0)); }
        let n = self.n;
        let p = self.ports.iter_mut().find(|p| p.0 == a)?;
        match p.2 {
            1 => { let v = p.1; if eff { p.1 = p.1.wrapping_add(1); } Some(v) },
            3 => None,
            4 => if n % 2 == 0 { Some(p.1) } else { None },
            _ => Some(p.1),
        }
    }
    pub fn write(&mut self, a: u16, d: u16) -> bool {
        self.log.push(('w', a, d));
        self.n += 1;
        let n = self.n;
        let Some(p) = self.ports.iter_mut().find(|p| p.0 == a) else { return false };
        match p.2 {
            2 => false,
            4 if n % 2 == 0 => false,
            _ => { p.1 = d; true },
        }
    }
    pub fn poll(&mut self) -> Option<Irq> {
        let t = self.polls;
        self.polls += 1;
        self.irqs.iter().find(|i| i.0 <= t && t < i.0 + i.1).map(|i| i.2)
    }
}
impl ExternalDevice for TestDev {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> { self.read(addr, effectful) }
    fn io_write(&mut self, addr: u16, data: u16) -> bool { self.write(addr, data) }
    fn io_reset(&mut self) { self.log.push(('R', 0, 0)); }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.poll().map(|i| match i { Irq::Vec(v, p) => Interrupt::vectored(v, p), Irq::Ext => Interrupt::external(Ext) })
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MFrame { pub caller: u16, pub callee: u16, pub kind: FrameKind, pub fp: Option<u16>, pub args: Vec<u16> }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MSig { Std(usize), Regs(Vec<u8>) }

pub struct World {
    pub mem: Vec<u16>,
    pub dirty: Vec<u16>,
    pub iregs: BTreeMap<u16, IReg>,
    pub mcr: bool,
    pub kb: Option<(VecDeque<u8>, bool)>,
    pub ds: Option<Vec<u8>>,
    pub devs: Vec<TestDev>,
    pub touched: BTreeMap<u16, u8>,
    pub frames: Vec<MFrame>,
    pub sigs: BTreeMap<u16, MSig>,
    pub last_poll: Poll,
    pub taken: bool,
}
impl World {
    pub fn new() -> Self {
        World { mem: vec![0; 65536], dirty: vec![], iregs: BTreeMap::new(), mcr: true, kb: None, ds: None, devs: vec![], touched: BTreeMap::new(),
            frames: vec![], sigs: BTreeMap::new(), last_poll: Poll::None, taken: false }
    }
}
impl Env for World {
    fn poll(&mut self) -> Poll {
        let mut best: Option<(u8, Poll)> = None;
        let mut see = |p: u8, x: Poll| if best.is_none_or(|b| p > b.0) { best = Some((p, x)); };
        if let Some((q, true)) = &self.kb { if !q.is_empty() { see(4, Poll::Vectored(0x80, 4)); } }
        for d in &mut self.devs {
            match d.poll() {
                Some(Irq::Vec(v, p)) => see(p.min(7), Poll::Vectored(v, p.min(7))),
                Some(Irq::Ext) => see(8, Poll::External),
                None => {},
            }
        }
        self.last_poll = best.map_or(Poll::None, |b| b.1);
        self.last_poll
    }
    fn peek(&mut self, a: u16) -> u16 { self.mem[a as usize] }
    fn poke(&mut self, a: u16, v: u16) { self.mem[a as usize] = v; self.dirty.push(a); }
    fn ireg(&mut self, a: u16) -> Option<IReg> { self.iregs.get(&a).copied() }
    fn mcr(&mut self) -> bool { self.mcr }
    fn set_mcr(&mut self, v: bool) { self.mcr = v }
    fn dev_read(&mut self, a: u16) -> Option<u16> {
        match a {
            0xFE00 => self.kb.as_ref().map(|(q, ie)| (!q.is_empty() as u16) << 15 | (*ie as u16) << 14),
            0xFE02 => self.kb.as_mut().and_then(|k| k.0.pop_front()).map(u16::from),
            0xFE04 => self.ds.as_ref().map(|_| 0x8000),
            0xFE06 => None,
            _ => self.devs.iter_mut().find(|d| d.ports.iter().any(|p| p.0 == a)).and_then(|d| d.read(a, true)),
        }
    }
    fn dev_write(&mut self, a: u16, v: u16) -> bool {
        match a {
            0xFE00 => self.kb.as_mut().map(|k| k.1 = v & 0x4000 != 0).is_some(),
            0xFE06 => self.ds.as_mut().map(|d| d.push(v as u8)).is_some(),
            0xFE02 | 0xFE04 => false,
            _ => self.devs.iter_mut().find(|d| d.ports.iter().any(|p| p.0 == a)).is_some_and(|d| d.write(a, v)),
        }
    }
    fn touch(&mut self, a: u16, t: Touch) {
        *self.touched.entry(a).or_default() |= match t { Touch::Read => 1, Touch::Write { changed: true } => 6, Touch::Write { changed: false } => 2 };
    }
    fn push(&mut self, caller: u16, callee: u16, k: FrameKind, c: &Cpu) {
        if k == FrameKind::Int { self.taken = true; }
        let sig = match k {
            FrameKind::Trap => match callee {
                0x20 | 0x23 | 0x25 => Some(MSig::Regs(vec![])),
                0x21 | 0x22 | 0x24 => Some(MSig::Regs(vec![0])),
                _ => None,
            },
            _ => self.sigs.get(&callee).cloned(),
        };
        let (fp, args) = match sig {
            None => (None, vec![]),
            Some(MSig::Regs(v)) => (None, v.iter().map(|&r| c.r[r as usize]).collect()),
            Some(MSig::Std(n)) => {
                let fp = c.r[6].wrapping_sub(4);
                (Some(fp), (0..n).map(|i| self.mem[fp.wrapping_add(4).wrapping_add(i as u16) as usize]).collect())
            },
        };
        self.frames.push(MFrame { caller, callee, kind: k, fp, args });
    }
    fn pop(&mut self) { self.frames.pop(); }
}

// ---------------------------------------------------------------- episodes

#[derive(Clone, Debug)]
pub struct Episode {
    pub flags: Flags,
    pub cpu: Cpu,
    pub mem: Vec<(u16, u16)>,
    pub uninit: Vec<u16>,
    pub iregs: Vec<(u16, IReg)>,
    pub kb: Option<(Vec<u8>, bool)>,
    pub ds: bool,
    pub devs: Vec<TestDev>,
    pub sigs: Vec<(u16, MSig)>,
    pub steps: usize,
    /// (after step, new PC)
    pub jumps: Vec<(usize, u16)>,
}
impl Episode {
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "flags {:?}; pc x{:04X} psr x{:04X} saved_sp x{:04X} regs {:04X?}; {} steps", self.flags, self.cpu.pc, self.cpu.psr, self.cpu.saved_sp, self.cpu.r, self.steps);
        let _ = write!(s, "; memory (over the base memory of the seed)");
        for (a, v) in &self.mem { let _ = write!(s, " x{a:04X}=x{v:04X}"); }
        if let Ok(i) = isa::decode(self.mem.iter().rev().find(|m| m.0 == self.cpu.pc).map_or(0xD000, |m| m.1)) { let _ = write!(s, " (first instruction {i:?})"); }
        if !self.uninit.is_empty() { let _ = write!(s, "; uninitialized {:04X?}", self.uninit); }
        if !self.iregs.is_empty() { let _ = write!(s, "; internal registers {:04X?}", self.iregs); }
        let _ = write!(s, "; keyboard {:?} display {} devices {:04X?} signatures {:?} jumps {:04X?}", self.kb, self.ds, self.devs, self.sigs, self.jumps);
        s
    }
}

#[derive(Debug)]
pub enum Div {
    /// Registers, PC, PSR, saved SP, memory, devices or the result of the step.
    Arch { what: String, user_fault: bool, irq: bool },
    Frames(String),
    Obs(String),
    Count(String),
    Panic(String),
}

pub struct Opts { pub irq: bool, pub user: bool, pub io: bool, pub calls: bool, pub long: bool }
impl Default for Opts { fn default() -> Self { Opts { irq: false, user: false, io: false, calls: false, long: false } } }

pub struct Lock {
    pub sim: Simulator,
    pub w: World,
    pub base: Vec<u16>,
    mapped: Vec<u16>,
    depth: u64,
    debug: bool,
    pub steps: u64,
    pub always_take: bool,
}

/// An instruction word with fields chosen at random.
pub fn rand_ins(r: &mut Rng, o: &Opts) -> u16 {
    if r.one(24) { return r.u16() }
    let op = if o.calls && r.bool() { *r.pick(&[0x4u16, 0xC, 0xF, 0x8, 0x4, 0xC]) } else if o.user && r.bool() { *r.pick(&[2u16, 3, 6, 7, 0xA, 0xB, 8, 0xC, 6, 7]) } else { r.below(16) as u16 };
    let lo = match op {
        0x1 | 0x5 => { let b = r.u16() & 0xFFF; if b & 0x20 == 0 { b & 0xFC7 } else { b } },
        0x4 => if r.bool() { 0x800 | (r.range(-64, 64) as u16 & 0x7FF) } else { (r.below(8) as u16) << 6 },
        0x8 => 0,
        0x9 => (r.u16() & 0xFC0) | 0x3F,
        0xC => if r.one(2) { 7 << 6 } else { (r.below(8) as u16) << 6 },
        0xF => if r.one(4) { r.u16() & 0xFF } else { 0x20 + r.below(7) as u16 },
        6 | 7 => (r.u16() & 0xFC0) | (r.range(-3, 3) as u16 & 0x3F),
        _ => if r.bool() { (r.u16() & 0xE00) | (r.range(-8, 8) as u16 & 0x1FF) } else { r.u16() & 0xFFF },
    };
    op << 12 | lo
}

const EDGES: &[u16] = &[0, 1, 2, 0xFFFF, 0xFFFE, 0x2FFD, 0x2FFE, 0x2FFF, 0x3000, 0x3001, 0x3002, 0xFDFD, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFE02, 0xFE04, 0xFE06, 0xFFFC, 0x7FFF, 0x8000];

impl Lock {
    pub fn new(seed: u64, debug: bool) -> Self {
        let flags = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: debug, ..Default::default() };
        let mut sim = Simulator::new(flags);
        for a in [0xFFFC, 0xFFFE] { sim.munmap_internal(a); }
        let mut r = Rng::new(seed);
        let o = Opts::default();
        let base: Vec<u16> = (0..65536).map(|a| {
            if a < 0x200 { r.word() } else if r.bool() { rand_ins(&mut r, &o) } else { r.word() }
        }).collect();
        for (a, &v) in base.iter().enumerate() { sim.mem[a as u16] = Word::new_init(v); }
        let mut w = World::new();
        w.mem = base.clone();
        Lock { sim, w, base, mapped: vec![], depth: 0, debug, steps: 0, always_take: false }
    }

    pub fn gen_ep(&self, r: &mut Rng, o: &Opts) -> Episode { Self::new_gen(&self.base, r, o) }
    pub fn new_gen(_base: &[u16], r: &mut Rng, o: &Opts) -> Episode {
        let addr = |r: &mut Rng| if r.bool() { *r.pick(EDGES) } else { r.word() };
        let user = if o.user { !r.one(10) } else { r.bool() };
        let flags = Flags { real_traps: r.bool(), ignore_privilege: if o.user { r.one(20) } else { r.one(4) } };
        let mut psr = if user { 0x8000 } else { 0 } | (r.below(8) as u16) << 8 | *r.pick(&[1u16, 2, 4]);
        if r.one(3) { psr &= 0xF8FF; }
        let mut regs = [0u16; 8];
        for x in &mut regs { *x = addr(r); }
        let pc = match r.below(8) {
            0 => *r.pick(EDGES),
            1 => r.word(),
            _ => 0x3000 + r.below(0xCDF0) as u16,
        };
        let mut mem = vec![];
        let steps = if o.long { 1 + r.usize(200) } else { *r.pick(&[1usize, 1, 2, 3, 5, 8, 20]) };
        let n = (steps as u16).min(12) + 1;
        for i in 0..n {
            let w = rand_ins(r, o);
            mem.push((pc.wrapping_add(i), w));
            // sometimes, the word an instruction refers to (an indirect pointer, say)
            if let Ok(Ins::Ldi(_, off) | Ins::Sti(_, off)) = isa::decode(w) {
                if r.bool() { mem.push((pc.wrapping_add(i + 1).wrapping_add(off as u16), addr(r))); }
            }
        }
        for _ in 0..r.below(4) { mem.push((addr(r), addr(r))); }
        // what RTI pops
        if r.bool() {
            let p = if r.bool() { 0x8000 | r.u16() & 0x707 } else { r.u16() };
            let sp = regs[6];
            mem.push((sp, addr(r)));
            mem.push((sp.wrapping_add(1), p));
        }
        let uninit = if r.one(4) { (0..r.below(6)).map(|_| if r.bool() { addr(r) } else { pc.wrapping_add(r.below(8) as u16) }).collect() } else { vec![] };
        let mut iregs = vec![];
        match r.below(4) {
            0 => {},
            1 if o.io => for _ in 0..r.below(6) {
                let a = if r.bool() { 0xFE00 + r.below(8) as u16 } else { 0xFE00 + r.below(0x170) as u16 };
                if iregs.iter().all(|&(b, _)| b != a) { iregs.push((a, *r.pick(&[IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp]))); }
            },
            _ => iregs.extend([(0xFFFC, IReg::Psr), (0xFFFE, IReg::Mcr)]),
        }
        let kb = r.bool().then(|| ((0..r.below(4)).map(|_| r.u8()).collect(), r.one(4)));
        let ds = r.bool();
        let mut devs = vec![];
        if o.irq || o.io || r.one(3) {
            let mut used = vec![0xFE00, 0xFE02, 0xFE04, 0xFE06];
            for k in 0..1 + r.usize(3) {
                let mut d = TestDev::default();
                for _ in 0..r.below(4) {
                    let a = if r.bool() { 0xFE00 + r.below(16) as u16 } else { 0xFE00 + r.below(0x200) as u16 };
                    if !used.contains(&a) { used.push(a); d.ports.push((a, r.word(), r.below(5) as u8)); }
                }
                if o.irq || r.one(3) {
                    // Every device has its own priorities: which one wins a tie is not specified.
                    let prios: &[u8] = match k { 0 => &[0, 1, 7], 1 => &[2, 5], _ => &[3, 6] };
                    for _ in 0..1 + r.below(3) {
                        let what = if k == 0 && r.one(12) { Irq::Ext } else { Irq::Vec(if r.bool() { r.below(4) as u8 } else { r.u8() }, *r.pick(prios)) };
                        let at = r.below(1 + steps as u64);
                        d.irqs.push((at, 1 + r.below(3), what));
                    }
                }
                devs.push(d);
            }
        }
        let mut sigs = vec![];
        if o.calls || r.one(8) {
            for _ in 0..r.below(5) {
                let a = match r.below(3) { 0 => pc.wrapping_add(r.range(-4, 24) as u16), 1 => *r.pick(&regs), _ => 0x100 + r.below(256) as u16 };
                let s = if r.bool() { MSig::Std(r.usize(4)) } else { MSig::Regs((0..r.below(4)).map(|_| r.below(8) as u8).collect()) };
                sigs.push((a, s));
            }
            for d in &devs { for i in &d.irqs { if let Irq::Vec(v, _) = i.2 { if r.bool() { sigs.push((0x100 + v as u16, MSig::Regs(vec![r.below(8) as u8]))); } } } }
        }
        let jumps = if steps > 4 { (0..r.below(3)).map(|_| (r.usize(steps), pc.wrapping_add(r.below(12) as u16))).collect() } else { vec![] };
        Episode {
            flags, cpu: Cpu { r: regs, pc, psr, saved_sp: addr(r), count: 0, depth: 0 },
            mem, uninit, iregs, kb, ds, devs, sigs, steps, jumps,
        }
    }

    fn set_ireg(&mut self, k: InternalRegister, v: u16) -> Result<(), String> { poke_ireg(&mut self.sim, k, v) }
    fn saved_sp(&mut self) -> Result<u16, String> {
        const A: u16 = 0xFF77;
        let old = self.sim.mem[A];
        let was = self.w.iregs.contains_key(&A);
        if was { self.sim.munmap_internal(A); }
        self.sim.mmap_internal(A, InternalRegister::SavedSP).map_err(|e| format!("cannot map an internal register: {e:?}"))?;
        let v = self.sim.read_mem(A, MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?.get();
        self.sim.munmap_internal(A);
        if was { self.sim.mmap_internal(A, to_ireg(self.w.iregs[&A])).map_err(|e| format!("{e:?}"))?; }
        self.sim.mem[A] = old;
        Ok(v)
    }

    /// Runs an episode. The error is an error in setting up.
    pub fn run(&mut self, e: &Episode) -> Result<Option<Div>, String> {
        // --- set up
        for a in self.mapped.drain(..) { self.sim.munmap_internal(a); }
        let mut dirty = std::mem::take(&mut self.w.dirty);
        for a in dirty.drain(..) {
            self.w.mem[a as usize] = self.base[a as usize];
            self.sim.mem[a] = Word::new_init(self.base[a as usize]);
        }
        self.w.dirty = dirty;
        self.sim.flags.use_real_traps = e.flags.real_traps;
        self.sim.flags.ignore_privilege = e.flags.ignore_privilege;
        for &(a, v) in &e.mem {
            self.sim.mem[a] = Word::new_init(v);
            self.w.poke(a, v);
        }
        for &a in &e.uninit { self.sim.mem[a].clear_init(); self.w.dirty.push(a); }
        for i in 0..8 { self.sim.reg_file[reg(i)] = Word::new_init(e.cpu.r[i as usize]); }
        self.sim.pc = e.cpu.pc;
        self.set_ireg(InternalRegister::PSR, e.cpu.psr)?;
        self.set_ireg(InternalRegister::SavedSP, e.cpu.saved_sp)?;
        self.sim.instructions_run = 0;
        self.w.iregs.clear();
        for &(a, k) in &e.iregs {
            self.sim.mmap_internal(a, to_ireg(k)).map_err(|e| format!("cannot map x{a:04X}: {e:?}"))?;
            self.mapped.push(a);
            self.w.iregs.insert(a, k);
        }
        let Att { kbuf, dbuf, devs: real } = attach(&mut self.sim, e)?;
        self.w.kb = e.kb.as_ref().map(|(q, ie)| (q.iter().copied().collect(), *ie));
        self.w.ds = e.ds.then(Vec::new);
        self.w.devs = e.devs.clone();
        self.w.sigs.clear();
        for (a, s) in &e.sigs {
            self.sim.frame_stack.set_subroutine_def(*a, plist(s));
            self.w.sigs.insert(*a, s.clone());
        }
        let mut cpu = e.cpu;
        cpu.depth = self.depth;
        if self.sim.psr().get() != cpu.psr { return Err("cannot set the PSR".into()); }

        // --- steps
        let mut res = None;
        let mut sigs_done = e.sigs.clone();
        for i in 0..e.steps {
            for j in &e.jumps { if j.0 == i { self.sim.pc = j.1; cpu.pc = j.1; } }
            tick();
            self.steps += 1;
            let user0 = user_mode(cpu.psr) && !e.flags.ignore_privilege;
            let pc0 = cpu.pc;
            let r = guard(|| self.sim.step_in());
            self.w.touched.clear();
            self.w.mcr = true;
            self.w.taken = false;
            let c0 = cpu;
            let out = step(&mut cpu, &mut self.w, e.flags);
            let r = match r {
                Ok(r) => r,
                Err(p) => { res = Some(Div::Panic(format!("step {i} at x{pc0:04X}: {p}"))); break },
            };
            let at = match guard(|| self.sim.prefetch_pc()) {
                Ok(a) => a,
                Err(p) => { res = Some(Div::Panic(format!("prefetch_pc after step {i} at x{pc0:04X}: {p}"))); break },
            };
            let irq = !matches!(self.w.last_poll, Poll::None)
                && (self.w.taken || out == Out::External || (self.sim.pc != cpu.pc && matches!(self.w.last_poll, Poll::Vectored(v, _) if self.sim.pc == self.w.mem[0x100 + v as usize])));
            // accesses the real machine recorded (sometimes left in place, so that the next step has to clear them)
            let mut d_obs = String::new();
            for (&a, &m) in &self.w.touched { if a < 0xFE00 { cmp_obs(a, self.sim.observer.get_mem_accesses(a), m, &mut d_obs); } }
            let mut real_out = false;
            if self.always_take || i % 2 == 1 || i + 1 == e.steps {
                for (a, g) in self.sim.observer.take_mem_accesses() {
                    if !(0x3000..0xFE00).contains(&a) && g.accessed() && !self.w.touched.contains_key(&a) { real_out = true; }
                    if a < 0xFE00 && !self.w.touched.contains_key(&a) { cmp_obs(a, g, 0, &mut d_obs); }
                }
            }
            let real_out = real_out && user0 && !self.w.taken && !self.w.touched.keys().any(|&a| !(0x3000..0xFE00).contains(&a));
            let fault = user0 && (real_out || match out {
                Out::Exc(Exc::Access | Exc::Privilege, _) => true,
                _ => matches!(self.w.frames.last(), Some(f) if e.flags.real_traps && cpu.depth == c0.depth.wrapping_add(1) && f.kind == FrameKind::Trap && (f.callee == 0x100 || f.callee == 0x102)),
            });
            let same = match (&r, out) {
                (Ok(()), Out::Ok | Out::Halt) => true,
                (Err(SimErr::IllegalOpcode), Out::Exc(Exc::IllegalOpcode, a)) => a == at,
                (Err(SimErr::InvalidInstrFormat), Out::Exc(Exc::Format, a)) => a == at,
                (Err(SimErr::AccessViolation), Out::Exc(Exc::Access, a)) => a == at,
                (Err(SimErr::PrivilegeViolation), Out::Exc(Exc::Privilege, a)) => a == at,
                (Err(SimErr::Interrupt(_)), Out::External) => true,
                _ => false,
            };
            let mut d = String::new();
            if !same { let _ = write!(d, " result {r:?} (faulting address x{at:04X}), expected {out:04X?};"); }
            for k in 0..8 {
                let g = self.sim.reg_file[reg(k)].get();
                if g != cpu.r[k as usize] { let _ = write!(d, " R{k} is x{g:04X}, expected x{:04X};", cpu.r[k as usize]); }
            }
            if self.sim.pc != cpu.pc { let _ = write!(d, " PC is x{:04X}, expected x{:04X};", self.sim.pc, cpu.pc); }
            if self.sim.psr().get() != cpu.psr { let _ = write!(d, " PSR is x{:04X}, expected x{:04X};", self.sim.psr().get(), cpu.psr); }
            let sp = self.saved_sp()?;
            if sp != cpu.saved_sp { let _ = write!(d, " the saved SP is x{sp:04X}, expected x{:04X};", cpu.saved_sp); }
            for &a in &self.w.dirty[self.w.dirty.len().saturating_sub(6)..] {
                if self.sim.mem[a].get() != self.w.mem[a as usize] { let _ = write!(d, " memory x{a:04X} is x{:04X}, expected x{:04X};", self.sim.mem[a].get(), self.w.mem[a as usize]); }
            }
            for (k, (m, g)) in self.w.devs.iter().zip(&real).enumerate() {
                let g = g.lock().unwrap();
                if *m != *g { let _ = write!(d, " device {k}: {:04X?}, expected {:04X?};", g.log, m.log); if m.log == g.log { d.push_str(" (polls differ)"); } }
            }
            if let Some((q, ie)) = &self.w.kb {
                if *kbuf.read().unwrap() != *q { let _ = write!(d, " keyboard buffer {:?}, expected {q:?};", kbuf.read().unwrap()); }
                let _ = ie;
            }
            if let Some(q) = &self.w.ds {
                if *dbuf.read().unwrap() != *q { let _ = write!(d, " display buffer {:?}, expected {q:?};", dbuf.read().unwrap()); }
            }
            if !d.is_empty() || real_out {
                if real_out { d.push_str(" (memory outside of user space was accessed)"); }
                res = Some(Div::Arch { what: format!("step {i} at x{pc0:04X} ({}):{d}", show_ins(&self.w, pc0)), user_fault: fault, irq });
                break;
            }
            // frames
            let mut d = String::new();
            if self.sim.frame_stack.len() != cpu.depth { let _ = write!(d, " frame depth {}, expected {};", self.sim.frame_stack.len(), cpu.depth); }
            match (self.sim.frame_stack.frames(), self.debug) {
                (None, false) => {},
                (Some(f), true) => {
                    if f.len() != self.w.frames.len() || f.len() as u64 != cpu.depth { let _ = write!(d, " {} frames, expected {};", f.len(), self.w.frames.len()); }
                    for k in 0..f.len().min(2) {
                        let g = &f[f.len() - 1 - k];
                        if f.len() != self.w.frames.len() { break }
                        let m = &self.w.frames[f.len() - 1 - k];
                        let kind = match g.frame_type { FrameType::Subroutine => FrameKind::Sub, FrameType::Trap => FrameKind::Trap, FrameType::Interrupt => FrameKind::Int };
                        let ga: Vec<u16> = g.arguments.iter().map(|w| w.get()).collect();
                        // (frame_ptr is no part of the property)
                        if (g.caller_addr, g.callee_addr, kind) != (m.caller, m.callee, m.kind) || ga != m.args {
                            let _ = write!(d, " frame {g:04X?}, expected {m:04X?};");
                        }
                    }
                },
                (f, _) => { let _ = write!(d, " frames() is {}", if f.is_some() { "Some" } else { "None" }); },
            }
            if !d.is_empty() { res = Some(Div::Frames(format!("step {i} at x{pc0:04X} ({}):{d}", show_ins(&self.w, pc0)))); break; }
            if !d_obs.is_empty() { res = Some(Div::Obs(format!("step {i} at x{pc0:04X} ({}):{d_obs}", show_ins(&self.w, pc0)))); break; }
            if self.sim.instructions_run != cpu.count { res = Some(Div::Count(format!("step {i} at x{pc0:04X}: instructions_run is {}, expected {}", self.sim.instructions_run, cpu.count))); break; }
        }
        // --- full comparison
        if res.is_none() {
            for a in 0..=0xFFFFu16 {
                if self.sim.mem[a].get() != self.w.mem[a as usize] {
                    res = Some(Div::Arch { what: format!("memory x{a:04X} is x{:04X}, expected x{:04X} after {} steps", self.sim.mem[a].get(), self.w.mem[a as usize], e.steps), user_fault: user_mode(e.cpu.psr) && !e.flags.ignore_privilege && !(0x3000..0xFE00).contains(&a), irq: false });
                    break;
                }
            }
        }
        self.depth = cpu.depth;
        let over = self.depth > 4000;
        if !sigs_done.is_empty() || over || res.is_some() {
            // signatures cannot be removed one by one
            sigs_done.clear();
            self.sim.frame_stack = Default::default();
            self.depth = 0;
            self.w.frames.clear();
            if self.debug || res.is_some() { let (b, d, s, t) = (std::mem::take(&mut self.base), self.debug, self.steps, self.always_take); *self = Lock::from_base(b, d); self.steps = s; self.always_take = t; }
        }
        Ok(res)
    }
    fn from_base(base: Vec<u16>, debug: bool) -> Self {
        let flags = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: debug, ..Default::default() };
        let mut sim = Simulator::new(flags);
        for a in [0xFFFC, 0xFFFE] { sim.munmap_internal(a); }
        for (a, &v) in base.iter().enumerate() { sim.mem[a as u16] = Word::new_init(v); }
        let mut w = World::new();
        w.mem = base.clone();
        Lock { sim, w, base, mapped: vec![], depth: 0, debug, steps: 0, always_take: false }
    }
}
fn show_ins(w: &World, pc: u16) -> String { match isa::decode(w.mem[pc as usize]) { Ok(i) => format!("{i:?}"), Err(e) => format!("{e:?}") } }
pub fn to_ireg(k: IReg) -> InternalRegister {
    match k { IReg::Pc => InternalRegister::PC, IReg::Psr => InternalRegister::PSR, IReg::Mcr => InternalRegister::MCR, IReg::SavedSp => InternalRegister::SavedSP }
}

fn cmp_obs(a: u16, s: lc3_ensemble::sim::observer::AccessSet, m: u8, d: &mut String) {
    let g = s.read() as u8 | (s.written() as u8) << 1 | (s.modified() as u8) << 2;
    if g & 3 != m & 3 || (m & 4 != 0 && g & 4 == 0) || (g & 4 != 0 && g & 2 == 0) {
        let _ = write!(d, " x{a:04X} is marked {s:?}, but {};", ["was not accessed", "was read", "was written with the same value", "was read and written", "", "", "was modified", "was read and modified"][m as usize]);
    }
}

fn key(e: &Episode) -> u64 { hash(&(e.flags.real_traps, e.flags.ignore_privilege, e.cpu.pc, e.cpu.psr, e.cpu.r, &e.mem, e.steps)) }

/// Runs episodes; `judge` says whether a divergence breaks the property.
fn episodes(c: &mut Ctx, debug: bool, part: f64, always_take: bool, o: &Opts, judge: &dyn Fn(&Div) -> Option<String>) {
    let mut l = Lock::new(c.seed, debug);
    l.always_take = always_take;
    let mut r = c.rng.fork();
    while c.go_until(part) {
        let e = l.gen_ep(&mut r, o);
        let l = &mut l;
        if !c.case(&|| e.show(), || {
            match l.run(&e)? {
                None => Ok(Some(key(&e))),
                Some(d) => match judge(&d) { Some(w) => Err(w), None => Ok(None) },
            }
        }) { return }
    }
}
const RULE: &str = "episodes of 1 to 200 steps from random machine states (boundary-biased PC, registers, memory, PSR, flags, device schedules), executed by the real simulator and by the step contract; non-trivial: the whole episode was compared";

pub fn c08(c: &mut Ctx) {
    c.rule = RULE.into();
    let j = |d: &Div| match d { Div::Arch { what, .. } => Some(what.clone()), Div::Panic(p) => Some(p.clone()), _ => None };
    episodes(c, false, 0.5, false, &Opts::default(), &j);
    episodes(c, false, 0.65, false, &Opts { io: true, ..Default::default() }, &j);
    episodes(c, false, 0.8, false, &Opts { irq: true, ..Default::default() }, &j);
    episodes(c, false, 1.0, false, &Opts { calls: true, long: true, ..Default::default() }, &j);
}
pub fn c09(c: &mut Ctx) {
    c.rule = format!("{RULE}; user mode, addresses around the limits of user space");
    let j = |d: &Div| match d { Div::Arch { what, user_fault: true, .. } => Some(what.clone()), _ => None };
    episodes(c, false, 0.6, true, &Opts { user: true, ..Default::default() }, &j);
    episodes(c, false, 1.0, true, &Opts { user: true, io: true, irq: true, ..Default::default() }, &j);
}
pub fn c10_entry(c: &mut Ctx, part: f64) {
    let j = |d: &Div| match d { Div::Arch { what, irq: true, .. } => Some(what.clone()), _ => None };
    episodes(c, false, part, false, &Opts { irq: true, ..Default::default() }, &j);
}
pub fn c27(c: &mut Ctx) {
    c.rule = RULE.into();
    let j = |d: &Div| match d { Div::Frames(w) => Some(w.clone()), _ => None };
    episodes(c, true, 0.4, false, &Opts { calls: true, ..Default::default() }, &j);
    episodes(c, true, 0.6, false, &Opts { calls: true, irq: true, ..Default::default() }, &j);
    episodes(c, false, 0.8, false, &Opts { calls: true, long: true, ..Default::default() }, &j);
    episodes(c, true, 1.0, false, &Opts { calls: true, long: true, irq: true, ..Default::default() }, &j);
}
pub fn c28(c: &mut Ctx) {
    c.rule = RULE.into();
    let j = |d: &Div| match d { Div::Obs(w) => Some(w.clone()), _ => None };
    episodes(c, false, 0.4, false, &Opts::default(), &j);
    episodes(c, false, 0.6, false, &Opts { irq: true, ..Default::default() }, &j);
    episodes(c, false, 0.75, false, &Opts { calls: true, user: true, ..Default::default() }, &j);
    observer_runs(c, 0.95);
    observer_host(c, 1.0);
}
/// The observer after `run` holds the union of what the steps touched.
fn observer_runs(c: &mut Ctx, part: f64) {
    let mut r = c.rng.fork();
    let mut l = Lock::new(c.seed ^ 5, false);
    let o = Opts { long: true, ..Default::default() };
    while c.go_until(part) {
        let mut e = l.gen_ep(&mut r, &o);
        e.steps = 0;
        e.jumps.clear();
        let n = 1 + r.below(40);
        let l = &mut l;
        if !c.case(&|| format!("run_with_limit({n}) from {}", e.show()), || {
            l.run(&e)?;
            // (run counts instructions; a step may not count as one)
            let mut cpu = e.cpu;
            let mut all: BTreeMap<u16, u8> = BTreeMap::new();
            let res = guard(|| { let mut k = 0; l.sim.run_while(|_| { k += 1; k <= n }) })?;
            l.w.mcr = true;
            for _ in 0..n {
                l.w.touched.clear();
                let x = step(&mut cpu, &mut l.w, e.flags);
                for (a, m) in &l.w.touched { *all.entry(*a).or_default() |= m; }
                if x != Out::Ok || !l.w.mcr { break }
            }
            // only compared if the machine did what the step contract says
            if l.sim.pc != cpu.pc || (0..8).any(|k| l.sim.reg_file[reg(k)].get() != cpu.r[k as usize]) { let _ = res; return Ok(None) }
            let mut d = String::new();
            for (&a, &m) in &all { if a < 0xFE00 { cmp_obs(a, l.sim.observer.get_mem_accesses(a), m, &mut d); } }
            for (a, g) in l.sim.observer.take_mem_accesses() { if a < 0xFE00 && !all.contains_key(&a) { cmp_obs(a, g, 0, &mut d); } }
            ensure!(d.is_empty(), "after run_while:{d}");
            Ok(Some(key(&e)))
        }) { return }
    }
}
/// Host accesses are recorded only through tracking contexts.
fn observer_host(c: &mut Ctx, part: f64) {
    let mut r = c.rng.fork();
    let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 7 }, ..Default::default() });
    while c.go_until(part) {
        let ops: Vec<(u8, u16, u16)> = (0..1 + r.below(8)).map(|_| (r.below(6) as u8, r.word(), r.word())).collect();
        let sim = &mut sim;
        if !c.case(&|| format!("host accesses {ops:04X?}"), || {
            sim.observer.clear();
            for &(k, a, v) in &ops {
                let ctx = MemAccessCtx { privileged: k % 2 == 0, track_access: false, strict: k == 4, io_effects: k == 5 };
                let mut no = MemAccessCtx::omnipotent();
                no.io_effects = k == 3;
                let _ = match k { 0 | 2 => sim.read_mem(a, ctx).map(|_| ()), 1 | 4 => sim.write_mem(a, Word::new_init(v), ctx), 3 => sim.read_mem(a, no).map(|_| ()), _ => sim.write_mem(a, Word::new_init(v), no) };
            }
            let v: Vec<_> = sim.observer.take_mem_accesses().collect();
            ensure!(v.is_empty(), "untracked accesses were recorded: {v:04X?}");
            Ok(Some(hash(&ops)))
        }) { return }
    }
}

pub struct Att { pub kbuf: Arc<RwLock<VecDeque<u8>>>, pub dbuf: Arc<RwLock<Vec<u8>>>, pub devs: Vec<Arc<Mutex<TestDev>>> }
/// Gives the simulator the devices of the episode.
pub fn attach(sim: &mut Simulator, e: &Episode) -> Result<Att, String> {
    let mut dh = DeviceHandler::new();
    let kbuf = Arc::new(RwLock::new(VecDeque::new()));
    let dbuf = Arc::new(RwLock::new(Vec::new()));
    if let Some((q, ie)) = &e.kb {
        kbuf.write().unwrap().extend(q);
        let mut k = BufferedKeyboard::new(Arc::clone(&kbuf));
        k.io_write(0xFE00, (*ie as u16) << 14);
        dh.set_keyboard(k);
    }
    if e.ds { dh.set_display(BufferedDisplay::new(Arc::clone(&dbuf))); }
    let mut devs = vec![];
    for d in &e.devs {
        let a = Arc::new(Mutex::new(d.clone()));
        let ports: Vec<u16> = d.ports.iter().map(|p| p.0).collect();
        dh.add_device(Arc::clone(&a), &ports).map_err(|_| "cannot add a device".to_string())?;
        devs.push(a);
    }
    sim.device_handler = dh;
    Ok(Att { kbuf, dbuf, devs })
}
pub fn plist(s: &MSig) -> ParameterList {
    match s {
        MSig::Std(n) => ParameterList::with_calling_convention(&vec!["p"; *n]),
        MSig::Regs(v) => ParameterList::with_pass_by_register(&v.iter().map(|&n| ("p", reg(n))).collect::<Vec<_>>(), None),
    }
}
/// Sets an internal register (through a temporary mapping).
pub fn poke_ireg(sim: &mut Simulator, k: InternalRegister, v: u16) -> Result<(), String> {
    const A: u16 = 0xFF77;
    let old = sim.mem[A];
    sim.mmap_internal(A, k).map_err(|e| format!("cannot map an internal register: {e:?}"))?;
    sim.write_mem(A, Word::new_init(v), MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?;
    sim.munmap_internal(A);
    sim.mem[A] = old;
    Ok(())
}
/// Reads an internal register (through a temporary mapping).
pub fn peek_ireg(sim: &mut Simulator, k: InternalRegister) -> Result<u16, String> {
    const A: u16 = 0xFF77;
    let old = sim.mem[A];
    sim.mmap_internal(A, k).map_err(|e| format!("cannot map an internal register: {e:?}"))?;
    let v = sim.read_mem(A, MemAccessCtx::omnipotent()).map_err(|e| format!("{e:?}"))?.get();
    sim.munmap_internal(A);
    sim.mem[A] = old;
    Ok(v)
}
