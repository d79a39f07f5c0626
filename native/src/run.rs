//! C10 (transparency), C13, C14, C16, C32.
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex, RwLock};

use crate::conv::reg;
use crate::lock::*;
use crate::progs::*;
use crate::util::*;
use lc3_ensemble::asm::assemble;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, NullDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use lc3spec::step::*;

fn cc_of(psr: u16) -> u16 { psr & 7 }

/// Puts an episode's initial state into a simulator.
pub fn put(sim: &mut Simulator, e: &Episode) -> Result<Att, String> {
    for &(a, v) in &e.mem { sim.mem[a] = Word::new_init(v); }
    for &a in &e.uninit { sim.mem[a].clear_init(); }
    for i in 0..8 { sim.reg_file[reg(i)] = Word::new_init(e.cpu.r[i as usize]); }
    sim.pc = e.cpu.pc;
    poke_ireg(sim, InternalRegister::PSR, e.cpu.psr)?;
    poke_ireg(sim, InternalRegister::SavedSP, e.cpu.saved_sp)?;
    sim.flags.use_real_traps = e.flags.real_traps;
    sim.flags.ignore_privilege = e.flags.ignore_privilege;
    for &(a, k) in &e.iregs { sim.mmap_internal(a, to_ireg(k)).map_err(|e| format!("cannot map x{a:04X}: {e:?}"))?; }
    for (a, s) in &e.sigs { sim.frame_stack.set_subroutine_def(*a, plist(s)); }
    attach(sim, e)
}
pub fn blank(flags: SimFlags) -> Simulator {
    let mut s = Simulator::new(flags);
    for a in [0xFFFC, 0xFFFE] { s.munmap_internal(a); }
    s
}
/// Registers, PC, PSR, saved SP of a simulator.
pub fn cpu_of(s: &mut Simulator) -> Result<Cpu, String> {
    let mut r = [0; 8];
    for (i, x) in r.iter_mut().enumerate() { *x = s.reg_file[reg(i as u8)].get(); }
    let saved_sp = peek_ireg(s, InternalRegister::SavedSP)?;
    Ok(Cpu { r, pc: s.pc, psr: s.psr().get(), saved_sp, count: s.instructions_run, depth: s.frame_stack.len() })
}

// ---------------------------------------------------------------- C14

fn is_strict(e: &SimErr) -> bool {
    matches!(e, SimErr::StrictRegSetUninit | SimErr::StrictMemSetUninit | SimErr::StrictIOSetUninit | SimErr::StrictJmpAddrUninit | SimErr::StrictSRAddrUninit
        | SimErr::StrictMemAddrUninit | SimErr::StrictPCCurrUninit | SimErr::StrictPCNextUninit | SimErr::StrictPSRSetUninit)
}

struct Pair { a: Simulator, b: Simulator, base: Vec<u16>, dirty: Vec<u16>, mapped: Vec<u16> }

pub fn c14(c: &mut Ctx) {
    c.rule = "two real simulators, one strict, stepped from the same states (initialized or partly uninitialized memory and registers, loaded programs with .blkw blocks, devices); non-trivial: at least one step was accepted by both".into();
    let fl = |strict| SimFlags { strict, machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() };
    let mut r = c.rng.fork();
    let base: Vec<u16> = Lock::new(c.seed ^ 14, false).base;
    let mut p = Pair { a: blank(fl(false)), b: blank(fl(true)), base: base.clone(), dirty: vec![], mapped: vec![] };
    for (i, &v) in base.iter().enumerate() { p.a.mem[i as u16] = Word::new_init(v); p.b.mem[i as u16] = Word::new_init(v); }
    // blocks with and without reserved words (they only relax the strict checks)
    let obj = |s: &str| assemble(parse_ast(s).unwrap()).unwrap();
    let objs = [obj(".orig x3000\nADD R0,R0,#0\n.blkw 40\n.fill 7\n.end\n.orig x5000\n.blkw 100\n.end"), obj(".orig xFDF0\n.blkw 16\n.end\n.orig x0300\n.blkw 8\n.end")];
    for k in 0.. {
        if !c.go() { return }
        let init = r.bool();
        if k % 512 == 0 {
            // other allocated blocks
            let o = &objs[r.usize(2)];
            for s in [&mut p.a, &mut p.b] { s.load_obj_file(o).unwrap(); }
            for (a, _) in o.addr_iter() { p.dirty.push(a); }
        }
        let opts = match r.below(4) { 0 => Opts { irq: true, ..Default::default() }, 1 => Opts { calls: true, ..Default::default() }, 2 => Opts { io: true, ..Default::default() }, _ => Opts::default() };
        let mut e = Lock::new_gen(&base, &mut r, &opts);
        if init { e.uninit.clear(); }
        if !init && r.bool() {
            // around what the program uses
            for _ in 0..r.below(6) { e.uninit.push(e.cpu.pc.wrapping_add(r.below(20) as u16)); }
            for _ in 0..r.below(3) { e.uninit.push(e.cpu.r[r.usize(8)].wrapping_add(r.range(-3, 3) as u16)); }
        }
        let unreg: Vec<u8> = if init { vec![] } else { (0..8).filter(|_| r.one(6)).collect() };
        let p = &mut p;
        if !c.case(&|| format!("registers {unreg:?} uninitialized; {}", e.show()), || {
            let Pair { a, b, base, dirty, mapped } = p;
            for x in dirty.drain(..) { for s in [&mut *a, &mut *b] { s.mem[x] = Word::new_init(base[x as usize]); } }
            for x in mapped.drain(..) { a.munmap_internal(x); b.munmap_internal(x); }
            let mut e2 = e.clone();
            e2.sigs.clear();
            let (ta, tb) = (put(a, &e2)?, put(b, &e2)?);
            mapped.extend(e.iregs.iter().map(|x| x.0));
            dirty.extend(e.mem.iter().map(|x| x.0).chain(e.uninit.iter().copied()));
            for &u in &unreg { a.reg_file[reg(u)].clear_init(); b.reg_file[reg(u)].clear_init(); }
            let (ca, cb) = (a.instructions_run, b.instructions_run);
            let (da, db) = (a.frame_stack.len(), b.frame_stack.len());
            let _ = (da, db);
            let mut n = 0u64;
            for i in 0..e.steps {
                for j in &e.jumps { if j.0 == i { a.pc = j.1; b.pc = j.1; } }
                tick();
                let pc = b.pc;
                // a panic of both is no matter of strict mode (see C16)
                let (ra, rb) = (guard(|| a.step_in()), guard(|| b.step_in()));
                let (ra, rb) = match (ra, rb) {
                    (Err(_), Err(_)) => { *a = blank(fl(false)); *b = blank(fl(true)); dirty.clear(); for (i, &v) in base.iter().enumerate() { a.mem[i as u16] = Word::new_init(v); b.mem[i as u16] = Word::new_init(v); } return Ok(None) },
                    (Ok(x), Ok(y)) => (x, y),
                    (Ok(_), Err(p)) => return Err(format!("step {i} at x{pc:04X}: panics in strict mode: {p}")),
                    (Err(_), Ok(_)) => return Ok(None),
                };
                for s in [&mut *a, &mut *b] { for (x, g) in s.observer.take_mem_accesses() { if g.accessed() { dirty.push(x); } } }
                if let Err(x) = &rb {
                    if is_strict(x) {
                        ensure!(!init, "step {i} at x{pc:04X}: {x:?} on a machine whose memory and registers are all initialized");
                        ensure!(!matches!(&ra, Err(y) if is_strict(y)), "step {i} at x{pc:04X}: strict error without strict mode");
                        for x in 0..=0xFFFFu16 { if x >= 0xFE00 || a.mem[x] != b.mem[x] { dirty.push(x); } }
                        return Ok((n > 0).then(|| hash(&(e.cpu.pc, e.cpu.r, &e.mem, &e.uninit))));
                    }
                }
                ensure!(format!("{ra:?}") == format!("{rb:?}"), "step {i} at x{pc:04X}: {ra:?} without and {rb:?} with strict mode");
                let (x, y) = (cpu_of(a)?, cpu_of(b)?);
                ensure!((x.r, x.pc, x.psr, x.saved_sp) == (y.r, y.pc, y.psr, y.saved_sp), "step {i} at x{pc:04X}: {x:04X?} without and {y:04X?} with strict mode");
                ensure!(x.count.wrapping_sub(ca) == y.count.wrapping_sub(cb), "step {i} at x{pc:04X}: instruction counts differ");
                for &d in &dirty[dirty.len().saturating_sub(10)..] {
                    ensure!(a.mem[d].get() == b.mem[d].get(), "step {i} at x{pc:04X}: memory x{d:04X} is x{:04X} without and x{:04X} with strict mode", a.mem[d].get(), b.mem[d].get());
                }
                for (x, y) in ta.devs.iter().zip(&tb.devs) { ensure!(*x.lock().unwrap() == *y.lock().unwrap(), "step {i} at x{pc:04X}: different device effects"); }
                ensure!(*ta.kbuf.read().unwrap() == *tb.kbuf.read().unwrap() && *ta.dbuf.read().unwrap() == *tb.dbuf.read().unwrap(), "step {i} at x{pc:04X}: different I/O");
                ensure!(a.prefetch_pc() == b.prefetch_pc(), "step {i} at x{pc:04X}: different faulting address");
                n += 1;
            }
            for x in 0..=0xFFFFu16 {
                if a.mem[x].get() != base[x as usize] { dirty.push(x); }
                ensure!(a.mem[x].get() == b.mem[x].get(), "memory x{x:04X} differs after {} steps", e.steps);
            }
            Ok(Some(hash(&(e.cpu.pc, e.cpu.r, &e.mem, &e.uninit))))
        }) { return }
    }
}

// ---------------------------------------------------------------- C16

pub fn c16(c: &mut Ctx) {
    c.rule = "random machine states (memory, partly uninitialized words, registers, PC, all flag combinations, standard devices, internal-register mappings), random numbers of steps through step_in, run_with_limit, run_while, step_over and step_out; then prefetch_pc; non-trivial: at least one step was executed".into();
    let mut r = c.rng.fork();
    let mk = |seed: u64, debug| {
        let mut s = Simulator::new(SimFlags { machine_init: if seed % 3 == 0 { MachineInitStrategy::Known { value: seed as u16 } } else { MachineInitStrategy::Seeded { seed } }, debug_frames: debug, ..Default::default() });
        for a in [0xFFFC, 0xFFFE] { s.munmap_internal(a); }
        s
    };
    let mut sim = mk(1, false);
    let base = Lock::new(c.seed ^ 16, false).base;
    for k in 0u64.. {
        if !c.go() { return }
        if k % 64 == 0 {
            sim = mk(r.next() % 1000, r.bool());
            match r.below(3) {
                0 => {},
                1 => for (i, &v) in base.iter().enumerate() { sim.mem[i as u16] = Word::new_init(v); },
                _ => for i in 0x3000..0xFE00u16 { if r.one(3) { sim.mem[i] = Word::new_init(rand_ins(&mut r, &Opts::default())); } },
            }
        }
        let opts = Opts { irq: r.one(3), user: r.one(3), io: r.one(3), calls: r.one(3), long: r.one(4) };
        let mut e = Lock::new_gen(&base, &mut r, &opts);
        e.devs.clear();
        if r.bool() { for _ in 0..4 { let x = r.word(); e.uninit.push(x) } }
        let strict = r.bool();
        let un: u8 = if r.bool() { r.u8() & r.u8() } else { 0 };
        let ops: Vec<(u8, u64)> = (0..1 + r.below(3)).map(|_| (r.below(7) as u8, 1 + r.below(60))).collect();
        let bp = r.one(3).then(|| (r.word(), r.below(8) as u8));
        let sim = &mut sim;
        if !c.case(&|| format!("strict {strict}, operations {ops:?}, breakpoint {bp:?}, uninitialized registers {un:08b}; {}", e.show()), || {
            for a in 0xFE00..=0xFFFFu16 { sim.munmap_internal(a); }
            put(sim, &e)?;
            sim.flags.strict = strict;
            for i in 0..8 { if un >> i & 1 == 1 { sim.reg_file[reg(i)].clear_init(); } }
            sim.breakpoints.clear();
            if let Some((a, k)) = bp {
                sim.breakpoints.insert(match k { 0 => Breakpoint::PC(a), 1 => Breakpoint::Mem { addr: a, value: Comparator::Ge(a) }, _ => Breakpoint::Reg { reg: reg(k), value: Comparator::Eq(a) } });
            }
            for &(k, n) in &ops {
                tick();
                let _ = match k {
                    0..=2 => { for _ in 0..n { let _ = sim.step_in(); let _ = sim.prefetch_pc(); } Ok(()) },
                    3 => { let mut m = 0; let i = sim.instructions_run; sim.run_while(|s| { m += 1; m <= 4 * n && s.instructions_run.wrapping_sub(i) < n }) },
                    4 => { let mut m = 0; sim.run_while(|_| { m += 1; m <= n }) },
                    5 => { let mut m = 0; let d = sim.frame_stack.len(); let _ = d; sim.run_while(|s| { m += 1; let _ = s.prefetch_pc(); m <= n }) },
                    _ => sim.run_with_limit(0),
                };
                let _ = sim.prefetch_pc();
                let _ = (sim.hit_breakpoint(), sim.hit_halt(), sim.psr().priority(), sim.frame_stack.frames().map(|f| f.len()));
            }
            Ok(Some(hash(&(e.cpu.pc, e.cpu.r, &e.mem, &ops))))
        }) { return }
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(c: &mut Ctx) {
    c.rule = "(a) episodes with device interrupts against the step contract; (b) user programs (with OS output routines) run with and without interrupts at random instruction boundaries, with handlers that save and restore the registers they use; non-trivial: at least one interrupt was taken".into();
    c10_entry(c, 0.5);
    let mut r = c.rng.fork();
    let fl = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() };
    while c.go() {
        let strict = r.one(5);
        let real = r.bool();
        let at = 0x3000 + 0x100 * r.below(8) as u16;
        let prog = gen_prog(&mut r, at, &POpts { os: true, input: false, faults: false, halt: true, traps: false });
        let mut vects = vec![];
        let mut hmem = vec![];
        for k in 0..3u16 {
            let v = *r.pick(&[0x03u16, 0x10, 0x80, 0x81, 0xFF, 0x42, 0x7F]);
            if vects.iter().any(|x| *x == v) { continue }
            vects.push(v);
            let at = 0x2000 + 0x200 * k;
            hmem.extend(gen_handler(&mut r, at));
            hmem.push((0x100 + v, at));
            for i in 80..200 { hmem.push((at + i, 0)); }
        }
        let dense = *r.pick(&[1u64, 3, 20, 200]);
        let devs: Vec<TestDev> = vects.iter().enumerate().map(|(k, &v)| {
            let prios: &[u8] = match k { 0 => &[1, 7, 0], 1 => &[2, 5], _ => &[3, 6] };
            let mut t = 0;
            let irqs = (0..r.below(12)).map(|_| { t += 1 + r.below(dense * 4); (t, 1, Irq::Vec(v as u8, *r.pick(prios))) }).collect();
            TestDev { irqs, ..Default::default() }
        }).collect();
        let prio = r.below(3) as u16;
        let regs: Vec<u16> = (0..8).map(|_| r.word()).collect();
        if !c.case(&|| format!("strict {strict} real traps {real} program at x{:04X}: {:04X?}; handlers {:04X?}; interrupts {:?}; priority {prio}; registers {regs:04X?}", prog.start, prog.mem, hmem, devs.iter().map(|d| &d.irqs).collect::<Vec<_>>()), || {
            let mut fin = vec![];
            let mut taken = 0u64;
            for with in [false, true] {
                let mut s = Simulator::new(fl);
                s.flags.strict = strict;
                s.flags.use_real_traps = real;
                for &(a, v) in prog.mem.iter().chain(&hmem) { s.mem[a] = Word::new_init(v); }
                for a in 0x2C00..0x3000u16 { s.mem[a] = Word::new_init(0); }
                for i in 0..8 { s.reg_file[reg(i)] = Word::new_init(regs[i as usize]); }
                s.pc = prog.start;
                poke_ireg(&mut s, InternalRegister::PSR, 0x8002 | prio << 8)?;
                let out = Arc::new(RwLock::new(vec![]));
                s.device_handler.set_display(BufferedDisplay::new(Arc::clone(&out)));
                let mut ds = vec![];
                if with {
                    for d in &devs {
                        let a = Arc::new(Mutex::new(d.clone()));
                        s.device_handler.add_device(Arc::clone(&a), &[]).map_err(|_| "cannot add a device")?;
                        ds.push(a);
                    }
                }
                let r = s.run_with_limit(200_000);
                tick();
                // (the run with interrupts executes more instructions)
                ensure!(s.hit_halt() || !with || fin.is_empty() || s.instructions_run >= 200_000, "the interrupted program ends differently: {r:?} at x{:04X}", s.pc);
                if !s.hit_halt() { if !with { return Ok(None) } return Err(format!("the interrupted program does not reach its end: {r:?} at x{:04X}", s.prefetch_pc())) }
                if with { taken = s.instructions_run; }
                let cpu = cpu_of(&mut s)?;
                let mem: Vec<u16> = (0x3000..0xFE00u16).map(|a| s.mem[a].get()).collect();
                let o = out.read().unwrap().clone();
                fin.push((cpu, mem, o, s.instructions_run));
            }
            let (x, y) = (&fin[0], &fin[1]);
            // Under real traps the OS stops the machine (in supervisor mode, with its own register contents).
            if !real {
                ensure!(x.0.r == y.0.r, "registers {:04X?} without and {:04X?} with interrupts", x.0.r, y.0.r);
                ensure!(cc_of(x.0.psr) == cc_of(y.0.psr) && x.0.psr == y.0.psr, "PSR x{:04X} without and x{:04X} with interrupts", x.0.psr, y.0.psr);
                ensure!(x.0.pc == y.0.pc && x.0.saved_sp == y.0.saved_sp, "PC, saved SP x{:04X} x{:04X} without and x{:04X} x{:04X} with interrupts", x.0.pc, x.0.saved_sp, y.0.pc, y.0.saved_sp);
            } else {
                ensure!(x.0.r[..6] == y.0.r[..6], "R0-R5 {:04X?} without and {:04X?} with interrupts", x.0.r, y.0.r);
                ensure!(x.0.saved_sp == y.0.saved_sp, "user SP x{:04X} without and x{:04X} with interrupts", x.0.saved_sp, y.0.saved_sp);
            }
            if let Some(i) = (0..x.1.len()).find(|&i| x.1[i] != y.1[i]) { return Err(format!("memory x{:04X} is x{:04X} without and x{:04X} with interrupts", 0x3000 + i, x.1[i], y.1[i])) }
            ensure!(x.2 == y.2, "output {:?} without and {:?} with interrupts", String::from_utf8_lossy(&x.2), String::from_utf8_lossy(&y.2));
            Ok((taken > x.3).then(|| hash(&(&prog.mem, taken))))
        }) { return }
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug)]
enum RunOp { Run, Limit(u64), While(u64), Over, Out, McrOff(u64) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bp { Pc(u16), Reg(u8, u8, u16), Mem(u16, u8, u16) }
fn cmp_of(k: u8, v: u16) -> Comparator {
    match k { 0 => Comparator::Never, 1 => Comparator::Lt(v), 2 => Comparator::Eq(v), 3 => Comparator::Le(v), 4 => Comparator::Gt(v), 5 => Comparator::Ne(v), 6 => Comparator::Ge(v), _ => Comparator::Always }
}
fn cmp_holds(k: u8, v: u16, x: u16) -> bool {
    match k { 0 => false, 1 => x < v, 2 => x == v, 3 => x <= v, 4 => x > v, 5 => x != v, 6 => x >= v, _ => true }
}
pub fn bp_of(b: Bp) -> Breakpoint {
    match b {
        Bp::Pc(a) => Breakpoint::PC(a),
        Bp::Reg(r, k, v) => Breakpoint::Reg { reg: reg(r), value: cmp_of(k, v) },
        Bp::Mem(a, k, v) => Breakpoint::Mem { addr: a, value: cmp_of(k, v) },
    }
}
fn bp_hit(b: Bp, s: &Simulator) -> bool {
    match b {
        Bp::Pc(a) => s.pc == a,
        Bp::Reg(r, k, v) => cmp_holds(k, v, s.reg_file[reg(r)].get()),
        Bp::Mem(a, k, v) => cmp_holds(k, v, s.mem[a].get()),
    }
}

/// State compared after runs.
#[derive(PartialEq, Eq, Debug, Clone)]
struct Snap { cpu: Cpu, out: Vec<u8>, kb: Vec<u8>, mem: u64 }
fn snap(s: &mut Simulator, t: &Att) -> Result<Snap, String> {
    let cpu = cpu_of(s)?;
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for a in 0..=0xFFFFu16 { h = (h ^ s.mem[a].get() as u64).wrapping_mul(0x100_0000_01b3); }
    Ok(Snap { cpu, out: t.dbuf.read().unwrap().clone(), kb: t.kbuf.read().unwrap().iter().copied().collect(), mem: h })
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Stop { Halt, Err, Mcr, Trip, Bp }

pub fn c13(c: &mut Ctx) {
    c.rule = "programs with calls, traps, interrupts, loops, faults and MCR writes, run through sequences of run/run_with_limit/run_while/step_over/step_out with breakpoints, against a loop over step_in; and split into random segments; non-trivial: at least 3 instructions were executed".into();
    let mut r = c.rng.fork();
    while c.go() {
        let real = r.bool();
        let debug = r.one(4);
        let po = POpts { os: r.bool(), input: r.one(4), faults: true, halt: !r.one(3), traps: true };
        let prog = gen_prog(&mut r, 0x3000, &po);
        let mut mem = prog.mem.clone();
        for k in 0..3u16 {
            let at = 0x2000 + 0x200 * k;
            mem.extend(gen_handler(&mut r, at));
            mem.push((0x40 + k, at));
            mem.push((0x140 + k, at));
            for i in 80..200 { mem.push((at + i, 0)); }
        }
        // clears the MCR somewhere
        let mut user = true;
        let mut after_mcr = 0;
        if r.one(5) {
            user = false;
            let k = r.usize(prog.mem.len());
            // AND R1,R1,0; LDI/STI through the data word 7 does not reach the MCR: use R5
            let at = prog.mem[k].0;
            after_mcr = at + 2;
            mem.push((0x2FF0, 0xFFFE));
            mem.push((at, 0x56E0));            // AND R3,R3,#0
            mem.push((at + 1, 0xB000 | 3 << 9 | 0x2FF0u16.wrapping_sub(at + 2) & 0x1FF)); // STI R3
        }
        let devs = if r.one(3) {
            vec![TestDev { irqs: (0..r.below(5)).map(|_| (r.below(60), 1, Irq::Vec(0x40 + r.below(3) as u8, 1 + r.below(7) as u8))).collect(), ..Default::default() }]
        } else { vec![] };
        let e = Episode {
            flags: Flags { real_traps: real, ignore_privilege: !user && r.bool() },
            cpu: Cpu { r: std::array::from_fn(|_| r.word()), pc: prog.start, psr: if user { 0x8002 } else { 0x0002 }, saved_sp: 0x3000, count: 0, depth: 0 },
            mem, uninit: vec![], iregs: vec![(0xFFFC, IReg::Psr), (0xFFFE, IReg::Mcr)], kb: Some(((0..20).map(|_| r.u8()).collect(), false)), ds: true, devs, sigs: vec![], steps: 0, jumps: vec![],
        };
        let mut e = e;
        if !user { e.cpu.r[6] = 0x2F00; }
        let any_pc = |r: &mut Rng| prog.mem[r.usize(prog.mem.len())].0;
        let bps: Vec<Bp> = if r.bool() { vec![] } else {
            (0..1 + r.below(3)).map(|_| match r.below(4) {
                0 | 1 => Bp::Pc(any_pc(&mut r)),
                2 => Bp::Reg(r.below(5) as u8, r.below(7) as u8, if r.bool() { r.below(8) as u16 } else { r.word() }),
                _ => Bp::Mem(any_pc(&mut r), r.below(7) as u8, r.word()),
            }).collect()
        };
        let ops: Vec<RunOp> = (0..1 + r.below(6)).map(|_| match r.below(8) {
            0 => RunOp::Run,
            1 => RunOp::Limit(r.below(40)),
            2 => RunOp::While(r.below(30)),
            3 | 4 => RunOp::Over,
            5 | 6 => RunOp::Out,
            _ => RunOp::McrOff(r.below(20)),
        }).collect();
        let start_count = if r.one(4) { u64::MAX - r.below(30) } else { r.below(1000) };
        let seg_seed = r.next();
        let split = r.one(3);
        const CAP: u64 = 3000;
        if !c.case(&|| format!("operations {ops:?} breakpoints {bps:04X?} debug frames {debug} split {split} count {start_count}; {}", e.show()), || {
            let fl = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: debug, ..Default::default() };
            let (mut a, mut b) = (blank(fl), blank(fl));
            let (ta, tb) = (put(&mut a, &e)?, put(&mut b, &e)?);
            a.instructions_run = start_count;
            b.instructions_run = start_count;
            for s in [&mut a, &mut b] { for x in 0x2C00..0x2FF0u16 { s.mem[x] = Word::new_init(0); } }
            for &x in &bps { a.breakpoints.insert(bp_of(x)); }
            if split {
                // one unbroken run against random segments
                a.breakpoints.clear();
                let mut k = 0u64;
                let ra = a.run_while(|_| { k += 1; k <= CAP });
                let total = a.instructions_run.wrapping_sub(start_count);
                let trip = ra.is_ok() && !a.hit_halt();
                let mut q = Rng::new(seg_seed);
                let mut steps_left = 4 * CAP;
                let mut rb = Ok(());
                let mut seg = vec![];
                while steps_left > 0 {
                    let n = 1 + q.below(20).min(steps_left - 1);
                    let before = steps_left;
                    let mut used = 0;
                    rb = match q.below(3) {
                        0 => { let mut m = 0; let x = b.run_while(|_| { m += 1; m <= n }); used = m.min(n); if m <= n && x.is_ok() && !b.hit_halt() { return Err("run_while stopped without a reason".into()) } x },
                        1 => { let m0 = b.instructions_run; let mut t = 0; let x = b.run_while(|s| { t += 1; s.instructions_run.wrapping_sub(m0) < n && t <= before }); used += t - 1 + (b.hit_halt() || x.is_err()) as u64; x },
                        // (not where the MCR has just been cleared: the machine is off there)
                        _ => { let x = prog.mem[q.usize(prog.mem.len())].0; if x != after_mcr { b.breakpoints.insert(Breakpoint::PC(x)); } let mut m = 0; let x = b.run_while(|_| { m += 1; m <= n }); used = m.min(n); b.breakpoints.clear(); x },
                    };
                    seg.push((n, used));
                    steps_left = before.saturating_sub(used.max(1));
                    if rb.is_err() || b.hit_halt() { break }
                }
                if trip { return Ok(None) }
                ensure!(format!("{ra:?}") == format!("{rb:?}"), "one run ends with {ra:?}, segments {seg:?} with {rb:?}");
                ensure!(a.hit_halt() == b.hit_halt(), "hit_halt: {} in one run, {} in segments", a.hit_halt(), b.hit_halt());
                let (x, y) = (snap(&mut a, &ta)?, snap(&mut b, &tb)?);
                ensure!(x == y, "one run and segments {seg:?} end in different states:\n{x:04X?}\n{y:04X?}");
                return Ok((total >= 3).then(|| hash(&(&prog.mem, seg_seed))))
            }
            let mut w = World::new();
            let mut done = 0;
            let mut over = false;
            for (k, op) in ops.iter().enumerate() {
                if over { break }
                // reference: repeated single steps
                let d0 = b.frame_stack.len();
                let c0 = b.instructions_run;
                if matches!(op, RunOp::Out) && d0 == 0 {
                    let x = a.step_out();
                    let (x1, y1) = (snap(&mut a, &ta)?, snap(&mut b, &tb)?);
                    ensure!(x.is_ok() && x1 == y1, "operation {k}: step_out at depth 0 does something: {x:?}");
                    continue
                }
                let mut steps = 0u64;
                let mut mcr = true;
                let mut mcr_at = None;
                let mut res: Result<(), SimErr> = Ok(());
                let mut stops: Vec<Stop> = vec![];
                let mut snaps: Vec<Snap> = vec![];
                let trip = |s: &Simulator, steps: u64| match *op {
                    RunOp::Run | RunOp::McrOff(_) => steps < 400,
                    RunOp::Limit(n) => s.instructions_run.wrapping_sub(c0) < n,
                    RunOp::While(n) => steps < n,
                    RunOp::Over => (steps == 0 || s.frame_stack.len() > d0) && steps < 400,
                    RunOp::Out => (steps == 0 || s.frame_stack.len() >= d0) && steps < 400,
                };
                loop {
                    tick();
                    if let RunOp::McrOff(n) = op { if steps == *n { mcr = false; } }
                    if !mcr { if mcr_at.is_none() { mcr_at = Some(steps); } stops.push(Stop::Mcr); }
                    if !trip(&b, steps) { stops.push(Stop::Trip); }
                    if mcr_at.is_some() && snaps.is_empty() && stops == [Stop::Mcr] {
                        // one more instruction may be executed
                        snaps.push(snap(&mut b, &tb)?);
                    } else if !stops.is_empty() { break }
                    if steps >= CAP { over = true; break }
                    // MCR writes are not visible after a single step: take them from the contract
                    let cpu0 = cpu_of(&mut b)?;
                    let (mut cpu, pc0) = (cpu0, b.pc);
                    w.mcr = true;
                    let mcr_write = {
                        // a store to the mapped MCR
                        peek_mcr_write(&mut w, &b, &mut cpu, e.flags)
                    };
                    let _ = pc0;
                    let r = b.step_in();
                    steps += 1;
                    if let (Some(v), true) = (mcr_write, b.instructions_run != cpu0.count) { mcr = v; } else if mcr_at.is_some() { mcr = false; }
                    let halted = r.is_ok() && b.instructions_run == cpu0.count && !e.flags.real_traps && b.pc == cpu0.pc && b.mem[cpu0.pc].get() == 0xF025;
                    match r {
                        Ok(()) if halted => stops.push(Stop::Halt),
                        Ok(()) => { if bps.iter().any(|&x| bp_hit(x, &b)) { stops.push(Stop::Bp); } },
                        Err(x) => { res = Err(x); stops.push(Stop::Err); },
                    }
                    if mcr_at.is_some() { break }
                    if matches!(stops.last(), Some(Stop::Halt | Stop::Err)) { break }
                    if matches!(stops.last(), Some(Stop::Bp)) { if !mcr { stops.push(Stop::Mcr); } if !trip(&b, steps) { stops.push(Stop::Trip); } break }
                }
                if over { break }
                // the operation itself
                let mut n = 0u64;
                let ra = match *op {
                    RunOp::Run => a.run_while(|_| { n += 1; n <= 400 }),
                    RunOp::McrOff(m) => a.run_while(|s| { if n == m { s.mcr().store(false, Ordering::Relaxed); } n += 1; n <= 400 }),
                    RunOp::Limit(m) => a.run_with_limit(m),
                    RunOp::While(m) => a.run_while(|_| { n += 1; n <= m }),
                    RunOp::Over | RunOp::Out if steps >= 400 => { over = true; continue },
                    RunOp::Over => a.step_over(),
                    RunOp::Out => a.step_out(),
                };
                done += steps;
                let x = snap(&mut a, &ta)?;
                let y = snap(&mut b, &tb)?;
                if let Some(s0) = snaps.first() {
                    // cleared MCR: zero or one more instruction
                    ensure!(x == *s0 || x == y, "operation {k} ({op:?}): the MCR was cleared after {mcr_at:?} steps; the run ends in {x:04X?}, expected {s0:04X?} or {y:04X?}");
                    if x == *s0 && x != y {
                        ensure!(ra.is_ok(), "operation {k} ({op:?}): {ra:?} after the MCR was cleared");
                        ensure!(a.hit_halt(), "operation {k} ({op:?}): stopped because of the MCR, but hit_halt() is false");
                    }
                    return Ok((done >= 3).then(|| hash(&(&prog.mem, done))));
                }
                ensure!(format!("{ra:?}") == format!("{res:?}"), "operation {k} ({op:?}) gives {ra:?}, single steps {res:?} ({steps} steps, {stops:?})");
                ensure!(x == y, "operation {k} ({op:?}) ends in\n{x:04X?}, {steps} single steps in\n{y:04X?} ({stops:?})");
                if stops.len() == 1 {
                    let (h, bk) = match stops[0] { Stop::Halt | Stop::Mcr => (true, false), Stop::Bp => (false, true), _ => (false, false) };
                    ensure!(a.hit_halt() == h && a.hit_breakpoint() == bk, "operation {k} ({op:?}) stopped because of {stops:?}, but hit_halt() is {} and hit_breakpoint() is {}", a.hit_halt(), a.hit_breakpoint());
                }
            }
            Ok((done >= 3).then(|| hash(&(&prog.mem, done, &e.cpu.r))))
        }) { return }
    }
}
/// The value which the next instruction of `b` stores in the MCR, if it does (no interrupt handling: the handlers do not touch the MCR).
fn peek_mcr_write(w: &mut World, b: &Simulator, cpu: &mut Cpu, f: Flags) -> Option<bool> {
    use lc3spec::isa::{Ins, decode};
    let _ = w;
    if user_mode(cpu.psr) && !f.ignore_privilege { return None }
    let m = |a: u16| b.mem[a].get();
    let n = cpu.pc.wrapping_add(1);
    let (a, s) = match decode(m(cpu.pc)).ok()? {
        Ins::Sti(s, o) => (m(n.wrapping_add(o as u16)), s),
        Ins::St(s, o) => (n.wrapping_add(o as u16), s),
        Ins::Str(s, x, o) => (cpu.r[x as usize].wrapping_add(o as u16), s),
        _ => return None,
    };
    (a == 0xFFFE).then(|| cpu.r[s as usize] >= 0x8000)
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Debug)]
enum DOp { Add(Vec<u16>), Remove(u16), Kb(u8), Ds(u8), Map(u16, u8), Unmap(u16), Read(u16, bool, bool), Write(u16, u16), Poll, St(u16, u16), Ld(u16) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot { Null, Dev(usize), Kb, Ds }

pub fn c32(c: &mut Ctx) {
    c.rule = "sequences of device additions/removals, keyboard/display replacement, internal-register (un)mapping, host and program accesses, against an ownership table; devices record every call; non-trivial: at least one access reached a device or register".into();
    let mut r = c.rng.fork();
    // ids are never reused, up to the limit of ids
    c.case(&|| "adding and removing devices until there are no more ids".into(), || {
        let mut h = DeviceHandler::new();
        let mut last = 2;
        for k in 0..70000u32 {
            match h.add_device(NullDevice, &[0xFE10 + (k % 7) as u16]) {
                Ok(id) => { ensure!(id > last, "id {id} after {last}"); last = id; if k % 3 != 2 { h.remove_device(id); } else { h.remove_device(id); } },
                Err(_) => { ensure!(last >= 65534, "no device can be added after id {last}"); break },
            }
        }
        Ok(Some(1))
    });
    while c.go() {
        let ports = [0xFE00u16, 0xFE02, 0xFE04, 0xFE06, 0xFE01, 0xFE05, 0xFE07, 0xFE08, 0xFE09, 0xFFFC, 0xFFFE, 0xFFFF, 0xFDFF, 0x0000, 0x3000, 0xFFFD, 0xFE10];
        let port = |r: &mut Rng| if r.one(5) { 0xFE00 + r.below(0x170) as u16 } else { *r.pick(&ports) };
        let io = |r: &mut Rng| loop { let p = if r.one(5) { 0xFE00 + r.below(0x170) as u16 } else { *r.pick(&ports) }; if p >= 0xFE00 { return p } };
        let ops: Vec<DOp> = (0..3 + r.below(40)).map(|_| match r.below(22) {
            0..=2 => { let n = r.usize(4); let mut v: Vec<u16> = (0..n).map(|_| if r.one(12) { port(&mut r) } else { io(&mut r) }).collect(); if r.one(4) && !v.is_empty() { v.push(v[0]); } DOp::Add(v) },
            3 | 4 => DOp::Remove(match r.below(3) { 0 => r.below(4) as u16, _ => 3 + r.below(6) as u16 }),
            5 => DOp::Kb(r.below(3) as u8),
            6 => DOp::Ds(r.below(3) as u8),
            7 | 8 => DOp::Map(port(&mut r), r.below(4) as u8),
            9 => DOp::Unmap(port(&mut r)),
            10..=13 => DOp::Read(io(&mut r), r.bool(), r.bool()),
            14..=16 => DOp::Write(io(&mut r), r.word()),
            17 => DOp::Poll,
            18 | 19 => DOp::St(io(&mut r), r.word()),
            _ => DOp::Ld(io(&mut r)),
        }).collect();
        if !c.case(&|| format!("{ops:04X?}"), || {
            let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ignore_privilege: true, ..Default::default() });
            let mut owner: BTreeMap<u16, Slot> = BTreeMap::new();
            for p in [0xFE00, 0xFE02] { owner.insert(p, Slot::Kb); }
            for p in [0xFE04, 0xFE06] { owner.insert(p, Slot::Ds); }
            let mut ireg: BTreeMap<u16, IReg> = [(0xFFFC, IReg::Psr), (0xFFFE, IReg::Mcr)].into();
            let mut mem: BTreeMap<u16, u16> = BTreeMap::new();
            // (real, model, attached as)
            let mut devs: Vec<(Arc<Mutex<TestDev>>, TestDev)> = vec![];
            let mut kb: Option<usize> = None; // index into devs
            let mut ds: Option<usize> = None;
            let mut bkb: Option<(BufferedKeyboard, std::collections::VecDeque<u8>, bool)> = None;
            let mut ids: BTreeMap<u16, usize> = BTreeMap::new();
            let mut last_id = 2u16;
            let (mut saved_sp, mut hits) = (0x3000u16, 0u64);
            let mk = |k: usize| TestDev { ports: (0xFE00..=0xFFFFu16).map(|p| (p, p ^ (k as u16).wrapping_mul(0x1234), ((p >> 1) as usize % 5 + k) as u8 % 5)).collect(), ..Default::default() };
            for (i, op) in ops.iter().enumerate() {
                let pcx = sim.pc;
                let _ = pcx;
                match op {
                    DOp::Add(v) => {
                        let a = Arc::new(Mutex::new(mk(devs.len())));
                        let ok = v.iter().all(|p| *p >= 0xFE00 && !owner.contains_key(p));
                        match sim.device_handler.add_device(Arc::clone(&a), v) {
                            Ok(id) => {
                                ensure!(ok, "operation {i}: a device was added at {v:04X?}");
                                ensure!(id > last_id, "operation {i}: device id {id}, but ids up to {last_id} were used");
                                last_id = id;
                                for &p in v { owner.insert(p, Slot::Dev(devs.len())); }
                                ids.insert(id, devs.len());
                            },
                            Err(d) => { ensure!(!ok, "operation {i}: a device could not be added at {v:04X?}"); ensure!(Arc::ptr_eq(&d, &a), "operation {i}: another device was returned"); },
                        }
                        devs.push((a, mk(devs.len())));
                    },
                    DOp::Remove(id) => {
                        sim.device_handler.remove_device(*id);
                        match id {
                            1 => { kb = None; bkb = None; },
                            2 => ds = None,
                            _ => if let Some(k) = ids.remove(id) { owner.retain(|_, s| *s != Slot::Dev(k)); },
                        }
                    },
                    DOp::Kb(k) => {
                        kb = None; bkb = None;
                        match k {
                            0 => sim.device_handler.set_keyboard(NullDevice),
                            1 => {
                                let a = Arc::new(Mutex::new(mk(devs.len())));
                                sim.device_handler.set_keyboard(Arc::clone(&a));
                                kb = Some(devs.len());
                                devs.push((a, mk(devs.len())));
                            },
                            _ => {
                                let b = BufferedKeyboard::default();
                                b.get_buffer().write().unwrap().extend([65, 66, 67]);
                                sim.device_handler.set_keyboard(b.clone());
                                bkb = Some((b, [65, 66, 67].into(), false));
                            },
                        }
                    },
                    DOp::Ds(k) => {
                        ds = None;
                        match k {
                            0 => sim.device_handler.set_display(NullDevice),
                            _ => {
                                let a = Arc::new(Mutex::new(mk(devs.len())));
                                sim.device_handler.set_display(Arc::clone(&a));
                                ds = Some(devs.len());
                                devs.push((a, mk(devs.len())));
                            },
                        }
                    },
                    DOp::Map(a, k) => {
                        let k = [IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp][*k as usize];
                        let g = sim.mmap_internal(*a, to_ireg(k)).is_ok();
                        let free = *a >= 0xFE00 && !ireg.contains_key(a);
                        ensure!(!g || free, "operation {i}: x{a:04X} was mapped");
                        // (whether a device's port can be mapped is left open)
                        ensure!(g || !free || owner.contains_key(a), "operation {i}: x{a:04X} could not be mapped");
                        if g { ireg.insert(*a, k); }
                    },
                    DOp::Unmap(a) => {
                        let g = sim.munmap_internal(*a);
                        ensure!(g == ireg.remove(a).is_some(), "operation {i}: munmap_internal(x{a:04X}) gives {g}");
                    },
                    DOp::Poll => {
                        let _ = sim.device_handler.poll_interrupt();
                        for k in ids.values().copied().chain(kb).chain(ds) { devs[k].1.polls += 1; }
                    },
                    DOp::Read(..) | DOp::Ld(_) | DOp::Write(..) | DOp::St(..) => {
                        let (a, eff, wr) = match *op { DOp::Read(a, eff, _) => (a, eff, None), DOp::Ld(a) => (a, true, None), DOp::Write(a, v) | DOp::St(a, v) => (a, true, Some(v)), _ => unreachable!() };
                        let prog = matches!(op, DOp::Ld(_) | DOp::St(..));
                        let slot = owner.get(&a).copied().unwrap_or(Slot::Null);
                        let dev = match slot { Slot::Dev(k) => Some(k), Slot::Kb => kb, Slot::Ds => ds, Slot::Null => None };
                        let cell = *mem.get(&a).unwrap_or(&0);
                        let mut cpu = cpu_of(&mut sim)?;
                        ensure!(cpu.saved_sp == saved_sp, "operation {i}: the saved SP is x{:04X}, expected x{saved_sp:04X}", cpu.saved_sp);
                        // access by the program: LDI R0 / STI R0 through a pointer
                        if prog {
                            sim.pc = 0x3000;
                            sim.mem[0x3000] = Word::new_init(if wr.is_some() { 0xB001 } else { 0xA001 });
                            sim.mem[0x3002] = Word::new_init(a);
                            if let Some(v) = wr { sim.reg_file[reg(0)] = Word::new_init(v); }
                            poke_ireg(&mut sim, InternalRegister::PSR, 0x8702)?; // no interrupts
                            cpu = cpu_of(&mut sim)?;
                            cpu.pc = 0x3001;
                            for k in ids.values().copied().chain(kb).chain(ds) { devs[k].1.polls += 1; }
                        } else if let DOp::Read(..) = op { poke_ireg(&mut sim, InternalRegister::PSR, 0x8002)?; cpu = cpu_of(&mut sim)?; }
                        let mcr0 = if prog { true } else { sim.mcr().load(Ordering::Relaxed) };
                        let got = if prog {
                            let x = sim.step_in();
                            ensure!(x.is_ok(), "operation {i}: {x:?}");
                            sim.reg_file[reg(0)].get()
                        } else {
                            let mut ctx = MemAccessCtx::omnipotent();
                            ctx.io_effects = eff;
                            if let DOp::Read(_, _, t) = op { ctx.track_access = *t; }
                            match wr {
                                None => sim.read_mem(a, ctx).map_err(|e| format!("operation {i}: {e:?}"))?.get(),
                                Some(v) => { sim.write_mem(a, Word::new_init(v), ctx).map_err(|e| format!("operation {i}: {e:?}"))?; v },
                            }
                        };
                        let at = format!("operation {i} ({op:04X?}; owner {slot:?}, register {:?})", ireg.get(&a));
                        match (ireg.get(&a), wr) {
                            (Some(k), None) => {
                                hits += 1;
                                let v = match k { IReg::Pc => cpu.pc, IReg::Psr => cpu.psr, IReg::Mcr => (mcr0 as u16) << 15, IReg::SavedSp => saved_sp };
                                ensure!(got == v, "{at}: read x{got:04X}, expected x{v:04X}");
                                mem.insert(a, v);
                            },
                            (Some(k), Some(v)) => {
                                hits += 1;
                                mem.insert(a, v);
                                match k {
                                    IReg::Pc => ensure!(sim.pc == v, "{at}: PC is x{:04X}", sim.pc),
                                    IReg::Psr => ensure!(sim.psr().get() == psr_write(v), "{at}: PSR is x{:04X}", sim.psr().get()),
                                    IReg::Mcr => if !prog { ensure!(sim.mcr().load(Ordering::Relaxed) == (v >= 0x8000), "{at}: wrong MCR") },
                                    IReg::SavedSp => saved_sp = v,
                                }
                            },
                            (None, None) => {
                                let v = match (slot, &mut bkb, dev) {
                                    (_, _, Some(k)) => { hits += 1; devs[k].1.read(a, eff) },
                                    (Slot::Kb, Some((_, q, ie)), _) => { hits += 1; match a { 0xFE00 => Some((!q.is_empty() as u16) << 15 | (*ie as u16) << 14), _ => if eff { q.pop_front().map(u16::from) } else { q.front().map(|&x| x as u16) } } },
                                    _ => None,
                                };
                                if let Some(v) = v { mem.insert(a, v); }
                                let v = v.unwrap_or(cell);
                                ensure!(got == v, "{at}: read x{got:04X}, expected x{v:04X}");
                            },
                            (None, Some(v)) => {
                                let ok = match (slot, &mut bkb, dev) {
                                    (_, _, Some(k)) => { hits += 1; devs[k].1.write(a, v) },
                                    (Slot::Kb, Some((_, _, ie)), _) if a == 0xFE00 => { hits += 1; *ie = v & 0x4000 != 0; true },
                                    _ => false,
                                };
                                if ok { mem.insert(a, v); }
                            },
                        }
                        let m = *mem.get(&a).unwrap_or(&0);
                        ensure!(sim.mem[a].get() == m, "{at}: memory holds x{:04X}, expected x{m:04X}", sim.mem[a].get());
                        if let Some((b, q, _)) = &bkb { ensure!(*b.get_buffer().read().unwrap() == *q, "{at}: keyboard buffer {:?}, expected {q:?}", b.get_buffer()); }
                    },
                }
                for (k, (g, m)) in devs.iter().enumerate() {
                    let g = g.lock().unwrap();
                    ensure!(g.log == m.log && g.polls == m.polls, "operation {i} ({op:04X?}): device {k} saw {:04X?} ({} polls), expected {:04X?} ({} polls)", g.log, g.polls, m.log, m.polls);
                }
            }
            Ok((hits > 0).then(|| hash(&format!("{ops:?}"))))
        }) { return }
    }
}
