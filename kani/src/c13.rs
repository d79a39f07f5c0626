//! C13: the run loop over any step, tripwire and breakpoints; the tripwires of the run functions; breakpoint predicates.
//!
//! `Simulator::step` is replaced by "any state afterwards, any result" and runs are cut before step `K + 1`. All state the
//! loop carries is in the simulator (set to anything by each step) and in the tripwire (which answers anything), so its
//! second iteration is any later iteration: by induction the contract holds for runs of any length.
use crate::eng::*;
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::frame::kani_hooks::set_len;
use lc3_ensemble::sim::kani_hooks::{self as sim_hooks, Break};
use lc3_ensemble::sim::{SimErr, Simulator};
use std::sync::atomic::Ordering::Relaxed;

const K: usize = 2;
/// The machine at an instruction boundary.
#[derive(Clone, Copy, PartialEq, Eq)]
struct At { pc: u16, r0: u16, count: u64, mcr: bool, depth: u64 }
const AT: At = At { pc: 0, r0: 0, count: 0, mcr: false, depth: 0 };
static mut N: usize = 0;
static mut AFTER: [At; K] = [AT; K];
/// 0: the step succeeds, 1: virtual HALT, 2: error
static mut RES: [u8; K] = [0; K];
static mut TRIP: [bool; K + 1] = [false; K + 1];
static mut TESTED: [bool; K + 1] = [false; K + 1];
static mut BP: [Breakpoint; 2] = [Breakpoint::PC(0), Breakpoint::PC(0)];

fn step(s: &mut Simulator) -> Result<(), Break> {
    unsafe {
        kani::assume(N < K);
        let mcr = s.mcr().load(Relaxed);
        assert!(mcr == (N == 0 || AFTER[N - 1].mcr) || N > 0, "C13: the machine is on when a run starts");
        if N == 0 { assert!(CLEARS > 0, "C13: a run starts with cleared accesses"); }
        let a = At { pc: kani::any(), r0: kani::any(), count: kani::any(), mcr: kani::any(), depth: kani::any() };
        s.pc = a.pc;
        s.reg_file[Reg::R0].set(a.r0);
        s.instructions_run = a.count;
        s.mcr().store(a.mcr, Relaxed);
        set_len(&mut s.frame_stack, a.depth);
        RES[N] = kani::any();
        kani::assume(RES[N] < 3);
        AFTER[N] = a;
        N += 1;
        match RES[N - 1] { 0 => Ok(()), 1 => Err(Break::Halt), _ => Err(Break::Err(SimErr::IllegalOpcode)) }
    }
}
fn any_cmp(v: u16) -> Comparator {
    match kani::any::<u8>() % 8 {
        0 => Comparator::Never, 1 => Comparator::Lt(v), 2 => Comparator::Eq(v), 3 => Comparator::Le(v),
        4 => Comparator::Gt(v), 5 => Comparator::Ne(v), 6 => Comparator::Ge(v), _ => Comparator::Always,
    }
}
fn holds(c: &Comparator, x: u16) -> bool {
    match *c {
        Comparator::Never => false, Comparator::Lt(v) => x < v, Comparator::Eq(v) => x == v, Comparator::Le(v) => x <= v,
        Comparator::Gt(v) => x > v, Comparator::Ne(v) => x != v, Comparator::Ge(v) => x >= v, Comparator::Always => true,
    }
}
fn hit(a: &At) -> bool {
    unsafe {
        let one = |b: &Breakpoint| match b { Breakpoint::PC(p) => *p == a.pc, Breakpoint::Reg { value, .. } => holds(value, a.r0), _ => false };
        one(&BP[0]) || one(&BP[1])
    }
}
fn start() -> Simulator {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let mut s = machine(&p);
    unsafe {
        sim_hooks::STEP = step;
        TRIP = kani::any();
        BP[0] = Breakpoint::PC(kani::any());
        BP[1] = Breakpoint::Reg { reg: Reg::R0, value: any_cmp(kani::any()) };
        set_len(&mut s.frame_stack, kani::any());
    }
    s
}

crate::machine_proof! {
    #[kani::stub(lc3_ensemble::sim::Simulator::step, lc3_ensemble::sim::kani_hooks::step_stub)]
    fn run_loop() {
        let mut s = start();
        // a set of two breakpoints (the hash table is built for other ones, which are then replaced)
        s.breakpoints.insert(Breakpoint::PC(0));
        s.breakpoints.insert(Breakpoint::PC(1));
        let mut i = 0;
        for b in s.breakpoints.iter() {
            unsafe { std::ptr::copy_nonoverlapping(&raw const BP[i], b as *const Breakpoint as *mut Breakpoint, 1); }
            i += 1;
        }
        let (pc, count) = (s.pc, s.instructions_run);
        let r = s.run_while(|_| unsafe {
            TESTED[N] = true;
            TRIP[N]
        });
        unsafe {
            // the first boundary where the run has to stop, and where it may stop because the MCR is off
            let (mut must, mut may) = (K + 1, K + 1);
            let mut i = 0;
            while i <= K {
                let (stop, off) = if i == 0 { (!TRIP[0], false) } else if i > N { (false, false) } else { (RES[i - 1] != 0 || hit(&AFTER[i - 1]) || !TRIP[i], !AFTER[i - 1].mcr) };
                if stop && must > i { must = i; }
                if off && may > i { may = i; }
                i += 1;
            }
            assert!(N <= must, "C13: the run stops at the first boundary where its condition holds");
            assert!(N == must || N == may || N == may + 1, "C13: the run does not stop before its condition holds");
            if N > 0 {
                let a = AFTER[N - 1];
                assert!(s.pc == a.pc && s.instructions_run == a.count && s.frame_stack.len() == a.depth && s.reg_file[Reg::R0].get() == a.r0, "C13: a run only executes steps");
                assert!(r.is_err() == (RES[N - 1] == 2), "C13: errors end the run and are returned");
                let (h, b) = (RES[N - 1] == 1, hit(&a));
                if s.hit_breakpoint() { assert!(b && RES[N - 1] == 0, "C13: a breakpoint is reported only if one matches"); }
                if s.hit_halt() { assert!((h || !a.mcr) && r.is_ok(), "C13: HALT is reported only if executed or the MCR is off"); }
                if h { assert!(s.hit_halt(), "C13: HALT is reported"); }
                if RES[N - 1] == 0 && b && a.mcr && (!TESTED[N] || TRIP[N]) { assert!(s.hit_breakpoint(), "C13: breakpoints are reported"); }
            } else {
                assert!(s.pc == pc && s.instructions_run == count && r.is_ok() && !s.hit_breakpoint() && !s.hit_halt(), "C13: a run of no steps changes nothing");
            }
            assert!(!s.mcr().load(Relaxed), "C13: the machine is off after a run");
            kani::cover!(N == 2 && s.hit_breakpoint(), "COVER");
            kani::cover!(N == 2 && r.is_err(), "COVER");
            kani::cover!(N == 1 && s.hit_halt(), "COVER");
            kani::cover!(N == 2 && !TRIP[2] && r.is_ok(), "COVER");
        }
        std::mem::forget((r, s));
    }
}

crate::machine_proof! {
    #[kani::stub(lc3_ensemble::sim::Simulator::step, lc3_ensemble::sim::kani_hooks::step_stub)]
    fn step_in() {
        let mut s = start();
        let r = s.step_in();
        unsafe {
            assert!(N == 1 && CLEARS > 0, "C13: a single step is one step");
            assert!(r.is_err() == (RES[0] == 2), "C13: errors are returned");
            let a = AFTER[0];
            assert!(s.pc == a.pc && s.instructions_run == a.count && s.frame_stack.len() == a.depth, "C13: a single step is one step");
            kani::cover!(r.is_err(), "COVER");
        }
        std::mem::forget((r, s));
    }
}

// --- the run functions: which tripwire they run with ---
static mut RUNS: u8 = 0;
static mut KIND: u8 = 0;
static mut MAX: u64 = 0;
static mut ERR: bool = false;
pub fn st_run_while(s: &mut Simulator, mut f: impl FnMut(&mut Simulator) -> bool) -> Result<(), SimErr> {
    unsafe {
        RUNS += 1;
        let (start, depth) = (s.instructions_run, s.frame_stack.len());
        let go = f(s);
        assert!(go == match KIND { 1 => MAX > 0, _ => true }, "C13: the first instruction is executed (unless the limit is 0)");
        // any later boundaries
        let mut i = 0;
        while i < 2 {
            s.instructions_run = kani::any();
            set_len(&mut s.frame_stack, kani::any());
            let (n, d) = (s.instructions_run, s.frame_stack.len());
            let go = f(s);
            let want = match KIND { 0 => true, 1 => n.wrapping_sub(start) < MAX, 2 => d > depth, _ => d >= depth };
            assert!(go == want, "C13: the run stops at the step limit, back in the frame (step over), or below it (step out)");
            assert!(s.instructions_run == n && s.frame_stack.len() == d, "C13: tripwires only look");
            i += 1;
        }
        ERR = kani::any();
        if ERR { Err(SimErr::IllegalOpcode) } else { Ok(()) }
    }
}
crate::machine_proof! {
    #[kani::stub(lc3_ensemble::sim::Simulator::run_while, st_run_while)]
    fn tripwires() {
        let mut s = start();
        let depth = s.frame_stack.len();
        unsafe {
            KIND = kani::any();
            kani::assume(KIND < 4);
            MAX = kani::any();
            let r = match KIND { 0 => s.run(), 1 => s.run_with_limit(MAX), 2 => s.step_over(), _ => s.step_out() };
            if KIND != 3 || depth > 0 {
                assert!(RUNS == 1, "ENV: the run functions use run_while");
                assert!(r.is_err() == ERR, "C13: errors are returned");
            }
            kani::cover!(KIND == 3 && r.is_err(), "COVER");
            std::mem::forget((r, s));
        }
    }
}

crate::machine_proof! { fn breakpoints() {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let s = machine(&p);
    let (k, v, a): (u8, u16, u16) = kani::any();
    let cmp = any_cmp(v);
    let x: u16 = match k % 3 { 0 => p.c.pc, 1 => p.c.r[(a % 8) as usize], _ => { let i = find(a); unsafe { PV[i] } } };
    let want = if k % 3 == 0 { v == x } else { holds(&cmp, x) };
    let b = match k % 3 { 0 => Breakpoint::PC(v), 1 => Breakpoint::Reg { reg: crate::conv::reg((a % 8) as u8), value: cmp }, _ => Breakpoint::Mem { addr: a, value: cmp } };
    assert!(b.check(&s) == want, "C13: a breakpoint matches exactly when its condition holds");
    unsafe { assert!(DN == 0, "C13: breakpoints do not touch devices"); }
    kani::cover!(want && k % 3 == 2, "COVER");
    kani::cover!(!want, "COVER");
    std::mem::forget(s);
} }
