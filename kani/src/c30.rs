//! C30: reset gives a new machine with the same flags and MCR handle, and keeps breakpoints, mapped registers and devices.
//! (`Simulator::new_with_mcr` is replaced by: any new machine. What a new machine is: C29.)
use crate::eng::{cpu, state_equal};
use lc3_ensemble::sim::debug::Breakpoint;
use lc3_ensemble::sim::device::kani_hooks as devs;
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use lc3_ensemble::sim::frame;
use lc3_ensemble::sim::mem::kani_hooks::{mem_any, regs, word};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MCR, SimFlags, Simulator, kani_hooks as sim_hooks};
use std::mem::forget;
use std::sync::Arc;

static mut RESETS: u8 = 0;
static mut NEWS: u8 = 0;
static mut FLAGS: Option<SimFlags> = None;

struct Dev;
impl ExternalDevice for Dev {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> { Some(7) }
    fn io_write(&mut self, _: u16, _: u16) -> bool { true }
    fn io_reset(&mut self) { unsafe { RESETS += 1; } }
    fn poll_interrupt(&mut self) -> Option<Interrupt> { None }
}
pub fn state() -> std::hash::RandomState { sim_hooks::fixed_state() }

/// Any machine without breakpoints, mappings and devices.
fn any_machine(flags: SimFlags) -> Simulator {
    let mut r = [word(0, 0); 8];
    let mut i = 0;
    while i < 8 { r[i] = word(kani::any(), kani::any()); i += 1; }
    let depth: u64 = kani::any();
    sim_hooks::make(mem_any(), regs(r), kani::any(), sim_hooks::Parts {
        psr: kani::any(), saved_sp: word(kani::any(), kani::any()), alloca: Box::new([kani::any()]), prefetch: kani::any(),
        instructions_run: kani::any(), mcr: kani::any(), frame_stack: frame::kani_hooks::make(depth, None),
        device_handler: devs::handler(1, Box::new([0; 512])),
    }, flags)
}
/// What the new machine is.
static mut NEW: Option<(lc3spec::step::Cpu, *const Word, u64, bool, (u16, u16))> = None;
fn look(s: &Simulator) -> (lc3spec::step::Cpu, *const Word, u64, bool, (u16, u16)) {
    // (the memory itself)
    (cpu(s), &s.mem[0], s.frame_stack.len(), sim_hooks::prefetch(s), if let [a] = sim_hooks::alloca(s) { *a } else { (0, 0) })
}
fn new(flags: SimFlags, mcr: MCR) -> Option<Simulator> {
    unsafe {
        NEWS += 1;
        FLAGS = Some(flags);
        let mut s = any_machine(flags);
        sim_hooks::set_mcr(&mut s, mcr);
        NEW = Some(look(&s));
        Some(s)
    }
}
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(lc3_ensemble::sim::Simulator::new_with_mcr, lc3_ensemble::sim::kani_hooks::new_stub)]
#[kani::stub(std::hash::RandomState::new, state)]
fn reset() {
    unsafe { sim_hooks::NEW = new; }
    let flags = SimFlags {
        strict: kani::any(), use_real_traps: kani::any(), ignore_privilege: kani::any(), debug_frames: kani::any(),
        machine_init: MachineInitStrategy::Known { value: kani::any() },
    };
    let mut s = any_machine(flags);
    let mcr = Arc::clone(s.mcr());
    s.breakpoints.insert(Breakpoint::PC(0x3005));
    s.mmap_internal(0xFE10, InternalRegister::PC).ok();
    devs::put(&mut s.device_handler, 0, Dev);
    sim_hooks::set_paused(&mut s, kani::any());
    let port: u16 = kani::any();
    let owner = devs::port_owner(&s.device_handler, port);
    s.reset();
    unsafe {
        assert!(NEWS == 1 && FLAGS == Some(flags) && s.flags == flags, "C30: reset keeps the flags");
        let (n, g) = (NEW.unwrap(), look(&s));
        assert!(state_equal(&g.0, &n.0) && g.0.count == n.0.count, "C30: reset restores registers, PC, PSR, saved stack pointer and instruction count");
        assert!(g.1 == n.1, "C30: reset restores memory");
        assert!(g.2 == n.2 && g.3 == n.3, "C30: reset restores the frame depth");
        assert!(g.4 == n.4, "C30: reset forgets loaded object files");
        assert!(Arc::ptr_eq(s.mcr(), &mcr), "C30: reset keeps the MCR handle");
        assert!(!s.hit_halt() && !s.hit_breakpoint(), "C30: reset clears the halt and breakpoint status");
        assert!(s.breakpoints.len() == 1 && matches!(s.breakpoints.iter().next(), Some(Breakpoint::PC(0x3005))), "C30: reset keeps the breakpoints");
        assert!(matches!(sim_hooks::mapped(&s), (1, Some((0xFE10, InternalRegister::PC)))), "C30: reset keeps mapped registers");
        assert!(devs::device_count(&s.device_handler) == 1 && !devs::is_null(&s.device_handler, 0) && devs::port_owner(&s.device_handler, port) == owner, "C30: reset keeps devices");
        assert!(RESETS == 1, "C30: reset resets devices");
    }
    kani::cover!(true, "COVER");
    forget(s);
    forget(mcr);
}
