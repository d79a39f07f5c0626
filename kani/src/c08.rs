//! C08: the step contract, non-strict: one step of the real simulator has the outcome and effects of the ISA step.
//! `op_*` cover all instructions (with any pending interrupt), `entry_*` the entry of handlers, `external` external interrupts.
use crate::eng::*;
use lc3spec::step::{Exc, Out, Poll};

fn contract(op: u16) {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 2 });
    let g = real(&p);
    let (c, out, e) = specified(&p, op);
    assert!(!e.mismatch && e.dn == unsafe { DN }, "C08: device accesses are those of the ISA, in order");
    assert!(result_matches(g.res, out), "C08: the step ends as the ISA says, with the faulting address");
    assert!(entry_equal(&e), "C08: handlers are entered as the ISA says");
    assert!(regs_equal(&g.c, &c), "C08: registers");
    assert!(g.c.pc == c.pc, "C08: PC");
    assert!(g.c.psr == c.psr, "C08: PSR (condition codes, privilege, priority)");
    assert!(g.c.saved_sp == c.saved_sp, "C08: saved stack pointer");
    assert!(cells_equal(&e), "C08: memory");
    kani::cover!(if op == BAD { out == Out::Exc(Exc::Format, p.c.pc) } else if op == ILLEGAL { out == Out::Exc(Exc::IllegalOpcode, p.c.pc) } else if op == 15 { out == Out::Halt } else { out == Out::Ok && e.entries == 0 }, "COVER");
    kani::cover!(e.entries == 1 && e.earg == (0x102, None), "COVER");
}
crate::per_op!(contract);

crate::step_proof! { decode = dec_lea, poll = st_poll_ext, fn external() {
    let mut p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 3 });
    p.poll = Poll::External;
    let g = real(&p);
    assert!(g.res == Res::Is(Out::External), "C08: external interrupts are reported");
    assert!(state_equal(&g.c, &p.c) && g.c.count == p.c.count && unsafe { LEN == 0 && DN == 0 && ENTRIES == 0 }, "C08: an external interrupt changes nothing");
    kani::cover!(true, "COVER");
} }

fn entry_contract(real_traps: bool) {
    let mut p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
    p.f.real_traps = real_traps;
    let a = entry_args(&p);
    let g = real_entry(&p, &a);
    let s = specified_entry(&p, &a);
    assert!(g.res == s.res, "C08: handler entry ends as the ISA says");
    assert!(!s.e.mismatch && s.e.dn == unsafe { DN }, "C08: handler entry accesses devices as the ISA says");
    assert!(state_equal(&g.c, &s.c), "C08: state after handler entry");
    assert!(g.c.count == p.c.count, "C08: entering a handler completes no instruction");
    assert!(g.prefetch == s.prefetch, "C08: the faulting address is kept");
    assert!(cells_equal(&s.e), "C08: memory after handler entry (PSR and PC on the supervisor stack)");
    kani::cover!(g.res == ERes::Ok && a.prio.is_some(), "COVER");
    kani::cover!(g.res == ERes::Ok && a.prio.is_none(), "COVER");
    kani::cover!(real_traps || g.res == ERes::Halt, "COVER");
}
crate::machine_proof! { fn entry_real() { entry_contract(true) } }
crate::machine_proof! { fn entry_virtual() { entry_contract(false) } }
