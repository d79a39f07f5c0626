//! C10: polling, gating and entry of interrupts; return.
use crate::eng::*;
use lc3spec::step::{self as spec, Poll};

/// An interrupt is taken before the fetch, exactly if its priority is higher than the machine's.
fn gate(_op: u16) {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 2 });
    let g = real(&p);
    unsafe {
        assert!(POLLS == 1, "C10: interrupts are polled once in a step");
        match p.poll {
            Poll::Vectored(v, q) if q > spec::priority(p.c.psr) => {
                assert!(ENTRIES == 1 && EARG == (0x100 + v as u16, Some(q)), "C10: an interrupt of a higher priority is taken");
                assert!(state_equal(&EPRE, &p.c) && !EFETCHED && LEN == 0 && DN == 0, "C10: the interrupt is taken between instructions");
                assert!(FN == 0 && POPS == 0 && g.c.count == p.c.count, "C10: the interrupted instruction is not executed");
                // (strict mode may reject the entry)
                assert!((p.strict && g.res == Res::Strict) || g.res == Res::Is(spec::Out::Ok) && g.c.pc == EPOST.pc && g.c.psr == EPOST.psr && regs_equal(&g.c, &EPOST), "C10: the next instruction is the handler's");
            },
            _ => {
                assert!(ENTRIES == 0 || EARG.1.is_none(), "C10: an interrupt of a lower or the same priority is not taken");
                assert!(LEN > 0 || p.c.psr >= 0x8000, "C10: the instruction is executed");
            },
        }
        kani::cover!(matches!(p.poll, Poll::Vectored(_, 4)) && ENTRIES == 1, "COVER");
        kani::cover!(matches!(p.poll, Poll::Vectored(_, 4)) && ENTRIES == 0, "COVER");
        kani::cover!(p.poll == Poll::None && ENTRIES == 0, "COVER");
    }
}
crate::per_op!(gate);

/// Entry: supervisor mode, at the vector, with the old PSR and PC on the supervisor stack.
fn enter(strict: Strict) {
    let p = draw(Cfg { strict, all_init: strict == Strict::On, poll: 0 });
    let mut a = entry_args(&p);
    let q: u8 = kani::any();
    kani::assume(q < 8 && q > spec::priority(p.c.psr) && a.vect >= 0x100);
    a.prio = Some(q);
    a.fetched = false;
    let user = spec::user_mode(p.c.psr);
    let ssp = if user { p.c.saved_sp } else { p.c.r[6] };
    let (s1, s2) = (ssp.wrapping_sub(1), ssp.wrapping_sub(2));
    kani::assume(s1 < 0xFE00 && s2 < 0xFE00);
    let g = real_entry(&p, &a);
    let old = |x: u16| { let i = find(x); unsafe { CE[i].get() } };
    assert!(g.res == ERes::Ok, "C10: the entry succeeds");
    assert!(old(s1) == p.c.psr && old(s2) == p.c.pc, "C10: the old PSR and PC are on the supervisor stack");
    assert!(g.c.r[6] == s2, "C10: R6 is the supervisor stack pointer");
    assert!(g.c.saved_sp == if user { p.c.r[6] } else { p.c.saved_sp }, "C10: the user stack pointer is saved");
    assert!(g.c.psr < 0x8000 && spec::priority(g.c.psr) == q, "C10: supervisor mode at the interrupt's priority");
    assert!(g.c.pc == old(a.vect), "C10: the handler of the vector runs");
    let mut i = 0;
    while i < 8 { assert!(i == 6 || g.c.r[i] == p.c.r[i], "C10: other registers are unchanged"); i += 1; }
    let mut i = 0;
    while i < NC { unsafe { assert!(i >= LEN || PA[i] == s1 || PA[i] == s2 || CE[i].get() == PV[i], "C10: other memory is unchanged"); } i += 1; }
    assert!(unsafe { DN } == 0, "C10: no device is accessed");
    kani::cover!(user, "COVER");
    kani::cover!(!user, "COVER");
}
crate::machine_proof! { fn enter_plain() { enter(Strict::Off) } }
crate::machine_proof! { fn enter_strict() { enter(Strict::On) } }

// Transparency: entry, then any handler that restores the registers and returns with RTI.
crate::machine_proof! {
    #[kani::stub(lc3_ensemble::ast::sim::SimInstr::decode, crate::eng::dec_rti)]
    #[kani::stub(<lc3_ensemble::sim::device::DeviceHandler as lc3_ensemble::sim::device::ExternalDevice>::poll_interrupt, crate::eng::st_poll)]
    fn transparent() {
        let mut p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
        p.f.real_traps = false;
        let mut a = entry_args(&p);
        let q: u8 = kani::any();
        kani::assume(q < 8 && q > spec::priority(p.c.psr) && a.vect >= 0x100);
        (a.prio, a.fetched) = (Some(q), false);
        let ssp = if spec::user_mode(p.c.psr) { p.c.saved_sp } else { p.c.r[6] };
        let (s1, s2) = (ssp.wrapping_sub(1), ssp.wrapping_sub(2));
        kani::assume(s1 < 0xFE00 && s2 < 0xFE00);
        let mut s = machine(&p);
        let r = lc3_ensemble::sim::kani_hooks::handle_interrupt(&mut s, a.vect, a.prio);
        assert!(r.is_ok(), "C10: the entry succeeds");
        std::mem::forget(r);
        // the handler: anything but the registers, the stack frame and the user's saved stack pointer
        s.pc = kani::any();
        kani::assume(s.pc < 0xFE00 && s.pc != s1 && s.pc != s2);
        let (hpsr, sp): (u16, _) = (kani::any(), lc3_ensemble::sim::kani_hooks::saved_sp(&s));
        kani::assume(hpsr < 0x8000);
        lc3_ensemble::sim::kani_hooks::set_state(&mut s, hpsr, sp, kani::any());
        let r = s.step_in();
        assert!(r.is_ok(), "C10: the handler returns");
        std::mem::forget(r);
        let c = cpu(&s);
        assert!(regs_equal(&c, &p.c), "C10: registers (with the stack pointer) are those of the interrupted program");
        assert!(c.pc == p.c.pc, "C10: the interrupted program continues at its next instruction");
        assert!(c.psr == p.c.psr, "C10: condition codes, privilege and priority are those of the interrupted program");
        assert!(c.saved_sp == p.c.saved_sp, "C10: the saved stack pointer is that of the interrupted program");
        let mut i = 0;
        while i < NC { unsafe { assert!(i >= LEN || PA[i] == s1 || PA[i] == s2 || CE[i].get() == PV[i], "C10: memory is that of the interrupted program"); } i += 1; }
        kani::cover!(spec::user_mode(p.c.psr), "COVER");
        kani::cover!(!spec::user_mode(p.c.psr), "COVER");
        std::mem::forget(s);
    }
}
