//! C09: steps in user mode with privilege checks on.
use crate::eng::*;
use lc3spec::step::{Exc, Out, Poll};

fn user(a: u16) -> bool { a >= 0x3000 && a < 0xFE00 }

fn contract(op: u16) {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 1 });
    kani::assume(p.c.psr >= 0x8000 && !p.f.ignore_privilege);
    let g = real(&p);
    // (read before the specification adds cells)
    let (len, entries, arg, dn) = unsafe { (LEN, ENTRIES, EARG, DN) };
    let mut i = 0;
    while i < NC {
        unsafe { if i < len && !user(PA[i]) { assert!(CE[i] == lc3_ensemble::sim::mem::kani_hooks::word(PV[i], PI[i]), "C09: memory outside user space is unchanged"); } }
        i += 1;
    }
    assert!(dn == 0, "C09: no device is accessed");
    if entries == 0 {
        assert!(g.c.psr >= 0x8000, "C09: the machine stays in user mode");
        assert!(g.c.psr & 0x0700 == p.c.psr & 0x0700, "C09: the priority is unchanged");
        assert!(g.c.saved_sp == p.c.saved_sp, "C09: the saved stack pointer is unchanged");
    } else {
        let pre = unsafe { EPRE };
        assert!(pre.psr >= 0x8000 && pre.psr & 0x0700 == p.c.psr & 0x0700 && pre.saved_sp == p.c.saved_sp, "C09: handlers are entered from user mode");
    }
    let (_, out, e) = specified(&p, op);
    // a violation, according to the ISA
    let x = match out {
        Out::Exc(x @ (Exc::Access | Exc::Privilege), _) => Some(x),
        _ if e.entries > 0 && e.earg == (0x102, None) => Some(Exc::Access),
        _ if e.entries > 0 && e.earg == (0x100, None) => Some(Exc::Privilege),
        _ => None,
    };
    if let Some(x) = x {
        // (in strict mode, an uninitialized value may be reported first)
        if g.res != Res::Strict {
            if p.f.real_traps { assert!(entries == 1 && arg == (if x == Exc::Access { 0x102 } else { 0x100 }, None), "C09: violations are vectored to the OS"); }
            else { assert!(g.res == Res::Is(out), "C09: violations are reported"); }
        }
    }
    kani::cover!(x.is_some() && p.f.real_traps, "COVER");
    kani::cover!(x.is_some() && !p.f.real_traps, "COVER");
    kani::cover!(op == 8 || op == BAD || op == ILLEGAL || (x.is_none() && entries == 0), "COVER");
}
crate::per_op!(contract);

fn vectored(real_traps: bool) {
    let mut p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
    kani::assume(p.c.psr >= 0x8000 && !p.f.ignore_privilege);
    p.f.real_traps = real_traps;
    let mut a = entry_args(&p);
    a.prio = None;
    kani::assume(a.vect == 0x100 || a.vect == 0x102);
    // (a stack inside I/O is the operating system's choice)
    let sp = p.c.saved_sp;
    kani::assume(sp.wrapping_sub(1) < 0xFE00 && sp.wrapping_sub(2) < 0xFE00);
    let g = real_entry(&p, &a);
    let target = { let i = find(a.vect); unsafe { CE[i].get() } };
    let mut i = 0;
    while i < NC {
        unsafe {
            if i < LEN && !(real_traps && (PA[i] == sp.wrapping_sub(1) || PA[i] == sp.wrapping_sub(2))) {
                assert!(CE[i].get() == PV[i], "C09: vectoring changes nothing but the supervisor stack");
            }
        }
        i += 1;
    }
    assert!(unsafe { DN } == 0, "C09: vectoring accesses no device");
    if real_traps { assert!(g.res == ERes::Ok && g.c.pc == target && g.c.psr < 0x8000, "C09: the OS handler runs"); }
    else { assert!(g.res == ERes::Exc(if a.vect == 0x100 { Exc::Privilege } else { Exc::Access }) && g.c.psr == p.c.psr, "C09: the violation is reported"); }
    kani::cover!(a.vect == 0x102, "COVER");
}
crate::machine_proof! { fn vectored_real() { vectored(true) } }
crate::machine_proof! { fn vectored_virtual() { vectored(false) } }

/// `Simulator::{read_mem, write_mem}` without privilege.
fn access(write: bool) {
    use lc3_ensemble::sim::MemAccessCtx;
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let mut s = machine(&p);
    let a: u16 = kani::any();
    let d = lc3_ensemble::sim::mem::kani_hooks::word(kani::any(), kani::any());
    let ctx = MemAccessCtx { privileged: false, strict: kani::any(), io_effects: kani::any(), track_access: kani::any() };
    let r = if write { s.write_mem(a, d, ctx) } else { s.read_mem(a, ctx).map(|_| ()) };
    if !user(a) {
        assert!(matches!(r, Err(lc3_ensemble::sim::SimErr::AccessViolation)), "C09: unprivileged accesses outside user space are violations");
        assert!(unsafe { DN } == 0 && state_equal(&cpu(&s), &p.c), "C09: rejected accesses have no effect");
        let i = find(a);
        assert!(unsafe { CE[i].get() == PV[i] }, "C09: rejected accesses leave memory unchanged");
    } else {
        assert!(!matches!(r, Err(lc3_ensemble::sim::SimErr::AccessViolation)), "C09: user space is accessible");
    }
    kani::cover!(r.is_ok(), "COVER");
    kani::cover!(a == 0xFFFE, "COVER");
    std::mem::forget(r);
    std::mem::forget(s);
}
crate::machine_proof! { fn read_access() { access(false) } }
crate::machine_proof! { fn write_access() { access(true) } }
