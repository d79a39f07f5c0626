//! C12: a step which goes through under virtual traps is the step under real traps.
//! With this, real and virtual runs of a program agree up to its HALT or exception. (What the OS does from there on is
//! proved in `c11`: `halt`, `privilege`, `opcode`, `access`; that exceptions and HALT enter their routine, in C08.)
use crate::eng::*;
use lc3spec::step::Out;

fn agree(op: u16) {
    let mut p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 2 });
    p.f.real_traps = false;
    let g = real(&p);
    // a virtual HALT enters nothing
    let halt = op == 15 && unsafe { ENTRIES } == 0;
    if g.res == Res::Is(Out::Ok) && !halt {
        p.f.real_traps = true;
        let (c, out, e) = specified(&p, op);
        assert!(out == Out::Ok, "C12: a step without HALT or exception is one under real traps");
        assert!(!e.mismatch && e.dn == unsafe { DN }, "C12: device accesses (input and output) agree");
        assert!(entry_equal(&e), "C12: traps other than HALT enter the same routine");
        assert!(state_equal(&g.c, &c), "C12: registers, PC and PSR agree");
        assert!(cells_equal(&e), "C12: memory agrees");
    } else {
        // ... and otherwise, nothing is printed or entered
        assert!(matches!(g.res, Res::Is(Out::Ok | Out::Exc(..))), "C12: programs stop with HALT or an exception");
    }
    kani::cover!(op >= BAD || op == ILLEGAL || g.res == Res::Is(Out::Ok) && !halt, "COVER");
    kani::cover!(g.res != Res::Is(Out::Ok) || halt, "COVER");
}
crate::per_op!(agree);
