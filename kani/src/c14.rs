//! C14: a strict step is the specified (non-strict) step, or fails with a strict error; never on an initialized machine.
use crate::eng::*;
use lc3spec::step::Out;

fn check(op: u16, all_init: bool) {
    let p = draw(Cfg { strict: Strict::On, all_init, poll: 2 });
    let g = real(&p);
    if g.res == Res::Strict {
        assert!(!all_init, "C14: initialized machines have no strict error");
    } else {
        let (c, out, e) = specified(&p, op);
        assert!(result_matches(g.res, out), "C14: the step ends as without strict mode");
        assert!(!e.mismatch && e.dn == unsafe { DN }, "C14: device effects are those without strict mode");
        assert!(entry_equal(&e), "C14: handlers are entered as without strict mode");
        assert!(state_equal(&g.c, &c), "C14: registers, PC and PSR are those without strict mode");
        assert!(g.c.count == c.count, "C14: the instruction count is that without strict mode");
        assert!(cells_equal(&e), "C14: memory is that without strict mode");
        kani::cover!(if op == BAD || op == ILLEGAL { out != Out::Ok } else { out == Out::Halt || (out == Out::Ok && e.entries == 0) }, "COVER");
    }
    kani::cover!(all_init || g.res == Res::Strict, "COVER");
}
fn contract(op: u16) { check(op, false) }
crate::per_op!(contract);
pub mod init {
    fn contract(op: u16) { super::check(op, true) }
    crate::per_op!(contract);
}

fn entry(all_init: bool) {
    let p = draw(Cfg { strict: Strict::On, all_init, poll: 0 });
    let a = entry_args(&p);
    let g = real_entry(&p, &a);
    if g.res == ERes::Strict {
        assert!(!all_init, "C14: initialized machines have no strict error");
    } else {
        let s = specified_entry(&p, &a);
        assert!(g.res == s.res && g.prefetch == s.prefetch, "C14: handler entry ends as without strict mode");
        assert!(!s.e.mismatch && s.e.dn == unsafe { DN }, "C14: device effects of handler entry");
        assert!(state_equal(&g.c, &s.c) && g.c.count == p.c.count, "C14: state after handler entry");
        assert!(cells_equal(&s.e), "C14: memory after handler entry");
        kani::cover!(g.res == ERes::Ok && p.f.real_traps, "COVER");
        kani::cover!(g.res == ERes::Ok && !p.f.real_traps, "COVER");
    }
    kani::cover!(all_init || g.res == ERes::Strict, "COVER");
}
crate::machine_proof! { fn entry_any() { entry(false) } }
crate::machine_proof! { fn entry_init() { entry(true) } }
