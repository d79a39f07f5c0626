//! C16: steps never panic (any state, flags, strictness, pending interrupt), nor does asking for the faulting address.
use crate::eng::*;

fn total(_op: u16) {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 2 });
    // (`real` also queries `prefetch_pc`)
    let g = real(&p);
    kani::cover!(g.res != Res::Strict && p.strict, "COVER");
    kani::cover!(g.res == Res::Strict || p.f.real_traps, "COVER");
}
crate::per_op!(total);
crate::step_proof! { decode = dec_lea, poll = st_poll_ext, fn external() {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 3 });
    real(&p);
    kani::cover!(true, "COVER");
} }
crate::machine_proof! { fn entry_total() {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let a = entry_args(&p);
    let g = real_entry(&p, &a);
    assert!(g.res != ERes::Other, "C16: failures of handler entry are reported as such");
    kani::cover!(g.res == ERes::Ok, "COVER");
} }
