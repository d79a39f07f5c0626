//! C28: what a step reports to the access observer (non-I/O addresses).
use crate::eng::*;
use lc3_ensemble::sim::mem::kani_hooks::init;

fn compare(e: &Replay) {
    let mut i = 0;
    while i < NC {
        unsafe {
            if i < LEN && PA[i] < 0xFE00 {
                assert!(OB[i] & 1 == e.ob[i] & 1, "C28: exactly the addresses read are marked as read");
                assert!(OB[i] & 2 == e.ob[i] & 2, "C28: exactly the addresses written are marked as written");
                // (a write that only changes which bits are initialized may count as a modification)
                if e.ob[i] & 4 != 0 { assert!(OB[i] & 4 != 0, "C28: changed addresses are marked as modified"); }
                if OB[i] & 4 != 0 { assert!(OB[i] & 2 != 0, "C28: only written addresses are marked as modified"); }
                if OB[i] & 4 != 0 && PI[i] == 0xFFFF && init(CE[i]) == 0xFFFF { assert!(e.ob[i] & 4 != 0, "C28: only changed addresses are marked as modified"); }
            }
        }
        i += 1;
    }
}
fn contract(op: u16) {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 2 });
    let _ = real(&p);
    let (_, _, e) = specified(&p, op);
    assert!(unsafe { CLEARS } == 1, "C28: the observer holds the accesses of this step");
    compare(&e);
    kani::cover!(unsafe { LEN } >= if op == 3 || op == 7 || op == 11 { 2 } else { 1 } && e.entries == 0, "COVER");
}
crate::per_op!(contract);

crate::machine_proof! { fn entry() {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
    let a = entry_args(&p);
    let g = real_entry(&p, &a);
    let s = specified_entry(&p, &a);
    compare(&s.e);
    kani::cover!(g.res == ERes::Ok, "COVER");
} }

/// `read_mem`/`write_mem` report exactly when the context says so.
fn access(write: bool) {
    use lc3_ensemble::sim::MemAccessCtx;
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let mut s = machine(&p);
    let a: u16 = kani::any();
    kani::assume(a < 0xFE00);
    let d = lc3_ensemble::sim::mem::kani_hooks::word(kani::any(), kani::any());
    let ctx = MemAccessCtx { privileged: kani::any(), strict: kani::any(), io_effects: kani::any(), track_access: kani::any() };
    let r = if write { s.write_mem(a, d, ctx) } else { s.read_mem(a, ctx).map(|_| ()) };
    let i = find(a);
    let ob = unsafe { OB[i] };
    if !ctx.track_access || r.is_err() { assert!(ob == 0, "C28: untracked and failed accesses are not recorded"); }
    else if !write { assert!(ob == 1, "C28: reads are recorded"); }
    else { assert!(ob & 3 == 2 && (ob & 4 != 0 || unsafe { PV[i] } == d.get()), "C28: writes and modifications are recorded"); }
    kani::cover!(ob != 0, "COVER");
    kani::cover!(r.is_ok() && ob == 0, "COVER");
    std::mem::forget(r);
    std::mem::forget(s);
}
crate::machine_proof! { fn read_access() { access(false) } }
crate::machine_proof! { fn write_access() { access(true) } }

/// Access sets.
#[kani::proof]
fn access_set() {
    use lc3_ensemble::sim::observer::AccessSet;
    let pick = |b: u8| {
        let mut s = AccessSet::default();
        if b & 1 != 0 { s |= AccessSet::READ; }
        if b & 2 != 0 { s |= AccessSet::WRITTEN; }
        if b & 4 != 0 { s = s | AccessSet::MODIFIED; }
        s
    };
    let (a, b): (u8, u8) = kani::any();
    let u = pick(a) | pick(b);
    let c = a | b;
    assert!(u.read() == (c & 1 != 0) && u.written() == (c & 2 != 0) && u.modified() == (c & 4 != 0), "C28: access sets are unions of accesses");
    assert!(u.accessed() == (c & 7 != 0), "C28: accessed means any access");
    kani::cover!(u.modified() && !u.read(), "COVER");
}

/// The observer's map (bounded: two updates, at any addresses).
#[kani::proof]
#[kani::unwind(13)]
fn observer() {
    use lc3_ensemble::sim::observer::{AccessObserver, AccessSet};
    let mut o = std::mem::ManuallyDrop::new(AccessObserver::new());
    let a: [u16; 2] = kani::any();
    let k: [u8; 2] = kani::any();
    let set = |k: u8| match k % 3 { 0 => AccessSet::READ, 1 => AccessSet::WRITTEN, _ => AccessSet::WRITTEN | AccessSet::MODIFIED };
    let mut i = 0;
    while i < 2 { o.update_mem_accesses(a[i], set(k[i])); i += 1; }
    let q: u16 = kani::any();
    let g = o.get_mem_accesses(q);
    let mut w = AccessSet::default();
    let mut i = 0;
    while i < 2 { if a[i] == q { w |= set(k[i]); } i += 1; }
    assert!(g.read() == w.read() && g.written() == w.written() && g.modified() == w.modified(), "C28: the observer has the union of the accesses of each address");
    kani::cover!(g.read() && g.modified(), "COVER");
    kani::cover!(!g.accessed(), "COVER");
}
