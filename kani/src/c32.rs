//! C32: memory-mapped I/O: `Simulator::{read_mem, write_mem}` over any mapping, `DeviceHandler` over any port table.
use crate::eng::*;
use lc3_ensemble::sim::device::kani_hooks as hooks;
use lc3_ensemble::sim::device::{DeviceHandler, ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::kani_hooks::word;
use lc3_ensemble::sim::{MemAccessCtx, SimErr};
use lc3spec::step as spec;
use std::sync::atomic::Ordering::Relaxed;

fn ctx() -> MemAccessCtx { MemAccessCtx { privileged: kani::any(), strict: kani::any(), io_effects: kani::any(), track_access: kani::any() } }
fn allowed(c: &MemAccessCtx, a: u16) -> bool { c.privileged || (a >= 0x3000 && a < 0xFE00) }

crate::machine_proof! { fn read() {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let mut s = machine(&p);
    let mcr = s.mcr().load(Relaxed);
    let (a, ctx): (u16, _) = (kani::any(), ctx());
    let r = s.read_mem(a, ctx);
    let (dn, k, da) = unsafe { (DN, DK[0], DA[0]) };
    let i = find(a);
    let (m, ok, dv, v0, v1) = unsafe { (PM[i], DOK[0], DV[0], word(PV[i], PI[i]), CE[i]) };
    let c = cpu(&s);
    assert!(state_equal(&c, &p.c) && s.mcr().load(Relaxed) == mcr, "C32: reads do not change registers");
    assert!(unsafe { LEN } == 1, "C32: reads touch only their address");
    match r {
        Err(e) => {
            assert!(matches!(e, SimErr::AccessViolation) && !allowed(&ctx, a), "C32: only reads without permission fail");
            assert!(dn == 0 && v0 == v1, "C32: failed reads have no effect");
            std::mem::forget(e);
        },
        Ok(w) => {
            assert!(allowed(&ctx, a), "C32: reads without permission fail");
            assert!(w == v1, "C32: the value read is the value of the memory");
            if a < 0xFE00 { assert!(dn == 0 && v0 == v1, "C32: reads of plain memory reach no device"); }
            else if m != 0 {
                let e = match m { 1 => p.c.pc, 2 => p.c.psr, 3 => if mcr { 0x8000 } else { 0 }, _ => p.c.saved_sp };
                assert!(dn == 0, "C32: reads of a mapped register reach no device");
                assert!(w.get() == e && w.is_init(), "C32: reads of a mapped register give its value");
            } else {
                assert!(dn == 1 && da == a && k == if ctx.io_effects { 1 } else { 3 }, "C32: I/O reads reach the device once, with the requested effects");
                if ok { assert!(w.get() == dv && w.is_init(), "C32: the device's answer is read"); }
                else { assert!(v0 == v1, "C32: without an answer, memory is unchanged"); }
            }
        }
    }
    kani::cover!(m == 3, "COVER");
    kani::cover!(dn == 1 && ok, "COVER");
    kani::cover!(dn == 1 && !ok, "COVER");
    std::mem::forget(s);
} }

crate::machine_proof! { fn write() {
    let p = draw(Cfg { strict: Strict::Any, all_init: false, poll: 0 });
    let mut s = machine(&p);
    let mcr = s.mcr().load(Relaxed);
    let (a, ctx): (u16, _) = (kani::any(), ctx());
    let d = word(kani::any(), kani::any());
    let r = s.write_mem(a, d, ctx);
    let (dn, k, da, dd) = unsafe { (DN, DK[0], DA[0], DD[0]) };
    let i = find(a);
    let (m, ok, v0, v1) = unsafe { (PM[i], DOK[0], word(PV[i], PI[i]), CE[i]) };
    let (c, mcr1) = (cpu(&s), s.mcr().load(Relaxed));
    assert!(regs_equal(&c, &p.c), "C32: writes do not change R0-R7");
    assert!(unsafe { LEN } == 1, "C32: writes touch only their address");
    let mut e = p.c;
    let mut emcr = mcr;
    match r {
        Err(x) => {
            assert!(dn == 0 && v0 == v1, "C32: failed writes have no effect");
            assert!(if allowed(&ctx, a) { ctx.strict && !d.is_init() && matches!(x, SimErr::StrictIOSetUninit | SimErr::StrictMemSetUninit) }
                else { matches!(x, SimErr::AccessViolation) }, "C32: writes fail without permission, or for uninitialized data in strict mode");
            std::mem::forget(x);
        },
        Ok(()) => {
            assert!(allowed(&ctx, a), "C32: writes without permission fail");
            if a < 0xFE00 { assert!(dn == 0 && v1 == d, "C32: writes of plain memory"); }
            else if m != 0 {
                match m { 1 => e.pc = d.get(), 2 => e.psr = spec::psr_write(d.get()), 3 => emcr = d.get() >= 0x8000, _ => e.saved_sp = d.get() }
                assert!(dn == 0, "C32: writes to a mapped register reach no device");
                assert!(v1.get() == d.get(), "C32: memory mirrors writes to a mapped register");
            } else {
                assert!(dn == 1 && k == 2 && da == a && dd == d.get(), "C32: I/O writes reach the device once");
                if ok { assert!(v1.get() == d.get(), "C32: memory mirrors accepted writes"); }
                else { assert!(v0 == v1, "C32: rejected writes leave memory unchanged"); }
            }
        }
    }
    assert!(c.pc == e.pc && c.psr == e.psr && c.saved_sp == e.saved_sp && mcr1 == emcr, "C32: exactly the mapped register is written");
    kani::cover!(m == 3 && mcr != mcr1, "COVER");
    kani::cover!(m == 2 && c.psr != p.c.psr, "COVER");
    kani::cover!(dn == 1 && !ok, "COVER");
    std::mem::forget(s);
} }

// --- the device handler ---

const SLOTS: usize = 5;
static mut CALLS: u8 = 0;
static mut LAST: (usize, u8, u16, u16) = (0, 0, 0, 0);
static mut ANS: (bool, u16) = (false, 0);
static mut INT: [Option<(u8, u8)>; SLOTS] = [None; SLOTS];
static mut POLLED: [u8; SLOTS] = [0; SLOTS];

struct Probe(usize);
fn call(x: (usize, u8, u16, u16)) { unsafe { CALLS += 1; LAST = x; } }
impl ExternalDevice for Probe {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        call((self.0, if effectful { 1 } else { 3 }, addr, 0));
        unsafe { if ANS.0 { Some(ANS.1) } else { None } }
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool { call((self.0, 2, addr, data)); unsafe { ANS.0 } }
    fn io_reset(&mut self) { call((self.0, 4, 0, 0)) }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        unsafe { POLLED[self.0] += 1; INT[self.0].map(|(v, p)| Interrupt::vectored(v, p)) }
    }
}
fn table() -> Box<[u16; 512]> {
    // any owner of each port
    let mut t: std::mem::MaybeUninit<[u16; 512]> = std::mem::MaybeUninit::uninit();
    let _ = &mut t;
    Box::new(unsafe { t.assume_init() })
}
fn full(slots: usize) -> DeviceHandler {
    let mut h = hooks::handler(slots, table());
    let mut i = 1;
    while i < slots { if kani::any() { hooks::put(&mut h, i, Probe(i)); } i += 1; }
    h
}

/// An access reaches the owner of the port, and nobody else.
#[kani::proof]
#[kani::unwind(6)]
fn access() {
    let mut h = full(SLOTS);
    let a: u16 = kani::any();
    let owner = hooks::port_owner(&h, a);
    // invariant: owners are devices
    if let Some(o) = owner { kani::assume((o as usize) < SLOTS); }
    assert!(owner.is_some() == (a >= 0xFE00), "C32: exactly the I/O addresses have ports");
    let o = owner.unwrap_or(0) as usize;
    let live = o != 0 && !hooks::is_null(&h, o);
    let ans: (bool, u16) = (kani::any(), kani::any());
    unsafe { ANS = ans; }
    let (eff, d): (bool, u16) = kani::any();
    if kani::any() {
        let r = h.io_read(a, eff);
        assert!(r == if live && ans.0 { Some(ans.1) } else { None }, "C32: the owner's answer is returned");
        assert!(!live || unsafe { LAST } == (o, if eff { 1 } else { 3 }, a, 0), "C32: reads reach the owner of the port");
    } else {
        let r = h.io_write(a, d);
        assert!(r == (live && ans.0), "C32: writes succeed if the owner accepts");
        assert!(!live || unsafe { LAST } == (o, 2, a, d), "C32: writes reach the owner of the port");
    }
    assert!(unsafe { CALLS } == live as u8, "C32: accesses reach nobody but the owner");
    assert!(hooks::port_owner(&h, a) == owner && hooks::device_count(&h) == SLOTS, "C32: accesses do not change owners");
    kani::cover!(live && o == 4, "COVER");
    kani::cover!(a >= 0xFE00 && !live, "COVER");
    std::mem::forget(h);
}

/// Adding a device (with up to three ports).
#[kani::proof]
#[kani::unwind(6)]
fn add() {
    let mut h = full(SLOTS);
    let ports: [u16; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let q: u16 = kani::any();
    let before = hooks::port_owner(&h, q);
    let mut free = true;
    let mut mine = false;
    let mut i = 0;
    while i < 3 {
        if i < n { free &= hooks::port_owner(&h, ports[i]) == Some(0); mine |= ports[i] == q; }
        i += 1;
    }
    let r = h.add_device(Probe(0), &ports[..n]);
    match &r {
        Ok(id) => {
            assert!(free, "C32: devices are added only if their ports are free I/O ports");
            assert!(*id as usize == SLOTS && hooks::device_count(&h) == SLOTS + 1, "C32: device ids are new");
            assert!(hooks::port_owner(&h, q) == if mine { Some(*id) } else { before }, "C32: an added device owns exactly its ports");
        },
        Err(_) => {
            assert!(!free, "C32: devices with free I/O ports can be added");
            assert!(hooks::device_count(&h) == SLOTS && hooks::port_owner(&h, q) == before, "C32: a rejected device changes nothing");
        },
    }
    kani::cover!(r.is_ok() && n == 3, "COVER");
    kani::cover!(r.is_err(), "COVER");
    std::mem::forget(r);
    std::mem::forget(h);
}

/// Removing a device.
#[kani::proof]
#[kani::unwind(514)]
fn remove() {
    let mut h = hooks::handler(SLOTS, table());
    let id: u16 = kani::any();
    let k: usize = kani::any();
    kani::assume(k > 0 && k < SLOTS);
    hooks::put(&mut h, k, Probe(k));
    let q: u16 = kani::any();
    let before = hooks::port_owner(&h, q);
    if let Some(o) = before { kani::assume((o as usize) < SLOTS); }
    h.remove_device(id);
    assert!(hooks::is_null(&h, k) == (id as usize == k), "C32: exactly the removed device is gone");
    assert!(hooks::device_count(&h) == SLOTS, "C32: removing keeps the ids of other devices, and the removed id is not reused");
    let after = if before == Some(id) && id > 2 { Some(0) } else { before };
    assert!(hooks::port_owner(&h, q) == after, "C32: removing a device frees exactly its ports (keyboard and display ports stay reserved)");
    kani::cover!(before == Some(4) && id == 4, "COVER");
    kani::cover!(before == Some(1) && id == 1, "COVER");
    std::mem::forget(h);
}

/// New handlers: only the keyboard and display ports are owned. Replacing keyboard or display keeps owners.
#[kani::proof]
#[kani::unwind(514)]
fn new() {
    let mut h = DeviceHandler::new();
    let q: u16 = kani::any();
    let e = match q { 0xFE00 | 0xFE02 => Some(1), 0xFE04 | 0xFE06 => Some(2), 0xFE00.. => Some(0), _ => None };
    assert!(hooks::port_owner(&h, q) == e && hooks::device_count(&h) == 3, "C32: ports of a new machine");
    let kb: bool = kani::any();
    if kb { h.set_keyboard(Probe(1)) } else { h.set_display(Probe(2)) }
    assert!(hooks::port_owner(&h, q) == e && hooks::device_count(&h) == 3, "C32: replacing a device keeps the ports");
    assert!(!hooks::is_null(&h, if kb { 1 } else { 2 }) && hooks::is_null(&h, if kb { 2 } else { 1 }), "C32: exactly that device is replaced");
    kani::cover!(kb && q == 0xFE02, "COVER");
    std::mem::forget(h);
}
/// Polling asks every device once; the highest priority wins (used by C10).
#[kani::proof]
#[kani::unwind(6)]
fn poll() {
    const N: usize = 4;
    let mut h = full(N);
    let mut best: Option<u8> = None;
    let mut i = 1;
    while i < N {
        let (some, v, p): (bool, u8, u8) = kani::any();
        kani::assume(p < 8);
        if some {
            unsafe { INT[i] = Some((v, p)); }
            if !hooks::is_null(&h, i) && best.is_none_or(|b| p > b) { best = Some(p); }
        }
        i += 1;
    }
    let r = h.poll_interrupt();
    let mut i = 1;
    while i < N { assert!(unsafe { POLLED[i] } == !hooks::is_null(&h, i) as u8, "C10: every device is polled once"); i += 1; }
    let got = r.as_ref().and_then(hooks::interrupt_parts);
    assert!(got.map(|g| g.1) == best, "C10: the pending interrupt of the highest priority wins");
    if let Some((v, p)) = got {
        let mut found = false;
        let mut i = 1;
        while i < N { if !hooks::is_null(&h, i) && unsafe { INT[i] } == Some((v, p)) { found = true; } i += 1; }
        assert!(found, "C10: the interrupt is one of the pending ones");
    }
    kani::cover!(best == Some(7), "COVER");
    kani::cover!(best.is_none(), "COVER");
    std::mem::forget(r);
    std::mem::forget(h);
}
