//! C33: the keyboard and the display over their shared buffers, whoever holds the lock (bounded: at most 3 queued bytes).
//! Each access either finds the lock free and transfers one byte, or leaves the buffer alone and says so: "not ready".
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice};
use std::collections::VecDeque;
use std::mem::forget;
use std::sync::{Arc, RwLock};

const KBSR: u16 = 0xFE00;
const KBDR: u16 = 0xFE02;
const DSR: u16 = 0xFE04;
const DDR: u16 = 0xFE06;

fn keyboard(at: u16, kind: u8) {
    let b: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut q = VecDeque::with_capacity(4);
    // (a queue that goes around the end of its allocation)
    q.push_back(0); q.push_back(0); q.pop_front(); q.pop_front();
    let mut i = 0;
    while i < n { q.push_back(b[i]); i += 1; }
    let buf = Arc::new(RwLock::new(q));
    let mut d = BufferedKeyboard::new(Arc::clone(&buf));
    let ie: bool = kani::any();
    assert!(d.io_write(KBSR, if ie { 0x4000 } else { 0 }), "C33: the keyboard status can be written");
    let held: u8 = kani::any();
    kani::assume(held < 3);
    // another holder of the buffer
    let w = if held == 2 { buf.try_write().ok() } else { None };
    let r = if held == 1 { buf.try_read().ok() } else { None };
    let free = held == 0;
    let mut taken = 0;
    match kind {
        0 => {
            let v = d.io_read(at, true);
            if at == KBSR {
                assert!(v == Some(if free && n > 0 { 0x8000 } else { 0 } + if ie { 0x4000 } else { 0 }), "C33: the keyboard is ready when it has input");
            } else if at == KBDR {
                let want = if free && n > 0 { Some(b[0] as u16) } else { None };
                assert!(v == want, "C33: the next byte is read");
                if want.is_some() { taken = 1; }
            } else {
                assert!(v.is_none(), "C33: the keyboard has two registers");
            }
        },
        1 => {
            let v = d.io_read(at, false);
            if at == KBDR && held != 1 { assert!(v == if free && n > 0 { Some(b[0] as u16) } else { None }, "C33: the next byte is seen"); }
        },
        2 => {
            let x: u16 = kani::any();
            assert!(d.io_write(at, x) == (at == KBSR), "C33: only the keyboard status can be written");
        },
        _ => {
            let i = d.poll_interrupt();
            assert!(i.is_some() == (free && n > 0 && ie), "C33: the keyboard interrupts when it has input");
            if let Some(i) = &i { assert!(i.priority() == Some(4), "C33: priority of the keyboard"); }
            forget(i);
        },
    }
    drop(w);
    drop(r);
    let q = buf.try_read().unwrap();
    assert!(q.len() == n - taken, "C33: input is taken by reading it, once");
    let mut i = 0;
    while i < n - taken { assert!(q[i] == b[i + taken], "C33: input stays in order"); i += 1; }
    kani::cover!(held != 0 && n > 0, "COVER");
    kani::cover!(held == 0 && n > 1, "COVER");
    forget(q);
    forget(d);
}
macro_rules! keyboards { ($($name:ident $at:expr, $kind:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() { keyboard($at, $kind) }
)* } }
keyboards! {
    kbsr KBSR, 0;  kbdr KBDR, 0;  kbdr_view KBDR, 1;  kbd_other { let a = kani::any(); kani::assume(a != KBSR && a != KBDR); a }, 0;
    kbd_write kani::any(), 2;  kbd_poll KBSR, 3;
}

fn display(write: bool) {
    let b: [u8; 2] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let mut q = Vec::with_capacity(4);
    let mut i = 0;
    while i < n { q.push(b[i]); i += 1; }
    let buf = Arc::new(RwLock::new(q));
    let mut d = BufferedDisplay::new(Arc::clone(&buf));
    let held: u8 = kani::any();
    kani::assume(held < 3);
    let w = if held == 2 { buf.try_write().ok() } else { None };
    let r = if held == 1 { buf.try_read().ok() } else { None };
    let free = held == 0;
    let (at, x): (u16, u16) = kani::any();
    let mut more = 0;
    if write {
        let ok = d.io_write(at, x);
        assert!(ok == (free && at == DDR), "C33: output is accepted at the data register");
        if ok { more = 1; }
    } else {
        let v = d.io_read(at, kani::any());
        assert!(v == if at == DSR { Some(if free { 0x8000 } else { 0 }) } else { None }, "C33: the display is ready when its buffer is free");
        let i = d.poll_interrupt();
        assert!(i.is_none(), "C33: the display does not interrupt");
        forget(i);
    }
    drop(w);
    drop(r);
    let q = buf.try_read().unwrap();
    assert!(q.len() == n + more, "C33: accepted output is in the buffer once");
    let mut i = 0;
    while i < n { assert!(q[i] == b[i], "C33: output stays in order"); i += 1; }
    if more == 1 { assert!(q[n] == x as u8, "C33: the low byte is output"); }
    kani::cover!(held == 2, "COVER");
    kani::cover!(held == 0 && (more == 1 || !write) && n == 2, "COVER");
    forget(q);
    forget(d);
}
#[kani::proof]
#[kani::unwind(6)]
fn dsr() { display(false) }
#[kani::proof]
#[kani::unwind(6)]
fn ddr() { display(true) }
