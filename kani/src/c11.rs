//! C11: the trap routines of the built-in OS, by their contracts.
//!
//! `os_image.rs` is the memory image of the assembled OS, which the check extracts from the real code on every run. The
//! routines run on the step specification (which C08 proves to be what the real machine does). A routine that calls another
//! one uses its contract, each loop has an invariant, and its body is executed once from any state with that invariant:
//! - polling loops: everything but R0 and the condition codes is as it was (they may be anything at the head)
//! - the loops over strings: any position of the string, with the caller's registers on the stack
use lc3spec::isa::{Ins, canonical, fields, sext};
use lc3spec::step::*;

include!("os_image.rs");

fn in_os(a: u16) -> bool { a < OS_LEN }
fn word(a: u16) -> u16 { os(a) }

pub struct M {
    /// Stack pointer when the routine is entered, and what is below.
    sp: u16,
    stack: [u16; D],
    /// The string's next character and its address.
    at: u16,
    ch: u16,
    kbd: u16,
    /// What was last transferred through a device register.
    io: u16,
    /// Bytes read, characters written.
    reads: u8,
    out: [u16; 4],
    n: usize,
    /// The status register which has said that its device is ready.
    ready: u16,
    mcr: bool,
    /// String printed by PUTS.
    puts: u16,
    /// Routines called, in order (octal).
    log: u16,
}
const D: usize = 10;
impl M {
    fn new() -> M {
        let m = M { sp: kani::any(), stack: kani::any(), at: kani::any(), ch: kani::any(), kbd: kani::any(), io: kani::any(), reads: 0, out: [0; 4], n: 0, ready: 0, mcr: true, puts: 0, log: 0 };
        // the stack is outside of the OS and I/O
        kani::assume(m.sp >= OS_LEN + D as u16 && m.sp <= 0xFE00);
        // the string is outside of I/O and of the stack in use
        kani::assume(m.at < 0xFE00 && (m.at >= m.sp || m.at < m.sp - D as u16));
        m
    }
    fn emit(&mut self, v: u16) {
        assert!(self.n < 4, "ENV: characters");
        self.out[self.n] = v;
        self.n += 1;
    }
}
impl Env for M {
    fn poll(&mut self) -> Poll { Poll::None }
    fn peek(&mut self, a: u16) -> u16 {
        if in_os(a) { return word(a) }
        if a >= 0xFE00 { return self.io }
        let d = self.sp.wrapping_sub(a);
        if d >= 1 && d <= D as u16 { return self.stack[d as usize - 1] }
        // the string
        assert!(a == self.at, "C11: routines read the next character");
        self.ch
    }
    fn poke(&mut self, a: u16, v: u16) {
        if a >= 0xFE00 { self.io = v; return }
        let d = self.sp.wrapping_sub(a);
        assert!(!in_os(a) && (d <= D as u16 || d > 64), "ENV: the OS writes to its stack");
        assert!(d >= 1 && d <= 64, "C11: routines do not write to the memory of programs");
        kani::assume(d >= 1 && d <= D as u16);
        self.stack[(d - 1) as usize % D] = v;
    }
    fn ireg(&mut self, a: u16) -> Option<IReg> { match a { 0xFFFC => Some(IReg::Psr), 0xFFFE => Some(IReg::Mcr), _ => None } }
    fn mcr(&mut self) -> bool { self.mcr }
    fn set_mcr(&mut self, v: bool) { self.mcr = v; }
    fn dev_read(&mut self, a: u16) -> Option<u16> {
        match a {
            0xFE00 | 0xFE04 => { let r: bool = kani::any(); self.ready = if r { a } else { 0 }; Some(if r { 0x8000 } else { 0 }) },
            0xFE02 => { assert!(self.ready == 0xFE00, "C11: input is read when there is some"); self.reads += 1; Some(self.kbd) },
            _ => None,
        }
    }
    fn dev_write(&mut self, a: u16, v: u16) -> bool {
        if a != 0xFE06 { return false }
        assert!(self.ready == 0xFE04, "C11: output is written when the display is ready");
        self.emit(v);
        true
    }
    fn touch(&mut self, _a: u16, _t: Touch) {}
    fn push(&mut self, _caller: u16, _callee: u16, _k: FrameKind, _c: &Cpu) {}
    fn pop(&mut self) {}
    /// The contracts of the routines.
    fn entry(&mut self, c: &mut Cpu, vect: u16, prio: Option<u8>, fetched: bool) -> Option<Result<(), Exc>> {
        assert!(prio.is_none() && fetched, "C11: routines only call routines");
        self.log = self.log % 0x1000 * 8 + (vect & 7) + 1;
        match vect {
            0x20 => { self.reads += 1; c.r[0] = self.kbd; },
            0x21 => self.emit(c.r[0]),
            0x22 => self.puts = c.r[0],
            0x25 => self.mcr = false,
            _ => { assert!(false, "C11: routines execute"); kani::assume(false) },
        }
        Some(Ok(()))
    }
}
/// An `M` where entering a routine is not replaced.
struct Enter<'a>(&'a mut M);
impl Env for Enter<'_> {
    fn poll(&mut self) -> Poll { self.0.poll() }
    fn peek(&mut self, a: u16) -> u16 { self.0.peek(a) }
    fn poke(&mut self, a: u16, v: u16) { self.0.poke(a, v) }
    fn ireg(&mut self, a: u16) -> Option<IReg> { self.0.ireg(a) }
    fn mcr(&mut self) -> bool { self.0.mcr() }
    fn set_mcr(&mut self, v: bool) { self.0.set_mcr(v) }
    fn dev_read(&mut self, a: u16) -> Option<u16> { self.0.dev_read(a) }
    fn dev_write(&mut self, a: u16, v: u16) -> bool { self.0.dev_write(a, v) }
    fn touch(&mut self, _a: u16, _t: Touch) {}
    fn push(&mut self, _caller: u16, _callee: u16, _k: FrameKind, _c: &Cpu) {}
    fn pop(&mut self) {}
}
const F: Flags = Flags { real_traps: true, ignore_privilege: false };

/// How a piece of a routine ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End { Return, Head(u16), Off }

fn is_head(a: u16) -> bool {
    let mut i = 0;
    while i < HEADS.len() { if HEADS[i] == a { return true } i += 1; }
    false
}
fn instr(a: u16) -> Ins {
    let w = word(a);
    assert!(canonical(w >> 12, w), "C11: routines have instructions");
    fields(w >> 12, w)
}
fn is_skip(from: u16, to: u16) -> bool {
    if to <= from || to > from + 4 { return false }
    let mut a = from;
    while a < to {
        match instr(a) { Ins::Add(..) | Ins::And(..) | Ins::Not(..) => {}, _ => return false }
        a += 1;
    }
    true
}
/// Executes the instruction at a (constant) address and gives the condition codes.
fn one(pc: u16, i: Ins, c: &mut Cpu, m: &mut M, cc: u16) -> u16 {
    c.pc = pc;
    // (the step of an instruction which raises no exception)
    let w = load(c, m, F, pc);
    assert!(w == Ok(word(pc)), "C11: routines execute");
    c.pc = pc + 1;
    let r = c.r;
    let x = exec(c, m, F, i);
    assert!(x.is_ok(), "C11: routines execute");
    kani::assume(x.is_ok());
    // (operands of the constant word; known results as constants)
    let w = word(pc);
    let (op, d, a) = (w >> 12, (w / 512 % 8) as usize, (w / 64 % 8) as usize);
    let k = match op {
        5 if w % 64 == 32 => 0,
        1 if w % 64 > 31 => r[a].wrapping_add(sext(w, 5) as u16),
        1 | 2 | 5 | 6 | 9 | 10 => c.r[d],
        _ => return cc,
    };
    assert!(c.r[d] == k, "ENV: known results");
    let mut j = 0;
    while j < 8 {
        if j != d { assert!(c.r[j] == r[j], "ENV: one register"); c.r[j] = r[j]; }
        j += 1;
    }
    c.r[d] = k;
    let v = k;
    let cc = if v == 0 { 2 } else if v >= 0x8000 { 4 } else { 1 };
    assert!(c.psr % 8 == cc && c.pc == pc + 1, "ENV: condition codes");
    cc
}
/// Executes from a (constant) address to the return or the head of a loop over memory, and says so to `k`.
fn go(mut pc: u16, c: &mut Cpu, m: &mut M, mut cc: u16, mut first: bool, k: fn(&Cpu, &M, End)) {
    // the last polling head and the state there
    let mut head = 0;
    let mut saved = *c;
    loop {
        let i = instr(pc);
        if is_head(pc) {
            match i {
                Ins::Ldr(..) => if !first { return k(c, m, End::Head(pc)) },
                Ins::Ldi(..) => {
                    // any iteration of a polling loop
                    head = pc;
                    c.r[0] = kani::any();
                    cc = match kani::any::<u8>() { 0 => 1, 1 => 2, _ => 4 };
                    c.psr = c.psr / 8 * 8 + cc;
                    c.pc = pc;
                    saved = *c;
                },
                _ => {},
            }
        }
        first = false;
        let next = pc + 1;
        cc = one(pc, i, c, m, cc);
        if matches!(i, Ins::Sti(..) | Ins::Trap(0x25)) && !m.mcr { return k(c, m, End::Off) }
        match i {
            Ins::Rti => return k(c, m, End::Return),
            Ins::Jmp(_) | Ins::Jsr(_) | Ins::Jsrr(_) => { assert!(false, "ENV: jumps"); return },
            Ins::Br(n, off) if n > 0 => {
                let t = next.wrapping_add(off as u16);
                let taken = cc & n as u16 != 0;
                assert!(c.pc == if taken { t } else { next }, "ENV: branches");
                if n == 7 { pc = t; continue }
                if t == head {
                    if taken {
                        // back at the polling head: the invariant holds again
                        let mut d = *c;
                        d.r[0] = saved.r[0];
                        d.psr = d.psr / 8 * 8 + saved.psr % 8;
                        assert!(same(&d, &saved) && m.ready == 0, "ENV: polling changes R0 only");
                        kani::assume(false);
                    }
                    pc = next;
                } else if is_skip(next, t) {
                    let r = c.r;
                    let mut dest = 8;
                    let mut a = next;
                    while a < t {
                        if let Ins::Add(d, ..) | Ins::And(d, ..) | Ins::Not(d, _) = instr(a) { dest = d as usize; }
                        if !taken { cc = one(a, instr(a), c, m, cc); }
                        a += 1;
                    }
                    // (other registers as constants)
                    let mut j = 0;
                    while j < 8 {
                        if j != dest { assert!(c.r[j] == r[j], "ENV: one register"); c.r[j] = r[j]; }
                        j += 1;
                    }
                    pc = t;
                } else {
                    if taken { go(t, c, m, cc, false, k) } else { go(next, c, m, cc, false, k) }
                    return
                }
            },
            _ => { assert!(c.pc == next, "C11: routines execute"); pc = next; },
        }
    }
}
fn same(a: &Cpu, b: &Cpu) -> bool {
    a.r[0] == b.r[0] && a.r[1] == b.r[1] && a.r[2] == b.r[2] && a.r[3] == b.r[3] && a.r[4] == b.r[4] && a.r[5] == b.r[5]
        && a.r[6] == b.r[6] && a.r[7] == b.r[7] && a.pc == b.pc && a.psr == b.psr && a.saved_sp == b.saved_sp
}

static mut C0: Cpu = Cpu { r: [0; 8], pc: 0, psr: 0, saved_sp: 0, count: 0, depth: 0 };
/// Any state of a program which calls a routine from its stack `m.sp` (in user mode: the supervisor stack).
fn caller(m: &M) -> Cpu {
    let mut c = Cpu { r: kani::any(), pc: kani::any(), psr: kani::any(), saved_sp: kani::any(), count: 0, depth: 0 };
    kani::assume(c.psr & 0x78F8 == 0 && matches!(c.psr % 8, 1 | 2 | 4));
    if user_mode(c.psr) { c.saved_sp = m.sp } else { c.r[6] = m.sp }
    unsafe { C0 = c; }
    c
}
/// Enters a routine and executes it up to its return or its loop.
fn call(vect: u16, k: fn(&Cpu, &M, End)) {
    let mut m = M::new();
    let mut c = caller(&m);
    let r = enter(&mut c, &mut Enter(&mut m), F, vect, None, true);
    assert!(r.is_ok() && c.pc == word(vect), "C11: traps enter their routine");
    kani::assume(r.is_ok());
    go(word(vect), &mut c, &mut m, 2, true, k);
}
/// The machine is as it was before the call, except for R0.
fn back(c: &Cpu, r0: u16) {
    let mut w = unsafe { C0 };
    w.r[0] = r0;
    assert!(same(c, &w), "C11: routines return with registers, condition codes and privilege as they were");
}
fn getc_end(c: &Cpu, m: &M, e: End) {
    assert!(m.log == 0, "ENV: no other routines");
    assert!(e == End::Return && m.n == 0 && m.mcr, "C11: GETC reads");
    assert!(m.reads == 1, "C11: GETC reads one byte");
    back(c, m.kbd);
    kani::cover!(user_mode(c.psr), "COVER");
    kani::cover!(!user_mode(c.psr), "COVER");
}
fn putc_end(c: &Cpu, m: &M, e: End) {
    let r0 = unsafe { C0.r[0] };
    assert!(m.log == 0, "ENV: no other routines");
    assert!(e == End::Return && m.reads == 0 && m.mcr, "C11: OUT writes");
    assert!(m.n == 1 && m.out[0] % 256 == r0 % 256, "C11: OUT writes R0");
    back(c, r0);
    kani::cover!(user_mode(c.psr), "COVER");
}
/// The state at the head of the loops over strings: the caller's registers are on the stack (R0 up to R`n - 1`, of which
/// R1 is the position and the others are in use), the others are the caller's.
fn inv(c: &Cpu, m: &M, n: usize) -> bool {
    let o = unsafe { C0 };
    let sp = if user_mode(o.psr) { o.r[6] } else { o.saved_sp };
    let mut ok = c.r[6] == m.sp.wrapping_sub(2 + n as u16) && m.stack[0] == o.psr && m.stack[1] == o.pc && c.r[7] == o.r[7] && c.saved_sp == sp
        && c.psr / 8 == (o.psr & 0x7FFF) / 8 && matches!(c.psr % 8, 1 | 2 | 4) && m.mcr && m.reads == 0;
    let mut i = 0;
    while i < n { ok &= m.stack[2 + i] == o.r[i]; i += 1; }
    while i < 6 { ok &= c.r[i] == o.r[i]; i += 1; }
    ok
}
/// Any state with the invariant.
fn any_inv(n: usize, sp: u16) -> (Cpu, M) {
    let m = M::new();
    kani::assume(m.sp == sp);
    let mut c = Cpu { r: kani::any(), pc: 0, psr: kani::any(), saved_sp: kani::any(), count: 0, depth: 0 };
    kani::assume(inv(&c, &m, n));
    c.r[1] = m.at;
    (c, m)
}
fn text(m: &M) -> u16 { if in_os(m.at) { word(m.at) } else { m.ch } }

fn string_start(c: &Cpu, m: &M, e: End, n: usize, k: fn(&Cpu, &M, End)) {
    assert!(inv(c, m, n), "ENV: the invariant holds at first");
    assert!(m.n == 0 && m.log == 0, "C11: nothing else is printed");
    assert!(c.r[1] == unsafe { C0.r[0] }, "C11: the string at R0 is printed");
    let End::Head(h) = e else { assert!(false, "ENV: a loop over the string"); return };
    let (mut d, mut q) = any_inv(n, m.sp);
    let cc = d.psr % 8;
    go(h, &mut d, &mut q, cc, true, k);
}
fn puts_start(c: &Cpu, m: &M, e: End) { string_start(c, m, e, 2, puts_next) }
fn puts_next(c: &Cpu, m: &M, e: End) {
    let t = text(m);
    match e {
        End::Return => {
            assert!(t == 0 && m.n == 0, "C11: PUTS ends at the first zero, which it does not print");
            back(c, unsafe { C0.r[0] });
        },
        End::Head(_) => {
            assert!(t != 0 && m.n == 1 && m.out[0] % 256 == t % 256, "C11: PUTS prints each character once");
            assert!(inv(c, m, 2), "ENV: the invariant is preserved");
            assert!(c.r[1] == m.at.wrapping_add(1), "C11: PUTS goes on to the next character");
        },
        End::Off => assert!(false, "C11: PUTS returns"),
    }
    kani::cover!(e == End::Return, "COVER");
    kani::cover!(e != End::Return, "COVER");
}
fn putsp_start(c: &Cpu, m: &M, e: End) { string_start(c, m, e, 4, putsp_next) }
fn putsp_next(c: &Cpu, m: &M, e: End) {
    let t = text(m);
    let (lo, hi) = (t % 256, t / 256);
    assert!(m.n <= 2 && (m.n < 1 || m.out[0] % 256 == lo) && (m.n < 2 || m.out[1] % 256 == hi), "C11: PUTSP prints the low and then the high byte");
    match e {
        End::Return => {
            assert!(m.n == if lo == 0 { 0 } else { 1 } && (lo == 0 || hi == 0), "C11: PUTSP ends at the first zero byte, which it does not print");
            back(c, unsafe { C0.r[0] });
        },
        End::Head(_) => {
            assert!(lo != 0 && hi != 0 && m.n == 2, "C11: PUTSP prints both bytes");
            assert!(inv(c, m, 4), "ENV: the invariant is preserved");
            assert!(c.r[1] == m.at.wrapping_add(1), "C11: PUTSP goes on to the next characters");
        },
        End::Off => assert!(false, "C11: PUTSP returns"),
    }
    kani::cover!(e == End::Return && lo == 0, "COVER");
    kani::cover!(e == End::Return && lo != 0, "COVER");
    kani::cover!(e != End::Return, "COVER");
}
/// Whether a string of the OS is ended.
fn ended(a: u16) -> bool {
    let mut i = a;
    while i < OS_LEN && i < a + 60 { if word(i) == 0 { return i > a } i += 1; }
    false
}
fn in_end(c: &Cpu, m: &M, e: End) {
    assert!(e == End::Return && m.mcr && m.log == 0o312 && ended(m.puts), "C11: IN prints its prompt, reads and echoes");
    assert!(m.n == 1 && m.out[0] % 256 == m.kbd % 256, "C11: IN echoes the byte");
    back(c, m.kbd);
    kani::cover!(true, "COVER");
}
fn halt_end(_c: &Cpu, m: &M, e: End) {
    assert!(m.log == 0, "ENV: no other routines");
    assert!(e == End::Off && m.n == 0 && m.reads == 0, "C11: HALT turns the machine off");
    kani::cover!(true, "COVER");
}
fn exc_end(_c: &Cpu, m: &M, e: End) {
    assert!(e == End::Off && m.n == 0 && m.reads == 0 && m.log == 0o36 && ended(m.puts), "C12: exceptions print a message and halt");
    kani::cover!(true, "COVER");
}
macro_rules! routines { ($($name:ident $v:literal $end:ident;)*) => { $(
    #[kani::proof]
    #[kani::unwind(62)]
    fn $name() { call($v, $end) }
)* } }
routines! {
    getc 0x20 getc_end;  putc 0x21 putc_end;  puts 0x22 puts_start;  input 0x23 in_end;  putsp 0x24 putsp_start;  halt 0x25 halt_end;
    privilege 0x100 exc_end;  opcode 0x101 exc_end;  access 0x102 exc_end;
}
