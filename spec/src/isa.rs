//! Instruction formats.

/// Second operand of ADD/AND.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src { Reg(u8), Imm(i16) }

/// A decoded instruction. Register numbers are 0..=7, offsets are sign-extended field values.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ins {
    Br(u8, i16), Add(u8, u8, Src), And(u8, u8, Src), Not(u8, u8),
    Ld(u8, i16), Ldi(u8, i16), Ldr(u8, u8, i16), Lea(u8, i16),
    St(u8, i16), Sti(u8, i16), Str(u8, u8, i16),
    Jmp(u8), Jsr(i16), Jsrr(u8), Rti, Trap(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecErr { IllegalOpcode, Format }

/// Sign-extends the low `n` bits.
pub fn sext(w: u16, n: u32) -> i16 {
    let m = w & (((1u32 << n) - 1) as u16);
    if m >> (n - 1) & 1 == 1 { (m as i32 - (1i32 << n)) as i16 } else { m as i16 }
}

/// The canonical encodings of LC-3.
pub fn decode(w: u16) -> Result<Ins, DecErr> { decode_op(w / 4096, w) }

/// `decode` of a word whose opcode is known to be `op`.
pub fn decode_op(op: u16, w: u16) -> Result<Ins, DecErr> {
    if op == 13 { return Err(DecErr::IllegalOpcode) }
    if canonical(op, w) { Ok(fields(op, w)) } else { Err(DecErr::Format) }
}
/// Whether the fixed bits of an instruction are as the ISA prescribes.
pub fn canonical(op: u16, w: u16) -> bool {
    let (imm, low6, a) = (w / 32 % 2 == 1, w % 64, w / 512 % 8);
    match op {
        1 | 5 => imm || w / 8 % 4 == 0,
        4 => w / 2048 % 2 == 1 || (a == 0 && low6 == 0),
        8 => w % 4096 == 0,
        9 => low6 == 63,
        12 => a == 0 && low6 == 0,
        13 => false,
        15 => w / 256 % 16 == 0,
        _ => true,
    }
}
/// The instruction of a canonical word.
pub fn fields(op: u16, w: u16) -> Ins {
    let a = (w / 512 % 8) as u8;
    let b = (w / 64 % 8) as u8;
    let c = (w % 8) as u8;
    let s = || if w / 32 % 2 == 1 { Src::Imm(sext(w, 5)) } else { Src::Reg(c) };
    match op {
        0 => Ins::Br(a, sext(w, 9)),
        1 => Ins::Add(a, b, s()),
        2 => Ins::Ld(a, sext(w, 9)),
        3 => Ins::St(a, sext(w, 9)),
        4 => if w / 2048 % 2 == 1 { Ins::Jsr(sext(w, 11)) } else { Ins::Jsrr(b) },
        5 => Ins::And(a, b, s()),
        6 => Ins::Ldr(a, b, sext(w, 6)),
        7 => Ins::Str(a, b, sext(w, 6)),
        8 => Ins::Rti,
        9 => Ins::Not(a, b),
        10 => Ins::Ldi(a, sext(w, 9)),
        11 => Ins::Sti(a, sext(w, 9)),
        12 => Ins::Jmp(b),
        14 => Ins::Lea(a, sext(w, 9)),
        _ => Ins::Trap((w % 256) as u8),
    }
}

fn fld(v: i16, n: u32) -> u16 { (v as u16) & (((1u32 << n) - 1) as u16) }

/// The word of an instruction (fields have to be in range).
pub fn encode(i: Ins) -> u16 {
    let r = |op: u16, a: u8, b: u8| op * 4096 + a as u16 * 512 + b as u16 * 64;
    let s = |s: Src| match s { Src::Reg(c) => c as u16, Src::Imm(v) => 32 + fld(v, 5) };
    match i {
        Ins::Br(cc, o) => r(0, cc, 0) + fld(o, 9),
        Ins::Add(d, a, x) => r(1, d, a) + s(x),
        Ins::Ld(d, o) => r(2, d, 0) + fld(o, 9),
        Ins::St(d, o) => r(3, d, 0) + fld(o, 9),
        Ins::Jsr(o) => 0x4800 + fld(o, 11),
        Ins::Jsrr(b) => r(4, 0, b),
        Ins::And(d, a, x) => r(5, d, a) + s(x),
        Ins::Ldr(d, b, o) => r(6, d, b) + fld(o, 6),
        Ins::Str(d, b, o) => r(7, d, b) + fld(o, 6),
        Ins::Rti => 0x8000,
        Ins::Not(d, a) => r(9, d, a) + 63,
        Ins::Ldi(d, o) => r(10, d, 0) + fld(o, 9),
        Ins::Sti(d, o) => r(11, d, 0) + fld(o, 9),
        Ins::Jmp(b) => r(12, 0, b),
        Ins::Lea(d, o) => r(14, d, 0) + fld(o, 9),
        Ins::Trap(v) => 0xF000 + v as u16,
    }
}
