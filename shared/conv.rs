//! Conversion between the instructions of the crate and those of the specification.
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{IOffset, ImmOrReg, Offset, Reg};
use lc3spec::isa::{Ins, Src};

pub fn reg(n: u8) -> Reg {
    match n % 8 {
        0 => Reg::R0, 1 => Reg::R1, 2 => Reg::R2, 3 => Reg::R3,
        4 => Reg::R4, 5 => Reg::R5, 6 => Reg::R6, _ => Reg::R7,
    }
}
pub fn reg_no(r: Reg) -> u8 {
    match r {
        Reg::R0 => 0, Reg::R1 => 1, Reg::R2 => 2, Reg::R3 => 3,
        Reg::R4 => 4, Reg::R5 => 5, Reg::R6 => 6, Reg::R7 => 7,
    }
}
pub fn to_ins(i: SimInstr) -> Ins {
    let r = reg_no;
    let s = |x: ImmOrReg<5>| match x { ImmOrReg::Imm(i) => Src::Imm(i.get()), ImmOrReg::Reg(c) => Src::Reg(r(c)) };
    match i {
        SimInstr::BR(cc, o) => Ins::Br(cc, o.get()),
        SimInstr::ADD(a, b, c) => Ins::Add(r(a), r(b), s(c)),
        SimInstr::AND(a, b, c) => Ins::And(r(a), r(b), s(c)),
        SimInstr::NOT(a, b) => Ins::Not(r(a), r(b)),
        SimInstr::LD(a, o) => Ins::Ld(r(a), o.get()),
        SimInstr::LDI(a, o) => Ins::Ldi(r(a), o.get()),
        SimInstr::LDR(a, b, o) => Ins::Ldr(r(a), r(b), o.get()),
        SimInstr::LEA(a, o) => Ins::Lea(r(a), o.get()),
        SimInstr::ST(a, o) => Ins::St(r(a), o.get()),
        SimInstr::STI(a, o) => Ins::Sti(r(a), o.get()),
        SimInstr::STR(a, b, o) => Ins::Str(r(a), r(b), o.get()),
        SimInstr::JMP(b) => Ins::Jmp(r(b)),
        SimInstr::JSR(ImmOrReg::Imm(o)) => Ins::Jsr(o.get()),
        SimInstr::JSR(ImmOrReg::Reg(b)) => Ins::Jsrr(r(b)),
        SimInstr::RTI => Ins::Rti,
        SimInstr::TRAP(v) => Ins::Trap(v.get() as u8),
    }
}
/// `i`'s fields have to be in range (out-of-range fields are truncated).
pub fn from_ins(i: Ins) -> SimInstr {
    fn o<const N: u32>(v: i16) -> IOffset<N> { IOffset::new_trunc(v) }
    let s = |x: Src| match x { Src::Imm(v) => ImmOrReg::Imm(o(v)), Src::Reg(c) => ImmOrReg::Reg(reg(c)) };
    match i {
        Ins::Br(cc, v) => SimInstr::BR(cc, o(v)),
        Ins::Add(a, b, c) => SimInstr::ADD(reg(a), reg(b), s(c)),
        Ins::And(a, b, c) => SimInstr::AND(reg(a), reg(b), s(c)),
        Ins::Not(a, b) => SimInstr::NOT(reg(a), reg(b)),
        Ins::Ld(a, v) => SimInstr::LD(reg(a), o(v)),
        Ins::Ldi(a, v) => SimInstr::LDI(reg(a), o(v)),
        Ins::Ldr(a, b, v) => SimInstr::LDR(reg(a), reg(b), o(v)),
        Ins::Lea(a, v) => SimInstr::LEA(reg(a), o(v)),
        Ins::St(a, v) => SimInstr::ST(reg(a), o(v)),
        Ins::Sti(a, v) => SimInstr::STI(reg(a), o(v)),
        Ins::Str(a, b, v) => SimInstr::STR(reg(a), reg(b), o(v)),
        Ins::Jmp(b) => SimInstr::JMP(reg(b)),
        Ins::Jsr(v) => SimInstr::JSR(ImmOrReg::Imm(o(v))),
        Ins::Jsrr(b) => SimInstr::JSR(ImmOrReg::Reg(reg(b))),
        Ins::Rti => SimInstr::RTI,
        Ins::Trap(v) => SimInstr::TRAP(Offset::new_trunc(v as u16)),
    }
}
