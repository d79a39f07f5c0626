//! C06: contracts of `SimInstr::{decode, encode}` for all words and instructions.
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::sim::SimErr;
use lc3spec::isa::{self, DecErr, Ins, Src};
use crate::conv::{from_ins, to_ins};

/// Any instruction with in-range fields.
pub fn any_ins() -> Ins {
    fn off(n: u32) -> i16 { isa::sext(kani::any(), n) }
    fn r() -> u8 { let r: u8 = kani::any(); kani::assume(r < 8); r }
    fn s() -> Src { if kani::any() { Src::Reg(r()) } else { Src::Imm(off(5)) } }
    match kani::any::<u8>() % 16 {
        0 => Ins::Br(r(), off(9)),
        1 => Ins::Add(r(), r(), s()),
        2 => Ins::And(r(), r(), s()),
        3 => Ins::Not(r(), r()),
        4 => Ins::Ld(r(), off(9)),
        5 => Ins::Ldi(r(), off(9)),
        6 => Ins::Ldr(r(), r(), off(6)),
        7 => Ins::Lea(r(), off(9)),
        8 => Ins::St(r(), off(9)),
        9 => Ins::Sti(r(), off(9)),
        10 => Ins::Str(r(), r(), off(6)),
        11 => Ins::Jmp(r()),
        12 => Ins::Jsr(off(11)),
        13 => Ins::Jsrr(r()),
        14 => Ins::Rti,
        _ => Ins::Trap(kani::any()),
    }
}

#[kani::proof]
#[kani::unwind(20)]
fn decode_contract() {
    let w: u16 = kani::any();
    match (SimInstr::decode(w), isa::decode(w)) {
        (Ok(i), Ok(s)) => {
            assert!(to_ins(i) == s, "C06: decode returns the encoded instruction");
            assert!(i.encode() == w, "C06: re-encoding gives back the word");
        },
        (Err(SimErr::IllegalOpcode), Err(e)) => assert!(e == DecErr::IllegalOpcode, "C06: only the reserved opcode is an illegal opcode"),
        (Err(SimErr::InvalidInstrFormat), Err(e)) => assert!(e == DecErr::Format, "C06: non-canonical words have an invalid format"),
        (Ok(_), Err(_)) => assert!(false, "C06: decode accepts only canonical encodings"),
        (Err(_), Ok(_)) => assert!(false, "C06: decode accepts all canonical encodings"),
        (Err(_), Err(_)) => assert!(false, "C06: decode reports illegal opcode or invalid format"),
    }
    kani::cover!(SimInstr::decode(w).is_ok(), "COVER");
}

#[kani::proof]
#[kani::unwind(20)]
fn encode_contract() {
    let s = any_ins();
    let i = from_ins(s);
    let w = i.encode();
    assert!(w == isa::encode(s), "C06: encode gives the LC-3 encoding");
    match SimInstr::decode(w) {
        Ok(j) => assert!(i == j, "C06: decoding gives back the instruction"),
        Err(_) => assert!(false, "C06: encodings decode"),
    }
    kani::cover!(w == 0xD000 || w == 0x1021, "COVER");
}
