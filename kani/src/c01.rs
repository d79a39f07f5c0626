//! C01/C02: how instructions and their label operands become words: `AsmInstr::into_sim_instr`, `replace_pc_offset`.
//!
//! The label map is replaced by its contract: it answers anything for the label (absent, external, at any address).
use lc3_ensemble::asm::kani_hooks::{self as hooks, LabelData};
use lc3_ensemble::asm::{AsmErr, AsmErrKind};
use lc3_ensemble::ast::asm::AsmInstr;
use lc3_ensemble::ast::{ImmOrReg, Label, Offset, OffsetNewErr, PCOffset, Reg};
use lc3spec::isa::{Ins, Src};
use crate::conv::{reg, reg_no, to_ins};
use std::alloc::Allocator;
use std::collections::HashMap;

/// What the label map says about the label.
static mut ENTRY: Option<LabelData> = None;
static mut ADDR: u16 = 0;
static mut EXTERNAL: bool = false;

pub struct Map<K, V, S, A: Allocator>(HashMap<K, V, S, A>);
impl<K, V, S, A: Allocator> Map<K, V, S, A> {
    pub fn get<'a, Q: ?Sized>(_m: &'a HashMap<K, V, S, A>, _k: &Q) -> Option<&'a V> {
        assert!(std::mem::size_of::<V>() == std::mem::size_of::<LabelData>(), "ENV: unexpected map");
        unsafe { (*(&raw const ENTRY)).as_ref().map(|e| &*(e as *const LabelData as *const V)) }
    }
}
pub fn upper(_s: &str) -> String { String::new() }

fn draw() {
    unsafe {
        ADDR = kani::any();
        EXTERNAL = kani::any();
        ENTRY = if kani::any() { Some(hooks::label_data(ADDR, kani::any(), EXTERNAL)) } else { None };
    }
}
fn label() -> Label { let s: usize = kani::any(); kani::assume(s < usize::MAX); Label::new(String::new(), s..s) }

/// The displacement that a label operand stands for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want { Off(i16), Missing, External, TooFar }
fn want(pc: u16, n: u32) -> Want {
    unsafe {
        match &*(&raw const ENTRY) {
            None => Want::Missing,
            Some(_) if EXTERNAL => Want::External,
            Some(_) => {
                // the displacement d of the smallest magnitude with pc + d = addr (mod 2^16)
                let d = (ADDR as i32 - pc as i32 + 0x18000) % 0x10000 - 0x8000;
                if d >= -(1 << (n - 1)) && d < 1 << (n - 1) { Want::Off(d as i16) } else { Want::TooFar }
            }
        }
    }
}
fn check<T>(n: u32, w: Want, r: &Result<T, AsmErr>, off: impl Fn(&T) -> i16) {
    match r {
        Ok(o) => assert!(w == Want::Off(off(o)), "C01: the offset reaches the label's address"),
        Err(e) => match e.kind {
            AsmErrKind::CouldNotFindLabel => assert!(w == Want::Missing, "C02: only undefined labels cannot be found"),
            AsmErrKind::OffsetExternal => assert!(w == Want::External, "C02: only external labels are refused as offsets"),
            AsmErrKind::OffsetNewErr(OffsetNewErr::CannotFitSigned(m)) => assert!(w == Want::TooFar && m == n, "C02: labels in reach are accepted"),
            _ => assert!(false, "C02: the error says what is wrong with the label"),
        },
    }
}
macro_rules! resolve {
    ($name:ident, $n:literal) => {
        #[kani::proof]
        #[kani::stub(std::collections::HashMap::get, Map::get)]
        #[kani::stub(str::to_uppercase, upper)]
        fn $name() {
            draw();
            let pc: u16 = kani::any();
            let sym = hooks::empty_symbol_table();
            let r = hooks::resolve_offset::<$n>(PCOffset::Label(label()), pc, &sym);
            check($n, want(pc, $n), &r, |o| o.get());
            kani::cover!(r.is_ok(), "COVER");
            kani::cover!(matches!(want(pc, $n), Want::TooFar), "COVER");
            let v: i16 = kani::any();
            let o = Offset::<i16, $n>::new_trunc(v);
            let q = hooks::resolve_offset::<$n>(PCOffset::Offset(o), pc, &sym);
            assert!(matches!(&q, Ok(x) if x.get() == o.get()), "C01: numeric offsets are kept");
            std::mem::forget((r, q, sym));
        }
    };
}
resolve!(resolve_9, 9);
resolve!(resolve_11, 11);

fn any_reg() -> Reg { reg(kani::any()) }
fn any_src() -> ImmOrReg<5> { if kani::any() { ImmOrReg::Reg(any_reg()) } else { ImmOrReg::Imm(Offset::new_trunc(kani::any())) } }

/// Instructions without offset operands, and aliases.
#[kani::proof]
#[kani::stub(std::collections::HashMap::get, Map::get)]
#[kani::stub(str::to_uppercase, upper)]
fn plain() {
    let pc: u16 = kani::any();
    let sym = hooks::empty_symbol_table();
    let (a, b) = (any_reg(), any_reg());
    let (x, y) = (reg_no(a), reg_no(b));
    let s = any_src();
    let t = match s { ImmOrReg::Reg(r) => Src::Reg(reg_no(r)), ImmOrReg::Imm(i) => Src::Imm(i.get()) };
    let o6 = Offset::<i16, 6>::new_trunc(kani::any());
    let v = Offset::<u16, 8>::new_trunc(kani::any());
    let k: u8 = kani::any();
    let (i, w) = match k {
        0 => (AsmInstr::ADD(a, b, s), Ins::Add(x, y, t)),
        1 => (AsmInstr::AND(a, b, s), Ins::And(x, y, t)),
        2 => (AsmInstr::JMP(a), Ins::Jmp(x)),
        3 => (AsmInstr::JSRR(a), Ins::Jsrr(x)),
        4 => (AsmInstr::LDR(a, b, o6), Ins::Ldr(x, y, o6.get())),
        5 => (AsmInstr::NOT(a, b), Ins::Not(x, y)),
        6 => (AsmInstr::RET, Ins::Jmp(7)),
        7 => (AsmInstr::RTI, Ins::Rti),
        8 => (AsmInstr::STR(a, b, o6), Ins::Str(x, y, o6.get())),
        9 => (AsmInstr::TRAP(v), Ins::Trap(v.get() as u8)),
        10 => (AsmInstr::GETC, Ins::Trap(0x20)),
        11 => (AsmInstr::OUT, Ins::Trap(0x21)),
        12 => (AsmInstr::PUTC, Ins::Trap(0x21)),
        13 => (AsmInstr::PUTS, Ins::Trap(0x22)),
        14 => (AsmInstr::IN, Ins::Trap(0x23)),
        15 => (AsmInstr::PUTSP, Ins::Trap(0x24)),
        _ => (AsmInstr::HALT, Ins::Trap(0x25)),
    };
    let r = i.into_sim_instr(pc, &sym);
    assert!(matches!(&r, Ok(j) if to_ins(*j) == w), "C01: instructions and aliases stand for their words");
    kani::cover!(k == 3 && r.is_ok(), "COVER");
    std::mem::forget((r, sym));
}

/// Instructions with an offset or a label.
#[kani::proof]
#[kani::stub(std::collections::HashMap::get, Map::get)]
#[kani::stub(str::to_uppercase, upper)]
fn offsets() {
    draw();
    let pc: u16 = kani::any();
    let sym = hooks::empty_symbol_table();
    let a = any_reg();
    let x = reg_no(a);
    let cc: u8 = kani::any();
    kani::assume(cc < 8);
    let k: u8 = kani::any();
    let n = if k == 1 { 11 } else { 9 };
    let (v, lab): (i16, bool) = kani::any();
    let w = if lab { want(pc, n) } else { Want::Off(lc3spec::isa::sext(v as u16, n)) };
    macro_rules! o { () => { if lab { PCOffset::Label(label()) } else { PCOffset::Offset(Offset::new_trunc(v)) } } }
    let i = match k {
        0 => AsmInstr::BR(cc, o!()),
        1 => AsmInstr::JSR(o!()),
        2 => AsmInstr::LD(a, o!()),
        3 => AsmInstr::LDI(a, o!()),
        4 => AsmInstr::LEA(a, o!()),
        5 => AsmInstr::ST(a, o!()),
        6 => AsmInstr::STI(a, o!()),
        _ => AsmInstr::NOP(o!()),
    };
    let r = i.into_sim_instr(pc, &sym);
    check(n, w, &r, |j| match to_ins(*j) {
        Ins::Br(c, o) => { assert!((k == 0 && c == cc) || (k > 6 && c == 0), "C01: BR and NOP"); o },
        Ins::Jsr(o) => { assert!(k == 1, "C01: JSR"); o },
        Ins::Ld(r, o) => { assert!(k == 2 && r == x, "C01: LD"); o },
        Ins::Ldi(r, o) => { assert!(k == 3 && r == x, "C01: LDI"); o },
        Ins::Lea(r, o) => { assert!(k == 4 && r == x, "C01: LEA"); o },
        Ins::St(r, o) => { assert!(k == 5 && r == x, "C01: ST"); o },
        Ins::Sti(r, o) => { assert!(k == 6 && r == x, "C01: STI"); o },
        _ => { assert!(false, "C01: the instruction is kept"); 0 },
    });
    kani::cover!(r.is_ok() && lab && k == 4, "COVER");
    kani::cover!(r.is_err(), "COVER");
    std::mem::forget((r, sym));
}

/// Blocks overlap exactly if they share an address.
#[kani::proof]
fn overlap() {
    let (a, b, c, d): (u16, u16, u16, u16) = kani::any();
    kani::assume(a <= b && c <= d);
    let r = hooks::overlap(a..b, c..d);
    let x: u16 = kani::any();
    // (shared addresses imply an overlap, and an overlap has a witness, the larger start;
    // empty blocks are never passed: they count as overlapping if strictly inside)
    if a <= x && x < b && c <= x && x < d { assert!(r, "C02: blocks sharing an address overlap"); }
    let m = if a > c { a } else { c };
    if r && a < b && c < d { assert!(m < b && m < d, "C02: overlapping blocks share an address"); }
    kani::cover!(r, "COVER");
}
