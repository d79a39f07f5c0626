//! C07: the instruction that `try_disassemble_line` gives for a word assembles to that word (before printing and parsing).
use lc3_ensemble::asm::kani_hooks as hooks;
use lc3_ensemble::ast::PCOffset;
use lc3_ensemble::ast::asm::{AsmInstr, Directive, StmtKind, disassemble_line};
use lc3spec::isa::Ins;
use crate::conv::to_ins;

macro_rules! by_op { ($($name:ident $dec:ident $op:literal)*) => { $(
    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(lc3_ensemble::ast::sim::SimInstr::decode, crate::eng::$dec)]
    #[kani::stub(std::collections::HashMap::get, crate::c01::Map::get)]
    #[kani::stub(str::to_uppercase, crate::c01::upper)]
    fn $name() { contract($op) }
)* } }
by_op! { op_br dec_br 0  op_add dec_add 1  op_ld dec_ld 2  op_st dec_st 3  op_jsr dec_jsr 4  op_and dec_and 5  op_ldr dec_ldr 6  op_str dec_str 7
    op_rti dec_rti 8  op_not dec_not 9  op_ldi dec_ldi 10  op_sti dec_sti 11  op_jmp dec_jmp 12  op_lea dec_lea 14  op_trap dec_trap 15  op_jsrr dec_jsrr 16
    bad_word dec_bad 99  illegal dec_illegal 13 }

/// The word decodes (or not) as `op` says, by the contract of `decode` (proved in C06).
fn contract(op: u16) {
    let w: u16 = kani::any();
    // (assumed here too: words below x0200 may not be decoded at all)
    let spec = match crate::eng::instr(op, w) { Some(i) if w >= 0x200 => Some(i), _ => None };
    let sym = std::mem::ManuallyDrop::new(hooks::empty_symbol_table());
    let st = std::mem::ManuallyDrop::new(disassemble_line(w));
    assert!(st.labels.is_empty(), "C07: no labels");
    match (&st.nucleus, spec) {
        (StmtKind::Instr(i), Some(d)) => {
            // (a bitwise copy: the statement is not used or dropped any more)
            let i: AsmInstr = unsafe { std::ptr::read(i) };
            named(&i, d);
            let r = std::mem::ManuallyDrop::new(i.into_sim_instr(kani::any(), &sym));
            assert!(matches!(&*r, Ok(j) if to_ins(*j) == d), "C07: the instruction stands for the word");
        },
        (StmtKind::Directive(Directive::Fill(PCOffset::Offset(o))), None) => assert!(o.get() == w, "C07: the data is the word"),
        (StmtKind::Instr(_), None) => assert!(false, "C07: words below x0200 and non-instructions come back as data"),
        _ => assert!(false, "C07: instructions come back as instructions, other words as data"),
    }
    kani::cover!(true, "COVER");
}
/// Aliases are given by name.
fn named(i: &AsmInstr, d: Ins) {
    let ok = match d {
        Ins::Jmp(7) => matches!(i, AsmInstr::RET),
        Ins::Trap(0x20) => matches!(i, AsmInstr::GETC),
        Ins::Trap(0x21) => matches!(i, AsmInstr::PUTC | AsmInstr::OUT),
        Ins::Trap(0x22) => matches!(i, AsmInstr::PUTS),
        Ins::Trap(0x23) => matches!(i, AsmInstr::IN),
        Ins::Trap(0x24) => matches!(i, AsmInstr::PUTSP),
        Ins::Trap(0x25) => matches!(i, AsmInstr::HALT),
        _ => true,
    };
    assert!(ok, "C07: aliases come back by name");
}
