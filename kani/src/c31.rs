//! C31: with a known initialization value, every register and word starts with it, uninitialized.
//! `known`: any value; registers complete; memory bounded (4 words by the generator that creates the memory).
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::mem::{RegFile, WordFiller};

#[kani::proof]
#[kani::unwind(10)]
fn known() {
    let mut value: u16 = kani::any();
    let old = value;
    let r = RegFile::new(&mut value);
    let i: u8 = kani::any();
    kani::assume(i < 8);
    let w = r[Reg::try_from(i).unwrap()];
    assert!(w.get() == old && !w.is_init(), "C31: a register starts with the known value, uninitialized");
    let m = value.generate_boxed_array::<4>();
    let w = m[(i % 4) as usize];
    assert!(w.get() == old && !w.is_init() && value == old, "C31: a word starts with the known value, uninitialized");
    kani::cover!(i == 7, "COVER");
    std::mem::forget(m);
}
