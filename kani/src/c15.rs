//! C15: contracts of the word operations over all values, masks and fillings.
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::mem::kani_hooks::{init, word};

fn any_word() -> (Word, u16) {
    let (d, i, x): (u16, u16, u16) = kani::any();
    // another choice of the uninitialized bits
    (word(d, i), (d & i) | (x & !i))
}
fn check(r: Word, expect: u16, other: u16, full: bool) {
    assert!(r.get() == expect, "C15: the result has the wrapping 16-bit value");
    assert!((expect ^ other) & init(r) == 0, "C15: initialized bits do not depend on uninitialized ones");
    if full { assert!(r.is_init(), "C15: initialized operands give an initialized result"); }
}

#[kani::proof]
fn add() {
    let ((a, oa), (b, ob)) = (any_word(), any_word());
    let (e, o, full) = (a.get().wrapping_add(b.get()), oa.wrapping_add(ob), a.is_init() && b.is_init());
    check(a + b, e, o, full);
    let mut c = a;
    c += b;
    check(c, e, o, full);
    kani::cover!(a.is_init() && b.get() == 3, "COVER");
}
#[kani::proof]
fn add_value() {
    let ((a, oa), n) = (any_word(), kani::any::<u16>());
    let mut c = a;
    c += n;
    check(c, a.get().wrapping_add(n), oa.wrapping_add(n), a.is_init());
    let mut c = a;
    c += n as i16;
    check(c, a.get().wrapping_add(n), oa.wrapping_add(n), a.is_init());
    kani::cover!(n > 0x8000, "COVER");
}
#[kani::proof]
fn sub() {
    let ((a, oa), (b, ob)) = (any_word(), any_word());
    let (e, o, full) = (a.get().wrapping_sub(b.get()), oa.wrapping_sub(ob), a.is_init() && b.is_init());
    check(a - b, e, o, full);
    let mut c = a;
    c -= b;
    check(c, e, o, full);
    kani::cover!(a.is_init() && b.get() == 3, "COVER");
}
#[kani::proof]
fn sub_value() {
    let ((a, oa), n) = (any_word(), kani::any::<u16>());
    let mut c = a;
    c -= n;
    check(c, a.get().wrapping_sub(n), oa.wrapping_sub(n), a.is_init());
    let mut c = a;
    c -= n as i16;
    check(c, a.get().wrapping_sub(n), oa.wrapping_sub(n), a.is_init());
    kani::cover!(n > 0x8000, "COVER");
}
#[kani::proof]
fn and() {
    let ((a, oa), (b, ob)) = (any_word(), any_word());
    let (e, o, full) = (a.get() & b.get(), oa & ob, a.is_init() && b.is_init());
    check(a & b, e, o, full);
    let mut c = a;
    c &= b;
    check(c, e, o, full);
    kani::cover!(!a.is_init() && b.get() == 3, "COVER");
}
#[kani::proof]
fn not() {
    let (a, oa) = any_word();
    check(!a, !a.get(), !oa, a.is_init());
    kani::cover!(!a.is_init(), "COVER");
}
/// Accessors used by the operations' callers.
#[kani::proof]
fn accessors() {
    let (d, i, v): (u16, u16, u16) = kani::any();
    let a = word(d, i);
    assert!(a.is_init() == (i == 0xFFFF), "C15: is_init holds exactly when all bits are initialized");
    assert!(a.get() == d, "C15: get returns the data");
    let strict: bool = kani::any();
    assert!(a.get_if_init(strict, ()) == if strict && i != 0xFFFF { Err(()) } else { Ok(d) }, "C15: get_if_init fails exactly for uninitialized words in strict mode");
    let (b, old) = (word(v, kani::any()), a);
    let mut c = a;
    let r = c.set_if_init(b, strict, ());
    if strict && init(b) != 0xFFFF { assert!(r.is_err() && c == old, "C15: set_if_init rejects uninitialized words in strict mode"); }
    else { assert!(r.is_ok() && c == b, "C15: set_if_init copies the word"); }
    let mut c = a;
    c.set(v);
    assert!(c == word(v, 0xFFFF), "C15: set initializes");
    let mut c = a;
    c.clear_init();
    assert!(init(c) == 0 && c.get() == d, "C15: clear_init keeps the data");
    assert!(Word::new_init(v) == word(v, 0xFFFF) && Word::from(v) == word(v, 0xFFFF) && Word::from(v as i16) == word(v, 0xFFFF), "C15: new words are initialized");
    let mut filler = v;
    let u = Word::new_uninit(&mut filler);
    assert!(u == word(v, 0), "C15: new_uninit is uninitialized");
    kani::cover!(strict && i != 0xFFFF, "COVER");
}
