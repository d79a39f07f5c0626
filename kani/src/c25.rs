//! C25: lines and positions of a text, from its newline positions (any text of at most `L` lines and any length).
use lc3_ensemble::asm::SourceInfo;
use lc3_ensemble::asm::kani_hooks as hooks;
use std::mem::ManuallyDrop;

const L: usize = 8;
/// A text of any length with newlines at any positions, of which only the length is used.
fn text() -> (ManuallyDrop<SourceInfo>, [usize; L], usize, usize) {
    let nl: [usize; L] = kani::any();
    let n: usize = kani::any();
    kani::assume(1 <= n && n <= L);
    let len: usize = kani::any();
    kani::assume(len <= isize::MAX as usize);
    let mut i = 0;
    while i < L {
        if i + 1 < n { kani::assume(nl[i] < len); }
        if i > 0 && i + 1 < n { kani::assume(nl[i - 1] < nl[i]); }
        if i + 1 == n { kani::assume(nl[i] == len); }
        i += 1;
    }
    let mut v: Vec<usize> = Vec::from(nl);
    v.truncate(n);
    let s = unsafe { String::from_raw_parts(std::ptr::dangling_mut(), len, len) };
    (ManuallyDrop::new(hooks::source_info(s, v)), nl, n, len)
}
#[kani::proof]
#[kani::unwind(9)]
fn position() {
    let (s, nl, n, len) = text();
    assert!(s.count_lines() == n, "C25: one line more than newlines");
    let index: usize = kani::any();
    kani::assume(index <= isize::MAX as usize);
    let (l, c) = s.get_pos_pair(index);
    // the line: how many newlines lie before the index
    let (mut line, mut start) = (0, 0);
    let mut i = 0;
    while i < L {
        if i + 1 < n && nl[i] < index { line += 1; start = nl[i] + 1; }
        i += 1;
    }
    assert!(l == line, "C25: the line of a position is the number of newlines before it");
    assert!(c == index - start, "C25: the column of a position counts from the start of its line");
    kani::cover!(l == 3 && c == 2, "COVER");
    kani::cover!(index > len && n > 2, "COVER");
}
