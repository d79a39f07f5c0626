//! C26: lists of spans: every list can be queried and starts with its first span (bounded: at most 4 spans).
use lc3_ensemble::err::ErrSpan;
use std::mem::forget;
use std::ops::Range;

type S = Range<usize>;
fn span() -> S { kani::any::<usize>()..kani::any() }
/// The spans of `e` are the first `n` of `w` (or something else, if there are none).
fn check(e: &ErrSpan, w: &[S; 4], n: usize) {
    let mut it = e.iter();
    let mut i = 0;
    while i < n {
        let s = it.next();
        assert!(s.is_some_and(|s| s.start == w[i].start && s.end == w[i].end), "C26: lists of spans keep their spans in order");
        i += 1;
    }
    let f = e.first();
    if n == 0 {
        assert!(e.iter().next().is_some(), "C26: there is a first span");
    } else {
        assert!(it.next().is_none(), "C26: lists of spans have no other spans");
        assert!(f.start == w[0].start && f.end == w[0].end, "C26: the first span");
    }
}
fn from_vec(n: usize) {
    let w = [span(), span(), span(), span()];
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < n { v.push(w[i].clone()); i += 1; }
    let e = ErrSpan::from(&v[..]);
    check(&e, &w, n);
    forget(e);
    let e = ErrSpan::from(v);
    check(&e, &w, n);
    kani::cover!(true, "COVER");
    forget(e);
}
/// `k` spans and `n - k` more.
fn extend(k: usize, n: usize) {
    let w = [span(), span(), span(), span()];
    let mut e = ErrSpan::from(&w[..k]);
    e.extend(w[k..n].iter().cloned());
    check(&e, &w, n);
    kani::cover!(true, "COVER");
    forget(e);
}
macro_rules! proofs { ($($name:ident $body:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() { $body }
)* } }
proofs! {
    vec_0 from_vec(0); vec_1 from_vec(1); vec_2 from_vec(2); vec_3 from_vec(3); vec_4 from_vec(4);
    extend_1_3 extend(1, 3); extend_2_4 extend(2, 4); extend_3_4 extend(3, 4); extend_1_1 extend(1, 1);
}
