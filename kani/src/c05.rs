//! C05: numeric and register tokens denote their written value, and operands accept exactly the values that fit.
//! `operand_*`: complete (every token value). `dec`, `signed_dec`, `hex`, `signed_hex`, `reg`: bounded (ASCII tokens of at most 16 characters).
use lc3_ensemble::ast::{Offset, Reg};
use lc3_ensemble::parse::lex::{Ident, Token, kani_hooks as lex};
use lc3_ensemble::parse::simple::{IntLiteral, TokenParse};
use crate::conv::reg_no;
use std::mem::forget;

/// Text of errors.
pub fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }

fn token(kind: u8, v: u16) -> Option<Token> {
    match kind {
        0 => Some(Token::Unsigned(v)),
        1 => Some(Token::Signed(v as i16)),
        2 => Some(Token::Reg((v % 8) as u8)),
        3 => Some(Token::Comma),
        4 => Some(Token::Ident(Ident::ADD)),
        5 => Some(Token::NewLine),
        _ => None,
    }
}
/// The value of an operand.
fn parsed<T: TokenParse>(t: &Option<Token>, value: fn(&T) -> i32) -> Option<i32> {
    let m = T::match_(t.as_ref(), 3..5);
    let m = match m { Ok(m) => m, Err(e) => { forget(e); return None } };
    let r = T::convert(m, 3..5);
    let v = match &r { Ok(o) => Some(value(o)), Err(_) => None };
    forget(r);
    v
}
/// `lo..hi`: the values which fit.
fn operand<T: TokenParse>(value: fn(&T) -> i32, lo: i32, hi: i32) {
    let (kind, v): (u8, u16) = kani::any();
    let t = token(kind, v);
    let g = parsed::<T>(&t, value);
    let n = match kind { 0 => Some(v as i32), 1 => Some(v as i16 as i32), _ => None };
    assert!(g == n.filter(|n| *n >= lo && *n < hi), "C05: an operand is accepted when it fits, with its value");
    kani::cover!(g.is_some() && kind == 0, "COVER");
    kani::cover!(g.is_some() && kind == 1, "COVER");
    kani::cover!(g.is_none() && n.is_some() || hi == 65536, "COVER");
    kani::cover!(n.is_none(), "COVER");
    forget(t);
}
macro_rules! operands { ($($name:ident $t:ty, $lo:expr, $hi:expr;)*) => { $(
    #[kani::proof]
    #[kani::stub(std::fmt::format, no_text)]
    fn $name() { operand::<$t>(|o| o.get() as i32, $lo, $hi) }
)* } }
operands! {
    operand_imm5 Offset<i16, 5>, -16, 16;
    operand_off6 Offset<i16, 6>, -32, 32;
    operand_off9 Offset<i16, 9>, -256, 256;
    operand_off11 Offset<i16, 11>, -1024, 1024;
    operand_trap Offset<u16, 8>, 0, 256;
    operand_size Offset<u16, 16>, 0, 65536;
}
#[kani::proof]
#[kani::stub(std::fmt::format, no_text)]
fn operand_fill() {
    let (kind, v): (u8, u16) = kani::any();
    let t = token(kind, v);
    let g = parsed::<IntLiteral>(&t, |o| o.0 as i32);
    assert!(g == if kind < 2 { Some(v as i32) } else { None }, "C05: .fill accepts either signedness");
    kani::cover!(kind == 1 && g.is_some(), "COVER");
    forget(t);
}
#[kani::proof]
#[kani::stub(std::fmt::format, no_text)]
fn operand_reg() {
    let (kind, v): (u8, u16) = kani::any();
    let t = token(kind, v);
    let g = parsed::<Reg>(&t, |r| reg_no(*r) as i32);
    assert!(g == if kind == 2 { Some((v % 8) as i32) } else { None }, "C05: register operands are registers");
    kani::cover!(g.is_some(), "COVER");
    forget(t);
}

const L: usize = 16;
/// A token of ASCII word characters, `-` and `#`, and its length.
fn text() -> ([u8; L], usize) {
    let b: [u8; L] = kani::any();
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= L);
    let mut i = 0;
    while i < L {
        kani::assume(b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'-' || b[i] == b'#');
        i += 1;
    }
    (b, n)
}
fn word_from(b: &[u8; L], n: usize, from: usize) -> bool {
    let mut i = from;
    while i < n { if !(b[i].is_ascii_alphanumeric() || b[i] == b'_') { return false } i += 1; }
    true
}
fn as_str(b: &[u8; L], n: usize) -> &str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(b.as_ptr(), n)) } }
/// The number written from a position on.
fn number(b: &[u8; L], n: usize, from: usize, base: u64) -> Option<u64> {
    if from >= n { return None }
    let mut v = 0u64;
    let mut i = from;
    while i < n {
        let d = match b[i] {
            c @ b'0'..=b'9' => c - b'0',
            c @ b'a'..=b'f' if base == 16 => c - b'a' + 10,
            c @ b'A'..=b'F' if base == 16 => c - b'A' + 10,
            _ => return None,
        };
        v = v * base + d as u64;
        i += 1;
    }
    Some(v)
}
fn check<T: Copy + Into<i32>, E>(g: Result<T, E>, want: Option<i32>) {
    let v: Option<i32> = match &g { Ok(v) => Some((*v).into()), Err(_) => None };
    forget(g);
    assert!(v == want, "C05: a token has the value written");
    kani::cover!(want.is_some(), "COVER");
    kani::cover!(want.is_none(), "COVER");
}
#[kani::proof]
#[kani::unwind(18)]
fn dec() {
    let (b, n) = text();
    // \d\w* | #\d?\w*
    let hash = b[0] == b'#';
    kani::assume((hash || b[0].is_ascii_digit()) && word_from(&b, n, 1));
    let want = number(&b, n, hash as usize, 10).filter(|v| *v <= 65535).map(|v| v as i32);
    check(lex::unsigned_dec(as_str(&b, n)), want);
}
#[kani::proof]
#[kani::unwind(18)]
fn signed_dec() {
    let (b, n) = text();
    // -... | #-... | ##...
    let at = if b[0] == b'-' { 0 } else { 1 };
    kani::assume(at == 0 || n >= 2 && b[0] == b'#' && (b[1] == b'-' || b[1] == b'#'));
    let want = if b[at] == b'-' { number(&b, n, at + 1, 10).filter(|v| *v <= 32768).map(|v| -(v as i32)) } else { None };
    check(lex::signed_dec(as_str(&b, n)), want);
}
#[kani::proof]
#[kani::unwind(18)]
fn hex() {
    let (b, n) = text();
    // [Xx][\dA-Fa-f]\w*
    kani::assume(n >= 2 && (b[0] == b'x' || b[0] == b'X') && b[1].is_ascii_hexdigit() && word_from(&b, n, 1));
    let want = number(&b, n, 1, 16).filter(|v| *v <= 65535).map(|v| v as i32);
    check(lex::unsigned_hex(as_str(&b, n)), want);
}
#[kani::proof]
#[kani::unwind(18)]
fn signed_hex() {
    let (b, n) = text();
    // [Xx]-\w*
    kani::assume(n >= 2 && (b[0] == b'x' || b[0] == b'X') && b[1] == b'-' && word_from(&b, n, 2));
    let want = number(&b, n, 2, 16).filter(|v| *v <= 32768).map(|v| -(v as i32));
    check(lex::signed_hex(as_str(&b, n)), want);
}
#[kani::proof]
#[kani::unwind(18)]
fn reg() {
    let (b, n) = text();
    // [Rr]\d+
    kani::assume(n >= 2 && (b[0] == b'r' || b[0] == b'R'));
    let mut i = 1;
    while i < n { kani::assume(b[i].is_ascii_digit()); i += 1; }
    let want = number(&b, n, 1, 10).filter(|v| *v <= 7).map(|v| v as i32);
    check(lex::reg(as_str(&b, n)), want);
}
