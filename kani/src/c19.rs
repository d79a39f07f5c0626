//! C17-C19: helpers of the object file formats. `take`: complete (slices of any length up to 2^40, any request).
//! `chunks`, `sorted`: bounded (at most 12 bytes / 5 words). `hex`: complete for 4 bytes, bounded (at most 6 bytes) otherwise. `digits`: complete.
use lc3_ensemble::asm::encoding::kani_hooks as enc;

fn check_take<const N: usize>(buf: &[u8]) {
    let mut s = buf;
    match enc::take_n::<N>(&mut s) {
        Some(a) => {
            assert!(buf.len() >= N && s.len() == buf.len() - N && s.as_ptr() == buf[N..].as_ptr(), "C19: a field is taken off the front");
            let i: usize = kani::any();
            kani::assume(i < N);
            assert!(a[i] == buf[i], "C17: a field has the bytes of the file");
        }
        None => assert!(buf.len() < N && s.len() == buf.len(), "C19: only a truncated field is refused"),
    }
}

#[kani::proof]
#[kani::unwind(2)]
fn take() {
    let len: usize = kani::any();
    kani::assume(len < 1 << 40);
    let mut v: Vec<u8> = Vec::with_capacity(len);
    // SAFETY: any bits are bytes
    unsafe { v.set_len(len) };
    let buf = &v[..];
    match kani::any() {
        0u8 => check_take::<1>(buf),
        1 => check_take::<2>(buf),
        2 => check_take::<8>(buf),
        _ => {
            let n: usize = kani::any();
            let mut s = buf;
            match enc::slice(&mut s, n) {
                Some(a) => assert!(n <= len && a.len() == n && a.as_ptr() == buf.as_ptr() && s.len() == len - n && s.as_ptr() == buf[n..].as_ptr(), "C19: the slice is taken off the front"),
                None => assert!(n > len && s.len() == len, "C19: only a truncated slice is refused"),
            }
            kani::cover!(n > len, "COVER");
            kani::cover!(n <= len && n > 0, "COVER");
        }
    }
    std::mem::forget(v);
}

fn check_chunks<const N: usize>() {
    let b: [u8; 12] = kani::any();
    let k: usize = kani::any();
    kani::assume(k <= 12 / N);
    let v = enc::chunks::<N>(&b[..k * N]);
    assert!(v.len() == k, "C17: every word is read");
    let (i, j): (usize, usize) = kani::any();
    kani::assume(i < k && j < N);
    assert!(v[i][j] == b[i * N + j], "C17: words are read in order");
    kani::cover!(k > 2, "COVER");
    std::mem::forget(v);
}
#[kani::proof]
#[kani::unwind(8)]
fn chunks_2() { check_chunks::<2>() }
#[kani::proof]
#[kani::unwind(8)]
fn chunks_3() { check_chunks::<3>() }

#[kani::proof]
#[kani::unwind(7)]
fn sorted() {
    let a: [u16; 5] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 5);
    let mut ok = true;
    let mut i = 1;
    while i < n {
        ok &= a[i - 1] < a[i];
        i += 1;
    }
    assert!(enc::sorted_no_dup(&a[..n]).is_some() == ok, "C19: a line block is accepted when its addresses increase");
    kani::cover!(ok && n == 5, "COVER");
    kani::cover!(!ok, "COVER");
}

fn hexit(b: u8) -> Option<u16> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u16),
        b'A'..=b'F' => Some((b - b'A') as u16 + 10),
        b'a'..=b'f' => Some((b - b'a') as u16 + 10),
        _ => None,
    }
}
#[kani::proof]
#[kani::unwind(8)]
fn hex() {
    let b: [u8; 6] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 6);
    let mut i = 0;
    while i < n {
        kani::assume(b[i] < 0x80);
        i += 1;
    }
    // SAFETY: ASCII
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let g = enc::maybe_hex(s);
    if n != 4 {
        assert!(g.is_none(), "C19: a word has four digits");
    } else if let (Some(x), Some(y), Some(z), Some(w)) = (hexit(b[0]), hexit(b[1]), hexit(b[2]), hexit(b[3])) {
        assert!(g == Some(Some(x << 12 | y << 8 | z << 4 | w)), "C18: a word is read with its value");
    }
    if n == 4 && b[0] == b'?' && b[1] == b'?' && b[2] == b'?' && b[3] == b'?' {
        assert!(g == Some(None), "C18: an uninitialized word is read as such");
    } else {
        assert!(g != Some(None), "C18: an initialized word is read as such");
    }
    kani::cover!(matches!(g, Some(Some(_))), "COVER");
    kani::cover!(matches!(g, Some(None)), "COVER");
}

#[kani::proof]
#[kani::unwind(22)]
fn digits() {
    let n: usize = kani::any();
    let d = enc::digits(n);
    let (mut k, mut m) = (1, n / 10);
    while m > 0 {
        k += 1;
        m /= 10;
    }
    assert!(d == k, "C18: widths of numbers");
    kani::cover!(d == 20, "COVER");
}
