//! C35: contracts of `Offset::{new, new_trunc, get}` for every width and value.
use lc3_ensemble::ast::{Offset, OffsetNewErr};

macro_rules! width {
    ($n:literal, $s:expr, $u:expr) => {{
        let v: i16 = $s;
        let fits = (v as i32) >= -(1i32 << ($n - 1)) && (v as i32) < (1i32 << ($n - 1));
        match Offset::<i16, $n>::new(v) {
            Ok(o) => { assert!(fits, "C35: signed new accepts only representable values"); assert!(o.get() == v, "C35: signed new holds the value"); },
            Err(e) => {
                assert!(!fits, "C35: signed new accepts all representable values");
                assert!(matches!(e, OffsetNewErr::CannotFitSigned($n)), "C35: signed new reports the width");
            },
        }
        assert!(Offset::<i16, $n>::new_trunc(v).get() == lc3spec::isa::sext(v as u16, $n), "C35: signed new_trunc sign-extends");
        let v: u16 = $u;
        let fits = (v as u32) < (1u32 << $n);
        match Offset::<u16, $n>::new(v) {
            Ok(o) => { assert!(fits, "C35: unsigned new accepts only representable values"); assert!(o.get() == v, "C35: unsigned new holds the value"); },
            Err(e) => {
                assert!(!fits, "C35: unsigned new accepts all representable values");
                assert!(matches!(e, OffsetNewErr::CannotFitUnsigned($n)), "C35: unsigned new reports the width");
            },
        }
        assert!(Offset::<u16, $n>::new_trunc(v).get() as u32 == v as u32 % (1u32 << $n), "C35: unsigned new_trunc zero-extends");
    }};
}
macro_rules! harness {
    ($($name:ident: $($n:literal)*;)*) => { $(
        #[kani::proof]
        fn $name() {
            let (s, u): (i16, u16) = kani::any();
            $( width!($n, s, u); )*
            kani::cover!(Offset::<i16, 4>::new(s).is_ok() && Offset::<u16, 4>::new(u).is_err(), "COVER");
        }
    )* };
}
harness! {
    widths_01_08: 1 2 3 4 5 6 7 8;
    widths_09_16: 9 10 11 12 13 14 15 16;
}
