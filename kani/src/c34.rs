//! C34: contract of one `TimerDevice` poll, over all states; random times are replaced by the contract
//! "any value of the range" (`rand`'s `random_range` is trusted).
//!
//! With `time` = polls left (0: a new time has to be drawn), the number of quiet polls still to come is
//! `quiet(time)` = the drawn time if `time == 0`, else `time - 1`. The contract below says a poll takes one
//! quiet poll away or interrupts if there are none, and leaves `time == 0` after an interrupt; so between two
//! interrupts there are exactly as many quiet polls as the time drawn (induction on the polls), and the first
//! interrupt comes after at most `max` quiet polls.
use lc3_ensemble::sim::device::{ExternalDevice, TimerDevice};
use lc3_ensemble::sim::device::timer_kani_hooks::make;
use std::ops::Bound;

static mut DRAWN: u32 = 0;
static mut DRAWS: u32 = 0;




fn st_generate(_t: &mut TimerDevice) -> u32 {
    unsafe { DRAWS += 1; DRAWN }
}

fn setup(time: u32, enabled: bool) -> TimerDevice {
    let (lo, hi, drawn): (u32, u32, u32) = kani::any();
    kani::assume(lo <= drawn && drawn <= hi);
    unsafe { DRAWN = drawn; DRAWS = 0; }
    let (vect, prio): (u8, u8) = kani::any();
    make(lo..=hi, time, vect, prio, enabled)
}

#[kani::proof]
#[kani::stub(lc3_ensemble::sim::device::TimerDevice::try_generate_time, st_generate)]
fn poll_contract() {
    let (time, enabled): (u32, bool) = kani::any();
    let mut t = setup(time, enabled);
    let i = t.poll_interrupt();
    let drawn = unsafe { DRAWN };
    if !enabled {
        assert!(i.is_none(), "C34: a disabled timer never interrupts");
        assert!(t.get_remaining() == time && unsafe { DRAWS } == 0, "C34: a disabled timer does not count");
    } else {
        let quiet = if time == 0 { drawn } else { time - 1 };
        match &i {
            Some(_) => {
                assert!(quiet == 0, "C34: no interrupt comes early");
                assert!(t.get_remaining() == 0, "C34: a new time is drawn after an interrupt");
            },
            None => {
                assert!(quiet != 0, "C34: no interrupt is skipped");
                assert!(t.get_remaining() != 0, "C34: a quiet poll leaves an interrupt pending");
                assert!(t.get_remaining() - 1 == quiet - 1, "C34: a quiet poll uses up one poll");
            }
        }
        kani::cover!(i.is_some() && time == 0, "COVER");
        kani::cover!(i.is_some() && time == 1, "COVER");
        kani::cover!(i.is_none() && time == 0, "COVER");
    }
    std::mem::forget(i);
    std::mem::forget(t);
}

#[kani::proof]
#[kani::stub(lc3_ensemble::sim::device::TimerDevice::try_generate_time, st_generate)]
fn reset_contract() {
    let (time, enabled): (u32, bool) = kani::any();
    let mut t = setup(time, enabled);
    if kani::any() { t.io_reset() } else { t.reset_remaining() }
    assert!(t.get_remaining() == unsafe { DRAWN } && unsafe { DRAWS } == 1, "C34: resetting draws a new time");
    assert!(t.enabled == enabled, "C34: resetting keeps the timer enabled");
    kani::cover!(enabled, "COVER");
    std::mem::forget(t);
}

/// `SampleRange::new` and `try_generate_time` ask for exactly the configured range.
/// (`rand::Rng::random_range` panics on empty ranges: those are excluded by its precondition.)
#[kani::proof]
fn range_contract() {
    let (a, b, v): (u32, u32, u32) = kani::any();
    let kind: u8 = kani::any();
    use std::ops::RangeBounds;
    fn has(t: TimerDevice, v: u32) -> bool { let r = t.get_range().contains(&v); std::mem::forget(t); r }
    match kind % 5 {
        0 => assert!(has(make(a..b, 0, 0, 0, true), v) == (a..b).contains(&v), "C34: exclusive range"),
        1 => assert!(has(make(a..=b, 0, 0, 0, true), v) == (a..=b).contains(&v), "C34: inclusive range"),
        2 => assert!(has(make(..b, 0, 0, 0, true), v) == (..b).contains(&v), "C34: range to"),
        3 => assert!(has(make(a.., 0, 0, 0, true), v) == (a..).contains(&v), "C34: range from"),
        _ => {
            kani::assume(a < u32::MAX);
            let r = (Bound::Excluded(a), Bound::Included(b));
            assert!(has(make(r, 0, 0, 0, true), v) == (v > a && v <= b), "C34: excluded start");
        }
    }
    let mut t = make(a..=b, 0, 0, 0, true);
    t.set_exact(v);
    let r = t.get_range();
    assert!(r.contains(&v) && r.contains(&a) == (a == v), "C34: an exact count is the range of that count");
    drop(r);
    std::mem::forget(t);
    kani::cover!(kind % 5 == 4, "COVER");
}
