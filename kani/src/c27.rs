//! C27: which frames a step pushes and pops; the frame stack's own operations.
use crate::eng::*;

fn contract(op: u16) {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 2 });
    let _ = real(&p);
    let (_, _, e) = specified(&p, op);
    unsafe {
        assert!(POPS == e.pops, "C27: exactly RET and RTI pop a frame");
        assert!(FN == e.fn_, "C27: exactly calls push a frame");
        assert!(FN == 0 || FR[0] == e.fr[0], "C27: frame of a subroutine call: calling instruction, start address, kind");
        kani::cover!(match op { 4 | JSRR => FN == 1, 8 | 12 => POPS == 1, _ => FN == 0 && POPS == 0 }, "COVER");
    }
}
crate::per_op!(contract);

crate::machine_proof! { fn entry() {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
    let a = entry_args(&p);
    let _ = real_entry(&p, &a);
    let s = specified_entry(&p, &a);
    unsafe {
        assert!(POPS == 0 && FN == s.e.fn_, "C27: entering a handler pushes one frame");
        assert!(FN == 0 || FR[0] == s.e.fr[0], "C27: frame of a handler: calling or interrupted instruction, vector, kind");
        kani::cover!(FN == 1 && a.prio.is_some(), "COVER");
        kani::cover!(FN == 1 && a.prio.is_none(), "COVER");
    }
} }

// --- the frame stack itself ---
use lc3_ensemble::sim::frame::{Frame, FrameType, ParameterList, kani_hooks as fh};
use lc3_ensemble::sim::mem::{self, Word};
use lc3_ensemble::sim::mem::kani_hooks::{init, word};
use std::alloc::Allocator;
use std::collections::HashMap;
use std::mem::ManuallyDrop;

/// The definition of the callee, if any, and the table and key it is looked up with.
static mut DEF: Option<ParameterList> = None;
static mut LOOKUPS: u8 = 0;
static mut KEY: (u8, u16) = (0, 0);
pub struct Defs<K, V, S, A: Allocator>(HashMap<K, V, S, A>);
impl<K, V, S, A: Allocator> Defs<K, V, S, A> {
    pub fn get<'a, Q: ?Sized>(_m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> {
        assert!(std::mem::size_of::<V>() == std::mem::size_of::<ParameterList>(), "ENV: unexpected map");
        let n = std::mem::size_of_val(k);
        unsafe {
            LOOKUPS += 1;
            KEY = match n { 1 => (1, *(k as *const Q as *const u8) as u16), _ => (2, *(k as *const Q as *const u16)) };
            (*(&raw const DEF)).as_ref().map(|d| &*(d as *const ParameterList as *const V))
        }
    }
}
impl<K, V, S, A: Allocator> Defs<K, V, S, A> {
    pub fn contains<Q: ?Sized>(m: &HashMap<K, V, S, A>, k: &Q) -> bool { Self::get(m, k).is_some() }
}
/// A definition with `n` parameters.
fn def(n: usize, regs: [u8; 2]) -> Option<ParameterList> {
    match kani::any::<u8>() {
        0 => None,
        1 => Some(ParameterList::CallingConvention { params: match n { 0 => vec![], 1 => vec![String::new()], _ => vec![String::new(), String::new()] } }),
        _ => {
            let p = |i: usize| (String::new(), crate::conv::reg(regs[i]));
            Some(ParameterList::PassByRegister { params: match n { 0 => vec![], 1 => vec![p(0)], _ => vec![p(0), p(1)] }, ret: None })
        },
    }
}
fn same(a: Word, b: Word) -> bool { a.get() == b.get() && init(a) == init(b) }

fn push(n: usize, debug: bool) -> u8 {
    let p = draw(Cfg { strict: Strict::Off, all_init: false, poll: 0 });
    let regs = [kani::any::<u8>() % 8, kani::any::<u8>() % 8];
    unsafe { DEF = if debug { def(n, regs) } else { None }; }
    let mut rs = [word(0, 0); 8];
    let mut i = 0;
    while i < 8 { rs[i] = word(p.c.r[i], p.rinit[i]); i += 1; }
    let rf = mem::kani_hooks::regs(rs);
    let m = ManuallyDrop::new(mem::kani_hooks::mem_unbacked());
    let len: u64 = kani::any();
    kani::assume(len < u64::MAX);
    let old = (kani::any::<u16>(), kani::any::<u16>());
    let frames = if debug { Some(vec![Frame { caller_addr: old.0, callee_addr: old.1, frame_type: FrameType::Trap, frame_ptr: None, arguments: vec![] }]) } else { None };
    let mut f = ManuallyDrop::new(fh::make(len, frames));
    let (caller, callee, k): (u16, u16, u8) = kani::any();
    let ft = match k % 3 { 0 => FrameType::Subroutine, 1 => FrameType::Trap, _ => FrameType::Interrupt };
    if k % 3 == 1 { kani::assume(callee < 0x100); }
    if k % 3 == 2 { kani::assume(callee >= 0x100 && callee < 0x200); }
    fh::push_frame(&mut f, caller, callee, ft, &rf, &m);
    assert!(f.len() == len + 1, "C27: a call adds one to the depth");
    assert!(f.frames().is_some() == debug, "C27: frames are kept in debug mode only");
    let Some(fs) = f.frames() else { return 0 };
    assert!(fs.len() == 2 && fs[0].caller_addr == old.0 && fs[0].callee_addr == old.1, "C27: a call keeps the frames below");
    let g = &fs[1];
    assert!(g.caller_addr == caller && g.callee_addr == callee && g.frame_type == ft, "C27: the frame has the calling instruction, the callee and the kind");
    unsafe {
        // (interrupt handlers have no definitions of their own: any arguments)
        if k % 3 == 2 { return 3 }
        match &*(&raw const DEF) {
            None => assert!(g.arguments.is_empty(), "C27: no arguments without a definition"),
            Some(ParameterList::CallingConvention { .. }) => {
                assert!(KEY == (if k % 3 == 1 { 1 } else { 2 }, callee), "C27: the definition is that of the callee");
                assert!(g.arguments.len() == n, "C27: one argument for every parameter");
                let mut i = 0;
                while i < n {
                    // R6 + i at the call: the arguments are on top of the stack
                    let j = find(p.c.r[6].wrapping_add(i as u16));
                    assert!(same(g.arguments[i], word(PV[j], PI[j])), "C27: arguments come from the stack");
                    i += 1;
                }
            },
            Some(ParameterList::PassByRegister { .. }) => {
                assert!(KEY == (if k % 3 == 1 { 1 } else { 2 }, callee), "C27: the definition is that of the callee");
                assert!(g.arguments.len() == n, "C27: one argument for every parameter");
                let mut i = 0;
                while i < n {
                    assert!(same(g.arguments[i], rs[regs[i] as usize]), "C27: arguments come from the registers of the definition");
                    i += 1;
                }
            },
        }
        KEY.0
    }
}
macro_rules! push { ($($name:ident $n:literal $d:literal $($k:literal)*;)*) => { $(
    #[kani::proof]
    #[kani::unwind(9)]
    #[kani::stub(<lc3_ensemble::sim::mem::MemArray as std::ops::Index<u16>>::index, crate::eng::st_index)]
    #[kani::stub(std::collections::HashMap::get, Defs::get)]
    #[kani::stub(std::collections::HashMap::contains_key, Defs::contains)]
    fn $name() {
        let k = push($n, $d);
        $( kani::cover!(k == $k, "COVER"); )*
    }
)* } }
push! { push_plain 0 false 0;  push_0 0 true 1 2 3;  push_1 1 true 1 2 3;  push_2 2 true 1 2 3; }

#[kani::proof]
#[kani::unwind(4)]
fn pop_frame() {
    let len: u64 = kani::any();
    let n: u8 = kani::any();
    let mk = |c: u16| Frame { caller_addr: c, callee_addr: c, frame_type: FrameType::Trap, frame_ptr: None, arguments: vec![] };
    let (a, b): (u16, u16) = kani::any();
    let frames = match n { 0 => None, 1 => Some(vec![]), 2 => Some(vec![mk(a)]), _ => Some(vec![mk(a), mk(b)]) };
    let had = frames.as_ref().map(|f| f.len());
    let mut f = ManuallyDrop::new(fh::make(len, frames));
    fh::pop_frame(&mut f);
    assert!(f.len() == if len > 0 { len - 1 } else { 0 }, "C27: a return takes one from the depth, down to 0");
    match (f.frames(), had) {
        (None, None) => {},
        (Some(fs), Some(h)) => {
            assert!(fs.len() == if h > 0 { h - 1 } else { 0 }, "C27: a return removes one frame");
            if h == 2 { assert!(fs[0].caller_addr == a, "C27: a return removes the newest frame"); }
        },
        _ => assert!(false, "C27: frames are kept in debug mode only"),
    }
    kani::cover!(had == Some(2), "COVER");
    kani::cover!(len == 0, "COVER");
}

