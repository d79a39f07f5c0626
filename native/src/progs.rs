//! Generator of structured machine-code programs that end.
use crate::util::*;
use lc3spec::isa::{self, Ins, Src};

#[derive(Clone, Copy, Debug)]
enum Op { I(Ins), Br(u8, usize), Jsr(usize), Ld(u8, usize), St(u8, usize), Lea(u8, usize), Ldi(u8, usize), Sti(u8, usize), W(u16), WL(usize), Lab(usize), Blk(u16) }

#[derive(Clone, Debug)]
pub struct Prog {
    pub start: u16,
    /// Memory image of the program and of its handlers.
    pub mem: Vec<(u16, u16)>,
    pub end: u16,
}
pub struct POpts {
    /// Uses OS trap routines.
    pub os: bool,
    /// Reads characters.
    pub input: bool,
    /// May end in an error or clear the MCR.
    pub faults: bool,
    pub halt: bool,
    /// Calls handlers placed in supervisor space (needs `handlers`).
    pub traps: bool,
}
struct G<'a> { r: &'a mut Rng, ops: Vec<Op>, labs: usize, o: &'a POpts, data: usize, slots: Vec<usize> }
impl G<'_> {
    fn lab(&mut self) -> usize { self.labs += 1; self.labs - 1 }
    fn at(&mut self, l: usize) { self.ops.push(Op::Lab(l)); }
    fn i(&mut self, i: Ins) { self.ops.push(Op::I(i)); }
    /// A statement. Uses R0-R3; R4 counts in loops; R5 points to data.
    fn item(&mut self, depth: u32, fns: &[usize], in_loop: bool) {
        let (d, a, b) = (self.r.below(4) as u8, self.r.below(4) as u8, self.r.below(4) as u8);
        let s = if self.r.bool() { Src::Reg(b) } else { Src::Imm(self.r.range(-16, 15) as i16) };
        match self.r.below(22) {
            0 | 1 => self.i(Ins::Add(d, a, s)),
            2 => self.i(Ins::And(d, a, s)),
            3 => self.i(Ins::Not(d, a)),
            4 => { let x = self.data + self.r.usize(4); self.ops.push(Op::Ld(d, x)) },
            5 => { let x = self.data + self.r.usize(4); self.ops.push(Op::St(d, x)) },
            6 => { let x = self.data + 4; self.ops.push(Op::Ldi(d, x)) },
            7 => { let x = self.data + 4; self.ops.push(Op::Sti(d, x)) },
            8 => { let x = self.data + self.r.usize(4); self.ops.push(Op::Lea(d, x)) },
            9 | 10 => { self.ops.push(Op::Ld(5, self.data + 5)); let o = self.r.range(-8, 8) as i16; if self.r.bool() { self.i(Ins::Ldr(d, 5, o)) } else { self.i(Ins::Str(d, 5, o)) } },
            11 | 12 => {
                let l = self.lab();
                self.ops.push(Op::Br(1 + self.r.below(7) as u8, l));
                for _ in 0..1 + self.r.below(3) { self.item(depth, fns, in_loop); }
                self.at(l);
            },
            13 if !in_loop => {
                self.i(Ins::And(4, 4, Src::Imm(0)));
                let k = 1 + self.r.below(6) as i16;
                self.i(Ins::Add(4, 4, Src::Imm(k)));
                let l = self.lab();
                self.at(l);
                for _ in 0..1 + self.r.below(4) { self.item(depth, fns, true); }
                self.i(Ins::Add(4, 4, Src::Imm(-1)));
                self.ops.push(Op::Br(1, l));
            },
            14..=16 if !in_loop && !fns.is_empty() => {
                let f = *self.r.pick(fns);
                if self.r.one(3) {
                    self.ops.push(Op::Lea(3, f));
                    self.i(Ins::Jsrr(3));
                } else { self.ops.push(Op::Jsr(f)); }
            },
            17 if self.o.os => self.i(Ins::Trap(0x21)),
            18 if self.o.os => {
                let x = self.data + 6;
                self.ops.push(Op::Lea(0, x));
                let v = *self.r.pick(&[0x22u8, 0x24]);
                self.i(Ins::Trap(v));
            },
            19 if self.o.input => { let v = *self.r.pick(&[0x20u8, 0x20, 0x23]); self.i(Ins::Trap(v)) },
            20 if self.o.traps => { let v = 0x40 + self.r.below(3) as u8; self.i(Ins::Trap(v)) },
            21 if self.o.faults && self.r.one(6) => match self.r.below(5) {
                0 => self.i(Ins::Rti),
                1 => self.ops.push(Op::W(0xD000 | self.r.u16() & 0xFFF)),
                2 => self.ops.push(Op::W(0x1238)),
                3 => { self.ops.push(Op::Ldi(d, self.data + 7)) },
                _ => { self.i(Ins::Trap(0x25)) },
            },
            _ => self.i(Ins::Add(d, a, s)),
        }
    }
}
pub fn gen_prog(r: &mut Rng, start: u16, o: &POpts) -> Prog {
    loop { if let Some(p) = try_prog(r, start, o) { return p } }
}
fn try_prog(r: &mut Rng, start: u16, o: &POpts) -> Option<Prog> {
    let nf = r.usize(4);
    let size = 4 + r.usize(14);
    let mut g = G { r, ops: vec![], labs: 0, o, data: 0, slots: vec![] };
    g.labs = 8;
    let fns: Vec<usize> = (0..nf).map(|_| g.lab()).collect();
    // main may call all functions; a function only those after it
    for _ in 0..size { g.item(0, &fns, false); }
    if o.halt { g.i(Ins::Trap(0x25)); }
    else { let l = g.lab(); g.at(l); g.ops.push(Op::Br(7, l)); }
    for k in 0..nf {
        g.at(fns[k]);
        let slot = g.lab();
        g.slots.push(slot);
        g.ops.push(Op::St(7, slot));
        for _ in 0..1 + g.r.usize(5) { g.item(1, &fns[k + 1..], false); }
        g.ops.push(Op::Ld(7, slot));
        g.i(Ins::Jmp(7));
        g.at(slot);
        g.ops.push(Op::Blk(1));
    }
    // data: 0-3 words, 4 pointer to data 1, 5 pointer to the middle of a buffer, 6 string, 7 pointer to a forbidden word
    for k in 0..4 { g.at(k); let w = g.r.word(); g.ops.push(Op::W(w)); }
    g.at(4); g.ops.push(Op::WL(1));
    let mid = g.lab();
    g.at(5); g.ops.push(Op::WL(mid));
    g.at(7); let w = *g.r.pick(&[0u16, 0x2FFF, 0xFE00, 0xFFFE, 0x100]); g.ops.push(Op::W(w));
    g.at(6);
    for _ in 0..g.r.usize(6) { let w = 0x20 + g.r.below(90) as u16 | (0x20 + g.r.below(90) as u16) << 8; g.ops.push(Op::W(w)); }
    g.ops.push(Op::W(0));
    for _ in 0..9 { let w = g.r.word(); g.ops.push(Op::W(w)); }
    g.at(mid);
    for _ in 0..9 { let w = g.r.word(); g.ops.push(Op::W(w)); }
    let G { ops, labs, .. } = g;
    if ops.len() > 230 { return None }
    // layout
    let mut at = vec![0u16; labs];
    let mut pc = start;
    for op in &ops { match op { Op::Lab(l) => at[*l] = pc, Op::Blk(n) => pc += n, _ => pc += 1 } }
    let mut mem = vec![];
    let mut pc = start;
    for op in &ops {
        let off = |l: usize| at[l].wrapping_sub(pc).wrapping_sub(1) as i16;
        let w = match *op {
            Op::Lab(_) => continue,
            Op::Blk(n) => { for k in 0..n { mem.push((pc + k, 0)); } pc += n; continue },
            Op::I(i) => isa::encode(i),
            Op::Br(cc, l) => isa::encode(Ins::Br(cc, off(l))),
            Op::Jsr(l) => isa::encode(Ins::Jsr(off(l))),
            Op::Ld(d, l) => isa::encode(Ins::Ld(d, off(l))),
            Op::St(d, l) => isa::encode(Ins::St(d, off(l))),
            Op::Lea(d, l) => isa::encode(Ins::Lea(d, off(l))),
            Op::Ldi(d, l) => isa::encode(Ins::Ldi(d, off(l))),
            Op::Sti(d, l) => isa::encode(Ins::Sti(d, off(l))),
            Op::W(w) => w,
            Op::WL(l) => at[l],
        };
        mem.push((pc, w));
        pc += 1;
    }
    Some(Prog { start, mem, end: pc })
}
/// A handler which saves what it uses on the stack, works on its own data and returns with RTI.
pub fn gen_handler(r: &mut Rng, start: u16) -> Vec<(u16, u16)> {
    let mut v = vec![];
    let n = 1 + r.usize(4);
    let mut regs: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 7];
    r.shuffle(&mut regs);
    regs.truncate(n);
    for &x in &regs { v.push(Ins::Add(6, 6, Src::Imm(-1))); v.push(Ins::Str(x, 6, 0)); }
    for _ in 0..1 + r.usize(8) {
        let (d, a, b) = (*r.pick(&regs), r.below(8) as u8, r.below(8) as u8);
        match r.below(6) {
            0 => v.push(Ins::Not(d, a)),
            1 => v.push(Ins::And(d, a, Src::Reg(b))),
            2 => v.push(Ins::Lea(d, 100)),
            3 => v.push(Ins::St(d, 120)),
            4 => v.push(Ins::Ld(d, 120)),
            _ => v.push(Ins::Add(d, a, Src::Imm(r.range(-16, 15) as i16))),
        }
    }
    for &x in regs.iter().rev() { v.push(Ins::Ldr(x, 6, 0)); v.push(Ins::Add(6, 6, Src::Imm(1))); }
    v.push(Ins::Rti);
    v.iter().enumerate().map(|(i, &x)| (start + i as u16, isa::encode(x))).collect()
}
