//! Executable specification of the LC-3, written from the ISA and the property texts.
//! It shares no code with the crate under verification, and is used as the right-hand side
//! of the contracts in /verif/kani (for all inputs) and /verif/native (bounded).

pub mod isa;
pub mod step;
