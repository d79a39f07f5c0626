//! Proof harnesses (see /verif/DESIGN.md). Only compiled by Kani.
#![cfg(kani)]
#![feature(allocator_api)]
#![recursion_limit = "1024"]
#![allow(static_mut_refs)]

#[path = "../../shared/conv.rs"]
pub mod conv;

pub mod eng;
pub mod c01;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c19;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c30;
pub mod c31;
pub mod c32;
pub mod c33;
pub mod c34;
pub mod c35;
