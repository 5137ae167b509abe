//! Harness entries. Every `h_*` function is executed symbolically by symex
//! (from its LLVM IR) and natively by the `replay` binary.
pub mod sym;

pub mod big;
pub mod pair;
pub mod bld;
pub mod card;
pub mod case;
pub mod common;
pub mod conv;
pub mod ctl;
pub mod date;
pub mod dec;
pub mod fold;
pub mod it;
pub mod json;
pub mod loose;
pub mod many;
pub mod np;
pub mod par;
pub mod refs;
pub mod rt;
pub mod typ;
pub mod val;
#[cfg(feature = "types")]
pub mod feat;
pub mod wf;
pub mod photo;
pub mod zero;
