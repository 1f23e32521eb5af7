//! Shared machinery of the model-checking harness.
pub mod asmfam;
pub mod asmmodel;
pub mod explore;
pub mod fmtfam;
pub mod lang;
pub mod isa;
pub mod linkfam;
pub mod rig;
pub mod simfam;
pub mod surface;
pub use explore::{fail, real, real_raw, Ch, Case, Check, Fail, Res};
