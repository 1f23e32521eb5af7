//! C01: see asmfam.rs for the program families and the oracle.
use mc::asmfam::{add_families, Aspect};
use mc::*;

fn main() {
    let mut k = Check::new("C01");
    add_families(&mut k, Aspect::Image);
    mc::asmfam::add_singles(&mut k);
    k.run()
}
