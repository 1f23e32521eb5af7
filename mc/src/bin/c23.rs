//! C23: see asmfam.rs for the program families and the oracle.
use mc::asmfam::{add_families, Aspect};
use mc::*;

fn main() {
    let mut k = Check::new("C23");
    add_families(&mut k, Aspect::Labels);
    k.run()
}
