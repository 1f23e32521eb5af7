//! C24: see asmfam.rs for the program families and the oracle.
use mc::asmfam::{add_families, Aspect};
use mc::*;

fn main() {
    let mut k = Check::new("C24");
    add_families(&mut k, Aspect::Lines);
    k.run()
}
