//! C02: see asmfam.rs for the program families and the oracle.
use mc::asmfam::{add_families, Aspect};
use mc::*;

fn main() {
    let mut k = Check::new("C02");
    add_families(&mut k, Aspect::Accept);
    k.run()
}
