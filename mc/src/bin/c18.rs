//! C18: see fmtfam.rs for the families and the oracle.
use mc::*;

fn main() {
    let mut k = Check::new("C18");
    mc::fmtfam::add_families(&mut k, false);
    k.run()
}
