//! C17: see fmtfam.rs for the families and the oracle.
use mc::*;

fn main() {
    let mut k = Check::new("C17");
    mc::fmtfam::add_families(&mut k, true);
    k.run()
}
