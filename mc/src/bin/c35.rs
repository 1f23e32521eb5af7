//! C35: bounded offsets accept exactly the representable values (complete enumeration).
use lc3_ensemble::ast::{IOffset, Offset, OffsetNewErr};
use mc::*;

fn one<const N: u32>(v: u16, c: &mut Case) -> Res {
    let (i, m) = (v as i16, 1i64 << N);
    // signed
    let want = i as i64 >= -(m / 2) && (i as i64) < m / 2;
    let got = real("IOffset::new", || IOffset::<N>::new(i))?;
    match (&got, want) {
        (Ok(o), true) => ensure!(o.get() == i, "hold", "Offset<i16,{N}>::new({i}) holds {}", o.get()),
        (Err(OffsetNewErr::CannotFitSigned(n)), false) => ensure!(*n == N, "err", "Offset<i16,{N}>::new({i}) error names {n} bits"),
        _ => return fail("accept", format!("Offset<i16,{N}>::new({i}) = {got:?}, representable: {want}")),
    }
    let low = i as i64 & (m - 1);
    let ext = if low >= m / 2 { low - m } else { low };
    let t = real("IOffset::new_trunc", || IOffset::<N>::new_trunc(i))?;
    ensure!(t.get() as i64 == ext, "trunc", "Offset<i16,{N}>::new_trunc({i}) holds {}, want {ext}", t.get());
    // unsigned
    let want = (v as i64) < m;
    let got = real("Offset::new", || Offset::<u16, N>::new(v))?;
    match (&got, want) {
        (Ok(o), true) => ensure!(o.get() == v, "hold", "Offset<u16,{N}>::new({v}) holds {}", o.get()),
        (Err(OffsetNewErr::CannotFitUnsigned(n)), false) => ensure!(*n == N, "err", "Offset<u16,{N}>::new({v}) error names {n} bits"),
        _ => return fail("accept", format!("Offset<u16,{N}>::new({v}) = {got:?}, representable: {want}")),
    }
    let t = real("Offset::new_trunc", || Offset::<u16, N>::new_trunc(v))?;
    ensure!(t.get() as i64 == v as i64 & (m - 1), "trunc", "Offset<u16,{N}>::new_trunc({v}) holds {}", t.get());
    c.state(&(N, v));
    c.trans(4);
    c.trace();
    Ok(())
}

fn main() {
    let mut k = Check::new("C35");
    k.family("all", "every u16/i16 value x every N in 1..=16, new and new_trunc, signed and unsigned (complete)", 0, |ch, c| {
        let v = ch.choose(1 << 16) as u16;
        c.describe_lazy(|| format!("value {v:#06x}, N=1..=16"));
        macro_rules! all { ($($n:literal)*) => { $( one::<$n>(v, c)?; )* } }
        all!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
        Ok(())
    });
    k.run()
}
