//! C15: initialization tracking of words is sound.
//!
//! The oracle is the exact set of values every result bit can take over all completions of the
//! operands' uninitialized bits, computed by exhaustive reachability over the ripple-carry automaton
//! (state = carry into bit i; inputs = the possible values of both operand bits).
use lc3_ensemble::sim::mem::Word;
use mc::*;

/// Possible values of a bit as a 2-bit set {0 -> 1, 1 -> 2}.
fn bits(d: u16, m: u16, i: u32) -> u8 {
    if m >> i & 1 == 0 { 3 } else if d >> i & 1 == 0 { 1 } else { 2 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    And,
}
/// For every bit: the set of values over all completions.
fn possible(op: Op, a: (u16, u16), b: (u16, u16)) -> [u8; 16] {
    let mut out = [0u8; 16];
    let mut carry: u8 = if op == Op::Sub { 2 } else { 1 }; // a - b = a + !b + 1
    for i in 0..16 {
        let (x, mut y) = (bits(a.0, a.1, i), bits(b.0, b.1, i));
        if op == Op::Sub {
            y = [0, 2, 1, 3][y as usize];
        }
        let mut next = 0;
        for xv in 0..2 {
            for yv in 0..2 {
                if x >> xv & 1 == 0 || y >> yv & 1 == 0 {
                    continue;
                }
                if op == Op::And {
                    out[i as usize] |= 1 << (xv & yv);
                    continue;
                }
                for cv in 0..2 {
                    if carry >> cv & 1 == 0 {
                        continue;
                    }
                    let t = xv + yv + cv;
                    out[i as usize] |= 1 << (t & 1);
                    next |= 1 << (t >> 1);
                }
            }
        }
        carry = next;
    }
    out
}
/// Reads (data, init mask) of a real word from its derived Debug form.
fn parts(w: &Word) -> (u16, u16) {
    let s = format!("{w:?}");
    let mut it = s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty());
    match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok()), it.next()) {
        (Some(d), Some(m), None) if d == w.get() && (m == 0xFFFF) == w.is_init() => (d, m),
        _ => {
            let m = (0..16).filter(|i| (*w & Word::new_init(1 << i)).is_init()).fold(0, |a, i| a | 1 << i);
            (w.get(), m)
        }
    }
}
/// Builds a word with the given data and (if the code's AND is exact) the given mask.
fn build(d: u16, m: u16) -> Word {
    if m == 0xFFFF {
        return Word::new_init(d);
    }
    let u = Word::new_uninit(&mut { d });
    let z = u & Word::new_init(!(m & !d));
    !(!z & Word::new_init(!(m & d)))
}

fn check_pair(a: (Word, u16, u16), b: (Word, u16, u16), c: &mut Case) -> Res {
    let (wa, wb) = (a.0, b.0);
    let (pa, pb) = ((a.1, a.2), (b.1, b.2));
    for op in [Op::Add, Op::Sub, Op::And] {
        let rs: [(&str, Word); 2] = match op {
            Op::Add => [("a + b", wa + wb), ("a += b", { let mut x = wa; x += wb; x })],
            Op::Sub => [("a - b", wa - wb), ("a -= b", { let mut x = wa; x -= wb; x })],
            Op::And => [("a & b", wa & wb), ("a &= b", { let mut x = wa; x &= wb; x })],
        };
        one(op, rs[0].0, rs[0].1, pa, pb, c)?;
        if rs[1].1 != rs[0].1 {
            one(op, rs[1].0, rs[1].1, pa, pb, c)?;
        }
        if pb.1 == 0xFFFF && op != Op::And {
            let n = pb.0;
            let (mut x, mut y) = (wa, wa);
            if op == Op::Add {
                x += n;
                y += n as i16;
            } else {
                x -= n;
                y -= n as i16;
            }
            if x != rs[0].1 {
                one(op, "a op= u16", x, pa, pb, c)?;
            }
            if y != rs[0].1 {
                one(op, "a op= i16", y, pa, pb, c)?;
            }
        }
    }
    Ok(())
}
fn one(op: Op, what: &str, r: Word, pa: (u16, u16), pb: (u16, u16), c: &mut Case) -> Res {
    c.trans(1);
    let (d, m) = parts(&r);
    if m == 0 {
        ensure!(!(pa.1 == 0xFFFF && pb.1 == 0xFFFF), "full", "{what} of initialized x{:04X}, x{:04X} is uninitialized", pa.0, pb.0);
        return Ok(());
    }
    let p = possible(op, pa, pb);
    for i in 0..16 {
        if m >> i & 1 == 1 {
            let bit = (d >> i & 1) as u8;
            ensure!(p[i] == 1 << bit, "sound",
                "{what} with a = x{:04X} (init mask x{:04X}), b = x{:04X} (init mask x{:04X}) gives x{d:04X} with init mask x{m:04X}, but bit {i} can be {}",
                pa.0, pa.1, pb.0, pb.1, match p[i] { 1 => "only 0", 2 => "only 1", _ => "0 or 1" });
        }
    }
    ensure!(m == 0xFFFF || !(pa.1 == 0xFFFF && pb.1 == 0xFFFF), "full", "{what} of initialized words has init mask x{m:04X}");
    Ok(())
}
fn check_not(a: (Word, u16, u16)) -> Res {
    let (d, m) = parts(&!a.0);
    ensure!((m & !a.2) == 0, "sound", "!(x{:04X}, mask x{:04X}) has mask x{m:04X}", a.1, a.2);
    ensure!((d ^ !a.1) & m == 0, "sound", "!(x{:04X}, mask x{:04X}) = x{d:04X} with mask x{m:04X}", a.1, a.2);
    ensure!(a.2 != 0xFFFF || m == 0xFFFF, "full", "!(initialized x{:04X}) has mask x{m:04X}", a.1);
    Ok(())
}
fn mk(d: u16, m: u16) -> Res<(Word, u16, u16)> {
    real("build", || build(d, m)).map(|w| {
        let (d, m) = parts(&w);
        (w, d, m)
    })
}

fn main() {
    let mut k = Check::new("C15");

    // Primary observations that need no constructed masks.
    k.family("primary", "fully (un)initialized operands over boundary data: whole-word initialization", 0, |ch, c| {
        let vals = [0u16, 1, 2, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA, 0x00FF, 0xFF00];
        let d = *ch.pick(&vals);
        let e = *ch.pick(&vals);
        let (ia, ib) = (ch.flag(), ch.flag());
        c.describe_lazy(|| format!("x{d:04X} init {ia}, x{e:04X} init {ib}"));
        let w = |d: u16, i: bool| if i { Word::new_init(d) } else { Word::new_uninit(&mut { d }) };
        let (a, b) = (w(d, ia), w(e, ib));
        c.state(&(d, e, ia, ib));
        c.trace();
        let (ma, mb) = (if ia { 0xFFFF } else { 0 }, if ib { 0xFFFF } else { 0 });
        ensure!(a.is_init() == ia && a.get() == d, "new", "new word x{d:04X}: {a:?}");
        ensure!((!a).is_init() == ia && (!ia || (!a).get() == !d), "not", "!{a:?} = {:?}", !a);
        for (op, r) in [(Op::Add, a + b), (Op::Sub, a - b), (Op::And, a & b)] {
            c.trans(1);
            let p = possible(op, (d, ma), (e, mb));
            let exact = p.iter().all(|x| *x != 3);
            ensure!(!r.is_init() || exact, "sound", "{op:?} of {a:?} and {b:?} is reported initialized: {r:?}");
            if ia && ib {
                let want = match op { Op::Add => d.wrapping_add(e), Op::Sub => d.wrapping_sub(e), Op::And => d & e };
                ensure!(r.is_init() && r.get() == want, "full", "{op:?} of {a:?} and {b:?} is {r:?}, want x{want:04X}");
            }
        }
        let mut x = a;
        x.set(e);
        ensure!(x.is_init() && x.get() == e, "set", "set: {x:?}");
        x.clear_init();
        ensure!(!x.is_init(), "clear", "clear_init: {x:?}");
        Ok(())
    });

    // Every k-bit slice of both operands, at every position, in every uniform surrounding.
    let kb = k.tier(4u32, 5);
    k.family(
        "slices",
        "both operands: every assignment of {init 0, init 1, uninit 0, uninit 1} to k adjacent bits (k=4 quick, 5 thorough), every position, every uniform surrounding below/above",
        0,
        move |ch, c| {
            let pos = ch.choose((16 - kb) as usize + 1) as u32;
            let bg = [(0u16, 0xFFFFu16), (0xFFFF, 0xFFFF), (0x5A5A, 0)];
            let (alo, ahi, blo, bhi) = (*ch.pick(&bg), *ch.pick(&bg), *ch.pick(&bg), *ch.pick(&bg));
            let sa = ch.choose(1 << (2 * kb));
            let low = (1u16 << pos) - 1;
            let mid = (((1u32 << kb) - 1) << pos) as u16;
            let high = !(low | mid);
            let mkp = |s: usize, lo: (u16, u16), hi: (u16, u16)| {
                let (sd, sm) = ((s as u16 & ((1 << kb) - 1)) << pos, ((s >> kb) as u16) << pos);
                ((lo.0 & low) | sd | (hi.0 & high), (lo.1 & low) | sm | (hi.1 & high))
            };
            let a = mkp(sa, alo, ahi);
            c.describe_lazy(|| format!("a = data x{:04X} mask x{:04X}, b: all {kb}-bit patterns at bit {pos}", a.0, a.1));
            let wa = mk(a.0, a.1)?;
            check_not(wa)?;
            for sb in 0..1usize << (2 * kb) {
                let b = mkp(sb, blo, bhi);
                let wb = mk(b.0, b.1)?;
                check_pair(wa, wb, c)?;
                c.trace();
            }
            c.state(&(a, pos, blo, bhi));
            Ok(())
        },
    );

    // Structured masks: every contiguous window and complement, on boundary data.
    k.family(
        "windows",
        "both masks over every contiguous window of bits and its complement, data over boundary values",
        0,
        |ch, c| {
            let mut masks = vec![0xFFFFu16, 0];
            for i in 0..16u32 {
                for j in i + 1..=16 {
                    let m = (((1u32 << j) - 1) & !((1u32 << i) - 1)) as u16;
                    if m != 0xFFFF {
                        masks.push(m);
                        masks.push(!m);
                    }
                }
            }
            masks.extend([0x5555, 0xAAAA, 0x3333, 0x8001, 0x7FFE]);
            masks.sort();
            masks.dedup();
            let data = [0u16, 0xFFFF, 1, 0x8000, 0x7FFF, 0x5555];
            let ma = *ch.pick(&masks);
            let da = *ch.pick(&data);
            c.describe_lazy(|| format!("a = data x{da:04X} mask x{ma:04X}, b: all windows"));
            let a = mk(da, ma)?;
            check_not(a)?;
            for &mb in &masks {
                for db in data {
                    check_pair(a, mk(db, mb)?, c)?;
                    c.trace();
                }
            }
            c.state(&(da, ma));
            Ok(())
        },
    );

    // All data of one operand against every mask-structure of the other is covered above; here: all
    // pairs of fully initialized words.
    let step = k.tier(3usize, 1);
    k.family("initialized", "all pairs of fully initialized words (quick: every 3rd left operand, all right operands)", 0, move |ch, c| {
        let a = (ch.choose((1 << 16) / step + 1) * step).min(65535) as u16;
        c.describe_lazy(|| format!("a = x{a:04X}, all b"));
        let wa = Word::new_init(a);
        let bad = real("word ops", || {
            for b in 0..=65535u16 {
                let wb = std::hint::black_box(Word::new_init(b));
                let (s, d, n) = (wa + wb, wa - wb, wa & wb);
                if !(s.is_init() & d.is_init() & n.is_init()) || s.get() != a.wrapping_add(b) || d.get() != a.wrapping_sub(b) || n.get() != a & b {
                    return Some((b, s, d, n));
                }
            }
            None
        })?;
        if let Some((b, s, d, n)) = bad {
            return fail("full", format!("x{a:04X}, x{b:04X}: + {s:?}, - {d:?}, & {n:?}"));
        }
        c.state(&a);
        c.trans(3 * 65536);
        c.trace();
        Ok(())
    });
    k.run()
}
