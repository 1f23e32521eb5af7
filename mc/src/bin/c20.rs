//! C20: linking unions images, resolves externals, and is order-independent.
use mc::asmmodel::Obj;
use mc::lang::*;
use mc::linkfam::*;
use mc::*;

fn run(files: &[File], shape: usize, c: &mut Case) -> Res {
    let ctx = || format!("{:?} bracketing {shape}", files.iter().map(|f| &*f.r.text).collect::<Vec<_>>());
    c.describe_lazy(ctx);
    c.state(&files.iter().map(|f| &f.r.text).collect::<Vec<_>>());
    for f in files {
        ensure!(f.obj.symbol_table().is_some(), "no-table", "assemble_debug gave no symbol table: {:?}", f.r.text);
    }
    let models: Vec<&Obj> = files.iter().map(|f| &f.model).collect();
    let want = Obj::link_all(&models);
    c.trace();
    c.trans(files.len() as u64 - 1);
    let got = link_tree(files.iter().map(|f| f.obj.clone()).collect(), shape)?;
    match (got, want) {
        (Ok(o), Some(w)) => {
            c.outcome("linked");
            if !w.rel.is_empty() {
                c.outcome("linked, relocations pending");
            }
            same(&o, &w, &ctx())
        }
        (Err(e), None) => {
            c.outcome(&format!("{:?}", e.kind));
            Ok(())
        }
        (Ok(_), None) => fail("accepted", format!("conflicting files link: {}", ctx())),
        (Err(e), Some(_)) => fail("rejected", format!("compatible files do not link ({:?}): {}", e.kind, ctx())),
    }
}

/// Bases for file `i` given the previous file's block.
fn base(ch: &mut Ch, i: usize, prev: Option<(u16, u16)>, sz: u16, free: bool) -> u16 {
    let own = 0x3000 + 0x20 * i as u16;
    let Some((ps, pl)) = prev else { return own };
    let opts = [own, ps + pl, ps.wrapping_sub(sz), ps, (ps + pl).wrapping_sub(1), ps.wrapping_sub(sz).wrapping_add(1), ps + 1];
    if free { *ch.pick(&opts) } else { *ch.pick_dev(&opts) }
}

fn main() {
    let mut k = Check::new("C20");
    k.assume("pending relocations are observed by their effect: which words change when a file that only defines the label is linked in");
    k.family("pairs", "every ordered pair of files: 8x8 uses of two shared labels each (absent, defined, on .end, external used/unused, declared before/after use, defined and used), x with/without trailing .blkw, x 7 block placements (disjoint, touching on either side, equal start, overlapping by one word on either side, inside)", 0, |ch, c| {
        let mut fs = vec![];
        let mut prev = None;
        for i in 0..2 {
            let (x, y, f) = (ch.choose(STATES), ch.choose(STATES), ch.flag());
            let sz = size(&build(0x3000, x, y, f));
            let b = base(ch, i, prev, sz, true);
            prev = Some((b, sz));
            fs.push(file(build(b, x, y, f), true)?);
        }
        run(&fs, 0, c)
    });
    let d = k.tier(1, 2);
    k.family("triples", "every ordered triple of files with 8x8 label uses, both bracketings, block placements with at most 1 (thorough 2) departures from disjoint", d, |ch, c| {
        let mut fs = vec![];
        let mut prev = None;
        let shape = ch.choose(2);
        for i in 0..3 {
            let (x, y) = (ch.choose(STATES), ch.choose(STATES));
            let sz = size(&build(0x3000, x, y, false));
            let b = base(ch, i, prev, sz, false);
            prev = Some((b, sz));
            fs.push(file(build(b, x, y, false), true)?);
        }
        run(&fs, shape, c)
    });
    let d = k.tier(0, 1);
    let ys = k.tier(3, 4);
    k.family("quads", "every ordered 4-tuple of files (8 uses of one label x 3 (thorough 4) of another), all 5 bracketings", d, move |ch, c| {
        let mut fs = vec![];
        let mut prev = None;
        let shape = ch.choose(5);
        for i in 0..4 {
            let (x, y) = (ch.choose(STATES - 1), ch.choose(ys));
            let sz = size(&build(0x3000, x, y, false));
            let b = base(ch, i, prev, sz, false);
            prev = Some((b, sz));
            fs.push(file(build(b, x, y, false), true)?);
        }
        run(&fs, shape, c)
    });
    k.family("origin", "every ordered pair (8x8 label uses) and triple (8 uses of one label, 3 of another) where one of the files starts at x0000, so that its first label has the address that stands for external labels", 0, |ch, c| {
        let n = 2 + ch.choose(2);
        let zero = ch.choose(n);
        let shape = ch.choose(trees(n));
        let ys = if n == 2 { STATES } else { 3 };
        let mut fs = vec![];
        for i in 0..n {
            let (x, y) = (ch.choose(STATES), ch.choose(ys));
            let b = if i == zero { 0 } else { 0x3000 + 0x20 * i as u16 };
            fs.push(file(build(b, x, y, false), true)?);
        }
        run(&fs, shape, c)
    });
    k.family("blocks", "every ordered triple over 17 files with several blocks each (interleaved, nested between, touching, at x0000, at xFDFF, >32K long), chains of externals through the files, both bracketings", 0, |ch, c| {
        let blk = |o: u16, n: u16| vec![s(K::Orig(o)), s(K::Blkw(n)), s(K::End)];
        let two = |a: Vec<S>, b: Vec<S>| [a, b].concat();
        let pool: Vec<Vec<S>> = vec![
            vec![],
            two(blk(0x3000, 4), blk(0x3010, 4)),
            two(blk(0x3004, 4), blk(0x300C, 4)),
            two(blk(0x3014, 2), blk(0x2FFE, 2)),
            two(blk(0x3003, 1), blk(0x5000, 1)),
            blk(0x3000, 0x20),
            blk(0x3008, 4),
            blk(0x3013, 2),
            blk(0, 0x8001),
            blk(0x8000, 0x7E00),
            blk(0x8001, 0x7DFF),
            blk(0xFDFF, 1),
            vec![s(K::External("P".into())), s(K::Orig(0x6000)), ls(&["Q"], K::Fill(l("p"))), ls(&["R"], K::Halt), s(K::End)],
            vec![s(K::Orig(0x6002)), ls(&["p"], K::Fill(l("q"))), s(K::External("q".into())), s(K::External("r".into())), s(K::Fill(l("R"))), s(K::End), s(K::Orig(0x100)), s(K::Fill(l("Q"))), s(K::End)],
            vec![s(K::External("p".into())), s(K::External("q".into())), s(K::Orig(0xFDFE)), s(K::Fill(l("p"))), s(K::Fill(l("Q"))), s(K::End), s(K::Orig(0x5FFF)), s(K::Fill(l("P"))), s(K::End)],
            vec![s(K::Orig(0x6004)), ls(&["p"], K::Ret), s(K::End)],
            vec![s(K::Orig(0x6002)), ls(&["p", "S"], K::End)],
        ];
        let shape = ch.choose(2);
        let mut fs = vec![];
        for _ in 0..3 {
            fs.push(file(ch.pick(&pool).clone(), true)?);
        }
        run(&fs, shape, c)
    });
    k.family("names", "every ordered pair of files with 8x8 uses of two labels whose names are 10 pairs (case variants, accented and Cyrillic letters, letters of different lengths in upper and lower case, prefixes of each other, keyword-like, long), the second file spelling them in another case", 0, |ch, c| {
        let long = "x".repeat(300);
        let long2 = long.clone() + "Y";
        let pairs: [[&str; 4]; 10] = [
            ["xⱥ", "xz", "XȺ", "XZ"],
            ["xß", "xŉ", "XSS", "XʼN"],
            ["XȺ", "XȺ2", "xⱥ", "xⱥ2"],
            ["A", "B", "a", "b"],
            ["naïve", "nave", "NAÏVE", "NAVE"],
            ["bЖ1_я", "bЖ1_", "BЖ1_Я", "bж1_"],
            ["loop", "loop2", "LOOP", "LoOp2"],
            ["_", "__", "_", "__"],
            ["addx", "brx", "ADDX", "BRX"],
            [&long, &long2, &long, &long2],
        ];
        let n = ch.pick(&pairs);
        let mut fs = vec![];
        for i in 0..2 {
            let (x, y) = (ch.choose(STATES), ch.choose(STATES));
            let p = build_named(0x3000 + 0x40 * i as u16, x, y, false, n[2 * i], n[2 * i + 1]);
            fs.push(file(p, true)?);
        }
        run(&fs, 0, c)
    });
    k.family("many", "2 files that refer to 15-17, 127-129, 255-257 or 1000 external labels and 1 or 2 files that define all of them (in one block or a block each; the last up to 3 labels may stay undefined, or be defined twice with different addresses), every order of 3 and both bracketings", 0, |ch, c| {
        let n = *ch.pick(&[15usize, 16, 17, 127, 128, 129, 255, 256, 257, 1000]);
        let name = |i: usize| format!("L{i}");
        let miss = *ch.pick(&[0usize, 1, 3]);
        let twice = miss == 0 && ch.flag();
        let blocks = ch.flag();
        let user = |b: u16, k: usize| {
            let mut p: Vec<S> = (0..n).map(|i| s(K::External(name(i * k % n)))).collect();
            p.push(s(K::Orig(b)));
            p.extend((0..n).flat_map(|i| [s(K::Fill(Opd::L(name((i * k + 1) % n)))), s(K::Ret)]));
            p.push(s(K::End));
            p
        };
        let mut def = vec![];
        if !blocks {
            def.push(s(K::Orig(0x8000)));
        }
        for i in 0..n - miss {
            if blocks {
                def.push(s(K::Orig(0x8000 + 3 * (i * 7 % n) as u16)));
            }
            def.push(S { labels: vec![name(i)], k: K::Fill(Opd::N(i as i32)) });
            if blocks {
                def.push(s(K::End));
            }
        }
        if !blocks {
            def.push(s(K::End));
        }
        if blocks && n % 7 == 0 {
            return Ok(());
        }
        let mut second = user(0x5000, 7);
        if twice {
            second = vec![s(K::Orig(0x5000)), s(K::Ret), S { labels: vec![name(n - 1)], k: K::Ret }, s(K::End)];
        }
        let fs = [file(user(0x3000, 1), true)?, file(second, true)?, file(def, true)?];
        let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ch.choose(6)];
        let shape = ch.choose(2);
        let mut fs = fs.map(Some);
        let fs: Vec<File> = perm.iter().map(|&i| fs[i].take().unwrap()).collect();
        run(&fs, shape, c)
    });
    k.run()
}
