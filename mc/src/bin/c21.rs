//! C21: external references are never silently left unresolved.
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::{SimErr, Simulator};
use mc::lang::*;
use mc::linkfam::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    static SIM: RefCell<Option<Simulator>> = const { RefCell::new(None) };
}
enum Loaded {
    Ok(BTreeMap<u16, u16>),
    Unresolved(String),
    Other(String),
}
/// Loads into a simulator and reads the words at `addrs`.
fn load(o: &ObjectFile, addrs: &[u16]) -> Res<Loaded> {
    SIM.with(|s| {
        let mut s = s.borrow_mut();
        let sim = s.get_or_insert_with(|| Simulator::new(Default::default()));
        for &a in addrs {
            sim.mem[a] = lc3_ensemble::sim::mem::Word::new_init(0xDEAD);
        }
        Ok(match real("load_obj_file", || sim.load_obj_file(o))? {
            Ok(()) => Loaded::Ok(addrs.iter().map(|&a| (a, sim.mem[a].get())).collect()),
            Err(SimErr::UnresolvedExternal(n)) => Loaded::Unresolved(n),
            Err(e) => Loaded::Other(format!("{e:?}")),
        })
    })
}

/// Loading must fail while some reference is pending, and succeed with the right words otherwise.
fn check_load(o: &ObjectFile, refs: &BTreeMap<u16, Option<u16>>, key: &str, ctx: &dyn Fn() -> String, c: &mut Case) -> Res {
    let addrs: Vec<u16> = refs.keys().copied().collect();
    let pending = refs.values().any(|v| v.is_none());
    c.trans(1);
    match load(o, &addrs)? {
        Loaded::Unresolved(n) => {
            c.outcome("unresolved reported");
            // an unused pending declaration may also be reported; a fully resolved file must load
            ensure!(pending, key, "{}: loading reports {n} unresolved although every reference has a definition", ctx());
        }
        Loaded::Ok(ws) => {
            c.outcome("loaded");
            ensure!(!pending, "silent", "{}: loads without error although references are unresolved ({refs:04X?}); words {ws:04X?}", ctx());
            for (a, w) in ws {
                ensure!(Some(w) == refs[&a], "word", "{}: word at x{a:04X} is x{w:04X}, want {:04X?}", ctx(), refs[&a]);
            }
        }
        Loaded::Other(e) => return fail("load", format!("{}: loading fails with {e}", ctx())),
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C21");
    k.assume("the definer of a label is a single other file; declared-but-unused externals are avoided in files that must load");
    let len = k.tier(5, 6);
    k.family("placement", &format!("every block body of up to {len} items over 9 (fills of two externals in two spellings, declarations of both before/between/after uses, code, own label and reference), in one or two blocks, the declarations also outside of blocks; assembled with and without debug symbols; loaded directly, and linked with the definers of one or both labels (each with/without debug symbols) in both orders"), 0, move |ch, c| {
        let items = [
            s(K::Fill(l("X"))),
            s(K::External("X".into())),
            s(K::Fill(l("x"))),
            s(K::Fill(l("Yz"))),
            s(K::External("yZ".into())),
            s(K::Halt),
            ls(&["own"], K::Fill(l("OWN"))),
            s(K::End),
            s(K::Blkw(2)),
        ];
        let n = 1 + ch.choose(len);
        let mut body: Vec<S> = (0..n).map(|_| ch.pick(&items).clone()).collect();
        let uses = |n: &str| body.iter().any(|b| matches!(&b.k, K::Fill(Opd::L(x)) if x.eq_ignore_ascii_case(n)));
        let decl = |n: &str| body.iter().any(|b| matches!(&b.k, K::External(x) if x.eq_ignore_ascii_case(n)));
        let (ux, uy) = (uses("X"), uses("YZ"));
        let (dx, dy) = (decl("X"), decl("YZ"));
        if (dx && !ux) || (dy && !uy) || (!ux && !uy) {
            return Ok(());
        }
        if body.iter().filter(|b| b.labels.len() == 1).count() > 1 {
            return Ok(());
        }
        // split into blocks at .end
        let mut prog = vec![];
        let mut origs = vec![0x3000u16, 0x4000, 0x2000, 0x5000, 0x1000].into_iter();
        let before = ch.flag();
        let mut open = false;
        for st in body.drain(..) {
            if !open && !matches!(st.k, K::External(_)) {
                prog.push(s(K::Orig(origs.next().unwrap())));
                open = true;
            }
            if st.k == K::End {
                open = false;
            }
            prog.push(st);
        }
        if open {
            prog.push(s(K::End));
        }
        // declarations not made inside go outside, before or after everything
        for (u, d, n) in [(ux, dx, "X"), (uy, dy, "YZ")] {
            if u && !d {
                if before { prog.insert(0, s(K::External(n.into()))) } else { prog.push(s(K::External(n.into()))) }
            }
        }
        if dx && dy && before {
            return Ok(()); // same program as !before
        }
        let debug = ch.flag();
        let main = file(prog, debug)?;
        let text = main.r.text.clone();
        c.describe_lazy(|| format!("debug={debug} {text:?}"));
        c.state(&(&text, debug));
        c.trace();
        let pend: BTreeMap<u16, Option<u16>> = main.asm.rel.keys().map(|&a| (a, None)).collect();
        check_load(&main.obj, &pend, "rejected", &|| format!("debug={debug} {text:?}"), c)?;
        let main2 = main.obj.clone();

        // definers
        let which = ch.choose(4);
        let ld = ch.flag();
        let order = ch.choose(4);
        let defs: Vec<(&str, u16, Vec<S>)> = vec![
            ("X", 0x6001, vec![s(K::Orig(0x6000)), s(K::Halt), ls(&["x"], K::Rti), s(K::End)]),
            ("YZ", 0x7000, vec![s(K::Orig(0x7000)), ls(&["Yz"], K::Blkw(1)), s(K::End)]),
        ];
        let both = vec![s(K::Orig(0x6000)), s(K::Halt), ls(&["X"], K::Rti), s(K::End), s(K::Orig(0x7000)), ls(&["yz"], K::Blkw(1)), s(K::End)];
        let mut libs = vec![];
        match which {
            0 => libs.push(file(defs[0].2.clone(), ld)?),
            1 => libs.push(file(defs[1].2.clone(), ld)?),
            2 => libs.push(file(both, ld)?),
            _ => {
                libs.push(file(defs[0].2.clone(), ld)?);
                libs.push(file(defs[1].2.clone(), ld)?);
            }
        }
        let mut objs: Vec<ObjectFile> = libs.iter().map(|f| f.obj.clone()).collect();
        let at = match order { 0 | 2 => 0, _ => objs.len() };
        objs.insert(at, main2);
        let shape = if objs.len() == 3 { order / 2 } else if order >= 2 { return Ok(()) } else { 0 };
        let refs: BTreeMap<u16, Option<u16>> = main.asm.rel.iter().map(|(&a, n)| {
            let d = match (&**n, which) {
                ("X", 0 | 2 | 3) => Some(0x6001),
                ("YZ", 1..=3) => Some(0x7000),
                _ => None,
            };
            (a, d)
        }).collect();
        let ctx = || format!("main debug={debug} {text:?}, libs debug={ld} {:?}, order {order}", libs.iter().map(|f| &*f.r.text).collect::<Vec<_>>());
        let o = match link_tree(objs, shape)? {
            Ok(o) => o,
            Err(e) => return fail("link", format!("{}: link fails with {:?}", ctx(), e.kind)),
        };
        let key = if ld { "left-unresolved" } else { "definer-assembled-without-debug" };
        check_load(&o, &refs, key, &ctx, c)
    });
    k.family("names", "main with an external of 14 names (one letter, keyword-like, case variants, accented and Cyrillic letters, letters of different lengths in upper and lower case, 300 characters), declared before, between or after two uses, each spelled in one of 3 ways; assembled with and without debug symbols; alone, and linked in both orders with a file that defines the label in one of 3 spellings (on code, data or .end)", 0, |ch, c| {
        let long = "Long_".repeat(60);
        let (longu, longl) = (long.to_uppercase(), long.to_lowercase());
        let pool: [[&str; 3]; 14] = [
            ["q", "Q", "q"], ["addx", "ADDX", "aDDx"], ["_", "_", "_"], ["R8x", "r8X", "R8X"], ["x_", "X_", "x_"], ["naïve", "NAÏVE", "naÏve"], ["bЖ1_я", "BЖ1_Я", "bж1_я"],
            ["xⱥ", "XȺ", "xȺ"], ["xß", "XSS", "xss"], ["xŉy", "XʼNY", "xŉY"], ["kıx", "KIX", "kix"], ["HALTs", "halts", "Halts"], ["end_", "END_", "eNd_"], [&long, &longu, &longl],
        ];
        let n = *ch.pick(&pool);
        let sp: Vec<&str> = (0..4).map(|_| *ch.pick(&n)).collect();
        let at = ch.choose(4);
        let mut body = vec![s(K::Orig(0x3000)), s(K::Fill(l(sp[0]))), s(K::Fill(l(sp[1]))), s(K::End)];
        body.insert(at, s(K::External(sp[2].into())));
        let debug = ch.flag();
        let main = file(body, debug)?;
        let text = main.r.text.clone();
        c.describe_lazy(|| format!("debug={debug} {text:?}"));
        c.state(&(&text, debug));
        c.trace();
        let refs: BTreeMap<u16, Option<u16>> = main.asm.rel.keys().map(|&a| (a, None)).collect();
        check_load(&main.obj, &refs, "rejected", &|| format!("debug={debug} {text:?}"), c)?;
        let d = match ch.choose(3) {
            0 => vec![s(K::Orig(0x6000)), s(K::Halt), ls(&[sp[3]], K::Rti), s(K::End)],
            1 => vec![s(K::Orig(0x6000)), s(K::Halt), ls(&["other", sp[3]], K::Fill(l(sp[3]))), s(K::End)],
            _ => vec![s(K::Orig(0x6000)), s(K::Halt), ls(&[sp[3]], K::End)],
        };
        let lib = file(d, true)?;
        let refs: BTreeMap<u16, Option<u16>> = refs.into_keys().map(|a| (a, Some(0x6001))).collect();
        let ctx = || format!("main debug={debug} {text:?}, lib {:?}", lib.r.text);
        let o = if ch.flag() { vec![main.obj.clone(), lib.obj.clone()] } else { vec![lib.obj.clone(), main.obj.clone()] };
        let o = match link_tree(o, 0)? {
            Ok(o) => o,
            Err(e) => return fail("link", format!("{}: link fails with {:?}", ctx(), e.kind)),
        };
        check_load(&o, &refs, "left-unresolved", &ctx, c)
    });
    k.family("chain", "main and two helper files that all use the external in several fills, linked one after the other (all 6 orders and both bracketings) with the definer arriving first, middle or last; every subset assembled without debug symbols", 0, |ch, c| {
        let mk = |o: u16, after: bool, uses: usize| {
            let mut p = vec![];
            if !after {
                p.push(s(K::External("T".into())));
            }
            p.push(s(K::Orig(o)));
            for i in 0..uses {
                p.push(s(K::Fill(l(["T", "t"][i % 2]))));
            }
            if after {
                p.push(s(K::External("t".into())));
            }
            p.push(s(K::End));
            p
        };
        let def = vec![s(K::Orig(0x6000)), s(K::Blkw(5)), ls(&["T"], K::Ret), s(K::End)];
        let mut fs = vec![];
        for i in 0..2u16 {
            let p = mk(0x3000 + 0x1000 * i, ch.flag(), 1 + ch.choose(3));
            fs.push(file(p, ch.flag())?);
        }
        let with_def = ch.flag();
        let third = if with_def { file(def, true)? } else { file(mk(0x6000, ch.flag(), 2), ch.flag())? };
        fs.push(third);
        let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ch.choose(6)];
        let shape = ch.choose(2);
        let refs: BTreeMap<u16, Option<u16>> = fs.iter().flat_map(|f| f.asm.rel.keys().map(|&a| (a, with_def.then_some(0x6005)))).collect();
        let ctx = || format!("{:?} order {perm:?} bracketing {shape}", fs.iter().map(|f| (&*f.r.text, f.obj.symbol_table().is_some_and(|s| s.source_info().is_some()))).collect::<Vec<_>>());
        c.describe_lazy(ctx);
        c.state(&ctx());
        c.trace();
        let o = match link_tree(perm.iter().map(|&i| fs[i].obj.clone()).collect(), shape)? {
            Ok(o) => o,
            Err(e) => return fail("link", format!("{}: link fails with {:?}", ctx(), e.kind)),
        };
        check_load(&o, &refs, "left-unresolved", &ctx, c)
    });
    k.run()
}
