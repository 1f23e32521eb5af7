//! C26: error spans of the assembler (families of asmfam.rs) and of the linker.
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use mc::asmfam::{add_families, check_program, query_spans, Aspect};
use mc::asmmodel;
use mc::lang::*;
use mc::surface::render;
use mc::*;

fn main() {
    let mut k = Check::new("C26");
    add_families(&mut k, Aspect::Spans);
    let d = k.tier(4, 5);
    k.family("non-ascii-labels", "every sequence of up to 4 (thorough 5) items over definitions and uses of labels whose case mapping changes their byte length", 0, move |ch, c| {
        let items = [
            ls(&["xé"], K::Halt),
            ls(&["xÉ", "xŉ"], K::Getc),
            ls(&["xŉ"], K::Blkw(1)),
            ls(&["xıx"], K::Rti),
            ls(&["xŉŉŉ"], K::Ret),
            s(K::Fill(l("xıx"))),
            s(K::Br(7, l("xŉ"))),
            s(K::External("xé".into())),
            s(K::Lea(0, l("xÉ"))),
            s(K::External("xŉŉŉ".into())),
        ];
        let n = ch.choose(d + 1);
        let body: Vec<S> = (0..n).map(|_| ch.pick(&items).clone()).collect();
        let mut prog = body;
        if ch.flag() {
            prog.insert(0, s(K::Orig(0x3000)));
            prog.push(s(K::End));
        } else if ch.flag() {
            prog.insert(0, s(K::Orig(0x3000)));
            prog.insert(prog.len() / 2 + 1, s(K::End));
        }
        let r = render(&mut Ch::canonical(), &prog);
        check_program(Aspect::Spans, &prog, &r, c)
    });
    k.family("links", "every ordered triple of 13 files (touching, overlapping and equal blocks; equal, conflicting, external and non-ASCII labels), each with or without debug symbols, linked in both groupings", 0, |ch, c| {
        let files: [&[S]; 13] = [
            &[],
            &[s(K::Orig(0x3000)), ls(&["A"], K::Halt), s(K::End)],
            &[s(K::Orig(0x3000)), ls(&["B"], K::Halt), s(K::Halt), s(K::End)],
            &[s(K::Orig(0x3001)), ls(&["a"], K::Blkw(3)), s(K::End)],
            &[s(K::Orig(0x2FFF)), s(K::Blkw(2)), ls(&["b"], K::End)],
            &[s(K::External("A".into())), s(K::Orig(0x3005)), s(K::Fill(l("a"))), s(K::End)],
            &[s(K::Orig(0x3002)), ls(&["A"], K::Fill(l("A"))), s(K::External("B".into())), s(K::Fill(l("B"))), s(K::End)],
            &[s(K::Orig(0x4000)), ls(&["xŉŉ", "c"], K::Halt), s(K::End)],
            &[s(K::Orig(0x4001)), ls(&["xŉŉ"], K::Halt), s(K::End)],
            &[s(K::Orig(0xFDFF)), ls(&["C"], K::Halt), s(K::End)],
            &[s(K::Orig(0)), s(K::Blkw(0x8000)), ls(&["D"], K::End)],
            &[s(K::Orig(0x7FFF)), ls(&["D"], K::Blkw(2)), s(K::End)],
            &[s(K::External("D".into())), s(K::External("B".into())), s(K::Orig(0x8001)), s(K::Fill(l("d"))), s(K::Fill(l("b"))), s(K::End)],
        ];
        let mut objs = vec![];
        let mut texts = vec![];
        for _ in 0..3 {
            let f = *ch.pick(&files);
            let debug = ch.choose(2) == 0;
            let r = render(&mut Ch::canonical(), f);
            let ast = real("parse_ast", || parse_ast(&r.text))?.map_err(|e| Fail { key: "parse".into(), msg: format!("{e:?}") })?;
            let o = real("assemble", || if debug { assemble_debug(ast, &r.text) } else { assemble(ast) })?;
            match o {
                Ok(o) => objs.push(o),
                Err(e) => return fail("rejected", format!("{:?}: {:?}", e.kind, r.text)),
            }
            texts.push(r.text);
        }
        let right = ch.flag();
        c.describe(|| format!("{texts:?} right-grouped={right}"));
        c.state(&(&texts, right));
        c.trace();
        c.trans(2);
        let z = objs.pop().unwrap();
        let y = objs.pop().unwrap();
        let x = objs.pop().unwrap();
        let mut link = |a: ObjectFile, b: ObjectFile| -> Res<Option<ObjectFile>> {
            match real("link", || ObjectFile::link(a, b))? {
                Ok(o) => {
                    c.outcome("linked");
                    Ok(Some(o))
                }
                Err(e) => {
                    c.outcome(&format!("{:?}", asmmodel::v_of(&e.kind)));
                    query_spans(&e)?;
                    Ok(None)
                }
            }
        };
        if right {
            if let Some(yz) = link(y, z)? {
                link(x, yz)?;
            }
        } else if let Some(xy) = link(x, y)? {
            link(xy, z)?;
        }
        Ok(())
    });
    k.run()
}
