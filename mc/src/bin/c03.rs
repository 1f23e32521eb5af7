//! C03: the parser returns exactly the statements written, layout-insensitively.
use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::parse::parse_ast;
use mc::lang::*;
use mc::surface::{alphabet, render, Rendered};
use mc::*;

fn check(prog: &[S], r: &Rendered, c: &mut Case) -> Res {
    c.describe(|| format!("{:?}", r.text));
    c.state(&r.text);
    c.trace();
    c.trans(prog.len() as u64);
    let got = real("parse_ast", || parse_ast(&r.text))?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("rejected", format!("well-formed text rejected: {e:?}")),
    };
    let g: Vec<S> = got.iter().map(from_real).collect();
    ensure!(g == prog, "statements", "parsed {g:?}\nwant   {prog:?}");
    for (i, st) in got.iter().enumerate() {
        let n = &r.nuclei[i];
        let ok = st.span == *n;
        ensure!(ok, "span", "statement {i} ({:?}) at {:?} has span {:?} = {:?}", prog[i].k, n, st.span, r.text.get(st.span.clone()));
        for (j, lb) in st.labels.iter().enumerate() {
            ensure!(lb.span() == r.labels[i][j], "label-span", "label {} at {:?} has span {:?}", lb.name, r.labels[i][j], lb.span());
        }
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C03");
    k.assume("string literals use the documented escapes");
    let al = alphabet();
    let a2 = al.clone();
    let d = k.tier(3, 4);
    k.family("statement", "every statement kind, alone, without and with labels, all surface syntax combinations with at most 3 (thorough 4) departures from canonical layout", d, move |ch, c| {
        let kd = ch.pick(&a2).clone();
        let lbs: &[&str] = ch.pick_dev(&[&[] as &[&str], &["LOOP"], &["a", "B_2"], &["xyz"], &["addx", "R", "BRnzpx"], &["L1", "l2", "L3"], &["naïve", "bЖ1_я"], &["xⱥ", "XȺ٣", "xŉ"]]);
        let prog = vec![ls(lbs, kd)];
        let r = render(ch, &prog);
        check(&prog, &r, c)
    });
    let (a3, a4) = (al.clone(), al.clone());
    k.family("pairs", "every ordered pair of statement kinds, all layouts with at most 2 departures", k.tier(2, 2), move |ch, c| {
        let x = ch.pick(&a3).clone();
        let y = ch.pick(&a3).clone();
        let lb: &[&str] = ch.pick(&[&[] as &[&str], &["Lab", "xⱥ_"]]);
        let prog = vec![s(x), ls(lb, y)];
        let r = render(ch, &prog);
        check(&prog, &r, c)
    });
    k.family("far", "every statement kind after 0-3 labels, behind 254-258 and 65534-65538 bytes of blanks, of a comment, or of declarations", 0, move |ch, c| {
        let n = *ch.pick(&[254usize, 65534]) + ch.choose(5);
        let kd = ch.pick(&a4).clone();
        let lbs: &[&str] = ch.pick(&[&[] as &[&str], &["LOOP"], &["a", "B_2", "c"]]);
        let mut prog = vec![ls(lbs, kd)];
        let head = match ch.choose(4) {
            0 => " ".repeat(n),
            1 => format!(";{}\n", "x".repeat(n - 2)),
            2 => format!(".external {}\n", "x".repeat(n - 11)),
            _ => format!(".stringz \"{}\"\n", "x".repeat(n - 12)),
        };
        match head.chars().nth(1) {
            Some('e') => prog.insert(0, s(K::External("x".repeat(n - 11)))),
            Some('s') => prog.insert(0, s(K::Stringz("x".repeat(n - 12)))),
            _ => {}
        }
        let mut r = render(&mut Ch::canonical(), &prog[prog.len() - 1..]);
        for x in r.nuclei.iter_mut().chain(r.labels.iter_mut().flatten()) {
            *x = x.start + n..x.end + n;
        }
        if prog.len() > 1 {
            r.nuclei.insert(0, 0..n - 1);
            r.labels.insert(0, vec![]);
        }
        r.text = head + &r.text;
        check(&prog, &r, c)
    });
    // complete programs: the same statements, and therefore the same image and label addresses
    let d = k.tier(2, 3);
    k.family("programs", "complete programs (loops, subroutines, data, several blocks, externals): all layouts with at most 2 (thorough 3) departures; assembled image and label addresses must equal those of the canonical layout", d, move |ch, c| {
        let n = Opd::N;
        let progs: Vec<Vec<S>> = vec![
            vec![s(K::Orig(0x3000)), ls(&["loop"], K::Add(1, 1, RI::I(-1))), s(K::Br(5, l("LOOP"))), s(K::Halt), s(K::End)],
            vec![s(K::Orig(0x3000)), s(K::Ld(0, l("V"))), s(K::Jsr(l("sub"))), s(K::Trap(0x25)), ls(&["V"], K::Fill(n(65535))), ls(&["SUB", "s2"], K::Ret), s(K::End)],
            vec![s(K::Orig(0x4000)), ls(&["msg"], K::Stringz("a;\t\"b".into())), ls(&["buf"], K::Blkw(3)), ls(&["e"], K::End), s(K::Orig(0x3000)), s(K::Lea(0, n(5))), s(K::Nop(n(0))), s(K::Nop(l("here"))), ls(&["here"], K::Ldr(1, 2, -32)), s(K::End)],
            vec![s(K::External("Ext".into())), s(K::Orig(0x3000)), ls(&["p"], K::Fill(l("EXT"))), s(K::Fill(l("P"))), s(K::End)],
        ];
        let p = ch.choose(progs.len());
        let prog = &progs[p];
        let r = render(ch, prog);
        check(prog, &r, c)?;
        let canon = program_text(prog);
        let out = real("assemble", || {
            let a = assemble_debug(parse_ast(&canon).unwrap(), &canon).unwrap();
            let b = assemble_debug(parse_ast(&r.text).unwrap(), &r.text);
            let b2 = assemble(parse_ast(&r.text).unwrap());
            let img = |o: &lc3_ensemble::asm::ObjectFile| o.addr_iter().collect::<Vec<_>>();
            let lab = |o: &lc3_ensemble::asm::ObjectFile| {
                let mut v: Vec<_> = o.symbol_table().unwrap().label_iter().map(|(l, a, e)| (l.to_uppercase(), a, e)).collect();
                v.sort();
                v
            };
            let (b, b2) = match (b, b2) {
                (Ok(b), Ok(b2)) => (b, b2),
                e => return Err(format!("{e:?}")),
            };
            Ok((img(&a) == img(&b) && img(&a) == img(&b2), lab(&a) == lab(&b)))
        })?;
        c.trans(2);
        match out {
            Ok((true, true)) => Ok(()),
            Ok(x) => fail("metamorphic", format!("image equal: {}, labels equal: {}", x.0, x.1)),
            Err(e) => fail("metamorphic", format!("does not assemble: {e}")),
        }
    });
    k.family("case", "every keyword and directive in every upper/lower case pattern of its letters (complete)", 0, move |ch, c| {
        let x = ch.pick(&al).clone();
        let t = x.text();
        let (head, rest) = t.split_at(t.find(' ').unwrap_or(t.len()));
        let mut h: Vec<char> = head.chars().collect();
        for q in h.iter_mut() {
            if q.is_ascii_alphabetic() {
                *q = if ch.flag() { q.to_ascii_uppercase() } else { q.to_ascii_lowercase() };
            }
        }
        let head: String = h.into_iter().collect();
        let text = format!("{head}{rest}");
        let r = Rendered { nuclei: vec![0..text.len()], labels: vec![vec![]], text };
        check(&[s(x)], &r, c)
    });
    k.run()
}
