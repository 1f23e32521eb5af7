//! C22: linked debug info still points at the right source text.
use mc::lang::*;
use mc::linkfam::*;
use mc::surface::Rendered;
use mc::*;
use std::collections::BTreeMap;

/// Renders with a header, a footer and a line end of choice.
fn dress(prog: &[S], style: usize) -> Rendered {
    let (head, pad, foot, eol) = [
        ("", "", "", "\n"),
        ("\n\n; header é\n", "    ", "\n", "\n"),
        ("; x", "\t", "\r\n ; end", "\r\n"),
        ("", " ", "\n\n\n\n", "\n\n"),
        ("; ünï\r\n", "", " ; 💥", " ; c\n"),
    ][style];
    let mut r = Rendered { text: head.to_string(), ..Default::default() };
    if !head.is_empty() && !head.ends_with('\n') {
        r.text.push_str(eol);
    }
    for (i, st) in prog.iter().enumerate() {
        let o = &mut r.text;
        o.push_str(pad);
        let mut lr = vec![];
        for lb in &st.labels {
            lr.push(o.len()..o.len() + lb.len());
            o.push_str(lb);
            o.push(' ');
        }
        let at = o.len();
        o.push_str(&st.k.text());
        r.nuclei.push(at..o.len());
        r.labels.push(lr);
        if i + 1 < prog.len() {
            o.push_str(eol);
        }
    }
    r.text.push_str(foot);
    r
}

fn run(files: &[File], shape: usize, c: &mut Case) -> Res {
    let texts: Vec<&str> = files.iter().map(|f| &*f.r.text).collect();
    c.describe_lazy(|| format!("{texts:?} bracketing {shape}"));
    c.state(&texts);
    // what every address says in its own file
    let mut want: BTreeMap<u16, String> = BTreeMap::new();
    for f in files {
        let Some(sym) = f.obj.symbol_table() else { return fail("no-table", "assemble_debug gave no symbol table") };
        let Some(si) = sym.source_info() else { return fail("no-source", "assemble_debug kept no source") };
        for (i, a) in f.asm.stmt_addr.iter().enumerate() {
            let Some(a) = a else { continue };
            let own = real("lookup", || sym.rev_lookup_line(*a as u16).and_then(|n| si.read_line(n).map(str::to_string)))?;
            let st = &f.r.text[f.r.nuclei[i].clone()];
            match own {
                Some(t) if t.contains(st) => {
                    want.insert(*a as u16, t);
                }
                o => return fail("own-file", format!("in its own file x{a:04X} reads {o:?}, want a line with {st:?}")),
            }
        }
    }
    let o = match link_tree(files.iter().map(|f| f.obj.clone()).collect(), shape)? {
        Ok(o) => o,
        Err(e) => {
            c.outcome(&format!("not linked: {:?}", e.kind));
            return Ok(());
        }
    };
    c.outcome("linked");
    c.trace();
    let Some(sym) = o.symbol_table() else { return fail("no-table", format!("linked file has no symbol table: {texts:?}")) };
    let Some(si) = sym.source_info() else { return fail("no-source", format!("linked file has no source: {texts:?}")) };
    for f in files {
        for &a in f.asm.image.keys() {
            let got = real("lookup", || sym.rev_lookup_line(a).map(|n| (n, si.read_line(n).map(str::to_string))))?;
            c.trans(1);
            match (got, want.get(&a)) {
                (None, None) => {}
                (Some((n, Some(t))), Some(w)) if t == *w => {
                    let back = real("lookup_line", || sym.lookup_line(n))?;
                    ensure!(back == Some(a), "line", "x{a:04X} is on line {n}, which maps to {back:04X?}: {texts:?} bracketing {shape}");
                }
                (g, w) => return fail("line", format!("x{a:04X} is reported as {g:?}, its own file says {w:?}: {texts:?} bracketing {shape}")),
            }
        }
    }
    let labels: Vec<String> = real("label_iter", || sym.label_iter().map(|(n, _, _)| n.to_string()).collect())?;
    let src = si.source();
    for n in labels {
        let sp = real("get_label_source", || sym.get_label_source(&n))?;
        c.trans(1);
        let t = sp.clone().and_then(|r| src.get(r));
        ensure!(t.is_some_and(|t| t.to_uppercase() == n.to_uppercase()), "label-span", "label {n} has span {sp:?} = {t:?} in the combined source of {texts:?} bracketing {shape}");
        let sp = sp.unwrap();
        let idc = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
        let before = sp.start > 0 && idc(src.as_bytes()[sp.start - 1]);
        let after = sp.end < src.len() && idc(src.as_bytes()[sp.end]);
        ensure!(!before && !after, "label-span", "label {n} has span {sp:?} inside another word in the combined source of {texts:?}");
    }
    Ok(())
}

fn pool(slot: usize) -> Vec<Vec<S>> {
    let b = 0x3000 + 0x100 * slot as u16;
    let u = format!("only{slot}");
    let us = |k| S { labels: vec![u.clone()], k };
    vec![
        vec![],
        vec![s(K::Orig(b)), s(K::Add(slot as u8, 1, RI::I(slot as i32))), us(K::Halt), s(K::End)],
        vec![s(K::External("Shared".into())), s(K::Orig(b)), us(K::Fill(l("SHARED"))), s(K::Stringz("a\nb;".into())), s(K::End)],
        vec![s(K::Orig(b + 4)), ls(&["shared", "Other"], K::Blkw(3)), s(K::Nop(Opd::N(slot as i32))), s(K::End), s(K::Orig(b)), us(K::Trap(0x20 + slot as i32)), s(K::End)],
        vec![s(K::Orig(b)), us(K::Fill(l("Other"))), s(K::External("other".into())), s(K::Rti), s(K::External("SHARED".into())), s(K::End), s(K::Orig(b + 0x20)), ls(&["x"], K::End)],
        vec![s(K::Orig(b + 0x40)), S { labels: vec![format!("xⱥ{slot}ß"), format!("k{slot}ⱥ")], k: K::Ret }, S { labels: vec![format!("xŉ{slot}")], k: K::External("Xŉ".into()) }, s(K::Fill(l("xŉ"))), s(K::End)],
        vec![s(K::Orig(0xF000 - b)), us(K::Lea(slot as u8, l(&u))), s(K::End)],
    ]
}

fn main() {
    let mut k = Check::new("C22");
    k.family("pairs", "every ordered pair of 7 programs x 5 source styles (headers, blank lines, CRLF, missing/extra final newlines, non-ASCII comments)", 0, |ch, c| {
        let fs = (0..2).map(|i| { let p = ch.pick(&pool(i)).clone(); let r = dress(&p, ch.choose(5)); file_from(p, r, true) }).collect::<Res<Vec<_>>>()?;
        run(&fs, 0, c)
    });
    k.family("triples", "every ordered triple of 7 programs x 5 source styles, both bracketings", 0, |ch, c| {
        let shape = ch.choose(2);
        let fs = (0..3).map(|i| { let p = ch.pick(&pool(i)).clone(); let r = dress(&p, ch.choose(5)); file_from(p, r, true) }).collect::<Res<Vec<_>>>()?;
        run(&fs, shape, c)
    });
    let st = k.tier(2, 3);
    k.family("quads", "every ordered 4-tuple of 7 programs x 2 (thorough 3) source styles, all 5 bracketings", 0, move |ch, c| {
        let shape = ch.choose(5);
        let fs = (0..4).map(|i| { let p = ch.pick(&pool(i)).clone(); let r = dress(&p, 1 + ch.choose(st)); file_from(p, r, true) }).collect::<Res<Vec<_>>>()?;
        run(&fs, shape, c)
    });
    k.family("shared-blocks", "every ordered pair of 8x8 label uses x 7 block placements (the C20 pairs), each file in 5 styles", 0, |ch, c| {
        let mut fs = vec![];
        for i in 0..2u16 {
            let (x, y) = (ch.choose(STATES), ch.choose(STATES));
            let b = if i == 0 { 0x3000 } else { *ch.pick(&[0x3040u16, 0x2FF0]) };
            let p = build(b, x, y, true);
            let r = dress(&p, ch.choose(5));
            fs.push(file_from(p, r, true)?);
        }
        run(&fs, 0, c)
    });
    k.family("large", "triples of 3 programs where one file's source has a comment of 254-258 or 65534-65538 bytes, or 254-258 or 534-538 empty lines, both bracketings", 0, |ch, c| {
        let shape = ch.choose(2);
        let which = ch.choose(3);
        let n = *ch.pick(&[254usize, 65534]) + ch.choose(5);
        let kind = ch.choose(2);
        let mut fs = vec![];
        for i in 0..3 {
            let p = pool(i)[1 + (ch.choose(3) + i) % 3].clone();
            let mut r = dress(&p, 1);
            if i == which {
                let head = match kind {
                    0 => format!(";{}\n", "x".repeat(n - 2)),
                    _ => "\n".repeat(n % 1000),
                };
                for x in r.nuclei.iter_mut().chain(r.labels.iter_mut().flatten()) {
                    *x = x.start + head.len()..x.end + head.len();
                }
                r.text = head + &r.text;
            }
            fs.push(file_from(p, r, true)?);
        }
        run(&fs, shape, c)
    });
    k.family("many lines", "a file of 65530-65540 lines linked before or after two small ones, both bracketings", 0, |ch, c| {
        let shape = ch.choose(2);
        let which = ch.choose(3);
        let n = 65530 + ch.choose(11);
        let mut fs = vec![];
        for i in 0..3 {
            let mut p = pool(i)[2].clone();
            if i == which {
                p.splice(0..0, (0..n - p.len()).map(|_| s(K::External("Shared".into()))));
            }
            let r = dress(&p, 0);
            fs.push(file_from(p, r, true)?);
        }
        run(&fs, shape, c)
    });
    k.run()
}
