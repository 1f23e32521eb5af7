//! Program families and oracles shared by the assembler properties (C01, C02, C23, C24, C26).
use crate::asmmodel::{self, up, v_of, Asm, V};
use crate::lang::*;
use crate::surface::{render, Rendered};
use crate::{ensure, fail, real, Case, Ch, Check, Res};
use lc3_ensemble::asm::{assemble, assemble_debug, AsmErr, ObjectFile, SymbolTable};
use lc3_ensemble::parse::parse_ast;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Image,
    Accept,
    Labels,
    Lines,
    Spans,
}
use Aspect::*;

pub fn check_program(asp: Aspect, prog: &[S], r: &Rendered, c: &mut Case) -> Res {
    c.describe_lazy(|| format!("{:?}", r.text));
    let ast = match real("parse_ast", || parse_ast(&r.text))? {
        Ok(a) => a,
        Err(e) => return fail("parse", format!("well-formed text does not parse ({e:?}): {:?}", r.text)),
    };
    let m = asmmodel::assemble(prog);
    if m.ambiguous_use || (m.ambiguous && asp != Accept) {
        c.outcome("skipped: name both external and at x0000");
        return Ok(());
    }
    c.state(&r.text);
    c.trans(prog.len() as u64);
    c.trace();
    for v in &m.viol {
        c.outcome(&format!("{v:?}"));
    }
    let plain = real("assemble", || assemble(ast.clone()))?;
    let debug = real("assemble_debug", || assemble_debug(ast.clone(), &r.text))?;
    match asp {
        Accept => {
            for (what, res) in [("assemble", &plain), ("assemble_debug", &debug)] {
                match res {
                    Ok(_) => ensure!(m.viol.is_empty(), "accepted", "{what} accepts a program violating {:?}: {:?}", m.viol, r.text),
                    Err(e) => {
                        ensure!(!m.viol.is_empty(), "rejected", "{what} rejects a well-formed program with {:?}: {:?}", e.kind, r.text);
                        ensure!(m.viol.contains(&v_of(&e.kind)), "kind", "{what} reports {:?}, but the program violates {:?}: {:?}", e.kind, m.viol, r.text);
                    }
                }
            }
        }
        Spans => {
            for res in [plain, debug] {
                if let Err(e) = res {
                    check_err(&e, &m, &r.text, c)?;
                }
            }
            let st = real("SymbolTable::new", || SymbolTable::new(&ast, None))?;
            if let Err(e) = st {
                check_err(&e, &m, &r.text, c)?;
            }
        }
        _ if !m.viol.is_empty() => c.outcome("ill-formed"),
        _ => {
            let (plain, debug) = match (plain, debug) {
                (Ok(p), Ok(d)) => (p, d),
                (p, d) => return fail("rejected", format!("well-formed program rejected ({:?}, {:?}): {:?}", p.err(), d.err(), r.text)),
            };
            match asp {
                Image => check_image(&plain, &debug, &ast, &m, r)?,
                Labels => check_labels(&debug, &ast, &m, r)?,
                Lines => check_lines(&debug, &m, r)?,
                _ => {}
            }
        }
    }
    Ok(())
}

/// The memory image of an object file; an address defined twice is a violation.
pub fn image_of(o: &ObjectFile) -> Res<BTreeMap<u16, Option<u16>>> {
    let v: Vec<(u16, Option<u16>)> = real("addr_iter", || o.addr_iter().collect())?;
    let n = v.len();
    let m: BTreeMap<_, _> = v.into_iter().collect();
    ensure!(m.len() == n, "defined-twice", "an address is defined twice in the object file");
    Ok(m)
}
pub fn diff(got: &BTreeMap<u16, Option<u16>>, want: &BTreeMap<u16, Option<u16>>) -> Option<String> {
    if got == want {
        return None;
    }
    for (a, w) in want {
        match got.get(a) {
            None => return Some(format!("x{a:04X} is not defined, want {w:04X?}")),
            Some(g) if g != w => return Some(format!("x{a:04X} holds {g:04X?}, want {w:04X?}")),
            _ => {}
        }
    }
    let a = got.keys().find(|a| !want.contains_key(a)).unwrap();
    Some(format!("x{a:04X} is defined as {:04X?}, should not be", got[a]))
}

fn check_image(plain: &ObjectFile, debug: &ObjectFile, ast: &[lc3_ensemble::ast::asm::Stmt], m: &Asm, r: &Rendered) -> Res {
    for (what, o) in [("assemble", plain), ("assemble_debug", debug)] {
        let got = image_of(o)?;
        if let Some(d) = diff(&got, &m.image) {
            return fail("image", format!("{what}: {d}: {:?}", r.text));
        }
    }
    let Some(sym) = debug.symbol_table() else { return fail("label", "assemble_debug gave no symbol table") };
    let sym2 = real("SymbolTable::new", || SymbolTable::new(ast, None))?;
    for (n, lab) in &m.labels {
        let g = real("lookup_label", || sym.lookup_label(n))?;
        ensure!(g == Some(lab.addr as u16), "label", "label {n} maps to {g:04X?}, want x{:04X}: {:?}", lab.addr, r.text);
        let Ok(s2) = &sym2 else { return fail("rejected", "SymbolTable::new rejects a well-formed program") };
        let g = real("lookup_label", || s2.lookup_label(n))?;
        ensure!(g == Some(lab.addr as u16), "label", "SymbolTable::new maps {n} to {g:04X?}, want x{:04X}: {:?}", lab.addr, r.text);
    }
    Ok(())
}

/// Letters that have exactly one upper and one lower case form, each the other's.
fn cased(c: char) -> Option<(char, char)> {
    let one = |mut i: Box<dyn Iterator<Item = char>>| match (i.next(), i.next()) {
        (Some(x), None) => Some(x),
        _ => None,
    };
    let (u, l) = (one(Box::new(c.to_uppercase()))?, one(Box::new(c.to_lowercase()))?);
    (u != l && one(Box::new(l.to_uppercase())) == Some(u) && one(Box::new(u.to_lowercase())) == Some(l)).then_some((u, l))
}
fn spellings(n: &str) -> Vec<String> {
    let chars: Vec<char> = n.chars().collect();
    let letters: Vec<usize> = (0..chars.len()).filter(|&i| cased(chars[i]).is_some()).collect();
    let k = letters.len().min(6);
    (0..1u32 << k)
        .map(|mask| {
            let all = mask == (1 << k) - 1;
            (0..chars.len())
                .map(|i| match (cased(chars[i]), letters.iter().position(|&j| j == i)) {
                    (Some((u, _)), _) if all => u,
                    (Some((u, l)), Some(j)) => if j < k && mask >> j & 1 == 1 { u } else { l },
                    _ => chars[i],
                })
                .collect()
        })
        .collect()
}
fn occ_span(r: &Rendered, occ: (usize, Option<usize>)) -> std::ops::Range<usize> {
    match occ.1 {
        Some(j) => r.labels[occ.0][j].clone(),
        None => {
            // the operand of `.external` is the last thing of the nucleus
            let n = &r.nuclei[occ.0];
            let len = r.text[n.clone()].rsplit(char::is_whitespace).next().unwrap().len();
            n.end - len..n.end
        }
    }
}
/// All label queries of a symbol table against the model; `with_src`: the spans refer to `r.text`.
pub fn check_table(sym: &SymbolTable, m: &Asm, r: &Rendered, what: &str) -> Res {
    for (n, lab) in &m.labels {
        let span = occ_span(r, lab.first);
        for sp in spellings(n).into_iter().chain([r.text[span.clone()].to_string()]) {
            let g = real("lookup_label", || sym.lookup_label(&sp))?;
            ensure!(g == Some(lab.addr as u16), "address-lookup", "{what}: lookup_label({sp:?}) = {g:04X?}, want x{:04X}: {:?}", lab.addr, r.text);
            let g = real("get_label_source", || sym.get_label_source(&sp))?;
            // (without the text, the length of the label as written is unknown)
            let key = if sp.len() != span.len() && sym.source_info().is_none() { "respelled-to-other-length-without-text" } else { "source-lookup" };
            ensure!(g == Some(span.clone()), key, "{what}: get_label_source({sp:?}) = {g:?}, want {span:?}: {:?}", r.text);
        }
        let g = real("rev_lookup_label", || sym.rev_lookup_label(lab.addr as u16).map(str::to_string))?;
        let ok = g.as_ref().and_then(|g| m.labels.get(&up(g))).is_some_and(|x| x.addr == lab.addr);
        ensure!(ok, "reverse-lookup", "{what}: rev_lookup_label(x{:04X}) = {g:?}: {:?}", lab.addr, r.text);
    }
    let got: Vec<(String, u16, bool)> = real("label_iter", || sym.label_iter().map(|(a, b, c)| (up(a), b, c)).collect())?;
    let mut got_s = got.clone();
    got_s.sort();
    let want: Vec<(String, u16, bool)> = m.labels.iter().map(|(n, x)| (n.clone(), x.addr as u16, x.ext)).collect();
    ensure!(got_s == want, "listing", "{what}: label_iter = {got_s:?}, want {want:?}: {:?}", r.text);
    for n in ["", "ZZ", "zz", "A ", " A", "AB", "A:", "_", "ORIG", ".A", "B2", "É"] {
        if !m.labels.contains_key(&up(n)) {
            let g = real("lookup_label", || sym.lookup_label(n))?;
            let h = real("get_label_source", || sym.get_label_source(n))?;
            ensure!(g.is_none() && h.is_none(), "unknown-name", "{what}: {n:?} is not a label, but the lookups give {g:?} {h:?}: {:?}", r.text);
        }
    }
    let addrs: BTreeSet<u16> = m.labels.values().map(|x| x.addr as u16).collect();
    for a in addrs.iter().flat_map(|a| [a.wrapping_sub(1), a.wrapping_add(1)]).chain([0, 1, 0x3000, 0xFFFF]) {
        if !addrs.contains(&a) {
            let g = real("rev_lookup_label", || sym.rev_lookup_label(a).map(str::to_string))?;
            ensure!(g.is_none(), "reverse-lookup", "{what}: no label at x{a:04X}, but rev_lookup_label gives {g:?}: {:?}", r.text);
        }
    }
    Ok(())
}
fn check_labels(debug: &ObjectFile, ast: &[lc3_ensemble::ast::asm::Stmt], m: &Asm, r: &Rendered) -> Res {
    let Some(sym) = debug.symbol_table() else { return fail("label", "assemble_debug gave no symbol table") };
    check_table(sym, m, r, "assemble_debug")?;
    for src in [None, Some(&*r.text)] {
        match real("SymbolTable::new", || SymbolTable::new(ast, src))? {
            Ok(s) => check_table(&s, m, r, "SymbolTable::new")?,
            Err(e) => return fail("rejected", format!("SymbolTable::new rejects a well-formed program: {:?}: {:?}", e.kind, r.text)),
        }
    }
    Ok(())
}

fn check_lines(debug: &ObjectFile, m: &Asm, r: &Rendered) -> Res {
    let Some(sym) = debug.symbol_table() else { return fail("label", "assemble_debug gave no symbol table") };
    let line_of = |p: usize| r.text[..p].matches('\n').count();
    let mut want: BTreeMap<usize, u16> = BTreeMap::new();
    for (i, a) in m.stmt_addr.iter().enumerate() {
        if let Some(a) = a {
            want.insert(line_of(r.nuclei[i].start), *a as u16);
        }
    }
    let nl = r.text.matches('\n').count() + 1;
    for ln in (0..nl + 3).chain([usize::MAX, usize::MAX - 1, 1 << 40]) {
        let g = real("lookup_line", || sym.lookup_line(ln))?;
        ensure!(g == want.get(&ln).copied(), "line-to-address", "lookup_line({ln}) = {g:04X?}, want {:04X?}: {:?}", want.get(&ln), r.text);
    }
    for (&ln, &a) in &want {
        let g = real("rev_lookup_line", || sym.rev_lookup_line(a))?;
        ensure!(g == Some(ln), "address-to-line", "rev_lookup_line(x{a:04X}) = {g:?}, want {ln}: {:?}", r.text);
    }
    let first: BTreeSet<u16> = want.values().copied().collect();
    let probe = m.image.keys().copied().take(40).chain(first.iter().flat_map(|a| [a.wrapping_sub(1), a.wrapping_add(1)])).chain([0, 0x3000, 0xFDFF, 0xFFFF]);
    for a in probe {
        if !first.contains(&a) {
            let g = real("rev_lookup_line", || sym.rev_lookup_line(a))?;
            ensure!(g.is_none(), "address-to-line", "no line maps to x{a:04X}, but rev_lookup_line gives {g:?}: {:?}", r.text);
        }
    }
    let got: Vec<(usize, u16)> = real("line_iter", || sym.line_iter().collect())?;
    let mut got_s = got.clone();
    got_s.sort();
    let want: Vec<(usize, u16)> = want.into_iter().collect();
    ensure!(got_s == want, "listing", "line_iter = {got_s:04X?}, want {want:04X?}: {:?}", r.text);
    Ok(())
}

/// Every span of the error can be queried, and lies within `text`; label errors cover the label.
pub fn check_err(e: &AsmErr, m: &Asm, text: &str, c: &mut Case) -> Res {
    c.outcome("errors checked");
    let spans = query_spans(e)?;
    for sp in &spans {
        ensure!(sp.start <= sp.end && sp.end <= text.len(), "span-outside", "{:?} has span {sp:?} in a source of {} bytes: {text:?}", e.kind, text.len());
    }
    let v = v_of(&e.kind);
    if let V::LabelOutside | V::DupLabel | V::Offset | V::ExternalUse | V::Undefined = v {
        for sp in &spans {
            let t = text.get(sp.clone());
            let ok = t.is_some_and(|t| m.names.get(&v).is_some_and(|ns| ns.contains(&up(t))));
            ensure!(ok, "label-span", "{:?} has span {sp:?} = {t:?}, offending labels {:?}: {text:?}", e.kind, m.names.get(&v));
        }
        if v == V::DupLabel {
            let mut u = spans.clone();
            u.sort_by_key(|s| (s.start, s.end));
            u.dedup();
            let t: BTreeSet<String> = spans.iter().map(|s| up(&text[s.clone()])).collect();
            ensure!(t.len() == 1, "label-span", "{:?} names different labels {t:?}: {text:?}", e.kind);
        }
    }
    Ok(())
}
/// Queries everything a span list offers.
pub fn query_spans(e: &AsmErr) -> Res<Vec<std::ops::Range<usize>>> {
    let first = real("ErrSpan::first", || e.span.first())?;
    let spans: Vec<_> = real("ErrSpan::iter", || e.span.iter().cloned().collect())?;
    ensure!(spans.first() == Some(&first), "first-span", "{:?}: first() is {first:?} but the list is {spans:?}", e.kind);
    let sp = real("Error::span", || lc3_ensemble::err::Error::span(e))?;
    match sp {
        None => return fail("no-span", format!("{:?} reports no span", e.kind)),
        Some(s) => {
            let f = real("ErrSpan::first", || s.first())?;
            let i: Vec<_> = real("ErrSpan::iter", || s.iter().cloned().collect())?;
            ensure!(f == first && i == spans, "span-mismatch", "{:?}: Error::span gives {i:?}, the field holds {spans:?}", e.kind);
        }
    }
    real("print error", || {
        let _ = (format!("{e}"), format!("{e:?}"), lc3_ensemble::err::Error::help(e).map(|h| h.to_string()));
    })?;
    Ok(spans)
}

fn seq_alphabet() -> Vec<S> {
    let n = Opd::N;
    vec![
        s(K::Orig(0x3000)),
        s(K::End),
        ls(&["A"], K::Not(1, 2)),
        ls(&["a"], K::Blkw(2)),
        s(K::Stringz("q".into())),
        ls(&["bB"], K::End),
        s(K::Orig(0x3001)),
        s(K::External("A".into())),
        s(K::External("Bb".into())),
        s(K::Ld(0, l("A"))),
        s(K::Fill(l("a"))),
        s(K::Fill(l("BB"))),
        ls(&["BB", "c"], K::Fill(n(7))),
        ls(&["C"], K::External("D".into())),
        s(K::Jsr(l("bb"))),
    ]
}

pub fn add_families(k: &mut Check, asp: Aspect) {
    let al = seq_alphabet();
    let depth = match asp {
        Accept => k.tier(6, 7),
        Spans => k.tier(5, 6),
        Image | Labels => k.tier(5, 6),
        Lines => k.tier(5, 6),
    };
    // well-formed programs need a frame: for them the sequences are the block contents
    let framed = matches!(asp, Image | Labels | Lines);
    let al2: Vec<S> = if framed {
        al.iter().filter(|x| !matches!(x.k, K::Orig(_))).cloned().chain([s(K::Getc), ls(&["d"], K::Ret)]).collect()
    } else {
        al
    };
    let next_orig = [0x3000u16, 0x3001, 0x3002, 0x3003, 0x3005, 0x2FFE, 0x0000];
    k.family(
        "sequences",
        &format!("every sequence of up to {depth} items over {} statements (labels in several spellings, externals, data, label operands, .orig/.end){}", al2.len(), if framed { ", inside an .orig block, later blocks at every of 7 origins" } else { "" }),
        0,
        move |ch, c| {
            let n = ch.choose(depth + 1);
            let mut prog = vec![];
            let mut open = false;
            if framed {
                prog.push(s(K::Orig(0x3000)));
                open = true;
            }
            for _ in 0..n {
                let it = ch.pick(&al2).clone();
                if framed && !open && !matches!(it.k, K::External(_)) {
                    prog.push(s(K::Orig(*ch.pick(&next_orig))));
                    open = true;
                }
                if it.k == K::End {
                    open = false;
                }
                prog.push(it);
            }
            if framed && open {
                prog.push(s(K::End));
            }
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        },
    );
    if asp != Image {
        k.family("faults", "programs of 2-3 blocks with labels, branches, data and externals; every combination of at most 3 (thorough 4) injected faults: missing, extra or misplaced .orig/.end, a label moved or renamed, an operand made undefined/external/out of range, an origin moved", k.tier(3, 4), move |ch, c| {
            let n = Opd::N;
            let origs = [0x3000u16, 0x3004, 0x3001, 0x2FFF, 0xFDFC, 0xFDFD, 0xFE00, 0xFFFF, 0];
            let mut prog: Vec<S> = vec![];
            let bases: [[usize; 2]; 2] = [[0, 1], [1, 0]];
            let which = *ch.pick(&bases);
            let nm = |ch: &mut Ch, x: &str| -> String {
                let alt = [x.to_string(), x.to_lowercase(), "Nope".into(), "EXT".into(), "Far".into(), "here".into()];
                ch.pick_dev(&alt).clone()
            };
            let maybe = |ch: &mut Ch, prog: &mut Vec<S>, st: S| match ch.dev(4) {
                0 => prog.push(st),
                1 => {}
                2 => {
                    prog.push(st.clone());
                    prog.push(st);
                }
                _ => {
                    let at = prog.len().saturating_sub(1);
                    prog.insert(at, st);
                }
            };
            maybe(ch, &mut prog, s(K::External("Ext".into())));
            for b in which {
                let mut os = origs.to_vec();
                os.swap(0, b);
                let o = *ch.pick_dev(&os);
                maybe(ch, &mut prog, s(K::Orig(o)));
                if b == 0 {
                    let (x, y) = (nm(ch, "Here"), nm(ch, "There"));
                    maybe(ch, &mut prog, S { labels: vec![x], k: K::Add(0, 0, RI::I(1)) });
                    maybe(ch, &mut prog, s(K::Br(7, Opd::L(y))));
                    let y = nm(ch, "Ext");
                    maybe(ch, &mut prog, s(K::Fill(Opd::L(y))));
                    maybe(ch, &mut prog, s(K::Halt));
                } else {
                    let x = nm(ch, "There");
                    maybe(ch, &mut prog, S { labels: vec![x.clone(), "y".into()], k: K::Stringz("é".into()) });
                    let y = nm(ch, "Far");
                    let z = *ch.pick_dev(&[1u16, 2, 252, 253, 254, 255, 0xFFFF, 0xD000]);
                    maybe(ch, &mut prog, s(K::Blkw(z)));
                    maybe(ch, &mut prog, S { labels: vec![y], k: K::Fill(n(-1)) });
                    let y = nm(ch, "Here");
                    maybe(ch, &mut prog, s(K::Lea(1, Opd::L(y))));
                }
                maybe(ch, &mut prog, s(K::End));
            }
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        });
    }
    if matches!(asp, Image | Accept | Spans) {
        k.family("offsets", "every PC-relative instruction x label at every distance from 3 below to 3 above the ends of its field, and wrapping around memory; the label in the same block (forward/backward, via .blkw) or another block", 0, move |ch, c| {
            let wide = ch.choose(8);
            let (lo, hi) = if wide == 7 { (-1024i32, 1023i32) } else { (-256, 255) };
            let d = lo - 3 + ch.choose((hi - lo + 7) as usize) as i32;
            let how = ch.choose(5);
            let mk = |o: Opd| match wide {
                0 => K::Br(2, o),
                1 => K::Ld(3, o),
                2 => K::Ldi(4, o),
                3 => K::Lea(5, o),
                4 => K::St(6, o),
                5 => K::Sti(7, o),
                6 => K::Nop(o),
                _ => K::Jsr(o),
            };
            let ins = s(mk(l("tgt")));
            let prog = match how {
                0 if d >= 1 => vec![s(K::Orig(0x3000)), ins, s(K::Blkw(d as u16)), ls(&["TGT"], K::Halt), s(K::End)],
                0 if d == 0 => vec![s(K::Orig(0x3000)), ins, ls(&["TGT"], K::Halt), s(K::End)],
                0 if d == -1 => vec![s(K::Orig(0x3000)), S { labels: vec!["Tgt".into()], k: ins.k.clone() }, s(K::End)],
                0 => vec![s(K::Orig(0x3000)), ls(&["Tgt"], K::Blkw((-1 - d) as u16)), ins, s(K::End)],
                _ => {
                    let at: i32 = [0x3000, 0x0002, 0xFDFF, 0xF000][how - 1];
                    let t = (at + 1 + d) as u32 as u16;
                    if t == at as u16 {
                        vec![s(K::Orig(t)), S { labels: vec!["tgT".into()], k: ins.k.clone() }, s(K::End)]
                    } else if ch.flag() {
                        // label on an empty block at the target
                        vec![s(K::Orig(t)), ls(&["tgt"], K::End), s(K::Orig(at as u16)), ins, s(K::End)]
                    } else {
                        vec![s(K::Orig(at as u16)), ins, s(K::End), s(K::Orig(t)), ls(&["TGT", "x"], K::Fill(l("tgt"))), s(K::End)]
                    }
                }
            };
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        });
        k.family("boundaries", "blocks ending within 3 words of xFE00, xFFFF and x10000: every origin of 14, every split of the tail into up to 3 statements of mixed kinds", 0, move |ch, c| {
            let origs = [0x0000u32, 0x0001, 0x3000, 0x8000, 0xFDF0, 0xFDFC, 0xFDFD, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFFFC, 0xFFFE, 0xFFFF];
            let o = *ch.pick(&origs);
            let lim = *ch.pick(&[0xFE00u32, 0x10000, 0x10000 + 0xFE00]);
            let end = lim - 3 + ch.choose(7) as u32;
            let mut left = end as i64 - o as i64;
            let mut prog = vec![s(K::Orig(o as u16))];
            let tail = ch.choose(10);
            if left < 0 {
                return Ok(());
            }
            let tail_k: Vec<K> = match tail {
                0 => vec![],
                1 => vec![K::Halt],
                2 => vec![K::Fill(Opd::N(1)), K::Halt],
                3 => vec![K::Stringz("".into())],
                4 => vec![K::Stringz("ab".into())],
                5 => vec![K::Blkw(1)],
                6 => vec![K::Blkw(2), K::Rti],
                7 => vec![K::Getc, K::Stringz("é".into())],
                8 => vec![K::Blkw(3)],
                _ => vec![K::Halt, K::Blkw(1), K::Halt],
            };
            left -= tail_k.iter().map(|x| x.size() as i64).sum::<i64>();
            if left < 0 {
                return Ok(());
            }
            while left > 0 {
                let n = left.min(0xFFFF);
                prog.push(s(K::Blkw(n as u16)));
                left -= n;
            }
            prog.extend(tail_k.into_iter().map(s));
            prog.push(ls(&["e"], K::End));
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        });
        k.family("overlaps", "three blocks with starts x3000-x3006 and lengths 0-3 in every order (complete), and pairs/triples across x0000, xFDFF and 32K boundaries", 0, move |ch, c| {
            let mut prog = vec![];
            if ch.flag() {
                let st = [0u16, 1, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFDFC, 0xFDFE, 0xFDFF];
                for _ in 0..3 {
                    prog.push(s(K::Orig(*ch.pick(&st))));
                    match ch.choose(4) {
                        0 => {}
                        1 => prog.push(s(K::Halt)),
                        2 => prog.push(s(K::Blkw(2))),
                        _ => prog.push(s(K::Blkw(0x7FFF))),
                    }
                    prog.push(s(K::End));
                }
            } else {
                for i in 0..3 {
                    prog.push(s(K::Orig(0x3000 + ch.choose(7) as u16)));
                    match (ch.choose(4), i) {
                        (0, _) => {}
                        (n, 0) => prog.push(s(K::Blkw(n as u16))),
                        (n, 1) => (0..n).for_each(|_| prog.push(s(K::Getc))),
                        (n, _) => prog.push(s(K::Stringz("z".repeat(n - 1)))),
                    }
                    prog.push(s(K::End));
                }
            }
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        });
    }
    k.family("names", "every choice of three labels and two references over 16 names (one letter, digits and underscores, keyword-like, accented and Cyrillic letters in both cases, letters of different lengths in upper and lower case, 70 letters), the second label defined, on .end or external", 0, move |ch, c| {
        let long = "Long_".repeat(14);
        let pool: [&str; 16] = ["a", "A9_", "a9_", "_", "R8x", "BRx", "naïve", "NAÏVE", "kÉa", "KéA", "bЖ1_я", &long, "xⱥ", "XȺ", "xß", "XSS"];
        let (x, y, z) = (*ch.pick(&pool), *ch.pick(&pool), *ch.pick(&pool));
        let (p, q) = (*ch.pick(&[x, y, z, "NAïVE", "nope"]), *ch.pick(&[x, y, z]));
        let mut prog = vec![s(K::Orig(0x3000)), ls(&[x], K::Add(1, 1, RI::I(1))), s(K::Fill(l(p)))];
        match ch.choose(3) {
            0 => prog.extend([ls(&[y, z], K::Fill(l(q))), s(K::End)]),
            1 => prog.extend([ls(&[z], K::Fill(l(q))), ls(&[y], K::End)]),
            _ => prog.extend([s(K::External(y.into())), ls(&[z], K::Fill(l(q))), s(K::End)]),
        }
        let r = render(&mut Ch::canonical(), &prog);
        check_program(asp, &prog, &r, c)
    });
    if asp == Labels {
        k.family("letter lengths", "every choice of three labels and two references over 9 names whose letters take different numbers of bytes in upper and lower case (Latin Ⱥ, ẞ, ŉ, ı, Greek with iota subscript, Cyrillic, Kelvin sign), queried in every spelling, with a label after each", 0, move |ch, c| {
            let pool = ["xⱥ", "XȺ", "xŉ", "xßy", "xı", "a\u{1fb3}_", "\u{4b}\u{2126}", "bᲀ", "Z9ŉŉŉ"];
            let (x, y, z) = (*ch.pick(&pool), *ch.pick(&pool), *ch.pick(&pool));
            let (p, q) = (*ch.pick(&[x, y, z]), *ch.pick(&[x, y, z]));
            let mut prog = vec![s(K::Orig(0x3000)), ls(&[x, "sep"], K::Add(1, 1, RI::I(1))), s(K::Fill(l(p)))];
            match ch.choose(3) {
                0 => prog.extend([ls(&[y, z], K::Fill(l(q))), s(K::End)]),
                1 => prog.extend([ls(&[z], K::Fill(l(q))), ls(&[y], K::End)]),
                _ => prog.extend([s(K::External(y.into())), ls(&[z], K::Fill(l(q))), s(K::End)]),
            }
            let r = render(&mut Ch::canonical(), &prog);
            check_program(asp, &prog, &r, c)
        });
    }
    k.family("far", "programs after a header of 254-258 or 65534-65538 lines (empty, comments, declarations), or one of 255-257, 65534-65538 or 100000 bytes, well-formed or with one of 6 faults", 0, move |ch, c| {
        let n = Opd::N;
        // (the parser takes quadratic time for runs of empty lines, so most of the lines are statements)
        let (head, ext) = match ch.choose(3) {
            0 => (ch.pick(&["\n", "; é\r\n"]).repeat(254 + ch.choose(5)), 0),
            1 => ("\n".into(), 65533 + ch.choose(5)),
            _ => (format!(";{}\n", "x".repeat(ch.pick(&[255usize, 256, 257, 65534, 65535, 65536, 65537, 65538, 100000]) - 2)), 0),
        };
        let mut prog = vec![s(K::External("Ext".into())), s(K::Orig(0x3000)), ls(&["A", "b"], K::Add(1, 1, RI::I(1))), s(K::Br(7, l("B"))), ls(&["Far"], K::Fill(l("eXT"))), s(K::Stringz("s".into())), s(K::End), s(K::Orig(0x4000)), ls(&["C"], K::Fill(n(1))), ls(&["D"], K::End)];
        match ch.choose(if asp == Image || asp == Lines || asp == Labels { 1 } else { 7 }) {
            0 => {}
            1 => prog[8] = ls(&["Far"], K::Fill(n(1))),
            2 => prog[3] = s(K::Br(7, l("nope"))),
            3 => prog[3] = s(K::Ld(7, l("C"))),
            4 => prog[3] = s(K::Lea(7, l("Ext"))),
            5 => prog[7] = s(K::Orig(0x3001)),
            _ => prog.push(ls(&["outer"], K::External("z".into()))),
        }
        prog.splice(0..0, (0..ext).map(|_| s(K::External("h".into()))));
        let mut r = render(&mut Ch::canonical(), &prog);
        let d = head.len();
        for x in r.nuclei.iter_mut().chain(r.labels.iter_mut().flatten()) {
            *x = x.start + d..x.end + d;
        }
        r.text = head + &r.text;
        check_program(asp, &prog, &r, c)
    });
    k.family("many", "programs with 2 to 1025 labelled statements, labels of one statement, blocks in any of 3 orders, or externals, around powers of two; well-formed or with one of 3 faults at the end", 0, move |ch, c| {
        let n = *ch.pick(&[2usize, 16, 31, 32, 33, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
        let name = |i: usize| format!("L{i}");
        let mut prog = vec![];
        match ch.choose(4) {
            0 => {
                prog.push(s(K::Orig(0x3000)));
                prog.extend((0..n).map(|i| S { labels: vec![name(i)], k: K::Fill(Opd::L(name((i * 7 + 3) % n))) }));
            }
            1 => {
                prog.extend([s(K::Orig(0x3000)), s(K::Halt)]);
                prog.push(S { labels: (0..n).map(name).collect(), k: K::Ret });
                prog.extend((0..n).map(|i| s(K::Fill(Opd::L(name(i))))));
            }
            2 => {
                let step = *ch.pick(&[1, n - 1, if n % 7 == 0 { 5 } else { 7 }]);
                for i in 0..n {
                    let j = i * step % n;
                    prog.push(s(K::Orig(0x3000 + 3 * j as u16)));
                    prog.push(S { labels: vec![name(j)], k: K::Blkw(2) });
                    prog.push(s(K::Fill(Opd::L(name((j + 1) % n)))));
                    prog.push(s(K::End));
                }
                prog.push(s(K::Orig(0x4000)));
            }
            _ => {
                prog.extend((0..n / 2).map(|i| s(K::External(name(i)))));
                prog.push(s(K::Orig(0x3000)));
                prog.extend((0..n).map(|i| s(K::Fill(Opd::L(name(i))))));
                prog.extend((n / 2..n).map(|i| s(K::External(name(i)))));
            }
        }
        match ch.choose(if asp == Image || asp == Lines || asp == Labels { 1 } else { 4 }) {
            0 => {}
            1 => prog.push(S { labels: vec![name(0).to_lowercase()], k: K::Ret }),
            2 => prog.push(s(K::Fill(l("nope")))),
            _ => prog.extend([s(K::End), s(K::Orig(0x3000)), s(K::Ret)]),
        }
        prog.push(s(K::End));
        let r = render(&mut Ch::canonical(), &prog);
        check_program(asp, &prog, &r, c)
    });
    k.family("layouts", "programs with labels on their own lines, on .end and data lines, several labels, externals, several blocks: every layout (blank lines, comments, CRLF, tabs, case) with at most 2 (thorough 3) departures from canonical", k.tier(2, 3), move |ch, c| {
        let n = Opd::N;
        let progs: Vec<Vec<S>> = vec![
            vec![s(K::Orig(0x3000)), ls(&["loop"], K::Add(1, 1, RI::I(-1))), s(K::Br(5, l("LOOP"))), s(K::Halt), s(K::End)],
            vec![s(K::External("X".into())), s(K::Orig(0x3000)), ls(&["X_1", "b"], K::Fill(l("x"))), s(K::External("Y".into())), ls(&["c"], K::Stringz("a;\tb".into())), ls(&["B"], K::External("z".into())), ls(&["D"], K::End)],
            vec![s(K::Orig(0x4000)), ls(&["msg", "Msg2"], K::Stringz("é".into())), ls(&["buf"], K::Blkw(3)), s(K::Nop(n(0))), ls(&["e", "e2"], K::End), s(K::External("q".into())), s(K::Orig(0x3000)), s(K::Lea(0, l("HERE"))), ls(&["here"], K::Ret), s(K::End)],
            vec![s(K::Orig(0xFDFF)), ls(&["aa", "AA"], K::Fill(l("aA"))), ls(&["k"], K::End), s(K::Orig(0)), ls(&["zero"], K::Blkw(2)), ls(&["z2"], K::Trap(255)), s(K::End)],
        ];
        let prog = ch.pick(&progs).clone();
        let r = render(ch, &prog);
        check_program(asp, &prog, &r, c)
    });
}

/// Every operand value of every statement (for C01).
pub fn add_singles(k: &mut Check) {
    k.family("operands", "every instruction and alias with every value of every operand field (complete), .fill of every value and sign, .blkw of every size, at two origins", 0, |ch, c| {
        let r = |ch: &mut Ch| ch.choose(8) as u8;
        let sg = |ch: &mut Ch, n: u32| ch.choose(1 << n) as i32 - (1 << (n - 1));
        let n = Opd::N;
        let kd = match ch.choose(24) {
            0 => K::Add(r(ch), r(ch), RI::R(r(ch))),
            1 => K::Add(r(ch), r(ch), RI::I(sg(ch, 5))),
            2 => K::And(r(ch), r(ch), RI::R(r(ch))),
            3 => K::And(r(ch), r(ch), RI::I(sg(ch, 5))),
            4 => K::Not(r(ch), r(ch)),
            5 => K::Br(1 + ch.choose(7) as u8, n(sg(ch, 9))),
            6 => K::Jmp(r(ch)),
            7 => K::Jsr(n(sg(ch, 11))),
            8 => K::Jsrr(r(ch)),
            9 => K::Ld(r(ch), n(sg(ch, 9))),
            10 => K::Ldi(r(ch), n(sg(ch, 9))),
            11 => K::Lea(r(ch), n(sg(ch, 9))),
            12 => K::St(r(ch), n(sg(ch, 9))),
            13 => K::Sti(r(ch), n(sg(ch, 9))),
            14 => K::Ldr(r(ch), r(ch), sg(ch, 6)),
            15 => K::Str(r(ch), r(ch), sg(ch, 6)),
            16 => K::Trap(ch.choose(256) as i32),
            17 => K::Nop(n(sg(ch, 9))),
            18 => K::Fill(n(ch.choose(1 << 16) as i32)),
            19 => ch.pick(&[K::Rti, K::Ret, K::Getc, K::Out, K::Putc, K::Puts, K::In, K::Putsp, K::Halt]).clone(),
            20 => {
                let v = ch.choose(1 << 15) as i32 - (1 << 15);
                let prog = vec![s(K::Orig(0x3000)), s(K::Fill(n(v & 0xFFFF))), s(K::End)];
                let r = Rendered { text: format!(".orig x3000\n.fill #{v}\n.end"), ..Default::default() };
                return check_program(Image, &prog, &r, c);
            }
            21 => K::Stringz(char::from(ch.choose(128) as u8).to_string().repeat(1 + ch.choose(3))),
            22 => K::Stringz(char::from_u32(*ch.pick(&[0x80u32, 0xFF, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF])).unwrap().to_string() + ch.pick(&["", "x", "\0", "é"])),
            _ => K::Fill(l(ch.pick(&["first", "LAST", "mid"]))),
        };
        let o = *ch.pick(&[0x3000u16, 0xFD80]);
        let prog = vec![s(K::Orig(o)), ls(&["FIRST"], K::Ret), ls(&["MID"], kd), ls(&["LAST"], K::Getc), s(K::End)];
        let r = render(&mut Ch::canonical(), &prog);
        check_program(Image, &prog, &r, c)
    });
    k.family("sizes", ".blkw of every size 1-xCDFF (every 61st size in the quick tier plus all within 40 of a power of two) and .stringz of lengths around every power of two, each followed by a labelled statement and a reference to it", 0, {
        let th = k.thorough;
        move |ch, c| {
            let big = ch.flag();
            let kd = if big {
                let n = 1 + ch.choose(0xCDFC) as u16;
                let near = (0..16).any(|b| (n as i32 - (1 << b)).abs() <= 40);
                if !th && n % 61 != 0 && !near {
                    return Ok(());
                }
                K::Blkw(n)
            } else {
                let b = 1usize << (1 + ch.choose(15));
                let n = b - 2 + ch.choose(4);
                if n > 0xCDFB {
                    return Ok(());
                }
                K::Stringz("abcdefg".chars().cycle().take(n).collect())
            };
            let o = 0x2FFF - ch.choose(2) as u16;
            let prog = vec![s(K::Orig(o)), ls(&["s"], kd), ls(&["after"], K::Fill(l("AFTER"))), ls(&["q"], K::Fill(l("S"))), s(K::End)];
            let r = render(&mut Ch::canonical(), &prog);
            check_program(Image, &prog, &r, c)
        }
    });
}
