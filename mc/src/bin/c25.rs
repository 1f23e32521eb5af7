//! C25: source position queries.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble_debug, ObjectFile, SourceInfo};
use mc::*;

fn check(text: &str, si: &SourceInfo, c: &mut Case) -> Res {
    c.state(&text);
    c.trace();
    ensure!(si.source() == text, "source", "source() = {:?} for {text:?}", si.source());
    let lines: Vec<&str> = text.split('\n').collect();
    let mut starts = vec![];
    let mut at = 0;
    for l in &lines {
        starts.push(at);
        at += l.len() + 1;
    }
    let n = real("count_lines", || si.count_lines())?;
    ensure!(n == lines.len(), "count", "count_lines = {n}, want {} for {text:?}", lines.len());
    for i in 0..lines.len() + 3 {
        let sp = real("line_span", || si.line_span(i))?;
        let tx = real("read_line", || si.read_line(i).map(str::to_string))?;
        c.trans(2);
        let Some(l) = lines.get(i) else {
            ensure!(sp.is_none() && tx.is_none(), "past-last-line", "line {i} of {text:?} gives {sp:?} {tx:?}");
            continue;
        };
        let t = l.trim();
        ensure!(tx.as_deref() == Some(t), "line-text", "line {i} of {text:?} reads {tx:?}, want {t:?}");
        let (Some(sp), lo, hi) = (sp.clone(), starts[i], starts[i] + l.len()) else { return fail("line-span", format!("no span for line {i} of {text:?}")) };
        let ok = sp.start <= sp.end && sp.start >= lo && sp.end <= hi && text.get(sp.clone()) == Some(t);
        ensure!(ok, "line-span", "line {i} of {text:?} has span {sp:?}, want the range of {t:?} in {lo}..{hi}");
    }
    for i in lines.len() + 3..lines.len() + 6 {
        ensure!(si.line_span(i).is_none(), "past-last-line", "line {i} of {text:?} has a span");
    }
    ensure!(real("line_span", || si.line_span(usize::MAX))?.is_none() && real("read_line", || si.read_line(usize::MAX).is_none())?, "past-last-line", "line usize::MAX exists in {text:?}");
    for ix in (0..=text.len() + 10).chain([1000, usize::MAX]) {
        let ln = starts.partition_point(|&s| s <= ix) - 1;
        let want = (ln, ix - starts[ln]);
        let g = real("get_pos_pair", || si.get_pos_pair(ix))?;
        c.trans(1);
        c.outcome(if ix > text.len() { "index past the end" } else { "index inside" });
        ensure!(g == want, "position", "get_pos_pair({ix}) = {g:?}, want {want:?} for {text:?}");
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C25");
    let d = k.tier(7, 8);
    k.family("texts", &format!("every text of up to {d} pieces over 9 pieces (LF, CRLF, CR, space, tab, VT, a letter, a 2-byte letter, a 3-byte space); every index up to length+10"), 0, move |ch, c| {
        let ps = ["\n", "a", " ", "\r\n", "\t", "é", "\r", "\u{2003}", "\u{b}"];
        let n = ch.choose(d + 1);
        let t: String = (0..n).map(|_| *ch.pick(&ps)).collect();
        c.describe_lazy(|| format!("{t:?}"));
        let si = real("SourceInfo::new", || SourceInfo::new(&t))?;
        check(&t, &si, c)
    });
    k.family("constructors", "every text of up to 4 pieces: From<&str>, From<String>, and the source info of an assembled file", 0, |ch, c| {
        let ps = ["\n", ";a", " ", "\r\n", ".external x\n"];
        let n = ch.choose(5);
        let t: String = (0..n).map(|_| *ch.pick(&ps)).collect();
        c.describe_lazy(|| format!("{t:?}"));
        check(&t, &SourceInfo::from(&*t), c)?;
        check(&t, &SourceInfo::from(t.clone()), c)?;
        if let Ok(ast) = real("parse_ast", || lc3_ensemble::parse::parse_ast(&t))? {
            if let Ok(o) = real("assemble_debug", || assemble_debug(ast, &t))? {
                let Some(si) = o.symbol_table().and_then(|s| s.source_info()) else { return fail("source", "no source info") };
                check(&t, si, c)?;
            }
        }
        Ok(())
    });
    k.family("derived files", "the source infos of files that were linked (every pair and triple of texts of up to 2 pieces, both groupings) or read back in either format: consistent with the source they give", 0, |ch, c| {
        let ps = ["\n", ";é", "  ", "\r\n", ".external x\n", ".orig x3000\n.end"];
        let mut objs = vec![];
        let mut ts = vec![];
        for _ in 0..2 + ch.choose(2) {
            let t: String = (0..ch.choose(3)).map(|_| *ch.pick(&ps)).collect();
            let Ok(ast) = real("parse_ast", || lc3_ensemble::parse::parse_ast(&t))? else { return Ok(()) };
            let Ok(o) = real("assemble_debug", || assemble_debug(ast, &t))? else { return Ok(()) };
            objs.push(o);
            ts.push(t);
        }
        let right = ch.flag();
        c.describe_lazy(|| format!("{ts:?} linked, {}", if right { "last two first" } else { "in order" }));
        let mut it: Vec<_> = objs.into_iter().collect();
        while it.len() > 1 {
            let i = if right { it.len() - 2 } else { 0 };
            let (a, b) = (it.remove(i), it.remove(i));
            match real("link", || ObjectFile::link(a, b))? {
                Ok(o) => it.insert(i, o),
                Err(_) => return Ok(()),
            }
        }
        let o = it.pop().unwrap();
        let bin = real("BinaryFormat", || BinaryFormat::deserialize(&BinaryFormat::serialize(&o)))?;
        let txt = real("TextFormat", || TextFormat::deserialize(&TextFormat::serialize(&o)))?;
        for o in [Some(o), bin, txt].into_iter().flatten() {
            if let Some(si) = o.symbol_table().and_then(|s| s.source_info()) {
                check(&si.source().to_string(), si, c)?;
            }
        }
        Ok(())
    });
    k.family("large", "texts of 254-258 and 65534-65538 lines, and lines of 254-258 and 65534-65538 bytes before and after short ones; every index", 0, |ch, c| {
        let n = *ch.pick(&[254usize, 65534]) + ch.choose(5);
        let t = match ch.choose(5) {
            0 => "\n".repeat(n),
            1 => "é \r\n".repeat(n),
            2 => format!("a\n {}\nb\n", "x".repeat(n)),
            3 => format!("{} \n\n c", " ".repeat(n)),
            _ => format!("{}\n{0}\n", "é".repeat(n / 2)),
        };
        c.describe_lazy(|| format!("{} bytes, {} lines", t.len(), t.split('\n').count()));
        check(&t, &SourceInfo::new(&t), c)
    });
    let m = k.tier(400, 3000);
    k.family("long", "texts of up to 400 (thorough 3000) lines of period 1-4, indices everywhere", 0, move |ch, c| {
        let n = ch.choose(m);
        let pat = *ch.pick(&["\n", "ab\n", " x \r\n", "\n\n y"]);
        let t = pat.repeat(n);
        c.describe_lazy(|| format!("{n} x {pat:?}"));
        check(&t, &SourceInfo::new(&t), c)
    });
    k.run()
}
