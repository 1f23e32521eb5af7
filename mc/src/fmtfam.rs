//! Round trips of the object formats (C17, C18).
use crate::asmmodel;
use crate::lang::*;
use crate::linkfam::*;
use crate::surface::{render, Rendered};
use crate::{ensure, fail, real, Case, Ch, Check, Res};
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;

pub fn full(o: &ObjectFile) -> Res<String> {
    // everything visible through the public interface except the relocations
    let image: Vec<_> = o.addr_iter().collect();
    let sym = match o.symbol_table() {
        None => "none".to_string(),
        Some(s) => {
            let mut ls: Vec<_> = s.label_iter().map(|(n, a, x)| (n.to_string(), a, x, s.get_label_source(n))).collect();
            ls.sort_by(|a, b| a.0.cmp(&b.0));
            let lines: Vec<_> = s.line_iter().collect();
            format!("{ls:?} {lines:?} {:?}", s.source_info().map(|i| i.source()))
        }
    };
    Ok(format!("{image:?} {sym}"))
}
pub fn round_trip(binary: bool, o: &ObjectFile, ctx: &dyn Fn() -> String, c: &mut Case) -> Res {
    c.trace();
    c.trans(2);
    let (d, shown) = if binary {
        let b = real("BinaryFormat::serialize", || BinaryFormat::serialize(o))?;
        (real("BinaryFormat::deserialize", || BinaryFormat::deserialize(&b))?, format!("{} bytes", b.len()))
    } else {
        let t = real("TextFormat::serialize", || TextFormat::serialize(o))?;
        (real("TextFormat::deserialize", || TextFormat::deserialize(&t))?, t.chars().take(600).collect())
    };
    let Some(d) = d else { return fail("unreadable", format!("{}: the written file is rejected:\n{shown}", ctx())) };
    let same = real("compare", || d == *o)?;
    let (fa, fb) = (real("observe", || full(o))??, real("observe", || full(&d))??);
    if !same || fa != fb {
        let cut = |s: &str| s.chars().take(500).collect::<String>();
        return fail("differs", format!("{}: read back differently (==: {same})\n wrote {}\n read  {}\n{shown}", ctx(), cut(&fa), cut(&fb)));
    }
    // relocations: through their effect
    let (ra, rb) = (relocations(o)?, relocations(&d)?);
    ensure!(ra == rb, "relocations", "{}: relocations {ra:04X?} read back as {rb:04X?}", ctx());
    c.outcome(match (o.symbol_table().is_some(), ra.is_empty()) {
        (false, _) => "no symbols",
        (true, true) => "symbols",
        _ => "symbols and relocations",
    });
    Ok(())
}
fn obj_of(r: &Rendered, debug: bool) -> Res<Option<ObjectFile>> {
    obj_of_text(&r.text, debug)
}
fn obj_of_text(text: &str, debug: bool) -> Res<Option<ObjectFile>> {
    let Ok(ast) = real("parse_ast", || parse_ast(text))? else { return Ok(None) };
    Ok(real("assemble", || if debug { assemble_debug(ast, text) } else { assemble(ast) })?.ok())
}

pub fn add_families(k: &mut Check, binary: bool) {
    let items = vec![
        s(K::End),
        ls(&["A"], K::Not(1, 2)),
        ls(&["lab_el", "a"], K::Blkw(2)),
        s(K::Stringz("q\"\\\té".into())),
        s(K::External("Ext".into())),
        s(K::Fill(l("eXT"))),
        s(K::Fill(l("LAB_EL"))),
        ls(&["B"], K::Fill(Opd::N(-1))),
        ls(&["e"], K::External("A".into())),
        s(K::External("zzzzzzzzzzzzzzzzzzzz".into())),
        s(K::Blkw(300)),
    ];
    let depth = k.tier(5, 6);
    k.assume("equality is the library's own ObjectFile: PartialEq, and everything the public queries and further links show");
    k.family("programs", &format!("every body of up to {depth} items over {} statements (labels, externals before/after use and inside blocks, .blkw, strings, several blocks at 4 origins), with and without debug symbols", items.len()), 0, move |ch, c| {
        let n = ch.choose(depth + 1);
        let mut prog = vec![];
        let mut open = false;
        for _ in 0..n {
            let it = ch.pick(&items).clone();
            if !open && !matches!(it.k, K::External(_)) {
                prog.push(s(K::Orig(if prog.is_empty() { 0x3000 } else { *ch.pick(&[0x4000u16, 0x1000, 0x3001, 0]) })));
                open = true;
            }
            open &= it.k != K::End;
            prog.push(it);
        }
        if open {
            prog.push(s(K::End));
        }
        let m = asmmodel::assemble(&prog);
        if !m.viol.is_empty() {
            return Ok(());
        }
        let debug = ch.flag();
        let r = render(&mut Ch::canonical(), &prog);
        c.describe_lazy(|| format!("debug={debug} {:?}", r.text));
        c.state(&(&r.text, debug));
        match obj_of(&r, debug)? {
            Some(o) => round_trip(binary, &o, &|| format!("debug={debug} {:?}", r.text), c),
            None => fail("rejected", format!("well-formed program rejected {:?}", r.text)),
        }
    });
    k.family("links", "every ordered pair and triple of files with 8x8 label uses (triples: 8x3), linked, each with and without debug symbols", 0, move |ch, c| {
        let n = 2 + ch.choose(2);
        let mut fs = vec![];
        let mut dbg = vec![];
        for i in 0..n as u16 {
            let (x, y) = (ch.choose(STATES), ch.choose(if n == 3 { 3 } else { STATES }));
            let d = ch.choose(2) == 0;
            dbg.push(d);
            fs.push(file(build(0x3000 + i * 0x20, x, y, i == 0), d)?);
        }
        let ctx = || format!("{:?} debug {dbg:?}", fs.iter().map(|f| &*f.r.text).collect::<Vec<_>>());
        c.describe_lazy(ctx);
        c.state(&ctx());
        match link_tree(fs.iter().map(|f| f.obj.clone()).collect(), 0)? {
            Ok(o) => round_trip(binary, &o, &ctx, c),
            Err(_) => {
                c.outcome("not linked");
                Ok(())
            }
        }
    });
    k.family("every-char", "a source with one comment holding each Unicode scalar value (complete), alone and next to an escape-like neighbour", 0, move |ch, c| {
        let Some(x) = char::from_u32(ch.choose(0x110000) as u32) else { return Ok(()) };
        if x == '\n' {
            return Ok(());
        }
        for text in [format!(".orig x3000\nA HALT ;{x}\n.end"), format!(";\\{x}{x}n\n.orig x3000\n;u{{{x}}}\nA HALT\n.end\n;{x}")] {
            if let Some(o) = obj_of_text(&text, true)? {
                c.state(&text);
                round_trip(binary, &o, &|| format!("{text:?}"), c)?;
            }
        }
        Ok(())
    });
    let d = k.tier(4, 5);
    k.family("names", "two labels, an external and references to them with every choice of names out of 15 (one letter, digits, keyword- and number-like, underscores, accented, Cyrillic, combining and right-to-left letters, letters of different lengths in upper and lower case, wide characters), with and without debug symbols, alone and linked before or after a file that uses the same names", 0, move |ch, c| {
        let pool = ["a", "A9_", "_", "R8x", "FFFFg", "nan", "naïve", "bЖ1_я", "a\u{301}b", "XȺ", "xß", "xŉ", "x漢字", "aא", "x\u{200d}y"];
        let (x, y, z) = (*ch.pick(&pool), *ch.pick(&pool), *ch.pick(&pool));
        let debug = ch.flag();
        let link = ch.choose(3);
        let text = format!(".external {z}\n.orig x3000\n{x} {y}: .fill {z}\n.fill {y}\n.fill {x}\n.end");
        c.describe_lazy(|| format!("debug={debug} link {link} {text:?}"));
        c.state(&(&text, debug, link));
        let Some(o) = obj_of_text(&text, debug)? else {
            c.outcome("not a program");
            return Ok(());
        };
        let o = if link > 0 {
            let text2 = format!(".external {x}\n.orig x4000\n.fill {x}\n{z} HALT\n.end");
            let Some(b) = obj_of_text(&text2, debug)? else { return Ok(()) };
            let v = if link == 1 { vec![o, b] } else { vec![b, o] };
            match link_tree(v, 0)? {
                Ok(o) => o,
                Err(_) => {
                    c.outcome("not linked");
                    return Ok(());
                }
            }
        } else {
            o
        };
        round_trip(binary, &o, &|| format!("debug={debug} link {link} {text:?}"), c)
    });
    k.family("nasty-sources", "every comment of up to 4 (thorough 5) characters over 18 (quotes, backslash, braces, escape letters, table and divider characters, tab, CR, NUL, DEL, non-ASCII), in the first, middle and last line", 0, move |ch, c| {
        let cs = ['"', '\\', '\'', '\t', '\r', 'u', '{', '}', 'n', 'x', '#', '|', ' ', '=', '.', 'é', '\0', '0'];
        let n = ch.choose(d + 1);
        let t: String = (0..n).map(|_| *ch.pick(&cs)).collect();
        let text = match ch.choose(3) {
            0 => format!(";{t}\n.orig x3000\nA HALT\n.end"),
            1 => format!(".orig x3000\nA HALT\n;{t}\n;{t}\r\n.end\n"),
            _ => format!(".orig x3000\nA HALT ;{t}\n.end ; {t}"),
        };
        c.describe_lazy(|| format!("{text:?}"));
        c.state(&text);
        match obj_of_text(&text, true)? {
            Some(o) => round_trip(binary, &o, &|| format!("{text:?}"), c),
            None => Ok(()),
        }
    });
    let d = k.tier(5, 7);
    k.family("blank-sources", "every source of up to 5 (thorough 7) lines over 10 (empty, spaces, tabs, CRLF, comments like dividers, headers and sections) around a program, with and without a final newline", 0, move |ch, c| {
        let lines = ["", " ", "\t \t", "\r", "; x", ";====", " ;.TEXT", ";#", ".external Q1", "\u{b}\u{c}\u{a0}"];
        let n = ch.choose(d + 1);
        let at = ch.choose(n + 1);
        let mut v: Vec<String> = (0..n).map(|_| ch.pick(&lines).to_string()).collect();
        match ch.choose(3) {
            0 => v.insert(at, ".orig x3000\nB: ADD R0,R0,R0\n  A .fill B\n.end".into()),
            1 => v.insert(at, ".orig x3000\r\n.blkw 2\r\n.end".into()),
            _ => {}
        }
        let text = v.join("\n");
        c.describe_lazy(|| format!("{text:?}"));
        c.state(&text);
        match obj_of_text(&text, true)? {
            Some(o) => round_trip(binary, &o, &|| format!("{text:?}"), c),
            None => {
                c.outcome("not a program");
                Ok(())
            }
        }
    });
    let nl = k.tier(4, 5);
    k.family("sizes", "sources of 8-11, 98-101, 998-1001, 9998-10001, (thorough) 99998-100001 lines, and with statements after 65530-65540, 70000, 99999 or 131072 lines of declarations; labels of 1-300 and 65530-65540 characters; blocks of lengths around 2^8, 2^12 and 2^15 and the largest, alone or followed by labelled statements; 1-300 (28 values) labels; 1-300 (28 values) blocks", 0, move |ch, c| {
        let text = match ch.choose(6) {
            5 => {
                let n = match ch.choose(14) { i @ 0..11 => 65530 + i, i => [70000, 99999, 131072][i - 11] };
                format!("{}.orig x3000\nL HALT\nM .fill h\n\n.fill M\n.end", ".external h\n".repeat(n))
            }
            0 => {
                let e = [10usize, 100, 1000, 10000, 100000][ch.choose(nl)];
                let n = e - 2 + ch.choose(4);
                let mut v = vec![";c".to_string(); n];
                let at = *ch.pick(&[0usize, 1, 2, 3]);
                v[at] = ".orig x3000".into();
                v[at + 1] = "L HALT".into();
                v[n - 2] = "M .fill L".into();
                v[n - 1] = ".end".into();
                if at + 1 == n - 2 || at + 1 >= n - 1 {
                    return Ok(());
                }
                v.join("\n")
            }
            1 => {
                let n = if ch.flag() { 1 + ch.choose(300) } else { 65530 + ch.choose(11) };
                format!(".orig x3000\n{} HALT\n.fill q{}\n.external q{}\n.end", "L".repeat(n), "w".repeat(n), "W".repeat(n))
            }
            2 => {
                let n = *ch.pick(&[127usize, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 4097, 16384, 32766, 32767, 32768, 32769, 0xFDFF, 0xFE00]);
                let after = if n < 0xFDFF && ch.flag() { "\nL .fill L\nM .blkw 1" } else { "" };
                if ch.flag() { format!(".orig x0\n.blkw {n}{after}\n.end") } else { format!(".orig x0\n.stringz \"{}\"{after}\n.end", "z".repeat(n - 1)) }
            }
            3 => {
                let n = match ch.choose(28) { i @ 0..20 => i + 1, i => [50, 99, 100, 127, 128, 255, 256, 300][i - 20] };
                let mut t = String::from(".orig x3000\n");
                (0..n).for_each(|i| t += &format!("L_{i} l_{i}_b .fill E_{i}\n"));
                (0..n).for_each(|i| t += &format!(".external e_{i}\n"));
                t + ".end"
            }
            _ => {
                let n = match ch.choose(28) { i @ 0..20 => i + 1, i => [50, 99, 100, 127, 128, 255, 256, 300][i - 20] };
                (0..n).map(|i| format!(".orig {}\n.fill {i}\n.blkw 1\n.end\n", (i * 37 % 301) * 3 + 5)).collect()
            }
        };
        let debug = ch.flag();
        c.describe_lazy(|| format!("{} bytes: {:?}...", text.len(), text.chars().take(60).collect::<String>()));
        c.state(&(&text, debug));
        match obj_of_text(&text, debug)? {
            Some(o) => round_trip(binary, &o, &|| format!("{} bytes: {:?}...", text.len(), text.chars().take(60).collect::<String>()), c),
            None => fail("rejected", format!("program rejected: {:?}...", text.chars().take(60).collect::<String>())),
        }
    });
}
