//! C04: parsing never panics and its errors point inside the input.
use lc3_ensemble::err::Error;
use lc3_ensemble::parse::parse_ast;
use mc::*;

fn check(text: &str, c: &mut Case) -> Res {
    c.describe_lazy(|| {
        if text.len() > 300 {
            format!("{} bytes: {:?}...", text.len(), &text.chars().take(100).collect::<String>())
        } else {
            format!("{text:?}")
        }
    });
    c.state(&text);
    c.trans(1);
    c.trace();
    match real_raw_ctx(text)? {
        Ok(n) => {
            c.outcome(match n { 0 => "ok: no statements", 1 => "ok: 1 statement", _ => "ok: several statements" });
            Ok(())
        }
        Err(msg) => {
            c.outcome(&format!("error: {}", msg.chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>()));
            Ok(())
        }
    }
}
fn real_raw_ctx(text: &str) -> Res<Result<usize, String>> {
    let show = || text.chars().take(200).collect::<String>();
    let r = real("parse_ast", || parse_ast(text)).map_err(|f| explore::Fail { msg: format!("{} on input {:?}", f.msg, show()), ..f })?;
    match r {
        Ok(s) => Ok(Ok(s.len())),
        Err(e) => {
            let (sp, m) = real("error queries", || {
                let _ = e.help();
                let s = e.span();
                (s.map(|s| (s.first(), s.iter().cloned().collect::<Vec<_>>())), e.to_string())
            })?;
            let Some((f, all)) = sp else { return fail("no-span", format!("error `{m}` of {:?} carries no span", show())) };
            ensure!(!all.is_empty(), "no-span", "error `{m}` of {:?} carries no span", show());
            for s in all.iter().chain([&f]) {
                ensure!(s.start <= s.end && s.end <= text.len(), "span", "error `{m}` of {:?} ({} bytes) points at {s:?}", show(), text.len());
            }
            Ok(Err(m))
        }
    }
}

const SYM: &[&str] = &[
    "\"", "\\", "\n", "#", "-", "x", "0", "9", "R", "A", ".", ",", ":", ";", " ", "\r", "é", "💥", "\u{0}", "٣", "_", "\t",
];
const TOKS: &[&str] = &[
    "ADD", "br", "LDR", "NOP", "JSR", "TRAP", "ret", "lab", "L2:", ".orig", ".fill", ".blkw", ".stringz", ".end", ".external", ".bogus", ".", "R0", "r7", "R8", "#5", "#-1",
    "x3000", "65535", "65536", "-32769", "x-8000", "xFFFFF", "0", ",", ":", "\"s\"", "\"", "\"\\\"", "\n", "\r\n", ";c", "é", "$", "#", "-", "1a",
];
const SEEDS: &[&str] = &[
    ".orig x3000\nL1: ADD R0, R1, #-1 ; c\n.end",
    "a .stringz \"t\\n\\\"q\\\\\" ;x\r\n",
    "LDR r1,R2,x-1F\n.fill 65535\n",
    "\tBRnz é1\n.blkw x10\n.external Z",
    ".stringz \"é💥\\é\"\nTRAP x25",
];

fn main() {
    let mut k = Check::new("C04");
    let n = k.tier(5, 6);
    k.family("chars", "every string of at most n symbols (quick 5, thorough 6) over a token-critical alphabet of 22 characters", 0, move |ch, c| {
        let len = ch.choose(n + 1);
        let t: String = (0..len).map(|_| *ch.pick(SYM)).collect();
        check(&t, c)
    });
    let n = k.tier(6, 8);
    k.family("quoted", "`.stringz \"` followed by every string of at most n symbols (quick 6, thorough 8) over the literal-critical alphabet", 0, move |ch, c| {
        let al = ["\"", "\\", "\n", "n", "\u{e9}", "💥", "\u{0}", "\r", "\u{85}", "a"];
        let pre = *ch.pick(&[".stringz \"", "\""]);
        let len = ch.choose(n + 1);
        let t: String = (0..len).map(|_| *ch.pick(&al)).collect();
        check(&format!("{pre}{t}"), c)
    });
    let n = k.tier(4, 5);
    k.family("tokens", "every sequence of at most n tokens (quick 4, thorough 5) over 42 valid and invalid tokens, separated by spaces or not", 0, move |ch, c| {
        let len = ch.choose(n + 1);
        let sep = *ch.pick(&[" ", ""]);
        let t: Vec<&str> = (0..len).map(|_| *ch.pick(TOKS)).collect();
        check(&t.join(sep), c)
    });
    let n = 2;
    k.family("mutations", "5 seed programs: every position, every insertion/replacement/deletion/truncation/duplication, up to 2 mutations", 0, move |ch, c| {
        let mut t: Vec<char> = ch.pick(SEEDS).chars().collect();
        for _ in 0..n {
            let i = ch.choose(t.len() + 1);
            match ch.choose(5) {
                0 => {
                    let s = *ch.pick(SYM);
                    t.splice(i..i, s.chars());
                }
                1 => {
                    if i < t.len() {
                        let s = *ch.pick(SYM);
                        t.splice(i..i + 1, s.chars());
                    }
                }
                2 => {
                    if i < t.len() {
                        t.remove(i);
                    }
                }
                3 => t.truncate(i),
                _ => {
                    let tail: Vec<char> = t[i..].to_vec();
                    t.extend(tail);
                }
            }
        }
        let t: String = t.into_iter().collect();
        check(&t, c)
    });
    k.family("unicode", "every assigned or unassigned Unicode scalar value: bare, after a letter, after a digit, after a backslash in a literal, after a dot, in a comment (complete)", 0, |ch, c| {
        let v = ch.choose(0x110000 >> 6);
        for lo in 0..64u32 {
            let Some(x) = char::from_u32((v as u32) << 6 | lo) else { continue };
            for t in [format!("{x}"), format!("a{x} ADD"), format!("#1{x}"), format!("x1{x}"), format!("R{x}"), format!(".{x}"), format!("\"\\{x}\""), format!("\"a\\{x}"), format!("; {x}\n{x}")] {
                if let Err(f) = real_raw_ctx(&t) {
                    c.describe(|| format!("{t:?}"));
                    return Err(f);
                }
                c.trans(1);
                c.trace();
            }
        }
        c.state(&v);
        c.describe_lazy(|| format!("U+{:04X}..", v << 6));
        Ok(())
    });
    k.family("huge", "very long literals, identifiers, numbers, lines and line counts around the limits (65533..65537 bytes, 1e5, 1e6), terminated or not, at every escape alignment", 0, |ch, c| {
        let n = *ch.pick(&[65530usize, 65533, 65534, 65535, 65536, 65537, 131072, 1_000_000]);
        let t = match ch.choose(12) {
            0 => format!(".stringz \"{}\"", "a".repeat(n)),
            1 => format!(".stringz \"{}", "a".repeat(n)),
            2 => format!(".stringz \"{}\"", "\\n".repeat(n)),
            3 => format!(".stringz \"{}", "\\".repeat(n)),
            4 => format!(".stringz \"{}\"", "é".repeat(n / 2)),
            5 => format!(".stringz \"{}\\é\"", "a".repeat(n)),
            6 => format!("{} ADD R0, R0, R0", "L".repeat(n)),
            7 => format!(".fill {}", "9".repeat(n)),
            8 => format!(".fill x-{}", "F".repeat(n)),
            9 => format!("{}.fill $", "\n".repeat(n)),
            10 => format!("R{}", "1".repeat(n)),
            _ => format!("{}ADD R0, R0, \u{e9}", "a\n".repeat(n)),
        };
        check(&t, c)
    });
    k.run()
}
