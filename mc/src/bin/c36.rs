//! C36: printed statements reparse to the same statement.
use lc3_ensemble::parse::parse_ast;
use mc::lang::*;
use mc::surface::{alphabet, render};
use mc::*;

fn roundtrip(text: &str, c: &mut Case) -> Res {
    c.describe_lazy(|| format!("{text:?}"));
    let a = match real("parse_ast", || parse_ast(text))? {
        Ok(a) => a,
        Err(_) => {
            c.outcome("not parsed");
            return Ok(());
        }
    };
    c.state(&text);
    for st in &a {
        let printed = real("print", || st.to_string())?;
        c.trans(1);
        c.trace();
        let b = real("parse_ast", || parse_ast(&printed))?;
        let want = from_real(st);
        match b {
            Ok(b) if b.len() == 1 && from_real(&b[0]) == want => {}
            b => return fail("reparse", format!("{text:?} parses to {want:?}, printed as {printed:?}, which parses to {:?}", b.map(|b| b.iter().map(from_real).collect::<Vec<_>>()).map_err(|e| e.to_string()))),
        }
        // the nucleus alone prints and reparses as well
        let pn = real("print", || st.nucleus.to_string())?;
        match real("parse_ast", || parse_ast(&pn))? {
            Ok(b) if b.len() == 1 && from_real_kind(&b[0].nucleus) == want.k && b[0].labels.is_empty() => {}
            b => return fail("reparse", format!("{text:?}: nucleus printed as {pn:?}, which parses to {b:?}")),
        }
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C36");
    let al = alphabet();
    k.family("kinds", "every statement kind x 0-3 labels (incl. keyword-like and mixed-case and non-ASCII names) x surface layouts with at most 3 (thorough 4) departures", k.tier(3, 4), move |ch, c| {
        let kd = ch.pick(&al).clone();
        let lbs: &[&str] = ch.pick(&[&[] as &[&str], &["LOOP"], &["a", "B_2"], &["xyz", "X", "x_1"], &["addx", "R", "BRnzpx"], &["_", "l2", "HALTs"], &["naïve", "bЖ1_я"], &["xⱥ", "XȺ٣", "xŉ"]]);
        let r = render(ch, &[ls(lbs, kd)]);
        roundtrip(&r.text, c)
    });
    k.family("operands", "every instruction with every value of every operand field; .orig/.fill/.blkw with every 16-bit value, both signs (complete)", 0, |ch, c| {
        let r = |ch: &mut Ch| ch.choose(8) as u8;
        let sg = |ch: &mut Ch, n: u32| ch.choose(1 << n) as i32 - (1 << (n - 1));
        let k = match ch.choose(22) {
            0 => K::Add(r(ch), r(ch), RI::R(r(ch))),
            1 => K::Add(r(ch), r(ch), RI::I(sg(ch, 5))),
            2 => K::And(r(ch), r(ch), RI::R(r(ch))),
            3 => K::And(r(ch), r(ch), RI::I(sg(ch, 5))),
            4 => K::Not(r(ch), r(ch)),
            5 => K::Br(1 + ch.choose(7) as u8, Opd::N(sg(ch, 9))),
            6 => K::Jmp(r(ch)),
            7 => K::Jsr(Opd::N(sg(ch, 11))),
            8 => K::Jsrr(r(ch)),
            9 => K::Ld(r(ch), Opd::N(sg(ch, 9))),
            10 => K::Ldi(r(ch), Opd::N(sg(ch, 9))),
            11 => K::Lea(r(ch), Opd::N(sg(ch, 9))),
            12 => K::St(r(ch), Opd::N(sg(ch, 9))),
            13 => K::Sti(r(ch), Opd::N(sg(ch, 9))),
            14 => K::Ldr(r(ch), r(ch), sg(ch, 6)),
            15 => K::Str(r(ch), r(ch), sg(ch, 6)),
            16 => K::Trap(ch.choose(256) as i32),
            17 => K::Nop(Opd::N(sg(ch, 9))),
            18 => K::Orig(ch.choose(1 << 16) as u16),
            19 => K::Fill(Opd::N(ch.choose(1 << 16) as i32)),
            20 => K::Blkw(1 + ch.choose((1 << 16) - 1) as u16),
            _ => {
                let n = ch.choose(1 << 15) as i32 - (1 << 15);
                return roundtrip(&format!(".fill {n}"), c);
            }
        };
        roundtrip(&k.text(), c)
    });
    k.family("string-pairs", "string literals: every string of length <= 2 over all printable ASCII, tab, newline, CR, NUL (complete), escaped spelling", 0, |ch, c| {
        let cs: Vec<char> = (0x20u8..0x7F).map(char::from).chain("\t\n\r\0".chars()).collect();
        let n = ch.choose(3);
        let t: String = (0..n).map(|_| *ch.pick(&cs)).collect();
        roundtrip(&format!(".stringz {}", str_lit(&t)), c)
    });
    let d = k.tier(5, 6);
    k.family("string-escapes", "raw literal bodies: every sequence of length <= 5 (thorough 6) over backslashes, quotes, escape letters, braces, digits", 0, move |ch, c| {
        let cs = ["\\", "\\\"", "n", "0", "1", "u", "{", "}", "'", "x", "\\\\", "\t", ";", "a"];
        let n = ch.choose(d + 1);
        let t: String = (0..n).map(|_| *ch.pick(&cs)).collect();
        roundtrip(&format!("L .stringz \"{t}\""), c)
    });
    k.run()
}
