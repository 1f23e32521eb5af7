//! C05: numeric and register tokens denote exactly their written value.
use lc3_ensemble::parse::lex::Token;
use lc3_ensemble::parse::{parse_ast, Parser};
use mc::lang::{fits_s, fits_u, from_real, Opd, K, RI};
use mc::*;

/// All spellings of `v`: (text, signed form?).
fn spell(v: i128, zeros: &[usize]) -> Vec<(String, bool)> {
    let mut o = vec![];
    let a = v.unsigned_abs();
    for &z in zeros {
        let zs = "0".repeat(z);
        if v >= 0 {
            o.push((format!("{zs}{a}"), false));
            o.push((format!("#{zs}{a}"), false));
            for x in ["x", "X"] {
                o.push((format!("{x}{zs}{a:x}"), false));
                o.push((format!("{x}{zs}{a:X}"), false));
            }
        }
        if v <= 0 {
            o.push((format!("-{zs}{a}"), true));
            o.push((format!("#-{zs}{a}"), true));
            for x in ["x", "X"] {
                o.push((format!("{x}-{zs}{a:x}"), true));
                o.push((format!("{x}-{zs}{a:X}"), true));
            }
        }
    }
    o
}
fn check_token(v: i128, t: &str, signed: bool, c: &mut Case) -> Res {
    let ok = if signed { fits_s(v.clamp(-1 << 40, 1 << 40) as i64, 16) } else { (0..=65535).contains(&v) };
    let got = real("Parser::new", || Parser::new(t).map(|p| p.peek().map(|(t, s)| (format!("{t:?}"), s.clone(), match t { Token::Unsigned(n) => Some((false, *n as i128)), Token::Signed(n) => Some((true, *n as i128)), _ => None }))))?;
    c.trans(1);
    match got {
        Ok(Some((txt, span, Some((_, n))))) if ok => {
            ensure!(n == v, "value", "`{t}` denotes {n} ({txt})");
            ensure!(span == (0..t.len()), "span", "`{t}` lexed only as {span:?}");
        }
        Err(_) if !ok => {}
        g => return fail("token", format!("`{t}` (value {v}, acceptable: {ok}) lexes as {:?}", g.map(|x| x.map(|y| y.0)).map_err(|e| e.to_string()))),
    }
    Ok(())
}

type Field = (&'static str, bool, u32, fn(i32) -> K);
/// prefix text, signed?, width (17 = .fill, 18 = .blkw), statement
const FIELDS: &[Field] = &[
    ("ADD R1, R2, ", true, 5, |n| K::Add(1, 2, RI::I(n))),
    ("AND R1, R2, ", true, 5, |n| K::And(1, 2, RI::I(n))),
    ("LDR R1, R2, ", true, 6, |n| K::Ldr(1, 2, n)),
    ("STR R1, R2, ", true, 6, |n| K::Str(1, 2, n)),
    ("BR ", true, 9, |n| K::Br(7, Opd::N(n))),
    ("LD R3, ", true, 9, |n| K::Ld(3, Opd::N(n))),
    ("LDI R3, ", true, 9, |n| K::Ldi(3, Opd::N(n))),
    ("LEA R3, ", true, 9, |n| K::Lea(3, Opd::N(n))),
    ("ST R3, ", true, 9, |n| K::St(3, Opd::N(n))),
    ("STI R3, ", true, 9, |n| K::Sti(3, Opd::N(n))),
    ("NOP ", true, 9, |n| K::Nop(Opd::N(n))),
    ("JSR ", true, 11, |n| K::Jsr(Opd::N(n))),
    ("TRAP ", false, 8, |n| K::Trap(n)),
    (".orig ", false, 16, |n| K::Orig(n as u16)),
    (".fill ", false, 17, |n| K::Fill(Opd::N(n as u16 as i32))),
    (".blkw ", false, 18, |n| K::Blkw(n as u16)),
    ("BRz ", true, 9, |n| K::Br(2, Opd::N(n))),
];
fn check_field(f: &Field, v: i128, t: &str, signed_form: bool, c: &mut Case) -> Res {
    let w = v.clamp(-1 << 40, 1 << 40) as i64;
    let tok_ok = if signed_form { fits_s(w, 16) } else { fits_u(w, 16) };
    let fits = match f.2 {
        17 => true,
        18 => w > 0 && fits_u(w, 16),
        n if f.1 => fits_s(w, n),
        n => fits_u(w, n),
    };
    let ok = tok_ok && fits;
    let src = format!("{}{t}", f.0);
    let got = real("parse_ast", || parse_ast(&src))?;
    c.trans(1);
    match got {
        Ok(st) if ok => {
            let want = (f.3)(w as i32);
            ensure!(st.len() == 1 && st[0].labels.is_empty() && from_real(&st[0]).k == want, "operand", "`{src}` parses as {st:?}, want {want:?}");
        }
        Err(_) if !ok => {}
        g => return fail("operand-accept", format!("`{src}`: value {v} should be {}, got {g:?}", if ok { "accepted" } else { "rejected" })),
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C05");
    k.assume("numeric notations: n, #n, -n, #-n, xH, XH, x-H, X-H, hex digits of either case, 0-6 leading zeros");
    let zeros: Vec<usize> = k.tier(vec![0, 1, 2, 3, 4, 7], vec![0, 1, 2, 3, 4, 5, 6, 17]);
    let zeros2 = zeros.clone();
    k.family("tokens", "every integer in [-70000, 140000] as a bare token in every notation", 0, move |ch, c| {
        let v = ch.choose(210_001) as i128 - 70_000;
        let sp = spell(v, &zeros);
        c.describe_lazy(|| format!("{v}: {}", sp.iter().map(|s| s.0.as_str()).collect::<Vec<_>>().join(" ")));
        for (t, s) in &sp {
            check_token(v, t, *s, c)?;
        }
        c.state(&v);
        c.trace();
        Ok(())
    });
    let zf: Vec<usize> = vec![0, 3];
    k.family("operands", "every integer in [-70000, 140000] in every notation as the operand of every field", 0, move |ch, c| {
        let v = ch.choose(210_001) as i128 - 70_000;
        let sp = spell(v, &zf);
        c.describe_lazy(|| format!("{v} as operand of {} fields in {} spellings", FIELDS.len(), sp.len()));
        for (t, s) in &sp {
            if t.starts_with('X') {
                continue; // same token path as x; covered by "tokens"
            }
            for f in FIELDS {
                check_field(f, v, t, *s, c)?;
            }
        }
        c.state(&v);
        c.trace();
        Ok(())
    });
    k.family("near-limits", "every value within 4 of every field limit and of every power of two, all notations, all leading-zero counts, all fields", 0, |ch, c| {
        let e = ch.choose(17) as u32;
        let d = ch.choose(9) as i128 - 4;
        let neg = ch.flag();
        let v = (1i128 << e) + d;
        let v = if neg { -v } else { v };
        c.describe_lazy(|| format!("{v}"));
        for (t, s) in spell(v, &[0, 1, 2, 3, 4, 5, 6]) {
            check_token(v, &t, s, c)?;
            for f in FIELDS {
                check_field(f, v, &t, s, c)?;
            }
        }
        c.state(&v);
        c.trace();
        Ok(())
    });
    k.family("huge", "values 2^e + d, 10^e + d, and k*2^16/2^32/2^64 + small, which overflow every machine integer: rejected in every notation", 0, move |ch, c| {
        let base = match ch.choose(3) {
            0 => 1i128 << (17 + ch.choose(108)),
            1 => 10i128.pow(5 + ch.choose(33) as u32),
            _ => [1i128 << 16, 1 << 17, 1 << 24, 1 << 32, 1 << 33, 1 << 64][ch.choose(6)] * (1 + ch.choose(5) as i128),
        };
        let d = ch.choose(40) as i128 - 20;
        let neg = ch.flag();
        let v = if neg { -(base + d) } else { base + d };
        c.describe_lazy(|| format!("{v}"));
        if v.abs() < 65536 + 10 {
            return Ok(());
        }
        for (t, s) in spell(v, &zeros2) {
            check_token(v, &t, s, c)?;
            if d.abs() < 3 {
                for f in FIELDS {
                    check_field(f, v, &t, s, c)?;
                }
            }
        }
        c.state(&v);
        c.trace();
        Ok(())
    });
    k.family("registers", "R/r followed by every number 0..=1023 with 0-3 leading zeros, and by numbers congruent to 0-7 modulo 2^8, 2^16, 2^32, 2^64; bare and in operand position", 0, |ch, c| {
        let v: u128 = match ch.choose(2) {
            0 => ch.choose(1024) as u128,
            _ => (1u128 << [8, 16, 24, 32, 40, 64, 72][ch.choose(7)]) * (1 + ch.choose(3) as u128) + ch.choose(8) as u128,
        };
        let z = ch.choose(4);
        let r = if ch.flag() { "r" } else { "R" };
        let t = format!("{r}{}{v}", "0".repeat(z));
        c.describe_lazy(|| t.clone());
        c.state(&t);
        c.trace();
        let got = real("Parser::new", || Parser::new(&t).map(|p| p.peek().map(|x| match x.0 { Token::Reg(n) => Some(n), _ => None })))?;
        match got {
            Ok(Some(Some(n))) if v < 8 => ensure!(n as u128 == v, "reg", "`{t}` is register {n}"),
            Err(_) if v >= 8 => {}
            g => return fail("reg", format!("`{t}` lexes as {:?}", g.map_err(|e| e.to_string()))),
        }
        let n = v as u8;
        for (src, want) in [
            (format!("NOT {t}, R0"), K::Not(n & 7, 0)),
            (format!("ADD R1, {t}, #1"), K::Add(1, n & 7, RI::I(1))),
            (format!("AND R1, R2, {t}"), K::And(1, 2, RI::R(n & 7))),
            (format!("LDR R1,{t},#-1"), K::Ldr(1, n & 7, -1)),
            (format!("JSRR {t}"), K::Jsrr(n & 7)),
            (format!("JMP {t}"), K::Jmp(n & 7)),
            (format!("ST {t},#3"), K::St(n & 7, Opd::N(3))),
        ] {
            c.trans(1);
            match (real("parse_ast", || parse_ast(&src))?, v < 8) {
                (Ok(s), true) => ensure!(s.len() == 1 && from_real(&s[0]).k == want, "reg-operand", "`{src}` parses as {s:?}"),
                (Err(_), false) => {}
                (g, _) => return fail("reg-operand", format!("`{src}` gives {g:?}")),
            }
        }
        Ok(())
    });
    k.run()
}
