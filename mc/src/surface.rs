//! Renders model statements into program text with chosen surface syntax; every departure from
//! the canonical layout costs one deviation.
use crate::lang::*;
use crate::Ch;
use std::ops::Range;

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    /// text range of each statement's instruction or directive
    pub nuclei: Vec<Range<usize>>,
    /// for each statement, the text range of each of its labels
    pub labels: Vec<Vec<Range<usize>>>,
}

/// Case variants of a word.
pub fn case(ch: &mut Ch, w: &str) -> String {
    match ch.dev(5) {
        0 => w.to_string(),
        1 => w.to_lowercase(),
        2 => w.to_uppercase(),
        3 => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}
/// A number in some notation. `signed_field`: the field only takes signed values up to 32767.
fn num(ch: &mut Ch, n: i32) -> String {
    let a = n.unsigned_abs();
    if n < 0 {
        match ch.dev(7) {
            0 => format!("#{n}"),
            1 => format!("{n}"),
            2 => format!("x-{a:X}"),
            3 => format!("X-{a:x}"),
            4 => format!("#-00{a}"),
            5 => format!("x-0{a:x}"),
            _ => format!("-0{a}"),
        }
    } else {
        match ch.dev(9) {
            0 => format!("#{n}"),
            1 => format!("{n}"),
            2 => format!("x{n:X}"),
            3 => format!("X{n:x}"),
            4 => format!("x{n:04X}"),
            5 => format!("#00{n}"),
            6 => format!("000{n}"),
            7 => format!("X0{n:X}"),
            _ => format!("x{n:x}"),
        }
    }
}
pub const COMMENTS: &[&str] = &[
    "",
    "; comment",
    ";",
    ";; .end",
    "; \"quoted \\",
    "; é💥 ü",
    ";ADD R0, R0, #1 ; x",
    ";\t\"",
    "; L1: HALT",
];
fn eol(ch: &mut Ch) -> &'static str {
    *ch.pick_dev(&["\n", "\r\n"])
}
fn trail(ch: &mut Ch) -> String {
    let ws = *ch.pick_dev(&["", " ", "\t", "  \t "]);
    let cm = *ch.pick_dev(COMMENTS);
    format!("{ws}{cm}")
}
/// Extra lines that hold no statement.
fn blank(ch: &mut Ch, out: &mut String) {
    let k = ch.dev(6);
    if k == 0 {
        return;
    }
    out.push_str(match k {
        1 => "",
        2 => "  \t",
        3 => "; only a comment",
        4 => "\t;x \"",
        _ => "\n\r\n \n",
    });
    out.push_str(eol(ch));
}

pub fn render(ch: &mut Ch, prog: &[S]) -> Rendered {
    let mut r = Rendered::default();
    blank(ch, &mut r.text);
    for (si, st) in prog.iter().enumerate() {
        let o = &mut r.text;
        let mut lr = vec![];
        o.push_str(*ch.pick_dev(&["", "    ", "\t", " "]));
        for lb in &st.labels {
            let start = o.len();
            o.push_str(lb);
            lr.push(start..o.len());
            match ch.dev(9) {
                0 => o.push(' '),
                1 => o.push_str(": "),
                2 => o.push_str(" : "),
                3 => o.push(':'),
                4 => o.push('\t'),
                5 => {
                    o.push_str(&trail(ch));
                    o.push_str(eol(ch));
                    blank(ch, o);
                }
                6 => {
                    o.push(':');
                    o.push_str(&trail(ch));
                    o.push_str(eol(ch));
                }
                7 => {
                    o.push_str(eol(ch));
                    o.push_str("\t ");
                }
                _ => {
                    o.push_str(" :\t; own line\n\n ; and \"more\n  ");
                }
            }
        }
        let start = o.len();
        let toks = st.k.tokens();
        let elide = matches!(&st.k, K::Nop(Opd::N(0))) && ch.flag_dev();
        let toks: &[Tk] = if elide { &toks[..1] } else { &toks };
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                // Which tokens can touch: anything next to a comma, and a quote, and # - after letters.
                let prev = &toks[i - 1];
                let text_starts_free = matches!(t, Tk::Comma | Tk::Str(_));
                let canonical = if *t == Tk::Comma { "" } else { " " };
                if text_starts_free || *prev == Tk::Comma {
                    o.push_str(match ch.dev(4) {
                        0 => canonical,
                        1 => if canonical.is_empty() { " " } else { "" },
                        2 => "\t",
                        _ => " \t  ",
                    });
                } else {
                    o.push_str(*ch.pick_dev(&[" ", "\t", "   ", " \t "]));
                }
            }
            let x = match t {
                Tk::Kw(k) => {
                    let k = if k == "BRnzp" && ch.flag_dev() { "BR" } else { k };
                    case(ch, k)
                }
                Tk::Dir(d) => format!(".{}", case(ch, d)),
                Tk::R(n) => match ch.dev(4) {
                    0 => format!("R{n}"),
                    1 => format!("r{n}"),
                    2 => format!("R0{n}"),
                    _ => format!("r000{n}"),
                },
                Tk::Num(n) => num(ch, *n),
                Tk::Str(s) => {
                    if s.contains('\t') && ch.flag_dev() {
                        str_lit(s).replace("\\t", "\t")
                    } else {
                        str_lit(s)
                    }
                }
                t => tk_text(t),
            };
            o.push_str(&x);
        }
        r.nuclei.push(start..o.len());
        r.labels.push(lr);
        o.push_str(&trail(ch));
        if si + 1 < prog.len() {
            o.push_str(eol(ch));
            blank(ch, o);
        }
    }
    match ch.dev(6) {
        0 => {}
        1 => r.text.push('\n'),
        2 => r.text.push_str("\r\n"),
        3 => r.text.push_str("\n\n \t\n"),
        4 => r.text.push_str("\r\n; eof"),
        _ => r.text.push_str(" ; eof é\r\n\t"),
    }
    r
}

/// Every statement kind with representative operands.
pub fn alphabet() -> Vec<K> {
    use RI::*;
    let n = Opd::N;
    let mut v = vec![
        K::Add(1, 2, R(3)), K::Add(0, 7, I(-16)), K::Add(6, 6, I(15)), K::And(4, 5, R(0)), K::And(7, 0, I(0)), K::And(2, 2, I(-1)),
        K::Not(3, 6), K::Jmp(2), K::Jsr(n(-1024)), K::Jsr(n(1023)), K::Jsr(l("SUB")), K::Jsrr(5),
        K::Ld(1, n(-256)), K::Ld(2, l("loop")), K::Ldi(3, n(255)), K::Ldi(4, l("X_1")), K::Lea(5, l("R8x")), K::Lea(6, n(0)),
        K::St(7, l("_a9")), K::St(0, n(1)), K::Sti(1, l("BRx")), K::Sti(2, n(-1)), K::Ldr(3, 4, -32), K::Ldr(5, 6, 31), K::Str(7, 0, 0), K::Str(1, 2, -1),
        K::Rti, K::Ret, K::Trap(0x25), K::Trap(0), K::Trap(255), K::Nop(n(0)), K::Nop(n(10)), K::Nop(n(-3)), K::Nop(n(255)), K::Nop(n(-256)), K::Nop(l("A")), K::Getc, K::Out, K::Putc, K::Puts, K::In, K::Putsp, K::Halt,
        K::Orig(0x3000), K::Orig(0), K::Orig(0xFFFF), K::Fill(n(0)), K::Fill(n(65535)), K::Fill(n(10)), K::Fill(l("Table")), K::Blkw(1), K::Blkw(65535), K::End,
        K::Stringz("".into()), K::Stringz("Hello; \"world\": , #1".into()), K::Stringz("tab\there\nnew\\n\r\0z".into()), K::Stringz("'{}é💥".into()), K::External("Ext".into()), K::External("xyz".into()),
    ];
    for cc in 1..8 {
        v.push(K::Br(cc, if cc % 2 == 0 { n(-5) } else { l("HALTED") }));
    }
    v
}
