//! Reference model of the assembly language: statements, their text, and their LC-3 encoding.
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, PCOffset, Reg};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Opd {
    N(i32),
    L(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RI {
    R(u8),
    I(i32),
}
/// A statement without its labels.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Add(u8, u8, RI),
    And(u8, u8, RI),
    Not(u8, u8),
    Br(u8, Opd),
    Jmp(u8),
    Jsr(Opd),
    Jsrr(u8),
    Ld(u8, Opd),
    Ldi(u8, Opd),
    Lea(u8, Opd),
    St(u8, Opd),
    Sti(u8, Opd),
    Ldr(u8, u8, i32),
    Str(u8, u8, i32),
    Rti,
    Ret,
    Trap(i32),
    Nop(Opd),
    Getc,
    Out,
    Putc,
    Puts,
    In,
    Putsp,
    Halt,
    Orig(u16),
    Fill(Opd),
    Blkw(u16),
    Stringz(String),
    End,
    External(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S {
    pub labels: Vec<String>,
    pub k: K,
}
pub fn s(k: K) -> S {
    S { labels: vec![], k }
}
pub fn ls(l: &[&str], k: K) -> S {
    S { labels: l.iter().map(|x| x.to_string()).collect(), k }
}
pub fn l(x: &str) -> Opd {
    Opd::L(x.to_string())
}

pub const BR_NAMES: [&str; 8] = ["NOP", "BRp", "BRz", "BRzp", "BRn", "BRnp", "BRnz", "BRnzp"];

pub fn reg_of(n: u8) -> Reg {
    Reg::try_from(n).unwrap()
}
fn rn(r: Reg) -> u8 {
    match r {
        Reg::R0 => 0,
        Reg::R1 => 1,
        Reg::R2 => 2,
        Reg::R3 => 3,
        Reg::R4 => 4,
        Reg::R5 => 5,
        Reg::R6 => 6,
        Reg::R7 => 7,
    }
}
fn po<const N: u32>(p: &PCOffset<i16, N>) -> Opd {
    match p {
        PCOffset::Offset(o) => Opd::N(o.get() as i32),
        PCOffset::Label(l) => Opd::L(l.name.clone()),
    }
}
fn ri<const N: u32>(p: &ImmOrReg<N>) -> RI {
    match p {
        ImmOrReg::Imm(o) => RI::I(o.get() as i32),
        ImmOrReg::Reg(r) => RI::R(rn(*r)),
    }
}
/// Reads a statement returned by the real parser into the model's representation.
pub fn from_real_kind(k: &StmtKind) -> K {
    match k {
        StmtKind::Instr(i) => match i {
            AsmInstr::ADD(a, b, c) => K::Add(rn(*a), rn(*b), ri(c)),
            AsmInstr::AND(a, b, c) => K::And(rn(*a), rn(*b), ri(c)),
            AsmInstr::NOT(a, b) => K::Not(rn(*a), rn(*b)),
            AsmInstr::BR(cc, o) => K::Br(*cc as u8, po(o)),
            AsmInstr::JMP(r) => K::Jmp(rn(*r)),
            AsmInstr::JSR(o) => K::Jsr(po(o)),
            AsmInstr::JSRR(r) => K::Jsrr(rn(*r)),
            AsmInstr::LD(r, o) => K::Ld(rn(*r), po(o)),
            AsmInstr::LDI(r, o) => K::Ldi(rn(*r), po(o)),
            AsmInstr::LEA(r, o) => K::Lea(rn(*r), po(o)),
            AsmInstr::ST(r, o) => K::St(rn(*r), po(o)),
            AsmInstr::STI(r, o) => K::Sti(rn(*r), po(o)),
            AsmInstr::LDR(a, b, o) => K::Ldr(rn(*a), rn(*b), o.get() as i32),
            AsmInstr::STR(a, b, o) => K::Str(rn(*a), rn(*b), o.get() as i32),
            AsmInstr::RTI => K::Rti,
            AsmInstr::RET => K::Ret,
            AsmInstr::TRAP(v) => K::Trap(v.get() as i32),
            AsmInstr::NOP(o) => K::Nop(po(o)),
            AsmInstr::GETC => K::Getc,
            AsmInstr::OUT => K::Out,
            AsmInstr::PUTC => K::Putc,
            AsmInstr::PUTS => K::Puts,
            AsmInstr::IN => K::In,
            AsmInstr::PUTSP => K::Putsp,
            AsmInstr::HALT => K::Halt,
        },
        StmtKind::Directive(d) => match d {
            Directive::Orig(o) => K::Orig(o.get()),
            Directive::Fill(PCOffset::Offset(o)) => K::Fill(Opd::N(o.get() as i32)),
            Directive::Fill(PCOffset::Label(l)) => K::Fill(Opd::L(l.name.clone())),
            Directive::Blkw(o) => K::Blkw(o.get()),
            Directive::Stringz(s) => K::Stringz(s.clone()),
            Directive::End => K::End,
            Directive::External(l) => K::External(l.name.clone()),
        },
    }
}
pub fn from_real(st: &Stmt) -> S {
    S { labels: st.labels.iter().map(|l| l.name.clone()).collect(), k: from_real_kind(&st.nucleus) }
}

/// A token of the surface syntax.
#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    Kw(String),
    Dir(String),
    R(u8),
    /// signed value; field may print it in any notation
    Num(i32),
    Label(String),
    Str(String),
    Comma,
}
impl K {
    /// The tokens of the statement in canonical form.
    pub fn tokens(&self) -> Vec<Tk> {
        use Tk::*;
        let kw = |s: &str| Kw(s.to_string());
        let od = |o: &Opd| match o {
            Opd::N(n) => Num(*n),
            Opd::L(l) => Label(l.clone()),
        };
        let rr = |r: &RI| match r {
            RI::R(n) => R(*n),
            RI::I(n) => Num(*n),
        };
        match self {
            K::Add(a, b, c) => vec![kw("ADD"), R(*a), Comma, R(*b), Comma, rr(c)],
            K::And(a, b, c) => vec![kw("AND"), R(*a), Comma, R(*b), Comma, rr(c)],
            K::Not(a, b) => vec![kw("NOT"), R(*a), Comma, R(*b)],
            K::Br(cc, o) => vec![kw(BR_NAMES[*cc as usize & 7]), od(o)],
            K::Jmp(r) => vec![kw("JMP"), R(*r)],
            K::Jsr(o) => vec![kw("JSR"), od(o)],
            K::Jsrr(r) => vec![kw("JSRR"), R(*r)],
            K::Ld(r, o) => vec![kw("LD"), R(*r), Comma, od(o)],
            K::Ldi(r, o) => vec![kw("LDI"), R(*r), Comma, od(o)],
            K::Lea(r, o) => vec![kw("LEA"), R(*r), Comma, od(o)],
            K::St(r, o) => vec![kw("ST"), R(*r), Comma, od(o)],
            K::Sti(r, o) => vec![kw("STI"), R(*r), Comma, od(o)],
            K::Ldr(a, b, o) => vec![kw("LDR"), R(*a), Comma, R(*b), Comma, Num(*o)],
            K::Str(a, b, o) => vec![kw("STR"), R(*a), Comma, R(*b), Comma, Num(*o)],
            K::Rti => vec![kw("RTI")],
            K::Ret => vec![kw("RET")],
            K::Trap(v) => vec![kw("TRAP"), Num(*v)],
            K::Nop(o) => vec![kw("NOP"), od(o)],
            K::Getc => vec![kw("GETC")],
            K::Out => vec![kw("OUT")],
            K::Putc => vec![kw("PUTC")],
            K::Puts => vec![kw("PUTS")],
            K::In => vec![kw("IN")],
            K::Putsp => vec![kw("PUTSP")],
            K::Halt => vec![kw("HALT")],
            K::Orig(a) => vec![Dir("orig".into()), Num(*a as i32)],
            K::Fill(o) => vec![Dir("fill".into()), od(o)],
            K::Blkw(n) => vec![Dir("blkw".into()), Num(*n as i32)],
            K::Stringz(t) => vec![Dir("stringz".into()), Str(t.clone())],
            K::End => vec![Dir("end".into())],
            K::External(t) => vec![Dir("external".into()), Label(t.clone())],
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (i, t) in self.tokens().iter().enumerate() {
            if i > 0 && *t != Tk::Comma {
                o.push(' ');
            }
            o.push_str(&tk_text(t));
        }
        o
    }
    /// Does the statement occupy memory?
    pub fn size(&self) -> u32 {
        match self {
            K::Orig(_) | K::End | K::External(_) => 0,
            K::Blkw(n) => *n as u32,
            K::Stringz(t) => t.len() as u32 + 1,
            _ => 1,
        }
    }
    pub fn operand(&self) -> Option<(&Opd, u32)> {
        Some(match self {
            K::Br(_, o) | K::Ld(_, o) | K::Ldi(_, o) | K::Lea(_, o) | K::St(_, o) | K::Sti(_, o) | K::Nop(o) => (o, 9),
            K::Jsr(o) => (o, 11),
            K::Fill(o) => (o, 16),
            _ => return None,
        })
    }
}
/// Escapes a string for a `.stringz` literal using only the documented escapes.
pub fn str_lit(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn tk_text(t: &Tk) -> String {
    match t {
        Tk::Kw(k) => k.clone(),
        Tk::Dir(d) => format!(".{d}"),
        Tk::R(n) => format!("R{n}"),
        Tk::Num(n) => format!("#{n}"),
        Tk::Label(l) => l.clone(),
        Tk::Str(s) => str_lit(s),
        Tk::Comma => ",".into(),
    }
}
impl S {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for l in &self.labels {
            o.push_str(l);
            o.push(' ');
        }
        o.push_str(&self.k.text());
        o
    }
}
pub fn program_text(p: &[S]) -> String {
    p.iter().map(|x| x.text()).collect::<Vec<_>>().join("\n")
}

/// Does `v` fit an n-bit two's complement field?
pub fn fits_s(v: i64, n: u32) -> bool {
    v >= -(1i64 << (n - 1)) && v < (1i64 << (n - 1))
}
pub fn fits_u(v: i64, n: u32) -> bool {
    v >= 0 && v < (1i64 << n)
}
fn fld(v: i32, n: u32) -> u16 {
    (v as u32 & ((1u32 << n) - 1)) as u16
}
/// LC-3 encoding of a one-word statement whose label operand has been replaced by `off`.
pub fn encode(k: &K, off: i32) -> Option<u16> {
    let r = |x: u8| x as u16;
    let o = |o: &Opd| match o {
        Opd::N(n) => *n,
        Opd::L(_) => off,
    };
    let src = |x: &RI| match x {
        RI::R(n) => r(*n),
        RI::I(n) => 0x20 | fld(*n, 5),
    };
    Some(match k {
        K::Add(a, b, c) => 0x1000 | r(*a) << 9 | r(*b) << 6 | src(c),
        K::And(a, b, c) => 0x5000 | r(*a) << 9 | r(*b) << 6 | src(c),
        K::Not(a, b) => 0x903F | r(*a) << 9 | r(*b) << 6,
        K::Br(cc, x) => r(*cc) << 9 | fld(o(x), 9),
        K::Nop(x) => fld(o(x), 9),
        K::Jmp(b) => 0xC000 | r(*b) << 6,
        K::Ret => 0xC1C0,
        K::Jsr(x) => 0x4800 | fld(o(x), 11),
        K::Jsrr(b) => 0x4000 | r(*b) << 6,
        K::Ld(a, x) => 0x2000 | r(*a) << 9 | fld(o(x), 9),
        K::Ldi(a, x) => 0xA000 | r(*a) << 9 | fld(o(x), 9),
        K::Lea(a, x) => 0xE000 | r(*a) << 9 | fld(o(x), 9),
        K::St(a, x) => 0x3000 | r(*a) << 9 | fld(o(x), 9),
        K::Sti(a, x) => 0xB000 | r(*a) << 9 | fld(o(x), 9),
        K::Ldr(a, b, n) => 0x6000 | r(*a) << 9 | r(*b) << 6 | fld(*n, 6),
        K::Str(a, b, n) => 0x7000 | r(*a) << 9 | r(*b) << 6 | fld(*n, 6),
        K::Rti => 0x8000,
        K::Trap(v) => 0xF000 | fld(*v, 8),
        K::Getc => 0xF020,
        K::Out | K::Putc => 0xF021,
        K::Puts => 0xF022,
        K::In => 0xF023,
        K::Putsp => 0xF024,
        K::Halt => 0xF025,
        K::Fill(Opd::N(n)) => fld(*n, 16),
        _ => return None,
    })
}
/// Independent decoder: the canonical one-word instruction of `w`, or why there is none.
#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
pub enum Bad {
    Opcode,
    Format,
}
pub fn decode(w: u16) -> Result<K, Bad> {
    let r = |sh: u16| ((w >> sh) & 7) as u8;
    let sx = |n: u32| {
        let v = (w as u32 & ((1 << n) - 1)) as i32;
        if v >= 1 << (n - 1) { v - (1 << n) } else { v }
    };
    let o9 = || Opd::N(sx(9));
    let k = match w >> 12 {
        0 => K::Br(r(9), o9()),
        1 | 5 => {
            let src = if w & 0x20 != 0 {
                RI::I(sx(5))
            } else {
                if w & 0x18 != 0 {
                    return Err(Bad::Format);
                }
                RI::R(r(0))
            };
            if w >> 12 == 1 { K::Add(r(9), r(6), src) } else { K::And(r(9), r(6), src) }
        }
        2 => K::Ld(r(9), o9()),
        3 => K::St(r(9), o9()),
        4 => {
            if w & 0x0800 != 0 {
                K::Jsr(Opd::N(sx(11)))
            } else if w & 0x0E3F != 0 {
                return Err(Bad::Format);
            } else {
                K::Jsrr(r(6))
            }
        }
        6 => K::Ldr(r(9), r(6), sx(6)),
        7 => K::Str(r(9), r(6), sx(6)),
        8 => {
            if w & 0x0FFF != 0 {
                return Err(Bad::Format);
            }
            K::Rti
        }
        9 => {
            if w & 0x3F != 0x3F {
                return Err(Bad::Format);
            }
            K::Not(r(9), r(6))
        }
        10 => K::Ldi(r(9), o9()),
        11 => K::Sti(r(9), o9()),
        12 => {
            if w & 0x0E3F != 0 {
                return Err(Bad::Format);
            }
            K::Jmp(r(6))
        }
        13 => return Err(Bad::Opcode),
        14 => K::Lea(r(9), o9()),
        _ => {
            if w & 0x0F00 != 0 {
                return Err(Bad::Format);
            }
            K::Trap((w & 0xFF) as i32)
        }
    };
    Ok(k)
}
