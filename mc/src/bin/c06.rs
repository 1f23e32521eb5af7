//! C06: instruction decoding is the exact inverse of encoding (complete enumeration).
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{IOffset, ImmOrReg, Offset};
use lc3_ensemble::sim::SimErr;
use mc::lang::{decode, encode, reg_of, Bad, Opd, K, RI};
use mc::*;

/// The real instruction meant by a model instruction.
fn to_sim(k: &K) -> SimInstr {
    let r = reg_of;
    let o9 = |o: &Opd| match o {
        Opd::N(n) => IOffset::<9>::new(*n as i16).unwrap(),
        _ => unreachable!(),
    };
    let src = |x: &RI| match x {
        RI::R(n) => ImmOrReg::Reg(r(*n)),
        RI::I(n) => ImmOrReg::Imm(IOffset::new(*n as i16).unwrap()),
    };
    match k {
        K::Add(a, b, c) => SimInstr::ADD(r(*a), r(*b), src(c)),
        K::And(a, b, c) => SimInstr::AND(r(*a), r(*b), src(c)),
        K::Not(a, b) => SimInstr::NOT(r(*a), r(*b)),
        K::Br(cc, o) => SimInstr::BR(*cc, o9(o)),
        K::Jmp(a) => SimInstr::JMP(r(*a)),
        K::Jsr(Opd::N(n)) => SimInstr::JSR(ImmOrReg::Imm(IOffset::new(*n as i16).unwrap())),
        K::Jsrr(a) => SimInstr::JSR(ImmOrReg::Reg(r(*a))),
        K::Ld(a, o) => SimInstr::LD(r(*a), o9(o)),
        K::Ldi(a, o) => SimInstr::LDI(r(*a), o9(o)),
        K::Lea(a, o) => SimInstr::LEA(r(*a), o9(o)),
        K::St(a, o) => SimInstr::ST(r(*a), o9(o)),
        K::Sti(a, o) => SimInstr::STI(r(*a), o9(o)),
        K::Ldr(a, b, n) => SimInstr::LDR(r(*a), r(*b), IOffset::new(*n as i16).unwrap()),
        K::Str(a, b, n) => SimInstr::STR(r(*a), r(*b), IOffset::new(*n as i16).unwrap()),
        K::Rti => SimInstr::RTI,
        K::Trap(v) => SimInstr::TRAP(Offset::new(*v as u16).unwrap()),
        _ => unreachable!(),
    }
}

fn main() {
    let mut k = Check::new("C06");
    k.family("words", "all 65536 words: decode against an independent decoder, re-encode (complete)", 0, |ch, c| {
        let w = ch.choose(1 << 16) as u16;
        let want = decode(w);
        c.describe_lazy(|| format!("word x{w:04X}: {want:?}"));
        let got = real("SimInstr::decode", || SimInstr::decode(w))?;
        c.state(&w);
        c.trans(1);
        c.trace();
        match (&want, &got) {
            (Ok(i), Ok(g)) => {
                let e = to_sim(i);
                ensure!(e == *g, "decode", "x{w:04X} decodes to {g:?}, want {e:?}");
                let back = real("SimInstr::encode", || g.encode())?;
                c.trans(1);
                ensure!(back == w, "encode", "x{w:04X} decodes to {g:?} which encodes to x{back:04X}");
                c.outcome("instruction");
            }
            (Err(Bad::Opcode), Err(SimErr::IllegalOpcode)) => c.outcome("illegal opcode"),
            (Err(Bad::Format), Err(SimErr::InvalidInstrFormat)) => c.outcome("invalid format"),
            _ => return fail("decode", format!("x{w:04X} decodes to {got:?}, want {want:?}")),
        }
        Ok(())
    });
    k.family("instructions", "every representable instruction (opcode x registers x field values): encode, decode back (complete)", 0, |ch, c| {
        let r = |ch: &mut Ch| ch.choose(8) as u8;
        let sg = |ch: &mut Ch, n: u32| ch.choose(1 << n) as i32 - (1 << (n - 1));
        let op = ch.choose(17);
        let k = match op {
            0 | 1 => {
                let (a, b) = (r(ch), r(ch));
                let s = if ch.flag() { RI::R(r(ch)) } else { RI::I(sg(ch, 5)) };
                if op == 0 { K::Add(a, b, s) } else { K::And(a, b, s) }
            }
            2 => K::Not(r(ch), r(ch)),
            3 => K::Br(r(ch), Opd::N(sg(ch, 9))),
            4 => K::Jmp(r(ch)),
            5 => K::Jsr(Opd::N(sg(ch, 11))),
            6 => K::Jsrr(r(ch)),
            7 => K::Ld(r(ch), Opd::N(sg(ch, 9))),
            8 => K::Ldi(r(ch), Opd::N(sg(ch, 9))),
            9 => K::Lea(r(ch), Opd::N(sg(ch, 9))),
            10 => K::St(r(ch), Opd::N(sg(ch, 9))),
            11 => K::Sti(r(ch), Opd::N(sg(ch, 9))),
            12 => K::Ldr(r(ch), r(ch), sg(ch, 6)),
            13 => K::Str(r(ch), r(ch), sg(ch, 6)),
            14 => K::Rti,
            15 => K::Trap(ch.choose(256) as i32),
            _ => K::Nop(Opd::N(sg(ch, 9))),
        };
        let k = if let K::Nop(o) = k { K::Br(0, o) } else { k };
        let e = to_sim(&k);
        let want = encode(&k, 0).unwrap();
        c.describe_lazy(|| format!("{e:?} = x{want:04X}"));
        let w = real("SimInstr::encode", || e.encode())?;
        ensure!(w == want, "encode", "{e:?} encodes to x{w:04X}, want x{want:04X}");
        let back = real("SimInstr::decode", || SimInstr::decode(w))?;
        c.state(&k);
        c.trans(2);
        c.trace();
        match back {
            Ok(b) if b == e => Ok(()),
            b => fail("decode", format!("{e:?} encodes to x{w:04X} which decodes to {b:?}")),
        }
    });
    k.run()
}
