//! C07: every word disassembles to text that reassembles to the same word (complete enumeration).
use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::ast::asm::{disassemble, disassemble_line, try_disassemble_line, AsmInstr, Directive, StmtKind};
use lc3_ensemble::parse::parse_ast;
use mc::lang::{decode, from_real, K};
use mc::*;

fn main() {
    let mut k = Check::new("C07");
    let origins: Vec<u16> = vec![0x0000, 0x0001, 0x01FF, 0x0200, 0x2FFF, 0x3000, 0x7FFF, 0x8000, 0xFDFE, 0xFDFF];
    k.family("words", "all 65536 words, each printed and reassembled at several origins (complete)", 0, move |ch, c| {
        let w = ch.choose(1 << 16) as u16;
        let st = real("disassemble_line", || disassemble_line(w))?;
        let text = real("print", || st.to_string())?;
        c.describe_lazy(|| format!("x{w:04X} -> `{text}`"));
        c.state(&w);
        let is_instr = w >= 0x0200 && decode(w).is_ok();
        let opt = real("try_disassemble_line", || try_disassemble_line(w))?;
        ensure!(opt.is_some() == is_instr, "kind", "x{w:04X}: try_disassemble_line is {opt:?}");
        let fill = matches!(st.nucleus, StmtKind::Directive(Directive::Fill(_)));
        ensure!(fill != is_instr, "kind", "x{w:04X} comes back as `{text}`");
        ensure!(st.labels.is_empty(), "labels", "x{w:04X} comes back with labels");
        if let Some(o) = opt {
            ensure!(from_real(&o) == from_real(&st), "agree", "x{w:04X}: the two disassemblers disagree");
        }
        let many = real("disassemble", || disassemble(&[w, 0x1021, w]))?;
        ensure!(
            many.len() == 3 && from_real(&many[0]) == from_real(&st) && from_real(&many[2]) == from_real(&st),
            "agree", "x{w:04X}: disassemble of a slice differs"
        );
        let alias: Option<&[&str]> = match w {
            0xC1C0 => Some(&["RET"]),
            0xF020 => Some(&["GETC"]),
            0xF021 => Some(&["PUTC", "OUT"]),
            0xF022 => Some(&["PUTS"]),
            0xF023 => Some(&["IN"]),
            0xF024 => Some(&["PUTSP"]),
            0xF025 => Some(&["HALT"]),
            _ => None,
        };
        match alias {
            Some(names) => {
                ensure!(names.contains(&text.to_uppercase().as_str()), "alias", "x{w:04X} prints as `{text}`, want {names:?}");
                ensure!(matches!(st.nucleus, StmtKind::Instr(AsmInstr::RET | AsmInstr::GETC | AsmInstr::PUTC | AsmInstr::OUT | AsmInstr::PUTS | AsmInstr::IN | AsmInstr::PUTSP | AsmInstr::HALT)), "alias", "x{w:04X}: {st:?}");
                c.outcome("alias");
            }
            None if is_instr => {
                let k = from_real(&st).k;
                ensure!(Ok(&k) == decode(w).as_ref(), "stmt", "x{w:04X} comes back as {k:?}, which is {:?}", decode(w));
                c.outcome("instruction");
            }
            None => {
                ensure!(from_real(&st).k == K::Fill(mc::lang::Opd::N(w as i32)), "fill", "x{w:04X} comes back as {st:?}");
                c.outcome("fill")
            }
        }
        for (i, &o) in origins.iter().enumerate() {
            let src = format!(".orig x{o:04X}\n{text}\n.end");
            let ast = real("parse_ast", || parse_ast(&src))?;
            let ast = match ast {
                Ok(a) => a,
                Err(e) => return fail("reparse", format!("x{w:04X} prints as `{text}`, which does not parse: {e}")),
            };
            let obj = real("assemble", || if i == 0 { assemble_debug(ast, &src) } else { assemble(ast) })?;
            let img: Vec<_> = match &obj {
                Ok(o) => o.addr_iter().collect(),
                Err(e) => return fail("reassemble", format!("x{w:04X} prints as `{text}`, which does not assemble at x{o:04X}: {e}")),
            };
            c.trans(1);
            ensure!(img == vec![(o, Some(w))], "word", "x{w:04X} prints as `{text}`, which assembles at x{o:04X} to {img:x?}");
        }
        c.trace();
        Ok(())
    });
    k.run()
}
