//! C09: user mode cannot touch anything outside user space.
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;

/// Differences from the reference machine that concern this property.
fn mine(ev: Ev, key: &str) -> bool {
    match ev {
        // an attempt: what is reported or vectored, and the state of the target
        Ev::Err(E::Acv | E::Priv) => ["result", "memory", "keyboard", "display", "device", "mcr", "psr", "saved-sp"].contains(&key),
        Ev::Exc(E::Acv | E::Priv) => ["result", "memory", "keyboard", "display", "device", "mcr", "pc", "psr"].contains(&key),
        // an instruction that stays within user space
        Ev::Instr | Ev::Err(_) => ["keyboard", "display", "device", "mcr"].contains(&key),
        _ => false,
    }
}
/// One step, which is judged when it starts in user mode.
fn step(r: &mut Rig, irqs: &[(u8, u8)], c: &mut Case, desc: &dyn Fn() -> String) -> Res<bool> {
    let user = r.m.user() && !r.m.ignore;
    let inside = (0x3000..0xFE00u16).contains(&r.m.pc);
    let trap = inside && r.m.mem[r.m.pc as usize] >> 12 == 15;
    let Some(ev) = r.scoped_step(irqs, c, |ev, key| user && mine(ev, key))? else { return Ok(false) };
    if user {
        c.outcome(match ev {
            Ev::Instr if trap => "trap",
            Ev::Instr => "inside user space",
            Ev::Int(_) => "interrupt",
            Ev::Exc(E::Acv) => "vectored access violation",
            Ev::Exc(E::Priv) => "vectored privilege violation",
            Ev::Err(E::Acv) => "access violation",
            Ev::Err(E::Priv) => "privilege violation",
            _ => "halt or illegal instruction",
        });
        if ev == Ev::Instr && !trap || matches!(ev, Ev::Err(_)) {
            for (a, s) in r.sim.observer.take_mem_accesses() {
                ensure!((0x3000..0xFE00).contains(&a), "observed", "{}: a user-mode step accessed x{a:04X} ({s:?})", desc());
            }
        }
    } else {
        c.outcome("supervisor");
    }
    Ok(!matches!(ev, Ev::Halt | Ev::Err(_)))
}
const EDGE: [u16; 10] = [0x2FFF, 0x3000, 0xFDFF, 0xFE00, KBDR, DDR, PSR, MCR, 0x0000, 0xFE20];

fn main() {
    let mut k = Check::new("C09");
    k.assume("single steps are compared with the reference machine where a user-mode access or RTI is attempted; differences in other steps belong to other properties");
    let pcs: &[u16] = k.tier(&[0x3000, 0xFDFF, 0x30FE, 0xFD80, 0x2FFF, 0xFE20], &[0x3000, 0x3001, 0xFDFF, 0xFDFE, 0x30FE, 0xFD80, 0x2FFF, 0, 0xFE20, 0xFFFF, 0x8000]);
    k.family("words", &format!("all 65536 words in user mode at {} PCs around the borders of user space, with every base register (or indirect pointer) at each of 10 border addresses, virtual and real traps, RTI and TRAP at every priority; memory outside user space, devices and access records compared", pcs.len()), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let pc = *ch.pick(pcs);
        let real = ch.flag();
        let fits = (0x3000..0xFE00).contains(&pc);
        let uses = matches!(w >> 12, 4 | 6 | 7 | 10 | 11 | 12);
        let e = if uses && fits { *ch.pick(&EDGE) } else { 0x4000 };
        // a user program may run at any priority
        let psr = match w >> 12 {
            8 | 15 => 0x8000 | (ch.choose(8) as u16) << 8 | 1 << ch.choose(3),
            _ if uses && !real => *ch.pick(&[0x8002u16, 0x8304]),
            _ => 0x8002,
        };
        let mut s = Start { pc, psr, real, ssp: 0x2F00, kb: vec![0x41], ..Default::default() };
        s.reg = [0x8000, 0x4142, 0x7FFF, 0xC123, 0x0704, 0x4001, 0x4002, 0x4003];
        if uses {
            s.reg[(w >> 6 & 7) as usize] = e;
        }
        if matches!(w >> 12, 10 | 11) {
            s.mem.push((pc.wrapping_add(1).wrapping_add((((w << 7) as i16) >> 7) as u16), e));
        }
        if s.mem.iter().any(|m| m.0 >= 0xFE00) {
            s.mem.clear();
        }
        if !plant(&mut s, w) {
            return Ok(());
        }
        let desc = || format!("{} (x{w:04X}) at x{pc:04X}, real {real}, edge x{e:04X}", dis(w));
        c.describe_lazy(desc);
        c.state(&(w, pc, real, e));
        with_rig(false, |r| {
            r.start(&s)?;
            if in_scope(&r.m, &[]) {
                step(r, &[], c, &desc)?;
                c.trace();
            }
            if !r.dead {
                r.scan_supervisor(&desc)?;
                r.undo_only();
                r.clear_io();
            }
            Ok(())
        })
    });
    for strict in [false, true] {
        let d = if strict { 2 } else { k.tier(3, 4) };
        k.family(&format!("sequences{}", if strict { ", strict" } else { "" }), &format!("every sequence of {d} instructions of an attack alphabet (loads, stores, jumps, RTI around the borders of user space, traps that come back in user mode), from user mode and from supervisor mode entering user mode by RTI (at priority 0 or 3) or by writing the PSR; up to 1 interrupt whose handler returns{}", if strict { "; strict mode" } else { "" }), 1, move |ch, c| {
            let al = [
                0u16, 0x1021, 0x6080, 0x7080, 0x60C0, 0x70C0, 0x6100, 0x7100, // ADD; LDR/STR R0 via R2, R3, R4
                0x8000, 0xC080, 0xC0C0, 0x4080, 0x40C0, // RTI; JMP R2, R3; JSRR R2, R3
                0xA003, 0xB003, 0x2003, 0x3003, 0x1921, 0x14BF, 0x1641, // LDI, STI; LD, ST; moves of the borders
                0xF021, 0xF030, 0x0FFF, 0xD000,
            ];
            let base = ch.choose(8);
            let real = base & 1 == 1;
            let mut s = Start { real, strict, ssp: 0x2F00, kb: vec![0x41], kb_ie: false, ..Default::default() };
            s.reg = [0x8002, 0x0001, 0x2FFF, 0xFDFF, 0xFE20, 0x3000, 0x4000, 0x3000];
            s.mem = vec![(0x30, 0x1100), (0x1100, 0x8000), (0x190, 0x1200), (0x1200, 0x8000)];
            match base >> 1 {
                0 => {}
                b @ (1 | 3) => {
                    // RTI into user mode, at priority 0 or 3
                    (s.psr, s.pc, s.ssp, s.reg[6]) = (2, 0x1000, 0x4000, 0x2F00);
                    s.mem.extend([(0x2F00, 0x3000), (0x2F01, if b == 1 { 0x8001 } else { 0x8301 }), (0x1000, 0x8000)]);
                }
                _ => {
                    // the PSR is written through memory
                    (s.psr, s.pc, s.ssp, s.reg[6]) = (2, 0x2FFE, 0x4000, 0x2F00);
                    s.mem.extend([(0x2FFE, 0xB1FE), (0x2FFD, PSR)]);
                    s.mem.extend([(0x2FFF, 0x1021)]);
                }
            }
            let mut trace: Vec<String> = vec![];
            with_rig(false, |r| {
                r.start(&s)?;
                if base >> 1 != 0 {
                    if r.scoped_step(&[], c, |_, _| false)?.is_none() {
                        return Ok(());
                    }
                }
                for _ in 0..d {
                    let i = ch.choose(al.len());
                    if (0x3000..0xFE00).contains(&r.m.pc) && i > 0 {
                        let pc = r.m.pc;
                        r.poke(pc, al[i]);
                    }
                    let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)]][ch.dev(2)];
                    if !in_scope(&r.m, irqs) {
                        break;
                    }
                    trace.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irqs.is_empty() { "" } else { " +interrupt" }));
                    c.describe(|| format!("configuration {base}: {}", trace.join("; ")));
                    let go = step(r, irqs, c, &|| trace.join("; "))?;
                    c.state(&(r.m.pc, r.m.psr, r.m.reg, r.m.ssp, real));
                    if !go {
                        break;
                    }
                }
                c.trace();
                if !r.dead {
                    r.scan_supervisor(&|| trace.join("; "))?;
                    r.undo_only();
                    r.clear_io();
                }
                Ok(())
            })
        });
    }
    k.run()
}
