//! C08: every step of the simulator is the reference machine's step.
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;

fn ev_name(ev: Ev) -> &'static str {
    match ev {
        Ev::Instr => "instruction",
        Ev::Int(_) => "interrupt",
        Ev::Exc(E::Acv) => "vectored access violation",
        Ev::Exc(E::Priv) => "vectored privilege violation",
        Ev::Exc(_) => "vectored illegal opcode",
        Ev::Halt => "virtual halt",
        Ev::Err(E::Acv) => "access violation",
        Ev::Err(E::Priv) => "privilege violation",
        Ev::Err(_) => "illegal instruction",
    }
}

fn main() {
    let mut k = Check::new("C08");
    k.assume("a stack that is pushed or popped does not lie on two device or internal registers (the order of the accesses is not fixed); undefined bits and condition codes of a PSR popped by RTI are not compared; the data register of an empty keyboard and DDR are not read; no two different requests tie in priority");
    let cs = configs();
    let n = cs.len();
    k.family("words", &format!("all 65536 instruction words in {n} machine configurations (mode, priority, condition codes, PC at page and region borders, register patterns at value and region borders, virtual/real traps, privilege ignored), one step, all of memory compared"), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let cf = &cs[ch.choose(n)];
        let mut s = cf.s.clone();
        if !plant(&mut s, w) {
            return Ok(());
        }
        let desc = || format!("{} (x{w:04X}), {}", dis(w), cf.name);
        c.describe_lazy(desc);
        with_rig(false, |r| {
            r.start(&s)?;
            if !in_scope(&r.m, &[]) {
                c.outcome("outside the comparison");
                return r.finish(&desc);
            }
            c.state(&(w, cf.name));
            let ev = r.step(&[], c)?;
            c.trace();
            c.outcome(ev_name(ev));
            r.finish(&desc)
        })
    });
    k.family("alu", &format!("ADD, AND, NOT with every pair of {} operand values, every register assignment of (DR, SR1, SR2) with and without aliasing over 3 registers, every imm5", VALS.len()), 0, |ch, c| {
        let x = *ch.pick(&VALS);
        let (dr, s1) = (ch.choose(3), ch.choose(3));
        let mut reg = [0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666, 0x4000, 0x7777];
        reg[s1] = x;
        let op = *ch.pick(&[1u16, 5, 9]);
        let mut w = op << 12 | (dr as u16) << 9 | (s1 as u16) << 6;
        match op {
            9 => w |= 0x3F,
            _ if ch.flag() => w |= 0x20 | ch.choose(32) as u16,
            _ => {
                let s2 = ch.choose(3);
                if s2 != s1 {
                    reg[s2] = *ch.pick(&VALS);
                }
                w |= s2 as u16;
            }
        }
        let s = Start { reg, mem: vec![(0x3000, w)], ..Default::default() };
        c.describe_lazy(|| format!("{} with {reg:04X?}", dis(w)));
        c.state(&(w, reg));
        with_rig(false, |r| {
            r.start(&s)?;
            let ev = r.step(&[], c)?;
            c.trace();
            c.outcome(ev_name(ev));
            r.undo_only();
            Ok(())
        })
    });
    let wide = k.tier(1u32, 16);
    k.family("values", "every 16-bit value through LD, ST, LDR, NOT, ADD, AND and the condition codes they set, then BR with each of the 8 conditions", 0, move |ch, c| {
        let x = ch.choose(65536) as u16;
        let step = if wide > 1 { 1 } else { 5 };
        with_rig(false, |r| {
            for i in [0x2001u16, 0x6080, 0x9041, 0x907F, 0x1042, 0x107F, 0x5042, 0x507E, 0x3001, 0x7280].into_iter() {
                for br in (0..8u16).step_by(step) {
                    let reg = [0, x, 0x4000, 0, 0, 0, 0x4000, 0];
                    r.start(&Start { reg, pc: 0x3000, mem: vec![(0x3000, i), (0x3001, br << 9 | 0x0F), (0x3002, x), (0x4000, x)], ..Default::default() })?;
                    r.step(&[], c)?;
                    if i & 0xF000 != 0x3000 {
                        r.step(&[], c)?;
                    }
                    c.trace();
                    r.undo_only();
                }
            }
            c.state(&x);
            Ok(())
        })
    });
    let d = k.tier(3, 4);
    k.family("instruction sequences", &format!("every sequence of {d} instructions over an alphabet of {} (arithmetic, memory, control, traps, RTI, faults, MMIO registers), written at the PC as the machine runs, from 4 configurations; up to 1 injected interrupt", alphabet().len()), 1, move |ch, c| {
        let al = alphabet();
        let base = ch.choose(4);
        let s = seq_start(base);
        let mut trace: Vec<String> = vec![];
        with_rig(false, |r| {
            r.start(&s)?;
            for _ in 0..d {
                let i = ch.choose(al.len());
                if r.m.pc < 0xFE00 && i > 0 {
                    let pc = r.m.pc;
                    r.poke(pc, al[i]);
                }
                let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)], &[(0x90, 1)], &[(0x91, 7), (0x90, 3)]][ch.dev(4)];
                if !in_scope(&r.m, irqs) {
                    c.outcome("stopped at the edge of the comparison");
                    break;
                }
                trace.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irqs.is_empty() { String::new() } else { format!("+{irqs:02X?}") }));
                c.describe(|| format!("configuration {base}: {}", trace.join("; ")));
                let ev = r.step(irqs, c)?;
                c.state(&(r.m.pc, r.m.psr, r.m.reg, r.m.ssp, r.m.mcr, r.m.kb.len(), r.m.real, r.m.log.len()));
                c.outcome(ev_name(ev));
                if matches!(ev, Ev::Halt | Ev::Err(_)) {
                    break;
                }
            }
            c.trace();
            r.finish(&|| trace.join("; "))
        })
    });
    let (d, nv) = k.tier((3, 4), (4, 4));
    k.family("memory-mapped I/O", &format!("every sequence of {d} loads and stores (LDI/STI by supervisor) on the I/O registers x values x keyboard queue, with the keyboard's interrupt"), 0, move |ch, c| {
        let ports = [KBSR, KBDR, DSR, DDR, PSR, MCR, SSP_PORT, RAM_PORTS[0], RAM_PORTS[3], 0xFE30, 0xFE01, 0xFFFB];
        let vals = &[0x4000, 0x8001, 0xFFFF, 0x0704, 0x0141, 0x2F80][..nv];
        let kb = [vec![], vec![0x41], vec![0x00, 0xFF]][ch.choose(3)].clone();
        let mut s = Start { psr: 0x0002, pc: 0x1000, ssp: 0xF000, kb, mem: vec![(0x0180, 0x1200)], ..Default::default() };
        s.reg[6] = 0x2F00;
        s.real = ch.flag();
        let mut trace: Vec<String> = vec![];
        with_rig(false, |r| {
            r.start(&s)?;
            for _ in 0..d {
                let p = *ch.pick(&ports);
                let st = ch.flag();
                let v = if st { *ch.pick(vals) } else { 0 };
                let pc = r.m.pc;
                if pc >= 0xFD00 {
                    break;
                }
                let n = pc.wrapping_add(0x41);
                r.poke(pc, if st { 0xB040 } else { 0xA040 });
                r.poke(n, p);
                if st {
                    r.set_reg(0, v);
                }
                if !in_scope(&r.m, &[]) {
                    c.outcome("stopped at the edge of the comparison");
                    break;
                }
                trace.push(if st { format!("[x{p:04X}]=x{v:04X}") } else { format!("read x{p:04X}") });
                c.describe(|| trace.join("; "));
                let ev = r.step(&[], c)?;
                c.state(&(r.m.pc, r.m.psr, r.m.ssp, r.m.mcr, r.m.kb.len(), r.m.kb_ie, &r.m.disp, &r.m.ram));
                c.outcome(ev_name(ev));
                if matches!(ev, Ev::Halt | Ev::Err(_)) {
                    break;
                }
            }
            c.trace();
            r.finish(&|| trace.join("; "))
        })
    });
    k.family("trap and interrupt entry", "every trap vector and every interrupt vector, in both modes, every current priority x request priority; stack pointers at region borders; RTI straight after", 0, move |ch, c| {
        let v = ch.choose(256) as u16;
        let int = ch.flag();
        let user = ch.flag();
        let real = ch.flag();
        let (cur, req) = if int { (ch.choose(8) as u16, ch.choose(8) as u8) } else { (*ch.pick(&[0u16, 5]), 0) };
        let sp = *ch.pick(&[0x3000u16, 0x2F00, 0xFDF0, 0x0400, 0xFE00, 0xFE01, 0xFE40, 1]);
        let to = 0x1300 + v;
        let vect = if int { 0x100 + v } else { v };
        let mut s = Start { psr: (user as u16) << 15 | cur << 8 | 4, pc: if user { 0x3000 } else { 0x1000 }, real, ssp: 0x4000, ..Default::default() };
        s.reg = [1, 2, 3, 4, 5, 6, sp, 7];
        if user {
            (s.reg[6], s.ssp) = (0x4000, sp);
        }
        s.mem = vec![(vect, to), (to, 0x8000), (s.pc, if int { 0x1021 } else { 0xF000 | v })];
        let desc = || format!("{} x{v:02X}, user {user}, real {real}, priority {cur} request {req}, sp x{sp:04X}", if int { "interrupt" } else { "TRAP" });
        c.describe_lazy(desc);
        if sp == 0x0400 && to == 0x400 || vect >= sp.wrapping_sub(2) && vect < sp || sp == 1 && vect == 0 {
            return Ok(());
        }
        c.state(&(vect, user, real, cur, req, sp));
        with_rig(false, |r| {
            r.start(&s)?;
            let irq = [(v as u8, req)];
            let ev = r.step(if int { &irq } else { &[] }, c)?;
            c.outcome(ev_name(ev));
            if ev != Ev::Halt {
                r.step(&[], c)?;
            }
            c.trace();
            r.finish(&desc)
        })
    });
    k.family("RTI", "RTI with each of the 65536 saved PSRs, from supervisor mode at 2 priorities and from user mode with privilege ignored, to 3 PCs, with 3 stack pointers; then BRn, BRp and an interrupt", 0, |ch, c| {
        let psr = ch.choose(65536) as u16;
        with_rig(false, |r| {
            for (from, ign) in [(0x0002u16, false), (0x0704, false), (0x8001, true)] {
                for to in [0x3000u16, 0x1000, 0xFDFE] {
                    for sp in [0x2F00u16, 0xFDFF, 0x4000] {
                        let mut s = Start { psr: from, pc: 0x1800, ssp: 0x2E00, ignore: ign, ..Default::default() };
                        s.reg[6] = sp;
                        s.mem = vec![(0x1800, 0x8000), (sp, to), (sp.wrapping_add(1), psr), (to, 0x0801), (to + 1, 0x0201), (0x0190, 0x1100), (0x1100, 0x8000)];
                        let desc = || format!("RTI with saved PSR x{psr:04X}, PC x{to:04X} at x{sp:04X} from PSR x{from:04X}");
                        c.describe_lazy(desc);
                        if sp == 0xFDFF {
                            s.mem.retain(|x| x.0 != 0xFE00);
                        }
                        r.start(&s)?;
                        for (i, irqs) in [&[][..], &[], &[(0x90, 4)], &[]].into_iter().enumerate() {
                            if !in_scope(&r.m, irqs) {
                                c.outcome("outside the comparison");
                                break;
                            }
                            let ev = r.step(irqs, c)?;
                            if i == 0 {
                                c.outcome(ev_name(ev));
                            }
                            if matches!(ev, Ev::Halt | Ev::Err(_)) {
                                break;
                            }
                        }
                        c.trace();
                        r.undo_only();
                    }
                }
            }
            c.state(&psr);
            Ok(())
        })
    });
    let n = k.tier(120, 400);
    k.family("OS routines with interrupts", &format!("lock-step run of up to {n} steps of each OS trap (both trap modes, user and supervisor) and of the OS exception handlers, with one interrupt at every step (priorities 0, 4, 7; handler RTI)"), 1, move |ch, c| {
        let v = *ch.pick(&[0x20u16, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x100, 0x101, 0x102]);
        let real = ch.flag() || v >= 0x100;
        let user = ch.flag();
        if v == 0x100 && !user {
            return Ok(());
        }
        let w = match v {
            0x100 => 0x8000,
            0x101 => 0xD000,
            0x102 => 0x2010,
            v => 0xF000 | v,
        };
        let pc = match (v, user) {
            (0x102, false) => return Ok(()),
            (0x102, true) => 0xFDFF,
            (_, true) => 0x3000,
            (_, false) => 0x1000,
        };
        let mut s = Start { psr: (user as u16) << 15 | 1, pc, real, ssp: 0x4000, kb: vec![0x41, 0x42], ..Default::default() };
        s.reg = [0x5000, 2, 3, 4, 5, 6, 0x2F00, 7];
        if user {
            (s.reg[6], s.ssp) = (0x4000, 0x2F00);
        }
        s.mem = vec![(pc, w), (pc + 1, 0x0FFF), (0x5000, 0x4241), (0x5001, 0x0043), (0x5002, 0), (0x190, 0x1100), (0x1100, 0x8000)];
        let mut at = None;
        with_rig(false, |r| {
            r.start(&s)?;
            for i in 0..n {
                let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)], &[(0x90, 0)], &[(0x90, 7)]][ch.dev(4)];
                if !irqs.is_empty() {
                    at = Some((i, irqs[0].1));
                }
                c.describe(|| format!("{v:X} real {real} user {user}, interrupt (step, priority) {at:?}, step {i}"));
                if !in_scope(&r.m, irqs) {
                    c.outcome("stopped at the edge of the comparison");
                    break;
                }
                let ev = r.step(irqs, c)?;
                c.state(&(r.m.pc, r.m.psr, r.m.reg, r.m.ssp, r.m.mcr, r.m.kb.len(), real, user, r.m.log.len()));
                if matches!(ev, Ev::Halt | Ev::Err(_)) || ev == Ev::Instr && r.m.pc == r.m.at || !r.m.mcr {
                    c.outcome(if r.m.mcr { "ended" } else { "stopped by MCR" });
                    break;
                }
            }
            c.trace();
            r.finish(&|| format!("{v:X} real {real} user {user}, interrupt (step, priority) {at:?}"))
        })
    });
    k.run()
}
