//! C14: strict mode only adds uninitialized-value errors.
use lc3_ensemble::asm::assemble;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::SimErr;
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;

fn strict_err(e: &SimErr) -> bool {
    format!("{e:?}").starts_with("Strict")
}
/// Puts two rigs in the same start state, the second one strict.
fn prepare(a: &mut Rig, b: &mut Rig, s: &Start) -> Res {
    let mut s = s.clone();
    s.strict = false;
    a.start(&s)?;
    s.strict = true;
    b.start(&s)
}
/// One step of both; false when the pair ends here.
fn step(a: &mut Rig, b: &mut Rig, irqs: &[(u8, u8)], init: bool, c: &mut Case, desc: &str) -> Res<bool> {
    a.arm(irqs);
    b.arm(irqs);
    let x = a.real_step()?;
    let y = b.real_step()?;
    let mut wrote = vec![];
    for r in [&mut *a, &mut *b] {
        for (p, s) in r.sim.observer.take_mem_accesses() {
            if s.written() {
                r.touched.push(p);
                wrote.push(p);
            }
        }
    }
    c.trans(2);
    c.trace();
    match (&x, &y) {
        (_, Err(e)) if strict_err(e) => {
            ensure!(!init, "initialized", "{desc}: everything is initialized, strict mode reports {e:?}");
            c.outcome(&format!("{e:?}"));
            return Ok(false);
        }
        (Ok(()), Err(e)) => return fail("error", format!("{desc}: only strict mode fails, with {e:?}")),
        (Err(e), Ok(())) => return fail("accepted", format!("{desc}: fails with {e:?}, but not in strict mode")),
        (Err(e), Err(f)) => {
            ensure!(format!("{e:?}") == format!("{f:?}"), "error", "{desc}: fails with {e:?}, in strict mode with {f:?}");
            c.outcome(&format!("{e:?} in both"));
        }
        (Ok(()), Ok(())) => c.outcome("accepted"),
    }
    let f = |r: &mut Rig| (r.sim.pc, r.sim.psr().get(), REGS.map(|i| r.sim.reg_file[i]), r.sim.instructions_run.wrapping_sub(r.base_count()), r.sim.prefetch_pc(), r.sim.mcr().load(SeqCst), r.sim.frame_stack.len());
    let g = |r: &mut Rig| {
        let ram = r.ram.lock().unwrap();
        (r.disp.read().unwrap().clone(), r.kb.read().unwrap().clone(), ram.log.clone(), ram.vals.clone())
    };
    let (p, q) = (f(a), f(b));
    ensure!(p == q, "state", "{desc}: (pc, psr, registers, instructions, fault address, MCR, depth) is {p:04X?}, in strict mode {q:04X?}");
    let (p, q) = (g(a), g(b));
    ensure!(p == q, "device", "{desc}: (output, keys, device log) is {p:02X?}, in strict mode {q:02X?}");
    let (p, q) = (a.real_ssp()?, b.real_ssp()?);
    ensure!(p == q, "state", "{desc}: saved SP x{p:04X}, in strict mode x{q:04X}");
    for i in wrote {
        let (p, q) = (a.sim.mem[i], b.sim.mem[i]);
        ensure!(p == q, "memory", "{desc}: mem[x{i:04X}] is {p:04X?}, in strict mode {q:04X?}");
    }
    Ok(x.is_ok())
}
fn memory(a: &Rig, b: &Rig, desc: &str) -> Res {
    let mut diff = false;
    for i in 0..=0xFFFFu16 {
        diff |= a.sim.mem[i] != b.sim.mem[i];
    }
    if diff {
        for i in 0..=0xFFFFu16 {
            let (x, y) = (a.sim.mem[i], b.sim.mem[i]);
            ensure!(x == y, "memory", "{desc}: mem[x{i:04X}] is {x:04X?}, in strict mode {y:04X?}");
        }
    }
    Ok(())
}
fn with_pair<T>(f: impl FnOnce(&mut Rig, &mut Rig) -> Res<T>) -> Res<T> {
    with_rig(false, |a| {
        with_rig(false, |b| {
            let x = f(a, b)?;
            a.restore_touched();
            b.restore_touched();
            Ok(x)
        })
    })
}
fn main() {
    let mut k = Check::new("C14");
    let cs = configs();
    let n = cs.len();
    let pats = ["all initialized", "registers uninitialized", "odd registers uninitialized", "data uninitialized", "code after the PC uninitialized", "stacks uninitialized", "pointers uninitialized"];
    k.family("words", &format!("all 65536 words in {n} machine configurations x {} initialization patterns, one step and the step after it, with the words written by either compared", pats.len()), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let cf = &cs[ch.choose(n)];
        let pat = ch.choose(pats.len());
        // patterns that cannot matter to this word
        let op = w >> 12;
        if pat > 0 && matches!(op, 13) {
            return Ok(());
        }
        if pat > 2 && matches!(op, 1 | 5 | 9 | 14) && pat != 4 {
            return Ok(());
        }
        let mut s = cf.s.clone();
        if !plant(&mut s, w) {
            return Ok(());
        }
        let pc1 = s.pc.wrapping_add(1);
        let ea9 = pc1.wrapping_add((((w << 7) as i16) >> 7) as u16);
        let ea11 = pc1.wrapping_add((((w << 5) as i16) >> 5) as u16);
        let b = s.reg[(w >> 6 & 7) as usize];
        let ea6 = b.wrapping_add((((w << 10) as i16) >> 10) as u16);
        let below = |a: u16| a < 0xFE00 && a != s.pc;
        match pat {
            1 => s.uninit_regs = 0xFF,
            2 => s.uninit_regs = 0xAA,
            3 => s.uninit = [ea9, ea6, ea11, b, pattern(ea9)].into_iter().filter(|&a| below(a)).collect(),
            4 => s.uninit = [pc1].into_iter().filter(|&a| below(a)).collect(),
            5 => s.uninit = (0..4u16).flat_map(|i| [s.reg[6].wrapping_add(i), s.ssp.wrapping_sub(i)]).filter(|&a| below(a)).collect(),
            6 => s.uninit = [ea9, w & 0xFF, 0x100, 0x101, 0x102].into_iter().filter(|&a| below(a)).collect(),
            _ => {}
        }
        let desc = || format!("{} (x{w:04X}), {}, {}", dis(w), cf.name, pats[pat]);
        c.describe_lazy(desc);
        c.state(&(w, cf.name, pat));
        let desc = desc();
        with_pair(|a, b| {
            prepare(a, b, &s)?;
            if step(a, b, &[], pat == 0, c, &desc)? {
                step(a, b, &[], pat == 0, c, &desc)?;
            }
            // after a rejected step the states may differ
            Ok(())
        })
    });
    let d = k.tier(3, 4);
    k.family("sequences", &format!("every sequence of {d} instructions (alphabet of the C08 sequences) from 4 configurations x 4 initialization patterns of memory and registers, with up to 1 interrupt, all of memory compared"), 1, move |ch, c| {
        let al = alphabet();
        let base = ch.choose(4);
        let pat = ch.choose(4);
        let mut s = seq_start(base);
        match pat {
            0 => {}
            1 => s.uninit_regs = 0xBF,
            2 => s.uninit_regs = 0x01,
            _ => s.uninit = (0x3000..0x3010).step_by(2).chain(0x4000..0x4010).chain(0x1000..0x1010).collect(),
        }
        let mut trace: Vec<String> = vec![];
        with_pair(|a, b| {
            prepare(a, b, &s)?;
            for _ in 0..d {
                let i = ch.choose(al.len());
                let pc = a.sim.pc;
                if pc < 0xFE00 && i > 0 {
                    a.poke(pc, al[i]);
                    b.poke(pc, al[i]);
                }
                let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)], &[(0x91, 7)]][ch.dev(3)];
                trace.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irqs.is_empty() { String::new() } else { format!("+{irqs:02X?}") }));
                let desc = format!("configuration {base}, pattern {pat}: {}", trace.join("; "));
                c.describe(|| desc.clone());
                let go = step(a, b, irqs, pat == 0, c, &desc)?;
                c.state(&(a.sim.pc, a.sim.psr().get(), a.regs(), pat));
                if !go {
                    return Ok(());
                }
            }
            memory(a, b, &trace.join("; "))
        })
    });
    k.family("jumps to devices", "JMP, JSRR, RET, JSR, BR, RTI, TRAP and interrupt vectors that lead to each I/O register, an unowned port, user and supervisor memory, from both modes, both trap modes, privilege ignored or not", 0, |ch, c| {
        let to = *ch.pick(&[KBSR, KBDR, DSR, DDR, PSR, MCR, SSP_PORT, 0xFE20, 0xFFFF, 0xFE30, 0xFE00 - 1, 0x3000, 0x2FFF, 0x0000]);
        let user = ch.flag();
        let mut s = Start { psr: (user as u16) << 15 | 7 & 2, real: ch.flag(), ignore: ch.flag(), ssp: 0x2E00, kb: vec![0x41, 0x42], ..Default::default() };
        s.reg = [to; 8];
        s.reg[6] = 0x2E00;
        s.mem = vec![(0x2E00, to), (0x2E01, if ch.flag() { 0x8002 } else { 0x0002 }), (0x30, to), (0x190, to)];
        let uninit = ch.flag() && to < 0xFE00;
        if uninit {
            s.uninit = vec![to];
        }
        let how = ch.choose(7);
        let mut irqs: &[(u8, u8)] = &[];
        let w = match how {
            0 => 0xC080,
            1 => 0x4080,
            2 => 0xC1C0,
            3 => 0x8000,
            4 => 0xF030,
            5 => {
                irqs = &[(0x90, 4)];
                0x1021
            }
            _ => {
                // a branch over the border of the I/O page
                s.pc = 0xFDFE;
                0x0E00 | to.wrapping_sub(0xFDFF) & 0x1FF
            }
        };
        s.mem.push((s.pc, w));
        let desc = format!("{} to x{to:04X}, user {user}, real {}, ignored {}, uninitialized {uninit}, interrupts {irqs:02X?}", dis(w), s.real, s.ignore);
        c.describe(|| desc.clone());
        c.state(&desc);
        with_pair(|a, b| {
            prepare(a, b, &s)?;
            if step(a, b, irqs, !uninit, c, &desc)? {
                memory(a, b, &desc)?;
                step(a, b, &[], !uninit, c, &desc)?;
            }
            Ok(())
        })
    });
    let steps = k.tier(400, 1500);
    let most = k.tier(1, 2);
    k.family("programs", &format!("11 programs x 6 initialization patterns x modes, up to {steps} steps in lock step, with up to {most} interrupts at any of the first 60 steps"), most, move |ch, c| {
        let ps = programs();
        let p = &ps[ch.choose(ps.len())];
        let (real, sup) = (ch.flag(), ch.flag());
        let pat = ch.choose(6);
        let mut s = Start { real, kb: p.2.clone(), ssp: 0x2E00, ..Default::default() };
        s.reg = [1, 2, 0x4000, 0xFFFF, 5, 6, 0x5000, 0x3333];
        if sup {
            (s.psr, s.reg[6], s.ssp) = (2, 0x2E00, 0x5000);
        }
        s.mem = code(0x3000, &p.1).chain(code(0x1100, &[0x1DBF, 0x7180, 0x5020, 0x6180, 0x1DA1, 0x8000])).collect();
        s.mem.extend([(0x190, 0x1100), (0x4000, 0x4003), (0x4001, 0x4004), (0x4003, 0x1234)]);
        match pat {
            0 => {}
            1 => s.uninit_regs = 0xBF,
            2 => s.uninit_regs = 0x40,
            3 => s.uninit = (0x2D00..0x2E10).chain(0x4F00..0x5010).collect(),
            4 => s.uninit = (0x4000..0x4010).collect(),
            _ => {
                s.uninit_regs = 0x02;
                s.uninit = (0x2D00..0x2E10).chain(0x4F00..0x5010).chain(0x3800..0x3900).collect();
            }
        }
        let mut at = vec![];
        let mut desc = String::new();
        with_pair(|a, b| {
            prepare(a, b, &s)?;
            for i in 0..steps {
                let irqs: &[(u8, u8)] = if i < 60 { [&[][..], &[(0x90, 4)]][ch.dev(2)] } else { &[] };
                if !irqs.is_empty() {
                    at.push(i);
                }
                desc = format!("{}, real {real}, supervisor {sup}, pattern {pat}, interrupts at {at:?}, step {i}", p.0);
                let w = a.sim.mem[a.sim.pc].get();
                let pc = a.sim.pc;
                if !step(a, b, irqs, pat == 0, c, &desc)? {
                    c.describe(|| desc.clone());
                    return Ok(());
                }
                if w == 0xF025 && a.sim.pc == pc || !a.sim.mcr().load(SeqCst) {
                    break;
                }
            }
            c.describe(|| desc.clone());
            c.state(&(p.0, real, sup, pat, &at));
            memory(a, b, &desc)
        })
    });
    let d = k.tier(3, 4);
    k.family("loaded programs with reserved storage", &format!("every program of {d} statements over loads, stores and jumps to a reserved (.blkw) word, an initialized word and an unallocated word, loaded into a fresh machine with uninitialized registers and memory, run in lock step"), 0, move |ch, c| {
        let al = [
            "AND R0, R0, #0", "ADD R1, R0, #1", "LD R0, A", "LD R1, B", "ST R0, A", "ST R1, B", "ST R2, A", "LDI R3, P", "STI R2, P", "STI R0, Q", "LEA R2, A", "LDR R4, R2, #0", "STR R4, R2, #1",
            "LDR R5, R2, #4", "LEA R6, A", "STR R7, R6, #5", "LDR R7, R6, #5", "JSR S", "JMP R2", "LD R4, C", "NOT R1, R1", "ADD R5, R5, R5", "AND R5, R5, #15", "TRAP x21", "BR A", "JSRR R0",
        ];
        let ws: Vec<&str> = (0..d).map(|_| *ch.pick(&al)).collect();
        let src = format!(".orig x3000\n{}\nHALT\nS RET\nP .fill A\nQ .fill x4000\nC .fill 7\nA .blkw 2\nB .blkw 1\n.end\n", ws.join("\n"));
        c.describe(|| ws.join("; "));
        c.state(&ws);
        let obj = assemble(parse_ast(&src).map_err(|e| Fail { key: "setup".into(), msg: format!("{e:?}") })?).map_err(|e| Fail { key: "setup".into(), msg: format!("{e:?}") })?;
        with_pair(|a, b| {
            let mut s = Start { uninit_regs: 0xFF, uninit: (0x3000..0x3020).chain(0x4000..0x4004).chain([0x2FFE, 0x2FFF]).collect(), ..Default::default() };
            s.reg = [0x3000, 0x3005, 0x4000, 0x7FFF, 0xFFFF, 0, 0x4FF0, 0x3001];
            prepare(a, b, &s)?;
            for r in [&mut *a, &mut *b] {
                r.touched.extend(0x3000..0x3040);
                let sim = &mut r.sim;
                ensure!(real("load_obj_file", || sim.load_obj_file(&obj))?.is_ok(), "setup", "cannot load");
            }
            let desc = ws.join("; ");
            let mut go = true;
            for _ in 0..40 {
                let pc = a.sim.pc;
                let w = a.sim.mem[pc].get();
                go = step(a, b, &[], false, c, &desc)?;
                if !go || w == 0xF025 && a.sim.pc == pc {
                    break;
                }
            }
            if go {
                memory(a, b, &desc)?;
            }
            Ok(())
        })
    });
    k.run()
}
