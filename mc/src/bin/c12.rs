//! C12: real and virtual traps agree except at HALT and at exceptions.
use lc3_ensemble::sim::SimErr;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;

fn message(e: &SimErr) -> Option<&'static str> {
    match e {
        SimErr::AccessViolation => Some("\n--- Access violation ---"),
        SimErr::PrivilegeViolation => Some("\n--- Privilege violation ---"),
        SimErr::IllegalOpcode | SimErr::InvalidInstrFormat => Some("\n--- Illegal opcode ---"),
        _ => None,
    }
}
/// Runs the same user program under both flags in lock step.
fn pair(s: &Start, limit: usize, mut irq: impl FnMut(usize) -> Option<(u8, u8)>, c: &mut Case, desc: &str) -> Res {
    with_rig(false, |v| {
        with_rig(false, |r| {
            let mut sv = s.clone();
            sv.real = false;
            v.start(&sv)?;
            sv.real = true;
            r.start(&sv)?;
            let mut how = Ok(false);
            for i in 0..limit {
                let q = irq(i);
                for m in [&mut *v, &mut *r] {
                    m.arm(q.as_slice());
                }
                let pc = v.sim.pc;
                let halt = pc < 0xFE00 && v.sim.mem[pc].get() == 0xF025;
                let a = v.real_step()?;
                // the step at which they may differ
                match a {
                    Err(e) => {
                        let b = r.real_step()?;
                        ensure!(b.is_ok(), "exception", "{desc}: after {i} steps {e:?} under virtual traps, but {b:?} under real traps");
                        how = Err(e);
                        break;
                    }
                    Ok(()) if halt && v.sim.pc == pc => {
                        let b = r.real_step()?;
                        ensure!(b.is_ok(), "halt", "{desc}: HALT gives {b:?} under real traps");
                        how = Ok(true);
                        break;
                    }
                    Ok(()) => {}
                }
                let b = r.real_step()?;
                c.trans(2);
                ensure!(b.is_ok(), "step", "{desc}: step {i} at x{pc:04X} gives {b:?} under real traps only");
                let f = |m: &mut Rig| -> Res<_> { Ok((m.sim.pc, m.sim.psr().get(), m.regs(), m.real_ssp()?, m.sim.instructions_run)) };
                let (mut x, mut y) = (f(v)?, f(r)?);
                (x.4, y.4) = (0, 0);
                ensure!(x == y, "step", "{desc}: step {i} at x{pc:04X} gives (pc, psr, regs, saved sp) {x:04X?} under virtual and {y:04X?} under real traps");
            }
            v.disarm();
            r.disarm();
            let out = v.disp.read().unwrap().clone();
            c.trace();
            let want = match &how {
                Ok(false) => {
                    c.outcome("step limit");
                    ensure!(*r.disp.read().unwrap() == out, "output", "{desc}: output differs: {out:02X?} {:02X?}", r.disp.read().unwrap());
                    None
                }
                Ok(true) => {
                    c.outcome("halt");
                    Some(out)
                }
                Err(e) => {
                    let Some(m) = message(e) else { return fail("error", format!("{desc}: unexpected {e:?}")) };
                    c.outcome(m.trim());
                    let mut o = out;
                    o.extend(m.bytes());
                    Some(o)
                }
            };
            if let Some(want) = want {
                let mut n = 0;
                while r.sim.mcr().load(SeqCst) && n < 3000 {
                    let b = r.real_step()?;
                    ensure!(b.is_ok(), "os", "{desc}: the OS fails with {b:?} at x{:04X}", r.sim.prefetch_pc());
                    n += 1;
                }
                c.trans(n);
                ensure!(!r.sim.mcr().load(SeqCst), "halt", "{desc}: the machine is not stopped by the OS");
                let got = r.disp.read().unwrap().clone();
                ensure!(got == want, "output", "{desc}: output under real traps {:?}, want {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
                if how.is_ok() {
                    let (a, b) = (v.regs(), r.regs());
                    ensure!(a[..6] == b[..6], "registers", "{desc}: R0-R5 {:04X?} under virtual, {:04X?} under real traps", &a[..6], &b[..6]);
                }
            }
            if how.is_ok() {
                for a in 0x3000..0xFE00u16 {
                    let (x, y) = (v.sim.mem[a].get(), r.sim.mem[a].get());
                    ensure!(x == y, "user-memory", "{desc}: mem[x{a:04X}] is x{x:04X} under virtual, x{y:04X} under real traps");
                }
            }
            v.restore();
            r.restore();
            Ok(())
        })
    })
}
fn patterns() -> [[u16; 8]; 3] {
    [
        [0x5000, 0x0041, 0x5001, 0x0003, 0x3004, 0x3000, 0x4000, 0x3003],
        [0x0000, 0xFFFF, 0x2FFF, 0xFE00, 0xFDFF, 0x3001, 0x0000, 0x3002],
        [0x3005, 0x8000, 0x3003, 0x7FFF, 0xFE06, 0x0200, 0xFFFF, 0x0040],
    ]
}
fn main() {
    let mut k = Check::new("C12");
    k.assume("user-mode programs; R0-R5, user memory and output are compared at the end, everything before HALT or the exception");
    let np = k.tier(2, 3);
    k.family("words", &format!("all 65536 words as the first instruction of a program, with {np} register patterns, at priorities 0, 3 and 7 with every condition code"), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let (reg, psr) = [(patterns()[0], 0x8002u16), (patterns()[1], 0x8304), (patterns()[0], 0x8701), (patterns()[2], 0x8104)][ch.choose(np + 1)];
        let mut s = Start { reg, psr, ssp: 0x2F00, kb: vec![0x41], ..Default::default() };
        s.mem = vec![(0x3000, w), (0x3001, 0x1021), (0x3002, 0xF025), (0x3003, 0xF025), (0x3004, 0xF025), (0x5000, 0x41), (0x5001, 0x42), (0x5002, 0)];
        let desc = format!("{} (x{w:04X}), registers {reg:04X?}, PSR x{psr:04X}", dis(w));
        c.describe(|| desc.clone());
        c.state(&(w, reg));
        pair(&s, 60, |_| None, c, &desc)
    });
    let d = k.tier(3, 4);
    for (name, devs) in [("programs", 0), ("programs with an interrupt", 1)] {
        let d = d - devs as usize;
        k.family(name, &format!("every program of {d} instructions over 24 (arithmetic, memory, calls, traps with output and input, faults), 3 register patterns{}", if devs > 0 { ", one interrupt at any of the first 40 steps" } else { "" }), devs, move |ch, c| {
            let al = [
                0x1021u16, 0x5020, 0x903F, 0x7080, 0x6240, 0x3004, 0x2003, 0xA7FF, 0xB000, 0xE002, 0x0E01, 0x0BFE, 0x4801, 0x4100, 0xC1C0, //
                0xF020, 0xF021, 0xF022, 0xF024, 0xF030, 0xF025, 0x8000, 0xD000, 0x1010,
            ];
            let reg = patterns()[ch.choose(3)];
            let mut s = Start { reg, ssp: 0x2F00, kb: vec![0x41, 0x42, 0x43, 0x44, 0x45], ..Default::default() };
            let ws: Vec<u16> = (0..d).map(|_| *ch.pick(&al)).collect();
            s.mem = ws.iter().enumerate().map(|(i, &w)| (0x3000 + i as u16, w)).collect();
            s.mem.extend((0..8u16).map(|i| (0x3000 + d as u16 + i, 0xF025)));
            s.mem.extend([(0x5000, 0x4241), (0x5001, 0x42), (0x5002, 0), (0x40, 0x0200), (0x190, 0x1100), (0x1100, 0x8000)]);
            let mut desc = format!("{}, registers {reg:04X?}", ws.iter().map(|&w| dis(w)).collect::<Vec<_>>().join("; "));
            let mut at = None;
            let mut open = devs > 0;
            c.describe(|| desc.clone());
            c.state(&desc);
            // choose the place first: it is part of the description
            if devs > 0 {
                at = ch.choose(41).checked_sub(1);
                desc = format!("{desc}, interrupt before step {at:?}");
                open = at.is_some();
            }
            pair(&s, 300, |i| (open && Some(i) == at).then_some((0x90, 4)), c, &desc)
        });
    }
    k.run()
}
