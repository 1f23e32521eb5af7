//! C11: contracts of the built-in OS trap routines.
use mc::rig::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;

const PROMPT: &[u8] = b"Input character: ";

/// What the routine has to do: (output, R0 on return, bytes consumed).
fn contract(v: u16, r0: u16, word: &dyn Fn(u16) -> u16, kb: &[u8]) -> Option<(Vec<u8>, u16, usize)> {
    let mut out = vec![];
    match v {
        0x20 => return kb.first().map(|&b| (vec![], b as u16, 1)),
        0x21 => out.push(r0 as u8),
        0x22 => {
            let mut a = r0;
            while word(a) != 0 {
                out.push(word(a) as u8);
                a = a.wrapping_add(1);
            }
        }
        0x23 => {
            return kb.first().map(|&b| {
                out.extend(PROMPT);
                out.push(b);
                (out, b as u16, 1)
            });
        }
        0x24 => {
            let mut a = r0;
            loop {
                let w = word(a);
                if w as u8 == 0 {
                    break;
                }
                out.push(w as u8);
                if w >> 8 == 0 {
                    break;
                }
                out.push((w >> 8) as u8);
                a = a.wrapping_add(1);
            }
        }
        _ => unreachable!(),
    }
    Some((out, r0, 0))
}

struct Call {
    v: u16,
    s: Start,
    /// (step, byte): keys that arrive later
    late: Vec<(usize, u8)>,
}
/// Runs one trap call and compares with its contract.
fn call(r: &mut Rig, q: &Call, c: &mut Case, desc: &str) -> Res {
    let pc = q.s.pc;
    let mut keys = q.s.kb.clone();
    keys.extend(q.late.iter().map(|l| l.1));
    r.start(&q.s)?;
    one(r, q.v, pc, &keys, &q.late, 200_000, c, desc)?;
    let want = |a: u16| r.m.mem[a as usize];
    for a in 0x3000..0xFE00u16 {
        if r.sim.mem[a].get() != want(a) {
            return fail("user-memory", format!("{desc}: mem[x{a:04X}] is x{:04X}, was x{:04X}", r.sim.mem[a].get(), want(a)));
        }
    }
    Ok(())
}
/// One trap at `pc`, whatever came before.
fn one(r: &mut Rig, v: u16, pc: u16, keys: &[u8], late: &[(usize, u8)], limit: usize, c: &mut Case, desc: &str) -> Res {
    let before = (r.regs(), r.sim.psr().get(), r.real_ssp()?);
    let out0 = r.disp.read().unwrap().len();
    let mut steps = 0;
    loop {
        for l in late.iter().filter(|l| l.0 == steps) {
            r.kb.write().unwrap().push_back(l.1);
        }
        if let Err(e) = r.real_step()? {
            return fail("error", format!("{desc}: the routine fails with {e:?} at x{:04X}", r.sim.prefetch_pc()));
        }
        steps += 1;
        if r.sim.pc == pc.wrapping_add(1) {
            break;
        }
        ensure!(steps < limit, "return", "{desc}: not back after {steps} steps");
    }
    for l in late.iter().filter(|l| l.0 >= steps) {
        r.kb.write().unwrap().push_back(l.1);
    }
    c.trans(steps as u64);
    c.trace();
    let Some((out, r0, used)) = contract(v, before.0[0], &|a| r.m.mem[a as usize], keys) else { return Ok(()) };
    let got = r.disp.read().unwrap()[out0..].to_vec();
    ensure!(got == out, "output", "{desc}: output {:?}, want {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&out));
    let left: Vec<u8> = r.kb.read().unwrap().iter().copied().collect();
    ensure!(left == keys[used..], "input", "{desc}: input left {left:02X?}, want {:02X?}", &keys[used..]);
    let mut want = before;
    want.0[0] = r0;
    let now = (r.regs(), r.sim.psr().get(), r.real_ssp()?);
    ensure!(now.0 == want.0, "registers", "{desc}: registers {:04X?}, want {:04X?}", now.0, want.0);
    ensure!(now.1 & 7 == want.1 & 7, "condition-codes", "{desc}: PSR x{:04X}, was x{:04X}", now.1, want.1);
    ensure!(now.1 & 0x8700 == want.1 & 0x8700, "privilege", "{desc}: PSR x{:04X}, was x{:04X}", now.1, want.1);
    ensure!(now.2 == want.2, "registers", "{desc}: saved SP x{:04X}, was x{:04X}", now.2, want.2);
    Ok(())
}
fn base(ch: &mut Ch) -> Start {
    let user = !ch.flag();
    let real = ch.flag();
    let cc = *ch.pick(&[1u16, 2, 4]);
    let pri = *ch.pick(&[0u16, 5]);
    let mut s = Start { psr: (user as u16) << 15 | pri << 8 | cc, real, ssp: 0x2F00, ..Default::default() };
    // (with the keyboard's interrupt on, but masked by the priority)
    s.kb_ie = pri == 5 && ch.flag();
    s.reg = match ch.choose(3) {
        0 => [0, 0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666, 0x7777],
        1 => [0, 1, 0x7FFF, 0xFFFF, 0x8000, 0, 0x3456, 0x8001],
        _ => [0, 0xFFFF, 0x8000, 0, 1, 0xFE00, 0x3000, 0x2FFF],
    };
    if !user {
        (s.ssp, s.reg[6], s.pc) = (s.reg[6], 0x2F00, 0x1000);
    }
    s
}
fn main() {
    let mut k = Check::new("C11");
    k.assume("PUTS strings end with a zero word inside memory; called with the supervisor stack in supervisor memory");
    k.family("OUT", "every 16-bit R0 value, in both modes and trap modes, every condition code, 2 register patterns", 0, |ch, c| {
        let r0 = ch.choose(65536) as u16;
        let mut s = base_small(ch);
        s.reg[0] = r0;
        s.mem.push((s.pc, 0xF021));
        let desc = format!("OUT with R0 = x{r0:04X}, psr x{:04X}", s.psr);
        c.describe(|| desc.clone());
        c.state(&(r0, s.psr));
        with_rig(false, |r| {
            r.start(&s)?;
            one(r, 0x21, s.pc, &[], &[], 300, c, &desc)?;
            r.restore_quick();
            Ok(())
        })
    });
    k.family("GETC and IN", "every byte, alone and followed by others, present at once or arriving after each of 0..60 steps, every mode, condition code and register pattern", 0, |ch, c| {
        let v = *ch.pick(&[0x20u16, 0x23]);
        let mut s = base(ch);
        s.reg[0] = 0xABCD;
        s.mem.push((s.pc, 0xF000 | v));
        let mut late = vec![];
        if ch.flag() {
            let b = ch.choose(256) as u8;
            s.kb = [vec![b], vec![b, 0x0A, b], vec![b, 0]][ch.choose(3)].clone();
        } else {
            let at = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 40, 150, 160, 171, 172, 173, 174, 175, 176, 180, 200, 250, 300, 350, 400, 425, 426, 427, 428, 429, 430, 440, 450, 600]);
            late = vec![(at, 0xC3), (at + ch.choose(3), 0x00)];
        }
        let q = Call { v, late, s };
        let desc = format!("TRAP x{v:02X}, psr x{:04X}, real {}, keys {:02X?} {:02X?}", q.s.psr, q.s.real, q.s.kb, q.late);
        c.describe(|| desc.clone());
        c.state(&desc);
        with_rig(false, |r| {
            call(r, &q, c, &desc)?;
            r.restore();
            Ok(())
        })
    });
    let d = k.tier(3, 5);
    k.family("PUTS", &format!("every string of up to {d} words over 6 word values (ASCII, bytes with the top bit, words with a high byte), at 5 places (end of user space, supervisor memory, start of user space), every mode, condition code and register pattern"), 0, move |ch, c| {
        let n = ch.choose(d + 1);
        let ws: Vec<u16> = (0..n).map(|_| *ch.pick(&[0x41u16, 0x0A, 0x80, 0xFF, 0x1242, 0xFF01])).collect();
        let at = *ch.pick(&[0x5000u16, 0xFDFF - n as u16, 0x3000, 0x1800, 0x2FFF]);
        let mut s = base(ch);
        if s.pc == 0x3000 {
            s.pc = 0x3100;
        }
        s.reg[0] = at;
        s.mem.push((s.pc, 0xF022));
        s.mem.extend(ws.iter().enumerate().map(|(i, &w)| (at + i as u16, w)));
        s.mem.push((at + n as u16, 0));
        s.kb = vec![0x58];
        let q = Call { v: 0x22, s, late: vec![] };
        let desc = format!("PUTS of {ws:04X?} at x{at:04X}, psr x{:04X}, real {}", q.s.psr, q.s.real);
        c.describe(|| desc.clone());
        c.state(&desc);
        c.outcome(&format!("{n} characters"));
        with_rig(false, |r| {
            call(r, &q, c, &desc)?;
            r.restore();
            Ok(())
        })
    });
    let d = k.tier(2, 3);
    k.family("PUTSP", &format!("every packed string of up to {d} words over bytes {{00, 41, 0A, 80, FF}} in both halves (zero bytes anywhere), at 3 places, every mode, condition code and register pattern; every 16-bit word alone"), 0, move |ch, c| {
        let bytes = [0x41u16, 0, 0x0A, 0x80, 0xFF];
        let ws: Vec<u16> = if ch.flag() {
            vec![ch.choose(65536) as u16]
        } else {
            let n = ch.choose(d + 1);
            (0..n).map(|_| *ch.pick(&bytes) | *ch.pick(&bytes) << 8).collect()
        };
        let n = ws.len() as u16;
        let single = n == 1;
        let at = if single { 0x5000 } else { *ch.pick(&[0x5000u16, 0xFDFF - n, 0x1800]) };
        let mut s = if single { base_small(ch) } else { base(ch) };
        s.reg[0] = at;
        s.mem.push((s.pc, 0xF024));
        s.mem.extend(ws.iter().enumerate().map(|(i, &w)| (at + i as u16, w)));
        s.mem.push((at + n, 0));
        let q = Call { v: 0x24, s, late: vec![] };
        let desc = format!("PUTSP of {ws:04X?} at x{at:04X}, psr x{:04X}, real {}", q.s.psr, q.s.real);
        c.describe(|| desc.clone());
        c.state(&desc);
        with_rig(false, |r| {
            if single {
                r.start(&q.s)?;
                one(r, 0x24, q.s.pc, &[], &[], 5000, c, &desc)?;
                r.restore_quick();
            } else {
                call(r, &q, c, &desc)?;
                r.restore();
            }
            Ok(())
        })
    });
    let d = k.tier(4, 6);
    k.family("sequences of traps", &format!("every sequence of up to {d} traps among GETC, OUT, PUTS, IN, PUTSP in one program, both modes and trap modes, then HALT"), 0, move |ch, c| {
        let n = 1 + ch.choose(d);
        let vs: Vec<u16> = (0..n).map(|_| *ch.pick(&[0x20u16, 0x21, 0x22, 0x23, 0x24])).collect();
        let user = ch.flag();
        let real = ch.flag();
        let mut s = Start { psr: (user as u16) << 15 | 4, ssp: 0x2F00, real, kb: (0..n as u8).map(|i| 0x61 + i).collect(), ..Default::default() };
        s.reg = [0x5000, 1, 2, 3, 4, 5, 0x4000, 7];
        if !user {
            (s.ssp, s.reg[6]) = (0x4000, 0x2F00);
        }
        s.mem = vs.iter().enumerate().map(|(i, v)| (0x3000 + i as u16, 0xF000 | v)).collect();
        s.mem.push((0x3000 + n as u16, 0xF025));
        s.mem.extend([(0x5000, 0x4241), (0x5001, 0x43), (0x5002, 0)]);
        let desc = format!("traps {vs:02X?}, user {user}, real {real}");
        c.describe(|| desc.clone());
        c.state(&desc);
        with_rig(false, |r| {
            r.start(&s)?;
            let mut keys = s.kb.clone();
            for (i, &v) in vs.iter().enumerate() {
                let pc = 0x3000 + i as u16;
                r.set_reg(0, 0x5000);
                one(r, v, pc, &keys, &[], 5000, c, &desc)?;
                keys = r.kb.read().unwrap().iter().copied().collect();
            }
            halt(r, c, &desc)?;
            r.restore();
            Ok(())
        })
    });
    k.family("HALT", "HALT in both modes and trap modes, with every register at each of 7 values and the others at 3, by run, run_with_limit and single steps", 0, |ch, c| {
        let mut s = base(ch);
        if ch.flag() {
            // each register with each of these values, the others alike
            let v = *ch.pick(&[0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0xFE00, 0xFFFE]);
            let (i, o) = (ch.choose(8), *ch.pick(&[0u16, 0xFFFF, 0x4000]));
            let sp = s.reg[6];
            s.reg = [o; 8];
            s.reg[i] = v;
            if s.psr >> 15 == 0 {
                s.reg[6] = sp;
            }
        }
        s.mem.push((s.pc, 0xF025));
        s.mem.push((s.pc + 1, 0x1021));
        let how = ch.choose(3);
        let desc = format!("HALT, psr x{:04X}, real {}, registers {:04X?}, call {how}", s.psr, s.real, s.reg);
        c.describe(|| desc.clone());
        c.state(&desc);
        with_rig(false, |r| {
            r.start(&s)?;
            match how {
                0 => halt(r, c, &desc)?,
                1 => {
                    let sim = &mut r.sim;
                    let x = real("run_with_limit", || sim.run_with_limit(100))?;
                    ensure!(x.is_ok() && sim.hit_halt(), "halt", "{desc}: {x:?}, hit_halt {}", sim.hit_halt());
                    ensure!(!sim.mcr().load(SeqCst), "halt", "{desc}: MCR still on");
                }
                _ => {
                    for _ in 0..40 {
                        let x = r.real_step()?;
                        ensure!(x.is_ok(), "halt", "{desc}: {x:?}");
                    }
                    if s.real {
                        ensure!(!r.sim.mcr().load(SeqCst), "halt", "{desc}: MCR still on");
                    } else {
                        ensure!(r.sim.pc == s.pc && r.regs() == s.reg, "halt", "{desc}: went on to x{:04X}", r.sim.pc);
                    }
                }
            }
            c.trace();
            // nothing but the two registers may have changed
            for a in 0x3000..0xFE00u16 {
                ensure!(r.sim.mem[a].get() == r.m.mem[a as usize], "user-memory", "{desc}: x{a:04X} changed");
            }
            ensure!(r.disp.read().unwrap().is_empty() && r.regs()[1..6] == s.reg[1..6], "halt", "{desc}: output {:?}, registers {:04X?}", r.disp.read().unwrap(), r.regs());
            r.restore();
            Ok(())
        })
    });
    k.run()
}
fn base_small(ch: &mut Ch) -> Start {
    let user = !ch.flag();
    let mut s = Start { psr: (user as u16) << 15 | 4, ssp: 0x2F00, ..Default::default() };
    s.reg = [0, 0xFFFF, 0x8000, 0, 1, 0xFE00, 0x4000, 0x2FFF];
    if !user {
        (s.ssp, s.reg[6], s.pc) = (0x4000, 0x2F00, 0x1000);
    }
    s
}
fn halt(r: &mut Rig, c: &mut Case, desc: &str) -> Res {
    let out = r.disp.read().unwrap().clone();
    let sim = &mut r.sim;
    let x = real("run", || {
        let mut left = 10_000;
        sim.run_while(|_| {
            left -= 1;
            left > 0
        })
    })?;
    c.trans(1);
    ensure!(x.is_ok() && sim.hit_halt(), "halt", "{desc}: run gives {x:?}, hit_halt {}", sim.hit_halt());
    ensure!(*r.disp.read().unwrap() == out, "halt", "{desc}: HALT prints {:?}", r.disp.read().unwrap());
    c.trace();
    Ok(())
}
