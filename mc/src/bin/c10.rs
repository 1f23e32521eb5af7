//! C10: interrupts are priority-gated and transparent.
use lc3_ensemble::sim::device::{Interrupt, InterruptFromFn, TimerDevice};
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::sync::{Arc, Mutex};

/// Handlers for the vectors x00 (+ v), placed at x1100: the first only returns, the second saves,
/// uses and restores registers, the third does so in a way that changes the condition codes last.
fn handlers() -> Vec<(&'static str, Vec<u16>)> {
    vec![
        ("RTI", vec![0x8000]),
        ("saves R0 and R1", vec![
            0x1DBE, 0x7180, 0x7381, // push R0, R1
            0x5020, 0x5260, 0x200A, 0x1021, 0x3008, // count
            0x1263, 0x127F, 0x03FE, // loop
            0x6180, 0x6381, 0x1DA2, 0x8000, 0, 0,
        ]),
        ("saves six registers, calls a subroutine", vec![
            0x1DBA, 0x7180, 0x7381, 0x7582, 0x7783, 0x7B84, 0x7F85, // push R0-R3, R5, R7
            0x903F, 0x5260, 0x14BF, 0x4809, // use them
            0x6180, 0x6381, 0x6582, 0x6783, 0x6B84, 0x6F85, 0x1DA6, 0x8000, 0, // pop, RTI
            0x56E0, 0x1AFD, 0xC1C0,
        ]),
        ("prints nothing by PUTS", vec![0x1DBF, 0x7180, 0xE004, 0xF022, 0x6180, 0x1DA1, 0x8000, 0]),
    ]
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct End {
    how: String,
    regs: [u16; 8],
    cc: u8,
    mode: bool,
    out: Vec<u8>,
    left: Vec<u8>,
    ssp: u16,
    user: u64,
}
fn user_memory(r: &Rig) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for a in 0x3000..0xFE00u16 {
        h = (h ^ r.sim.mem[a].get() as u64).wrapping_mul(0x100000001b3);
    }
    h
}
/// Runs to the end, with `irq(step)` armed before each step; gives the end state and the number of steps.
fn run(r: &mut Rig, limit: usize, c: &mut Case, mut irq: impl FnMut(&Rig, usize) -> Option<(u8, u8)>) -> Res<(End, usize)> {
    let mut how = "still running".to_string();
    let mut n = 0;
    // the priority, by what was entered and left so far
    let mut prio = (r.sim.psr().get() >> 8 & 7) as u8;
    while n < limit {
        if !r.sim.mcr().load(std::sync::atomic::Ordering::SeqCst) {
            how = "MCR".into();
            break;
        }
        let q = irq(r, n);
        if let Some(q) = q {
            r.arm(&[q]);
        }
        let pc = r.sim.pc;
        let w = r.sim.mem[pc].get();
        let (count, sp) = (r.sim.instructions_run, r.regs()[6]);
        let x = r.real_step()?;
        c.trans(1);
        n += 1;
        if r.sim.instructions_run == count && r.sim.pc == 0x1100 && x.is_ok() {
            let Some((_, p)) = q else { return fail("gate", format!("step {n}: an interrupt is taken at x{pc:04X} without a request")) };
            ensure!(p > prio, "gate", "step {n}: a request of priority {p} is taken at x{pc:04X}, at priority {prio}");
            prio = p;
        } else {
            if let Some((_, p)) = q {
                ensure!(p <= prio, "gate", "step {n}: a request of priority {p} is not taken at x{pc:04X}, at priority {prio}");
            }
            if w == 0x8000 && r.sim.instructions_run != count {
                prio = (r.sim.mem[sp.wrapping_add(1)].get() >> 8 & 7) as u8;
            }
        }
        if let Err(e) = x {
            how = format!("{e:?} at x{:04X}", r.sim.prefetch_pc());
            break;
        }
        if w == 0xF025 && r.sim.pc == pc && !r.sim.flags.use_real_traps {
            how = "HALT".into();
            break;
        }
    }
    r.arm(&[(0, 0)]);
    r.disarm();
    let ssp = r.real_ssp()?;
    let end = End {
        how,
        regs: r.regs(),
        cc: r.sim.psr().cc(),
        mode: r.sim.psr().privileged(),
        out: r.disp.read().unwrap().clone(),
        left: r.kb.read().unwrap().iter().copied().collect(),
        ssp,
        user: user_memory(r),
    };
    Ok((end, n))
}
fn start(prog: &[u16], kb: &[u8], real: bool, sup: bool, handler: &[u16]) -> Start {
    let mut s = Start { real, kb: kb.to_vec(), ssp: 0x2E00, ..Default::default() };
    s.reg = [1, 2, 0x4000, 0xFFFF, 5, 6, 0x5000, 0x3333];
    if sup {
        (s.psr, s.reg[6], s.ssp) = (2, 0x2E00, 0x5000);
    }
    s.mem = code(0x3000, prog).chain(code(0x1100, handler)).collect();
    // every interrupt vector that is used
    s.mem.extend([0u16, 1, 2, 0x80, 0x81, 0x90, 0x91, 0xFF].map(|v| (0x100 + v, 0x1100)));
    s.mem.extend([(0x4000, 0x4003), (0x4001, 0x4004), (0x4003, 0x1234)]);
    s
}
/// The exception vectors are the OS's own when exceptions are vectored and expected.
fn keep_exceptions(s: &mut Start) {
    s.mem.retain(|m| !(0x100..0x103).contains(&m.0));
}

fn main() {
    let mut k = Check::new("C10");
    k.assume("handlers save and restore what they use and return with RTI; programs keep R6 out of the I/O page; among requests of equal priority any may win");
    k.family("gate", "every current priority x every set of up to 3 device requests (each absent or of priority 0-7) and a ready keyboard with its interrupt on/off, in both modes, both trap modes, at 8 instructions (including TRAP, HALT, RTI, faults): taken or not, winner, saved PC and PSR, new mode, priority and stack", 0, |ch, c| {
        let cur = ch.choose(8) as u16;
        let user = ch.flag();
        let real = ch.flag();
        let kb_ie = ch.flag();
        let w = *ch.pick(&[0x1021u16, 0xF021, 0xF025, 0x8000, 0xD000, 0x0FFF, 0x6080, 0x48FF]);
        let ps = [ch.choose(9), ch.choose(9), ch.choose(9)];
        let low = if real { 5u8 } else { 1 }; // x101 is also an exception vector
        let vects = [low, 0x90, 0xFF];
        let mut reqs: Vec<(u8, u8)> = ps.iter().zip(vects).filter(|(p, _)| **p > 0).map(|(p, v)| (v, *p as u8 - 1)).collect();
        let desc = || format!("priority {cur}, user {user}, real {real}, keyboard interrupt {kb_ie}, at x{w:04X}, requests (vector, priority) {reqs:02X?}");
        c.describe_lazy(desc);
        let desc = desc();
        c.state(&(cur, user, real, kb_ie, w, &reqs));
        let psr = (user as u16) << 15 | cur << 8 | 4;
        let mut s = Start { psr, pc: 0x3000, ssp: 0x2E00, kb: vec![0x41], kb_ie, real, ..Default::default() };
        s.reg = [1, 2, 0x2F00, 4, 5, 6, 0x2E00, 7];
        let usp = 0x5000;
        if user {
            s.reg[6] = usp;
        } else {
            s.ssp = usp;
        }
        let hs = [(low as u16, 0x1101u16), (0x90, 0x1190), (0xFF, 0x11FF), (0x80, 0x1180)];
        s.mem = vec![(0x3000, w)];
        s.mem.extend(hs.map(|(v, a)| (0x100 + v, a)));
        s.mem.extend(hs.map(|(_, a)| (a, 0x8000)));
        s.mem.extend([(0x2E00, 0x3100), (0x2E01, 0x8001)]);
        with_rig(false, |r| {
            r.start(&s)?;
            r.arm(&reqs);
            let n0 = r.sim.instructions_run;
            let x = r.real_step()?;
            r.disarm();
            c.trans(1);
            c.trace();
            if kb_ie {
                reqs.push((0x80, 4));
            }
            let top = reqs.iter().map(|q| q.1).max();
            let at = r.sim.pc;
            let entered = hs.iter().find(|h| h.1 == at).map(|h| h.0 as u8);
            match top {
                Some(p) if p as u16 > cur => {
                    c.outcome("taken");
                    ensure!(x.is_ok(), "taken", "{desc}: the step fails: {x:?}");
                    let Some(v) = entered else { return fail("taken", format!("{desc}: not taken, pc x{at:04X}")) };
                    ensure!(reqs.contains(&(v, p)), "winner", "{desc}: x{v:02X} is entered");
                    let q = r.sim.psr();
                    ensure!(q.privileged(), "mode", "{desc}: not in supervisor mode");
                    ensure!(q.priority() == p, "priority", "{desc}: priority {} in the handler", q.priority());
                    let (sp, ssp) = (r.regs()[6], r.real_ssp()?);
                    ensure!(sp == 0x2DFE, "stack", "{desc}: R6 is x{sp:04X}");
                    ensure!(ssp == usp, "stack", "{desc}: saved SP is x{ssp:04X}");
                    let (a, b) = (r.sim.mem[0x2DFE].get(), r.sim.mem[0x2DFF].get());
                    ensure!(a == 0x3000 && b == psr, "saved", "{desc}: stack holds PC x{a:04X}, PSR x{b:04X}, want x3000, x{psr:04X}");
                    ensure!(r.sim.instructions_run == n0, "boundary", "{desc}: an instruction was executed too");
                    ensure!(*r.kb.read().unwrap() == [0x41] && r.disp.read().unwrap().is_empty(), "boundary", "{desc}: the device was touched");
                    // and back
                    let x = r.real_step()?;
                    ensure!(x.is_ok(), "return", "{desc}: RTI fails {x:?}");
                    let g = (r.sim.pc, r.sim.psr().get(), r.regs(), r.real_ssp()?);
                    if v != 0x80 {
                        ensure!(g == (0x3000, psr, s.reg, s.ssp), "return", "{desc}: after RTI pc x{:04X} psr x{:04X} regs {:04X?} ssp x{:04X}", g.0, g.1, g.2, g.3);
                    }
                }
                _ => {
                    c.outcome("not taken");
                    ensure!(entered.is_none(), "gate", "{desc}: x{:02X} is entered", entered.unwrap());
                }
            }
            r.restore();
            Ok(())
        })
    });
    let uninterrupted: Arc<Mutex<std::collections::HashMap<(usize, bool, bool), (End, usize)>>> = Arc::default();
    // the reference: the same program without interrupts
    let reference = {
        let progs = programs();
        let u = uninterrupted.clone();
        move |p: usize, real: bool, sup: bool, r: &mut Rig, c: &mut Case| -> Res<(End, usize)> {
            if let Some(x) = u.lock().unwrap().get(&(p, real, sup)) {
                return Ok(x.clone());
            }
            let mut s = start(&progs[p].1, &progs[p].2, real, sup, &[0x8000]);
            keep_exceptions(&mut s);
            r.start(&s)?;
            let x = run(r, 5000, c, |_, _| None)?;
            r.restore();
            u.lock().unwrap().insert((p, real, sup), x.clone());
            Ok(x)
        }
    };
    let reference = Arc::new(reference);
    let all = usize::MAX;
    for (name, short, devs, window) in [("transparency", false, k.tier(1, 2), all), ("transparency, short programs", true, k.tier(2, 3), all), ("transparency, close interrupts", false, k.tier(2, 3), k.tier(5, 20)), ("transparency, short programs, close interrupts", true, 3, k.tier(4, 12))] {
        let (progs, hs, reference) = (programs(), handlers(), reference.clone());
        k.family(name, &format!("{} programs x 4 handlers x trap modes x start modes, with up to {devs} interrupts (priority 1, 4 or 7, 2 vectors) at any of the steps{}, OS code and handlers included: same end, registers, condition codes, stacks, user memory, output and remaining input as the uninterrupted run; each request is taken exactly if it exceeds the priority that the entries and returns so far give", if short { 4 } else { progs.len() }, if window == all { String::new() } else { format!(", each within {window} steps of the one before") }), devs, move |ch, c| {
            let p = ch.choose(if short { 4 } else { progs.len() });
            let h = ch.choose(hs.len());
            let real = ch.flag();
            let sup = ch.flag();
            with_rig(false, |r| {
                if sup && progs[p].0 == "privilege violation" {
                    return Ok(());
                }
                let (want, n) = reference(p, real, sup, r, c)?;
                let mut s = start(&progs[p].1, &progs[p].2, real, sup, &hs[h].1);
                keep_exceptions(&mut s);
                r.start(&s)?;
                let mut at: Vec<(usize, u8, u8)> = vec![];
                let limit = n + 40 * devs as usize + 10;
                let mut open = true;
                let (got, _) = run(r, limit, c, |_, i| {
                    // nothing is injected once the machine is about to stop by itself
                    if i > n + 60 {
                        open = false;
                    }
                    let k = if open && at.last().is_none_or(|l| i - l.0 <= window) { ch.dev(4) } else { 0 };
                    let q = [None, Some((0x90, 4)), Some((0x91, 7)), Some((0x90, 1))][k];
                    if let Some((v, pr)) = q {
                        at.push((i, v, pr));
                    }
                    q
                })?;
                let desc = format!("{}, handler {}, real {real}, supervisor {sup}, interrupts (step, vector, priority) {at:02X?}", progs[p].0, hs[h].0);
                c.describe(|| desc.clone());
                c.state(&(p, h, real, sup, &at));
                c.trace();
                c.outcome(&got.how);
                ensure!(got == want, "transparent", "{desc}: ends with {got:04X?}, without interrupts {want:04X?}");
                r.restore();
                Ok(())
            })
        });
    }
    {
        let (progs, reference) = (programs(), reference.clone());
        let max = k.tier(40, 200);
        k.family("periodic sources", &format!("every program with a timer of every exact period 12..{max}, every priority, or with a key arriving at every step whose interrupt handler reads the key, run by run_with_limit"), 0, move |ch, c| {
            let p = ch.choose(progs.len());
            let real = ch.flag();
            let kb = ch.flag();
            let n = 12 + ch.choose(max as usize - 12);
            let prio = if kb { 4 } else { *ch.pick(&[1u8, 4, 7]) };
            if kb && !progs[p].2.is_empty() {
                return Ok(());
            }
            let desc = format!("{}, real {real}, {} {n}, priority {prio}", progs[p].0, if kb { "key at instruction" } else { "timer period" });
            c.describe(|| desc.clone());
            c.state(&desc);
            let want = with_rig(false, |r| reference(p, real, false, r, c))?.0;
            // a rig of its own: the timer device stays
            let mut r = Rig::new(false);
            let r = &mut r;
            let h: Vec<u16> = vec![0x1DBF, 0x7180, 0xA004, 0x6180, 0x1DA1, 0x8000, 0, KBDR];
            let mut s = start(&progs[p].1, &progs[p].2, real, false, &h);
            keep_exceptions(&mut s);
            if kb {
                s.kb_ie = true;
            } else {
                s.mem.push((0x1107, 0x4000));
            }
            r.start(&s)?;
            if !kb {
                let mut t = TimerDevice::new(Some(0), n as u32..=n as u32, 0x81, prio);
                t.enabled = true;
                assert!(r.sim.device_handler.add_device(t, &[]).is_ok());
            } else {
                let q = r.kb.clone();
                let mut left = n;
                let dev = InterruptFromFn::new(move || {
                    if left > 0 {
                        left -= 1;
                        if left == 0 {
                            q.write().unwrap().push_back(0x5A);
                        }
                    }
                    None::<Interrupt>
                });
                assert!(r.sim.device_handler.add_device(dev, &[]).is_ok());
            }
            let sim = &mut r.sim;
            let x = mc::real("run_with_limit", || sim.run_with_limit(200_000))?;
            c.trans(1);
            let how = match x {
                Ok(()) if r.sim.hit_halt() && real => "MCR".to_string(),
                Ok(()) if r.sim.hit_halt() => "HALT".to_string(),
                Ok(()) => "still running".into(),
                Err(e) => format!("{e:?} at x{:04X}", r.sim.prefetch_pc()),
            };
            c.outcome(&how);
            let ssp = r.real_ssp()?;
            let got = End {
                how,
                regs: r.regs(),
                cc: r.sim.psr().cc(),
                mode: r.sim.psr().privileged(),
                out: r.disp.read().unwrap().clone(),
                left: want.left.clone(),
                ssp,
                user: user_memory(r),
            };
            let mut want = want;
            if want.how == "still running" {
                want.how = got.how.clone();
            }
            c.trace();
            ensure!(got == want, "transparent", "{desc}: ends with {got:04X?}, without interrupts {want:04X?}");
            Ok(())
        });
    }
    k.run()
}
