//! C13: run-style calls equal repeated single steps.
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::SimErr;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    StepIn,
    Over,
    Out,
    Limit(u64),
    While(u32),
    Run,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stop {
    Halt,
    McrOff,
    Break,
    Wire,
    /// nothing is said about the pause condition
    Unsaid,
}
#[derive(Clone, PartialEq, Debug, Hash)]
enum Bp {
    Pc(u16),
    Reg(usize, u8, u16),
    Mem(u16, u8, u16),
}
fn cmp(k: u8, v: u16) -> Comparator {
    [Comparator::Never, Comparator::Lt(v), Comparator::Eq(v), Comparator::Le(v), Comparator::Gt(v), Comparator::Ne(v), Comparator::Ge(v), Comparator::Always].into_iter().nth(k as usize).unwrap()
}
fn holds(k: u8, x: u16, v: u16) -> bool {
    match k {
        0 => false,
        1 => x < v,
        2 => x == v,
        3 => x <= v,
        4 => x > v,
        5 => x != v,
        6 => x >= v,
        _ => true,
    }
}
impl Bp {
    fn real(&self) -> Breakpoint {
        match *self {
            Bp::Pc(a) => Breakpoint::PC(a),
            Bp::Reg(r, k, v) => Breakpoint::Reg { reg: REGS[r], value: cmp(k, v) },
            Bp::Mem(a, k, v) => Breakpoint::Mem { addr: a, value: cmp(k, v) },
        }
    }
    fn holds(&self, r: &Rig) -> bool {
        match *self {
            Bp::Pc(a) => r.sim.pc == a,
            Bp::Reg(i, k, v) => holds(k, r.regs()[i], v),
            Bp::Mem(a, k, v) => holds(k, r.sim.mem[a].get(), v),
        }
    }
}
fn err_name(e: &SimErr) -> String {
    format!("{e:?}")
}
/// The specification: single steps until the documented condition holds. Gives the error or why it stopped,
/// and the number of steps.
fn by_steps(r: &mut Rig, op: Op, bps: &[Bp], cap: usize) -> Res<(Result<Stop, String>, usize)> {
    let d0 = r.sim.frame_stack.len();
    let n0 = r.sim.instructions_run;
    if op == Op::Out && d0 == 0 {
        return Ok((Ok(Stop::Unsaid), 0));
    }
    if op != Op::StepIn {
        r.sim.mcr().store(true, SeqCst);
    }
    let mut steps = 0usize;
    loop {
        if op != Op::StepIn {
            if !r.sim.mcr().load(SeqCst) {
                return Ok((Ok(Stop::McrOff), steps));
            }
            let go = match op {
                Op::Over => steps == 0 || r.sim.frame_stack.len() > d0,
                Op::Out => steps == 0 || r.sim.frame_stack.len() >= d0,
                Op::Limit(n) => r.sim.instructions_run.wrapping_sub(n0) < n,
                Op::While(n) => steps < n as usize,
                _ => steps < cap,
            };
            if !go || steps >= cap {
                return Ok((Ok(Stop::Wire), steps));
            }
        }
        let (pc, n, d) = (r.sim.pc, r.sim.instructions_run, r.sim.frame_stack.len());
        let w = r.sim.mem[pc].get();
        let x = r.real_step()?;
        steps += 1;
        if let Err(e) = x {
            return Ok((Err(err_name(&e)), steps));
        }
        let halted = !r.sim.flags.use_real_traps && w == 0xF025 && r.sim.pc == pc && r.sim.instructions_run == n && r.sim.frame_stack.len() == d;
        if op == Op::StepIn {
            return Ok((Ok(Stop::Unsaid), steps));
        }
        if halted {
            return Ok((Ok(Stop::Halt), steps));
        }
        if bps.iter().any(|b| b.holds(r)) {
            return Ok((Ok(Stop::Break), steps));
        }
    }
}
fn by_call(r: &mut Rig, op: Op, cap: usize) -> Res<Result<(), SimErr>> {
    let sim = &mut r.sim;
    // the cap only ends programs that would never stop
    let f0 = sim.frame_stack.len();
    real("run call", || match op {
        Op::StepIn => sim.step_in(),
        Op::Limit(n) => sim.run_with_limit(n),
        Op::While(n) => {
            let mut left = n;
            sim.run_while(move |_| {
                left = left.wrapping_sub(1);
                left != u32::MAX
            })
        }
        Op::Run => {
            let mut left = cap;
            sim.run_while(move |_| {
                left = left.wrapping_sub(1);
                left != usize::MAX
            })
        }
        Op::Over => sim.step_over(),
        Op::Out => {
            let _ = f0;
            sim.step_out()
        }
    })
}
fn same(a: &mut Rig, b: &mut Rig, desc: &str) -> Res {
    let mut f = |r: &mut Rig| -> Res<_> {
        let s = r.real_ssp()?;
        Ok((r.sim.pc, r.sim.psr().get(), r.regs(), s, r.sim.instructions_run.wrapping_sub(r.base_count()), r.sim.frame_stack.len(), r.sim.prefetch_pc(), r.disp.read().unwrap().clone(), r.kb.read().unwrap().clone()))
    };
    let (x, y) = (f(a)?, f(b)?);
    ensure!(x == y, "state", "{desc}: (pc, psr, regs, saved sp, instructions, depth, fault address, output, keys) after the call {x:04X?}, after single steps {y:04X?}");
    let mut diff = false;
    for i in 0..0xFE00u16 {
        diff |= a.sim.mem[i] != b.sim.mem[i];
    }
    if diff {
        for i in 0..0xFE00u16 {
            let (x, y) = (a.sim.mem[i].get(), b.sim.mem[i].get());
            ensure!(x == y, "memory", "{desc}: mem[x{i:04X}] is x{x:04X} after the call, x{y:04X} after single steps");
        }
    }
    Ok(())
}
fn hook(r: &Rig, period: u32, mcr_at: Option<u32>) {
    if period == 0 && mcr_at.is_none() {
        return;
    }
    let mut n = 0u32;
    let mcr = r.sim.mcr().clone();
    *r.hook.lock().unwrap() = Some(Box::new(move || {
        n += 1;
        if Some(n) == mcr_at {
            mcr.store(false, SeqCst);
        }
        (period != 0 && n % period == 0).then_some((0x92, 4))
    }));
}
/// A history of calls, each compared with its single steps.
fn history(s: &Start, bps: &[Bp], period: u32, mcr_at: Option<u32>, n: usize, mut next: impl FnMut(usize) -> Op, cap: usize, c: &mut Case, title: &str) -> Res {
    with_rig(false, |a| {
        with_rig(false, |b| {
            a.start(s)?;
            b.start(s)?;
            hook(a, period, mcr_at);
            hook(b, period, mcr_at);
            for bp in bps {
                a.sim.breakpoints.insert(bp.real());
            }
            let mut done: Vec<Op> = vec![];
            for i in 0..n {
                let op = next(i);
                done.push(op);
                let desc = format!("{title}; calls {done:?}");
                c.describe(|| desc.clone());
                let (want, steps) = by_steps(b, op, bps, cap)?;
                if steps >= cap && matches!(op, Op::Over | Op::Out | Op::Limit(_)) {
                    c.outcome("would not stop");
                    (a.dead, b.dead) = (true, true);
                    return Ok(());
                }
                let got = by_call(a, op, cap)?;
                c.trans(1 + steps as u64);
                same(a, b, &desc)?;
                let got = got.map_err(|e| err_name(&e));
                ensure!(got.clone().err() == want.clone().err(), "error", "{desc}: gives {got:?}, single steps give {want:?}");
                let flags = (a.sim.hit_halt(), a.sim.hit_breakpoint());
                if op != Op::StepIn {
                    let w = match &want {
                        Ok(Stop::Halt | Stop::McrOff) => Some((true, false)),
                        Ok(Stop::Break) => Some((false, true)),
                        Ok(Stop::Wire) => Some((false, false)),
                        Ok(Stop::Unsaid) => None,
                        Err(_) => Some((false, false)),
                    };
                    if let Some(w) = w {
                        ensure!(flags == w, "pause", "{desc}: (hit_halt, hit_breakpoint) = {flags:?}, stopped by {want:?}");
                    }
                }
                c.state(&(a.sim.pc, a.regs(), a.sim.psr().get(), a.sim.instructions_run, a.sim.frame_stack.len()));
                c.trace();
                match want {
                    Ok(w) => c.outcome(&format!("{w:?}")),
                    Err(e) => {
                        c.outcome(&e);
                        break;
                    }
                }
            }
            *a.hook.lock().unwrap() = None;
            *b.hook.lock().unwrap() = None;
            a.restore();
            b.restore();
            Ok(())
        })
    })
}
fn more_programs() -> Vec<(&'static str, Vec<u16>, Vec<u8>)> {
    let mut v = programs();
    v.push(("recursion", vec![0x56E0, 0x16E3, 0x4801, 0xF025, 0x1DBF, 0x7F80, 0x16FF, 0x0C01, 0x4FFB, 0x6F80, 0x1DA1, 0xC1C0], vec![]));
    v.push(("returns without calls", vec![0xEE02, 0xC1C0, 0xF025, 0x4801, 0xF025, 0xEFFE, 0xC1C0], vec![]));
    v.push(("calls in a row", vec![0x4803, 0x4802, 0x4801, 0xF025, 0x1021, 0xC1C0], vec![]));
    v.push(("waits for a key", vec![0xF020, 0xF021, 0x0FFD], vec![0x61, 0x62]));
    v.push(("MCR", vec![0x1021, 0xB004, 0x1021, 0x1021, 0xF025, 0x0000, MCR_PTR], vec![]));
    v
}
const MCR_PTR: u16 = 0xFFFE;
fn start(p: &(&'static str, Vec<u16>, Vec<u8>), real: bool, sup: bool) -> Start {
    let mut s = Start { real, kb: p.2.clone(), ssp: 0x2E00, ..Default::default() };
    s.reg = [1, 2, 0x4000, 0xFFFF, 5, 6, 0x5000, 0x3005];
    if p.0 == "MCR" {
        s.ignore = true;
        s.reg[0] = 0;
    }
    if sup {
        (s.psr, s.reg[6], s.ssp) = (2, 0x2E00, 0x5000);
    }
    s.mem = code(0x3000, &p.1).chain(code(0x1100, &[0x1DBF, 0x7180, 0x5020, 0x6180, 0x1DA1, 0x8000])).collect();
    s.mem.extend([(0x192, 0x1100), (0x4000, 0x4003), (0x4001, 0x4004), (0x4003, 0x1234)]);
    s.mem.extend([(0x2E00, 0x3004), (0x2E01, 0x8002)]);
    s
}
fn main() {
    let mut k = Check::new("C13");
    k.assume("the frame depth is read from the simulator (it is decided by C27); step_out at depth 0 does nothing; limits count executed instructions");
    let n = more_programs().len();
    let d = k.tier(3, 4);
    for (name, sup) in [("histories of calls, user", false), ("histories of calls, supervisor", true)] {
        k.family(name, &format!("every sequence of {d} calls over (step_in, step_over, step_out, run_with_limit 0/1/3/7, run_while for 2/9 steps, run) then run, on {n} programs, both trap modes, without and with a periodic interrupt (every 7 polls)"), 0, move |ch, c| {
            let ps = more_programs();
            let p = &ps[ch.choose(ps.len())];
            let real = ch.flag();
            let period = if ch.flag() { 7 } else { 0 };
            let ops = [Op::StepIn, Op::Over, Op::Out, Op::Limit(1), Op::Limit(3), Op::While(2), Op::Limit(7), Op::While(9), Op::Limit(0), Op::Run];
            let s = start(p, real, sup);
            let title = format!("{}, real {real}, supervisor {sup}, interrupt period {period}", p.0);
            history(&s, &[], period, None, d + 1, |i| if i < d { *ch.pick(&ops) } else { Op::Run }, 3000, c, &title)
        });
    }
    let d = k.tier(2, 3);
    k.family("breakpoints", &format!("every single breakpoint (PC at each program address and in the OS; every register and comparator with values 0, 1, x3002, xFFFF; memory at 4 addresses likewise) and pairs with a PC breakpoint, {d} calls of run, step_over, step_out or run_with_limit 6, on {n} programs"), 0, move |ch, c| {
        let ps = more_programs();
        let p = &ps[ch.choose(ps.len())];
        let real = ch.flag();
        let mut bps = vec![match ch.choose(3) {
            0 => Bp::Pc(*ch.pick(&[0x3000u16, 0x3001, 0x3002, 0x3003, 0x3004, 0x3005, 0x3006, 0x300E, 0x0200, 0x1100, 0x0245])),
            1 => Bp::Reg(*ch.pick(&[0usize, 1, 3, 6, 7]), ch.choose(8) as u8, *ch.pick(&[0u16, 1, 0x3002, 0xFFFF])),
            _ => Bp::Mem(*ch.pick(&[0x3006u16, 0x300B, 0x4002, 0x4FFF]), ch.choose(8) as u8, *ch.pick(&[0u16, 1, 0x4000])),
        }];
        if ch.flag() {
            bps.push(Bp::Pc(0x3002));
        }
        let s = start(p, real, false);
        let title = format!("{}, real {real}, breakpoints {bps:?}", p.0);
        history(&s, &bps, 0, None, d + 1, |i| if i == d { Op::Run } else if i == 0 { Op::Run } else { *ch.pick(&[Op::Run, Op::Over, Op::Out, Op::Limit(6)]) }, 3000, c, &title)
    });
    let m = k.tier(40, 120);
    k.family("limits", &format!("run_with_limit of every n up to {m} (also plus 2^16, 2^32, 2^63, and below 2^64), run_while for every number of steps up to {m}, then run, on {n} programs, both trap modes"), 0, move |ch, c| {
        let ps = more_programs();
        let p = &ps[ch.choose(ps.len())];
        let real = ch.flag();
        let x = ch.choose(m + 1);
        let op = *ch.pick(&[Op::Limit(x as u64), Op::While(x as u32), Op::Limit(u64::MAX - x as u64), Op::Limit((1 << 16) + x as u64), Op::Limit((1 << 32) + x as u64), Op::Limit((1 << 63) + x as u64)]);
        let period = if ch.flag() { 9 } else { 0 };
        let s = start(p, real, false);
        history(&s, &[], period, None, 3, |i| if i < 2 { op } else { Op::Run }, 3000, c, &format!("{}, real {real}, period {period}", p.0))
    });
    k.family("wrapping counter", "the instruction counter starts 0..12 below 2^64 (or at 2^63, 2^32): run_with_limit of 0..14 or of 2^64 - 1 - (0..3), then another call, then run, on all programs", 0, move |ch, c| {
        let ps = more_programs();
        let p = &ps[ch.choose(ps.len())];
        let at = match ch.choose(3) {
            0 => u64::MAX - ch.choose(13) as u64,
            1 => (1 << 63) - ch.choose(4) as u64,
            _ => (1 << 32) - ch.choose(4) as u64,
        };
        let op = match ch.choose(2) {
            0 => Op::Limit(ch.choose(15) as u64),
            _ => Op::Limit(u64::MAX - ch.choose(3) as u64),
        };
        let then = *ch.pick(&[Op::Limit(4), Op::Over, Op::While(3), Op::Out]);
        let mut s = start(p, ch.flag(), false);
        s.count = Some(at);
        history(&s, &[], 0, None, 3, |i| [op, then, Op::Run][i], 3000, c, &format!("{}, real {}, counter at {at}", p.0, s.real))
    });
    k.family("MCR cleared from outside", "the MCR handle is cleared at each of the first 60 polls (within a step) or by the tripwire (between steps), during run, step_over or run_with_limit; at most one more instruction runs, hit_halt holds, and resuming ends like the unbroken run", 0, |ch, c| {
        let ps = more_programs();
        let p = &ps[ch.choose(ps.len())];
        let real = ch.flag();
        let at = 1 + ch.choose(60) as u32;
        let inside = ch.flag();
        let call = ch.choose(3);
        let desc = format!("{}, real {real}, cleared {} {at}, call {call}", p.0, if inside { "during poll" } else { "before step" });
        c.describe(|| desc.clone());
        c.state(&desc);
        let s = start(p, real, false);
        with_rig(false, |a| {
            with_rig(false, |b| {
                a.start(&s)?;
                b.start(&s)?;
                let n = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
                let cleared_at = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
                let mcr = a.sim.mcr().clone();
                if inside {
                    let n = n.clone();
                    *a.hook.lock().unwrap() = Some(Box::new(move || {
                        if n.fetch_add(1, SeqCst) + 1 == at {
                            mcr.store(false, SeqCst);
                        }
                        None
                    }));
                } else {
                    let n = n.clone();
                    *a.hook.lock().unwrap() = Some(Box::new(move || {
                        n.fetch_add(1, SeqCst);
                        None
                    }));
                }
                let sim = &mut a.sim;
                let ca = cleared_at.clone();
                let x = mc::real("run", || {
                    let mut t = 0u32;
                    let mut wire = move |sim: &mut lc3_ensemble::sim::Simulator| {
                        t += 1;
                        if !inside && t == at {
                            sim.mcr().store(false, SeqCst);
                            ca.store(t, SeqCst);
                        }
                        t < 4000
                    };
                    match (inside, call) {
                        (true, 1) => sim.step_over(),
                        (true, 2) => sim.run_with_limit(1000),
                        _ => sim.run_while(&mut wire),
                    }
                })?;
                let polls = n.load(SeqCst);
                c.trans(polls as u64);
                c.trace();
                if polls >= at {
                    // the clearing took place: only the step in progress (or one more) may run
                    ensure!(polls <= at + 1, "mcr", "{desc}: {} more steps run after the MCR was cleared", polls - at);
                    if x.is_ok() {
                        ensure!(a.sim.hit_halt(), "mcr", "{desc}: stopped but hit_halt is false (polls {polls})");
                        c.outcome("stopped by the MCR");
                    } else {
                        c.outcome("the last step failed");
                    }
                } else {
                    c.outcome("stopped before");
                }
                *a.hook.lock().unwrap() = None;
                for _ in 0..polls {
                    let _ = b.real_step()?;
                }
                same(a, b, &desc)?;
                if x.is_ok() {
                    by_call(a, Op::Run, 3000)?.ok();
                    by_steps(b, Op::Run, &[], 3000)?.0.ok();
                    same(a, b, &format!("{desc}, resumed"))?;
                }
                a.restore();
                b.restore();
                Ok(())
            })
        })
    });
    let d = k.tier(3, 4);
    k.family("generated programs", &format!("every program of {d} instructions over 14 (calls, returns, traps, branches, faults) x 4 pairs of calls then run"), 0, move |ch, c| {
        let al = [0x1021u16, 0x4801, 0x4800, 0x4FFE, 0xC1C0, 0x4140, 0x0E01, 0x03FE, 0xF021, 0xF025, 0x1DBF, 0x7F80, 0x8000, 0x127F];
        let ws: Vec<u16> = (0..d).map(|_| *ch.pick(&al)).collect();
        let mut s = start(&("", ws.clone(), vec![]), false, false);
        s.mem.extend((0..6u16).map(|i| (0x3000 + d as u16 + i, [0xC1C0, 0xF025][(i % 2) as usize])));
        s.reg[5] = 0x3002;
        s.real = ch.flag();
        let pair = [[Op::Over, Op::Over], [Op::StepIn, Op::Out], [Op::Limit(2), Op::Over], [Op::While(3), Op::Out]][ch.choose(4)];
        let title = format!("{}, real {}", ws.iter().map(|&w| dis(w)).collect::<Vec<_>>().join("; "), s.real);
        history(&s, &[], 0, None, 3, |i| if i < 2 { pair[i] } else { Op::Run }, 400, c, &title)
    });
    k.run()
}
