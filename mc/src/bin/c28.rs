//! C28: the access observer records exactly the memory the program touched.
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::{MemAccessCtx, SimErr};
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
struct A {
    read: bool,
    written: bool,
    changed: bool,
}
#[derive(Default, Clone)]
struct Want(BTreeMap<u16, A>);
impl Want {
    fn add(&mut self, m: &M) {
        for &a in m.reads.iter().filter(|&&a| a < 0xFE00) {
            self.0.entry(a).or_default().read = true;
        }
        for &(a, ch) in m.writes.iter().filter(|w| w.0 < 0xFE00) {
            let e = self.0.entry(a).or_default();
            e.written = true;
            e.changed |= ch;
        }
    }
}
/// The observer against the model's sets; also takes them.
fn check(r: &mut Rig, want: &Want, at: &dyn Fn() -> String) -> Res {
    let o = &mut r.sim.observer;
    for (&a, w) in &want.0 {
        let g = real("get_mem_accesses", || o.get_mem_accesses(a))?;
        ensure!(g.read() == w.read, "read", "{}: x{a:04X} marked as read: {}, want {} ({w:?})", at(), g.read(), w.read);
        ensure!(g.written() == w.written, "written", "{}: x{a:04X} marked as written: {}, want {}", at(), g.written(), w.written);
        ensure!(g.modified() || !w.changed, "modified", "{}: x{a:04X} changed but is not marked as modified", at());
        ensure!(w.written || !g.modified(), "modified", "{}: x{a:04X} marked as modified but not written", at());
        ensure!(g.accessed(), "accessed", "{}: x{a:04X} marked {g:?}", at());
    }
    let list: Vec<_> = real("take_mem_accesses", || o.take_mem_accesses().collect::<Vec<_>>())?;
    ensure!(list.windows(2).all(|w| w[0].0 < w[1].0), "list", "{}: the list is not in address order", at());
    for &(a, g) in &list {
        if a < 0xFE00 && g.accessed() && !want.0.contains_key(&a) {
            return fail("extra", format!("{}: x{a:04X} marked {g:?}, but it was not touched", at()));
        }
    }
    for (&a, w) in &want.0 {
        let Some((_, g)) = list.iter().find(|l| l.0 == a) else { return fail("list", format!("{}: x{a:04X} missing from the list", at())) };
        ensure!(g.read() == w.read && g.written() == w.written && (g.modified() || !w.changed), "list", "{}: x{a:04X} is {g:?} in the list, want {w:?}", at());
    }
    Ok(())
}
fn step(r: &mut Rig, irqs: &[(u8, u8)], c: &mut Case, at: &dyn Fn() -> String) -> Res<Option<Ev>> {
    if !in_scope(&r.m, irqs) {
        c.outcome("out of scope");
        return Ok(None);
    }
    let e = r.scoped_step(irqs, c, |_, _| false)?;
    if let Some(e) = e {
        c.outcome(&match e {
            Ev::Int(_) => "interrupt".into(),
            e => format!("{e:?}"),
        });
        let mut w = Want::default();
        w.add(&r.m);
        // the harness looked at the saved stack pointer, untracked, since the step
        check(r, &w, at)?;
    }
    Ok(e)
}
/// The same as [`check`], but leaves the observer as it is: what it does with the sets of an earlier call (`seen`) shows.
fn look(r: &mut Rig, want: &Want, seen: &mut std::collections::BTreeSet<u16>, at: &dyn Fn() -> String) -> Res {
    seen.extend(want.0.keys());
    for &a in seen.iter() {
        let w = want.0.get(&a).copied().unwrap_or_default();
        let g = r.sim.observer.get_mem_accesses(a);
        ensure!(g.read() == w.read, "read", "{}: x{a:04X} marked as read: {}, want {}", at(), g.read(), w.read);
        ensure!(g.written() == w.written, "written", "{}: x{a:04X} marked as written: {}, want {}", at(), g.written(), w.written);
        ensure!(g.modified() || !w.changed, "modified", "{}: x{a:04X} changed but is not marked as modified", at());
        ensure!(w.written || !g.modified(), "modified", "{}: x{a:04X} marked as modified but not written", at());
    }
    Ok(())
}
/// One call that runs, compared with the sets of the model's steps. Gives whether the machine can go on.
fn round(r: &mut Rig, c: &mut Case, kind: usize, len: u64, seen: Option<&mut std::collections::BTreeSet<u16>>, desc: &dyn Fn() -> String) -> Res<bool> {
    if kind == 4 && r.sim.frame_stack.len() == 0 {
        return Ok(false);
    }
    let before = r.sim.instructions_run;
    let mut steps = 0u64;
    let sim = &mut r.sim;
    if kind == 5 {
        sim.breakpoints.insert(Breakpoint::Mem { addr: 0x4004, value: Comparator::Ne(0xFFFF) });
        sim.breakpoints.insert(Breakpoint::PC(0x3004));
    }
    let res = real("run", || match kind {
        0 => sim.run_with_limit(len),
        1 => sim.run_while(|sim| {
            steps += 1;
            if steps <= len {
                // the host looks around
                for a in [0x3000, 0x5555, 0x2FFF, 0x0025, 0xFDFF, KBSR, DSR] {
                    let w = sim.read_mem(a, MemAccessCtx::omnipotent()).unwrap();
                    if a < 0xFE00 {
                        sim.write_mem(a, w, MemAccessCtx { track_access: false, ..MemAccessCtx::omnipotent() }).unwrap();
                    }
                }
            }
            steps <= len
        }),
        3 => sim.step_over(),
        4 => sim.step_out(),
        5 => sim.run_with_limit(400),
        _ => sim.step_in(),
    })?;
    c.trans(1);
    let ran = r.sim.instructions_run.wrapping_sub(before);
    // the model takes the same number of steps (exceptions and a final error or halt do not count as instructions)
    if kind != 2 {
        r.m.mcr = true;
    }
    let mut want = Want::default();
    let mut n = 0;
    let mut guard = 0;
    loop {
        let halted = !r.m.mcr;
        let same = n == ran && r.m.pc == r.sim.pc && res.is_ok() && !(r.sim.hit_halt() && !halted);
        if kind != 2 && (same && (guard > 0 || ran == 0) || halted) || kind == 2 && guard > 0 {
            break;
        }
        guard += 1;
        if guard > 2000 || n > ran {
            // the run did something else than the model: not this property's matter
            r.dead = true;
            c.outcome("left the comparison");
            return Ok(false);
        }
        let ev = r.m.step(&[]);
        want.add(&r.m);
        match ev {
            Ev::Instr => n += 1,
            Ev::Err(_) => {
                if res.is_ok() {
                    r.dead = true;
                    return Ok(false);
                }
                break;
            }
            Ev::Halt => break,
            _ => {}
        }
    }
    let d2 = || format!("{}, {ran} instructions", desc());
    match seen {
        None => check(r, &want, &d2)?,
        Some(seen) => look(r, &want, seen, &d2)?,
    }
    c.outcome(if res.is_ok() { "run" } else { "run with error" });
    if res.is_err() || r.sim.hit_halt() || !r.m.mcr && kind != 2 {
        return Ok(false);
    }
    r.sim.mcr().store(true, SeqCst);
    r.m.mcr = true;
    Ok(true)
}
fn done(r: &mut Rig) -> Res {
    if r.dead {
        return Ok(());
    }
    r.end()
}
fn program(p: usize, real_traps: bool, sup: bool) -> (String, Start) {
    let ps = programs();
    let p = &ps[p];
    let mut s = Start { real: real_traps, kb: p.2.clone(), ssp: 0x2E00, ..Default::default() };
    s.reg = [1, 2, 0x4000, 0xFFFF, 5, 6, 0x5000, 0x3333];
    if sup {
        (s.psr, s.reg[6], s.ssp) = (2, 0x2E00, 0x5000);
    }
    s.mem = code(0x3000, &p.1).chain(code(0x1100, &[0x1DBF, 0x7180, 0x5020, 0x6180, 0x1DA1, 0x8000])).collect();
    s.mem.extend([(0x190, 0x1100), (0x4000, 0x4003), (0x4001, 0x4004), (0x4003, 0x1234)]);
    (format!("{}, real {real_traps}, supervisor {sup}", p.0), s)
}
fn main() {
    let mut k = Check::new("C28");
    k.assume("addresses in the I/O page are not compared; a written word whose value stayed the same may or may not be marked as modified");
    let cs = configs();
    let n = cs.len();
    k.family("words", &format!("all 65536 words in {n} machine configurations, with and without an interrupt before them, and the step after it"), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let cf = &cs[ch.choose(n)];
        let mut s = cf.s.clone();
        if !plant(&mut s, w) {
            return Ok(());
        }
        let strict = ch.flag();
        s.strict = strict;
        let desc = || format!("{} (x{w:04X}), {}, strict {strict}", dis(w), cf.name);
        c.describe_lazy(desc);
        c.state(&(w, cf.name, strict));
        with_rig(false, |r| {
            r.start(&s)?;
            if step(r, &[], c, &desc)?.is_some() {
                step(r, &[], c, &desc)?;
            }
            c.trace();
            done(r)
        })
    });
    for (name, d, dv) in [("sequences", 4, k.tier(0, 2)), ("sequences with interrupts", k.tier(3, 4), k.tier(2, 1))] {
    k.family(name, &format!("every sequence of {d} instructions (the alphabet of the C08 sequences) from 4 start states, with up to {dv} interrupt(s), the sets compared after each step"), dv, move |ch, c| {
        let al = alphabet();
        let base = ch.choose(4);
        let s = seq_start(base);
        let mut t: Vec<String> = vec![];
        with_rig(false, |r| {
            r.start(&s)?;
            for _ in 0..d {
                let i = ch.choose(al.len());
                let pc = r.m.pc;
                if pc < 0xFE00 && i > 0 {
                    r.poke(pc, al[i]);
                }
                let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)], &[(0x91, 7)]][ch.dev(3)];
                t.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irqs.is_empty() { String::new() } else { format!("+{irqs:02X?}") }));
                let desc = || format!("start {base}: {}", t.join("; "));
                c.describe_lazy(desc);
                let Some(e) = step(r, irqs, c, &desc)? else { break };
                c.state(&(r.m.pc, r.m.psr, r.m.reg));
                if matches!(e, Ev::Err(_) | Ev::Halt) {
                    break;
                }
            }
            c.trace();
            done(r)
        })
    });
    }
    k.family("stack pointers", "interrupt, trap, exception entry and RTI at every stack pointer that is a multiple of 7 or within 4 of a region border, from both modes, pushing values that are already there or not", 0, |ch, c| {
        let sp = {
            let near: Vec<u16> = [1u16, 4, 0x1FE, 0x2FFE, 0x3000, 0x3002, 0x8000, 0xFDF4, 0xFDFE, 0xFE41, 0xFFFC].iter().flat_map(|&b| (0..5u16).map(move |i| b.wrapping_add(i).wrapping_sub(1))).collect();
            let i = ch.choose(near.len() + 9363);
            if i < near.len() { near[i] } else { 7 * (i - near.len()) as u16 }
        };
        let how = ch.choose(4);
        let user = ch.flag();
        let same = ch.flag();
        if sp > 0xFE00 && same || (sp < 0x204 || sp > 0x2FF8 && sp < 0x3008) && same {
            return Ok(());
        }
        let mut s = Start { psr: (user as u16) << 15 | 2, real: true, ssp: sp, ..Default::default() };
        s.reg[6] = if user { 0x4000 } else { sp };
        s.pc = 0x3004;
        s.mem = vec![(0x3004, [0x1021, 0xF030, 0xD000, 0x8000][how])];
        s.ignore = how == 3 && user;
        let top = if s.ignore { 0x4000 } else { sp };
        if how == 3 {
            s.mem.extend([(top, 0x3010), (top.wrapping_add(1), 0x8001)]);
        } else if same {
            let pc = if how == 0 { 0x3004 } else { 0x3005 };
            s.mem.extend([(sp - 2, if how == 2 { 0x3004 } else { pc }), (sp - 1, s.psr)]);
        }
        let irqs: &[(u8, u8)] = if how == 0 { &[(0x90, 4)] } else { &[] };
        let desc = || format!("{} at SP x{sp:04X}, user {user}, same values {same}", ["interrupt", "trap", "exception", "RTI"][how]);
        c.describe_lazy(desc);
        c.state(&(sp, how, user, same));
        with_rig(false, |r| {
            r.start(&s)?;
            step(r, irqs, c, &desc)?;
            c.trace();
            done(r)
        })
    });
    k.family("strict rejections", "stores of uninitialized values (ST, STI, STR through R0 and R6) in strict mode, to user memory, to devices, to reserved memory: a rejected store is not a write", 0, |ch, c| {
        let op = ch.choose(4);
        let to = *ch.pick(&[0x4000u16, 0x3050, 0xFE20, 0xFE30, 0x2FFF]);
        let un = ch.flag();
        let sup = ch.flag();
        let mut s = Start { strict: true, psr: 2 | (!sup as u16) << 15, ..Default::default() };
        s.reg = [to; 8];
        s.reg[1] = 0x1234;
        s.uninit_regs = if un { 2 } else { 0 };
        s.reg[6] = if op == 3 { to } else { 0x2E00 };
        s.mem = vec![(0x3000, [0x324F, 0xB204, 0x7200, 0x7380][op]), (0x3005, to)];
        let to = if op == 0 { 0x3050 } else { to };
        let desc = || format!("{} to x{to:04X}, uninitialized {un}, supervisor {sup}", dis(s.mem[0].1));
        c.describe_lazy(desc);
        c.state(&(op, to, un, sup));
        with_rig(false, |r| {
            r.start(&s)?;
            let before = r.sim.mem[to];
            let e = r.real_step()?;
            c.trans(1);
            let g = r.sim.observer.get_mem_accesses(to);
            match e {
                Err(SimErr::StrictMemSetUninit | SimErr::StrictIOSetUninit) => {
                    c.outcome("rejected");
                    ensure!(!g.written() && !g.modified(), "rejected", "{}: the store was rejected, but x{to:04X} is marked {g:?}", desc());
                    ensure!(r.sim.mem[to] == before || to >= 0xFE00, "rejected", "{}: the store was rejected, but changed memory", desc());
                }
                Ok(()) if to < 0xFE00 => {
                    c.outcome("stored");
                    ensure!(g.written() && g.modified(), "written", "{}: stored, but x{to:04X} is marked {g:?}", desc());
                }
                e => c.outcome(&format!("{e:?}")),
            }
            c.trace();
            r.touched.push(to);
            r.restore_touched();
            Ok(())
        })
    });
    let lim = k.tier(60, 200);
    k.family("runs", &format!("11 programs x modes: run_with_limit of every length up to {lim}, run_while with a tripwire that looks at and writes memory untracked, step_over, step_out and run to a breakpoint, each twice in a row: the sets of a run are those of its own steps"), 0, move |ch, c| {
        let (name, s) = program(ch.choose(11), ch.flag(), ch.flag());
        let kind = ch.choose(6);
        let len = if kind <= 1 { 1 + ch.choose(lim) as u64 } else { 1 + ch.choose(12) as u64 };
        let pre = if kind <= 1 { ch.choose(3) * 4 } else { ch.choose(8) };
        let desc = || format!("{name}: {pre} steps, then kind {kind} length {len}, twice");
        c.describe_lazy(desc);
        c.state(&(&name, kind, len, pre));
        with_rig(false, |r| {
            r.start(&s)?;
            for _ in 0..pre {
                match step(r, &[], c, &desc)? {
                    None | Some(Ev::Halt | Ev::Err(_)) => return done(r),
                    _ => {}
                }
            }
            for i in 0..2 {
                if !round(r, c, kind, len, None, &|| format!("{} (round {i})", desc()))? {
                    break;
                }
            }
            if r.dead {
                return Ok(());
            }
            c.trace();
            done(r)
        })
    });
    let d = k.tier(3, 4);
    k.family("calls in a row", &format!("11 programs x modes: every sequence of {d} calls over (run_with_limit 3, run_while for 2 steps, step_in, step_over, step_out, run to a breakpoint) without taking the sets in between: after each, no address touched only by an earlier call is marked"), 0, move |ch, c| {
        let (name, s) = program(ch.choose(11), ch.flag(), ch.flag());
        let pre = ch.choose(2) * 3;
        let mut calls = vec![];
        with_rig(false, |r| {
            r.start(&s)?;
            for _ in 0..pre {
                match step(r, &[], c, &|| name.clone())? {
                    None | Some(Ev::Halt | Ev::Err(_)) => return done(r),
                    _ => {}
                }
            }
            let mut seen = Default::default();
            for _ in 0..d {
                let kind = ch.choose(6);
                calls.push(["limit 3", "while 2", "step_in", "step_over", "step_out", "to a breakpoint"][kind]);
                let desc = || format!("{name}: {pre} steps, then {}", calls.join(", "));
                c.describe_lazy(desc);
                c.state(&(&name, pre, &calls));
                if kind == 4 && r.sim.frame_stack.is_empty() {
                    continue;
                }
                if !round(r, c, kind, 3 - (kind == 1) as u64, Some(&mut seen), &desc)? {
                    break;
                }
            }
            if r.dead {
                return Ok(());
            }
            c.trace();
            r.sim.observer.clear();
            done(r)
        })
    });
    k.family("host accesses", "host reads and writes of every 16-bit address through untracked contexts (all combinations of the other context fields), after a step: the sets stay as they were", 0, |ch, c| {
        let base = ch.choose(1024) as u16 * 64;
        let f = ch.choose(8);
        let ctx = MemAccessCtx { privileged: f & 1 != 0, strict: f & 2 != 0, io_effects: f & 4 != 0, track_access: false };
        let desc = || format!("host accesses at x{base:04X}.. with {ctx:?}");
        c.describe_lazy(desc);
        c.state(&(base, f));
        with_rig(false, |r| {
            r.start(&Start { mem: vec![(0x3000, 0x30FF), (0x3001, 0x20FE)], ..Default::default() })?;
            r.real_step()?;
            let m = r.m.step(&[]);
            ensure!(m == Ev::Instr, "setup", "model: {m:?}");
            let mut want = Want::default();
            want.add(&r.m);
            for a in base..=base + 63 {
                let sim = &mut r.sim;
                let _ = real("read_mem", || sim.read_mem(a, ctx))?;
                if a < 0xFE00 {
                    let w = sim.mem[a];
                    let _ = real("write_mem", || sim.write_mem(a, Word::new_init(!w.get()), ctx))?;
                    let _ = real("write_mem", || sim.write_mem(a, Word::new_init(w.get()), ctx))?;
                    sim.mem[a] = w;
                } else if ![PSR, MCR].contains(&a) {
                    let _ = real("write_mem", || sim.write_mem(a, Word::new_init(0), ctx))?;
                }
                let _ = real("prefetch_pc", || sim.prefetch_pc())?;
                c.trans(2);
            }
            check(r, &want, &desc)?;
            c.trace();
            // device registers were written
            r.dead = base >= 0xFE00;
            done(r)
        })
    });
    k.run()
}
