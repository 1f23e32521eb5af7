//! C27: the frame stack tracks calls and returns.
use lc3_ensemble::sim::frame::{FrameType, ParameterList};
use mc::isa::*;
use mc::rig::*;
use mc::simfam::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;

/// Addresses that get a definition in every case (an empty one unless the case says otherwise).
const DEFS: [u16; 5] = [0x3101, 0x3005, 0x1100, 0x4000, 0x0005];
fn define(r: &mut Rig, at: u16, s: &Sig) -> Res {
    let names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"];
    let p = match s {
        Sig::Regs(v) => ParameterList::with_pass_by_register(&v.iter().map(|&i| (names[i], REGS[i])).collect::<Vec<_>>(), Some(REGS[0])),
        Sig::Stack(n) => ParameterList::with_calling_convention(&names[..*n]),
    };
    let fs = &mut r.sim.frame_stack;
    let q = real("set_subroutine_def", || {
        fs.set_subroutine_def(at, p.clone());
        fs.get_subroutine_def(at).cloned()
    })?;
    ensure!(q == Some(p.clone()), "definition", "the definition of x{at:04X} is {q:?} after setting it to {p:?}");
    r.m.subs.insert(at, s.clone());
    Ok(())
}
fn begin(r: &mut Rig, s: &Start, defs: &[(u16, Sig)]) -> Res {
    r.m.subs.clear();
    r.start(s)?;
    for a in DEFS {
        let d = defs.iter().find(|d| d.0 == a).map_or(Sig::Regs(vec![]), |d| d.1.clone());
        define(r, a, &d)?;
    }
    Ok(())
}
/// The property itself.
fn check(r: &Rig, at: &dyn Fn() -> String) -> Res {
    let (f, m) = (&r.sim.frame_stack, &r.m.frames);
    let (n, empty) = real("frame_stack.len", || (f.len(), f.is_empty()))?;
    ensure!(n == m.len() as u64, "depth", "{}: depth {n}, want {}", at(), m.len());
    ensure!(empty == (n == 0), "depth", "{}: is_empty is {empty} at depth {n}", at());
    if !r.debug_frames {
        return Ok(());
    }
    let Some(list) = f.frames() else { return fail("list", format!("{}: no frame list although debug frames are on", at())) };
    ensure!(list.len() == m.len(), "list", "{}: {} frames in the list, want {}", at(), list.len(), m.len());
    for (i, (g, w)) in list.iter().zip(m).enumerate() {
        ensure!(g.caller_addr == w.caller, "caller", "{}: frame {i} called from x{:04X}, want x{:04X} ({w:X?})", at(), g.caller_addr, w.caller);
        ensure!(g.callee_addr == w.callee, "callee", "{}: frame {i} callee x{:04X}, want x{:04X}", at(), g.callee_addr, w.callee);
        let k = match w.kind {
            FKind::Sub => Some(FrameType::Subroutine),
            FKind::Trap => Some(FrameType::Trap),
            FKind::Int => Some(FrameType::Interrupt),
            FKind::Exc => None,
        };
        ensure!(k.is_none_or(|k| k == g.frame_type), "kind", "{}: frame {i} is a {:?}, want {k:?}", at(), g.frame_type);
        let args: Vec<u16> = g.arguments.iter().map(|a| a.get()).collect();
        ensure!(args == w.args, "arguments", "{}: frame {i} has arguments {args:04X?}, want {:04X?}", at(), w.args);
    }
    Ok(())
}
fn step(r: &mut Rig, irqs: &[(u8, u8)], c: &mut Case, at: &dyn Fn() -> String) -> Res<Option<Ev>> {
    if !in_scope(&r.m, irqs) {
        c.outcome("out of scope");
        return Ok(None);
    }
    let e = r.scoped_step(irqs, c, |_, _| false)?;
    if let Some(e) = e {
        c.outcome(&match e {
            Ev::Int(_) => "interrupt".into(),
            e => format!("{e:?}"),
        });
        check(r, at)?;
    }
    Ok(e)
}
fn main() {
    let mut k = Check::new("C27");
    k.assume("the kind of a frame made by an exception (real traps) and the frame pointer are not compared: the property does not fix them; register signatures never name R7, whose value at the call is the link being made");
    let cs = configs();
    let n = cs.len();
    k.family("words", &format!("all 65536 words in {n} machine configurations, debug frames on and off, from depths 0 and 2, and the step after it"), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let cf = &cs[ch.choose(n)];
        let debug = ch.flag();
        let deep = ch.flag();
        let mut s = cf.s.clone();
        if !plant(&mut s, w) {
            return Ok(());
        }
        let desc = || format!("{} (x{w:04X}), {}, debug {debug}, deep {deep}", dis(w), cf.name);
        c.describe_lazy(desc);
        c.state(&(w, cf.name, debug, deep));
        with_rig(debug, |r| {
            if deep {
                begin(r, &Start { ignore: true, ..Default::default() }, &[])?;
                for _ in 0..2 {
                    let pc = r.m.pc;
                    r.poke(pc, 0x4800);
                    if step(r, &[], c, &desc)?.is_none() {
 r.dead = true;
                    return Ok(());
                    }
                }
                // go on from there in the configuration, keeping the frames
                r.keep_frames = true;
                r.start(&s)?;
                r.keep_frames = false;
            } else {
                begin(r, &s, &[])?;
            }
            if step(r, &[], c, &desc)?.is_some() {
                step(r, &[], c, &desc)?;
            }
            c.trace();
            r.end()
        })
    });
    let d = k.tier(4, 5);
    k.family("sequences", &format!("every sequence of {d} steps over an alphabet of calls and returns (JSR, JSRR, TRAP to OS and program handlers, RTI, RET, JMP, pushes), debug frames on and off, user and supervisor, real and virtual traps, with up to 2 interrupts between the instructions"), 2, move |ch, c| {
        let al: [u16; 16] = [0, 0x4801, 0x4080, 0x4140, 0x41C0, 0xC1C0, 0xC140, 0x8000, 0xF030, 0xF021, 0xF0FF, 0x1021, 0x7180, 0x1DBF, 0xD000, 0xF025];
        let debug = ch.flag();
        let base = ch.choose(4);
        let mut s = Start { psr: [0x8002, 0x0002][base & 1], real: base & 2 != 0, ssp: 0x2F00, reg: [0x1111, 0x2222, 0x3101, 0x4444, 0x5555, 0x4000, [0x5000, 0x2E00][base & 1], 0x3005], ..Default::default() };
        s.mem = vec![(0x30, 0x1100), (0xFF, 0x1200), (0x190, 0x1100), (0x191, 0x3010), (0x2E00, 0x3001), (0x2E01, 0x0002), (0x2F00, 0x3002), (0x2F01, 0x8002)];
        let defs = [(0x3101, Sig::Stack(3)), (0x4000, Sig::Regs(vec![0, 3])), (0x3005, Sig::Regs(vec![4])), (0x1100, Sig::Stack(2))];
        let mut t: Vec<String> = vec![];
        with_rig(debug, |r| {
            begin(r, &s, &defs)?;
            for _ in 0..d {
                let i = ch.choose(al.len());
                let pc = r.m.pc;
                if pc < 0xFE00 && i > 0 {
                    r.poke(pc, al[i]);
                }
                let irqs: &[(u8, u8)] = [&[][..], &[(0x90, 4)], &[(0x91, 7)]][ch.dev(3)];
                t.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irqs.is_empty() { String::new() } else { format!("+{irqs:02X?}") }));
                let desc = || format!("base {base}, debug {debug}: {}", t.join("; "));
                c.describe_lazy(desc);
                let Some(e) = step(r, irqs, c, &desc)? else { break };
                c.state(&(r.m.pc, r.m.psr, r.m.reg, r.m.frames.len(), debug));
                if matches!(e, Ev::Err(_) | Ev::Halt) {
                    break;
                }
            }
            c.trace();
            if r.dead {
                return Ok(());
            }
            r.end()
        })
    });
    k.family("signatures", "calls by JSR and JSRR of 5 routines x every list of up to 3 registers out of R0-R6 and every stack signature of 0 to 10 words x 10 stack pointers (wrapping around memory) x redefinition between two calls", 0, |ch, c| {
        let (stack, list) = (ch.flag(), ());
        let _ = list;
        let sig = if stack {
            Sig::Stack(ch.choose(11))
        } else {
            let n = ch.choose(4);
            Sig::Regs((0..n).map(|_| ch.choose(7)).collect())
        };
        let to = if stack { DEFS[ch.choose(5)] } else { DEFS[0] };
        let sp = if stack { *ch.pick(&[0x2E00u16, 0, 1, 2, 3, 4, 0xFFFF, 0xFDFF, 0xFDF0, 0x5000]) } else { 0x2E00 };
        let jsr = ch.flag();
        let redef = ch.flag();
        // arguments in the I/O page are not memory the program could have passed
        if let Sig::Stack(n) = sig {
            if (0..n as u16).any(|i| sp.wrapping_add(i) >= 0xFE00) {
                return Ok(());
            }
        }
        let at = if jsr { to.wrapping_sub(1).wrapping_sub(0x44) } else { 0x3000 };
        let mut s = Start { psr: 2, pc: at, reg: [0x100, 0x101, to, 0x103, 0x104, to, sp, 0x107], ..Default::default() };
        s.mem = vec![(at, if jsr { 0x4844 } else { 0x4080 }), (to, if jsr { 0xC1C0 } else { 0x4140 })];
        let desc = || format!("{sig:?} at x{to:04X} called by {}, SP x{sp:04X}, redefined {redef}", if jsr { "JSR" } else { "JSRR" });
        c.describe_lazy(desc);
        c.state(&(format!("{sig:?}"), to, sp, jsr, redef));
        with_rig(true, |r| {
            begin(r, &s, &[(to, sig.clone())])?;
            for i in 0..3 {
                if step(r, &[], c, &desc)?.is_none() {
 r.dead = true;
                    return Ok(());
                }
                if redef {
                    // frames made before keep what they had
                    define(r, to, &[Sig::Regs(vec![0]), Sig::Stack(1), Sig::Regs(vec![])][i])?;
                    check(r, &desc)?;
                }
                if jsr && i == 1 {
                    r.m.pc = at;
                    r.sim.pc = at;
                }
            }
            c.trace();
            r.end()
        })
    });
    k.family("traps", "all 256 trap vectors (with R0 from a list of values) and all 256 interrupt vectors x priorities 1 and 7, from user and supervisor mode, real and virtual traps, debug frames on and off, entered and returned from by RTI", 0, |ch, c| {
        let v = ch.choose(512);
        let debug = ch.flag();
        let (user, real_traps) = (ch.flag(), ch.flag());
        let r0 = *ch.pick(&[0u16, 0x3000, 0xFFFF]);
        let prio = if v >= 256 { [1, 7][ch.choose(2)] } else { 0 };
        let mut s = Start { psr: (user as u16) << 15 | 2, real: real_traps, ssp: 0x2E00, ..Default::default() };
        s.reg = [r0, 1, 2, 3, 4, 5, 0x2D00, 0x107];
        s.mem = vec![(0x3000, 0xF000 | v as u16 & 0xFF), (0x1F00, 0x8000)];
        let own = v >= 256 || ch.flag();
        if own {
            s.mem.push((v as u16, 0x1F00));
        }
        let desc = || format!("vector x{v:03X}, user {user}, real {real_traps}, own handler {own}, R0 x{r0:04X}, debug {debug}");
        c.describe_lazy(desc);
        c.state(&(v, debug, user, real_traps, r0, prio, own));
        with_rig(debug, |r| {
            begin(r, &s, &[])?;
            // the signatures built in for the traps of the OS: each is there and names R0 where it takes an argument
            if let Some(takes) = [false, true, true, false, true, false].get(v.wrapping_sub(0x20)) {
                let def = real("get_trap_def", || r.sim.frame_stack.get_trap_def(v as u8).cloned())?;
                let regs: Option<Vec<_>> = def.as_ref().map(|d| match d {
                    ParameterList::PassByRegister { params, .. } => params.iter().map(|p| Some(p.1)).collect(),
                    ParameterList::CallingConvention { params } => params.iter().map(|_| None).collect(),
                });
                let want = if *takes { vec![Some(REGS[0])] } else { vec![] };
                ensure!(regs.as_ref() == Some(&want), "trap signature", "the signature of trap x{v:02X} is {def:?}, want arguments in {want:?}");
            }
            let irq = [(v as u8, prio)];
            let mut irqs: &[(u8, u8)] = if v >= 256 { &irq } else { &[] };
            for _ in 0..3 {
                let Some(e) = step(r, irqs, c, &desc)? else { break };
                irqs = &[];
                if matches!(e, Ev::Halt | Ev::Err(_)) {
                    break;
                }
            }
            c.trace();
            if r.dead {
                return Ok(());
            }
            r.end()
        })
    });
    let depths = k.tier(64, 400);
    k.family("depth", &format!("recursion to every depth up to {depths} (each level a JSR or a TRAP chosen by a bit pattern), unwound by as many or up to 3 more or fewer returns, then called again; debug frames on and off"), 0, move |ch, c| {
        let n = 1 + ch.choose(depths);
        let pat = ch.choose(6);
        let extra = ch.choose(7) as i32 - 3;
        let debug = ch.flag();
        let s = Start { psr: 2, reg: [0, 0, 0, 0, 0, 0, 0x2E00, 0], mem: vec![(0x30, 0x1F00)], ..Default::default() };
        let desc = || format!("{n} calls of pattern {pat}, {extra} more returns than calls, debug {debug}");
        c.describe_lazy(desc);
        c.state(&(n, pat, extra, debug));
        with_rig(debug, |r| {
            begin(r, &s, &[(0x3101, Sig::Stack(2))])?;
            let mut place = |r: &mut Rig, w: u16, c: &mut Case| -> Res<bool> {
                let pc = 0x3100;
                (r.m.pc, r.sim.pc) = (pc, pc);
                r.poke(pc, w);
                r.set_reg(6, 0x2E00);
                r.poke(0x2E00, 0x3200);
                r.poke(0x2E01, 0x0002);
                Ok(step(r, &[], c, &desc)?.is_some())
            };
            let is_trap = |i: usize| match pat {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                3 => i % 3 == 0,
                4 => i < n / 2,
                _ => i >= n / 2,
            };
            for i in 0..n {
                if !place(r, if is_trap(i) { 0xF030 } else { 0x4800 }, c)? {
 r.dead = true;
                    return Ok(());
                }
            }
            for i in 0..(n as i32 + extra).max(0) as usize {
                if !place(r, if pat == 5 || is_trap(i) { 0x8000 } else { 0xC1C0 }, c)? {
 r.dead = true;
                    return Ok(());
                }
            }
            for w in [0x4800, 0xC1C0, 0xC1C0, 0xF030, 0x4800] {
                if !place(r, w, c)? {
 r.dead = true;
                    return Ok(());
                }
            }
            c.trace();
            r.end()
        })
    });
    let most = k.tier(1, 2);
    let steps = k.tier(300, 1500);
    k.family("programs", &format!("11 programs and a recursive one, user and supervisor, both trap modes, debug frames on and off, up to {steps} steps, with up to {most} interrupts at any of the first 60 steps"), most, move |ch, c| {
        let mut ps = programs();
        ps.push(("recursion", vec![0x5020, 0x1025, 0x4801, 0xF025, 0x103F, 0x0C05, 0x1DBF, 0x7F80, 0x4FFB, 0x6F80, 0x1DA1, 0xC1C0], vec![]));
        let p = &ps[ch.choose(ps.len())];
        let (real_traps, sup, debug) = (ch.flag(), ch.flag(), ch.flag());
        let mut s = Start { real: real_traps, kb: p.2.clone(), ssp: 0x2E00, ..Default::default() };
        s.reg = [1, 2, 0x4000, 0xFFFF, 5, 6, 0x5000, 0x3333];
        if sup {
            (s.psr, s.reg[6], s.ssp) = (2, 0x2E00, 0x5000);
        }
        s.mem = code(0x3000, &p.1).chain(code(0x1100, &[0x1DBF, 0x7180, 0x5020, 0x6180, 0x1DA1, 0x8000])).collect();
        s.mem.extend([(0x190, 0x1100), (0x4000, 0x4003), (0x4001, 0x4004), (0x4003, 0x1234)]);
        let mut at = vec![];
        with_rig(debug, |r| {
            begin(r, &s, &[(0x3005, Sig::Stack(1))])?;
            for i in 0..steps {
                let irqs: &[(u8, u8)] = if i < 60 { [&[][..], &[(0x90, 4)]][ch.dev(2)] } else { &[] };
                if !irqs.is_empty() {
                    at.push(i);
                }
                let desc = || format!("{}, real {real_traps}, supervisor {sup}, debug {debug}, interrupts at {at:?}, step {i}", p.0);
                c.describe_lazy(desc);
                match step(r, irqs, c, &desc)? {
                    None | Some(Ev::Halt | Ev::Err(_)) => break,
                    _ => {}
                }
                if !r.sim.mcr().load(SeqCst) {
                    break;
                }
            }
            c.state(&(p.0, real_traps, sup, debug, &at));
            c.trace();
            if r.dead {
                return Ok(());
            }
            r.end()
        })
    });
    k.run()
}
