//! C30: reset restores a fresh machine and keeps the configuration.
use lc3_ensemble::asm::{assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimFlags, Simulator};
use lc3_ensemble::ast::Reg;
use mc::isa::*;
use mc::rig::REGS;
use mc::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, RwLock};

struct Tag(u16);
impl ExternalDevice for Tag {
    fn io_read(&mut self, addr: u16, _: bool) -> Option<u16> {
        Some(0x5000 | self.0 << 4 | (addr & 15))
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
/// What has to be kept.
#[derive(Default)]
struct Conf {
    bps: Vec<u8>,
    ireg: BTreeMap<u16, InternalRegister>,
    /// port -> tag
    devs: BTreeMap<u16, u16>,
    ids: Vec<(u16, u16)>,
    kb_tag: Option<u16>,
    ds_tag: Option<u16>,
}
fn bp(i: u8) -> Breakpoint {
    match i {
        0 => Breakpoint::PC(0x3002),
        1 => Breakpoint::Reg { reg: Reg::R0, value: Comparator::Eq(2) },
        2 => Breakpoint::Mem { addr: 0x4000, value: Comparator::Gt(5) },
        3 => Breakpoint::PC(0x0200),
        _ => Breakpoint::Reg { reg: Reg::R6, value: Comparator::Always },
    }
}
type Op = (&'static str, fn(&mut Rg) -> Res);
struct Rg {
    sim: Simulator,
    conf: Conf,
    kb: Arc<RwLock<VecDeque<u8>>>,
    ds: Arc<RwLock<Vec<u8>>>,
    n: u16,
}
fn objs() -> &'static [ObjectFile] {
    static O: std::sync::OnceLock<Vec<ObjectFile>> = std::sync::OnceLock::new();
    O.get_or_init(|| {
        [
            // everything a little: calls, stores to the stack, output, then HALT
            ".orig x3000\n LD R6,SP\n JSR A\n LEA R0,S\n PUTS\n ST R0,D\n HALT\nA ADD R6,R6,#-1\n STR R7,R6,#0\n JSR B\n LDR R7,R6,#0\n ADD R6,R6,#1\n RET\nB ADD R5,R5,#3\n RET\nSP .fill xFD00\nS .stringz \"hi\"\nD .blkw 2\n.end",
            // endless recursion
            ".orig x3000\nF JSR F\n.end",
            // an error inside a subroutine
            ".orig x3000\n JSR A\nA .fill xD000\n.end",
            // privileged access, after some stores
            ".orig x3000\n STI R7,P\n STI R6,Q\n LDI R0,P2\n HALT\nP .fill x4000\nQ .fill x5000\nP2 .fill x0000\n.end",
            // waits for a key, in an endless loop, in several blocks
            ".orig x3000\nL GETC\n OUT\n BR L\n.end\n.orig x0180\n.fill x0400\n.end\n.orig x0400\nADD R1,R1,#1\nRTI\n.end\n.orig xFD00\n.fill 1\n.blkw 4\n.end",
        ]
        .iter()
        .map(|s| assemble_debug(parse_ast(s).unwrap(), s).unwrap())
        .collect()
    })
}
fn load(r: &mut Rg, i: usize) -> Res {
    let o = &objs()[i];
    let _ = real("load_obj_file", || r.sim.load_obj_file(o))?;
    Ok(())
}
fn lim(r: &mut Rg, n: u64) -> Res {
    let mut i = 0;
    let _ = real("run_while", || {
        r.sim.run_while(|_| {
            i += 1;
            i <= n
        })
    })?;
    Ok(())
}
fn omni() -> MemAccessCtx {
    MemAccessCtx::omnipotent()
}
/// Writes an internal register through a mapping of its own.
fn set_ireg(r: &mut Rg, i: InternalRegister, v: u16) -> Res {
    let t = 0xFE7E;
    real("set register", || {
        let _ = r.sim.mmap_internal(t, i);
        let _ = r.sim.write_mem(t, Word::new_init(v), omni());
        r.sim.munmap_internal(t);
    })
}
fn ops() -> Vec<Op> {
    vec![
        ("load and run to HALT", |r| {
            load(r, 0)?;
            r.sim.pc = 0x3000;
            lim(r, 400)
        }),
        ("load, run with limit 9", |r| {
            load(r, 0)?;
            let _ = real("run_with_limit", || r.sim.run_with_limit(9))?;
            Ok(())
        }),
        ("recursion", |r| {
            load(r, 1)?;
            r.sim.pc = 0x3000;
            lim(r, 30)
        }),
        ("error in a subroutine", |r| {
            load(r, 2)?;
            r.sim.pc = 0x3000;
            lim(r, 200)
        }),
        ("access violation", |r| {
            load(r, 3)?;
            r.sim.pc = 0x3000;
            lim(r, 200)
        }),
        ("load the loop with a handler, give keys, 80 steps", |r| {
            load(r, 4)?;
            r.sim.pc = 0x3000;
            r.kb.write().unwrap().extend(b"xyz");
            lim(r, 80)
        }),
        ("load only", |r| load(r, 4)),
        ("1 step", |r| {
            let _ = real("step_in", || r.sim.step_in())?;
            Ok(())
        }),
        ("5 steps", |r| {
            for _ in 0..5 {
                let _ = real("step_in", || r.sim.step_in())?;
            }
            Ok(())
        }),
        ("run until 7 steps", |r| lim(r, 7)),
        ("run to a breakpoint", |r| {
            r.sim.breakpoints.insert(bp(0));
            if !r.conf.bps.contains(&0) {
                r.conf.bps.push(0);
            }
            load(r, 0)?;
            r.sim.pc = 0x3000;
            lim(r, 50)
        }),
        ("add breakpoints", |r| {
            for i in 1..5 {
                r.sim.breakpoints.insert(bp(i));
                if !r.conf.bps.contains(&i) {
                    r.conf.bps.push(i);
                }
            }
            Ok(())
        }),
        ("remove a breakpoint", |r| {
            r.sim.breakpoints.remove(&bp(1));
            r.conf.bps.retain(|b| *b != 1);
            Ok(())
        }),
        ("toggle strict", |r| {
            r.sim.flags.strict ^= true;
            Ok(())
        }),
        ("toggle real traps", |r| {
            r.sim.flags.use_real_traps ^= true;
            Ok(())
        }),
        ("toggle debug frames", |r| {
            r.sim.flags.debug_frames ^= true;
            Ok(())
        }),
        ("toggle ignore_privilege", |r| {
            r.sim.flags.ignore_privilege ^= true;
            Ok(())
        }),
        ("seeded", |r| {
            r.sim.flags.machine_init = MachineInitStrategy::Seeded { seed: 9 };
            Ok(())
        }),
        ("known xBEEF", |r| {
            r.sim.flags.machine_init = MachineInitStrategy::Known { value: 0xBEEF };
            Ok(())
        }),
        ("flags for the next machine", |r| {
            r.sim.flags = SimFlags { strict: true, use_real_traps: true, machine_init: MachineInitStrategy::Seeded { seed: 2 }, debug_frames: true, ignore_privilege: true };
            Ok(())
        }),
        ("registers and PC", |r| {
            for (i, g) in REGS.into_iter().enumerate() {
                r.sim.reg_file[g] = Word::new_init(0x1111 * i as u16);
            }
            r.sim.pc = 0xFFFF;
            Ok(())
        }),
        ("memory", |r| {
            for a in [0u16, 0x25, 0x1FF, 0x200, 0x2FFF, 0x3000, 0x8000, 0xFDFF, 0xFE00, 0xFE04, 0xFE55, 0xFFFC, 0xFFFE, 0xFFFF] {
                r.sim.mem[a] = Word::new_init(0xABCD ^ a);
            }
            Ok(())
        }),
        ("I/O mirror", |r| {
            for a in 0xFE00..=0xFFFFu16 {
                let _ = real("read_mem", || r.sim.read_mem(a, omni()))?;
            }
            Ok(())
        }),
        ("PSR supervisor 5", |r| set_ireg(r, InternalRegister::PSR, 0x0501)),
        ("PSR user NP", |r| set_ireg(r, InternalRegister::PSR, 0x8704)),
        ("saved SP", |r| set_ireg(r, InternalRegister::SavedSP, 0x1234)),
        ("uninitialized saved SP", |r| {
            // R6 of the user becomes the saved one by a trap
            r.sim.reg_file[Reg::R6].clear_init();
            r.sim.mem[0x3000] = Word::new_init(0xF021);
            r.sim.pc = 0x3000;
            let _ = real("step_in", || r.sim.step_in())?;
            Ok(())
        }),
        ("MCR on", |r| {
            r.sim.mcr().store(true, Ordering::Relaxed);
            Ok(())
        }),
        ("instruction count", |r| {
            r.sim.instructions_run = u64::MAX;
            Ok(())
        }),
        ("signatures and a call", |r| {
            real("signatures", || {
                r.sim.frame_stack.set_subroutine_def(0x3005, ParameterList::with_calling_convention(&["a", "b"]));
                let _ = r.sim.call_subroutine(0x3005);
                let _ = r.sim.call_subroutine(0x3005);
            })
        }),
        ("new frame stack", |r| {
            r.sim.frame_stack = Default::default();
            Ok(())
        }),
        ("keyboard and display", |r| {
            r.sim.device_handler.set_keyboard(BufferedKeyboard::new(r.kb.clone()));
            r.sim.device_handler.set_display(BufferedDisplay::new(r.ds.clone()));
            (r.conf.kb_tag, r.conf.ds_tag) = (None, None);
            r.conf.devs.insert(KBSR, 0xF0);
            r.conf.devs.insert(DSR, 0xF1);
            Ok(())
        }),
        ("own keyboard", |r| {
            r.n += 1;
            r.sim.device_handler.set_keyboard(Tag(r.n & 0xF));
            r.conf.devs.insert(KBSR, r.n & 0xF);
            Ok(())
        }),
        ("own device", |r| {
            r.n += 1;
            let tag = r.n & 0xF;
            let p = 0xFE20 + 2 * r.n;
            if let Ok(id) = real("add_device", || r.sim.device_handler.add_device(Tag(tag), &[p, p + 1]).map_err(|_| ()))? {
                r.conf.devs.extend([(p, tag), (p + 1, tag)]);
                r.conf.ids.push((id, p));
            }
            Ok(())
        }),
        ("remove a device", |r| {
            if let Some((id, p)) = r.conf.ids.pop() {
                real("remove_device", || r.sim.device_handler.remove_device(id))?;
                r.conf.devs.remove(&p);
                r.conf.devs.remove(&(p + 1));
            }
            Ok(())
        }),
        ("timer", |r| {
            let mut t = TimerDevice::new(Some(1), 3..=3, 0x81, 4);
            t.enabled = true;
            real("add_device", || drop(r.sim.device_handler.add_device(t, &[])))
        }),
        ("keyboard interrupts on", |r| {
            let _ = real("write_mem", || r.sim.write_mem(KBSR, Word::new_init(0x4000), omni()))?;
            Ok(())
        }),
        ("map PC and SP", |r| {
            for (p, i) in [(0xFE10, InternalRegister::PC), (0xFFFF, InternalRegister::SavedSP), (KBDR, InternalRegister::PSR)] {
                if real("mmap_internal", || r.sim.mmap_internal(p, i))?.is_ok() {
                    r.conf.ireg.insert(p, i);
                }
            }
            Ok(())
        }),
        ("unmap PSR", |r| {
            real("munmap_internal", || r.sim.munmap_internal(0xFFFC))?;
            r.conf.ireg.remove(&0xFFFC);
            Ok(())
        }),
        ("unmap MCR, map it elsewhere", |r| {
            real("munmap_internal", || r.sim.munmap_internal(0xFFFE))?;
            r.conf.ireg.remove(&0xFFFE);
            if real("mmap_internal", || r.sim.mmap_internal(0xFE12, InternalRegister::MCR))?.is_ok() {
                r.conf.ireg.insert(0xFE12, InternalRegister::MCR);
            }
            Ok(())
        }),
        ("reset", |r| real("reset", || r.sim.reset())),
    ]
}
thread_local! {
    static FRESH: std::cell::RefCell<Vec<(SimFlags, Simulator)>> = const { std::cell::RefCell::new(vec![]) };
}
fn saved_sp(sim: &mut Simulator) -> Res<Word> {
    // the initialization state of the saved SP is not visible
    let t = 0xFE7E;
    let mem = sim.mem[t];
    let v = real("read_mem", || {
        let _ = sim.mmap_internal(t, InternalRegister::SavedSP);
        let v = sim.read_mem(t, omni());
        sim.munmap_internal(t);
        v
    })?;
    sim.mem[t] = mem;
    match v {
        Ok(v) => Ok(v),
        Err(e) => fail("saved sp", format!("{e:?}")),
    }
}
/// The two machines agree in everything the property lists.
fn compare(a: &mut Simulator, b: &mut Simulator) -> Res {
    for x in 0..=0xFFFFu16 {
        ensure!(a.mem[x] == b.mem[x], "memory", "memory at x{x:04X}: {:?}, a new machine has {:?}", a.mem[x], b.mem[x]);
    }
    for (i, g) in REGS.into_iter().enumerate() {
        ensure!(a.reg_file[g] == b.reg_file[g], "registers", "R{i}: {:?}, a new machine has {:?}", a.reg_file[g], b.reg_file[g]);
    }
    ensure!(a.pc == b.pc, "pc", "PC x{:04X}, a new machine has x{:04X}", a.pc, b.pc);
    ensure!(a.prefetch_pc() == b.prefetch_pc(), "pc", "prefetch_pc x{:04X}, a new machine has x{:04X}", a.prefetch_pc(), b.prefetch_pc());
    ensure!(a.psr().get() == b.psr().get(), "psr", "PSR x{:04X}, a new machine has x{:04X}", a.psr().get(), b.psr().get());
    let (s, t) = (saved_sp(a)?, saved_sp(b)?);
    ensure!(s == t, "saved sp", "saved SP {s:?}, a new machine has {t:?}");
    ensure!(a.frame_stack.len() == b.frame_stack.len(), "frames", "frame depth {}, a new machine has {}", a.frame_stack.len(), b.frame_stack.len());
    ensure!(a.frame_stack.frames().map(|f| f.len()) == b.frame_stack.frames().map(|f| f.len()), "frames", "frame list of length {:?}, a new machine has {:?}", a.frame_stack.frames().map(|f| f.len()), b.frame_stack.frames().map(|f| f.len()));
    ensure!(a.instructions_run == b.instructions_run, "count", "{} instructions, a new machine has {}", a.instructions_run, b.instructions_run);
    ensure!((a.hit_halt(), a.hit_breakpoint()) == (b.hit_halt(), b.hit_breakpoint()), "status", "hit_halt {}, hit_breakpoint {}; a new machine has {}, {}", a.hit_halt(), a.hit_breakpoint(), b.hit_halt(), b.hit_breakpoint());
    Ok(())
}
fn kept(r: &mut Rg, flags: SimFlags, mcr: &Arc<AtomicBool>) -> Res {
    let sim = &mut r.sim;
    ensure!(sim.flags == flags, "flags", "flags {:?}, before the reset {flags:?}", sim.flags);
    ensure!(Arc::ptr_eq(sim.mcr(), mcr), "mcr", "the MCR is another one than before");
    ensure!(sim.breakpoints.len() == r.conf.bps.len() && r.conf.bps.iter().all(|b| sim.breakpoints.contains(&bp(*b))), "breakpoints", "breakpoints {:?}, want numbers {:?}", sim.breakpoints, r.conf.bps);
    for p in 0xFE00..=0xFFFFu16 {
        if p == 0xFE7E {
            continue;
        }
        let mem = sim.mem[p];
        let x = real("read_mem", || sim.read_mem(p, omni()))?;
        sim.mem[p] = mem;
        let x = match x {
            Ok(w) => w.get(),
            Err(e) => return fail("io", format!("reading x{p:04X}: {e:?}")),
        };
        let want = match (r.conf.ireg.get(&p), r.conf.devs.get(&p)) {
            (Some(InternalRegister::PC), _) => sim.pc,
            (Some(InternalRegister::PSR), _) => sim.psr().get(),
            (Some(InternalRegister::MCR), _) => (mcr.load(Ordering::Relaxed) as u16) << 15,
            (Some(InternalRegister::SavedSP), _) => saved_sp(sim)?.get(),
            // the standard devices
            (_, Some(0xF0)) => {
                r.kb.write().unwrap().push_back(b'!');
                let x = real("read_mem", || sim.read_mem(p, omni()))?;
                sim.mem[p] = mem;
                r.kb.write().unwrap().pop_back();
                ensure!(x.is_ok_and(|w| w.get() & 0x8000 != 0), "keyboard", "the keyboard is not attached any more");
                continue;
            }
            (_, Some(0xF1)) => 0x8000,
            (_, Some(t)) => 0x5000 | t << 4 | (p & 15),
            // (what a port without a device gives is not specified, but it is none of the devices here)
            _ => {
                ensure!(x >> 12 != 5 || p < 0xFE20 || [KBDR, DDR].contains(&p), "devices", "x{p:04X} reads x{x:04X} after the reset, but no device was there");
                continue;
            }
        };
        ensure!(x == want, "mapping", "x{p:04X} reads x{x:04X} after the reset, want x{want:04X}");
    }
    // devices with two ports still get writes; ids go on
    if r.conf.ds_tag.is_none() && r.conf.devs.get(&DSR) == Some(&0xF1) && !r.conf.ireg.contains_key(&DDR) {
        let (n, mem) = (r.ds.read().unwrap().len(), sim.mem[DDR]);
        let _ = real("write_mem", || sim.write_mem(DDR, Word::new_init(b'!' as u16), omni()))?;
        ensure!(r.ds.read().unwrap().len() == n + 1, "display", "the display is not attached any more");
        sim.mem[DDR] = mem;
    }
    Ok(())
}
/// Exactly the mapped internal registers are mapped. (This unmaps them.)
fn mapped(r: &mut Rg) -> Res {
    for p in 0xFE00..=0xFFFFu16 {
        let x = real("munmap_internal", || r.sim.munmap_internal(p))?;
        let want = r.conf.ireg.contains_key(&p);
        ensure!(x == want, "mapping", "x{p:04X} {} mapped to a register after the reset, want {want}", if x { "is" } else { "is not" });
    }
    Ok(())
}
fn main() {
    let mut k = Check::new("C30");
    k.assume("the machine is compared in what the property lists (memory and registers with their initialization state); whether the saved stack pointer is initialized is only compared through the behaviour of the next steps");
    let all: &'static [Op] = ops().leak();
    let names: Vec<_> = all.iter().map(|o| o.0).collect();
    let starts: &'static [SimFlags] = vec![
        SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() },
        SimFlags { machine_init: MachineInitStrategy::Seeded { seed: 7 }, debug_frames: true, use_real_traps: true, ..Default::default() },
        SimFlags { machine_init: MachineInitStrategy::Known { value: 0xF025 }, strict: true, ignore_privilege: true, ..Default::default() },
    ]
    .leak();
    let d = k.tier(2, 3);
    let (seqs, deep) = (k.tier(3, 4), k.tier(all.len(), 19));
    for (name, d, few, follow) in [("histories", seqs, deep, false), ("all operations", d, all.len(), true)] {
        // the shorter alphabet: the operations with the widest effects
        let pick: Vec<usize> = if few == all.len() { (0..all.len()).collect() } else { (0..all.len()).filter(|i| [0, 2, 3, 5, 8, 10, 11, 13, 14, 15, 19, 20, 21, 24, 29, 31, 33, 37, 40].contains(i)).collect() };
        let what = pick.iter().map(|&i| names[i]).collect::<Vec<_>>().join("; ");
        let after = if follow { ", then the same 12 steps of a program in both machines" } else { "" };
        k.family(name, &format!("every sequence of up to {d} of the {} operations ({what}) from {} flag settings, then reset, compared with a new machine{after}", pick.len(), starts.len()), 0, move |ch, c| {
            let f = ch.choose(starts.len());
            let n = 1 + ch.choose(d);
            let seq: Vec<usize> = (0..n).map(|_| *ch.pick(&pick)).collect();
            let desc = || format!("flags {f}: {:?}, reset", seq.iter().map(|&i| all[i].0).collect::<Vec<_>>());
            c.describe_lazy(desc);
            c.state(&(f, &seq));
            let sim = real("Simulator::new", || Simulator::new(starts[f]))?;
            let mcr = sim.mcr().clone();
            let mut r = Rg { sim, conf: Conf::default(), kb: Default::default(), ds: Default::default(), n: 0 };
            r.conf.ireg.extend([(0xFFFC, InternalRegister::PSR), (0xFFFE, InternalRegister::MCR)]);
            for &i in &seq {
                if let Err(e) = all[i].1(&mut r) {
                    return fail(&e.key, format!("{}: {}: {}", desc(), all[i].0, e.msg));
                }
            }
            let flags = r.sim.flags;
            real("reset", || r.sim.reset())?;
            // a new machine with the same flags
            let cached = FRESH.with(|v| {
                let mut v = v.borrow_mut();
                v.iter().position(|x| x.0 == flags).map(|i| v.swap_remove(i).1)
            });
            let mut b = match cached {
                Some(b) => b,
                None => real("Simulator::new", || Simulator::new(flags))?,
            };
            for e in [compare(&mut r.sim, &mut b), kept(&mut r, flags, &mcr), compare(&mut r.sim, &mut b)] {
                if let Err(e) = e {
                    return fail(&e.key, format!("{}: {}", desc(), e.msg));
                }
            }
            c.trans(n as u64 + 1);
            c.trace();
            if let Err(e) = mapped(&mut r) {
                return fail(&e.key, format!("{}: {}", desc(), e.msg));
            }
            if follow {
                if let Err(e) = behave(&mut r, &mut b) {
                    return fail(&e.key, format!("{}: {}", desc(), e.msg));
                }
                c.trans(24);
            } else {
                FRESH.with(|v| v.borrow_mut().push((flags, b)));
            }
            Ok(())
        });
    }
    k.run()
}
/// Both machines execute the same program, without devices and breakpoints: what is left of the history would show.
fn behave(r: &mut Rg, b: &mut Simulator) -> Res {
    r.sim.breakpoints.clear();
    r.sim.device_handler = Default::default();
    for p in r.conf.ireg.keys() {
        r.sim.munmap_internal(*p);
    }
    for p in [0xFFFC, 0xFFFE] {
        b.munmap_internal(p);
    }
    // LD from where a program was loaded; ST of an uninitialized register there; a call, a trap and its start
    let code = [0x2FFFu16, 0x3E02, 0x4802, 0xF021, 0x0FFF, 0x1020, 0x7180, 0xC1C0];
    for s in [&mut r.sim, &mut *b] {
        for (i, w) in code.into_iter().enumerate() {
            s.mem[0x3000 + i as u16] = Word::new_init(w);
        }
    }
    for i in 0..12 {
        let x = real("step_in", || r.sim.step_in().map_err(|e| format!("{e:?}")))?;
        let y = real("step_in", || b.step_in().map_err(|e| format!("{e:?}")))?;
        ensure!(x == y, "behaviour", "step {i} after the reset gives {x:?}, in a new machine {y:?}");
        ensure!(r.sim.pc == b.pc && r.sim.psr().get() == b.psr().get(), "behaviour", "step {i} after the reset: PC x{:04X} PSR x{:04X}, in a new machine x{:04X} x{:04X}", r.sim.pc, r.sim.psr().get(), b.pc, b.psr().get());
        for (j, g) in REGS.into_iter().enumerate() {
            ensure!(r.sim.reg_file[g] == b.reg_file[g], "behaviour", "step {i} after the reset: R{j} is {:?}, in a new machine {:?}", r.sim.reg_file[g], b.reg_file[g]);
        }
    }
    Ok(())
}
