//! C16: no machine state makes the simulator panic.
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, Interrupt, InterruptFromFn, TimerDevice};
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimFlags, Simulator};
use mc::isa::*;
use mc::rig::{os_words, pattern, REGS};
use mc::simfam::*;
use mc::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, RwLock};

/// A simulator with every standard device, whose memory is put back after each case.
struct Box16 {
    sim: Simulator,
    base: Arc<Vec<u16>>,
    kb: Arc<RwLock<VecDeque<u8>>>,
    disp: Arc<RwLock<Vec<u8>>>,
    irq: Arc<AtomicU32>,
    fuel: Arc<AtomicU32>,
    timer: Arc<RwLock<TimerDevice>>,
    touched: Vec<u16>,
    debug: bool,
}
const IREGS: [(u16, InternalRegister); 4] = [(0xFE10, InternalRegister::PC), (0xFE12, InternalRegister::SavedSP), (0xFE00 + 0x40, InternalRegister::PSR), (0xFE42, InternalRegister::MCR)];
impl Box16 {
    fn new(debug: bool) -> Box16 {
        let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: debug, ..Default::default() });
        for a in 0..=0xFFFFu16 {
            if !sim.mem[a].is_init() {
                sim.mem[a] = Word::new_init(pattern(a));
            }
        }
        let base = (0..=0xFFFFu16).map(|a| sim.mem[a].get()).collect();
        let kb = Arc::new(RwLock::new(VecDeque::new()));
        let disp = Arc::new(RwLock::new(vec![]));
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(disp.clone()));
        let irq = Arc::new(AtomicU32::new(0));
        let i2 = irq.clone();
        // turns the machine off after a number of steps, so that every run ends
        let fuel = Arc::new(AtomicU32::new(u32::MAX));
        let (f2, mcr) = (fuel.clone(), sim.mcr().clone());
        let dev = InterruptFromFn::new(move || {
            match f2.load(SeqCst) {
                u32::MAX => {}
                0 => mcr.store(false, SeqCst),
                n => f2.store(n - 1, SeqCst),
            }
            let x = i2.swap(0, SeqCst);
            (x != 0).then(|| if x >> 17 != 0 { Interrupt::external(std::io::Error::other("stop")) } else { Interrupt::vectored((x >> 8) as u8, x as u8) })
        });
        assert!(sim.device_handler.add_device(dev, &[0xFE20, 0xFFFF]).is_ok());
        let mut t = TimerDevice::new(Some(1), 4..=4, 0x81, 4);
        t.enabled = true;
        let timer = Arc::new(RwLock::new(t));
        assert!(sim.device_handler.add_device(timer.clone(), &[0xFE30]).is_ok());
        for (a, r) in IREGS {
            sim.mmap_internal(a, r).unwrap();
        }
        if debug {
            use Reg::*;
            for (a, p) in [
                (0x3002, ParameterList::with_calling_convention(&["a", "b", "c", "d", "e"])),
                (0x1002, ParameterList::with_calling_convention(&["a"])),
                (0x0100, ParameterList::with_calling_convention(&["a", "b"])),
                (0x0190, ParameterList::with_pass_by_register(&[("x", R0), ("y", R6)], Some(R7))),
                (0x4000, ParameterList::with_pass_by_register(&[("x", R0), ("y", R6)], None)),
                (0xFFFF, ParameterList::with_calling_convention(&["a"; 40])),
                (0x0000, ParameterList::with_calling_convention(&[])),
            ] {
                sim.frame_stack.set_subroutine_def(a, p);
            }
        }
        Box16 { sim, base: Arc::new(base), kb, disp, irq, fuel, timer, touched: vec![], debug }
    }
    fn start(&mut self, s: &S) -> Res {
        let sim = &mut self.sim;
        sim.flags.strict = s.strict;
        sim.flags.use_real_traps = s.real;
        sim.flags.ignore_privilege = s.ignore;
        for &(a, v) in &s.mem {
            sim.mem[a] = Word::new_init(v);
            self.touched.push(a);
        }
        for &a in &s.uninit {
            sim.mem[a].clear_init();
            self.touched.push(a);
        }
        *self.kb.write().unwrap() = s.kb.iter().copied().collect();
        self.disp.write().unwrap().clear();
        self.irq.store(0, SeqCst);
        self.fuel.store(u32::MAX, SeqCst);
        self.timer.write().unwrap().reset_remaining();
        let omni = MemAccessCtx::omnipotent();
        let r = real("write_mem", || {
            sim.write_mem(0xFE40, Word::new_init(s.psr), omni)?;
            sim.write_mem(0xFE12, Word::new_init(s.ssp), omni)?;
            sim.write_mem(KBSR, Word::new_init((s.kb_ie as u16) << 14), omni)
        })?;
        ensure!(r.is_ok(), "setup", "cannot set the internal registers: {r:?}");
        sim.pc = s.pc;
        for i in 0..8 {
            sim.reg_file[REGS[i]] = Word::new_init(s.reg[i]);
            if s.uninit_regs >> i & 1 != 0 {
                sim.reg_file[REGS[i]].clear_init();
            }
        }
        Ok(())
    }
    /// One step, then every query.
    fn step(&mut self, c: &mut Case) -> Res<bool> {
        let sim = &mut self.sim;
        let r = real("step_in", || sim.step_in())?;
        c.trans(1);
        for (a, s) in sim.observer.take_mem_accesses() {
            if s.written() {
                self.touched.push(a);
            }
        }
        let ok = r.is_ok();
        match r {
            Ok(()) => c.outcome("ok"),
            Err(e) => {
                let t = real("error text", || e.to_string())?;
                c.outcome(&t);
            }
        }
        self.queries()?;
        Ok(ok)
    }
    fn queries(&mut self) -> Res {
        let sim = &mut self.sim;
        real("prefetch_pc", || sim.prefetch_pc())?;
        real("queries", || {
            let f = sim.frame_stack.frames().map_or(0, |f| f.iter().map(|f| f.arguments.len()).sum::<usize>());
            (sim.hit_halt(), sim.hit_breakpoint(), sim.frame_stack.len(), f, sim.psr().get(), sim.psr().cc(), sim.psr().priority(), sim.default_mem_ctx())
        })?;
        Ok(())
    }
    fn end(&mut self) -> Res {
        let sim = &mut self.sim;
        for a in std::mem::take(&mut self.touched) {
            sim.mem[a] = Word::new_init(self.base[a as usize]);
        }
        for a in 0xFE00..=0xFFFFu16 {
            sim.mem[a] = Word::new_init(0);
        }
        sim.breakpoints.clear();
        sim.instructions_run = 0;
        if !sim.frame_stack.is_empty() {
            if !self.debug {
                sim.frame_stack = Default::default();
            } else {
                sim.flags = SimFlags { ignore_privilege: true, ..sim.flags };
                sim.flags.strict = false;
                sim.mem[0x3000] = Word::new_init(0xC1C0);
                for _ in 0..sim.frame_stack.len() * 8 {
                    sim.pc = 0x3000;
                    // the timer may interrupt: at its priority it cannot
                    let _ = sim.write_mem(0xFE40, Word::new_init(0x0702), MemAccessCtx::omnipotent());
                    let _ = real("step_in", || sim.step_in())?;
                    if sim.frame_stack.is_empty() {
                        break;
                    }
                }
                ensure!(sim.frame_stack.is_empty(), "setup", "RET does not pop frames");
                sim.mem[0x3000] = Word::new_init(self.base[0x3000]);
            }
        }
        Ok(())
    }
}
#[derive(Clone, Default, Hash)]
struct S {
    pc: u16,
    psr: u16,
    ssp: u16,
    reg: [u16; 8],
    mem: Vec<(u16, u16)>,
    uninit: Vec<u16>,
    uninit_regs: u8,
    kb: Vec<u8>,
    kb_ie: bool,
    strict: bool,
    real: bool,
    ignore: bool,
}
thread_local! {
    static POOL: std::cell::RefCell<Vec<Box16>> = const { std::cell::RefCell::new(vec![]) };
}
fn with<T>(debug: bool, f: impl FnOnce(&mut Box16) -> Res<T>) -> Res<T> {
    let b = POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.iter().position(|b| b.debug == debug).map(|i| p.swap_remove(i))
    });
    let mut b = match b {
        Some(b) => b,
        None => real("Simulator::new", || Box16::new(debug))?,
    };
    let x = f(&mut b)?;
    b.end()?;
    POOL.with(|p| p.borrow_mut().push(b));
    Ok(x)
}
fn flags(ch: &mut Ch, s: &mut S) -> bool {
    let f = ch.choose(16);
    (s.strict, s.real, s.ignore) = (f & 1 != 0, f & 2 != 0, f & 4 != 0);
    f & 8 != 0
}
fn main() {
    let mut k = Check::new("C16");
    k.assume("devices attached: BufferedKeyboard, BufferedDisplay, an enabled TimerDevice, an InterruptFromFn device and mappings of all four internal registers; the harness's memory is built with overflow checks and debug assertions of the code under test on");
    let pcs: [u16; 14] = [0x0000, 0x0001, 0x00FF, 0x01FF, 0x2FFF, 0x3000, 0x7FFF, 0x8000, 0xFDFE, 0xFDFF, 0xFE00, 0xFE20, 0xFFFE, 0xFFFF];
    let np = k.tier(6, pcs.len());
    k.family("words", "all 65536 words x 14 PCs at page boundaries (6 in the quick tier) x 16 flag combinations (strict, real traps, privilege ignored, debug frames) x both modes x 3 register patterns, two steps, every query after each", 0, move |ch, c| {
        let pc = if np == 14 { pcs[ch.choose(14)] } else { [0x0000, 0x2FFF, 0x3000, 0x7FFF, 0xFDFF, 0xFFFF][ch.choose(6)] };
        let mut s = S { pc, ..Default::default() };
        let debug = flags(ch, &mut s);
        let w = ch.choose(65536) as u16;
        // words that differ only in a register number that does not matter here are still all taken
        let v = ch.choose(3);
        s.psr = if ch.flag() { 0x8001 } else { 0x0004 };
        s.reg = match v {
            0 => [0, 1, 0xFFFF, 0xFE00, 0xFE02, 0xFDFF, 0x0000, 0xFFFF],
            1 => [0xFFFF, 0x8000, 0x7FFF, 0x3000, 0xFE10, 0xFE06, 0xFFFF, 0x0000],
            _ => [0x4000, 0x2FFF, 0x0001, 0xFE42, 0xFFFC, 0xFFFE, 0x0001, 0xFE00],
        };
        s.ssp = s.reg[7];
        if v == 2 {
            s.uninit_regs = 0x4A;
        }
        if v == 1 {
            s.kb = vec![0x41];
            s.kb_ie = true;
        }
        s.mem.push((pc, w));
        c.describe_lazy(|| format!("{} (x{w:04X}) at x{pc:04X}, psr x{:04X}, strict {}, real {}, ignore {}, debug frames {debug}, registers {v}", dis(w), s.psr, s.strict, s.real, s.ignore));
        c.state(&(w, pc, v, s.psr, s.strict, s.real, s.ignore, debug));
        with(debug, |b| {
            b.start(&s)?;
            b.step(c)?;
            b.step(c)?;
            Ok(())
        })
    });
    let steps = k.tier(24, 200);
    k.family("uniform memory", &format!("memory filled with one word, for all 65536 words, 4 flag combinations, runs of {steps} steps from x3000, xFFFF and x0000"), 0, move |ch, c| {
        let w = ch.choose(65536) as u16;
        let mut s = S { psr: 2, ssp: 0x3000, reg: [1, 0xFFFF, 0xFE00, 0x8000, 0x7FFF, 0xFE20, 0x3000, 0x0000], kb: vec![1, 2, 3], kb_ie: true, ..Default::default() };
        let f = ch.choose(4);
        (s.real, s.strict, s.ignore) = (f & 1 != 0, f == 3, f & 2 != 0);
        let debug = f & 1 == 0;
        c.describe_lazy(|| format!("all of memory x{w:04X}, flags {f}"));
        c.state(&(w, f));
        with(debug, |b| {
            for a in 0..0xFE00u16 {
                b.sim.mem[a] = Word::new_init(w);
            }
            for pc in [0x3000, 0xFFFF, 0x0000] {
                s.pc = pc;
                b.start(&s)?;
                for i in 0..steps {
                    if !b.step(c)? && i > 4 {
                        break;
                    }
                    if i == 10 {
                        b.irq.store(1 << 16 | 0xFF07, SeqCst);
                    }
                }
            }
            for a in 0..0xFE00u16 {
                b.sim.mem[a] = Word::new_init(b.base[a as usize]);
            }
            Ok(())
        })
    });
    let d = k.tier(3, 4);
    k.family("sequences", &format!("every sequence of {d} instructions (the alphabet of the C08 sequences and accesses to the internal registers) x 16 flag combinations x 2 start states, with up to 1 interrupt of any kind"), 1, move |ch, c| {
        let mut al = alphabet();
        al.extend([0x6500, 0x7500, 0x6502, 0x7502, 0xC100, 0x4100]);
        let mut s = S { pc: 0x3000, ..Default::default() };
        let debug = flags(ch, &mut s);
        let base = ch.choose(2);
        s.psr = [0x8002, 0x0002][base];
        s.ssp = [0x2F00, 0x0001][base];
        s.reg = [0x0001, 0xFFFE, 0x4000, 0x8704, 0xFE10, 0x3050, [0x5000, 0x0001][base], 0x3005];
        s.mem = vec![(0x4000, 0xFE10), (0x4001, PSR), (0x4002, MCR), (0x4003, KBSR), (0x30, 0x3001), (0x190, 0xFFFF)];
        s.uninit = vec![0x4005, 0x3004];
        s.uninit_regs = if base == 1 { 0x20 } else { 0 };
        s.kb = vec![0x31];
        let mut trace: Vec<String> = vec![];
        with(debug, |b| {
            b.start(&s)?;
            for _ in 0..d {
                let i = ch.choose(al.len());
                let pc = b.sim.pc;
                if pc < 0xFE00 && i > 0 {
                    b.sim.mem[pc] = Word::new_init(al[i]);
                    b.touched.push(pc);
                }
                let irq = [0, 1 << 16 | 0x9004, 1 << 16 | 0xFF07, 1 << 16 | 0x0001, 1 << 17][ch.dev(5)];
                b.irq.store(irq, SeqCst);
                trace.push(format!("{}{}", if i > 0 { dis(al[i]) } else { "(memory)".into() }, if irq != 0 { format!("+{irq:X}") } else { String::new() }));
                c.describe_lazy(|| format!("start {base}, strict {}, real {}, ignore {}, debug {debug}: {}", s.strict, s.real, s.ignore, trace.join("; ")));
                b.step(c)?;
                c.state(&(b.sim.pc, b.sim.psr().get(), b.sim.frame_stack.len(), debug));
            }
            Ok(())
        })
    });
    k.family("executions", "11 programs and 256 uniform memories x run, run_with_limit (0, 1, 100, u64::MAX with a tripwire), step_over, step_out, breakpoints of every kind, reset in between, instruction counter at u64::MAX, x 16 flag combinations x entry at x3000 and xFFFF", 0, |ch, c| {
        let p = ch.choose(11 + 256);
        let mut s = S { psr: if ch.flag() { 0x8002 } else { 2 }, ssp: 0x3000, reg: [1, 2, 0x4000, 0xFFFF, 5, 6, 0x2E00, 0x3333], ..Default::default() };
        let debug = flags(ch, &mut s);
        s.pc = if ch.flag() { 0x3000 } else { 0xFFFF };
        s.kb_ie = true;
        let fill = if p < 11 {
            let ps = programs();
            s.mem = code(0x3000, &ps[p].1).collect();
            s.kb = ps[p].2.clone();
            None
        } else {
            Some(((p - 11) as u16) * 0x101)
        };
        let how = ch.choose(8);
        c.describe_lazy(|| format!("program {p} (fill {fill:04X?}), how {how}, pc x{:04X}, psr x{:04X}, strict {}, real {}, ignore {}, debug {debug}", s.pc, s.psr, s.strict, s.real, s.ignore));
        c.state(&(p, how, s.pc, s.psr, s.strict, s.real, s.ignore, debug));
        with(debug, |b| {
            if let Some(w) = fill {
                for a in 0..0xFE00u16 {
                    b.sim.mem[a] = Word::new_init(w);
                }
                b.touched.extend(0..0xFE00u16);
            }
            b.start(&s)?;
            b.fuel.store(700, SeqCst);
            b.timer.write().unwrap().reset_remaining();
            let sim = &mut b.sim;
            sim.instructions_run = if how % 2 == 0 { u64::MAX - 3 } else { 0 };
            let mut left = 600;
            let mut trip = move |_: &mut Simulator| {
                left -= 1;
                left > 0
            };
            let r = real("run", || match how {
                0 => sim.run_while(trip),
                1 => sim.run_with_limit(0),
                2 => sim.run_with_limit(1).and(sim.run_with_limit(100)),
                3 => {
                    // a breakpoint on everything
                    for r in REGS {
                        sim.breakpoints.insert(Breakpoint::Reg { reg: r, value: Comparator::Gt(0x7FFF) });
                    }
                    sim.breakpoints.insert(Breakpoint::Mem { addr: 0xFFFF, value: Comparator::Eq(0) });
                    sim.breakpoints.insert(Breakpoint::Mem { addr: 0xFE00, value: Comparator::Ne(0) });
                    sim.breakpoints.insert(Breakpoint::PC(0xFFFF));
                    sim.run_while(&mut trip).and(sim.run_while(&mut trip))
                }
                4 => sim.run_with_limit(2).and(sim.step_over()),
                5 => sim.step_in().and(sim.step_in()).and({
                    sim.breakpoints.insert(Breakpoint::Mem { addr: 0, value: Comparator::Always });
                    sim.step_out()
                }),
                6 => sim.run_with_limit(40),
                _ => sim.call_subroutine(0xFFFF).and(sim.call_subroutine(0)).and(sim.run_with_limit(30)),
            });
            c.trans(1);
            if let Err(e) = r? {
                c.outcome(&real("error text", || e.to_string())?);
            }
            b.touched.extend(if fill.is_some() { 0..0 } else { 0..0xFE00u16 });
            b.queries()
        })
    });
    k.family("reset and load in between", "every history of 4 operations out of: step, run 50, reset, load one of 3 object files (wrapping, empty, reserved words), toggle each flag, read/write every internal register through memory, set PC to a boundary, then queries", 0, |ch, c| {
        use lc3_ensemble::asm::assemble;
        use lc3_ensemble::parse::parse_ast;
        let objs: Vec<_> = [".orig x3000\nAND R0,R0,#0\nTRAP x21\nLD R1,A\nJSRR R1\nA .blkw 3\n.end", ".orig x3000\n.end", ".orig xFDFE\n.fill x0E00\n.blkw 1\n.end\n.orig x0\n.fill 5\n.end"]
            .iter()
            .map(|s| assemble(parse_ast(s).unwrap()).unwrap())
            .collect();
        let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Seeded { seed: 7 }, ..Default::default() });
        for (a, r) in IREGS {
            sim.mmap_internal(a, r).unwrap();
        }
        sim.device_handler.set_keyboard(BufferedKeyboard::default());
        sim.device_handler.set_display(BufferedDisplay::default());
        let mut t = TimerDevice::new(Some(1), 0..=1, 0x00, 7);
        t.enabled = true;
        assert!(sim.device_handler.add_device(t, &[]).is_ok());
        let mut h = vec![];
        for _ in 0..4 {
            let op = ch.choose(15);
            h.push(op);
            c.describe_lazy(|| format!("operations {h:?}"));
            c.trans(1);
            let _ = real("operation", || match op {
                0 => sim.step_in(),
                1 => sim.run_with_limit(50),
                2 => {
                    sim.reset();
                    Ok(())
                }
                3 | 4 | 5 => sim.load_obj_file(&objs[op - 3]),
                6..=9 => {
                    match op {
                        6 => sim.flags.strict ^= true,
                        7 => sim.flags.use_real_traps ^= true,
                        8 => sim.flags.ignore_privilege ^= true,
                        _ => sim.flags.debug_frames ^= true,
                    }
                    Ok(())
                }
                10 => {
                    for (a, _) in IREGS {
                        let x = sim.read_mem(a, MemAccessCtx::omnipotent())?;
                        sim.write_mem(a, Word::new_init(!x.get()), MemAccessCtx::omnipotent())?;
                    }
                    Ok(())
                }
                11 => {
                    sim.pc = 0xFFFF;
                    sim.mem[0xFFFF] = Word::new_init(0x0E00);
                    Ok(())
                }
                12 => {
                    sim.pc = 0;
                    Ok(())
                }
                13 => sim.call_subroutine(0xFFFF),
                _ => sim.run_while({
                    let mut n = 20;
                    move |s| {
                        n -= 1;
                        s.pc = s.pc.wrapping_add(0x1001);
                        n > 0
                    }
                }),
            })?;
            real("prefetch_pc", || sim.prefetch_pc())?;
        }
        c.state(&h);
        c.trace();
        Ok(())
    });
    let _ = os_words;
    k.run()
}
