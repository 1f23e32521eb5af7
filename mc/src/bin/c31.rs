//! C31: seeded simulations are reproducible; a known strategy initializes everything.
use lc3_ensemble::asm::assemble;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimFlags, Simulator};
use mc::rig::{REGS, SSP_PORT};
use mc::*;
use std::collections::VecDeque;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, RwLock};

#[derive(Clone, Debug, Hash)]
struct Cfg {
    seed: Option<u64>,
    value: u16,
    strict: bool,
    real: bool,
    ignore: bool,
    debug: bool,
    /// (seed, lowest and highest interval, priority)
    timers: Vec<(u64, u32, u32, u8)>,
    prog: Vec<u16>,
    at: u16,
    /// (step, byte)
    keys: Vec<(usize, u8)>,
    /// step before which the machine is reset
    reset: usize,
    steps: usize,
    /// the start state has a handler at x1000 for the vectors x180 and x181-x183
    handler: bool,
    /// initialize the stack pointer and run as supervisor
    sup: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { seed: Some(1), value: 0, strict: false, real: false, ignore: false, debug: false, timers: vec![], prog: vec![], at: 0x3000, keys: vec![], reset: usize::MAX, steps: 60, handler: false, sup: false }
    }
}
#[derive(PartialEq, Debug, Hash)]
struct Rec {
    res: String,
    pc: u16,
    psr: u16,
    ssp: u16,
    reg: [Word8; 8],
    depth: u64,
    count: u64,
    out: Vec<u8>,
    accesses: Vec<(u16, String, Word8)>,
}
type Word8 = (u16, bool);
fn w(x: Word) -> Word8 {
    (x.get(), x.is_init())
}
fn mem_hash(sim: &Simulator) -> u64 {
    let mut h = DefaultHasher::new();
    for a in 0..=0xFFFFu16 {
        let x = sim.mem[a];
        (x.get() as u32 | (x.is_init() as u32) << 16).hash(&mut h);
    }
    h.finish()
}
fn prepare(sim: &mut Simulator, c: &Cfg) {
    for (i, x) in c.prog.iter().enumerate() {
        sim.mem[c.at.wrapping_add(i as u16)] = Word::new_init(*x);
    }
    if c.handler {
        // STR R2,R6,#-1; LDI; ADD R7,R7,#1; RTI with what is in memory around it
        for (i, x) in [0x75BFu16, 0xA402, 0x1FE1, 0x8000, 0xFE02].into_iter().enumerate() {
            sim.mem[0x1000 + i as u16] = Word::new_init(x);
        }
        for v in 0x180..0x184u16 {
            sim.mem[v] = Word::new_init(0x1000);
        }
        let _ = sim.write_mem(0xFE00, Word::new_init(0x4000), MemAccessCtx::omnipotent());
    }
    sim.pc = c.at;
    if c.sup {
        sim.reg_file[REGS[6]] = Word::new_init(0x3000);
        let _ = sim.write_mem(0xFFFC, Word::new_init(2), MemAccessCtx::omnipotent());
    }
}
fn history(c: &Cfg) -> Res<(Vec<Rec>, Vec<u64>)> {
    let machine_init = match c.seed {
        Some(seed) => MachineInitStrategy::Seeded { seed },
        None => MachineInitStrategy::Known { value: c.value },
    };
    let flags = SimFlags { machine_init, strict: c.strict, use_real_traps: c.real, ignore_privilege: c.ignore, debug_frames: c.debug };
    let mut sim = real("Simulator::new", || Simulator::new(flags))?;
    let kb: Arc<RwLock<VecDeque<u8>>> = Default::default();
    let ds: Arc<RwLock<Vec<u8>>> = Default::default();
    sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
    sim.device_handler.set_display(BufferedDisplay::new(ds.clone()));
    let _ = sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP);
    for (i, &(seed, lo, hi, prio)) in c.timers.iter().enumerate() {
        // both kinds of ranges
        let mut t = real("TimerDevice::new", || match seed & 1 {
            0 => TimerDevice::new(Some(seed), lo..=hi, 0x81 + i as u8, prio),
            _ => TimerDevice::new(Some(seed), lo..hi + 1, 0x81 + i as u8, prio),
        })?;
        t.enabled = true;
        let _ = sim.device_handler.add_device(t, &[]);
    }
    let mut hs = vec![mem_hash(&sim)];
    let mut recs = vec![];
    prepare(&mut sim, c);
    for i in 0..c.steps {
        if i == c.reset {
            real("reset", || sim.reset())?;
            hs.push(mem_hash(&sim));
            prepare(&mut sim, c);
        }
        for k in c.keys.iter().filter(|k| k.0 == i) {
            kb.write().unwrap().push_back(k.1);
        }
        let res = real("step_in", || sim.step_in())?;
        let mut acc: Vec<_> = sim.observer.take_mem_accesses().map(|(a, s)| (a, format!("{s:?}"))).collect();
        acc.sort();
        let accesses = acc.into_iter().map(|(a, s)| (a, s, w(sim.mem[a]))).collect();
        let mirror = sim.mem[SSP_PORT];
        let ssp = match real("read_mem", || sim.read_mem(SSP_PORT, MemAccessCtx::omnipotent()))? {
            Ok(x) => x.get(),
            Err(_) => 0,
        };
        sim.mem[SSP_PORT] = mirror;
        let failed = res.is_err();
        recs.push(Rec {
            res: format!("{res:?}"),
            pc: sim.pc,
            psr: sim.psr().get(),
            ssp,
            reg: std::array::from_fn(|i| w(sim.reg_file[REGS[i]])),
            depth: sim.frame_stack.len(),
            count: sim.instructions_run,
            out: ds.read().unwrap().clone(),
            accesses,
        });
        // a program that fails goes on at another place (as long as it is the same one in both)
        if failed {
            sim.pc = sim.pc.wrapping_add(0x0101);
            if sim.pc >= 0xFE00 || sim.pc < 0x3000 {
                sim.pc = 0x3000;
            }
        }
    }
    hs.push(mem_hash(&sim));
    Ok((recs, hs))
}
fn same(c: &Cfg, case: &mut Case, decoy: bool) -> Res {
    let a = history(c)?;
    if decoy {
        // another machine and timer in between, that must not matter
        let s = real("Simulator::new", || Simulator::new(SimFlags::default()))?;
        drop(s);
        drop(real("TimerDevice::new", || TimerDevice::new(None, 0..=99, 1, 1))?);
    }
    let b = history(c)?;
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(x == y, "history", "{c:X?}: step {i} differs between two runs: {x:X?} and {y:X?}");
    }
    ensure!(a.1 == b.1, "memory", "{c:X?}: memory differs between two runs (at the start, after a reset, or at the end): {:X?} and {:X?}", a.1, b.1);
    case.trans(2 * a.0.len() as u64);
    case.trace();
    Ok(())
}
fn digest(cs: &[Cfg]) -> Res<Vec<u64>> {
    let mut v = vec![];
    for c in cs {
        let mut h = DefaultHasher::new();
        history(c)?.hash(&mut h);
        v.push(h.finish());
    }
    Ok(v)
}
/// Configurations compared with another process.
fn shared() -> Vec<Cfg> {
    let mut v = vec![];
    for seed in 0..40 {
        v.push(Cfg { seed: Some(seed), timers: vec![(seed, 0, 5, 4), (seed + 1, 2, 9, 5)], handler: true, steps: 200, keys: vec![(5, b'a'), (50, b'b')], reset: 100, real: seed % 2 == 0, debug: seed % 3 == 0, ..Cfg::default() });
        v.push(Cfg { seed: None, value: (seed as u16).wrapping_mul(0x0777), timers: vec![(seed, 1, 30, 4)], handler: true, steps: 100, ..Cfg::default() });
    }
    v
}
/// Which addresses belong to the OS image.
fn image() -> Vec<bool> {
    let mut v = vec![false; 65536];
    let src = std::fs::read_to_string("/repo/src/os.asm").unwrap();
    for (a, _) in assemble(parse_ast(&src).unwrap()).unwrap().addr_iter() {
        v[a as usize] = true;
    }
    v
}
fn main() {
    if std::env::var("C31_CHILD").is_ok() {
        match digest(&shared()) {
            Ok(v) => println!("{v:?}"),
            Err(f) => println!("{}", f.msg),
        }
        return;
    }
    let mut k = Check::new("C31");
    k.assume("randomness is explored through sets of seeds, inputs arrive at the same steps in both runs");
    let im: &'static [bool] = image().leak();
    k.family("known values", "all 65536 values: every register and every word outside of the OS image (the blocks of os.asm) and the I/O page of a new machine, and of one that ran and was reset, holds the value; the OS image is the same for every value", 0, move |ch, c| {
        let hi = ch.choose(256) as u16;
        c.describe_lazy(|| format!("values x{hi:02X}00-x{hi:02X}FF"));
        for lo in 0..256u16 {
            let v = hi << 8 | lo;
            let mut sim = real("Simulator::new", || Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: v }, debug_frames: lo & 1 != 0, strict: lo & 2 != 0, ..Default::default() }))?;
            for round in 0..2 {
                for (i, g) in REGS.into_iter().enumerate() {
                    ensure!(sim.reg_file[g].get() == v, "registers", "known value x{v:04X}: R{i} is x{:04X} (round {round})", sim.reg_file[g].get());
                }
                for a in (0..0xFE00u16).filter(|a| !im[*a as usize]) {
                    let x = sim.mem[a].get();
                    ensure!(x == v, "memory", "known value x{v:04X}: memory at x{a:04X} is x{x:04X} (round {round})");
                }
                if round == 0 && (lo < 8 || lo == 255) {
                    let _ = real("run_with_limit", || sim.run_with_limit(5))?;
                    sim.mem[0x8000] = Word::new_init(!v);
                    sim.mem[0x2FFF] = Word::new_init(!v);
                    sim.reg_file[REGS[7]] = Word::new_init(!v);
                    real("reset", || sim.reset())?;
                } else {
                    break;
                }
            }
        }
        c.state(&hi);
        c.trans(256);
        c.traces(256);
        Ok(())
    });
    k.family("another process", "80 configurations (seeds, known values, timers, keys, resets): the complete histories have the same digest in another process", 0, move |_, c| {
        let cs = shared();
        let mine = digest(&cs)?;
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).env("C31_CHILD", "1").output().unwrap();
        let out = String::from_utf8_lossy(&out.stdout).trim().to_string();
        let theirs: Vec<u64> = out.trim_matches(['[', ']']).split(", ").filter_map(|x| x.parse().ok()).collect();
        ensure!(theirs.len() == cs.len(), "child", "the other process gives {out}");
        for (i, (a, b)) in mine.iter().zip(&theirs).enumerate() {
            ensure!(a == b, "process", "the history differs in another process: {:X?}", cs[i]);
        }
        c.state(&mine);
        c.traces(cs.len() as u64);
        Ok(())
    });
    let seeds = k.tier(1500usize, 30_000);
    k.family("random memory", &format!("execution of uninitialized memory itself, 150 steps, for {seeds} seeds x 4 flag settings"), 0, move |ch, c| {
        let seed = ch.choose(seeds) as u64;
        let f = ch.choose(4);
        let cfg = Cfg { seed: Some(seed), real: f & 1 != 0, ignore: f & 1 != 0, strict: f == 2, debug: f == 3, at: [0x3000, 0x5000][f & 1], steps: 150, keys: vec![(3, b'k'), (30, b'l')], handler: f == 3, ..Cfg::default() };
        c.describe_lazy(|| format!("{cfg:X?}"));
        c.state(&(seed, f));
        same(&cfg, c, false)
    });
    let d = k.tier(3, 4);
    let alpha = [0x1001u16, 0x5020, 0x2401, 0x3602, 0x6083, 0x76C1, 0xA001, 0x4801, 0xC0C0, 0x0402, 0x0BFE, 0xF021, 0xF020, 0xF025, 0x8000, 0x4040];
    k.family("programs", &format!("every program of {d} instructions over {} (operations on uninitialized registers and memory, branches on them, calls, traps, RTI), then uninitialized memory, for a seed and a known value, with timers", alpha.len()), 0, move |ch, c| {
        let prog: Vec<u16> = (0..d).map(|_| *ch.pick(&alpha)).collect();
        let x = ch.choose(3);
        let cfg = Cfg {
            seed: (x != 1).then_some(42 + x as u64),
            value: 0x1234,
            timers: if x == 0 { vec![] } else { vec![(7, 1, 6, 4)] },
            prog,
            handler: x != 0,
            sup: x == 2,
            strict: x == 1,
            steps: 40,
            keys: vec![(0, b'a'), (7, b'b')],
            ..Cfg::default()
        };
        c.describe_lazy(|| format!("{cfg:X?}"));
        c.state(&cfg);
        same(&cfg, c, false)
    });
    let ts = k.tier(40u64, 400);
    k.family("timers", &format!("an echo and a counting program with one or two timers: {ts} seeds (odd: half-open, even: inclusive ranges) x ranges {{1, 3, 12, 3-4, 0-2, 7-9, 0-5, 2-9, 1-40, 5-1000}} x priorities, keys, a reset at 4 moments, with other machines created in between"), 0, move |ch, c| {
        let seed = ch.choose(ts as usize) as u64;
        let (lo, hi) = *ch.pick(&[(1u32, 1u32), (3, 3), (12, 12), (3, 4), (0, 2), (7, 9), (0, 5), (2, 9), (1, 40), (5, 1000)]);
        let two = ch.flag();
        let reset = *ch.pick(&[usize::MAX, 1, 33, 100]);
        let echo = ch.flag();
        let mut timers = vec![(seed, lo, hi, 4)];
        if two {
            timers.push((seed ^ 0x55AA, 2, 17, 5));
        }
        // GETC; OUT; BR -3 or ADD R0,R0,#1; ADD R1,R1,R0; ST R1; BR -4
        let prog = if echo { vec![0xF020, 0xF021, 0x0FFD] } else { vec![0x1021, 0x1240, 0x3210, 0x0FFC] };
        let cfg = Cfg { seed: Some(seed), timers, prog, handler: true, reset, steps: 200, keys: vec![(2, 1), (40, 2), (41, 3), (120, 4)], ..Cfg::default() };
        c.describe_lazy(|| format!("{cfg:X?}"));
        c.state(&cfg);
        same(&cfg, c, true)
    });
    k.run()
}
