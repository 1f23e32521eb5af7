//! C33: the keyboard and the display deliver bytes exactly once under lock contention.
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimFlags, Simulator};
use mc::isa::*;
use mc::rig::{REGS, SSP_PORT};
use mc::simfam::code;
use mc::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard};
use std::time::Duration;

type Kb = Arc<RwLock<VecDeque<u8>>>;
type Disp = Arc<RwLock<Vec<u8>>>;
/// (A lock may be poisoned: a holder may have panicked.)
fn wr<T>(l: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
    l.write().unwrap_or_else(PoisonError::into_inner)
}
fn rd<T>(l: &RwLock<T>) -> RwLockReadGuard<'_, T> {
    l.read().unwrap_or_else(PoisonError::into_inner)
}
/// A holder of the lock panics.
fn poison<T>(l: &RwLock<T>) {
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _g = wr(l);
        resume_unwind(Box::new(()))
    }));
    assert!(l.is_poisoned());
}
struct Rg {
    sim: Simulator,
    kb: Kb,
    disp: Disp,
}
impl Rg {
    fn new() -> Rg {
        let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() });
        let (kb, disp) = (Kb::default(), Disp::default());
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(disp.clone()));
        sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP).unwrap();
        Rg { sim, kb, disp }
    }
}
struct Prog {
    name: &'static str,
    /// code at x3000, ends with BR to itself
    code: Vec<u16>,
    data: Vec<(u16, u16)>,
    sup: bool,
    kb_ie: bool,
    input: Vec<u8>,
    /// what has to be in the display
    out: Vec<u8>,
    /// what the program has to have stored from x4000 on
    got: Vec<u16>,
    /// steps it takes without contention
    steps: usize,
}
fn programs() -> Vec<Prog> {
    let p = |name, code: &[u16], data: &[(u16, u16)], input: &[u8], out: &[u8], got: &[u16]| Prog {
        name,
        code: code.to_vec(),
        data: data.to_vec(),
        sup: false,
        kb_ie: false,
        input: input.to_vec(),
        out: out.to_vec(),
        got: got.to_vec(),
        steps: 0,
    };
    let io = |c: &[u16]| c.to_vec();
    let mut v = vec![
        // GETC; OUT; STR R0,R1,#0; ADD R1,R1,#1; ADD R2,R2,#-1; BRp -6; BR -1
        p("echo 1", &[0xF020, 0xF021, 0x7040, 0x1261, 0x14BF, 0x03FA, 0x0FFF], &[(2, 1)], b"a", b"a", &[0x61]),
        p("echo 2", &[0xF020, 0xF021, 0x7040, 0x1261, 0x14BF, 0x03FA, 0x0FFF], &[(2, 2)], b"\x00\xFF", b"\x00\xFF", &[0, 0xFF]),
        p("echo 3, same bytes", &[0xF020, 0xF021, 0x7040, 0x1261, 0x14BF, 0x03FA, 0x0FFF], &[(2, 3)], b"aab", b"aab", &[0x61, 0x61, 0x62]),
        p("read 3, leave 2", &[0xF020, 0x7040, 0x1261, 0x14BF, 0x03FB, 0x0FFF], &[(2, 3)], b"xxyzz", b"", &[0x78, 0x78, 0x79]),
        // LEA R0; PUTS; BR -1
        p("puts", &[0xE002, 0xF022, 0x0FFF, 0x68, 0x68, 0x69, 0], &[], b"", b"hhi", &[]),
        p("putsp", &[0xE002, 0xF024, 0x0FFF, 0x6262, 0x6362, 0x0064, 0], &[], b"", b"bbbcd", &[]),
        p("in", &[0xF023, 0x7040, 0x0FFF], &[], b"q", b"Input character: q", &[0x71]),
    ];
    // own polling loops, in supervisor mode:
    // LDI R0,KBSR; BRzp -2; LDI R0,KBDR; STR R0,R1,#0; ADD R1,R1,#1; LDI R3,DSR; BRzp -2; STI R0,DDR; ADD R2,R2,#-1; BRp -10; BR -1
    let polls = io(&[0xA00A, 0x07FE, 0xA009, 0x7040, 0x1261, 0xA607, 0x07FE, 0xB006, 0x14BF, 0x03F6, 0x0FFF, KBSR, KBDR, DSR, DDR]);
    v.push(Prog { sup: true, ..p("own loops", &polls, &[(2, 3)], b"mno", b"mno", &[0x6D, 0x6E, 0x6F]) });
    // an interrupt handler that waits for KBSR, reads, waits for DSR, writes: the main program spins
    // handler at x1000: LDI R0,KBSR; BRzp -2; LDI R0,KBDR; STR; ADD R1; LDI R3,DSR; BRzp -2; STI R0,DDR; RTI
    let handler = [0xA008u16, 0x07FE, 0xA007, 0x7040, 0x1261, 0xA605, 0x07FE, 0xB004, 0x8000, KBSR, KBDR, DSR, DDR];
    let mut data: Vec<(u16, u16)> = code(0x1000, &handler).collect();
    data.push((0x180, 0x1000));
    v.push(Prog { kb_ie: true, ..p("interrupts", &[0x0FFF], &data, b"stt", b"stt", &[0x73, 0x74, 0x74]) });
    v
}
/// How the locks are held before step `i`: bit 0 the keyboard's, bit 1 the display's, bit 2: shared guards,
/// bits 3 and 4: a holder of the keyboard's or of the display's has panicked just before.
type Pattern<'a> = &'a dyn Fn(usize) -> u8;

thread_local! {
    static RG: std::cell::RefCell<Option<Rg>> = const { std::cell::RefCell::new(None) };
}
/// Does an access that meets a held lock wait for it? (Then only another thread can hold it.)
fn waits() -> bool {
    static W: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *W.get_or_init(|| {
        let mut r = Rg::new();
        let (kb, disp) = (r.kb.clone(), r.disp.clone());
        wr(&kb).push_back(1);
        let (a, b) = (wr(&kb), wr(&disp));
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = real_raw(|| {
                for p in [KBSR, KBDR, DSR] {
                    let _ = r.sim.read_mem(p, MemAccessCtx { privileged: true, strict: false, io_effects: true, track_access: true });
                }
                let _ = r.sim.write_mem(DDR, Word::new_init(1), MemAccessCtx::omnipotent());
                let _ = r.sim.step_in();
            });
            let _ = tx.send(());
        });
        let w = rx.recv_timeout(Duration::from_secs(3)).is_err();
        drop((a, b));
        w
    })
}
/// One step with the locks held as told.
fn step(r: &mut Rg, how: u8) -> Res {
    let sim = &mut r.sim;
    let err = |e| Fail { key: "error".into(), msg: format!("the program fails with {e:?}") };
    if how & 8 != 0 {
        poison(&r.kb);
    }
    if how & 16 != 0 {
        poison(&r.disp);
    }
    if how & 3 == 0 {
        return real("step_in", || sim.step_in())?.map_err(err);
    }
    if !waits() {
        let (kb, disp) = (r.kb.clone(), r.disp.clone());
        let shared = how & 4 != 0;
        let _a = (how & 1 != 0 && !shared).then(|| wr(&kb));
        let _b = (how & 2 != 0 && !shared).then(|| wr(&disp));
        let _c = (how & 1 != 0 && shared).then(|| rd(&kb));
        let _d = (how & 2 != 0 && shared).then(|| rd(&disp));
        return real("step_in", || sim.step_in())?.map_err(err);
    }
    let (kb, disp) = (r.kb.clone(), r.disp.clone());
    // another thread holds them, until the step is over or clearly waits
    let (held, is_held) = mpsc::channel();
    let (done, is_done) = mpsc::channel::<()>();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _a = (how & 1 != 0).then(|| wr(&kb));
            let _b = (how & 2 != 0).then(|| wr(&disp));
            held.send(()).unwrap();
            let _ = is_done.recv_timeout(Duration::from_millis(1));
        });
        is_held.recv().unwrap();
        let x = real("step_in", || sim.step_in());
        let _ = done.send(());
        x
    })?
    .map_err(err)
}
/// Runs the program with the locks held as the pattern says for its first `n` steps, and free after that.
fn run(p: &Prog, n: usize, pat: Pattern, late: &[(usize, u8)], desc: &dyn Fn() -> String) -> Res<usize> {
    let mut r = match RG.with(|r| r.borrow_mut().take()) {
        Some(r) => r,
        None => real("Simulator::new", Rg::new)?,
    };
    // fresh devices: nothing is left of the case before
    r.kb = Kb::default();
    r.disp = Disp::default();
    let sim = &mut r.sim;
    sim.device_handler.set_keyboard(BufferedKeyboard::new(r.kb.clone()));
    sim.device_handler.set_display(BufferedDisplay::new(r.disp.clone()));
    let early = p.input.len() - late.len();
    wr(&r.kb).extend(&p.input[..early]);
    for (a, w) in code(0x3000, &p.code) {
        sim.mem[a] = Word::new_init(w);
    }
    for i in 0..8 {
        sim.reg_file[REGS[i]] = Word::new_init(0);
    }
    sim.reg_file[REGS[1]] = Word::new_init(0x4000);
    for &(a, v) in &p.data {
        if a < 8 {
            sim.reg_file[REGS[a as usize]] = Word::new_init(v);
        } else {
            sim.mem[a] = Word::new_init(v);
        }
    }
    for a in 0x4000..0x4010 + p.got.len() as u16 {
        sim.mem[a] = Word::new_init(0xDEAD);
    }
    sim.pc = 0x3000;
    let omni = MemAccessCtx::omnipotent();
    let _ = sim.write_mem(PSR, Word::new_init(if p.sup { 2 } else { 0x8002 }), omni);
    let _ = sim.write_mem(KBSR, Word::new_init((p.kb_ie as u16) << 14), omni);
    sim.frame_stack = Default::default();
    if p.sup {
        sim.reg_file[REGS[6]] = Word::new_init(0x3000);
    }
    let last = 0x3000 + p.code.iter().position(|&w| w == 0x0FFF).unwrap() as u16;
    let mut i = 0;
    let mut quiet = 0;
    let mut arrived = 0;
    while quiet < 4 {
        for l in late.iter().skip(arrived).take_while(|l| l.0 <= i) {
            wr(&r.kb).push_back(l.1);
            arrived += 1;
        }
        let how = if i < n { pat(i) } else { 0 };
        step(&mut r, how)?;
        i += 1;
        if rd(&r.disp).as_slice() != &p.out[..rd(&r.disp).len().min(p.out.len())] {
            return fail("output", format!("{}: step {i}: the display shows {:02X?}, want {:02X?}", desc(), rd(&r.disp), p.out));
        }
        let over = r.sim.pc == last && r.sim.psr().priority() == 0 && arrived == late.len();
        let over = over && (!p.kb_ie || (0..p.got.len()).all(|j| r.sim.mem[0x4000 + j as u16].get() != 0xDEAD));
        // a few steps with free locks: buffers may be brought up to date between instructions
        quiet = if over && i >= n { quiet + 1 } else { 0 };
        if i > 5000 {
            return fail("stuck", format!("{}: the program does not end (pc x{:04X}, display {:02X?}, keys left {:02X?})", desc(), r.sim.pc, rd(&r.disp), rd(&r.kb)));
        }
    }
    let d = rd(&r.disp).clone();
    ensure!(d == p.out, "output", "{}: the display shows {d:02X?}, want {:02X?}", desc(), p.out);
    for (j, &w) in p.got.iter().enumerate() {
        let g = r.sim.mem[0x4000 + j as u16].get();
        ensure!(g == w, "input", "{}: the program read x{g:04X} as byte {j}, want x{w:04X}", desc());
    }
    let g = r.sim.mem[0x4000 + p.got.len() as u16].get();
    ensure!(g == 0xDEAD, "input", "{}: the program read more than {} bytes", desc(), p.got.len());
    let left: Vec<u8> = rd(&r.kb).iter().copied().collect();
    ensure!(left == p.input[p.got.len()..], "queue", "{}: {left:02X?} are left in the queue, want {:02X?}", desc(), &p.input[p.got.len()..]);
    RG.with(|x| *x.borrow_mut() = Some(r));
    Ok(i)
}
fn done(c: &mut Case, n: usize) -> Res {
    c.trans(n as u64);
    c.trace();
    Ok(())
}
fn dry() -> Res<Vec<Prog>> {
    let mut ps = programs();
    for p in &mut ps {
        p.steps = run(p, 0, &|_| 0, &[], &|| format!("{} without contention", p.name))?;
    }
    Ok(ps)
}
fn main() {
    let mut k = Check::new("C33");
    k.assume("locks are taken and released between instructions, as the property says, by a holder that does not change what is in the buffers except for adding input at the end; after the pattern the locks are free, and the buffers are compared 4 steps later");
    let ps: Vec<Prog> = match dry() {
        Ok(p) => p,
        Err(f) => {
            // uncontended behaviour is wrong already: report it through a family
            let m = f.msg.clone();
            k.family("no contention", "the programs without contention", 0, move |_, _| fail("uncontended", m.clone()));
            k.run()
        }
    };
    let ps: &'static [Prog] = ps.leak();
    let slow = waits();
    let w = if slow { 3 } else { k.tier(10, 15) };
    let names: Vec<_> = ps.iter().map(|p| format!("{} ({} steps)", p.name, p.steps)).collect();
    k.family("windows", &format!("{}: every one of the 2^{w} lock-holding patterns over {w} consecutive instruction boundaries, at every boundary, for the keyboard's lock, the display's, or both", names.join(", ")), 0, move |ch, c| {
        let p = &ps[ch.choose(ps.len())];
        let off = ch.choose(p.steps);
        let which = 1 + ch.choose(3) as u8;
        // a lock that this program never meets
        if which == 1 && p.input.is_empty() || which == 2 && p.out.is_empty() {
            return Ok(());
        }
        let bits = ch.choose(1 << w);
        let desc = || format!("{}, lock {which} held from boundary {off}: {bits:0w$b} (latest first)", p.name);
        c.describe_lazy(desc);
        c.state(&(p.name, off, which, bits));
        done(c, run(p, off + w, &|i| if i >= off && bits >> (i - off) & 1 != 0 { which } else { 0 }, &[], &desc)?)
    });
    let w2 = if slow { 2 } else { k.tier(5, 7) };
    k.family("windows of both locks", &format!("every one of the 4^{w2} patterns of the two locks over {w2} consecutive boundaries, at every boundary"), 0, move |ch, c| {
        let p = &ps[ch.choose(ps.len())];
        let off = ch.choose(p.steps);
        let bits = ch.choose(1 << (2 * w2));
        let desc = || format!("{}, locks held from boundary {off}: {bits:0w$b} (latest first, 1: keyboard, 2: display)", p.name, w = 2 * w2);
        c.describe_lazy(desc);
        c.state(&(p.name, off, bits));
        done(c, run(p, off + w2, &|i| if i >= off { (bits >> (2 * (i - off)) & 3) as u8 } else { 0 }, &[], &desc)?)
    });
    let most = if slow { 1 } else { k.tier(2, 3) };
    k.family("intervals", &format!("up to {most} intervals (any start, lengths 1, 2, 4 and 40, either lock by an exclusive guard or both by shared guards), at any of the first 60 boundaries"), most, move |ch, c| {
        let p = &ps[ch.choose(ps.len())];
        let mut h = vec![0u8; 140];
        let mut d = vec![];
        for i in 0..60usize.min(p.steps + 20) {
            let x = ch.dev(13);
            if x > 0 {
                let (what, len) = ((x - 1) % 3, [1, 2, 4, 40][(x - 1) / 3]);
                let how = [1, 2, 7][what];
                d.push((i, len, how));
                for y in &mut h[i..i + len] {
                    *y |= how;
                }
            }
        }
        let desc = || format!("{}, (boundary, length, lock) {d:?}", p.name);
        c.describe_lazy(desc);
        c.state(&(p.name, &d));
        done(c, run(p, 130, &|i| h[i], &[], &desc)?)
    });
    k.family("holders that panic", "a holder of the keyboard's lock, the display's, or both panics between two instructions, at every boundary; one of the locks is held in every way over the 4 boundaries from the third before that on", 0, move |ch, c| {
        let p = &ps[ch.choose(ps.len())];
        let at = ch.choose(p.steps);
        let bad = 1 + ch.choose(3) as u8;
        let which = 1 + ch.choose(2) as u8;
        let bits = ch.choose(16);
        let desc = || format!("{}, holder of lock {bad} panics at boundary {at}, lock {which} held from {} on: {bits:04b} (latest first)", p.name, at as i32 - 3);
        c.describe_lazy(desc);
        c.state(&(p.name, at, bad, which, bits));
        let held = |i: usize| if i + 3 >= at && i <= at && bits >> (i + 3 - at) & 1 != 0 { which } else { 0 };
        done(c, run(p, at + 1, &|i| held(i) | if i == at { bad << 3 } else { 0 }, &[], &desc)?)
    });
    k.family("late input", "input that arrives one byte at a time at any boundary (every spacing of the first and second byte), with every pattern of period 1 to 4 of the keyboard's lock", 0, move |ch, c| {
        let p = &ps[ch.choose(ps.len())];
        if p.input.is_empty() {
            return Ok(());
        }
        let a = ch.choose(40);
        let b = a + if p.input.len() > 1 { ch.choose(40) } else { 0 };
        let per = 1 + ch.choose(if slow { 2 } else { 4 });
        let bits = ch.choose(1 << per);
        let late: Vec<(usize, u8)> = p.input.iter().enumerate().map(|(i, &x)| ([a, b][i.min(1)] + i.saturating_sub(1), x)).collect();
        let desc = || format!("{}, bytes arrive at {late:?}, keyboard lock pattern {bits:0per$b} repeated", p.name);
        c.describe_lazy(desc);
        c.state(&(p.name, a, b, per, bits));
        done(c, run(p, 150, &|i| (bits >> (i % per) & 1) as u8, &late, &desc)?)
    });
    let per = if slow { 3 } else { k.tier(10, 12) };
    let len = k.tier(24, 100);
    k.family("long inputs", &format!("echo of {len} bytes and output of {len} bytes under every repeated pattern of period 1 to {per} for one lock, and 1 to {} for both", per / 2), 0, move |ch, c| {
        let both = ch.flag();
        let m = 1 + ch.choose(if both { per / 2 } else { per });
        let which = if both { 3 } else { 1 + ch.choose(2) as u8 };
        let bits = ch.choose(1 << if both { 2 * m } else { m });
        let input: Vec<u8> = (0..len).map(|i| (i * 37 % 5 + 65) as u8).collect();
        let own = ch.flag();
        let base = &ps[if own { ps.iter().position(|p| p.name == "own loops").unwrap() } else { 0 }];
        let p = Prog { name: base.name, code: base.code.clone(), data: vec![(2, len as u16)], sup: base.sup, kb_ie: false, out: input.clone(), got: vec![], input: input.clone(), steps: 0 };
        let got: Vec<u16> = input.iter().map(|&b| b as u16).collect();
        let p = Prog { got, ..p };
        let desc = || format!("echo of {len} bytes ({}), locks {which}, pattern {bits:b} of period {m}", p.name);
        c.describe_lazy(desc);
        c.state(&(both, m, which, bits, own));
        let n = run(
            &p,
            1500,
            &|i| {
                let i = i % m;
                if both { (bits >> (2 * i) & 3) as u8 } else if bits >> i & 1 != 0 { which } else { 0 }
            },
            &[],
            &desc,
        )?;
        done(c, n)
    });
    if !slow {
        // GETC; OUT; HALT and LEA R0; PUTS; HALT and, in supervisor mode, LDI; BRzp; LDI; LDI; BRzp; STI; HALT
        let ends: &'static [(&str, Vec<u16>, bool, &[u8], &[u8])] = vec![
            ("GETC, OUT, HALT", vec![0xF020, 0xF021, 0xF025], false, &b"ab"[..], &b"a"[..]),
            ("PUTS, HALT", vec![0xE002, 0xF022, 0xF025, 0x68, 0x69, 0], false, b"", b"hi"),
            ("PUTSP, HALT", vec![0xE002, 0xF024, 0xF025, 0x6968, 0x6A, 0], false, b"", b"hij"),
            ("IN, HALT", vec![0xF023, 0xF025], false, b"z", b"Input character: z"),
            ("own loops, HALT", vec![0xA006, 0x07FE, 0xA005, 0xA205, 0x07FE, 0xB004, 0xF025, KBSR, KBDR, DSR, DDR], true, b"k", b"k"),
            ("own loops, MCR", vec![0xA008, 0x07FE, 0xA007, 0xA207, 0x07FE, 0xB006, 0x5020, 0xB005, 0x0FFF, KBSR, KBDR, DSR, DDR, 0xFFFE], true, b"k", b"k"),
        ]
        .leak();
        let w = k.tier(8, 13);
        k.family("to the end", &format!("{}, each with virtual and real traps, run to its end: every one of the 2^{w} patterns over {w} consecutive boundaries of the keyboard's lock, the display's, or both, at every boundary; nothing is executed after the machine stops, and the buffers are compared when the locks are free", ends.iter().map(|e| e.0).collect::<Vec<_>>().join("; ")), 0, move |ch, c| {
            let e = &ends[ch.choose(ends.len())];
            let real_traps = ch.flag();
            let which = 1 + ch.choose(3) as u8;
            // how many steps does it take?
            let n = end_run(e, real_traps, 0, &|_| 0, &|| format!("{}, real traps {real_traps}, without contention", e.0))?;
            let off = ch.choose(n);
            let bits = ch.choose(1 << w);
            let desc = || format!("{}, real traps {real_traps}, lock {which} held from boundary {off}: {bits:0w$b} (latest first)", e.0);
            c.describe_lazy(desc);
            c.state(&(e.0, real_traps, which, off, bits));
            let n = end_run(e, real_traps, off + w, &|i| if i >= off && bits >> (i - off) & 1 != 0 { which } else { 0 }, &desc)?;
            done(c, n)
        });
    }
    k.run()
}
/// Runs the program until the machine stops.
fn end_run(e: &(&str, Vec<u16>, bool, &[u8], &[u8]), real_traps: bool, n: usize, pat: Pattern, desc: &dyn Fn() -> String) -> Res<usize> {
    let mut r = match RG.with(|r| r.borrow_mut().take()) {
        Some(r) => r,
        None => real("Simulator::new", Rg::new)?,
    };
    r.kb = Kb::default();
    r.disp = Disp::default();
    let (kb, disp) = (r.kb.clone(), r.disp.clone());
    let sim = &mut r.sim;
    sim.flags.use_real_traps = real_traps;
    sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
    sim.device_handler.set_display(BufferedDisplay::new(disp.clone()));
    wr(&kb).extend(e.3);
    for (a, w) in code(0x3000, &e.1) {
        sim.mem[a] = Word::new_init(w);
    }
    for i in 0..8 {
        sim.reg_file[REGS[i]] = Word::new_init(if e.2 && i == 6 { 0x3000 } else { 0 });
    }
    sim.pc = 0x3000;
    sim.frame_stack = Default::default();
    let omni = MemAccessCtx::omnipotent();
    let _ = sim.write_mem(PSR, Word::new_init(if e.2 { 2 } else { 0x8002 }), omni);
    // (the machine may have stopped in supervisor mode)
    let _ = sim.write_mem(SSP_PORT, Word::new_init(0x3000), omni);
    let mut ga = None;
    let mut gb = None;
    let mut i = 0;
    let res = real("run_while", || {
        sim.run_while(|_| {
            ga = None;
            gb = None;
            let how = if i < n { pat(i) } else { 0 };
            if how & 1 != 0 {
                ga = Some(wr(&kb));
            }
            if how & 2 != 0 {
                gb = Some(wr(&disp));
            }
            i += 1;
            i < 20_000
        })
    })?;
    drop((ga, gb));
    ensure!(res.is_ok(), "error", "{}: the program fails with {res:?}", desc());
    ensure!(i < 20_000, "stuck", "{}: the program does not end (pc x{:04X})", desc(), sim.pc);
    let d = rd(&disp).clone();
    ensure!(d == e.4, "output", "{}: the display shows {:?} after the end, want {:?}", desc(), String::from_utf8_lossy(&d), String::from_utf8_lossy(e.4));
    sim.flags.use_real_traps = false;
    RG.with(|x| *x.borrow_mut() = Some(r));
    Ok(i)
}
