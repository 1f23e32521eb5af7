//! C34: timer interrupts follow the configured interval.
use lc3_ensemble::sim::device::{ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{MemAccessCtx, SimFlags, Simulator};
use mc::isa::*;
use mc::rig::REGS;
use mc::simfam::code;
use mc::*;
use std::ops::Bound::{self, *};
use std::sync::{Arc, Mutex, RwLock};

/// A range as it is given to the timer.
type Rng = (Bound<u32>, Bound<u32>);
/// The smallest and largest interval (none: there is none).
fn limits(r: Rng) -> (u32, u32) {
    let lo = match r.0 {
        Included(a) => a,
        Excluded(a) => a + 1,
        Unbounded => 0,
    };
    let hi = match r.1 {
        Included(a) => a,
        Excluded(a) => a - 1,
        Unbounded => u32::MAX,
    };
    (lo, hi)
}
/// What has to hold of the polls of one timer.
#[derive(Clone, Debug, Default)]
struct Auto {
    on: bool,
    /// polls without an interrupt since the last one, if the timer was not touched since
    since: Option<u64>,
    /// polls since it was enabled or reset, if there was no interrupt since
    start: Option<u64>,
    /// nothing is known (the range was changed and the timer not reset since)
    free: bool,
}
impl Auto {
    fn restart(&mut self) {
        self.since = None;
        self.start = Some(0);
    }
    fn enable(&mut self, on: bool) {
        if on != self.on {
            self.on = on;
            self.restart();
        }
    }
    fn reset(&mut self) {
        self.free = false;
        self.restart();
    }
    fn poll(&mut self, r: Rng, fired: bool) -> Result<(), String> {
        let (lo, hi) = limits(r);
        if !self.on {
            return if fired { Err("a disabled timer raises an interrupt".into()) } else { Ok(()) };
        }
        // an exact count of 0 is not specified
        if (lo, hi) == (0, 0) {
            return Ok(());
        }
        if fired {
            if let (Some(n), false) = (self.since, self.free) {
                if n < lo as u64 || n > hi as u64 {
                    return Err(format!("{n} polls between two interrupts, want {lo}..={hi}"));
                }
            }
            self.since = Some(0);
            self.start = None;
            return Ok(());
        }
        if let Some(n) = &mut self.since {
            *n += 1;
            if *n > hi as u64 && !self.free {
                return Err(format!("{n} polls without an interrupt after the last one, want at most {hi}"));
            }
        }
        if let Some(n) = &mut self.start {
            *n += 1;
            // "at most one poll later than the maximum": the interrupt is at poll hi + 1 at the latest
            if *n > hi as u64 && !self.free {
                return Err(format!("{n} polls without an interrupt since the timer was enabled or reset, want at most {hi}"));
            }
        }
        Ok(())
    }
}
fn ranges(max: u32) -> Vec<(Rng, bool)> {
    let mut v = vec![];
    for n in 0..=max {
        v.push(((Included(n), Included(n)), true));
    }
    for lo in 0..max {
        for hi in lo..=max.min(lo + 4) {
            v.push(((Included(lo), Included(hi)), false));
            v.push(((Included(lo), Excluded(hi + 1)), false));
            if lo > 0 {
                v.push(((Excluded(lo - 1), Included(hi)), false));
            }
        }
    }
    for hi in 1..=4 {
        v.push(((Unbounded, Included(hi)), false));
        v.push(((Unbounded, Excluded(hi + 1)), false));
    }
    v
}
fn timer(seed: u64, r: Rng, exact: bool) -> Res<TimerDevice> {
    real("TimerDevice::new", || {
        if exact && seed % 2 == 1 {
            let mut t = TimerDevice::new(Some(seed), 7..=9, 0x81, 4);
            let n = limits(r).0;
            t.set_exact(n);
            t.reset_remaining();
            t
        } else {
            TimerDevice::new(Some(seed), r, 0x81, 4)
        }
    })
}
fn fires(t: &mut TimerDevice) -> Res<bool> {
    real("poll_interrupt", || t.poll_interrupt().is_some())
}
fn range_str(r: Rng) -> String {
    let (lo, hi) = limits(r);
    format!("{r:?} (that is {lo}..={hi})")
}
fn main() {
    let mut k = Check::new("C34");
    k.assume("the intervals a seed produces are those of the timer's own generator: every seed of a stated set is explored, not every generator; ranges of one value 0 are not specified and only explored for panics, disabled timers and reproducibility");
    k.assume("the number of polls between two interrupts is compared if the timer was not reset, enabled or disabled in between");
    let rs: &'static [(Rng, bool)] = ranges(k.tier(8, 14)).leak();
    let seeds = k.tier(24u64, 400);
    k.family("direct", &format!("{} ranges (exact counts, inclusive, exclusive and unbounded bounds) x {seeds} seeds, 600 polls, and a second timer of the same configuration that gives the same sequence", rs.len()), 0, move |ch, c| {
        let &(r, exact) = ch.pick(rs);
        let seed = ch.choose(seeds as usize) as u64;
        let desc = || format!("range {}, seed {seed}", range_str(r));
        c.describe_lazy(desc);
        let (mut t, mut u) = (timer(seed, r, exact)?, timer(seed, r, exact)?);
        let mut a = Auto::default();
        for i in 0..seed % 5 {
            ensure!(!fires(&mut t)? && !fires(&mut u)?, "disabled", "{}: poll {i} of the new (disabled) timer raises an interrupt", desc());
        }
        t.enabled = true;
        u.enabled = true;
        a.enable(true);
        let mut gaps = vec![];
        for i in 0..600 {
            let f = fires(&mut t)?;
            if f {
                gaps.push(a.since);
            }
            if let Err(m) = a.poll(r, f) {
                return fail("interval", format!("{}: poll {i}: {m}", desc()));
            }
            ensure!(fires(&mut u)? == f, "same seed", "{}: poll {i}: two timers of the same seed differ", desc());
        }
        // which sequences of intervals were seen
        c.state(&(limits(r), &gaps));
        c.trans(600);
        c.trace();
        Ok(())
    });
    let most = k.tier(2, 3);
    let polls = k.tier(24, 40);
    k.family("operations", &format!("every placement of up to {most} operations (disable, enable, disable and enable, reset_remaining, io_reset, poll while disabled, set the same range) at any of the {polls} first polls, over ranges up to 5 and 3 seeds; each followed by 40 polls; the same on a twin"), most, move |ch, c| {
        let small: Vec<_> = rs.iter().filter(|r| limits(r.0).1 <= 5).collect();
        let &&(r, exact) = ch.pick(&small);
        let seed = ch.choose(3) as u64;
        let on = ch.flag();
        let (mut t, mut u) = (timer(seed, r, exact)?, timer(seed, r, exact)?);
        let mut a = Auto::default();
        t.enabled = on;
        u.enabled = on;
        a.enable(on);
        let mut ops = vec![];
        let names = ["", "disable", "enable", "disable+enable", "reset_remaining", "io_reset", "disable+3 polls+enable", "set_range", "disable+reset_remaining+enable"];
        for i in 0..polls + 40 {
            if i < polls {
                let o = ch.dev(names.len());
                if o > 0 {
                    ops.push((i, names[o]));
                    let mut e = Ok(());
                    for (x, main) in [(&mut t, true), (&mut u, false)] {
                        real("operation", || match o {
                            1 => x.enabled = false,
                            2 => x.enabled = true,
                            3 => {
                                x.enabled = false;
                                x.enabled = true;
                            }
                            4 => x.reset_remaining(),
                            5 => x.io_reset(),
                            6 => {
                                x.enabled = false;
                                for _ in 0..3 {
                                    if x.poll_interrupt().is_some() {
                                        e = Err("a disabled timer raises an interrupt".to_string());
                                    }
                                }
                                x.enabled = true;
                            }
                            7 => {
                                x.set_range(r);
                            }
                            _ => {
                                x.enabled = false;
                                x.reset_remaining();
                                x.enabled = true;
                            }
                        })?;
                        if main {
                            match o {
                                1 => a.enable(false),
                                2 => a.enable(true),
                                3 | 6 => {
                                    // (still the same interval if it was enabled: only its maximum is checked)
                                    a.on = false;
                                    a.enable(true);
                                }
                                4 | 5 => a.reset(),
                                7 => {}
                                _ => {
                                    a.on = false;
                                    a.enable(true);
                                    a.reset();
                                }
                            }
                        }
                    }
                    if let Err(m) = e {
                        return fail("disabled", format!("range {}, seed {seed}, enabled at first {on}, operations {ops:?}: {m}", range_str(r)));
                    }
                }
            }
            let f = fires(&mut t)?;
            if let Err(m) = a.poll(r, f) {
                return fail("interval", format!("range {}, seed {seed}, enabled at first {on}, operations (before poll) {ops:?}: poll {i}: {m}", range_str(r)));
            }
            ensure!(fires(&mut u)? == f, "same seed", "range {}, seed {seed}, operations {ops:?}: poll {i}: two timers of the same seed differ", range_str(r));
        }
        c.describe(|| format!("range {}, seed {seed}, enabled at first {on}, operations {ops:?}", range_str(r)));
        c.state(&(limits(r), seed, on, &ops));
        c.trans(polls as u64 + 40);
        c.trace();
        Ok(())
    });
    k.family("changed ranges", &format!("a timer whose range is changed (set_range or set_exact) after 0-30 polls from any range to any other up to 6 and then reset (at once, by reset_remaining or io_reset, or after some polls): intervals of the new range from then on, 60 polls"), 0, move |ch, c| {
        let small: Vec<_> = rs.iter().filter(|r| limits(r.0).1 <= 6 && (r.1 || matches!(r.0, (Included(_), Included(_))))).collect();
        let &&(r, exact) = ch.pick(&small);
        let &&(r2, exact2) = ch.pick(&small);
        let before = ch.choose(31);
        let between = ch.choose(3);
        let io = ch.flag();
        let desc = || format!("range {} changed to {} after {before} polls, reset {between} polls later (io_reset: {io})", range_str(r), range_str(r2));
        c.describe_lazy(desc);
        let mut t = timer(2, r, exact)?;
        t.enabled = true;
        for _ in 0..before {
            fires(&mut t)?;
        }
        real("set_range", || {
            if exact2 {
                t.set_exact(limits(r2).0);
            } else {
                t.set_range(r2);
            }
        })?;
        for _ in 0..between {
            fires(&mut t)?;
        }
        real("reset", || if io { t.io_reset() } else { t.reset_remaining() })?;
        let mut a = Auto::default();
        a.enable(true);
        for i in 0..60 {
            let f = fires(&mut t)?;
            if let Err(m) = a.poll(r2, f) {
                return fail("interval", format!("{}: poll {i} after the reset: {m}", desc()));
            }
        }
        c.state(&(limits(r), limits(r2), before, between, io));
        c.trans(60);
        c.trace();
        Ok(())
    });
    let big = k.tier(3000u32, 200_000);
    k.family("long intervals", &format!("exact counts around powers of two, ten and {big}, ranges of width 0, 1, 10, 300 and half from there, with 2 seeds, for 5 intervals; ranges up to u32::MAX and without end for 2000 polls without a panic and with reproducible results"), 0, move |ch, c| {
        let mut ns = vec![big, big - 1, 50, 100, 1000];
        for b in 4..31 {
            let p = 1u32 << b;
            if p < big {
                ns.extend([p - 1, p, p + 1]);
            }
        }
        let n = *ch.pick(&ns);
        let seed = ch.choose(2) as u64;
        let x = ch.choose(8);
        let lo = n;
        let r: Rng = match x {
            0 => (Included(lo), Included(lo)),
            1 => (Included(lo), Included(lo + 1)),
            2 => (Included(lo), Excluded(lo + 11)),
            3 => (Excluded(lo), Included(lo + 300)),
            4 => (Included(lo / 2), Included(lo)),
            5 => (Included(lo), Unbounded),
            6 => (Included(lo), Excluded(u32::MAX)),
            _ => (Unbounded, Unbounded),
        };
        let desc = || format!("range {}, seed {seed}", range_str(r));
        c.describe_lazy(desc);
        let (mut t, mut u) = (timer(seed, r, false)?, timer(seed, r, false)?);
        t.enabled = true;
        u.enabled = true;
        let mut a = Auto::default();
        a.enable(true);
        let len = if x < 5 { 5 * (limits(r).1 as usize + 2) } else { 2000 };
        for i in 0..len {
            let f = fires(&mut t)?;
            if let Err(m) = a.poll(r, f) {
                return fail("interval", format!("{}: poll {i}: {m}", desc()));
            }
            ensure!(fires(&mut u)? == f, "same seed", "{}: poll {i}: two timers of the same seed differ", desc());
        }
        if x < 5 {
            ensure!(a.since.is_some(), "never", "{}: no interrupt in {len} polls", desc());
        }
        c.state(&(n, seed, x));
        c.trans(len as u64);
        c.trace();
        Ok(())
    });
    simulator(&mut k);
    k.run()
}
/// The standard wrappers a timer can be attached in.
#[derive(Clone)]
enum Wrap {
    L(Arc<RwLock<TimerDevice>>),
    M(Arc<Mutex<TimerDevice>>),
}
impl Wrap {
    fn with<T>(&self, f: impl FnOnce(&mut TimerDevice) -> T) -> T {
        match self {
            Wrap::L(x) => f(&mut x.write().unwrap()),
            Wrap::M(x) => f(&mut x.lock().unwrap()),
        }
    }
}
fn simulator(k: &mut Check) {
    // main program: 4 x (NOP ..), TRAP x21 with R0 = 'a', BR back; handlers count in memory (through saved registers)
    let steps = k.tier(160, 400);
    let most = k.tier(1, 2);
    k.family("in the simulator", &format!("1 or 2 timers attached (directly, behind a RwLock or a Mutex) with ranges of up to 5 polls, priorities 0-7 and 9, 3 program priorities, handlers of 1 instruction or with a loop, up to {most} operations (toggle, reset_remaining, Simulator::reset and restart) at any of the first 30 steps: {steps} steps, each step enters the handler exactly when the timer (a twin polled once per step, which is compared with the interval rules) raises an interrupt of higher priority"), most, move |ch, c| {
        let rs: [Rng; 8] = [(Included(1), Included(1)), (Included(2), Included(2)), (Included(5), Included(5)), (Included(3), Excluded(4)), (Included(1), Included(4)), (Unbounded, Included(3)), (Excluded(1), Included(5)), (Included(0), Excluded(3))];
        let n = 1 + ch.choose(2);
        let wrap = ch.choose(3);
        let main_prio = [0u16, 3, 6][ch.choose(3)];
        let long = ch.flag();
        let mut cfg = vec![];
        for i in 0..n {
            let r = *ch.pick(&rs);
            let prio = if i == 0 { [0u8, 1, 3, 4, 7, 9][ch.choose(6)] } else { [2u8, 5][ch.choose(2)] };
            cfg.push((r, prio, 0x81 + i as u8, 5 + i as u64));
        }
        let mut sim = match SIM.with(|s| s.borrow_mut().take()) {
            Some(s) => s,
            None => real("Simulator::new", || Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() }))?,
        };
        sim.device_handler = Default::default();
        let omni = MemAccessCtx::omnipotent();
        let setup = |sim: &mut Simulator| {
            let main = [0x1021u16, 0x5260, 0x0E00, 0x1021, 0x0FFB];
            let handler: &[u16] = if long { &[0x1021, 0x1021, 0x1021, 0x8000] } else { &[0x8000] };
            for (a, w) in code(0x3000, &main).chain(code(0x1000, handler)).chain(code(0x1100, handler)) {
                sim.mem[a] = Word::new_init(w);
            }
            sim.mem[0x181] = Word::new_init(0x1000);
            sim.mem[0x182] = Word::new_init(0x1100);
            sim.pc = 0x3000;
            for r in REGS {
                sim.reg_file[r] = Word::new_init(0);
            }
            sim.reg_file[REGS[6]] = Word::new_init(0x3000);
            sim.frame_stack = Default::default();
            let _ = sim.write_mem(PSR, Word::new_init(main_prio << 8 | 2), omni);
        };
        setup(&mut sim);
        let (mut ts, mut twins, mut autos) = (vec![], vec![], vec![]);
        for &(r, prio, vect, seed) in &cfg {
            let mk = || real("TimerDevice::new", || TimerDevice::new(Some(seed), r, vect, prio));
            let mut t = mk()?;
            t.enabled = true;
            let mut u = mk()?;
            u.enabled = true;
            let mut a = Auto::default();
            a.enable(true);
            match wrap {
                0 => {
                    let _ = sim.device_handler.add_device(t, &[]);
                }
                1 => {
                    let t = Arc::new(RwLock::new(t));
                    let _ = sim.device_handler.add_device(t.clone(), &[]);
                    ts.push(Wrap::L(t));
                }
                _ => {
                    let t = Arc::new(Mutex::new(t));
                    let _ = sim.device_handler.add_device(t.clone(), &[]);
                    ts.push(Wrap::M(t));
                }
            }
            twins.push(u);
            autos.push(a);
        }
        let mut ops: Vec<(usize, &str)> = vec![];
        let desc = |ops: &Vec<(usize, &str)>| format!("timers (range, priority, vector, seed) {cfg:?}, wrapper {wrap}, program at priority {main_prio}, long handler {long}, operations {ops:?}");
        for i in 0..steps {
            if i < 30 {
                let o = ch.dev(if wrap == 0 { 2 } else { 4 });
                if o > 0 {
                    ops.push((i, ["reset", "toggle", "reset_remaining"][o - 1]));
                    match o {
                        1 => {
                            real("reset", || sim.reset())?;
                            setup(&mut sim);
                            for (u, a) in twins.iter_mut().zip(&mut autos) {
                                u.io_reset();
                                a.reset();
                            }
                        }
                        2 => {
                            ts[0].with(|t| t.enabled = !t.enabled);
                            twins[0].enabled = !twins[0].enabled;
                            let on = !autos[0].on;
                            autos[0].enable(on);
                        }
                        _ => {
                            ts[0].with(|t| t.reset_remaining());
                            twins[0].reset_remaining();
                            autos[0].reset();
                        }
                    }
                }
            }
            let now = sim.psr().priority();
            let mut want: Option<(u8, u8)> = None;
            for (j, u) in twins.iter_mut().enumerate() {
                let f = fires(u)?;
                if let Err(m) = autos[j].poll(cfg[j].0, f) {
                    return fail("interval", format!("{}: poll {i} of timer {j}: {m}", desc(&ops)));
                }
                let p = cfg[j].1.min(7);
                if f && p > now && want.is_none_or(|w| p > w.0) {
                    want = Some((p, cfg[j].2));
                }
            }
            let before = sim.pc;
            let depth = sim.frame_stack.len();
            if let Err(e) = real("step_in", || sim.step_in())? {
                return fail("error", format!("{}: step {i} fails with {e:?}", desc(&ops)));
            }
            let entered = (sim.frame_stack.len() > depth).then(|| (sim.psr().priority(), if sim.pc == 0x1000 { 0x81 } else { 0x82 }));
            ensure!(entered == want, "entry", "{}: step {i} (pc x{before:04X}, priority {now}): (priority, vector) entered: {entered:X?}, want {want:X?}", desc(&ops));
        }
        c.describe(|| desc(&ops));
        c.state(&(format!("{cfg:?}"), wrap, main_prio, long, &ops));
        c.trans(steps as u64);
        c.trace();
        SIM.with(|s| *s.borrow_mut() = Some(sim));
        Ok(())
    });
}
thread_local! {
    static SIM: std::cell::RefCell<Option<Simulator>> = const { std::cell::RefCell::new(None) };
}
