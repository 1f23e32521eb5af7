//! The real simulator and the reference machine, side by side.
use crate::isa::*;
use crate::{ensure, fail, real, Case, Res};
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

pub const REGS: [Reg; 8] = [Reg::R0, Reg::R1, Reg::R2, Reg::R3, Reg::R4, Reg::R5, Reg::R6, Reg::R7];
/// Where the saved stack pointer is mapped.
pub const SSP_PORT: u16 = 0xFE10;
pub const RAM_PORTS: [u16; 4] = [0xFE20, 0xFE21, 0xFFFD, 0xFFFF];

/// A device that raises the request it was given, once.
pub struct Injector(pub Arc<AtomicU32>);
impl ExternalDevice for Injector {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let x = self.0.swap(0, SeqCst);
        (x != 0).then(|| Interrupt::vectored((x >> 8) as u8, x as u8))
    }
}
pub type Hook = Arc<Mutex<Option<Box<dyn FnMut() -> Option<(u8, u8)> + Send + Sync>>>>;
/// A device that runs the harness's code at every poll.
pub struct HookDevice(pub Hook);
impl ExternalDevice for HookDevice {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let (v, p) = self.0.lock().unwrap().as_mut()?()?;
        Some(Interrupt::vectored(v, p))
    }
}
#[derive(Default)]
pub struct RamState {
    pub vals: std::collections::BTreeMap<u16, u16>,
    pub log: Vec<(bool, u16, u16)>,
}
/// A device whose ports are memory; it records every effectful access.
pub struct Ram(pub Arc<Mutex<RamState>>);
impl ExternalDevice for Ram {
    fn io_read(&mut self, a: u16, eff: bool) -> Option<u16> {
        let mut s = self.0.lock().unwrap();
        let v = s.vals.get(&a).copied()?;
        if eff {
            s.log.push((false, a, v));
        }
        Some(v)
    }
    fn io_write(&mut self, a: u16, v: u16) -> bool {
        let mut s = self.0.lock().unwrap();
        s.vals.insert(a, v);
        s.log.push((true, a, v));
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}

#[derive(Clone, Debug, Hash)]
pub struct Start {
    pub pc: u16,
    pub psr: u16,
    pub ssp: u16,
    pub reg: [u16; 8],
    pub mem: Vec<(u16, u16)>,
    pub kb: Vec<u8>,
    pub kb_ie: bool,
    pub real: bool,
    pub ignore: bool,
    pub strict: bool,
    /// addresses that are uninitialized, and registers (a bit each)
    pub uninit: Vec<u16>,
    pub uninit_regs: u8,
    /// values of the recording device's ports
    pub ram: Vec<(u16, u16)>,
    /// the instruction counter (left alone by default)
    pub count: Option<u64>,
}
impl Default for Start {
    fn default() -> Self {
        Start {
            pc: 0x3000,
            psr: 0x8002,
            ssp: 0x3000,
            reg: [0; 8],
            mem: vec![],
            kb: vec![],
            kb_ie: false,
            real: false,
            ignore: false,
            strict: false,
            uninit: vec![],
            uninit_regs: 0,
            ram: vec![],
            count: None,
        }
    }
}

pub struct Rig {
    pub sim: Simulator,
    pub m: M,
    inj: Vec<Arc<AtomicU32>>,
    pub hook: Hook,
    pub kb: Arc<RwLock<VecDeque<u8>>>,
    pub disp: Arc<RwLock<Vec<u8>>>,
    pub ram: Arc<Mutex<RamState>>,
    count0: u64,
    pub steps: u64,
    pub debug_frames: bool,
    /// what the model did in the last step
    pub last: Ev,
    /// addresses that `restore_touched` has to put back
    pub touched: Vec<u16>,
    /// `start` leaves the frames alone
    pub keep_frames: bool,
    /// do not use this rig again
    pub dead: bool,
}

/// The memory of every rig before a start state is applied: the OS as loaded by the simulator, and a fixed pattern elsewhere.
pub fn pattern(a: u16) -> u16 {
    let x = (a as u32 ^ 0x5A5A).wrapping_mul(0x9E37_79B1);
    (x >> 13) as u16
}
pub fn os_words() -> Vec<(u16, u16)> {
    let sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() });
    (0..0x3000u16).filter(|&a| sim.mem[a].is_init()).map(|a| (a, sim.mem[a].get())).collect()
}

impl Rig {
    pub fn new(debug_frames: bool) -> Rig {
        let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames, ..Default::default() });
        let mut mem = vec![0u16; 65536];
        for a in 0..=0xFFFFu16 {
            if !sim.mem[a].is_init() {
                sim.mem[a] = Word::new_init(pattern(a));
            }
            mem[a as usize] = sim.mem[a].get();
        }
        sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP).unwrap();
        let kb = Arc::new(RwLock::new(VecDeque::new()));
        let disp = Arc::new(RwLock::new(vec![]));
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(disp.clone()));
        let inj: Vec<_> = (0..3).map(|_| Arc::new(AtomicU32::new(0))).collect();
        for i in &inj {
            assert!(sim.device_handler.add_device(Injector(i.clone()), &[]).is_ok());
        }
        let hook: Hook = Arc::default();
        assert!(sim.device_handler.add_device(HookDevice(hook.clone()), &[]).is_ok());
        let ram = Arc::new(Mutex::new(RamState::default()));
        assert!(sim.device_handler.add_device(Ram(ram.clone()), &RAM_PORTS).is_ok());
        let mut m = M::new(mem);
        m.ireg.insert(SSP_PORT, IReg::SavedSp);
        Rig { sim, m, inj, hook, kb, disp, ram, count0: 0, steps: 0, debug_frames, last: Ev::Instr, touched: vec![], keep_frames: false, dead: false }
    }
    pub fn poke(&mut self, a: u16, v: u16) {
        self.m.poke(a, v);
        self.sim.mem[a] = Word::new_init(v);
    }
    pub fn start(&mut self, s: &Start) -> Res {
        for &(a, v) in &s.mem {
            self.poke(a, v);
        }
        let sim = &mut self.sim;
        let m = &mut self.m;
        sim.flags.use_real_traps = s.real;
        sim.flags.ignore_privilege = s.ignore;
        sim.flags.strict = s.strict;
        (m.real, m.ignore) = (s.real, s.ignore);
        *self.kb.write().unwrap() = s.kb.iter().copied().collect();
        self.disp.write().unwrap().clear();
        m.kb = s.kb.iter().copied().collect();
        m.kb_ie = s.kb_ie;
        m.disp.clear();
        {
            let mut r = self.ram.lock().unwrap();
            r.vals = RAM_PORTS.iter().map(|&p| (p, 0xA000 | p & 0xFF)).collect();
            for &(p, v) in &s.ram {
                assert!(RAM_PORTS.contains(&p));
                r.vals.insert(p, v);
            }
            r.log.clear();
            m.ram = r.vals.clone();
            m.ram_log.clear();
        }
        (m.pc, m.psr, m.ssp, m.reg) = (s.pc, s.psr, s.ssp, s.reg);
        if !self.keep_frames {
            m.frames.clear();
        }
        m.count = 0;
        *self.hook.lock().unwrap() = None;
        for i in &self.inj {
            i.store(0, SeqCst);
        }
        sim.breakpoints.clear();
        let omni = MemAccessCtx::omnipotent();
        let r = real("write_mem", || {
            sim.pc = s.pc;
            for i in 0..8 {
                sim.reg_file[REGS[i]] = Word::new_init(s.reg[i]);
            }
            sim.write_mem(PSR, Word::new_init(s.psr), omni)?;
            sim.write_mem(SSP_PORT, Word::new_init(s.ssp), omni)?;
            sim.write_mem(KBSR, Word::new_init((s.kb_ie as u16) << 14), omni)
        })?;
        for &a in &s.uninit {
            sim.mem[a].clear_init();
            self.touched.push(a);
        }
        for i in 0..8 {
            if s.uninit_regs >> i & 1 != 0 {
                sim.reg_file[REGS[i]].clear_init();
            }
        }
        if self.keep_frames {
        } else if self.debug_frames {
            assert!(sim.frame_stack.is_empty() && sim.frame_stack.frames().is_some());
        } else {
            sim.frame_stack = Default::default();
        }
        ensure!(r.is_ok(), "setup", "cannot set PSR/saved SP through the mapped registers: {r:?}");
        sim.mcr().store(true, SeqCst);
        m.mcr = true;
        if let Some(n) = s.count {
            sim.instructions_run = n;
        }
        self.count0 = sim.instructions_run;
        for p in 0xFE00..=0xFFFFu16 {
            m.mem[p as usize] = sim.mem[p].get();
        }
        Ok(())
    }
    /// Arms devices so that they request these interrupts at the next poll.
    pub fn arm(&mut self, irqs: &[(u8, u8)]) {
        assert!(irqs.len() <= self.inj.len());
        for (i, &(v, p)) in irqs.iter().enumerate() {
            self.inj[i].store(1 << 16 | (v as u32) << 8 | p as u32, SeqCst);
        }
    }
    pub fn disarm(&mut self) {
        for i in &self.inj {
            i.store(0, SeqCst);
        }
    }
    /// One real step, without the model.
    pub fn real_step(&mut self) -> Res<Result<(), SimErr>> {
        let sim = &mut self.sim;
        real("step_in", || sim.step_in())
    }
    /// One step of both, compared.
    pub fn step(&mut self, irqs: &[(u8, u8)], c: &mut Case) -> Res<Ev> {
        self.arm(irqs);
        let pc0 = self.m.pc;
        let (w, psr0) = (self.m.mem[pc0 as usize], self.m.psr);
        let r = self.real_step()?;
        let ev = self.m.step(irqs);
        self.last = ev;
        self.steps += 1;
        // RTI may pop undefined PSR bits or condition codes: what becomes of them is not fixed
        let (g, w) = (self.sim.psr().get(), self.m.psr);
        let one = (w & 7).count_ones() == 1;
        if (w & !0x8707 != 0 || !one) && (g ^ w) & if one { 0x8707 } else { 0x8700 } == 0 {
            self.m.psr = g;
        }
        c.trans(1);
        let at = || format!("after x{w:04X} at x{pc0:04X} (psr x{psr0:04X}, interrupts {irqs:02X?}, model: {ev:X?})");
        let want = match ev {
            Ev::Err(e) => Some(e),
            _ => None,
        };
        let got = match &r {
            Ok(()) => None,
            Err(SimErr::AccessViolation) => Some(E::Acv),
            Err(SimErr::PrivilegeViolation) => Some(E::Priv),
            Err(SimErr::IllegalOpcode) => Some(E::IllOp),
            Err(SimErr::InvalidInstrFormat) => Some(E::Format),
            Err(e) => return fail("result", format!("{}: unexpected error {e:?}", at())),
        };
        ensure!(got == want, "result", "{}: step gives {r:?}, want {want:?}", at());
        if want.is_some() {
            let sim = &self.sim;
            let a = real("prefetch_pc", || sim.prefetch_pc())?;
            ensure!(a == pc0, "fault-address", "{}: reported fault address x{a:04X}", at());
        } else {
            ensure!(self.sim.pc == self.m.pc, "pc", "{}: pc x{:04X}, want x{:04X}", at(), self.sim.pc, self.m.pc);
        }
        self.compare(&at)?;
        Ok(ev)
    }
    pub fn real_ssp(&mut self) -> Res<u16> {
        let sim = &mut self.sim;
        match real("read_mem", || sim.read_mem(SSP_PORT, MemAccessCtx::omnipotent()))? {
            Ok(w) => {
                let w = w.get();
                // the mirror of the port in memory now holds this value in both
                self.m.mem[SSP_PORT as usize] = w;
                Ok(w)
            }
            Err(e) => fail("setup", format!("reading the saved SP: {e:?}")),
        }
    }
    /// Compares everything except the bulk of memory.
    pub fn compare(&mut self, at: &dyn Fn() -> String) -> Res {
        let ssp = self.real_ssp()?;
        let (sim, m) = (&self.sim, &self.m);
        for i in 0..8 {
            let g = sim.reg_file[REGS[i]].get();
            ensure!(g == m.reg[i], "registers", "{}: R{i} is x{g:04X}, want x{:04X}", at(), m.reg[i]);
        }
        let psr = sim.psr().get() & 0x8707;
        ensure!(psr == m.psr & 0x8707, "psr", "{}: PSR x{psr:04X}, want x{:04X}", at(), m.psr);
        ensure!(
            sim.psr().privileged() != m.user() && sim.psr().priority() == m.prio() && sim.psr().cc() as u16 == m.psr & 7,
            "psr",
            "{}: PSR views disagree {:?}",
            at(),
            sim.psr()
        );
        ensure!(ssp == m.ssp, "saved-sp", "{}: saved SP x{ssp:04X}, want x{:04X}", at(), m.ssp);
        let n = sim.instructions_run.wrapping_sub(self.count0);
        ensure!(n == m.count, "count", "{}: instructions run {n}, want {}", at(), m.count);
        for &(a, _) in &m.writes {
            let (g, w) = (sim.mem[a].get(), m.mem[a as usize]);
            ensure!(a >= 0xFE00 || g == w, "memory", "{}: mem[x{a:04X}] is x{g:04X}, want x{w:04X}", at());
        }
        ensure!(*self.kb.read().unwrap() == m.kb, "keyboard", "{}: keyboard queue {:02X?}, want {:02X?}", at(), self.kb.read().unwrap(), m.kb);
        ensure!(*self.disp.read().unwrap() == m.disp, "display", "{}: display {:02X?}, want {:02X?}", at(), self.disp.read().unwrap(), m.disp);
        ensure!(self.ram.lock().unwrap().log == m.ram_log, "device", "{}: device accesses {:04X?}, want {:04X?}", at(), self.ram.lock().unwrap().log, m.ram_log);
        let mcr = sim.mcr().load(SeqCst);
        ensure!(mcr == m.mcr, "mcr", "{}: MCR {mcr}, want {}", at(), m.mcr);
        Ok(())
    }
    /// As `step`, for a property that speaks about some differences only: those for which `mine` holds
    /// (given the model's event and the key of the difference) are violations, others end the case (None).
    pub fn scoped_step(&mut self, irqs: &[(u8, u8)], c: &mut Case, mine: impl Fn(Ev, &str) -> bool) -> Res<Option<Ev>> {
        match self.step(irqs, c) {
            Ok(ev) => Ok(Some(ev)),
            Err(f) if f.key.starts_with("panic") || mine(self.last, &f.key) => Err(f),
            Err(f) => {
                self.dead = true;
                c.outcome(&format!("left the comparison for a reason outside this property ({})", f.key));
                Ok(None)
            }
        }
    }
    /// Compares all of memory outside the I/O page.
    /// Compares memory outside the user region (and outside the I/O page).
    pub fn scan_supervisor(&self, at: &dyn Fn() -> String) -> Res {
        for a in 0..0x3000u16 {
            if self.sim.mem[a].get() != self.m.mem[a as usize] {
                return fail("memory", format!("{}: mem[x{a:04X}] is x{:04X}, want x{:04X}", at(), self.sim.mem[a].get(), self.m.mem[a as usize]));
            }
        }
        Ok(())
    }
    pub fn scan(&self, at: &dyn Fn() -> String) -> Res {
        let (mem, want) = (&self.sim.mem, &self.m.mem[..0xFE00]);
        let mut diff = 0u16;
        for (a, w) in want.iter().enumerate() {
            diff |= mem[a as u16].get() ^ w;
        }
        if diff == 0 {
            return Ok(());
        }
        for a in 0..0xFE00u16 {
            if self.sim.mem[a].get() != self.m.mem[a as usize] {
                return fail("memory", format!("{}: mem[x{a:04X}] is x{:04X}, want x{:04X}", at(), self.sim.mem[a].get(), self.m.mem[a as usize]));
            }
        }
        Ok(())
    }
    pub fn set_reg(&mut self, i: usize, v: u16) {
        self.m.reg[i] = v;
        self.sim.reg_file[REGS[i]] = Word::new_init(v);
    }
    /// Puts back all of memory without looking at it (for cases that do not step the model).
    pub fn restore(&mut self) {
        self.m.undo(|_, _| {});
        for (a, w) in self.m.mem[..0xFE00].iter().enumerate() {
            self.sim.mem[a as u16] = Word::new_init(*w);
        }
        self.clear_io();
    }
    /// Puts back what the case itself poked, and the addresses in `touched`.
    pub fn restore_touched(&mut self) {
        self.undo_only();
        for a in std::mem::take(&mut self.touched) {
            if a < 0xFE00 {
                self.sim.mem[a] = Word::new_init(self.m.mem[a as usize]);
            }
        }
        self.clear_io();
    }
    /// Puts back what the case itself poked, and the supervisor stack page.
    pub fn restore_quick(&mut self) {
        self.undo_only();
        for a in (0x2E00..0x3000u16).chain(0x4F00..0x5010) {
            self.sim.mem[a] = Word::new_init(self.m.mem[a as usize]);
        }
    }
    /// The instruction counter's value at the start of the case.
    pub fn base_count(&self) -> u64 {
        self.count0
    }
    pub fn regs(&self) -> [u16; 8] {
        REGS.map(|r| self.sim.reg_file[r].get())
    }
    pub fn clear_io(&mut self) {
        for p in 0xFE00..=0xFFFFu16 {
            self.sim.mem[p] = Word::new_init(0);
        }
    }
    /// Ends a case without looking at the rest of memory.
    pub fn undo_only(&mut self) {
        let sim = &mut self.sim;
        self.m.undo(|a, v| {
            if a < 0xFE00 {
                sim.mem[a] = Word::new_init(v)
            }
        });
    }
    /// Ends a case that did not fail, without scanning memory.
    pub fn end(&mut self) -> Res {
        self.undo_only();
        self.clear_io();
        self.disarm();
        self.pop_frames()
    }
    /// Ends a case that did not fail: scans memory and puts it back.
    pub fn finish(&mut self, at: &dyn Fn() -> String) -> Res {
        self.scan(at)?;
        let sim = &mut self.sim;
        self.m.undo(|a, v| {
            if a < 0xFE00 {
                sim.mem[a] = Word::new_init(v)
            }
        });
        for p in 0xFE00..=0xFFFFu16 {
            sim.mem[p] = Word::new_init(0);
        }
        self.pop_frames()
    }
    /// Empties the real frame list.
    pub fn pop_frames(&mut self) -> Res {
        self.kb.write().unwrap().clear();
        let sim = &mut self.sim;
        if self.debug_frames {
            while !sim.frame_stack.is_empty() {
                // a RET per frame: the only public way to pop frames without a reset
                sim.mem[0x3000] = Word::new_init(0xC1C0);
                sim.pc = 0x3000;
                sim.flags.ignore_privilege = true;
                sim.flags.strict = false;
                let n = sim.frame_stack.len();
                let _ = real("step_in", || sim.step_in())?;
                ensure!(sim.frame_stack.len() < n, "frames", "RET does not pop a frame");
            }
            sim.mem[0x3000] = Word::new_init(self.m.mem[0x3000]);
        }
        Ok(())
    }
}

thread_local! {
    static RIGS: std::cell::RefCell<Vec<Rig>> = const { std::cell::RefCell::new(vec![]) };
}
/// Runs a case on a pooled rig; the rig is thrown away unless the case succeeds.
pub fn with_rig<T>(debug_frames: bool, f: impl FnOnce(&mut Rig) -> Res<T>) -> Res<T> {
    let r = RIGS.with(|v| {
        let mut v = v.borrow_mut();
        v.iter().position(|r| r.debug_frames == debug_frames).map(|i| v.swap_remove(i))
    });
    let mut rig = match r {
        Some(r) => r,
        None => real("Simulator::new", || Rig::new(debug_frames))?,
    };
    let out = f(&mut rig)?;
    if !rig.dead {
        RIGS.with(|v| v.borrow_mut().push(rig));
    }
    Ok(out)
}
