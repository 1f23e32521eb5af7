//! C32: memory-mapped I/O reaches exactly the mapped register or device.
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, Interrupt, NullDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimFlags, Simulator};
use mc::isa::*;
use mc::rig::REGS;
use mc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex, RwLock};

/// (device, write, address, value written or whether the read has effects)
type Log = Arc<Mutex<Vec<(u16, bool, u16, u16)>>>;
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind {
    /// takes every read and write
    All,
    /// rejects every read and write
    Reject,
    /// as All, behind a Mutex and behind a RwLock
    Mutex,
    Lock,
    Null,
    /// the standard keyboard or display
    Buffered,
}
struct Dev {
    tag: u16,
    ok: bool,
    log: Log,
}
fn value(tag: u16, addr: u16) -> u16 {
    0x4000 | tag << 8 | (addr & 0xFF)
}
impl ExternalDevice for Dev {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        self.log.lock().unwrap().push((self.tag, false, addr, effectful as u16));
        self.ok.then(|| value(self.tag, addr))
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        self.log.lock().unwrap().push((self.tag, true, addr, data));
        self.ok
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
/// The port-table model.
#[derive(Default)]
struct Model {
    /// ports owned by added devices
    ports: BTreeMap<u16, u16>,
    devs: BTreeMap<u16, (u16, Kind)>,
    used: BTreeSet<u16>,
    ireg: BTreeMap<u16, InternalRegister>,
}
impl Model {
    fn new() -> Model {
        let ports = [(KBSR, 1), (KBDR, 1), (DSR, 2), (DDR, 2)].into();
        let ireg = [(0xFFFC, InternalRegister::PSR), (0xFFFE, InternalRegister::MCR), (SPY, InternalRegister::SavedSP)].into();
        Model { ports, ireg, used: [0, 1, 2].into(), ..Default::default() }
    }
    fn dev(&self, p: u16) -> Option<(u16, Kind)> {
        self.devs.get(self.ports.get(&p)?).copied()
    }
    fn add_ok(&self, ps: &[u16]) -> bool {
        ps.iter().all(|p| *p >= 0xFE00 && !self.ports.contains_key(p))
    }
}
/// Where the saved stack pointer can always be observed (and no operation goes).
const SPY: u16 = 0xFE70;
const LISTS: [&[u16]; 17] = [
    &[0xFE08],
    &[0xFE0A],
    &[0xFE08, 0xFE0A],
    &[0xFE0A, 0xFE09, 0xFE08],
    &[0xFFFF, 0xFE07],
    &[0xFE08, 0xFE08],
    &[],
    &[KBSR],
    &[0xFE0A, KBDR],
    &[DDR, 0xFE08],
    &[DSR],
    &[0xFDFF],
    &[0xFE08, 0x3000],
    &[0x0000],
    &[0xFFFC],
    &[0xFFFE, 0xFE0A],
    &[0xFE01],
];
const PORTS: [u16; 14] = [KBSR, KBDR, DSR, DDR, 0xFE01, 0xFE07, 0xFE08, 0xFE09, 0xFE0A, 0xFE0B, 0xFFFC, 0xFFFE, 0xFFFF, 0xFFFD];
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Add(usize, Kind),
    /// the n-th id returned (newest first), or a fixed one
    Remove(usize),
    RemoveId(u16),
    Kb(Kind),
    Ds(Kind),
    Map(u16, u8),
    Unmap(u16),
    Access(u16),
}
fn ireg(i: u8) -> InternalRegister {
    [InternalRegister::PC, InternalRegister::PSR, InternalRegister::MCR, InternalRegister::SavedSP][i as usize]
}
fn alphabet(full: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..LISTS.len() {
        v.push(Op::Add(i, Kind::All));
    }
    v.extend([Op::Add(2, Kind::Reject), Op::Add(0, Kind::Null), Op::Add(4, Kind::Mutex), Op::Add(1, Kind::Lock)]);
    v.extend([0, 1, 2].map(Op::Remove));
    v.extend([0, 1, 2, 3, 7, 0xFFFF].map(Op::RemoveId));
    v.extend([Kind::All, Kind::Null, Kind::Buffered].map(Op::Kb));
    v.extend([Kind::All, Kind::Null, Kind::Buffered].map(Op::Ds));
    for (p, r) in [(0xFE08, 0), (0xFE08, 3), (0xFE0A, 1), (KBDR, 3), (DDR, 0), (0xFFFC, 2), (0xFFFF, 2), (0xFE0B, 1), (0x3000, 0), (0xFDFF, 3)] {
        v.push(Op::Map(p, r));
    }
    v.extend([0xFE08, KBDR, DDR, 0xFFFC, 0xFFFE, 0xFE0A, 0x3000].map(Op::Unmap));
    if full {
        v.extend([Op::Kb(Kind::Reject), Op::Ds(Kind::Mutex), Op::Kb(Kind::Lock)]);
        v.extend([0xFE08, DDR, KBDR, 0xFFFE].map(Op::Access));
    }
    v
}
struct Rg {
    sim: Simulator,
    log: Log,
    kbuf: Arc<RwLock<VecDeque<u8>>>,
    dbuf: Arc<RwLock<Vec<u8>>>,
}
thread_local! {
    static RG: std::cell::RefCell<Option<Rg>> = const { std::cell::RefCell::new(None) };
}
fn fresh() -> Res<Rg> {
    let mut r = match RG.with(|r| r.borrow_mut().take()) {
        Some(r) => r,
        None => real("Simulator::new", || Rg {
            sim: Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() }),
            log: Default::default(),
            kbuf: Default::default(),
            dbuf: Default::default(),
        })?,
    };
    r.log.lock().unwrap().clear();
    r.kbuf.write().unwrap().clear();
    r.dbuf.write().unwrap().clear();
    let sim = &mut r.sim;
    sim.device_handler = Default::default();
    for p in PORTS.into_iter().chain([SPY, 0xFE06, 0xFE02]) {
        sim.munmap_internal(p);
        sim.mem[p] = Word::new_init(0x1100 | p & 0xFF);
    }
    let m = Model::new();
    for (p, i) in &m.ireg {
        let e = sim.mmap_internal(*p, *i);
        ensure!(e.is_ok(), "mmap", "mapping {i:?} at x{p:04X}, which is not mapped, fails");
    }
    sim.pc = 0x3000;
    let omni = MemAccessCtx::omnipotent();
    let _ = sim.write_mem(0xFFFC, Word::new_init(0x8002), omni);
    let _ = sim.write_mem(SPY, Word::new_init(0x2FF0), omni);
    sim.mcr().store(true, Ordering::Relaxed);
    Ok(r)
}
macro_rules! with_dev {
    ($kind:expr, $tag:expr, $log:expr, $buffered:expr, |$d:ident| $e:expr) => {{
        let dev = Dev { tag: $tag, ok: $kind != Kind::Reject, log: $log };
        match $kind {
            Kind::All | Kind::Reject => {
                let $d = dev;
                $e
            }
            Kind::Mutex => {
                let $d = Arc::new(Mutex::new(dev));
                $e
            }
            Kind::Lock => {
                let $d = Arc::new(RwLock::new(dev));
                $e
            }
            Kind::Null => {
                let $d = NullDevice;
                $e
            }
            Kind::Buffered => {
                let $d = $buffered;
                $e
            }
        }
    }};
}
fn apply(r: &mut Rg, m: &mut Model, op: Op, n: u16, ids: &mut Vec<u16>) -> Res {
    let tag = n + 1;
    let log = r.log.clone();
    match op {
        Op::Add(l, kind) => {
            let ps = LISTS[l];
            let h = &mut r.sim.device_handler;
            let got = real("add_device", || with_dev!(kind, tag, log, NullDevice, |d| h.add_device(d, ps).map_err(|_| ())))?;
            ensure!(got.is_ok() == m.add_ok(ps), "add_device", "adding a device at {ps:04X?}: {got:?}, ports owned: {:04X?}", m.ports);
            if let Ok(id) = got {
                ensure!(m.used.insert(id), "id", "adding a device at {ps:04X?} gives the id {id}, which was given before");
                m.devs.insert(id, (tag, kind));
                m.ports.extend(ps.iter().map(|&p| (p, id)));
                ids.insert(0, id);
            }
        }
        Op::Remove(_) | Op::RemoveId(_) => {
            let id = match op {
                Op::Remove(i) => match ids.get(i) {
                    Some(&id) => id,
                    None => return Ok(()),
                },
                Op::RemoveId(id) => id,
                _ => unreachable!(),
            };
            real("remove_device", || r.sim.device_handler.remove_device(id))?;
            m.devs.remove(&id);
            if id > 2 {
                m.ports.retain(|_, d| *d != id);
            }
        }
        Op::Kb(kind) => {
            let h = &mut r.sim.device_handler;
            let b = BufferedKeyboard::new(r.kbuf.clone());
            real("set_keyboard", || with_dev!(kind, tag, log, b, |d| h.set_keyboard(d)))?;
            m.devs.insert(1, (tag, kind));
        }
        Op::Ds(kind) => {
            let h = &mut r.sim.device_handler;
            let b = BufferedDisplay::new(r.dbuf.clone());
            real("set_display", || with_dev!(kind, tag, log, b, |d| h.set_display(d)))?;
            m.devs.insert(2, (tag, kind));
        }
        Op::Map(p, i) => {
            let e = real("mmap_internal", || r.sim.mmap_internal(p, ireg(i)))?;
            // (mapping over an existing mapping fails, and leaves it)
            let want = p >= 0xFE00 && !m.ireg.contains_key(&p);
            ensure!(e.is_ok() == want, "mmap", "mapping {:?} at x{p:04X} gives {e:?}", ireg(i));
            if want {
                m.ireg.insert(p, ireg(i));
            }
        }
        Op::Unmap(p) => {
            let e = real("munmap_internal", || r.sim.munmap_internal(p))?;
            ensure!(e == m.ireg.remove(&p).is_some(), "munmap", "unmapping x{p:04X} gives {e}");
        }
        Op::Access(p) => {
            probe_write(r, m, p, 0x8001, How::Host, 0)?;
            probe_read(r, m, p, How::Host, true, 0)?;
        }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Host,
    /// LDR/STR, LDI/STI, in supervisor mode
    Based,
    Indirect,
}
fn reg_value(r: &mut Rg, i: InternalRegister) -> Res<u16> {
    Ok(match i {
        InternalRegister::PC => r.sim.pc,
        InternalRegister::PSR => r.sim.psr().get(),
        InternalRegister::MCR => (r.sim.mcr().load(Ordering::Relaxed) as u16) << 15,
        InternalRegister::SavedSP => {
            let x = real("read_mem", || r.sim.read_mem(SPY, MemAccessCtx::omnipotent()))?;
            match x {
                Ok(w) => w.get(),
                Err(e) => return fail("spy", format!("reading x{SPY:04X}: {e:?}")),
            }
        }
    })
}
fn instr(r: &mut Rg, w: &[u16], reg: u16, val: u16, p: u16, how: How) -> Res {
    // at x2000 (supervisor memory): the instruction, and the pointer for the indirect form at x2001
    let sim = &mut r.sim;
    sim.pc = 0x2000;
    sim.mem[0x2000] = Word::new_init(w[0]);
    sim.mem[0x2001] = Word::new_init(p);
    sim.reg_file[REGS[reg as usize]] = Word::new_init(val);
    if how == How::Based {
        sim.reg_file[REGS[1]] = Word::new_init(p);
    }
    match real("step_in", || sim.step_in())? {
        Ok(()) => Ok(()),
        Err(e) => fail("error", format!("the access (instruction x{:04X}, address x{p:04X}) fails with {e:?}", w[0])),
    }
}
fn supervisor(r: &mut Rg) {
    // through the mapping if it is there, otherwise through a temporary one
    let t = 0xFE7E;
    let _ = r.sim.mmap_internal(t, InternalRegister::PSR);
    let _ = r.sim.write_mem(t, Word::new_init(0x0002), MemAccessCtx::omnipotent());
    r.sim.munmap_internal(t);
}
fn probe_read(r: &mut Rg, m: &Model, p: u16, how: How, eff: bool, k: usize) -> Res {
    if how != How::Host {
        supervisor(r);
    }
    r.log.lock().unwrap().clear();
    let mut what = format!("read {k} of x{p:04X} ({how:?}, effects {eff})");
    let before = r.sim.mem[p];
    let dev = m.dev(p);
    let buffered_byte = r.kbuf.read().unwrap().front().copied();
    let (got, reg) = match how {
        How::Host => {
            let reg = m.ireg.get(&p).copied();
            let want = match reg {
                Some(i) => Some(reg_value(r, i)?),
                None => None,
            };
            r.log.lock().unwrap().clear();
            let ctx = MemAccessCtx { privileged: true, strict: false, io_effects: eff, track_access: false };
            match real("read_mem", || r.sim.read_mem(p, ctx))? {
                Ok(w) => (w.get(), want),
                Err(e) => return fail("error", format!("{what}: {e:?}")),
            }
        }
        How::Based | How::Indirect => {
            // LDR R0,R1,#0 / LDI R0,#0
            let mut want = None;
            if let Some(&i) = m.ireg.get(&p) {
                want = Some(match i {
                    InternalRegister::PC => 0x2001,
                    i => reg_value(r, i)?,
                });
            }
            r.log.lock().unwrap().clear();
            instr(r, &[if how == How::Based { 0x6040 } else { 0xA000 }], 0, 0x5A5A, p, how)?;
            (r.sim.reg_file[REGS[0]].get(), want)
        }
    };
    let eff = eff || how != How::Host;
    let log = std::mem::take(&mut *r.log.lock().unwrap());
    what = format!("{what}, mapped {:?}, device {dev:?}", m.ireg.get(&p));
    let mut want_log = vec![];
    if let Some(v) = reg {
        ensure!(got == v, "internal register", "{what}: gives x{got:04X}, but the register holds x{v:04X}");
    } else if let Some((tag, kind)) = dev {
        match kind {
            Kind::All | Kind::Mutex | Kind::Lock => {
                want_log.push((tag, false, p, eff as u16));
                ensure!(got == value(tag, p), "device read", "{what}: gives x{got:04X}, but the device answers x{:04X}", value(tag, p));
            }
            Kind::Reject => want_log.push((tag, false, p, eff as u16)),
            Kind::Null => {}
            Kind::Buffered => {
                let want = match p {
                    KBSR => Some((buffered_byte.is_some() as u16) << 15),
                    KBDR => buffered_byte.map(u16::from),
                    DSR => Some(0x8000),
                    _ => None,
                };
                if let Some(v) = want {
                    ensure!(got == v, "device read", "{what}: gives x{got:04X}, but the device answers x{v:04X}");
                }
            }
        }
    }
    ensure!(log == want_log, "dispatch", "{what}: (device, write, address, value) accesses {log:04X?}, want {want_log:04X?}");
    if reg.is_none() && dev.is_none_or(|d| d.1 == Kind::Null) {
        let after = r.sim.mem[p];
        ensure!(after.get() == before.get() && after.is_init() == before.is_init(), "unowned", "{what}: memory changes from {before:?} to {after:?}");
    }
    Ok(())
}
fn probe_write(r: &mut Rg, m: &Model, p: u16, v: u16, how: How, k: usize) -> Res {
    if how != How::Host {
        supervisor(r);
    }
    let what = || format!("write {k} of x{v:04X} to x{p:04X} ({how:?}), mapped {:?}, device {:?}", m.ireg.get(&p), m.dev(p));
    let ports: Vec<u16> = PORTS.into_iter().filter(|x| *x != p).collect();
    let mut state = |r: &mut Rg| -> Res<Vec<u16>> {
        let mut s = vec![];
        for i in 0..4 {
            s.push(reg_value(r, ireg(i))?);
        }
        Ok(s)
    };
    let mut old = state(r)?;
    let mem: Vec<Word> = ports.iter().map(|&q| r.sim.mem[q]).collect();
    let before = r.sim.mem[p];
    let (kb, ds) = (r.kbuf.read().unwrap().clone(), r.dbuf.read().unwrap().clone());
    r.log.lock().unwrap().clear();
    match how {
        How::Host => {
            if let Err(e) = real("write_mem", || r.sim.write_mem(p, Word::new_init(v), MemAccessCtx { privileged: true, strict: false, io_effects: true, track_access: false }))? {
                return fail("error", format!("{}: {e:?}", what()));
            }
        }
        // STR R0,R1,#0 / STI R0,#0
        _ => {
            old[0] = 0x2001;
            instr(r, &[if how == How::Based { 0x7040 } else { 0xB000 }], 0, v, p, how)?;
        }
    }
    let log = std::mem::take(&mut *r.log.lock().unwrap());
    let new = state(r)?;
    let reg = m.ireg.get(&p).copied();
    let mut want = old.clone();
    if let Some(i) = reg {
        let j = (0..4).find(|&j| ireg(j) == i).unwrap() as usize;
        want[j] = if i == InternalRegister::MCR { v & 0x8000 } else { v };
    }
    ensure!(new == want, "registers", "{}: PC, PSR, MCR and saved SP are {new:04X?}, want {want:04X?}", what());
    let dev = m.dev(p).filter(|_| reg.is_none());
    let want_log: Vec<_> = dev.iter().filter(|d| !matches!(d.1, Kind::Null | Kind::Buffered)).map(|d| (d.0, true, p, v)).collect();
    ensure!(log == want_log, "dispatch", "{}: (device, write, address, value) accesses {log:04X?}, want {want_log:04X?}", what());
    let mut want_ds = ds;
    if p == DDR && dev.is_some_and(|d| d.1 == Kind::Buffered) {
        want_ds.push(v as u8);
    }
    ensure!(*r.dbuf.read().unwrap() == want_ds && *r.kbuf.read().unwrap() == kb, "buffers", "{}: the display holds {:02X?}, want {want_ds:02X?}; keyboard {:02X?}, want {kb:02X?}", what(), r.dbuf.read().unwrap(), r.kbuf.read().unwrap());
    if reg.is_none() && dev.is_none_or(|d| d.1 == Kind::Null) {
        let after = r.sim.mem[p];
        ensure!(after.get() == before.get() && after.is_init() == before.is_init(), "unowned", "{}: memory changes from {before:?} to {after:?}", what());
    }
    for (q, w) in ports.iter().zip(mem) {
        let a = r.sim.mem[*q];
        ensure!(a.get() == w.get() && a.is_init() == w.is_init(), "elsewhere", "{}: memory at x{q:04X} changes from {w:?} to {a:?}", what());
    }
    Ok(())
}
/// Values that are valid in every register.
fn values(p: u16, m: &Model) -> [u16; 2] {
    match m.ireg.get(&p) {
        Some(InternalRegister::PSR) => [0x8701, 0x0004],
        _ => [0x0123, 0xBEEF],
    }
}
fn probe_all(r: &mut Rg, m: &Model, how: How, full: bool) -> Res<u64> {
    let mut n = 0;
    for (k, p) in PORTS.into_iter().enumerate() {
        r.kbuf.write().unwrap().clear();
        r.kbuf.write().unwrap().push_back(b'K');
        probe_read(r, m, p, how, true, k)?;
        let vs = values(p, m);
        probe_write(r, m, p, vs[0], how, k)?;
        n += 2;
        if full {
            if how == How::Host {
                probe_read(r, m, p, how, false, k)?;
            }
            probe_write(r, m, p, vs[1], how, k)?;
            n += 2;
        }
    }
    // addresses outside of the I/O page never reach a device
    r.log.lock().unwrap().clear();
    for a in [0u16, 0x2FFF, 0x3000, 0xFDFF] {
        let w = r.sim.mem[a];
        let omni = MemAccessCtx::omnipotent();
        let _ = real("write_mem", || r.sim.write_mem(a, Word::new_init(0x1357), omni))?;
        let x = real("read_mem", || r.sim.read_mem(a, omni))?;
        ensure!(x.as_ref().is_ok_and(|x| x.get() == 0x1357) && r.log.lock().unwrap().is_empty(), "memory", "x{a:04X} does not behave as memory: {x:?}, device accesses {:04X?}", r.log.lock().unwrap());
        r.sim.mem[a] = w;
    }
    Ok(n)
}
fn main() {
    let mut k = Check::new("C32");
    k.assume("values written to the PSR are valid PSR values; what memory holds after an access that reached a device or register is not compared");
    let ops: &'static [Op] = alphabet(false).leak();
    let big: &'static [Op] = alphabet(true).leak();
    let d = k.tier(3, 4);
    k.family("operations", &format!("every sequence of up to {d} operations of an alphabet of {} (adding devices of 4 kinds at {} port lists, removing by id, setting keyboard and display, mapping and unmapping internal registers, accesses), then reads and writes by the host of {} ports", big.len(), LISTS.len(), PORTS.len()), 0, move |ch, c| {
        let n = 1 + ch.choose(d);
        let seq: Vec<Op> = (0..n).map(|_| *ch.pick(big)).collect();
        c.describe_lazy(|| format!("{seq:04X?}"));
        c.state(&seq);
        let mut r = fresh()?;
        let mut m = Model::new();
        let mut ids = vec![];
        for (i, op) in seq.iter().enumerate() {
            if let Err(f) = apply(&mut r, &mut m, *op, i as u16, &mut ids) {
                return fail(&f.key, format!("operation {i} of {seq:04X?}: {}", f.msg));
            }
        }
        match probe_all(&mut r, &m, How::Host, true) {
            Ok(n) => c.trans(n + seq.len() as u64),
            Err(f) => return fail(&f.key, format!("after {seq:04X?}: {}", f.msg)),
        }
        c.trace();
        RG.with(|x| *x.borrow_mut() = Some(r));
        Ok(())
    });
    let d = k.tier(3, 3);
    k.family("operations, then instructions", &format!("every sequence of up to {d} operations of an alphabet of {}, then LDR, STR, LDI and STI of every port in supervisor mode", ops.len()), 0, move |ch, c| {
        let n = 1 + ch.choose(d);
        let seq: Vec<Op> = (0..n).map(|_| *ch.pick(ops)).collect();
        let how = if ch.flag() { How::Based } else { How::Indirect };
        c.describe_lazy(|| format!("{seq:04X?}, {how:?}"));
        c.state(&(&seq, how == How::Based));
        let mut r = fresh()?;
        let mut m = Model::new();
        let mut ids = vec![];
        for (i, op) in seq.iter().enumerate() {
            apply(&mut r, &mut m, *op, i as u16, &mut ids)?;
        }
        match probe_all(&mut r, &m, how, true) {
            Ok(n) => c.trans(n + seq.len() as u64),
            Err(f) => return fail(&f.key, format!("after {seq:04X?}: {}", f.msg)),
        }
        c.trace();
        RG.with(|x| *x.borrow_mut() = Some(r));
        Ok(())
    });
    let d = k.tier(7, 9);
    k.family("long histories of two ports", &format!("every sequence of {d} operations over adding and removing devices at two ports and at one of them, keyboard replacement and removal, a mapping and its removal; probes of all ports at the end"), 0, move |ch, c| {
        let few = [Op::Add(0, Kind::All), Op::Add(2, Kind::All), Op::Remove(0), Op::Remove(1), Op::Kb(Kind::All), Op::RemoveId(1), Op::Map(0xFE08, 3), Op::Unmap(0xFE08)];
        let seq: Vec<Op> = (0..d).map(|_| *ch.pick(&few)).collect();
        c.describe_lazy(|| format!("{seq:04X?}"));
        c.state(&seq);
        let mut r = fresh()?;
        let mut m = Model::new();
        let mut ids = vec![];
        for (i, op) in seq.iter().enumerate() {
            if let Err(f) = apply(&mut r, &mut m, *op, i as u16, &mut ids) {
                return fail(&f.key, format!("operation {i} of {seq:04X?}: {}", f.msg));
            }
        }
        for (j, p) in [0xFE08, 0xFE0A, KBSR].into_iter().enumerate() {
            for f in [probe_read(&mut r, &m, p, How::Host, true, j), probe_write(&mut r, &m, p, 0x0321, How::Host, j)] {
                if let Err(f) = f {
                    return fail(&f.key, format!("after {seq:04X?}: {}", f.msg));
                }
            }
        }
        c.trans(6 + d as u64);
        c.trace();
        RG.with(|x| *x.borrow_mut() = Some(r));
        Ok(())
    });
    k.family("every port", "every I/O address on its own and every address below as a port of a device, added, accessed, removed, accessed, and added again; every I/O address as a mapped register over the device", 0, |ch, c| {
        let hi = ch.choose(256) as u16;
        for lo in 0..256u16 {
            let p = hi << 8 | lo;
            let log = Log::default();
            let mut h = DeviceHandler::new();
            let fixed = [KBSR, KBDR, DSR, DDR].contains(&p);
            let want = p >= 0xFE00 && !fixed;
            let mut seen = BTreeSet::from([0, 1, 2]);
            for round in 1..4u16 {
                let a = real("add_device", || h.add_device(Dev { tag: round, ok: true, log: log.clone() }, &[p]))?;
                let a = a.map_err(|d| d.tag);
                if !want {
                    ensure!(a == Err(round), "add_device", "adding a device at x{p:04X} gives {a:?}");
                    continue;
                }
                let id = match a {
                    Ok(id) => id,
                    Err(_) => return fail("add_device", format!("adding a device at x{p:04X} fails (round {round})")),
                };
                ensure!(seen.insert(id), "id", "round {round} at x{p:04X}: the id {id} was given before");
                // a second one is refused and comes back
                let b = real("add_device", || h.add_device(Dev { tag: 77, ok: true, log: log.clone() }, &[0xFE33 ^ (p == 0xFE33) as u16, p]))?;
                ensure!(b.map_err(|d| d.tag) == Err(77), "add_device", "a second device at x{p:04X} is not refused");
                let x = real("io_read", || h.io_read(p, true))?;
                ensure!(x == Some(value(round, p)), "device read", "x{p:04X}, round {round}: {x:04X?}");
                ensure!(real("io_write", || h.io_write(p, 5))?, "device write", "x{p:04X}, round {round}: refused");
                for q in [p.wrapping_add(1), p.wrapping_sub(1), p ^ 2, p ^ 0x100] {
                    if q != p {
                        ensure!(real("io_read", || h.io_read(q, true))?.is_none() && !real("io_write", || h.io_write(q, 6))?, "dispatch", "a device at x{p:04X} answers at x{q:04X}");
                    }
                }
                ensure!(*log.lock().unwrap() == [(round, false, p, 1), (round, true, p, 5)], "dispatch", "x{p:04X}, round {round}: accesses {:04X?}", log.lock().unwrap());
                log.lock().unwrap().clear();
                real("remove_device", || h.remove_device(id))?;
                ensure!(real("io_read", || h.io_read(p, true))?.is_none() && !real("io_write", || h.io_write(p, 6))? && log.lock().unwrap().is_empty(), "removed", "x{p:04X} reaches a device after its removal");
                c.trans(12);
            }
        }
        c.describe_lazy(|| format!("ports x{hi:02X}00-x{hi:02X}FF"));
        c.state(&hi);
        c.trace();
        Ok(())
    });
    k.family("many devices", "70000 devices added (and every n-th one removed, n in 0 (none), 1, 2, 3, 1000), one port each turn: ids are not reused, additions succeed up to the documented number and the last device gets the accesses; additions beyond it give the device back", 0, |ch, c| {
        let every = [0usize, 1, 2, 3, 1000][ch.choose(5)];
        c.describe_lazy(|| format!("every {every}-th device is removed"));
        let mut h = DeviceHandler::new();
        let mut used = vec![false; 65536];
        used[..3].fill(true);
        let log = Log::default();
        let mut owner: BTreeMap<u16, (u16, u16)> = BTreeMap::new();
        let mut full = false;
        for i in 0..70_000usize {
            let p = 0xFE10 + (i % 300) as u16;
            let free = !owner.contains_key(&p);
            let ps: &[u16] = if free { &[p] } else { &[] };
            let tag = (i % 60_000) as u16;
            match real("add_device", || h.add_device(Dev { tag: tag & 0xFF, ok: true, log: log.clone() }, ps))? {
                Ok(id) => {
                    ensure!(!full, "limit", "device {i} is added after one was refused");
                    ensure!(!std::mem::replace(&mut used[id as usize], true), "id", "device {i} gets the id {id}, which was given before");
                    if free {
                        owner.insert(p, (id, tag & 0xFF));
                    }
                    if every > 0 && i % every == 0 {
                        real("remove_device", || h.remove_device(id))?;
                        owner.retain(|_, x| x.0 != id);
                    }
                }
                Err(_) => {
                    ensure!(i >= 65_000, "limit", "device {i} is refused at a free port");
                    full = true;
                }
            }
            if i % 997 == 0 || full && i % 101 == 0 {
                let x = real("io_read", || h.io_read(p, true))?;
                let want = owner.get(&p).map(|o| value(o.1, p));
                ensure!(x == want, "device read", "device {i}, x{p:04X}: {x:04X?}, want {want:04X?}");
            }
        }
        c.state(&every);
        c.trans(70_000);
        c.trace();
        Ok(())
    });
    k.run()
}
