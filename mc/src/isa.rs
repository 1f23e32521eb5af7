//! Reference LC-3 machine, written from the ISA (not from the code under test).
use std::collections::{BTreeMap, VecDeque};

pub const KBSR: u16 = 0xFE00;
pub const KBDR: u16 = 0xFE02;
pub const DSR: u16 = 0xFE04;
pub const DDR: u16 = 0xFE06;
pub const PSR: u16 = 0xFFFC;
pub const MCR: u16 = 0xFFFE;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum IReg {
    Pc,
    Psr,
    Mcr,
    SavedSp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Acv,
    Priv,
    IllOp,
    Format,
}
/// What a step did.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    /// an instruction was executed
    Instr,
    /// a device interrupt was entered instead of an instruction
    Int(u8),
    /// the instruction raised an exception, which was vectored (real traps)
    Exc(E),
    /// virtual HALT
    Halt,
    /// the step failed (virtual traps)
    Err(E),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FKind {
    Sub,
    Trap,
    Int,
    /// an exception (the kind reported for those is not checked)
    Exc,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fr {
    pub caller: u16,
    pub callee: u16,
    pub kind: FKind,
    pub fp: Option<u16>,
    pub args: Vec<u16>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Sig {
    Stack(usize),
    Regs(Vec<usize>),
}

pub struct M {
    pub mem: Vec<u16>,
    /// (address, previous value), for undoing
    pub log: Vec<(u16, u16)>,
    pub reg: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub ssp: u16,
    pub mcr: bool,
    pub kb: VecDeque<u8>,
    pub kb_ie: bool,
    pub disp: Vec<u8>,
    pub ireg: BTreeMap<u16, IReg>,
    /// ports of the recording device: reads give the value, writes set it
    pub ram: BTreeMap<u16, u16>,
    pub ram_log: Vec<(bool, u16, u16)>,
    pub real: bool,
    pub ignore: bool,
    pub count: u64,
    pub frames: Vec<Fr>,
    pub subs: BTreeMap<u16, Sig>,
    pub traps: BTreeMap<u16, Sig>,
    pub reads: Vec<u16>,
    /// (address, changed)
    pub writes: Vec<(u16, bool)>,
    /// the address of the instruction of the last step
    pub at: u16,
}
fn sext(w: u16, n: u32) -> u16 {
    (((w << (16 - n)) as i16) >> (16 - n)) as u16
}
fn built_in() -> BTreeMap<u16, Sig> {
    let r = |v: &[usize]| Sig::Regs(v.to_vec());
    BTreeMap::from([(0x20, r(&[])), (0x21, r(&[0])), (0x22, r(&[0])), (0x23, r(&[])), (0x24, r(&[0])), (0x25, r(&[]))])
}
impl M {
    pub fn new(mem: Vec<u16>) -> M {
        assert_eq!(mem.len(), 65536);
        M {
            mem,
            log: vec![],
            reg: [0; 8],
            pc: 0x3000,
            psr: 0x8002,
            ssp: 0x3000,
            mcr: false,
            kb: VecDeque::new(),
            kb_ie: false,
            disp: vec![],
            ireg: BTreeMap::from([(PSR, IReg::Psr), (MCR, IReg::Mcr)]),
            ram: BTreeMap::new(),
            ram_log: vec![],
            real: false,
            ignore: false,
            count: 0,
            frames: vec![],
            subs: BTreeMap::new(),
            traps: built_in(),
            reads: vec![],
            writes: vec![],
            at: 0,
        }
    }
    pub fn user(&self) -> bool {
        self.psr & 0x8000 != 0
    }
    pub fn prio(&self) -> u8 {
        (self.psr >> 8 & 7) as u8
    }
    /// May the current mode access everything?
    pub fn privileged(&self) -> bool {
        !self.user() || self.ignore
    }
    pub fn poke(&mut self, a: u16, v: u16) {
        let o = self.mem[a as usize];
        if o != v {
            self.log.push((a, o));
            self.mem[a as usize] = v;
        }
    }
    /// Undoes all memory changes since the last `undo`/`forget`, giving the addresses changed.
    pub fn undo(&mut self, mut f: impl FnMut(u16, u16)) {
        while let Some((a, v)) = self.log.pop() {
            self.mem[a as usize] = v;
            f(a, v);
        }
    }
    fn read(&mut self, a: u16, privileged: bool) -> Result<u16, E> {
        if !privileged && !(0x3000..0xFE00).contains(&a) {
            return Err(E::Acv);
        }
        if a >= 0xFE00 {
            let v = match self.ireg.get(&a) {
                Some(IReg::Pc) => Some(self.pc),
                Some(IReg::Psr) => Some(self.psr),
                Some(IReg::Mcr) => Some((self.mcr as u16) << 15),
                Some(IReg::SavedSp) => Some(self.ssp),
                None => match a {
                    KBSR => Some((!self.kb.is_empty() as u16) << 15 | (self.kb_ie as u16) << 14),
                    KBDR => self.kb.pop_front().map(|b| b as u16),
                    DSR => Some(0x8000),
                    DDR => None,
                    _ => match self.ram.get(&a) {
                        Some(&v) => {
                            self.ram_log.push((false, a, v));
                            Some(v)
                        }
                        None => None,
                    },
                },
            };
            if let Some(v) = v {
                self.poke(a, v);
            }
        }
        self.reads.push(a);
        Ok(self.mem[a as usize])
    }
    fn write(&mut self, a: u16, v: u16, privileged: bool) -> Result<(), E> {
        if !privileged && !(0x3000..0xFE00).contains(&a) {
            return Err(E::Acv);
        }
        if a >= 0xFE00 {
            let ok = match self.ireg.get(&a) {
                Some(IReg::Pc) => {
                    self.pc = v;
                    true
                }
                Some(IReg::Psr) => {
                    let cc = if (v & 7).count_ones() == 1 { v & 7 } else { 2 };
                    self.psr = v & 0x8700 | cc;
                    true
                }
                Some(IReg::Mcr) => {
                    self.mcr = v & 0x8000 != 0;
                    true
                }
                Some(IReg::SavedSp) => {
                    self.ssp = v;
                    true
                }
                None => match a {
                    KBSR => {
                        self.kb_ie = v & 0x4000 != 0;
                        true
                    }
                    DDR => {
                        self.disp.push(v as u8);
                        true
                    }
                    _ if self.ram.contains_key(&a) => {
                        self.ram.insert(a, v);
                        self.ram_log.push((true, a, v));
                        true
                    }
                    _ => false,
                },
            };
            if !ok {
                return Ok(());
            }
        }
        self.writes.push((a, self.mem[a as usize] != v));
        self.poke(a, v);
        Ok(())
    }
    fn cc(&mut self, v: u16) {
        let n = if v == 0 { 2 } else if v & 0x8000 != 0 { 4 } else { 1 };
        self.psr = self.psr & !7 | n;
    }
    fn frame(&mut self, caller: u16, callee: u16, kind: FKind) {
        let sig = match kind {
            FKind::Sub => self.subs.get(&callee),
            FKind::Trap => self.traps.get(&callee),
            _ => None,
        };
        let (fp, args) = match sig {
            None => (None, vec![]),
            Some(Sig::Regs(v)) => (None, v.iter().map(|&i| self.reg[i]).collect()),
            Some(Sig::Stack(n)) => {
                let fp = self.reg[6].wrapping_sub(4);
                (Some(fp), (0..*n).map(|i| self.mem[fp.wrapping_add(4).wrapping_add(i as u16) as usize]).collect())
            }
        };
        self.frames.push(Fr { caller, callee, kind, fp, args });
    }
    /// Enters supervisor mode through the table entry at `vect`.
    fn enter(&mut self, vect: u16, prio: Option<u8>, caller: u16, kind: FKind) {
        if self.user() {
            std::mem::swap(&mut self.reg[6], &mut self.ssp);
        }
        let (psr, pc) = (self.psr, self.pc);
        self.psr &= 0x7FFF;
        let sp = self.reg[6];
        self.reg[6] = sp.wrapping_sub(2);
        // supervisor accesses cannot fail
        self.write(sp.wrapping_sub(1), psr, true).unwrap();
        self.write(sp.wrapping_sub(2), pc, true).unwrap();
        self.psr = self.psr & !7 | 2;
        if let Some(p) = prio {
            self.psr = self.psr & !0x0700 | (p as u16) << 8;
        }
        let to = self.read(vect, true).unwrap();
        self.frame(caller, vect, kind);
        self.pc = to;
    }
    /// One step; `irqs` are the vectored requests raised by devices other than the keyboard.
    pub fn step(&mut self, irqs: &[(u8, u8)]) -> Ev {
        self.reads.clear();
        self.writes.clear();
        self.at = self.pc;
        let mut best: Option<(u8, u8)> = None;
        if self.kb_ie && !self.kb.is_empty() {
            best = Some((0x80, 4));
        }
        for &(v, p) in irqs {
            if best.is_none_or(|b| p >= b.1) {
                best = Some((v, p));
            }
        }
        if let Some((v, p)) = best {
            if p > self.prio() {
                self.enter(0x100 + v as u16, Some(p), self.at, FKind::Int);
                return Ev::Int(v);
            }
        }
        match self.instr() {
            Ok(None) => {
                self.count += 1;
                Ev::Instr
            }
            Ok(Some(ev)) => ev,
            Err(e) => {
                if !self.real {
                    return Ev::Err(e);
                }
                let vect = match e {
                    E::Priv => 0x100,
                    E::IllOp | E::Format => 0x101,
                    E::Acv => 0x102,
                };
                self.enter(vect, None, self.at, FKind::Exc);
                Ev::Exc(e)
            }
        }
    }
    fn instr(&mut self) -> Result<Option<Ev>, E> {
        let p = self.privileged();
        let w = self.read(self.pc, p)?;
        let (dr, b) = ((w >> 9 & 7) as usize, (w >> 6 & 7) as usize);
        // format
        match w >> 12 {
            0b1101 => return Err(E::IllOp),
            1 | 5 if w & 0x20 == 0 && w & 0x18 != 0 => return Err(E::Format),
            4 if w & 0x800 == 0 && w & 0x0E3F != 0 => return Err(E::Format),
            8 if w & 0x0FFF != 0 => return Err(E::Format),
            9 if w & 0x3F != 0x3F => return Err(E::Format),
            12 if w & 0x0E3F != 0 => return Err(E::Format),
            15 if w & 0x0F00 != 0 => return Err(E::Format),
            _ => {}
        }
        self.pc = self.pc.wrapping_add(1);
        let ea9 = self.pc.wrapping_add(sext(w, 9));
        let ea6 = self.reg[b].wrapping_add(sext(w, 6));
        match w >> 12 {
            0 => {
                if w >> 9 & 7 & self.psr & 7 != 0 {
                    self.pc = ea9;
                }
            }
            op @ (1 | 5) => {
                let x = self.reg[b];
                let y = if w & 0x20 != 0 { sext(w, 5) } else { self.reg[(w & 7) as usize] };
                let r = if op == 1 { x.wrapping_add(y) } else { x & y };
                self.reg[dr] = r;
                self.cc(r);
            }
            9 => {
                self.reg[dr] = !self.reg[b];
                self.cc(self.reg[dr]);
            }
            op @ (2 | 6 | 10) => {
                let mut ea = if op == 6 { ea6 } else { ea9 };
                if op == 10 {
                    ea = self.read(ea, p)?;
                }
                let v = self.read(ea, p)?;
                self.reg[dr] = v;
                self.cc(v);
            }
            op @ (3 | 7 | 11) => {
                let mut ea = if op == 7 { ea6 } else { ea9 };
                if op == 11 {
                    ea = self.read(ea, p)?;
                }
                self.write(ea, self.reg[dr], p)?;
            }
            4 => {
                let to = if w & 0x800 != 0 { self.pc.wrapping_add(sext(w, 11)) } else { self.reg[b] };
                self.reg[7] = self.pc;
                self.frame(self.at, to, FKind::Sub);
                self.pc = to;
            }
            8 => {
                if !p {
                    return Err(E::Priv);
                }
                let sp = self.reg[6];
                let pc = self.read(sp, p)?;
                let psr = self.read(sp.wrapping_add(1), p)?;
                self.reg[6] = sp.wrapping_add(2);
                self.pc = pc;
                self.psr = psr;
                if self.user() {
                    std::mem::swap(&mut self.reg[6], &mut self.ssp);
                }
                self.frames.pop();
            }
            12 => {
                self.pc = self.reg[b];
                if b == 7 {
                    self.frames.pop();
                }
            }
            14 => self.reg[dr] = ea9,
            15 => {
                let v = w & 0xFF;
                if v == 0x25 && !self.real {
                    self.pc = self.at;
                    return Ok(Some(Ev::Halt));
                }
                self.enter(v, None, self.at, FKind::Trap);
            }
            _ => unreachable!(),
        }
        Ok(None)
    }
}
