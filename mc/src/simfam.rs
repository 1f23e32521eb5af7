//! Alphabets and start states shared by the simulator checks.
use crate::isa::*;
use crate::rig::*;

/// Interesting 16-bit values.
pub const VALS: [u16; 14] = [0, 1, 2, 0x7F, 0x80, 0x2FFF, 0x3000, 0x7FFF, 0x8000, 0x8001, 0xFDFF, 0xFE00, 0xFFFE, 0xFFFF];

/// Is `w` a word that the machine accepts as an instruction?
pub fn valid(w: u16) -> bool {
    !match w >> 12 {
        0b1101 => true,
        1 | 5 => w & 0x20 == 0 && w & 0x18 != 0,
        4 => w & 0x800 == 0 && w & 0x0E3F != 0,
        8 => w & 0x0FFF != 0,
        9 => w & 0x3F != 0x3F,
        12 => w & 0x0E3F != 0,
        15 => w & 0x0F00 != 0,
        _ => false,
    }
}
/// Does it not matter in which order the words at `a` and `a + 1` are accessed? It does when
/// they are device or internal registers, and the ISA does not fix the order.
fn either_order(m: &M, a: u16) -> bool {
    let b = a.wrapping_add(1);
    let plain = |a: u16| a < 0xFE00 || !(m.ireg.contains_key(&a) || [KBSR, KBDR, DSR, DDR].contains(&a));
    plain(a) && plain(b) && !(m.ram.contains_key(&a) && m.ram.contains_key(&b))
}
/// Can two words be pushed on the stack at `sp`?
pub fn push_ok(m: &M, sp: u16) -> bool {
    either_order(m, sp.wrapping_sub(2))
}
/// Can the next step of the machine be predicted from the ISA alone?
pub fn in_scope(m: &M, irqs: &[(u8, u8)]) -> bool {
    // a tie between different requests
    for (i, a) in irqs.iter().enumerate() {
        if irqs[..i].iter().any(|b| a.1 == b.1 && a.0 != b.0) {
            return false;
        }
        if m.kb_ie && !m.kb.is_empty() && a.1 == 4 && a.0 != 0x80 {
            return false;
        }
    }
    let sup = if m.user() { m.ssp } else { m.reg[6] };
    let irq = irqs.iter().any(|i| i.1 > m.prio()) || m.kb_ie && !m.kb.is_empty() && 4 > m.prio();
    if !peekable(m, m.pc) {
        return false;
    }
    let w = peek(m, m.pc);
    if (irq || w >> 12 == 15 || m.real) && !push_ok(m, sup) {
        return false;
    }
    if irq {
        return true;
    }
    let pc1 = m.pc.wrapping_add(1);
    let ea9 = pc1.wrapping_add((((w << 7) as i16) >> 7) as u16);
    let ea6 = m.reg[(w >> 6 & 7) as usize].wrapping_add((((w << 10) as i16) >> 10) as u16);
    match w >> 12 {
        2 => peekable(m, ea9),
        6 => peekable(m, ea6),
        10 => peekable(m, ea9) && peekable(m, peek(m, ea9)),
        11 => peekable(m, ea9),
        8 if m.privileged() => either_order(m, m.reg[6]),
        _ => true,
    }
}
/// A read of `a` has a defined value: the data register of an empty keyboard and the display's
/// data register hold whatever was last there.
pub fn peekable(m: &M, a: u16) -> bool {
    !(a == KBDR && m.kb.is_empty() || a == DDR)
}
/// What a read of `a` would give.
pub fn peek(m: &M, a: u16) -> u16 {
    match (m.ireg.get(&a), a) {
        (Some(IReg::Pc), _) => m.pc,
        (Some(IReg::Psr), _) => m.psr,
        (Some(IReg::Mcr), _) => (m.mcr as u16) << 15,
        (Some(IReg::SavedSp), _) => m.ssp,
        (_, KBSR) => (!m.kb.is_empty() as u16) << 15 | (m.kb_ie as u16) << 14,
        (_, KBDR) => m.kb.front().map_or(m.mem[a as usize], |&b| b as u16),
        (_, DSR) => 0x8000,
        _ => m.ram.get(&a).copied().unwrap_or(m.mem[a as usize]),
    }
}

/// A start state for the single-step families.
pub struct Config {
    pub name: &'static str,
    pub s: Start,
}
pub fn configs() -> Vec<Config> {
    let d = Start::default;
    let stack = |sp: u16, pc: u16, psr: u16| vec![(sp, pc), (sp.wrapping_add(1), psr)];
    let ua = [0x4000, 0x5001, 0x0000, 0x7FFF, 0x8000, 0xFFFF, 0xF000, 0x3010];
    let sa = [0xFE20, 0x2FFF, 0xFDFF, 0x8001, 0xFFFC, 0x0001, 0x2F00, 0xFE30];
    let z = |v: u16| [v, v, v, v, v, v, 0x2F00, v];
    let mut v = vec![
        Config { name: "user", s: Start { reg: ua, ..d() } },
        Config { name: "user, n", s: Start { psr: 0x8004, reg: [0x3000, 0xFDFF, 0xFE00, 0x2FFF, 1, 0xFFFF, 0x4000, 0x30FF], pc: 0x30FF, ..d() } },
        Config { name: "user, p, priority 3", s: Start { psr: 0x8301, reg: z(0xFFFF), pc: 0x3100, ssp: 0x2F00, ..d() } },
        Config { name: "user, last word", s: Start { pc: 0xFDFF, reg: ua, ..d() } },
        Config { name: "user, outside (low)", s: Start { pc: 0x2FFF, reg: ua, ..d() } },
        Config { name: "user, outside (high)", s: Start { pc: 0xFE20, reg: ua, ..d() } },
        Config { name: "supervisor", s: Start { psr: 2, pc: 0x1000, reg: sa, mem: stack(0x2F00, 0x4000, 0x8004), ssp: 0xF000, kb: vec![0x41, 0xFF], ..d() } },
        Config { name: "supervisor, RTI to supervisor", s: Start { psr: 0x0704, pc: 0x3000, reg: sa, mem: stack(0x2F00, 0x1234, 0x0301), ssp: 0xF000, ..d() } },
        Config { name: "supervisor, top of memory", s: Start { psr: 1, pc: 0xFFFF, reg: z(0x8000), mem: stack(0x2F00, 0x4000, 0x8002), ..d() } },
        Config { name: "supervisor, near I/O", s: Start { psr: 0x0401, pc: 0xFD80, reg: [0xFE10, 0xFE20, 0xFE21, 0xFFFF, 0xFFFE, 0xFFFD, 0x2F00, 0xFE31], mem: stack(0x2F00, 0xFFFF, 0x8701), kb: vec![0x80], ..d() } },
        Config { name: "supervisor, near I/O, low registers", s: Start { psr: 2, pc: 0x0010, reg: [0, 1, 2, 0xFFFF, 0xFFFD, 0x20, 0x2F00, 0x1FF], mem: stack(0x2F00, 0, 0x0004), kb: vec![], ..d() } },
        Config { name: "supervisor, start of I/O", s: Start { psr: 2, pc: 0xFE21, reg: sa, mem: stack(0x2F00, 0x4000, 0x8004), ..d() } },
    ];
    for (n, i) in [("user, privilege ignored", 0), ("user at x2FFF, privilege ignored", 4)] {
        let mut s = v[i].s.clone();
        s.ignore = true;
        s.reg[6] = 0x2E00;
        s.mem = stack(0x2E00, 0x4000, 0x8001);
        v.push(Config { name: n, s });
    }
    for i in [0, 1, 3, 4, 6] {
        let mut s = v[i].s.clone();
        s.real = true;
        v.push(Config { name: ["user, real traps", "user, n, real traps", "", "user, last word, real traps", "user, outside, real traps", "", "supervisor, real traps"][i], s });
    }
    v
}
/// Puts `w` where the configuration's PC will fetch it; false if it cannot be put there.
pub fn plant(s: &mut Start, w: u16) -> bool {
    if s.pc < 0xFE00 {
        s.mem.push((s.pc, w));
        true
    } else if RAM_PORTS.contains(&s.pc) {
        s.ram.push((s.pc, w));
        true
    } else {
        false
    }
}
/// A short name of an instruction word for descriptions.
pub fn dis(w: u16) -> String {
    match lc3_ensemble::ast::sim::SimInstr::decode(w) {
        Ok(i) => format!("{i:?}"),
        Err(_) => format!("x{w:04X}"),
    }
}
/// (name, code at x3000, keyboard)
pub fn programs() -> Vec<(&'static str, Vec<u16>, Vec<u8>)> {
    vec![
        ("arithmetic", vec![0x5020, 0x1025, 0x103F, 0x0BFE, 0x1221, 0x903F, 0xF025], vec![]),
        ("conditions", vec![0x127F, 0x0802, 0x1021, 0x1021, 0x1260, 0x0401, 0x0E01, 0x14A1, 0x16FF, 0x0202, 0x1921, 0x0401, 0x1B7F, 0xF025], vec![]),
        ("memory", vec![0x2009, 0x3009, 0x6082, 0x7085, 0xA006, 0xB006, 0xE001, 0x1220, 0x6440, 0xF025, 0x4000, 0x4001, 0x4002], vec![]),
        ("stack and subroutine", vec![0x1DBF, 0x7180, 0x4804, 0x6180, 0x1DA1, 0xF025, 0x0000, 0x1DBF, 0x7F80, 0x1024, 0x4803, 0x6F80, 0x1DA1, 0xC1C0, 0x1021, 0xC1C0], vec![]),
        ("output", vec![0xE004, 0xF022, 0x2002, 0xF021, 0xF025, 0x0041, 0x0042, 0x0000], vec![]),
        ("packed output", vec![0xE002, 0xF024, 0xF025, 0x4241, 0x0043], vec![]),
        ("input", vec![0xF020, 0x1260, 0xF023, 0x1401, 0xF025], vec![0x31, 0x32, 0x33]),
        ("access violation", vec![0x1021, 0x5260, 0x6440, 0xF025], vec![]),
        ("illegal opcode", vec![0x1021, 0xD000, 0xF025], vec![]),
        ("privilege violation", vec![0x1021, 0x8000, 0xF025], vec![]),
        ("bad trap", vec![0x1021, 0xF030, 0xF025], vec![]),
    ]
}
pub fn code(at: u16, ws: &[u16]) -> impl Iterator<Item = (u16, u16)> + '_ {
    ws.iter().enumerate().map(move |(i, &w)| (at + i as u16, w))
}
/// The alphabet of the instruction sequences.
pub fn alphabet() -> Vec<u16> {
    vec![
        0, // whatever is in memory
        0x1021, 0x5020, 0x903F, // ADD R0,R0,#1; AND R0,R0,#0; NOT R0,R0
        0x1DBE, 0x1DA2, // ADD R6,R6,#-2; #2
        0x2202, 0x3202, 0x6080, 0x7F80, 0x6B81, // LD, ST, LDR R0,R2,#0; STR R7,R6,#0; LDR R5,R6,#1
        0xA2FF, // LDI through pattern memory
        0xE1FE, 0x0E01, 0x0403, 0x0BFD, // LEA; BR; BRz; BRnp backwards
        0x4801, 0x4080, 0x4140, 0xC1C0, 0xC140, // JSR; JSRR R2; JSRR R5; RET; JMP R5
        0xF025, 0xF021, 0xF030, 0x8000, // HALT; OUT; TRAP x30; RTI
        0xD000, 0x1010, // illegal; malformed
        0x7680, 0x7681, 0x7682, // STR R3,R2,#0..2
        0x6900, 0x7700, // LDR R4,R4,#0; STR R3,R4,#0 (device or violation)
    ]
}
/// The four start states of the instruction sequences.
pub fn seq_start(base: usize) -> Start {
    let mut s = Start {
        reg: [0x0001, 0xFFFE, 0x4000, 0x8704, 0xFE20, 0x3050, 0x5000, 0x3005],
        ssp: 0x2F00,
        mem: vec![(0x0030, 0x1100), (0x0190, 0x1200), (0x4000, 0xFE10), (0x4001, PSR), (0x4002, MCR), (0x4003, KBSR), (0x4004, KBDR), (0x4005, DDR)],
        kb: vec![0x31],
        ..Default::default()
    };
    s.real = base & 1 == 1;
    if base & 2 != 0 {
        (s.psr, s.pc, s.ssp, s.reg[6]) = (0x0002, 0x1000, 0x5000, 0x2F00);
        s.mem.extend([(0x2F00, 0x3000), (0x2F01, 0x8001)]);
    }
    s
}
