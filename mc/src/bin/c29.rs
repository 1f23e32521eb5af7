//! C29: loading places exactly the object image into a fresh machine.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{SimFlags, Simulator};
use mc::rig::REGS;
use mc::*;
use std::collections::BTreeMap;

type Image = BTreeMap<u16, Option<u16>>;
/// A block: start and words (None: reserved).
type Block = (u16, Vec<Option<u16>>);
fn text(bs: &[Block]) -> String {
    let mut t = String::new();
    for (s, ws) in bs {
        t += &format!(".orig x{s:X}\n");
        let mut i = 0;
        while i < ws.len() {
            match ws[i] {
                Some(v) => {
                    t += &format!(".fill x{v:X}\n");
                    i += 1;
                }
                None => {
                    let n = ws[i..].iter().take_while(|w| w.is_none()).count();
                    t += &format!(".blkw x{n:X}\n");
                    i += n;
                }
            }
        }
        t += ".end\n";
    }
    t
}
fn image(bs: &[Block]) -> Image {
    bs.iter().flat_map(|(s, ws)| ws.iter().enumerate().map(move |(i, w)| (s.wrapping_add(i as u16), *w))).collect()
}
fn object(bs: &[Block], debug: bool) -> Res<ObjectFile> {
    let t = text(bs);
    real("assemble", || {
        let ast = parse_ast(&t).map_err(|e| format!("{e:?}"))?;
        if debug { assemble_debug(ast, &t) } else { assemble(ast) }.map_err(|e| format!("{e:?}"))
    })?
    .map_err(|e| Fail { key: "setup".into(), msg: format!("{t}: {e}") })
}
/// The bytes of an object file with these blocks; blocks the assembler would not make are possible.
fn bytes(bs: &[Block]) -> Vec<u8> {
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    for (s, ws) in bs {
        b.push(0);
        b.extend(s.to_le_bytes());
        b.extend((ws.len() as u16).to_le_bytes());
        for w in ws {
            match w {
                Some(v) => {
                    b.push(0xFF);
                    b.extend(v.to_le_bytes());
                }
                None => b.extend([0, 0, 0]),
            }
        }
    }
    b
}
#[derive(PartialEq, Clone)]
struct Snap {
    mem: Vec<Word>,
    regs: [Word; 8],
    pc: u16,
    psr: u16,
}
fn snap(s: &Simulator) -> Snap {
    Snap { mem: (0..=0xFFFFu16).map(|a| s.mem[a]).collect(), regs: REGS.map(|r| s.reg_file[r]), pc: s.pc, psr: s.psr().get() }
}
fn load(s: &mut Simulator, o: &ObjectFile, img: &Image, at: &dyn Fn() -> String) -> Res {
    let before = snap(s);
    let r = real("load_obj_file", || s.load_obj_file(o))?;
    ensure!(r.is_ok(), "error", "{}: loading fails with {r:?}", at());
    let after = snap(s);
    ensure!(after.regs == before.regs, "registers", "{}: registers {:04X?} became {:04X?}", at(), before.regs, after.regs);
    ensure!(after.pc == before.pc, "pc", "{}: PC x{:04X} became x{:04X}", at(), before.pc, after.pc);
    ensure!(after.psr == before.psr, "psr", "{}: PSR x{:04X} became x{:04X}", at(), before.psr, after.psr);
    let mut want = before.mem;
    for (&a, &w) in img {
        match w {
            Some(v) => want[a as usize] = Word::new_init(v),
            None => {
                let g = after.mem[a as usize];
                ensure!(!g.is_init(), "reserved", "{}: reserved word x{a:04X} is still initialized ({g:04X?})", at());
                want[a as usize] = g;
            }
        }
    }
    if want != after.mem {
        let a = (0..65536).find(|&a| want[a] != after.mem[a]).unwrap();
        return fail("memory", format!("{}: mem[x{a:04X}] is {:04X?}, want {:04X?} ({:?} in the file)", at(), after.mem[a], want[a], img.get(&(a as u16))));
    }
    Ok(())
}
fn strategies() -> Vec<MachineInitStrategy> {
    use MachineInitStrategy::*;
    vec![Known { value: 0 }, Seeded { seed: 1 }, Unseeded, Known { value: 0xFFFF }, Known { value: 0x1234 }, Seeded { seed: u64::MAX }]
}
fn sim(m: MachineInitStrategy) -> Res<Simulator> {
    real("Simulator::new", || Simulator::new(SimFlags { machine_init: m, ..Default::default() }))
}
/// Words of a block: each position reserved or not, by the bits of `p`.
fn words(n: usize, p: usize, salt: u16) -> Vec<Option<u16>> {
    (0..n).map(|i| (p >> i & 1 == 0).then_some((i as u16).wrapping_mul(0x1357) ^ salt)).collect()
}
fn main() {
    let mut k = Check::new("C29");
    k.family("new machine", "simulators of every flag combination and 6 strategies plus 256 known values and 64 seeds: the OS image at its addresses, zeros in the I/O page, the documented PC and PSR", 0, |ch, c| {
        let i = ch.choose(6 + 256 + 64);
        let m = if i < 6 { strategies()[i] } else if i < 262 { MachineInitStrategy::Known { value: (i - 6) as u16 * 0x0101 } } else { MachineInitStrategy::Seeded { seed: i as u64 * 0x9E37_79B9_7F4A } };
        let f = ch.choose(16);
        let flags = SimFlags { strict: f & 1 != 0, use_real_traps: f & 2 != 0, debug_frames: f & 4 != 0, ignore_privilege: f & 8 != 0, machine_init: m };
        c.describe_lazy(|| format!("{flags:?}"));
        c.state(&(i, f));
        let s = real("Simulator::new", || Simulator::new(flags))?;
        let os = asmfam::image_of(lc3_ensemble::sim::_os_obj_file())?;
        ensure!(os.len() > 0x200, "setup", "no OS image");
        for (&a, &w) in &os {
            match w {
                Some(v) => ensure!(s.mem[a] == Word::new_init(v), "os", "x{a:04X} of the OS is {:04X?}, want x{v:04X}", s.mem[a]),
                None => ensure!(!s.mem[a].is_init(), "os", "x{a:04X}, reserved in the OS, is initialized"),
            }
        }
        for a in 0xFE00..=0xFFFFu16 {
            ensure!(s.mem[a].get() == 0 && s.mem[a].is_init(), "io", "x{a:04X} of the I/O page is {:04X?}", s.mem[a]);
        }
        for a in (0..0xFE00u16).filter(|a| !os.contains_key(a)) {
            ensure!(!s.mem[a].is_init(), "uninitialized", "x{a:04X} is initialized in a new machine");
        }
        c.trans(1);
        c.trace();
        Ok(())
    });
    k.family("OS image", "the OS image in a new machine is what the reference assembler makes of its source, where that is available: every vector of the trap, exception and interrupt tables is initialized and leads to supervisor memory", 0, |ch, c| {
        let v = ch.choose(512) as u16;
        let s = sim(MachineInitStrategy::Known { value: 0xBEEF })?;
        let w = s.mem[v];
        c.describe_lazy(|| format!("vector x{v:03X}: {w:04X?}"));
        c.state(&v);
        // the whole image, for the first vector only
        if let (0, Ok(src)) = (v, std::fs::read_to_string("/repo/src/os.asm")) {
            let ast = parse_ast(&src).map_err(|e| Fail { key: "setup".into(), msg: format!("os.asm: {e:?}") })?;
            let m = asmmodel::assemble(&ast.iter().map(lang::from_real).collect::<Vec<_>>());
            ensure!(m.viol.is_empty(), "setup", "os.asm: {:?}", m.viol);
            for (&a, &w) in &m.image {
                let g = s.mem[a];
                ensure!(w.map_or(!g.is_init(), |w| g == Word::new_init(w)), "os", "x{a:04X} of the OS is {g:04X?}, want {w:04X?}");
            }
            c.outcome("compared with the source");
        }
        ensure!(w.is_init() && (0x200..0x3000).contains(&w.get()) && s.mem[w.get()].is_init(), "vector", "vector x{v:03X} holds {w:04X?}");
        c.trans(1);
        c.trace();
        Ok(())
    });
    let most = k.tier(9, 11);
    k.family("one block", &format!("every block of up to {most} words with every choice of reserved words, at 14 places (x0000, ending at xFE00, around the region borders, over the OS), assembled with and without debug symbols, in machines of 3 strategies"), 0, move |ch, c| {
        let n = ch.choose(most + 1);
        let p = ch.choose(1 << n);
        let len = n as u16;
        let starts = [0x3000, 0, 1, 0x25, 0xFF, 0x1FD, 0x200, 0x2FFD, 0x2FFF, 0x7FFE, 0xFE00u16 - len, 0xFDFFu16.saturating_sub(len), 0x0300, 0x0100 - len];
        let at = *ch.pick(&starts);
        let st = ch.choose(3);
        let debug = st == 1;
        let bs = vec![(at, words(n, p, 0x4242))];
        let desc = || format!("block at x{at:04X} {:04X?}, strategy {st}", bs[0].1);
        c.describe_lazy(desc);
        c.state(&(at, n, p, st));
        let o = object(&bs, debug)?;
        let mut s = sim(strategies()[st])?;
        load(&mut s, &o, &image(&bs), &desc)?;
        // again: the same
        load(&mut s, &o, &image(&bs), &desc)?;
        c.trans(2);
        c.trace();
        Ok(())
    });
    k.family("several blocks", "every 2 and 3 blocks of 0 to 3 words with every choice of reserved words, adjacent or apart, in either order, 2 strategies", 0, |ch, c| {
        let nb = 2 + ch.choose(2);
        let gap = ch.choose(3) as u16;
        let rev = ch.flag();
        let mut at = *ch.pick(&[0x3000u16, 0, 0xFDF0]);
        let mut bs = vec![];
        for i in 0..nb {
            let n = ch.choose(4);
            let p = if nb == 2 || i == 0 { ch.choose(1 << n) } else { 0b010 };
            bs.push((at, words(n, p, i as u16 + 1)));
            at += n as u16 + gap;
        }
        // blocks of no words at the same place as another block are rejected by the assembler
        if rev {
            bs.reverse();
        }
        let st = ch.choose(2);
        let desc = || format!("{bs:04X?}, strategy {st}");
        c.describe_lazy(desc);
        c.state(&(&bs, st));
        let Ok(o) = object(&bs, false) else {
            c.outcome("not assembled");
            return Ok(());
        };
        let mut s = sim(strategies()[st])?;
        load(&mut s, &o, &image(&bs), &desc)?;
        c.trans(1);
        c.trace();
        Ok(())
    });
    k.family("large blocks", "blocks of 8 lengths up to all of x0000-xFDFF, with alternating runs of initialized and reserved words of 7 lengths, beginning with either, at the start or the end of memory, 3 strategies", 0, |ch, c| {
        let n = *ch.pick(&[255usize, 256, 257, 4096, 0x7FFF, 0x8000, 0xFDFF, 0xFE00]);
        let run = *ch.pick(&[1usize, 2, 3, 255, 256, 0x8000, 0x10000]);
        let first = ch.flag();
        let end = ch.flag();
        let st = ch.choose(3);
        let at = if end { 0xFE00 - n as u32 } else { 0 } as u16;
        let bs = vec![(at, (0..n).map(|i| ((i / run % 2 == 0) == first).then_some(i as u16 ^ 0x8001)).collect::<Vec<_>>())];
        let desc = || format!("{n} words at x{at:04X}, runs of {run}, first initialized {first}, strategy {st}");
        c.describe_lazy(desc);
        c.state(&(n, run, first, end, st));
        let o = object(&bs, false)?;
        let mut s = sim(strategies()[st])?;
        load(&mut s, &o, &image(&bs), &desc)?;
        c.trans(1);
        c.trace();
        Ok(())
    });
    k.family("files from elsewhere", "object files read from bytes, whose blocks may lie in the I/O page or wrap around the end of memory: every choice of reserved words in blocks of up to 5 words at every start from 6 before to 2 after the end of memory and around xFE00, and wrapping blocks of up to 65535 words", 0, |ch, c| {
        let big = ch.flag();
        let bs = if big {
            let n = *ch.pick(&[300usize, 0x8000, 0xFFFF]);
            let at = *ch.pick(&[0xFFFFu16, 0xFFF0, 0xFE00, 0x8001, 1, 0]);
            let run = *ch.pick(&[1usize, 5, 0x100, 0x10000]);
            let first = ch.flag();
            vec![(at, (0..n).map(|i| ((i / run % 2 == 0) == first).then_some(i as u16 ^ 0x8001)).collect::<Vec<_>>())]
        } else {
            let n = ch.choose(6);
            let p = ch.choose(1 << n);
            let at = if ch.flag() { 0xFDFAu16 + ch.choose(8) as u16 } else { 0xFFFAu16.wrapping_add(ch.choose(8) as u16) };
            vec![(at, words(n, p, 0x4242))]
        };
        let desc = || format!("{} words at x{:04X}: {:04X?}...", bs[0].1.len(), bs[0].0, &bs[0].1[..bs[0].1.len().min(8)]);
        c.describe_lazy(desc);
        c.state(&bs);
        let Some(o) = real("deserialize", || BinaryFormat::deserialize(&bytes(&bs)))? else {
            c.outcome("not read");
            return Ok(());
        };
        // what the file says it holds
        let img = image(&bs);
        if asmfam::image_of(&o)? != img {
            c.outcome("read as something else");
            return Ok(());
        }
        let mut s = sim(MachineInitStrategy::Known { value: 0x7777 })?;
        load(&mut s, &o, &img, &desc)?;
        c.outcome("loaded");
        c.trans(1);
        c.trace();
        Ok(())
    });
    let d = k.tier(5, 6);
    k.family("histories", &format!("every history of {d} operations out of: load one of 6 files (overlapping each other, the OS and the running code; one linked), run 20 instructions, one step, reset, change the PC and registers; each load compared"), 0, move |ch, c| {
        let files: Vec<(ObjectFile, Image)> = POOL.with(|p| p.clone());
        let mut s = sim(MachineInitStrategy::Seeded { seed: 3 })?;
        let mut h = vec![];
        for _ in 0..d {
            let op = ch.choose(10);
            h.push(op);
            let desc = || format!("operations {h:?}");
            c.describe_lazy(desc);
            c.trans(1);
            match op {
                0..=5 => load(&mut s, &files[op].0, &files[op].1, &desc)?,
                6 => drop(real("run", || s.run_with_limit(20))?),
                7 => drop(real("step_in", || s.step_in())?),
                8 => real("reset", || s.reset())?,
                _ => {
                    s.pc = 0x3001;
                    s.reg_file[REGS[3]] = Word::new_init(0x1234);
                    s.mem[0x3002].clear_init();
                }
            }
        }
        c.state(&h);
        c.trace();
        Ok(())
    });
    k.run()
}
thread_local! {
    static POOL: Vec<(ObjectFile, Image)> = pool();
}
fn pool() -> Vec<(ObjectFile, Image)> {
    let specs: [Vec<Block>; 5] = [
        // AND R0,R0,#0; ADD R0,R0,#1; ST R0,#2; TRAP x25; reserved
        vec![(0x3000, vec![Some(0x5020), Some(0x1021), Some(0x3002), Some(0xF025), Some(0), None, None])],
        vec![(0x3000, vec![None, Some(0x0FFF), None]), (0x3010, vec![Some(1)])],
        vec![(0x0020, vec![Some(0x1234), None]), (0xFDFE, vec![None, Some(7)])],
        vec![],
        vec![(0x2FFE, vec![Some(0xFFFF); 8])],
    ];
    let mut v: Vec<_> = specs.iter().map(|b| (object(b, true).ok().unwrap(), image(b))).collect();
    // linked, with a resolved external
    let a = ".orig x4000\n.fill X\n.blkw 2\n.end\n.external X\n";
    let b = ".orig x5000\n.blkw 1\nX .fill 9\n.end\n";
    let f = |t: &str| assemble_debug(parse_ast(t).unwrap(), t).unwrap();
    let o = ObjectFile::link(f(a), f(b)).unwrap();
    v.push((o, Image::from([(0x4000, Some(0x5001)), (0x4001, None), (0x4002, None), (0x5000, None), (0x5001, Some(9))])));
    v
}
