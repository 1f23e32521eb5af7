//! C19: reading untrusted object files never panics.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::Simulator;
use mc::lang::*;
use mc::linkfam::*;
use mc::*;
use std::cell::RefCell;

thread_local! {
    static SIM: RefCell<Option<Simulator>> = const { RefCell::new(None) };
    static PARTNERS: RefCell<Vec<ObjectFile>> = const { RefCell::new(vec![]) };
}
fn partner_progs() -> Vec<(Vec<S>, bool)> {
    vec![
        (vec![], true),
        (vec![s(K::Orig(0x3000)), ls(&["A"], K::Halt), ls(&["B"], K::Fill(l("A"))), s(K::End)], true),
        (vec![s(K::External("A".into())), s(K::External("B".into())), s(K::Orig(0x4000)), ls(&["C"], K::Fill(l("a"))), s(K::Fill(l("b"))), s(K::End)], true),
        (vec![s(K::External("A".into())), s(K::Orig(0xFDFE)), s(K::Fill(l("a"))), s(K::Halt), s(K::End), s(K::Orig(0)), s(K::Blkw(3)), s(K::End)], false),
        (vec![s(K::Orig(0x8000)), ls(&["A", "É"], K::Blkw(5)), ls(&["BAR", "FOO"], K::End)], true),
    ]
}
fn partners() -> Res<Vec<ObjectFile>> {
    PARTNERS.with(|p| {
        if p.borrow().is_empty() {
            let v = partner_progs().into_iter().map(|(p, d)| {
                let p: Vec<S> = p.into_iter().map(|mut x| { x.labels.retain(|l| l.is_ascii()); x }).collect();
                file(p, d).map(|f| f.obj)
            }).collect::<Res<Vec<_>>>()?;
            *p.borrow_mut() = v;
        }
        Ok(p.borrow().clone())
    })
}
fn use_it(o: ObjectFile, c: &mut Case) -> Res {
    real("BinaryFormat::serialize", || BinaryFormat::serialize(&o))?;
    real("TextFormat::serialize", || TextFormat::serialize(&o))?;
    c.trans(3);
    for p in partners()? {
        for first in [true, false] {
            let (a, b) = if first { (o.clone(), p.clone()) } else { (p.clone(), o.clone()) };
            match real("ObjectFile::link", || ObjectFile::link(a, b))? {
                Ok(_) => c.outcome("linked"),
                Err(_) => c.outcome("link error"),
            }
            c.trans(1);
        }
    }
    SIM.with(|s| {
        let mut s = s.borrow_mut();
        let sim = s.get_or_insert_with(|| Simulator::new(Default::default()));
        match real("load_obj_file", || sim.load_obj_file(&o).is_ok())? {
            true => c.outcome("loaded"),
            false => c.outcome("load error"),
        }
        Ok(())
    })
}
fn read_bin(b: &[u8], c: &mut Case) -> Res {
    c.state(&b);
    c.trans(1);
    match real("BinaryFormat::deserialize", || BinaryFormat::deserialize(b))? {
        None => c.outcome("rejected"),
        Some(o) => {
            c.outcome("accepted");
            c.trace();
            use_it(o, c)?;
        }
    }
    Ok(())
}
fn read_text(t: &str, c: &mut Case) -> Res {
    c.state(&t);
    c.trans(1);
    match real("TextFormat::deserialize", || TextFormat::deserialize(t))? {
        None => c.outcome("rejected"),
        Some(o) => {
            c.outcome("accepted");
            c.trace();
            use_it(o, c)?;
        }
    }
    Ok(())
}
const HEAD: &[u8] = b"obj\x21\x10\x00\x01";

fn chunks() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let cat = |p: &[&[u8]]| p.concat();
    let u = |x: u64| x.to_le_bytes();
    // blocks: (address, stated length, words present)
    for (a, n, w) in [(0u16, 0u16, 0usize), (0x3000, 1, 1), (0x3000, 2, 2), (0x3001, 2, 2), (0x2FFF, 3, 3), (0xFDFF, 1, 1), (0xFDFF, 2, 2), (0xFE00, 1, 1), (0xFFFF, 1, 1), (0xFFFF, 2, 2), (0xFFFE, 4, 4), (0, 2, 2), (0x3000, 2, 1), (0x4000, 65535, 65535), (0, 65535, 65535), (1, 65535, 65535), (0x8000, 0x8000, 0x8000), (0xFFFF, 0, 0)] {
        // alternating; all, none, the first or the last words initialized
        for pat in 0..if w > 1 { 5 } else { 1 } {
            let init = |i: usize| match pat { 0 => i % 2 == 0, 1 => true, 2 => false, 3 => i == 0, _ => i + 1 == w };
            let ws: Vec<u8> = (0..w).flat_map(|i| [if init(i) { 0xFF } else { 0 }, i as u8, 0x12]).collect();
            v.push(cat(&[&[0], &a.to_le_bytes(), &n.to_le_bytes(), &ws]));
        }
    }
    let mx = usize::MAX as u64;
    // labels
    for (a, x, st, name) in [(0x3000u16, 0u8, 0u64, "A"), (0, 1, 3, "A"), (0x3000, 1, mx, "A"), (0x3000, 0, mx, "A"), (0xFFFF, 0, mx - 1, "B"), (0, 1, mx, "B"), (0, 255, 0, "B"), (7, 0, 1 << 63, "C"), (0x3000, 0, mx, ""), (5, 0, mx - 1, "É"), (0x3000, 0, 2, "a")] {
        v.push(cat(&[&[1], &a.to_le_bytes(), &[x], &u(st), &u(name.len() as u64), name.as_bytes()]));
    }
    v.push(cat(&[&[1, 0, 0, 0], &u(0), &u(mx), b"A"]));
    v.push(cat(&[&[1, 0, 0, 0], &u(0), &u(1), b"\xFF"]));
    v.push(cat(&[&[1, 0, 0, 0], &u(0), &u(2), b"A"]));
    // line blocks
    for (l, d) in [(0u64, &[0x3000u16][..]), (1, &[0x3000, 0x3001]), (1, &[]), (2, &[0x3001, 0x3000]), (0, &[5, 5]), (mx, &[0x3000]), (mx, &[]), (mx, &[1, 2]), (mx - 1, &[0x4000]), (mx - 1, &[0x4000, 0x4001]), (mx - 2, &[1]), (mx - 5, &[3, 4, 5]), (1 << 63, &[9])] {
        let ws: Vec<u8> = d.iter().flat_map(|w| w.to_le_bytes()).collect();
        v.push(cat(&[&[2], &u(l), &(d.len() as u16).to_le_bytes(), &ws]));
    }
    v.push(cat(&[&[2], &u(0), &[3, 0], &[0, 0]]));
    // source
    for src in [&b""[..], b"\n", b"abc\n\n", b"A\nB", b"\xC3\xA9\n", b"\xC3"] {
        v.push(cat(&[&[3], &u(src.len() as u64), src]));
    }
    v.push(cat(&[&[3], &u(mx), b"x"]));
    // relocations
    for (a, n) in [(0x3000u16, "A"), (0x3001, "A"), (0x9999, "A"), (0xFFFF, "A"), (0, "A"), (0x9999, "B"), (0x3000, "ZZ"), (0x4000, "A"), (0xFDFE, "A"), (0x3002, "")] {
        v.push(cat(&[&[4], &a.to_le_bytes(), &u(n.len() as u64), n.as_bytes()]));
    }
    v.push(cat(&[&[4, 0, 0], &u(mx), b"A"]));
    v.push(vec![5]);
    v.push(vec![0]);
    v
}

fn samples() -> Vec<ObjectFile> {
    let mut fs: Vec<ObjectFile> = partner_progs().into_iter().map(|(p, d)| {
        let p: Vec<S> = p.into_iter().map(|mut x| { x.labels.retain(|l| l.is_ascii()); x }).collect();
        file(p, d).expect("samples assemble").obj
    }).collect();
    let l1 = ObjectFile::link(fs[2].clone(), fs[4].clone());
    fs.extend(l1.ok());
    fs
}

fn main() {
    let mut k = Check::new("C19");
    let chs = chunks();
    let small: Vec<Vec<u8>> = chs.iter().filter(|c| c.len() < 100).cloned().collect();
    let chs2 = chs.clone();
    k.family("binary-chunks", &format!("header and every sequence of up to 2 of {} chunks (blocks that wrap, overlap, reach I/O, lie about their length; labels and line blocks at the ends of the 64-bit range; invalid UTF-8; relocations anywhere)", chs.len()), 0, move |ch, c| {
        let n = ch.choose(3);
        let mut b = HEAD.to_vec();
        let ix: Vec<usize> = (0..n).map(|_| ch.choose(chs2.len())).collect();
        ix.iter().for_each(|&i| b.extend(&chs2[i]));
        c.describe_lazy(|| format!("chunks {ix:?}: {:02X?}", &b[..b.len().min(80)]));
        read_bin(&b, c)
    });
    let d = k.tier(3, 4);
    k.family("binary-chunks-deep", &format!("header and every sequence of exactly 3 (thorough 3-4) of {} short chunks", small.len()), 0, move |ch, c| {
        let n = 3 + ch.choose(d - 2);
        let mut b = HEAD.to_vec();
        let ix: Vec<usize> = (0..n).map(|_| ch.choose(small.len())).collect();
        ix.iter().for_each(|&i| b.extend(&small[i]));
        c.describe_lazy(|| format!("{b:02X?}"));
        read_bin(&b, c)
    });
    let d = k.tier(2, 3);
    k.family("binary-raw", "every byte string of length <= 2, and header + every byte string of length <= 2 (thorough 3) (complete)", 0, move |ch, c| {
        let h = ch.flag();
        let n = ch.choose(if h { d + 1 } else { 3 });
        let mut b = if h { HEAD.to_vec() } else { vec![] };
        (0..n).for_each(|_| b.push(ch.choose(256) as u8));
        c.describe_lazy(|| format!("{b:02X?}"));
        read_bin(&b, c)
    });
    let bins: Vec<Vec<u8>> = samples().iter().map(BinaryFormat::serialize).collect();
    let two = k.thorough;
    k.family("binary-mutations", "valid serializations of 6 files: every single byte set to every value, every truncation, every deletion, duplication and insertion of a byte (thorough: also every pair of bytes set to 0, xFF or +1)", 0, move |ch, c| {
        let mut b = ch.pick(&bins).clone();
        let n = b.len();
        match ch.choose(if two { 5 } else { 4 }) {
            0 => {
                let i = ch.choose(n);
                b[i] = ch.choose(256) as u8;
            }
            1 => b.truncate(ch.choose(n)),
            2 => {
                let i = ch.choose(n);
                b.remove(i);
            }
            3 => {
                let i = ch.choose(n);
                b.insert(i, *ch.pick(&[0u8, 1, 2, 3, 4, 0x7F, 0xFF]));
            }
            _ => {
                let i = ch.choose(n);
                let j = ch.choose(n);
                if j <= i {
                    return Ok(());
                }
                for x in [i, j] {
                    b[x] = match ch.choose(3) { 0 => 0, 1 => 0xFF, _ => b[x].wrapping_add(1) };
                }
            }
        }
        c.describe_lazy(|| format!("{:02X?}", &b[..b.len().min(200)]));
        read_bin(&b, c)
    });

    let lines: Vec<&'static str> = vec![
        ".TEXT", ".SYMBOL", ".LINKER_INFO", ".DEBUG", "ADDR | EXT | LABEL", "ADDR | LABEL", "LABEL | INDEX", "LINE | ADDR | SOURCE", "=", "====================",
        "3000", "0", "1", "2", "65535", "????", "FFFF", "1234", "+123", "é00", "3000 |   0 | A", "0000 | 1 | A", "0000 | 1 | B", "FFFF | 255 | ", "3000 | A", "9999 | A", "FFFF | B",
        "A | 0", "A | 18446744073709551615", "B | 18446744073709551614", "A | 99999999999999999999", " | ", "0 | 3000 | x\\n", "0 | ???? | \\", "1 | 3001 | \\u{110000}", "0 | FFFF", "1 | 3000 | ", "18446744073709551615 | 0000 | ", "#", ".X",
    ];
    let d = k.tier(4, 5);
    k.family("text-lines", &format!("header and every sequence of up to 4 (thorough 5) of {} lines (sections, table headers, valid and broken rows, dividers, words, counts)", lines.len()), 0, {
        let lines = lines.clone();
        move |ch, c| {
            let n = ch.choose(d + 1);
            let mut t = String::from("LC-3 OBJ FILE\n");
            for _ in 0..n {
                t.push_str(*ch.pick(&lines));
                t.push('\n');
            }
            c.describe_lazy(|| format!("{t:?}"));
            read_text(&t, c)
        }
    });
    let d = k.tier(6, 7);
    k.family("text-debug", "a .TEXT block, .SYMBOL/.LINKER_INFO tables, and a .DEBUG section of every sequence of up to 6 (thorough 7) of 11 lines", 0, move |ch, c| {
        let ls = ["====", "LABEL | INDEX", "LINE | ADDR | SOURCE", "A | 18446744073709551615", "0 | 3000 | A\\n", "1 | 3001 | x", "1 | ???? | \\r\\n", "2 | 3000 | ", "0 | ???? | ", "B | 0", "1 | 2FFF | \\\\"];
        let pre = *ch.pick(&["", "\n.TEXT\n3000\n2\n0000\n????\n\n.SYMBOL\nADDR | EXT | LABEL\n3000 | 0 | A\n\n.LINKER_INFO\n", ".SYMBOL\nADDR | EXT | LABEL\n0000 | 1 | A\n.LINKER_INFO\nADDR | LABEL\n9999 | A\n"]);
        let mut t = format!("LC-3 OBJ FILE\n{pre}.DEBUG\n");
        let n = ch.choose(d + 1);
        for _ in 0..n {
            t.push_str(*ch.pick(&ls));
            t.push('\n');
        }
        c.describe_lazy(|| format!("{t:?}"));
        read_text(&t, c)
    });
    let d = k.tier(5, 6);
    k.family("text-escapes", "every source cell of up to 5 (thorough 6) characters over 14 (backslash, escape letters, braces, digits, quotes, non-ASCII)", 0, move |ch, c| {
        let cs = ['\\', 'u', '{', '}', 'x', '1', '0', '7', 'F', 'n', '"', 'é', 'D', ' '];
        let n = ch.choose(d + 1);
        let x: String = (0..n).map(|_| *ch.pick(&cs)).collect();
        let t = format!("LC-3 OBJ FILE\n.DEBUG\n====\nLINE | ADDR | SOURCE\n0 | 3000 | {x}\n1 | ???? | z\n====\n");
        c.describe_lazy(|| format!("{t:?}"));
        read_text(&t, c)
    });
    k.family("text-long-escapes", "\\\\u{...} with every length 0-10 of each hex digit, \\\\x and octal escapes, truncated at every point", 0, |ch, c| {
        let dg = *ch.pick(&['0', '1', '9', 'a', 'F', 'D', 'g', '+', '-', '_', 'é']);
        let n = ch.choose(11);
        let pre = *ch.pick(&["\\u{", "\\u", "\\x", "\\", "\\u{d", "\\u{10", "\\U"]);
        let post = *ch.pick(&["}", "", "{", "\\", "}}"]);
        let x = format!("{pre}{}{post}", dg.to_string().repeat(n));
        let t = format!("LC-3 OBJ FILE\n.DEBUG\n====\nLINE | ADDR | SOURCE\n0 | 3000 | {x}\n====");
        c.describe_lazy(|| format!("{t:?}"));
        read_text(&t, c)
    });
    let texts: Vec<String> = samples().iter().map(TextFormat::serialize).collect();
    k.family("text-mutations", "valid serializations of 6 files: every character replaced by each of 16, deleted, or preceded by each of 16; every truncation; every line deleted, duplicated, moved to any position or swapped for any other line", 0, move |ch, c| {
        let t = ch.pick(&texts).clone();
        let cs: Vec<char> = t.chars().collect();
        let al = ['0', '9', 'F', '?', '|', ' ', '\n', '.', '=', '#', '\\', '-', '+', 'A', 'é', '\r'];
        let out: String = match ch.choose(6) {
            0 => {
                let i = ch.choose(cs.len());
                let x = *ch.pick(&al);
                cs.iter().enumerate().map(|(j, &y)| if j == i { x } else { y }).collect()
            }
            1 => {
                let i = ch.choose(cs.len());
                cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, &y)| y).collect()
            }
            2 => {
                let i = ch.choose(cs.len());
                let mut v = cs.clone();
                v.insert(i, *ch.pick(&al));
                v.into_iter().collect()
            }
            3 => cs[..ch.choose(cs.len())].iter().collect(),
            4 => {
                let mut v: Vec<&str> = t.lines().collect();
                let i = ch.choose(v.len());
                let x = v[i];
                if ch.flag() {
                    v.remove(i);
                }
                let j = ch.choose(v.len() + 1);
                if j < v.len() || ch.flag() {
                    v.insert(j, x);
                }
                v.join("\n")
            }
            _ => {
                let mut v: Vec<&str> = t.lines().collect();
                let i = ch.choose(v.len());
                let j = ch.choose(v.len());
                v[i] = v[j];
                v.join("\r\n")
            }
        };
        c.describe_lazy(|| format!("{out:?}"));
        read_text(&out, c)
    });
    k.family("text-numbers", "every count field and table index at every power of two +-1 and 20 odd spellings; blocks of every stated length 0-70 with 0-70 words, at addresses that wrap", 0, |ch, c| {
        let nums: Vec<String> = (0..=65u32).flat_map(|b| { let p = 1u128 << b; [p - 1, p, p + 1] }).map(|x| x.to_string())
            .chain(["", "-1", "+1", "00001", "0x10", "1e3", " 1", "1 ", "é", "१", "1_0", "NaN", "--", "1.0", "\u{0}"].map(String::from)).collect();
        let t = match ch.choose(4) {
            0 => {
                let n = ch.choose(70);
                let m = ch.choose(70);
                format!("LC-3 OBJ FILE\n.TEXT\n{:04X}\n{n}\n{}", *ch.pick(&[0u16, 0xFFF0, 0xFDF0, 0xFFFF]), ch.pick(&["FFFF\n????\n", "????\n????\n????\n", "0000\n????\n????\n????\n????\n????\n", "1\n"]).repeat(m + 1).lines().take(m).collect::<Vec<_>>().join("\n"))
            }
            1 => format!("LC-3 OBJ FILE\n.SYMBOL\nADDR | EXT | LABEL\n3000 | {} | A\n.DEBUG\n====\n", ch.pick(&nums)),
            2 => format!("LC-3 OBJ FILE\n.DEBUG\nLABEL | INDEX\nA | {}\nB | {}\n====\n====\n", ch.pick(&nums).clone(), ch.pick(&nums)),
            _ => format!("LC-3 OBJ FILE\n.TEXT\n3000\n{}\n0000\n.DEBUG\n===\nLINE | ADDR | SOURCE\n{} | 3000 | x\n===\n", ch.pick(&nums).clone(), ch.pick(&nums)),
        };
        c.describe_lazy(|| format!("{t:?}"));
        read_text(&t, c)
    });
    k.family("long-names", "labels of 65534-65537 and 200000 bytes in either format; up to 66000 identical line addresses; 70000-line sources", 0, |ch, c| {
        let n = *ch.pick(&[65534usize, 65535, 65536, 65537, 200000]);
        match ch.choose(3) {
            0 => {
                let name = "L".repeat(n);
                let b = [HEAD, &[1, 0, 0x30, 0], &u64::MAX.to_le_bytes()[..], &(n as u64).to_le_bytes(), name.as_bytes()].concat();
                c.describe_lazy(|| format!("binary label of {n} bytes"));
                read_bin(&b, c)
            }
            1 => {
                c.describe_lazy(|| format!("text label of {n} bytes"));
                read_text(&format!("LC-3 OBJ FILE\n.SYMBOL\nADDR | EXT | LABEL\n3000 | 0 | {}", "L".repeat(n)), c)
            }
            _ => {
                let rows: String = (0..n).map(|i| format!("{i} | 3000 | \n")).collect();
                c.describe_lazy(|| format!("{n} lines with one address"));
                read_text(&format!("LC-3 OBJ FILE\n.DEBUG\n==\nLINE | ADDR | SOURCE\n{rows}{n} | ???? | \n=="), c)
            }
        }
    });
    k.run()
}
