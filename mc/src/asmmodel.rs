//! Reference model of the assembler and the linker.
use crate::lang::*;
use lc3_ensemble::asm::AsmErrKind;
use std::collections::{BTreeMap, BTreeSet};

/// The conditions a program can violate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    LabelOutside,
    StmtOutside,
    Unclosed,
    Unopened,
    Nested,
    DupLabel,
    Wraps,
    InIo,
    Overlap,
    Offset,
    ExternalUse,
    Undefined,
}
pub fn v_of(k: &AsmErrKind) -> V {
    match k {
        AsmErrKind::UndetAddrLabel => V::LabelOutside,
        AsmErrKind::UndetAddrStmt => V::StmtOutside,
        AsmErrKind::UnclosedOrig => V::Unclosed,
        AsmErrKind::UnopenedOrig => V::Unopened,
        AsmErrKind::OverlappingOrig => V::Nested,
        AsmErrKind::OverlappingLabels => V::DupLabel,
        AsmErrKind::WrappingBlock => V::Wraps,
        AsmErrKind::BlockInIO => V::InIo,
        AsmErrKind::OverlappingBlocks => V::Overlap,
        AsmErrKind::OffsetNewErr(_) => V::Offset,
        AsmErrKind::OffsetExternal => V::ExternalUse,
        AsmErrKind::CouldNotFindLabel => V::Undefined,
    }
}
/// Where a label is written: (statement index, Some(index among its labels) or None for the `.external` operand)
pub type Occ = (usize, Option<usize>);
#[derive(Clone, Debug)]
pub struct Lab {
    pub addr: u32,
    pub ext: bool,
    pub first: Occ,
    /// every address it is bound to
    pub all: BTreeSet<u32>,
    pub both: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Asm {
    pub viol: BTreeSet<V>,
    /// upper-cased name -> binding
    pub labels: BTreeMap<String, Lab>,
    pub image: BTreeMap<u16, Option<u16>>,
    pub stmt_addr: Vec<Option<u32>>,
    /// address of a `.fill` of an external label -> label
    pub rel: BTreeMap<u16, String>,
    /// a name is both declared external and defined at x0000: its kind is not specified
    pub ambiguous: bool,
    /// and the name is a label operand whose acceptance depends on it
    pub ambiguous_use: bool,
    /// the labels involved in each kind of label violation
    pub names: BTreeMap<V, BTreeSet<String>>,
}
impl Asm {
    fn name(&mut self, v: V, n: &str) {
        self.viol.insert(v);
        self.names.entry(v).or_default().insert(up(n));
    }
}
pub fn up(s: &str) -> String {
    s.to_uppercase()
}

pub fn assemble(prog: &[S]) -> Asm {
    let mut a = Asm::default();
    let mut cur: Option<(u32, u32)> = None; // start, lc
    let mut blocks: Vec<(u32, u32)> = vec![];
    let mut broken: Vec<(u32, u32)> = vec![];
    let bind = |labels: &mut BTreeMap<String, Lab>, name: &str, addr: u32, ext: bool, occ: Occ| {
        let e = labels.entry(up(name)).or_insert_with(|| Lab { addr, ext, first: occ, all: BTreeSet::new(), both: false });
        e.all.insert(addr);
        if e.ext != ext {
            e.both = true;
        }
    };
    for (i, st) in prog.iter().enumerate() {
        if !st.labels.is_empty() {
            match cur {
                None => st.labels.iter().for_each(|n| a.name(V::LabelOutside, n)),
                Some((_, lc)) => {
                    for (j, n) in st.labels.iter().enumerate() {
                        bind(&mut a.labels, n, lc, false, (i, Some(j)));
                    }
                }
            }
        }
        a.stmt_addr.push(None);
        match &st.k {
            K::Orig(o) => {
                if let Some((s0, e0)) = cur {
                    a.viol.insert(V::Nested);
                    broken.push((s0, e0));
                }
                cur = Some((*o as u32, *o as u32));
            }
            K::End => match cur.take() {
                None => {
                    a.viol.insert(V::Unopened);
                }
                Some(b) => blocks.push(b),
            },
            K::External(n) => bind(&mut a.labels, n, 0, true, (i, None)),
            k => match &mut cur {
                None => {
                    a.viol.insert(V::StmtOutside);
                }
                Some((_, lc)) => {
                    a.stmt_addr[i] = Some(*lc);
                    *lc += k.size();
                }
            },
        }
    }
    if cur.is_some() {
        a.viol.insert(V::Unclosed);
    }
    for (n, l) in a.labels.clone() {
        if l.all.len() > 1 {
            a.name(V::DupLabel, &n);
        }
        // (with a second address the label is bound twice, which is not ambiguous)
        if l.both && l.all.len() == 1 {
            a.ambiguous = true;
        }
    }
    for (i, &(s0, e0)) in blocks.iter().enumerate() {
        if e0 > s0 {
            if e0 > 0xFE00 {
                a.viol.insert(V::InIo);
            }
            if e0 > 0x10000 {
                a.viol.insert(V::Wraps);
            }
            for &(s1, e1) in &blocks[..i] {
                if e1 > s1 && s0 < e1 && s1 < e0 {
                    a.viol.insert(V::Overlap);
                }
            }
        }
    }
    // an unclosed block that already runs into trouble violates that condition too
    broken.extend(cur);
    for (s0, e0) in broken {
        if e0 > s0 && e0 > 0xFE00 {
            a.viol.insert(V::InIo);
        }
        if e0 > s0 && e0 > 0x10000 {
            a.viol.insert(V::Wraps);
        }
    }
    let build = a.viol.is_empty();
    for (i, st) in prog.iter().enumerate() {
        let Some(at) = a.stmt_addr[i] else {
            if let Some((Opd::L(n), _)) = st.k.operand() {
                if !a.labels.contains_key(&up(n)) {
                    a.name(V::Undefined, n);
                }
            }
            continue;
        };
        let put = |image: &mut BTreeMap<u16, Option<u16>>, n: u32, w: Option<u16>| {
            if !build {
                return;
            }
            image.insert((at.wrapping_add(n)) as u16, w);
        };
        match &st.k {
            K::Blkw(_) if !build => {}
            K::Blkw(n) => (0..*n as u32).for_each(|j| put(&mut a.image, j, None)),
            K::Stringz(t) => {
                for (j, b) in t.bytes().enumerate() {
                    put(&mut a.image, j as u32, Some(b as u16));
                }
                put(&mut a.image, t.len() as u32, Some(0));
            }
            k => {
                let mut off = 0i32;
                let mut fill = None;
                if let Some((Opd::L(n), bits)) = k.operand() {
                    match a.labels.get(&up(n)).cloned() {
                        None => a.name(V::Undefined, n),
                        Some(lab) if bits == 16 => {
                            fill = Some(lab.addr as u16);
                            if lab.ext {
                                a.rel.insert(at as u16, up(n));
                            }
                        }
                        Some(lab) => {
                            if lab.both && lab.all.len() == 1 {
                                a.ambiguous_use = true;
                            }
                            if lab.ext || lab.both {
                                a.name(V::ExternalUse, n);
                            }
                            for (q, &t) in lab.all.iter().enumerate() {
                                let d = (t.wrapping_sub(at + 1)) as u16 as i16 as i32;
                                if q == 0 || t == lab.addr {
                                    off = d;
                                }
                                if !fits_s(d as i64, bits) && !lab.ext {
                                    a.name(V::Offset, n);
                                }
                            }
                        }
                    }
                }
                let w = fill.or_else(|| encode(k, off));
                put(&mut a.image, 0, w.or(Some(0)));
            }
        }
    }
    a
}

/// Model of an object file.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obj {
    pub image: BTreeMap<u16, Option<u16>>,
    /// name -> (address, external)
    pub labels: BTreeMap<String, (u16, bool)>,
    pub rel: BTreeMap<u16, String>,
}
impl Obj {
    pub fn from_asm(a: &Asm) -> Obj {
        Obj {
            image: a.image.clone(),
            labels: a.labels.iter().map(|(k, v)| (k.clone(), (v.addr as u16, v.ext))).collect(),
            rel: a.rel.clone(),
        }
    }
    /// The result of linking a set of files, in any order: None if they conflict.
    pub fn link_all(files: &[&Obj]) -> Option<Obj> {
        let mut o = Obj::default();
        for f in files {
            for (&a, &w) in &f.image {
                if o.image.insert(a, w).is_some() {
                    return None;
                }
            }
            for (n, &(a, x)) in &f.labels {
                match o.labels.get(n).copied() {
                    None | Some((_, true)) => {
                        o.labels.insert(n.clone(), (a, x));
                    }
                    Some((b, false)) => {
                        if !x && a != b {
                            return None;
                        }
                    }
                }
            }
            o.rel.extend(f.rel.clone());
        }
        let rel = std::mem::take(&mut o.rel);
        for (a, n) in rel {
            match o.labels[&n] {
                (t, false) => {
                    o.image.insert(a, Some(t));
                }
                _ => {
                    o.rel.insert(a, n);
                }
            }
        }
        Some(o)
    }
}
