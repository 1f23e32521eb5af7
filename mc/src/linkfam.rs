//! Building and observing object files for the linker and object-format properties.
use crate::asmfam::image_of;
use crate::asmmodel::{self, up, Asm, Obj};
use crate::lang::*;
use crate::surface::{render, Rendered};
use crate::{ensure, fail, real, Ch, Res};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use std::collections::BTreeMap;

pub struct File {
    pub prog: Vec<S>,
    pub obj: ObjectFile,
    pub asm: Asm,
    pub model: Obj,
    pub r: Rendered,
}
/// Renders canonically and assembles a well-formed program.
pub fn file(prog: Vec<S>, debug: bool) -> Res<File> {
    let r = render(&mut Ch::canonical(), &prog);
    file_from(prog, r, debug)
}
pub fn file_from(prog: Vec<S>, r: Rendered, debug: bool) -> Res<File> {
    let asm = asmmodel::assemble(&prog);
    assert!(asm.viol.is_empty() && !asm.ambiguous, "harness: ill-formed file {:?} {prog:?}", asm.viol);
    let ast = match real("parse_ast", || parse_ast(&r.text))? {
        Ok(a) => a,
        Err(e) => return fail("parse", format!("{e:?}: {:?}", r.text)),
    };
    let obj = match real("assemble", || if debug { assemble_debug(ast, &r.text) } else { assemble(ast) })? {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("well-formed file rejected with {:?}: {:?}", e.kind, r.text)),
    };
    Ok(File { model: Obj::from_asm(&asm), prog, obj, asm, r })
}
thread_local! {
    static DEFINERS: std::cell::RefCell<BTreeMap<String, ObjectFile>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}
const PROBE: u16 = 0xFDA7;
/// A file that only defines `name` (at an address nothing else uses).
fn definer(name: &str) -> Res<ObjectFile> {
    if let Some(o) = DEFINERS.with(|d| d.borrow().get(name).cloned()) {
        return Ok(o);
    }
    let f = file(vec![s(K::Orig(PROBE)), S { labels: vec![name.into()], k: K::End }], true)?;
    DEFINERS.with(|d| d.borrow_mut().insert(name.into(), f.obj.clone()));
    Ok(f.obj)
}
/// The pending relocations: which words change when a file that defines the label is linked in.
pub fn relocations(o: &ObjectFile) -> Res<BTreeMap<u16, String>> {
    let mut m = BTreeMap::new();
    let Some(sym) = o.symbol_table() else { return Ok(m) };
    // the table has no order: sort, so that two equal files are probed with the same names
    let mut ext: Vec<String> = sym.label_iter().filter(|l| l.2).map(|l| up(l.0)).collect();
    ext.sort();
    if ext.len() > 12 {
        ext.drain(2..ext.len() - 2);
    }
    if ext.is_empty() {
        return Ok(m);
    }
    let before = image_of(o)?;
    for n in ext {
        let d = definer(&n)?;
        let x = match real("ObjectFile::link", || ObjectFile::link(o.clone(), d))? {
            Ok(x) => x,
            Err(e) => return fail("probe", format!("linking a file that only defines {n} fails with {:?}", e.kind)),
        };
        for (a, w) in image_of(&x)? {
            match before.get(&a) {
                None => return fail("probe", format!("x{a:04X} appeared when linking a file without words")),
                Some(b) if *b != w => {
                    if w != Some(PROBE) {
                        return fail("probe", format!("x{a:04X} changed from {b:04X?} to {w:04X?} when {n} was defined as x{PROBE:04X}"));
                    }
                    m.insert(a, n.clone());
                }
                _ => {}
            }
        }
    }
    Ok(m)
}
/// What a linked or assembled object file looks like from outside.
pub fn observe(o: &ObjectFile) -> Res<Obj> {
    let image = image_of(o)?;
    let labels = match o.symbol_table() {
        None => BTreeMap::new(),
        Some(s) => real("label_iter", || s.label_iter().map(|(n, a, x)| (up(n), (a, x))).collect())?,
    };
    Ok(Obj { image, labels, rel: relocations(o)? })
}
/// Compares the observation with the model.
pub fn same(o: &ObjectFile, want: &Obj, ctx: &str) -> Res {
    let got = observe(o)?;
    if let Some(d) = crate::asmfam::diff(&got.image, &want.image) {
        return fail("image", format!("{ctx}: {d}"));
    }
    ensure!(got.labels == want.labels, "labels", "{ctx}: labels (address, external) are {:04X?}, want {:04X?}", got.labels, want.labels);
    ensure!(got.rel == want.rel, "relocations", "{ctx}: pending relocations are {:04X?}, want {:04X?}", got.rel, want.rel);
    Ok(())
}
/// Links in order with the given bracketing (`shape` < number of binary trees over `fs`).
pub fn link_tree(mut fs: Vec<ObjectFile>, shape: usize) -> Res<Result<ObjectFile, lc3_ensemble::asm::AsmErr>> {
    let n = fs.len();
    if n == 1 {
        return Ok(Ok(fs.pop().unwrap()));
    }
    let mut shape = shape;
    for k in 1..n {
        let (a, b) = (trees(k), trees(n - k));
        if shape < a * b {
            let right = fs.split_off(k);
            let x = link_tree(fs, shape / b)?;
            let y = link_tree(right, shape % b)?;
            return match (x, y) {
                (Ok(x), Ok(y)) => real("ObjectFile::link", || ObjectFile::link(x, y)),
                (Err(e), _) | (_, Err(e)) => Ok(Err(e)),
            };
        }
        shape -= a * b;
    }
    unreachable!()
}
/// Catalan numbers: the bracketings of n operands.
pub fn trees(n: usize) -> usize {
    if n <= 1 {
        return 1;
    }
    (1..n).map(|k| trees(k) * trees(n - k)).sum()
}

/// What a file does with a label; `STATES` of them.
pub const STATES: usize = 8;
pub fn content(x: usize, name: &str, pre: &mut Vec<S>, body: &mut Vec<S>, end: &mut Vec<String>) {
    let n = name.to_string();
    let lo = name.to_lowercase();
    match x {
        0 => {}
        1 => body.push(S { labels: vec![lo], k: K::Not(1, 2) }),
        2 => {
            pre.push(s(K::External(n)));
            body.push(s(K::Fill(Opd::L(lo))));
        }
        3 => {
            body.push(s(K::Fill(Opd::L(n.clone()))));
            body.push(s(K::External(lo)));
            body.push(s(K::Fill(Opd::L(n))));
        }
        4 => end.push(n),
        5 => pre.push(s(K::External(lo))),
        6 => {
            body.insert(0, S { labels: vec![n.clone()], k: K::Blkw(1) });
            body.push(s(K::Fill(Opd::L(lo))));
        }
        _ => {
            body.push(S { labels: vec![n.clone() + "_2"], k: K::Fill(Opd::L(n.clone())) });
            pre.push(s(K::External(n)));
        }
    }
}
/// A file with one block at `base` made of the contents for labels X and Y.
pub fn build(base: u16, x: usize, y: usize, fill: bool) -> Vec<S> {
    build_named(base, x, y, fill, "X", "Yy")
}
/// The same with other names of the labels.
pub fn build_named(base: u16, x: usize, y: usize, fill: bool, nx: &str, ny: &str) -> Vec<S> {
    let (mut pre, mut body, mut end) = (vec![], vec![], vec![]);
    content(x, nx, &mut pre, &mut body, &mut end);
    content(y, ny, &mut pre, &mut body, &mut end);
    if fill {
        body.push(s(K::Blkw(1)));
    }
    let mut p = pre;
    p.push(s(K::Orig(base)));
    p.extend(body);
    p.push(S { labels: end, k: K::End });
    p
}
pub fn size(p: &[S]) -> u16 {
    p.iter().map(|x| x.k.size() as u16).sum()
}
