//! The oracle: compares what knuffel reports with the reference decoder
use std::collections::{BTreeMap, HashMap};
use knuffel::span::{LineSpan, Span};
use knuffel::traits::Span as AnySpan;
use refmodel::kdl::{self, LineIndex, RNode};
use refmodel::report::*;
use crate::model::*;
use crate::obs::{diag, diags, Diag};
use crate::types::Entry;

pub struct World {
    pub defs: HashMap<&'static str, Def>,
    pub span: Vec<Entry<Span>>,
    pub line: Vec<Entry<LineSpan>>,
    pub index: HashMap<&'static str, usize>,
    pub names: Vec<Vec<String>>,
    pub closure: Vec<Vec<&'static str>>,
}

impl World {
    pub fn new() -> World {
        let defs = crate::schema::defs();
        let span = crate::types::by_span::entries();
        let index = span.iter().enumerate().map(|(i, e)| (e.name, i)).collect();
        let names = span.iter().map(|e| crate::docgen::names(&defs, e.name)).collect();
        let closure = span.iter().map(|e| crate::docgen::closure(&defs, e.name)).collect();
        World { line: crate::types::by_line::entries(), defs, index, names, closure, span }
    }
    /// Types for a property: those that have the feature and those that
    /// contain such a type
    pub fn with(&self, tag: &str) -> (Vec<usize>, Vec<usize>) {
        let direct: Vec<usize> = (0..self.span.len()).filter(|&i| self.span[i].tags.contains(&tag)).collect();
        let any = (0..self.span.len()).filter(|&i| self.closure[i].iter().any(|t| self.span[self.index[t]].tags.contains(&tag))).collect();
        (direct, any)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How { List, Doc, Node }

impl How {
    pub fn name(self) -> &'static str {
        match self { How::List => "list", How::Doc => "document", How::Node => "node" }
    }
}

fn matches(f: &Fault, d: &Diag) -> bool {
    if let Some(m) = &f.msg {
        if *m != d.msg {
            return false;
        }
    } else if d.msg.is_empty() {
        return false;
    }
    if f.spans.is_empty() {
        return d.labels.is_empty();
    }
    d.labels.len() == 1 && d.labels[0].text == f.label
        && f.spans.iter().any(|s| (s.0, s.1 - s.0) == (d.labels[0].start, d.labels[0].len))
}

pub fn show(d: &Diag) -> String {
    format!("{:?} at {:?}", d.msg, d.labels.iter().map(|l| format!("{}..{} {:?}", l.start, l.start + l.len, l.text)).collect::<Vec<_>>())
}

fn show_fault(f: &Fault) -> String {
    format!("{:?} at {:?} {:?}", f.msg, f.spans, f.label)
}

/// `groups`: faults of each top-level node (or of the whole document)
pub fn judge(groups: &[Vec<Fault>], exp: &Val, got: &Result<Val, Vec<Diag>>, acc: &mut Acc) -> Result<(), String> {
    let total: usize = groups.iter().flatten().filter(|f| !f.maybe).count();
    match got {
        Ok(v) => {
            if let Some(f) = groups.iter().flatten().find(|f| !f.maybe) {
                return Err(format!("decoded to {:?}, expected an error: {}", v, show_fault(f)));
            }
            if v != exp {
                return Err(format!("decoded to {:?}, expected {:?}", v, exp));
            }
            acc.count("values compared");
            Ok(())
        }
        Err(ds) => {
            if total == 0 {
                return Err(format!("rejected with {}, expected {:?}", ds.iter().map(show).collect::<Vec<_>>().join("; "), exp));
            }
            if ds.is_empty() {
                return Err("an error without diagnostics".into());
            }
            let mut used: Vec<Vec<bool>> = groups.iter().map(|g| vec![false; g.len()]).collect();
            let mut at = 0;
            for d in ds {
                let mut found = None;
                'o: for (gi, g) in groups.iter().enumerate() {
                    for (fi, f) in g.iter().enumerate() {
                        if !used[gi][fi] && matches(f, d) {
                            found = Some((gi, fi));
                            break 'o;
                        }
                    }
                }
                let Some((gi, fi)) = found else {
                    return Err(format!("diagnostic {} is not about a fault of the document; faults: {}", show(d),
                        groups.iter().flatten().map(show_fault).collect::<Vec<_>>().join("; ")));
                };
                used[gi][fi] = true;
                if gi < at {
                    return Err(format!("diagnostic {} of node {} follows one of node {}", show(d), gi, at));
                }
                at = gi;
                acc.count("diagnostics matched");
            }
            for (gi, g) in groups.iter().enumerate() {
                let any = g.iter().any(|f| !f.maybe);
                if any && !used[gi].iter().any(|x| *x) {
                    return Err(format!("no diagnostic for node {}, expected {}", gi, show_fault(&g[0])));
                }
                if g.iter().all(|f| !f.hard) {
                    for (fi, f) in g.iter().enumerate() {
                        if !f.maybe && !used[gi][fi] {
                            return Err(format!("fault is not reported: {}; reported: {}", show_fault(f), ds.iter().map(show).collect::<Vec<_>>().join("; ")));
                        }
                    }
                    if any {
                        acc.count("groups of faults reported completely");
                    }
                }
            }
            Ok(())
        }
    }
}

pub struct Model {
    pub groups: Vec<Vec<Fault>>,
    pub val: Val,
}

/// Reference result; `lines` for line spans
pub fn model(w: &World, ty: &'static str, how: How, nodes: &[RNode], lines: Option<&LineIndex>, acc: Option<&mut Acc>) -> Model {
    let mut covered: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut run = |f: &mut dyn FnMut(&mut Ctx) -> Val| {
        let mut c = Ctx { defs: &w.defs, faults: Vec::new(), idx: lines, covered: Vec::new() };
        let v = f(&mut c);
        for x in c.covered {
            *covered.entry(x).or_insert(0) += 1;
        }
        (c.faults, v)
    };
    let (groups, val) = match how {
        How::List => {
            let mut groups = Vec::new();
            let mut vals = Vec::new();
            for n in nodes {
                let (f, v) = run(&mut |c| c.node(&Dec::Ty(ty), n));
                groups.push(f);
                vals.push(v);
            }
            (groups, Val::List(vals))
        }
        How::Node => {
            let (f, v) = run(&mut |c| c.node(&Dec::Ty(ty), &nodes[0]));
            (vec![f], v)
        }
        How::Doc => {
            let (f, v) = run(&mut |c| c.document(ty, nodes));
            (vec![f], v)
        }
    };
    if let Some(acc) = acc {
        for (k, n) in covered {
            acc.add(k, n);
        }
    }
    Model { groups, val }
}

pub fn width(c: char) -> usize {
    unicode_width::UnicodeWidthChar::width(c).unwrap_or(0)
}

fn run_one<S: AnySpan>(e: &Entry<S>, how: How, text: &str, render: bool) -> Result<Result<Val, Vec<Diag>>, String> {
    let r = match how {
        How::List => (e.list)(text, "list.kdl"),
        How::Doc => (e.doc.expect("harness: no document decoder"))(text, "doc.kdl"),
        How::Node => {
            let ast = knuffel::parse_ast::<S>("node.kdl", text).map_err(|e| format!("document doesn't parse: {:?}", diags(&e)))?;
            let n = ast.nodes.first().ok_or("no nodes parsed")?;
            return Ok((e.node)(n).map_err(|v| v.iter().map(|d| diag(d)).collect()));
        }
    };
    match r {
        Ok(v) => Ok(Ok(v)),
        Err(e) => {
            if render {
                crate::render::check(&e, text)?;
            }
            Ok(Err(diags(&e)))
        }
    }
}
/// Decodes with both kinds of spans and compares with the model
pub fn check_text(w: &World, ti: usize, how: How, text: &str, acc: &mut Acc) -> Result<(), String> {
    let doc = kdl::parse(text).unwrap_or_else(|e| panic!("harness: generated document is invalid: {:?} {:?}", e, text));
    let ty = w.span[ti].name;
    let idx = LineIndex::new(text, width);
    let m = model(w, ty, how, &doc.nodes, None, Some(acc));
    let ml = model(w, ty, how, &doc.nodes, Some(&idx), None);
    let n = m.groups.iter().flatten().filter(|f| !f.maybe).count();
    let sig = (ty, how.name(), m.groups.iter().flatten().map(|f| f.msg.clone()).collect::<Vec<_>>(), if n == 0 { text } else { "" });
    acc.eval(hash(&sig), true);
    acc.count(match n { 0 => "documents without faults", 1 => "documents with one fault", _ => "documents with several faults" });
    acc.max("faults of a document", n as u64);
    let a = run_one(&w.span[ti], how, text, false)?;
    judge(&m.groups, &m.val, &a, acc)?;
    let b = run_one(&w.line[ti], how, text, false)?;
    judge(&ml.groups, &ml.val, &b, acc).map_err(|e| format!("with line spans: {}", e))?;
    if let (Err(a), Err(b)) = (&a, &b) {
        if a != b {
            return Err(format!("diagnostics differ between kinds of spans: {} vs {}", a.iter().map(show).collect::<Vec<_>>().join("; "), b.iter().map(show).collect::<Vec<_>>().join("; ")));
        }
    }
    Ok(())
}

/// Anything goes, but no panics, and errors can be shown
pub fn check_total(w: &World, ti: usize, how: How, text: &str, acc: &mut Acc) -> Result<(), String> {
    acc.eval(hash(&(ti, text)), true);
    for r in [run_one(&w.span[ti], how, text, true), run_one(&w.line[ti], how, text, true)] {
        match r {
            Ok(Ok(_)) => acc.count("decoded"),
            Ok(Err(d)) if d.is_empty() => return Err("an error without diagnostics".into()),
            Ok(Err(_)) => acc.count("rejected and rendered"),
            Err(e) if how == How::Node => { let _ = e; acc.count("not parsed") }
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

fn plain(v: &Val) -> Val {
    match v {
        Val::Spanned(_, v) => plain(v),
        Val::Some(v) => Val::Some(Box::new(plain(v))),
        Val::List(l) => Val::List(l.iter().map(plain).collect()),
        Val::Map(l) => Val::Map(l.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        Val::Rec(n, l) => Val::Rec(n.strip_suffix("Plain").unwrap_or(n).into(), l.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        Val::Var(n, l) => Val::Var(n.clone(), l.iter().map(plain).collect()),
        v => v.clone(),
    }
}

/// The type with wrappers against the same without
pub fn check_twin(w: &World, ti: usize, how: How, text: &str, acc: &mut Acc) -> Result<(), String> {
    check_text(w, ti, how, text, acc)?;
    let name = w.span[ti].name;
    if let Some(&tj) = w.index.get(&format!("{}Plain", name)[..]) {
        let (a, b) = (run_one(&w.span[ti], how, text, false)?, run_one(&w.span[tj], how, text, false)?);
        same(&a, &b)?;
        let (a, b) = (run_one(&w.line[ti], how, text, false)?, run_one(&w.line[tj], how, text, false)?);
        same(&a, &b)?;
        acc.count("wrapped against plain type");
    }
    if how == How::Doc {
        let a = run_one(&w.span[ti], how, text, false)?;
        let b = (w.span[ti].doc_box.unwrap())(text, "doc.kdl").map_err(|e| diags(&e));
        same(&a, &b)?;
        acc.count("pointer as the document");
    }
    Ok(())
}

fn same(a: &Result<Val, Vec<Diag>>, b: &Result<Val, Vec<Diag>>) -> Result<(), String> {
    match (a, b) {
        (Ok(a), Ok(b)) if plain(a) == plain(b) => Ok(()),
        (Err(a), Err(b)) if a == b => Ok(()),
        _ => Err(format!("wrapped type gives {:?}, plain type gives {:?}", a, b)),
    }
}
