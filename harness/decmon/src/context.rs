//! Hand-written decoders: what they see in the context and what happens with
//! errors that they emit
use std::collections::BTreeMap;
use std::fmt::Write as _;
use knuffel::ast::{Literal, SpannedNode, TypeName};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeScalar, DecodeSpan, ErrorSpan};
use miette::Diagnostic;
use refmodel::report::*;
use refmodel::rng::Rng;
use crate::check::{show, How, World};
use crate::obs::{diags, Diag};

#[derive(Debug)]
struct A(u64);
#[derive(Debug)]
struct B(String);
#[derive(Debug)]
struct C;
#[derive(Debug)]
struct Seq(usize);

fn look<S: ErrorSpan>(ctx: &mut Context<S>) -> String {
    let s = format!("{:?} {:?} {:?}", ctx.get::<A>(), ctx.get::<B>(), ctx.get::<C>());
    let n = ctx.get::<Seq>().map_or(0, |s| s.0);
    ctx.set(Seq(n + 1));
    format!("{} seq {}", s, n)
}

#[derive(Debug)]
pub struct SeenS(String);
impl<S: ErrorSpan> DecodeScalar<S> for SeenS {
    fn type_check(t: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) {
        if let Some(t) = t {
            ctx.emit_error(DecodeError::unexpected(t, "type name", "emitted by type_check"));
        }
    }
    fn raw_decode(v: &Spanned<Literal, S>, ctx: &mut Context<S>) -> Result<SeenS, DecodeError<S>> {
        let s = look(ctx);
        if let Literal::String(x) = &**v {
            if x.starts_with('!') {
                ctx.emit_error(DecodeError::conversion(v, "emitted by scalar"));
            }
            if x.starts_with('?') {
                return Err(DecodeError::conversion(v, "returned by scalar"));
            }
        }
        Ok(SeenS(s))
    }
}
#[derive(Debug)]
pub struct SeenN(String);
impl<S: ErrorSpan> Decode<S> for SeenN {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<SeenN, DecodeError<S>> {
        let s = look(ctx);
        if n.type_name.is_some() {
            ctx.emit_error(DecodeError::missing(n, "emitted by node"));
        }
        Ok(SeenN(s))
    }
}
#[derive(Debug, Default)]
pub struct SeenSpan(String);
macro_rules! spans {
    ($m:ident, $s:ty) => {
        impl DecodeSpan<$s> for SeenSpan {
            fn decode_span(_: &$s, ctx: &mut Context<$s>) -> SeenSpan {
                SeenSpan(look(ctx))
            }
        }
        mod $m {
            use super::*;
            #[derive(knuffel::Decode)]
            #[knuffel(span_type=$s)]
            pub struct Host {
                #[knuffel(span)]
                at: SeenSpan,
                #[knuffel(argument)]
                a: SeenS,
                #[knuffel(arguments)]
                b: Vec<SeenS>,
                #[knuffel(property)]
                p: Option<SeenS>,
                #[knuffel(flatten(property, child))]
                f: Box<Part>,
                #[knuffel(properties)]
                q: BTreeMap<String, Box<SeenS>>,
                #[knuffel(child)]
                c: Option<SeenN>,
                #[knuffel(child, unwrap(argument))]
                u: Option<SeenS>,
                #[knuffel(children(name="m"))]
                m: Vec<std::rc::Rc<SeenN>>,
                #[knuffel(children)]
                rest: Vec<HostE>,
            }
            #[derive(knuffel::Decode, Default)]
            #[knuffel(span_type=$s)]
            pub struct Part {
                #[knuffel(property)]
                fp: Option<SeenS>,
                #[knuffel(child)]
                fc: Option<SeenN>,
                #[knuffel(child, unwrap(argument))]
                fu: Option<SeenS>,
            }
            #[derive(knuffel::Decode)]
            #[knuffel(span_type=$s)]
            pub enum HostE {
                Host(Box<Host>),
                N(SeenN),
                T(#[knuffel(argument)] SeenS, #[knuffel(span)] SeenSpan, #[knuffel(argument)] Option<Spanned<SeenS, SeenSpan>>),
            }
            impl Host {
                fn walk(&self, o: &mut Vec<String>) {
                    o.push(self.at.0.clone());
                    o.push(self.a.0.clone());
                    o.extend(self.b.iter().map(|x| x.0.clone()));
                    o.extend(self.p.iter().map(|x| x.0.clone()));
                    o.extend(self.f.fp.iter().map(|x| x.0.clone()));
                    o.extend(self.f.fc.iter().map(|x| x.0.clone()));
                    o.extend(self.f.fu.iter().map(|x| x.0.clone()));
                    o.extend(self.q.values().map(|x| x.0.clone()));
                    o.extend(self.c.iter().map(|x| x.0.clone()));
                    o.extend(self.u.iter().map(|x| x.0.clone()));
                    o.extend(self.m.iter().map(|x| x.0.clone()));
                    for e in &self.rest {
                        e.walk(o);
                    }
                }
            }
            impl HostE {
                fn walk(&self, o: &mut Vec<String>) {
                    match self {
                        HostE::Host(h) => h.walk(o),
                        HostE::N(n) => o.push(n.0.clone()),
                        HostE::T(a, s, b) => {
                            o.push(a.0.clone());
                            o.push(s.0.clone());
                            if let Some(b) = b {
                                o.push(b.span().0.clone());
                                o.push((**b).0.clone());
                            }
                        }
                    }
                }
            }
            pub fn run(text: &str, set: impl FnOnce(&mut Context<$s>)) -> Result<Vec<String>, knuffel::Error> {
                knuffel::parse_with_context::<Vec<HostE>, $s, _>("ctx.kdl", text, set).map(|v| {
                    let mut o = Vec::new();
                    for e in &v {
                        e.walk(&mut o);
                    }
                    o
                })
            }
            pub fn nodes(text: &str) -> Vec<Result<Vec<String>, Vec<Diag>>> {
                knuffel::parse_ast::<$s>("ctx.kdl", text).expect("generated text parses").nodes.iter().map(|n| {
                    knuffel::decode::node::<HostE, $s>(n).map(|e| {
                        let mut o = Vec::new();
                        e.walk(&mut o);
                        o
                    }).map_err(|e| e.iter().map(|d| crate::obs::diag(d)).collect())
                }).collect()
            }
        }
    }
}
spans!(by_span, Span);
spans!(by_line, LineSpan);

/// Writes documents of `Host`, counting decoders that will run
struct W<'r> {
    r: &'r mut Rng,
    out: String,
    /// calls of decoders
    calls: usize,
    /// per top-level node: messages emitted
    emitted: Vec<(&'static str, usize, usize)>,
    bad: usize,
}

impl W<'_> {
    fn scalar(&mut self) {
        self.calls += 1;
        if self.bad > 0 && self.r.one_in(self.bad) {
            let at = self.out.len();
            self.out.push_str("(t)");
            self.emitted.push(("emitted by type_check", at, 3));
        }
        let at = self.out.len();
        if self.bad > 0 && self.r.one_in(self.bad) {
            self.out.push_str("\"!bad\"");
            self.emitted.push(("emitted by scalar", at, 6));
        } else {
            let s = ["\"x\"", "1", "true", "null", "1.5"];
            // null is None of optional ones, so decoders don't see it
            let s = *self.r.pick(&[s[0], s[1], s[2], s[4]]);
            self.out.push_str(s);
        }
    }
    fn node(&mut self, name: &str) {
        self.calls += 1;
        let bad = self.bad > 0 && self.r.one_in(self.bad);
        if bad {
            self.out.push_str("(t)");
        }
        let at = self.out.len();
        self.out.push_str(name);
        if bad {
            self.emitted.push(("emitted by node", at, name.len()));
        }
        if self.r.one_in(3) {
            self.out.push_str(" 1 {\n sub 2\n}");
        }
        self.out.push('\n');
    }
    fn host(&mut self, depth: usize) {
        self.calls += 1;
        self.out.push_str("host ");
        self.scalar();
        for _ in 0..self.r.below(3) {
            self.out.push(' ');
            self.scalar();
        }
        for p in ["p", "fp", "q1", "q2"] {
            if self.r.one_in(2) {
                self.out.push(' ');
                self.out.push_str(p);
                self.out.push('=');
                self.scalar();
            }
        }
        if depth == 0 || self.r.one_in(4) {
            self.out.push('\n');
            return;
        }
        self.out.push_str(" {\n");
        let mut kids = vec!["c", "u", "m", "m", "fc", "fu", "e", "e"];
        self.r.shuffle(&mut kids);
        for k in kids {
            if self.r.one_in(2) {
                continue;
            }
            match k {
                "u" | "fu" => {
                    self.out.push_str(k);
                    self.out.push(' ');
                    self.scalar();
                    self.out.push('\n');
                }
                "e" => self.item(depth - 1),
                k => self.node(k),
            }
        }
        self.out.push_str("}\n");
    }
    fn item(&mut self, depth: usize) {
        match self.r.below(4) {
            0 => self.node("n"),
            1 => {
                self.out.push_str("t ");
                self.calls += 1;
                self.scalar();
                if self.r.one_in(2) {
                    self.out.push(' ');
                    self.calls += 1;
                    self.scalar();
                }
                self.out.push('\n');
            }
            _ => self.host(depth),
        }
    }
}

fn gen(r: &mut Rng, bad: usize) -> (String, usize, Vec<(&'static str, usize, usize)>) {
    let n = r.range(1, 4);
    let mut w = W { r, out: String::new(), calls: 0, emitted: vec![], bad };
    for _ in 0..n {
        w.item(3);
    }
    (w.out, w.calls, w.emitted)
}

fn same_errors(what: &str, exp: &[(&'static str, usize, usize)], got: &[Diag]) -> Result<(), String> {
    let mut a: Vec<_> = exp.iter().map(|e| (e.0.to_string(), e.1, e.2)).collect();
    let mut b: Vec<_> = got.iter().map(|d| (d.msg.clone(), d.labels.first().map_or(0, |l| l.start), d.labels.first().map_or(0, |l| l.len))).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("{}: emitted {:?}, reported {}", what, exp, got.iter().map(show).collect::<Vec<_>>().join("; ")));
    }
    Ok(())
}

/// Errors emitted by custom decoders fail the decoding and are all reported
pub fn emission(r: &mut Rng, run: &Run, acc: &mut Acc) {
    let bad = *r.pick(&[3, 8, 20, 40]);
    let (text, _, emitted) = gen(r, bad);
    let case = Case::new("emission", &text);
    acc.check(run, &case, |acc| {
        acc.eval(hash(&text), !emitted.is_empty());
        acc.sample(&text);
        acc.add("errors emitted by custom decoders", emitted.len() as u64);
        for (what, got) in [("byte spans", by_span::run(&text, |_| {})), ("line spans", by_line::run(&text, |_| {}))] {
            match got {
                Ok(v) if !emitted.is_empty() => return Err(format!("{}: {} values although errors were emitted: {:?}", what, v.len(), emitted)),
                Ok(_) => acc.count("nothing emitted"),
                Err(e) => same_errors(what, &emitted, &diags(&e))?,
            }
        }
        let mut all = Vec::new();
        for n in by_span::nodes(&text) {
            if let Err(e) = n {
                all.extend(e);
            }
        }
        same_errors("decode::node", &emitted, &all)
    });
}

fn seen(what: &str, calls: usize, exp: &str, got: &[String]) -> Result<(), String> {
    if got.len() != calls {
        return Err(format!("{}: {} decoders ran, expected {}", what, got.len(), calls));
    }
    let mut seqs = vec![false; calls];
    for g in got {
        let (c, n) = g.split_once(" seq ").unwrap();
        if c != exp {
            return Err(format!("{}: a decoder saw {:?}, expected {:?}", what, c, exp));
        }
        let n: usize = n.parse().unwrap();
        if n >= calls || seqs[n] {
            return Err(format!("{}: value set by a previous decoder isn't seen: {} of {}", what, n, calls));
        }
        seqs[n] = true;
    }
    Ok(())
}

/// Values that are told apart by nothing but their type
fn alike<S: ErrorSpan>(c: &mut Context<S>, n: u64) -> Result<(), String> {
    type Set<S> = fn(&mut Context<S>, u64);
    type Get<S> = fn(&Context<S>) -> Option<u64>;
    let mut all: Vec<(&str, Set<S>, Get<S>)> = Vec::new();
    macro_rules! one {
        ($t:ty, $mk:expr, $rd:expr) => {
            all.push((stringify!($t), |c, n| { let f: fn(u64) -> $t = $mk; c.set::<$t>(f(n)) }, |c| { let f: fn(&$t) -> u64 = $rd; c.get::<$t>().map(f) }));
        }
    }
    { struct X(u64); one!(X, X, |x| x.0); }
    { struct X(u64); one!(X, X, |x| x.0); }
    { struct X(u8); one!(X, |n| X(n as u8), |x| x.0 as u64); }
    { struct X; one!(X, |_| X, |_| 0); }
    one!(u64, |n| n, |n| *n);
    one!(i64, |n| n as i64, |n| *n as u64);
    one!(String, |n| n.to_string(), |n| n.parse().unwrap());
    one!(Box<str>, |n| n.to_string().into(), |n| n.parse().unwrap());
    one!(Box<dyn std::any::Any>, |n| Box::new(n), |n| *n.downcast_ref().unwrap());
    one!(Box<Box<dyn std::any::Any>>, |n| Box::new(Box::new(n)), |n| *n.downcast_ref().unwrap());
    one!(std::rc::Rc<u64>, |n| n.into(), |n| **n);
    one!(std::sync::Arc<u64>, |n| n.into(), |n| **n);
    one!(Option<u64>, Some, |n| n.unwrap());
    one!(fn(u64) -> u64, |_| |n| n, |_| 0);
    let mut exp: Vec<Option<u64>> = vec![None; all.len()];
    let mut k = n as usize;
    for step in 0..20 {
        let i = k % all.len();
        k = k / 3 + step * 7;
        let v = (n + step as u64) % 200;
        (all[i].1)(c, v);
        exp[i] = Some(v);
        for (j, a) in all.iter().enumerate() {
            let unit = j == 3 || j == all.len() - 1;
            let want = if unit { exp[j].map(|_| 0) } else { exp[j] };
            let got = (a.2)(c);
            if got != want {
                return Err(format!("after set::<{}>({}): get::<{}>() (number {}) gives {:?}, expected {:?}", all[i].0, v, a.0, j, got, want));
            }
        }
    }
    Ok(())
}

pub fn context(i: u64, r: &mut Rng, run: &Run, acc: &mut Acc) {
    let (text, calls, _) = gen(r, 0);
    let (failing, _, _) = gen(r, 60);
    // (which, value) in order of `set` calls
    let mut sets: Vec<(usize, u64)> = Vec::new();
    for _ in 0..r.below(5) {
        sets.push((r.below(3), r.u64() % 1000 + i * 1000));
    }
    let mut extra = String::new();
    let _ = write!(extra, "{:?}", sets);
    let case = Case::with("context", &text, &extra);
    acc.check(run, &case, |acc| {
        acc.eval(hash(&(&text, &extra)), !sets.is_empty());
        acc.sample(&text);
        let last = |w: usize| sets.iter().rev().find(|s| s.0 == w).map(|s| s.1);
        let exp = format!("{:?} {:?} {:?}", last(0).map(A), last(1).map(|v| B(v.to_string())), last(2).map(|_| C));
        let none = format!("{:?} {:?} {:?}", None::<A>, None::<B>, None::<C>);
        macro_rules! go {
            ($m:ident, $s:ty) => {{
                let got = $m::run(&text, |c: &mut Context<$s>| for (w, v) in &sets {
                    match w {
                        0 => c.set(A(*v)),
                        1 => c.set(B(v.to_string())),
                        _ => c.set(C),
                    }
                    let now = match w {
                        0 => c.get::<A>().map(|x| x.0) == Some(*v),
                        1 => c.get::<B>().map(|x| x.0 == v.to_string()) == Some(true),
                        _ => c.get::<C>().is_some(),
                    };
                    assert!(now, "value isn't there after set");
                    assert!(!c.has_errors(), "fresh context has errors");
                }).map_err(|e| format!("rejected: {:?}", diags(&e)))?;
                acc.add("decoder calls observed", got.len() as u64);
                seen(stringify!($m), calls, &exp, &got)?;
                let mut res = Ok(());
                let got = $m::run(&text, |c: &mut Context<$s>| res = alike(c, i * 7919)).map_err(|e| format!("rejected: {:?}", diags(&e)))?;
                res?;
                acc.count("contexts with values that differ by type only");
                seen("other types", calls, &format!("{:?} {:?} {:?}", None::<A>, None::<B>, None::<C>), &got)?;
                // a call that fails or panics in between, with values of its own
                match i % 4 {
                    0 => { let _ = $m::run("a {", |c: &mut Context<$s>| { c.set(A(1)); c.set(C) }); }
                    1 | 2 => {
                        let r = $m::run(&failing, |c: &mut Context<$s>| {
                            c.set(A(2));
                            c.set(B("left".into()));
                            c.set(Seq(3));
                        });
                        acc.count(if r.is_err() { "failing calls in between" } else { "calls in between" });
                    }
                    _ => {
                        let r = std::panic::catch_unwind(|| { let _ = $m::run(&text, |c: &mut Context<$s>| { c.set(B("left".into())); panic!("setup") }); });
                        if r.is_err() {
                            acc.count("panics in between");
                        }
                    }
                }
                // nothing is left for the next one
                let got = $m::run(&text, |_| {}).map_err(|e| format!("rejected: {:?}", diags(&e)))?;
                seen("no context", calls, &none, &got)?;
                let mut all = Vec::new();
                for n in $m::nodes(&text) {
                    all.push(n.map_err(|e| format!("decode::node rejected {:?}", e))?);
                }
                let total: usize = all.iter().map(|x| x.len()).sum();
                if total != calls {
                    return Err(format!("decode::node ran {} decoders, expected {}", total, calls));
                }
                for n in all {
                    seen("decode::node", n.len(), &none, &n)?;
                }
            }}
        }
        go!(by_span, Span);
        go!(by_line, LineSpan);
        Ok(())
    });
}

/// All ways to get from text to value agree
pub fn entries(w: &World, ti: usize, text: &str, acc: &mut Acc) -> Result<(), String> {
    let name = match text.len() % 4 {
        0 => String::new(),
        1 => format!("{} \n", ti),
        _ => format!("dir/файл {}.kdl", ti),
    };
    let (es, el) = (&w.span[ti], &w.line[ti]);
    acc.eval(hash(&(ti, text)), true);
    let whole = (es.list)(text, &name);
    let lines = (el.list)(text, &name);
    let ast = knuffel::parse_ast::<Span>(&name, text);
    let source = |e: &knuffel::Error| -> Result<(), String> {
        let src = e.source_code().ok_or("error without source code")?;
        let c = src.read_span(&(0, text.len()).into(), 0, 0).map_err(|e| format!("source can't be read: {}", e))?;
        if c.data() != text.as_bytes() {
            return Err(format!("source of the error is {:?}", String::from_utf8_lossy(c.data())));
        }
        if c.name() != Some(&name) {
            return Err(format!("name of the source is {:?}, expected {:?}", c.name(), name));
        }
        Ok(())
    };
    for e in [whole.as_ref().err(), lines.as_ref().err(), ast.as_ref().err()].into_iter().flatten() {
        source(e)?;
        acc.count("sources of errors compared");
    }
    let ast = match ast {
        Ok(a) => a,
        Err(e) => {
            for (what, r) in [("parse", &whole), ("with line spans", &lines)] {
                match r {
                    Ok(_) => return Err(format!("{} accepts what parse_ast rejects", what)),
                    Err(g) if diags(g) != diags(&e) => return Err(format!("{}: diagnostics differ from parse_ast: {:?} vs {:?}", what, diags(g), diags(&e))),
                    _ => {}
                }
            }
            acc.count("syntax errors compared");
            return Ok(());
        }
    };
    let last = knuffel::parse_ast::<LineSpan>(&name, text).map_err(|e| format!("line spans: parse_ast rejects {:?}", diags(&e)))?;
    compare("byte spans", whole.map_err(|e| diags(&e)), ast.nodes.iter().map(|n| (es.node)(n).map_err(|v| v.iter().map(|d| crate::obs::diag(d)).collect())).collect(), acc)?;
    compare("line spans", lines.map_err(|e| diags(&e)), last.nodes.iter().map(|n| (el.node)(n).map_err(|v| v.iter().map(|d| crate::obs::diag(d)).collect())).collect(), acc)?;
    if let Some(doc) = es.doc {
        // a document is like the block of a node
        let inner = format!("{}\n", text);
        let outer = format!("root {{\n{}\n}}", inner);
        let Ok(ast) = knuffel::parse_ast::<Span>(&name, &outer) else {
            acc.count("not a block");
            return Ok(());
        };
        if ast.nodes.len() != 1 {
            return Ok(());
        }
        let a = (doc)(&inner, &name);
        if let Err(e) = &a {
            let src = e.source_code().ok_or("error without source code")?;
            let c = src.read_span(&(0, inner.len()).into(), 0, 0).map_err(|e| e.to_string())?;
            if c.data() != inner.as_bytes() || c.name() != Some(&name) {
                return Err("source of the error isn't the document".into());
            }
        }
        let b = (es.node)(&ast.nodes[0]);
        let a = a.map_err(|e| diags(&e));
        let b: Result<_, Vec<Diag>> = b.map_err(|v| v.iter().map(|d| {
            let mut d = crate::obs::diag(d);
            if d.msg.starts_with("child node") && d.labels.iter().any(|l| l.start == 0) {
                d.labels.clear();
            }
            for l in &mut d.labels {
                l.start = l.start.saturating_sub(7);
            }
            d
        }).collect());
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if unspanned(&a) != unspanned(&b) {
                    return Err(format!("document decodes to {:?}, the same in a block to {:?}", a, b));
                }
            }
            (Err(a), Err(b)) => {
                let strip = |v: Vec<Diag>| v.into_iter().map(|d| (d.msg, d.labels)).collect::<Vec<_>>();
                let (a, b) = (strip(a), strip(b));
                if a != b {
                    return Err(format!("document gives {:?}, the same in a block {:?}", a, b));
                }
            }
            (a, b) => return Err(format!("document gives {:?}, the same in a block {:?}", a, b)),
        }
        acc.count("document against block");
    }
    Ok(())
}

use crate::model::Val;
fn unspanned(v: &Val) -> Val {
    match v {
        Val::Sp(..) => Val::None,
        Val::Spanned(_, v) => unspanned(v),
        Val::Some(v) => Val::Some(Box::new(unspanned(v))),
        Val::List(l) => Val::List(l.iter().map(unspanned).collect()),
        Val::Map(l) => Val::Map(l.iter().map(|(k, v)| (k.clone(), unspanned(v))).collect()),
        Val::Rec(n, l) => Val::Rec(n.clone(), l.iter().map(|(k, v)| (k.clone(), unspanned(v))).collect()),
        Val::Var(n, l) => Val::Var(n.clone(), l.iter().map(unspanned).collect()),
        v => v.clone(),
    }
}

fn compare(what: &str, whole: Result<Val, Vec<Diag>>, parts: Vec<Result<Val, Vec<Diag>>>, acc: &mut Acc) -> Result<(), String> {
    let mut vals = Vec::new();
    let mut errs = Vec::new();
    for p in parts {
        match p {
            Ok(v) => vals.push(v),
            Err(e) => errs.extend(e),
        }
    }
    match whole {
        Ok(v) if errs.is_empty() => {
            if v != Val::List(vals) {
                return Err(format!("{}: parse gives another value than decode::node: {:?}", what, v));
            }
            acc.count("values of entry points compared");
        }
        Err(e) if !errs.is_empty() => {
            if e != errs {
                return Err(format!("{}: parse reports {:?}, decode::node {:?}", what, e, errs));
            }
            acc.count("errors of entry points compared");
        }
        w => return Err(format!("{}: parse gives {:?}, decode::node gives errors {:?}", what, w.map_err(|e| e.len()), errs)),
    }
    Ok(())
}

/// Used by the document oracle
#[allow(dead_code)]
pub const ALL: [How; 3] = [How::List, How::Doc, How::Node];
