//! C21: decoding into AST types
use std::collections::BTreeMap;
use knuffel::ast::{Literal, Node, SpannedNode, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use refmodel::kdl::{self, *};
use refmodel::report::*;
use crate::obs::*;
use crate::props::parse;
use crate::work::*;

fn exact() -> Cmp<'static> {
    Cmp { spans: true, values: true, lines: None }
}

fn bare(v: &Value<Span>, e: &RVal, w: &str) -> Result<(), String> {
    cmp_val(&exact(), w, e, v)
}

fn literal(l: &Literal, span: Option<&Span>, e: &RVal, w: &str) -> Result<(), String> {
    cmp_lit(&e.lit, l).map_err(|d| format!("{}: {}", w, d))?;
    if let Some(s) = span {
        if (s.0, s.1) != e.span {
            return Err(format!("{}: span {}, expected {:?}", w, s, e.span));
        }
    }
    Ok(())
}

fn keys<'x, V>(m: &BTreeMap<String, V>, e: &RNode, w: &str) -> Result<(), String> {
    let a: Vec<&String> = m.keys().collect();
    let b: Vec<&String> = e.props.keys().collect();
    if a != b {
        return Err(format!("{}: properties {:?}, expected {:?}", w, a, b));
    }
    Ok(())
}

fn len<T>(v: &[T], n: usize, w: &str) -> Result<(), String> {
    if v.len() != n {
        return Err(format!("{}: {} elements, expected {}", w, v.len(), n));
    }
    Ok(())
}

fn kids(e: &RNode) -> &[RNode] {
    e.children.as_ref().map_or(&[], |c| &c.1)
}

macro_rules! types { ($name:ident, $sp:ty) => { mod $name {
use super::*;
/// Whole content of a node by AST types, next to other fields
#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=$sp)]
pub struct Outer {
    #[knuffel(span)]
    pub span: Span,
    #[knuffel(type_name)]
    pub ty: Option<String>,
    #[knuffel(node_name)]
    pub name: String,
    #[knuffel(arguments)]
    pub args: Vec<Value<Span>>,
    #[knuffel(properties)]
    pub props: BTreeMap<String, Value<Span>>,
    #[knuffel(children)]
    pub children: Vec<SpannedNode<Span>>,
}

#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=$sp)]
pub struct Wrapped {
    #[knuffel(type_name)]
    pub _ty: Option<String>,
    #[knuffel(arguments)]
    pub args: Vec<Option<Box<Value<Span>>>>,
    #[knuffel(properties)]
    pub props: BTreeMap<String, Spanned<Literal, Span>>,
    #[knuffel(children)]
    pub children: Vec<Box<Node<Span>>>,
}

#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=$sp)]
pub struct Deep {
    #[knuffel(type_name)]
    pub _ty: Option<String>,
    #[knuffel(arguments)]
    pub args: Vec<Spanned<Option<Literal>, Span>>,
    #[knuffel(properties)]
    pub props: BTreeMap<String, std::sync::Arc<Value<Span>>>,
    #[knuffel(children)]
    pub children: Vec<Deep>,
}

pub fn deep(d: &Deep, e: &RNode) -> Result<(), String> {
    len(&d.args, e.args.len(), "deep arguments")?;
    for (a, e) in d.args.iter().zip(&e.args) {
        match (&**a, &e.lit) {
            (None, RLit::Null) => {
                if (a.span().0, a.span().1) != e.span {
                    return Err(format!("deep argument: span {}", a.span()));
                }
            }
            (Some(l), _) if e.lit != RLit::Null => literal(l, Some(a.span()), e, "deep argument")?,
            _ => return Err(format!("deep argument: {:?}, expected {:?}", a, e)),
        }
    }
    keys(&d.props, e, "deep")?;
    for (k, v) in &d.props {
        bare(v, &e.props[k].val, "deep property")?;
    }
    len(&d.children, kids(e).len(), "deep children")?;
    for (c, e) in d.children.iter().zip(kids(e)) {
        deep(c, e)?;
    }
    Ok(())
}

pub fn check_outer(o: &Outer, e: &RNode) -> Result<(), String> {
    if (o.span.0, o.span.1) != e.span {
        return Err(format!("span {}, expected {:?}", o.span, e.span));
    }
    if o.name != e.name.text || o.ty != e.ty.as_ref().map(|t| t.text.clone()) {
        return Err(format!("name {:?} type {:?}", o.name, o.ty));
    }
    len(&o.args, e.args.len(), "arguments")?;
    for (a, e) in o.args.iter().zip(&e.args) {
        bare(a, e, "argument")?;
    }
    keys(&o.props, e, "outer")?;
    for (k, v) in &o.props {
        bare(v, &e.props[k].val, "property")?;
    }
    cmp_nodes(&exact(), kids(e), &o.children)
}

pub fn check_wrapped(o: &Wrapped, e: &RNode) -> Result<(), String> {
    len(&o.args, e.args.len(), "wrapped arguments")?;
    for (a, e) in o.args.iter().zip(&e.args) {
        match a {
            None if e.lit == RLit::Null => {}
            Some(v) if e.lit != RLit::Null => bare(v, e, "wrapped argument")?,
            a => return Err(format!("wrapped argument {:?}, expected {:?}", a, e)),
        }
    }
    keys(&o.props, e, "wrapped")?;
    for (k, v) in &o.props {
        literal(v, Some(v.span()), &e.props[k].val, "wrapped property")?;
    }
    len(&o.children, kids(e).len(), "wrapped children")?;
    for (n, e) in o.children.iter().zip(kids(e)) {
        cmp_bare_node(n, e)?;
    }
    Ok(())
}

pub fn all(t: &str, m: &[RNode]) -> Result<(), String> {
    let go = |what: &str, e: knuffel::Error| format!("{} from {}: {:?}", what, stringify!($sp), diags(&e));
    let v: Vec<Outer> = knuffel::parse_with_context::<_, $sp, _>("f", t, |_| {}).map_err(|e| go("outer", e))?;
    len(&v, m.len(), "outer")?;
    for (o, e) in v.iter().zip(m) {
        check_outer(o, e)?;
    }
    let v: Vec<Wrapped> = knuffel::parse_with_context::<_, $sp, _>("f", t, |_| {}).map_err(|e| go("wrapped", e))?;
    len(&v, m.len(), "wrapped")?;
    for (o, e) in v.iter().zip(m) {
        check_wrapped(o, e)?;
    }
    let v: Vec<Box<Deep>> = knuffel::parse_with_context::<_, $sp, _>("f", t, |_| {}).map_err(|e| go("deep", e))?;
    len(&v, m.len(), "deep")?;
    for (o, e) in v.iter().zip(m) {
        deep(o, e)?;
    }
    Ok(())
}
} } }
types!(by_bytes, knuffel::span::Span);
types!(by_lines, knuffel::span::LineSpan);

fn cmp_bare_node(n: &Node<Span>, e: &RNode) -> Result<(), String> {
    if n.node_name.to_string() != e.name.text || (n.node_name.span().0, n.node_name.span().1) != e.name.span {
        return Err(format!("node name {:?}, expected {:?}", n.node_name, e.name));
    }
    len(&n.arguments, e.args.len(), "arguments of a node")?;
    for (a, e) in n.arguments.iter().zip(&e.args) {
        bare(a, e, "argument of a node")?;
    }
    match (&n.children, &e.children) {
        (None, None) => Ok(()),
        (Some(c), Some(e)) => {
            if (c.span().0, c.span().1) != e.0 {
                return Err(format!("children span {}", c.span()));
            }
            cmp_nodes(&exact(), &e.1, c)
        }
        (a, b) => Err(format!("children {} expected {}", a.is_some(), b.is_some())),
    }
}

pub fn chk21(i: &In, acc: &mut Acc) -> Result<(), String> {
    let m = match kdl::parse(&i.text) {
        Ok(m) if !m.ambiguous => m,
        _ => { acc.count("skipped: not a document"); return Ok(()) }
    };
    if parse(&i.text).is_err() {
        acc.count("skipped: rejected");
        return Ok(());
    }
    acc.eval(hash(&i.text), !m.nodes.is_empty());
    acc.add("nodes decoded", m.stats.nodes as u64);
    acc.max("depth", m.stats.depth as u64);
    acc.sample(&i.text);
    let fail = |what: &str, e: knuffel::Error| format!("{}: {:?}", what, diags(&e));
    let t = &i.text;
    let v: Vec<SpannedNode<Span>> = knuffel::parse("f", t).map_err(|e| fail("spanned nodes", e))?;
    cmp_nodes(&exact(), &m.nodes, &v)?;
    let v: Vec<SpannedNode<Span>> = knuffel::parse_with_context::<_, LineSpan, _>("f", t, |_| {}).map_err(|e| fail("from line spans", e))?;
    cmp_nodes(&exact(), &m.nodes, &v).map_err(|e| format!("from line spans: {}", e))?;
    let v: Vec<SpannedNode<LineSpan>> = knuffel::parse_with_context::<_, LineSpan, _>("f", t, |_| {}).map_err(|e| fail("line spans", e))?;
    let idx = LineIndex::new(t, |c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0));
    cmp_nodes(&Cmp { spans: true, values: true, lines: Some(&idx) }, &m.nodes, &v).map_err(|e| format!("line spans: {}", e))?;
    let v: Vec<Node<Span>> = knuffel::parse("f", t).map_err(|e| fail("nodes", e))?;
    len(&v, m.nodes.len(), "nodes")?;
    for (n, e) in v.iter().zip(&m.nodes) {
        cmp_bare_node(n, e)?;
    }
    by_bytes::all(t, &m.nodes)?;
    by_lines::all(t, &m.nodes).map_err(|e| format!("from line spans: {}", e))?;
    Ok(())
}

pub fn c21(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = one document decoded into AST node, value and literal types in nine ways (directly, inside of derived \
        structs, under wrappers, from line spans) and compared with the model; distinct by text; non-trivial if it has a node");
    let mix = Mix { docs: (10_000, 300_000), mutants: (2_000, 60_000), soups: (20_000, 500_000), enum_len: (3, 4), unicode: false, extremes: true, truncate: (0, 0) };
    drive(&run, &mix, &chk21);
    run.finish()
}
