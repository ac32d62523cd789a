//! Observation of knuffel's public results and comparison with the model
use std::fmt::Write as _;
use knuffel::ast::{Document, Literal, SpannedNode, Value, Integer, Decimal};
use knuffel::span::{LineSpan, Span};
use miette::Diagnostic;
use refmodel::kdl::*;

pub trait Rng2: std::fmt::Debug {
    fn range(&self) -> Sp;
    /// line and column of the start and end
    fn lines(&self) -> Option<[(usize, usize); 2]>;
}
impl Rng2 for Span {
    fn range(&self) -> Sp { (self.0, self.1) }
    fn lines(&self) -> Option<[(usize, usize); 2]> { None }
}
impl Rng2 for LineSpan {
    fn range(&self) -> Sp { (self.0.offset, self.1.offset) }
    fn lines(&self) -> Option<[(usize, usize); 2]> {
        Some([(self.0.line, self.0.column), (self.1.line, self.1.column)])
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Label {
    pub start: usize,
    pub len: usize,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Diag {
    pub msg: String,
    pub labels: Vec<Label>,
    pub help: Option<String>,
}

pub fn diag(d: &dyn Diagnostic) -> Diag {
    Diag {
        msg: d.to_string(),
        labels: d.labels().map(|l| l.map(|l| Label {
            start: l.offset(), len: l.len(), text: l.label().unwrap_or("").to_string(),
        }).collect()).unwrap_or_default(),
        help: d.help().map(|h| h.to_string()),
    }
}

pub fn diags(e: &knuffel::Error) -> Vec<Diag> {
    e.related().map(|r| r.map(diag).collect()).unwrap_or_default()
}

#[derive(Clone, Copy)]
pub struct Cmp<'a> {
    pub spans: bool,
    pub values: bool,
    pub lines: Option<&'a LineIndex>,
}

fn span<S: Rng2>(c: &Cmp, what: &str, exp: &[Sp], got: &S) -> Result<(), String> {
    let g = got.range();
    if c.spans && !exp.contains(&g) {
        return Err(format!("{}: span is {}..{}, expected {}..{}", what, g.0, g.1, exp[0].0, exp[0].1));
    }
    if let (Some(idx), Some([a, b])) = (c.lines, got.lines()) {
        for (off, pos) in [(g.0, a), (g.1, b)] {
            match idx.get(off) {
                None => return Err(format!("{}: offset {} is not a character boundary", what, off)),
                Some(e) if e != pos => return Err(format!(
                    "{}: position of byte {} is line {} column {}, expected line {} column {}", what, off, pos.0, pos.1, e.0, e.1)),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn cmp_nodes<S: Rng2>(c: &Cmp, exp: &[RNode], got: &[SpannedNode<S>]) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!("{} nodes, expected {} ({:?} vs {:?})", got.len(), exp.len(),
            got.iter().map(|n| n.node_name.to_string()).take(20).collect::<Vec<_>>(),
            exp.iter().map(|n| &n.name.text[..]).take(20).collect::<Vec<_>>()));
    }
    for (e, g) in exp.iter().zip(got) {
        cmp_node(c, e, g)?;
    }
    Ok(())
}

pub fn cmp_node<S: Rng2>(c: &Cmp, e: &RNode, g: &SpannedNode<S>) -> Result<(), String> {
    let w = |s: &str| format!("node {:?}: {}", e.name.text, s);
    if &**g.node_name != &e.name.text[..] {
        return Err(w(&format!("name is {:?}", g.node_name)));
    }
    span(c, &w("name"), &[e.name.span], g.node_name.span())?;
    span(c, &w("node"), &[e.span], g.span())?;
    cmp_ty(c, &w("type"), &e.ty, &g.type_name)?;
    if e.args.len() != g.arguments.len() {
        return Err(w(&format!("{} arguments, expected {}", g.arguments.len(), e.args.len())));
    }
    for (i, (a, b)) in e.args.iter().zip(&g.arguments).enumerate() {
        cmp_val(c, &w(&format!("argument {}", i)), a, b)?;
    }
    let gk: Vec<&str> = g.properties.keys().map(|k| &***k).collect();
    let ek: Vec<&str> = e.props.keys().map(|k| &**k).collect();
    let mut gks = gk.clone();
    gks.sort();
    if gks != ek {
        return Err(w(&format!("properties {:?}, expected {:?}", gk, ek)));
    }
    for (k, v) in &g.properties {
        let p = &e.props[&***k];
        span(c, &w(&format!("property name {:?}", k)), &p.keys, k.span())?;
        cmp_val(c, &w(&format!("property {:?}", k)), &p.val, v)?;
        match g.properties.get(&***k) {
            Some(x) if std::ptr::eq(x, v) => {}
            _ => return Err(w(&format!("property {:?} can't be looked up by its name", k))),
        }
    }
    match (&e.children, &g.children) {
        (None, None) => {}
        (Some((sp, e)), Some(g)) => {
            span(c, &w("children"), &[*sp], g.span())?;
            cmp_nodes(c, e, g)?;
        }
        (a, b) => return Err(w(&format!("children block: {}, expected {}", b.is_some(), a.is_some()))),
    }
    if g.children().count() != g.children.as_ref().map_or(0, |c| c.len()) || g.children().len() != g.children().count() {
        return Err(w("children() iterator has a different length"));
    }
    Ok(())
}

fn cmp_ty<S: Rng2>(c: &Cmp, w: &str, e: &Option<RName>, g: &Option<knuffel::span::Spanned<knuffel::ast::TypeName, S>>) -> Result<(), String> {
    match (e, g) {
        (None, None) => Ok(()),
        (Some(e), Some(g)) => {
            if g.as_str() != e.text {
                return Err(format!("{}: type name {:?}, expected {:?}", w, g.as_str(), e.text));
            }
            span(c, &format!("{}: type name", w), &[e.span], g.span())
        }
        (e, g) => Err(format!("{}: type name {:?}, expected {:?}", w, g.as_ref().map(|g| g.as_str().to_string()), e.as_ref().map(|e| &e.text))),
    }
}

pub fn cmp_val<S: Rng2>(c: &Cmp, w: &str, e: &RVal, g: &Value<S>) -> Result<(), String> {
    cmp_ty(c, w, &e.ty, &g.type_name)?;
    span(c, &format!("{}: literal", w), &[e.span], g.literal.span())?;
    if c.values {
        cmp_lit(&e.lit, &g.literal).map_err(|d| format!("{}: {}", w, d))
    } else if lit_kind(&e.lit) != kind(&g.literal) {
        Err(format!("{}: kind {} expected {}", w, kind(&g.literal), lit_kind(&e.lit)))
    } else {
        Ok(())
    }
}

pub fn lit_kind(e: &RLit) -> &'static str {
    match e {
        RLit::Null => "null",
        RLit::Bool(_) => "boolean",
        RLit::Int(_) => "integer",
        RLit::Dec(_) => "decimal",
        RLit::Str(_) => "string",
    }
}
pub fn kind(e: &Literal) -> &'static str {
    match e {
        Literal::Null => "null",
        Literal::Bool(_) => "boolean",
        Literal::Int(_) => "integer",
        Literal::Decimal(_) => "decimal",
        Literal::String(_) => "string",
    }
}

pub fn cmp_lit(e: &RLit, g: &Literal) -> Result<(), String> {
    match (e, g) {
        (RLit::Null, Literal::Null) => Ok(()),
        (RLit::Bool(a), Literal::Bool(b)) if a == b => Ok(()),
        (RLit::Str(a), Literal::String(b)) if a[..] == b[..] => Ok(()),
        (RLit::Int(a), Literal::Int(b)) => cmp_int(a, b),
        (RLit::Dec(a), Literal::Decimal(b)) => cmp_dec(a, b),
        _ => Err(format!("literal is {:?}, expected {:?}", g, e)),
    }
}

macro_rules! ints {
    ($e:expr, $g:expr; $($t:ident),*) => {{
        let v = $e.value();
        $({
            let r = <$t>::try_from($g);
            let fits = v.and_then(|v| <$t>::try_from(v).ok());
            match (&r, fits) {
                (Ok(a), Some(b)) if *a == b => {}
                (Err(_), None) => {}
                // `-0` is not a number for unsigned types of Rust
                (Err(_), Some(0)) if $e.neg && <$t>::MIN == 0 => {}
                _ => return Err(format!("integer {:?} as {} is {:?}, expected {:?}", $e, stringify!($t), r, fits)),
            }
        })*
    }};
}

pub fn cmp_int(e: &RInt, g: &Integer) -> Result<(), String> {
    ints!(e, g; i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
    Ok(())
}

pub fn cmp_dec(e: &str, g: &Decimal) -> Result<(), String> {
    let a = f64::try_from(g).map_err(|x| format!("decimal {} as f64: {}", e, x))?;
    let b: f64 = e.parse().expect("harness: bad float");
    if a.to_bits() != b.to_bits() {
        return Err(format!("decimal {} is {:e}, expected {:e}", e, a, b));
    }
    let a = f32::try_from(g).map_err(|x| format!("decimal {} as f32: {}", e, x))?;
    let b: f32 = e.parse().expect("harness: bad float");
    if a.to_bits() != b.to_bits() {
        return Err(format!("decimal {} as f32 is {:e}, expected {:e}", e, a, b));
    }
    Ok(())
}

/// Canonical text of an AST without spans
pub fn shape<S>(nodes: &[SpannedNode<S>]) -> String {
    let mut s = String::new();
    for n in nodes {
        shape_node(&mut s, n);
    }
    s
}
pub fn shape_doc<S>(d: &Document<S>) -> String {
    shape(&d.nodes)
}
fn shape_lit(s: &mut String, l: &Literal) {
    match l {
        Literal::Null => s.push_str("null"),
        Literal::Bool(b) => { let _ = write!(s, "{}", b); }
        Literal::Int(i) => {
            let _ = match (i64::try_from(i), u64::try_from(i)) {
                (Ok(v), _) => write!(s, "i{}", v),
                (_, Ok(v)) => write!(s, "i{}", v),
                _ => write!(s, "big"),
            };
        }
        Literal::Decimal(d) => {
            let _ = match f64::try_from(d) {
                Ok(v) => write!(s, "d{:x}", v.to_bits()),
                Err(e) => write!(s, "d<{}>", e),
            };
        }
        Literal::String(x) => { let _ = write!(s, "{:?}", x); }
    }
}
fn shape_val<S>(s: &mut String, v: &Value<S>) {
    if let Some(t) = &v.type_name {
        let _ = write!(s, "({:?})", t.as_str());
    }
    shape_lit(s, &v.literal);
}
fn shape_node<S>(s: &mut String, n: &SpannedNode<S>) {
    if let Some(t) = &n.type_name {
        let _ = write!(s, "({:?})", t.as_str());
    }
    let _ = write!(s, "{:?}", &**n.node_name);
    for a in &n.arguments {
        s.push(' ');
        shape_val(s, a);
    }
    for (k, v) in &n.properties {
        let _ = write!(s, " {:?}=", &***k);
        shape_val(s, v);
    }
    if let Some(c) = &n.children {
        s.push_str(" {");
        for c in c.iter() {
            shape_node(s, c);
        }
        s.push('}');
    }
    s.push(';');
}
