//! Canonical results of a fixed workload, for comparison between builds of
//! knuffel with different features
use std::fmt::{Debug, Write as _};
use knuffel::ast::{SpannedNode, BuiltinType, Document};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::Span;
use knuffel::traits::{Decode, DecodeScalar, ErrorSpan};
use refmodel::gen::*;
use refmodel::mutate;
use refmodel::report::hash;
use refmodel::rng::Rng;

#[cfg(feature = "derive")]
mod derived;
#[allow(dead_code)]
#[path = "../../astmon/src/obs.rs"]
#[cfg(feature = "line-numbers")]
mod obs;

#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Diag {
    msg: String,
    labels: Vec<(usize, usize, String)>,
}

pub fn diags(e: &knuffel::Error) -> Vec<Diag> {
    use miette::Diagnostic;
    e.related().map(|r| r.map(|d| Diag {
        msg: d.to_string(),
        labels: d.labels().map(|l| l.map(|l| (l.offset(), l.len(), l.label().unwrap_or("").into())).collect()).unwrap_or_default(),
    }).collect()).unwrap_or_default()
}

/// Decodes every value of a tree as one type
struct Probe<T>(String, std::marker::PhantomData<T>);

fn values<S: ErrorSpan>(n: &SpannedNode<S>, f: &mut dyn FnMut(&knuffel::ast::Value<S>)) {
    for v in n.arguments.iter().chain(n.properties.values()) {
        f(v);
    }
    for c in n.children() {
        values(c, f);
    }
}

impl<S: ErrorSpan, T: DecodeScalar<S> + Debug> Decode<S> for Probe<T> {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let mut s = String::new();
        values(n, &mut |v| match <T as DecodeScalar<S>>::decode(v, ctx) {
            Ok(v) => { let _ = write!(s, "{:?};", v); }
            Err(e) => ctx.emit_error(e),
        });
        Ok(Probe(s, std::marker::PhantomData))
    }
}

struct BytesProbe(String);
impl<S: ErrorSpan> Decode<S> for BytesProbe {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let mut s = String::new();
        values(n, &mut |v| { let _ = write!(s, "{:?};", knuffel::decode::bytes(v, ctx)); });
        Ok(BytesProbe(s))
    }
}

fn probe<T: DecodeScalar<Span> + Debug>(text: &str) -> String {
    match knuffel::parse::<Vec<Probe<T>>>("p.kdl", text) {
        Ok(v) => v.into_iter().map(|p| p.0).collect(),
        Err(e) => format!("{:?}", diags(&e)),
    }
}

fn dump_lit(s: &mut String, l: &knuffel::ast::Literal) {
    let _ = write!(s, "{:?}", l);
}

fn dump(s: &mut String, nodes: &[SpannedNode<Span>]) {
    for n in nodes {
        let _ = write!(s, "{:?}@{:?} ty {:?} {:?}@{:?}", n.span(), n.node_name.span(), n.type_name.as_ref().map(|t| (t.as_str().to_string(), t.span())), &**n.node_name, n.node_name.span());
        for v in &n.arguments {
            let _ = write!(s, " ({:?})@{:?}", v.type_name.as_ref().map(|t| (t.as_str().to_string(), t.span())), v.literal.span());
            dump_lit(s, &v.literal);
        }
        for (k, v) in &n.properties {
            let _ = write!(s, " {:?}@{:?}=({:?})@{:?}", &***k, k.span(), v.type_name.as_ref().map(|t| (t.as_str().to_string(), t.span())), v.literal.span());
            dump_lit(s, &v.literal);
        }
        if let Some(c) = &n.children {
            let _ = write!(s, "{{{:?} ", c.span());
            dump(s, c);
            s.push('}');
        }
        s.push(';');
    }
}

/// `(base64)` literals of a document
fn base64_literals(d: &Document<Span>) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    for n in &d.nodes {
        values(n, &mut |v| if v.type_name.as_ref().map_or(false, |t| t.as_builtin() == Some(&BuiltinType::Base64)) {
            let s = v.literal.span();
            out.push((s.0, s.1 - s.0));
        });
    }
    out
}

/// Bytes: values typed `(base64)` are checked here, the rest is compared
fn bytes(text: &str, r: Result<String, Vec<Diag>>, b64: &[(usize, usize)], exact: bool) -> Result<String, String> {
    let on = cfg!(feature = "base64");
    match r {
        Ok(v) => {
            if !on && !b64.is_empty() && exact {
                return Err(format!("decoded without base64 support: {:?}", text));
            }
            Ok(if b64.is_empty() { v } else { "-".into() })
        }
        Err(ds) => {
            let mut rest = Vec::new();
            let mut unsupported = 0;
            for d in ds {
                let of_b64 = d.labels.len() == 1 && b64.contains(&(d.labels[0].0, d.labels[0].1));
                if d.msg.contains("not compiled in") {
                    if on {
                        return Err(format!("{:?} with base64 support", d));
                    }
                    if !of_b64 || d.labels[0].2.is_empty() {
                        return Err(format!("{:?} is not about a value typed (base64)", d));
                    }
                    unsupported += 1;
                } else if of_b64 && exact {
                    if !on {
                        return Err(format!("{:?} for a value typed (base64), expected unsupported", d));
                    }
                } else {
                    rest.push(d);
                }
            }
            if !on && exact && unsupported != b64.len() {
                return Err(format!("{} values are reported as unsupported, of {}", unsupported, b64.len()));
            }
            Ok(if rest.is_empty() { "-".into() } else { format!("{:?}", rest) })
        }
    }
}

const TEMPLATES: &[&str] = &[
    "item \"a\" 5 1 2 color=\"red\" at=\"127.0.0.1\" z=1.5 { flag; level 3; path \"/x\"; path \"y\"; dot; circle 1.0 fill=true; }\n",
    "(ty)blob 18\nblob null\ncircle 2.5\ndot\n",
    "group id=5 { title \"x\"; flag; group { dot; (t)blob; }; }\n",
    "item \"a\" {\n    circle 1e5\n    item \"b\" -3 {\n  flag }\n}\n",
    "a (base64)\"YWJj\" b=(base64)\"\" { c \"x\"; c (base64)\"YQ==\"; }\n",
    "a \"abc\" b=null { c \"x\"; }\n",
    "a (base64)\"YWJ\" b=(base64)1 { c (foo)\"x\"; c (base64)null; }\n",
    "a (base64)\"YW Jj\" 17\nb (base64)true\n",
    "x (u8)255 (i8)-128 (u16)65536 (f32)1.5 (u64)18446744073709551615 true null \"s\" 0x1F\n",
    "x (u8)256 (u8)1 (usize)-1 (f64)1 1e400 a=(i32)5 b=(isize)9 c=(base64)\"QUJD\"\n",
];
const WORDS: &[&str] = &["item", "dot", "circle", "blob", "group", "secret", "title", "flag", "level", "path", "id", "color", "at", "(base64)", "\"QUI=\"", "\"QUI\"", "null", "300", "\"dark-blue\"", "\"hidden\"", "1.5", "true", "\"\"", "-1", "65536"];

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => mutate::soup(r),
        1 | 2 => {
            let d = gen_doc_mixed(r);
            let st = Style::random(r);
            let t = write_doc(r, &d, &st).0;
            if r.one_in(3) { mutate::mutate(r, &t) } else { t }
        }
        3 => {
            // values of all kinds
            let mut n = GNode::new("v");
            for _ in 0..r.range(1, 6) {
                let mut v = gen_val(r);
                if r.one_in(2) {
                    v = v.typed(*r.pick(&["base64", "u8", "i64", "f64", "foo"]));
                }
                n.entries.push(GEntry::Arg(v));
            }
            let st = Style::random(r);
            write_doc(r, &[n], &st).0
        }
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 3) {
                s.push_str(r.pick(TEMPLATES));
            }
            for _ in 0..r.below(3) {
                // replace a token
                let toks: Vec<usize> = s.char_indices().filter(|x| x.1 == ' ').map(|x| x.0).collect();
                if toks.len() > 2 {
                    let i = r.below(toks.len() - 1);
                    let w = r.pick(WORDS);
                    s.replace_range(toks[i]..toks[i + 1], &format!(" {}", w));
                }
            }
            if r.one_in(4) { mutate::mutate(r, &s) } else { s }
        }
    }
}

fn sections(t: &str) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = Vec::new();
    let mut a = String::new();
    let mut b64 = None;
    match knuffel::parse_ast::<Span>("a.kdl", t) {
        Ok(d) => {
            dump(&mut a, &d.nodes);
            b64 = Some(base64_literals(&d));
        }
        Err(e) => a = format!("{:?}", diags(&e)),
    }
    out.push(("ast", a));
    let mut s = probe::<u8>(t);
    s += &probe::<i8>(t);
    s += &probe::<u16>(t);
    s += &probe::<i16>(t);
    s += &probe::<u32>(t);
    s += &probe::<i32>(t);
    s += &probe::<u64>(t);
    s += &probe::<i64>(t);
    s += &probe::<usize>(t);
    s += &probe::<isize>(t);
    s += &probe::<f32>(t);
    s += &probe::<f64>(t);
    s += &probe::<bool>(t);
    s += &probe::<String>(t);
    s += &probe::<std::path::PathBuf>(t);
    s += &probe::<std::sync::Arc<str>>(t);
    s += &probe::<Option<u8>>(t);
    out.push(("scalars", s));
    let r = knuffel::parse::<Vec<BytesProbe>>("b.kdl", t).map(|v| v.into_iter().map(|p| p.0).collect::<String>()).map_err(|e| diags(&e));
    match &b64 {
        Some(b64) => match bytes(t, r, b64, true) {
            Ok(s) => out.push(("bytes", s)),
            Err(e) => out.push(("violation", e)),
        },
        None => out.push(("bytes", format!("{:?}", r))),
    }
    #[cfg(feature = "derive")]
    {
        out.push(("derived", derived::all(t)));
        if let Some(b64) = &b64 {
            match bytes(t, derived::bin(t), b64, false) {
                // without support the diagnostics that follow a faulty value
                // may be about other things only when there are no such values
                Ok(s) => if b64.is_empty() { out.push(("derived bytes", s)) },
                Err(e) => out.push(("violation", e)),
            }
        }
    }
    #[cfg(feature = "line-numbers")]
    out.push(("lines", match knuffel::parse_ast::<knuffel::span::LineSpan>("l.kdl", t) {
        Ok(d) => obs::shape_doc(&d) + &format!("{:?}", d),
        Err(e) => format!("{:?}", diags(&e)),
    }));
    out
}

fn main() {
    let mut args = std::env::args().skip(1);
    let seed: u64 = args.next().and_then(|x| x.parse().ok()).expect("seed");
    let count: u64 = args.next().and_then(|x| x.parse().ok()).expect("count");
    let show: Option<u64> = args.next().and_then(|x| x.parse().ok());
    if let Some(i) = show {
        let t = text(&mut Rng::stream(seed, i));
        println!("text {:?}", t);
        for (k, v) in sections(&t) {
            println!("{}: {}", k, v);
        }
        return;
    }
    let next = std::sync::atomic::AtomicU64::new(0);
    let lines = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| for _ in 0..8 {
        s.spawn(|| loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= count {
                break;
            }
            let t = text(&mut Rng::stream(seed, i));
            let r = std::panic::catch_unwind(|| sections(&t)).unwrap_or_else(|_| vec![("violation", "panic".into())]);
            let mut l = String::new();
            let _ = write!(l, "{}\ttext={:x}", i, hash(&t));
            for (k, v) in r {
                if k == "violation" {
                    let _ = write!(l, "\tviolation={:?}", v);
                } else {
                    let _ = write!(l, "\t{}={:x}", k, hash(&v));
                    if k == "bytes" && t.contains("base64") {
                        l.push_str("\tbase64=1");
                    }
                }
            }
            lines.lock().unwrap().push((i, l));
        });
    });
    let mut lines = lines.into_inner().unwrap();
    lines.sort();
    for (_, l) in lines {
        println!("{}", l);
    }
}
