//! C20: CBOR round trip
use knuffel::ast::{Document, Literal, Node, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use minicbor::{Decode, Encode};
use refmodel::kdl;
use refmodel::report::*;
use crate::obs::*;
use crate::props::{parse, parse_l};
use crate::stable_types::Loose;
use crate::work::*;

fn round<T>(what: &str, v: &T, acc: &mut Acc) -> Result<T, String>
    where T: Encode<()> + for<'b> Decode<'b, ()> + std::fmt::Debug
{
    let bytes = minicbor::to_vec(v).map_err(|e| format!("{} can't be encoded: {}", what, e))?;
    acc.add("bytes encoded", bytes.len() as u64);
    acc.count(what);
    let w: T = minicbor::decode(&bytes).map_err(|e| format!("{} can't be decoded: {}", what, e))?;
    let (a, b) = (format!("{:?}", v), format!("{:?}", w));
    if a != b {
        return Err(format!("{} decodes as {}, expected {}", what, b, a));
    }
    // encoding of the copy is the same
    if minicbor::to_vec(&w).ok().as_ref() != Some(&bytes) {
        return Err(format!("{}: a decoded copy encodes differently", what));
    }
    // two values in a row: the first one consumes exactly its bytes
    let mut two = bytes.clone();
    two.extend_from_slice(&[0xff, 0x00, 0x61]);
    let mut d = minicbor::Decoder::new(&two);
    let r: Result<T, _> = d.decode();
    if r.is_err() || d.position() != bytes.len() {
        return Err(format!("{}: decoder stopped at byte {} of {}", what, d.position(), bytes.len()));
    }
    let step = (bytes.len() / 40).max(1);
    for n in (0..bytes.len()).step_by(step) {
        if minicbor::decode::<T>(&bytes[..n]).is_ok() {
            return Err(format!("{}: {} bytes of {} are enough to decode it", what, n, bytes.len()));
        }
        acc.count("truncations rejected");
    }
    Ok(w)
}

fn parts<S>(nodes: &[SpannedNode<S>], acc: &mut Acc, depth: usize) -> Result<(), String>
    where S: Encode<()> + for<'b> Decode<'b, ()> + std::fmt::Debug + Rng2 + Clone
{
    for n in nodes.iter().take(6) {
        round::<SpannedNode<S>>("spanned node", n, acc)?;
        round::<Node<S>>("node", n, acc)?;
        round::<S>("span", n.span(), acc)?;
        round("name", &n.node_name, acc)?;
        if let Some(t) = &n.type_name {
            round::<TypeName>("type name", t, acc)?;
            round::<Spanned<TypeName, S>>("spanned type name", t, acc)?;
        }
        for v in n.arguments.iter().chain(n.properties.values()).take(8) {
            round::<Value<S>>("value", v, acc)?;
            let l: Literal = round("literal", &*v.literal, acc)?;
            if l != *v.literal {
                return Err(format!("literal {:?} is not equal after a round trip", l));
            }
        }
        if depth < 3 {
            if let Some(c) = &n.children {
                parts(c, acc, depth + 1)?;
            }
        }
    }
    Ok(())
}

pub fn chk20(i: &In, acc: &mut Acc) -> Result<(), String> {
    let Ok(a) = parse(&i.text) else { acc.count("skipped: rejected"); return Ok(()) };
    let b = parse_l(&i.text).map_err(|e| format!("{:?}", diags(&e)))?;
    acc.eval(hash(&i.text), !a.nodes.is_empty());
    acc.sample(&i.text);
    let x: Document<Span> = round("document", &a, acc)?;
    let y: Document<LineSpan> = round("document with lines", &b, acc)?;
    // against the model, not only against itself
    if let Ok(m) = kdl::parse(&i.text) {
        if !m.ambiguous {
            cmp_nodes(&Cmp { spans: true, values: true, lines: None }, &m.nodes, &x.nodes)?;
            cmp_nodes(&Cmp { spans: true, values: true, lines: None }, &m.nodes, &y.nodes)?;
        }
    }
    if i.text.len() < 5000 {
        parts(&a.nodes, acc, 0)?;
        parts(&b.nodes, acc, 0)?;
    }
    // decodes into Rust types like the original
    for (n, m) in a.nodes.iter().zip(&x.nodes) {
        let dec = |n: &SpannedNode<Span>| match knuffel::decode::node::<Loose, Span>(n) {
            Ok(v) => format!("{:?}", v),
            Err(e) => format!("{:?}", e.iter().map(|e| diag(e)).collect::<Vec<_>>()),
        };
        if dec(n) != dec(m) {
            return Err(format!("decodes as {}, expected {}", dec(m), dec(n)));
        }
    }
    Ok(())
}

pub fn c20(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = the AST of one document (and its parts, with both kinds of spans) encoded, decoded, compared with the \
        original and with the model, and truncated; distinct by text; non-trivial if it has a node");
    let mix = Mix { docs: (8_000, 200_000), mutants: (3_000, 50_000), soups: (20_000, 400_000), enum_len: (2, 4), unicode: false, extremes: true, truncate: (0, 0) };
    drive(&run, &mix, &chk20);
    // every code point and many numbers
    run.par("all code points", 0x110000 / 256, |i, _, acc| {
        let s: String = (i as u32 * 256..(i as u32 + 1) * 256).filter_map(char::from_u32).filter(|c| *c != '"').collect();
        let text = format!("n r##\"{}\"## {} 0x{:x} 0o{:o} 0b{:b} -{} {}.5e{}", s, i, i, i, i, i, i, i % 300);
        acc.check(&run, &Case::new("code points", &text), |acc| chk20(&In { kind: "x", text: text.clone(), expected: None }, acc));
    });
    run.finish()
}
