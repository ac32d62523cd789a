//! C03: literal values; C24: value semantics of AST building blocks
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use knuffel::ast::{BuiltinType, Literal, TypeName};
use knuffel::span::{ErrorSpan, LinePos, LineSpan, Span, Spanned};
use refmodel::gen::*;
use refmodel::kdl::{self, *};
use refmodel::report::*;
use refmodel::rng::Rng;
use crate::obs::*;
use crate::props::{parse, parse_l};

macro_rules! scalars {
    ($($name:ident, $opt:ident: $t:ty;)*) => {
        $(
            #[derive(knuffel::Decode, Debug)]
            pub struct $name { #[knuffel(argument)] pub v: $t }
            #[derive(knuffel::Decode, Debug)]
            pub struct $opt { #[knuffel(property(name="p"))] pub v: Option<$t> }
        )*
    }
}
scalars! {
    AI8, OI8: i8; AU8, OU8: u8; AI16, OI16: i16; AU16, OU16: u16; AI32, OI32: i32; AU32, OU32: u32; AI64, OI64: i64; AU64, OU64: u64;
    AIs, OIs: isize; AUs, OUs: usize; AF32, OF32: f32; AF64, OF64: f64; AStr, OStr: String; APath, OPath: PathBuf;
    AArcStr, OArcStr: Arc<str>; AArcPath, OArcPath: Arc<Path>; ABool, OBool: bool;
}

/// Decodes `n <literal>` and `n p=<literal>` into every scalar type
fn decode_all(lit: &RLit, arg: &knuffel::ast::SpannedNode<Span>, prop: &knuffel::ast::SpannedNode<Span>, acc: &mut Acc) -> Result<(), String> {
    macro_rules! one {
        ($a:ident, $o:ident, $t:ty, $exp:expr, $same:expr, $lenient:expr) => {{
            let exp: Option<$t> = $exp;
            let same: fn(&$t, &$t) -> bool = $same;
            let got = knuffel::decode::node::<$a, Span>(arg).map(|x| x.v);
            let ok = match (&got, &exp) {
                (Ok(g), Some(e)) => same(g, e),
                (Err(es), None) => !es.is_empty(),
                (Err(_), Some(_)) => $lenient,
                _ => false,
            };
            if !ok {
                return Err(format!("{:?} decodes into {} as {:?}, expected {:?}", lit, stringify!($t), got, exp));
            }
            let got = knuffel::decode::node::<$o, Span>(prop).map(|x| x.v);
            let null = *lit == RLit::Null;
            let ok = match (&got, &exp) {
                (Ok(None), None) => null,
                (Ok(Some(g)), Some(e)) => same(g, e),
                (Err(es), None) => !null && !es.is_empty(),
                (Err(_), Some(_)) => $lenient,
                _ => false,
            };
            if !ok {
                return Err(format!("{:?} decodes into Option<{}> as {:?}, expected {:?}", lit, stringify!($t), got, exp));
            }
            acc.add("scalar decodes", 2);
        }};
    }
    let int = match lit {
        RLit::Int(i) => i.value(),
        _ => None,
    };
    let minus_zero = matches!(lit, RLit::Int(i) if i.neg && int == Some(0));
    let s = match lit {
        RLit::Str(s) => Some(s.clone()),
        _ => None,
    };
    macro_rules! int { ($a:ident, $o:ident, $t:ty) => {
        one!($a, $o, $t, int.and_then(|v| <$t>::try_from(v).ok()), |a, b| a == b, minus_zero && <$t>::MIN == 0)
    } }
    int!(AI8, OI8, i8);
    int!(AU8, OU8, u8);
    int!(AI16, OI16, i16);
    int!(AU16, OU16, u16);
    int!(AI32, OI32, i32);
    int!(AU32, OU32, u32);
    int!(AI64, OI64, i64);
    int!(AU64, OU64, u64);
    int!(AIs, OIs, isize);
    int!(AUs, OUs, usize);
    let dec = match lit {
        RLit::Dec(t) => Some(t.clone()),
        _ => None,
    };
    one!(AF64, OF64, f64, dec.as_ref().map(|t| t.parse().unwrap()), |a, b| a.to_bits() == b.to_bits(), false);
    one!(AF32, OF32, f32, dec.as_ref().map(|t| t.parse().unwrap()), |a, b| a.to_bits() == b.to_bits(), false);
    one!(AStr, OStr, String, s.clone(), |a, b| a == b, false);
    one!(APath, OPath, PathBuf, s.clone().map(PathBuf::from), |a, b| a.as_os_str() == b.as_os_str(), false);
    one!(AArcStr, OArcStr, Arc<str>, s.clone().map(Arc::from), |a, b| a == b, false);
    one!(AArcPath, OArcPath, Arc<Path>, s.clone().map(|s| PathBuf::from(s).into()), |a, b| a.as_os_str() == b.as_os_str(), false);
    let b = match lit {
        RLit::Bool(b) => Some(*b),
        _ => None,
    };
    one!(ABool, OBool, bool, b, |a, b| a == b, false);
    Ok(())
}

/// Text is a single untyped literal
pub fn chk03(text: &str, acc: &mut Acc) -> Result<(), String> {
    let doc = format!("n {}\nn p={}", text, text);
    let exp = kdl::parse(&doc).unwrap_or_else(|e| panic!("harness: {:?} {:?}", doc, e));
    let got = match parse(&doc) {
        Ok(d) => d,
        Err(e) => return Err(format!("valid literal is rejected: {:?}", diags(&e))),
    };
    acc.eval(hash(text), true);
    acc.count(lit_kind(&exp.nodes[0].args[0].lit));
    acc.sample(text);
    cmp_nodes(&Cmp { spans: false, values: true, lines: None }, &exp.nodes, &got.nodes)?;
    decode_all(&exp.nodes[0].args[0].lit, &got.nodes[0], &got.nodes[1], acc)
}

/// All interesting integers in all notations
fn int_texts() -> Vec<String> {
    let mut res = Vec::new();
    let mut vals: Vec<u128> = (0..=300).collect();
    for b in 0..=100u32 {
        let p = 1u128 << b;
        for d in 0..3 {
            vals.push(p + d);
            vals.push(p.saturating_sub(d));
        }
    }
    for k in 0..30 {
        let p = 10u128.pow(k);
        vals.extend([p, p - 1, p + 1]);
    }
    vals.sort();
    vals.dedup();
    for v in vals {
        for radix in [10, 16, 8, 2] {
            let d = to_radix(v, radix);
            let pre = match radix { 16 => "0x", 8 => "0o", 2 => "0b", _ => "" };
            for sign in ["", "-", "+"] {
                res.push(format!("{}{}{}", sign, pre, d));
            }
            res.push(format!("{}{}", pre, d.to_uppercase()));
            res.push(format!("-{}00{}", pre, d));
            let u: String = d.chars().flat_map(|c| [c, '_']).collect();
            res.push(format!("{}{}", pre, u));
        }
    }
    res
}

/// Exact decimal expansion of the middle between a float and the next one
fn middle(f: f64) -> String {
    let dig = |f: f64| -> Vec<u8> { format!("{:.1080}", f).bytes().filter(|b| *b != b'.').map(|b| b - b'0').collect() };
    let (mut a, mut b) = (dig(f), dig(f64::from_bits(f.to_bits() + 1)));
    let n = a.len().max(b.len());
    for v in [&mut a, &mut b] {
        while v.len() < n {
            v.insert(0, 0);
        }
    }
    a.push(0);
    b.push(0);
    // sum, and half of it
    let mut carry = 0;
    let mut sum: Vec<u8> = a.iter().zip(&b).rev().map(|(x, y)| { let s = x + y + carry; carry = s / 10; s % 10 }).collect();
    sum.push(carry);
    sum.reverse();
    let mut rem = 0;
    let half: String = sum.iter().map(|d| { let v = rem * 10 + d; rem = v % 2; char::from(b'0' + v / 2) }).collect();
    let (int, frac) = half.split_at(half.len() - 1081);
    let int = int.trim_start_matches('0');
    format!("{}.{}", if int.is_empty() { "0" } else { int }, frac.trim_end_matches('0'))
}

/// Decimals whose digits matter far from the point
fn long_decimal(r: &mut Rng) -> String {
    let run = |r: &mut Rng, max: usize| -> String {
        let mut s = String::new();
        for _ in 0..1 + r.below(3) {
            let n = if r.one_in(2) { r.below(max) } else { r.below(8) } as usize;
            match r.below(4) {
                0 => s += &"0".repeat(n),
                1 => s += &"9".repeat(n),
                _ => (0..n).for_each(|_| s.push(char::from(b'0' + r.below(10) as u8))),
            }
        }
        s
    };
    let sign = *r.pick(&["", "", "-", "+"]);
    let body = match r.below(5) {
        // exact middles, and just below and above of them
        0 => {
            let f = f64::from_bits(r.u64() >> 1);
            let f = if !f.is_finite() || f >= f64::MAX || r.one_in(4) { f64::from_bits(r.below(1 << 52) as u64) } else { f };
            let m = middle(f);
            match r.below(3) {
                0 => m,
                1 => m + &"0".repeat(r.below(50) as usize) + "1",
                _ => {
                    let last = m.len() - 1;
                    m[..last].to_string() + "4999"
                }
            }
        }
        1 => {
            let f = f32::from_bits((r.u64() as u32) >> 1);
            let f = if f.is_finite() { f } else { f32::from_bits(r.below(1 << 23) as u32) };
            let m = format!("{:.200}", (f as f64 + f32::from_bits(f.to_bits() + 1) as f64) / 2.0);
            if m.contains("inf") { return "1.5".into() }
            match r.below(3) {
                0 => m,
                1 => m + "00001",
                _ => m.trim_end_matches('0').trim_end_matches('5').to_string() + "4999999",
            }
        }
        // small numbers with all of their zeros
        2 => format!("0.{}{}", "0".repeat(r.below(330) as usize), 1 + r.u64() / 2),
        _ => format!("{}{}.{}{}", r.below(10), run(r, 300), run(r, 300), r.below(10)),
    };
    // the middle of zero and the least number ends with digits
    let body = if body.ends_with('.') { body + "0" } else { body };
    let exp = match r.below(4) {
        0 => format!("{}{}", *r.pick(&["e", "E", "e+", "E-", "e-"]), r.below(340)),
        1 => format!("{}{}{}", *r.pick(&["e", "e-", "E+"]), "0".repeat(r.below(60) as usize), r.below(40)),
        _ => String::new(),
    };
    format!("{}{}{}", sign, body, exp)
}

pub fn c03(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = one literal compared with its value by the specification: in the AST (integers through all ten \
        widths, decimals bit by bit) and decoded into 17 scalar types as argument and optional property; distinct by source text");
    let go = |text: &str, acc: &mut Acc| acc.check(&run, &Case::new("literal", text), |acc| chk03(text, acc));
    let list = int_texts();
    run.par("integers: all boundaries", list.len() as u64, |i, _, acc| go(&list[i as usize], acc));
    run.par("keywords", 3, |i, _, acc| go(["true", "false", "null"][i as usize], acc));
    run.par("integers: random", run.n(30_000, 1_000_000), |_, r, acc| {
        let v = gen_int(r);
        let t = write_int(r, &v);
        go(&t, acc)
    });
    run.par("decimals: random", run.n(30_000, 1_000_000), |_, r, acc| {
        let t = match r.below(4) {
            0 => {
                let f = f64::from_bits(r.u64());
                if !f.is_finite() {
                    return;
                }
                let s = if r.one_in(2) { format!("{:e}", f) } else { format!("{:E}", f) };
                if s.contains('.') || s.contains('e') || s.contains('E') { s } else { s + ".0" }
            }
            1 => {
                let f = f32::from_bits(r.u64() as u32);
                if !f.is_finite() {
                    return;
                }
                // around the middle between two floats
                let mid = (f as f64 + f32::from_bits(f.to_bits().wrapping_add(1)) as f64) / 2.0;
                if !mid.is_finite() {
                    return;
                }
                format!("{:e}", mid) + if r.one_in(2) { "0" } else { "" }
            }
            _ => gen_decimal(r).1,
        };
        if !t.contains(|c| matches!(c, '.' | 'e' | 'E')) {
            return;
        }
        go(&t, acc)
    });
    run.par("decimals: long", run.n(30_000, 1_000_000), |_, r, acc| go(&long_decimal(r), acc));
    run.par("integers: long", run.n(3_000, 100_000), |_, r, acc| {
        let (pre, digits) = *r.pick(&[("", "0123456789"), ("0x", "0123456789abcdefABCDEF"), ("0o", "01234567"), ("0b", "01")]);
        let sign = *r.pick(&["", "", "-", "+"]);
        let zeros = if r.one_in(2) { r.below(200) as usize } else { 0 };
        // most have few digits besides of the zeros, so that they fit
        let n = if r.one_in(3) { 1 + r.below(300) as usize } else { 1 + r.below(20) as usize };
        let mut t = format!("{}{}0{}", sign, pre, "0".repeat(zeros));
        let set: Vec<char> = digits.chars().collect();
        for _ in 0..n {
            t.push(*r.pick(&set));
            if r.one_in(30) {
                t.push('_');
            }
        }
        go(&t, acc)
    });
    run.par("strings: random", run.n(30_000, 1_000_000), |_, r, acc| {
        let s = gen_string(r, 12);
        let t = string_text(r, &s, true);
        go(&t, acc)
    });
    run.par("strings: every code point", 0x110000 / 128, |i, _, acc| {
        let cs: Vec<char> = (i as u32 * 128..(i as u32 + 1) * 128).filter_map(char::from_u32).collect();
        if cs.is_empty() {
            return;
        }
        let plain: String = cs.iter().filter(|c| !"\"\\".contains(**c)).collect();
        let esc: String = cs.iter().map(|c| format!("\\u{{{:x}}}", *c as u32)).collect();
        let pad: String = cs.iter().map(|c| format!("\\u{{{:06X}}}x", *c as u32)).collect();
        go(&format!("\"{}\"", plain), acc);
        go(&format!("r##\"{}\"##", cs.iter().filter(|c| **c != '"').collect::<String>()), acc);
        go(&format!("\"{}\"", esc), acc);
        go(&format!("\"{}\"", pad), acc);
    });
    // names are strings, too
    run.par("names", run.n(20_000, 400_000), |_, r, acc| {
        let names: Vec<String> = (0..4).map(|_| gen_name(r)).collect();
        let mut n = GNode::new(&names[0]);
        n.ty = Some(names[1].clone());
        n.entries.push(GEntry::Prop(names[2].clone(), GVal::str(&names[3]).typed(&names[0])));
        let mut st = Style::plain();
        st.forms = true;
        let (text, exp) = write_doc(r, &[n], &st);
        acc.check(&run, &Case::new("names", &text), |acc| {
            let Ok(got) = parse(&text) else { acc.count("skipped: rejected"); return Ok(()) };
            acc.eval(hash(&text), true);
            cmp_nodes(&Cmp { spans: false, values: true, lines: None }, &exp, &got.nodes)
        });
    });
    run.finish()
}

const BUILTIN: &[(&str, BuiltinType)] = &[
    ("u8", BuiltinType::U8), ("i8", BuiltinType::I8), ("u16", BuiltinType::U16), ("i16", BuiltinType::I16),
    ("u32", BuiltinType::U32), ("i32", BuiltinType::I32), ("u64", BuiltinType::U64), ("i64", BuiltinType::I64),
    ("usize", BuiltinType::Usize), ("isize", BuiltinType::Isize), ("f32", BuiltinType::F32), ("f64", BuiltinType::F64),
    ("base64", BuiltinType::Base64),
];

fn type_names(text: &str, other: &str, acc: &mut Acc) -> Result<(), String> {
    acc.eval(hash(&("type", text, other)), true);
    let t: TypeName = text.parse().unwrap();
    let o: TypeName = other.parse().unwrap();
    let b = BUILTIN.iter().find(|b| b.0 == text).map(|b| &b.1);
    let q = |s: &str| format!("(\"{}\")n", s.replace('\\', "\\\\").replace('"', "\\\""));
    let mut forms = vec![t.clone()];
    if let Ok(d) = parse(&q(text)) {
        forms.push((**d.nodes[0].type_name.as_ref().ok_or("no type name in AST")?).clone());
    }
    if let Some(b) = b {
        forms.push(b.clone().as_type());
        forms.push(b.clone().into());
        if b.as_str() != text {
            return Err(format!("{:?}.as_str() is {:?}", b, b.as_str()));
        }
    }
    match (text.parse::<BuiltinType>(), b) {
        (Ok(x), Some(y)) if x == *y => {}
        (Err(()), None) => {}
        (x, y) => return Err(format!("{:?} parses to builtin {:?}, expected {:?}", text, x, y)),
    }
    for f in &forms {
        if f.as_str() != text || &**f != text || f.to_string() != text {
            return Err(format!("type name {:?} reads back as {:?} / {:?} / {:?}", text, f.as_str(), &**f, f.to_string()));
        }
        if f.as_builtin() != b {
            return Err(format!("type name {:?}: builtin {:?}, expected {:?}", text, f.as_builtin(), b));
        }
        if (f == &o) != (text == other) || (&o == f) != (text == other) {
            return Err(format!("type names {:?} and {:?}: equality is {}", text, other, f == &o));
        }
        if f != &t || f.clone() != *f {
            return Err(format!("the same type name {:?} made in two ways is different: {:?} {:?}", text, f, t));
        }
    }
    Ok(())
}

fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    hash(t)
}

/// Lawfulness of Spanned for a pair of values
fn spanned_pair<T>(a: &T, b: &T, base: &Spanned<Box<str>, Span>, other: &Spanned<Box<str>, Span>) -> Result<(), String>
    where T: Clone + std::fmt::Debug + PartialEq + PartialOrd
{
    let x = base.clone().map(|_| a.clone());
    let y = other.clone().map(|_| b.clone());
    if *x != *a || x.span() != base.span() {
        return Err(format!("map changed {:?} to {:?}", a, x));
    }
    if (x == y) != (a == b) || (x != y) != (a != b) {
        return Err(format!("{:?} == {:?} is {}", x, y, x == y));
    }
    if x.partial_cmp(&y) != a.partial_cmp(b) {
        return Err(format!("{:?} cmp {:?} is {:?}", x, y, x.partial_cmp(&y)));
    }
    for (g, e) in [(x < y, a < b), (x <= y, a <= b), (x > y, a > b), (x >= y, a >= b)] {
        if g != e {
            return Err(format!("comparison of {:?} and {:?}", x, y));
        }
    }
    let z = x.clone().map_span(|s| Span(s.1, s.1 + 7));
    if *z != *a || z.span() != &Span(x.span().1, x.span().1 + 7) {
        return Err(format!("map_span gives {:?}", z));
    }
    let r: &T = Borrow::<T>::borrow(&x);
    if r != a {
        return Err(format!("borrow of {:?} is {:?}", x, r));
    }
    let mut m = x.clone();
    *m = b.clone();
    if *m != *b || m.span() != x.span() {
        return Err(format!("assignment through deref gives {:?}", m));
    }
    Ok(())
}

fn spanned_total<T>(a: &T, b: &T, base: &Spanned<Box<str>, Span>, other: &Spanned<Box<str>, Span>) -> Result<(), String>
    where T: Clone + std::fmt::Debug + Ord + std::hash::Hash
{
    spanned_pair(a, b, base, other)?;
    let x = base.clone().map(|_| a.clone());
    let y = other.clone().map(|_| b.clone());
    if x.cmp(&y) != a.cmp(b) {
        return Err(format!("{:?} cmp {:?} is {:?}", x, y, x.cmp(&y)));
    }
    if hash_of(&x) != hash_of(a) {
        return Err(format!("hash of {:?} is not the hash of the value", x));
    }
    let mut h = HashMap::new();
    let mut t = BTreeMap::new();
    h.insert(x.clone(), 1);
    t.insert(x.clone(), 1);
    if h.contains_key(b) != (a == b) || t.contains_key(b) != (a == b) || h.contains_key(&y) != (a == b) || t.contains_key(&y) != (a == b) {
        return Err(format!("lookup of {:?} in a map with {:?}", b, x));
    }
    h.insert(y.clone(), 2);
    t.insert(y, 2);
    let n = if a == b { 1 } else { 2 };
    if h.len() != n || t.len() != n || h[b] != 2 || t[b] != 2 {
        return Err(format!("map with {:?} and {:?} has {} elements", a, b, h.len()));
    }
    Ok(())
}

fn spanned_laws(r: &mut Rng, acc: &mut Acc) -> Result<(), String> {
    // two names at random places
    let (a, b) = (gen_string(r, 4), if r.one_in(3) { String::new() } else { gen_string(r, 4) });
    let b = if b.is_empty() { a.clone() } else { b };
    let t = format!("{}x;{}y", " ".repeat(r.below(30)), " ".repeat(r.below(30)));
    let d = parse(&t).map_err(|e| format!("{:?}", diags(&e)))?;
    let (p, q) = (&d.nodes[0].node_name, &d.nodes[1].node_name);
    acc.eval(hash(&(&a, &b, &t)), true);
    spanned_total(&a, &b, p, q)?;
    let (ab, bb): (Box<str>, Box<str>) = (a.clone().into(), b.clone().into());
    spanned_total(&ab, &bb, p, q)?;
    // lookup of boxed strings by str
    let x: Spanned<Box<str>, Span> = p.clone().map(|_| ab.clone());
    let s: &str = x.borrow();
    if s != a || hash_of(&x) != hash_of(&a[..]) {
        return Err(format!("Borrow<str> of {:?} is {:?}", x, s));
    }
    let m: BTreeMap<_, _> = [(x.clone(), 1)].into();
    let h: HashMap<_, _> = [(x.clone(), 1)].into();
    if m.contains_key(&b[..]) != (a == b) || h.contains_key(&b[..]) != (a == b) {
        return Err(format!("lookup of {:?} by str {:?}", x, b));
    }
    let s: &str = x.as_ref();
    if s != a {
        return Err(format!("as_ref of {:?} is {:?}", x, s));
    }
    let mut v = p.clone().map(|_| vec![1u8, 2]);
    AsMut::<[u8]>::as_mut(&mut v)[0] = 9;
    if *v != [9, 2] {
        return Err("as_mut".into());
    }
    let (i, j) = (r.below(5) as i64 - 2, r.below(5) as i64 - 2);
    spanned_total(&i, &j, p, q)?;
    spanned_total(&(i, a.clone()), &(j, b.clone()), p, q)?;
    spanned_total(&vec![i, j], &vec![j, i], p, q)?;
    let fl = [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -1.0];
    let (f, g) = (*r.pick(&fl), *r.pick(&fl));
    // NaN is not equal to itself, so only comparisons
    let (x, y) = (p.clone().map(|_| f), q.clone().map(|_| g));
    if (x == y) != (f == g) || x.partial_cmp(&y) != f.partial_cmp(&g) || (x < y) != (f < g) {
        return Err(format!("comparison of {:?} and {:?}", x, y));
    }
    Ok(())
}

/// Sign, digits and exponent of a decimal number
fn exact(t: &str) -> Option<(bool, String, i64)> {
    let t = t.replace('_', "").to_ascii_lowercase();
    let (m, e) = t.split_once('e').unwrap_or((&t, "0"));
    let neg = m.starts_with('-');
    let m = m.trim_start_matches(['+', '-']);
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let all = format!("{}{}", i, f);
    let digits = all.trim_end_matches('0');
    let e: i64 = e.parse().ok().filter(|e: &i64| e.abs() < 1 << 60)?;
    let exp = e - f.len() as i64 + (all.len() - digits.len()) as i64;
    let digits = digits.trim_start_matches('0');
    Some(if digits.is_empty() { (false, String::new(), 0) } else { (neg, digits.into(), exp) })
}

/// A number that differs in one digit, or another literal that looks alike
fn alike(r: &mut Rng, v: &GVal) -> GVal {
    fn tweak(r: &mut Rng, t: &str, hex: bool) -> String {
        let at: Vec<usize> = t.char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
        if at.is_empty() || hex && r.one_in(2) {
            return format!("{}1", t);
        }
        let i = *r.pick(&at);
        let d = b'0' + (t.as_bytes()[i] - b'0') % 2 ^ 1;
        match r.below(4) {
            0 => format!("{}{}{}", &t[..i], *r.pick(&["0", "1", "9"]), &t[i..]),
            1 if at.len() > 1 && !t.contains(['.', 'e', 'E']) => format!("{}{}", &t[..i], &t[i + 1..]),
            _ => format!("{}{}{}", &t[..i], d as char, &t[i + 1..]),
        }
    }
    match &v.lit {
        RLit::Int(i) => {
            if r.one_in(6) {
                return GVal::str(&i.digits);
            }
            let mut i = i.clone();
            match r.below(5) {
                0 => i.neg = !i.neg,
                1 => i.radix = *r.pick(&[8, 10, 16]),
                _ => i.digits = tweak(r, &i.digits, i.radix == 16),
            }
            if i.radix == 8 && i.digits.contains(|c: char| !('0'..='7').contains(&c)) || i.radix == 10 && i.digits.contains(|c: char| !c.is_ascii_digit()) {
                i.radix = 16;
            }
            if i.radix == 2 && i.digits.contains(|c: char| c != '0' && c != '1') {
                i.radix = 16;
            }
            GVal::new(RLit::Int(i))
        }
        RLit::Dec(d) => {
            if r.one_in(6) {
                return GVal::str(d);
            }
            let t = match (d.find(['e', 'E']), r.below(4)) {
                (None, 0) => format!("{}e{}", d, *r.pick(&["1", "400", "-400", "500", "0", "308"])),
                (Some(i), 0) => d[..i].to_string() + "e" + *r.pick(&["1", "400", "-400", "500", "0", "308"]),
                _ => tweak(r, d, false),
            };
            GVal { ty: None, lit: RLit::Dec(t.clone()), text: Some(t) }
        }
        RLit::Str(s) => match r.below(5) {
            0 => GVal::str(&format!("{} ", s)),
            1 => GVal::str(&s.to_uppercase()),
            2 => GVal::str(&s.chars().rev().collect::<String>()),
            3 => GVal::str(&s.replace('\n', "\r\n")),
            _ => GVal::str(&s.chars().skip(1).collect::<String>()),
        },
        RLit::Bool(b) => if r.one_in(2) { GVal::str(&b.to_string()) } else { GVal::new(RLit::Bool(!b)) },
        RLit::Null => if r.one_in(2) { GVal::str("null") } else { GVal::new(RLit::Bool(false)) },
    }
}

/// Equality of literals
fn literal_eq(a: &GVal, ta: &str, b: &GVal, tb: &str, acc: &mut Acc) -> Result<(), String> {
    let d = match parse(&format!("n {}\nm {} {}", ta, tb, ta)) {
        Ok(d) => d,
        Err(_) => { acc.count("skipped: rejected"); return Ok(()) }
    };
    acc.eval(hash(&(ta, tb)), true);
    let x: &Literal = &d.nodes[0].arguments[0].literal;
    let y: &Literal = &d.nodes[1].arguments[0].literal;
    let z: &Literal = &d.nodes[1].arguments[1].literal;
    if x != z || x != &x.clone() {
        return Err(format!("{:?} is not equal to itself", x));
    }
    if d.nodes[0].arguments[0].literal != d.nodes[1].arguments[1].literal {
        return Err(format!("spanned {:?} is not equal to itself", x));
    }
    let differ = match (&a.lit, &b.lit) {
        (RLit::Int(i), RLit::Int(j)) => match (i.value(), j.value()) {
            (Some(i), Some(j)) => i != j,
            // a huge one
            (None, None) if i.radix == j.radix => {
                let d = |x: &RInt| (x.neg, x.digits.replace('_', "").trim_start_matches('0').to_ascii_lowercase());
                d(i) != d(j)
            }
            (None, None) => false,
            _ => true,
        },
        (RLit::Dec(i), RLit::Dec(j)) => match (exact(i), exact(j)) {
            (Some(i), Some(j)) => i != j,
            _ => false,
        },
        (i, j) => i != j,
    };
    if differ && (x == y || y == x) {
        return Err(format!("{} and {} are equal: {:?} {:?}", ta, tb, x, y));
    }
    // the same text up to underscores
    let norm = |s: &str| s.replace('_', "");
    let num = matches!(a.lit, RLit::Int(_) | RLit::Dec(_));
    let same = a.lit == b.lit && (!num || norm(ta) == norm(tb));
    if same && (x != y || y != x) {
        return Err(format!("{} and {} are not equal: {:?} {:?}", ta, tb, x, y));
    }
    acc.count(if differ { "literals differ" } else if same { "literals equal" } else { "literals spelled differently (no verdict)" });
    Ok(())
}

fn spans(r: &mut Rng, acc: &mut Acc) -> Result<(), String> {
    let (i, j) = (r.range(1, 40), r.range(1, 40));
    let a = r.below(1 << i);
    let b = a + r.below(1 << j);
    acc.eval(hash(&("span", a, b)), true);
    let s = Span(a, b);
    if s.length() != b - a || s.to_string() != format!("{}..{}", a, b) || Span::from(a..b) != s {
        return Err(format!("span {:?} displays as {} and has length {}", s, s, s.length()));
    }
    let e: ErrorSpan = s.clone().into();
    if e.offset() != a || e.len() != b - a {
        return Err(format!("span {:?} converts to {:?}", s, e));
    }
    let p = |o: usize, r: &mut Rng| LinePos { offset: o, line: r.below(100), column: r.below(100) };
    let l = LineSpan(p(a, r), p(b, r));
    let e: ErrorSpan = l.clone().into();
    if e.offset() != a || e.len() != b - a {
        return Err(format!("span {:?} converts to {:?}", l, e));
    }
    let same = |x: &LineSpan, y: &LineSpan| (x.0.offset, x.0.line, x.0.column, x.1.offset, x.1.line, x.1.column)
        == (y.0.offset, y.0.line, y.0.column, y.1.offset, y.1.line, y.1.column);
    let m = LineSpan(p(a, r), p(b, r));
    // positions of the same offset only come from different texts
    if same(&l, &m) && l != m || l != l.clone() || Span(a, b) == Span(a, b + 1) || Span(a, b) == Span(a + 1, b) {
        return Err(format!("equality of {:?} and {:?}", l, m));
    }
    Ok(())
}

pub fn c24(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = all laws checked for one pair of values, type names, literals or spans; distinct by the pair");
    let pool: Vec<String> = BUILTIN.iter().map(|b| b.0.to_string())
        .chain(["U8", "I64", "u8 ", " u8", "u", "8", "u128", "i128", "Usize", "USIZE", "f16", "F64", "base6", "base", "base644", "BASE64", "str", "", "bool", "u08", "u8\0", "ｕ8"].iter().map(|s| s.to_string()))
        .collect();
    run.par("type names: all pairs", (pool.len() * pool.len()) as u64, |i, _, acc| {
        let (a, b) = (&pool[i as usize / pool.len()], &pool[i as usize % pool.len()]);
        acc.check(&run, &Case::with("type names", a, b), |acc| type_names(a, b, acc));
    });
    run.par("type names: random", run.n(20_000, 500_000), |_, r, acc| {
        let a = match r.below(6) {
            0 | 1 => r.pick(&pool).clone(),
            // almost a builtin one
            2 | 3 => {
                let t = r.pick(BUILTIN).0.to_string();
                match r.below(9) {
                    0 => t.to_uppercase(),
                    1 => t[..1].to_uppercase() + &t[1..],
                    2 => t[..t.len() - 1].to_string(),
                    3 => t.chars().rev().collect(),
                    4 => t.replace(|c: char| c.is_ascii_digit(), "0"),
                    k => {
                        let x = *r.pick(&["'", "\"", " ", "\n", "\u{feff}", "\0", "`", "(", ")", "_", "-", "+", "#", "0", "\\", "é", "\u{a0}", "r", "::", "&"]);
                        match k {
                            5 => format!("{}{}{}", x, t, x),
                            6 => format!("{}{}", x, t),
                            7 => format!("{}{}", t, x),
                            _ => { let at = r.below(t.len()); format!("{}{}{}", &t[..at], x, &t[at..]) }
                        }
                    }
                }
            }
            _ => gen_string(r, 5),
        };
        let b = match r.below(3) {
            0 => a.clone(),
            1 => r.pick(&pool).clone(),
            _ => gen_string(r, 5),
        };
        acc.check(&run, &Case::with("type names", &a, &b), |acc| type_names(&a, &b, acc));
    });
    run.par("spanned", run.n(40_000, 1_000_000), |i, r, acc| {
        acc.check(&run, &Case::new("spanned", &i.to_string()), |acc| spanned_laws(r, acc));
    });
    run.par("literals", run.n(60_000, 1_000_000), |_, r, acc| {
        let gen = |r: &mut Rng| {
            let mut v = gen_val(r);
            v.ty = None;
            // small values collide often
            if r.one_in(2) {
                v = match r.below(6) {
                    0 => GVal::int(r.below(4) as i128 - 1),
                    1 => { let t = format!("{}.{}", r.below(2), r.below(2)); GVal::new(RLit::Dec(t)) }
                    2 => GVal::str(&r.below(3).to_string()),
                    3 => GVal::new(RLit::Int(RInt { neg: false, radix: *r.pick(&[2, 8, 16]), digits: r.below(2).to_string() })),
                    4 => GVal::new(RLit::Bool(r.one_in(2))),
                    _ => GVal::new(RLit::Null),
                };
            }
            v
        };
        let text = |r: &mut Rng, v: &GVal| match &v.lit {
            RLit::Null => "null".to_string(),
            RLit::Bool(b) => b.to_string(),
            RLit::Int(i) => write_int(r, i),
            RLit::Dec(d) => v.text.clone().unwrap_or_else(|| d.clone()),
            RLit::Str(s) => string_text(r, s, true),
        };
        let a = gen(r);
        let b = match r.below(6) {
            0 | 1 => a.clone(),
            2 | 3 => alike(r, &a),
            _ => gen(r),
        };
        // half of the pairs of numbers that are alike are variants of each other
        let (a, b) = if r.one_in(4) { (alike(r, &b), b) } else { (a, b) };
        let (ta, tb) = (text(r, &a), text(r, &b));
        acc.check(&run, &Case::with("literals", &ta, &tb), |acc| literal_eq(&a, &ta, &b, &tb, acc));
    });
    run.par("spans", run.n(20_000, 200_000), |i, r, acc| {
        acc.check(&run, &Case::new("spans", &i.to_string()), |acc| spans(r, acc));
    });
    run.par("iteration", run.n(5_000, 100_000), |_, r, acc| {
        let doc = gen_doc_mixed(r);
        let (text, exp) = write_doc(r, &doc, &Style::plain());
        acc.check(&run, &Case::new("iteration", &text), |acc| {
            let (Ok(a), Ok(b)) = (parse(&text), parse_l(&text)) else { return Ok(()) };
            acc.eval(hash(&text), !exp.is_empty());
            for (e, n) in exp.iter().zip(&a.nodes) {
                let names: Vec<String> = n.children().map(|c| c.node_name.to_string()).collect();
                let en: Vec<String> = e.children.iter().flat_map(|c| c.1.iter().map(|n| n.name.text.clone())).collect();
                if names != en || n.children().len() != en.len() || n.children().size_hint() != (en.len(), Some(en.len())) {
                    return Err(format!("children() gives {:?}, expected {:?}", names, en));
                }
            }
            // clones and converted spans keep the content
            let s = shape_doc(&a);
            if shape_doc(&a.clone()) != s || shape_doc(&b) != s || format!("{:?}", a.clone()) != format!("{:?}", a) {
                return Err("a clone is different".into());
            }
            for n in b.nodes.iter() {
                let m = n.clone().map_span(|s| Span(s.0.offset, s.1.offset));
                if m.node_name != n.node_name || m.arguments.len() != n.arguments.len() || m.span().0 != n.span().0.offset {
                    return Err("map_span changed the node".into());
                }
            }
            Ok(())
        });
    });
    run.finish()
}
