//! The scalar trait itself, as hand-written decoders use it: wrappers of every
//! scalar type, and errors made with the public constructors
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;
use knuffel::ast::{BuiltinType, Document, Literal, SpannedNode, TypeName};
use knuffel::decode::{Context, Kind};
use knuffel::errors::{DecodeError, ExpectedType};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeScalar, ErrorSpan, Span as AnySpan};
use refmodel::report::*;
use refmodel::rng::Rng;
use crate::custom::{Color, Level};
use crate::dump::Dump;
use crate::model::{some, Val};
use crate::obs::{diag, diags, Diag};

const DECODE: u8 = 0;
const BOTH: u8 = 1;
const RAW: u8 = 2;
const CHECK: u8 = 3;

/// Uses one of the methods of the trait on the first argument
struct Probe<W, const M: u8>(Option<Val>, PhantomData<W>);
impl<S: ErrorSpan, W: DecodeScalar<S> + Dump, const M: u8> Decode<S> for Probe<W, M> {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let v = &n.arguments[0];
        if M == BOTH || M == CHECK {
            W::type_check(&v.type_name, ctx);
        }
        let r = match M {
            DECODE => Some(W::decode(v, ctx)?.dump()),
            CHECK => None,
            _ => Some(W::raw_decode(&v.literal, ctx)?.dump()),
        };
        Ok(Probe(r, PhantomData))
    }
}

type Seen = Result<Option<Val>, Vec<Diag>>;

fn probe<S: AnySpan, W: DecodeScalar<S> + Dump, const M: u8>(n: &SpannedNode<S>) -> Seen {
    knuffel::decode::node::<Probe<W, M>, S>(n).map(|p| p.0).map_err(|e| e.iter().map(|e| diag(e)).collect())
}

/// Layers of a wrapper, the outer one first: `o`ption, `s`panned
fn wrap(layers: &str, null: bool, span: &Val, v: Option<Val>) -> Val {
    match layers.chars().next() {
        Some('o') if null => Val::None,
        Some('o') => some(wrap(&layers[1..], null, span, v)),
        Some('s') => Val::Spanned(Box::new(span.clone()), Box::new(wrap(&layers[1..], null, span, v))),
        _ => v.expect("harness: value"),
    }
}

fn one<S: AnySpan + Dump, T: DecodeScalar<S> + Dump, W: DecodeScalar<S> + Dump>(n: &SpannedNode<S>, layers: &str) -> Result<(), String> {
    let v = &n.arguments[0];
    let null = matches!(&*v.literal, Literal::Null);
    let span = v.literal.span().dump();
    let (wd, wb, wr, wc) = (probe::<S, W, DECODE>(n), probe::<S, W, BOTH>(n), probe::<S, W, RAW>(n), probe::<S, W, CHECK>(n));
    let (tr, tc) = (probe::<S, T, RAW>(n), probe::<S, T, CHECK>(n));
    if wd != wb {
        return Err(format!("decode gives {:?}, type_check and raw_decode give {:?}", wd, wb));
    }
    if wc != tc {
        return Err(format!("type_check gives {:?}, for the plain type it gives {:?}", wc, tc));
    }
    let exp = if null && layers.contains('o') {
        Ok(Some(wrap(layers, true, &span, None)))
    } else {
        tr.map(|v| Some(wrap(layers, false, &span, v)))
    };
    if wr != exp {
        return Err(format!("raw_decode gives {:?}, expected {:?}", wr, exp));
    }
    // errors of a type name come first, a value only without any error
    let all = match (wc, wr) {
        (Ok(_), Ok(v)) => Ok(v),
        (a, b) => Err(a.err().into_iter().flatten().chain(b.err().into_iter().flatten()).collect::<Vec<_>>()),
    };
    if wb != all {
        return Err(format!("type_check and raw_decode together give {:?}, one by one {:?}", wb, all));
    }
    Ok(())
}

fn wrappers<S, T>(n: &SpannedNode<S>) -> Result<u64, String>
    where S: AnySpan + Dump + knuffel::traits::DecodeSpan<S>, T: DecodeScalar<S> + Dump
{
    let mut k = 0;
    macro_rules! each {
        ($($w:ty, $l:literal;)*) => { $(one::<S, T, $w>(n, $l).map_err(|e| format!("{}: {}", stringify!($w), e))?; k += 1;)* }
    }
    each! {
        T, ""; Box<T>, ""; Rc<T>, ""; Arc<T>, ""; Option<T>, "o"; Spanned<T, S>, "s";
        Option<Box<T>>, "o"; Box<Option<T>>, "o"; Option<Spanned<T, S>>, "os"; Spanned<Option<T>, S>, "so";
        Arc<Spanned<T, S>>, "s"; Spanned<Rc<T>, S>, "s"; Rc<Arc<Box<T>>>, ""; Option<Arc<Spanned<Box<T>, S>>>, "os";
    }
    Ok(k)
}

const TYPES: &[&str] = &["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "f32", "f64", "bool", "String", "PathBuf",
    "Arc<str>", "Arc<Path>", "Color", "Level"];

fn of_type<S: AnySpan + Dump + knuffel::traits::DecodeSpan<S>>(t: usize, n: &SpannedNode<S>) -> Result<u64, String> {
    match TYPES[t] {
        "i8" => wrappers::<S, i8>(n), "u8" => wrappers::<S, u8>(n), "i16" => wrappers::<S, i16>(n), "u16" => wrappers::<S, u16>(n),
        "i32" => wrappers::<S, i32>(n), "u32" => wrappers::<S, u32>(n), "i64" => wrappers::<S, i64>(n), "u64" => wrappers::<S, u64>(n),
        "isize" => wrappers::<S, isize>(n), "usize" => wrappers::<S, usize>(n), "f32" => wrappers::<S, f32>(n), "f64" => wrappers::<S, f64>(n),
        "bool" => wrappers::<S, bool>(n), "String" => wrappers::<S, String>(n), "PathBuf" => wrappers::<S, PathBuf>(n),
        "Arc<str>" => wrappers::<S, Arc<str>>(n), "Arc<Path>" => wrappers::<S, Arc<Path>>(n),
        "Color" => wrappers::<S, Color>(n), _ => wrappers::<S, Level>(n),
    }
}

const VALUES: &[&str] = &["0", "1", "-1", "+7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536",
    "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "0x7f", "0xff", "0o400", "0b1", "-0x80", "1_000",
    "0.0", "-0.0", "1.5", "1e3", "1e400", "-1E-400", "3.14159_26535", "true", "false", "null", "\"\"", "\"a\"", "\"red\"", "\"dark-blue\"",
    "\"Red\"", "\"low\"", "\"type\"", "\"null\"", "\"a/./b/\"", "\"/\"", "r\"raw\"", "r##\"\"#\"##", "\"\\n\\u{1F600}\"", "\"\u{e9}\u{4e2d}\""];
const NAMES: &[&str] = &["", "(u8)", "(i8)", "(u16)", "(i16)", "(u32)", "(i32)", "(u64)", "(i64)", "(usize)", "(isize)", "(f32)", "(f64)", "(base64)",
    "(\"u8\")", "(U8)", "(bool)", "(String)", "(\"\")", "(x\u{e9})"];

fn ast<S: AnySpan>(text: &str) -> Result<Document<S>, String> {
    knuffel::parse_ast::<S>("t.kdl", text).map_err(|e| format!("not parsed: {:?}", diags(&e)))
}

/// C22: all scalar types, wrappers, values and type names
pub fn scalar_traits(run: &Run) {
    let total = (TYPES.len() * VALUES.len() * NAMES.len()) as u64;
    run.par("methods of the scalar trait", total, |i, _, acc| {
        let (t, j) = (i as usize % TYPES.len(), i as usize / TYPES.len());
        let (v, n) = (VALUES[j % VALUES.len()], NAMES[j / VALUES.len()]);
        let text = format!("n \\\n  {}{} // x", n, v);
        acc.check(run, &Case::with("scalar trait", &text, TYPES[t]), |acc| {
            acc.eval(hash(&(t, &text)), true);
            let k = of_type::<Span>(t, &ast::<Span>(&text)?.nodes[0])? + of_type::<LineSpan>(t, &ast::<LineSpan>(&text)?.nodes[0])?;
            acc.add("methods of wrapped and plain scalars compared", k);
            Ok(())
        });
    });
}

/// What a hand-written decoder reports about an element
#[derive(Clone)]
enum Report { Conversion(String), Kind(Kind), Missing(String), Unexpected(&'static str, String), Unsupported(String), Type(u8, usize), Custom(String) }

struct Plan(Vec<(usize, Report)>);
struct Reporting;

const EXPECT: &[&str] = &["u8", "i64", "base64", "f32", "my-type", "a b", "usize", ""];

fn expected(how: u8, ty: usize) -> ExpectedType {
    let t: TypeName = EXPECT[ty].parse().unwrap();
    match how {
        0 => ExpectedType::no_type(),
        1 => ExpectedType::required(t),
        2 => ExpectedType::optional(t),
        3 => ExpectedType::required(BuiltinType::U16),
        _ => ExpectedType::optional(BuiltinType::Isize),
    }
}

impl<S: ErrorSpan> Decode<S> for Reporting {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Reporting, DecodeError<S>> {
        let plan = ctx.get::<std::sync::Arc<Plan>>().cloned().expect("harness: plan");
        let mut last = None;
        for (k, (at, r)) in plan.0.iter().enumerate() {
            let a = &n.arguments[at % n.arguments.len()];
            let e = match r {
                Report::Conversion(m) => DecodeError::conversion(&a.literal, &m[..]),
                Report::Kind(k) => DecodeError::scalar_kind(*k, &a.literal),
                Report::Missing(m) => DecodeError::missing(n, &m[..]),
                Report::Unexpected(k, m) if at % 3 == 0 => DecodeError::unexpected(n.properties.keys().next().unwrap(), k, m.clone()),
                Report::Unexpected(k, m) if at % 3 == 1 => DecodeError::unexpected(n, k, m.clone()),
                Report::Unexpected(k, m) => DecodeError::unexpected(&a.literal, k, m.clone()),
                Report::Unsupported(m) => DecodeError::unsupported(&a.literal, m.clone()),
                Report::Type(how, ty) => DecodeError::TypeName {
                    span: a.literal.span().clone(), found: a.type_name.as_ref().map(|t| (**t).clone()), expected: expected(*how, *ty), rust_type: "mine",
                },
                Report::Custom(m) => DecodeError::Custom(m.clone().into()),
            };
            if k + 1 == plan.0.len() {
                last = Some(e);
            } else {
                ctx.emit_error(e);
            }
        }
        match last {
            Some(e) => Err(e),
            None => Ok(Reporting),
        }
    }
}

fn kind_of(v: &str) -> &'static str {
    match v.as_bytes()[0] {
        b'"' | b'r' => "string",
        b'n' => "null",
        b't' | b'f' => "boolean",
        _ if v.contains('x') || v.contains('o') || v.contains('b') || !v.contains(|c| "eE.".contains(c)) => "integer",
        _ => "decimal",
    }
}

/// C10: errors made by hand-written decoders are shown with their element and message
pub fn constructors(run: &Run) {
    run.par("errors of hand-written decoders", run.n(20_000, 400_000), |_, r, acc| {
        let mut text = String::new();
        for _ in 0..r.below(3) {
            text += *r.pick(&["// c\n", "\n", " ", "/* \u{e9} */", "\r\n"]);
        }
        let start = text.len();
        let name = *r.pick(&["n", "node-name", "\"quoted \u{4e2d}\"", "r#\"x\"#"]);
        text += name;
        let mut args = Vec::new();
        for _ in 0..r.range(1, 4) {
            text += *r.pick(&[" ", "  ", "\t", " \\\n "]);
            let t = *r.pick(NAMES);
            let v = *r.pick(VALUES);
            args.push((t, v, (text.len() + t.len(), v.len())));
            text += t;
            text += v;
        }
        text += " ";
        let prop = (text.len(), 3);
        text += "\u{e9}k=1";
        let whole = (start, text.len() + 1 - start);
        text += ";";
        let words = ["", "wrong", "caf\u{e9} `x`", "a\nb", "{}"];
        let mut plan = Vec::new();
        let mut exp = Vec::new();
        for _ in 0..r.below(5) {
            let at = r.below(12);
            let (t, v, sp) = args[at % args.len()];
            let m = r.pick(&words).to_string();
            let (rep, msg, label) = match r.below(7) {
                0 => (Report::Conversion(m.clone()), m, Some((sp, "invalid value".to_string()))),
                1 => {
                    let k = *r.pick(&[Kind::Int, Kind::Decimal, Kind::String, Kind::Bool, Kind::Null]);
                    let name = match k { Kind::Int => "integer", Kind::Decimal => "decimal", Kind::String => "string", Kind::Bool => "boolean", Kind::Null => "null" };
                    (Report::Kind(k), format!("expected {} scalar, found {}", name, kind_of(v)), Some((sp, format!("unexpected {}", kind_of(v)))))
                }
                2 => (Report::Missing(m.clone()), m, Some(((start, name.len()), "node starts here".into()))),
                3 => {
                    let k = *r.pick(&["argument", "thing"]);
                    let sp = match at % 3 { 0 => prop, 1 => whole, _ => sp };
                    (Report::Unexpected(k, m.clone()), m, Some((sp, format!("unexpected {}", k))))
                }
                4 => (Report::Unsupported(m.clone()), m, Some((sp, "unsupported value".into()))),
                5 => {
                    let (how, ty) = (r.below(5) as u8, r.below(EXPECT.len()));
                    let e = match how {
                        0 => "no type".to_string(), 1 => EXPECT[ty].into(), 2 => format!("{} or no type", EXPECT[ty]),
                        3 => "u16".into(), _ => "isize or no type".into(),
                    };
                    let found = if t.is_empty() { "no type name" } else { t[1..t.len() - 1].trim_matches('"') };
                    (Report::Type(how, ty), format!("{} for mine, found {}", e, found), Some((sp, "unexpected type name".into())))
                }
                _ => (Report::Custom(m.clone()), m, None),
            };
            plan.push((at, rep));
            exp.push((msg, label));
        }
        acc.check(run, &Case::new("hand-written", &text), |acc| {
            acc.eval(hash(&(&text, format!("{:?}", exp))), !exp.is_empty());
            acc.sample(&text);
            let plan = std::sync::Arc::new(Plan(plan.clone()));
            let a = knuffel::parse_with_context::<Vec<Reporting>, Span, _>("t.kdl", &text, |c| c.set(plan.clone())).map(|v| v.len()).map_err(|e| diags(&e));
            let b = knuffel::parse_with_context::<Vec<Reporting>, LineSpan, _>("t.kdl", &text, |c| c.set(plan.clone())).map(|v| v.len()).map_err(|e| diags(&e));
            for got in [a, b] {
                match got {
                    Ok(1) if exp.is_empty() => acc.count("nothing reported"),
                    Err(d) if d.len() == exp.len() && !exp.is_empty() => {
                        for (d, (m, l)) in d.iter().zip(&exp) {
                            let lab: Vec<_> = d.labels.iter().map(|l| ((l.start, l.len), l.text.clone())).collect();
                            if d.msg != *m || lab != l.iter().cloned().collect::<Vec<_>>() {
                                return Err(format!("{:?}, expected {:?} at {:?}", d, m, l));
                            }
                            acc.count("errors made by constructors");
                        }
                    }
                    got => return Err(format!("{:?}, expected {:?}", got, exp)),
                }
            }
            Ok(())
        });
    });
    let kinds: BTreeSet<&str> = VALUES.iter().map(|v| kind_of(v)).collect();
    assert_eq!(kinds.len(), 5, "harness: kinds");
    let _ = Rng::stream(0, 0);
}
