//! A few derived types with all kinds of fields
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::PathBuf;

#[derive(knuffel::DecodeScalar, Debug)]
enum Color { Red, DarkBlue, #[allow(dead_code)] #[knuffel(skip)] Hidden }

#[derive(knuffel::Decode, Debug)]
struct Item {
    #[knuffel(argument)]
    name: String,
    #[knuffel(argument, default)]
    size: u16,
    #[knuffel(arguments)]
    rest: Vec<i8>,
    #[knuffel(property)]
    color: Option<Color>,
    #[knuffel(property(name="at"), str)]
    addr: Option<std::net::Ipv4Addr>,
    #[knuffel(properties)]
    other: BTreeMap<String, f64>,
    #[knuffel(child)]
    flag: bool,
    #[knuffel(child, unwrap(argument, default=7))]
    level: u8,
    #[knuffel(children(name="path"), unwrap(argument))]
    paths: Vec<PathBuf>,
    #[knuffel(children)]
    subs: Vec<Shape>,
}

#[derive(knuffel::Decode, Debug)]
enum Shape {
    Dot,
    Circle(#[knuffel(argument)] f32, #[knuffel(property(name="fill"))] Option<bool>),
    Item(Box<Item>),
    Blob(Blob),
    Group(Group),
    #[allow(dead_code)]
    #[knuffel(skip)]
    Secret,
}

#[derive(knuffel::Decode, Debug)]
struct Blob {
    #[knuffel(node_name)]
    kind: String,
    #[knuffel(type_name)]
    ty: Option<String>,
    #[knuffel(argument)]
    n: Option<u64>,
}

#[derive(knuffel::Decode, Debug)]
struct Group {
    #[knuffel(flatten(child, property))]
    common: Common,
    #[knuffel(children)]
    subs: Vec<Shape>,
}

#[derive(knuffel::Decode, Debug, Default)]
struct Common {
    #[knuffel(property)]
    id: Option<i32>,
    #[knuffel(child, unwrap(argument))]
    title: Option<String>,
    #[knuffel(child)]
    flag: bool,
}

#[derive(knuffel::Decode, Debug)]
struct Doc {
    #[knuffel(child)]
    #[allow(dead_code)]
    item: Option<Item>,
    #[knuffel(children)]
    #[allow(dead_code)]
    shapes: Vec<Shape>,
}

#[derive(knuffel::Decode, Debug)]
struct Bin {
    #[knuffel(argument, bytes)]
    a: Vec<u8>,
    #[knuffel(property, bytes)]
    b: Option<Vec<u8>>,
    #[knuffel(children(name="c"), unwrap(argument, bytes))]
    c: Vec<Vec<u8>>,
}

fn show<T: Debug>(r: Result<T, knuffel::Error>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("{:?}", crate::diags(&e)),
    }
}


pub fn all(text: &str) -> String {
    let mut out = show(knuffel::parse::<Vec<Shape>>("s.kdl", text));
    out += &show(knuffel::parse::<Doc>("d.kdl", text));
    out += &show(knuffel::parse::<Vec<Item>>("i.kdl", text));
    out
}

/// (values, diagnostics)
pub fn bin(text: &str) -> Result<String, Vec<crate::Diag>> {
    knuffel::parse::<Vec<Bin>>("b.kdl", text).map(|v| format!("{:?}", v)).map_err(|e| crate::diags(&e))
}

