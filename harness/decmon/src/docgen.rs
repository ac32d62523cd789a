//! Documents for derived types: valid ones from the schema and faulty ones by
//! changes of a valid one
use std::collections::HashMap;
use refmodel::gen::*;
use refmodel::kdl::*;
use refmodel::rng::Rng;
use crate::model::*;

pub struct G<'a> {
    pub defs: &'a HashMap<&'static str, Def>,
    pub r: &'a mut Rng,
    /// length of one long list, 0: short lists only
    pub big: usize,
}

fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

impl<'a> G<'a> {
    /// How many elements of a list
    pub fn many(&mut self) -> usize {
        if self.big > 0 && self.r.one_in(2) {
            let b = std::mem::take(&mut self.big);
            return self.r.range(b / 2, b);
        }
        self.r.below(4)
    }

    fn text(&mut self, fs: Fs) -> String {
        let r = &mut *self.r;
        match fs {
            Fs::Str => gen_string(r, 8),
            Fs::U16 => (*r.pick(&["0", "1", "65535", "00012", "+7", "300"])).into(),
            Fs::Addr => (*r.pick(&["127.0.0.1:80", "[::1]:65535", "0.0.0.0:0", "10.20.30.40:5000"])).into(),
            Fs::Char => any_char(r).to_string(),
            Fs::Even => {
                let mut s = gen_string(r, 6);
                if s.chars().count() % 2 == 1 {
                    s.push('.');
                }
                s
            }
        }
    }
    pub fn name(&mut self, fs: Fs) -> String {
        let r = &mut *self.r;
        match fs {
            Fs::Str => gen_name(r),
            Fs::Even => loop {
                let s = gen_name(r);
                if s.chars().count() % 2 == 0 {
                    return s;
                }
            },
            Fs::Char => (*r.pick(&["a", "Z", "é", "漢", "=", " "])).into(),
            fs => self.text(fs),
        }
    }

    pub fn scalar(&mut self, sc: &Sc, opt: bool) -> GVal {
        if opt && self.r.one_in(5) {
            return GVal::new(RLit::Null);
        }
        match sc {
            Sc::Opt(i) => self.scalar(i, true),
            Sc::Spanned(i, _) => self.scalar(i, false),
            Sc::Int(t) => {
                let (lo, hi): (i128, i128) = match *t {
                    "u8" => (0, u8::MAX as i128),
                    "i8" => (i8::MIN as i128, i8::MAX as i128),
                    "u16" => (0, u16::MAX as i128),
                    "i16" => (i16::MIN as i128, i16::MAX as i128),
                    "u32" => (0, u32::MAX as i128),
                    "i32" => (i32::MIN as i128, i32::MAX as i128),
                    "u64" | "usize" => (0, u64::MAX as i128),
                    _ => (i64::MIN as i128, i64::MAX as i128),
                };
                let r = &mut *self.r;
                let v = match r.below(8) {
                    0 => lo,
                    1 => hi,
                    2 => (hi - 1).min(lo + 1),
                    3 | 4 => r.below(100) as i128,
                    _ => lo + (r.u64() as i128) % (hi - lo + 1),
                };
                let radix = *r.pick(&[10, 10, 10, 16, 8, 2]);
                let v = GVal::new(RLit::Int(RInt { neg: v < 0, radix, digits: to_radix(v.unsigned_abs(), radix) }));
                if r.one_in(6) { v.typed(t) } else { v }
            }
            Sc::F64 | Sc::F32 => {
                let (v, t) = gen_decimal(self.r);
                let mut g = GVal { ty: None, lit: RLit::Dec(v), text: Some(t) };
                if self.r.one_in(6) {
                    g = g.typed(if matches!(sc, Sc::F64) { "f64" } else { "f32" });
                }
                g
            }
            Sc::Str(_) => GVal::str(&gen_string(self.r, 8)),
            Sc::Bool => GVal::new(RLit::Bool(self.r.one_in(2))),
            Sc::Enum(_, v) => GVal::str(self.r.pick(v).0),
            Sc::FromStr(f) => GVal::str(&self.text(*f)),
            Sc::Bytes(short) => {
                let max = if *short { 9 } else { 20 };
                if self.r.one_in(2) {
                    let b: Vec<u8> = (0..self.r.below(max)).map(|_| self.r.u64() as u8).collect();
                    GVal::str(&b64(&b)).typed("base64")
                } else {
                    let mut s = gen_string(self.r, 8);
                    while *short && s.len() > 8 {
                        s.pop();
                    }
                    GVal::str(&s)
                }
            }
            Sc::Lit => gen_val(self.r),
        }
    }

    /// Node of the type; `name` is given by the parent or free
    pub fn node(&mut self, dec: &Dec, name: Option<&str>, depth: usize) -> GNode {
        match dec {
            Dec::Unwrap(f) => self.fields(std::slice::from_ref(&**f), name, depth),
            Dec::Ty(t) => {
                let defs = self.defs;
                match &defs[t] {
                    Def::Struct(f) => self.fields(f, name, depth),
                    Def::New(d, opt) => {
                        if *opt && self.r.one_in(3) {
                            let mut n = GNode::new(name.unwrap_or("x"));
                            if name.is_none() {
                                n.name = self.name(Fs::Str);
                            }
                            return n;
                        }
                        self.node(d, name, depth)
                    }
                    Def::Enum(vars) => {
                        let any = vars.iter().position(|v| Some(v.0) == name).unwrap_or_else(|| self.r.below(vars.len()));
                        // prefer leaves when deep
                        let v = &vars[if depth == 0 { vars.iter().position(|v| matches!(v.2, VKind::Unit)).unwrap_or(any) } else { any }];
                        let name = name.unwrap_or(v.0);
                        match &v.2 {
                            VKind::Unit => GNode::new(name),
                            VKind::Nested(_, true) if depth == 0 || self.r.one_in(3) => GNode::new(name),
                            VKind::Nested(d, _) => self.node(d, Some(name), depth.saturating_sub(1)),
                            VKind::Tuple(f) => self.fields(f, Some(name), depth),
                        }
                    }
                }
            }
        }
    }

    fn fields(&mut self, fields: &[Field], name: Option<&str>, depth: usize) -> GNode {
        let mut n = GNode::new("");
        let mut fs = Fs::Str;
        for f in fields {
            if let Mode::NodeName(x) = &f.mode {
                if *x != Fs::Str {
                    fs = *x;
                }
            }
        }
        n.name = match name {
            Some(x) => x.into(),
            None => self.name(fs),
        };
        let mut tfs = None;
        for f in fields {
            if let Mode::TypeName(x, opt) = &f.mode {
                if tfs.map_or(true, |(t, _)| t == Fs::Str) {
                    tfs = Some((*x, *opt));
                }
            }
        }
        if let Some((x, opt)) = tfs {
            if !opt || self.r.one_in(2) {
                n.ty = Some(self.name(x));
            }
        }
        let mut args = Vec::new();
        let mut stop = false;
        for f in fields {
            match &f.mode {
                Mode::Arg { sc, opt, def } => {
                    if (*opt || def.is_some()) && self.r.one_in(3) {
                        stop = true;
                    }
                    if !stop || !*opt && def.is_none() {
                        args.push(self.scalar(sc, *opt));
                    }
                }
                Mode::Args { sc, .. } if !stop => {
                    for _ in 0..self.many() {
                        args.push(self.scalar(sc, false));
                    }
                }
                _ => {}
            }
        }
        let mut props = Vec::new();
        self.props(fields, &mut props);
        // properties anywhere between arguments, order of arguments kept
        n.entries = args.into_iter().map(GEntry::Arg).collect();
        self.r.shuffle(&mut props);
        for (k, v) in props {
            if self.r.one_in(8) {
                // an earlier value that is overridden
                let at = self.r.below(n.entries.len() + 1);
                let old = gen_val(self.r);
                n.entries.insert(at, GEntry::Prop(k.clone(), old));
                n.entries.push(GEntry::Prop(k, v));
                continue;
            }
            let at = self.r.below(n.entries.len() + 1);
            n.entries.insert(at, GEntry::Prop(k, v));
        }
        let kids = self.kids(fields, depth);
        if !kids.is_empty() || self.r.one_in(10) {
            n.children = Some(kids);
        }
        n
    }

    fn props(&mut self, fields: &[Field], out: &mut Vec<(String, GVal)>) {
        let defs = self.defs;
        for f in fields {
            match &f.mode {
                Mode::Prop { key, sc, opt, def } => {
                    if !(*opt || def.is_some()) || self.r.one_in(2) {
                        let v = self.scalar(sc, *opt);
                        out.push((key.to_string(), v));
                    }
                }
                Mode::Props { sc, key } => {
                    for _ in 0..self.many() {
                        let k = self.name(*key);
                        let v = self.scalar(sc, false);
                        if !out.iter().any(|x| x.0 == k) {
                            out.push((k, v));
                        }
                    }
                }
                Mode::Flat { ty, prop: true, .. } => {
                    let Def::Struct(inner) = &defs[ty] else { panic!("harness: part") };
                    self.props(inner, out);
                }
                _ => {}
            }
        }
    }

    pub fn kids(&mut self, fields: &[Field], depth: usize) -> Vec<GNode> {
        let defs = self.defs;
        let mut out = Vec::new();
        let sub = depth.saturating_sub(1);
        for f in fields {
            match &f.mode {
                Mode::Child { name, dec, opt, def } => {
                    if !(*opt || def.is_some()) || depth > 0 && self.r.one_in(2) {
                        out.push(self.node(dec, Some(name), sub));
                    }
                }
                Mode::Flag { name } => {
                    if self.r.one_in(2) {
                        let mut n = GNode::new(name);
                        if self.r.one_in(6) {
                            n.children = Some(vec![]);
                        }
                        out.push(n);
                    }
                }
                Mode::Multi { name, dec, .. } if depth > 0 => {
                    for _ in 0..self.many() {
                        out.push(self.node(dec, Some(name), sub));
                    }
                }
                Mode::Rest { dec } if depth > 0 => {
                    for _ in 0..self.many() {
                        out.push(self.node(dec, None, sub));
                    }
                }
                Mode::Flat { ty, child: true, .. } => {
                    let Def::Struct(inner) = &defs[ty] else { panic!("harness: part") };
                    out.extend(self.kids(inner, depth));
                }
                _ => {}
            }
        }
        self.r.shuffle(&mut out);
        out
    }
}

/// Names that mean something for the type
pub fn names(defs: &HashMap<&'static str, Def>, ty: &'static str) -> Vec<String> {
    let mut seen = Vec::new();
    let odd = ["foo", "é", "x y", "", "node", "_", "_x", "__note", "-", "-x", "--", "$schema", "#c", "@a", "true", "null", "x.y", "x:y", "*", "12", "version", "comment", "\u{0}", "FOO"];
    let mut out: Vec<String> = odd.iter().map(|x| x.to_string()).collect();
    fn field(f: &Field, out: &mut Vec<String>, todo: &mut Vec<&'static str>) {
        let mut dec = |d: &Dec, out: &mut Vec<String>| match d {
            Dec::Ty(t) => todo.push(t),
            Dec::Unwrap(f) => field(f, out, todo),
        };
        match &f.mode {
            Mode::Prop { key, .. } => out.push(key.to_string()),
            Mode::Child { name, dec: d, .. } | Mode::Multi { name, dec: d, .. } => { out.push(name.to_string()); dec(d, out) }
            Mode::Flag { name } => out.push(name.to_string()),
            Mode::Rest { dec: d } => dec(d, out),
            Mode::Flat { ty, .. } => todo.push(ty),
            _ => {}
        }
        out.push(f.name.to_string());
    }
    let mut todo = vec![ty];
    while let Some(t) = todo.pop() {
        if seen.contains(&t) {
            continue;
        }
        seen.push(t);
        match &defs[t] {
            Def::Struct(f) => f.iter().for_each(|f| field(f, &mut out, &mut todo)),
            Def::New(Dec::Ty(t), _) => todo.push(t),
            Def::New(..) => {}
            Def::Enum(v) => for (n, rust, k) in v {
                out.push(n.to_string());
                out.push(rust.to_string());
                match k {
                    VKind::Nested(Dec::Ty(t), _) => todo.push(t),
                    VKind::Tuple(f) => f.iter().for_each(|f| field(f, &mut out, &mut todo)),
                    _ => {}
                }
            },
        }
    }
    for i in 0..out.len() {
        if out[i].contains('-') {
            out.push(out[i].replace('-', "_"));
            out.push(out[i].replace('-', ""));
        }
    }
    out.push("hidden".into());
    out.push("skip-me".into());
    out.sort();
    out.dedup();
    out
}

/// Types a type consists of
pub fn closure(defs: &HashMap<&'static str, Def>, ty: &'static str) -> Vec<&'static str> {
    let mut seen = Vec::new();
    let mut todo = vec![ty];
    fn field(f: &Field, todo: &mut Vec<&'static str>) {
        match &f.mode {
            Mode::Child { dec, .. } | Mode::Multi { dec, .. } | Mode::Rest { dec } => match dec {
                Dec::Ty(t) => todo.push(t),
                Dec::Unwrap(f) => field(f, todo),
            },
            Mode::Flat { ty, .. } => todo.push(ty),
            _ => {}
        }
    }
    while let Some(t) = todo.pop() {
        if seen.contains(&t) {
            continue;
        }
        seen.push(t);
        match &defs[t] {
            Def::Struct(f) => f.iter().for_each(|f| field(f, &mut todo)),
            Def::New(Dec::Ty(t), _) => todo.push(t),
            Def::New(..) => {}
            Def::Enum(v) => for x in v {
                match &x.2 {
                    VKind::Nested(Dec::Ty(t), _) => todo.push(t),
                    VKind::Tuple(f) => f.iter().for_each(|f| field(f, &mut todo)),
                    _ => {}
                }
            },
        }
    }
    seen
}

pub fn count(nodes: &[GNode]) -> usize {
    nodes.iter().map(|n| 1 + n.children.as_ref().map_or(0, |c| count(c))).sum()
}

/// The i-th node in document order
pub fn nth<'x>(nodes: &'x mut [GNode], i: &mut usize) -> Option<&'x mut GNode> {
    for n in nodes {
        if *i == 0 {
            return Some(n);
        }
        *i -= 1;
        if let Some(c) = &mut n.children {
            if let Some(x) = nth(c, i) {
                return Some(x);
            }
        }
    }
    None
}

/// A string that differs in one character
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = if r.one_in(3) { c.len().saturating_sub(1 + r.below(4)) } else { r.below(c.len().max(1)) };
    match r.below(8) {
        _ if c.is_empty() => c.push(*r.pick(&[' ', '=', 'A', '\n'])),
        0 => { c.remove(i); }
        1 => c.insert(i, c[i]),
        2 => c.insert(r.below(c.len() + 1), *r.pick(&[' ', '=', '\n', '\r', '\t', '-', '_', '+', '/', '0', '\u{feff}'])),
        3 => c.push(*r.pick(&[' ', '=', '\n', '\0'])),
        4 | 5 => c[i] = char::from_u32(c[i] as u32 + 1).unwrap_or('x'),
        6 => c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
        _ => { let j = r.below(c.len()); c.swap(i, j); }
    }
    c.into_iter().collect()
}

/// Base64 in some variant: other alphabets, without or with too much padding, wrapped lines
fn other_base64(r: &mut Rng) -> String {
    let bytes: Vec<u8> = (0..r.below(12)).map(|_| if r.one_in(3) { r.u64() as u8 } else { *r.pick(&[0xff, 0xfb, 0xef, 0xbf]) }).collect();
    let mut t = b64(&bytes);
    match r.below(9) {
        0 | 1 => t = t.replace('+', "-").replace('/', "_"),
        2 => t = t.replace('+', ".").replace('/', ","),
        3 => t = t.trim_end_matches('=').to_string(),
        4 => t = t.trim_end_matches('=').replace('+', "-").replace('/', "_"),
        5 => t += *r.pick(&["=", "==", "===", "===="]),
        6 => {
            let at = r.below(t.len() + 1);
            t.insert_str(at, *r.pick(&["\n", "\r\n", " ", "\t", "=", "====", "\0", "-", "\u{feff}"]));
        }
        7 => t = t.to_lowercase(),
        _ => {
            // some other last symbol, which leaves bits over
            let pad = t.len() - t.trim_end_matches('=').len();
            t.truncate(t.len() - pad);
            t.pop();
            t.push(*r.pick(&['B', 'R', 'h', 'x', '/', '+', '9', 'A']));
            t += &"=".repeat(pad);
        }
    }
    t
}

fn wrong_value(r: &mut Rng, old: &GVal) -> GVal {
    if r.one_in(if old.ty.as_deref() == Some("base64") { 2 } else { 60 }) {
        return GVal::str(&other_base64(r)).typed("base64");
    }
    let mut v = match r.below(12) {
        // near miss of the value
        9..=11 => match old.lit.clone() {
            RLit::Str(x) => {
                let mut v = old.clone();
                v.lit = RLit::Str(near(r, &x));
                v.text = None;
                return v;
            }
            RLit::Int(_) => {
                let b = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
                let x = (1i128 << b) + *r.pick(&[-2, -1, 0, 1]);
                GVal::int(if r.one_in(2) { -x } else { x })
            }
            _ => gen_val(r),
        },
        0 => GVal::new(RLit::Null),
        1 => GVal::new(RLit::Bool(r.one_in(2))),
        2 => GVal::int([-129, 128, 256, -1, 32768, 65536, -32769, 1 << 31, 1 << 32, 1 << 63, 1 << 64, -(1 << 63) - 1][r.below(12)]),
        3 => GVal::str(r.pick(&["", "abc", "YWJj", "YWI=", "YWI", "YW J", "YQ=", "Y*==", "-_==", "DarkBlue", "dark_blue", "dark-blue ", "Red", "low", "type", "300", "1", "65536", "127.0.0.1", "too long for it"])),
        4 => { let s = old.lit.clone(); GVal::new(match s { RLit::Str(mut x) => { x.push('x'); RLit::Str(x) } RLit::Int(mut x) => { x.digits.push('1'); RLit::Int(x) } x => x }) }
        5 => { let (v, t) = gen_decimal(r); GVal { ty: None, lit: RLit::Dec(v), text: Some(t) } }
        _ => gen_val(r),
    };
    if r.one_in(2) {
        v.ty = old.ty.clone();
    }
    v
}

/// Some length that is beyond, or at, what code may take for granted
fn len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(12, 40),
        1 => r.range(40, 140),
        2 => { let k = r.range(5, 11); (1 << k) + r.below(3) - 1 }
        _ => r.range(200, 700),
    }
}

/// A long text: of one kind of character behind a few others, so that
/// each byte offset is within a character for some of them
fn long_text(r: &mut Rng) -> String {
    let n = len(r);
    let mut s: String = (0..r.below(5)).map(|_| *r.pick(&['a', '-', 'é', '漢', '1'])).collect();
    let c = *r.pick(&['é', '漢', '😀', 'a', '\u{301}', '\u{feff}', '\n', '"', '\\', '\0', '0', '=']);
    while s.len() < n {
        s.push(c);
    }
    s
}

/// A number with very many digits somewhere
fn long_number(r: &mut Rng) -> GVal {
    let mut digits = |r: &mut Rng| -> String {
        let n = len(r);
        match r.below(3) {
            0 => "0".repeat(n) + *r.pick(&["", "1"]),
            1 => "9".repeat(n),
            _ => (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        }
    };
    let neg = r.one_in(3);
    if r.one_in(3) {
        let d = digits(r);
        let radix = *r.pick(&[10, 16]);
        return GVal::new(RLit::Int(RInt { neg, radix, digits: d }));
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    let k = r.below(4);
    s += &if k == 0 { digits(r) } else { r.pick(&["0", "1", "12", "9007199254740993"]).to_string() };
    if k == 1 || r.one_in(2) {
        s.push('.');
        s += &if k == 1 { digits(r) } else { "5".into() };
    }
    if k > 1 || !s.contains('.') {
        s += r.pick(&["e", "E", "e+", "e-", "E-"]);
        s += &if k > 1 { digits(r) } else { r.pick(&["0", "308", "400", "19"]).to_string() };
    }
    GVal { ty: None, lit: RLit::Dec(s.clone()), text: Some(s) }
}

/// Puts something very long somewhere
fn extreme(r: &mut Rng, n: &mut GNode) -> &'static str {
    let k = n.entries.len();
    match r.below(6) {
        0 => {
            n.name = long_text(r);
            "very long name"
        }
        1 => {
            n.ty = Some(long_text(r));
            "very long type name"
        }
        2 => {
            n.entries.insert(r.below(k + 1), GEntry::Prop(long_text(r), GVal::int(1)));
            "very long property name"
        }
        w => {
            if k == 0 {
                n.entries.push(GEntry::Arg(GVal::int(1)));
            }
            let e = r.below(n.entries.len());
            let (GEntry::Arg(v) | GEntry::Prop(_, v)) = &mut n.entries[e];
            if w == 3 && r.one_in(2) {
                v.ty = Some(long_text(r));
                return "very long type name";
            }
            if !matches!(v.lit, RLit::Int(_) | RLit::Dec(_)) && r.one_in(2) {
                *v = GVal { lit: RLit::Str(long_text(r)), text: None, ..v.clone() };
                return "very long string";
            }
            *v = GVal { ty: v.ty.take(), ..long_number(r) };
            "very long number"
        }
    }
}

/// Very many surplus elements of one kind
fn crowd(r: &mut Rng, n: &mut GNode, names: &[String]) -> &'static str {
    let many = r.range(8, 100);
    match r.below(3) {
        0 => {
            let v = gen_val(r);
            n.entries.extend((0..many).map(|_| GEntry::Arg(v.clone())));
            "very many arguments"
        }
        1 => {
            let v = gen_val(r);
            n.entries.extend((0..many).map(|i| GEntry::Prop(format!("{}{}", r.pick(names), i), v.clone())));
            "very many properties"
        }
        _ => {
            let name = r.pick(names).clone();
            n.children.get_or_insert_with(Vec::new).extend((0..many).map(|i| GNode::new(&if i % 2 == 0 { name.clone() } else { format!("{}{}", name, i) })));
            "very many children"
        }
    }
}

const TYPES: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64", "foo", "bool", "str", "String", "", "é"];

/// One random change
pub fn change(r: &mut Rng, doc: &mut Vec<GNode>, names: &[String]) -> &'static str {
    for _ in 0..20 {
        let total = count(doc);
        if total == 0 || r.one_in(25) {
            doc.insert(r.below(doc.len() + 1), GNode::new(r.pick(names)));
            return "node added";
        }
        let mut i = r.below(total);
        let n = nth(doc, &mut i).unwrap();
        let vals: Vec<usize> = (0..n.entries.len()).collect();
        if r.one_in(25) {
            return extreme(r, n);
        }
        if r.one_in(40) {
            return crowd(r, n, names);
        }
        match r.below(18) {
            0..=3 if !vals.is_empty() => {
                let e = r.below(n.entries.len());
                let (GEntry::Arg(v) | GEntry::Prop(_, v)) = &mut n.entries[e];
                *v = wrong_value(r, v);
                return "value changed";
            }
            4 | 5 if !vals.is_empty() => {
                let e = r.below(n.entries.len());
                let (GEntry::Arg(v) | GEntry::Prop(_, v)) = &mut n.entries[e];
                v.ty = Some(r.pick(TYPES).to_string());
                return "type of value changed";
            }
            6 | 7 if !vals.is_empty() => {
                let e = r.below(n.entries.len());
                n.entries.remove(e);
                return "entry removed";
            }
            8 => {
                let v = gen_val(r);
                let at = if r.one_in(2) { n.entries.len() } else { r.below(n.entries.len() + 1) };
                n.entries.insert(at, GEntry::Arg(v));
                return "argument added";
            }
            9 => {
                let v = gen_val(r);
                let at = r.below(n.entries.len() + 1);
                n.entries.insert(at, GEntry::Prop(r.pick(names).clone(), v));
                return "property added";
            }
            10 if !vals.is_empty() => {
                let e = r.below(n.entries.len());
                if let GEntry::Prop(k, _) = &mut n.entries[e] {
                    *k = r.pick(names).clone();
                    return "property renamed";
                }
            }
            11 => {
                n.name = r.pick(names).clone();
                return "node renamed";
            }
            12 => {
                n.ty = match &n.ty {
                    Some(_) if r.one_in(2) => None,
                    _ => Some(if r.one_in(2) { r.pick(TYPES).to_string() } else { r.pick(names).clone() }),
                };
                return "type of node changed";
            }
            13 => {
                if let Some(c) = &mut n.children {
                    if !c.is_empty() {
                        let x = c[r.below(c.len())].clone();
                        c.insert(r.below(c.len() + 1), x);
                        return "child repeated";
                    }
                }
            }
            14 => {
                if let Some(c) = &mut n.children {
                    if !c.is_empty() {
                        c.remove(r.below(c.len()));
                        return "child removed";
                    }
                }
            }
            15 | 16 => {
                let mut x = GNode::new(r.pick(names));
                if r.one_in(3) {
                    x = gen_node(r, &Size { nodes: 1, entries: 2, depth: 1 }, names);
                    if r.one_in(2) {
                        x.name = r.pick(names).clone();
                    }
                }
                let c = n.children.get_or_insert_with(Vec::new);
                c.insert(r.below(c.len() + 1), x);
                return "child added";
            }
            _ => {
                n.children = match n.children.take() {
                    None => Some(vec![]),
                    Some(_) => None,
                };
                return "block added or removed";
            }
        }
    }
    "nothing"
}

/// All documents with one more element
pub fn surplus(doc: &[GNode], names: &[String], r: &mut Rng) -> Vec<(&'static str, Vec<GNode>)> {
    let mut out = Vec::new();
    for k in 0..count(doc) {
        let mut with = |what, f: &mut dyn FnMut(&mut GNode)| {
            let mut d = doc.to_vec();
            let mut i = k;
            let n = nth(&mut d, &mut i).unwrap();
            let before = n.clone();
            f(n);
            if *n != before {
                out.push((what, d));
            }
        };
        let v = gen_val(r);
        with("last argument", &mut |n| n.entries.push(GEntry::Arg(v.clone())));
        with("first argument", &mut |n| n.entries.insert(0, GEntry::Arg(GVal::str("surplus"))));
        let name = r.pick(names).clone();
        with("property", &mut |n| n.entries.push(GEntry::Prop("surplus".into(), v.clone())));
        with("property with some name", &mut |n| {
            if !n.entries.iter().any(|e| matches!(e, GEntry::Prop(k, _) if *k == name)) {
                n.entries.push(GEntry::Prop(name.clone(), v.clone()))
            }
        });
        with("last child", &mut |n| n.children.get_or_insert_with(Vec::new).push(GNode::new("surplus")));
        let x = gen_node(r, &Size { nodes: 1, entries: 2, depth: 1 }, names);
        with("first child", &mut |n| n.children.get_or_insert_with(Vec::new).insert(0, x.clone()));
        with("child with some name", &mut |n| n.children.get_or_insert_with(Vec::new).push(GNode::new(&name)));
        with("type name of node", &mut |n| if n.ty.is_none() { n.ty = Some("surplus".into()) });
        let t = r.pick(TYPES).to_string();
        with("type name of node", &mut |n| if n.ty.is_none() { n.ty = Some(t.clone()) });
        let mut i = k;
        let mut d = doc.to_vec();
        let n = nth(&mut d, &mut i).unwrap().clone();
        for e in 0..n.entries.len() {
            let t = r.pick(TYPES).to_string();
            for t in ["surplus", &t] {
                let mut d = doc.to_vec();
                let mut i = k;
                let m = nth(&mut d, &mut i).unwrap();
                let (GEntry::Arg(v) | GEntry::Prop(_, v)) = &mut m.entries[e];
                if v.ty.is_none() {
                    v.ty = Some(t.into());
                    out.push(("type name of value", d));
                }
            }
        }
        if let Some(c) = &n.children {
            for j in 0..c.len() {
                let mut d = doc.to_vec();
                let mut i = k;
                let m = nth(&mut d, &mut i).unwrap().children.as_mut().unwrap();
                let x = m[j].clone();
                m.insert(r.below(m.len() + 1), x);
                out.push(("repeated child", d));
            }
        }
    }
    out
}
