//! Schema of derived types and a reference decoder that interprets it.
//! It doesn't stop at the first error: it returns all faults of a document.
use std::collections::HashMap;
use refmodel::kdl::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i128),
    F64(u64),
    F32(u32),
    Str(String),
    Bool(bool),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
    Rec(String, Vec<(String, Val)>),
    Var(String, Vec<Val>),
    Bytes(Vec<u8>),
    Lit(Box<Val>),
    Dec(String),
    /// byte range and (for line spans) lines and columns of both ends
    Sp(usize, usize, Option<[usize; 4]>),
    Spanned(Box<Val>, Box<Val>),
}

pub fn s(x: &str) -> Val {
    Val::Str(x.into())
}
pub fn some(x: Val) -> Val {
    Val::Some(Box::new(x))
}

/// Types used with FromStr
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fs { Str, U16, Addr, Even, Char }

#[derive(Clone, Debug)]
pub enum Sc {
    Int(&'static str),
    F64,
    F32,
    /// name of the type used in messages
    Str(&'static str),
    Bool,
    Enum(&'static str, &'static [(&'static str, &'static str)]),
    FromStr(Fs),
    /// true if over 8 bytes are rejected by the conversion
    Bytes(bool),
    Lit,
    Opt(Box<Sc>),
    Spanned(Box<Sc>, SpanTy),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SpanTy { Byte, Native }

#[derive(Clone, Debug)]
pub struct Field {
    /// name for messages and dumps
    pub name: &'static str,
    pub indexed: bool,
    pub mode: Mode,
}

#[derive(Clone, Debug)]
pub enum Mode {
    Arg { sc: Sc, opt: bool, def: Option<Val> },
    Args { sc: Sc, set: bool },
    Prop { key: &'static str, sc: Sc, opt: bool, def: Option<Val> },
    Props { sc: Sc, key: Fs },
    Child { name: &'static str, dec: Dec, opt: bool, def: Option<Val> },
    Flag { name: &'static str },
    Multi { name: &'static str, dec: Dec, opt: bool, def: Option<Val> },
    Rest { dec: Dec },
    Flat { ty: &'static str, child: bool, prop: bool },
    Span(SpanTy),
    NodeName(Fs),
    TypeName(Fs, bool),
    Skip(Val),
}

#[derive(Clone, Debug)]
pub enum Dec {
    Ty(&'static str),
    Unwrap(Box<Field>),
}

#[derive(Clone, Debug)]
pub enum Def {
    Struct(Vec<Field>),
    New(Dec, bool),
    /// node name, name in dumps, kind
    Enum(Vec<(&'static str, &'static str, VKind)>),
}

#[derive(Clone, Debug)]
pub enum VKind {
    Unit,
    Nested(Dec, bool),
    Tuple(Vec<Field>),
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// None: any text
    pub msg: Option<String>,
    /// possible places; empty: no label
    pub spans: Vec<Sp>,
    pub label: String,
    /// decoding of the node may stop here
    pub hard: bool,
    /// may be absent: whether it is noticed depends on another fault
    pub maybe: bool,
}

pub struct Ctx<'a> {
    pub defs: &'a HashMap<&'static str, Def>,
    pub faults: Vec<Fault>,
    pub idx: Option<&'a LineIndex>,
    pub covered: Vec<&'static str>,
}

pub fn kind(l: &RLit) -> &'static str {
    match l {
        RLit::Null => "null",
        RLit::Bool(_) => "boolean",
        RLit::Int(_) => "integer",
        RLit::Dec(_) => "decimal",
        RLit::Str(_) => "string",
    }
}

/// Ok(value) or message of the standard library
fn int(t: &str, v: &RInt) -> Result<Val, String> {
    let text = format!("{}{}", if v.neg { "-" } else { "" }, v.digits);
    macro_rules! go {
        ($($n:ident)*) => { match t {
            $(stringify!($n) => $n::from_str_radix(&text, v.radix).map(|x| Val::Int(x as i128)).map_err(|e| e.to_string()),)*
            _ => panic!("harness: type {}", t),
        } }
    }
    go!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize)
}

pub fn from_str(fs: Fs, x: &str) -> Result<Val, String> {
    match fs {
        Fs::Str => Ok(s(x)),
        Fs::U16 => x.parse::<u16>().map(|v| Val::Int(v as i128)).map_err(|e| e.to_string()),
        Fs::Addr => x.parse::<std::net::SocketAddr>().map(|v| s(&v.to_string())).map_err(|e| e.to_string()),
        Fs::Char => x.parse::<char>().map(|v| s(&v.to_string())).map_err(|e| e.to_string()),
        Fs::Even => x.parse::<crate::custom::Even>().map(|v| s(&v.0)).map_err(|e| e.to_string()),
    }
}

fn base64(x: &str) -> Option<Vec<u8>> {
    // standard alphabet, canonical padding
    let b = x.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let val = |c: u8| Some(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        b'/' => 63,
        _ => return None,
    } as u32);
    let mut res = Vec::new();
    for (i, q) in b.chunks(4).enumerate() {
        let last = i == b.len() / 4 - 1;
        let pad = if last { q.iter().rev().take_while(|&&c| c == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut n = 0;
        for k in 0..4 {
            n = n << 6 | if k < 4 - pad { val(q[k])? } else { 0 };
        }
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if bytes[3 - pad..].iter().any(|&x| x != 0) {
            return None;
        }
        res.extend(&bytes[..3 - pad]);
    }
    Some(res)
}

impl<'a> Ctx<'a> {
    fn fault(&mut self, msg: impl Into<String>, spans: &[Sp], label: &str, hard: bool) {
        self.faults.push(Fault { msg: Some(msg.into()), spans: spans.to_vec(), label: label.into(), hard, maybe: false });
    }
    fn conversion(&mut self, msg: Option<String>, spans: &[Sp], hard: bool) {
        self.faults.push(Fault { msg, spans: spans.to_vec(), label: "invalid value".into(), hard, maybe: false });
    }
    fn unexpected(&mut self, what: &str, msg: String, spans: &[Sp], hard: bool) {
        self.fault(msg, spans, &format!("unexpected {}", what), hard);
    }
    fn scalar_kind(&mut self, exp: &str, v: &RVal, hard: bool) {
        self.fault(format!("expected {} scalar, found {}", exp, kind(&v.lit)), &[v.span], &format!("unexpected {}", kind(&v.lit)), hard);
    }
    fn type_name(&mut self, exp: &str, rust: &str, v: &RVal) {
        if let Some(t) = &v.ty {
            if t.text != exp || exp.is_empty() {
                let e = if exp.is_empty() { "no type".to_string() } else { format!("{} or no type", exp) };
                self.fault(format!("{} for {}, found {}", e, rust, t.text), &[t.span], "unexpected type name", false);
            }
        }
    }
    fn cover(&mut self, w: &'static str) {
        self.covered.push(w);
    }

    pub fn span(&self, ty: SpanTy, sp: Sp) -> Val {
        let lines = match (ty, self.idx) {
            (SpanTy::Native, Some(i)) => {
                let (a, b) = (i.get(sp.0).unwrap(), i.get(sp.1).unwrap());
                Some([a.0, a.1, b.0, b.1])
            }
            _ => None,
        };
        Val::Sp(sp.0, sp.1, lines)
    }

    fn check_type(&mut self, sc: &Sc, v: &RVal) {
        match sc {
            Sc::Int(t) => self.type_name(t, t, v),
            Sc::F64 => self.type_name("f64", "f64", v),
            Sc::F32 => self.type_name("f32", "f32", v),
            Sc::Str(t) => self.type_name("", t, v),
            Sc::Bool => self.type_name("", "bool", v),
            Sc::Enum(n, _) => self.type_name("", n, v),
            Sc::FromStr(_) => self.type_name("", "str", v),
            Sc::Bytes(_) => self.type_name("base64", "bytes", v),
            Sc::Lit => {}
            Sc::Opt(i) | Sc::Spanned(i, _) => self.check_type(i, v),
        }
    }

    /// `opt`: the field is optional (modes str and bytes)
    pub fn scalar(&mut self, sc: &Sc, v: &RVal, opt: bool) -> Val {
        if opt {
            if v.lit == RLit::Null {
                self.check_type(sc, v);
                self.cover("null of an optional value");
                return Val::None;
            }
            return some(self.scalar_in(sc, v, true));
        }
        self.scalar_in(sc, v, false)
    }
    fn scalar_in(&mut self, sc: &Sc, v: &RVal, opt: bool) -> Val {
        match sc {
            Sc::Opt(i) => return self.scalar(i, v, true),
            Sc::Spanned(i, t) => {
                let x = self.scalar_in(i, v, opt);
                return Val::Spanned(Box::new(self.span(*t, v.span)), Box::new(x));
            }
            Sc::Bytes(_) => {
                let before = self.faults.len();
                self.check_type(sc, v);
                if self.faults.len() > before {
                    return Val::None;
                }
            }
            _ => self.check_type(sc, v),
        }
        match (sc, &v.lit) {
            (Sc::Int(t), RLit::Int(i)) => match int(t, i) {
                Ok(v) => v,
                Err(m) => { self.conversion(Some(m), &[v.span], false); Val::None }
            },
            (Sc::Int(_), _) => { self.scalar_kind("integer", v, false); Val::None }
            (Sc::F64, RLit::Dec(t)) => Val::F64(t.parse::<f64>().unwrap().to_bits()),
            (Sc::F32, RLit::Dec(t)) => Val::F32(t.parse::<f32>().unwrap().to_bits()),
            (Sc::F64 | Sc::F32, _) => { self.scalar_kind("decimal", v, false); Val::None }
            (Sc::Str(_), RLit::Str(t)) => s(t),
            (Sc::Str(_), _) => { self.scalar_kind("string", v, false); Val::None }
            (Sc::Bool, RLit::Bool(b)) => Val::Bool(*b),
            (Sc::Bool, _) => { self.scalar_kind("boolean", v, false); Val::None }
            (Sc::Enum(_, vars), RLit::Str(t)) => match vars.iter().find(|x| x.0 == t) {
                Some(x) => Val::Var(x.1.into(), vec![]),
                None => {
                    let names: Vec<&str> = vars.iter().map(|x| x.0).collect();
                    self.conversion(Some(expected_one_of(&names)), &[v.span], true);
                    Val::None
                }
            },
            (Sc::Enum(..), _) => { self.scalar_kind("string", v, true); Val::None }
            (Sc::FromStr(f), RLit::Str(t)) => match from_str(*f, t) {
                Ok(v) => v,
                Err(m) => { self.conversion(Some(m), &[v.span], true); Val::None }
            },
            (Sc::FromStr(_), _) => { self.scalar_kind("string", v, !opt); Val::None }
            (Sc::Bytes(short), RLit::Str(t)) => {
                let b = if v.ty.is_some() {
                    match base64(t) {
                        Some(b) => b,
                        None => { self.conversion(None, &[v.span], false); return Val::None }
                    }
                } else {
                    t.as_bytes().to_vec()
                };
                if *short && b.len() > 8 {
                    self.conversion(Some("too long".into()), &[v.span], !opt);
                }
                Val::Bytes(b)
            }
            (Sc::Bytes(_), _) => { self.scalar_kind("string", v, false); Val::None }
            (Sc::Lit, l) => Val::Lit(Box::new(match l {
                RLit::Null => Val::None,
                RLit::Bool(b) => Val::Bool(*b),
                RLit::Int(i) => i.value().map_or(Val::None, Val::Int),
                RLit::Dec(d) => Val::F64(d.parse::<f64>().unwrap().to_bits()),
                RLit::Str(x) => s(x),
            })),
            _ => unreachable!(),
        }
    }

    pub fn node(&mut self, dec: &Dec, n: &RNode) -> Val {
        match dec {
            Dec::Unwrap(f) => {
                let mut v = self.fields(std::slice::from_ref(&**f), n);
                v.pop().unwrap().1
            }
            Dec::Ty(t) => {
                let defs = self.defs;
                match defs.get(t).unwrap_or_else(|| panic!("harness: type {}", t)) {
                    Def::Struct(f) => Val::Rec(t.to_string(), self.fields(f, n)),
                    Def::New(d, opt) => Val::Rec(t.to_string(), vec![("0".into(), self.nested(d, *opt, n))]),
                    Def::Enum(vars) => self.variant(vars, n),
                }
            }
        }
    }

    fn nested(&mut self, d: &Dec, opt: bool, n: &RNode) -> Val {
        if !opt {
            return self.node(d, n);
        }
        if n.args.is_empty() && n.props.is_empty() && n.ty.is_none() && n.children.is_none() {
            self.cover("optional content absent");
            Val::None
        } else {
            some(self.node(d, n))
        }
    }

    fn variant(&mut self, vars: &[(&'static str, &'static str, VKind)], n: &RNode) -> Val {
        for (name, rust, k) in vars {
            if *name == n.name.text {
                return match k {
                    VKind::Unit => { self.flag(n); Val::Var(rust.to_string(), vec![]) }
                    VKind::Nested(d, opt) => { let x = self.nested(d, *opt, n); Val::Var(rust.to_string(), vec![x]) }
                    VKind::Tuple(f) => { let x = self.fields(f, n); Val::Var(rust.to_string(), x.into_iter().map(|x| x.1).collect()) }
                };
            }
        }
        self.cover("unknown variant");
        let names: Vec<&str> = vars.iter().map(|x| x.0).collect();
        self.conversion(Some(expected_one_of(&names)), &[n.name.span], true);
        Val::None
    }

    /// No arguments, properties and children are expected
    fn flag(&mut self, n: &RNode) {
        if let Some(t) = &n.ty {
            self.unexpected("type name", "no type name expected for this node".into(), &[t.span], false);
        }
        for a in &n.args {
            self.unexpected("argument", "unexpected argument".into(), &[a.span], false);
        }
        for (k, p) in &n.props {
            self.unexpected("property", format!("unexpected property `{}`", k.escape_default()), &p.keys, false);
        }
        for c in kids(n) {
            self.unexpected("node", format!("unexpected node `{}`", c.name.text.escape_default()), &[c.span], false);
        }
    }

    fn fields(&mut self, fields: &[Field], n: &RNode) -> Vec<(String, Val)> {
        let mut out: Vec<Option<Val>> = vec![None; fields.len()];
        // names
        let mut typed = false;
        for (i, f) in fields.iter().enumerate() {
            match &f.mode {
                Mode::Span(t) => out[i] = Some(self.span(*t, n.span)),
                Mode::NodeName(fs) => out[i] = Some(match from_str(*fs, &n.name.text) {
                    Ok(v) => v,
                    Err(m) => { self.conversion(Some(m), &[n.name.span], true); Val::None }
                }),
                Mode::TypeName(fs, opt) => {
                    typed = true;
                    out[i] = Some(match &n.ty {
                        None if *opt => Val::None,
                        None => { self.fault("type name required", &[n.name.span], "node starts here", true); Val::None }
                        Some(t) => match from_str(*fs, &t.text) {
                            Ok(v) if *opt => some(v),
                            Ok(v) => v,
                            Err(m) => { self.conversion(Some(m), &[t.span], true); Val::None }
                        },
                    });
                }
                Mode::Skip(v) => out[i] = Some(v.clone()),
                _ => {}
            }
        }
        if let (false, Some(t)) = (typed, &n.ty) {
            self.unexpected("type name", "no type name expected for this node".into(), &[t.span], false);
        }
        // arguments
        let mut args = n.args.iter();
        let mut rest = false;
        for (i, f) in fields.iter().enumerate() {
            match &f.mode {
                Mode::Arg { sc, opt, def } => out[i] = Some(match (args.next(), def) {
                    (Some(v), _) => self.scalar(sc, v, *opt),
                    (None, Some(d)) => { self.cover("default of an argument"); d.clone() }
                    (None, None) if *opt => Val::None,
                    (None, None) => {
                        let m = if f.indexed { "additional argument is required".into() } else { format!("additional argument `{}` is required", f.name) };
                        self.fault(m, &[n.name.span], "node starts here", true);
                        if f.name.is_empty() {
                            // unwrapped field of a tuple: has no name of its own
                            self.faults.last_mut().unwrap().msg = None;
                        }
                        Val::None
                    }
                }),
                Mode::Args { sc, set } => {
                    rest = true;
                    let mut l: Vec<Val> = args.by_ref().map(|v| self.scalar(sc, v, false)).collect();
                    if *set {
                        l.sort_by_key(|v| if let Val::Int(i) = v { *i } else { 0 });
                        l.dedup();
                    }
                    out[i] = Some(Val::List(l));
                }
                _ => {}
            }
        }
        if !rest {
            for v in args {
                self.unexpected("argument", "unexpected argument".into(), &[v.span], true);
            }
        }
        // properties
        let flat: Vec<(Vec<usize>, Field)> = self.flat(fields, false);
        let mut pvals: HashMap<Vec<usize>, Val> = HashMap::new();
        let mut map = Vec::new();
        for (k, p) in &n.props {
            let hit = flat.iter().find(|(_, f)| matches!(&f.mode, Mode::Prop { key, .. } if key == k));
            if let Some((path, f)) = hit {
                if let Mode::Prop { sc, opt, .. } = &f.mode {
                    if path.len() > 1 {
                        self.cover("property of a flattened part");
                    }
                    let v = self.scalar(sc, &p.val, *opt);
                    pvals.insert(path.clone(), v);
                }
            } else if let Some(Mode::Props { sc, key }) = fields.iter().map(|f| &f.mode).find(|m| matches!(m, Mode::Props { .. })) {
                let kv = match from_str(*key, k) {
                    Ok(v) => v,
                    Err(m) => { self.conversion(Some(m), &p.keys, true); Val::None }
                };
                let v = self.scalar(sc, &p.val, false);
                let kt = match kv {
                    Val::Str(x) => x,
                    Val::Int(i) => i.to_string(),
                    _ => String::new(),
                };
                map.push((kt, v));
            } else {
                self.unexpected("property", format!("unexpected property `{}`", k.escape_default()), &p.keys, true);
            }
        }
        for (path, f) in &flat {
            if let Mode::Prop { key, opt, def, .. } = &f.mode {
                if !pvals.contains_key(path) {
                    let v = match def {
                        Some(d) if path.len() == 1 => { self.cover("default of a property"); d.clone() }
                        _ if *opt => Val::None,
                        _ => {
                            self.fault(format!("property `{}` is required", key), &[n.name.span], "node starts here", true);
                            Val::None
                        }
                    };
                    pvals.insert(path.clone(), v);
                }
            }
        }
        for (i, f) in fields.iter().enumerate() {
            match &f.mode {
                Mode::Prop { .. } => out[i] = pvals.get(&vec![i]).cloned(),
                Mode::Props { .. } => {
                    map.sort_by(|a, b| a.0.cmp(&b.0));
                    out[i] = Some(Val::Map(map.clone()));
                }
                _ => {}
            }
        }
        let mut cv = self.children(fields, kids(n), Some(n.span));
        for (i, f) in fields.iter().enumerate() {
            match &f.mode {
                Mode::Child { .. } | Mode::Flag { .. } | Mode::Multi { .. } | Mode::Rest { .. } => out[i] = cv.remove(&vec![i]),
                Mode::Flat { ty, .. } => {
                    let mut all = cv.clone();
                    all.extend(pvals.clone());
                    out[i] = Some(self.part(ty, &vec![i], &all));
                }
                _ => {}
            }
        }
        fields.iter().zip(out).map(|(f, v)| (f.name.to_string(), v.expect("harness: field"))).collect()
    }

    fn part(&self, ty: &str, path: &[usize], vals: &HashMap<Vec<usize>, Val>) -> Val {
        let Some(Def::Struct(fields)) = self.defs.get(ty) else { panic!("harness: part {}", ty) };
        Val::Rec(ty.to_string(), fields.iter().enumerate().map(|(i, f)| {
            let mut p = path.to_vec();
            p.push(i);
            let v = match &f.mode {
                Mode::Flat { ty, .. } => self.part(ty, &p, vals),
                Mode::Skip(v) => v.clone(),
                Mode::Flag { .. } => vals.get(&p).cloned().unwrap_or(Val::Bool(false)),
                _ => vals.get(&p).cloned().unwrap_or(Val::None),
            };
            (f.name.to_string(), v)
        }).collect())
    }

    /// Leaf fields with those of flattened parts
    fn flat(&self, fields: &[Field], child: bool) -> Vec<(Vec<usize>, Field)> {
        let mut res = Vec::new();
        for (i, f) in fields.iter().enumerate() {
            match &f.mode {
                Mode::Flat { ty, child: c, prop: p } => {
                    if child && *c || !child && *p {
                        let Some(Def::Struct(inner)) = self.defs.get(ty) else { panic!("harness: part {}", ty) };
                        for (mut path, f) in self.flat(inner, child) {
                            path.insert(0, i);
                            res.push((path, f));
                        }
                    }
                }
                _ => res.push((vec![i], f.clone())),
            }
        }
        res
    }

    /// Children of a node, or nodes of the document if there is no span
    pub fn children(&mut self, fields: &[Field], nodes: &[RNode], outer: Option<Sp>) -> HashMap<Vec<usize>, Val> {
        let flat = self.flat(fields, true);
        let mut vals: HashMap<Vec<usize>, Val> = HashMap::new();
        let mut multi: HashMap<Vec<usize>, Vec<Val>> = HashMap::new();
        for c in nodes {
            let name = &c.name.text;
            let hit = flat.iter().find(|(_, f)| match &f.mode {
                Mode::Child { name: m, .. } | Mode::Flag { name: m } | Mode::Multi { name: m, .. } => m == name,
                _ => false,
            });
            let dup = format!("duplicate node `{}`, single node expected", name.escape_default());
            match hit {
                Some((path, f)) => {
                    if path.len() > 1 {
                        self.cover("child of a flattened part");
                    }
                    match &f.mode {
                        Mode::Child { dec, opt, .. } => {
                            if vals.contains_key(path) {
                                self.cover("duplicate child");
                                // what's inside of the duplicate may be not looked at
                                self.unexpected("node", dup, &[c.name.span], path.len() == 1);
                                let at = self.faults.len();
                                self.node(dec, c);
                                for f in &mut self.faults[at..] {
                                    f.maybe = true;
                                }
                            } else {
                                let v = self.node(dec, c);
                                vals.insert(path.clone(), if *opt { some(v) } else { v });
                            }
                        }
                        Mode::Flag { .. } => {
                            self.flag(c);
                            if vals.contains_key(path) {
                                self.cover("duplicate flag");
                                self.unexpected("node", dup, &[c.name.span], false);
                            }
                            vals.insert(path.clone(), Val::Bool(true));
                        }
                        Mode::Multi { dec, .. } => {
                            let v = self.node(dec, c);
                            multi.entry(path.clone()).or_default().push(v);
                        }
                        _ => unreachable!(),
                    }
                }
                None => match fields.iter().position(|f| matches!(f.mode, Mode::Rest { .. })) {
                    Some(i) => {
                        let Mode::Rest { dec } = &fields[i].mode else { unreachable!() };
                        let v = self.node(dec, c);
                        multi.entry(vec![i]).or_default().push(v);
                    }
                    None => {
                        self.cover("unexpected child");
                        self.unexpected("node", format!("unexpected node `{}`", name.escape_default()), &[c.span], false);
                    }
                },
            }
        }
        for (path, f) in &flat {
            match &f.mode {
                Mode::Child { name, opt, def, .. } if !vals.contains_key(path) => {
                    let v = match def {
                        Some(d) if path.len() == 1 => { self.cover("default of a child"); d.clone() }
                        _ if *opt => Val::None,
                        _ => {
                            let m = format!("child node `{}` is required", name);
                            match outer {
                                Some(sp) => self.fault(m, &[sp], "node starts here", true),
                                None => self.fault(m, &[], "", true),
                            }
                            Val::None
                        }
                    };
                    vals.insert(path.clone(), v);
                }
                Mode::Flag { .. } => {
                    vals.entry(path.clone()).or_insert(Val::Bool(false));
                }
                Mode::Multi { opt, def, .. } => {
                    let l = multi.remove(path).unwrap_or_default();
                    let v = match def {
                        Some(d) if l.is_empty() => d.clone(),
                        _ if *opt && l.is_empty() => Val::None,
                        _ if *opt => some(Val::List(l)),
                        _ => Val::List(l),
                    };
                    vals.insert(path.clone(), v);
                }
                Mode::Rest { .. } if path.len() == 1 => {
                    let l = multi.remove(path).unwrap_or_default();
                    vals.insert(path.clone(), Val::List(l));
                }
                _ => {}
            }
        }
        vals
    }

    /// The struct as the whole document
    pub fn document(&mut self, ty: &'static str, nodes: &[RNode]) -> Val {
        let defs = self.defs;
        let Some(Def::Struct(fields)) = defs.get(ty) else { panic!("harness: document {}", ty) };
        let cv = self.children(fields, nodes, None);
        Val::Rec(ty.to_string(), fields.iter().enumerate().map(|(i, f)| (f.name.to_string(), match &f.mode {
            Mode::Flat { ty, .. } => self.part(ty, &[i], &cv),
            Mode::Skip(v) => v.clone(),
            _ => cv[&vec![i]].clone(),
        })).collect())
    }
}

pub fn kids(n: &RNode) -> &[RNode] {
    n.children.as_ref().map_or(&[], |c| &c.1)
}

fn expected_one_of(names: &[&str]) -> String {
    if names.len() <= 3 {
        format!("expected one of {}", names.iter().map(|n| format!("`{}`", n)).collect::<Vec<_>>().join(", "))
    } else {
        format!("expected `{}`, `{}`, or one of {} others", names[0], names[1], names.len() - 2)
    }
}
