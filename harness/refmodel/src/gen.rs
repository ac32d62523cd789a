//! Constructive generator of KDL 1.0 documents: builds a document model, then
//! writes it with random layout, recording the expected AST with spans.
use std::collections::BTreeMap;
use crate::kdl::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct GVal {
    pub ty: Option<String>,
    pub lit: RLit,
    /// preferred source text for numbers
    pub text: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum GEntry {
    Arg(GVal),
    Prop(String, GVal),
}

#[derive(Clone, Debug, PartialEq)]
pub struct GNode {
    pub ty: Option<String>,
    pub name: String,
    pub entries: Vec<GEntry>,
    pub children: Option<Vec<GNode>>,
}

impl GNode {
    pub fn new(name: &str) -> GNode {
        GNode { ty: None, name: name.into(), entries: Vec::new(), children: None }
    }
}

impl GVal {
    pub fn new(lit: RLit) -> GVal {
        GVal { ty: None, lit, text: None }
    }
    pub fn str(s: &str) -> GVal {
        GVal::new(RLit::Str(s.into()))
    }
    pub fn int(v: i128) -> GVal {
        let d = v.unsigned_abs().to_string();
        GVal::new(RLit::Int(RInt { neg: v < 0, radix: 10, digits: d }))
    }
    pub fn typed(mut self, t: &str) -> GVal {
        self.ty = Some(t.into());
        self
    }
}

pub const WS: &[char] = &[
    '\t', ' ', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}',
    '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200A}', '\u{202F}',
    '\u{205F}', '\u{3000}', '\u{FEFF}',
];
pub const NL: &[&str] = &["\n", "\r\n", "\r", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}"];

const PUNCT: &str = "!#$%&'*+-.:?@^_`|~";
const SPECIAL: &str = "\"\\/(){}<>;[]=,\t\n\r\u{c}\u{85}\u{2028}\u{2029}\u{a0}\u{1680}\u{2000}\u{200a}\u{202f}\u{205f}\u{3000}\u{feff}\0\u{1}\u{8}\u{b}\u{1b}\u{7f}\u{80}\u{9f}";
const MULTI: &str = "éßĀжאاกあ漢字한글ａ😀🎉𝒳\u{301}\u{200b}\u{200d}\u{ad}\u{e000}\u{fffd}\u{ffff}\u{10000}\u{10ffff}\u{7ff}\u{800}\u{d7ff}\u{200e}ﬀİ";

/// Arbitrary char, biased to interesting ones
pub fn any_char(r: &mut Rng) -> char {
    match r.below(20) {
        0..=8 => (b'a' + r.below(26) as u8) as char,
        9 => (b'A' + r.below(26) as u8) as char,
        10 | 11 => (b'0' + r.below(10) as u8) as char,
        12 => pick_char(r, PUNCT),
        13 | 14 => pick_char(r, SPECIAL),
        15 | 16 => pick_char(r, MULTI),
        17 => (0x20 + r.below(0x5f) as u8) as char,
        18 => loop {
            if let Some(c) = char::from_u32(r.below(0x3000) as u32) {
                return c;
            }
        },
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        },
    }
}

pub fn pick_char(r: &mut Rng, s: &str) -> char {
    let n = s.chars().count();
    s.chars().nth(r.below(n)).unwrap()
}

pub fn is_bare(s: &str) -> bool {
    if matches!(s, "true" | "false" | "null") {
        return false;
    }
    let mut it = s.chars();
    match it.next() {
        None => return false,
        Some('+' | '-') => {
            let rest = it.as_str();
            if rest.starts_with(|c: char| c.is_ascii_digit()) {
                return false;
            }
        }
        Some(c) if !is_ident_start(c) => return false,
        _ => {}
    }
    s.chars().all(is_ident)
}

pub fn gen_string(r: &mut Rng, max: usize) -> String {
    match r.below(40) {
        0 => return String::new(),
        1 => return ["true", "false", "null", "r", "r#", "-", "+", "--", "+-1", "-1", "1a", "#", "\"", "\\", "\"#", "\"##", "//", "/*", "*/", "/-", "\r\n", "u{41}", "\\u{41}", "\\n", " ", "_", "_1", "0x1", "e5", "r\"x\"", "\u{feff}x", "x\u{feff}"][r.below(32)].into(),
        _ => {}
    }
    let n = if r.one_in(60) { r.range(max, max * 8) } else if r.one_in(2000) { r.range(100, 3000) } else { r.range(1, max) };
    (0..n).map(|_| any_char(r)).collect()
}

pub fn gen_name(r: &mut Rng) -> String {
    if r.pct(70) {
        // bare identifier
        loop {
            let n = r.range(1, 8);
            let s: String = match r.below(12) {
                0 => ["true_", "falsey", "nullable", "null-x", "true1", "nul", "r", "r#x", "r##", "rr", "+", "-", "--", "-a", "+a", "-+1", "_", "a1", "!", "a!", "$", "'", "node", "x", "a.b", "é", "漢"][r.below(27)].into(),
                _ => (0..n).map(|_| any_char(r)).filter(|&c| is_ident(c)).collect(),
            };
            if is_bare(&s) {
                return s;
            }
        }
    }
    gen_string(r, 6)
}

pub fn write_int(r: &mut Rng, v: &RInt) -> String {
    let mut s = String::new();
    if v.neg {
        s.push('-');
    } else if r.one_in(6) {
        s.push('+');
    }
    match v.radix {
        16 => s.push_str("0x"),
        8 => s.push_str("0o"),
        2 => s.push_str("0b"),
        _ => {}
    }
    let under = r.one_in(4);
    for (i, c) in v.digits.chars().enumerate() {
        if i > 0 && under {
            while r.one_in(3) {
                s.push('_');
            }
        }
        if v.radix == 16 && r.one_in(2) {
            s.push(c.to_ascii_uppercase());
        } else {
            s.push(c);
        }
    }
    if under {
        while r.one_in(3) {
            s.push('_');
        }
    }
    s
}

pub fn to_radix(mut v: u128, radix: u32) -> String {
    if v == 0 {
        return "0".into();
    }
    let mut s = Vec::new();
    while v > 0 {
        s.push(char::from_digit((v % radix as u128) as u32, radix).unwrap());
        v /= radix as u128;
    }
    s.into_iter().rev().collect()
}

pub fn gen_int(r: &mut Rng) -> RInt {
    let radix = *r.pick(&[10, 10, 10, 16, 8, 2]);
    let bound: [u128; 12] = [0, 1, 0x7f, 0xff, 0x7fff, 0xffff, 0x7fff_ffff, 0xffff_ffff,
        0x7fff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff, 10, 1000];
    let v: u128 = match r.below(10) {
        0..=3 => r.below(1000) as u128,
        4..=6 => {
            let b = *r.pick(&bound);
            match r.below(3) {
                0 => b,
                1 => b + 1,
                _ => b.saturating_sub(1),
            }
        }
        7 => r.u64() as u128 >> r.below(64),
        8 => (1u128 << r.below(100)).wrapping_sub(r.below(2) as u128),
        _ => ((r.u64() as u128) << 60) ^ r.u64() as u128,
    };
    let neg = r.pct(30);
    let mut digits = to_radix(v, radix);
    if r.one_in(8) {
        digits = "0".repeat(r.range(1, 4)) + &digits;
    }
    if r.one_in(150) {
        digits = (0..r.range(40, 200)).map(|_| char::from_digit(r.below(radix as usize) as u32, radix).unwrap()).collect();
    }
    RInt { neg, radix, digits }
}

/// Returns (value text without underscores, source text)
pub fn gen_decimal(r: &mut Rng) -> (String, String) {
    let mut v = String::new();
    if r.pct(30) {
        v.push('-');
    } else if r.one_in(8) {
        v.push('+');
    }
    let num = |r: &mut Rng, max: usize| -> String {
        let n = r.range(1, max);
        (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
    };
    match r.below(12) {
        0 => v.push_str("0"),
        1 => v.push_str(&num(r, 40)),
        _ => v.push_str(&num(r, 6)),
    }
    let frac = r.pct(70);
    if frac {
        v.push('.');
        let m = if r.one_in(8) { 40 } else { 5 };
        v.push_str(&num(r, m));
    }
    if !frac || r.pct(40) {
        v.push(if r.one_in(2) { 'e' } else { 'E' });
        match r.below(3) {
            0 => v.push('-'),
            1 => v.push('+'),
            _ => {}
        }
        let m = if r.one_in(20) { 4 } else { 2 };
        v.push_str(&num(r, m));
    }
    let text = if r.one_in(4) {
        let mut t = String::new();
        for c in v.chars() {
            t.push(c);
            if c.is_ascii_digit() {
                while r.one_in(4) {
                    t.push('_');
                }
            }
        }
        t
    } else {
        v.clone()
    };
    (v, text)
}

pub fn gen_val(r: &mut Rng) -> GVal {
    let ty = if r.one_in(6) {
        Some(if r.one_in(2) {
            r.pick(&["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64", "U8", "u128", "str"]).to_string()
        } else {
            gen_name(r)
        })
    } else {
        None
    };
    let mut text = None;
    let lit = match r.below(12) {
        0 => RLit::Null,
        1 => RLit::Bool(r.one_in(2)),
        2..=5 => RLit::Int(gen_int(r)),
        6 | 7 => {
            let (v, t) = gen_decimal(r);
            text = Some(t);
            RLit::Dec(v)
        }
        _ => RLit::Str(gen_string(r, 10)),
    };
    GVal { ty, lit, text }
}

#[derive(Clone, Debug)]
pub struct Size {
    pub nodes: usize,
    pub entries: usize,
    pub depth: usize,
}

pub fn gen_node(r: &mut Rng, sz: &Size, names: &[String]) -> GNode {
    let name = |r: &mut Rng| if !names.is_empty() && r.pct(40) { r.pick(names).clone() } else { gen_name(r) };
    let mut n = GNode::new("");
    if r.one_in(6) {
        n.ty = Some(name(r));
    }
    n.name = name(r);
    let cnt = match r.below(4) {
        0 => 0,
        _ => r.below(sz.entries + 1),
    };
    for _ in 0..cnt {
        if r.pct(45) {
            // small pool of keys gives duplicates
            let k = if r.pct(40) { r.pick(&["a", "b", "a b", "é"]).to_string() } else { name(r) };
            n.entries.push(GEntry::Prop(k, gen_val(r)));
        } else {
            n.entries.push(GEntry::Arg(gen_val(r)));
        }
    }
    if sz.depth > 0 && r.pct(45) {
        let c = r.below(sz.nodes + 1);
        let sub = Size { depth: sz.depth - 1, nodes: sz.nodes.saturating_sub(1).max(1), ..sz.clone() };
        n.children = Some((0..c).map(|_| gen_node(r, &sub, names)).collect());
    } else if r.one_in(12) {
        n.children = Some(Vec::new());
    }
    n
}

pub fn gen_doc(r: &mut Rng, sz: &Size) -> Vec<GNode> {
    let names: Vec<String> = (0..3).map(|_| gen_name(r)).collect();
    let cnt = r.below(sz.nodes + 1);
    (0..cnt).map(|_| gen_node(r, sz, &names)).collect()
}

/// A mixture of sizes; mostly small documents
pub fn gen_doc_mixed(r: &mut Rng) -> Vec<GNode> {
    let sz = match r.below(40) {
        0 => Size { nodes: 12, entries: 8, depth: 3 },
        1 => Size { nodes: 2, entries: 40, depth: 1 },
        2 => Size { nodes: 2, entries: 2, depth: 12 },
        3..=12 => Size { nodes: 4, entries: 4, depth: 2 },
        _ => Size { nodes: 3, entries: 3, depth: 1 },
    };
    gen_doc(r, &sz)
}

/// How to lay out a document
#[derive(Clone, Debug)]
pub struct Style {
    /// probability (percent) that a place gets non-minimal trivia
    pub trivia: usize,
    pub comments: bool,
    pub slashdash: bool,
    pub escline: bool,
    pub exotic_ws: bool,
    pub exotic_nl: bool,
    /// write strings and names in varied forms (raw, escapes, quoted)
    pub forms: bool,
    /// newline to use when !exotic_nl
    pub nl: &'static str,
    /// always terminate nodes by an explicit terminator
    pub bom: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            trivia: 0, comments: false, slashdash: false, escline: false, exotic_ws: false,
            exotic_nl: false, forms: false, nl: "\n", bom: false,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        if r.one_in(5) {
            let mut s = Style::plain();
            s.forms = r.one_in(2);
            s.nl = NL[r.below(NL.len())];
            return s;
        }
        Style {
            trivia: *r.pick(&[5, 15, 40, 80]),
            comments: r.pct(60),
            slashdash: r.pct(40),
            escline: r.pct(40),
            exotic_ws: r.pct(50),
            exotic_nl: r.pct(50),
            forms: r.pct(80),
            nl: NL[r.below(NL.len())],
            bom: r.one_in(12),
        }
    }
}

pub struct Writer<'r> {
    pub out: String,
    r: &'r mut Rng,
    st: Style,
    /// recursion guard for slashdash content
    inner: usize,
    /// whether the last written node has an explicit terminator
    term: bool,
}

/// Writes the document; returns the text and the expected AST with spans
pub fn write_doc(r: &mut Rng, doc: &[GNode], st: &Style) -> (String, Vec<RNode>) {
    let mut w = Writer { out: String::new(), r, st: st.clone(), inner: 0, term: true };
    if st.bom {
        w.out.push('\u{feff}');
    }
    let nodes = w.nodes(doc, false);
    (w.out, nodes)
}

/// Text of a string value in any of the allowed forms
pub fn string_text(r: &mut Rng, s: &str, varied: bool) -> String {
    if varied && r.one_in(4) {
        // raw
        let mut need = 0;
        let cs: Vec<char> = s.chars().collect();
        for (i, &c) in cs.iter().enumerate() {
            if c == '"' {
                let mut n = 0;
                while cs.get(i + 1 + n) == Some(&'#') {
                    n += 1;
                }
                need = need.max(n + 1);
            }
        }
        // `"###` at the very end would close together with the terminator
        let extra = match r.below(12) {
            0 => 1,
            1 => 2,
            2 => r.range(3, 30),
            _ => 0,
        };
        let n = need + extra;
        let h = "#".repeat(n);
        return format!("r{}\"{}\"{}", h, s, h);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            _ if varied && r.one_in(6) => {
                let short = match c {
                    '/' => Some('/'),
                    '\u{8}' => Some('b'),
                    '\u{c}' => Some('f'),
                    '\n' => Some('n'),
                    '\r' => Some('r'),
                    '\t' => Some('t'),
                    _ => None,
                };
                match short {
                    Some(e) if r.pct(70) => {
                        o.push('\\');
                        o.push(e);
                    }
                    _ => {
                        let mut hex = format!("{:x}", c as u32);
                        if r.one_in(2) {
                            hex = hex.to_uppercase();
                        }
                        let pad = r.range(hex.len(), 6);
                        o.push_str(&format!("\\u{{{}{}}}", "0".repeat(pad - hex.len()), hex));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'r> Writer<'r> {
    fn nl(&mut self) -> &'static str {
        if self.st.exotic_nl {
            NL[self.r.below(NL.len())]
        } else {
            self.st.nl
        }
    }
    fn ws_char(&mut self) -> char {
        if self.st.exotic_ws && self.r.one_in(2) {
            *self.r.pick(WS)
        } else if self.r.one_in(6) {
            '\t'
        } else {
            ' '
        }
    }
    fn comment_text(&mut self, n: usize) -> String {
        let mut s = String::new();
        for _ in 0..self.r.below(n) {
            match self.r.below(12) {
                0 => s.push_str("\""),
                1 => s.push_str("{"),
                2 => s.push_str("}"),
                3 => s.push_str("*"),
                4 => s.push_str("\\"),
                5 => s.push_str("/-"),
                _ => s.push(any_char(self.r)),
            }
        }
        s
    }
    fn block_comment(&mut self, depth: usize) {
        let mut s = String::from("/*");
        let k = self.r.below(3);
        for i in 0..=k {
            let mut t = self.comment_text(8);
            if self.r.one_in(3) {
                let nl = NL[self.r.below(NL.len())];
                t.push_str(nl);
            }
            // keep out of the sequences that are ambiguous or special
            let t: String = t.chars().filter(|&c| c != '/').collect();
            s.push_str(&t);
            if i < k && depth > 0 && self.r.one_in(3) {
                if s.ends_with('*') && s.len() > 2 {
                    s.push(' ');
                }
                let at = self.out.len();
                self.block_comment(depth - 1);
                let nested = self.out.split_off(at);
                s.push_str(&nested);
            }
            if self.r.one_in(6) && !s.ends_with('*') {
                s.push_str("/ ");
            }
        }
        s.push_str("*/");
        self.out.push_str(&s);
    }
    fn ws1(&mut self) {
        if self.st.comments && self.r.one_in(3) {
            self.block_comment(2);
        } else {
            for _ in 0..self.r.range(1, 3) {
                let c = self.ws_char();
                self.out.push(c);
            }
        }
    }
    fn line_comment(&mut self) {
        self.out.push_str("//");
        let t: String = self.comment_text(10).chars().filter(|&c| !is_newline(c)).collect();
        self.out.push_str(&t);
    }
    fn node_space1(&mut self) {
        if self.st.escline && self.r.one_in(4) {
            self.out.push('\\');
            while self.r.one_in(3) {
                self.ws1();
            }
            if self.st.comments && self.r.one_in(3) {
                self.line_comment();
            }
            let nl = self.nl();
            self.out.push_str(nl);
            if nl == "\r" {
                self.out.push(' ');
            }
        } else {
            self.ws1();
        }
    }
    fn node_space0(&mut self) {
        while self.r.pct(self.st.trivia.min(60)) {
            self.node_space1();
        }
    }
    fn node_space_req(&mut self) {
        if self.r.pct(self.st.trivia) {
            self.node_space1();
            while self.r.pct(30) {
                self.node_space1();
            }
        } else {
            self.out.push(' ');
        }
    }
    fn line_space0(&mut self, depth: usize) {
        while self.r.pct(self.st.trivia.min(60)) {
            match self.r.below(5) {
                0 | 1 => {
                    let nl = self.nl();
                    self.out.push_str(nl);
                }
                2 if self.st.comments => {
                    self.line_comment();
                    let nl = self.nl();
                    self.out.push_str(nl);
                }
                3 if self.st.slashdash && self.inner < 2 && depth < 40 => {
                    self.inner += 1;
                    self.out.push_str("/-");
                    self.node_space0();
                    let n = gen_node(self.r, &Size { nodes: 2, entries: 2, depth: 1 }, &[]);
                    self.node(&n, false);
                    self.inner -= 1;
                }
                _ => self.ws1(),
            }
        }
    }
    fn nodes(&mut self, nodes: &[GNode], braced: bool) -> Vec<RNode> {
        let mut res = Vec::new();
        let n = nodes.len();
        self.term = true;
        for (i, node) in nodes.iter().enumerate() {
            self.line_space0(i);
            let last = !braced && i + 1 == n && self.inner == 0;
            res.push(self.node(node, last));
        }
        // nothing may follow an unterminated last node
        if self.term {
            self.line_space0(n);
        }
        self.term = true;
        res
    }
    fn name(&mut self, s: &str) -> RName {
        let start = self.out.len();
        if is_bare(s) && !(self.st.forms && self.r.one_in(5)) {
            self.out.push_str(s);
        } else {
            let t = string_text(self.r, s, self.st.forms);
            self.out.push_str(&t);
        }
        RName { text: s.into(), span: (start, self.out.len()) }
    }
    fn type_name(&mut self, t: &Option<String>) -> Option<RName> {
        let t = t.as_ref()?;
        let start = self.out.len();
        self.out.push('(');
        self.name(t);
        self.out.push(')');
        Some(RName { text: t.clone(), span: (start, self.out.len()) })
    }
    fn value(&mut self, v: &GVal) -> RVal {
        let ty = self.type_name(&v.ty);
        let start = self.out.len();
        let text = match &v.lit {
            RLit::Null => "null".into(),
            RLit::Bool(b) => b.to_string(),
            RLit::Int(i) => match &v.text {
                Some(t) => t.clone(),
                None => write_int(self.r, i),
            },
            RLit::Dec(d) => v.text.clone().unwrap_or_else(|| d.clone()),
            RLit::Str(s) => string_text(self.r, s, self.st.forms),
        };
        self.out.push_str(&text);
        RVal { ty, lit: v.lit.clone(), span: (start, self.out.len()) }
    }
    fn entry(&mut self, e: &GEntry) -> (Option<RName>, RVal) {
        match e {
            GEntry::Arg(v) => (None, self.value(v)),
            GEntry::Prop(k, v) => {
                let name = self.name(k);
                self.out.push('=');
                (Some(name), self.value(v))
            }
        }
    }
    fn dead_entries(&mut self) {
        while self.st.slashdash && self.inner < 2 && self.r.pct(self.st.trivia.min(40)) && self.r.one_in(2) {
            self.node_space_req();
            self.out.push_str("/-");
            self.node_space0();
            self.inner += 1;
            let v = gen_val(self.r);
            let e = if self.r.one_in(2) { GEntry::Prop(gen_name(self.r), v) } else { GEntry::Arg(v) };
            self.entry(&e);
            self.inner -= 1;
        }
    }
    /// Writes a node with its terminator; `eof` allows to omit the terminator
    fn node(&mut self, n: &GNode, eof: bool) -> RNode {
        let start = self.out.len();
        let ty = self.type_name(&n.ty);
        let name = self.name(&n.name);
        let mut args = Vec::new();
        let mut props: BTreeMap<String, RProp> = BTreeMap::new();
        self.dead_entries();
        for e in &n.entries {
            self.node_space_req();
            match self.entry(e) {
                (None, v) => args.push(v),
                (Some(k), v) => {
                    let p = props.entry(k.text).or_insert_with(|| RProp { keys: Vec::new(), val: v.clone() });
                    p.keys.push(k.span);
                    p.val = v;
                }
            }
            self.dead_entries();
        }
        let mut children = None;
        if let Some(c) = &n.children {
            children = Some(self.block(c));
        } else if self.st.slashdash && self.inner < 2 && self.r.pct(self.st.trivia.min(40)) && self.r.one_in(3) {
            self.node_space0();
            self.out.push_str("/-");
            self.node_space0();
            self.inner += 1;
            let sz = Size { nodes: 2, entries: 2, depth: 1 };
            let c: Vec<GNode> = (0..self.r.below(3)).map(|_| gen_node(self.r, &sz, &[])).collect();
            self.block(&c);
            self.inner -= 1;
        }
        self.node_space0();
        self.term = true;
        match self.r.below(8) {
            0 if eof => self.term = false,
            1 if self.st.comments => {
                self.line_comment();
                if eof && self.r.one_in(2) {
                    self.term = false;
                } else {
                    let nl = self.nl();
                    self.out.push_str(nl);
                }
            }
            2 | 3 => self.out.push(';'),
            _ => {
                let nl = self.nl();
                self.out.push_str(nl);
            }
        }
        // CR as a terminator followed by LF would be a single newline; the
        // LF then belongs to the node
        if self.out.ends_with('\r') {
            self.out.push(' ');
            let end = self.out.len() - 1;
            return RNode { span: (start, end), ty, name, args, props, children };
        }
        RNode { span: (start, self.out.len()), ty, name, args, props, children }
    }
    fn block(&mut self, c: &[GNode]) -> (Sp, Vec<RNode>) {
        if self.r.pct(80) {
            self.out.push(' ');
        }
        self.node_space0();
        let start = self.out.len();
        self.out.push('{');
        let list = self.nodes(c, true);
        self.out.push('}');
        ((start, self.out.len()), list)
    }
}
