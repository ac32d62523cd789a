//! Independent recognizer of KDL 1.0, written from the specification as a
//! hand-made recursive descent parser over code points.
use std::collections::BTreeMap;

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq)]
pub struct RName {
    pub text: String,
    pub span: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RInt {
    pub neg: bool,
    pub radix: u32,
    /// digits only: no sign, prefix or underscores
    pub digits: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RLit {
    Null,
    Bool(bool),
    Int(RInt),
    /// text without underscores
    Dec(String),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct RVal {
    pub ty: Option<RName>,
    pub lit: RLit,
    pub span: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RProp {
    /// spans of the names of all occurrences
    pub keys: Vec<Sp>,
    pub val: RVal,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RNode {
    pub span: Sp,
    pub ty: Option<RName>,
    pub name: RName,
    pub args: Vec<RVal>,
    pub props: BTreeMap<String, RProp>,
    pub children: Option<(Sp, Vec<RNode>)>,
}

#[derive(Clone, Debug, Default)]
pub struct RDoc {
    pub nodes: Vec<RNode>,
    /// some block comment contains a sequence for which the grammar of the
    /// specification is ambiguous
    pub ambiguous: bool,
    pub stats: Stats,
}

/// What the document contained, for evidence.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub slashdash: usize,
    pub comments: usize,
    pub esclines: usize,
    pub raw: usize,
    pub escapes: usize,
    pub depth: usize,
    pub nodes: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Open {
    Str,
    Raw(usize),
    Comment,
    Brace,
}

#[derive(Clone, Debug)]
pub struct RErr {
    /// byte offset of the first character that can't continue the prefix
    /// (length of the text for an unexpected end of input)
    pub far: usize,
    /// byte offset of the start of the lexical token that contains `far`
    pub token: usize,
    /// like `far`, but numbers and keywords as property names and identifiers
    /// as arguments are tolerated (a parser may report them late)
    pub far_relaxed: usize,
    pub ambiguous: bool,
    /// constructs open at the end of input, outermost first (only if `far` is
    /// at the end of input)
    pub open: Vec<(Open, Sp)>,
    pub what: &'static str,
}

pub fn is_newline(c: char) -> bool {
    matches!(c, '\r' | '\n' | '\u{85}' | '\u{c}' | '\u{2028}' | '\u{2029}')
}

pub fn is_ws(c: char) -> bool {
    matches!(c as u32,
        0x09 | 0x20 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x202F | 0x205F | 0x3000 | 0xFEFF)
}

pub fn is_ident(c: char) -> bool {
    c as u32 > 0x20 && !is_newline(c) && !is_ws(c) && !"\\/(){}<>;[]=,\"".contains(c)
}

pub fn is_ident_start(c: char) -> bool {
    is_ident(c) && !c.is_ascii_digit()
}

type R<T> = Result<T, ()>;

struct P<'a> {
    text: &'a str,
    c: Vec<char>,
    /// byte offset of each char and of the end
    off: Vec<usize>,
    i: usize,
    far: usize,
    far_token: usize,
    what: &'static str,
    ambiguous: bool,
    open: Vec<(Open, usize, usize)>,
    open_at_fail: Vec<(Open, usize, usize)>,
    stats: Stats,
    depth: usize,
    relaxed: bool,
    soft: Vec<usize>,
}

/// Parses the text according to KDL 1.0
pub fn parse(text: &str) -> Result<RDoc, RErr> {
    parse_mode(text, false).map_err(|mut e| {
        e.far_relaxed = match parse_mode(text, true) {
            Ok(_) => unreachable!(),
            Err(e) => e.far,
        };
        e
    })
}

fn parse_mode(text: &str, relaxed: bool) -> Result<RDoc, RErr> {
    let mut off = Vec::with_capacity(text.len() + 1);
    let mut c = Vec::with_capacity(text.len());
    for (i, ch) in text.char_indices() {
        off.push(i);
        c.push(ch);
    }
    off.push(text.len());
    let mut p = P {
        text, c, off, i: 0, far: 0, far_token: 0, what: "", ambiguous: false,
        open: Vec::new(), open_at_fail: Vec::new(), stats: Stats::default(),
        depth: 0, relaxed, soft: Vec::new(),
    };
    let mut res = p.nodes(false);
    if let (Ok(_), Some(&last)) = (&res, p.soft.last()) {
        p.far = last;
        res = Err(());
    }
    match res {
        Ok(nodes) => Ok(RDoc { nodes, ambiguous: p.ambiguous, stats: p.stats }),
        Err(()) => {
            let off = &p.off;
            let at_end = p.far == p.c.len();
            Err(RErr {
                far: off[p.far],
                far_relaxed: 0,
                token: off[p.far_token],
                ambiguous: p.ambiguous,
                what: p.what,
                open: if at_end {
                    p.open_at_fail.iter().map(|&(o, a, b)| (o, (off[a], off[b]))).collect()
                } else {
                    Vec::new()
                },
            })
        }
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, n: usize) -> Option<char> {
        self.c.get(self.i + n).copied()
    }
    fn looking(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(n, c)| self.at(n) == Some(c))
    }
    fn sp(&self, start: usize) -> Sp {
        (self.off[start], self.off[self.i])
    }
    /// Hard failure at char index `at`, in token that starts at `token`
    fn fail<T>(&mut self, at: usize, token: usize, what: &'static str) -> R<T> {
        let at = at.min(self.c.len());
        self.far = at;
        self.far_token = token.min(at);
        self.what = what;
        self.open_at_fail = self.open.clone();
        Err(())
    }

    fn newline(&mut self) -> bool {
        match self.peek() {
            Some('\r') => {
                self.i += 1;
                if self.peek() == Some('\n') {
                    self.i += 1;
                }
                true
            }
            Some(c) if is_newline(c) => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    /// `//` comment, including the newline
    fn line_comment(&mut self) -> bool {
        if !self.looking("//") {
            return false;
        }
        self.stats.comments += 1;
        while let Some(c) = self.peek() {
            if is_newline(c) {
                self.newline();
                return true;
            }
            self.i += 1;
        }
        true
    }
    /// whitespace char or block comment
    fn ws(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_ws(c) => {
                self.i += 1;
                Ok(true)
            }
            Some('/') if self.at(1) == Some('*') => {
                self.block_comment()?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn block_comment(&mut self) -> R<()> {
        self.stats.comments += 1;
        let mut starts = vec![self.i];
        self.open.push((Open::Comment, self.i, self.i + 2));
        self.i += 2;
        if self.peek() == Some('/') {
            self.ambiguous = true; // `/*/`
        }
        while !starts.is_empty() {
            if self.looking("*/") {
                starts.pop();
                self.open.pop();
                self.i += 2;
            } else if self.looking("/*") {
                starts.push(self.i);
                self.open.push((Open::Comment, self.i, self.i + 2));
                if self.at(2) == Some('/') {
                    self.ambiguous = true;
                }
                self.i += 2;
            } else if self.looking("//*") {
                self.ambiguous = true;
                self.i += 1;
            } else if self.peek().is_some() {
                self.i += 1;
            } else {
                let n = self.c.len();
                return self.fail(n, starts[0], "unclosed comment");
            }
        }
        Ok(())
    }
    fn node_space(&mut self) -> R<bool> {
        if self.ws()? {
            return Ok(true);
        }
        if self.peek() == Some('\\') {
            let start = self.i;
            self.i += 1;
            while self.ws()? {}
            if self.newline() || self.line_comment() {
                self.stats.esclines += 1;
                return Ok(true);
            }
            let mut at = self.i;
            if self.peek() == Some('/') {
                at += 1;
            }
            return self.fail(at, start, "escline");
        }
        Ok(false)
    }
    fn node_spaces(&mut self) -> R<usize> {
        let start = self.i;
        while self.node_space()? {}
        Ok(self.i - start)
    }
    fn line_spaces(&mut self) -> R<()> {
        loop {
            if self.newline() || self.line_comment() || self.ws()? {
                continue;
            }
            return Ok(());
        }
    }

    fn nodes(&mut self, braced: bool) -> R<Vec<RNode>> {
        let mut res = Vec::new();
        loop {
            self.line_spaces()?;
            match self.peek() {
                None if !braced => return Ok(res),
                Some('}') if braced => return Ok(res),
                None => {
                    let n = self.c.len();
                    return self.fail(n, n, "eof in children");
                }
                _ => {}
            }
            let mut skip = false;
            if self.looking("/-") {
                self.i += 2;
                self.stats.slashdash += 1;
                self.node_spaces()?;
                skip = true;
                if self.peek() == Some('/') {
                    // could be a comment
                    let i = self.i;
                    return self.fail(i + 1, i, "slash");
                }
            } else if self.peek() == Some('/') {
                let i = self.i;
                return self.fail(i + 1, i, "slash");
            }
            let node = self.node()?;
            if !skip {
                res.push(node);
            }
        }
    }

    fn node(&mut self) -> R<RNode> {
        let start = self.i;
        self.stats.nodes += 1;
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let ns = self.i;
        let text = self.ident("node name")?;
        let name = RName { text, span: self.sp(ns) };
        let mut args = Vec::new();
        let mut props: BTreeMap<String, RProp> = BTreeMap::new();
        let mut children = None;
        // start of the previous element of the node
        let mut prev;
        let mut cur = start;
        loop {
            prev = cur;
            let spaces = self.node_spaces()?;
            cur = self.i;
            // slashdash of entry or children
            let mut skip = false;
            if self.looking("/-") {
                self.i += 2;
                self.stats.slashdash += 1;
                self.node_spaces()?;
                skip = true;
                if self.peek() == Some('/') {
                    let i = self.i;
                    return self.fail(i + 1, i, "slash");
                }
            }
            if self.peek() == Some('{') {
                let bs = self.i;
                self.open.push((Open::Brace, bs, bs + 1));
                self.i += 1;
                self.depth += 1;
                self.stats.depth = self.stats.depth.max(self.depth);
                let list = self.nodes(true)?;
                self.depth -= 1;
                self.i += 1; // the closing brace
                self.open.pop();
                if !skip {
                    children = Some((self.sp(bs), list));
                }
                self.node_spaces()?;
                self.terminator(false, false)?;
                break;
            }
            if skip {
                if spaces == 0 {
                    // `node/-1`: only children may follow
                    let i = self.i;
                    return self.fail(i, prev, "slashdash without space");
                }
                self.entry(None)?;
                continue;
            }
            if self.at_terminator() {
                self.terminator(true, true)?;
                break;
            }
            if self.peek() == Some('/') {
                let i = self.i;
                return self.fail(i + 1, i, "slash");
            }
            if spaces == 0 {
                let i = self.i;
                return self.fail(i, prev, "space expected");
            }
            self.entry(Some((&mut args, &mut props)))?;
        }
        Ok(RNode { span: self.sp(start), ty, name, args, props, children })
    }

    fn at_terminator(&self) -> bool {
        match self.peek() {
            None | Some(';') => true,
            Some('/') => self.at(1) == Some('/'),
            Some(c) => is_newline(c),
        }
    }
    fn terminator(&mut self, _a: bool, _b: bool) -> R<()> {
        if self.peek().is_none() {
            if !self.open.is_empty() {
                // the node itself is fine, but a brace is not closed; let
                // `nodes()` report it
                return Ok(());
            }
            return Ok(());
        }
        if self.peek() == Some(';') {
            self.i += 1;
            return Ok(());
        }
        if self.newline() || self.line_comment() {
            return Ok(());
        }
        let mut i = self.i;
        let t = i;
        if self.peek() == Some('/') {
            i += 1;
        }
        self.fail(i, t, "terminator")
    }

    fn type_name(&mut self) -> R<RName> {
        let start = self.i;
        self.i += 1;
        let text = self.ident("type name")?;
        if self.peek() != Some(')') {
            let i = self.i;
            return self.fail(i, start, "closing paren");
        }
        self.i += 1;
        Ok(RName { text, span: self.sp(start) })
    }

    fn at_raw(&self) -> bool {
        if self.peek() != Some('r') {
            return false;
        }
        let mut n = 1;
        while self.at(n) == Some('#') {
            n += 1;
        }
        self.at(n) == Some('"')
    }

    fn at_number(&self) -> bool {
        match self.peek() {
            Some('+' | '-') => matches!(self.at(1), Some('0'..='9')),
            Some('0'..='9') => true,
            _ => false,
        }
    }

    fn ident(&mut self, what: &'static str) -> R<String> {
        if self.peek() == Some('"') {
            return self.quoted();
        }
        if self.at_raw() {
            return self.raw();
        }
        let start = self.i;
        let s = self.bare(what)?;
        if matches!(&s[..], "true" | "false" | "null") {
            // a prefix of a valid longer name, so the first wrong character is
            // the one that ends it
            let i = self.i;
            return self.fail(i, start, "keyword as identifier");
        }
        Ok(s)
    }
    fn bare(&mut self, what: &'static str) -> R<String> {
        let start = self.i;
        match self.peek() {
            Some('+' | '-') => {
                self.i += 1;
                match self.peek() {
                    Some('0'..='9') => {
                        let i = self.i;
                        return self.fail(i, start, what);
                    }
                    _ => {}
                }
            }
            Some(c) if is_ident_start(c) => {}
            _ => return self.fail(start, start, what),
        }
        while let Some(c) = self.peek() {
            if !is_ident(c) {
                break;
            }
            self.i += 1;
        }
        Ok(self.c[start..self.i].iter().collect())
    }

    fn quoted(&mut self) -> R<String> {
        let start = self.i;
        self.open.push((Open::Str, start, start + 1));
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.peek() {
                None => {
                    let n = self.c.len();
                    return self.fail(n, start, "unclosed string");
                }
                Some('"') => {
                    self.i += 1;
                    self.open.pop();
                    return Ok(s);
                }
                Some('\\') => {
                    self.stats.escapes += 1;
                    self.i += 1;
                    let i = self.i;
                    match self.peek() {
                        Some('"') => s.push('"'),
                        Some('\\') => s.push('\\'),
                        Some('/') => s.push('/'),
                        Some('b') => s.push('\u{8}'),
                        Some('f') => s.push('\u{c}'),
                        Some('n') => s.push('\n'),
                        Some('r') => s.push('\r'),
                        Some('t') => s.push('\t'),
                        Some('u') => match self.unicode_escape() {
                            Ok((ch, n)) => {
                                s.push(ch);
                                self.i += n;
                            }
                            Err((at, what)) => {
                                if !self.relaxed {
                                    return self.fail(i + at, start, what);
                                }
                                // skipped by error recovery
                                self.soft.push(i + at);
                                while self.at(1).map_or(false, |c| !"}\"\\".contains(c)) {
                                    self.i += 1;
                                }
                            }
                        },
                        _ => return self.fail(i, start, "escape"),
                    }
                    self.i += 1;
                }
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }

    /// At `u`; returns the char and the number of characters after `u`
    fn unicode_escape(&self) -> Result<(char, usize), (usize, &'static str)> {
        if self.at(1) != Some('{') {
            return Err((1, "unicode escape"));
        }
        let mut n = 2;
        let mut v = 0u32;
        loop {
            match self.at(n) {
                Some(h) if h.is_ascii_hexdigit() && n < 8 => {
                    v = v * 16 + h.to_digit(16).unwrap();
                    n += 1;
                }
                Some('}') if n > 2 => break,
                _ => return Err((n, "unicode escape")),
            }
        }
        char::from_u32(v).map(|c| (c, n)).ok_or((n, "bad code point"))
    }

    fn raw(&mut self) -> R<String> {
        let start = self.i;
        self.stats.raw += 1;
        self.i += 1;
        let mut hashes = 0;
        while self.peek() == Some('#') {
            hashes += 1;
            self.i += 1;
        }
        self.i += 1; // quote
        self.open.push((Open::Raw(hashes), start, self.i));
        let body = self.i;
        loop {
            match self.peek() {
                None => {
                    let n = self.c.len();
                    return self.fail(n, start, "unclosed raw string");
                }
                Some('"') if (1..=hashes).all(|n| self.at(n) == Some('#')) => {
                    let s = self.c[body..self.i].iter().collect();
                    self.i += 1 + hashes;
                    self.open.pop();
                    return Ok(s);
                }
                Some(_) => self.i += 1,
            }
        }
    }

    fn number(&mut self) -> R<RLit> {
        let start = self.i;
        let mut sign = String::new();
        if let Some(c @ ('+' | '-')) = self.peek() {
            sign.push(c);
            self.i += 1;
        }
        let neg = sign == "-";
        if self.peek() == Some('0') && matches!(self.at(1), Some('x' | 'o' | 'b')) {
            let radix = match self.at(1) {
                Some('x') => 16,
                Some('o') => 8,
                _ => 2,
            };
            self.i += 2;
            if !self.peek().map_or(false, |c| c.is_digit(radix)) {
                let i = self.i;
                return self.fail(i, start, "radix digits");
            }
            let digits = self.digits(radix);
            return Ok(RLit::Int(RInt { neg, radix, digits }));
        }
        let int = self.digits(10);
        let mut text = format!("{}{}", sign, int);
        let mut dec = false;
        if self.peek() == Some('.') {
            self.i += 1;
            if !self.peek().map_or(false, |c| c.is_ascii_digit()) {
                let i = self.i;
                return self.fail(i, start, "fraction digits");
            }
            text.push('.');
            text.push_str(&self.digits(10));
            dec = true;
        }
        if let Some(e @ ('e' | 'E')) = self.peek() {
            self.i += 1;
            text.push(e);
            if let Some(c @ ('+' | '-')) = self.peek() {
                text.push(c);
                self.i += 1;
            }
            if !self.peek().map_or(false, |c| c.is_ascii_digit()) {
                let i = self.i;
                return self.fail(i, start, "exponent digits");
            }
            text.push_str(&self.digits(10));
            dec = true;
        }
        if dec {
            Ok(RLit::Dec(text))
        } else {
            Ok(RLit::Int(RInt { neg, radix: 10, digits: int }))
        }
    }
    fn digits(&mut self, radix: u32) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if c.is_digit(radix) {
                s.push(c.to_ascii_lowercase());
            } else if c != '_' {
                break;
            }
            self.i += 1;
        }
        s
    }

    fn value(&mut self) -> R<RVal> {
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let start = self.i;
        let lit = if self.peek() == Some('"') {
            RLit::Str(self.quoted()?)
        } else if self.at_raw() {
            RLit::Str(self.raw()?)
        } else if self.at_number() {
            self.number()?
        } else {
            self.keyword_value(start)?
        };
        Ok(RVal { ty, lit, span: self.sp(start) })
    }
    fn keyword_value(&mut self, start: usize) -> R<RLit> {
        for (k, v) in [("true", RLit::Bool(true)), ("false", RLit::Bool(false)), ("null", RLit::Null)] {
            if self.looking(k) {
                let n = k.len();
                if let Some(c) = self.at(n) {
                    if is_ident(c) {
                        return self.fail(start + n, start, "identifier as a value");
                    }
                }
                self.i += n;
                return Ok(v);
            }
        }
        // the longest prefix of a keyword
        let mut n = 0;
        for k in ["true", "false", "null"] {
            let m = k.chars().enumerate().take_while(|&(j, c)| self.at(j) == Some(c)).count();
            n = n.max(m);
        }
        if n == 0 && self.peek() == Some('r') {
            n = 1;
            while self.at(n) == Some('#') {
                n += 1;
            }
        }
        if n == 0 && matches!(self.peek(), Some('+' | '-')) {
            n = 1;
        }
        self.fail(start + n, start, "value")
    }

    #[allow(clippy::type_complexity)]
    fn entry(&mut self, dest: Option<(&mut Vec<RVal>, &mut BTreeMap<String, RProp>)>) -> R<()> {
        let start = self.i;
        let add_prop = |k: RName, v: RVal, dest: Option<(&mut Vec<RVal>, &mut BTreeMap<String, RProp>)>| {
            if let Some((_, props)) = dest {
                match props.get_mut(&k.text) {
                    Some(p) => {
                        p.keys.push(k.span);
                        p.val = v;
                    }
                    None => {
                        props.insert(k.text, RProp { keys: vec![k.span], val: v });
                    }
                }
            }
        };
        let is_str = self.peek() == Some('"') || self.at_raw();
        if is_str {
            let s = if self.peek() == Some('"') { self.quoted()? } else { self.raw()? };
            let span = self.sp(start);
            if self.peek() == Some('=') {
                self.i += 1;
                let v = self.value()?;
                add_prop(RName { text: s, span }, v, dest);
            } else if let Some((args, _)) = dest {
                args.push(RVal { ty: None, lit: RLit::Str(s), span });
            }
            return Ok(());
        }
        if self.peek() == Some('(') || self.at_number() {
            let num = self.at_number();
            let v = self.value()?;
            if num && self.relaxed && self.peek() == Some('=') {
                self.soft.push(start);
                self.i += 1;
                self.value()?;
            }
            if let Some((args, _)) = dest {
                args.push(v);
            }
            return Ok(());
        }
        let text = self.bare("property or argument")?;
        let span = self.sp(start);
        let kw = match &text[..] {
            "true" => Some(RLit::Bool(true)),
            "false" => Some(RLit::Bool(false)),
            "null" => Some(RLit::Null),
            _ => None,
        };
        if let Some(lit) = kw {
            if self.relaxed && self.peek() == Some('=') {
                self.soft.push(start);
                self.i += 1;
                self.value()?;
                return Ok(());
            }
            if let Some((args, _)) = dest {
                args.push(RVal { ty: None, lit, span });
            }
            return Ok(());
        }
        if self.peek() != Some('=') {
            if self.relaxed && self.peek() != Some('"') {
                self.soft.push(start);
                return Ok(());
            }
            let i = self.i;
            return self.fail(i, start, "identifier as an argument");
        }
        self.i += 1;
        let v = self.value()?;
        add_prop(RName { text, span }, v, dest);
        Ok(())
    }
    #[allow(dead_code)]
    fn source(&self) -> &'a str {
        self.text
    }
}

impl RInt {
    /// Exact value if it fits into i128
    pub fn value(&self) -> Option<i128> {
        let mut v: i128 = 0;
        for c in self.digits.chars() {
            let d = c.to_digit(self.radix)? as i128;
            v = v.checked_mul(self.radix as i128)?;
            v = if self.neg { v.checked_sub(d)? } else { v.checked_add(d)? };
        }
        Some(v)
    }
}

/// Line and column of each byte offset of interest, computed from scratch.
pub struct LineIndex {
    /// for each char: offset, line, column at its start
    pos: Vec<(usize, usize, usize)>,
}

impl LineIndex {
    pub fn new(text: &str, width: impl Fn(char) -> usize) -> LineIndex {
        let mut pos = Vec::new();
        let (mut line, mut col) = (0, 0);
        let mut it = text.char_indices().peekable();
        while let Some((o, c)) = it.next() {
            pos.push((o, line, col));
            if c == '\r' {
                // zero-width position between CR and LF belongs to next line
                line += 1;
                col = 0;
                if let Some(&(o, '\n')) = it.peek() {
                    pos.push((o, line, col));
                    it.next();
                }
            } else if is_newline(c) {
                line += 1;
                col = 0;
            } else if c == '\t' {
                col += 8;
            } else {
                col += width(c);
            }
        }
        pos.push((text.len(), line, col));
        LineIndex { pos }
    }
    pub fn get(&self, offset: usize) -> Option<(usize, usize)> {
        self.pos.binary_search_by_key(&offset, |p| p.0).ok().map(|i| (self.pos[i].1, self.pos[i].2))
    }
}
