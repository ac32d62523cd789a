//! Workloads shared by the monitors of the parser
use refmodel::gen::*;
use refmodel::kdl::*;
use refmodel::mutate::*;
use refmodel::report::*;
use refmodel::rng::Rng;

pub struct In {
    pub kind: &'static str,
    pub text: String,
    /// AST that the text was written from
    pub expected: Option<Vec<RNode>>,
}

/// Amount of each kind of workload
#[derive(Clone, Debug)]
pub struct Mix {
    pub docs: (u64, u64),
    pub mutants: (u64, u64),
    pub soups: (u64, u64),
    /// max length of exhaustively enumerated texts
    pub enum_len: (usize, usize),
    pub unicode: bool,
    /// every n-th astral code point in the quick tier
    pub extremes: bool,
    pub truncate: (u64, u64),
}

pub fn drive(run: &Run, mix: &Mix, f: &(impl Fn(&In, &mut Acc) -> Result<(), String> + Sync)) {
    let go = |input: In, acc: &mut Acc| {
        let case = Case::new(input.kind, &input.text);
        acc.check(run, &case, |acc| f(&input, acc));
    };
    run.par("directed", DIRECTED.len() as u64, |i, _, acc| {
        go(In { kind: "directed", text: DIRECTED[i as usize].into(), expected: None }, acc)
    });
    run.par("pairs", (TOKENS.len() * TOKENS.len()) as u64, |i, _, acc| {
        let a = TOKENS[i as usize / TOKENS.len()];
        let b = TOKENS[i as usize % TOKENS.len()];
        go(In { kind: "pairs", text: format!("{}{}", a, b), expected: None }, acc);
        go(In { kind: "pairs", text: format!("n {}{}", a, b), expected: None }, acc);
        go(In { kind: "pairs", text: format!("n {} {}\nm 1", a, b), expected: None }, acc);
        go(In { kind: "pairs", text: format!("n {{ {}{}\n}}", a, b), expected: None }, acc);
        go(In { kind: "pairs", text: format!("n k={}{}", a, b), expected: None }, acc);
    });
    if mix.extremes {
        let list = extremes(run.args.thorough);
        run.par("extremes", list.len() as u64, |i, _, acc| {
            go(In { kind: "extremes", text: list[i as usize].clone(), expected: None }, acc)
        });
    }
    run.par("docs", run.n(mix.docs.0, mix.docs.1), |_, r, acc| {
        let doc = gen_doc_mixed(r);
        let st = Style::random(r);
        let (text, exp) = write_doc(r, &doc, &st);
        go(In { kind: "docs", text, expected: Some(exp) }, acc)
    });
    run.par("mutants", run.n(mix.mutants.0, mix.mutants.1), |_, r, acc| {
        let doc = gen_doc_mixed(r);
        let st = Style::random(r);
        let (text, _) = write_doc(r, &doc, &st);
        for _ in 0..4 {
            let text = mutate(r, &text);
            go(In { kind: "mutants", text, expected: None }, acc);
        }
    });
    run.par("truncate", run.n(mix.truncate.0, mix.truncate.1), |_, r, acc| {
        let mut st = Style::random(r);
        st.forms = true;
        let doc = gen_doc(r, &Size { nodes: 2, entries: 3, depth: 2 });
        let (text, _) = write_doc(r, &doc, &st);
        let n = text.chars().count();
        let step = (n / 60).max(1);
        for (k, (i, _)) in text.char_indices().enumerate() {
            if k % step == 0 {
                go(In { kind: "truncate", text: text[..i].into(), expected: None }, acc);
            }
        }
    });
    run.par("soups", run.n(mix.soups.0, mix.soups.1), |_, r, acc| {
        let text = soup(r);
        go(In { kind: "soups", text, expected: None }, acc)
    });
    let len = if run.args.thorough { mix.enum_len.1 } else { mix.enum_len.0 };
    for (k, alpha) in ALPHABETS.iter().enumerate() {
        for l in 0..=len {
            run.par(&format!("enumerate alphabet {} length {}", k, l), enum_count(alpha, l), |i, _, acc| {
                go(In { kind: "enumerate", text: enum_text(alpha, l, i), expected: None }, acc)
            });
        }
    }
    if mix.unicode {
        unicode(run, &go);
    }
}

/// Every code point in every lexical position
fn unicode(run: &Run, go: &(impl Fn(In, &mut Acc) + Sync)) {
    const CHUNK: u32 = 64;
    let max = 0x110000 / CHUNK;
    let full = run.args.thorough;
    run.par("unicode", max as u64, |i, _, acc| {
        let base = i as u32 * CHUNK;
        // planes that are not assigned are sampled in the quick tier
        if !full && base >= 0x20000 && i % 16 != 0 && base < 0x10ff00 {
            return;
        }
        let chars: Vec<char> = (base..base + CHUNK).filter_map(char::from_u32).collect();
        let mut good = String::new();
        let mut start = String::new();
        let mut s = String::new();
        let mut raw = String::new();
        let mut com = String::new();
        for &c in &chars {
            if is_ident(c) {
                good.push_str(&format!("a{}b x{}=1\n", c, c));
                if is_ident_start(c) && c != '+' && c != '-' {
                    start.push_str(&format!("{}b {}=1;", c, c));
                }
            } else {
                for t in [format!("a{}b", c), format!("{}b", c), format!("a {}b=1", c), format!("a x{}=1", c), format!("({}t)a", c),
                          format!("a{}1", c), format!("a 1{}2", c), format!("a{}{{}}", c)] {
                    go(In { kind: "unicode", text: t, expected: None }, acc);
                }
            }
            if c != '"' && c != '\\' {
                s.push(c);
            }
            if c != '"' {
                raw.push(c);
            }
            if c != '/' && c != '*' {
                com.push(c);
            }
            // digits are ASCII only
            if c.is_numeric() || c.is_alphanumeric() && i % 8 == 0 {
                go(In { kind: "unicode", text: format!("a 1{}", c), expected: None }, acc);
                go(In { kind: "unicode", text: format!("a \"\\u{{{}}}\"", c), expected: None }, acc);
            }
        }
        let esc: String = chars.iter().map(|&c| format!("\\u{{{:x}}}", c as u32)).collect();
        go(In { kind: "unicode", text: good, expected: None }, acc);
        go(In { kind: "unicode", text: start, expected: None }, acc);
        go(In { kind: "unicode", text: format!("a \"{}\" \"{}\" r\"{}\"", s, esc, raw), expected: None }, acc);
        go(In { kind: "unicode", text: format!("a /*{}*/1 // {}\nb", com, com), expected: None }, acc);
    });
}

pub const DIRECTED: &[&str] = &[
    "", " ", "\n", "\u{feff}", "\u{feff}a", "a", "a;", "a;b", "a\nb", "a\r\nb", "a\rb", ";", ";;", "a;;b", "a 1 2 3", "a k=1 k=2 k=3",
    "a { b; c }", "a { b; c; }", "a { b\n}", "a {}", "a{}", "a{};b", "a {} b", "a {};", "a {} // c\nb", "a {}\nb", "a {} /* */ \nb",
    "a {} {}", "a {} 1", "a 1 {}", "a 1{}", "a \"x\"{}", "a /-{}", "a/-{}", "a /-{} {}", "a /-{ b } \nc", "a /- {\n} 1", "/-a", "/- a\nb", "/-a {\n b\n}\nc", "/-/-a\nb", "/-\na",
    "/- \\\n a\nb", "a /-1", "a /-1 2", "a /- 1 2", "a /-k=1 l=2", "a /-\"x\"=1 2", "a/-1", "a /-/-1 2", "a /- /-1 2", "a \\\n1", "a \\ // c\n1", "a \\ /* c */ \n 1", "a\\\n1", "a \\\n", "a \\", "a \\ ",
    "a \\\n\\\n1", "\\\na", "a { \\\n b; }", "a k= 1", "a k =1", "a k=\n1", "a k=/**/1", "a (t)k=1", "a k=(t)1", "a k=(t) 1", "a (t) 1", "( t)a", "(t )a", "(t)a", "(t) a", "(\"t\")a", "(r\"t\")a", "(r#\"t\"#)a", "(t", "(t\n)a", "()a", "(t)(u)a", "(1)a", "(true)a", "(-)a", "(-1)a",
    "true", "false", "null", "\"true\"", "r\"x\"", "r#\"x\"#", "r", "r#", "r##", "r#x", "a r", "a r#", "a r=1", "a r#=1", "a rr\"x\"", "rr\"x\"", "a true", "a trueish", "a trueish=1", "a true=1", "a nullable=null", "a null_=1", "a false\"x\"", "a true{}", "a true;b", "a true/**/1",
    "1", "-1", "+1", "1a", "-a", "+a", "-", "+", "--", "-+1", "+-1", "a -", "a -=1", "a --1", "a - 1", "a -a=1", "a .5", "a 5.", "a 5.x", "a 1.5.2", "a 1e5", "a 1E5", "a 1e+5", "a 1e-5", "a 1e", "a 1e_5", "a 1_e5", "a 1._5", "a 1.5_", "a _1", "a 1__2", "a 0x", "a 0x_1", "a 0x1_", "a 0xG", "a 0xfg", "a 0b12", "a 0b2", "a 0o8", "a 0o78", "a 0X1", "a 0B1", "a 0O1", "a 00", "a 007", "a 0_x1", "a -0x1", "a +0b1", "a 0x1.5", "a 0x1e5", "a 0b1e5", "a 1x", "a 1=2", "a 1.0=2", "a 1\"x\"", "a 1true", "a 1(t)2",
    "a \"\"", "a \"\\\"\"", "a \"\\\\\"", "a \"\\/\"", "a \"\\b\\f\\n\\r\\t\"", "a \"\\u{1}\"", "a \"\\u{10ffff}\"", "a \"\\u{110000}\"", "a \"\\u{d800}\"", "a \"\\u{dfff}\"", "a \"\\u{0000041}\"", "a \"\\u{}\"", "a \"\\u{g}\"", "a \"\\u{4\"", "a \"\\u4\"", "a \"\\u\"", "a \"\\", "a \"\\u", "a \"\\u{", "a \"\\u{4", "a \"\\a\"", "a \"\\ \"", "a \"\\\n\"", "a \"\\'\"", "a \"\\0\"", "a \"\\x41\"", "a \"\n\"", "a \"a\"\"b\"", "a \"a\"b", "a \"a\"1", "a \"a\"=1", "a \"a\" =1", "a \"a\"= 1", "\"a\"\"b\"", "\"a\" 1", "\"\"", "\"\" \"\"=\"\"", "a \"\\u{ffffff}\"", "a \"\\u{fffffff}\"", "a \"\\u{110000} \\u{41}\"", "a \"\\u{d800} \\q\"",
    "a r\"\"", "a r\"\\\"", "a r\"\\n\"", "a r#\"\"#", "a r#\"\"\"#", "a r##\"\"#\"##", "a r#\"a\"##", "a r##\"a\"#", "a r\"a\"#", "a r#\"a", "a r#\"a\"", "a r\"", "a r\"a\"b", "a r\"a\"=1", "a r#\"a\"#=r#\"b\"#", "a r#\"\n\"#", "a r##\"\"#",
    "/", "/a", "//", "// a", "// a\nb", "//\r\nb", "/**/a", "/* */", "/* /* */", "/* /* */ */a", "/* a", "/*", "/*a*/ b /*c*/ 1 /*d*/", "/* * / ** */a", "/***/a", "/****/a", "/** /* **/ **/a", "a /*\n*/ 1", "a /* // */ 1", "a // /*\nb", "a /1", "a 1/2", "a/b", "a//b", "a/*b*/", "a/*b*/1", "/-", "/- ", "a /-", "a { /- }", "a { /-b; }", "a { /-b }", "a { // }\n}", "a { /* } */ }",
    "}", "a }", "{", "{}", "a {", "a { b", "a { b {", "a { b { c", "a { b;", "a { \"x", "a { r#\"x", "a { /* x", "a { b { /* x", "a (", "a (t", "a (\"t", "a k=", "a k=\"", "a k=(", "a k=(t)", "a ]", "a [", "a <", "a >", "a ,", "a=1", "a = 1", "=", "a \"b", "\"b", "a b", "a b c", "a b { c d; }", "a b\nc d\n", "a \"\\q\" b", "a b \"x",
    "a \u{a0}1", "a\u{3000}1", "a\u{200b}1", "a\u{feff}1", "a\u{2028}b", "a\u{85}b", "a\u{c}b", "a\u{b}b", "a \u{b}", "a \0", "\0", "\u{7f}", "a\u{7f}", "\u{80}", "a\t1", "a\u{180e}1",
    "node_1 \"arg\" key=1.5e3 (u8)0x_f",
    "first-tree-node \"v\"=1 2", "a\"b\"", "a\"b\"=1", "r\"a\"\"b\"", "a r\"b\"c=1", "a #", "a !", "a !=1", "!", "!a !b=!", "a '", "a *", "a $=1", "a a=b", "a a=b=c", "a a==1", "a \"a\"==1", "a \"a\"=b", "a 1 =2",
];

pub fn extremes(thorough: bool) -> Vec<String> {
    let mut v = Vec::new();
    let rep = |s: &str, n: usize| s.repeat(n);
    for n in [1usize, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000] {
        let h = rep("#", n);
        let less = rep("#", n - 1);
        v.push(format!("a r{}\"x\"{} 1", h, h));
        v.push(format!("a r{}\"x\"{}\"{}", h, less, h));
        v.push(format!("a r{}\"x\"{} 1", h, less));
        v.push(format!("r{}\"x\"{}", h, h));
        v.push(format!("a r{}\"\"\"{}", h, h));
        v.push(format!("a r{}\"", h));
        v.push(format!("a r{}\"{}\"{}=(r{}\"t\"{})r{}\"v\"{}", h, less, h, h, h, h, h));
        v.push(format!("a{}", rep(" 1", n)));
        v.push(format!("a{}", rep(" k=1", n)));
        v.push(format!("a {}", (0..n).map(|i| format!("k{}={} {}", i, i, i)).collect::<Vec<_>>().join(" ")));
        v.push(format!("a {} \"last\"", (0..n).map(|i| format!("k{}={}", i % 5, i)).collect::<Vec<_>>().join(" ")));
        v.push(format!("a {{{}}}", (0..n).map(|i| format!("n{} {}", i, i)).collect::<Vec<_>>().join(";") + ";"));
        v.push(format!("a{}\nb", rep("\\\n", n)));
        v.push(format!("a {}1", rep("/**/", n)));
        v.push(format!("{}a", rep("/-x\n", n)));
        v.push(format!("a{}", rep(" /-1", n)));
        v.push(format!("{}a", rep("\n", n)));
        v.push(format!("{}a", rep("\r\n", n)));
        v.push(format!("a {}1", rep("\u{a0}", n)));
        v.push(format!("a \"{}\"", rep("\\n", n)));
        v.push(format!("a \"{}\"", rep("\\u{1F600}", n)));
        v.push(format!("a {}", rep("9", n)));
        v.push(format!("a -{}", rep("1", n)));
        v.push(format!("a 0x{}", rep("f", n)));
        v.push(format!("a 0b{}", rep("1", n)));
        v.push(format!("a 0o{}", rep("7", n)));
        v.push(format!("a 0x{}1", rep("0", n)));
        v.push(format!("a {}1", rep("0", n)));
        v.push(format!("a 1{}", rep("_", n)));
        v.push(format!("a 1.{}", rep("3", n)));
        v.push(format!("a {}.5e-{}", rep("7", n), n));
        v.push(format!("a 1e{}", n));
        v.push(format!("a {}", rep("-", n)));
        v.push(format!("{}", rep("-", n)));
        v.push(format!("{} 1", rep("é", n)));
        v.push(format!("a k=\"{}\" 1", rep("漢", n)));
        v.push(format!("({})a", rep("t", n)));
        v.push(rep("a 1\n", n));
        v.push(rep("a 1\r", n));
        v.push(rep("a 1;", n));
        v.push(rep("a\u{85}", n));
        v.push(format!("a{}", rep(" b", n)));
        v.push(format!("{}a", rep(";", n)));
        v.push(format!("a {}", rep("\"", n)));
        v.push(format!("a {}", rep("\\", n)));
        v.push(format!("a {}1", rep("(t)", n)));
        v.push(format!("a {}", rep("}", n)));
    }
    for n in [1usize, 2, 3, 5, 10, 20, 30, 40, 60, 80, 100] {
        v.push(format!("{}z{}", rep("a {", n), rep(";}", n)));
        v.push(format!("{}z\n{}", rep("a {\n", n), rep("}\n", n)));
        v.push(format!("{}z{}", rep("a {", n), rep("}", n)));
        v.push(rep("a {", n));
        v.push(format!("{}z{}", rep("a {", n), rep(";}", n - 1)));
        v.push(format!("a {}x{} 1", rep("/*", n), rep("*/", n)));
        v.push(format!("a {}x{} 1", rep("/* ", n), rep(" */", n - 1)));
        v.push(rep("a /* ", n));
        v.push(format!("{}z{}", rep("/-a {", n), rep(";}", n)));
        v.push(format!("{}z{}\nb", rep("a /-{", n), rep(";}", n)));
    }
    let big = if thorough { 70_000 } else { 66_000 };
    v.push(rep("a\n", big));
    v.push(format!("{}b 1 k=2", rep("\r\n", big)));
    v.push(format!("{}b 1 k=2", rep(" ", big)));
    v.push(format!("/*{}*/ b 1", rep("\n", big)));
    v.push(format!("a \"{}\" 1", rep("x", big)));
    v.push(format!("a \"{}\" 1", rep("漢", big)));
    v.push(format!("a \"{}\" 1", rep("\n", big)));
    v.push(format!("{} 1", rep("x", big)));
    v.push(format!("a // {}\nb", rep("x", big)));
    v.push(format!("a{}", rep(" 1", big)));
    v.push(format!("a {{\n{}}}", rep("b\n", big)));
    v
}

/// Both documents written from one model in different layouts; properties are
/// permuted in the second
pub fn layouts(r: &mut Rng) -> (String, String) {
    let doc = gen_doc_mixed(r);
    let a = Style::random(r);
    let b = Style::random(r);
    let (ta, _) = write_doc(r, &doc, &a);
    let mut doc2 = doc;
    for n in &mut doc2 {
        permute(r, n);
    }
    let (tb, _) = write_doc(r, &doc2, &b);
    (ta, tb)
}

/// Random permutation that keeps the order of arguments and of properties of
/// the same name
fn permute(r: &mut Rng, n: &mut GNode) {
    let mut queues: Vec<(Option<String>, std::collections::VecDeque<GEntry>)> = Vec::new();
    for e in n.entries.drain(..) {
        let key = match &e {
            GEntry::Arg(_) => None,
            GEntry::Prop(k, _) => Some(k.clone()),
        };
        match queues.iter_mut().find(|q| q.0 == key) {
            Some(q) => q.1.push_back(e),
            None => queues.push((key, [e].into())),
        }
    }
    while !queues.is_empty() {
        let i = r.below(queues.len());
        n.entries.push(queues[i].1.pop_front().unwrap());
        if queues[i].1.is_empty() {
            queues.remove(i);
        }
    }
    for c in n.children.iter_mut().flatten() {
        permute(r, c);
    }
}

/// Pairs of equivalent texts: a place in a document with minimal layout and
/// the same place with each kind of trivia
pub fn trivia_pairs() -> Vec<(String, String)> {
    let mut res = Vec::new();
    let ws: Vec<String> = WS.iter().map(|c| c.to_string())
        .chain(["  ", "/**/", "/* x */", "/*\n*/", "/* /* n */ */", "/***/", "/*\"*/", "/*{*/", "/*//*/", "/* } */ /* \\ */", "/* * */"].iter().map(|s| s.to_string()))
        .filter(|s| !s.contains("//*"))
        .collect();
    let nl: Vec<String> = NL.iter().map(|s| s.to_string()).collect();
    let mut esc = Vec::new();
    for n in &nl {
        for w in ["", " ", "/**/", "\t\u{feff}"] {
            for c in ["", "// x", "//", "// \\"] {
                esc.push(format!("\\{}{}{} ", w, c, n));
            }
        }
    }
    let node_space: Vec<String> = ws.iter().chain(&esc).cloned().collect();
    // places where node space is required: a space is replaced
    for t in &node_space {
        for (a, b) in [("n", "1"), ("n", "k=1"), ("n", "(t)1"), ("n 1", "2"), ("n k=1", "k=2"), ("n \"s\"", "r\"s\""), ("n { m", "1; }"), ("\"n\"", "true"), ("n /-1", "2"), ("n 1", "/-2 3"), ("n null", "-1")] {
            res.push((format!("{} {}", a, b), format!("{}{}{}", a, t, b)));
            for t2 in [" ", "/**/", "\\\n"] {
                res.push((format!("{} {}", a, b), format!("{}{}{}{}", a, t, t2, b)));
            }
        }
        // optional places
        for (a, b) in [("n", "{ m; }"), ("n 1", "{}"), ("n {}", ";m"), ("n 1", ";m"), ("n /-", "1 2"), ("n /-", "k=1"), ("n /-", "{ m; }"), ("n", "/-{}\nm"), ("/-", "n 1;m"), ("n {}", "\nm"), ("n {}", "// x\nm"), ("n 1", ""), ("n", "")] {
            res.push((format!("{}{}", a, b), format!("{}{}{}", a, t, b)));
        }
    }
    // places between nodes
    let line: Vec<String> = ws.iter().chain(&nl).cloned()
        .chain(nl.iter().flat_map(|n| [format!("//{}", n), format!("// x{}", n), format!("//{{{}", n), format!("/-z{}", n), format!("/- z 1 k=2 {{ y; }}{}", n), format!("/-z// c{}", n)]))
        .chain(["/-z;", "/-(t)z 1;", "/-\"z\";", "/-z {};", "/-z {\n/-y\n};", "/- \\\n z;", "/-/**/z;"].iter().map(|s| s.to_string()))
        .collect();
    for t in &line {
        for (a, b) in [("", "n"), ("n;", "m"), ("n\n", "m"), ("n {", "m; }"), ("n { m;", "}"), ("n { m\n", "o\n}"), ("n;", ""), ("", ""), ("n {", "}"), ("n // c\n", "m")] {
            if a.is_empty() && b.is_empty() && t.contains('z') {
                res.push(("".into(), t.clone()));
                continue;
            }
            res.push((format!("{}{}", a, b), format!("{}{}{}", a, t, b)));
            for t2 in &["\n", " ", "/-y;", "\r"] {
                res.push((format!("{}{}", a, b), format!("{}{}{}{}", a, t, t2, b)));
            }
        }
    }
    // terminators
    let mut term: Vec<String> = nl.clone();
    term.extend(nl.iter().flat_map(|n| [format!(";{}", n), format!("//{}", n), format!(" // x;{}", n), format!(" {}", n)]));
    for t in &term {
        for (a, b) in [("n", "m"), ("n 1", "m 2"), ("n k=1", "m"), ("n {}", "m"), ("n { o", "}"), ("n { o; ", "}"), ("n \"s\"", "m"), ("n true", "m"), ("n 0x1", "m"), ("n 1.5", "m"), ("(t)n", "(t)m"), ("n /-1", "m"), ("n /-{}", "m"), ("n", "")] {
            if a.ends_with("; ") {
                continue;
            }
            res.push((format!("{};{}", a, b), format!("{}{}{}", a, t, b)));
        }
    }
    res
}
