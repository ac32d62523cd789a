use knuffel::ast::Document;
use knuffel::span::{LineSpan, Span};
use refmodel::kdl::{self, LineIndex};
use refmodel::report::*;
use crate::obs::*;
use crate::work::*;

pub fn parse(text: &str) -> Result<Document<Span>, knuffel::Error> {
    knuffel::parse_ast::<Span>("x.kdl", text)
}
pub fn parse_l(text: &str) -> Result<Document<LineSpan>, knuffel::Error> {
    knuffel::parse_ast::<LineSpan>("x.kdl", text)
}

const MIX: Mix = Mix {
    docs: (30_000, 600_000), mutants: (20_000, 500_000), soups: (80_000, 2_000_000),
    enum_len: (4, 6), unicode: true, extremes: true, truncate: (1_000, 20_000),
};

pub fn dispatch(args: Args) -> i32 {
    if args.replay.is_some() {
        return crate::replay(args);
    }
    match &args.prop[..] {
        "C01" => c01(args),
        "C02" => c02(args),
        "C03" => crate::values::c03(args),
        "C04" => c04(args),
        "C05" => c05(args),
        "C06" => crate::cost::main(args),
        "C07" => c07(args),
        "C08" => c08(args),
        "C09" => c09(args),
        "C19" => crate::stable::c19(args),
        "C20" => crate::cbor::c20(args),
        "C21" => crate::astdec::c21(args),
        "C24" => crate::values::c24(args),
        p => { eprintln!("unknown property {}", p); 2 }
    }
}

fn note(acc: &mut Acc, d: &kdl::RDoc) {
    acc.add("nodes seen", d.stats.nodes as u64);
    for (k, v) in [("slashdash", d.stats.slashdash), ("comments", d.stats.comments), ("line continuations", d.stats.esclines),
                   ("raw strings", d.stats.raw), ("escapes", d.stats.escapes)] {
        if v > 0 {
            acc.add(k, v as u64);
        }
    }
    acc.max("depth", d.stats.depth as u64);
}

/// Self-check of the harness: the reference parser understands what the
/// generator writes
fn self_check(input: &In, r: &Result<kdl::RDoc, kdl::RErr>) {
    if let Some(exp) = &input.expected {
        match r {
            Ok(d) if d.ambiguous => {}
            Ok(d) if &d.nodes == exp => {}
            Ok(d) => panic!("harness: model disagrees\n{:?}\n{:#?}\n{:#?}", input.text, exp, d.nodes),
            Err(e) => panic!("harness: model rejects {:?}: {:?}", input.text, e),
        }
    }
}

type Check = fn(&In, &mut Acc) -> Result<(), String>;

/// Per-text monitor of a property, used by the workloads and by replay
pub fn text_check(prop: &str) -> Option<Check> {
    Some(match prop {
        "C01" => chk01,
        "C02" => chk02,
        "C05" => chk05,
        "C07" => chk07,
        "C08" => chk08,
        "C09" => chk09,
        "C20" => crate::cbor::chk20,
        "C21" => crate::astdec::chk21,
        _ => return None,
    })
}

fn chk01(i: &In, acc: &mut Acc) -> Result<(), String> {
    let exp = kdl::parse(&i.text);
    self_check(i, &exp);
    let amb = match &exp { Ok(d) => d.ambiguous, Err(e) => e.ambiguous };
    if amb {
        acc.count("skipped: ambiguous comment");
        return Ok(());
    }
    let got = parse(&i.text);
    acc.eval(hash(&i.text), match &exp { Ok(d) => !d.nodes.is_empty(), Err(e) => e.far > 0 });
    match (&exp, &got) {
        (Ok(d), Ok(_)) => { acc.count("accepted"); note(acc, d); }
        (Err(e), Err(_)) => { acc.count("rejected"); acc.count(&format!("rejected: {}", e.what)); }
        (Ok(_), Err(e)) => return Err(format!("valid document is rejected: {:?}", diags(e))),
        (Err(e), Ok(d)) => return Err(format!("invalid document ({} at byte {}) is accepted as {}", e.what, e.far, shape_doc(d))),
    }
    acc.sample(&i.text);
    Ok(())
}

fn c01(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = one text parsed by knuffel and by the reference recognizer and the verdicts compared; \
        distinct by text; non-trivial if it has a node or the first wrong character is not the first one");
    drive(&run, &MIX, &chk01);
    run.finish()
}

/// Reference AST of the text, if it is a document
fn model(i: &In, acc: &mut Acc) -> Option<kdl::RDoc> {
    match kdl::parse(&i.text) {
        Ok(mut d) if !d.ambiguous => {
            note(acc, &d);
            if let Some(e) = &i.expected {
                d.nodes = e.clone();
            }
            Some(d)
        }
        _ => { acc.count("skipped: not a document"); None }
    }
}

fn chk02(i: &In, acc: &mut Acc) -> Result<(), String> {
    let Some(exp) = model(i, acc) else { return Ok(()) };
    let Ok(got) = parse(&i.text) else { acc.count("skipped: rejected"); return Ok(()) };
    acc.eval(hash(&shape_doc(&got)), !exp.nodes.is_empty());
    acc.sample(&i.text);
    cmp_nodes(&Cmp { spans: false, values: true, lines: None }, &exp.nodes, &got.nodes)
}

fn c02(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = the AST of one accepted document compared element by element with the model \
        it was written from (or with the reference parser); distinct by AST contents; non-trivial if it has a node");
    drive(&run, &Mix { soups: (60_000, 2_000_000), ..MIX }, &chk02);
    run.finish()
}

fn chk07(i: &In, acc: &mut Acc) -> Result<(), String> {
    let Some(exp) = model(i, acc) else { return Ok(()) };
    let Ok(got) = parse(&i.text) else { acc.count("skipped: rejected"); return Ok(()) };
    acc.eval(hash(&i.text), !exp.nodes.is_empty());
    acc.sample(&i.text);
    let mut n = 0;
    geometry(&i.text, &got.nodes, (0, i.text.len()), &mut n)?;
    acc.add("spans compared", n);
    cmp_nodes(&Cmp { spans: true, values: false, lines: None }, &exp.nodes, &got.nodes)
}

/// Nesting and order of spans, independent of the model
fn geometry(text: &str, nodes: &[knuffel::ast::SpannedNode<Span>], outer: (usize, usize), n: &mut u64) -> Result<(), String> {
    let mut pos = outer.0;
    let mut inside = |what: &str, s: &Span, lo: usize, hi: usize| -> Result<(), String> {
        *n += 1;
        if s.0 < lo || s.1 > hi || s.0 > s.1 || !text.is_char_boundary(s.0) || !text.is_char_boundary(s.1) {
            return Err(format!("span {} of {} is not within {}..{}", s, what, lo, hi));
        }
        Ok(())
    };
    for node in nodes {
        let sp = node.span().clone();
        inside("node", &sp, pos, outer.1)?;
        pos = sp.1;
        let mut p = sp.0;
        if let Some(t) = &node.type_name {
            inside("type name", t.span(), p, sp.1)?;
            p = t.span().1;
        }
        inside("node name", node.node_name.span(), p, sp.1)?;
        p = node.node_name.span().1;
        let mut q = p;
        for a in &node.arguments {
            if let Some(t) = &a.type_name {
                inside("type name", t.span(), q, sp.1)?;
                q = t.span().1;
            }
            inside("argument", a.literal.span(), q, sp.1)?;
            q = a.literal.span().1;
        }
        for (k, v) in &node.properties {
            inside("property name", k.span(), p, sp.1)?;
            inside("property value", v.literal.span(), k.span().1, sp.1)?;
        }
    }
    for node in nodes {
        if let Some(c) = &node.children {
            let s = c.span();
            if !text[s.0..s.1].starts_with('{') || !text[s.0..s.1].ends_with('}') {
                return Err(format!("children block {} is {:?}", s, &text[s.0..s.1]));
            }
            geometry(text, c, (s.0 + 1, s.1 - 1), n)?;
        }
    }
    Ok(())
}

fn c07(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = all spans of the AST of one accepted document compared with the byte ranges \
        recorded when the document was written (or by the reference parser) and with each other; distinct by text; non-trivial if it has a node");
    drive(&run, &Mix { soups: (60_000, 2_000_000), ..MIX }, &chk07);
    run.finish()
}

fn chk08(i: &In, acc: &mut Acc) -> Result<(), String> {
    let idx = LineIndex::new(&i.text, |c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0));
    match (parse(&i.text), parse_l(&i.text)) {
        (Ok(a), Ok(b)) => {
            acc.eval(hash(&i.text), i.text.contains(kdl::is_newline));
            acc.sample(&i.text);
            let mut n = 0;
            same_nodes(&idx, &a.nodes, &b.nodes, &mut n)?;
            acc.add("positions compared", n);
            Ok(())
        }
        (Err(a), Err(b)) => {
            acc.eval(hash(&i.text), i.text.contains(kdl::is_newline));
            acc.count("rejected by both");
            let (a, b) = (diags(&a), diags(&b));
            if a != b {
                return Err(format!("diagnostics differ: {:?} and {:?}", a, b));
            }
            Ok(())
        }
        (a, b) => Err(format!("accepted with byte spans: {}, with line spans: {}", a.is_ok(), b.is_ok())),
    }
}

fn same_nodes(idx: &LineIndex, a: &[knuffel::ast::SpannedNode<Span>], b: &[knuffel::ast::SpannedNode<LineSpan>], n: &mut u64) -> Result<(), String> {
    if shape(a) != shape(b) {
        return Err(format!("different AST: {} and {}", shape(a), shape(b)));
    }
    let mut pos = |what: &str, a: &Span, b: &LineSpan| -> Result<(), String> {
        for (off, p) in [(a.0, &b.0), (a.1, &b.1)] {
            *n += 1;
            if p.offset != off {
                return Err(format!("{}: offset {} with line spans, {} with byte spans", what, p.offset, off));
            }
            match idx.get(off) {
                Some(e) if e == (p.line, p.column) => {}
                e => return Err(format!("{}: byte {} is at line {} column {}, expected {:?}", what, off, p.line, p.column, e)),
            }
        }
        Ok(())
    };
    for (a, b) in a.iter().zip(b) {
        pos("node", a.span(), b.span())?;
        pos("node name", a.node_name.span(), b.node_name.span())?;
        if let (Some(a), Some(b)) = (&a.type_name, &b.type_name) {
            pos("type name", a.span(), b.span())?;
        }
        for (a, b) in a.arguments.iter().chain(a.properties.values()).zip(b.arguments.iter().chain(b.properties.values())) {
            pos("literal", a.literal.span(), b.literal.span())?;
            if let (Some(a), Some(b)) = (&a.type_name, &b.type_name) {
                pos("type name", a.span(), b.span())?;
            }
        }
        for (a, b) in a.properties.keys().zip(b.properties.keys()) {
            pos("property name", a.span(), b.span())?;
        }
        if let (Some(a), Some(b)) = (&a.children, &b.children) {
            pos("children", a.span(), b.span())?;
        }
    }
    for (a, b) in a.iter().zip(b) {
        if let (Some(a), Some(b)) = (&a.children, &b.children) {
            same_nodes(idx, a, b, n)?;
        }
    }
    Ok(())
}

fn c08(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = one text parsed with both kinds of spans; offsets, lines and columns of every span \
        (or all diagnostics) compared with each other and with a separate line index; distinct by text; non-trivial if it has a newline");
    drive(&run, &Mix { docs: (25_000, 600_000), mutants: (8_000, 300_000), soups: (40_000, 1_000_000), ..MIX }, &chk08);
    run.finish()
}

fn c04(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = one document model written in two random layouts with properties permuted, both parsed \
        and compared; distinct by the pair of texts; non-trivial if the texts differ and have nodes");
    run.par("layouts", run.n(60_000, 1_500_000), |_, r, acc| {
        let (a, b) = layouts(r);
        acc.check(&run, &Case::with("layouts", &a, &b), |acc| chk04(&a, &b, acc));
    });
    // every kind of trivia in every place where it is allowed
    let list = trivia_pairs();
    run.par("every trivia in every place", list.len() as u64, |i, _, acc| {
        let (a, b) = &list[i as usize];
        acc.check(&run, &Case::with("trivia", a, b), |acc| chk04(a, b, acc));
    });
    run.finish()
}

pub fn chk04(a: &str, b: &str, acc: &mut Acc) -> Result<(), String> {
    let amb = |t: &str| match kdl::parse(t) { Ok(d) => d.ambiguous, Err(e) => panic!("harness: {:?} {:?}", t, e) };
    if amb(a) || amb(b) {
        acc.count("skipped: ambiguous comment");
        return Ok(());
    }
    acc.eval(hash(&(a, b)), a != b);
    match (parse(a), parse(b)) {
        (Ok(x), Ok(y)) => {
            let (x, y) = (shape_doc(&x), shape_doc(&y));
            acc.sample(&format!("{} <=> {}", a, b));
            if x != y {
                return Err(format!("different AST: {} and {}", x, y));
            }
            Ok(())
        }
        (Err(_), Err(_)) => { acc.count("rejected both"); Ok(()) }
        (Err(e), _) => Err(format!("first layout is rejected: {:?}", diags(&e))),
        (_, Err(e)) => Err(format!("second layout is rejected: {:?}", diags(&e))),
    }
}

fn chk05(i: &In, acc: &mut Acc) -> Result<(), String> {
    acc.eval(hash(&i.text), !i.text.is_empty());
    let a = parse(&i.text);
    let b = parse_l(&i.text);
    for e in [a.err(), b.err()].into_iter().flatten() {
        let n = crate::render::check(&e, &i.text)?;
        acc.count("errors rendered");
        acc.add("rendered bytes", n as u64);
    }
    acc.sample(&i.text);
    Ok(())
}

/// One document nested `n` levels, on a stack of 8 MB
fn deep(family: &str, n: usize) -> i32 {
    let t = match family {
        "children" => format!("{}z{}", "a {".repeat(n), ";}".repeat(n)),
        "unclosed" => "a {".repeat(n),
        "comments" => format!("a {}x{} 1", "/* ".repeat(n), " */".repeat(n)),
        "open-comments" => format!("a {}x", "/* ".repeat(n)),
        "slashdash" => format!("{}z{}", "/-a {".repeat(n), ";}".repeat(n)),
        "decode" => format!("{}z{}", "a {".repeat(n), ";}".repeat(n)),
        f => panic!("harness: {}", f),
    };
    let dec = family == "decode";
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let r = if dec {
            knuffel::parse::<Vec<crate::stable_types::Loose>>("x", &t).map(|_| ())
        } else {
            parse(&t).map(|_| ())
        };
        match r {
            Ok(()) => println!("ok"),
            Err(e) => { crate::render::check(&e, &t).unwrap(); println!("error") }
        }
    }).expect("harness: spawn");
    if h.join().is_ok() { 0 } else { 101 }
}

fn c05(args: Args) -> i32 {
    if let Some(i) = args.extra.iter().position(|x| x == "--deep") {
        return deep(&args.extra[i + 1], args.extra[i + 2].parse().unwrap());
    }
    let run = Run::new(args, "one evaluation = one text parsed with both kinds of spans under a panic monitor, all errors rendered by four \
        reporters and their labels read back from the source; distinct by text; non-trivial if not empty");
    drive(&run, &Mix { docs: (5_000, 100_000), mutants: (10_000, 200_000), soups: (40_000, 1_000_000), enum_len: (3, 5), ..MIX }, &chk05);
    run.finish()
}

fn chk09(i: &In, acc: &mut Acc) -> Result<(), String> {
    let e = match kdl::parse(&i.text) {
        Err(e) if !e.ambiguous => e,
        _ => { acc.count("skipped: a valid document"); return Ok(()) }
    };
    let Err(err) = parse(&i.text) else { acc.count("skipped: accepted"); return Ok(()) };
    let ds = diags(&err);
    acc.eval(hash(&ds), e.far > 0);
    acc.count(&format!("rejected: {}", e.what));
    acc.sample(&i.text);
    check_syntax_error(&i.text, &e, &ds, acc)?;
    let Err(err) = parse_l(&i.text) else { return Err("accepted with line spans".into()) };
    let dl = diags(&err);
    acc.add("diagnostics with line spans", dl.len() as u64);
    if dl != ds {
        check_syntax_error(&i.text, &e, &dl, acc).map_err(|e| format!("with line spans: {}", e))?;
        return Err(format!("diagnostics differ between kinds of spans: {:?} and {:?}", ds, dl));
    }
    Ok(())
}

fn c09(args: Args) -> i32 {
    let run = Run::new(args, "one evaluation = all diagnostics of one rejected text checked against the text and the place of the error found by \
        the reference recognizer; distinct by diagnostics; non-trivial if the first wrong character is not the first one");
    drive(&run, &Mix { docs: (0, 0), mutants: (30_000, 800_000), soups: (120_000, 3_000_000), unicode: false, ..MIX }, &chk09);
    run.finish()
}

/// How knuffel shows a character in messages
fn shown(c: char) -> String {
    match c {
        '"' | '\'' | '\\' => format!("`{}`", c),
        c => format!("`{}`", c.escape_default()),
    }
}

/// Checks one diagnostic of a syntax error against the text
fn check_syntax_diag(text: &str, d: &Diag) -> Result<(), String> {
    if d.labels.is_empty() {
        return Err(format!("diagnostic {:?} has no location", d.msg));
    }
    for l in &d.labels {
        let end = l.start.checked_add(l.len).ok_or("overflow")?;
        if end > text.len() || !text.is_char_boundary(l.start) || !text.is_char_boundary(end) {
            return Err(format!("label {}..{} of {:?} is not inside of the text of {} bytes", l.start, end, d.msg, text.len()));
        }
    }
    let l = &d.labels[0];
    let at = &text[l.start..l.start + l.len];
    if let Some(rest) = d.msg.strip_prefix("found ") {
        let first = text[l.start..].chars().next();
        if rest.starts_with("end of input") {
            if l.start != text.len() {
                return Err(format!("{:?} at byte {} of {}", d.msg, l.start, text.len()));
            }
        } else if rest.starts_with("number") {
            if !at.trim_start_matches(['+', '-']).starts_with(|c: char| c.is_ascii_digit()) {
                return Err(format!("{:?} at {:?}", d.msg, at));
            }
        } else if rest.starts_with("keyword") {
            if !["true", "false", "null"].contains(&at) {
                return Err(format!("{:?} at {:?}", d.msg, at));
            }
        } else if let Some(tok) = ["`true`", "`false`", "`null`"].iter().find(|t| rest.starts_with(**t)) {
            if at != tok.trim_matches('`') {
                return Err(format!("{:?} at {:?}", d.msg, at));
            }
        } else if !first.map_or(false, |c| rest.starts_with(&shown(c))) {
            return Err(format!("{:?} at {:?}", d.msg, first));
        }
    }
    if d.msg.contains("identifiers cannot be used as arguments") && !refmodel::gen::is_bare(at) {
        return Err(format!("{:?} at {:?}", d.msg, at));
    }
    if d.msg.contains("numbers cannot be used as property names")
        && !matches!(kdl::parse(&format!("n {}", at)), Ok(d) if d.nodes[0].args.len() == 1 && matches!(d.nodes[0].args[0].lit, kdl::RLit::Int(_) | kdl::RLit::Dec(_)))
    {
        return Err(format!("{:?} at {:?}", d.msg, at));
    }
    if l.text == "invalid character code" && !(at.starts_with('{') && at.ends_with('}') && text[..l.start].ends_with("\\u")) {
        return Err(format!("{:?} ({}) at {:?}", d.msg, l.text, at));
    }
    if let Some(rest) = d.msg.strip_prefix("unclosed ") {
        if d.labels.len() != 2 {
            return Err(format!("{:?} has {} labels", d.msg, d.labels.len()));
        }
        if d.labels[1].start != text.len() {
            return Err(format!("{:?} expects the closing at byte {} of {}", d.msg, d.labels[1].start, text.len()));
        }
        if !rest.ends_with(&format!("`{}`", at)) {
            return Err(format!("{:?} opened at {:?}", d.msg, at));
        }
    }
    Ok(())
}

fn check_syntax_error(text: &str, e: &kdl::RErr, ds: &[Diag], acc: &mut Acc) -> Result<(), String> {
    if ds.is_empty() {
        return Err("error without diagnostics".into());
    }
    for d in ds {
        check_syntax_diag(text, d)?;
        acc.add("diagnostics", 1);
    }
    let first = ds.iter().flat_map(|d| &d.labels).map(|l| l.start).min().unwrap();
    if first > e.far.max(e.far_relaxed) {
        return Err(format!("the text is wrong at byte {} ({}), but the first diagnostic is at {}: {:?}", e.far, e.what, first, ds));
    }
    let last = ds.iter().flat_map(|d| &d.labels).map(|l| l.start + l.len).max().unwrap();
    if last < e.token {
        return Err(format!("the text is wrong at byte {} ({}), but all diagnostics are before byte {}: {:?}", e.far, e.what, e.token, ds));
    }
    // nothing but the closing delimiter is missing
    let only_unclosed = e.what.starts_with("unclosed") || e.what == "eof in children";
    if let (true, Some((o, sp))) = (only_unclosed, e.open.last()) {
        let opener = &text[sp.0..sp.1];
        let what = match o {
            kdl::Open::Str => "string",
            kdl::Open::Raw(_) => "raw string",
            kdl::Open::Comment => "comment",
            kdl::Open::Brace => "curly braces",
        };
        // the innermost open construct is reported, any level of nested comments
        let ok = ds.iter().any(|d| d.msg.starts_with(&format!("unclosed {} ", what)) && e.open.iter().any(|(k, p)| {
            (p == sp || (*k == kdl::Open::Comment && k == o))
                && p.0 == d.labels[0].start && p.1 - p.0 == d.labels[0].len
        }));
        if !ok {
            return Err(format!("unclosed {} {} at {} is not reported: {:?}", what, opener, sp.0, ds));
        }
        acc.count(&format!("unclosed {}", what));
    }
    Ok(())
}

