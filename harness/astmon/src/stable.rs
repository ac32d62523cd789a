//! C19: results depend only on the input
use std::collections::HashMap;
use std::sync::Barrier;
use knuffel::ast::SpannedNode;
use knuffel::span::{LineSpan, Span};
use refmodel::gen::*;
use refmodel::mutate::*;
use refmodel::report::*;
use refmodel::rng::Rng;
use crate::obs::*;
use crate::props::{parse, parse_l};

#[derive(knuffel::Decode, Debug)]
#[allow(dead_code)]
struct Item {
    #[knuffel(node_name)]
    name: String,
    #[knuffel(arguments)]
    args: Vec<Option<i64>>,
    #[knuffel(properties)]
    props: HashMap<String, String>,
    #[knuffel(children)]
    children: Vec<Item>,
}

#[derive(knuffel::Decode, Debug)]
#[allow(dead_code)]
enum Choice {
    A(#[knuffel(argument)] u8),
    B,
    Node(Item),
    X(#[knuffel(property(name="p"))] Option<String>),
}

#[derive(knuffel::Decode, Debug)]
#[allow(dead_code)]
struct Strict {
    #[knuffel(child, unwrap(argument))]
    a: Option<String>,
    #[knuffel(child)]
    b: bool,
    #[knuffel(children(name="node"))]
    nodes: Vec<Item>,
}

/// Counts calls through the context, to see that contexts are not shared
#[derive(Debug)]
struct Counted(usize);
struct Calls(std::cell::Cell<usize>);
impl<S: knuffel::traits::ErrorSpan> knuffel::Decode<S> for Counted {
    fn decode_node(node: &SpannedNode<S>, ctx: &mut knuffel::decode::Context<S>) -> Result<Self, knuffel::errors::DecodeError<S>> {
        if &**node.node_name == "panic" {
            panic!("custom decoder");
        }
        let n = ctx.get::<Calls>().map_or(0, |c| { c.0.set(c.0.get() + 1); c.0.get() });
        if ctx.get::<Calls>().is_none() {
            ctx.set(Calls(std::cell::Cell::new(0)));
        }
        Ok(Counted(n))
    }
}

fn res<T: std::fmt::Debug>(r: Result<T, knuffel::Error>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => failure(&e),
    }
}

/// Diagnostics with the source and its name
fn failure(e: &knuffel::Error) -> String {
    use miette::Diagnostic;
    // the source is cut where it ends, longer spans can't be read
    let read = |len: usize| e.source_code().and_then(|s| s.read_span(&(0, len).into(), 0, 0).ok().map(|c| (hash(&c.data()), c.name().map(String::from))));
    let (mut lo, mut hi) = (0, 1);
    while hi < 1 << 30 && read(hi).is_some() {
        lo = hi;
        hi *= 2;
    }
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if read(m).is_some() { lo = m } else { hi = m }
    }
    format!("{:?} {} {:?}", diags(e), lo, read(lo))
}

/// Everything observable about a text
fn digest(text: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let a = parse(text);
    if let Ok(d) = &a {
        v.push(hash(&shape_doc(d)));
        let c = d.clone();
        // a clone decodes like the original
        let one = |n: &SpannedNode<Span>| match knuffel::decode::node::<Item, Span>(n) {
            Ok(x) => sorted(&x),
            Err(e) => format!("{:?}", e.iter().map(|e| diag(e)).collect::<Vec<_>>()),
        };
        let x: Vec<String> = d.nodes.iter().map(one).collect();
        let y: Vec<String> = c.nodes.iter().map(one).collect();
        v.push(hash(&x));
        v.push(hash(&y));
        v.push((x == y) as u64);
    } else {
        v.extend([0, 0, 0, 1]);
    }
    v.push(hash(&res(a)));
    v.push(hash(&res(parse_l(text))));
    v.push(hash(&match knuffel::parse::<Vec<Item>>("f", text) {
        Ok(x) => x.iter().map(sorted).collect::<Vec<_>>().join(";"),
        Err(e) => failure(&e),
    }));
    v.push(hash(&res(knuffel::parse::<Vec<Choice>>("f", text).map(|c| c.iter().map(|c| match c {
        Choice::Node(i) => sorted(i),
        c => format!("{:?}", c),
    }).collect::<Vec<_>>()))));
    v.push(hash(&match knuffel::parse::<Strict>("f", text) {
        Ok(s) => format!("{:?} {} {}", s.a, s.b, s.nodes.iter().map(sorted).collect::<Vec<_>>().join(";")),
        Err(e) => failure(&e),
    }));
    v.push(hash(&res(knuffel::parse::<Vec<Counted>>("f", text))));
    v.push(hash(&res(knuffel::parse_with_context::<Vec<SpannedNode<Span>>, LineSpan, _>("f", text, |c| c.set(1u8)))));
    v
}

fn sorted(i: &Item) -> String {
    let mut p: Vec<_> = i.props.iter().collect();
    p.sort();
    format!("{} {:?} {:?} [{}]", i.name, i.args, p, i.children.iter().map(sorted).collect::<Vec<_>>().join(";"))
}

fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => soup(r),
        1 | 2 => {
            let d = gen_doc_mixed(r);
            let st = Style::random(r);
            let t = write_doc(r, &d, &st).0;
            mutate(r, &t)
        }
        3 | 4 => {
            let d = gen_doc_mixed(r);
            let st = Style::random(r);
            write_doc(r, &d, &st).0
        }
        // many errors of different kinds, many unknown names
        _ => {
            let names = ["a", "b", "node", "x", "zz", "q1", "q2", "q3", "q4"];
            let mut t = String::new();
            for _ in 0..r.range(1, 8) {
                t.push_str(names[r.below(names.len())]);
                for _ in 0..r.below(4) {
                    t.push_str([" 1", " 300", " \"s\"", " null", " p=\"x\"", " q=1", " r=true", " s=(u8)1", " (t)1"][r.below(9)]);
                }
                if r.one_in(4) {
                    t.push_str(" { a \"x\" y=1; b 2; }");
                }
                t.push('\n');
            }
            t
        }
    }
}

/// A text that differs in one character or two
fn neighbour(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return " ".into();
    }
    let i = if r.one_in(4) { c.len() - 1 } else { r.below(c.len()) };
    match r.below(8) {
        0 => { c.remove(i); }
        1 => c.insert(i, c[i]),
        2 => { let j = r.below(c.len()); c.swap(i, j); }
        3 => c.push('\n'),
        // same length
        _ => {
            let at: Vec<usize> = (0..c.len()).filter(|k| c[*k].is_ascii_alphanumeric()).collect();
            let i = if at.is_empty() { i } else { *r.pick(&at) };
            c[i] = match c[i] {
                '0'..='8' | 'a'..='y' | 'A'..='Y' => (c[i] as u8 + 1) as char,
                '9' => '0',
                'z' => 'a',
                'Z' => 'A',
                x if x.len_utf8() == 2 => 'é',
                x => x,
            };
        }
    }
    c.into_iter().collect()
}

pub fn c19(args: Args) -> i32 {
    let mut run = Run::new(args, "one evaluation = one text parsed and decoded into five types again, in another order, on other threads running \
        concurrently and after failures and caught panics, and compared with the first result; distinct by text");
    run.case_limit = 120;
    let n = run.n(2_000, 40_000) as usize;
    let seed = run.args.seed;
    let texts: Vec<String> = (0..n).map(|i| text(&mut Rng::stream(seed, i as u64))).collect();
    let first: Vec<Vec<u64>> = {
        let slots: Vec<std::sync::OnceLock<Vec<u64>>> = (0..n).map(|_| Default::default()).collect();
        run.par("first pass", n as u64, |i, _, acc| {
            let t = &texts[i as usize];
            acc.check(&run, &Case::new("first", t), |_| {
                let d = digest(t);
                if d[3] != 1 {
                    return Err("a clone of the AST decodes differently".into());
                }
                slots[i as usize].set(d).ok();
                Ok(())
            });
        });
        slots.into_iter().map(|s| s.into_inner().unwrap_or_default()).collect()
    };
    let compare = |i: usize, pass: &str, acc: &mut Acc| {
        let t = &texts[i];
        acc.check(&run, &Case::with("again", t, pass), |acc| {
            let d = digest(t);
            acc.eval(hash(t), !t.is_empty());
            acc.count(pass);
            if i % 500 == 0 {
                acc.sample(t);
            }
            if d != first[i] {
                let k = d.iter().zip(&first[i]).position(|(a, b)| a != b);
                return Err(format!("{}: result {:?} is different from the first pass", pass, k));
            }
            Ok(())
        });
    };
    if !run.stopped() {
        // one thread, reverse order
        run.seq(|acc| {
            for i in (0..n).rev().step_by(2) {
                compare(i, "sequential, reverse order", acc);
            }
        });
        // all threads run the same texts at the same time
        let group = run.threads;
        let barrier = Barrier::new(group);
        std::thread::scope(|s| {
            for t in 0..group {
                let (run, barrier, compare) = (&run, &barrier, &compare);
                std::thread::Builder::new().stack_size(run.stack).spawn_scoped(s, move || {
                    run.seq(|acc| {
                        let mut r = Rng::stream(seed, 77 + t as u64);
                        barrier.wait();
                        for k in 0..n {
                            let i = if k % 3 == 0 { r.below(n) } else { k };
                            if k % 17 == t {
                                // failures and panics elsewhere
                                let p = std::panic::catch_unwind(|| { let _ = knuffel::parse::<Vec<Counted>>("f", "a\npanic\n"); });
                                if p.is_ok() {
                                    acc.check(run, &Case::with("again", "a\npanic\n", "custom decoder"), |_| {
                                        Err("the custom decoder that panics was not run: text is rejected now".into())
                                    });
                                }
                                let _ = knuffel::parse::<Strict>("f", "a 1 2 {");
                                acc.count("panics caught in between");
                            }
                            compare(i, "concurrent, same texts", acc);
                            if acc.violations.len() > 3 {
                                break;
                            }
                        }
                    });
                }).expect("harness: spawn");
            }
        });
        // what is not the same text, but looks like it, in between
        run.par("neighbours", n as u64, |i, r, acc| {
            let i = i as usize;
            let other = neighbour(r, &texts[i]);
            digest(&other);
            acc.count(if other.len() == texts[i].len() { "after a text of the same length" } else { "after a similar text" });
            compare(i, "after a similar text", acc);
        });
        run.par("new order", n as u64 * 2, |_, r, acc| {
            let i = r.below(n);
            compare(i, "random order", acc);
            compare(i, "immediately repeated", acc);
        });
    }
    run.finish()
}
