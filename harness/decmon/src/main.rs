mod check;
mod context;
mod custom;
mod docgen;
mod dump;
mod model;
#[allow(dead_code)]
#[path = "../../astmon/src/obs.rs"]
mod obs;
#[path = "../../astmon/src/render.rs"]
mod render;
mod schema;
mod types;
mod wrap;

use check::*;
use docgen::*;
use model::{Dec, Def};
use refmodel::gen::{write_doc, GNode, Style};
use refmodel::report::*;
use refmodel::rng::Rng;

fn main() {
    let args = Args::parse();
    if args.replay.is_some() {
        std::process::exit(replay(args));
    }
    let rule = "distinct: type, way of decoding and kinds of faults, or the text if there are none";
    let run = Run::new(args, rule);
    let w = World::new();
    let prop = run.args.prop.clone();
    match &prop[..] {
        "C05" => total(&run, &w),
        "C10" => {
            docs(&run, &w, "one fault", None, &[1], 60_000, 1_500_000);
            docs(&run, &w, "two faults", None, &[2, 3], 20_000, 500_000);
            wrap::constructors(&run);
        }
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" => {
            docs(&run, &w, "valid", Some(&prop), &[0], 40_000, 800_000);
            docs(&run, &w, "changed", Some(&prop), &[1, 1, 2], 60_000, 1_500_000);
        }
        "C17" => {
            all_surplus(&run, &w);
            run.par("emitted errors", run.n(8_000, 200_000), |_, r, acc| context::emission(r, &run, acc));
        }
        "C18" => {
            docs(&run, &w, "several faults", None, &[2, 3, 4, 8], 70_000, 2_000_000);
            many_faults(&run, &w);
            very_many_faults(&run, &w);
        }
        "C22" => {
            docs(&run, &w, "valid", Some("C22"), &[0], 40_000, 800_000);
            docs(&run, &w, "changed", Some("C22"), &[1, 1, 2, 4], 60_000, 1_500_000);
            docs(&run, &w, "optional values", Some("C22o"), &[0, 1], 20_000, 400_000);
            wrap::scalar_traits(&run);
        }
        "C23" => entry_points(&run, &w),
        p => {
            eprintln!("no such property: {}", p);
            std::process::exit(2);
        }
    }
    run.seq(|acc| {
        acc.max("derived types", w.span.len() as u64);
    });
    std::process::exit(run.finish());
}

fn pick(w: &World, tag: Option<&str>, r: &mut Rng, sets: &(Vec<usize>, Vec<usize>)) -> usize {
    loop {
        let t = match tag {
            None => r.below(w.span.len()),
            Some(_) if !sets.0.is_empty() && r.pct(75) => *r.pick(&sets.0),
            _ => *r.pick(&sets.1),
        };
        return t;
    }
}

/// A valid document of the type
fn valid(w: &World, ti: usize, how: How, r: &mut Rng) -> Vec<GNode> {
    let depth = *r.pick(&[0, 1, 1, 2, 2, 3]);
    let big = if r.one_in(30) { *r.pick(&[12, 20, 40, 70, 140, 300]) } else { 0 };
    valid_of(w, ti, how, depth, big, r)
}

fn valid_of(w: &World, ti: usize, how: How, depth: usize, big: usize, r: &mut Rng) -> Vec<GNode> {
    let ty = w.span[ti].name;
    let mut g = G { defs: &w.defs, r, big };
    match how {
        How::Node => vec![g.node(&Dec::Ty(ty), None, depth)],
        How::List => {
            let n = if g.big > 0 { g.many().max(1) } else { *g.r.pick(&[1, 1, 1, 2, 3, 5]) };
            (0..n).map(|_| g.node(&Dec::Ty(ty), None, depth)).collect()
        }
        How::Doc => {
            let Def::Struct(f) = &w.defs[ty] else { panic!("harness: document") };
            g.kids(f, depth + 1)
        }
    }
}

fn how(w: &World, ti: usize, r: &mut Rng) -> How {
    match r.below(6) {
        0 => How::Node,
        1..=3 if w.span[ti].doc.is_some() => How::Doc,
        _ => How::List,
    }
}

fn case(w: &World, ti: usize, h: How, text: &str) -> Case {
    Case::with("decode", text, &format!("{} {}", w.span[ti].name, h.name()))
}

fn docs(run: &Run, w: &World, name: &str, tag: Option<&str>, changes: &[usize], quick: u64, thorough: u64) {
    let sets = tag.map_or((vec![], vec![]), |t| w.with(t));
    let twin = run.args.prop == "C22";
    run.par(name, run.n(quick, thorough), |_, r, acc| {
        let ti = pick(w, tag, r, &sets);
        let mut h = how(w, ti, r);
        if run.args.prop == "C18" && h == How::Node {
            h = How::List;
        }
        let mut d = valid(w, ti, h, r);
        let n = *r.pick(changes);
        for _ in 0..n {
            let c = change(r, &mut d, &w.names[ti]);
            acc.count(&format!("change: {}", c));
        }
        if h == How::Node && d.len() != 1 {
            return;
        }
        let st = if r.one_in(3) { Style::plain() } else { Style::random(r) };
        let (text, _) = write_doc(r, &d, &st);
        acc.sample(&text);
        acc.count(&format!("as {}", h.name()));
        acc.check(run, &case(w, ti, h, &text), |acc| {
            if twin { check_twin(w, ti, h, &text, acc) } else { check_text(w, ti, h, &text, acc) }
        });
    });
}

/// Long lists with faults in most of their elements
fn many_faults(run: &Run, w: &World) {
    run.par("many faults", run.n(2_500, 50_000), |i, r, acc| {
        let ti = i as usize % w.span.len();
        let h = if w.span[ti].doc.is_some() && r.one_in(3) { How::Doc } else { How::List };
        let big = *r.pick(&[10, 30, 60, 100, 150, 300]);
        let depth = r.below(3);
        let mut d = valid_of(w, ti, h, depth, big, r);
        for _ in 0..r.range(5, 2 * big) {
            change(r, &mut d, &w.names[ti]);
        }
        let (text, _) = write_doc(r, &d, &Style::plain());
        acc.check(run, &case(w, ti, h, &text), |acc| check_text(w, ti, h, &text, acc));
    });
}

/// Lists of thousands of nodes with faults in most of them
fn very_many_faults(run: &Run, w: &World) {
    run.par("very many faults", run.n(64, 1000), |_, r, acc| {
        let ti = r.below(w.span.len());
        let n = *r.pick(&[1200, 2500, 5000]);
        let mut d: Vec<_> = (0..n).map(|_| valid_of(w, ti, How::Node, 0, 0, r).pop().unwrap()).collect();
        for x in d.iter_mut() {
            let mut one = vec![x.clone()];
            change(r, &mut one, &w.names[ti]);
            if one.len() == 1 {
                *x = one.pop().unwrap();
            }
        }
        let (text, _) = write_doc(r, &d, &Style::plain());
        acc.check(run, &case(w, ti, How::List, &text), |acc| check_text(w, ti, How::List, &text, acc));
    });
}

fn all_surplus(run: &Run, w: &World) {
    run.par("one more element everywhere", run.n(4_000, 100_000), |i, r, acc| {
        let ti = i as usize % w.span.len();
        let h = how(w, ti, r);
        let d = valid(w, ti, h, r);
        if count(&d) > 40 {
            return;
        }
        let st = if r.one_in(2) { Style::plain() } else { Style::random(r) };
        let (text, _) = write_doc(r, &d, &st);
        acc.sample(&text);
        acc.check(run, &case(w, ti, h, &text), |acc| check_text(w, ti, h, &text, acc));
        let mut more = surplus(&d, &w.names[ti], r);
        r.shuffle(&mut more);
        for (what, d) in more.into_iter().take(40) {
            let (text, _) = write_doc(r, &d, &st);
            acc.count(&format!("surplus: {}", what));
            if h == How::Node && d.len() != 1 {
                continue;
            }
            acc.check(run, &case(w, ti, h, &text), |acc| check_text(w, ti, h, &text, acc));
        }
    });
}

fn any_text(w: &World, ti: usize, h: How, r: &mut Rng) -> String {
    match r.below(10) {
        0 => refmodel::mutate::soup(r),
        1 => {
            let d = refmodel::gen::gen_doc_mixed(r);
            let st = Style::random(r);
            write_doc(r, &d, &st).0
        }
        k => {
            let mut d = valid(w, ti, h, r);
            for _ in 0..r.below(5) {
                change(r, &mut d, &w.names[ti]);
            }
            let st = Style::random(r);
            let t = write_doc(r, &d, &st).0;
            if k < 5 { refmodel::mutate::mutate(r, &t) } else { t }
        }
    }
}

fn total(run: &Run, w: &World) {
    run.par("decode anything", run.n(25_000, 700_000), |_, r, acc| {
        let ti = r.below(w.span.len());
        let h = how(w, ti, r);
        let text = any_text(w, ti, h, r);
        acc.sample(&text);
        acc.check(run, &case(w, ti, h, &text), |acc| check_total(w, ti, h, &text, acc));
    });
}

fn entry_points(run: &Run, w: &World) {
    run.par("entry points", run.n(40_000, 1_000_000), |_, r, acc| {
        let ti = r.below(w.span.len());
        let h = if w.span[ti].doc.is_some() && r.one_in(2) { How::Doc } else { How::List };
        let text = any_text(w, ti, h, r);
        acc.sample(&text);
        acc.check(run, &case(w, ti, h, &text), |acc| context::entries(w, ti, &text, acc));
    });
    run.par("context", run.n(20_000, 500_000), |i, r, acc| context::context(i, r, run, acc));
    run.par("emitted errors", run.n(4_000, 100_000), |_, r, acc| context::emission(r, run, acc));
}

fn replay(args: Args) -> i32 {
    let path = args.replay.clone().unwrap();
    let doc = std::fs::read_to_string(&path).expect("replay file");
    let get = |k: &str| json_get(&doc, k).unwrap_or_default();
    let (kind, text, extra) = (get("kind"), get("text"), get("extra"));
    println!("replaying [{}] {:?} {:?}", kind, text, extra);
    if kind != "decode" {
        println!("run the check again: workloads are deterministic for a seed");
        return 0;
    }
    let w = World::new();
    let (ty, how) = extra.split_once(' ').expect("type");
    let ti = w.index[ty];
    let h = *context::ALL.iter().find(|h| h.name() == how).expect("way");
    let mut acc = Acc::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &args.prop[..] {
        "C05" => check_total(&w, ti, h, &text, &mut acc),
        "C22" => check_twin(&w, ti, h, &text, &mut acc),
        "C23" => context::entries(&w, ti, &text, &mut acc),
        _ => check_text(&w, ti, h, &text, &mut acc),
    }));
    match r {
        Ok(Ok(())) => { println!("no violation"); 0 }
        Ok(Err(d)) => { println!("{}", d); println!("VIOLATION property={} replay={}", args.prop, path); 1 }
        Err(p) => { println!("panic: {}", panic_text(&p)); println!("VIOLATION property={} replay={}", args.prop, path); 1 }
    }
}
