//! C06: instructions executed and bytes allocated at sizes n, 2n and 4n
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use knuffel::span::{LineSpan, Span};
use refmodel::report::*;

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);

fn note(n: usize) {
    if ON.load(Relaxed) {
        BYTES.fetch_add(n as u64, Relaxed);
        // can wrap below zero: memory from before the measurement is freed
        let l = LIVE.fetch_add(n as u64, Relaxed).wrapping_add(n as u64);
        if (l as i64) > 0 {
            PEAK.fetch_max(l, Relaxed);
        }
    }
}
fn gone(n: usize) {
    if ON.load(Relaxed) {
        let _ = LIVE.fetch_sub(n as u64, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        gone(l.size());
        System.realloc(p, l, n)
    }
}

#[derive(knuffel::Decode)]
#[allow(dead_code)]
struct Props {
    #[knuffel(property, default)] a: Option<i64>,
    #[knuffel(properties)] rest: BTreeMap<String, i64>,
    #[knuffel(arguments)] args: Vec<i64>,
}
#[derive(knuffel::Decode)]
#[allow(dead_code)]
struct Strict {
    #[knuffel(argument)] a: u8,
    #[knuffel(property)] k: Option<String>,
    #[knuffel(child)] flag: bool,
    #[knuffel(child, unwrap(argument))] one: Option<u8>,
}
#[derive(knuffel::Decode)]
#[allow(dead_code)]
struct Tree {
    #[knuffel(children(name="a"))] a: Vec<Tree>,
    #[knuffel(children(name="b"))] b: Vec<Strict>,
    #[knuffel(flatten(child))] part: Part,
    #[knuffel(children)] rest: Vec<Any>,
}
#[derive(knuffel::Decode, Default)]
#[allow(dead_code)]
struct Part {
    #[knuffel(child)] p1: bool,
    #[knuffel(child)] p2: Option<Box<Any>>,
}
#[derive(knuffel::Decode)]
#[allow(dead_code)]
enum Any {
    X,
    Y(#[knuffel(argument)] String),
    Z(Props),
    T(Tree),
}
#[derive(knuffel::Decode)]
#[allow(dead_code)]
struct Bytes {
    #[knuffel(arguments, bytes)] a: Vec<Vec<u8>>,
}

type Gen = fn(usize) -> String;
#[derive(Clone, Copy, PartialEq)]
enum How { Ast, Line, Props, Strict, Tree, Any, Bytes, AstNodes }

fn rep(s: &str, n: usize) -> String {
    s.repeat(n / s.len() + 1)
}
fn mid(a: &str, s: &str, n: usize, b: &str) -> String {
    format!("{}{}{}", a, rep(s, n), b)
}
fn num(n: usize, per: usize, f: impl Fn(usize) -> String) -> String {
    (0..n / per + 1).map(f).collect()
}

/// name, target, size n (characters, or depth), text
fn families() -> Vec<(&'static str, How, usize, Gen)> {
    use How::*;
    const N: usize = 2400;
    const D: usize = 24;
    let mut v: Vec<(&'static str, How, usize, Gen)> = vec![
        ("nodes", Ast, N, |n| rep("node\n", n)),
        ("nodes with semicolons", Ast, N, |n| rep("n;", n)),
        ("mixed", Ast, N, |n| rep("node 1 \"two\" k=3.5 { child true; }\n", n)),
        ("blank lines", Ast, N, |n| rep("\n", n)),
        ("crlf", Ast, N, |n| rep("\r\n", n)),
        ("spaces", Ast, N, |n| rep(" ", n)),
        ("spaces before argument", Ast, N, |n| mid("n", " ", n, "1")),
        ("spaces before brace", Ast, N, |n| mid("n", " ", n, "{}")),
        ("spaces before end of node", Ast, N, |n| mid("n 1", " ", n, "\n")),
        ("spaces in children", Ast, N, |n| mid("n {", " ", n, "}")),
        ("spaces after slashdash", Ast, N, |n| mid("n /-", " ", n, "1")),
        ("arguments", Ast, N, |n| mid("n", " 1", n, "")),
        ("string arguments", Ast, N, |n| mid("n", " \"a\"", n, "")),
        ("typed arguments", Ast, N, |n| mid("n", " (t)1", n, "")),
        ("properties", Ast, N, |n| format!("n{}", num(n, 8, |i| format!(" k{}={}", i, i)))),
        ("repeated property", Ast, N, |n| mid("n", " k=1", n, "")),
        ("quoted properties", Ast, N, |n| format!("n{}", num(n, 8, |i| format!(" \"k{}\"={}", i, i)))),
        ("long identifier", Ast, N, |n| rep("abc", n)),
        ("long argument identifier", Ast, N, |n| mid("n ", "abc", n, "")),
        ("long type name", Ast, N, |n| mid("(", "t", n, ")n")),
        ("long string", Ast, N, |n| mid("n \"", "abc ", n, "\"")),
        ("long escapes", Ast, N, |n| mid("n \"", "\\n\\u{1f600}", n, "\"")),
        ("long raw string", Ast, N, |n| mid("n r#\"", "a\"", n, "\"#")),
        ("raw string with many hashes", Ast, N, |n| { let h = rep("#", n / 3); format!("n r{}\"x\"{}", h, h) }),
        ("long number", Ast, N, |n| mid("n ", "12_", n, "")),
        ("long hex number", Ast, N, |n| mid("n 0x", "f0_", n, "")),
        ("long decimal", Ast, N, |n| mid("n 1.", "12", n, "")),
        ("line comments", Ast, N, |n| rep("// x\n", n)),
        ("long line comment", Ast, N, |n| mid("n //", "x", n, "")),
        ("block comments", Ast, N, |n| mid("n ", "/* */", n, "1")),
        ("long block comment", Ast, N, |n| mid("/*", "x * ", n, "*/n")),
        ("line continuations", Ast, N, |n| mid("n ", "\\\n", n, "1")),
        ("line continuations with comments", Ast, N, |n| mid("n ", "\\ // x\n", n, "1")),
        ("slashdash nodes", Ast, N, |n| rep("/-n 1\n", n)),
        ("slashdash arguments", Ast, N, |n| mid("n", " /-1", n, "")),
        ("slashdash properties", Ast, N, |n| mid("n", " /-k=1", n, "")),
        ("slashdash children", Ast, N, |n| rep("n /-{ m; }\n", n)),
        ("slashdash repeated", Ast, N, |n| rep("/-", n)),
        ("slashdash repeated on argument", Ast, N, |n| mid("n ", "/-", n, "1")),
        ("unicode", Ast, N, |n| rep("漢é \"\u{1f600}\" ё=1\u{2028}", n)),
        ("many children", Ast, N, |n| mid("n {\n", "m 1\n", n, "}")),
        ("byte order marks", Ast, N, |n| rep("\u{feff}", n)),
        // invalid
        ("unclosed comment", Ast, N, |n| mid("n /*", "x", n, "")),
        ("unclosed comments in nodes", Ast, N, |n| rep("n /* ", n)),
        ("unclosed comment after nodes", Ast, N, |n| mid("", "n 1\n", n, "/*")),
        ("unclosed string", Ast, N, |n| mid("n \"", "x", n, "")),
        ("unclosed string with escapes", Ast, N, |n| mid("n \"", "\\n", n, "")),
        ("odd quotes", Ast, N, |n| mid("n ", "\"\"", n, "\"")),
        ("unclosed raw string", Ast, N, |n| mid("n r#\"", "x\"", n, "")),
        ("unclosed raw string with many hashes", Ast, N, |n| format!("n r{}\"x", rep("#", n))),
        ("hashes", Ast, N, |n| mid("n r", "#", n, "")),
        ("unclosed braces in sequence", Ast, N, |n| mid("n {\n", "m\n", n, "")),
        ("closing braces", Ast, N, |n| rep("}", n)),
        ("closing parentheses", Ast, N, |n| mid("n ", ")", n, "")),
        ("opening parentheses", Ast, N, |n| mid("n ", "(", n, "")),
        ("type names without value", Ast, N, |n| mid("n ", "(t)", n, "")),
        ("bad escapes", Ast, N, |n| mid("n \"", "\\q", n, "\"")),
        ("bad unicode escapes", Ast, N, |n| mid("n \"", "\\u{d800}", n, "\"")),
        ("identifiers as arguments", Ast, N, |n| mid("n", " a", n, "")),
        ("identifiers as arguments on lines", Ast, N, |n| rep("n a\n", n)),
        ("number names", Ast, N, |n| rep("1 2\n", n)),
        ("bad numbers", Ast, N, |n| rep("n 1x\n", n)),
        ("equals signs", Ast, N, |n| mid("n k", "=", n, "")),
        ("chain of equals", Ast, N, |n| mid("n k", "=a", n, "")),
        ("brackets", Ast, N, |n| mid("n ", "[", n, "")),
        ("backslashes", Ast, N, |n| mid("n ", "\\", n, "")),
        ("slashes", Ast, N, |n| mid("n ", "/ ", n, "")),
        ("minus signs", Ast, N, |n| mid("n ", "-", n, "")),
        ("bad then long tail", Ast, N, |n| mid("n 1x\n", "m 1 k=\"v\"\n", n, "")),
        ("long head then bad", Ast, N, |n| mid("", "m 1 k=\"v\"\n", n, "]")),
        ("bad at the end of a long line", Ast, N, |n| mid("n", " 1 k=2", n, "]")),
        ("semicolons", Ast, N, |n| rep(";", n)),
        ("nul characters", Ast, N, |n| rep("\0", n)),
        // nesting
        ("nested children", Ast, D, |n| format!("{}{}", "a {".repeat(n), ";}".repeat(n))),
        ("nested children on lines", Ast, D, |n| format!("{}x\n{}", "a {\n".repeat(n), "}\n".repeat(n))),
        ("nested unclosed children", Ast, D, |n| "a {".repeat(n)),
        ("nested children with a mistake inside", Ast, D, |n| format!("{}]{}", "a { ".repeat(n), ";}".repeat(n))),
        ("nested children without terminators", Ast, D, |n| format!("{}x{}", "a { ".repeat(n), " }".repeat(n))),
        ("nested children with a node after", Ast, D, |n| format!("{}x{}", "a { b; ".repeat(n), "; c; }".repeat(n))),
        ("nested slashdash nodes", Ast, D, |n| format!("{}{}", "/-a {".repeat(n), ";}".repeat(n))),
        ("nested slashdash children", Ast, D, |n| format!("{}{}", "a /-{".repeat(n), ";}".repeat(n))),
        ("nested unclosed slashdash children", Ast, D, |n| "a /-{".repeat(n)),
        ("nested unclosed slashdash nodes", Ast, D, |n| "/-a {".repeat(n)),
        ("nested comments", Ast, D, |n| format!("a {}{} 1", "/*".repeat(n), "*/".repeat(n))),
        ("nested unclosed comments", Ast, D, |n| "/*".repeat(n)),
        ("nested comments missing one end", Ast, D, |n| format!("a {}{} 1", "/* ".repeat(n), " */".repeat(n - 1))),
        ("nested unclosed comments in slashdash", Ast, D, |n| "a /- /*".repeat(n)),
        ("nested properties and children", Ast, D, |n| format!("{}{}", "(t)a 1 k=\"v\" {\n".repeat(n), "}\n".repeat(n))),
        ("nested quoted names", Ast, D, |n| format!("{}{}", "\"a\" r#\"b\"#=1 {".repeat(n), "}".repeat(n))),
        ("nested continuation", Ast, D, |n| format!("{}{}", "a \\\n {".repeat(n), ";}".repeat(n))),
        // decoding
        ("decode properties", Props, N, |n| format!("n{}", num(n, 8, |i| format!(" k{}={} {}", i, i, i)))),
        ("decode bad properties", Props, N, |n| format!("n{}", num(n, 8, |i| format!(" k{}=\"x\" true", i)))),
        ("decode many nodes", Props, N, |n| rep("n 1 a=2 b=3\n", n)),
        ("decode strict", Strict, N, |n| rep("n 1 k=\"x\" { flag; one 2; }\n", n)),
        ("decode many faulty nodes", Strict, N, |n| rep("n \"x\" k=1 z=2 3 { flag 1; one; }\n", n)),
        ("decode surplus arguments", Strict, N, |n| mid("n", " 1", n, "")),
        ("decode surplus properties", Strict, N, |n| format!("n 1{}", num(n, 8, |i| format!(" k{}={}", i, i)))),
        ("decode unknown children", Strict, N, |n| mid("n 1 {\n", "what\n", n, "}")),
        ("decode duplicate children", Strict, N, |n| mid("n 1 {\n", "one 1\n", n, "}")),
        ("decode duplicate flags", Strict, N, |n| mid("n 1 {\n", "flag\n", n, "}")),
        ("decode flag with surplus", Strict, N, |n| mid("n 1 { flag", " 1", n, "\n}")),
        ("decode children", Tree, N, |n| mid("n {\n", "a\nb 1\nx\nz 1 2 k=3\nt { x; }\nt { y \"1\"; }\n", n, "}")),
        ("decode faulty children", Tree, N, |n| mid("n {\n", "a 1\nb \"x\"\nx 1\nz null\np1 2\nwhat\n", n, "}")),
        ("decode enum", Any, N, |n| rep("x\ny \"1\"\nz 1 k=1\nt { x; }\n", n)),
        ("decode unknown enum", Any, N, |n| rep("w\n", n)),
        ("decode tree", Tree, D, |n| format!("{}{}", "a {".repeat(n), ";}".repeat(n))),
        ("decode enum tree", Any, D, |n| format!("{}{}", "t { a { x; }; ".repeat(n / 2), ";}".repeat(n / 2))),
        ("decode faulty tree", Tree, D, |n| format!("n {{{} ww 1;{}}}", "a {".repeat(n), ";}".repeat(n))),
        ("decode bytes", Bytes, N, |n| mid("n (base64)\"", "aGVs", n, "\" \"xyz\"")),
        ("decode ast nodes", AstNodes, N, |n| rep("n 1 a=2 { b \"x\"; }\n", n)),
        ("decode nested ast nodes", AstNodes, D, |n| format!("{}{}", "a {".repeat(n), ";}".repeat(n))),
        ("decode nested ast nodes with values", AstNodes, D, |n| format!("{}{}", "(t)a 1 k=\"v\" {\n".repeat(n), "}\n".repeat(n))),
        // much at the bottom, which every level may touch
        ("decode deep ast nodes", AstNodes, D, |n| format!("{}x{}{}", "a {".repeat(n), " \"some text\"".repeat(4 * n), ";}".repeat(n))),
        ("decode deep tree", Tree, D, |n| format!("{}\nx\nz 1{}{}", "a {".repeat(n), " 2".repeat(8 * n), "\n}".repeat(n))),
        ("decode deep enum", Any, D, |n| format!("{}z 1{}\n{}", "t { ".repeat(n), " 2".repeat(8 * n), "}\n".repeat(n))),
        ("deep arguments", Ast, D, |n| format!("{}x{}{}", "a {".repeat(n), " \"some text\"".repeat(4 * n), ";}".repeat(n))),
        ("deep properties", Ast, D, |n| format!("{}x{}{}", "a {".repeat(n), num(n, 8, |i| format!(" k{}=\"some text\"", i)), ";}".repeat(n))),
        ("deep comment", Ast, D, |n| format!("{}/*{}*/x{}", "a {".repeat(n), "some text ".repeat(4 * n), ";}".repeat(n))),
        ("deep faulty", Ast, D, |n| format!("{}x{} =;{}", "a {".repeat(n), " \"some text\"".repeat(4 * n), ";}".repeat(n))),
    ];
    let line: Vec<_> = v.iter().filter(|f| f.1 == Ast).filter(|f| ["mixed", "crlf", "long string", "nodes", "arguments", "unclosed comment",
        "unicode", "blank lines", "nested children", "identifiers as arguments on lines", "long head then bad", "line comments"].contains(&f.0))
        .map(|f| (f.0, Line, f.2, f.3)).collect();
    v.extend(line);
    v
}

/// Families with many elements or one long one, which are also measured at larger sizes: a cheap
/// step per pair of elements is hidden by the other costs of small documents
const LARGE: &[&str] = &[
    "nodes", "mixed", "crlf", "arguments", "properties", "quoted properties", "repeated property", "long identifier", "long string",
    "long escapes", "long raw string", "long number", "line comments", "long line comment", "long block comment", "line continuations",
    "slashdash nodes", "many children", "identifiers as arguments", "identifiers as arguments on lines", "bad unicode escapes",
    "unclosed comment after nodes", "long head then bad", "decode properties", "decode many nodes", "decode many faulty nodes",
    "decode surplus arguments", "decode surplus properties", "decode unknown children", "decode duplicate children", "decode children",
    "decode faulty children", "decode unknown enum", "decode bytes", "decode ast nodes",
];

fn run_one(how: How, text: &str) -> usize {
    fn n<T>(r: Result<T, knuffel::Error>) -> usize {
        match r {
            Ok(_) => 0,
            Err(e) => crate::obs::diags(&e).len(),
        }
    }
    match how {
        How::Ast => n(knuffel::parse_ast::<Span>("x", text)),
        How::Line => n(knuffel::parse_ast::<LineSpan>("x", text)),
        How::Props => n(knuffel::parse::<Vec<Props>>("x", text)),
        How::Strict => n(knuffel::parse::<Vec<Strict>>("x", text)),
        How::Tree => n(knuffel::parse::<Vec<Tree>>("x", text)),
        How::Any => n(knuffel::parse::<Vec<Any>>("x", text)),
        How::Bytes => n(knuffel::parse::<Vec<Bytes>>("x", text)),
        How::AstNodes => n(knuffel::parse::<Vec<knuffel::ast::SpannedNode<Span>>>("x", text)),
    }
}

/// Child process: one parse, prints allocated and peak bytes
fn child(idx: usize, n: usize) -> i32 {
    let f = families()[idx];
    let text = (f.3)(n);
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        ON.store(true, Relaxed);
        let d = run_one(f.1, &text);
        ON.store(false, Relaxed);
        (text.len(), d)
    }).expect("harness: spawn");
    match t.join() {
        Ok((len, d)) => {
            println!("COST {} {} {} {}", len, d, BYTES.load(Relaxed), PEAK.load(Relaxed));
            0
        }
        Err(_) => 101,
    }
}

struct Cost { len: f64, diags: u64, bytes: f64, peak: f64, instr: f64 }

fn cpu_seconds(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f = s.rsplit(')').next().unwrap_or("").split_whitespace().collect::<Vec<_>>();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (g(11) + g(12)) / 100
}

fn measure(idx: usize, n: usize, limit: u64) -> Result<Cost, String> {
    let exe = std::env::current_exe().expect("harness: exe");
    let mut c = Command::new("valgrind")
        .args(["-q", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--main-stacksize=8388608", "-v"])
        .arg(exe).args(["--prop", "C06", "--child", &idx.to_string(), &n.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped())
        .spawn().unwrap_or_else(|e| panic!("harness: valgrind: {}", e));
    let start = Instant::now();
    loop {
        match c.try_wait().expect("harness: wait") {
            Some(_) => break,
            None if cpu_seconds(c.id()) > limit || start.elapsed() > Duration::from_secs(850) => {
                let _ = c.kill();
                let _ = c.wait();
                if start.elapsed() > Duration::from_secs(850) {
                    panic!("harness: size {}: the machine is too slow", n);
                }
                return Err(format!("size {}: no result within {} s of processor time", n, limit));
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
    let o = c.wait_with_output().expect("harness: output");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let line = match out.lines().find(|l| l.starts_with("COST ")) {
        Some(l) => l,
        None => return Err(format!("size {}: process ended with {:?}: {}", n, o.status, err.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>())),
    };
    let v: Vec<u64> = line[5..].split(' ').map(|x| x.parse().expect("harness: number")).collect();
    let refs = err.lines().find_map(|l| l.split_once("I refs:").or_else(|| l.split_once("I   refs:")).map(|x| x.1))
        .unwrap_or_else(|| panic!("harness: no instruction count in {:?}", err));
    let instr: u64 = refs.trim().replace(',', "").parse().expect("harness: count");
    Ok(Cost { len: v[0] as f64, diags: v[1], bytes: v[2] as f64, peak: v[3] as f64, instr: instr as f64 })
}

pub fn main(args: Args) -> i32 {
    if let Some(i) = args.extra.iter().position(|x| x == "--child") {
        return child(args.extra[i + 1].parse().unwrap(), args.extra[i + 2].parse().unwrap());
    }
    let mut run = Run::new(args, "one evaluation = one family of documents measured at sizes n, 2n and 4n in a process of its own under \
        an instruction counter and a counting allocator; the growth of cost per added character from n..2n to 2n..4n is bounded; \
        distinct by family and size; non-trivial if the largest text has over 90 characters");
    run.case_limit = 880;
        // growth per added input: 1 for linear cost, 2 for quadratic
    let verbose = run.args.extra.iter().any(|x| x == "-v");
    let f = families();
    let mults: &[usize] = if run.args.thorough { &[40, 10, 1] } else { &[5, 1] };
    let jobs: Vec<(usize, usize)> = mults.iter().flat_map(|m| (0..f.len()).map(move |i| (i, *m)))
        .filter(|(i, m)| *m == 1 || (LARGE.contains(&f[*i].0) && f[*i].1 != How::Line) || (*m == 10 && run.args.thorough && f[*i].2 > 1000)).collect();
    run.par("families", jobs.len() as u64, |j, _, acc| {
        let (i, m) = jobs[j as usize];
        let (name, how, n, gen) = f[i];
        let n = n * m;
        let limit = if m > 10 { 900 } else if m > 1 { 300 } else { 100 };
        // small sizes are less regular
        let bound = if n < 1000 { 1.45 } else if m > 1 { 1.13 } else { 1.3 };
        let case = Case::with(name, &gen(n.min(100)), &format!("family {} sizes {} {} {}", i, n, 2 * n, 4 * n));
        acc.check(&run, &case, |acc| {
            let _ = how;
            let mut c = Vec::new();
            for k in [n, 2 * n, 4 * n] {
                c.push(measure(i, k, limit)?);
            }
            acc.eval(hash(&(i, n)), c[2].len > 90.0);
            acc.add("instructions counted", c.iter().map(|c| c.instr as u64).sum());
            acc.add("diagnostics", c.iter().map(|c| c.diags).sum());
            acc.sample(&format!("{}: {} bytes, {} instructions, {} bytes allocated, peak {}", name, c[2].len, c[2].instr, c[2].bytes, c[2].peak));
            for (what, get) in [("instructions", (|c: &Cost| c.instr) as fn(&Cost) -> f64), ("allocated bytes", |c| c.bytes)] {
                let (a, b, d) = (get(&c[0]), get(&c[1]), get(&c[2]));
                let s1 = (b - a) / (c[1].len - c[0].len);
                let s2 = (d - b) / (c[2].len - c[1].len);
                let g = s2 / s1.max(0.5);
                if verbose {
                    println!("{:45} {:16} {:12.0} {:12.0} {:12.0}  per byte {:9.1} {:9.1}  growth {:.2}", name, what, a, b, d, s1, s2, g);
                }
                // small amounts are dominated by fixed steps of buffers
                if g > bound && s2 * c[2].len > 50_000.0 {
                    return Err(format!("{} of {:?} grow by {:.0} per byte between {} and {} bytes, but by {:.0} between {} and {}",
                        what, name, s2, c[1].len, c[2].len, s1, c[0].len, c[1].len));
                }
                acc.max(&format!("growth of {} x 1000", what), (g * 1000.0).max(0.0) as u64);
            }
            Ok(())
        });
    });
    run.finish()
}
