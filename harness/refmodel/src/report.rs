//! Run control shared by the monitors: parallel deterministic workloads,
//! violation records with replay files, watchdog and evidence files.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::Rng;

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub replay: Option<String>,
    pub extra: Vec<String>,
    /// multiplies sizes of workloads
    pub scale: f64,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            prop: String::new(), thorough: false, seed: 1, evidence: None,
            replay_dir: ".".into(), replay: None, extra: Vec::new(), scale: 1.0,
        };
        let mut it = std::env::args().skip(1);
        while let Some(x) = it.next() {
            let mut val = || it.next().unwrap_or_else(|| usage("missing value"));
            match &x[..] {
                "--prop" => a.prop = val(),
                "--tier" => a.thorough = val() == "thorough",
                "--seed" => a.seed = val().parse().unwrap_or(1),
                "--evidence" => a.evidence = Some(val()),
                "--replay-dir" => a.replay_dir = val(),
                "--replay" => a.replay = Some(val()),
                "--scale" => a.scale = val().parse().unwrap_or(1.0),
                _ => a.extra.push(x),
            }
        }
        a
    }
}

fn usage(m: &str) -> ! {
    eprintln!("usage error: {}", m);
    std::process::exit(2)
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reads a string field of a replay file (written by this module)
pub fn json_get(doc: &str, key: &str) -> Option<String> {
    let pat = format!("\"{}\": \"", key);
    let at = doc.find(&pat)? + pat.len();
    let mut o = String::new();
    let mut it = doc[at..].chars();
    loop {
        match it.next()? {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

/// One thing that was checked: everything needed to do it again
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: String,
    pub text: String,
    /// second input (another layout, expected dump, type name, ..)
    pub extra: String,
}

impl Case {
    pub fn new(kind: &str, text: &str) -> Case {
        Case { kind: kind.into(), text: text.into(), extra: String::new() }
    }
    pub fn with(kind: &str, text: &str, extra: &str) -> Case {
        Case { kind: kind.into(), text: text.into(), extra: extra.into() }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: Case,
    pub detail: String,
}

/// Thread-local accumulator
#[derive(Default)]
pub struct Acc {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    slot: usize,
}

impl Acc {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.into(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxima.entry(k.into()).or_insert(0);
        *v = (*v).max(n);
    }
    /// Records that an oracle decided something on an input
    pub fn eval(&mut self, signature: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(signature);
        }
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 3 {
            self.samples.push(s.chars().take(300).collect());
        }
    }
    pub fn violation(&mut self, case: &Case, detail: String) {
        if self.violations.len() < 20 {
            self.violations.push(Violation { case: case.clone(), detail });
        }
    }
    /// Runs a check of a case; a panic is a violation as well
    pub fn check(&mut self, run: &Run, case: &Case, f: impl FnOnce(&mut Acc) -> Result<(), String>) {
        run.watch(self.slot, Some(case));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        run.watch(self.slot, None);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(d)) => self.violation(case, d),
            Err(p) => {
                let m = panic_text(&p);
                if m.contains("harness:") {
                    eprintln!("harness error: {}\ncase: {:?}", m, case);
                    std::process::exit(2);
                }
                self.violation(case, format!("panic: {}", m));
            }
        }
    }
    fn merge(&mut self, o: Acc) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            self.max(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 10 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

type Slot = Mutex<Option<(Instant, Case, u64)>>;

thread_local! {
    /// id of this thread for the kernel
    static TID: u64 = std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str()?.parse().ok())).unwrap_or(0);
}

/// State and used processor time (seconds) of a thread, or of the process if it is zero
fn used(tid: u64) -> Option<(char, f64)> {
    let p = if tid == 0 { "/proc/self/stat".to_string() } else { format!("/proc/self/task/{}/stat", tid) };
    let s = std::fs::read_to_string(p).ok()?;
    let f = s.rsplit(')').next()?.split_whitespace().collect::<Vec<_>>();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((f.first()?.chars().next()?, t as f64 / 100.0))
}

/// What the watchdog knows about a case that takes long
struct Slow {
    started: Instant,
    /// processor time of its thread when it was noticed
    cpu: f64,
    /// processor time of the process, and since when it has not changed
    all: f64,
    still: Instant,
}

pub struct Run {
    pub args: Args,
    pub threads: usize,
    pub stack: usize,
    start: Instant,
    total: Mutex<Acc>,
    slots: Vec<Slot>,
    stop: AtomicBool,
    tag: AtomicU64,
    /// seconds that a single case may take
    pub case_limit: u64,
    rule: String,
}

impl Run {
    pub fn new(args: Args, rule: &str) -> Run {
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8);
        std::panic::set_hook(Box::new(|_| {}));
        Run {
            args, threads, stack: 256 << 20, start: Instant::now(), total: Mutex::new(Acc::default()),
            slots: (0..64).map(|_| Mutex::new(None)).collect(),
            stop: AtomicBool::new(false), tag: AtomicU64::new(1), case_limit: 60, rule: rule.into(),
        }
    }
    /// number of iterations by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        ((if self.args.thorough { thorough } else { quick }) as f64 * self.args.scale) as u64
    }
    fn watch(&self, slot: usize, case: Option<&Case>) {
        *self.slots[slot].lock().unwrap() = case.map(|c| (Instant::now(), c.clone(), TID.with(|t| *t)));
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// Runs `f` for 0..count on all threads. Each index has its own random
    /// stream, so results don't depend on scheduling.
    pub fn par(&self, name: &str, count: u64, f: impl Fn(u64, &mut Rng, &mut Acc) + Sync) {
        if self.stopped() {
            return;
        }
        let tag = hash(name) ^ self.tag.fetch_add(0, SeqCst);
        let next = AtomicU64::new(0);
        let done = AtomicUsize::new(0);
        let chunk = (count / (self.threads as u64 * 64)).clamp(1, 256);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let next = &next;
                let f = &f;
                let done = &done;
                std::thread::Builder::new().stack_size(self.stack).spawn_scoped(s, move || {
                    let mut acc = Acc { slot: t, ..Acc::default() };
                    'o: loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= count || self.stopped() {
                            break;
                        }
                        for i in a..(a + chunk).min(count) {
                            let mut r = Rng::stream(self.args.seed ^ tag, i);
                            f(i, &mut r, &mut acc);
                            if acc.violations.len() >= 5 {
                                self.stop.store(true, SeqCst);
                                break 'o;
                            }
                        }
                    }
                    acc.add(&format!("workload:{}", name), 0);
                    self.total.lock().unwrap().merge(acc);
                    done.fetch_add(1, SeqCst);
                }).expect("harness: spawn");
            }
            // watchdog
            let done = &done;
            s.spawn(move || {
                // time of the processor and not of the clock, so that a busy machine is no finding
                let mut slow: BTreeMap<usize, Slow> = BTreeMap::new();
                while done.load(SeqCst) < self.threads {
                    std::thread::sleep(Duration::from_millis(20));
                    for (i, slot) in self.slots.iter().enumerate() {
                        let g = slot.lock().unwrap();
                        let (t, case, tid) = match &*g {
                            Some(x) if x.0.elapsed().as_secs() >= 5 => x,
                            _ => {
                                slow.remove(&i);
                                continue;
                            }
                        };
                        let (Some((state, cpu)), Some((_, all))) = (used(*tid), used(0)) else { continue };
                        if slow.get(&i).map_or(true, |s| s.started != *t) {
                            slow.insert(i, Slow { started: *t, cpu, all, still: Instant::now() });
                        }
                        let s = slow.get_mut(&i).unwrap();
                        if state != 'S' || all > s.all + 0.05 * s.still.elapsed().as_secs_f64() + 0.1 {
                            s.all = all;
                            s.still = Instant::now();
                        }
                        let detail = if cpu - s.cpu > self.case_limit as f64 {
                            format!("no result within {} s of processor time", self.case_limit)
                        } else if s.still.elapsed().as_secs() > self.case_limit {
                            format!("blocked for {} s", self.case_limit)
                        } else {
                            continue;
                        };
                        let v = Violation { case: case.clone(), detail };
                        let p = self.write_replay(&v, 0);
                        println!("{}", v.detail);
                        println!("VIOLATION property={} replay={}", self.args.prop, p);
                        std::process::exit(1);
                    }
                }
            });
        });
        let mut t = self.total.lock().unwrap();
        t.add(&format!("workload:{}", name), count);
    }
    /// Single threaded part
    pub fn seq(&self, f: impl FnOnce(&mut Acc)) {
        if self.stopped() {
            return;
        }
        let mut acc = Acc { slot: 60, ..Acc::default() };
        f(&mut acc);
        self.total.lock().unwrap().merge(acc);
    }
    fn write_replay(&self, v: &Violation, n: usize) -> String {
        let _ = std::fs::create_dir_all(&self.args.replay_dir);
        let p = format!("{}/{}-{:016x}-{}.json", self.args.replay_dir, self.args.prop, hash(&v.case.text), n);
        let body = format!(
            "{{\n \"property\": {},\n \"kind\": {},\n \"text\": {},\n \"extra\": {},\n \"detail\": {}\n}}\n",
            json_str(&self.args.prop), json_str(&v.case.kind), json_str(&v.case.text), json_str(&v.case.extra), json_str(&v.detail));
        if let Err(e) = std::fs::write(&p, body) {
            eprintln!("can't write {}: {}", p, e);
        }
        p
    }
    /// Writes evidence, prints violations, returns the exit code
    pub fn finish(&self) -> i32 {
        let mut t = std::mem::take(&mut *self.total.lock().unwrap());
        t.violations.sort_by_key(|v| (v.case.text.len(), v.case.text.clone()));
        for (i, v) in t.violations.iter().take(5).enumerate() {
            let p = self.write_replay(v, i);
            println!("--- [{}] {}\n    input: {:?}\n    extra: {:?}", v.case.kind, v.detail,
                v.case.text.chars().take(400).collect::<String>(), v.case.extra.chars().take(300).collect::<String>());
            println!("VIOLATION property={} replay={}", self.args.prop, p);
        }
        if t.evals == 0 && t.violations.is_empty() {
            eprintln!("harness error: nothing was evaluated");
            return 2;
        }
        let wall = self.start.elapsed().as_secs_f64();
        if let Some(path) = &self.args.evidence {
            let mut j = String::from("{\n");
            j += &format!(" \"property\": {},\n", json_str(&self.args.prop));
            j += &format!(" \"tier\": {},\n", json_str(if self.args.thorough { "thorough" } else { "quick" }));
            j += &format!(" \"seed\": {},\n", self.args.seed);
            j += " \"level\": \"exploration\",\n";
            j += &format!(" \"wall_s\": {:.2},\n", wall);
            j += &format!(" \"violations\": {},\n", t.violations.len());
            j += " \"coverage\": {\n";
            j += &format!("  \"evaluations\": {},\n", t.evals);
            j += &format!("  \"distinct_nontrivial\": {},\n", t.distinct.len());
            j += &format!("  \"rule\": {},\n", json_str(&self.rule));
            j += "  \"observed\": {";
            let items: Vec<String> = t.counters.iter().map(|(k, v)| format!("\n   {}: {}", json_str(k), v))
                .chain(t.maxima.iter().map(|(k, v)| format!("\n   {}: {}", json_str(&format!("max {}", k)), v)))
                .collect();
            j += &items.join(",");
            j += "\n  },\n  \"samples\": [";
            let s: Vec<String> = t.samples.iter().map(|s| format!("\n   {}", json_str(s))).collect();
            j += &s.join(",");
            j += "\n  ]\n }\n}\n";
            if let Err(e) = std::fs::write(path, j) {
                eprintln!("harness error: can't write evidence: {}", e);
                return 2;
            }
        }
        println!("{}: {} evaluations, {} distinct, {} violations, {:.1} s", self.args.prop, t.evals, t.distinct.len(), t.violations.len(), wall);
        if self.args.extra.iter().any(|x| x == "-v") {
            for (k, v) in &t.counters {
                println!("  {} = {}", k, v);
            }
            for (k, v) in &t.maxima {
                println!("  max {} = {}", k, v);
            }
        }
        if t.violations.is_empty() { 0 } else { 1 }
    }
}
