mod astdec;
mod cbor;
mod cost;
mod obs;
mod props;
mod render;
mod stable;
mod stable_types;
mod values;
mod work;

use refmodel::report::*;

#[global_allocator]
static ALLOC: cost::Counting = cost::Counting;

fn main() {
    let args = Args::parse();
    std::process::exit(props::dispatch(args));
}

/// Checks the input of a replay file again
fn replay(args: Args) -> i32 {
    let path = args.replay.clone().unwrap();
    let doc = std::fs::read_to_string(&path).expect("replay file");
    let get = |k: &str| json_get(&doc, k).unwrap_or_default();
    let (kind, text, extra) = (get("kind"), get("text"), get("extra"));
    println!("replaying [{}] {:?} {:?}", kind, text, extra);
    let mut acc = Acc::default();
    let input = work::In { kind: "replay", text: text.clone(), expected: None };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match props::text_check(&args.prop) {
        Some(f) => f(&input, &mut acc),
        None if args.prop == "C04" => props::chk04(&text, &extra, &mut acc),
        None if args.prop == "C03" => values::chk03(&text, &mut acc),
        None => { println!("run the check again: workloads are deterministic for a seed"); Ok(()) }
    }));
    match r {
        Ok(Ok(())) => { println!("no violation"); 0 }
        Ok(Err(d)) => { println!("{}", d); println!("VIOLATION property={} replay={}", args.prop, path); 1 }
        Err(p) => { println!("panic: {}", panic_text(&p)); println!("VIOLATION property={} replay={}", args.prop, path); 1 }
    }
}
