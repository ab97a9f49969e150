//! Monitors for live components: the real puck_liveview on the in-memory runtime, and its real client script in
//! a model of a browser.

#[path = "../../native/src/alloc.rs"]
mod alloc;
mod browser;
#[path = "../../native/src/ctx.rs"]
mod ctx;
mod live;
mod markup;
mod page;
#[allow(dead_code)]
#[path = "../../native/src/refws.rs"]
mod refws;
#[allow(dead_code)]
#[path = "../../native/src/rng.rs"]
mod rng;
mod sections;
mod tree;

use ctx::Ctx;

#[global_allocator]
static ALLOC: alloc::Watching = alloc::Watching;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let id = args[1].clone();
    if id == "trees" {
        // histories for those who have another runtime
        let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        tree::print_histories(seed, get("--count").and_then(|s| s.parse().ok()).unwrap_or(100));
        return;
    }
    let mut ctx = Ctx::new(
        &id,
        get("--tier").as_deref() == Some("thorough"),
        get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        get("--limit").and_then(|s| s.parse().ok()).unwrap_or(60.0),
        get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    );
    if let (Some(s), Some(i)) = (get("--section"), get("--index")) {
        ctx.replay = Some((s, i.parse().unwrap()));
    }
    ctx::install();
    let browser = get("--browser").expect("--browser <browser.mjs>");
    match id.as_str() {
        "C23" => sections::c23(&mut ctx, &browser),
        "C24" => sections::c24(&mut ctx, &browser),
        "C25" => sections::c25(&mut ctx, &browser),
        "C26" => markup::c26(&mut ctx),
        "C27" => page::c27(&mut ctx, &browser),
        "C28" => sections::c28(&mut ctx, &browser),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3);
        }
    }
    let report = ctx.finish();
    let bad = report["violations"].as_array().unwrap().len();
    let text = serde_json::to_string_pretty(&report).unwrap();
    match get("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{text}"),
    }
    std::process::exit((bad > 0) as i32);
}
