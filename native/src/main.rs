mod alloc;
mod ctx;
mod gen;
mod http;
mod refws;
mod rng;
mod script;
mod serve;
mod server;
mod ws;

use ctx::Ctx;

#[global_allocator]
static ALLOC: alloc::Watching = alloc::Watching;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let id = args[1].clone();
    let mut ctx = Ctx::new(
        &id,
        get("--tier").as_deref() == Some("thorough"),
        get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        get("--limit").and_then(|s| s.parse().ok()).unwrap_or(60.0),
        get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    );
    if let Some(n) = get("--cases") {
        ctx.few = Some((n.parse().unwrap(), get("--each").map_or(1e9, |s| s.parse().unwrap())));
    }
    if let (Some(s), Some(i)) = (get("--section"), get("--index")) {
        ctx.replay = Some((s, i.parse().unwrap()));
    }
    ctx::install();
    match id.as_str() {
        "C01" => http::c01(&mut ctx),
        "C02" => http::c02(&mut ctx),
        "C03" => http::c03(&mut ctx),
        "C04" => http::c04(&mut ctx),
        "C05" => http::c05(&mut ctx),
        "C06" => http::c06(&mut ctx),
        "C07" => http::c07(&mut ctx),
        "C08" => serve::c08(&mut ctx),
        "C09" => serve::c09(&mut ctx),
        "C10" => serve::c10(&mut ctx),
        "C11" => serve::c11(&mut ctx),
        "C12" => serve::c12(&mut ctx),
        "C13" => ws::c13(&mut ctx),
        "C14" => ws::c14(&mut ctx),
        "C15" => ws::c15(&mut ctx),
        "C16" => ws::c16(&mut ctx),
        "C17" => ws::c17(&mut ctx),
        "C18" => ws::c18(&mut ctx),
        "C19" => ws::c19(&mut ctx),
        "C20" => ws::c20(&mut ctx),
        "C21" => ws::c21(&mut ctx),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3);
        }
    }
    let report = ctx.finish();
    let bad = report["violations"].as_array().unwrap().len();
    let text = serde_json::to_string_pretty(&report).unwrap();
    match get("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{text}"),
    }
    std::process::exit((bad > 0) as i32);
}
