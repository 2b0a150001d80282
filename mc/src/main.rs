mod clock;
mod ctx;
mod engine;
mod gen;
mod model;
mod props;
mod scratch;
mod web;

use ctx::*;
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut ctx = Ctx::worker(&args[2], tier(&args[3]), args[4].parse().unwrap(), args[5].parse().unwrap(), PathBuf::from(&args[6]));
            ctx.known_list = load_known(&args[2]);
            props::run(&args[2], &mut ctx);
            write_worker_result(&ctx, &PathBuf::from(&args[7]));
        }
        Some("describe") => {
            let mut ctx = Ctx::describe(&args[2], tier(&args[3]), args[4].parse().unwrap());
            props::run(&args[2], &mut ctx);
            println!("\n{}", esc(&ctx.take_description().unwrap_or_default()));
        }
        Some("replay") => {
            let mut ctx = Ctx::replay(&args[2], tier(&args[3]), args[4].parse().unwrap());
            props::run(&args[2], &mut ctx);
            for v in &ctx.violations {
                println!("VIOLATED: {}\n  {}", v.case, v.what);
            }
            if ctx.violations.is_empty() {
                println!("held");
            }
            std::process::exit(!ctx.violations.is_empty() as i32);
        }
        Some("q") => {
            let es: Vec<engine::Entry> = args[4..].iter().map(|t| (t.clone(), 0)).collect();
            let (o, _) = engine::run(&args[2], &engine::make_words(&es), args[3].parse().ok(), Some(None));
            match o {
                engine::Outcome::Done(v) => v.iter().for_each(|p| println!("{}", engine::show_phrase(&es, p))),
                o => println!("{:?}", o),
            }
        }
        Some("check") => std::process::exit(check(&args[2], tier(args.get(3).map(|s| s.as_str()).unwrap_or("quick")))),
        _ => {
            eprintln!("usage: noodle-mc check <property> [quick|thorough] | replay <property> <tier> <index>");
            std::process::exit(2);
        }
    }
}

/// Lines `KNOWN-FINDING: property=<id> case=<case> :: <what>`
fn load_known(prop: &str) -> Vec<(String, String)> {
    let path = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let s = std::fs::read_to_string(path).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN-FINDING: ")?;
            let l = l.strip_prefix(&format!("property={} case=", prop))?;
            let (case, what) = l.split_once(" :: ")?;
            Some((unesc(case), what.to_string()))
        })
        .collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(prop: &str, tier: Tier) -> i32 {
    let info = match props::info(prop) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let dir = PathBuf::from(format!("/verif/work/{}", prop));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all("/verif/evidence").unwrap();
    std::fs::create_dir_all("/verif/replays").unwrap();
    let shards = info.shards;
    let budget = if tier == Tier::Quick { 840.0 } else { 6.0 * 3600.0 };
    let sum = explore(prop, tier, &dir, shards, budget, info.hang_cpu_s);
    if let (Some(e), true) = (&sum.error, sum.violations.is_empty()) {
        eprintln!("error: {}", e);
        return 3;
    }
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let get = |k: &str| sum.counters.get(k).copied().unwrap_or(0);
    let mut cov = String::new();
    cov.push_str(&format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", get("states"), get("transitions"), get("traces")));
    cov.push_str(&format!("\"distinct_outcomes\": {}, ", sum.distinct_outcomes));
    for (k, v) in &sum.counters {
        if !["states", "transitions", "traces"].contains(&k.as_str()) {
            cov.push_str(&format!("{}: {}, ", json_str(k), v));
        }
    }
    cov.push_str(&format!("\"bounds\": {}, ", json_str(if tier == Tier::Quick { info.bounds_quick } else { info.bounds_thorough })));
    cov.push_str(&format!("\"exhaustive\": {}, ", sum.violations.is_empty()));
    cov.push_str(&format!("\"samples\": [{}]", sum.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        json_str(prop),
        json_str(tier_s),
        seed,
        cov,
        info.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        sum.wall,
        sum.violations.len()
    );
    std::fs::write(format!("/verif/evidence/{}.json", prop), ev).unwrap();
    println!(
        "{}: cases={} states={} transitions={} traces={} distinct_outcomes={} wall={:.1}s",
        prop, get("cases"), get("states"), get("transitions"), get("traces"), sum.distinct_outcomes, sum.wall
    );
    for (k, n) in &sum.known {
        println!("KNOWN-FINDING: property={} {} ({} time(s))", prop, esc(k), n);
    }
    if sum.violations.is_empty() {
        return 0;
    }
    let n = std::env::var("MC_MAX_VIOLATIONS").ok().and_then(|s| s.parse().ok()).unwrap_or(1usize);
    for (i, v) in sum.violations.iter().take(n).enumerate() {
        let path = format!("/verif/replays/{}.{}.txt", prop, i);
        std::fs::write(
            &path,
            format!(
                "property: {}\ncase: {}\nviolation: {}\nreplay: /verif/run.sh replay {} {} {}\n",
                prop, v.case, v.what, prop, tier_s, v.index
            ),
        )
        .unwrap();
        println!("  case: {}", esc(&v.case));
        println!("  {}", esc(&v.what));
        println!("VIOLATION property={} replay={}", prop, path);
    }
    1
}
