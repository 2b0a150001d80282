//! C10: answers come in a fixed, documented order.

use super::common::*;
use super::limits::QUERIES;
use super::Info;
use crate::ctx::Ctx;
use crate::engine::*;
use crate::gen::strings;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "34 queries x 4 word orders of 5 words x every assignment of groups 0-3 (non-decreasing) to them x depths 2 and 3, \
                       each twice; all assignments of groups from {0,1,127,128,254,255}; one list of 40 words in 20 groups; 6 queries \
                       x 15 groupings of 4 words x depths from 10 to 48; \
                       lists of 2 to 130 words x 3 groupings with phrases so long that their number crosses 2^64",
        bounds_thorough: "as quick, 6 words and depth 4",
        assumptions: &["queries and lists outside the enumerated ones behave like those inside (small scope)"],
    }
}

fn groupings(n: usize, gs: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|v| {
                let lo = v.last().copied().unwrap_or(0);
                gs.iter().filter(move |g| **g >= lo).map(move |g| {
                    let mut w = v.clone();
                    w.push(*g);
                    w
                }).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let orders: Vec<Vec<&str>> = vec![
        vec!["a", "ab", "b", "ba", "aab"],
        vec!["ba", "b", "aab", "ab", "a"],
        vec!["b", "a", "b'a", "ab", "bb"],
        vec!["ab", "ab", "a", "b", "a"],
    ];
    for ws in &orders {
        let mut ws = ws.clone();
        if th {
            ws.push("abb");
        }
        for gs in groupings(ws.len(), &[0, 1, 2, 3]) {
            let list = List::tranched(ws.iter().zip(&gs).map(|(w, g)| (w.to_string(), *g)).collect());
            for q in QUERIES {
                for depth in [2, 3] {
                    one(ctx, q, &list, depth);
                }
            }
        }
    }
    for gs in groupings(4, &[0, 1, 127, 128, 254, 255]) {
        let list = List::tranched(orders[0].iter().zip(&gs).map(|(w, g)| (w.to_string(), *g)).collect());
        for q in ["a*b*", "(a|b)*", "ab.*", "b.*;.*a", "abab !1"] {
            for depth in [1, 2, if th { 4 } else { 3 }] {
                one(ctx, q, &list, depth);
            }
        }
    }
    // so many phrases that their number is close to, or beyond, what fits 64 bits
    for n in 2..=130usize {
        let d = (64.0 / (n as f64).log2()).ceil() as usize;
        let texts: Vec<String> = strings("abcdefghijkl", 2, 2).into_iter().skip(14).take(n - 1).collect();
        for groups in 0..3 {
            let group = |i: usize| match groups {
                0 => 0,
                1 => 2 * (i / ((n + 1) / 2)) as u8,
                _ => (i % 3 == 2) as u8 * 3,
            };
            let mut entries: Vec<Entry> = vec![("aa".to_string(), 0)];
            entries.extend(texts.iter().enumerate().map(|(i, t)| (t.clone(), group(i))));
            entries.sort_by_key(|e| e.1);
            let list = List::tranched(entries);
            for (lo, hi) in [(d - 2, d), (d, d + 2), (2, d)] {
                let q = format!("(aa){{{},{}}}..", lo, hi);
                let want = (lo + 1..=hi + 1).flat_map(|k| {
                    let aa = list.entries.iter().position(|e| e.0 == "aa").unwrap() as u32;
                    (0..n as u32).map(move |i| {
                        let mut p = vec![aa; k - 1];
                        p.push(i);
                        p
                    })
                });
                counted(ctx, &q, &list, hi + 1, want.collect());
            }
        }
    }
    // many lengths of phrases, of which many have equally many combinations
    for groups in groupings(4, &[0, 1, 2]) {
        let list = List::tranched(["a", "ab", "b", "ba"].iter().zip(&groups).map(|(w, g)| (w.to_string(), *g)).collect());
        for q in ["a*", "a*b", "ba*", "a*b?", "b*(ba)?", "a*;.{12,}"] {
            for depth in [10, 12, 20, 21, 22, 23, 30, 48] {
                one(ctx, q, &list, depth);
            }
        }
    }
    let many: Vec<Entry> = (0..40).map(|i| (format!("{}{}", ["a", "b", "ab", "ba"][i % 4], "b".repeat(i % 3)), (i / 2) as u8)).collect();
    let many = List::tranched(many);
    for q in QUERIES {
        one(ctx, q, &many, 2);
    }
}

/// As `one`, for a query whose answers are known.
fn counted(ctx: &mut Ctx, q: &str, list: &List, depth: usize, mut want: Vec<Vec<u32>>) {
    ctx.case(
        || format!("query {:?} list {} depth {}", q, list.show(), depth),
        |ctx| {
            let (o, st) = crate::engine::run(q, &list.words, Some(depth), Some(None));
            ctx.count("traces", 1);
            ctx.count("transitions", st.responses);
            let mut got = match o {
                Outcome::Done(v) => v,
                o => return Err(format!("{:?}", o)),
            };
            ctx.count("states", got.len() as u64);
            ctx.outcome(&got);
            check_order(list, &got)?;
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("{} answers, expected {}", got.len(), want.len()));
            }
            Ok(())
        },
    );
}

fn one(ctx: &mut Ctx, q: &str, list: &List, depth: usize) {
    ctx.case(
        || format!("query {:?} list {} depth {}", q, list.show(), depth),
        |ctx| {
            let mut first = None;
            for _ in 0..2 {
                let (o, st) = crate::engine::run(q, &list.words, Some(depth), Some(None));
                ctx.count("traces", 1);
                ctx.count("transitions", st.responses);
                let got = match o {
                    Outcome::Done(v) => v,
                    o => return Err(format!("{:?}", o)),
                };
                match &first {
                    None => {
                        ctx.count("states", got.len() as u64);
                        ctx.outcome(&got);
                        check_order(list, &got)?;
                        first = Some(got);
                    }
                    Some(f) if *f != got => return Err("the same search again gives other answers".into()),
                    _ => {}
                }
            }
            Ok(())
        },
    );
}
