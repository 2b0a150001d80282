//! C09: limits and the end of the answer stream.

use super::common::*;
use super::phrase;
use super::Info;
use crate::ctx::Ctx;
use noodle::{parser, QueryEvaluator, QueryResponse, Word};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "34 queries x 10 lists x phrase limits 0-5 x every result limit from 0 to one more than there are answers (first 40, \
                       last 3), each set by #limit/#words, by the caller, and by both in conflict, read through the iterator and through \
                       next_within_deadline; 12 reads past the end; 42 limits between 99 and 66,000 on queries with 1,640 and 70,000 answers",
        bounds_thorough: "as quick with phrase limits up to 6 and every result limit up to 400",
        assumptions: &["queries and lists outside the enumerated ones behave like those inside (small scope)"],
    }
}

pub const QUERIES: &[&str] = &[
    "a", "b", "ab", "a*", "b*a*", "(ab)*", ".*", ".", "..", "...", "a.*", ".*b", "(a|b)*", "(a|b)*;a.*", "a.*;.*b", ".*;.*", "ab !1",
    "a !2", "aba !1;..", "<ab>", "<aab>", "<ab+>", "<aabb->", "(ab:+)", "(abab:-)", "(abba:^)", "1", "2 1", "a_b", ".*'.*", "q", "q*", "",
    "// nothing",
];

#[derive(PartialEq, Eq, Clone, Debug)]
enum R {
    Match(Vec<u32>),
    Logs,
    Complete(String),
    Timeout,
}

fn conv(r: QueryResponse) -> R {
    match r {
        QueryResponse::Match(p) => R::Match(p.iter().map(|w| w.score).collect()),
        QueryResponse::Logs(_) => R::Logs,
        QueryResponse::Complete(m) => R::Complete(m),
        QueryResponse::Timeout => R::Timeout,
    }
}

struct Set {
    text_depth: Option<usize>,
    text_limit: Option<usize>,
    depth: Option<usize>,
    limit: Option<Option<usize>>,
}

fn stream(ctx: &mut Ctx, q: &str, words: &[Word], s: &Set, iterator: bool) -> Result<Vec<Vec<u32>>, String> {
    let mut text = q.to_string();
    if let Some(d) = s.text_depth {
        text = format!("#words {}\n{}", d, text);
    }
    if let Some(l) = s.text_limit {
        text = format!("{}\n#limit {}", text, l);
    }
    let ast = parser::QueryAst::new_from_str(&text).map_err(|e| format!("{:?} is rejected: {}", text, e))?;
    let mut ev = QueryEvaluator::from_ast(&ast, words);
    if let Some(d) = s.depth {
        ev.set_search_depth_limit(d);
    }
    if let Some(l) = s.limit {
        ev.set_results_limit(l);
    }
    let mut all = vec![];
    if iterator {
        for r in ev.by_ref() {
            all.push(conv(r));
            if all.len() > 1_000_000 {
                return Err("does not end".into());
            }
        }
        for _ in 0..12 {
            if let Some(r) = ev.next() {
                return Err(format!("reported {:?} after the end", conv(r)));
            }
        }
    } else {
        loop {
            let r = conv(ev.next_within_deadline(None));
            let end = matches!(r, R::Complete(_));
            all.push(r);
            if end {
                break;
            }
            if all.len() > 1_000_000 {
                return Err("does not end".into());
            }
        }
        for _ in 0..12 {
            match conv(ev.next_within_deadline(None)) {
                R::Complete(_) => {}
                r => return Err(format!("reported {:?} after the end", r)),
            }
        }
        // asking for progress and expressions after the end is harmless
        let _ = (ev.progress(), ev.expressions().len());
    }
    ctx.count("transitions", all.len() as u64);
    ctx.count("traces", 1);
    let completes = all.iter().filter(|r| matches!(r, R::Complete(_))).count();
    if completes != 1 || !matches!(all.last(), Some(R::Complete(_))) {
        return Err(format!("{} completion messages, last response {:?}", completes, all.last()));
    }
    if all.iter().any(|r| matches!(r, R::Timeout)) {
        return Err("timed out without a deadline".into());
    }
    Ok(all.into_iter().filter_map(|r| if let R::Match(p) = r { Some(p) } else { None }).collect())
}

pub fn run(ctx: &mut Ctx) {
    super::scale::limits(ctx);
    let mut lists = phrase::lists();
    lists.push(List::new(&["a", "ab", "b"]));
    let th = ctx.thorough();
    for q in QUERIES {
        for (k, list) in lists.iter().enumerate() {
            for depth in 0..=(if th { 6 } else { 5usize }) {
                if list.entries.len().pow(depth.max(1) as u32) > 3200 {
                    continue;
                }
                ctx.case(
                    || format!("query {:?} list {} depth {}", q, list.show(), depth),
                    |ctx| {
                        let _ = k;
                        let none = Set { text_depth: None, text_limit: None, depth: Some(depth), limit: Some(None) };
                        let all = stream(ctx, q, &list.words, &none, true)?;
                        ctx.outcome(&all);
                        ctx.count("states", all.len() as u64);
                        if let Some(p) = all.iter().find(|p| p.is_empty() || p.len() > depth.max(1)) {
                            return Err(format!("reported {}", list.phrase(p)));
                        }
                        let n = all.len();
                        let mut limits: Vec<Option<usize>> = (0..=(n + 1).min(if th { 400 } else { 40 })).map(Some).collect();
                        limits.extend([n.saturating_sub(1), n, n + 1, usize::MAX].map(Some));
                        limits.push(None);
                        limits.dedup();
                        for l in limits {
                            let want = &all[..l.unwrap_or(n).min(n)];
                            let ways = [
                                Set { text_depth: None, text_limit: None, depth: Some(depth), limit: Some(l) },
                                Set { text_depth: Some(depth), text_limit: l.or(Some(n + 7)), depth: None, limit: None },
                                // what the caller sets wins
                                Set { text_depth: Some(depth + 1), text_limit: Some(1), depth: Some(depth), limit: Some(l) },
                                Set { text_depth: Some(1), text_limit: Some(n + 3), depth: Some(depth), limit: Some(l) },
                            ];
                            for (w, s) in ways.iter().enumerate() {
                                for it in [true, false] {
                                    let got = stream(ctx, q, &list.words, s, it)?;
                                    if got != want {
                                        return Err(format!(
                                            "limit {:?} (set in way {}): {} answers {:?}, expected the first {} of the unlimited search",
                                            l, w, got.len(), got.iter().take(4).map(|p| list.phrase(p)).collect::<Vec<_>>(), want.len()
                                        ));
                                    }
                                }
                            }
                        }
                        // and one phrase limit is a prefix of the next, as a set
                        if depth > 1 {
                            let less = Set { text_depth: None, text_limit: None, depth: Some(depth - 1), limit: Some(None) };
                            let mut fewer = stream(ctx, q, &list.words, &less, true)?;
                            let mut short: Vec<_> = all.iter().filter(|p| p.len() < depth).cloned().collect();
                            fewer.sort();
                            short.sort();
                            if fewer != short {
                                return Err(format!("at most {} words: {} answers, but {} of those with one more word are as short", depth - 1, fewer.len(), short.len()));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // what the help text promises when nothing is set
    ctx.case(
        || "phrases of up to 10 words by default".into(),
        |ctx| {
            let list = List::new(&["a"]);
            let got = stream(ctx, "a*", &list.words, &Set { text_depth: None, text_limit: None, depth: None, limit: None }, true)?;
            let lens: Vec<usize> = got.iter().map(|p| p.len()).collect();
            if lens == (1..=10).collect::<Vec<_>>() { Ok(()) } else { Err(format!("phrases of {:?} words", lens)) }
        },
    );
    ctx.case(
        || "at least 100 results by default, and not all".into(),
        |ctx| {
            let list = List::new(&(0..1500).map(|i| format!("a{}", "b".repeat(i % 7))).collect::<Vec<_>>());
            let got = stream(ctx, "a.*", &list.words, &Set { text_depth: None, text_limit: None, depth: None, limit: None }, true)?;
            if got.len() >= 100 && got.len() < 1500 { Ok(()) } else { Err(format!("{} results", got.len())) }
        },
    );
}
