//! C08: interrupting a search never loses, repeats or reorders answers.
//!
//! The only nondeterminism of a search is at which of its clock reads the deadline turns out to
//! have passed. Time is virtual, and every such choice is made.

use super::common::*;
use super::Info;
use crate::clock;
use crate::ctx::Ctx;
use crate::engine::*;
use crate::gen::*;
use noodle::{parser, QueryEvaluator, QueryResponse};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "31 queries x 5 lists (1 to 3,200 words; word phase, several matchers, phrase phase, limits) x interruption at \
                       every single clock read, at every pair of reads (first 48), after every n-th read for every n, and by a deadline already over before each n-th call",
        bounds_thorough: "as quick with every triple of reads (first 20) and pairs up to 200",
        assumptions: &["the engine learns the time only through clock_gettime", "queries and lists outside the enumerated ones behave like those inside"],
    }
}

/// What a run delivered, without log lines (they hold measured times).
#[derive(PartialEq, Eq, Debug, Clone)]
enum R {
    Match(Vec<u32>),
    Complete(String),
}

/// When the deadline passes: after so many clock reads in the slice that starts with the call.
enum Plan<'a> {
    Never,
    /// distances between successive interruptions, in clock reads; then never again
    At(&'a [u64]),
    /// at the n-th read of every slice, and between interruptions for ever
    Every(u64),
    /// before each n-th call the deadline is over already
    Over(u64),
}

struct Trace {
    out: Vec<R>,
    reads: u64,
    timeouts: u64,
}

fn percent(p: &str) -> Result<(), String> {
    for (i, _) in p.match_indices('%') {
        let digits: String = p[..i].chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
        match digits.parse::<u64>() {
            Ok(n) if n <= 100 => {}
            _ => return Err(format!("progress is {:?}", p)),
        }
    }
    Ok(())
}

fn run_plan(ast: &parser::QueryAst, list: &List, depth: usize, limit: Option<usize>, plan: Plan, most: usize) -> Result<Trace, String> {
    let mut ev = QueryEvaluator::from_ast(ast, &list.words);
    ev.set_search_depth_limit(depth);
    ev.set_results_limit(limit);
    let mut t = Trace { out: vec![], reads: 0, timeouts: 0 };
    clock::arm();
    let mut next = match plan {
        Plan::At(v) => v.iter().copied().collect::<Vec<_>>().into_iter(),
        _ => vec![].into_iter(),
    };
    let mut armed_until: Option<u64> = next.next();
    let mut calls = 0u64;
    let mut total_calls = 0usize;
    let r = loop {
        let before = clock::reads();
        let deadline = clock::deadline();
        let mut expired_before = false;
        match plan {
            Plan::Never => clock::jump_at(None),
            Plan::At(_) => clock::jump_at(armed_until.map(|n| n - before)),
            Plan::Every(n) => clock::jump_at(Some(n)),
            Plan::Over(n) => {
                clock::jump_at(None);
                calls += 1;
                if calls % n == 0 {
                    clock::jump();
                    expired_before = true;
                }
            }
        }
        let r = ev.next_within_deadline(Some(deadline));
        let after = clock::reads();
        let late = match plan {
            Plan::Never => None,
            Plan::At(_) => armed_until.filter(|&n| n > before && n <= after),
            Plan::Every(n) => Some(before + n).filter(|&n| n <= after),
            Plan::Over(_) => expired_before.then_some(before),
        };
        if let (Plan::At(_), Some(n)) = (&plan, late) {
            armed_until = next.next().map(|d| n.max(after) + d);
        }
        total_calls += 1;
        if let Some(n) = late {
            // reads after the one that showed the deadline to be over (each expression may look)
            if after - n > 3 + ast.expressions.len() as u64 {
                break Err(format!("went on for {} looks at the clock after its deadline", after - n));
            }
        }
        match r {
            QueryResponse::Timeout => {
                t.timeouts += 1;
                if late.is_none() {
                    break Err(format!("timed out after {} looks at the clock although its deadline had not passed", after - before));
                }
                if let Err(e) = percent(&ev.progress()) {
                    break Err(e);
                }
            }
            QueryResponse::Logs(_) => {}
            QueryResponse::Match(p) => {
                t.out.push(R::Match(p.iter().map(|w| w.score).collect()));
                if t.out.len() > most {
                    break Err("reported more than the uninterrupted search".into());
                }
            }
            QueryResponse::Complete(m) => {
                t.out.push(R::Complete(m));
                break Ok(());
            }
        }
        if total_calls > 200_000 {
            break Err("made no progress".into());
        }
    };
    t.reads = clock::reads();
    clock::disarm();
    r.map(|_| t)
}

fn lists() -> Vec<List> {
    let mut l: Vec<List> = vec![];
    // more words than are tried between two looks at the clock; few match
    l.push(List::new(&strings("abc", 1, 5)));
    // groups
    let mut v: Vec<Entry> = strings("ab", 1, 5).into_iter().map(|s| (s, 0)).collect();
    v.extend(strings("abc", 4, 4).into_iter().map(|s| (s, 1)));
    v.extend(strings("abcd", 3, 3).into_iter().map(|s| (s, 3)));
    l.push(List::tranched(v));
    l.push(List::new(&["a", "ab", "b", "ba", "bab", "abb", "c"]));
    l.push(List::new(&["a"]));
    let mut v: Vec<String> = (0..300).map(|_| "zz".to_string()).collect();
    v.extend(strings("xyz", 6, 7));
    v.push("ab".into());
    l.push(List::new(&v));
    l
}

const QUERIES: &[(&str, usize, Option<usize>)] = &[
    ("ab", 3, None),
    ("a.*b", 1, None),
    ("[ab]{5}", 1, None),
    ("[ab]*c", 1, None),
    ("c{5}", 2, None),
    ("abcabc", 2, None),
    ("abcabcabc", 3, Some(40)),
    ("(abc)+", 2, None),
    ("a*", 4, None),
    ("b*a", 4, None),
    ("a{5};.*", 1, None),
    (".*a;.*b", 2, Some(40)),
    ("a.*;.*a.*b.*", 2, Some(25)),
    ("a.*;.*c;[ac]*", 2, Some(60)),
    ("abc !1", 1, None),
    ("abab !1;.*a", 2, None),
    ("<aabb>", 2, None),
    ("ab.*;ab.*", 2, Some(5)),
    ("b.b.b.b;.*a", 3, Some(30)),
    ("z*", 1, None),
    ("z{4}", 2, Some(10)),
    ("x{13}", 2, None),
    ("xyzxyz.xyz", 2, None),
    ("2 3", 2, None),
    ("_", 2, None),
    ("q", 3, None),
    ("(a|b)*q", 3, None),
    ("(abcd:^)", 2, None),
    (".{6};.{7}", 2, Some(30)),
    ("", 2, None),
    ("a;b", 3, Some(0)),
];

pub fn run(ctx: &mut Ctx) {
    assert!(clock::works(), "the clock is not under control");
    let lists = lists();
    let lists: Vec<(String, &List)> = lists.iter().enumerate().map(|(i, l)| (i.to_string(), l)).collect();
    for (q, depth, limit) in QUERIES {
        search(ctx, q, &lists, depth, limit);
    }
    // the preparation of the search for phrases takes many rounds
    for (k, l) in [(2, 6), (2, 20), (3, 15), (4, 30), (8, 60)] {
        let (q, words) = super::multi::chain(k, l);
        search(ctx, &q, &[(format!("of a chain of {}", l), &List::new(&words))], &2, &None);
    }
    prompt(ctx);
}

fn search(ctx: &mut Ctx, q: &str, lists: &[(String, &List)], depth: &usize, limit: &Option<usize>) {
    {
        for (k, list) in lists.iter().map(|(k, l)| (k, *l)) {
            let ast = parser::QueryAst::new_from_str(q).map_err(|e| e.to_string());
            let what = format!("query {:?} list {} depth {} limit {:?}", q, k, depth, limit);
            // the uninterrupted search; its clock reads are the points at which to interrupt
            let base = ast.clone().and_then(|ast| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_plan(&ast, list, *depth, *limit, Plan::Never, usize::MAX)))
                    .unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(e))))
            });
            clock::disarm();
            let (base, ast) = match (base, ast) {
                (Ok(b), Ok(a)) => (b, a),
                (Err(e), _) | (_, Err(e)) => {
                    ctx.case(|| what.clone(), |_| Err(e));
                    continue;
                }
            };
            ctx.case(
                || format!("{}: stream without a deadline", what),
                |ctx| {
                    let (o, _) = crate::engine::run(q, &list.words, Some(*depth), Some(*limit));
                    let want: Vec<Vec<u32>> = base.out.iter().filter_map(|r| if let R::Match(p) = r { Some(p.clone()) } else { None }).collect();
                    ctx.outcome(&want);
                    ctx.count("max_clock_reads", base.reads);
                    if o == Outcome::Done(want) {
                        Ok(())
                    } else {
                        Err("a deadline that never passes changes the answers".into())
                    }
                },
            );
            let go = |ctx: &mut Ctx, how: &dyn Fn() -> String, plan: Plan, want_timeout: bool| {
                let r = run_plan(&ast, list, *depth, *limit, plan, base.out.len());
                clock::disarm();
                let t = r.map_err(|e| format!("{} ({})", e, how()))?;
                ctx.count("states", t.reads);
                ctx.count("transitions", t.out.len() as u64 + t.timeouts);
                ctx.count("traces", 1);
                ctx.count("interruptions", t.timeouts);
                if want_timeout && t.timeouts == 0 {
                    return Err(format!("never timed out ({})", how()));
                }
                if t.out != base.out {
                    let i = t.out.iter().zip(&base.out).position(|(a, b)| a != b).unwrap_or(t.out.len().min(base.out.len()));
                    return Err(format!("interrupted {}, answer {} is {:?}, uninterrupted {:?}", how(), i, t.out.get(i), base.out.get(i)));
                }
                Ok(())
            };
            // every single point
            for lo in (1..=base.reads).step_by(64) {
                ctx.case(
                    || format!("{}: every single interruption, from clock read {} on", what, lo),
                    |ctx| {
                        for n in lo..=base.reads.min(lo + 63) {
                            go(ctx, &|| format!("at clock read {}", n), Plan::At(&[n]), false)?;
                        }
                        Ok(())
                    },
                );
            }
            // every period
            ctx.case(
                || format!("{}: every period", what),
                |ctx| {
                    for n in 2..=base.reads.min(300) + 1 {
                        go(ctx, &|| format!("at read {} of every slice", n), Plan::Every(n), false)?;
                    }
                    for n in 2..=6 {
                        go(ctx, &|| format!("before every {}. call", n), Plan::Over(n), false)?;
                    }
                    Ok(())
                },
            );
            let most = base.reads.min(if ctx.thorough() { 200 } else { 48 });
            for a in 1..=most {
                ctx.case(
                    || format!("{}: first interruption at read {}, second anywhere", what, a),
                    |ctx| {
                        for b in 1..=most {
                            go(ctx, &|| format!("at read {} and {} reads later", a, b), Plan::At(&[a, b]), false)?;
                            if ctx.thorough() && a <= 20 && b <= 20 {
                                for c in 1..=20 {
                                    go(ctx, &|| format!("at read {}, {} and {} reads later", a, b, c), Plan::At(&[a, b, c]), false)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// A deadline is noticed: a long search that finds nothing looks at the clock often enough.
fn prompt(ctx: &mut Ctx) {
    let mut long: Vec<String> = strings("abcdefg", 5, 5);
    long.truncate(12_000);
    let single = List::new(&long);
    // a word list of which all words stay in the phrase search, and no phrase is an answer
    let many: Vec<String> = strings("ab", 6, 6);
    let phrase = List::new(&many);
    let dead = List::new(&(0..3000).map(|i| format!("x{}", ["a", "b", "c"][i % 3])).collect::<Vec<_>>());
    // (query, list, depth, number of words or phrases that must be tried)
    let cases: Vec<(&str, &List, usize, u64)> = vec![
        ("z", &single, 1, 12_000),
        ("z", &single, 3, 12_000),
        ("z;.*", &single, 1, 12_000),
        (".*z", &single, 1, 12_000),
        ("a !1", &single, 1, 12_000),
        ("y", &dead, 2, 3_000),
        // 64 words, all combinations of two of each length are tried before any could match
        (".*a;.*b", &phrase, 2, 4_000),
        (".*a;.*b", &phrase, 3, 260_000),
    ];
    for (q, list, depth, steps) in cases {
        ctx.case(
            || format!("a deadline is noticed within 4096 steps: query {:?} depth {}", q, depth),
            |ctx| {
                let ast = parser::QueryAst::new_from_str(q).map_err(|e| e.to_string())?;
                let r = run_plan(&ast, list, depth, None, Plan::Never, usize::MAX);
                clock::disarm();
                let t = r?;
                ctx.count("traces", 1);
                ctx.count("states", t.reads);
                if t.out.len() > 1 {
                    return Err(format!("not a search without answers: {:?}", t.out.first()));
                }
                if t.reads < steps / 4096 + 1 {
                    return Err(format!("looked at the clock only {} times while trying {} words or phrases", t.reads, steps));
                }
                // over before it began: the search does not run to its end
                let mut ev = QueryEvaluator::from_ast(&ast, &list.words);
                ev.set_search_depth_limit(depth);
                clock::arm();
                let d = clock::deadline();
                clock::jump();
                let r = ev.next_within_deadline(Some(d));
                clock::disarm();
                if r != QueryResponse::Timeout {
                    return Err(format!("the deadline was over, the response is {:?}", r));
                }
                // every further slice ends at its first look at the clock after the one that starts it
                let r = run_plan(&ast, list, depth, None, Plan::Every(3), usize::MAX);
                clock::disarm();
                let u = r?;
                ctx.count("traces", 1);
                ctx.count("states", u.reads);
                ctx.count("interruptions", u.timeouts);
                if u.timeouts < steps / 4096 / 3 {
                    return Err(format!("only {} timeouts in {} steps", u.timeouts, steps));
                }
                Ok(())
            },
        );
    }
    // The rounds of the preparation of the search for phrases
    for (k, l, rounds) in [(2, 20, 12), (4, 40, 32), (8, 60, 54), (16, 115, 110)] {
        ctx.case(
            || format!("a deadline is noticed in the preparation of the search for phrases: chain of {} in {} expressions", l, k),
            |ctx| {
                let (q, words) = super::multi::chain(k, l);
                let ast = parser::QueryAst::new_from_str(&q).map_err(|e| e.to_string())?;
                let r = run_plan(&ast, &List::new(&words), 2, None, Plan::Every(3), usize::MAX);
                clock::disarm();
                let t = r?;
                ctx.count("traces", 1);
                ctx.count("states", t.reads);
                ctx.count("interruptions", t.timeouts);
                if t.timeouts < rounds / 8 {
                    return Err(format!("only {} timeouts in {} rounds", t.timeouts, rounds));
                }
                Ok(())
            },
        );
    }
    // All words are looked at for the further expressions only once the first is through
    for further in 1..4 {
        ctx.case(
            || format!("a deadline is noticed while {} further expressions look at the words", further),
            |ctx| {
                let mut reads = vec![];
                for q in [".*z".to_string(), ".*z".to_string() + &";.*".repeat(further)] {
                    let ast = parser::QueryAst::new_from_str(&q).map_err(|e| e.to_string())?;
                    let r = run_plan(&ast, &single, 2, None, Plan::Never, usize::MAX);
                    clock::disarm();
                    reads.push(r?.reads);
                    ctx.count("traces", 1);
                    ctx.count("states", reads[reads.len() - 1]);
                }
                let steps = 12_000 * further as u64;
                if reads[1] < reads[0] + steps / 4096 {
                    return Err(format!("looked at the clock only {} times in {} steps", reads[1] - reads[0], steps));
                }
                Ok(())
            },
        );
    }
    // A search that finds an answer at every step: the timeout comes between answers
    let some = List::new(&strings("ab", 1, 3));
    for (q, depth) in [(".*", 3), ("a.*", 4), (".*;[ab]*", 3), ("(a|b)*", 2), (".{3,9} !1", 3)] {
        ctx.case(
            || format!("a deadline is noticed between answers: query {:?} depth {}", q, depth),
            |ctx| {
                let ast = parser::QueryAst::new_from_str(q).map_err(|e| e.to_string())?;
                let all = {
                    let mut ev = QueryEvaluator::from_ast(&ast, &some.words);
                    ev.set_search_depth_limit(depth);
                    ev.set_results_limit(None);
                    ev.filter(|r| matches!(r, QueryResponse::Match(_))).count()
                };
                for answered in 0..all.min(400) {
                    let mut ev = QueryEvaluator::from_ast(&ast, &some.words);
                    ev.set_search_depth_limit(depth);
                    ev.set_results_limit(None);
                    clock::arm();
                    let d = clock::deadline();
                    let mut n = 0;
                    while n < answered {
                        match ev.next_within_deadline(Some(d)) {
                            QueryResponse::Match(_) => n += 1,
                            QueryResponse::Logs(_) => {}
                            r => {
                                clock::disarm();
                                return Err(format!("{:?} after {} answers of {}", r, n, all));
                            }
                        }
                    }
                    clock::jump();
                    let mut more = 0;
                    let r = loop {
                        match ev.next_within_deadline(Some(d)) {
                            QueryResponse::Match(_) if more < 300 => more += 1,
                            QueryResponse::Logs(_) => {}
                            r => break r,
                        }
                    };
                    clock::disarm();
                    ctx.count("traces", 1);
                    ctx.count("states", n as u64);
                    match r {
                        QueryResponse::Timeout => {}
                        QueryResponse::Complete(_) => {}
                        r => return Err(format!("the deadline was over after {} answers, and still {:?} {} answers later", n, r, more)),
                    }
                }
                Ok(())
            },
        );
    }
}
