//! C03: several expressions mean intersection, in whatever order they are written.

use super::common::*;
use super::phrase::lists;
use super::Info;
use crate::ctx::Ctx;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all pairs and triples (all orders, repetitions included) of 16 lines, quadruples of 10 lines, quintuples of 4, x 7 lists x depth 4 \
                       (1 for single words); every order gives the same stream; 2-20 lines over words that fail one of them; 2-25 lines that make up to 377 words useless one after the other",
        bounds_thorough: "as quick, quadruples of 16 lines, quintuples of 8, depth 4",
        assumptions: &["sets of expressions outside the pool behave like those inside (small scope)"],
    }
}

fn fz(e: E, n: usize) -> Line {
    Line { fuzz: n, ..Line::plain(e) }
}

fn pool() -> Vec<Line> {
    let (a, b) = (lit('a'), lit('b'));
    vec![
        Line::plain(star(a.clone())),
        Line::plain(seq(&[star(dot()), b.clone()])),
        Line::plain(rep(dot(), 3, Some(4))),
        Line::plain(seq(&[a.clone(), star(dot())])),
        fz(word("ab"), 1),
        Line::plain(seq(&[star(seq(&[a.clone(), b.clone()])), opt(a.clone())])),
        Line::plain(alt(&[word("ab"), word("ba"), word("abba")])),
        Line { spaces: true, ..Line::plain(seq(&[rep(dot(), 1, Some(2)), space(), rep(dot(), 1, Some(3))])) },
        Line::plain(star(seq(&[dot(), dot()]))),
        fz(word("abab"), 2),
        Line::plain(star(E::Cls(mask("ab"), "[ab]"))),
        fz(seq(&[star(a.clone()), b.clone()]), 1),
        Line::plain(seq(&[star(dot()), punct(), star(dot())])),
        Line::plain(E::Enum(2)),
        Line::plain(rep(star(b.clone()), 2, Some(2))),
        Line::plain(seq(&[star(b.clone()), a.clone(), star(b.clone())])),
    ]
}

/// `k` expressions over `l + 1` words and "zz", of which only "zz zz" is an answer: a word is only
/// of use to an expression together with the next one in a chain, and the first one is of no use.
pub fn chain(k: usize, l: usize) -> (String, Vec<String>) {
    let abc = |i: usize| (b'a' + i as u8) as char;
    let w = |i: usize| format!("{}{}", abc(i % k), abc(i / k));
    let mut lines = vec![];
    for j in 0..k {
        let mut alts: Vec<String> = (j..l).step_by(k).map(|i| w(i) + &w(i + 1)).collect();
        if l % k == j {
            alts.push(w(l) + "zz");
        }
        let others: String = (0..k).filter(|&r| r != j && r != (j + 1) % k).map(abc).collect();
        if !others.is_empty() {
            alts.push(format!("[{}].zz", others));
        }
        alts.push("zzzz".into());
        lines.push(alts.join("|"));
    }
    let mut words: Vec<String> = (0..=l).map(w).collect();
    words.push("zz".into());
    (lines.join(";"), words)
}

/// Words that are found to be of no use one after the other, each because the one before it was.
fn chains(ctx: &mut Ctx) {
    for k in [2, 3, 4, 5, 8, 12, 16, 20, 25] {
        for l in [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 99, 100, 101, 102, 103, 104, 106, 110, 115, 120, 130, 144, 233, 377] {
            // (the words have one letter for the position within the chain)
            if l / k > 24 || (l / k > 16 && !ctx.thorough()) {
                continue;
            }
            let (q, words) = chain(k, l);
            ctx.case(
                || format!("{} expressions that make {} words useless, one after the other", k, l),
                |ctx| {
                    let list = List::new(&words);
                    for turn in [0, k / 2, k - 1] {
                        let mut lines: Vec<&str> = q.split(';').collect();
                        lines.rotate_left(turn);
                        let (o, st) = crate::engine::run(&lines.join(";"), &list.words, Some(2), Some(None));
                        ctx.count("traces", 1);
                        ctx.count("transitions", st.responses);
                        match o {
                            crate::engine::Outcome::Done(a) => {
                                let a: Vec<Vec<&str>> = a.iter().map(|p| p.iter().map(|&i| words[i as usize].as_str()).collect()).collect();
                                if a != [["zz", "zz"]] {
                                    return Err(format!("written from expression {} on, the answers are {:?} instead of zz zz", turn, a));
                                }
                            }
                            o => return Err(format!("written from expression {} on: {:?}", turn, o)),
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    super::scale::several(ctx);
    chains(ctx);
    let pool = pool();
    let lists: Vec<List> = lists().into_iter().filter(|l| !l.entries.is_empty()).collect();
    let lists = &lists[..7];
    for k in 0..pool.len() {
        for l in lists {
            one(ctx, &[&pool[k]], l, 3);
        }
    }
    let depth = 4;
    // multisets of a size: every order of each is tried inside the case
    for (n, of) in [(2, 16), (3, 16), (4, if ctx.thorough() { 16 } else { 10 }), (5, if ctx.thorough() { 8 } else { 4 })] {
        let mut idx = vec![0usize; n];
        if of == 0 {
            continue;
        }
        'all: loop {
            let ls: Vec<&Line> = idx.iter().map(|&i| &pool[i]).collect();
            for l in lists {
                one(ctx, &ls, l, depth);
                if n <= 2 {
                    one(ctx, &ls, l, 1);
                }
            }
            // next non-decreasing index vector
            let mut k = n;
            loop {
                if k == 0 {
                    break 'all;
                }
                k -= 1;
                if idx[k] + 1 < of {
                    let v = idx[k] + 1;
                    idx[k..].iter_mut().for_each(|x| *x = v);
                    break;
                }
            }
        }
    }
}

fn one(ctx: &mut Ctx, ls: &[&Line], list: &List, depth: usize) {
    let lines: Vec<Line> = ls.iter().map(|l| (*l).clone()).collect();
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(&lines), list.show(), depth),
        |ctx| {
            let got = check_query(ctx, &lines, list, depth)?;
            check_order(list, &got)?;
            let mut tried = vec![show_lines(&lines)];
            for p in permutations(lines.len()) {
                let ls: Vec<Line> = p.iter().map(|&i| lines[i].clone()).collect();
                let q = show_lines(&ls);
                if tried.contains(&q) {
                    continue;
                }
                tried.push(q.clone());
                let (o, st) = crate::engine::run(&q, &list.words, Some(depth), Some(None));
                ctx.count("traces", 1);
                ctx.count("transitions", st.responses);
                if o != crate::engine::Outcome::Done(got.clone()) {
                    return Err(format!("written as {:?} the answers are different: {:?}", q, o));
                }
            }
            Ok(())
        },
    );
}
