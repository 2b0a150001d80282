//! C06: subsets, supersets, substrings and enumerations.

use super::common::*;
use super::phrase;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all trees of <= 3 operators (3 leaves, 3 suffixes, the three partial patterns) on all words over {a,b} of <= 5 letters \
                       and words with spaces and punctuation; trees of 4 operators over 2 leaves and 2 suffixes; all trees of <= 2 operators on phrases from 9 lists, depth 3; all partial \
                       patterns over all texts of <= 4 symbols; all enumerations of <= 3 numbers from 0-3, alone and within other operators; patterns of \
                       1-11 terms on every choice of them; numbers from 0 to 34 and pairs of them, up to 7 numbers",
        bounds_thorough: "as quick, plus trees of 4 operators over 2 leaves and 3 suffixes with groups, and of 3 operators on phrases",
        assumptions: &["expressions outside the enumerated space behave like those inside (small scope)"],
    }
}

pub fn run(ctx: &mut Ctx) {
    super::scale::partials(ctx);
    let mut texts = strings("ab", 1, 5);
    texts.extend(["c", "ac", "ca", "abc", "acb", "cab", "a'b", "a b", "'", "ab'", "a ab"].iter().map(|s| s.to_string()));
    let words = List::new(&texts);
    let lists = phrase::lists();
    let g = Grammar { leaves: vec![lit('a'), lit('b'), dot()], reps: vec![(0, Some(1)), (0, None), (2, Some(2))], groups: true, partials: true };
    let levels = g.levels(3);
    for (k, level) in levels.iter().enumerate() {
        for e in level {
            one(ctx, e, &words, 1);
            if k <= 2 {
                for l in &lists {
                    one(ctx, e, l, 3);
                }
            }
        }
    }
    let g = Grammar { leaves: vec![lit('a'), lit('b')], reps: vec![(0, Some(1)), (0, None)], groups: false, partials: true };
    for e in &g.levels(4)[4] {
        one(ctx, e, &words, 1);
    }
    if ctx.thorough() {
        let g = Grammar { leaves: vec![lit('a'), lit('b')], reps: vec![(0, Some(1)), (0, None), (2, Some(2))], groups: true, partials: true };
        let levels = g.levels(4);
        for e in &levels[4] {
            one(ctx, e, &words, 1);
        }
        for e in &levels[3] {
            for l in &lists[..4] {
                one(ctx, e, l, 3);
            }
        }
    }
    for s in strings("abc", 1, 4) {
        let t: Vec<E> = s.chars().map(lit).collect();
        for e in [E::Subset(t.clone()), E::Superset(t.clone()), E::Substr(t.clone())] {
            one(ctx, &e, &words, 1);
            one(ctx, &seq(&[lit('a'), e.clone(), star(lit('b'))]), &words, 1);
            if s.len() < 4 {
                for l in &lists[..4] {
                    one(ctx, &e, l, 3);
                }
            }
        }
    }
    // enumerations
    let nums = List::new(&["a", "b", "ab", "abb", "abc", "a'b", "a b", "'", "bb b"]);
    for n in 1..=3u32 {
        for k in 0..4usize.pow(n) {
            let mut k = k;
            let mut v = vec![];
            for _ in 0..n {
                v.push(E::Enum(k % 4));
                k /= 4;
            }
            let e = if v.len() == 1 { v[0].clone() } else { E::Seq(v.clone()) };
            one(ctx, &e, &nums, 3);
            if n == 2 {
                let (x, y) = (v[0].clone(), v[1].clone());
                for e in [
                    alt(&[x.clone(), y.clone()]),
                    star(seq(&[x.clone(), y.clone()])),
                    seq(&[lit('a'), x.clone()]),
                    seq(&[x.clone(), lit('b'), y.clone()]),
                    seq(&[opt(x.clone()), star(y.clone())]),
                    E::Substr(vec![x.clone(), y.clone()]),
                    E::Subset(vec![x.clone(), y.clone()]),
                    E::Superset(vec![x.clone(), lit('a')]),
                ] {
                    one(ctx, &e, &nums, 3);
                }
            }
        }
    }
}

fn one(ctx: &mut Ctx, e: &E, list: &List, depth: usize) {
    let lines = vec![Line::plain(e.clone())];
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(&lines), if list.entries.len() < 10 { list.show() } else { "universe".into() }, depth),
        |ctx| {
            let got = check_query(ctx, &lines, list, depth)?;
            check_order(list, &got)
        },
    );
}
