//! C04: a fuzzy search finds exactly the texts within n edits.

use super::common::*;
use super::phrase;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all trees of <= 2 operators (4 leaves, 6 suffixes) x n 1-3 x all words over {a,b} of <= 5 letters and over {a,b,c} \
                       of <= 3; all texts over {a,b} of <= 5 letters as queries x n 1-4; trees of <= 2 operators and texts x n 1-2 x 9 \
                       lists x depth 3 phrases; pairs of texts of <= 3 letters, each with its own n; trees of 3 operators (4 leaves, 6 suffixes) \
                       x n 1-2 on single words; texts of 3-10 letters x n to 9 on every way to leave out or change letters; phrases of 4 words x n 3-7",
        bounds_thorough: "as quick, plus trees of 3 operators on phrases (2 leaves, 3 suffixes) and of 4 operators (2 leaves, 3 suffixes) on single words",
        assumptions: &["expressions, distances and words outside the enumerated space behave like those inside (small scope)"],
    }
}

pub fn run(ctx: &mut Ctx) {
    super::scale::fuzzy(ctx);
    let mut texts = strings("ab", 1, 5);
    texts.extend(strings("abc", 1, 3).into_iter().filter(|s| s.contains('c')));
    texts.push("a'b".into());
    texts.push("'".into());
    texts.push("b a".into());
    let words = List::new(&texts);
    let ab = E::Cls(mask("ab"), "[ab]");
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot(), ab],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2)), (2, None), (1, Some(2))],
        groups: true,
        partials: false,
    };
    for e in g.levels(2).concat() {
        for n in 1..=3 {
            one(ctx, &[(&e, n)], &words, 1);
        }
    }
    for s in strings("ab", 1, 5) {
        for n in 1..=4 {
            one(ctx, &[(&word(&s), n)], &words, 1);
        }
    }
    let lists = phrase::lists();
    let levels = g.levels(3);
    for e in levels[..3].concat().into_iter().chain(strings("ab", 2, 4).iter().map(|s| word(s))) {
        for n in 1..=2 {
            for l in &lists {
                one(ctx, &[(&e, n)], l, 3);
            }
        }
    }
    let two = strings("ab", 2, 3);
    for s in &two {
        for t in &two {
            for (n, m) in [(0, 1), (1, 0), (1, 1), (2, 1), (0, 2)] {
                for l in &lists[..3] {
                    one(ctx, &[(&word(s), n), (&word(t), m)], l, 3);
                }
            }
        }
    }
    for e in &levels[3] {
        for n in 1..=2 {
            one(ctx, &[(e, n)], &words, 1);
        }
    }
    if ctx.thorough() {
        let g = Grammar { leaves: vec![lit('a'), lit('b')], reps: vec![(0, Some(1)), (0, None), (2, Some(2))], groups: true, partials: false };
        let levels = g.levels(4);
        for e in &levels[4] {
            for n in 1..=2 {
                one(ctx, &[(e, n)], &words, 1);
            }
        }
        for e in &levels[3] {
            for n in 1..=2 {
                for l in &lists[..4] {
                    one(ctx, &[(e, n)], l, 3);
                }
            }
        }
    }
}

fn one(ctx: &mut Ctx, es: &[(&E, usize)], list: &List, depth: usize) {
    let lines: Vec<Line> = es.iter().map(|(e, n)| Line { fuzz: *n, ..Line::plain((*e).clone()) }).collect();
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(&lines), list.show(), depth),
        |ctx| {
            let got = check_query(ctx, &lines, list, depth)?;
            check_order(list, &got)
        },
    );
}
