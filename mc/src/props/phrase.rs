//! C02: phrase search is sound and complete: exactly the word sequences that match, each once.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::engine::Entry;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all trees of <= 2 operators (4 leaves, 8 repetition suffixes) x 9 lists (<= 5 words, up to 3 groups, \
                       duplicates) x depths 2-5; all trees of 3 operators (3 leaves, 4 suffixes) x 4 lists x depth 3; all texts of \
                       <= 6 symbols over {a,b,.} x all 14 words of <= 3 letters x depth 3; 8 queries x 273 words x depth 2; all trees of 4 operators \
                       x 3 lists x depth 3; phrases of up to 12 words; texts of 2-14 letters cut into words in every way; 360 words of different \
                       kinds; 70,000 words",
        bounds_thorough: "as quick, plus all trees of 4 operators x the fourth list, of 5 operators over 2 leaves and 3 suffixes x 2 lists, texts of <= 8 symbols",
        assumptions: &["queries, lists and depths outside the enumerated space behave like those inside (small scope)"],
    }
}

pub fn lists() -> Vec<List> {
    let t = |v: &[(&str, u8)]| List::tranched(v.iter().map(|(s, t)| (s.to_string(), *t)).collect());
    vec![
        List::new(&["a", "ab", "b", "ba"]),
        // not sorted, sharing prefixes, with a longer word and one of punctuation only
        List::new(&["abb", "ab", "a", "b'a", "aba"]),
        // several groups
        t(&[("ab", 0), ("b", 0), ("a", 1), ("bab", 2)]),
        t(&[("b", 1), ("aa", 3), ("a", 3)]),
        // the same word twice, next to each other and in another group
        t(&[("a", 0), ("a", 0), ("b", 0), ("a", 2)]),
        List::new(&["'", "a", "b"]),
        List::new(&["a"]),
        t(&[("a", 5)]),
        List::new::<&str>(&[]),
    ]
}

pub fn run(ctx: &mut Ctx) {
    super::scale::phrases(ctx);
    let lists = lists();
    let ab = E::Cls(mask("ab"), "[ab]");
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot(), ab],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2)), (3, Some(3)), (2, None), (0, Some(3)), (1, Some(4))],
        groups: true,
        partials: false,
    };
    for e in g.levels(2).concat() {
        for list in &lists {
            for depth in [2usize, 3, 4, 5] {
                if depth == 5 && list.entries.len() > 3 {
                    continue;
                }
                one(ctx, &e, list, depth);
            }
        }
    }
    // one operator more, over fewer leaves
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot()],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2))],
        groups: true,
        partials: false,
    };
    let levels = g.levels(4);
    for e in &levels[3] {
        for list in &lists[..4] {
            one(ctx, e, list, 3);
        }
    }
    for e in &levels[4] {
        for list in &lists[if ctx.thorough() { 0..4 } else { 1..4 }] {
            one(ctx, e, list, 3);
        }
    }
    if ctx.thorough() {
        let g = Grammar { leaves: vec![lit('a'), lit('b')], reps: vec![(0, Some(1)), (0, None), (2, Some(2))], ..g.clone() };
        for e in &g.levels(5)[5] {
            for list in &lists[1..3] {
                one(ctx, e, list, 3);
            }
        }
    }
    // a text cut into words: every text, all words of up to three letters
    let dense = List::tranched(strings("ab", 1, 3).into_iter().map(|s| (s.clone(), (s.len() / 2) as u8)).collect());
    for s in strings("ab.", 1, if ctx.thorough() { 8 } else { 6 }) {
        let e = E::Seq(s.chars().map(|c| if c == '.' { dot() } else { lit(c) }).collect());
        one(ctx, &e, &dense, 3);
        one(ctx, &e, &lists[2], 4);
    }
    for e in g.levels(1).concat() {
        one(ctx, &e, &dense, 3);
    }
    // more words than are looked at between two looks at the clock, words longer than their inline
    // storage, and words of which only some can be part of an answer
    let mut many: Vec<Entry> = strings("ab", 1, 7).into_iter().map(|s| (s, 1)).collect();
    many.extend(strings("cd", 1, 3).into_iter().map(|s| (s, 1)));
    many.extend(["a", "aab", "abababababababababab", "bbbbbbbbbbbbbbbb", "aaaaaaaaaaaaaaaaa"].iter().map(|s| (s.to_string(), 2)));
    let many = List::tranched(many);
    let some = ["(ab)*", "a{8}", "(ab){10}", "(a|b){5}c", "b{17}a?", "a{17}b{16}", "[abc]{3}d", "(abc|abd)+"];
    let models: Vec<E> = vec![
        rep(E::Seq(vec![lit('a'), lit('b')]), 0, None),
        rep(lit('a'), 8, Some(8)),
        rep(E::Seq(vec![lit('a'), lit('b')]), 10, Some(10)),
        E::Seq(vec![rep(E::Alt(vec![lit('a'), lit('b')]), 5, Some(5)), lit('c')]),
        E::Seq(vec![rep(lit('b'), 17, Some(17)), rep(lit('a'), 0, Some(1))]),
        E::Seq(vec![rep(lit('a'), 17, Some(17)), rep(lit('b'), 16, Some(16))]),
        E::Seq(vec![rep(E::Cls(mask("abc"), "[abc]"), 3, Some(3)), lit('d')]),
        rep(E::Alt(vec![E::Seq(vec![lit('a'), lit('b'), lit('c')]), E::Seq(vec![lit('a'), lit('b'), lit('d')])]), 1, None),
    ];
    for (t, e) in some.iter().zip(&models) {
        debug_assert_eq!(*t, e.show());
        one(ctx, e, &many, 2);
    }
}

fn one(ctx: &mut Ctx, e: &E, list: &List, depth: usize) {
    let l = Line::plain(e.clone());
    ctx.case(
        || format!("query {:?} list {} depth {}", l.show(), list.show(), depth),
        |ctx| {
            let got = check_query(ctx, std::slice::from_ref(&l), list, depth)?;
            check_order(list, &got)
        },
    );
}
