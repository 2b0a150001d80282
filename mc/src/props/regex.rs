//! C01: the regular-expression operators mean what the help text says (single words).

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "every expression of <= 3 operators over 5 leaves and 10 repetition suffixes, \
                       each on every string of {a,b} of length 1..6, of {a,b,c} up to 3, and a word of punctuation only; 12 classes, most of them inverted, \
                       in 7 contexts on every string of {a,b,'} of length 1..3; every expression of 4 operators over 3 leaves and 5 repetition \
                       suffixes; every letter, pair and range of letters; every count from 0 to 16 (33), texts of 1-72 letters, 2-40 \
                       alternatives, 49 nestings to depth 12",
        bounds_thorough: "as quick, plus every expression of 5 operators over 3 leaves and 3 suffixes",
        assumptions: &["expressions outside the enumerated trees behave like those inside (small scope)"],
    }
}

pub fn run(ctx: &mut Ctx) {
    super::scale::regex(ctx);
    let mut texts = strings("ab", 1, 6);
    texts.extend(strings("abc", 1, 3).into_iter().filter(|s| s.contains('c')));
    texts.push("'".into());
    let list = List::new(&texts);
    let ab = E::Cls(mask("ab"), "[ab]");
    let nota = E::Cls(LETTERS & !mask("a"), "[^a]");
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot(), ab, nota],
        reps: vec![
            (0, Some(1)),
            (0, None),
            (1, None),
            (2, Some(2)),
            (2, None),
            (0, Some(2)),
            (1, Some(2)),
            (0, Some(0)),
            (2, Some(3)),
            (1, Some(1)),
        ],
        groups: true,
        partials: false,
    };
    one(ctx, &g, 0..=3, &list);
    // all classes of letters, with what they may mention besides
    let mut texts = strings("ab'", 1, 3);
    texts.extend(["z", "az", "m", "a b", "n'a"].iter().map(|s| s.to_string()));
    let marked = List::new(&texts);
    let a = || lit('a');
    for (m, t) in [
        (LETTERS & !mask("b"), "[^b']"),
        (LETTERS & !mask("b"), "[^_b]"),
        (LETTERS & !mask("b"), "[^'b_]"),
        (LETTERS, "[^']"),
        (LETTERS, "[^_]"),
        (LETTERS & !mask("ab"), "[^a-b']"),
        (0, "[^a-z]"),
        (0, "[^a-z']"),
        (LETTERS, "[a-z]"),
        (mask("z"), "[z-z]"),
        (mask("z"), "[^a-y]"),
        (mask("a"), "[^b-z]"),
    ] {
        let c = || E::Cls(m, t);
        for e in [c(), seq(&[c(), a()]), seq(&[a(), c()]), rep(c(), 0, None), rep(c(), 2, Some(2)), alt(&[a(), seq(&[c(), c()])]), seq(&[a(), rep(c(), 0, Some(1)), lit('b')])] {
            let l = Line::plain(e);
            ctx.case(
                || format!("query {:?}", l.show()),
                |ctx| {
                    let got = check_query(ctx, std::slice::from_ref(&l), &marked, 1)?;
                    check_order(&marked, &got)
                },
            );
        }
    }
    // deeper trees over fewer leaves
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot()],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2)), (0, Some(0))],
        groups: true,
        partials: false,
    };
    one(ctx, &g, 4..=4, &list);
    if ctx.thorough() {
        let g = Grammar { reps: vec![(0, Some(1)), (0, None), (2, Some(2))], ..g };
        one(ctx, &g, 5..=5, &list);
    }
}

fn one(ctx: &mut Ctx, g: &Grammar, ops: std::ops::RangeInclusive<usize>, list: &List) {
    let levels = g.levels(*ops.end());
    for level in &levels[*ops.start()..] {
        for e in level {
            let l = Line::plain(e.clone());
            ctx.case(
                || format!("query {:?}", l.show()),
                |ctx| {
                    let got = check_query(ctx, std::slice::from_ref(&l), list, 1)?;
                    check_order(list, &got)
                },
            );
        }
    }
}
