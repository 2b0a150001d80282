//! C07: spaces and punctuation are ignored unless asked for.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all trees of <= 2 operators over 9 leaves (a, b, '.', '_', \"'\", [a_], [b'], [^a], [^b'_]) and 3 suffixes x all 4 option sets, \
                       on all words over {a,b,',space} of <= 4 symbols that neither start nor end with a space, and on phrases of <= 3 words from 2 lists; \
                       pairs of lines with different choices; every mention inside of the partial patterns, repetitions and alternatives, \
                       at every depth to 14 and place of 15; up to 12 lines of which one makes the choice",
        bounds_thorough: "as quick, plus trees of 3 operators over 5 leaves, and fuzzy lines",
        assumptions: &["expressions and words outside the enumerated space behave like those inside (small scope)"],
    }
}

pub fn run(ctx: &mut Ctx) {
    super::scale::marks(ctx);
    let texts: Vec<String> = strings("ab' ", 1, 4).into_iter().filter(|s| !s.starts_with(' ') && !s.ends_with(' ')).collect();
    let words = List::new(&texts);
    let l1 = List::new(&["a", "b'", "a b", "'", "'a"]);
    let l2 = List::tranched(vec![("ab".into(), 0), ("b".into(), 0), ("a'".into(), 1), ("b a".into(), 1)]);
    let leaves = vec![
        lit('a'),
        lit('b'),
        dot(),
        space(),
        punct(),
        E::Cls(mask("a") | 1 << SPACE, "[a_]"),
        E::Cls(mask("b") | 1 << PUNCT, "[b']"),
        E::Cls(LETTERS & !mask("a"), "[^a]"),
        E::Cls(LETTERS & !mask("b"), "[^b'_]"),
    ];
    let reps = vec![(0, Some(1)), (0, None), (2, Some(2))];
    let g = Grammar { leaves: leaves.clone(), reps: reps.clone(), groups: true, partials: false };
    let opts = [(false, false), (true, false), (false, true), (true, true)];
    let line = |e: &E, o: (bool, bool), n: usize| Line { e: e.clone(), spaces: o.0, puncts: o.1, fuzz: n };
    for e in g.levels(2).concat() {
        for o in opts {
            let l = [line(&e, o, 0)];
            one(ctx, &l, &words, 1);
            one(ctx, &l, &l1, 3);
            one(ctx, &l, &l2, 3);
        }
    }
    // mentioned inside of any other construct
    let g = Grammar { leaves: vec![lit('a'), lit('b'), space(), punct(), E::Cls(mask("b") | 1 << PUNCT, "[b']")], reps: vec![(0, Some(1))], groups: true, partials: true };
    for e in g.levels(if ctx.thorough() { 3 } else { 2 }).concat() {
        for x in [E::Subset(vec![e.clone(), lit('b')]), E::Superset(vec![lit('a'), e.clone()]), E::Substr(vec![lit('a'), e.clone(), lit('b')]), star(e.clone()), alt(&[lit('b'), e.clone()])] {
            let l = [line(&x, (false, false), 0)];
            one(ctx, &l, &words, 1);
            one(ctx, &l, &l1, 2);
            one(ctx, &l, &l2, 2);
        }
    }
    // every line has its own choice
    let mut pool = vec![];
    for e in [
        seq(&[lit('a'), star(dot())]),
        seq(&[lit('a'), space(), lit('b')]),
        seq(&[star(dot()), punct(), star(dot())]),
        star(E::Cls(mask("ab") | 1 << SPACE, "[ab_]")),
        rep(dot(), 2, Some(3)),
        star(E::Cls(ANY, "[a-z'_]")),
    ] {
        for o in opts {
            pool.push(line(&e, o, 0));
        }
    }
    for x in &pool {
        for y in &pool {
            let l = [x.clone(), y.clone()];
            one(ctx, &l, &words, 1);
            one(ctx, &l, &l1, 3);
            one(ctx, &l, &l2, 2);
        }
    }
    // fuzzy lines that ignore spaces and punctuation are judged exactly, others within bounds
    let small = Grammar { leaves, reps, groups: false, partials: false };
    for e in small.levels(if ctx.thorough() { 2 } else { 1 }).concat() {
        for o in opts {
            for n in 1..=2 {
                let l = [line(&e, o, n)];
                one(ctx, &l, &words, 1);
                one(ctx, &l, &l1, 2);
            }
        }
    }
    if ctx.thorough() {
        let g = Grammar {
            leaves: vec![lit('a'), dot(), space(), punct(), E::Cls(mask("a") | 1 << SPACE, "[a_]")],
            reps: vec![(0, Some(1)), (0, None)],
            groups: false,
            partials: false,
        };
        for e in &g.levels(3)[3] {
            for o in opts {
                let l = [line(e, o, 0)];
                one(ctx, &l, &words, 1);
                one(ctx, &l, &l1, 3);
            }
        }
    }
}

fn one(ctx: &mut Ctx, lines: &[Line], list: &List, depth: usize) {
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(lines), if list.entries.len() < 9 { list.show() } else { "universe".into() }, depth),
        |ctx| {
            let got = check_query(ctx, lines, list, depth)?;
            check_order(list, &got)
        },
    );
}
