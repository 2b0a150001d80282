//! C05: anagram blocks count letters correctly.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all banks of 1-5 letters over {a,b,c}, 2-4 over {a,b,c,d} and of 5-6 over {a,b} (every order of letters up to 3) x 9 kinds x 9 \
                       fixed-length contexts on all words over {a,b,c} of <= 6 letters (exact) and 12 other contexts (never missed); \
                       phrases of <= 3 words from 3 lists; rows of 2 blocks (all banks of 1-3 letters over {a,b} and 1-4 over {c,d,e}, plain and '-') and of 3 \
                       blocks, over different letters; banks of 2-14 different letters and of up to 9 copies of a letter, with up to 8 letters \
                       added or removed",
        bounds_thorough: "as quick with banks of <= 6 letters over {a,b,c} and <= 5 over {a,b,c,d}, words of <= 7 letters",
        assumptions: &["banks and contexts outside the enumerated space behave like those inside (small scope)"],
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn banks(thorough: bool) -> Vec<&'static str> {
    let mut v: Vec<String> = strings("abc", 1, 3);
    let sorted = |s: &String| s.as_bytes().windows(2).all(|w| w[0] <= w[1]);
    v.extend(strings("abc", 4, if thorough { 6 } else { 5 }).into_iter().filter(sorted));
    v.extend(strings("ab", 5, 6).into_iter().filter(sorted));
    {
        v.extend(strings("abcd", 2, if thorough { 5 } else { 4 }).into_iter().filter(sorted));
    }
    v.sort();
    v.dedup();
    v.iter().map(|s| leak(s)).collect()
}

pub fn run(ctx: &mut Ctx) {
    super::scale::anagrams(ctx);
    let th = ctx.thorough();
    rows(ctx);
    let mut texts = strings("abc", 1, if th { 7 } else { 6 });
    texts.extend(strings("ab", 6, 7));
    texts.extend(["d", "ad", "abd", "dab", "abcd", "a'b", "a b", "ca b"].iter().map(|s| s.to_string()));
    let words = List::new(&texts);
    let lists = [
        List::new(&["a", "ab", "b", "ba", "c"]),
        List::tranched(vec![("ab".into(), 0), ("ca".into(), 0), ("b".into(), 1), ("a'c".into(), 2)]),
        List::new(&["aab", "bc", "abc", "a"]),
    ];
    for bank in banks(th) {
        let n = bank.len();
        let mut kinds = vec![Ana::Exact, Ana::Super, Ana::Sub, Ana::Add(1), Ana::Add(2), Ana::Del(1), Ana::Add(0)];
        if n > 1 {
            kinds.push(Ana::Del(2));
        }
        kinds.push(Ana::Del(n));
        for k in kinds {
            let x = E::Ana(k, bank);
            let (a, b) = (lit('a'), lit('b'));
            let ab = E::Cls(mask("ab"), "[ab]");
            let fixed = vec![
                seq(&[x.clone()]),
                E::Group(Box::new(x.clone())),
                seq(&[a.clone(), x.clone()]),
                seq(&[x.clone(), b.clone()]),
                seq(&[dot(), x.clone(), ab.clone()]),
                seq(&[word("ab"), x.clone()]),
                seq(&[E::Group(Box::new(seq(&[a.clone(), x.clone()]))), b.clone()]),
                seq(&[rep(dot(), 2, Some(2)), x.clone()]),
                E::Group(Box::new(E::Group(Box::new(seq(&[x.clone(), dot()]))))),
            ];
            for e in &fixed {
                one(ctx, e, true, &words, 1);
            }
            let others = vec![
                opt(x.clone()),
                star(x.clone()),
                rep(x.clone(), 2, Some(2)),
                rep(x.clone(), 1, Some(2)),
                seq(&[star(dot()), x.clone()]),
                seq(&[x.clone(), opt(a.clone())]),
                alt(&[x.clone(), word("ab")]),
                alt(&[seq(&[x.clone(), a.clone()]), seq(&[b.clone(), x.clone()])]),
                seq(&[x.clone(), x.clone()]),
                seq(&[x.clone(), dot(), E::Ana(Ana::Exact, "ba")]),
                E::Substr(vec![a.clone(), x.clone(), b.clone()]),
                E::Subset(vec![x.clone(), a.clone()]),
            ];
            for e in &others {
                one(ctx, e, false, &words, 1);
            }
            if n <= 3 {
                for l in &lists {
                    for e in &fixed[..4] {
                        one(ctx, e, true, l, 3);
                    }
                    for e in &others[..9] {
                        one(ctx, e, false, l, 3);
                    }
                }
            }
        }
    }
}

/// Several blocks in a row, over different letters, none of which can contain letters of the others.
fn rows(ctx: &mut Ctx) {
    let sorted = |s: &String| s.as_bytes().windows(2).all(|w| w[0] <= w[1]);
    let firsts: Vec<_> = strings("ab", 1, 3).into_iter().filter(sorted).collect();
    let seconds: Vec<_> = strings("cde", 1, 4).into_iter().filter(sorted).collect();
    let mut texts = strings("abcde", 1, 3);
    let (p, q) = (strings("ab", 0, 3), strings("cde", 0, 4));
    for x in &p {
        for y in &q {
            if x.len() + y.len() > 3 {
                texts.push(format!("{}{}", x, y));
                texts.push(format!("{}{}", y, x));
                if y.len() > 1 {
                    texts.push(format!("{}{}{}", &y[..1], x, &y[1..]));
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    let words = List::new(&texts);
    let kinds = |n: usize| {
        let mut v = vec![Ana::Exact, Ana::Sub];
        if n > 1 {
            v.push(Ana::Del(1));
        }
        v
    };
    for x in &firsts {
        for y in &seconds {
            for k in kinds(x.len()) {
                for l in kinds(y.len()) {
                    let (x, y) = (E::Ana(k, leak(x)), E::Ana(l, leak(y)));
                    one(ctx, &seq(&[x.clone(), y.clone()]), true, &words, 1);
                    one(ctx, &seq(&[y.clone(), x.clone()]), true, &words, 1);
                    if k == Ana::Exact && l == Ana::Exact {
                        one(ctx, &seq(&[x.clone(), dot(), y.clone()]), true, &words, 1);
                    }
                }
            }
        }
    }
    let three = List::new(&strings("abcdef", 1, 5));
    for (x, y, z) in [("a", "b", "cde"), ("ab", "c", "de"), ("abc", "d", "e"), ("a", "bcc", "d"), ("aab", "c", "d")] {
        let v: Vec<E> = [x, y, z].iter().map(|b| E::Ana(Ana::Exact, leak(b))).collect();
        for p in [[0, 1, 2], [1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]] {
            one(ctx, &seq(&[v[p[0]].clone(), v[p[1]].clone(), v[p[2]].clone()]), true, &three, 1);
        }
    }
}

fn one(ctx: &mut Ctx, e: &E, exact: bool, list: &List, depth: usize) {
    let lines = vec![Line::plain(e.clone())];
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(&lines), if list.entries.len() < 9 { list.show() } else { "universe".into() }, depth),
        |ctx| {
            check_query_with(ctx, &show_lines(&lines), list, depth, &|t, _| match verdict(&lines, t) {
                Verdict::No if !exact => Verdict::Open,
                v => v,
            })?;
            Ok(())
        },
    );
}
