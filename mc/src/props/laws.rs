//! C16: equivalent spellings of a query give equal answers, at every size.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use noodle::{parser, QueryEvaluator};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "every tree of <= 2 operators (5 leaves, 6 suffixes, partial patterns) x every one of 24 rewrites at every position, on all \
                       words over {a,b} of <= 5 letters and phrases of <= 3 words from 2 lists; printed form read again (also fuzzy, \
                       anagrams); every tree of <= 2 operators (2 leaves, 4 suffixes, partial patterns) before and after 26-33 and 60-63 letters; 13 families of expressions at every size from 1 to 140 letters (4 families up to 2049), exact answers",
        bounds_thorough: "as quick, trees of 3 operators, sizes up to 400 (4 families up to 4000)",
        assumptions: &["expressions and rewrites outside the enumerated ones behave like those inside (small scope)"],
    }
}

/// All rewrites of `e` itself (not of its parts) that keep its meaning.
fn rewrites(e: &E) -> Vec<E> {
    let b = |e: &E| Box::new(e.clone());
    let mut v = vec![
        E::Group(b(e)),
        E::Group(Box::new(E::Group(b(e)))),
        rep(e.clone(), 1, Some(1)),
        alt(&[e.clone(), e.clone()]),
        E::Group(Box::new(rep(rep(e.clone(), 1, Some(1)), 1, Some(1)))),
    ];
    match e {
        E::Cls(m, s) => {
            if *m == mask("ab") {
                for t in ["[ba]", "[a-b]", "[aab]", "[A-B]", "[ a b ]", "[a-bb]", "[aB]"] {
                    v.push(E::Cls(*m, t));
                }
                v.push(alt(&[lit('a'), lit('b')]));
            } else if *m == LETTERS {
                v.extend(["[a-z]", "[a-mn-z]", "[A-Z]"].map(|t| E::Cls(*m, t)));
            } else if *s == "a" {
                v.extend(["A", "[a]", "[a-a]", "[^b-z]", " a "].map(|t| E::Cls(*m, t)));
            } else if *m == LETTERS & !1 {
                v.extend(["[b-z]", "[^A]", "[^a-a]", "[ ^ a ]"].map(|t| E::Cls(*m, t)));
            }
        }
        E::Rep(x, 0, Some(1)) => {
            v.push(E::Rep(x.clone(), 0, Some(0)).or(x));
            v.push(alt(&[rep((**x).clone(), 0, Some(0)), (**x).clone()]));
        }
        E::Rep(x, 0, None) => {
            v.push(rep(e.clone(), 0, None));
            v.push(rep(rep((**x).clone(), 0, Some(1)), 0, None));
            v.push(opt(seq(&[(**x).clone(), e.clone()])));
            v.push(seq(&[e.clone(), e.clone()]));
            v.push(rep(e.clone(), 1, None));
        }
        E::Rep(x, n, None) => {
            v.push(seq(&[rep((**x).clone(), *n, Some(*n)), star((**x).clone())]));
            v.push(seq(&[star((**x).clone()), rep((**x).clone(), *n, Some(*n))]));
        }
        E::Rep(x, n, Some(m)) if n == m => {
            v.push(E::Seq((0..*n).map(|_| (**x).clone()).collect::<Vec<_>>().pad()));
        }
        E::Rep(x, n, Some(m)) => {
            v.push(seq(&[rep((**x).clone(), *n, Some(*n)), rep((**x).clone(), 0, Some(m - n))]));
            v.push(E::Alt((*n..=*m).map(|k| rep((**x).clone(), k, Some(k))).collect()));
        }
        E::Alt(v2) => {
            let mut r = v2.clone();
            r.reverse();
            v.push(E::Alt(r));
            let mut r = v2.clone();
            r.push(v2[0].clone());
            v.push(E::Alt(r));
            // (x|y) = (x|(y|...))
            v.push(alt(&[v2[0].clone(), E::Group(Box::new(E::Alt(v2[1..].to_vec())))]));
        }
        E::Seq(v2) if v2.len() >= 2 => {
            for (i, x) in v2.iter().enumerate() {
                let x = match x {
                    E::Group(x) => x,
                    x => x,
                };
                if let E::Alt(a) = x {
                    // distribute over the alternatives
                    v.push(E::Alt(
                        a.iter()
                            .map(|y| {
                                let mut s = v2.clone();
                                s[i] = y.clone();
                                E::Seq(s)
                            })
                            .collect(),
                    ));
                }
            }
            v.push(seq(&[v2[0].clone(), E::Group(Box::new(E::Seq(v2[1..].to_vec())))]));
            let n = v2.len();
            v.push(seq(&[E::Group(Box::new(E::Seq(v2[..n - 1].to_vec()))), v2[n - 1].clone()]));
        }
        E::Subset(v2) => v.push(E::Seq(v2.iter().map(|x| opt(x.clone())).collect())),
        E::Superset(v2) => {
            let any = star(E::Cls(ANY, "[a-z'_]"));
            let mut s = vec![any.clone()];
            for x in v2 {
                s.push(x.clone());
                s.push(any.clone());
            }
            v.push(E::Seq(s));
        }
        _ => {}
    }
    v
}

trait Or {
    fn or(self, x: &E) -> E;
}
impl Or for E {
    fn or(self, x: &E) -> E {
        alt(&[x.clone(), self])
    }
}
trait Pad {
    fn pad(self) -> Vec<E>;
}
impl Pad for Vec<E> {
    /// the empty sequence has no spelling of its own
    fn pad(self) -> Vec<E> {
        if self.is_empty() {
            vec![rep(lit('q'), 0, Some(0))]
        } else {
            self
        }
    }
}

/// Every single rewrite at every position of `e`.
fn all_rewrites(e: &E) -> Vec<E> {
    let mut out = rewrites(e);
    let parts = |v: &Vec<E>, f: &dyn Fn(Vec<E>) -> E, out: &mut Vec<E>| {
        for i in 0..v.len() {
            for x in all_rewrites(&v[i]) {
                let mut w = v.clone();
                w[i] = x;
                out.push(f(w));
            }
        }
    };
    match e {
        E::Seq(v) => parts(v, &E::Seq, &mut out),
        E::Alt(v) => parts(v, &E::Alt, &mut out),
        E::Subset(v) => parts(v, &E::Subset, &mut out),
        E::Superset(v) => parts(v, &E::Superset, &mut out),
        E::Substr(v) => parts(v, &E::Substr, &mut out),
        E::Group(x) => out.extend(all_rewrites(x).into_iter().map(|x| E::Group(Box::new(x)))),
        E::Rep(x, a, b) => out.extend(all_rewrites(x).into_iter().map(|x| E::Rep(Box::new(x), *a, *b))),
        _ => {}
    }
    out
}

fn answers(ctx: &mut Ctx, q: &str, list: &List, depth: usize) -> Result<Vec<Vec<u32>>, String> {
    let (o, st) = crate::engine::run(q, &list.words, Some(depth), Some(None));
    ctx.count("traces", 1);
    ctx.count("transitions", st.responses);
    match o {
        Outcome::Done(mut v) => {
            v.sort();
            Ok(v)
        }
        o => Err(format!("{:?}: {:?}", q, o)),
    }
}

/// The expression as the engine prints it.
fn printed(q: &str) -> Result<String, String> {
    parser::ExpressionAst::new_from_str(q).map(|a| a.to_string()).map_err(|e| e.to_string())
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let mut texts = strings("ab", 1, 5);
    texts.extend(["c", "ac", "ca", "a'b", "a b", "b'", "cc"].iter().map(|s| s.to_string()));
    let words = List::new(&texts);
    let l1 = List::tranched(vec![("ab".into(), 0), ("b".into(), 0), ("a'".into(), 1), ("ba".into(), 2)]);
    let l2 = List::new(&["a", "abb", "b", "c'a"]);
    let lists: [(&List, usize); 3] = [(&words, 1), (&l1, 3), (&l2, 2)];
    let g = Grammar {
        leaves: vec![lit('a'), lit('b'), dot(), E::Cls(mask("ab"), "[ab]"), E::Cls(LETTERS & !1, "[^a]")],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2)), (1, Some(3)), (2, None)],
        groups: false,
        partials: true,
    };
    for e in g.levels(if th { 3 } else { 2 }).concat() {
        for tail in ["", " !1"] {
            let l = Line::plain(e.clone());
            let q = format!("{}{}", l.show(), tail);
            // an edit in a partial pattern that mentions spaces is not the same edit once rewritten
            if !tail.is_empty() && e.any(&|e| matches!(e, E::Superset(_))) {
                continue;
            }
            ctx.case(
                || format!("rewrites of {:?}", q),
                |ctx| {
                    let base: Vec<_> = lists.iter().map(|(l, d)| answers(ctx, &q, l, *d)).collect::<Result<_, _>>()?;
                    ctx.outcome(&base);
                    let mut forms: Vec<String> = all_rewrites(&e).iter().map(|r| format!("{}{}", r.show(), tail)).collect();
                    forms.push(printed(&q)?);
                    forms.push(q.to_uppercase());
                    forms.push(format!(" {} ", q));
                    forms.sort();
                    forms.dedup();
                    for f in forms {
                        ctx.count("states", 1);
                        for ((l, d), want) in lists.iter().zip(&base) {
                            let got = answers(ctx, &f, l, *d)?;
                            if got != *want {
                                let diff: Vec<_> = got.iter().filter(|p| !want.contains(p)).chain(want.iter().filter(|p| !got.contains(p))).take(4).map(|p| l.phrase(p)).collect();
                                return Err(format!("written {:?} the answers are different: {:?} of {}", f, diff, if l.entries.len() < 9 { l.show() } else { "the universe".into() }));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // the printed form of what the trees above do not have
    for q in [
        "<ab>", "<aab+>", "<abb->c", "<ab+2>", "<abb-1>", "2 1", "a 2", "a_b", "a'b", "[a_']*", "[a-z'_]+", "a !_", "a !'", "ab !_ !' !1", "(a_b:^)", "[^a-z]*a",
        "[^.]?b", "(<ab>)?b", "(((a?b)*):+)", "((a*):^)", "((a|b?):-)a", "(a{0}b){2,3}", "((a{2}){,3}){1,}", "a{1}", "(a+)+", "((a?)?)?b", "[^ab]{2}",
    ] {
        ctx.case(
            || format!("printed form of {:?}", q),
            |ctx| {
                for (l, d) in &lists {
                    let want = answers(ctx, q, l, *d)?;
                    let p = printed(q)?;
                    let got = answers(ctx, &p, l, *d)?;
                    // the text an evaluator shows for its expressions is the printed form, too
                    let ast = parser::QueryAst::new_from_str(q).map_err(|e| e.to_string())?;
                    let shown: Vec<String> = QueryEvaluator::from_ast(&ast, &l.words).expressions().iter().map(|e| e.text.clone()).collect();
                    let again = answers(ctx, &shown.join("\n"), l, *d)?;
                    ctx.count("states", 2);
                    ctx.outcome(&want);
                    if got != want || again != want {
                        return Err(format!("printed as {:?}, shown as {:?}: {} answers, {}, and {}", p, shown, want.len(), got.len(), again.len()));
                    }
                }
                Ok(())
            },
        );
    }
    // small expressions at every place of a large one
    let g = Grammar {
        leaves: vec![lit('a'), lit('b')],
        reps: vec![(0, Some(1)), (0, None), (1, None), (2, Some(2))],
        groups: true,
        partials: true,
    };
    let tails = strings("ab", 0, 4);
    let far: Vec<usize> = if th { (20..=36).chain(52..=68).chain(84..=100).collect() } else { (26..=33).chain([60, 61, 62, 63]).collect() };
    let trees = g.levels(2).concat();
    for k in far {
        let pad = "q".repeat(k);
        let front = List::new(&tails.iter().map(|t| format!("{}{}", pad, t)).collect::<Vec<_>>());
        let back = List::new(&tails.iter().map(|t| format!("{}{}", t, pad)).collect::<Vec<_>>());
        for e in &trees {
            ctx.case(
                || format!("{} letters before and after {:?}", k, e.show()),
                |ctx| {
                    let q = || word(&pad);
                    check_query(ctx, &[Line::plain(seq(&[q(), E::Group(Box::new(e.clone()))]))], &front, 1)?;
                    check_query(ctx, &[Line::plain(seq(&[E::Group(Box::new(e.clone())), q()]))], &back, 1)?;
                    Ok(())
                },
            );
        }
    }
    let large: &[usize] = if th { &[500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500, 3000, 3500, 4000] } else { &[512, 1024, 2049] };
    sizes(ctx, if th { 400 } else { 140 }, large);
}

/// Letters without a short period, so that a slip of one position shows.
fn text(n: usize) -> String {
    let mut x = 1u32;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1103515245).wrapping_add(12345) & 0x7fff_ffff;
            ['a', 'b', 'c'][(x >> 16) as usize % 3]
        })
        .collect()
}

fn change(s: &str, at: usize) -> String {
    s.chars().enumerate().map(|(i, c)| if i == at { if c == 'a' { 'b' } else { 'a' } } else { c }).collect()
}

fn sizes(ctx: &mut Ctx, most: usize, large: &[usize]) {
    for n in (1..=most).chain(large.iter().copied()) {
        let s = text(n);
        let l: Vec<E> = s.chars().map(lit).collect();
        let h = n / 2;
        let mut ws = vec![s.clone(), text(n + 1), change(&s, 0), change(&s, n - 1), change(&s, h), s[..h].to_string(), s[h..].to_string(), "a".repeat(n), "ab".repeat(h)];
        if n > 2 {
            ws.push(s[1..].to_string());
            ws.push(s[..n - 1].to_string());
            ws.push(format!("{}{}", &s[..h], &s[h + 1..]));
            ws.push(s.chars().step_by(2).collect());
            ws.push(s[n / 3..n - n / 3].to_string());
            ws.push(change(&change(&s, n - 1), 0));
        }
        ws.push("q".into());
        ws.retain(|w| !w.is_empty());
        ws.dedup();
        let list = List::new(&ws);
        let small = List::new(&[s[..h].to_string(), s[h..].to_string(), "a".repeat(n - h), "a".repeat(h)].iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>());
        let families: Vec<(&str, Vec<Line>)> = vec![
            ("letters", vec![Line::plain(E::Seq(l.clone()))]),
            ("repetition", vec![Line::plain(rep(lit('a'), n, Some(n)))]),
            ("at least", vec![Line::plain(rep(E::Cls(mask("abc"), "[abc]"), n, None))]),
            ("group", vec![Line::plain(rep(word("ab"), h, Some(n)))]),
            ("alternatives", vec![Line::plain(alt(&[E::Seq(l.clone()), word(&change(&s, 0)), rep(dot(), h, Some(h))]))]),
            ("subset", vec![Line::plain(seq(&[E::Subset(l.clone())]))]),
            ("substring", vec![Line::plain(seq(&[E::Substr(l.clone())]))]),
            ("optional", vec![Line::plain(E::Seq(l.iter().map(|x| opt(x.clone())).collect()))]),
            ("one edit", vec![Line { fuzz: 1, ..Line::plain(E::Seq(l.clone())) }]),
            ("two edits", vec![Line { fuzz: 2, ..Line::plain(E::Seq(l.clone())) }]),
            ("two lines", vec![Line::plain(rep(dot(), n, Some(n))), Line::plain(E::Seq(l.clone()))]),
            ("a long and a short line", vec![Line::plain(E::Seq(l.clone())), Line::plain(star(E::Cls(mask("abc"), "[abc]")))]),
            ("a short and a long fuzzy line", vec![Line::plain(star(dot())), Line { fuzz: 1, ..Line::plain(E::Seq(l.clone())) }]),
        ];
        for (what, lines) in families {
            // (the time grows with the square of the size, and more for edits; partial patterns count twice toward the engine's limit)
            if n > most && !["letters", "repetition", "at least", "a long and a short line"].contains(&what) {
                continue;
            }
            for (k, (list, depth)) in [(&list, 1usize), (&small, 3)].into_iter().take(if n > most { 1 } else { 2 }).enumerate() {
                ctx.case(
                    || format!("size {}: {}, list {}", n, what, k),
                    |ctx| {
                        check_query(ctx, &lines, list, depth)?;
                        Ok(())
                    },
                );
            }
        }
    }
}
