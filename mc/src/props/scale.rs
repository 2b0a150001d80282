//! The same questions as the small-scope enumerations of C01-C07, C09 and C15, asked along lines of growing
//! size: every letter and range, counts of two digits, long words, many alternatives, terms, lines,
//! words per phrase, kinds of words and answers.

use super::common::*;
use crate::ctx::Ctx;
use crate::engine::Outcome;
use crate::gen::*;
use crate::model::*;
use std::collections::BTreeSet;

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn letter(i: usize) -> char {
    (b'a' + (i % 26) as u8) as char
}
fn class(m: u32, s: String) -> E {
    E::Cls(m, leak(s))
}

/// One query (lines with their model) against one list, named by what varies.
fn ask(ctx: &mut Ctx, lines: &[Line], list: &List, depth: usize, name: &str) {
    ctx.case(
        || format!("query {:?} list {} depth {}", show_lines(lines), name, depth),
        |ctx| {
            let got = check_query(ctx, lines, list, depth)?;
            check_order(list, &got)
        },
    );
}
fn ask1(ctx: &mut Ctx, e: E, list: &List, depth: usize, name: &str) {
    ask(ctx, &[Line::plain(e)], list, depth, name)
}

/// A query whose answers are known. `exact` false: the first `want.len()` answers are.
pub fn known(ctx: &mut Ctx, q: &str, list: &List, depth: usize, name: &str, limit: Option<usize>, want: &dyn Fn() -> Vec<Vec<u32>>) {
    ctx.case(
        || format!("query {:?} list {} depth {}", q, name, depth),
        |ctx| {
            let (o, st) = crate::engine::run(q, &list.words, Some(depth), Some(limit));
            ctx.count("traces", 1);
            ctx.count("transitions", st.responses);
            let mut got = match o {
                Outcome::Done(v) => v,
                o => return Err(format!("{:?}", o)),
            };
            ctx.count("states", got.len() as u64);
            ctx.outcome(&got.len());
            let mut want = want();
            if limit.is_none() {
                check_order(list, &got)?;
                got.sort();
                want.sort();
            }
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!(
                    "{} answers, expected {}; number {} is {:?} instead of {:?}",
                    got.len(), want.len(), k + 1, got.get(k).map(|p| list.phrase(p)), want.get(k).map(|p| list.phrase(p))
                ));
            }
            Ok(())
        },
    );
}

/// Words made of one text of `n` letters: itself, shorter, longer, changed at every place.
fn near(n: usize, at: &dyn Fn(usize) -> char) -> Vec<String> {
    let w: Vec<char> = (0..n).map(at).collect();
    let s = |v: &[char]| v.iter().collect::<String>();
    let mut out = vec![s(&w)];
    if n > 1 {
        out.push(s(&w[..n - 1]));
        out.push(s(&w[1..]));
    }
    let mut longer = w.clone();
    longer.push(at(n));
    out.push(s(&longer));
    for i in 0..n {
        let mut v = w.clone();
        v[i] = if v[i] == 'z' { 'y' } else { 'z' };
        out.push(s(&v));
    }
    out
}

pub fn regex(ctx: &mut Ctx) {
    // every letter, pair and range of letters
    let mut texts: Vec<String> = (0..26).map(|i| letter(i).to_string()).collect();
    texts.extend((0..26).flat_map(|i| [format!("{}{}", letter(i), letter(i + 1)), format!("a{}", letter(i)), format!("{}z", letter(i))]));
    texts.push("'".into());
    texts.push("a'".into());
    let list = List::new(&texts);
    for i in 0..26 {
        let m = 1u32 << i;
        for e in [lit(letter(i)), class(m, letter(i).to_ascii_uppercase().to_string()), class(LETTERS & !m, format!("[^{}]", letter(i)))] {
            for e in [e.clone(), seq(&[e.clone(), e.clone()]), seq(&[lit('a'), e.clone()]), star(e.clone())] {
                ask1(ctx, e, &list, 1, "letters");
            }
        }
        for j in i..26 {
            let m = (i..=j).fold(0u32, |m, k| m | 1 << k);
            let (x, y) = (letter(i), letter(j));
            for (m, t) in [(m, format!("[{}-{}]", x, y)), (LETTERS & !m, format!("[^{}-{}]", x, y)), (1 << i | 1 << j, format!("[{}{}]", y, x)), (m | 1, format!("[a{}-{}]", x.to_ascii_uppercase(), y))] {
                let e = class(m, t);
                ask1(ctx, e.clone(), &list, 1, "letters");
                ask1(ctx, seq(&[opt(e.clone()), e]), &list, 1, "letters");
            }
        }
    }
    // counts, in particular of two digits
    let mut texts: Vec<String> = (1..=33).map(|k| "a".repeat(k)).collect();
    texts.extend((1..=33).map(|k| "ab".repeat(k)));
    texts.extend((1..=12).flat_map(|k| [format!("{}b", "a".repeat(k)), format!("b{}", "a".repeat(k)), format!("b{}b", "a".repeat(k))]));
    let list = List::new(&texts);
    for n in 0..=16usize {
        for m in (n..=16).map(Some).chain([Some(20), Some(25), Some(32), None]) {
            for e in [rep(lit('a'), n, m), rep(word("ab"), n, m), seq(&[opt(lit('b')), rep(lit('a'), n, m), opt(lit('b'))]), rep(class(3, "[ab]".into()), n, m)] {
                ask1(ctx, e, &list, 1, "powers");
            }
        }
    }
    for n in 17..=33usize {
        for m in [Some(n), Some(n + 1), None] {
            ask1(ctx, rep(lit('a'), n, m), &list, 1, "powers");
            ask1(ctx, rep(word("ab"), n, m), &list, 1, "powers");
        }
    }
    // long words
    for n in 1..=72usize {
        for (k, at) in [&(|i: usize| letter(i % 23)) as &dyn Fn(usize) -> char, &|i: usize| letter(i % 2), &|i: usize| letter((i * i / 2) % 11)].iter().enumerate() {
            let list = List::new(&near(n, at));
            let w: Vec<char> = (0..n).map(at).collect();
            let text = |v: &[char]| word(&v.iter().collect::<String>());
            let name = format!("text {} of {} letters", k, n);
            ask1(ctx, text(&w), &list, 1, &name);
            ask1(ctx, rep(dot(), n, Some(n)), &list, 1, &name);
            let (p, s) = (text(&w[..n / 2]), text(&w[n / 2..]));
            if n > 1 {
                ask1(ctx, seq(&[p.clone(), star(dot())]), &list, 1, &name);
                ask1(ctx, seq(&[star(dot()), s.clone()]), &list, 1, &name);
                ask1(ctx, seq(&[p.clone(), opt(dot()), s.clone()]), &list, 1, &name);
                ask1(ctx, alt(&[p.clone(), seq(&[p, s])]), &list, 1, &name);
            }
        }
    }
    // many alternatives
    for k in 2..=40usize {
        let branch = |i: usize| -> String { (0..=i % 3).map(|j| letter(i + j)).chain(if i >= 26 { vec!['x', 'y'] } else { vec![] }).collect() };
        let mut texts: Vec<String> = (0..45).map(branch).collect();
        texts.extend((0..12).map(|i| format!("q{}", branch(i))));
        texts.extend((0..45).map(|i| format!("{}q", branch(i))));
        texts.sort();
        texts.dedup();
        let list = List::new(&texts);
        let a = alt(&(0..k).map(|i| word(&branch(i))).collect::<Vec<_>>());
        for e in [a.clone(), seq(&[opt(lit('q')), a.clone()]), seq(&[a.clone(), lit('q')]), rep(a, 1, Some(2))] {
            ask1(ctx, e, &list, 1, "branches");
        }
    }
    // deep nesting of each operator in itself and in another
    let list = List::new(&strings("ab", 1, 5));
    for k in 1..=12 {
        type F = fn(E) -> E;
        let fs: [F; 7] = [
            |e| E::Group(Box::new(e)),
            opt,
            star,
            |e| rep(e, 1, None),
            |e| alt(&[e, lit('b')]),
            |e| E::Seq(vec![lit('a'), e]),
            |e| E::Seq(vec![e, opt(lit('b'))]),
        ];
        for f in fs {
            for g in fs {
                let mut e = lit('a');
                for i in 0..k {
                    e = if i % 2 == 0 { f(e) } else { g(e) };
                }
                ask1(ctx, e, &list, 1, "universe");
            }
        }
    }
}

pub fn phrases(ctx: &mut Ctx) {
    // many words per phrase
    let g = Grammar { leaves: vec![lit('a'), lit('b'), dot()], reps: vec![(0, None), (2, Some(2)), (3, None)], groups: true, partials: false };
    let t = |v: &[(&str, u8)]| List::tranched(v.iter().map(|(s, t)| (s.to_string(), *t)).collect());
    let lists = [List::new(&["a"]), List::new(&["ab"]), t(&[("a", 1), ("b", 1)]), t(&[("b", 0), ("aa", 2)]), t(&[("ab", 0), ("a", 1)])];
    for e in g.levels(1).concat().into_iter().chain(g.levels(2)[2].iter().step_by(5).cloned()) {
        for l in &lists {
            for depth in [6, 7, 8, if l.entries.len() == 1 { 12 } else { 9 }] {
                ask1(ctx, e.clone(), l, depth, &l.show());
            }
        }
    }
    // a text of n letters, cut at any places into words
    for n in 2..=14usize {
        let text: String = (0..n).map(letter).collect();
        let mut entries = vec![];
        for (k, len) in [1usize, 2, 3, 5, 9].iter().enumerate() {
            for i in 0..n {
                // not every run of letters is a word
                if i + len <= n && (*len == 1 || (i + len) % 2 == 0) {
                    entries.push((text[i..i + len].to_string(), (k / 2) as u8));
                }
            }
            entries.push((format!("{}y", &text[..(*len).min(n)]), (k / 2) as u8));
            entries.push((format!("z{}", &text[n - (*len).min(n)..]), (k / 2) as u8));
        }
        let list = List::tranched(entries);
        for depth in [n, n / 2 + 1, 4] {
            let cuts = || {
                let mut done: Vec<Vec<u32>> = vec![];
                let mut open: Vec<(usize, Vec<u32>)> = vec![(0, vec![])];
                while let Some((at, p)) = open.pop() {
                    if at == n {
                        done.push(p);
                        continue;
                    }
                    if p.len() == depth {
                        continue;
                    }
                    for (i, (w, _)) in list.entries.iter().enumerate() {
                        if text[at..].starts_with(w.as_str()) {
                            let mut p = p.clone();
                            p.push(i as u32);
                            open.push((at + w.len(), p));
                        }
                    }
                }
                done
            };
            for q in [text.clone(), format!("{}.*;.{{{}}}", &text[..n / 2], n)] {
                if q != text && n > 9 {
                    continue;
                }
                // (the second query has other answers too: only the first is exact)
                if q == text {
                    known(ctx, &q, &list, depth, &format!("of runs of {:?}", text), None, &cuts);
                } else {
                    let two = format!("{};{}", text, q);
                    known(ctx, &two, &list, depth, &format!("of runs of {:?}", text), None, &cuts);
                }
            }
        }
    }
    // words of very many kinds
    for n in [12usize, 30, 45] {
        let text: String = (0..n).map(|i| letter((i * i + i / 3) % 26)).collect();
        let mut runs: Vec<String> = vec![];
        for len in 1..=8 {
            for i in 0..=n - len.min(n) {
                if i + len <= n && !runs.contains(&text[i..i + len].to_string()) {
                    runs.push(text[i..i + len].to_string());
                }
            }
        }
        runs.push("zzz".into());
        let list = List::new(&runs);
        let want = || {
            let mut v: Vec<Vec<u32>> = vec![];
            for (i, x) in runs.iter().enumerate() {
                if text.contains(x.as_str()) {
                    v.push(vec![i as u32]);
                }
                for (j, y) in runs.iter().enumerate() {
                    if text.contains(&format!("{}{}", x, y)) {
                        v.push(vec![i as u32, j as u32]);
                    }
                }
            }
            v
        };
        known(ctx, &format!("({}:^)", text), &list, 2, &format!("all runs of 1-8 letters of {:?}", text), None, &want);
    }
    // more words than fit 16 bits: the answers to which all words contribute, in order
    let n = 70_000u32;
    let entries = (0..n).map(|i| ((0..4).rev().map(|k| letter((i as usize / 26usize.pow(k)) % 26)).collect::<String>(), 0)).collect();
    let list = List::tranched(entries);
    known(ctx, ".{8}", &list, 2, "70,000 words of four letters, the first 140,010 answers", Some(140_010), &|| {
        (0..140_010u32).map(|i| vec![i / n, i % n]).collect()
    });
    known(ctx, "....", &list, 1, "70,000 words of four letters", None, &|| (0..n).map(|i| vec![i]).collect());
    let last = list.entries.last().unwrap().0.clone();
    known(ctx, &format!("{}....{}", last, &last[..2]), &list, 3, "70,000 words of four letters", None, &Vec::new);
    known(ctx, &format!("{}....", last), &list, 2, "70,000 words of four letters, the last one first", None, &|| (0..n).map(|i| vec![n - 1, i]).collect());
}

pub fn several(ctx: &mut Ctx) {
    // up to 20 lines, each of which only one word or a few fail
    for k in 2..=20usize {
        let all: String = (0..k).map(letter).collect();
        let mut texts = vec![all.clone(), all.chars().rev().collect(), "b".into(), all[k / 2..].to_string(), all[..k / 2].to_string()];
        for i in 0..k {
            texts.push(all.chars().filter(|c| *c != letter(i)).collect());
        }
        texts.retain(|t| !t.is_empty());
        let list = List::new(&texts);
        let has: Vec<Line> = (0..k).map(|i| Line::plain(seq(&[star(dot()), lit(letter(i)), star(dot())]))).collect();
        ask(ctx, &has, &list, 2, "all but one");
        let rev: Vec<Line> = has.iter().rev().cloned().collect();
        ask(ctx, &rev, &list, 2, "all but one");
        let mut sizes: Vec<Line> = has[..k / 2].to_vec();
        sizes.push(Line::plain(rep(dot(), 2, Some(k))));
        sizes.extend_from_slice(&has[k / 2..]);
        ask(ctx, &sizes, &list, 2, "all but one");
        // and lines which differ in how many letters may be wrong
        let fuzzy: Vec<Line> = (0..k.min(5)).map(|i| Line { fuzz: i, ..Line::plain(word(&all)) }).collect();
        ask(ctx, &fuzzy, &list, 1, "all but one");
        if k <= 8 {
            ask(ctx, &fuzzy[1..], &list, 2, "all but one");
        }
    }
}

pub fn fuzzy(ctx: &mut Ctx) {
    for len in 3..=10usize {
        let text: Vec<char> = (0..len).map(letter).collect();
        let mut texts: BTreeSet<String> = BTreeSet::new();
        for m in 0..1usize << len {
            let keep = |i: usize| m & (1 << i) != 0;
            // letters left out, letters changed, letters added
            texts.insert((0..len).filter(|i| keep(*i)).map(|i| text[i]).collect());
            texts.insert((0..len).map(|i| if keep(i) { text[i] } else { 'z' }).collect());
            if len <= 8 {
                texts.insert((0..len).flat_map(|i| if keep(i) { vec![text[i]] } else { vec!['y', text[i]] }).collect());
                texts.insert((0..len).flat_map(|i| if keep(i) { vec![text[i]] } else if i % 2 == 0 { vec![] } else { vec!['x', 'y'] }).collect());
            }
        }
        for k in 0..=8 {
            texts.insert("z".repeat(k));
            texts.insert(format!("{}{}", text.iter().collect::<String>(), "a".repeat(k)));
            texts.insert(format!("{}{}", "b".repeat(k), text.iter().collect::<String>()));
        }
        texts.remove("");
        let list = List::new(&texts.into_iter().collect::<Vec<_>>());
        let e = word(&text.iter().collect::<String>());
        for n in 1..=(len + 1).min(9) {
            ask(ctx, &[Line { fuzz: n, ..Line::plain(e.clone()) }], &list, 1, &format!("texts like that of {} letters", len));
        }
        let half = seq(&[rep(word("ab"), 1, Some(2)), star(lit('c')), E::Seq(text[2..].iter().map(|c| lit(*c)).collect())]);
        for n in [1, 3, 4, 5] {
            ask(ctx, &[Line { fuzz: n, ..Line::plain(half.clone()) }], &list, 1, &format!("texts like that of {} letters", len));
        }
    }
    // phrases: errors spread over several words
    let lists = [List::new(&["abc", "def", "abd"]), List::tranched(vec![("ab".into(), 0), ("cdef".into(), 1), ("zz".into(), 1)]), List::new(&["a", "b", "cc"])];
    for e in [word("abcdef"), word("abcabcabc"), rep(word("abc"), 2, Some(3)), alt(&[word("abcdef"), word("zzzz")]), word("aaaabbbb")] {
        for n in 3..=7 {
            for l in &lists {
                ask(ctx, &[Line { fuzz: n, ..Line::plain(e.clone()) }], l, 4, &l.show());
            }
        }
    }
}

pub fn anagrams(ctx: &mut Ctx) {
    let ask = |ctx: &mut Ctx, e: E, list: &List, depth: usize, name: &str| {
        ctx.case(|| format!("query {:?} list {} depth {}", e.show(), name, depth), |ctx| check_query(ctx, &[Line::plain(e.clone())], list, depth).map(|_| ()));
    };
    let kinds = |n: usize| {
        let mut v = vec![Ana::Exact, Ana::Super, Ana::Sub];
        v.extend((1..=8).map(Ana::Add));
        v.extend((1..=n).map(Ana::Del));
        v
    };
    // many different letters
    for len in 2..=14usize {
        for shift in [0, 12] {
            let bank: String = (0..len).map(|i| letter(i + shift)).collect();
            let v: Vec<char> = bank.chars().collect();
            let mut texts: BTreeSet<String> = BTreeSet::new();
            let s = |v: &[char]| v.iter().collect::<String>();
            for i in 0..len {
                let mut r = v.clone();
                r.rotate_left(i);
                texts.insert(s(&r));
                r.reverse();
                texts.insert(s(&r));
                // one letter twice, a letter twice instead of the next one, one less, a foreign one
                let mut w = r.clone();
                w.insert(len / 2, v[i]);
                texts.insert(s(&w));
                let mut w = r.clone();
                let k = w.iter().position(|c| *c == v[i]).unwrap();
                w[k] = v[(i + 1) % len];
                texts.insert(s(&w));
                w.remove(k);
                texts.insert(s(&w));
                let mut w = r.clone();
                w[k] = 'l';
                texts.insert(s(&w));
                // more and more letters taken away, or added
                let mut w = r.clone();
                w.truncate(i + 1);
                texts.insert(s(&w));
                for j in 0..i {
                    r.insert((3 * j) % r.len(), if j % 2 == 0 { v[0] } else { 'l' });
                }
                texts.insert(s(&r));
            }
            let list = List::new(&texts.into_iter().collect::<Vec<_>>());
            for k in kinds(len) {
                let x = E::Ana(k, leak(bank.clone()));
                ask(ctx, x.clone(), &list, 1, "about the bank");
                ask(ctx, seq(&[lit(v[0]), x]), &list, 1, "about the bank");
            }
        }
    }
    // many copies of a letter
    for (a, b) in (1..=9usize).flat_map(|a| [0, 1, 3, 6].map(|b| (a, b))) {
        let bank = format!("{}{}", "a".repeat(a), "b".repeat(b));
        let mut texts: BTreeSet<String> = BTreeSet::new();
        for x in 0..=11usize {
            for y in 0..=8usize {
                texts.insert(format!("{}{}", "a".repeat(x), "b".repeat(y)));
                texts.insert(format!("{}{}{}", "a".repeat(x / 2), "b".repeat(y), "a".repeat(x - x / 2)));
                texts.insert(format!("{}c{}", "b".repeat(y), "a".repeat(x)));
            }
        }
        texts.remove("");
        let list = List::new(&texts.into_iter().collect::<Vec<_>>());
        for k in kinds(a + b) {
            let x = E::Ana(k, leak(bank.clone()));
            ask(ctx, x.clone(), &list, 1, "of a's and b's");
            ask(ctx, seq(&[x, lit('b')]), &list, 1, "of a's and b's");
        }
    }
    // phrases
    let list = List::tranched(["act", "cat", "at", "c", "ta", "dog", "god", "gad", "coat", "do", "tag", "tac"].iter().enumerate().map(|(i, w)| (w.to_string(), (i / 5) as u8)).collect());
    for bank in ["catdog", "actdo", "tacocat", "ccaatt", "godtagdo"] {
        for k in kinds(bank.len()) {
            ask(ctx, E::Ana(k, bank), &list, 3, "animals");
        }
    }
}

pub fn partials(ctx: &mut Ctx) {
    for len in 1..=11usize {
        let text: Vec<char> = (0..len).map(letter).collect();
        let mut texts: BTreeSet<String> = BTreeSet::new();
        for m in 0..1usize << len {
            let sub: String = (0..len).filter(|i| m & (1 << i) != 0).map(|i| text[i]).collect();
            texts.insert(sub.clone());
            if m % 7 == 0 {
                texts.insert(format!("{}a", sub));
                texts.insert(format!("b{}", sub));
            }
            if m % 5 == 0 || m.count_ones() < 3 {
                texts.insert((0..len).flat_map(|i| if m & (1 << i) != 0 { vec!['z', text[i]] } else { vec![text[i]] }).collect());
                texts.insert((0..len).flat_map(|i| if m & (1 << i) != 0 { vec![text[i], text[i]] } else { vec![text[i], '\'', 'q'] }).collect());
            }
        }
        texts.remove("");
        let list = List::new(&texts.into_iter().collect::<Vec<_>>());
        let t: Vec<E> = text.iter().map(|c| lit(*c)).collect();
        let name = format!("texts about {} letters", len);
        for e in [E::Subset(t.clone()), E::Superset(t.clone()), E::Substr(t.clone())] {
            ask1(ctx, e.clone(), &list, 1, &name);
            ask1(ctx, seq(&[opt(lit('b')), e.clone()]), &list, 1, &name);
            ask1(ctx, seq(&[e, opt(lit('a'))]), &list, 1, &name);
        }
        // terms of other shapes among them
        let mut t = t;
        t[len / 2] = alt(&[t[len / 2].clone(), lit('z')]);
        t[len - 1] = seq(&[opt(lit('a')), t[len - 1].clone()]);
        for e in [E::Subset(t.clone()), E::Superset(t.clone()), E::Substr(t)] {
            ask1(ctx, e, &list, 1, &name);
        }
    }
    // enumerations with numbers of one and two digits
    let mut texts: Vec<String> = (1..=34).map(|k| (0..k).map(|i| letter(i % 5)).collect()).collect();
    texts.push("aaaaaaaaaa'a".into());
    texts.push("abcdeabcd abcde".into());
    let list = List::new(&texts);
    for n in 0..=34usize {
        ask1(ctx, E::Enum(n), &list, 2, "of lengths");
        for m in [1, 2, 9, 10, 11, 12, 20, 33] {
            ask1(ctx, E::Seq(vec![E::Enum(n), E::Enum(m)]), &list, 2, "of lengths");
        }
        ask1(ctx, E::Seq(vec![lit('a'), E::Enum(n)]), &list, 2, "of lengths");
        ask1(ctx, alt(&[E::Enum(n), word("ab")]), &list, 1, "of lengths");
    }
    // and of three
    let texts: Vec<String> = (95..=130).chain([200, 255, 256, 257, 300, 512, 1000, 1100]).map(|k| (0..k).map(|i| letter(i % 5)).collect()).collect();
    let long = List::new(&texts);
    for n in (95..=130).chain([200, 255, 256, 257, 300, 512, 1000, 1100]) {
        ask1(ctx, E::Enum(n), &long, 1, "of three digits");
        ask1(ctx, rep(dot(), n, Some(n + 1)), &long, 1, "of three digits");
        ask1(ctx, E::Seq(vec![E::Enum(n), E::Enum(100)]), &long, 2, "of three digits");
        ask1(ctx, rep(word("abcde"), 0, Some(n / 5)), &long, 1, "of three digits");
    }
    let few = List::new(&["a", "bb", "ccc", "dddddddddddd"]);
    for k in 1..=7usize {
        let v: Vec<E> = (0..k).map(|i| E::Enum([1, 2, 12, 3, 1, 2, 3][i])).collect();
        ask1(ctx, E::Seq(v), &few, k, &few.show());
    }
}

pub fn marks(ctx: &mut Ctx) {
    let list = List::new(&["ab", "a b", "a'b", "a' b", "abab", "ab ab", "ab'ab", "aab", "a", "b", "'", "a b a b", "ba", "aaaab", "aaa b", "aaaaaaaaaaaab", "aaaaaaaaaaaa b", "aaaaaaaaaaaa'b"]);
    let marks = [space(), punct(), E::Cls(mask("b") | 1 << SPACE, "[b_]"), E::Cls(mask("b") | 1 << PUNCT, "[b']"), E::Cls(ANY, "[a-z'_]")];
    for m in &marks {
        for k in 0..=14usize {
            // at every depth of every operator
            let body = seq(&[lit('a'), m.clone(), lit('b')]);
            type F = fn(E) -> E;
            let fs: [F; 8] = [
                |e| E::Group(Box::new(e)),
                opt,
                star,
                |e| alt(&[lit('a'), e]),
                |e| alt(&[e, word("ab")]),
                |e| E::Subset(vec![e, lit('a')]),
                |e| E::Substr(vec![lit('a'), e]),
                |e| E::Seq(vec![opt(lit('a')), e]),
            ];
            for f in fs {
                let mut e = body.clone();
                for _ in 0..k {
                    e = f(e);
                }
                ask1(ctx, e, &list, if k < 5 { 2 } else { 1 }, "marked");
            }
            // at every place of a sequence, alternatives, partial pattern
            let mut v = vec![opt(lit('a')); 14];
            v.push(lit('b'));
            v[k] = m.clone();
            ask1(ctx, E::Seq(v), &list, 1, "marked");
            let mut v: Vec<E> = (0..15).map(|i| E::Seq(vec![lit('a'); i + 1])).collect();
            v[k] = seq(&[lit('a'), m.clone(), lit('b')]);
            ask1(ctx, E::Alt(v), &list, 1, "marked");
            let mut v = vec![lit('a'); 14];
            v.push(lit('b'));
            v[k] = m.clone();
            ask1(ctx, E::Subset(v), &list, 1, "marked");
        }
    }
    // each of up to 12 lines has its own choice
    for k in 1..=12usize {
        for p in 0..k {
            for m in &marks[..2] {
                let mut lines = vec![Line::plain(star(dot())); k];
                lines[p] = Line::plain(seq(&[star(dot()), m.clone(), star(dot())]));
                ask(ctx, &lines, &list, if k < 4 { 2 } else { 1 }, "marked");
                lines[p] = Line { spaces: true, ..Line::plain(star(lit('a'))) };
                ask(ctx, &lines, &list, 1, "marked");
            }
        }
    }
}

/// The first n answers of the unlimited search, for limits around those that machines and people like.
pub fn limits(ctx: &mut Ctx) {
    let list = List::tranched((0..40usize).map(|i| (strings("abc", 1, 4)[i].clone(), (i / 17) as u8)).collect());
    let long = List::new(&(0..70_000usize).map(|i| (0..4).map(|k| letter(i / 26usize.pow(k))).collect::<String>()).collect::<Vec<_>>());
    for (q, depth, list, name) in [("(a|b|c)*", 2, &list, "40 words"), (".*", 2, &list, "40 words"), ("....", 1, &long, "70,000 words"), (".*", 1, &long, "70,000 words")] {
        ctx.case(
            || format!("query {:?} list {} depth {}, limits up to 66,000", q, name, depth),
            |ctx| {
                let run = |l: Option<usize>, text: bool| match if text { crate::engine::run(&format!("{}\n#limit {}", q, l.unwrap()), &list.words, Some(depth), None) } else { crate::engine::run(q, &list.words, Some(depth), Some(l)) } {
                    (Outcome::Done(v), _) => Ok(v),
                    (o, _) => Err(format!("limit {:?}: {:?}", l, o)),
                };
                let all = run(None, false)?;
                ctx.count("states", all.len() as u64);
                let n = all.len();
                for l in [99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256, 257, 258, 299, 300, 301, 302, 499, 500, 511, 512, 513, 555, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 66000, n - 1, n, n + 1] {
                    for text in [false, true] {
                        let got = run(Some(l), text)?;
                        ctx.count("traces", 1);
                        if got != all[..l.min(n)] {
                            return Err(format!("limit {}: {} answers, which are not the first {} of {}", l, got.len(), l.min(n), n));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// Words alone and among very many others.
pub fn among_many(ctx: &mut Ctx, queries: &[&str]) {
    let mut texts: Vec<String> = strings("abcd", 1, 5);
    texts.extend(strings("ab'", 3, 4));
    texts.extend((1..=40).map(|k| "abcd".repeat(k)));
    texts.extend((1..=40).map(|k| "a".repeat(k)));
    let sorted = {
        let mut v = texts.clone();
        v.sort();
        List::new(&v)
    };
    let given = List::new(&texts);
    // neighbours share as little or as much as they can
    let mut shuffled = texts.clone();
    shuffled.sort_by_key(|s| s.chars().rev().collect::<String>());
    let shuffled = List::new(&shuffled);
    let alone: Vec<List> = texts.iter().map(|t| List::new(&[t])).collect();
    for q in queries {
        ctx.case(
            || format!("query {:?}, {} words alone and in three orders", q, texts.len()),
            |ctx| {
                let answers = |list: &List, depth: usize| match crate::engine::run(q, &list.words, Some(depth), Some(None)) {
                    (Outcome::Done(v), _) => Ok(v),
                    (o, _) => Err(format!("{:?}", o)),
                };
                let mut want: BTreeSet<&str> = BTreeSet::new();
                for (t, l) in texts.iter().zip(&alone) {
                    if !answers(l, 1)?.is_empty() {
                        want.insert(t);
                    }
                }
                ctx.count("states", want.len() as u64);
                ctx.outcome(&want.len());
                for list in [&given, &sorted, &shuffled] {
                    let got: BTreeSet<&str> = answers(list, 1)?.iter().map(|p| list.entries[p[0] as usize].0.as_str()).collect();
                    ctx.count("traces", 1);
                    if got != want {
                        return Err(format!("among the others the answers differ in {:?}", got.symmetric_difference(&want).take(5).collect::<Vec<_>>()));
                    }
                }
                Ok(())
            },
        );
    }
}
