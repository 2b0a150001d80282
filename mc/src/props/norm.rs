//! C13: every Unicode character, seen through real queries.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::gen::strings;
use noodle::{parser, QueryEvaluator, QueryResponse, Word};
use std::collections::BTreeMap;
use unicode_normalization::UnicodeNormalization;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all 1,112,064 Unicode characters, each inside, at the start of, at the end of and as a word, with its canonical forms; \
                       every letter a-z, A-Z and ligature with every combining mark and with every pair of 64; upper and lower case of \
                       all words of <= 3 of 14 characters; words up to 200 characters",
        bounds_thorough: "as quick, every letter with every pair of marks out of 400, words of <= 4 of 14 characters",
        assumptions: &[
            "the letters of a character are those of Python's Unicode 15 data (characters newer than Unicode 13 are only checked for being reported unchanged)",
            "a query of letters, ' and _ with !' and !_ matches exactly the word of these symbols (C01, C07)",
        ],
    }
}

/// What a character is made of: letters, "'" and "_"; None if left open.
pub struct Table {
    runs: Vec<(u32, u32, String)>,
}

impl Table {
    pub fn load() -> Table {
        let s = include_str!("../../data/norm.txt");
        let runs = s
            .lines()
            .filter(|l| !l.starts_with('#'))
            .map(|l| {
                let (r, s) = l.split_once('\t').unwrap();
                let (a, b) = r.split_once('-').unwrap();
                (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap(), s.to_string())
            })
            .collect();
        Table { runs }
    }
    pub fn of(&self, c: char) -> Option<&str> {
        let c = c as u32;
        let i = self.runs.partition_point(|r| r.1 < c);
        match self.runs.get(i) {
            Some(r) if r.0 <= c => Some(&r.2[..]).filter(|s| *s != "?"),
            _ => Some("'"),
        }
    }
    fn text(&self, s: &str) -> Option<String> {
        s.chars().map(|c| self.of(c)).collect()
    }
}

/// Every word must be found, unchanged, by the query that spells its letters, and by no other of the queries.
fn check(ctx: &mut Ctx, words: Vec<(String, Option<String>)>) -> Result<(), String> {
    let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (w, s) in words {
        ctx.count("states", 1);
        match s {
            Some(s) => groups.entry(s).or_default().push(w),
            None => {
                let x = Word::new(&w, 0, 7);
                if &*x.text != w {
                    return Err(format!("{:?} is listed as {:?}", w, x.text));
                }
            }
        }
    }
    for (spelling, texts) in &groups {
        if spelling.is_empty() {
            // no letters at all: only an expression that matches nothing would find it
            continue;
        }
        let words: Vec<Word> = texts.iter().map(|t| Word::new(t, 0, 7)).collect();
        let q = format!("{} !' !_", spelling);
        let ast = parser::QueryAst::new_from_str(&q).map_err(|e| format!("{:?}: {}", q, e))?;
        let mut ev = QueryEvaluator::from_ast(&ast, &words);
        ev.set_search_depth_limit(1);
        ev.set_results_limit(None);
        let got: Vec<String> = ev
            .filter_map(|r| match r {
                QueryResponse::Match(p) => Some(p[0].text.to_string()),
                _ => None,
            })
            .collect();
        ctx.count("traces", 1);
        ctx.count("transitions", got.len() as u64);
        ctx.outcome(&(spelling, got.len()));
        if got != *texts {
            let bad: Vec<_> = texts.iter().filter(|t| !got.contains(t)).take(5).map(|t| format!("{:?} = {}", t, t.escape_unicode())).collect();
            return Err(format!("query {:?} does not find {:?}", q, bad));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let t = Table::load();
    // every character
    const CHUNK: u32 = 0x400;
    for chunk in 0..0x110000 / CHUNK {
        ctx.case(
            || format!("characters U+{:04X} to U+{:04X}", chunk * CHUNK, chunk * CHUNK + CHUNK - 1),
            |ctx| {
                let mut words = vec![];
                for c in (chunk * CHUNK..(chunk + 1) * CHUNK).filter_map(char::from_u32) {
                    let s = t.of(c);
                    let w = |a: &str, b: &str| (format!("{}{}{}", a, c, b), s.map(|s| format!("{}{}{}", a, s, b)));
                    words.extend([w("q", "z"), w("", "qz"), w("zq", ""), w("", "")]);
                    let twice = format!("{}x{}", c, c);
                    words.push((twice, s.map(|s| format!("{}x{}", s, s))));
                    let o = c.to_string();
                    for form in [o.nfd().collect::<String>(), o.nfc().collect(), o.nfkd().collect(), o.nfkc().collect()] {
                        if form != o {
                            words.push((format!("q{}z", form), s.map(|s| format!("q{}z", s))));
                        }
                    }
                }
                check(ctx, words)
            },
        );
    }
    // letters and marks
    let marks: Vec<char> = t.runs.iter().filter(|r| r.2.is_empty()).flat_map(|r| (r.0..=r.1).filter_map(char::from_u32)).collect();
    assert!(marks.len() > 2000);
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain("æÆœŒßﬁéÅ".chars()).collect();
    let step = marks.len() / if th { 400 } else { 64 };
    for &l in &letters {
        ctx.case(
            || format!("{:?} with marks", l),
            |ctx| {
                let s = t.of(l).unwrap();
                let mut words = vec![];
                for &m in &marks {
                    words.push((format!("{}{}z", l, m), Some(format!("{}z", s))));
                    words.push((format!("z{}{}", l, m), Some(format!("z{}", s))));
                }
                for &m in marks.iter().step_by(step) {
                    for &n in marks.iter().step_by(step) {
                        words.push((format!("{}{}{}z", l, m, n), Some(format!("{}z", s))));
                    }
                }
                check(ctx, words)
            },
        );
    }
    // letters in any case, with each other; also through a list in the query text
    let alphabet: Vec<String> = ["a", "B", "é", "Œ", "æ", "'", "-", " ", "_", "1", "ß", "中", "ﬁ", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    let pick: Vec<String> = strings("abcdefghijklmn", 1, if th { 4 } else { 3 });
    for first in "abcdefghijklmn".chars() {
        ctx.case(
            || format!("words that begin with {:?}", alphabet[first as usize - 97]),
            |ctx| {
                let mut words = vec![];
                for p in pick.iter().filter(|p| p.starts_with(first)) {
                    let w: String = p.bytes().map(|b| &alphabet[b as usize - 97][..]).collect();
                    let s = t.text(&w);
                    words.push((w.to_uppercase(), s.clone()));
                    words.push((w.to_lowercase(), s.clone()));
                    words.push((w, s));
                }
                check(ctx, words)
            },
        );
    }
    for p in strings("abcdefghijklmn", 1, 2) {
        let w: String = p.bytes().map(|b| &alphabet[b as usize - 97][..]).collect();
        ctx.case(
            || format!("embedded list of {:?}", w),
            |ctx| {
                let w = w.trim();
                if w.is_empty() {
                    return Ok(());
                }
                let q = format!("{} !' !_\n#wordlist\nzz\n {} \nzy\n", t.text(w).unwrap(), w);
                let list = List::new(&["zz"]);
                ctx.count("states", 1);
                let ast = parser::QueryAst::new_from_str(&q).map_err(|e| e.to_string())?;
                let mut ev = QueryEvaluator::from_ast(&ast, &list.words);
                ev.set_search_depth_limit(1);
                let got: Vec<String> = ev.filter_map(|r| if let QueryResponse::Match(p) = r { Some(p[0].text.to_string()) } else { None }).collect();
                ctx.count("traces", 1);
                ctx.count("transitions", got.len() as u64);
                ctx.outcome(&got);
                if got != [w] {
                    return Err(format!("{:?} gives {:?}", q, got));
                }
                Ok(())
            },
        );
    }
    for n in 1..=200 {
        ctx.case(
            || format!("words of {} characters", n),
            |ctx| {
                let w: String = (0..n).map(|i| ['a', 'É', '\'', 'œ', 'Z', ' '][i * 7 % 6]).collect();
                let s = t.text(&w);
                check(ctx, vec![("é".repeat(n), Some("e".repeat(n))), ("Œ".repeat(n), Some("oe".repeat(n))), (w, s)])
            },
        );
    }
}
