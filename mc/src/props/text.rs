//! C12: what the lines of a query text mean, against a reference interpreter of query text.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::engine::{make_words, panic_text, Entry};
use crate::gen::strings;
use crate::model::*;
use noodle::{parser, QueryEvaluator, QueryResponse, Word};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "every sequence of <= 3 of 59 lines (expressions, comments, settings, macros and their uses, errors, #wordlist, words) with \
                       ';' and newline, and of 4 of 34 lines; spaces, comments and upper case at every pair of places of 32 lines; every text of \
                       <= 3 of 38 characters; 390 characters next to letters and symbols; 1 to 40 macros, lines with an error in each place, names and \
                       comments; settings to 1,000; lists of up to 5,000 words",
        bounds_thorough: "every sequence of 4 of 59 lines and of 5 of 20, every text of 4 characters",
        assumptions: &["lines outside the enumerated ones behave like those inside", "whether blanks may be put inside the symbols {,n} :-) !_ and the like is left open"],
    }
}

// --- reference ------------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
struct Query {
    lines: Vec<Line>,
    words: Option<usize>,
    limit: Option<usize>,
    dict: Option<String>,
    quiet: bool,
    list: Option<Vec<String>>,
}

fn uncomment(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    loop {
        let at = ["//", "--", "/*"].iter().filter_map(|c| rest.find(c)).min();
        match at {
            None => return Some(out + rest),
            Some(i) => {
                out.push_str(&rest[..i]);
                if rest[i..].starts_with("/*") {
                    let j = rest[i + 2..].find("*/")?;
                    out.push(' ');
                    rest = &rest[i + 2 + j + 2..];
                } else {
                    return Some(out);
                }
            }
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<usize> {
        let b = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().ok()
    }
    fn alt(&mut self) -> Option<E> {
        let mut v = vec![self.seq()?];
        while self.eat(b'|').is_some() {
            v.push(self.seq()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { E::Alt(v) })
    }
    fn seq(&mut self) -> Option<E> {
        let mut v = vec![];
        while matches!(self.peek(), b'a'..=b'z' | b'.' | b'[' | b'(' | b'_' | b'\'' | b'<' | b'0'..=b'9') {
            let t = self.term()?;
            v.push(self.repeat(t)?);
        }
        if v.is_empty() {
            None
        } else {
            Some(E::Seq(v))
        }
    }
    fn repeat(&mut self, t: E) -> Option<E> {
        let (lo, hi) = match self.peek() {
            b'?' => (0, Some(1)),
            b'*' => (0, None),
            b'+' => (1, None),
            b'{' => {
                self.i += 1;
                let from = if self.peek() == b',' { None } else { Some(self.number()?) };
                let lo = from.unwrap_or(0);
                let hi = if self.eat(b',').is_none() {
                    Some(lo)
                } else if self.peek() == b'}' {
                    from?;
                    None
                } else {
                    Some(self.number()?)
                };
                if self.peek() != b'}' || hi.map_or(false, |hi| hi < lo) {
                    return None;
                }
                (lo, hi)
            }
            _ => return Some(t),
        };
        self.i += 1;
        Some(rep(t, lo, hi))
    }
    fn term(&mut self) -> Option<E> {
        let c = self.peek();
        if c.is_ascii_digit() {
            return self.number().map(E::Enum);
        }
        self.i += 1;
        match c {
            b'a'..=b'z' => Some(lit(c as char)),
            b'.' => Some(dot()),
            b'_' => Some(space()),
            b'\'' => Some(punct()),
            b'(' => {
                let start = self.i;
                let e = self.alt()?;
                if self.eat(b':').is_some() {
                    // terms without repetitions only
                    self.i = start;
                    let mut v = vec![];
                    while self.peek() != b':' {
                        v.push(self.term()?);
                    }
                    self.i += 1;
                    let kind = self.peek();
                    self.i += 1;
                    self.eat(b')')?;
                    return match kind {
                        b'-' => Some(E::Subset(v)),
                        b'+' => Some(E::Superset(v)),
                        b'^' => Some(E::Substr(v)),
                        _ => None,
                    };
                }
                self.eat(b')')?;
                Some(E::Group(Box::new(e)))
            }
            b'[' => {
                let no = self.eat(b'^').is_some();
                let mut m = 0;
                let begin = self.i;
                while matches!(self.peek(), b'a'..=b'z' | b'_' | b'\'' | b'.') {
                    let lo = self.peek();
                    self.i += 1;
                    let mut hi = lo;
                    if lo.is_ascii_lowercase() && self.eat(b'-').is_some() {
                        hi = self.peek();
                        if !hi.is_ascii_lowercase() {
                            return None;
                        }
                        self.i += 1;
                    }
                    (lo..=hi).for_each(|c| m |= 1 << sym(c));
                }
                if self.i == begin {
                    return None;
                }
                self.eat(b']')?;
                Some(E::Cls(if no { LETTERS & !m } else { m }, ""))
            }
            b'<' => {
                let begin = self.i;
                while self.peek().is_ascii_lowercase() {
                    self.i += 1;
                }
                let bank = std::str::from_utf8(&self.s[begin..self.i]).unwrap();
                let bank: &'static str = super::scale::leak(bank.to_string());
                let kind = self.peek();
                if bank.is_empty() || !b"+->".contains(&kind) {
                    return None;
                }
                self.i += 1;
                if kind == b'>' {
                    return Some(E::Ana(Ana::Exact, bank));
                }
                let n = if self.peek() == b'>' { None } else { Some(self.number()?) };
                self.eat(b'>')?;
                Some(E::Ana(
                    match (kind, n) {
                        (b'+', None) => Ana::Super,
                        (b'+', Some(n)) => Ana::Add(n),
                        (_, None) => Ana::Sub,
                        (_, Some(n)) => Ana::Del(n),
                    },
                    bank,
                ))
            }
            _ => None,
        }
    }
}

/// The meaning of an expression without blanks, comments and upper case.
fn expression(s: &str) -> Option<Line> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let mut l = Line::plain(p.alt()?);
    while p.eat(b'!').is_some() {
        match p.peek() {
            b'_' => {
                p.i += 1;
                l.spaces = true
            }
            b'\'' => {
                p.i += 1;
                l.puncts = true
            }
            _ => l.fuzz = p.number()? as _,
        }
    }
    if p.i == s.len() {
        Some(l)
    } else {
        None
    }
}

/// What is not settled: blanks inside symbols, "." in classes, edits of anagrams and anagrams which are not exact.
fn open(line: &str) -> bool {
    let b: Vec<u8> = line.bytes().filter(|&c| c != b' ').collect();
    let mut at = 0;
    let mut class = false;
    for (i, c) in line.bytes().enumerate() {
        if c == b' ' {
            continue;
        }
        class = c == b'[' || class && c != b']';
        let prev = if at > 0 { b[at - 1] } else { 0 };
        let apart = at > 0 && line.as_bytes()[i - 1] == b' ';
        at += 1;
        if class && c == b'.' {
            return true;
        }
        if apart
            && match (prev, c) {
                (b'0'..=b'9', b'0'..=b'9') | (b'!', b'_' | b'\'') | (b'+' | b'-', b'>') | (b'{', b',') | (b',', b'}') => true,
                (b':', _) | (b'+' | b'-' | b'^', b')') => true,
                _ => false,
            }
        {
            return true;
        }
    }
    let letters = |s: &str| s.bytes().filter(u8::is_ascii_alphabetic).map(|c| c.to_ascii_lowercase()).collect::<std::collections::BTreeSet<_>>().len();
    b.contains(&b'<') && (b.contains(&b'!') || letters(line) > 1)
}

/// Meaning of a query text, or the line of its first error.
fn reference(text: &str) -> Result<Query, usize> {
    let mut q = Query::default();
    let mut macros: Vec<(String, String)> = vec![];
    for (i, raw) in text.split(&['\n', ';'][..]).enumerate() {
        if let Some(l) = &mut q.list {
            if !raw.trim().is_empty() {
                l.push(raw.trim().to_string());
            }
            continue;
        }
        let mut s = raw.to_string();
        for (n, v) in &macros {
            s = s.replace(n.as_str(), v);
        }
        // whether a macro may have half a comment in its text is left open: line 0
        let s = uncomment(&s).ok_or(if s.contains('=') { 0 } else { i + 1 })?;
        let s = s.trim_matches(' ');
        let low = s.to_ascii_lowercase();
        let number = |r: &str| r.trim_matches(' ').parse::<usize>().map_err(|_| i + 1);
        if s.is_empty() {
        } else if let Some(r) = low.strip_prefix("#words") {
            if low.starts_with("#wordlist") {
                return Err(i + 1);
            }
            q.words = Some(number(r)?);
        } else if low == "#wordlist" {
            q.list = Some(vec![]);
        } else if let Some(r) = low.strip_prefix("#limit") {
            q.limit = Some(number(r)?);
        } else if low == "#quiet" {
            q.quiet = true;
        } else if let Some(r) = low.strip_prefix("#dictionary").or(low.strip_prefix("#dict")) {
            let name = s[s.len() - r.len()..].trim_matches(' ');
            if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || "-_'.".contains(c)) {
                return Err(i + 1);
            }
            q.dict = Some(name.to_string());
        } else if let Some((n, v)) = s.split_once('=') {
            let n = n.trim_matches(' ');
            if !n.starts_with(|c: char| c.is_ascii_alphabetic()) || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                return Err(i + 1);
            }
            let v = v.trim_matches(' ').to_string();
            if !v.bytes().all(|c| (b' '..=b'~').contains(&c)) {
                return Err(i + 1);
            }
            match macros.iter_mut().find(|m| m.0 == n) {
                Some(m) => m.1 = v,
                None => macros.push((n.to_string(), v)),
            }
        } else {
            if open(&low) {
                return Err(0);
            }
            q.lines.push(expression(&low.replace(' ', "")).ok_or(i + 1)?);
        }
    }
    Ok(q)
}

// --- checking -------------------------------------------------------------------------------

struct World {
    outer: Vec<String>,
    words: Vec<Word>,
}

fn answers(ast: &parser::QueryAst, words: &[Word], depth: usize) -> Vec<Vec<String>> {
    let mut ev = QueryEvaluator::from_ast(ast, words);
    ev.set_search_depth_limit(depth);
    ev.set_results_limit(None);
    ev.filter_map(|r| match r {
        QueryResponse::Match(p) => Some(p.iter().map(|w| w.text.to_string()).collect()),
        _ => None,
    })
    .collect()
}

fn check(ctx: &mut Ctx, w: &World, text: &str) -> Result<(), String> {
    ctx.count("states", 1);
    let want = reference(text);
    if matches!(want, Err(0)) {
        return Ok(());
    }
    let got = catch_unwind(AssertUnwindSafe(|| parser::QueryAst::new_from_str(text))).map_err(|e| format!("{:?}: panicked: {}", text, panic_text(e)))?;
    let ast = match (&want, got) {
        (Err(line), Ok(_)) => return Err(format!("{:?}: the error on line {} was not reported", text, line)),
        (Ok(_), Err(e)) => return Err(format!("{:?}: rejected: {}", text, e)),
        (Err(line), Err(e)) => {
            let at = match e.line_col {
                pest::error::LineColLocation::Pos((l, _)) => l,
                pest::error::LineColLocation::Span((l, _), _) => l,
            };
            ctx.outcome(&at);
            return if at == *line && e.to_string().contains(&format!("{}:", at)) {
                Ok(())
            } else {
                Err(format!("{:?}: the error on line {} was reported on line {}: {}", text, line, at, e))
            };
        }
        (Ok(_), Ok(ast)) => ast,
    };
    let want = want.unwrap();
    let o = &ast.options;
    let list: Option<Vec<String>> = o.wordlist.as_ref().map(|l| l.iter().map(|w| w.text.to_string()).collect());
    let sorted = |l: &Option<Vec<String>>| {
        l.clone().map(|mut l| {
            l.sort();
            l
        })
    };
    if o.max_words != want.words || o.results_limit != want.limit || o.dictionary != want.dict || o.quiet.unwrap_or(false) != want.quiet || sorted(&list) != sorted(&want.list) {
        return Err(format!(
            "{:?}: settings are words {:?}, limit {:?}, dictionary {:?}, quiet {:?}, list {:?}, expected {:?}",
            text, o.max_words, o.results_limit, o.dictionary, o.quiet, list, want
        ));
    }
    let depth = want.words.unwrap_or(2).min(2);
    let mut got = match catch_unwind(AssertUnwindSafe(|| answers(&ast, &w.words, depth))) {
        Ok(v) => v,
        Err(e) => return Err(format!("{:?}: panicked: {}", text, panic_text(e))),
    };
    ctx.count("traces", 1);
    ctx.count("transitions", got.len() as u64);
    let texts = want.list.as_ref().unwrap_or(&w.outer);
    let norm: Vec<Vec<u8>> = texts.iter().map(|t| norm_ascii(t)).collect();
    let mut expected = vec![];
    got.sort();
    let mut judge = |text: &[u8], phrase: Vec<String>| match verdict(&want.lines, text) {
        Verdict::Yes => expected.push(phrase),
        Verdict::Open if got.binary_search(&phrase).is_ok() => expected.push(phrase),
        _ => {}
    };
    if !want.lines.is_empty() {
        for i in 0..texts.len() {
            judge(&norm[i], vec![texts[i].clone()]);
        }
        for i in 0..if depth > 1 { texts.len() } else { 0 } {
            for j in 0..texts.len() {
                judge(&[&norm[i][..], &norm[j][..]].concat(), vec![texts[i].clone(), texts[j].clone()]);
            }
        }
    }
    expected.sort();
    ctx.outcome(&got);
    if expected != got {
        let miss: Vec<_> = expected.iter().filter(|p| !got.contains(p)).take(4).collect();
        let more: Vec<_> = got.iter().filter(|p| !expected.contains(p)).take(4).collect();
        return Err(format!("{:?}: {} answers, expected {}: missing {:?}, wrong {:?}", text, got.len(), expected.len(), miss, more));
    }
    Ok(())
}

const LINES: [&str; 59] = [
    "ab*",
    "A.*",
    "AB",
    "",
    "// b",
    "#words 1",
    "#limit 2 // two",
    "A=b",
    "AB = a // c",
    "B=A",
    "A*",
    "#wordlist",
    "ba",
    "(",
    "a=c",
    "#WORDS N",
    "N=1",
    "A=A.",
    "a?B+!1",
    "#quiet",
    // from here on in short sequences only
    " a b ",
    "[A-b]*-- x",
    "  ",
    "-- #words 1",
    "/* #words 1 */",
    "/**/ b. /* ( */ // )",
    "#words2",
    "#Limit  7",
    "#limit 0",
    "#dict x-1.y'z",
    "#Dictionary Scrabble",
    "#QUIET",
    "A=[ab]",
    "A=b=c",
    "N_1x = a*b",
    "N_1x+",
    "#WordList // list",
    "b'",
    "b a /* c",
    "#words",
    "#limit x",
    "a)",
    "#nope",
    "1A=b",
    "=b",
    "A=",
    "A b=c",
    "b !'!_",
    "#dict",
    "#words 1 2",
    "[a",
    "a% \\",
    "#limit 99999999999999999999999",
    "#words 99999999999999999999999",
    "a{99999999999999999999999}",
    "a !99999999999999999999999",
    "b{2,1}",
    "A=b/*x*/*",
    "A = /* x */ a /**/b// c",
];
const LONG: usize = 20;

/// Lines as symbols, between which blanks and comments change nothing.
const SYMBOLS: [&[&str]; 32] = [
    &["a", "b"],
    &["a", "*", "b"],
    &["a", "{2}"],
    &["a", "{1,2}", "b"],
    &["a", "{", "1", ",", "2", "}"],
    &["[", "a", "b", "]", "+"],
    &["[", "a", "-", "b", "]", "*"],
    &["[", "^", "a", "-", "b", "c", "]", "?", "b"],
    &["(", "a", "|", "b", ")", "a"],
    &["(", "a", "|", "b", "b", "|", "c", ")", "*"],
    &["a", "|", "b", "a"],
    &["<", "a", "b", ">"],
    &["<", "b", "a", "b", ">", "."],
    &["<", "a", "b", "+>"],
    &["<", "a", "b", "b", "->"],
    &["<", "a", "b", "+", "1", ">"],
    &["<", "a", "b", "b", "-", "1", ">"],
    &["(", "a", "b", "b", ":-)"],
    &["(", "a", "b", ":+)"],
    &["(", "a", "b", "b", ":^)", "c", "?"],
    &["a", ".", "!1"],
    &["a", ".", "!", "1"],
    &["a", "_", "b", "!_", "!'"],
    &["a", "b", "'", "!'", "!1"],
    &["#words", "1", "\nab?"],
    &["#limit", "1", "\nab?"],
    &["#dict", "x", "\nab?"],
    &["#quiet", "\nab?"],
    &["Q", "=", "\naQb"],
    &["Q", "=", "b", "\naQb"],
    &["Q", "=", "a", "b", "*", "\nQc?"],
    &["#wordlist", "\nab"],
];

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let outer: Vec<String> = ["a", "ab", "abb", "b a", "b'b", "c", "n"].iter().map(|s| s.to_string()).collect();
    let entries: Vec<Entry> = outer.iter().map(|t| (t.clone(), 0)).collect();
    let w = World { outer, words: make_words(&entries) };
    let mut spaces: Vec<(usize, usize)> = vec![(1, LINES.len()), (2, LINES.len()), (3, LINES.len()), (4, if th { LINES.len() } else { 34 })];
    if th {
        spaces.push((5, LONG));
    }
    for (n, pool) in spaces {
        // one case for all sequences that begin with the same lines
        let fixed = n - (n - 1).min(2);
        for start in 0..pool.pow(fixed as u32) {
            let head: Vec<usize> = (0..fixed).map(|k| start / pool.pow(k as u32) % pool).collect();
            ctx.case(
                || format!("texts of {} lines which begin with {:?}", n, head.iter().map(|&i| LINES[i]).collect::<Vec<_>>()),
                |ctx| {
                    for rest in 0..pool.pow((n - fixed) as u32) {
                        let mut l: Vec<&str> = head.iter().map(|&i| LINES[i]).collect();
                        l.extend((0..n - fixed).map(|k| LINES[rest / pool.pow(k as u32) % pool]));
                        check(ctx, &w, &l.join("\n"))?;
                        if n > 1 && n < 4 {
                            check(ctx, &w, &l.join(";"))?;
                            check(ctx, &w, &(l.join("\n;") + "\n"))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every short text
    const CHARS: &str = "abcA012 \n;'_.*+?|()[]{},-^!<>:/#=~%\"";
    let short = strings(CHARS, 1, if th { 4 } else { 3 });
    for (k, chunk) in short.chunks(1000).enumerate() {
        ctx.case(
            || format!("short texts {} from {:?} on", k, chunk[0]),
            |ctx| chunk.iter().try_for_each(|t| check(ctx, &w, t)),
        );
    }
    // every character, next to letters and blanks
    let odd: Vec<char> = (0..0x180).filter_map(char::from_u32).chain("\u{2018}\u{2019}\u{2014}\u{2028}\u{a0}\u{feff}\u{200b}\u{3000}ａ１😀".chars()).collect();
    for c in odd {
        ctx.case(
            || format!("texts with {:?}", c),
            |ctx| {
                for (a, b) in ["", "a", " ", "a ", "ab", "#", "[", "(", "A=", "a\n", "#words 1\n", "//", "/*", "#dict x", "a!"].iter().flat_map(|a| ["", "a", "b", " ", "]", ")", "\nb", "1", "*/"].map(|b| (a, b))) {
                    check(ctx, &w, &format!("{}{}{}", a, c, b))?;
                }
                Ok(())
            },
        );
    }
    scale(ctx, &w);
    // blanks, comments and upper case
    let probe = make_words(&["a", "ab", "abb", "ba", "b'a", "b a", "bab", "c", "cab", "q"].iter().map(|t| (t.to_string(), 0)).collect::<Vec<_>>());
    let noise = [" ", "   ", "/**/", " /* b;*/ ", "/* a) */"].map(|s| s.replace(';', ""));
    for symbols in SYMBOLS {
        ctx.case(
            || format!("blanks in {:?}", symbols.concat()),
            |ctx| {
                let plain = symbols.concat();
                let get = |ctx: &mut Ctx, t: &str| -> Result<_, String> {
                    ctx.count("states", 1);
                    let ast = parser::QueryAst::new_from_str(t).map_err(|e| format!("{:?}: rejected: {}", t, e))?;
                    let a = answers(&ast, &probe, ast.options.max_words.unwrap_or(2));
                    ctx.count("traces", 1);
                    ctx.count("transitions", a.len() as u64);
                    let o = &ast.options;
                    Ok((a, o.max_words, o.results_limit, o.dictionary.clone(), o.quiet))
                };
                let want = get(ctx, &plain)?;
                ctx.outcome(&want.0);
                let mut forms = vec![];
                for i in 0..=symbols.len() {
                    for x in &noise {
                        for j in i..=symbols.len() {
                            for y in &noise {
                                let mut t = String::new();
                                for k in 0..=symbols.len() {
                                    if k == i {
                                        t.push_str(x);
                                    }
                                    if k == j {
                                        t.push_str(y);
                                    }
                                    t.push_str(symbols.get(k).unwrap_or(&""));
                                }
                                forms.push(t);
                            }
                        }
                    }
                }
                for tail in ["//", "--", " // (b", "-- )", "/*)*/--"] {
                    forms.push(plain.replace('\n', &format!("{}\n", tail)) + tail);
                }
                if !plain.contains("Q") {
                    forms.extend(forms.clone().iter().map(|f| f.to_uppercase().replace("#DICT X", "#DICT x")));
                }
                forms.sort();
                forms.dedup();
                let list = symbols[0] == "#wordlist";
                let dict = symbols[0] == "#dict";
                for f in forms {
                    // the lines of a list are words, not expressions
                    let after = f.find('\n').map(|i| &f[i..]).unwrap_or("");
                    if list && (after.contains('/') || after.contains('-') || after.contains("AB")) || dict && (f.contains("X") || f.contains("x--")) {
                        continue;
                    }
                    let got = get(ctx, &f)?;
                    if got != want {
                        return Err(format!("{:?} gives {:?}, {:?} gives {:?}", plain, want, f, got));
                    }
                }
                Ok(())
            },
        );
    }
}

/// The same lines in growing numbers.
fn scale(ctx: &mut Ctx, w: &World) {
    let letter = |i: usize| (b'a' + (i % 26) as u8) as char;
    let alphabet: Vec<String> = (0..26).map(|i| letter(i).to_string()).chain(["ab", "ba", "mn", "xyz"].map(String::from)).collect();
    let words = make_words(&alphabet.iter().map(|t| (t.clone(), 0)).collect::<Vec<_>>());
    let big = World { outer: alphabet, words };
    for k in 1..=40usize {
        ctx.case(
            || format!("{} macros", k),
            |ctx| {
                let name = |i: usize| format!("M{:02}", i);
                let defs: String = (0..k).map(|i| format!("{}={}\n", name(i), letter(i))).collect();
                for i in 0..k {
                    check(ctx, &big, &format!("{}{}", defs, name(i)))?;
                    check(ctx, &big, &format!("{}{}{}", defs, name(i), name(k - 1 - i)))?;
                    // used in a setting, a comment, another macro; defined once more
                    check(ctx, &big, &format!("{}#words {} // {}\n.", defs.replace(letter(i), "1"), name(i), name(i)))?;
                    check(ctx, &big, &format!("{}Z={}|m\n(Z)n", defs, name(i)))?;
                    check(ctx, &big, &format!("{}\n{}=z", defs, name(i)))?;
                }
                check(ctx, &big, &format!("{}[{}]", defs, (0..k).map(name).collect::<String>()))?;
                // each in terms of the one before
                let chain: String = (1..k).map(|i| format!("{}={}\n", name(i), if i % 2 == 0 { name(i - 1) } else { format!("({}|{})", name(i - 1), letter(i)) })).collect();
                check(ctx, &big, &format!("{}=a\n{}{}", name(0), chain, name(k - 1)))?;
                // names of many letters, names which contain others
                let long = "N".repeat(k);
                check(ctx, &big, &format!("{}=b\na?{}", long, long))?;
                check(ctx, &big, &format!("N=a\n{}=b\n{}", long, long))?;
                check(ctx, &big, &format!("Q={}\nQ", "a?".repeat(k)))?;
                check(ctx, &big, &format!("Q=b?\n{}", "Q".repeat(k)))
            },
        );
        ctx.case(
            || format!("{} lines", k),
            |ctx| {
                for j in 0..k {
                    for fill in ["a.*", "", "// x", "#words 1", "A=b", "  "] {
                        for at in ["(", "b*a", "#limit x", "#words 2", "A=a", "B=", "<ab", "#wordlist", "a{", ".*b"] {
                            let l: Vec<&str> = (0..k).map(|i| if i == j { at } else { fill }).collect();
                            check(ctx, w, &l.join("\n"))?;
                            check(ctx, w, &l.join(";"))?;
                        }
                    }
                }
                Ok(())
            },
        );
        ctx.case(
            || format!("comments and blanks of {} characters", k * k),
            |ctx| {
                for c in [" ", "/", "*", "a", "(", "-", "é"] {
                    let x = c.repeat(k * k);
                    for t in [format!("a/*{} */b", x), format!("a//{}", x), format!("a--{}\nb", x), format!("//{}\na", x), format!("/* {}*/a", x), format!("a /*{}", x), format!("A=a /* {} */\nA", x)] {
                        if !x.contains('*') && !x.contains('/') {
                            check(ctx, w, &t)?;
                        }
                    }
                }
                let x = " ".repeat(k * k);
                check(ctx, w, &format!("{}a{}b{}*{}", x, x, x, x))?;
                check(ctx, w, &format!("{}#words{}1{}\n{}A{}={}b{}\naA?", x, x, x, x, x, x, x))?;
                check(ctx, w, &format!("{}#wordlist{}\n{}ab{}\n{}\n.*", x, x, x, x, x))
            },
        );
        ctx.case(
            || format!("names of {} characters", k),
            |ctx| {
                for c in "aZ09-_'.".chars() {
                    let x: String = std::iter::repeat(c).take(k).collect();
                    for t in [format!("#dict {}", x), format!("#dictionary x{}\n", x), format!("#dict {}y", x), format!("#DICT y{}Y", x)] {
                        if !t.contains("--") {
                            check(ctx, w, &t)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for n in 0..=1000usize {
        ctx.case(
            || format!("settings of {}", n),
            |ctx| {
                for t in ["#words N\na.?", "#limit N\na.?", "#words N#\n", "#limit N;#limit 3", "#WORDS 0N", "#Limit 00N", "A=N\n#limit A"] {
                    check(ctx, w, &t.replace('N', &n.to_string()))?;
                }
                let n = n * n * n * 7 + n;
                check(ctx, w, &format!("#limit {}\na", n))
            },
        );
    }
    // lists in the text
    for n in (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 3000, 5000]) {
        ctx.case(
            || format!("a list of {} words", n),
            |ctx| {
                let words: Vec<String> = (0..n).map(|i: usize| [i % 26, i / 26 % 26, i / 676 % 26].map(letter).iter().collect()).collect();
                for (sep, extra) in [("\n", ""), (";", ""), ("\n\n", "  ")] {
                    for q in [".*", "a..", ".*a", "n.?n"] {
                        let t = format!("#words 1\n{}\n#wordlist\n{}", q, words.iter().map(|x| format!("{}{}{}", extra, x, extra)).collect::<Vec<_>>().join(sep));
                        check(ctx, w, &t)?;
                    }
                }
                Ok(())
            },
        );
    }
}
