//! C11: every query text is answered or rejected; nothing crashes, hangs or grows without bound.
//!
//! Runs on a 2 MB stack (that of the server's threads) in processes limited to 3 GB, watched from
//! outside: aborts, signals and endless cases are attributed to their text.

use super::common::*;
use super::Info;
use crate::clock;
use crate::ctx::Ctx;
use crate::engine::*;
use noodle::{parser, QueryEvaluator, QueryResponse, Word};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 400.0,
        bounds_quick: "every sequence of <= 3 of 63 tokens and of <= 4 of 34; every deletion, repetition, exchange, cut, insertion and \
                       replacement (37 symbols) at every position of 40 queries; 83 families of growing texts (numbers to 10^40, texts to \
                       1 MB); each parsed, and evaluated on 2 lists up to 600 looks at the clock, with the progress asked for at every step; phrases \
                       of 0 to 1000 words from lists of 1 to 256 words in 1 to 256 groups; words of every character that stands for \
                       several letters or for none",
        bounds_thorough: "every sequence of <= 5 of 34 tokens, every pair of edits of 12 queries, 6,000 looks at the clock",
        assumptions: &["longer texts than enumerated fail only in the ways the growing families do", "2 MB of stack, 3 GB of memory per process"],
    }
}

extern "C" {
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
}

fn percent(p: &str) -> Result<(), String> {
    for (i, _) in p.match_indices('%') {
        let digits: Vec<char> = p[..i].chars().rev().take_while(|c| c.is_ascii_digit()).collect();
        match digits.into_iter().rev().collect::<String>().parse::<u64>() {
            Ok(n) if n <= 100 => {}
            _ => return Err(format!("progress is {:?}", p)),
        }
    }
    Ok(())
}

/// Parse, and evaluate on `list` until the end or until the clock has been looked at `looks` times.
fn judge(ctx: &mut Ctx, text: &str, lists: &[List], looks: u64) -> Result<(), String> {
    ctx.count("states", 1);
    let lines = text.split(&['\n', ';'][..]).count();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ast = match parser::QueryAst::new_from_str(text) {
            Ok(ast) => ast,
            Err(e) => {
                let at = match e.line_col {
                    pest::error::LineColLocation::Pos((l, _)) => l,
                    pest::error::LineColLocation::Span((l, _), _) => l,
                };
                if e.to_string().is_empty() || at < 1 || at > lines {
                    return Err(format!("the error is said to be on line {} of {}: {}", at, lines, e));
                }
                return Ok((0, 0, 1));
            }
        };
        let (mut responses, mut answers) = (0u64, 0u64);
        for (k, list) in lists.iter().enumerate() {
            let mut ev = QueryEvaluator::from_ast(&ast, &list.words);
            for e in ev.expressions() {
                if e.text.is_empty() {
                    return Err("an expression is shown as an empty text".into());
                }
            }
            percent(&ev.progress())?;
            clock::arm();
            let mut slice = 0;
            // the second list is searched from a deadline that is over already
            let (deadline, most) = if k == 0 { (clock::deadline(), looks) } else { (clock::deadline(), 1) };
            clock::jump_at(Some(most));
            let r = loop {
                let before = clock::reads();
                let r = ev.next_within_deadline(Some(deadline));
                slice += 1;
                responses += 1;
                if let Err(e) = percent(&ev.progress()) {
                    break Err(e);
                }
                match r {
                    QueryResponse::Timeout if clock::reads() < most => {
                        break Err(format!("timed out before its time was over, after {} looks at the clock", clock::reads()))
                    }
                    QueryResponse::Timeout | QueryResponse::Complete(_) => break Ok(()),
                    QueryResponse::Match(p) => {
                        answers += 1;
                        if p.is_empty() {
                            break Err("answered with nothing at all".into());
                        }
                    }
                    QueryResponse::Logs(_) => {}
                }
                if before > most + 4 || slice > 100_000 {
                    break Err(format!("did not stop, at look {} at the clock, deadline at {}", before, most));
                }
            };
            clock::disarm();
            r?;
        }
        Ok((responses, answers, 0))
    }));
    clock::disarm();
    match r {
        Ok(Ok((responses, answers, rejected))) => {
            ctx.count("transitions", responses);
            ctx.count("traces", 1);
            ctx.count("reported", answers);
            ctx.count("rejected", rejected);
            ctx.outcome(&(responses, answers, rejected));
            Ok(())
        }
        Ok(Err(e)) => Err(format!("{:?}: {}", short(text), e)),
        Err(e) => Err(format!("{:?}: panicked: {}", short(text), panic_text(e))),
    }
}

fn short(t: &str) -> String {
    if t.chars().count() > 120 {
        format!("{}… ({} bytes)", t.chars().take(120).collect::<String>(), t.len())
    } else {
        t.to_string()
    }
}

const TOKENS: [&str; 63] = [
    "a", ".", "b", "[ab]", "(", ")", "|", "?", "*", "+", "{2}", "<ab", ">", "<a>", "-", ":-)", ":+)", ":^)", "!", "!_", "!'", "!1", "_", "'", ";", "#words", "#limit", " ", "2", "0", "[", "]", "A=", "#wordlist",
    // from here on in short sequences only
    "^", "{", "}", ",", "{,2}", "{0,}", "{2,1}", "{0}", "<", ":", "\n", "#dict", "#quiet", "#", "=", "//", "--", "/*", "*/", "\t", "\r", "\"", "é", "\u{0}", "99999999999999999999999", "<a+2>", "<ab-9>", "[^a-z]", "[z-a]",
];
const COMMON: usize = 34;

const CORPUS: [&str; 40] = [
    "a",
    "ab|(b[^a]+)*.",
    "(a|b?){2,3}b{,2}",
    "<ab>",
    "<abb+>a",
    "(<ab-1>|<ba+2>)",
    "(ab.b:-)",
    "(a(b|a)b:+)",
    "(ab(a:^)b:^)",
    "2 1",
    "a_b'a",
    "ab !_ !' !1",
    "[a-b'_]*",
    "A=[ab];B=AA;BA",
    "#words 2;#limit 3\na*",
    "#dict none;#quiet;ab",
    "a // x\n/* b */ b -- y",
    "b*;#wordlist\nab\nba b\nb'\n",
    "((a?b*)+|(ba{2})){1,}",
    "a !1;b !2;. ",
    "a{0}",
    "(a{0}b?)*",
    "()",
    "[^a-z]",
    "(a*)*",
    "((((a))))",
    "a**",
    "<>",
    "3 0 2",
    "!1",
    "ab !0",
    "#limit 0;a",
    "#words 0;a*",
    "#words 1;a*",
    "[a-][^-b][.]",
    "(ab:^)(ba:^)",
    "((a:^):^)",
    "((a?):-)(b:+)",
    "a{2,1}",
    "'_ !'!_",
];

const SYMBOLS: [&str; 37] = [
    "a", "b", "z", ".", "[", "]", "^", "-", "(", ")", "|", "?", "*", "+", "{", "}", ",", "0", "2", "<", ">", ":", "!", "_", "'", " ", ";", "\n", "#", "=", "/", "\"", "\t", "é", "\u{301}", "99999999999999999999", "\\",
];

fn edits(q: &str) -> Vec<String> {
    let c: Vec<char> = q.chars().collect();
    let s = |v: &[char]| v.iter().collect::<String>();
    let mut out = vec![];
    for i in 0..=c.len() {
        out.push(s(&c[..i]));
        out.push(s(&c[i..]));
        for x in SYMBOLS {
            out.push(s(&c[..i]) + x + &s(&c[i..]));
            if i < c.len() {
                out.push(s(&c[..i]) + x + &s(&c[i + 1..]));
            }
        }
        if i < c.len() {
            out.push(s(&c[..i]) + &s(&c[i + 1..]));
            out.push(s(&c[..=i]) + &s(&c[i..]));
        }
        if i + 1 < c.len() {
            out.push(s(&c[..i]) + &s(&[c[i + 1], c[i]]) + &s(&c[i + 2..]));
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Texts that grow with n.
fn families() -> Vec<(&'static str, fn(usize) -> String)> {
    fn chain(n: usize, f: fn(usize) -> String) -> String {
        (0..n).map(f).collect::<Vec<_>>().join(";")
    }
    fn name(i: usize) -> String {
        // letters which do not occur in each other
        format!("M{}Q", (b'A' + (i / 26 % 26) as u8) as char).repeat(1) + &format!("{}X", (b'A' + (i % 26) as u8) as char)
    }
    vec![
        ("opened groups", |n| "(".repeat(n)),
        ("closed groups", |n| ")".repeat(n)),
        ("nested groups", |n| "(".repeat(n) + "a" + &")".repeat(n)),
        ("nested groups, one closed in each", |n| "((a)".repeat(n) + &")".repeat(n)),
        ("nested groups, one closed before each", |n| "((b)(a)".repeat(n) + "c" + &")".repeat(n)),
        ("nested groups, closed in comments", |n| "(/*)*/".repeat(n) + "a" + &")".repeat(n)),
        ("nested groups, closed in the comments of each letter", |n| "(a/*))*/b/**/".repeat(n) + "a" + &"/*(*/)".repeat(n)),
        ("nested groups, closed at the end of a comment", |n| "(a/*/)*/".repeat(n) + "a" + &")//)".repeat(n)),
        ("groups in a comment", |n| format!("a /*{}*/ //{}", "(".repeat(n), "(".repeat(n))),
        ("nested groups with spaces", |n| "( ".repeat(n) + "a" + &" )".repeat(n)),
        ("nested groups by macros", |n| format!("Q=(a;R=);{}b{}", "Q".repeat(n), "R".repeat(n))),
        ("nested alternatives", |n| "(a|".repeat(n) + "b" + &")".repeat(n)),
        ("nested alternatives, left", |n| "(".repeat(n) + "a" + &"|b)".repeat(n)),
        ("nested substrings", |n| "(".repeat(n) + "a" + &":^)".repeat(n)),
        ("nested substrings of two", |n| "(a".repeat(n) + "a" + &"b:^)".repeat(n)),
        ("nested subsets", |n| "(a".repeat(n) + "a" + &":-)".repeat(n)),
        ("nested supersets", |n| "(a".repeat(n) + "a" + &":+)".repeat(n)),
        ("nested, not closed as begun", |n| "(".repeat(n) + "a" + &":^)".repeat(n / 2) + &")".repeat(n / 2 + n % 2)),
        ("nested repetitions", |n| "(".repeat(n) + "a" + &")*".repeat(n)),
        ("nested optionals", |n| "(".repeat(n) + "a" + &")?".repeat(n)),
        ("nested doublings", |n| "(".repeat(n) + "a" + &"){2}".repeat(n)),
        ("nested optional doublings", |n| "(".repeat(n) + "a" + &"){0,2}".repeat(n)),
        ("nested nothings", |n| "(".repeat(n) + "a" + &"){0}".repeat(n)),
        ("letters", |n| "a".repeat(n)),
        ("dots", |n| ".".repeat(n)),
        ("stars", |n| "a*".repeat(n)),
        ("optionals", |n| "a?".repeat(n)),
        ("starred groups", |n| "(ab)*".repeat(n)),
        ("optional groups and stars", |n| "(a?b*)?".repeat(n)),
        ("repetition operators", |n| "a".to_string() + &"*".repeat(n)),
        ("alternatives", |n| "ab|".repeat(n) + "b"),
        ("empty alternatives", |n| "|".repeat(n)),
        ("exactly n", |n| format!("a{{{}}}", n)),
        ("at least n", |n| format!("a{{{},}}", n)),
        ("at most n", |n| format!("a{{,{}}}", n)),
        ("between n and 2 n", |n| format!("a{{{},{}}}", n, 2 * n)),
        ("between 2 n and n", |n| format!("a{{{},{}}}", 2 * n, n)),
        ("n times n", |n| format!("(a{{{}}}){{{}}}", n, n)),
        ("n times at most n, of substrings", |n| format!("((ab:^){{,{}}}:^){{{}}}", n, n)),
        ("n times nothing", |n| format!("(a{{0}}){{{}}}", n)),
        ("n numbers", |n| "2 ".repeat(n)),
        ("number n", |n| format!("{}", n)),
        ("number of n digits", |n| "9".repeat(n)),
        ("repetition of n digits", |n| format!("a{{{}}}", "9".repeat(n))),
        ("repetition of n digits, optional", |n| format!("a{{0,{}}}", "9".repeat(n))),
        ("repetition of n zeros", |n| format!("a{{{}1}}", "0".repeat(n))),
        ("n edits", |n| format!("ab !{}", n)),
        ("n edits of n letters", |n| format!("{} !{}", "a".repeat(n), n)),
        ("edits of n digits", |n| format!("ab !{}", "9".repeat(n))),
        ("letters, one edit", |n| "ab".repeat(n) + " !1"),
        ("stars, three edits", |n| "a*b?".repeat(n) + " !3"),
        ("options", |n| "a".to_string() + &" !1".repeat(n)),
        ("option marks", |n| "a".to_string() + &"!".repeat(n)),
        ("anagram of n letters", |n| format!("<{}>", "ab".repeat(n))),
        ("subanagram of n letters", |n| format!("<{}->", "abcdefghij".repeat(n))),
        ("superanagram of n letters", |n| format!("<{}+>", "abc".repeat(n))),
        ("n more letters", |n| format!("<ab+{}>", n)),
        ("n fewer letters", |n| format!("<ab-{}>", n)),
        ("more letters, n digits", |n| format!("<ab+{}>", "9".repeat(n))),
        ("fewer letters, n digits", |n| format!("<ab-{}>", "9".repeat(n))),
        ("n anagrams", |n| "<ab>".repeat(n)),
        ("n anagrams in nested groups", |n| "(<ab>|".repeat(n) + "a" + &")".repeat(n)),
        ("n anagrams of the alphabet", |n| "<abcdefghijklmnopqrstuvwxyz->".repeat(n)),
        ("class", |n| format!("[{}]", "ab".repeat(n))),
        ("ranges", |n| format!("[{}]", "a-z".repeat(n))),
        ("opened classes", |n| "[".repeat(n)),
        ("n lines", |n| "a\n".repeat(n)),
        ("n different lines", |n| (0..n).map(|i| format!("{}*", "ab".repeat(i % 7 + 1))).collect::<Vec<_>>().join("\n")),
        ("n fuzzy lines", |n| "ab !2\n".repeat(n)),
        ("n empty lines", |n| ";".repeat(n)),
        ("n spaces", |n| " ".repeat(n)),
        ("n underscores", |n| "_".repeat(n)),
        ("n apostrophes", |n| "'".repeat(n)),
        ("comment", |n| format!("a //{}", "x/*".repeat(n))),
        ("block comments", |n| "/* */".repeat(n) + "a"),
        ("opened comments", |n| "/*".repeat(n)),
        ("wide characters", |n| "é".repeat(n)),
        ("#words n", |n| format!("#words {};a*", n)),
        ("#words of n digits", |n| format!("#words {};a*", "9".repeat(n))),
        ("#limit n", |n| format!("#limit {};a*", n)),
        ("#limit of n digits", |n| format!("#limit {};a*", "9".repeat(n))),
        ("macro of n letters, used n times", |n| format!("Q={};{}", "a".repeat(n), "Q".repeat(n))),
        ("chain of n doubling macros", |n| format!("{};{}", chain(n.min(600), |i| format!("{}={}", name(i), if i == 0 { "a".into() } else { name(i - 1).repeat(2) })), name(n.min(600) - 1))),
        ("chain of n macros, forwards", |n| format!("{};{}", chain(n.min(600), |i| format!("{}={}", name(i), name(i + 1).repeat(2))), name(0))),
        ("n macros which are not used", |n| format!("{};a", chain(n.min(2000), |i| format!("M{}=a", i)))),
        ("embedded word of n letters", |n| format!("a*b;#wordlist\n{}b", "a".repeat(n))),
        ("embedded list of n words", |n| format!("a*b;#wordlist\n{}", "ab\n".repeat(n))),
        ("embedded list of n different words", |n| format!("(a|b)*;#words 2;#wordlist\n{}", (0..n.min(20000)).map(|i| format!("{:b}\n", i + 1).replace('0', "a").replace('1', "b")).collect::<String>())),
        ("embedded list, fuzzy", |n| format!("ab !2;#wordlist\n{}", (0..n.min(20000)).map(|i| format!("{:b}\n", i + 1).replace('0', "a").replace('1', "b")).collect::<String>())),
    ]
}

pub fn run(ctx: &mut Ctx) {
    unsafe { setrlimit(9, &[3 << 30, 3 << 30]) };
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || explore(ctx)).unwrap().join().unwrap();
    });
}

fn explore(ctx: &mut Ctx) {
    assert!(clock::works());
    let th = ctx.thorough();
    let looks = if th { 6000 } else { 600 };
    let small = List::new(&["a", "ab", "b c'"]);
    let other = List::tranched(vec![("ab".into(), 0), ("b".into(), 0), ("a".into(), 3)]);
    let lists = [small, other];
    // all sequences of tokens, grouped by their first two
    let mut spaces: Vec<(usize, usize, usize)> = vec![(TOKENS.len(), 0, 3), (COMMON, 4, 4)];
    if th {
        spaces.push((COMMON, 5, 5));
    }
    for (tokens, lo, hi) in spaces {
        for i in 0..tokens {
            for j in 0..=tokens {
                // a text of one token, or all that begin with two
                let head = TOKENS[i].to_string() + if j == tokens { "" } else { TOKENS[j] };
                let rest = if j == tokens { 0 } else { hi - 2 };
                if j == tokens && lo > 1 {
                    continue;
                }
                ctx.case(
                    || format!("texts of at most {} tokens which begin with {:?}", hi, head),
                    |ctx| {
                        let mut cur = vec![head.clone()];
                        for k in 0..=rest {
                            if 2 + k >= lo || j == tokens {
                                for t in &cur {
                                    judge(ctx, t, &lists, looks)?;
                                }
                            }
                            if k < rest {
                                cur = cur.iter().flat_map(|s| TOKENS[..tokens].iter().map(move |t| format!("{}{}", s, t))).collect();
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for q in CORPUS {
        ctx.case(
            || format!("{:?} with one edit", q),
            |ctx| {
                judge(ctx, q, &lists, 10 * looks)?;
                for e in edits(q) {
                    judge(ctx, &e, &lists, looks)?;
                }
                Ok(())
            },
        );
    }
    if th {
        for q in CORPUS.iter().filter(|q| q.len() < 16) {
            for e in edits(q) {
                ctx.case(
                    || format!("{:?} with one edit", e),
                    |ctx| {
                        for e in edits(&e) {
                            judge(ctx, &e, &lists, 60)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // lists of one word up to many, in any number of groups, and phrases of any number of words
    let queries = ["a*", ".*", "[ab]*[bc]*", "(ab)*c !1", ".{90}", "a*;.*;.*b", "<aabbcc>", "zz"];
    for n in [1usize, 2, 3, 11, 12, 13, 64, 256] {
        for groups in [1usize, 2, 3, 12, 13, 64, 128, 256] {
            if groups > n {
                continue;
            }
            let list = List::tranched(
                (0..n)
                    .map(|i| {
                        let (x, y, z) = (b'a' + (i % 3) as u8, b'a' + (i / 3 % 26) as u8, b'a' + (i / 78) as u8);
                        (String::from_utf8(vec![x, y, z]).unwrap(), (i * groups / n) as u8)
                    })
                    .collect(),
            );
            let list = [list];
            for (k, limit) in [(0, 1), (1, 2), (2, 3), (10, 300), (64, 1), (65, 1000), (1000, 300), (999, 0)] {
                // (the time for preparing such a search grows with the square of words times groups)
                if k * groups > 16_000 || k > 900 && n > 100 && groups > 1 {
                    continue;
                }
                ctx.case(
                    || format!("phrases of {} words from {} words in {} groups", k, n, groups),
                    |ctx| {
                        for q in queries {
                            judge(ctx, &format!("#words {};#limit {};{}", k, limit, q), &list, 30)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // words of every character that stands for several letters, or for none: alone, repeated, and among others
    let unusual: Vec<char> = (0x80..=0x10ffffu32).filter_map(char::from_u32).filter(|c| Word::new(&c.to_string(), 0, 0).chars.len() != 2).collect();
    for block in unusual.chunks(128) {
        ctx.case(
            || format!("lists with words of {:?} and others", block[0]),
            |ctx| {
                for &c in block {
                    let c = c.to_string();
                    let lists = [["ab".to_string(), c.clone()], [c.repeat(3), "a".to_string()]].map(|l| {
                        let entries: Vec<Entry> = l.into_iter().map(|t| (t, 0)).collect();
                        List { words: make_words(&entries), entries, norm: vec![] }
                    });
                    for q in ["[a-z]b", ".*", "a !1", "<ab->", "#words 2;.*a.*", "(.+:^)"] {
                        judge(ctx, q, &lists, 60)?;
                    }
                }
                Ok(())
            },
        );
    }
    // growing texts
    let mut sizes: Vec<usize> = (1..=20).map(|k| 1 << k).collect();
    sizes.extend([1, 3, 5, 7, 9, 15, 17, 31, 33, 40, 50, 63, 65, 99, 100, 101, 127, 129, 255, 257, 511, 513, 1000, 1001, 1023, 1025, 4095, 4097, 65535, 65537]);
    sizes.sort();
    for (what, f) in families() {
        for &n in &sizes {
            if f(1).len() * n > (1 << 19) && f(2).len() > f(1).len() {
                continue;
            }
            if !th && [1000, 1001, 1023, 1025].contains(&n) {
                continue;
            }
            ctx.case(
                || format!("{}, size {}: {:?}", what, n, short(&f(n))),
                |ctx| {
                    let t = f(n);
                    let begin = cpu();
                    let r = judge(ctx, &t, &lists, 200);
                    let took = cpu() - begin;
                    if took > Duration::from_secs(300) {
                        return Err(format!("took {:?} of CPU time for 400 looks at the clock", took));
                    }
                    r
                },
            );
        }
    }
}

/// CPU time of this process.
fn cpu() -> Duration {
    #[repr(C)]
    struct T(i64, i64);
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    let mut t = T(0, 0);
    unsafe { syscall(crate::clock::SYS_CLOCK_GETTIME, 2i64, &mut t as *mut T) };
    Duration::new(t.0 as u64, t.1 as u32)
}
