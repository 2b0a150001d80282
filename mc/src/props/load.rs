//! C14: loading word lists, against a reference loader.

use super::Info;
use crate::ctx::Ctx;
use crate::model::*;
use noodle::{load_wordlist, parser, QueryEvaluator, QueryResponse, Word};
use std::io::Write;
use std::path::{Path, PathBuf};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "every sequence of <= 3 of 34 kinds of lines as plain, CRLF, unterminated and zstd file; lines with each Unicode character in three places; 21 list sizes around the first \
                       4 group boundaries x 6 kinds of lines at the boundary; every truncation and every byte changed in 3 zstd files; \
                       counts to 10^12; words of 1 to 120 letters with another character at each place; a list of 200,000 lines; lines of up to 25,000,000 letters",
        bounds_thorough: "every sequence of <= 4 of 34 kinds of lines; every size within 4 of 6 group boundaries",
        assumptions: &["line kinds outside the enumerated ones behave like those inside"],
    }
}

/// A usable word: text, group, score.
type Entry = (String, u8, u32);

/// Sizes of the groups: 10,001, then each time half as much again (rounded down, and one more).
fn group_sizes() -> impl Iterator<Item = usize> {
    let mut n = 10_000;
    std::iter::from_fn(move || {
        let r = n + 1;
        n += n / 2;
        Some(r)
    })
}

fn symbols(w: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in w.chars() {
        match c {
            'é' | 'É' => v.push(4),
            'æ' | 'Æ' => v.extend([0, 4]),
            '\u{301}' => {}
            c if c.is_ascii() => v.push(sym(c as u8)),
            _ => v.push(PUNCT),
        }
    }
    v
}

fn reference<'a>(lines: impl Iterator<Item = &'a [u8]>) -> Vec<Entry> {
    let mut out = vec![];
    let mut sizes = group_sizes();
    let (mut group, mut left) = (0u8, sizes.next().unwrap());
    for l in lines {
        let l = match std::str::from_utf8(l) {
            Ok(l) => l,
            Err(_) => continue,
        };
        let (word, score) = match l.split_once('\t') {
            Some((n, w)) if n.parse::<u32>().is_ok() => (w, n.parse().unwrap()),
            _ => (l, (l.len() as u32).saturating_mul(200)),
        };
        if symbols(word).len() < 2 && word != "a" && word != "I" || word.chars().any(|c| c.is_ascii_digit()) {
            continue;
        }
        let lower = word.bytes().all(|b| b.is_ascii_lowercase());
        out.push((word.to_string(), group + !lower as u8, score));
        left -= 1;
        if left == 0 {
            group += 1;
            left = sizes.next().unwrap();
        }
    }
    // in a group: by letters, a word after the longer ones that begin with it
    out.sort_by_cached_key(|e| (e.1, [symbols(&e.0), vec![SPACE]].concat(), e.0.clone(), e.2));
    out
}

fn load(path: &Path) -> Result<Vec<Word>, String> {
    load_wordlist(path).map_err(|_| "not loaded".to_string())
}

fn compare(got: &[Word], want: &[Entry]) -> Result<(), String> {
    let same = |w: &Word, e: &Entry| *w.text == e.0[..] && w.tranche == e.1 && w.score == e.2;
    if got.len() == want.len() && got.iter().zip(want).all(|(w, e)| same(w, e)) {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(w, e)| !same(w, e)).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{} words, expected {}; word {} is {:?}, expected {:?}",
        got.len(),
        want.len(),
        i,
        got.get(i).map(|w| (&w.text, w.tranche, w.score)),
        want.get(i)
    ))
}

/// The loaded list has to be one the engine can search: all its words, in its order.
fn search(list: &[Word]) -> Result<usize, String> {
    let ast = parser::QueryAst::new_from_str("[a-z'_]*").unwrap();
    let mut ev = QueryEvaluator::from_ast(&ast, list);
    ev.set_search_depth_limit(1);
    ev.set_results_limit(None);
    let got: Vec<Word> = ev.filter_map(|r| if let QueryResponse::Match(mut p) = r { p.pop() } else { None }).collect();
    if got != list {
        return Err(format!("searching for any word finds {} of {} words", got.len(), list.len()));
    }
    Ok(got.len())
}

fn frames(parts: &[&[u8]], separate: bool) -> Vec<u8> {
    if separate {
        return parts.iter().flat_map(|p| zstd::encode_all(*p, 1).unwrap()).collect();
    }
    let mut e = zstd::stream::Encoder::new(vec![], 1).unwrap();
    for p in parts {
        e.write_all(p).unwrap();
        e.flush().unwrap();
    }
    e.finish().unwrap()
}

const KINDS: [&[u8]; 34] = [
    b"ab",
    b"ba",
    b"Ab",
    b"a-b",
    b"ab c",
    b"a",
    b"I",
    b"b",
    b"A",
    b"",
    b" ",
    b"a1",
    b"1",
    b"\xff\xfe",
    b"ab\xc3",
    b"5\tab",
    b"0\tba",
    b"7\tAb",
    b"9\tx",
    b"3\t",
    b"2\ta2",
    b"x\tab",
    b"-1\tab",
    b"\tab",
    b"4\ta\tb",
    b"8\ta",
    b" ab",
    "é".as_bytes(),
    "\u{e9}a".as_bytes(),
    "æ".as_bytes(),
    "中文".as_bytes(),
    b"ABC\0",
    b"6 ab",
    b"2\t ab c",
];

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn word(i: usize) -> String {
    // distinct words of five letters, not in order
    let mut x = i * 7919 % 11_881_376;
    (0..5)
        .map(|_| {
            let c = (b'a' + (x % 26) as u8) as char;
            x /= 26;
            c
        })
        .collect()
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let dir = Scratch(crate::scratch::path_of(std::process::id()));
    std::fs::create_dir_all(&dir.0).unwrap();
    let plain = dir.0.join("list.txt");
    let packed = dir.0.join("list.zst");

    for n in 0..=if th { 4 } else { 3 } {
        let k = KINDS.len();
        let fixed: usize = if n > 1 { n - 1 } else { 0 };
        for start in 0..k.pow(fixed as u32) {
            let head: Vec<&[u8]> = (0..fixed).map(|i| KINDS[start / k.pow(i as u32) % k]).collect();
            ctx.case(
                || format!("lists of {} lines which begin with {:?}", n, head.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>()),
                |ctx| {
                    for last in 0..if n > fixed { k } else { 1 } {
                        let mut lines = head.clone();
                        if n > fixed {
                            lines.push(KINDS[last]);
                        }
                        let want = reference(lines.iter().copied());
                        let forms: [(&Path, Vec<u8>); 5] = [
                            (&plain, lines.iter().flat_map(|l| [l, &b"\n"[..]].concat()).collect()),
                            (&plain, lines.iter().flat_map(|l| [l, &b"\r\n"[..]].concat()).collect()),
                            (&plain, lines.join(&b"\n"[..])),
                            (&packed, frames(&[&lines.join(&b"\n"[..])], false)),
                            (&packed, frames(&lines.iter().flat_map(|l| [*l, &b"\n"[..]]).collect::<Vec<_>>(), true)),
                        ];
                        for (i, (path, bytes)) in forms.iter().enumerate() {
                            // an empty line at the very end is none
                            ctx.count("states", 1);
                            std::fs::write(path, bytes).unwrap();
                            let got = load(path)?;
                            ctx.count("traces", 1);
                            ctx.count("transitions", got.len() as u64);
                            ctx.outcome(&got.iter().map(|w| (w.text.to_string(), w.tranche)).collect::<Vec<_>>());
                            compare(&got, &want).and_then(|_| search(&got).map(|_| ())).map_err(|e| {
                                format!("{:?}, form {}: {}", lines.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>(), i, e)
                            })?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }

    // every character (which letters it stands for is for C13 to decide; here, that no line is lost)
    for block in (0..0x110000u32).step_by(0x1000) {
        ctx.case(
            || format!("lines with each character from {:x}", block),
            |ctx| {
                let mut lines = vec![];
                for c in (block..block + 0x1000).filter_map(char::from_u32).filter(|c| *c != '\n') {
                    lines.extend([format!("a{}b", c), format!("{}ab", c), format!("3\tab{}c", c)]);
                }
                let mut want = vec![];
                let (mut group, mut left, mut sizes) = (0u8, 10_001, group_sizes().skip(1));
                for l in &lines {
                    let (score, word) = match l.strip_prefix("3\t") {
                        Some(w) => (3, w),
                        None => (l.len() as u32 * 200, &l[..]),
                    };
                    if word.chars().any(|c| c.is_ascii_digit()) {
                        continue;
                    }
                    let lower = word.bytes().all(|b| b.is_ascii_lowercase());
                    want.push((word.to_string(), group + !lower as u8, score));
                    left -= 1;
                    if left == 0 {
                        group += 1;
                        left = sizes.next().unwrap();
                    }
                }
                want.sort();
                for bytes in [lines.join("\n").into_bytes(), lines.iter().map(|l| format!("{}\r\n", l)).collect::<String>().into_bytes()] {
                    ctx.count("states", 1);
                    std::fs::write(&plain, bytes).unwrap();
                    let mut got: Vec<Entry> = load(&plain)?.iter().map(|w| (w.text.to_string(), w.tranche, w.score)).collect();
                    ctx.count("traces", 1);
                    ctx.count("transitions", got.len() as u64);
                    got.sort();
                    if let Some((g, w)) = got.iter().zip(&want).find(|(g, w)| g != w) {
                        return Err(format!("of {} lines {} are loaded, expected {}: {:?} instead of {:?}", lines.len(), got.len(), want.len(), g, w));
                    }
                    if got.len() != want.len() {
                        return Err(format!("of {} lines {} are loaded, expected {}", lines.len(), got.len(), want.len()));
                    }
                }
                Ok(())
            },
        );
    }

    // groups
    let mut sizes = vec![1, 9_999];
    let mut total = 0;
    for s in group_sizes().take(if th { 6 } else { 4 }) {
        total += s;
        let w = if th { 4 } else { 2 };
        sizes.extend(total - w..=total + w);
    }
    sizes.sort();
    sizes.dedup();
    let special: [(&str, &[u8]); 6] = [("nothing else", b""), ("skipped lines", b"x\n12\n\xff\n"), ("a capital", b"Zz\n"), ("punctuation", b"z'z\n"), ("counts", b"5\tzz\n6\tZz\n"), ("a duplicate", b"hhhhh\n")];
    for &n in &sizes {
        for (what, extra) in special {
            ctx.case(
                || format!("{} words, {} at each group boundary", n, what),
                |ctx| {
                    let mut text = vec![];
                    let bounds: Vec<usize> = group_sizes().take(8).scan(0, |a, s| {
                        *a += s;
                        Some(*a)
                    }).collect();
                    for i in 0..n {
                        if bounds.iter().any(|b| i + 2 >= *b && i <= b + 1) {
                            text.extend_from_slice(extra);
                        }
                        text.extend_from_slice(word(i).as_bytes());
                        text.push(b'\n');
                    }
                    let want = reference(text.split(|b| *b == b'\n'));
                    ctx.count("states", 1);
                    std::fs::write(&plain, &text).unwrap();
                    let got = load(&plain)?;
                    ctx.count("traces", 1);
                    ctx.count("transitions", got.len() as u64);
                    ctx.outcome(&(got.len(), got.last().map(|w| w.tranche)));
                    compare(&got, &want)?;
                    search(&got)?;
                    Ok(())
                },
            );
        }
    }
    ctx.case(
        || "a list of 200,000 lines of all kinds".into(),
        |ctx| {
            let mut text = vec![];
            for i in 0..200_000usize {
                if i % 3 == 0 {
                    text.extend_from_slice(KINDS[i / 3 % KINDS.len()]);
                } else {
                    text.extend_from_slice(word(i).as_bytes());
                }
                text.push(b'\n');
            }
            std::fs::write(&packed, zstd::encode_all(&text[..], 3).unwrap()).unwrap();
            ctx.count("states", 1);
            let got = load(&packed)?;
            ctx.count("traces", 1);
            ctx.count("transitions", got.len() as u64);
            compare(&got, &reference(text.split(|b| *b == b'\n')))?;
            search(&got)?;
            Ok(())
        },
    );

    // counts
    let mut counts: Vec<u64> = (0..=1_100).collect();
    counts.extend((10..=40).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]));
    counts.extend((3..=12).flat_map(|k| [10u64.pow(k) - 1, 10u64.pow(k), 10u64.pow(k) + 1, 4 * 10u64.pow(k) + 7]));
    for chunk in counts.chunks(100) {
        ctx.case(
            || format!("counts from {} on", chunk[0]),
            |ctx| {
                let text: String = chunk
                    .iter()
                    .flat_map(|n| [format!("{}\tab\n", n), format!("{}\tAb c\n", n), format!("0{}\tba\n", n), format!("{}ab\tba\n", n), format!("{}.0\tba\n", n), format!("-{}\tbb\n", n), format!("{} ab\n", n)])
                    .collect();
                for text in [text.clone(), text.replace('\n', "\r\n")] {
                    std::fs::write(&plain, &text).unwrap();
                    ctx.count("states", 1);
                    let got = load(&plain)?;
                    ctx.count("traces", 1);
                    ctx.count("transitions", got.len() as u64);
                    ctx.outcome(&got.len());
                    compare(&got, &reference(text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).as_bytes())))?;
                }
                Ok(())
            },
        );
    }

    // words of every length, with something odd at every place
    for n in 1..=120usize {
        ctx.case(
            || format!("words of {} letters", n),
            |ctx| {
                let w: Vec<char> = (0..n).map(|i| (b'a' + (i * i / 3 % 26) as u8) as char).collect();
                let mut text: String = w.iter().collect();
                text.push('\n');
                for i in 0..n {
                    for c in ["0", "5", "9", "Z", "'", "-", " ", "é", "\t"] {
                        let mut v: String = w[..i].iter().collect();
                        v.push_str(c);
                        v.extend(&w[i + 1..]);
                        text += &format!("{}\n3\t{}\n", v, v);
                    }
                }
                std::fs::write(&plain, &text).unwrap();
                ctx.count("states", 1);
                let got = load(&plain)?;
                ctx.count("traces", 1);
                ctx.count("transitions", got.len() as u64);
                ctx.outcome(&got.len());
                compare(&got, &reference(text.split('\n').map(|l| l.as_bytes())))?;
                search(&got).map(|_| ())
            },
        );
    }

    // long lines
    for n in [1_000usize, 8_191, 8_192, 8_193, 65_536, 1_000_000, 21_474_836, 21_474_837, 25_000_000] {
        ctx.case(
            || format!("a line of {} letters", n),
            |ctx| {
                let long = "ab".repeat(n / 2 + 1)[..n].to_string();
                for (before, after) in [("", ""), ("7\t", ""), ("", "\tx")] {
                    let text = format!("first\n{}{}{}\nlast\n", before, long, after);
                    std::fs::write(&plain, &text).unwrap();
                    ctx.count("states", 1);
                    let got = load(&plain)?;
                    ctx.count("traces", 1);
                    ctx.count("transitions", got.len() as u64);
                    if let Err(e) = compare(&got, &reference(text.as_bytes().split(|b| *b == b'\n'))) {
                        return Err(e.chars().take(200).collect());
                    }
                }
                Ok(())
            },
        );
    }

    // unreadable files
    let lines: Vec<String> = (0..60).map(|i| format!("{}\n", word(i))).collect();
    let parts: Vec<&[u8]> = lines.iter().map(|l| l.as_bytes()).collect();
    let files = [("blocks", frames(&parts, false)), ("frames", frames(&parts, true)), ("one block", frames(&[lines.concat().as_bytes()], false))];
    for (what, bytes) in &files {
        for cut in 0..=bytes.len() {
            ctx.case(
                || format!("zstd file of {} cut to {} of {} bytes", what, cut, bytes.len()),
                |ctx| {
                    ctx.count("states", 1);
                    std::fs::write(&packed, &bytes[..cut]).unwrap();
                    let got = load(&packed)?;
                    ctx.count("traces", 1);
                    ctx.count("transitions", got.len() as u64);
                    ctx.outcome(&got.len());
                    let n = got.len();
                    let least = match *what {
                        "frames" => {
                            // all the lines whose frames are whole
                            let mut at = 0;
                            parts.iter().take_while(|p| {
                                at += zstd::encode_all(**p, 1).unwrap().len();
                                at <= cut
                            }).count()
                        }
                        _ if cut == bytes.len() => parts.len(),
                        _ => 0,
                    };
                    if n < least {
                        return Err(format!("{} words loaded, {} are readable", n, least));
                    }
                    compare(&got, &reference(lines[..n].iter().map(|l| l.trim_end().as_bytes())))
                },
            );
        }
        for at in 0..bytes.len() {
            ctx.case(
                || format!("zstd file of {} with byte {} of {} changed", what, at, bytes.len()),
                |ctx| {
                    for x in [1u8, 0x80, 0xff] {
                        let mut b = bytes.clone();
                        b[at] ^= x;
                        ctx.count("states", 1);
                        std::fs::write(&packed, &b).unwrap();
                        let got = load(&packed)?;
                        ctx.count("traces", 1);
                        ctx.outcome(&got.len());
                        search(&got)?;
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.case(
        || "a directory in place of a list".into(),
        |ctx| {
            ctx.count("states", 1);
            let got = load(&dir.0)?;
            ctx.count("traces", 1);
            compare(&got, &[])
        },
    );
}
