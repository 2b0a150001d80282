//! C20: the command-line tool prints the library's answers.

use super::Info;
use crate::ctx::Ctx;
use crate::scratch::Scratch;
use noodle::{load_wordlist, parser, QueryEvaluator, QueryResponse, Word};
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "42 queries (4 rejected ones) x 4 lists (plain, counts, zstd, of unusual characters) x 6 values of -n x 5 of -m, short and long flags before and \
                       after the query; missing and unreadable lists, malformed flags",
        bounds_thorough: "as quick, with 12 values of -n, 7 of -m, and every flag spelling for each",
        assumptions: &["queries and lists outside the enumerated ones behave like those inside", "the line that tells how many words were loaded is no answer"],
    }
}

pub const QUERIES: [&str; 42] = [
    "ab*",
    "...",
    "a_b",
    "a'b",
    "ab !1",
    "<ab>",
    "<aab+1>",
    "2 1",
    "1 1 1",
    "[a-b]{3}",
    "(ab:^)",
    "(abb:-)",
    "(ab:+)!_",
    "zz",
    "...;a.*",
    "...\n.*b",
    "#limit 1;...",
    "#limit 0;...",
    "#limit 3\n.{2,4}",
    "#words 1;a.*",
    "#words 2;.{3,5}",
    "#words 0;...",
    "#words 2;#limit 4;.{1,9}",
    "#limit 1;#limit 7;....",
    "#words 3;#words 1;....",
    "A=[ab];AA",
    "A=[ab]\nB=AA\nBB",
    "// nothing\nab",
    "",
    "#quiet;ab",
    "#dict other;ab",
    "#dictionary none;ab",
    "ab;#wordlist;x;ab;a b",
    "..\n#wordlist\nx\n\nab\na",
    "-a",
    "--",
    "é",
    "((a)",
    "a{3,1}",
    "#words x",
    "\"a\"",
    "{,2}a",
];

pub fn plain_list() -> Vec<u8> {
    b"ab\nab\na\nb\x63\nba\nAb\na-b\nI\nabb\nb'a\nba b\nx1\naab\nbb\n\xff\nbb\nzyx\n\xc3\xa9a\n".to_vec()
}
pub fn counted_list() -> Vec<u8> {
    b"70\tab\n60\tba\n50\tb a\n9\ta\n3\tb\n2\tBb\n1\tabb\n1\t\n0\taa\n".to_vec()
}

/// What the library answers, or None if it rejects the query.
fn library(q: &str, list: &[Word], n: Option<usize>, m: Option<usize>) -> Option<Vec<String>> {
    let ast = parser::QueryAst::new_from_str(q).ok()?;
    let mut ev = QueryEvaluator::from_ast(&ast, list);
    ev.set_results_limit(n.or(ast.options.results_limit));
    ev.set_search_depth_limit(m.or(ast.options.max_words).unwrap_or(10));
    Some(
        ev.filter_map(|r| match r {
            QueryResponse::Match(p) => Some(p.iter().map(|w| &*w.text).collect::<Vec<_>>().join(" ")),
            _ => None,
        })
        .collect(),
    )
}

fn program() -> Command {
    let mut c = Command::new("/verif/target/repo/debug/noodle");
    c.stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    c
}

fn execute(ctx: &mut Ctx, args: &[String]) -> Result<(bool, Vec<String>), String> {
    let o = program().args(args).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8(o.stdout).map_err(|e| format!("the output is not text: {}", e))?;
    let lines: Vec<String> = out.lines().filter(|l| !l.starts_with("Loaded ") && !l.starts_with("Warning: ")).map(|l| l.to_string()).collect();
    ctx.count("states", 1);
    ctx.count("traces", 1);
    ctx.count("transitions", lines.len() as u64);
    ctx.outcome(&(o.status.success(), &lines));
    Ok((o.status.success(), lines))
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let dir = Scratch::new();
    let many: Vec<u8> = (0..12_000usize)
        .flat_map(|i| format!("{}\n", (0..4).map(|k| (b'a' + (i / 11usize.pow(k) % 11) as u8) as char).collect::<String>()).into_bytes())
        .collect();
    let files = [
        ("list.txt", plain_list()),
        ("counts.tsv", counted_list()),
        ("many.zst", zstd::encode_all(&many[..], 1).unwrap()),
        ("odd.txt", super::http::odd_list()),
    ];
    let lists: Vec<(PathBuf, Vec<Word>)> = files
        .iter()
        .map(|(n, b)| {
            let p = dir.0.join(n);
            std::fs::write(&p, b).unwrap();
            let l = load_wordlist(&p).unwrap();
            (p, l)
        })
        .collect();
    let ns: &[Option<usize>] = if th {
        &[None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(8), Some(15), Some(16), Some(100), Some(300), Some(301)]
    } else {
        &[None, Some(0), Some(1), Some(2), Some(15), Some(301)]
    };
    let ms: &[Option<usize>] = if th { &[None, Some(0), Some(1), Some(2), Some(3), Some(10), Some(11)] } else { &[None, Some(0), Some(1), Some(2), Some(3)] };
    for (k, (path, list)) in lists.iter().enumerate() {
        for (qi, q) in QUERIES.iter().enumerate() {
            ctx.case(
                || format!("{:?} on {:?}", q, path.file_name().unwrap()),
                |ctx| {
                    for (ni, n) in ns.iter().enumerate() {
                        for (mi, m) in ms.iter().enumerate() {
                            // the larger lists: few words only, so that the search comes to an end
                            if k >= 2 && (m.unwrap_or(10) > 1 && q.contains('.') || n.is_none() && q.contains('+')) {
                                continue;
                            }
                            // an expression of any length without a limit has answers without end
                            let (limit, words) = parser::QueryAst::new_from_str(q)
                                .map(|a| (a.options.results_limit, a.options.max_words))
                                .unwrap_or((None, None));
                            if n.or(limit).is_none()
                                && m.or(words).unwrap_or(10) > 2
                                && (q.contains('*') || q.contains(":+") || q.contains(".{"))
                            {
                                continue;
                            }
                            let want = library(q, list, *n, *m);
                            for form in 0..if th { 4 } else { 1 } {
                                let form = if th { form } else { (qi + ni + mi) % 4 };
                                let mut args: Vec<String> = vec![];
                                let p = path.to_str().unwrap();
                                let (i, c, l) = if form % 2 == 0 { ("-i", "-n", "-m") } else { ("--input", "--count", "--phrase-length") };
                                args.extend([i.to_string(), p.to_string()]);
                                if let Some(n) = n {
                                    args.extend([c.to_string(), n.to_string()]);
                                }
                                if form >= 2 && !q.starts_with('-') {
                                    args.push(q.to_string());
                                }
                                if let Some(m) = m {
                                    args.extend([l.to_string(), m.to_string()]);
                                }
                                if form < 2 || q.starts_with('-') {
                                    args.extend(["--".to_string(), q.to_string()]);
                                }
                                let (ok, got) = execute(ctx, &args)?;
                                match &want {
                                    None if !ok && got.is_empty() => {}
                                    Some(w) if ok && *w == got => {}
                                    _ => {
                                        let at = want.iter().flatten().zip(&got).take_while(|(a, b)| a == b).count();
                                        return Err(format!(
                                            "arguments {:?}: success {}, {} lines, expected {:?} lines; line {} is {:?}, expected {:?}",
                                            args,
                                            ok,
                                            got.len(),
                                            want.as_ref().map(|w| w.len()),
                                            at,
                                            got.get(at),
                                            want.as_ref().and_then(|w| w.get(at))
                                        ));
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    let p = lists[0].0.to_str().unwrap();
    let missing = dir.0.join("missing").to_str().unwrap().to_string();
    let bad: [&[&str]; 9] = [
        &["-i", &missing, "ab"],
        &["-i", p],
        &["-i", p, "-n", "x", "ab"],
        &["-i", p, "-n", "-1", "ab"],
        &["-i", p, "-m", "", "ab"],
        &["-i", p, "-m", "1.5", "ab"],
        &["-i", p, "ab", "ab"],
        &["-i", p, "--what", "ab"],
        &["-i", p, "a("],
    ];
    for args in bad {
        ctx.case(
            || format!("malformed arguments {:?}", args),
            |ctx| {
                let (ok, got) = execute(ctx, &args.iter().map(|s| s.to_string()).collect::<Vec<_>>())?;
                if ok || !got.is_empty() {
                    return Err(format!("success {}, output {:?}", ok, got));
                }
                Ok(())
            },
        );
    }
}
