//! C17: the HTTP interface against the library, with the real server process.

use super::cli::{counted_list, plain_list, QUERIES};
use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;
use std::time::Instant;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "67 queries x 6 choices of list x {GET in 4 percent-encodings, POST}; 18 malformed encodings, with every malformed escape of \
                       two characters from 6; bodies at the size limit; 27 routes and methods; all sequences of 1..3 of 11 kinds of requests on one \
                       connection; all pairs of requests on two connections, in every order of sending and receiving; time limits at 50 times \
                       the speed; words with every ASCII character but letters and digits, and 39 other texts, before, between and after their letters",
        bounds_thorough: "as quick, with sequences of 1..4 requests",
        assumptions: &["requests outside the enumerated ones behave like those inside", "the order in which the server's threads run is not controlled"],
    }
}

pub fn files() -> Vec<(&'static str, Vec<u8>)> {
    let many: Vec<u8> = (0..12_000usize)
        .flat_map(|i| format!("{}\n", (0..4).map(|k| (b'a' + (i / 11usize.pow(k) % 11) as u8) as char).collect::<String>()).into_bytes())
        .collect();
    vec![
        ("default.txt", plain_list()),
        ("other.tsv", counted_list()),
        ("packed.zst", zstd::encode_all(&b"zig\nzag\nab\n"[..], 1).unwrap()),
        ("two-parts.of.a.name", b"first\nsecond\n".to_vec()),
        ("two-parts.again", b"first\nsecond\n".to_vec()),
        ("empty", b"".to_vec()),
        ("many.txt", many),
        ("odd.txt", odd_list()),
        ("long.txt", (0..300usize).map(|i| format!("{}{}\n", "abcdefghij".repeat(20), ["x", "y", "z"][i % 3])).collect::<String>().into_bytes()),
    ]
}
/// Words with every kind of character between, before and after their letters.
pub fn odd_list() -> Vec<u8> {
    let mut odd: Vec<String> = (1u8..128).filter(|c| !c.is_ascii_alphanumeric() && !b"\n\r".contains(c)).map(|c| (c as char).to_string()).collect();
    for s in [
        "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{df}", "\u{e9}", "e\u{301}", "\u{130}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{202e}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{d7ff}",
        "\u{e000}", "\u{fb03}", "\u{1f600}", "\u{10ffff}", "\\n", "\\\"", "\\u", "\\\\", "\"\"", "\",\"", "\"}", "\"]}}", "</script>", "&amp;", "&#x;", "%zz", "%C", "{}", "{:?}", "\r ", " \r", "\t\t", "  ",
    ] {
        odd.push(s.to_string());
    }
    odd.iter().flat_map(|c| [format!("a{}b\n", c), format!("{}ab\n", c), format!("ab{}\n", c)]).collect::<String>().into_bytes()
}
/// In the order of the checks' own list, without duplicates.
const NAMES: [&str; 8] = ["default", "other", "packed", "two-parts", "empty", "many", "long", "odd"];

/// The words of each list as texts, from the files' contents alone.
const SIZES: [Option<usize>; 8] = [None, None, Some(3), Some(2), Some(0), Some(12_000), Some(300), None];

fn expected_get(a: &Answers) -> Vec<u8> {
    match a {
        Err(e) => e.clone().into_bytes(),
        Ok(ps) => ps.iter().map(|p| p.iter().map(|w| format!("{} ", w.0)).collect::<String>() + "\n").collect::<String>().into_bytes(),
    }
}

fn check_get(r: &Reply, a: &Answers) -> Result<(), String> {
    let want = expected_get(a);
    if r.status != 200 || r.body != want {
        return Err(format!("GET: status {}, body {:?}, expected {:?}", r.status, r.text(), String::from_utf8_lossy(&want)));
    }
    Ok(())
}

/// The answers of a POST body, and the lines after them.
fn post_body(r: &Reply) -> Result<(Vec<Vec<(String, u32)>>, Vec<String>), String> {
    let s = std::str::from_utf8(&r.body).map_err(|e| e.to_string())?;
    let (mut found, mut rest) = (vec![], vec![]);
    for l in s.lines() {
        match message(l) {
            Some(Event::Match(p)) if rest.is_empty() => found.push(p),
            _ => rest.push(l.to_string()),
        }
    }
    if !s.is_empty() && !s.ends_with('\n') && rest.is_empty() {
        return Err("the last line is not ended".into());
    }
    Ok((found, rest))
}

fn check_post(r: &Reply, a: &Answers) -> Result<(), String> {
    if r.status != 200 {
        return Err(format!("POST: status {}", r.status));
    }
    match a {
        Err(e) if r.body == e.as_bytes() => Ok(()),
        Err(e) => Err(format!("POST: body {:?}, expected the error {:?}", r.text(), e)),
        Ok(want) => {
            let (found, rest) = post_body(r)?;
            if found != *want || !rest.is_empty() {
                return Err(format!("POST: answers {:?} and lines {:?}, expected {:?}", found, rest, want));
            }
            Ok(())
        }
    }
}

/// The list a query asks for.
pub fn list_of(q: &str) -> &'static str {
    for n in NAMES {
        if q.starts_with(&format!("#dict {};", n)) || q.starts_with(&format!("#dictionary {}\n", n)) {
            return n;
        }
    }
    "default"
}

fn not_utf8(s: &[u8]) -> String {
    String::from_utf8_lossy(s).into_owned()
}

/// What a path says, decoded: malformed escapes stand for themselves.
fn decoded(path: &str) -> String {
    let b = path.as_bytes();
    let hex = |i: usize| b.get(i).and_then(|c| (*c as char).to_digit(16));
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        match (b[i], hex(i + 1), hex(i + 2)) {
            (b'%', Some(h), Some(l)) => {
                o.push((h * 16 + l) as u8);
                i += 3;
            }
            (c, _, _) => {
                o.push(c);
                i += 1;
            }
        }
    }
    not_utf8(&o)
}

pub fn run(ctx: &mut Ctx) {
    let lab = RefCell::new(Lab::new(files(), 1));
    let more = [
        "a/b", "ab#c", "ab?c", "a+b", "ab%41", "(a)&&(b)", "\u{1}", "ab\n", "\n\nab", "a=b", "ab;", "....;....", "#limit 14;.{1,4}", "#limit 15;.{1,4}",
        "#limit 16;.{1,4}", "#limit 299;.{1,5}", "#limit 301;.{1,5}", ".{1,5}", "\u{1f600}", "\"", "{\"a\":1}", "#limit 99999999999999999999;a", "#words 99999;a",
        "#dict odd;ab;#words 1;#limit 1000", "#dict odd;.*;#words 1;#limit 1000", "#dict odd;abab;#words 2;#limit 3000", "#dict odd;.*a.*_.*b.*;#limit 500",
        "ab;#wordlist;a\"b;a\\b;a\\\"b;\"ab\";a'b\\;a&b;<ab>;ab\u{1f600};a\u{2028}b;a\u{8}b;a\u{7f}b;a%b;a{}b;a\\u{}b;ab,;:ab",
        "#dict default;ab.*", "#dict other;.*b", "#dictionary packed\n.*", "#dict nothing;ab.*", "#dict Other;ab.*", "#dict two-parts;.*", "#dict empty;.*",
    ];
    let prefixes: [&str; 6] = ["", "#dict other;", "#dict packed;", "#dict unknown;", "#dict empty;", "#dictionary two-parts\n"];
    let queries: Vec<&str> = QUERIES.iter().copied().filter(|q| !q.is_empty() && *q != "#dict other;ab").chain(more).collect();
    for q in &queries {
        for p in prefixes {
            if q.contains("#dict") && !p.is_empty() {
                continue;
            }
            ctx.case(
                || format!("{:?}", format!("{}{}", p, q)),
                |ctx| {
                    let q = format!("{}{}", p, q);
                    let mut lab = lab.borrow_mut();
                    let (short, _) = lab.library(&q, list_of(&q), Some(15));
                    let (long, _) = lab.library(&q, list_of(&q), None);
                    let plain = |_: usize, b: u8| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@".contains(&b);
                    let paths = [
                        percent(q.as_bytes(), |_, _| false, true),
                        percent(q.as_bytes(), plain, true),
                        percent(q.as_bytes(), |i, b| i % 2 == 0 && plain(i, b), false),
                        percent(q.as_bytes(), |_, b| b.is_ascii_alphanumeric(), false) + "?a=b",
                    ];
                    let r = (|| {
                        let web = lab.web();
                        for path in &paths {
                            let r = web.get(&format!("/query/{}", path))?;
                            ctx.count("states", 1);
                            ctx.count("traces", 1);
                            ctx.count("transitions", 2);
                            ctx.outcome(&r);
                            check_get(&r, &short).map_err(|e| format!("path {}: {}", path, e))?;
                        }
                        let r = web.request(&post("/query", q.as_bytes()))?;
                        ctx.count("states", 1);
                        ctx.count("traces", 1);
                        ctx.count("transitions", 2);
                        ctx.outcome(&r);
                        check_post(&r, &long)
                    })();
                    lab.judge(r)
                },
            );
        }
    }
    // Malformed and unusual encodings
    let mut odd: Vec<String> = ["a%", "a%4", "%", "%%", "%%41", "%41%", "%2541", "a%00b", "%C3%A9a", "%C3", "%A9a", "%F0%9F%98", "%ED%A0%80", "%c3%a9", "a%2Fb", "%2e%2e", "..", "%2E"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for a in "4aGg%z".chars() {
        for b in "1FGx%z".chars() {
            odd.push(format!("%{}{}b", a, b));
        }
    }
    for path in &odd {
        ctx.case(
            || format!("the path {:?}", path),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let q = decoded(path);
                let (want, _) = lab.library(&q, list_of(&q), Some(15));
                let r = lab.web().get(&format!("/query/{}", path)).and_then(|r| {
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    ctx.outcome(&r);
                    check_get(&r, &want)
                });
                lab.judge(r)
            },
        );
    }
    for body in [&b"a\xff"[..], b"\xff\xfe", b"ab;\xc3", b"// \xff\nab", b"\xed\xa0\x80", b"ab\x00", b"\xef\xbb\xbfab", b"", b" ", b"ab\r\n"] {
        ctx.case(
            || format!("the body {:?}", body),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let (want, _) = lab.library(&not_utf8(body), "default", None);
                let r = lab.web().request(&post("/query", body)).and_then(|r| {
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    ctx.outcome(&r);
                    check_post(&r, &want)
                });
                lab.judge(r)
            },
        );
    }
    // Large bodies: answered up to 64 kB, refused from there on
    for n in [1000usize, 8192, 65535, 65536, 65537, 65600, 1 << 20] {
        ctx.case(
            || format!("a body of {} bytes", n),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let body = format!("ab.*//{}", "x".repeat(n - 6));
                let (want, _) = lab.library("ab.*", "default", None);
                let r = (|| {
                    let mut c = lab.web().connect()?;
                    // (a server that refuses need not read it all)
                    let sent = c.send(&post("/query", body.as_bytes()));
                    let r = match (c.reply(), sent) {
                        (Ok(r), _) => Some(r),
                        (Err(_), _) if n > 65536 => None,
                        (Err(e), _) => return Err(e),
                    };
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    match r {
                        Some(r) if n <= 65536 => check_post(&r, &want),
                        Some(r) if r.status == 413 => Ok(()),
                        None => Ok(()),
                        Some(r) => Err(format!("status {} where the body is too large", r.status)),
                    }
                })();
                lab.judge(r)
            },
        );
    }
    routes(ctx, &lab);
    sequences(ctx, &lab);
    time_limits(ctx);
}

/// What the list routes and unknown routes say.
fn routes(ctx: &mut Ctx, lab: &RefCell<Lab>) {
    let texts = |lab: &mut Lab, name: &str| -> Vec<u8> {
        lab.web();
        let l = lab.lists.iter().find(|l| l.0 == name).unwrap_or(&lab.lists[0]);
        l.1.iter().map(|w| format!("{}\n", w.text)).collect::<String>().into_bytes()
    };
    for name in NAMES.iter().copied().chain(["none", "Default", "default.txt", "link", "directory", "%20", "a-b"]) {
        ctx.case(
            || format!("the word list {:?}", name),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let want = texts(&mut lab, name);
                let r = lab.web().get(&format!("/wordlist/{}", name)).and_then(|r| {
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    ctx.outcome(&r);
                    if r.status != 200 || r.body != want {
                        return Err(format!("status {}, {} bytes, expected {}", r.status, r.body.len(), want.len()));
                    }
                    Ok(())
                });
                lab.judge(r)
            },
        );
    }
    ctx.case(
        || "the descriptions of the loaded lists".to_string(),
        |ctx| {
            let mut lab = lab.borrow_mut();
            lab.web();
            let mut want: Vec<(String, usize)> = lab.lists.iter().map(|l| (l.0.clone(), l.1.len())).collect();
            want.sort();
            for (n, size) in NAMES.iter().zip(SIZES) {
                if size.map_or(false, |s| !want.contains(&(n.to_string(), s))) {
                    return Err(format!("list {} has not {:?} words", n, size));
                }
            }
            let r = (|| {
                let m = lab.web().get("/metrics")?;
                let mut got = vec![];
                for l in m.text().lines() {
                    if let Some(l) = l.strip_prefix("noodle_wordlist_size{wordlist=\"") {
                        let (name, n) = l.split_once("\"} ").ok_or("a malformed line in the metrics")?;
                        got.push((name.to_string(), n.parse().map_err(|_| "a malformed number in the metrics")?));
                    } else if !l.is_empty() && !l.starts_with("# HELP noodle_") && !l.starts_with("# TYPE noodle_") && !l.starts_with("noodle_") {
                        return Err(format!("a line {:?} in the metrics", l));
                    }
                }
                got.sort();
                if m.status != 200 || got != want {
                    return Err(format!("metrics: status {}, lists {:?}, expected {:?}", m.status, got, want));
                }
                let j = lab.web().get("/wordlists.js")?;
                let mut got = vec![];
                let mut begun = false;
                for l in j.text().split(';').map(|l| l.trim()).filter(|l| !l.is_empty()) {
                    if l.starts_with("window.WORDLISTS =") && !begun {
                        begun = true;
                    } else if let Some(l) = l.strip_prefix("window.WORDLISTS.push(").and_then(|l| l.strip_suffix(")")) {
                        let o = Json::parse(l).ok_or_else(|| format!("malformed {:?}", l))?;
                        match (o.field("name"), o.field("len")) {
                            (Some(Json::Str(s)), Some(Json::Num(n))) if begun => got.push((s.clone(), *n as usize)),
                            _ => return Err(format!("malformed {:?}", l)),
                        }
                    } else {
                        return Err(format!("a line {:?} in wordlists.js", l));
                    }
                }
                got.sort();
                if j.status != 200 || got != want {
                    return Err(format!("wordlists.js: status {}, lists {:?}, expected {:?}", j.status, got, want));
                }
                ctx.count("states", 2);
                ctx.count("traces", 2);
                Ok(())
            })();
            lab.judge(r)
        },
    );
    let raw: [(&str, &[u16]); 13] = [
        ("PUT /query/ab HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n", &[404, 405]),
        ("DELETE /query HTTP/1.1\r\nHost: x\r\n\r\n", &[404, 405]),
        ("POST /query HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n", &[411]),
        ("POST /metrics HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n", &[404, 405]),
        ("GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n", &[404, 405]),
        ("GET /queryab HTTP/1.1\r\nHost: x\r\n\r\n", &[404, 405]),
        ("GET /ws HTTP/1.1\r\nHost: x\r\n\r\n", &[400, 404, 405, 426]),
        ("GET /static/../../etc/passwd HTTP/1.1\r\nHost: x\r\n\r\n", &[400, 404, 405]),
        ("GET /..%2f..%2flists/default.txt HTTP/1.1\r\nHost: x\r\n\r\n", &[400, 404, 405]),
        ("GET /../lists/default.txt HTTP/1.1\r\nHost: x\r\n\r\n", &[400, 404, 405]),
        ("GET /wordlist/..%2flists HTTP/1.1\r\nHost: x\r\n\r\n", &[200, 400, 404]),
        ("NONSENSE\r\n\r\n", &[400]),
        ("GET\r\n\r\n", &[400]),
    ];
    for (text, allowed) in raw {
        ctx.case(
            || format!("the request {:?}", text),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let r = (|| {
                    let r = lab.web().request(text.as_bytes())?;
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    if !allowed.contains(&r.status) {
                        return Err(format!("status {}, expected one of {:?}", r.status, allowed));
                    }
                    // and the next request is answered
                    let want = lab.library("ab.*", "default", Some(15)).0;
                    check_get(&lab.web().get("/query/ab.*")?, &want)
                })();
                lab.judge(r)
            },
        );
    }
}

/// Histories of requests on one connection, and on two: each is answered as if it were alone.
fn sequences(ctx: &mut Ctx, lab: &RefCell<Lab>) {
    let th = ctx.thorough();
    let kinds: Vec<(&str, Vec<u8>)> = vec![
        ("GET ab.*", get("/query/ab.*")),
        ("GET with #limit", get("/query/%23limit%203%3B.%7B1,4%7D")),
        ("GET from the other list", get("/query/%23dict%20other%3B.*b")),
        ("GET with a list of its own", get("/query/..%0A%23wordlist%0Axy%0Azz%0A")),
        ("GET with an error", get("/query/((a)")),
        ("GET with #words", get("/query/%23words%202%3B...")),
        ("POST ab.*", post("/query", b"ab.*")),
        ("POST of many answers", post("/query", b"#limit 301;.{1,5}")),
        ("POST with an error", post("/query", b"#limit x")),
        ("GET of a list", get("/wordlist/other")),
        ("GET of nothing", get("/nothing")),
    ];
    let n = kinds.len();
    let deepest = if th { 4 } else { 3 };
    let alone = |lab: &mut Lab, k: usize| -> Result<(), String> {
        let r = lab.web().request(&kinds[k].1)?;
        judge_kind(lab, k, &r)
    };
    fn judge_kind(lab: &mut Lab, k: usize, r: &Reply) -> Result<(), String> {
        match k {
            0 => check_get(r, &lab.library("ab.*", "default", Some(15)).0),
            1 => check_get(r, &lab.library("#limit 3;.{1,4}", "default", Some(15)).0),
            2 => check_get(r, &lab.library("#dict other;.*b", "other", Some(15)).0),
            3 => check_get(r, &lab.library("..\n#wordlist\nxy\nzz\n", "default", Some(15)).0),
            4 => check_get(r, &lab.library("((a)", "default", Some(15)).0),
            5 => check_get(r, &lab.library("#words 2;...", "default", Some(15)).0),
            6 => check_post(r, &lab.library("ab.*", "default", None).0),
            7 => check_post(r, &lab.library("#limit 301;.{1,5}", "default", None).0),
            8 => check_post(r, &lab.library("#limit x", "default", None).0),
            9 if r.status == 200 => Ok(()),
            10 if r.status == 404 || r.status == 405 => Ok(()),
            _ => Err(format!("status {}", r.status)),
        }
    }
    for len in 1..=deepest {
        for mut code in 0..n.pow(len as u32) {
            let seq: Vec<usize> = (0..len)
                .map(|_| {
                    let k = code % n;
                    code /= n;
                    k
                })
                .collect();
            ctx.case(
                || format!("on one connection: {:?}", seq.iter().map(|&k| kinds[k].0).collect::<Vec<_>>()),
                |ctx| {
                    let mut lab = lab.borrow_mut();
                    let r = (|| {
                        let mut c = lab.web().connect()?;
                        for &k in &seq {
                            c.send(&kinds[k].1)?;
                            let r = c.reply()?;
                            ctx.count("states", 1);
                            ctx.count("transitions", 1);
                            judge_kind(&mut lab, k, &r).map_err(|e| format!("{}: {}", kinds[k].0, e))?;
                        }
                        ctx.count("traces", 1);
                        Ok(())
                    })();
                    lab.judge(r)
                },
            );
        }
    }
    // two connections: requests sent in parts, in every order of the steps
    for a in 0..n {
        for b in a..n {
            ctx.case(
                || format!("at the same time: {:?} and {:?}", kinds[a].0, kinds[b].0),
                |ctx| {
                    let mut lab = lab.borrow_mut();
                    let r = (|| {
                        alone(&mut lab, a)?;
                        // each client: half a request, the other half, the reply
                        for order in orders(&[3, 3]) {
                            let mut cs = [lab.web().connect()?, lab.web().connect()?];
                            let mut at = [0, 0];
                            for who in order {
                                let k = [a, b][who];
                                let (x, y) = kinds[k].1.split_at(kinds[k].1.len() / 2);
                                match at[who] {
                                    0 => cs[who].send(x)?,
                                    1 => cs[who].send(y)?,
                                    _ => {
                                        let r = cs[who].reply()?;
                                        judge_kind(&mut lab, k, &r).map_err(|e| format!("{}: {}", kinds[k].0, e))?;
                                    }
                                }
                                at[who] += 1;
                                ctx.count("states", 1);
                                ctx.count("transitions", 1);
                            }
                            ctx.count("traces", 1);
                        }
                        Ok(())
                    })();
                    lab.judge(r)
                },
            );
        }
    }
}

/// Every order of the steps of several clients (`steps[i]` of client i).
pub fn orders(steps: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|&n| n == 0) {
            out.push(cur.clone());
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut steps.to_vec(), &mut vec![], &mut out);
    out
}

pub const HARD: &str = "#dict many;<aabbccddeeffgghhiijjkk>&<kjihgfedcbakjihgfedcba>;.*a.*b.*c.*d.*e.*a";

/// Queries that outlast the time limits: what was found so far, and a line that says so.
fn time_limits(ctx: &mut Ctx) {
    for (speed, posted) in [(50, false), (600, true)] {
        let lab = RefCell::new(Lab::new(files(), speed));
        for q in ["#dict many;#limit 1000000000;.{12,39}", "#dict many;.{8}a.*;.{8}b.*", "#limit 1000000000;#dict many;(a*b*c*){8}"] {
            ctx.case(
                || format!("a time limit: {:?}, posted: {}", q, posted),
                |ctx| {
                    let mut lab = lab.borrow_mut();
                    lab.web().get("/query/ab.*")?;
                    let (limit, raw) = if posted {
                        (150.0, post("/query", q.as_bytes()))
                    } else {
                        (10.0, get(&format!("/query/{}", percent(q.as_bytes(), |_, _| false, true))))
                    };
                    let begin = Instant::now();
                    let r = lab.web().request(&raw);
                    let took = begin.elapsed().as_secs_f64() * speed as f64;
                    let r = r.and_then(|r| {
                        ctx.count("states", 1);
                        ctx.count("traces", 1);
                        let s = r.text().to_string();
                        let (found, last): (Vec<String>, String) = {
                            let mut l: Vec<String> = s.lines().map(|l| l.to_string()).collect();
                            let last = l.pop().unwrap_or_default();
                            (l, last)
                        };
                        if r.status != 200 || !last.starts_with("# Timeout") {
                            return Err(format!("status {}, {} lines, the last is {:?}", r.status, found.len(), last));
                        }
                        if took < limit {
                            return Err(format!("ended after {:.1} of {} s", took, limit));
                        }
                        ctx.count("transitions", found.len() as u64);
                        // the answers so far are the first ones
                        let words = &lab.lists.iter().find(|l| l.0 == "many").unwrap().1;
                        let ast = noodle::parser::QueryAst::new_from_str(q).map_err(|e| e.to_string())?;
                        let mut ev = noodle::QueryEvaluator::from_ast(&ast, words);
                        for (i, l) in found.iter().enumerate().take(20_000) {
                            let want = loop {
                                match ev.next_within_deadline(None) {
                                    noodle::QueryResponse::Match(p) => break p.iter().map(|w| (w.text.to_string(), w.score)).collect::<Vec<_>>(),
                                    noodle::QueryResponse::Complete(_) => return Err(format!("line {} {:?} is not an answer", i, l)),
                                    _ => {}
                                }
                            };
                            let ok = if posted {
                                message(l) == Some(Event::Match(want.clone()))
                            } else {
                                *l == want.iter().map(|w| format!("{} ", w.0)).collect::<String>()
                            };
                            if !ok {
                                return Err(format!("line {} is {:?}, expected {:?}", i, l, want));
                            }
                        }
                        Ok(())
                    });
                    lab.judge(r)
                },
            );
        }
    }
}
