//! C22: the files that the server delivers.

use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 120.0,
        bounds_quick: "five layouts of the page's files (below static/, below noodle-webapp/static/, the page alone in the working directory, all three with different contents, none), with secrets beside, above and below them and a link between directories; every path of up to 4 segments (2 for the layouts with no files) over 13 segments (nothing, '.', '..', both percent-encoded, '..%2f..', '..%5csecret.txt', '%2fetc', a file, a file with a percent-encoded letter, a directory, the word lists' directory, a secret file) and the same below /static, /wordlist and /noodle-webapp up to 2; every file x {GET, GET with ?query, GET of its first bytes, of its tail, of a range, of a range that is not there}, POST, PUT and DELETE of every file; changed and removed files; every sequence of 3 of the requests for 8 files on one connection",
        bounds_thorough: "as quick, with paths of up to 5 segments (6 for static/) and sequences of 4 requests",
        assumptions: &[
            "a path that names no file may be answered with the page itself (as the server does, whatever the path) or refused; only its content is judged",
            "symbolic links in the directory of the page's files are the operator's choice and are not followed up",
        ],
    }
}

#[derive(Clone)]
struct Layout {
    name: &'static str,
    /// directories with the page's files, by precedence
    dirs: &'static [&'static str],
    /// the page alone in the working directory
    alone: bool,
}

const LAYOUTS: &[Layout] = &[
    Layout { name: "static/", dirs: &["static"], alone: false },
    Layout { name: "noodle-webapp/static/", dirs: &["noodle-webapp/static"], alone: false },
    Layout { name: "index.html", dirs: &[], alone: true },
    Layout { name: "all of them", dirs: &["static", "noodle-webapp/static"], alone: true },
    Layout { name: "none", dirs: &[], alone: false },
];

/// The page's files, below a directory.
const FILES: &[(&str, usize)] = &[
    ("index.html", 500),
    ("a.txt", 10),
    ("empty", 0),
    ("sub/b.png", 70_000),
    ("sub/deep/c", 3),
    ("sub/index.html", 40),
    ("sp ace.txt", 5),
    ("\u{e9}t\u{e9}.txt", 5),
    ("100%.txt", 5),
    ("query.txt", 5),
    ("only-below-the-second", 5),
];

fn content(dir: &str, file: &str, n: usize) -> Vec<u8> {
    let head = format!("{}/{}:", dir, file).into_bytes();
    head.into_iter().chain((0..n).map(|i| (i * 7 % 251) as u8)).collect::<Vec<u8>>()[..].to_vec()
}

struct Site {
    layout: Layout,
    lab: Lab,
    /// (path, content) as delivered
    files: Vec<(String, Vec<u8>)>,
    pages: Vec<Vec<u8>>,
}

impl Site {
    fn new(layout: &Layout) -> Site {
        let lab = Lab::new(vec![("default.txt", b"word list\nab\n".to_vec())], 1);
        let root = lab.scratch.0.clone();
        let mut site = Site { layout: layout.clone(), lab, files: vec![], pages: vec![] };
        for (k, dir) in layout.dirs.iter().enumerate() {
            for (f, n) in FILES {
                if *f == "only-below-the-second" && (k == 0 && layout.dirs.len() > 1) {
                    continue;
                }
                let p = root.join(dir).join(f);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                let b = if *n == 0 { vec![] } else { content(dir, f, *n) };
                std::fs::write(&p, &b).unwrap();
                if *f == "index.html" {
                    site.pages.push(b.clone());
                }
                if !site.files.iter().any(|x| x.0 == *f) {
                    site.files.push((f.to_string(), b));
                }
            }
            std::fs::write(root.join(dir).join("../secret.txt"), b"secret").unwrap();
        }
        if layout.alone {
            std::fs::write(root.join("index.html"), b"the page alone").unwrap();
            site.pages.push(b"the page alone".to_vec());
        }
        std::fs::write(root.join("secret.txt"), b"secret").unwrap();
        site
    }
    /// The files that a path may name: as it is, or as a directory's page.
    fn named(&self, path: &str) -> Vec<&Vec<u8>> {
        let plain = path.split('?').next().unwrap();
        let mut b = vec![];
        let raw = plain.as_bytes();
        let mut i = 0;
        while i < raw.len() {
            let hex = raw.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            match (raw[i], hex) {
                (b'%', Some(h)) => {
                    b.push(h);
                    i += 3;
                }
                (c, _) => {
                    b.push(c);
                    i += 1;
                }
            }
        }
        let plain = String::from_utf8_lossy(&b).to_string();
        // every way to resolve "." and ".." below the directory is allowed
        let parts: Vec<&str> = plain.split('/').filter(|s| !s.is_empty() && *s != ".").collect();
        let mut v: Vec<&str> = vec![];
        for p in parts {
            if p == ".." {
                v.pop();
            } else {
                v.push(p);
            }
        }
        let p = v.join("/");
        let index = if p.is_empty() { "index.html".to_string() } else { format!("{}/index.html", p) };
        self.files.iter().filter(|f| f.0 == p || f.0 == index).map(|f| &f.1).collect()
    }
    fn judge_other(&self, path: &str, r: &Reply) -> Result<(), String> {
        match r.status {
            200 => {
                if self.pages.contains(&r.body) || self.named(path).contains(&&r.body) {
                    return Ok(());
                }
                Err(format!("delivers {:?}", String::from_utf8_lossy(&r.body).chars().take(60).collect::<String>()))
            }
            301..=308 | 400..=499 => Ok(()),
            s => Err(format!("status {}", s)),
        }
    }
}

fn encode(path: &str) -> String {
    percent(path.as_bytes(), |_, b| b.is_ascii_alphanumeric() || b"/.-_".contains(&b), true)
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for layout in LAYOUTS {
        let site = RefCell::new(None);
        let with = |f: &mut dyn FnMut(&mut Site) -> Result<(), String>| -> Result<(), String> {
            let mut s = site.borrow_mut();
            let s: &mut Site = s.get_or_insert_with(|| Site::new(layout));
            let r = f(s);
            s.lab.judge(r)
        };
        files(ctx, layout, &with);
        paths(ctx, layout, th, &with);
        if layout.dirs.len() == 1 {
            sequences(ctx, layout, if th { 4 } else { 3 }, &with);
        }
    }
}

type With<'a> = &'a dyn Fn(&mut dyn FnMut(&mut Site) -> Result<(), String>) -> Result<(), String>;

/// Every file, in every way to ask for it.
fn files(ctx: &mut Ctx, layout: &Layout, with: With) {
    ctx.case(
        || format!("files in {}: the page", layout.name),
        |ctx| {
            with(&mut |s| {
                let r = s.lab.web().get("/")?;
                ctx.count("states", 1);
                ctx.count("traces", 1);
                if s.pages.is_empty() {
                    return if (400..500).contains(&r.status) { Ok(()) } else { Err(format!("status {} without a page", r.status)) };
                }
                if r.status != 200 || !s.pages.contains(&r.body) {
                    return Err(format!("GET /: status {}, {} bytes, not the page", r.status, r.body.len()));
                }
                Ok(())
            })
        },
    );
    if layout.dirs.is_empty() {
        return;
    }
    for (f, _) in FILES {
        ctx.case(
            || format!("files in {}: {:?}", layout.name, f),
            |ctx| {
                with(&mut |s| {
                    let b = match s.files.iter().find(|x| x.0 == *f) {
                        Some(x) => x.1.clone(),
                        None => return Ok(()),
                    };
                    let p = format!("/{}", encode(f));
                    let exact = |r: Reply, what: &str| {
                        if r.status != 200 || r.body != b {
                            return Err(format!("{} {}: status {}, {} bytes, not the {} bytes of the file", what, p, r.status, r.body.len(), b.len()));
                        }
                        Ok(())
                    };
                    ctx.count("states", 1);
                    ctx.count("traces", 6);
                    exact(s.lab.web().get(&p)?, "GET")?;
                    exact(s.lab.web().get(&format!("{}?x=1", p))?, "GET with a query")?;
                    // other methods change nothing
                    for m in ["POST", "PUT", "DELETE"] {
                        let r = s.lab.web().request(format!("{} {} HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc", m, p).as_bytes())?;
                        s.judge_other(&p, &r).map_err(|e| format!("{} {} {}", m, p, e))?;
                    }
                    exact(s.lab.web().get(&p)?, "GET afterwards")?;
                    // parts
                    if b.len() > 4 {
                        for (range, want) in [("bytes=0-3", &b[..4]), ("bytes=2-", &b[2..]), ("bytes=1-2", &b[1..3])] {
                            let r = s.lab.web().request(format!("GET {} HTTP/1.1\r\nHost: x\r\nRange: {}\r\n\r\n", p, range).as_bytes())?;
                            let ok = (r.status == 206 && r.body == want) || (r.status == 200 && r.body == b);
                            if !ok {
                                return Err(format!("{} of {}: status {}, {} bytes", range, p, r.status, r.body.len()));
                            }
                        }
                    }
                    let r = s.lab.web().request(format!("GET {} HTTP/1.1\r\nHost: x\r\nRange: bytes=999999-\r\n\r\n", p).as_bytes())?;
                    if r.status != 416 && !(r.status == 200 && r.body == b) {
                        return Err(format!("a range outside {}: status {}", p, r.status));
                    }
                    Ok(())
                })
            },
        );
    }
    // files that change while the server runs
    ctx.case(
        || format!("files in {}: changed and removed", layout.name),
        |ctx| {
            with(&mut |s| {
                let at = s.lab.scratch.0.join(s.layout.dirs[0]).join("new.txt");
                for step in ["one", "another, longer", "", "3"] {
                    std::fs::write(&at, step).unwrap();
                    let r = s.lab.web().get("/new.txt")?;
                    ctx.count("states", 1);
                    ctx.count("traces", 1);
                    if r.status != 200 || r.body != step.as_bytes() {
                        return Err(format!("the file is {:?}, delivered: status {}, {:?}", step, r.status, r.text()));
                    }
                }
                std::fs::remove_file(&at).unwrap();
                let r = s.lab.web().get("/new.txt")?;
                s.judge_other("/new.txt", &r)
            })
        },
    );
}

/// Paths of every shape: nothing but the page's files is delivered.
fn paths(ctx: &mut Ctx, layout: &Layout, th: bool, with: With) {
    const SEGMENTS: &[&str] = &["", ".", "..", "%2e", "%2e%2E", "..%2f..", "..%5csecret.txt", "%2fetc", "a.txt", "%61.txt", "sub", "lists", "secret.txt"];
    let n = SEGMENTS.len();
    let deepest = match (th, layout.dirs.is_empty()) {
        (_, true) => 2,
        (false, _) => 4,
        (true, _) if layout.name == "static/" => 6,
        (true, _) => 5,
    };
    for (top, deepest) in [("", deepest), ("/static", 2), ("/wordlist", 2), ("/noodle-webapp", 2), ("/noodle-webapp/static", 2)] {
        for len in 1..=deepest {
            // one case for each beginning
            let begin = n.pow((len as u32).min(2));
            for b in 0..begin {
                let rest = n.pow(len as u32) / begin;
                ctx.case(
                    || format!("files in {}: paths {}/{}/... of {} segments", layout.name, top, [b % n, b / n].iter().take(len).map(|&i| SEGMENTS[i]).collect::<Vec<_>>().join("/"), len),
                    |ctx| {
                        with(&mut |s| {
                            let mut c = s.lab.web().connect()?;
                            for r in 0..rest {
                                let mut code = b + begin * r;
                                let mut path = top.to_string();
                                for _ in 0..len {
                                    path += "/";
                                    path += SEGMENTS[code % n];
                                    code /= n;
                                }
                                c.send(&get(&path))?;
                                let reply = c.reply().map_err(|e| format!("GET {}: {}", path, e))?;
                                ctx.count("states", 1);
                                ctx.count("traces", 1);
                                if top == "/wordlist" && reply.status == 200 && reply.body == b"ab\nword list\n" {
                                    // (a list, by its name or for want of one)
                                    continue;
                                }
                                ctx.outcome(&(reply.status, reply.body.len()));
                                s.judge_other(&path, &reply).map_err(|e| format!("GET {} {}", path, e))?;
                                // a path without detours names its file
                                if !path.contains("..") && !path.to_lowercase().contains("%2") && !path.contains("%5c") && !path.contains("/.") && !path.contains("//") {
                                    if let Some(f) = s.files.iter().find(|f| format!("/{}", f.0) == path.replace("%61", "a")) {
                                        if reply.status != 200 || reply.body != f.1 {
                                            return Err(format!("GET {}: status {}, not the file", path, reply.status));
                                        }
                                    }
                                }
                            }
                            Ok(())
                        })
                    },
                );
            }
        }
    }
}

/// Several files on one connection.
fn sequences(ctx: &mut Ctx, layout: &Layout, len: usize, with: With) {
    const ASKED: &[&str] = &["index.html", "a.txt", "empty", "sub/b.png", "sub/deep/c", "sp ace.txt", "missing", "../secret.txt"];
    let n = ASKED.len();
    for first in 0..n * n {
        ctx.case(
            || format!("files in {}: {} requests on one connection, from {}, {}", layout.name, len, ASKED[first % n], ASKED[first / n]),
            |ctx| {
                with(&mut |s| {
                    for rest in 0..n.pow(len as u32 - 2) {
                        let mut code = first + n * n * rest;
                        let mut c = s.lab.web().connect()?;
                        let mut done = vec![];
                        for _ in 0..len {
                            let f = ASKED[code % n];
                            code /= n;
                            done.push(f);
                            let p = if f.starts_with('.') { format!("/{}", f) } else { format!("/{}", encode(f)) };
                            c.send(&get(&p))?;
                            let r = c.reply().map_err(|e| format!("{:?}: {}", done, e))?;
                            ctx.count("transitions", 1);
                            ctx.outcome(&(r.status, r.body.len()));
                            match s.files.iter().find(|x| x.0 == f) {
                                Some(x) if r.status != 200 || r.body != x.1 => {
                                    return Err(format!("{:?}: status {}, {} bytes, not the {} bytes of the file", done, r.status, r.body.len(), x.1.len()))
                                }
                                Some(_) => {}
                                None => s.judge_other(&p, &r).map_err(|e| format!("{:?}: {}", done, e))?,
                            }
                        }
                        ctx.count("states", 1);
                        ctx.count("traces", 1);
                    }
                    Ok(())
                })
            },
        );
    }
}
