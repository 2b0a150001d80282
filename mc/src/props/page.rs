//! C21: the web page, from what the user does to what is shown.

use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 120.0,
        bounds_quick: "the page as the server delivers it (with its scripts), run in a document with a network under control: every sequence of 5 actions out of \
                       {query, stop, another query typed, connected, refused, dropped, next answer, end, events of given-up connections}; for 2 queries with \
                       two answers shown, every sequence of 4 out of {next answer, end, sort, filter on/off, 4 filters (one hides everything, one is malformed), copy, stop, query, connected}; \
                       every sequence of 3 out of 18 changes of the settings, ways to ask and connections; every example of the page; 33 texts of all kinds as \
                       answer, in phrases, as comment, as query and as address of the page",
        bounds_thorough: "as quick, with sequences of 6, 5 and 4 actions",
        assumptions: &[
            "the document, its events, the address and the WebSocket follow the DOM, HTML and WebSocket standards as the harness implements them (no layout, no real browser)",
            "the order of the answers is open from the moment an answer arrives while the list is sorted until the next change of the order; what is shown is open while the filter is not a regular expression",
            "the controls keep their element ids",
        ],
    }
}

// --- JSON, out -----------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: AsRef<str>>(l: &[T]) -> String {
    format!("[{}]", l.iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(","))
}
fn text(j: &Json) -> Option<String> {
    match j {
        Json::Str(s) => Some(s.clone()),
        _ => None,
    }
}
fn number(j: Option<&Json>) -> u64 {
    match j {
        Some(Json::Num(n)) => *n as u64,
        _ => 0,
    }
}
fn texts(j: Option<&Json>) -> Vec<String> {
    match j {
        Some(Json::List(l)) => l.iter().filter_map(text).collect(),
        _ => vec![],
    }
}

// --- the page in its document --------------------------------------------------------------------

struct Page {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
    /// what the server sends for a request: JSON of the worker's `known`
    known: Vec<(String, String)>,
}

impl Drop for Page {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Page {
    fn start() -> Page {
        let mut child = Command::new("node")
            .arg("--stack-size=4000")
            .arg("/verif/mc/page/worker.js")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node");
        let input = child.stdin.take().unwrap();
        let output = BufReader::new(child.stdout.take().unwrap());
        Page { child, input, output, known: vec![] }
    }
    fn ask(&mut self, command: &str) -> Json {
        writeln!(self.input, "{}", command).unwrap();
        self.input.flush().unwrap();
        let mut line = String::new();
        self.output.read_line(&mut line).unwrap();
        let j = Json::parse(line.trim_end()).unwrap_or_else(|| panic!("the page's document ended: {:?}", line));
        if let Some(e) = j.field("failed") {
            panic!("the page's document failed: {:?}", e);
        }
        j
    }
}

fn files() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("default.txt", b"ba\nab\nabba\nbaa\nbab\nzig\nzag\n".to_vec()),
        ("other.tsv", b"9\tab\n8\tbaa\n3\tcab\n3\tabc\n2\tzed\n".to_vec()),
        ("more.txt", b"one\ntwo\n".to_vec()),
    ]
}

struct All {
    lab: Lab,
    page: Option<Page>,
    controls: Option<Json>,
    examples: Vec<String>,
}

impl All {
    fn new() -> All {
        let lab = Lab::new(files(), 1);
        All { lab, page: None, controls: None, examples: vec![] }
    }
    /// The page as the server delivers it, and every script it asks for.
    fn open(&mut self) -> Result<&mut Page, String> {
        if self.page.is_none() {
            let dir = self.lab.scratch.0.join("noodle-webapp");
            if !dir.exists() {
                copy(std::path::Path::new("/repo/noodle-webapp/static"), &dir.join("static"));
            }
            let mut page = Page::start();
            let html = self.lab.web().get("/")?;
            if html.status != 200 {
                return Err(format!("GET /: status {}", html.status));
            }
            let html = html.text().to_string();
            let scripts = texts(page.ask(&format!("{{\"cmd\":\"scripts\",\"html\":{}}}", js(&html))).field("scripts"));
            let mut files = vec![];
            for s in scripts {
                let path = if s.starts_with('/') { s } else { format!("/{}", s) };
                let r = self.lab.web().get(&path)?;
                if r.status != 200 {
                    return Err(format!("GET {}: status {}", path, r.status));
                }
                files.push(format!("{}:{}", js(&path), js(r.text())));
            }
            let j = page.ask(&format!("{{\"cmd\":\"load\",\"html\":{},\"files\":{{{}}}}}", js(&html), files.join(",")));
            let missing = texts(j.field("ids"));
            if !missing.is_empty() {
                panic!("the page has no {:?}: this check does not know its controls", missing);
            }
            let mut lists = texts(j.field("lists"));
            lists.sort();
            let mut want: Vec<String> = self.lab.lists.iter().map(|l| l.0.clone()).collect();
            want.sort();
            if lists != want {
                return Err(format!("the lists to choose from are {:?}, the server has {:?}, {:?}", lists, want, texts(j.field("errors"))));
            }
            self.examples = texts(j.field("examples"));
            self.controls = j.field("controls").cloned();
            self.page = Some(page);
        }
        Ok(self.page.as_mut().unwrap())
    }
    /// What the server sends to what the page asks, after a look at what is asked.
    fn reply(&mut self, need: &Json) -> Result<String, String> {
        let get = |k: &str| need.field("controls").and_then(|c| c.field(k)).and_then(text).unwrap_or_default();
        let sent = need.field("sent").and_then(text).ok_or("the request is no text")?;
        let mut meant = format!("#dict {}\n#words {}\n#limit {}\n{}", get("list"), get("words"), get("limit"), get("input"));
        if !get("custom").is_empty() {
            meant += &format!("\n#wordlist\n{}", get("custom"));
        }
        let show = |q: &str| match noodle::parser::QueryAst::new_from_str(q) {
            Err(_) => "an error".to_string(),
            Ok(a) => format!(
                "expressions {:?}, list {:?}, words {:?}, limit {:?}, custom list {:?}",
                a.expressions,
                a.options.dictionary,
                a.options.max_words,
                a.options.results_limit,
                a.options.wordlist.map(|l| l.iter().map(|w| w.text.to_string()).collect::<Vec<_>>())
            ),
        };
        if show(&sent) != show(&meant) {
            return Err(format!("asks {:?} with the settings {:?}: means {}, not {}", sent, meant, show(&sent), show(&meant)));
        }
        if let Some(e) = need.field("example").and_then(text) {
            let (a, b) = (noodle::parser::QueryAst::new_from_str(&sent), noodle::parser::QueryAst::new_from_str(&e));
            let same = match (&a, &b) {
                (Ok(a), Ok(b)) => a.expressions == b.expressions,
                _ => false,
            };
            if !same {
                return Err(format!("the example {:?} asks {:?}", e, sent));
            }
        }
        let (answers, _) = self.lab.library(&meant, &get("list"), None);
        let answers = answers.unwrap_or_default();
        let r = (|| {
            let mut ws = Ws::open(self.lab.web())?;
            ws.text(&sent)?;
            let (mut frames, mut n) = (vec![], 0);
            loop {
                match ws.next()? {
                    Event::Close | Event::End(_) => break,
                    e => {
                        if let Event::Match(p) = &e {
                            if answers.get(n) != Some(p) {
                                return Err(format!("{:?}: the server's answer {} is {:?}, the library's {:?}", sent, n, p, answers.get(n)));
                            }
                            n += 1;
                        }
                        frames.push(ws.raw.clone())
                    }
                }
            }
            if n != answers.len() {
                return Err(format!("{:?}: the server gives {} of {} answers", sent, n, answers.len()));
            }
            Ok(frames)
        })();
        let frames = match r {
            Ok(f) => f,
            Err(e) => {
                self.lab.judge(Err(e))?;
                unreachable!()
            }
        };
        let answers: Vec<String> = answers
            .iter()
            .map(|p| {
                let t = p.iter().map(|w| w.0.as_str()).collect::<Vec<_>>().join(" ");
                format!("{{\"text\":{},\"score\":{}}}", js(&t), p.iter().map(|w| w.1 as f64).sum::<f64>() / (p.len() as f64).sqrt())
            })
            .collect();
        Ok(format!("{{\"frames\":{},\"answers\":[{}]}}", list(&frames), answers.join(",")))
    }
    fn explore(&mut self, ctx: &mut Ctx, root: &Root, first: &[String]) -> Result<(), String> {
        self.open()?;
        loop {
            let page = self.page.as_mut().unwrap();
            let known: Vec<String> = page.known.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            let command = format!(
                "{{\"cmd\":\"explore\",\"hash\":{},\"setup\":{},\"first\":{},\"alphabet\":{},\"depth\":{},\"known\":{{{}}}}}",
                js(&root.hash),
                list(&root.setup),
                list(first),
                list(&root.alphabet),
                root.depth,
                known.join(",")
            );
            let j = page.ask(&command);
            if let Some(need) = j.field("need") {
                let key = need.field("key").and_then(text).unwrap();
                let v = self.reply(need)?;
                self.page.as_mut().unwrap().known.push((key, v));
                continue;
            }
            for k in ["states", "transitions", "traces"] {
                ctx.count(k, number(j.field(k)));
            }
            for o in texts(j.field("outcomes")) {
                ctx.outcome(&o);
            }
            return match j.field("error").and_then(text) {
                Some(e) => Err(e),
                None => Ok(()),
            };
        }
    }
}

/// (The page's files only: no links, nothing that is executed.)
fn copy(from: &std::path::Path, to: &std::path::Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to.join(e.file_name()));
        } else {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}

struct Root {
    hash: String,
    setup: Vec<String>,
    alphabet: Vec<String>,
    depth: usize,
}

fn strs(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}

thread_local!(static ALL: RefCell<All> = RefCell::new(All::new()));

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let extra = th as usize;
    let asked = |q: &str| vec![format!("input {}", q), "query".into()];
    let root = |setup: Vec<String>, alphabet: &[&str], depth: usize| Root { hash: String::new(), setup, alphabet: strs(alphabet), depth };
    let mut roots: Vec<Root> = vec![];
    // connections
    roots.push(root(strs(&["input [ab]+"]), &["query", "stop", "open", "refuse", "drop", "match", "end", "late", "input z.*"], 5 + extra));
    // answers, and how they are shown
    for (q, more) in [("[ab]+", None), (".*", Some("list other"))] {
        let mut setup: Vec<String> = more.iter().map(|s| s.to_string()).collect();
        setup.extend(asked(q));
        setup.extend(strs(&["open", "match", "match"]));
        roots.push(root(setup, &["match", "end", "sort", "filter", "filter b$", "filter ^a", "filter qq", "filter (", "copy", "stop", "query", "open"], 4 + extra));
    }
    // settings
    roots.push(root(
        strs(&["input [abz]+"]),
        &[
            "words 2", "words 10", "limit 3", "limit 300", "list other", "list default", "custom x\nab\nq w", "custom ", "input ab.*\n...", "input #limit 2\n.*", "input ((", "query", "ctrl-enter", "enter",
            "open", "end", "example 0", "example 4",
        ],
        3 + extra,
    ));
    for root in &roots {
        let mut firsts: Vec<Vec<String>> = vec![];
        for a in &root.alphabet {
            for b in &root.alphabet {
                firsts.push(vec![a.clone(), b.clone()]);
            }
        }
        for f in firsts {
            ctx.case(
                || format!("after {:?}: every sequence of {} actions that begins with {:?}", root.setup, root.depth, f),
                |ctx| {
                    ALL.with(|a| {
                        let a = &mut *a.borrow_mut();
                        a.explore(ctx, root, &f)
                    })
                },
            );
        }
    }
    // every example of the page
    let n = ALL.with(|a| a.borrow_mut().open().map(|_| ()).map(|_| 0)).is_ok();
    let n = if n { ALL.with(|a| a.borrow().examples.len()) } else { 0 };
    for i in 0..n {
        let setup = vec!["words 2".to_string(), format!("example {}", i), "open".into(), "end".into(), "sort".into(), "copy".into(), "query".into(), "open".into(), "match".into()];
        let root = Root { hash: String::new(), setup, alphabet: vec![], depth: 0 };
        ctx.case(|| format!("{:?}", root.setup), |ctx| ALL.with(|a| a.borrow_mut().explore(ctx, &root, &[])));
    }
    // texts of every kind, as queries, as words and in the page's address
    const TEXTS: &[&str] = &[
        "R&B", "c++", "a#b", "a/b", "a?b", "100%", "%41", "%", "a=b", "a;b", "a:b", "<b>x</b>", "&lt;b", "\"q\"", "it's", "a\\b", "\u{e9}t\u{e9}", "\u{3c0}", "\u{1f600}s", "a b", "  a  b", "{x}", "[x", "a|b", "a^b", "a`b", "@x", "$x", "a,b", "a~b", "a!b", "(x)", "*x", "a\u{a0}b",
    ];
    for t in TEXTS {
        let end = ["query", "open", "end"];
        let mut cases: Vec<(String, Vec<String>)> = vec![];
        let mut one = vec![format!("custom {}\nab", t), "input .*".into()];
        one.extend(strs(&end));
        cases.push((String::new(), one.clone()));
        let mut two = vec![format!("custom {}\nab", t), "input .* !'".into(), "words 2".into()];
        two.extend(strs(&end));
        cases.push((String::new(), two));
        let mut three = vec![format!("input [ab]+ // {}", t)];
        three.extend(strs(&end));
        cases.push((String::new(), three));
        let mut four = vec![format!("input {}", t)];
        four.extend(strs(&end));
        cases.push((String::new(), four));
        // (an address somebody typed)
        let mut five = vec!["input [ab]+".to_string()];
        five.extend(strs(&end));
        cases.push((format!("#{}", t), five));
        for (hash, setup) in cases {
            let root = Root { hash, setup, alphabet: vec![], depth: 0 };
            ctx.case(
                || format!("address {:?}, {:?}", root.hash, root.setup),
                |ctx| ALL.with(|a| a.borrow_mut().explore(ctx, &root, &[])),
            );
        }
    }
}
