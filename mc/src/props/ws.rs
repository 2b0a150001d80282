//! C18: the websocket protocol, under every order of the actions of concurrent clients.

use super::http::{files, list_of, orders};
use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "50 queries alone (one with 9000 answers), each with disconnection after every number of messages up to 12 in 4 ways; all pairs of 22 client scripts of \
                       2..4 actions, in every order of the actions (70 at most); each followed by a query of a third client and a look at the gauge; queries of \
                       8 to 300 and up to 1,000,000 bytes, 0 to 320 answers, phrases of up to 40 words, 1 to 48 clients",
        bounds_thorough: "as quick, with disconnection after every number of messages up to 40; all triples of 9 scripts in every order of the actions",
        assumptions: &[
            "the order in which the server's threads run between two actions of clients is not controlled",
            "the network delivers at once (loopback, with small buffers)",
        ],
    }
}

/// What one client has seen of a websocket query.
#[derive(Default, Debug)]
pub struct Seen {
    pub statuses: Vec<String>,
    pub logs: Vec<String>,
    pub matches: Vec<Vec<(String, u32)>>,
    /// the last message was a status
    ends_with_status: bool,
    /// Some(true) after a proper close, Some(false) at the end of the stream
    pub end: Option<bool>,
    how: String,
}

impl Seen {
    pub fn add(&mut self, e: Event) -> Result<(), String> {
        if self.end.is_some() {
            return match e {
                Event::End(_) => Ok(()),
                e => Err(format!("{:?} after the close", e)),
            };
        }
        self.ends_with_status = match e {
            Event::Status(s) => {
                self.statuses.push(s);
                true
            }
            Event::Log(s) => {
                self.logs.push(s);
                false
            }
            Event::Match(p) => {
                self.matches.push(p);
                false
            }
            Event::Close => {
                self.end = Some(true);
                self.ends_with_status
            }
            Event::End(e) => {
                self.how = e;
                self.end = Some(false);
                self.ends_with_status
            }
        };
        Ok(())
    }
    /// How many messages.
    pub fn len(&self) -> usize {
        self.statuses.len() + self.logs.len() + self.matches.len()
    }
    pub fn prefix_of(&self, a: &Answers) -> Result<(), String> {
        let none = vec![];
        let want = a.as_ref().unwrap_or(&none);
        match self.matches.iter().enumerate().find(|(i, m)| want.get(*i) != Some(m)) {
            None => Ok(()),
            Some((i, m)) => Err(format!("answer {} is {:?}, expected {:?}", i, m, want.get(i))),
        }
    }
    /// The whole protocol of a query.
    pub fn complete(&self, a: &Answers, closing: &str) -> Result<(), String> {
        self.prefix_of(a)?;
        // (the library below loses the closing frame if the network takes nothing at that moment;
        // the end of the stream says the same)
        if self.end.is_none() {
            return Err(format!("no close after {} messages", self.len()));
        }
        match a {
            Err(e) => {
                if !self.matches.is_empty() || !self.logs.contains(e) || !self.statuses.iter().any(|s| s.contains("error")) {
                    return Err(format!("a query with an error: {:?}, expected {:?}", self, e));
                }
            }
            Ok(want) => {
                if self.matches.len() != want.len() {
                    return Err(format!("{} of {} answers: {}, last {:?}", self.matches.len(), want.len(), self.how, self.statuses.last()));
                }
                if !self.ends_with_status || !self.statuses.last().map_or(false, |s| s.starts_with(closing)) {
                    return Err(format!("the last message is no status {:?}: {:?}", closing, self.statuses));
                }
                if self.statuses.iter().filter(|s| s.starts_with(closing)).count() != 1 {
                    return Err(format!("not one final status {:?}", self.statuses));
                }
            }
        }
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Act {
    Open,
    Text(&'static str),
    /// the same, as three fragments of a message
    Parts(&'static str),
    /// the frame in two pieces: the first one
    Half(&'static str),
    Rest(&'static str),
    Binary,
    Ping,
    /// reads so many messages
    Read(usize),
    /// reads to the end
    All,
    Close,
    Shut,
    Fin,
    Reset,
    /// a frame no client may send
    Bad(u8),
    /// a handshake that never ends
    HalfOpen,
    /// a plain request, and its answer
    Ask(&'static str),
    Told,
    Idle,
}
use Act::*;

const PLAIN: &str = ".{1,4}";
/// More than the server and the network take in without the client's reading.
const LONG: &str = "#dict long;#limit 1000;.*";
/// Thousands of answers.
const VERY_LONG: &str = "#dict many;#words 1;#limit 9000;....";
const NONE: &str = "#dict many;.{8}a.*;.{8}b.*;#words 4";
const WRONG: &str = "((a)";

fn scripts() -> Vec<(&'static str, Vec<Act>)> {
    vec![
        ("reads everything", vec![Open, Text(PLAIN), Read(3), All]),
        ("reads a lot, late", vec![Open, Text(LONG), Read(5), All]),
        ("sends a parse error", vec![Open, Text(WRONG), All]),
        ("sends a fragmented query", vec![Open, Parts("ab.*"), All]),
        ("sends a query in two pieces", vec![Open, Half("ab.*"), Rest("ab.*"), All]),
        ("sends a second query", vec![Open, Text(LONG), Text("zz"), All]),
        ("sends a ping", vec![Open, Text(LONG), Ping, All]),
        ("sends binary data later", vec![Open, Text(LONG), Binary, All]),
        ("closes", vec![Open, Text(LONG), Read(4), Close]),
        ("closes and reads on", vec![Open, Text(LONG), Close, All]),
        ("ends the stream", vec![Open, Text(LONG), Read(4), Fin]),
        ("ends the stream at once", vec![Open, Text(PLAIN), Fin]),
        ("resets", vec![Open, Text(LONG), Read(2), Reset]),
        ("ends its half", vec![Open, Text(LONG), Shut, All]),
        ("sends binary data", vec![Open, Binary, All]),
        ("closes without a query", vec![Open, Close, All]),
        ("resets without a query", vec![Open, Reset]),
        ("sends a malformed frame", vec![Open, Bad(0), All]),
        ("sends a malformed frame later", vec![Open, Text(LONG), Bad(1), All]),
        ("gives up in the handshake", vec![HalfOpen, Idle, Reset]),
        ("asks by HTTP", vec![Ask(PLAIN), Idle, Told]),
        ("leaves a long search", vec![Open, Text(NONE), Read(3), Reset]),
    ]
}

struct Client<'a> {
    script: &'a [Act],
    at: usize,
    ws: Option<Ws>,
    http: Option<Conn>,
    seen: Seen,
    query: Option<&'static str>,
    /// the client has done something that may end the query early
    broken: bool,
    /// the client has sent more than its query
    extra: bool,
}

impl<'a> Client<'a> {
    fn new(script: &'a [Act]) -> Client<'a> {
        Client { script, at: 0, ws: None, http: None, seen: Seen::default(), query: None, broken: false, extra: false }
    }
    /// Performs the next action. Only what a client receives is judged: a send to a server which has ended the connection may fail.
    fn act(&mut self, lab: &mut Lab) -> Result<(), String> {
        let a = self.script[self.at].clone();
        self.at += 1;
        let broken = self.broken;
        let must = |r: Result<(), String>| if broken { Ok(()) } else { r };
        match a {
            Open => self.ws = Some(Ws::open(lab.web())?),
            HalfOpen => {
                let mut c = lab.web().connect()?;
                c.send(&HANDSHAKE.as_bytes()[..100])?;
                self.http = Some(c);
            }
            Text(q) => {
                // (a client may write no more than the server will take; what was sent too late does not matter)
                if self.query.is_none() {
                    self.query = Some(q);
                    must(self.ws.as_mut().unwrap().text(q))?;
                } else {
                    self.extra = true;
                    let _ = self.ws.as_mut().unwrap().text(q);
                }
            }
            Parts(q) => {
                self.query = Some(q);
                let (x, y) = q.split_at(2);
                let f = [frame(false, 1, x.as_bytes()), frame(false, 0, b""), frame(true, 0, y.as_bytes())].concat();
                must(self.ws.as_mut().unwrap().conn.send(&f))?;
            }
            Half(q) => must(self.ws.as_mut().unwrap().conn.send(&frame(true, 1, q.as_bytes())[..7]))?,
            Rest(q) => {
                self.query = Some(q);
                must(self.ws.as_mut().unwrap().conn.send(&frame(true, 1, q.as_bytes())[7..]))?
            }
            Binary => {
                self.broken |= self.query.is_none();
                self.extra = true;
                let _ = self.ws.as_mut().unwrap().conn.send(&frame(true, 2, b"\x00\xff\x01"));
            }
            Ping => {
                self.extra = true;
                let _ = self.ws.as_mut().unwrap().conn.send(&frame(true, 9, b"hello"));
            }
            Read(n) => {
                for _ in 0..n {
                    let e = self.ws.as_mut().unwrap().next()?;
                    self.seen.add(e)?;
                    if self.seen.end.is_some() {
                        break;
                    }
                }
            }
            All => {
                while self.seen.end.is_none() {
                    let e = self.ws.as_mut().unwrap().next()?;
                    self.seen.add(e)?;
                }
                if self.seen.end == Some(true) && !self.broken {
                    let _ = self.ws.as_mut().unwrap().conn.send(&frame(true, 8, b""));
                }
            }
            Close => {
                self.broken = true;
                let _ = self.ws.as_mut().unwrap().conn.send(&frame(true, 8, b"\x03\xe8"));
            }
            Shut => {
                self.broken = true;
                self.ws.as_mut().unwrap().conn.half_close();
            }
            Fin => {
                self.broken = true;
                self.ws = None;
                self.http = None;
            }
            Reset => {
                self.broken = true;
                if let Some(w) = self.ws.take() {
                    w.conn.reset();
                }
                if let Some(c) = self.http.take() {
                    c.reset();
                }
            }
            Bad(k) => {
                self.broken = true;
                let f: &[u8] = [
                    &b"\xff\x85\x00\x00\x00\x00abcde"[..],   // reserved bits, unknown kind
                    &b"\x81\x02ab"[..],                      // not masked
                ][k as usize];
                let _ = self.ws.as_mut().unwrap().conn.send(f);
            }
            Ask(q) => {
                let mut c = lab.web().connect()?;
                c.send(&post("/query", q.as_bytes()))?;
                self.query = Some(q);
                self.http = Some(c);
            }
            Told => {
                let r = self.http.as_mut().unwrap().reply()?;
                for l in r.text().lines() {
                    match message(l) {
                        Some(Event::Match(p)) => self.seen.matches.push(p),
                        _ => return Err(format!("a line {:?}", l)),
                    }
                }
                let (want, _) = lab.library(self.query.unwrap(), "default", None);
                if Ok(&self.seen.matches) != want.as_ref() {
                    return Err(format!("answers {:?}, expected {:?}", self.seen.matches, want));
                }
            }
            Idle => {}
        }
        Ok(())
    }
    fn judge(&mut self, lab: &mut Lab) -> Result<(), String> {
        if self.http.is_some() {
            return Ok(());
        }
        match self.query {
            Some(q) => {
                let list = list_of(q);
                if q == NONE {
                    return if self.seen.matches.is_empty() { Ok(()) } else { Err("an answer to a query without answers".into()) };
                }
                let (a, closing) = lab.library(q, list, None);
                // (what a client sends after the server is done makes the network drop what it has not read)
                let dropped = self.extra && self.seen.how.contains("reset by peer");
                if self.broken || dropped {
                    self.seen.prefix_of(&a)
                } else {
                    self.seen.complete(&a, &closing)
                }
            }
            None if self.seen.matches.is_empty() => Ok(()),
            None => Err("answers without a query".into()),
        }
    }
}

/// A third client is served, the gauge returns to zero.
pub fn healthy(lab: &mut Lab) -> Result<(), String> {
    let mut w = Ws::open(lab.web())?;
    w.text("ab.*")?;
    let mut seen = Seen::default();
    while seen.end.is_none() {
        seen.add(w.next()?)?;
    }
    let (a, closing) = lab.library("ab.*", "default", None);
    seen.complete(&a, &closing).map_err(|e| format!("the next client: {}", e))?;
    lab.web().settle(0).map(|_| ())
}

fn run_order(ctx: &mut Ctx, lab: &mut Lab, scripts: &[&[Act]], order: &[usize]) -> Result<(), String> {
    let mut clients: Vec<Client> = scripts.iter().map(|s| Client::new(s)).collect();
    for &who in order {
        let c = &mut clients[who];
        let act = format!("{:?}", c.script[c.at]);
        c.act(lab).map_err(|e| format!("client {} at {}, order {:?}: {}", who, act, order, e))?;
        ctx.count("states", 1);
        ctx.count("transitions", 1);
    }
    ctx.count("traces", 1);
    for (who, c) in clients.iter_mut().enumerate() {
        ctx.outcome(&(c.seen.matches.len(), c.seen.statuses.len() > 4, c.seen.end));
        c.judge(lab).map_err(|e| format!("client {}, order {:?}: {}", who, order, e))?;
    }
    drop(clients);
    healthy(lab).map_err(|e| format!("after the order {:?}: {}", order, e))
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let lab = RefCell::new(Lab::new(files(), 1));
    lab.borrow_mut().small_buffers = true;
    // every query alone
    let more = ["#dict other;.*b", "#dict packed;.*", "#dict empty;.*", "#dict unknown;ab.*", LONG, VERY_LONG, "#limit 299;.{1,5}", "\"", "\\", "\u{1}",
        "#dict odd;ab;#words 1;#limit 1000", "#dict odd;abab;#words 2;#limit 500", "a*b;#wordlist;a\"b;a\\b;a\\\"b;\"ab\";<ab>;a\u{2028}b;a\u{8}b"];
    for q in super::cli::QUERIES.iter().copied().filter(|q| *q != "#dict other;ab").chain(more) {
        ctx.case(
            || format!("the query {:?} alone", q),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let list = list_of(q);
                let (a, closing) = lab.library(q, list, None);
                let r = (|| {
                    let mut w = Ws::open(lab.web())?;
                    w.text(q)?;
                    let mut seen = Seen::default();
                    while seen.end.is_none() {
                        seen.add(w.next()?)?;
                    }
                    seen.complete(&a, &closing)?;
                    let total = seen.len();
                    ctx.count("states", total as u64);
                    ctx.count("transitions", total as u64);
                    ctx.count("traces", 1);
                    ctx.outcome(&seen.matches);
                    // leaving after every number of messages, in every way
                    for k in 0..=total.min(if th { 40 } else { 12 }) {
                        for (way, last) in [Fin, Reset, Close, Shut].iter().enumerate() {
                            let script = [Open, Text(Box::leak(q.to_string().into_boxed_str())), Read(k), last.clone()];
                            let mut c = Client::new(&script);
                            while c.at < script.len() {
                                c.act(&mut lab).map_err(|e| format!("leaving after {} messages, way {}: {}", k, way, e))?;
                                ctx.count("transitions", 1);
                            }
                            c.seen.prefix_of(&a)?;
                            ctx.count("states", 1);
                            ctx.count("traces", 1);
                        }
                    }
                    healthy(&mut lab)
                })();
                lab.judge(r)
            },
        );
    }
    grow(ctx, &lab);
    let s = scripts();
    for a in 0..s.len() {
        for b in a..s.len() {
            ctx.case(
                || format!("two clients, one {}, one {}", s[a].0, s[b].0),
                |ctx| {
                    let mut lab = lab.borrow_mut();
                    for order in orders(&[s[a].1.len(), s[b].1.len()]) {
                        let r = run_order(ctx, &mut lab, &[&s[a].1, &s[b].1], &order);
                        lab.judge(r)?;
                    }
                    Ok(())
                },
            );
        }
    }
    if th {
        let pick = [0, 1, 2, 5, 8, 10, 12, 18, 20];
        for (i, &a) in pick.iter().enumerate() {
            for (j, &b) in pick.iter().enumerate().skip(i) {
                for &c in &pick[j..] {
                    ctx.case(
                        || format!("three clients, one {}, one {}, one {}", s[a].0, s[b].0, s[c].0),
                        |ctx| {
                            let mut lab = lab.borrow_mut();
                            let t: Vec<Vec<Act>> = [a, b, c].iter().map(|&k| s[k].1.iter().filter(|x| !matches!(x, Idle | Read(_))).cloned().collect()).collect();
                            for order in orders(&[t[0].len(), t[1].len(), t[2].len()]) {
                                let r = run_order(ctx, &mut lab, &[&t[0], &t[1], &t[2]], &order);
                                lab.judge(r)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

/// One query, whole.
fn whole(ctx: &mut Ctx, lab: &mut Lab, q: &str) -> Result<usize, String> {
    let (a, closing) = lab.library(q, list_of(q), None);
    let mut w = Ws::open(lab.web())?;
    w.text(q)?;
    let mut seen = Seen::default();
    while seen.end.is_none() {
        seen.add(w.next()?)?;
    }
    seen.complete(&a, &closing)?;
    ctx.count("states", seen.len() as u64);
    ctx.count("transitions", seen.len() as u64);
    ctx.count("traces", 1);
    ctx.outcome(&seen.matches.len());
    Ok(seen.matches.len())
}

/// Texts, numbers of answers and numbers of clients, of growing size.
fn grow(ctx: &mut Ctx, lab: &RefCell<Lab>) {
    let sizes = (8..=300).chain([1_000, 4_095, 4_096, 4_097, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000, 131_072, 262_144, 500_000, 1_000_000]);
    for n in sizes {
        ctx.case(
            || format!("queries of {} bytes", n),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let comment = format!("ab.*//{}", "x".repeat(n - 6));
                let words: String = format!("b.*;#wordlist{}", (0..n / 5).map(|i| format!("\nb{}", ["aa", "ab", "za", "zz"][i % 4])).collect::<String>());
                let wrong = format!("/*{}*/(", "é".repeat((n - 5) / 2));
                let r = whole(ctx, &mut lab, &comment).and_then(|_| whole(ctx, &mut lab, &words)).and_then(|_| whole(ctx, &mut lab, &wrong)).and_then(|_| healthy(&mut lab));
                lab.judge(r)
            },
        );
    }
    for n in 0..=320usize {
        ctx.case(
            || format!("{} answers", n),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let r = (|| {
                    for q in [format!("#dict many;#limit {};.{{4}}", n), format!("#dict long;.*x;.*;#limit {}", n)] {
                        whole(ctx, &mut lab, &q)?;
                    }
                    // phrases of so many words
                    if n <= 40 {
                        let k = whole(ctx, &mut lab, &format!("#dict packed;#words {};({})", n, "zig".repeat(n.max(1))))?;
                        if n > 0 && k != 1 {
                            return Err(format!("{} phrases of {} words", k, n));
                        }
                    }
                    healthy(&mut lab)
                })();
                lab.judge(r)
            },
        );
    }
    for n in (1..=24usize).chain([32, 48]) {
        ctx.case(
            || format!("{} clients, each reading one message at a time", n),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let r = (|| {
                    let queries: Vec<String> = (0..n).map(|i| if i % 3 == 2 { LONG.to_string() } else { format!("#limit {};{}.*", i + 2, ["a", "b", ""][i % 3]) }).collect();
                    let mut clients = vec![];
                    for q in &queries {
                        let mut w = Ws::open(lab.web())?;
                        w.text(q)?;
                        clients.push((w, Seen::default()));
                    }
                    // some leave early
                    let leave = |i: usize| n > 3 && i % 4 == 3;
                    let mut round = 0;
                    while clients.iter().enumerate().any(|(i, c)| c.1.end.is_none() && !(leave(i) && round > 6)) {
                        round += 1;
                        for (i, c) in clients.iter_mut().enumerate() {
                            if c.1.end.is_none() && !(leave(i) && round > 6) {
                                let e = c.0.next()?;
                                c.1.add(e)?;
                                ctx.count("transitions", 1);
                            }
                        }
                    }
                    for (i, (w, seen)) in clients.into_iter().enumerate() {
                        let (a, closing) = lab.library(&queries[i], list_of(&queries[i]), None);
                        if leave(i) {
                            w.conn.reset();
                            seen.prefix_of(&a)
                        } else {
                            seen.complete(&a, &closing)
                        }
                        .map_err(|e| format!("client {}: {}", i, e))?;
                        ctx.count("states", 1);
                    }
                    ctx.count("traces", 1);
                    healthy(&mut lab)
                })();
                lab.judge(r)
            },
        );
    }
}
