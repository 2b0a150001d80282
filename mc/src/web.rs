//! The real web server as a child process on the loopback network, and the clients that drive it.

use crate::scratch::Scratch;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const u8, len: u32) -> i32;
}

/// How long an answer may take before it counts as missing.
pub const PATIENCE: Duration = Duration::from_secs(60);

pub struct Web {
    child: Child,
    pub port: u16,
    dir: std::path::PathBuf,
}

impl Web {
    /// `lists` is the directory of word lists.
    pub fn start(lists: &std::path::Path, speed: u32, small_buffers: bool) -> Web {
        let dir = lists.parent().unwrap().to_path_buf();
        for _ in 0..20 {
            let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
            let mut cmd = Command::new("/verif/target/repo/debug/noodle-webapp");
            cmd.arg(lists)
                .current_dir(&dir)
                .env("LD_PRELOAD", "/verif/target/shim.so")
                .env("NOODLE_PORT", port.to_string())
                .env("NOODLE_SPEED", speed.to_string())
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(dir.join("stderr")).unwrap());
            if small_buffers {
                cmd.env("NOODLE_SNDBUF", "16384");
            }
            unsafe {
                cmd.pre_exec(|| {
                    prctl(1, 9, 0, 0, 0);
                    Ok(())
                });
            }
            let mut web = Web { child: cmd.spawn().expect("the web server's program"), port, dir: dir.clone() };
            let begin = Instant::now();
            while web.alive() && begin.elapsed() < PATIENCE {
                if TcpStream::connect(("127.0.0.1", port)).is_ok() && web.alive() {
                    return web;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        panic!("the web server does not start");
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn last_words(&self) -> String {
        let s = std::fs::read_to_string(self.dir.join("stderr")).unwrap_or_default();
        s.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")
    }
    pub fn connect(&self) -> Result<Conn, String> {
        Conn::new(self.port)
    }
    /// One request on a connection of its own.
    pub fn request(&self, raw: &[u8]) -> Result<Reply, String> {
        let mut c = self.connect()?;
        c.send(raw)?;
        c.reply()
    }
    pub fn get(&self, path: &str) -> Result<Reply, String> {
        self.request(&get(path))
    }
    /// (active, total), from the metrics.
    pub fn gauges(&self) -> Result<(u64, u64), String> {
        let r = self.get("/metrics")?;
        let find = |name: &str| {
            let mut it = r.text().lines().filter_map(|l| l.strip_prefix(name)?.strip_prefix(' ')?.trim().parse::<i128>().ok()).collect::<Vec<_>>().into_iter();
            it.next().filter(|n| *n >= 0 && *n < 1 << 63).map(|n| n as u64).ok_or_else(|| format!("no sensible {} in the metrics: {:?}", name, r.text()))
        };
        if r.status != 200 {
            return Err(format!("metrics: status {}", r.status));
        }
        Ok((find("noodle_queries_active")?, find("noodle_queries_total")?))
    }
    /// Waits for the number of active queries to become this.
    pub fn settle(&self, active: u64) -> Result<u64, String> {
        let begin = Instant::now();
        let mut pause = 1;
        loop {
            match self.gauges() {
                Ok((a, total)) if a == active => return Ok(total),
                Err(e) if begin.elapsed() > PATIENCE => return Err(e),
                Err(e) if e.starts_with("no sensible") => return Err(e),
                Ok((a, _)) if begin.elapsed() > PATIENCE => {
                    return Err(format!("{} active queries where {} are running, for {} s", a, active, PATIENCE.as_secs()))
                }
                _ => {}
            }
            std::thread::sleep(Duration::from_millis(pause));
            pause = (pause * 2).min(50);
        }
    }
}

impl Drop for Web {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn get(path: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: localhost\r\n\r\n", path).into_bytes()
}
pub fn post(path: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("POST {} HTTP/1.1\r\nHost: localhost\r\nContent-Length: {}\r\n\r\n", path, body.len()).into_bytes();
    v.extend(body);
    v
}
pub fn percent(s: &[u8], keep: impl Fn(usize, u8) -> bool, upper: bool) -> String {
    s.iter()
        .enumerate()
        .map(|(i, &b)| match (keep(i, b), upper) {
            (true, _) => (b as char).to_string(),
            (_, true) => format!("%{:02X}", b),
            _ => format!("%{:02x}", b),
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Reply {
    pub status: u16,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn text(&self) -> &str {
        std::str::from_utf8(&self.body).unwrap_or("(not text)")
    }
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    at: usize,
}

impl Conn {
    fn new(port: u16) -> Result<Conn, String> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_nodelay(true).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(PATIENCE)).unwrap();
        s.set_write_timeout(Some(PATIENCE)).unwrap();
        Ok(Conn { s, buf: vec![], at: 0 })
    }
    pub fn send(&mut self, b: &[u8]) -> Result<(), String> {
        self.s.write_all(b).map_err(|e| format!("cannot send: {}", e))
    }
    /// false at the end of the stream
    fn fill(&mut self) -> Result<bool, String> {
        if self.at > 0 && self.at == self.buf.len() {
            self.buf.clear();
            self.at = 0;
        }
        let mut b = [0u8; 16384];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend(&b[..n]);
                Ok(true)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                Err(format!("no answer within {} s", PATIENCE.as_secs()))
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(true),
            Err(e) => Err(format!("connection broken: {}", e)),
        }
    }
    /// None at the end of the stream
    fn take(&mut self, n: usize) -> Result<Option<Vec<u8>>, String> {
        while self.buf.len() - self.at < n {
            if !self.fill()? {
                return Ok(None);
            }
        }
        let v = self.buf[self.at..self.at + n].to_vec();
        self.at += n;
        Ok(Some(v))
    }
    fn line(&mut self) -> Result<String, String> {
        let mut v = vec![];
        loop {
            match self.take(1)? {
                None => return Err("the connection ended in the middle of a response".into()),
                Some(b) if b[0] == b'\n' => break,
                Some(b) => v.push(b[0]),
            }
        }
        if v.last() == Some(&b'\r') {
            v.pop();
        }
        String::from_utf8(v).map_err(|e| e.to_string())
    }
    fn head(&mut self) -> Result<(u16, Vec<(String, String)>), String> {
        let l = self.line()?;
        let status = l
            .strip_prefix("HTTP/1.1 ")
            .and_then(|l| l.get(..3))
            .and_then(|s| s.parse().ok())
            .ok_or_else(|| format!("not a response: {:?}", l))?;
        let mut h = vec![];
        loop {
            let l = self.line()?;
            if l.is_empty() {
                return Ok((status, h));
            }
            let (k, v) = l.split_once(':').ok_or_else(|| format!("not a header: {:?}", l))?;
            h.push((k.trim().to_lowercase(), v.trim().to_string()));
        }
    }
    pub fn reply(&mut self) -> Result<Reply, String> {
        let (status, h) = self.head()?;
        let find = |k: &str| h.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let cut = || "the connection ended in the middle of a response".to_string();
        let mut body = vec![];
        if find("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
            loop {
                let l = self.line()?;
                let n = usize::from_str_radix(l.split(';').next().unwrap().trim(), 16).map_err(|_| format!("not a chunk: {:?}", l))?;
                body.extend(self.take(n)?.ok_or_else(cut)?);
                self.line()?;
                if n == 0 {
                    break;
                }
            }
        } else if let Some(n) = find("content-length") {
            let n: usize = n.parse().map_err(|_| "bad length".to_string())?;
            body = self.take(n)?.ok_or_else(cut)?;
        } else {
            while self.fill()? {}
            body.extend(&self.buf[self.at..]);
            self.at = self.buf.len();
        }
        Ok(Reply { status, body })
    }
    pub fn reset(self) {
        // SO_LINGER with no time to linger: the connection is reset
        let v: [i32; 2] = [1, 0];
        unsafe { setsockopt(self.s.as_raw_fd(), 1, 13, v.as_ptr() as *const u8, 8) };
    }
    pub fn half_close(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
}

// --- websockets ------------------------------------------------------------------------------

pub const HANDSHAKE: &str = "GET /ws HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\
                             Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";

#[derive(Debug, Clone, PartialEq)]
pub enum Event {
    Status(String),
    Log(String),
    Match(Vec<(String, u32)>),
    Close,
    /// the stream ended, with or without an error
    End(String),
}

pub struct Ws {
    pub conn: Conn,
    /// the latest message as it came
    pub raw: String,
}

pub fn frame(fin: bool, opcode: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | opcode];
    match payload.len() {
        n if n < 126 => v.push(0x80 | n as u8),
        n if n < 65536 => {
            v.push(0x80 | 126);
            v.extend((n as u16).to_be_bytes());
        }
        n => {
            v.push(0x80 | 127);
            v.extend((n as u64).to_be_bytes());
        }
    }
    let mask = [0x5a, 0x0f, 0xc3, 0x96];
    v.extend(mask);
    v.extend(payload.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    v
}

impl Ws {
    pub fn open(web: &Web) -> Result<Ws, String> {
        let mut conn = web.connect()?;
        // what is not read is not taken in without bounds
        let n: i32 = 65536;
        unsafe { setsockopt(conn.s.as_raw_fd(), 1, 8, &n as *const i32 as *const u8, 4) };
        conn.send(HANDSHAKE.as_bytes())?;
        let (status, h) = conn.head()?;
        if status != 101 {
            return Err(format!("handshake answered with status {}", status));
        }
        if !h.iter().any(|(k, v)| k == "sec-websocket-accept" && v == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
            return Err("handshake not accepted".into());
        }
        Ok(Ws { conn, raw: String::new() })
    }
    pub fn text(&mut self, s: &str) -> Result<(), String> {
        self.conn.send(&frame(true, 1, s.as_bytes()))
    }
    /// The next message (pings and pongs left out).
    pub fn next(&mut self) -> Result<Event, String> {
        let mut whole = vec![];
        let mut started = false;
        loop {
            let h = match self.conn.take(2) {
                Ok(Some(h)) => h,
                Ok(None) => return Ok(Event::End("end of stream".into())),
                Err(e) if e.starts_with("no answer") => return Err(e),
                Err(e) => return Ok(Event::End(e)),
            };
            let (fin, opcode) = (h[0] & 0x80 != 0, h[0] & 15);
            if h[0] & 0x70 != 0 || h[1] & 0x80 != 0 {
                return Err(format!("malformed frame {:?}", h));
            }
            let ext = match h[1] {
                126 => 2,
                127 => 8,
                _ => 0,
            };
            let cut = |r: Result<Option<Vec<u8>>, String>| match r {
                Ok(Some(v)) => Ok(v),
                Ok(None) => Err(Event::End("end of stream in a frame".into())),
                Err(e) => Err(Event::End(e)),
            };
            let len = match cut(self.conn.take(ext)) {
                Ok(v) if ext > 0 => v.iter().fold(0usize, |n, b| n << 8 | *b as usize),
                Ok(_) => h[1] as usize,
                Err(e) => return Ok(e),
            };
            let p = match cut(self.conn.take(len)) {
                Ok(p) => p,
                Err(e) => return Ok(e),
            };
            match opcode {
                8 => return Ok(Event::Close),
                9 | 10 => continue,
                1 if !started => whole = p,
                0 if started => whole.extend(p),
                _ => return Err(format!("unexpected frame with opcode {}", opcode)),
            }
            started = true;
            if fin {
                break;
            }
        }
        let text = String::from_utf8(whole).map_err(|e| format!("message is not text: {}", e))?;
        self.raw = text.clone();
        message(&text).ok_or_else(|| format!("message is none of a status, a log or a match: {:?}", text))
    }
}

// --- the little JSON the server speaks -------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum Json {
    Str(String),
    Num(f64),
    List(Vec<Json>),
    Map(Vec<(String, Json)>),
    Other,
}

impl Json {
    pub fn parse(s: &str) -> Option<Json> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = value(&c, &mut i)?;
        blank(&c, &mut i);
        if i == c.len() {
            Some(v)
        } else {
            None
        }
    }
    pub fn field(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Map(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
}

fn blank(c: &[char], i: &mut usize) {
    while *i < c.len() && " \t\r\n".contains(c[*i]) {
        *i += 1;
    }
}

fn value(c: &[char], i: &mut usize) -> Option<Json> {
    blank(c, i);
    match *c.get(*i)? {
        '"' => string(c, i).map(Json::Str),
        '[' | '{' => {
            let map = c[*i] == '{';
            let close = if map { '}' } else { ']' };
            let (mut list, mut pairs) = (vec![], vec![]);
            *i += 1;
            blank(c, i);
            if *c.get(*i)? == close {
                *i += 1;
            } else {
                loop {
                    blank(c, i);
                    if map {
                        let k = string(c, i)?;
                        blank(c, i);
                        if *c.get(*i)? != ':' {
                            return None;
                        }
                        *i += 1;
                        pairs.push((k, value(c, i)?));
                    } else {
                        list.push(value(c, i)?);
                    }
                    blank(c, i);
                    *i += 1;
                    match *c.get(*i - 1)? {
                        ',' => {}
                        x if x == close => break,
                        _ => return None,
                    }
                }
            }
            Some(if map { Json::Map(pairs) } else { Json::List(list) })
        }
        ch if ch == '-' || ch.is_ascii_digit() => {
            let from = *i;
            while *i < c.len() && "+-.eE0123456789".contains(c[*i]) {
                *i += 1;
            }
            c[from..*i].iter().collect::<String>().parse().ok().map(Json::Num)
        }
        _ => {
            for w in ["true", "false", "null"] {
                if c[*i..].iter().take(w.len()).collect::<String>() == w {
                    *i += w.len();
                    return Some(Json::Other);
                }
            }
            None
        }
    }
}

fn string(c: &[char], i: &mut usize) -> Option<String> {
    if *c.get(*i)? != '"' {
        return None;
    }
    *i += 1;
    let mut o = vec![];
    loop {
        let ch = *c.get(*i)?;
        *i += 1;
        match ch {
            '"' => return String::from_utf16(&o).ok(),
            '\\' => {
                let e = *c.get(*i)?;
                *i += 1;
                match e {
                    'u' => {
                        let h: String = c.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        o.push(u16::from_str_radix(&h, 16).ok()?);
                    }
                    _ => {
                        let at = "\"\\/bfnrt".find(e)?;
                        o.push("\"\\/\u{8}\u{c}\n\r\t".chars().nth(at)? as u16);
                    }
                }
            }
            ch if (ch as u32) < 0x20 => return None,
            ch => o.extend(ch.encode_utf16(&mut [0; 2]).iter()),
        }
    }
}

/// A match is a list of words, each with its text and score.
fn words_of(v: &Json) -> Option<Vec<(String, u32)>> {
    match v.field("phrase")? {
        Json::List(l) => l
            .iter()
            .map(|w| match (w.field("text")?, w.field("score")?) {
                (Json::Str(t), Json::Num(n)) if *n >= 0.0 && n.fract() == 0.0 => Some((t.clone(), *n as u32)),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

pub fn message(s: &str) -> Option<Event> {
    match Json::parse(s)? {
        Json::Map(m) if m.len() == 1 => match (&*m[0].0, &m[0].1) {
            ("status", Json::Str(s)) => Some(Event::Status(s.clone())),
            ("log", v) => match v.field("message")? {
                Json::Str(s) => Some(Event::Log(s.clone())),
                _ => None,
            },
            ("match", v) => words_of(v).map(Event::Match),
            _ => None,
        },
        _ => None,
    }
}

// --- the server, its lists and the library's answers -------------------------------------------

pub type Answers = Result<Vec<Vec<(String, u32)>>, String>;

pub struct Lab {
    pub scratch: Scratch,
    speed: u32,
    /// the server's network takes in little that the client does not read
    pub small_buffers: bool,
    web: Option<Web>,
    pub lists: Vec<(String, Vec<noodle::Word>)>,
    files: Vec<(&'static str, Vec<u8>)>,
    cache: std::collections::HashMap<(String, String, Option<usize>), (Answers, String)>,
}

impl Lab {
    /// `files`: (file name, content). The name of a list is the part before the first period.
    pub fn new(files: Vec<(&'static str, Vec<u8>)>, speed: u32) -> Lab {
        Lab { scratch: Scratch::new(), speed, small_buffers: false, web: None, lists: vec![], files, cache: Default::default() }
    }
    fn prepare(&mut self) {
        if !self.lists.is_empty() {
            return;
        }
        let dir = self.scratch.0.join("lists");
        std::fs::create_dir_all(dir.join("directory.txt")).unwrap();
        for (f, b) in &self.files {
            let p = dir.join(f);
            std::fs::write(&p, b).unwrap();
            let name = f.split('.').next().unwrap().to_string();
            if !self.lists.iter().any(|l| l.0 == name) {
                self.lists.push((name, noodle::load_wordlist(&p).unwrap()));
            }
        }
        std::os::unix::fs::symlink(dir.join(self.files[0].0), dir.join("link.txt")).ok();
    }
    /// The running server, started if need be.
    pub fn web(&mut self) -> &mut Web {
        self.prepare();
        let alive = self.web.as_mut().map_or(false, |w| w.alive());
        if !alive {
            self.web = None;
            self.web = Some(Web::start(&self.scratch.0.join("lists"), self.speed, self.small_buffers));
        }
        self.web.as_mut().unwrap()
    }
    pub fn stop(&mut self) {
        self.web = None;
    }
    /// Says so if the server has died.
    pub fn judge(&mut self, r: Result<(), String>) -> Result<(), String> {
        // (a crash takes a moment to show)
        if r.is_err() {
            std::thread::sleep(Duration::from_millis(200));
        }
        let dead = self.web.as_mut().map_or(false, |w| !w.alive());
        if dead {
            let words = self.web.as_ref().map(|w| w.last_words()).unwrap_or_default();
            return Err(format!("the server died: {}{}", words, r.err().map(|e| format!(" ({})", e)).unwrap_or_default()));
        }
        if r.is_err() {
            // what is left of this case must not disturb the next one
            self.web = None;
        }
        r
    }
    /// What the library answers: answers or parse error, and its closing words.
    pub fn library(&mut self, query: &str, list: &str, default_limit: Option<usize>) -> (Answers, String) {
        use noodle::{parser, QueryEvaluator, QueryResponse};
        self.prepare();
        let key = (query.to_string(), list.to_string(), default_limit);
        if let Some(v) = self.cache.get(&key) {
            return v.clone();
        }
        let words = &self.lists.iter().find(|l| l.0 == list).unwrap_or(&self.lists[0]).1;
        let v = match parser::QueryAst::new_from_str(query) {
            Err(e) => (Err(e.to_string()), String::new()),
            Ok(ast) => {
                let mut ev = QueryEvaluator::from_ast(&ast, words);
                if let (None, Some(n)) = (ast.options.results_limit, default_limit) {
                    ev.set_results_limit(Some(n));
                }
                let mut out = vec![];
                let last = loop {
                    match ev.next_within_deadline(None) {
                        QueryResponse::Match(p) => out.push(p.iter().map(|w| (w.text.to_string(), w.score)).collect()),
                        QueryResponse::Complete(m) => break m,
                        _ => {}
                    }
                };
                (Ok(out), last)
            }
        };
        self.cache.insert(key, v.clone());
        v
    }
}
