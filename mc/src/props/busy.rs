//! C24: however many searches are running, every other request is answered.

use super::http::files;
use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;
use std::time::Instant;

pub fn info() -> Info {
    Info {
        shards: 3,
        hang_cpu_s: 60.0,
        bounds_quick: "1, 2, 4, 8, 16, 19, 20, 21, 24, 32, 48 and 64 searches of each of 7 kinds (GET, POST, websocket, and left or unread ones), and 12 or 24 \
                       of every two kinds; then every kind of request, twice",
        bounds_thorough: "every number of searches up to 64, 100 and 200 of each kind, 40 of every two kinds",
        assumptions: &["an answer takes less than 60 s on this machine (a search over POST runs for 150 s, one over GET for 10 s)", "the order in which the server's threads run is not controlled"],
    }
}

const HARD: &str = "#dict many;.{8}a.*;.{8}b.*";
/// More than the network takes in unread.
const LONG: &str = "#dict long;#limit 1000;.*";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Post,
    PostLeft,
    Get,
    GetLeft,
    Socket,
    SocketUnread,
    SocketIdle,
}
use Kind::*;
const KINDS: [Kind; 7] = [Post, PostLeft, Get, GetLeft, Socket, SocketUnread, SocketIdle];

struct Busy {
    conns: Vec<(Kind, Conn)>,
    sockets: Vec<Ws>,
    running: u64,
}

impl Busy {
    fn start(&mut self, web: &Web, k: Kind) -> Result<(), String> {
        match k {
            Post | PostLeft | Get | GetLeft => {
                let mut c = web.connect()?;
                c.send(&match k {
                    Post | PostLeft => post("/query", HARD.as_bytes()),
                    _ => get(&format!("/query/{}", percent(HARD.as_bytes(), |_, _| false, true))),
                })?;
                self.conns.push((k, c));
                self.running += 1;
            }
            Socket | SocketUnread | SocketIdle => {
                let mut w = Ws::open(web)?;
                if k != SocketIdle {
                    w.text(if k == Socket { HARD } else { LONG })?;
                    w.next()?;
                    self.running += 1;
                }
                self.sockets.push(w);
            }
        }
        Ok(())
    }
    /// All searches have begun; then some clients go away (their searches run on).
    fn leave(&mut self) {
        let (left, stay) = std::mem::take(&mut self.conns).into_iter().partition(|c| matches!(c.0, PostLeft | GetLeft));
        self.conns = stay;
        let left: Vec<(Kind, Conn)> = left;
        left.into_iter().for_each(|c| c.1.reset());
    }
}

fn probes(ctx: &mut Ctx, web: &Web) -> Result<(), String> {
    let name = |what: &str, e: String| format!("{}: {}", what, e);
    let same = |what: &str, r: &Reply, body: &str| {
        if r.status == 200 && r.text() == body {
            Ok(())
        } else {
            Err(format!("{}: status {}, {:?}", what, r.status, r.text()))
        }
    };
    web.gauges().map_err(|e| name("metrics", e))?;
    let r = web.get("/wordlists.js").map_err(|e| name("lists", e))?;
    if r.status != 200 || !r.text().contains("\"packed\"") {
        return Err(format!("lists: {:?}", r.text()));
    }
    same("word list", &web.get("/wordlist/packed").map_err(|e| name("word list", e))?, "ab\nzag\nzig\n")?;
    web.get("/nothing").map_err(|e| name("no page", e))?;
    let q = "#dict packed;#words 1;z.*";
    let r = web.get(&format!("/query/{}", percent(q.as_bytes(), |_, _| false, true))).map_err(|e| name("GET", e))?;
    same("GET", &r, "zag \nzig \n")?;
    let r = web.request(&post("/query", q.as_bytes())).map_err(|e| name("POST", e))?;
    if r.status != 200 || r.text().lines().count() != 2 {
        return Err(format!("POST: {:?}", r.text()));
    }
    let mut w = Ws::open(web).map_err(|e| name("websocket", e))?;
    w.text(q)?;
    let mut got = vec![];
    loop {
        match w.next().map_err(|e| name("websocket", e))? {
            Event::Match(p) => got.push(p[0].0.clone()),
            Event::Close | Event::End(_) => break,
            _ => {}
        }
    }
    if got != ["zag", "zig"] {
        return Err(format!("websocket: {:?}", got));
    }
    ctx.count("transitions", 7);
    ctx.outcome(&got);
    Ok(())
}

fn busy(ctx: &mut Ctx, lab: &mut Lab, ks: &[Kind]) -> Result<(), String> {
    // a search over GET ends after 10 s: on a machine which is that slow, nothing is said
    let short = ks.iter().any(|k| matches!(k, Get | GetLeft));
    let mut slow = String::new();
    for _ in 0..3 {
        lab.stop();
        let begin = Instant::now();
        let web = lab.web();
        let mut b = Busy { conns: vec![], sockets: vec![], running: 0 };
        let r = (|| {
            for (i, &k) in ks.iter().enumerate() {
                b.start(web, k).map_err(|e| format!("{:?} while {} are running: {}", k, i, e))?;
            }
            // (an answer of the metrics that counts them all shows that all have begun)
            if !short {
                web.settle(b.running)?;
            }
            b.leave();
            probes(ctx, web)?;
            probes(ctx, web)
        })();
        let took = begin.elapsed().as_secs_f64();
        ctx.count("states", b.running);
        ctx.count("traces", 1);
        ctx.outcome(&(b.running, ks.iter().map(|k| *k as usize).collect::<Vec<_>>()));
        match r {
            Err(e) => return Err(e),
            Ok(()) if short && took > 8.0 => slow = format!("searches over GET held up the others for {:.1} s", took),
            Ok(()) => return Ok(()),
        }
    }
    Err(slow)
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let lab = RefCell::new(Lab::new(files(), 1));
    lab.borrow_mut().small_buffers = true;
    let sizes: Vec<usize> = if th { (1..=64).chain([100, 200]).collect() } else { vec![1, 2, 4, 8, 16, 19, 20, 21, 24, 32, 48, 64] };
    let mut all: Vec<(String, Vec<Kind>)> = vec![];
    for k in KINDS {
        for &n in &sizes {
            all.push((format!("{} x {:?}", n, k), vec![k; n]));
        }
    }
    for (i, &a) in KINDS.iter().enumerate() {
        for &b in &KINDS[..i] {
            for n in if th { vec![12, 24, 40] } else { vec![12, 24] } {
                all.push((format!("{} x {:?} and {:?}", n, a, b), (0..2 * n).map(|j| if j % 2 == 0 { a } else { b }).collect()));
            }
        }
    }
    for (name, ks) in all {
        ctx.case(
            || name.clone(),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let r = busy(ctx, &mut lab, &ks);
                let r = lab.judge(r);
                lab.stop();
                r
            },
        );
    }
}
