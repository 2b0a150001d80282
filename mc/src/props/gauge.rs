//! C19: the number of active queries and the total, after every history of requests.

use super::http::files;
use super::Info;
use crate::ctx::Ctx;
use crate::web::*;
use std::cell::RefCell;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "all histories of 1..3 of 22 kinds of requests (answered, rejected, malformed, left at different points, left running, \
                       given up while others run), the gauge and the total read after every one; all histories of 1..2 and all sets of 1..3 \
                       simultaneous ones of 7 kinds at 200 times the speed, with time limits reached; \
                       1 to 40 searches at the same time, ended in four orders",
        bounds_thorough: "histories of 1..4 of the 22 kinds, of 1..3 of the 7",
        assumptions: &["whether a first message that is no text counts as a query is left open", "the order in which the server's threads run is not controlled"],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Get,
    GetError,
    GetTwo,
    Post,
    PostError,
    PostTooLarge,
    PostHalf,
    NoQuery,
    WsAll,
    WsError,
    WsFin,
    WsReset,
    WsClose,
    WsBad,
    WsNotText,
    WsOnlyClose,
    WsOnlyReset,
    WsBinary,
    StayUnread,
    StaySearching,
    StayEndsReset,
    StayEndsClose,
}
use Kind::*;

const KINDS: [Kind; 22] = [
    Get, GetError, GetTwo, Post, PostError, PostTooLarge, PostHalf, NoQuery, WsAll, WsError, WsFin, WsReset, WsClose, WsBad, WsNotText, WsOnlyClose, WsOnlyReset,
    WsBinary, StayUnread, StaySearching, StayEndsReset, StayEndsClose,
];

/// More than the network takes in unread, and a search that does not end.
const LONG: &str = "#dict long;#limit 1000;.*";
const HARD: &str = "#dict many;.{8}a.*;.{8}b.*";

/// How long a query may count as active after its last message.
const SOON: std::time::Duration = std::time::Duration::from_secs(20);

struct State {
    staying: Vec<Ws>,
    /// bounds of the total
    low: u64,
    high: u64,
}

/// The first status of a query tells how many others are active.
fn others(w: &mut Ws, running: usize) -> Result<(), String> {
    match w.next()? {
        Event::Status(s) => {
            let digits: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
            if !digits.is_empty() && digits != running.to_string() {
                return Err(format!("status {:?} where {} others are active", s, running));
            }
            Ok(())
        }
        e => Err(format!("first message {:?}", e)),
    }
}

fn to_end(w: &mut Ws) -> Result<(), String> {
    let mut last = std::time::Instant::now();
    while !matches!(w.next()?, Event::Close | Event::End(_)) {
        last = std::time::Instant::now();
    }
    // (the last message of a query is followed by its end)
    if last.elapsed() > SOON {
        return Err(format!("the connection ended {} s after its last message", last.elapsed().as_secs()));
    }
    Ok(())
}

impl State {
    fn act(&mut self, lab: &mut Lab, k: Kind) -> Result<(), String> {
        let n = self.staying.len();
        let (mut low, mut high) = (1, 1);
        let web = lab.web();
        let ok = |r: Reply, want: u16| if r.status == want { Ok(()) } else { Err(format!("status {} instead of {}", r.status, want)) };
        match k {
            Get => ok(web.get("/query/ab.*")?, 200)?,
            GetError => ok(web.get("/query/((a)")?, 200)?,
            GetTwo => {
                let mut c = web.connect()?;
                for _ in 0..2 {
                    c.send(&get("/query/ab.*"))?;
                    ok(c.reply()?, 200)?;
                }
                low = 2;
                high = 2;
            }
            Post => ok(web.request(&post("/query", b"ab.*"))?, 200)?,
            PostError => ok(web.request(&post("/query", b"((a)"))?, 200)?,
            PostTooLarge => {
                let mut c = web.connect()?;
                c.send(b"POST /query HTTP/1.1\r\nHost: x\r\nContent-Length: 65537\r\n\r\n")?;
                ok(c.reply()?, 413)?;
                low = 0;
                high = 0;
            }
            PostHalf => {
                let mut c = web.connect()?;
                c.send(b"POST /query HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nab.")?;
                c.reset();
                low = 0;
                high = 0;
            }
            NoQuery => {
                ok(web.get("/wordlist/other")?, 200)?;
                ok(web.get("/wordlists.js")?, 200)?;
                web.get("/nothing")?;
                low = 0;
                high = 0;
            }
            WsAll | WsError => {
                let mut w = Ws::open(web)?;
                w.text(if k == WsAll { ".{1,4}" } else { "((a)" })?;
                others(&mut w, n)?;
                to_end(&mut w)?;
            }
            WsFin => {
                let mut w = Ws::open(web)?;
                w.text(LONG)?;
                others(&mut w, n)?;
            }
            WsReset | WsClose | WsBad => {
                let mut w = Ws::open(web)?;
                w.text(LONG)?;
                others(&mut w, n)?;
                w.next()?;
                match k {
                    WsReset => w.conn.reset(),
                    WsClose => {
                        w.conn.send(&frame(true, 8, b""))?;
                        to_end(&mut w)?;
                    }
                    _ => {
                        w.conn.send(b"\xff\x85\x00\x00\x00\x00abcde")?;
                        to_end(&mut w)?;
                    }
                }
            }
            WsNotText => {
                // a text message which is not UTF-8
                let mut w = Ws::open(web)?;
                w.conn.send(&frame(true, 1, b"a\xff"))?;
                to_end(&mut w)?;
                low = 0;
            }
            WsOnlyClose => {
                let mut w = Ws::open(web)?;
                w.conn.send(&frame(true, 8, b""))?;
                to_end(&mut w)?;
                low = 0;
            }
            WsOnlyReset => {
                Ws::open(web)?.conn.reset();
                low = 0;
                high = 0;
            }
            WsBinary => {
                let mut w = Ws::open(web)?;
                w.conn.send(&frame(true, 2, b"ab"))?;
                to_end(&mut w)?;
                low = 0;
            }
            StayUnread | StaySearching => {
                let mut w = Ws::open(web)?;
                w.text(if k == StayUnread { LONG } else { HARD })?;
                others(&mut w, n)?;
                self.staying.push(w);
            }
            StayEndsReset | StayEndsClose => {
                low = 0;
                high = 0;
                if n > 0 {
                    let mut w = self.staying.remove(0);
                    if k == StayEndsReset {
                        w.conn.reset();
                    } else {
                        w.conn.send(&frame(true, 8, b""))?;
                        to_end(&mut w)?;
                    }
                }
            }
        }
        self.low += low;
        self.high += high;
        self.look(lab)
    }
    fn look(&mut self, lab: &mut Lab) -> Result<(), String> {
        let total = lab.web().settle(self.staying.len() as u64)?;
        if total < self.low || total > self.high {
            return Err(format!("the total is {}, expected {}..={}", total, self.low, self.high));
        }
        self.low = total;
        self.high = total;
        Ok(())
    }
}

fn history(ctx: &mut Ctx, lab: &mut Lab, h: &[Kind]) -> Result<(), String> {
    let total = lab.web().settle(0)?;
    let mut s = State { staying: vec![], low: total, high: total };
    for &k in h {
        s.act(lab, k).map_err(|e| format!("{:?}, in {:?}: {}", k, h, e))?;
        ctx.count("states", 1);
        ctx.count("transitions", 1);
        ctx.outcome(&(s.staying.len(), s.low - total));
    }
    ctx.count("traces", 1);
    s.staying.clear();
    s.look(lab).map_err(|e| format!("at the end of {:?}: {}", h, e))
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let lab = RefCell::new(Lab::new(files(), 1));
    lab.borrow_mut().small_buffers = true;
    let n = KINDS.len();
    for len in 1..=if th { 4 } else { 3 } {
        let fixed = if len > 1 { len - 1 } else { 1 };
        for mut code in 0..n.pow(fixed as u32) {
            let h: Vec<Kind> = (0..fixed)
                .map(|_| {
                    let k = KINDS[code % n];
                    code /= n;
                    k
                })
                .collect();
            ctx.case(
                || format!("histories of {} requests which begin with {:?}", len, h),
                |ctx| {
                    let mut lab = lab.borrow_mut();
                    for k in if len > 1 { &KINDS[..] } else { &KINDS[..1] } {
                        let mut h = h.clone();
                        if len > 1 {
                            h.push(*k);
                        }
                        let r = history(ctx, &mut lab, &h);
                        lab.judge(r)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // growing numbers of searches which run, ended from the first or the last or every second one
    for n in (1..=20usize).chain([24, 32, 40]) {
        ctx.case(
            || format!("{} searches at the same time", n),
            |ctx| {
                let mut lab = lab.borrow_mut();
                let r = (|| {
                    let total = lab.web().settle(0)?;
                    for way in if n > 12 { 1..3 } else { 0..4 } {
                        let mut s = State { staying: vec![], low: 0, high: u64::MAX / 2 };
                        for i in 0..n {
                            s.act(&mut lab, if (i + way) % 4 == 0 && i < 20 { StaySearching } else { StayUnread }).map_err(|e| format!("with {} running: {}", i, e))?;
                        }
                        while !s.staying.is_empty() {
                            let at = [0, s.staying.len() - 1, s.staying.len() / 2, 0][way];
                            let w = s.staying.remove(at);
                            s.staying.insert(0, w);
                            s.act(&mut lab, if s.staying.len() % 3 == 1 { StayEndsClose } else { StayEndsReset }).map_err(|e| format!("{} left of {}: {}", s.staying.len(), n, e))?;
                            ctx.count("transitions", 2);
                        }
                        let now = lab.web().settle(0)?;
                        if now != total + ((way + 1 - (n > 12) as usize) * n) as u64 {
                            return Err(format!("the total went from {} to {} with {} queries", total, now, (way + 1 - (n > 12) as usize) * n));
                        }
                        ctx.count("states", n as u64);
                        ctx.count("traces", 1);
                        ctx.outcome(&n);
                    }
                    // one after the other
                    let before = lab.web().settle(0)?;
                    for k in 0..6 * n {
                        let r = lab.web().request(&if k % 2 == 0 { post("/query", b"ab") } else { get("/query/ab") })?;
                        if r.status != 200 {
                            return Err(format!("status {}", r.status));
                        }
                    }
                    let now = lab.web().settle(0)?;
                    if now != before + 6 * n as u64 {
                        return Err(format!("the total grew by {} with {} queries", now - before, 6 * n));
                    }
                    Ok(())
                })();
                lab.judge(r)
            },
        );
    }
    limits(ctx);
}

/// Queries which reach their time limits, alone, in a row and at the same time.
fn limits(ctx: &mut Ctx) {
    let lab = RefCell::new(Lab::new(files(), 200));
    lab.borrow_mut().small_buffers = true;
    const N: usize = 7;
    let names = ["GET", "POST", "websocket", "GET left", "POST left", "websocket left", "short GET"];
    let path = format!("/query/{}", percent(HARD.as_bytes(), |_, _| false, true));
    enum Open {
        Http(Conn),
        Web(Ws),
        Left,
    }
    let start = |lab: &mut Lab, k: usize, count: u64| -> Result<Open, String> {
        let web = lab.web();
        if k % 3 == 2 && k < 6 {
            let mut w = Ws::open(web)?;
            w.text(HARD)?;
            w.next()?;
            return Ok(if k == 2 { Open::Web(w) } else { Open::Left });
        }
        let mut c = web.connect()?;
        c.send(&match k {
            0 | 3 => get(&path),
            6 => get("/query/ab.*"),
            _ => post("/query", HARD.as_bytes()),
        })?;
        Ok(match k {
            3 | 4 => {
                // (the request has been taken once it is counted)
                let begin = std::time::Instant::now();
                while web.gauges()?.1 < count && begin.elapsed() < PATIENCE {}
                c.reset();
                Open::Left
            }
            _ => Open::Http(c),
        })
    };
    let end = |o: Open| -> Result<(), String> {
        match o {
            Open::Http(mut c) => {
                let r = c.reply()?;
                if r.status != 200 {
                    return Err(format!("status {}", r.status));
                }
            }
            Open::Web(mut w) => {
                let mut last = String::new();
                loop {
                    match w.next()? {
                        Event::Close | Event::End(_) => break,
                        Event::Status(s) => last = s,
                        Event::Log(_) => {}
                        e => return Err(format!("{:?} where nothing matches", e)),
                    }
                }
                if !last.starts_with("Timeout") {
                    return Err(format!("the last status is {:?}", last));
                }
            }
            Open::Left => {}
        }
        Ok(())
    };
    let deepest = if ctx.thorough() { 3 } else { 2 };
    for len in 1..=3usize {
        for mut code in 0..N.pow(len as u32) {
            let ks: Vec<usize> = (0..len)
                .map(|_| {
                    let k = code % N;
                    code /= N;
                    k
                })
                .collect();
            for together in [false, true] {
                if together && (len == 1 || ks.windows(2).any(|w| w[0] > w[1])) || !together && len > deepest {
                    continue;
                }
                ctx.case(
                    || format!("{}: {:?}", if together { "at the same time" } else { "one after the other" }, ks.iter().map(|&k| names[k]).collect::<Vec<_>>()),
                    |ctx| {
                        let mut lab = lab.borrow_mut();
                        let r = (|| {
                            let before = lab.web().settle(0)?;
                            let mut open = vec![];
                            for (i, &k) in ks.iter().enumerate() {
                                open.push(start(&mut lab, k, before + i as u64 + 1)?);
                                ctx.count("states", 1);
                                ctx.count("transitions", 1);
                                if !together {
                                    end(open.pop().unwrap())?;
                                    // (a client that leaves during a search over HTTP leaves the search to its time limit)
                                    let total = lab.web().settle(0)?;
                                    if total != before + i as u64 + 1 {
                                        return Err(format!("the total grew by {} with {} queries", total - before, i + 1));
                                    }
                                }
                            }
                            for o in open {
                                end(o)?;
                            }
                            let total = lab.web().settle(0)?;
                            ctx.count("traces", 1);
                            ctx.outcome(&ks);
                            if total != before + len as u64 {
                                return Err(format!("the total grew by {} with {} queries", total - before, len));
                            }
                            Ok(())
                        })();
                        lab.judge(r)
                    },
                );
            }
        }
    }
}
