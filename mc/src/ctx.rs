//! The explorer: deterministic enumeration sharded over worker processes, with crash and hang
//! detection. A worker walks the whole enumeration and executes every case whose index is
//! congruent to its shard; the parent watches it, so that an abort, a signal or an endless case
//! is attributed to the exact case that caused it.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    shards: u64,
    next: u64,
    mode: Mode,
    progress: Option<std::fs::File>,
    pub counters: BTreeMap<String, u64>,
    outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub known_list: Vec<(String, String)>,
    pub stop: bool,
    described: Option<String>,
    pub prop: String,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub index: u64,
    pub case: String,
    pub what: String,
}

enum Mode {
    Run,
    /// only this index: print its description, do not run
    Describe(u64),
    /// only this index: run it
    Replay(u64),
}

impl Ctx {
    pub fn worker(prop: &str, tier: Tier, shard: u64, shards: u64, progress: PathBuf) -> Ctx {
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(progress).unwrap();
        Ctx::new(prop, tier, shard, shards, Mode::Run, Some(f))
    }
    pub fn describe(prop: &str, tier: Tier, index: u64) -> Ctx {
        Ctx::new(prop, tier, 0, 1, Mode::Describe(index), None)
    }
    pub fn replay(prop: &str, tier: Tier, index: u64) -> Ctx {
        Ctx::new(prop, tier, 0, 1, Mode::Replay(index), None)
    }
    fn new(prop: &str, tier: Tier, shard: u64, shards: u64, mode: Mode, progress: Option<std::fs::File>) -> Ctx {
        Ctx {
            tier,
            shard,
            shards,
            next: 0,
            mode,
            progress,
            counters: BTreeMap::new(),
            outcomes: HashSet::new(),
            samples: vec![],
            violations: vec![],
            known: BTreeMap::new(),
            known_list: vec![],
            stop: false,
            described: None,
            prop: prop.to_string(),
        }
    }
    pub fn take_description(&mut self) -> Option<String> {
        self.described.take()
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// Record an observed outcome; the number of distinct ones is reported.
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn outcome_hashes(&self) -> impl Iterator<Item = &u64> {
        self.outcomes.iter()
    }

    /// One point of the enumerated space. `desc` names it completely; `body` explores it and
    /// returns what is wrong, if anything.
    pub fn case<D, B>(&mut self, desc: D, body: B)
    where
        D: Fn() -> String,
        B: FnOnce(&mut Ctx) -> Result<(), String>,
    {
        let i = self.next;
        self.next += 1;
        if self.stop {
            return;
        }
        match self.mode {
            Mode::Run => {
                if i % self.shards != self.shard {
                    return;
                }
            }
            Mode::Describe(j) => {
                if i == j {
                    self.described = Some(desc());
                    self.stop = true;
                }
                return;
            }
            Mode::Replay(j) => {
                if i != j {
                    return;
                }
            }
        }
        if let Some(f) = &self.progress {
            let _ = f.write_at(&(i + 1).to_le_bytes(), 0);
        }
        self.count("cases", 1);
        if self.samples.len() < 3 && (i / self.shards) % 997 == 5 {
            self.samples.push(desc());
        }
        let begin = Instant::now();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(self)));
        if begin.elapsed().as_secs_f64() > 1.0 {
            eprintln!("slow: {:.1} s: {}", begin.elapsed().as_secs_f64(), desc());
        }
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", crate::engine::panic_text(e))),
        };
        if let Err(what) = r {
            let case = desc();
            if let Some((key, _)) = self.known_list.iter().find(|(k, _)| *k == case) {
                *self.known.entry(key.clone()).or_insert(0) += 1;
                return;
            }
            self.violations.push(Violation { index: i, case, what });
            if self.violations.len() >= max_violations() {
                self.stop = true;
            }
        }
    }
    pub fn total_cases(&self) -> u64 {
        self.next
    }
}

fn max_violations() -> usize {
    std::env::var("MC_MAX_VIOLATIONS").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

// --- parent side ---------------------------------------------------------------------------

pub struct Summary {
    pub counters: BTreeMap<String, u64>,
    pub distinct_outcomes: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub total_cases: u64,
    pub error: Option<String>,
    pub wall: f64,
}

pub fn write_worker_result(ctx: &Ctx, path: &PathBuf) {
    use std::io::Write;
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for (k, v) in &ctx.counters {
        writeln!(f, "C\t{}\t{}", k, v).unwrap();
    }
    for (k, v) in &ctx.known {
        writeln!(f, "K\t{}\t{}", esc(k), v).unwrap();
    }
    for s in &ctx.samples {
        writeln!(f, "S\t{}", esc(s)).unwrap();
    }
    for v in &ctx.violations {
        writeln!(f, "V\t{}\t{}\t{}", v.index, esc(&v.case), esc(&v.what)).unwrap();
    }
    for h in ctx.outcome_hashes() {
        writeln!(f, "O\t{}", h).unwrap();
    }
    writeln!(f, "T\t{}", ctx.total_cases()).unwrap();
    writeln!(f, "END").unwrap();
    f.flush().unwrap();
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let t: f64 = f.get(12)?.parse().ok()?;
    Some((u + t) / 100.0)
}

pub fn explore(prop: &str, tier: Tier, dir: &PathBuf, shards: u64, budget_s: f64, hang_cpu_s: f64) -> Summary {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut sum = Summary {
        counters: BTreeMap::new(),
        distinct_outcomes: 0,
        samples: vec![],
        violations: vec![],
        known: BTreeMap::new(),
        total_cases: 0,
        error: None,
        wall: 0.0,
    };
    struct W {
        child: std::process::Child,
        progress: PathBuf,
        result: PathBuf,
        last: u64,
        last_cpu: f64,
        last_wall: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..shards)
        .map(|k| {
            let progress = dir.join(format!("progress.{}", k));
            let result = dir.join(format!("result.{}", k));
            let _ = std::fs::remove_file(&result);
            let child = std::process::Command::new(&exe)
                .args(["worker", prop, tier_s, &k.to_string(), &shards.to_string()])
                .arg(&progress)
                .arg(&result)
                .env("RUST_BACKTRACE", "0")
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::File::create(dir.join(format!("stderr.{}", k))).unwrap())
                .spawn()
                .unwrap();
            W { child, progress, result, last: 0, last_cpu: 0.0, last_wall: Instant::now(), done: false }
        })
        .collect();
    let read_progress = |p: &PathBuf| -> u64 {
        std::fs::read(p).ok().and_then(|v| v.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0)
    };
    let mut outcomes: HashSet<u64> = HashSet::new();
    loop {
        let mut alive = false;
        for k in 0..ws.len() {
            if ws[k].done {
                continue;
            }
            let cur = read_progress(&ws[k].progress);
            let status = ws[k].child.try_wait().unwrap();
            match status {
                None => {
                    alive = true;
                    let cpu = cpu_seconds(ws[k].child.id()).unwrap_or(0.0);
                    if cur != ws[k].last {
                        ws[k].last = cur;
                        ws[k].last_cpu = cpu;
                        ws[k].last_wall = Instant::now();
                    } else if cur > 0
                        && (cpu - ws[k].last_cpu > hang_cpu_s
                            || ws[k].last_wall.elapsed().as_secs_f64() > 10.0 * hang_cpu_s)
                    {
                        let _ = ws[k].child.kill();
                        let _ = ws[k].child.wait();
                        ws[k].done = true;
                        sum.violations.push(Violation {
                            index: cur - 1,
                            case: describe_case(&exe, prop, tier_s, cur - 1),
                            what: format!("did not finish within {} s of CPU time", hang_cpu_s),
                        });
                    }
                    if start.elapsed().as_secs_f64() > budget_s {
                        sum.error = Some(format!("exploration exceeded its {} s budget", budget_s));
                    }
                }
                Some(st) => {
                    ws[k].done = true;
                    if st.success() {
                        if let Err(e) = merge(&mut sum, &mut outcomes, &ws[k].result) {
                            sum.error = Some(e);
                        }
                    } else if let Some(sig) = st.signal().filter(|s| [4, 5, 6, 7, 8, 11].contains(s)) {
                        let err = std::fs::read_to_string(dir.join(format!("stderr.{}", k))).unwrap_or_default();
                        let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                        if cur == 0 {
                            sum.error = Some(format!("worker died with signal {} before any case: {}", sig, tail));
                        } else {
                            sum.violations.push(Violation {
                                index: cur - 1,
                                case: describe_case(&exe, prop, tier_s, cur - 1),
                                what: format!("process killed by signal {}: {}", sig, tail),
                            });
                        }
                    } else {
                        let err = std::fs::read_to_string(dir.join(format!("stderr.{}", k))).unwrap_or_default();
                        sum.error = Some(format!("worker {} ended with {:?}: {}", k, st, err.lines().rev().take(3).collect::<Vec<_>>().join(" | ")));
                    }
                }
            }
        }
        if sum.error.is_some() || !sum.violations.is_empty() && std::env::var("MC_MAX_VIOLATIONS").is_err() {
            // let the others finish quickly: a violation is final
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
            break;
        }
        if !alive {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    for w in &ws {
        // (a worker that was stopped leaves its own)
        let _ = std::fs::remove_dir_all(crate::scratch::path_of(w.child.id()));
    }
    sum.violations.sort_by_key(|v| v.index);
    sum.distinct_outcomes = outcomes.len() as u64;
    sum.wall = start.elapsed().as_secs_f64();
    sum
}

fn describe_case(exe: &PathBuf, prop: &str, tier: &str, index: u64) -> String {
    let out = std::process::Command::new(exe)
        .args(["describe", prop, tier, &index.to_string()])
        .stderr(std::process::Stdio::null())
        .output();
    match out {
        // (the library prints lines of its own)
        Ok(o) => unesc(String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("")),
        Err(e) => format!("case {} ({})", index, e),
    }
}

fn merge(sum: &mut Summary, outcomes: &mut HashSet<u64>, path: &PathBuf) -> Result<(), String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("no worker result: {}", e))?;
    if !s.ends_with("END\n") {
        return Err("truncated worker result".into());
    }
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "C" => {
                let n: u64 = f[2].parse().unwrap();
                if f[1].starts_with("max_") {
                    let e = sum.counters.entry(f[1].to_string()).or_insert(0);
                    *e = (*e).max(n);
                } else {
                    *sum.counters.entry(f[1].to_string()).or_insert(0) += n;
                }
            }
            "K" => *sum.known.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "S" => {
                if sum.samples.len() < 8 {
                    sum.samples.push(unesc(f[1]))
                }
            }
            "V" => sum.violations.push(Violation { index: f[1].parse().unwrap(), case: unesc(f[2]), what: unesc(f[3]) }),
            "O" => {
                outcomes.insert(f[1].parse().unwrap());
            }
            "T" => sum.total_cases = sum.total_cases.max(f[1].parse().unwrap()),
            _ => {}
        }
    }
    Ok(())
}
