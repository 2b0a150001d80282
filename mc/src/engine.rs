//! Runs the real engine through its public API only.

use noodle::{parser, QueryEvaluator, QueryResponse, Word};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A word list entry of a case: its text and tranche. The index is carried in `score`.
pub type Entry = (String, u8);

pub fn entries(ws: &[&str]) -> Vec<Entry> {
    ws.iter().map(|w| (w.to_string(), 0)).collect()
}

pub fn make_words(ws: &[Entry]) -> Vec<Word> {
    ws.iter()
        .enumerate()
        .map(|(i, (t, tr))| Word::new(t, *tr, i as u32))
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    ParseError(String),
    Panic(String),
    /// phrases in order of report, as indexes into the word list
    Done(Vec<Vec<u32>>),
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub struct RunStats {
    pub responses: u64,
}

/// Evaluate `query` on `words` and collect every match. No deadline.
pub fn run(query: &str, words: &[Word], depth: Option<usize>, limit: Option<Option<usize>>) -> (Outcome, RunStats) {
    let mut stats = RunStats { responses: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ast = match parser::QueryAst::new_from_str(query) {
            Ok(a) => a,
            Err(e) => return Outcome::ParseError(e.to_string()),
        };
        let mut ev = QueryEvaluator::from_ast(&ast, words);
        if let Some(d) = depth {
            ev.set_search_depth_limit(d);
        }
        if let Some(l) = limit {
            ev.set_results_limit(l);
        }
        let mut out = vec![];
        for resp in ev {
            stats.responses += 1;
            if let QueryResponse::Match(p) = resp {
                out.push(p.iter().map(|w| w.score).collect());
            }
        }
        Outcome::Done(out)
    }));
    match r {
        Ok(o) => (o, stats),
        Err(e) => (Outcome::Panic(panic_text(e)), stats),
    }
}

pub fn show_phrase(words: &[Entry], p: &[u32]) -> String {
    p.iter()
        .map(|&i| words.get(i as usize).map(|w| w.0.as_str()).unwrap_or("?"))
        .collect::<Vec<_>>()
        .join("+")
}
