//! Shared pieces: word lists with their reference normalisation, and the comparison of one
//! complete engine run with the reference model.

use crate::ctx::Ctx;
use crate::engine::*;
use crate::model::*;
use noodle::Word;
use std::collections::HashMap;

pub struct List {
    pub entries: Vec<Entry>,
    pub words: Vec<Word>,
    pub norm: Vec<Vec<u8>>,
}

impl List {
    pub fn new<S: AsRef<str>>(texts: &[S]) -> List {
        List::tranched(texts.iter().map(|t| (t.as_ref().to_string(), 0)).collect())
    }
    /// Entries must be given in order of tranche, as a loaded word list has them.
    pub fn tranched(entries: Vec<Entry>) -> List {
        debug_assert!(entries.windows(2).all(|w| w[0].1 <= w[1].1));
        let words = make_words(&entries);
        let norm = entries.iter().map(|e| norm_ascii(&e.0)).collect();
        List { entries, words, norm }
    }
    pub fn show(&self) -> String {
        self.entries
            .iter()
            .map(|(t, r)| if *r == 0 { t.clone() } else { format!("{}@{}", t, r) })
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn phrase(&self, p: &[u32]) -> String {
        show_phrase(&self.entries, p)
    }
    pub fn text_of(&self, p: &[u32]) -> Vec<u8> {
        p.iter().flat_map(|&i| self.norm[i as usize].iter().copied()).collect()
    }
    pub fn max_tranche(&self, p: &[u32]) -> u8 {
        p.iter().map(|&i| self.entries[i as usize].1).max().unwrap_or(0)
    }
    /// Every sequence of at least 1 and at most `depth` words, in order of length, then
    /// lexicographically by position in the list.
    pub fn sequences(&self, depth: usize) -> Vec<Vec<u32>> {
        let n = self.entries.len() as u32;
        let mut out = vec![];
        let mut cur: Vec<Vec<u32>> = vec![vec![]];
        for _ in 0..depth {
            cur = cur
                .iter()
                .flat_map(|p| {
                    (0..n).map(move |i| {
                        let mut q = p.clone();
                        q.push(i);
                        q
                    })
                })
                .collect();
            out.extend(cur.iter().cloned());
        }
        out
    }
}

pub fn show_lines(lines: &[Line]) -> String {
    lines.iter().map(|l| l.show()).collect::<Vec<_>>().join(";")
}

/// Verdict of the model for one text: must be reported / must not be / left open
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Yes,
    No,
    Open,
}

pub fn verdict(lines: &[Line], text: &[u8]) -> Verdict {
    let mut v = Verdict::Yes;
    for l in lines {
        match line_verdict(l, text) {
            Verdict::No => return Verdict::No,
            Verdict::Open => v = Verdict::Open,
            Verdict::Yes => {}
        }
    }
    v
}

fn line_verdict(l: &Line, text: &[u8]) -> Verdict {
    let open = l.fuzz > 0 && (l.explicit_spaces() || l.explicit_puncts());
    let least = if l.fuzz == 0 { Edits::None } else { Edits::Letters };
    // whether spaces and punctuation of the expression can be edited is left open
    let most = if open { Edits::All } else { least };
    let substr = l.e.any(&|e| matches!(e, E::Substr(_)));
    SUBSTR_EMPTY.with(|x| x.set(!substr));
    let yes = l.matches_with(text, least);
    SUBSTR_EMPTY.with(|x| x.set(true));
    if yes {
        Verdict::Yes
    } else if (open || substr) && l.matches_with(text, most) {
        Verdict::Open
    } else {
        Verdict::No
    }
}

fn some<'a>(list: &List, it: impl Iterator<Item = &'a Vec<u32>>) -> Vec<String> {
    it.take(4).map(|p| list.phrase(p)).collect()
}

/// Run `query` and compare everything it reports with `judge`.
pub fn check_query_with(
    ctx: &mut Ctx,
    query: &str,
    list: &List,
    depth: usize,
    judge: &dyn Fn(&[u8], &[u32]) -> Verdict,
) -> Result<Vec<Vec<u32>>, String> {
    let (o, st) = run(query, &list.words, Some(depth), Some(None));
    ctx.count("traces", 1);
    ctx.count("transitions", st.responses);
    let got = match o {
        Outcome::Done(v) => v,
        Outcome::ParseError(e) => return Err(format!("valid query rejected: {}", e.replace('\n', " "))),
        Outcome::Panic(e) => return Err(format!("panicked: {}", e)),
    };
    ctx.outcome(&got);
    ctx.count("reported", got.len() as u64);
    let mut seen: HashMap<&[u32], usize> = HashMap::with_capacity(got.len());
    for p in &got {
        *seen.entry(&p[..]).or_insert(0) += 1;
    }
    if let Some((p, n)) = seen.iter().find(|(_, n)| **n > 1) {
        return Err(format!("{} reported {} times", list.phrase(p), n));
    }
    let all = list.sequences(depth);
    ctx.count("states", all.len() as u64);
    let mut wrong = vec![];
    let mut missing = vec![];
    let mut reported = 0usize;
    for p in &all {
        let v = judge(&list.text_of(p), p);
        let r = seen.contains_key(&p[..]);
        reported += r as usize;
        match (v, r) {
            (Verdict::Yes, false) => missing.push(p.clone()),
            (Verdict::No, true) => wrong.push(p.clone()),
            _ => {}
        }
    }
    if reported != seen.len() {
        return Err(format!(
            "reported something that is not a phrase of at most {} listed words: {:?}",
            depth,
            got.iter().find(|p| p.is_empty() || p.len() > depth).map(|p| list.phrase(p))
        ));
    }
    if !wrong.is_empty() || !missing.is_empty() {
        return Err(format!(
            "answers differ: wrongly reported {:?}, missing {:?}",
            some(list, wrong.iter()),
            some(list, missing.iter())
        ));
    }
    Ok(got)
}

pub fn check_query(ctx: &mut Ctx, lines: &[Line], list: &List, depth: usize) -> Result<Vec<Vec<u32>>, String> {
    let q = show_lines(lines);
    check_query_with(ctx, &q, list, depth, &|t, _| verdict(lines, t))
}

/// The order in which answers come: single words first, as listed; then phrases. Among phrases of
/// one length and one group (the last group any of its words is in) the order is that of the list,
/// and no phrase comes before one that is both no longer and in no later group.
pub fn check_order(list: &List, got: &[Vec<u32>]) -> Result<(), String> {
    let mut phases: Vec<(usize, u8)> = vec![];
    let mut prev: Option<(&Vec<u32>, (usize, u8))> = None;
    for p in got {
        let key = if p.len() == 1 { (1, 0) } else { (p.len(), list.max_tranche(p)) };
        if let Some((q, k)) = prev {
            if k == key && *q >= *p {
                return Err(format!("{} came before {}", list.phrase(q), list.phrase(p)));
            }
        }
        if phases.last() != Some(&key) {
            if phases.contains(&key) {
                return Err(format!("{} came after answers of another kind than its own", list.phrase(p)));
            }
            if let Some(k) = phases.iter().find(|k| k.0 >= key.0 && k.1 >= key.1) {
                return Err(format!("{} came after answers of {} words, group {}", list.phrase(p), k.0, k.1));
            }
            phases.push(key);
        }
        prev = Some((p, key));
    }
    Ok(())
}

/// The rest of a line of query text, for cases that are given as text plus model.
pub fn line(e: E) -> Line {
    Line::plain(e)
}
