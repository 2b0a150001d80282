//! Exhaustive generators: every expression tree with exactly `n` operators over given leaves.

use crate::model::*;

#[derive(Clone)]
pub struct Grammar {
    pub leaves: Vec<E>,
    /// repetition suffixes
    pub reps: Vec<(usize, Option<usize>)>,
    pub groups: bool,
    pub partials: bool,
}

impl Grammar {
    /// `levels(n)[k]` = all trees with exactly `k` operators.
    pub fn levels(&self, n: usize) -> Vec<Vec<E>> {
        let mut l: Vec<Vec<E>> = vec![self.leaves.clone()];
        for k in 1..=n {
            let mut cur = vec![];
            for e in &l[k - 1] {
                for &(min, max) in &self.reps {
                    cur.push(E::Rep(Box::new(e.clone()), min, max));
                }
                // an explicit group around something that would not be grouped on its own
                if self.groups && matches!(e, E::Seq(_) | E::Alt(_)) {
                    cur.push(E::Group(Box::new(e.clone())));
                }
                if self.partials {
                    for f in [E::Subset as fn(Vec<E>) -> E, E::Superset, E::Substr] {
                        // the terms of the body: those of a sequence, else the expression alone
                        let terms = match e {
                            E::Seq(v) => v.clone(),
                            e => vec![e.clone()],
                        };
                        cur.push(f(terms));
                    }
                }
            }
            for i in 0..k {
                let j = k - 1 - i;
                for a in &l[i] {
                    for b in &l[j] {
                        // right operands of the same kind are written flat: "abc", "a|b|c";
                        // left operands keep their parentheses: "(ab)c", "(a|b)|c"
                        let mut s = vec![a.clone()];
                        match b {
                            E::Seq(v) => s.extend(v.iter().cloned()),
                            b => s.push(b.clone()),
                        }
                        cur.push(E::Seq(s));
                        let mut s = vec![a.clone()];
                        match b {
                            E::Alt(v) => s.extend(v.iter().cloned()),
                            b => s.push(b.clone()),
                        }
                        cur.push(E::Alt(s));
                    }
                }
            }
            l.push(cur);
        }
        l
    }
}

/// All strings over `alpha` with length in `lo..=hi`, shortest first.
pub fn strings(alpha: &str, lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for n in 0..=hi {
        if n >= lo {
            out.extend(cur.iter().cloned());
        }
        cur = cur
            .iter()
            .flat_map(|s| alpha.chars().map(move |c| format!("{}{}", s, c)))
            .collect();
    }
    out
}
