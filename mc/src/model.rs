//! Reference model: what a noodle expression means, written from the help text only.
//!
//! Letters are 0..26, 26 is "any punctuation", 27 is a space (word boundary).
//! Nothing in this file looks at the implementation.

pub const PUNCT: u8 = 26;
pub const SPACE: u8 = 27;
pub const LETTERS: u32 = (1 << 26) - 1;
pub const ANY: u32 = (1 << 28) - 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ana {
    Exact,
    Super,
    Sub,
    Add(usize),
    Del(usize),
}

/// The model's own expression tree. Printed to query text by `show`, never shared with the parser.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    /// one symbol out of a set, with the spelling used in the query text
    Cls(u32, &'static str),
    Seq(Vec<E>),
    Alt(Vec<E>),
    Group(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
    Subset(Vec<E>),
    Superset(Vec<E>),
    Substr(Vec<E>),
    Enum(usize),
    Ana(Ana, &'static str),
}

pub fn lit(c: char) -> E {
    const S: [&str; 26] = [
        "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
        "s", "t", "u", "v", "w", "x", "y", "z",
    ];
    let i = c as usize - 'a' as usize;
    E::Cls(1 << i, S[i])
}
pub fn rep(e: E, a: usize, b: Option<usize>) -> E {
    E::Rep(Box::new(e), a, b)
}
pub fn star(e: E) -> E {
    rep(e, 0, None)
}
pub fn opt(e: E) -> E {
    rep(e, 0, Some(1))
}
/// The letters of `s` one after the other.
pub fn word(s: &str) -> E {
    E::Seq(s.chars().map(|c| if c == '.' { dot() } else { lit(c) }).collect())
}
pub fn seq(v: &[E]) -> E {
    E::Seq(v.to_vec())
}
pub fn alt(v: &[E]) -> E {
    E::Alt(v.to_vec())
}
pub fn dot() -> E {
    E::Cls(LETTERS, ".")
}
pub fn space() -> E {
    E::Cls(1 << SPACE, "_")
}
pub fn punct() -> E {
    E::Cls(1 << PUNCT, "'")
}
pub fn mask(s: &str) -> u32 {
    s.bytes().map(|b| 1u32 << sym(b)).fold(0, |a, b| a | b)
}
pub fn sym(b: u8) -> u8 {
    match b {
        b'a'..=b'z' => b - b'a',
        b'A'..=b'Z' => b - b'A',
        b' ' | b'_' => SPACE,
        _ => PUNCT,
    }
}
/// Reference normalisation for ASCII words: letters fold to lower case, space/underscore are
/// spaces, all else is punctuation; a word boundary follows the word.
pub fn norm_ascii(s: &str) -> Vec<u8> {
    debug_assert!(s.is_ascii());
    let mut v: Vec<u8> = s.bytes().map(sym).collect();
    v.push(SPACE);
    v
}

impl E {
    fn show_term(&self, out: &mut String) {
        match self {
            E::Cls(_, s) => out.push_str(s),
            E::Subset(t) => Self::show_partial(t, ":-)", out),
            E::Superset(t) => Self::show_partial(t, ":+)", out),
            E::Substr(t) => Self::show_partial(t, ":^)", out),
            E::Enum(n) => {
                out.push(' ');
                out.push_str(&n.to_string());
                out.push(' ');
            }
            E::Ana(k, bank) => {
                out.push('<');
                out.push_str(bank);
                match k {
                    Ana::Exact => {}
                    Ana::Super => out.push('+'),
                    Ana::Sub => out.push('-'),
                    Ana::Add(n) => out.push_str(&format!("+{}", n)),
                    Ana::Del(n) => out.push_str(&format!("-{}", n)),
                }
                out.push('>');
            }
            E::Group(e) => {
                out.push('(');
                e.show_top(out);
                out.push(')');
            }
            _ => {
                out.push('(');
                self.show_top(out);
                out.push(')');
            }
        }
    }
    fn show_partial(t: &[E], close: &str, out: &mut String) {
        out.push('(');
        for e in t {
            e.show_term(out);
        }
        out.push_str(close);
    }
    fn show_item(&self, out: &mut String) {
        match self {
            E::Rep(e, min, max) => {
                e.show_term(out);
                match (min, max) {
                    (0, None) => out.push('*'),
                    (1, None) => out.push('+'),
                    (0, Some(1)) => out.push('?'),
                    (n, None) => out.push_str(&format!("{{{},}}", n)),
                    (n, Some(m)) if n == m => out.push_str(&format!("{{{}}}", n)),
                    (0, Some(m)) => out.push_str(&format!("{{,{}}}", m)),
                    (n, Some(m)) => out.push_str(&format!("{{{},{}}}", n, m)),
                }
            }
            _ => self.show_term(out),
        }
    }
    fn show_seq(&self, out: &mut String) {
        match self {
            E::Seq(v) => v.iter().for_each(|e| e.show_item(out)),
            _ => self.show_item(out),
        }
    }
    pub fn show_top(&self, out: &mut String) {
        match self {
            E::Alt(v) => {
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push('|');
                    }
                    e.show_seq(out);
                }
            }
            _ => self.show_seq(out),
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_top(&mut s);
        s
    }

    pub fn any(&self, f: &dyn Fn(&E) -> bool) -> bool {
        f(self)
            || match self {
                E::Seq(v) | E::Alt(v) | E::Subset(v) | E::Superset(v) | E::Substr(v) => v.iter().any(|e| e.any(f)),
                E::Group(e) | E::Rep(e, _, _) => e.any(f),
                _ => false,
            }
    }

    /// Does the expression mention a space / punctuation symbol itself?
    pub fn mentions(&self, sym: u8) -> bool {
        match self {
            E::Cls(m, _) => m & (1 << sym) != 0,
            E::Seq(v) | E::Alt(v) | E::Subset(v) | E::Substr(v) => {
                v.iter().any(|e| e.mentions(sym))
            }
            // "superset" allows any symbol in between, spaces and punctuation included
            E::Superset(_) => true,
            E::Group(e) | E::Rep(e, _, _) => e.mentions(sym),
            E::Enum(_) => sym == SPACE,
            E::Ana(..) => false,
        }
    }
}

thread_local! {
    /// Does a substring include the empty run of its terms?
    pub static SUBSTR_EMPTY: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

pub const INF: u8 = 200;
/// `cost[p]` = least number of edits after which the first `p` symbols are consumed.
pub type Cost = Vec<u8>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Edits {
    /// no edits at all
    None,
    /// edits touch letters of the expression and any symbol of the text
    Letters,
    /// full Levenshtein distance over all 28 symbols
    All,
}

fn min_into(a: &mut Cost, b: &Cost) -> bool {
    let mut ch = false;
    for (x, y) in a.iter_mut().zip(b) {
        if *y < *x {
            *x = *y;
            ch = true;
        }
    }
    ch
}

/// Extra symbols in the text: each costs one edit.
fn extra(c: &mut Cost, cap: u8, edits: Edits) {
    if edits == Edits::None {
        return;
    }
    for p in 0..c.len() - 1 {
        let n = c[p].saturating_add(1);
        if n <= cap && n < c[p + 1] {
            c[p + 1] = n;
        }
    }
}

/// Least-cost end positions of matching `e` from the start costs `c`.
pub fn ends(e: &E, w: &[u8], c: &Cost, cap: u8, edits: Edits) -> Cost {
    match e {
        E::Cls(m, _) => step_cls(*m, w, c, cap, edits),
        E::Seq(v) => {
            let mut c = c.clone();
            for x in v {
                c = ends(x, w, &c, cap, edits);
            }
            c
        }
        E::Alt(v) => {
            let mut r = vec![INF; c.len()];
            for x in v {
                min_into(&mut r, &ends(x, w, c, cap, edits));
            }
            r
        }
        E::Group(x) => ends(x, w, c, cap, edits),
        E::Rep(x, min, max) => {
            let mut r = vec![INF; c.len()];
            let mut cur = c.clone();
            let mut i = 0usize;
            loop {
                if i >= *min {
                    let changed = min_into(&mut r, &cur);
                    if max.is_none() && !changed {
                        break;
                    }
                }
                if Some(i) == *max {
                    break;
                }
                cur = ends(x, w, &cur, cap, edits);
                i += 1;
                if cur.iter().all(|&x| x == INF) {
                    break;
                }
            }
            r
        }
        E::Subset(v) => {
            let mut c = c.clone();
            for x in v {
                let n = ends(x, w, &c, cap, edits);
                min_into(&mut c, &n);
            }
            c
        }
        E::Superset(v) => {
            let any = E::Rep(Box::new(E::Cls(ANY, "[a-z'_]")), 0, None);
            let mut c = ends(&any, w, c, cap, edits);
            for x in v {
                c = ends(x, w, &c, cap, edits);
                c = ends(&any, w, &c, cap, edits);
            }
            c
        }
        E::Substr(v) => {
            // any consecutive run of the terms; whether the empty run is one is left open
            let mut r = if SUBSTR_EMPTY.with(|x| x.get()) { c.clone() } else { vec![INF; c.len()] };
            for i in 0..v.len() {
                let mut cur = c.clone();
                for x in &v[i..] {
                    cur = ends(x, w, &cur, cap, edits);
                    min_into(&mut r, &cur);
                }
            }
            r
        }
        E::Enum(n) => {
            let mut c = c.clone();
            for _ in 0..*n {
                c = step_cls(LETTERS, w, &c, cap, edits);
            }
            step_cls(1 << SPACE, w, &c, cap, edits)
        }
        E::Ana(k, bank) => {
            assert!(edits == Edits::None, "anagrams have no fuzzy semantics");
            let mut hist = [0usize; 26];
            bank.bytes().for_each(|b| hist[sym(b) as usize] += 1);
            let n = bank.len();
            let mut r = vec![INF; c.len()];
            for p in 0..c.len() {
                if c[p] != 0 {
                    continue;
                }
                let mut have = [0usize; 26];
                for q in p..c.len() {
                    if q > p {
                        if w[q - 1] >= 26 {
                            break;
                        }
                        have[w[q - 1] as usize] += 1;
                    }
                    let len = q - p;
                    let at_least = (0..26).all(|i| have[i] >= hist[i]);
                    let at_most = (0..26).all(|i| have[i] <= hist[i]);
                    let ok = match k {
                        Ana::Exact => at_least && at_most,
                        Ana::Super => at_least,
                        Ana::Sub => at_most,
                        Ana::Add(a) => at_least && len == n + a,
                        // deleting more letters than there are leaves none
                        Ana::Del(d) => at_most && len == n.saturating_sub(*d),
                    };
                    if ok {
                        r[q] = 0;
                    }
                }
            }
            r
        }
    }
}

fn step_cls(m: u32, w: &[u8], c: &Cost, cap: u8, edits: Edits) -> Cost {
    let mut c = c.clone();
    extra(&mut c, cap, edits);
    let mut r = vec![INF; c.len()];
    // may this symbol of the expression be dropped or replaced?
    let editable = match edits {
        Edits::None => false,
        Edits::Letters => m & LETTERS != 0,
        Edits::All => m & ANY != 0,
    };
    for p in 0..c.len() {
        if c[p] > cap {
            continue;
        }
        if editable && c[p] + 1 <= cap {
            r[p] = r[p].min(c[p] + 1); // missing from the text
        }
        if p < w.len() {
            if m & (1 << w[p]) != 0 {
                r[p + 1] = r[p + 1].min(c[p]);
            } else if editable && c[p] + 1 <= cap {
                r[p + 1] = r[p + 1].min(c[p] + 1);
            }
        }
    }
    extra(&mut r, cap, edits);
    r
}

/// One line of a query.
#[derive(Clone, Debug)]
pub struct Line {
    pub e: E,
    pub spaces: bool,
    pub puncts: bool,
    pub fuzz: usize,
}

impl Line {
    pub fn plain(e: E) -> Line {
        Line { e, spaces: false, puncts: false, fuzz: 0 }
    }
    pub fn show(&self) -> String {
        let mut s = self.e.show();
        if self.spaces {
            s.push_str(" !_");
        }
        if self.puncts {
            s.push_str(" !'");
        }
        if self.fuzz > 0 {
            s.push_str(&format!(" !{}", self.fuzz));
        }
        s
    }
    pub fn explicit_spaces(&self) -> bool {
        self.spaces || self.e.mentions(SPACE)
    }
    pub fn explicit_puncts(&self) -> bool {
        self.puncts || self.e.mentions(PUNCT)
    }

    /// Does the text (symbols of the words, each followed by a space) satisfy this line?
    pub fn matches(&self, text: &[u8]) -> bool {
        self.matches_with(text, if self.fuzz == 0 { Edits::None } else { Edits::Letters })
    }

    pub fn matches_with(&self, text: &[u8], edits: Edits) -> bool {
        let (es, ep) = (self.explicit_spaces(), self.explicit_puncts());
        let w: Vec<u8> = text
            .iter()
            .copied()
            .filter(|&s| (es || s != SPACE) && (ep || s != PUNCT))
            .collect();
        let mut c = vec![INF; w.len() + 1];
        c[0] = 0;
        let cap = self.fuzz as u8;
        let mut r = ends(&self.e, &w, &c, cap, edits);
        extra(&mut r, cap, edits);
        if es {
            // word boundaries left over at the end are absorbed
            r = ends(&star(space()), &w, &r, cap, edits);
            extra(&mut r, cap, edits);
        }
        r[w.len()] <= cap
    }
}
