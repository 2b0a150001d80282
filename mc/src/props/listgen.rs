//! C23: the list generator, and the lists it writes as noodle loads them.

use super::Info;
use crate::ctx::Ctx;
use crate::scratch::Scratch;
use crate::web::Json;
use noodle::{load_wordlist, Word};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 120.0,
        bounds_quick: "every Unicode character alone and in four places of a word; every text of up to 5 characters over 12 (letters of both cases, an accent, dashes, \
                       apostrophe, period, brackets, colon, underscore, digit), and of 3 pieces of addresses; 2 articles in one or two files out of 9 titles x 64 bodies; every \
                       assignment of 7 pairs of counts to 4 forms of a word (and to 4 other sets of forms) in two orders and in one or two files, with 3 cutoffs; every sequence of \
                       3 out of 11 dictionary entries; every list that comes out is loaded by noodle",
        bounds_thorough: "texts of up to 6 characters, assignments to 5 forms, sequences of 4 dictionary entries",
        assumptions: &[
            "the zstandard and orjson libraries are replaced by plain text and Python's json, the pool of processes by a loop",
            "words without an ASCII letter and lists of less than two words are left open, and which of several equally good forms of a word is written",
        ],
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: AsRef<str>>(l: &[T]) -> String {
    format!("[{}]", l.iter().map(|s| s.as_ref().to_string()).collect::<Vec<_>>().join(","))
}
fn strings(l: &[&str]) -> String {
    list(&l.iter().map(|s| js(s)).collect::<Vec<_>>())
}
fn text(j: &Json) -> String {
    match j {
        Json::Str(s) => s.clone(),
        _ => panic!("not a text: {:?}", j),
    }
}
fn items(j: Option<&Json>) -> Vec<Json> {
    match j {
        Some(Json::List(l)) => l.clone(),
        _ => panic!("not a list: {:?}", j),
    }
}

struct Driver {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
    scratch: Scratch,
    table: super::norm::Table,
}

impl Drop for Driver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn letters(w: &str) -> String {
    Word::new(w, 0, 0).chars.iter().map(|c| c.into_char()).filter(|c| c.is_ascii_alphabetic()).collect()
}

impl Driver {
    fn start() -> Driver {
        let mut child = Command::new("python3")
            .args(["-I", "-B", "/verif/mc/listgen/driver.py"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("python3");
        let input = child.stdin.take().unwrap();
        let output = BufReader::new(child.stdout.take().unwrap());
        Driver { child, input, output, scratch: Scratch::new(), table: super::norm::Table::load() }
    }
    fn ask(&mut self, ctx: &mut Ctx, cmd: &str, args: &[String]) -> Result<(), String> {
        let dir = self.scratch.0.join("listgen");
        writeln!(self.input, "{{\"cmd\":{},\"args\":{},\"scratch\":{}}}", js(cmd), list(args), js(dir.to_str().unwrap())).unwrap();
        self.input.flush().unwrap();
        let mut line = String::new();
        self.output.read_line(&mut line).unwrap();
        let j = Json::parse(line.trim_end()).unwrap_or_else(|| panic!("the driver ended: {:?}", line));
        if let Some(Json::Str(e)) = j.field("error") {
            return Err(e.clone());
        }
        if let Some(Json::Num(n)) = j.field("states") {
            ctx.count("states", *n as u64);
            ctx.count("traces", *n as u64);
        }
        // noodle reads the same letters in each word
        for p in items(j.field("pairs")) {
            let p = items(Some(&p));
            let (word, canonical) = (text(&p[0]), text(&p[1]));
            // (the generator folds sharp s, noodle does not: left open; so are characters newer than Unicode 13)
            if word.contains(&['\u{df}', '\u{1e9e}'][..]) || word.chars().any(|c| self.table.of(c).is_none()) {
                continue;
            }
            let want: String = canonical.chars().filter(|c| c.is_ascii_alphabetic()).collect();
            if letters(&word) != want {
                return Err(format!("{:?} is listed as {:?}, noodle reads {:?}", word, canonical, letters(&word)));
            }
            ctx.count("transitions", 1);
        }
        // and every word of each list, with its value
        for p in items(j.field("lists")) {
            let p = text(&p);
            let file = std::fs::read_to_string(&p).unwrap();
            let mut want: Vec<(String, u32)> = vec![];
            for l in file.lines() {
                let (value, word) = l.split_once('\t').unwrap();
                let value: u32 = value.parse().map_err(|_| format!("the value of {:?} is no number", l))?;
                let n = letters(word).len();
                if n > 1 || word == "a" || word == "I" {
                    want.push((word.to_string(), value));
                }
            }
            let mut got: Vec<(String, u32)> =
                load_wordlist(&p).map_err(|_| format!("not loaded: {:?}", file))?.iter().map(|w| (w.text.to_string(), w.score)).collect();
            want.sort();
            got.sort();
            // (a single letter with punctuation is longer than one letter for noodle)
            got.retain(|(w, _)| letters(w).len() > 1 || w == "a" || w == "I");
            if want != got {
                return Err(format!("of the list {:?}, noodle loads {:?}", file, got));
            }
            std::fs::remove_file(&p).unwrap();
            ctx.count("transitions", want.len() as u64);
            ctx.outcome(&want);
        }
        Ok(())
    }
}

thread_local!(static DRIVER: RefCell<Option<Driver>> = RefCell::new(None));

fn case(ctx: &mut Ctx, cmd: &str, args: Vec<String>) {
    ctx.case(
        || format!("{} {}", cmd, args.join(" ")),
        |ctx| DRIVER.with(|d| d.borrow_mut().get_or_insert_with(Driver::start).ask(ctx, cmd, &args)),
    );
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough();
    // characters
    let step = 0x1000;
    for lo in (0..0x110000).step_by(step) {
        case(ctx, "chars", vec![lo.to_string(), (lo + step).to_string()]);
    }
    // words
    let alphabet = ["a", "B", "\u{e9}", "-", "'", "\u{2013}", ".", "(", ":", "_", "1", "/"];
    for f in alphabet {
        for g in alphabet {
            case(ctx, "words", vec![strings(&alphabet), js(&format!("{}{}", f, g)), (4 + th as usize).to_string()]);
        }
    }
    let pieces = ["www", ".", "www.", ".com", "com", ".co", ".co.", ".uk", ".dk", ".at", "a", "-", ".biz", ".info", ".org", ".net", ".gov", ".cz", ".de", ".today"];
    for f in pieces {
        case(ctx, "words", vec![strings(&pieces), js(f), (3 + th as usize).to_string()]);
    }
    // articles
    let titles = ["ab", "Ab cd", "(ab)", "x1 ab", "AB ab Ab", "", "ab,cd ab", "\u{e4}b", "Retrieved ab Retrieved cd Retrieved"];
    let mut bodies = vec![];
    for a in ["ab", "Ab:cd", "\u{c4}b's", "cd"] {
        for b in ["", " Retrieved", " Retrieved today, ab", "Retrieved in"] {
            for c in ["", " Retrieved ", " ab Retrieved cd", " Retrieved ab Retrieved ab."] {
                bodies.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    let bodies: Vec<&str> = bodies.iter().map(|s| s.as_str()).collect();
    for t in titles {
        for second in ["null", "[\"ab\",0.1,\"AB ab\"]", "[null,0.1,\"ab\"]", "[\"ab\",null,null]", "[\"Cd\",1,\"ab Retrieved AB Retrieved ab\"]"] {
            case(ctx, "articles", vec![strings(&[t]), strings(&bodies), second.into()]);
        }
    }
    case(ctx, "articles", vec!["[null]".into(), strings(&bodies[..4]), "null".into()]);
    case(ctx, "articles", vec![strings(&titles), "[null]".into(), "[\"ab\",0.1,\"AB ab\"]".into()]);
    // counts
    let sets: [&[&str]; 5] = [
        &["ab", "Ab", "\u{e4}b", "cd"],
        &["i.b.m", "IBM", "ibm", "ib-m"],
        &["don't", "Don't", "dont", "x1y"],
        &["\u{e6}on", "aeon", "\u{c6}on", "a.b-c'd.e"],
        &["stra\u{df}e", "Strasse", "a-b", "a'''''b"],
    ];
    let choices = ["[0,0]", "[1,0]", "[0,1]", "[100,0]", "[3,100]", "[0,101]", "[250,249]"];
    for (k, set) in sets.iter().enumerate() {
        let mut set: Vec<&str> = set.to_vec();
        if th && k == 0 {
            set.push("a-b");
        }
        for a in choices {
            for b in choices {
                for chunks in ["1", "2"] {
                    case(ctx, "counts", vec![strings(&set), list(&choices), list(&[a, b]), "[1,50,250]".to_string()].into_iter().chain([chunks.to_string()]).collect());
                }
            }
        }
    }
    // dictionary
    let entries: Vec<String> = [
        r#"{"lang_code":"en","word":"zag"}"#,
        r#"{"lang_code":"en","word":"ab"}"#,
        r#"{"lang_code":"en","word":"Ab","forms":[{"form":"abs"},{"form":"a b"},{"form":"\u00e4b"}]}"#,
        r#"{"lang_code":"en","word":"abs","forms":[{"form":"ab"}]}"#,
        r#"{"lang_code":"de","word":"xy"}"#,
        r#"{"word":"no"}"#,
        r#"{"lang_code":"en"}"#,
        r#"{"lang_code":"en","word":"1st"}"#,
        r#"{"lang_code":"en","word":"cd ef"}"#,
        r#"{"lang_code":"en","word":"\u00e9tude","forms":[]}"#,
        r#"{"lang_code":"en","word":"-ing","forms":[{"form":"zag"}]}"#,
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for e in &entries {
        for cutoff in ["1", "400"] {
            case(ctx, "dictionary", vec![list(&entries), (2 + th as usize).to_string(), e.clone(), cutoff.to_string()]);
        }
    }
}
