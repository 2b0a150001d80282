//! C15: whether an entry is reported does not depend on the other entries.

use super::common::*;
use super::Info;
use crate::ctx::Ctx;
use crate::engine::*;
use std::collections::BTreeSet;

pub fn info() -> Info {
    Info {
        shards: 8,
        hang_cpu_s: 60.0,
        bounds_quick: "32 queries x every sequence (with repetitions, in every order) of <= 4 of 8 prefix-sharing words and every \
                       permutation of <= 5 of them; phrases of 2 words from every sublist of 8 words, every prefix of a sorted list; 1,490 words alone and among each other in three orders",
        bounds_thorough: "as quick with sequences of 5, permutations of 6, phrases of 3 words",
        assumptions: &["queries and words outside the enumerated ones behave like those inside (small scope)"],
    }
}

const QUERIES: &[&str] = &[
    "a", "ab", "abc", "ab.*", "a.*b", ".*b", "...", ".{2,3}", "(ab)+", "[ab]+", "(a|ab)(c|bcd)", "abc !1", "ab !2", "abcd !1", "<abc>", "<abc+>",
    "<abcd->", "(abcd:-)", "(ab:+)", "(abcd:^)", "a;ab", "a.*;.*c", "ab.*;.*b.*;...+", "ab !1;.*c", "ab'c", "a !'", ".*'.*", "ab_c", ".* !_", "b.*", "a?b?c?", "2 1",
];
const UNIVERSE: [&str; 8] = ["a", "ab", "abc", "abcd", "ab'c", "abb", "b", "ab c"];

pub fn run(ctx: &mut Ctx) {
    super::scale::among_many(ctx, QUERIES);
    let th = ctx.thorough();
    // sequences of indexes into the universe
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    let (all_up_to, perms_up_to) = if th { (5, 6) } else { (4, 5) };
    for n in 1..=perms_up_to {
        cur = cur
            .iter()
            .flat_map(|p| {
                (0..8usize).filter_map(move |i| {
                    if n > all_up_to && p.contains(&i) {
                        return None;
                    }
                    let mut q = p.clone();
                    q.push(i);
                    Some(q)
                })
            })
            .collect();
        if n == all_up_to {
            seqs.extend(cur.iter().cloned());
            cur.retain(|p| p.iter().collect::<BTreeSet<_>>().len() == p.len());
        } else {
            seqs.extend(cur.iter().cloned());
        }
    }
    let one_word: Vec<List> = UNIVERSE.iter().map(|w| List::new(&[*w])).collect();
    for q in QUERIES {
        for chunk in seqs.chunks(64) {
            ctx.case(
                || format!("query {:?}, lists from {:?} on", q, chunk[0].iter().map(|&i| UNIVERSE[i]).collect::<Vec<_>>()),
                |ctx| {
                    let alone: Vec<bool> = one_word.iter().map(|l| answers(ctx, q, l, 1).map(|v| v.len() == 1)).collect::<Result<_, _>>()?;
                    for s in chunk {
                        let list = List::new(&s.iter().map(|&i| UNIVERSE[i]).collect::<Vec<_>>());
                        let want: Vec<Vec<u32>> = (0..s.len()).filter(|&i| alone[s[i]]).map(|i| vec![i as u32]).collect();
                        ctx.outcome(&want);
                        ctx.count("states", s.len() as u64);
                        // phrases too: the words kept for the phrase search do not change single words
                        for depth in [1, 2] {
                            let got: Vec<_> = answers(ctx, q, &list, depth)?.into_iter().filter(|p| p.len() == 1).collect();
                            if got != want {
                                return Err(format!(
                                    "in the list {} the answers are {:?}; each word in a list of its own, {:?} (phrases of {} words)",
                                    list.show(),
                                    got.iter().map(|p| list.phrase(p)).collect::<Vec<_>>(),
                                    want.iter().map(|p| list.phrase(p)).collect::<Vec<_>>(),
                                    depth
                                ));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        // phrases: from a sublist, exactly those answers of the whole list that it has the words for
        let depth = if th { 3 } else { 2 };
        let whole = List::tranched(UNIVERSE.iter().enumerate().map(|(i, w)| (w.to_string(), (i / 3) as u8)).collect());
        ctx.case(
            || format!("query {:?}, phrases of {} words from every sublist", q, depth),
            |ctx| {
                let all: BTreeSet<Vec<u32>> = answers(ctx, q, &whole, depth)?.into_iter().collect();
                for m in 0..256u32 {
                    let idx: Vec<usize> = (0..8).filter(|i| m & (1 << i) != 0).collect();
                    let list = List::tranched(idx.iter().map(|&i| whole.entries[i].clone()).collect());
                    let got: BTreeSet<Vec<u32>> =
                        answers(ctx, q, &list, depth)?.into_iter().map(|p| p.iter().map(|&i| idx[i as usize] as u32).collect()).collect();
                    let want: BTreeSet<Vec<u32>> = all.iter().filter(|p| p.iter().all(|i| m & (1 << i) != 0)).cloned().collect();
                    ctx.count("states", want.len() as u64);
                    if got != want {
                        return Err(format!(
                            "from the list {}: {:?} differ",
                            list.show(),
                            got.symmetric_difference(&want).take(4).map(|p| whole.phrase(p)).collect::<Vec<_>>()
                        ));
                    }
                }
                Ok(())
            },
        );
    }
}

fn answers(ctx: &mut Ctx, q: &str, list: &List, depth: usize) -> Result<Vec<Vec<u32>>, String> {
    let (o, st) = crate::engine::run(q, &list.words, Some(depth), Some(None));
    ctx.count("traces", 1);
    ctx.count("transitions", st.responses);
    match o {
        Outcome::Done(v) => Ok(v),
        o => Err(format!("list {}: {:?}", list.show(), o)),
    }
}
