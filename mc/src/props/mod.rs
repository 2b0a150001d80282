use crate::ctx::Ctx;

pub mod common;
pub mod scale;
mod anagram;
mod busy;
mod cli;
mod context;
mod deadline;
mod laws;
mod limits;
mod listgen;
mod norm;
mod order;
mod page;
mod explicit;
mod files;
mod fuzzy;
mod gauge;
mod http;
mod load;
mod multi;
mod partial;
mod phrase;
mod regex;
mod robust;
mod text;
mod ws;

pub struct Info {
    pub shards: u64,
    /// a case that takes more CPU time than this counts as endless
    pub hang_cpu_s: f64,
    pub bounds_quick: &'static str,
    pub bounds_thorough: &'static str,
    pub assumptions: &'static [&'static str],
}

macro_rules! props {
    ($($id:literal => $m:ident),* $(,)?) => {
        pub fn info(p: &str) -> Option<Info> {
            match p { $($id => Some($m::info()),)* _ => None }
        }
        pub fn run(p: &str, ctx: &mut Ctx) {
            match p { $($id => $m::run(ctx),)* _ => panic!("unknown property") }
        }
    };
}

props! {
    "C01" => regex,
    "C02" => phrase,
    "C03" => multi,
    "C04" => fuzzy,
    "C05" => anagram,
    "C06" => partial,
    "C07" => explicit,
    "C08" => deadline,
    "C09" => limits,
    "C10" => order,
    "C11" => robust,
    "C12" => text,
    "C13" => norm,
    "C14" => load,
    "C15" => context,
    "C16" => laws,
    "C17" => http,
    "C18" => ws,
    "C19" => gauge,
    "C20" => cli,
    "C21" => page,
    "C22" => files,
    "C23" => listgen,
    "C24" => busy,
}
