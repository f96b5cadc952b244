mod alloc;
mod effects;
mod dict;
#[macro_use]
mod engine;
mod props;
mod util;

use engine::*;
use std::collections::BTreeMap;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

macro_rules! dispatch {
    ($id:expr, $f:ident, $($a:expr),*) => {
        match $id {
            "C01" => $f::<props::c01::P>($($a),*),
            "C02" => $f::<props::c02::P>($($a),*),
            "C03" => $f::<props::c03::P>($($a),*),
            "C04" => $f::<props::c04::P>($($a),*),
            "C05" => $f::<props::c05::P>($($a),*),
            "C06" => $f::<props::c06::P>($($a),*),
            "C07" => $f::<props::c07::P>($($a),*),
            "C08" => $f::<props::c08::P>($($a),*),
            "C09" => $f::<props::c09::P>($($a),*),
            "C10" => $f::<props::c10::P>($($a),*),
            "C11" => $f::<props::c11::P>($($a),*),
            "C12" => $f::<props::c12::P>($($a),*),
            "C13" => $f::<props::c13::P>($($a),*),
            "C14" => $f::<props::c14::P>($($a),*),
            "C15" => $f::<props::c15::P>($($a),*),
            "C16" => $f::<props::c16::P>($($a),*),
            "C17" => $f::<props::c17::P>($($a),*),
            "C18" => $f::<props::c18::P>($($a),*),
            "C19" => $f::<props::c19::P>($($a),*),
            "C20" => $f::<props::c20::P>($($a),*),
            "C21" => $f::<props::c21::P>($($a),*),
            "C22" => $f::<props::c22::P>($($a),*),
            "C23" => $f::<props::c23::P>($($a),*),
            "C24" => $f::<props::c24::P>($($a),*),
            "C25" => $f::<props::c25::P>($($a),*),
            "C26" => $f::<props::c26::P>($($a),*),
            "C27" => $f::<props::c27::P>($($a),*),
            "C28" => $f::<props::c28::P>($($a),*),
            "C29" => $f::<props::c29::P>($($a),*),
            "C30" => $f::<props::c30::P>($($a),*),
            "C31" => $f::<props::c31::P>($($a),*),
            x => { eprintln!("unknown property {x}"); 3 }
        }
    };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let bins = || Bins {
        by: std::env::var("HARNESS_BINS")
            .expect("HARNESS_BINS")
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| {
                let (k, v) = x.split_once('=').unwrap();
                (k.to_string(), PathBuf::from(v))
            })
            .collect::<BTreeMap<_, _>>(),
    };
    let code = match s(1) {
        "run" => {
            let root = PathBuf::from(std::env::var("HARNESS_ROOT").expect("HARNESS_ROOT"));
            let (b, t, seed) = (bins(), Tier::parse(s(3)), s(4).parse().unwrap_or(1));
            dispatch!(s(2), run, &b, t, seed, &root)
        }
        "replay" => {
            let b = bins();
            let f = PathBuf::from(s(3));
            dispatch!(s(2), replay, &b, &f)
        }
        "one" => {
            let f = PathBuf::from(s(4));
            dispatch!(s(2), one, s(3), &f)
        }
        "shard" => {
            let sa = ShardArgs {
                build: s(3).into(),
                idx: s(4).parse().unwrap(),
                n: s(5).parse().unwrap(),
                tier: Tier::parse(s(6)),
                seed: s(7).parse().unwrap(),
                out: PathBuf::from(s(8)),
            };
            dispatch!(s(2), shard, &sa)
        }
        "dict" => {
            dict::show();
            0
        }
        _ => {
            eprintln!("usage: harness run|replay|one|shard ...");
            3
        }
    };
    std::process::exit(code)
}
