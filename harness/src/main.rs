mod cost;
mod det;
mod fault;
mod group;
mod hist;
mod htree;
mod huge;
mod kinds;
mod mapchk;
mod nest;
mod own;
mod paged;
mod report;
mod seqc;
mod ser;
mod still;
mod sha;
mod track;
mod tree;
mod util;
mod vals;
mod wit;

use report::{case_rng, guarded, Ctx, Fail, Tier, R};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: track::Counting = track::Counting;

fn one(ctx: &mut Ctx, case: u64) -> R {
    let prop = ctx.prop.clone();
    let mut rng = case_rng(&prop, ctx.seed, case);
    let r = &mut rng;
    ctx.case = case;
    let kind = r.below(kinds::KINDS);
    if matches!(&prop[..], "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C10" | "C12" | "C14") {
        if let Some(n) = huge::size(ctx, r, case) {
            return huge::huge(ctx, r, n);
        }
    }
    // Paged collections have a share of the cases about roots and witnesses.
    if r.chance(1, if prop == "C19" { 3 } else { 7 }) {
        use mapchk::Judge::*;
        match &prop[..] {
            "C02" => return paged::root(ctx, r),
            "C03" => return paged::witness(ctx, r, Hash),
            "C04" => return paged::witness(ctx, r, KeyProof),
            "C06" => return paged::witness(ctx, r, Minimal),
            "C19" => return still::c19(ctx, r),
            _ => {}
        }
    }
    match &prop[..] {
        "C01" => { use mapchk::c01 as f; with_kind!(kind, f(ctx, r)) }
        "C02" => { use mapchk::c02 as f; with_kind!(kind, f(ctx, r)) }
        "C03" => { use mapchk::witnesses as f; with_kind!(kind, f(ctx, r, mapchk::Judge::Hash)) }
        "C04" => { use mapchk::witnesses as f; with_kind!(kind, f(ctx, r, mapchk::Judge::KeyProof)) }
        "C05" => { use mapchk::witnesses as f; with_kind!(kind, f(ctx, r, mapchk::Judge::Complete)) }
        "C06" => { use mapchk::witnesses as f; with_kind!(kind, f(ctx, r, mapchk::Judge::Minimal)) }
        "C07" => htree::c07(ctx, r),
        "C08" => vals::c08(ctx, r),
        "C09" => vals::c09(ctx, r),
        "C10" => cost::c10(ctx, r),
        "C11" => own::c11(ctx, r),
        "C12" => seqc::c12(ctx, r),
        "C13" => paged::c13(ctx, r),
        "C14" => ser::c14(ctx, r),
        "C15" => group::c15(ctx, r),
        "C16" => det::c16(ctx, r),
        "C17" => fault::c17(ctx, r),
        "C18" => nest::c18(ctx, r),
        "C19" => { use mapchk::c19 as f; with_kind!(kind, f(ctx, r)) }
        p => { eprintln!("unknown property {}", p); std::process::exit(2) }
    }
}

fn main() -> std::process::ExitCode {
    // Deep trees and debug builds need room.
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    // Return rather than exit, so that leak checkers see the end.
    std::process::ExitCode::from(t.join().unwrap_or(2) as u8)
}

fn real_main() -> i32 {
    let mut args: std::collections::HashMap<String, String> = Default::default();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let v = it.next().expect("option value");
        args.insert(a.trim_start_matches("--").to_string(), v);
    }
    let num = |k: &str, d: u64| args.get(k).map_or(d, |v| v.parse().expect("number"));
    #[cfg(not(feature = "fake"))]
    {
        sha::self_test();
        tree::self_test();
    }
    report::install_hook();
    let tier = if args.get("tier").map(|s| &s[..]) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut ctx = Ctx::new(&args["prop"], num("seed", 1), tier, args.get("crumb").map(|s| &s[..]));
    ctx.small = num("small", 0) == 1;
    ctx.log = num("log", 0) == 1;
    ctx.huge = num("huge", 1) == 1;
    if let Some(c) = args.get("case") {
        // Replay of one case.
        let case = c.parse().expect("case");
        return match guarded(|| one(&mut ctx, case)) {
            Ok(()) => {
                println!("case {} of {} with seed {}: held", case, ctx.prop, ctx.seed);
                0
            }
            Err(Fail(m)) => {
                println!("case {} of {} with seed {}: {}", case, ctx.prop, ctx.seed, m);
                1
            }
        };
    }
    let (shard, shards) = (num("shard", 0), num("shards", 1));
    let cases = num("cases", 1000);
    let stop = Instant::now() + Duration::from_secs(num("time", 3600));
    if ctx.prop != "C16" {
        report::deadline(stop);
    }
    let mut done = 0;
    let mut bad = None;
    for i in 0..cases {
        if Instant::now() > stop {
            break;
        }
        let case = shard + i * shards;
        ctx.case = case;
        ctx.crumb("");
        if let Err(Fail(m)) = guarded(|| one(&mut ctx, case)) {
            bad = Some((case, m));
            break;
        }
        done += 1;
        if ctx.digest.0 != util::Sig::new().0 {
            let d = std::mem::replace(&mut ctx.digest, util::Sig::new());
            ctx.digests.push((case, d.0));
        }
    }
    let json = ctx.to_json(done, bad.as_ref().map(|(c, m)| (*c, &m[..])));
    match args.get("out") {
        Some(p) => {
            std::fs::write(p, json).expect("write report");
            std::fs::write(format!("{}.sig", p), ctx.sig_bytes()).expect("write signatures");
        }
        None => print!("{}", json),
    }
    if bad.is_some() {
        1
    } else {
        0
    }
}
