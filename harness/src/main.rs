#[macro_use]
mod infra;
mod gen;
mod refm;
mod coll;
mod strm;
mod sys;
#[cfg(all(feature = "full", not(miri)))]
mod mock;
#[cfg(all(feature = "full", not(miri)))]
mod engine;
mod props;

use infra::*;

#[global_allocator]
static A: sys::MonAlloc = sys::MonAlloc;

fn main() {
    install_panic_hook();
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let mut ctx = Ctx::new(&prop);
    let mut out = None;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--seed" => ctx.seed = v().parse().unwrap(),
            "--tier" => ctx.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                ctx.shard = a.parse().unwrap();
                ctx.nshards = b.parse().unwrap();
            }
            "--scale" => ctx.scale = v().parse().unwrap(),
            "--only" => {
                let s = v();
                let (a, b) = s.rsplit_once('#').unwrap();
                ctx.only = Some((a.to_string(), b.parse().unwrap()));
            }
            "--out" => out = Some(v()),
            "--verbose" => ctx.verbose = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    if ctx.only.is_some() {
        ctx.verbose = true;
    }
    #[cfg(not(miri))]
    if let Some(out) = &out {
        ctx.crumb = std::fs::File::create(format!("{out}.crumb")).ok();
        if ctx.crumb.is_some() {
            sys::start_watchdog(out.clone(), prop.clone(), ctx.seed, ctx.shard);
        }
    }
    props::run(&mut ctx);
    if let Some(out) = &out {
        ctx.write(out).expect("write results");
    } else {
        for (k, v) in &ctx.counters {
            println!("{k:40} {v}");
        }
        println!("evals {} distinct {} violations {}", ctx.evals, ctx.distinct.len(), ctx.viols.len());
        for s in &ctx.samples {
            println!("sample {s}");
        }
        for v in &ctx.viols {
            println!("VIOL {} [{}#{}] {}", v.sig, v.stream, v.case, v.detail);
        }
    }
    if !ctx.viols.is_empty() {
        std::process::exit(1);
    }
}
