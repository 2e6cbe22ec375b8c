mod alloc;
mod deliver;
mod driver;
mod exec;
mod gen;
mod io;
mod obs;
mod props;
mod src;
mod tags;
mod talk;
mod vfs;

use driver::*;

#[global_allocator]
static A: alloc::Acct = alloc::Acct;

fn main() {
    install_hook();
    talk::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let get = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(get(&a[1]), &a[2..]),
        Some("eval") => evaluator(get(&a[1]), a[2] == "1", a[3].parse().unwrap()),
        Some("replay") => std::process::exit(replay(&a[1])),
        Some("trace") => {
            trace(&props, &a[1]);
        }
        Some("dump") => {
            src::dump_to(&std::env::var("NOMSIM_TAPE").unwrap());
            let (s, r): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            run_one(get(&a[1]), src::Src::seeded(s, &a[1], r), a[4] == "1", false, src::mix(s ^ r));
        }
        Some("one") => {
            // debug: one <prop> <seed> <run>
            let (s, r): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let (ctx, v) = run_one(get(&a[1]), src::Src::seeded(s, &a[1], r), a.get(4).is_some_and(|x| x == "1"), true, src::mix(s ^ r));
            for n in &ctx.notes {
                println!("{n}");
            }
            println!("{v:?} {:?} {:?}", ctx.n, ctx.faults);
        }
        Some("digest") => {
            // digest <prop> <seed> <from> <to>: one line per run, for cross-process diffs
            let s: u64 = a[2].parse().unwrap();
            for r in a[3].parse::<u64>().unwrap()..a[4].parse::<u64>().unwrap() {
                let (ctx, v) = run_one(get(&a[1]), src::Src::seeded(s, &a[1], r), false, false, src::mix(s ^ r));
                println!("{r} {:016x} {:016x} {} {:?}", ctx.digest, ctx.sig, ctx.src.used(), v.map(|v| v.key));
            }
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        Some("check") | Some("survey") => {
            let p = get(&a[1]);
            let mut o = Opt {
                tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                jobs: 8,
                runs: None,
                secs: None,
                survey: a[0] == "survey",
            };
            let mut i = 2;
            while i + 1 < a.len() {
                match a[i].as_str() {
                    "--tier" => o.tier = a[i + 1].clone(),
                    "--seed" => o.seed = a[i + 1].parse().unwrap(),
                    "--jobs" => o.jobs = a[i + 1].parse().unwrap(),
                    "--runs" => o.runs = Some(a[i + 1].parse().unwrap()),
                    "--secs" => o.secs = Some(a[i + 1].parse().unwrap()),
                    x => panic!("unknown option {x}"),
                }
                i += 2;
            }
            std::process::exit(check(p, &o));
        }
        _ => {
            eprintln!("usage: nomsim check|survey <prop> [--tier T] [--seed N] [--runs N] [--secs S] | replay <file> | one <prop> <seed> <run>");
            std::process::exit(2);
        }
    }
}
