//! Asynchronous parsing returns exactly what synchronous parsing returns.
use super::*;
use crate::exec::*;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    rule: "one to three concurrent asynchronous parses of generated (sometimes damaged) media on a seeded executor with virtual time, partial reads, pending polls, spurious wake-ups, seek completions and thread migration, each compared with the synchronous parse of the same bytes; non-trivial = the synchronous parse gave metadata; distinct by (format, operation, mode, chunking class, polls, task order)",
    quick: (80_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif async and sync parsers, loaders and all format parsers"],
    stubs: &["async reader (simulated storage)", "executor and clock"],
    assumptions: &["simulated readers obey the AsyncRead/AsyncSeek contracts"],
};

fn run(c: &mut Ctx) -> Check {
    let n = *c.src.pick(&[1usize, 1, 1, 2, 3]);
    let clock = Clock::default();
    struct Job {
        what: String,
        fmt: Fmt,
        op: Op,
        mode: Mode,
        want: Result<Obs, Fail>,
        log: LogRef,
        slot: Arc<Mutex<Option<Result<Obs, Fail>>>>,
    }
    let mut jobs = vec![];
    let mut tasks = vec![];
    for _ in 0..n {
        let mut m = if c.src.us(8) == 7 {
            let big = c.src.us(3) > 0;
            gen::motion::gen(&mut c.src, 60, big, None).m
        } else {
            any_media(&mut c.src, &ImgOpts { no_exif: 60, ..Default::default() }, &TrackOpts::default())
        };
        if c.src.us(6) == 5 {
            let (b, what) = gen::damage::damage(&mut c.src, &m);
            m.name = format!("{} damaged {what}", m.name);
            m.blob = Blob::flat(b);
        }
        let mut op = any_op(&mut c.src, &m);
        if op == Op::Track && !m.fmt.is_track() {
            op = Op::Exif;
        }
        let mode = *c.src.pick(&[Mode::Stream, Mode::Seek, Mode::Stream, Mode::Seek, Mode::Memory]);
        let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), false);
        draw_async(&mut c.src, &mut plan);
        // the synchronous parse of the same bytes through the same kind of source
        let sync = {
            let mut plan = plan.clone();
            if c.src.flag() {
                plan.chunk = Chunk::Whole;
            }
            let core = Core::new(m.blob.clone(), plan);
            let mut p = MediaParser::new();
            let (r, _) = parse_sync(&mut p, op, mode, core);
            obs_of(&r)
        };
        let core = Core::new(m.blob.clone(), plan.clone());
        let log = core.log.clone();
        let slot = Arc::new(Mutex::new(None));
        let (s2, c2) = (slot.clone(), clock.clone());
        tasks.push(Task::new(async move {
            let mut p = MediaParser::new();
            let r = parse_async(&mut p, op, mode, core, c2).await;
            *s2.lock().unwrap() = Some(obs_of(&r));
        }));
        c.count(&format!("fmt.{:?}", m.fmt));
        c.sig(&format!("{:?} {op:?} {mode:?} {:?}", m.fmt, std::mem::discriminant(&plan.chunk)));
        c.nontrivial |= sync.is_ok();
        jobs.push(Job { what: format!("{} {} bytes {op:?} {mode:?} {:?} pend {}", m.name, m.len(), plan.chunk, plan.pend), fmt: m.fmt, op, mode, want: sync, log, slot });
    }
    let cfg = ExecCfg {
        seed: c.src.draw(1 << 30),
        spurious: *c.src.pick(&[0u64, 100, 400]),
        migrate: if c.src.us(6) == 5 { 200 } else { 0 },
        ..Default::default()
    };
    let st = run_tasks(&clock, &mut tasks, &cfg);
    let panics: Vec<Option<String>> = tasks.iter().map(|t| t.panicked.clone()).collect();
    drop(tasks);
    c.faults.add("spurious_wake", st.spurious);
    c.faults.add("thread_migration", st.migrated);
    c.virt += st.virt;
    c.sign(st.order_hash);
    if n > 1 {
        c.count("concurrent");
    }
    for (i, j) in jobs.into_iter().enumerate() {
        c.log(&j.log);
        let got = match (&panics[i], j.slot.lock().unwrap().take()) {
            (Some(p), _) => Err(Fail::Panic(p.clone())),
            (None, Some(r)) => r,
            (None, None) => Err(Fail::Stuck),
        };
        c.note(format!("{} -> sync {} async {}", j.what, show(&j.want), show(&got)));
        c.see(&show(&got));
        if let Some(d) = diff_obs(&j.want, &got) {
            return viol(format!("{:?}:{:?}:{:?}", j.fmt, j.op, j.mode), format!("{}: sync vs async: {d}", j.what));
        }
    }
    Ok(())
}
use crate::exec::run as run_tasks;
