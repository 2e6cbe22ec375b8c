//! Abandoning an asynchronous parse at any point is harmless.
use super::c05::pool;
use super::*;
use crate::alloc;
use crate::exec::{self, Clock, ExecCfg, Task};
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    rule: "rounds of concurrent asynchronous parses, one per parser, on the simulated executor; some futures are dropped at a drawn suspension point (including before the first poll, while the source is being built, during a seek, on another thread); completed parses, earlier results still held and every later parse are compared with a fresh parser's, readers and memory must be released; non-trivial = a parse was abandoned after its first suspension and the same parser was used again; distinct by (formats, operations, modes, suspension points, order of polls)",
    quick: (36_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif async parser, loaders and all format parsers"],
    stubs: &["reader (simulated storage)", "async executor and clock (simulated)", "accounting allocator"],
    assumptions: &["simulated readers obey the AsyncRead/AsyncSeek contracts", "a parser may keep one buffer no larger than twice the data one parse has read, or 4 MiB"],
};

struct Job {
    what: String,
    fmt: Fmt,
    op: Op,
    mode: Mode,
    core: Core,
    log: LogRef,
    cancel: Option<u64>,
    want: Result<Obs, Fail>,
    elsewhere: bool,
}

fn fresh(op: Op, mode: Mode, blob: &Blob, plan: &Plan) -> (Result<Obs, Fail>, u64) {
    let mut q = MediaParser::new();
    let core = Core::new(blob.clone(), plan.clone());
    let (r, st, _) = async_once(&mut q, op, mode, core, &ExecCfg::default(), None);
    (obs_of(&r.unwrap()), st.polls)
}

fn run(c: &mut Ctx) -> Check {
    let np = c.src.range(1, 3);
    let media = pool(&mut c.src, np, true);
    let n = c.src.range(1, 3);
    let biggest = media.iter().map(|m| m.len()).max().unwrap_or(0) as usize;
    let mark = alloc::mark();
    let mut ps: Vec<MediaParser> = (0..n).map(|_| MediaParser::new()).collect();
    let mut abandoned = vec![false; n];
    let mut held: Vec<(String, Out, Obs)> = vec![];
    let rounds = c.src.range(2, if c.deep { 10 } else { 5 });
    for round in 0..rounds {
        let last = round + 1 == rounds;
        let mut jobs: Vec<Job> = vec![];
        for _ in 0..n {
            let m = &media[c.src.us(media.len())];
            let op = any_op(&mut c.src, m);
            let mode = *c.src.pick(&[Mode::Seek, Mode::Stream, Mode::Seek, Mode::Stream, Mode::Memory]);
            let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), false);
            draw_async(&mut c.src, &mut plan);
            let abandon = !last && c.src.us(2) == 1;
            if abandon {
                plan.pend = plan.pend.max(300);
            }
            let (want, polls) = fresh(op, mode, &m.blob, &plan);
            let cancel = abandon.then(|| {
                // any suspension point, biased to none in particular
                let k = c.src.draw(polls.max(1));
                if c.src.us(8) == 7 {
                    k % 4
                } else {
                    k
                }
            });
            let core = Core::new(m.blob.clone(), plan);
            let log = core.log.clone();
            jobs.push(Job {
                what: format!("{} {op:?} {mode:?}", m.name),
                fmt: m.fmt,
                op,
                mode,
                core,
                log,
                cancel,
                want,
                elsewhere: abandon && c.src.us(4) == 3,
            });
        }
        let clock = Clock::default();
        let slots: Vec<Arc<Mutex<Option<Raw>>>> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
        let cfg = ExecCfg { seed: c.src.draw(1 << 30), spurious: *c.src.pick(&[0u64, 30, 200]), migrate: if c.src.us(20) == 19 { 50 } else { 0 }, ..Default::default() };
        let outcome: Vec<(bool, Option<String>, u64)>;
        {
            let mut tasks: Vec<Task> = ps
                .iter_mut()
                .zip(&jobs)
                .zip(&slots)
                .map(|((p, j), s)| {
                    let (core, clock, s, op, mode) = (j.core.clone(), clock.clone(), s.clone(), j.op, j.mode);
                    let mut t = Task::new(async move {
                        let r = parse_async(p, op, mode, core, clock).await;
                        *s.lock().unwrap() = Some(r);
                    });
                    t.cancel_after = j.cancel;
                    t.drop_elsewhere = j.elsewhere;
                    t
                })
                .collect();
            let st = exec::run(&clock, &mut tasks, &cfg);
            c.virt += st.virt;
            c.sign(st.order_hash);
            c.faults.add("cancel", st.cancels);
            c.faults.add("spurious_poll", st.spurious);
            c.faults.add("thread_switch", st.migrated);
            outcome = tasks.iter().map(|t| (t.cancelled, t.panicked.clone(), t.polls)).collect();
        }
        for (k, j) in jobs.iter().enumerate() {
            let (cancelled, panicked, polls) = &outcome[k];
            c.log(&j.log);
            c.sig(&format!("{:?}{:?}{:?}{:?}", j.fmt, j.op, j.mode, j.cancel));
            c.note(format!("round {round} parser {k}: {} {}", j.what, if *cancelled { format!("dropped after {polls} polls{}", if j.elsewhere { " on another thread" } else { "" }) } else { show(&j.want) }));
            if let Some(p) = panicked {
                return viol(format!("panic:{p}"), format!("round {round}: {}: {p}", j.what));
            }
            if j.mode != Mode::Memory && *polls > 0 && j.log.lock().unwrap().dropped == 0 {
                return viol("reader-kept", format!("round {round}: {} (cancelled {cancelled}): the reader is not dropped", j.what));
            }
            let raw = slots[k].lock().unwrap().take();
            if *cancelled && raw.is_none() {
                c.count("abandoned");
                abandoned[k] |= *polls > 0;
                continue;
            }
            let Some(raw) = raw else { return viol("stuck", format!("round {round}: {} never completes", j.what)) };
            let got = obs_of(&raw);
            c.see(&show(&got));
            c.nontrivial |= abandoned[k] && got.is_ok();
            if let Some(d) = diff_obs(&j.want, &got) {
                return viol(format!("{:?}:{:?}:{:?}{}", j.fmt, j.op, j.mode, if abandoned[k] { ":after" } else { "" }), format!("round {round}, parser {k}: {}: fresh parser vs this one: {d}", j.what));
            }
            if let Ok(o) = raw {
                if c.src.us(3) == 2 {
                    let obs = got.unwrap();
                    held.push((format!("{} of round {round}", j.what), o, obs));
                }
            }
        }
        drop(jobs);
        for (w, o, obs) in &held {
            if let Some(d) = diff_obs(&Ok(obs.clone()), &Ok(o.observe())) {
                return viol("changed", format!("after round {round} the held result of {w} changed: {d}"));
            }
        }
        // a synchronous parse on the same parser
        if c.src.us(4) == 3 {
            let k = c.src.us(n);
            let m = &media[c.src.us(media.len())];
            let op = any_op(&mut c.src, m);
            let mode = *c.src.pick(&MODES);
            let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
            let mut q = MediaParser::new();
            let want = obs_of(&parse_sync(&mut q, op, mode, Core::new(m.blob.clone(), plan.clone())).0);
            let got = obs_of(&parse_sync(&mut ps[k], op, mode, Core::new(m.blob.clone(), plan)).0);
            c.nontrivial |= abandoned[k] && got.is_ok();
            if let Some(d) = diff_obs(&want, &got) {
                return viol(format!("{:?}:{op:?}:{mode:?}:sync-after", m.fmt), format!("round {round}, parser {k}: {} {op:?} {mode:?} synchronously: fresh parser vs this one: {d}", m.name));
            }
        }
    }
    // memory: nothing but one buffer per parser stays, and nothing at all without them
    drop(held);
    let slack = 24 << 10;
    let notes: usize = c.notes.iter().map(|n| n.len() + 64).sum::<usize>() + c.src.tape.len() * 16;
    let kept = mark.live() - notes as isize;
    let room = n * (2 * biggest.min(64 << 20) + (64 << 10)) + slack;
    if kept > room as isize {
        return viol("memory-kept", format!("{kept} bytes stay allocated with {n} parsers after {rounds} rounds, files of at most {biggest} bytes"));
    }
    drop(ps);
    let left = mark.live() - notes as isize;
    if left > slack as isize {
        return viol("memory-leak", format!("{left} bytes stay allocated after the parsers are gone"));
    }
    Ok(())
}
