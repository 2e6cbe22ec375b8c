//! A reused parser behaves like a new one after any history; results already handed out
//! never change (C06).
use super::*;
use crate::exec::*;
use crate::io::*;
use crate::obs::*;
use bytes::Bytes;
use nom_exif::{Exif, ExifIter, MediaParser};

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    rule: "a history of 2..10 parses on one parser — different media, operations, sources, deliveries, sync and async, with injected I/O errors, truncation, stalls, reader panics, cancelled asynchronous parses, and earlier results kept, cloned, advanced or dropped — each undisturbed step compared with a fresh parser; non-trivial = at least one undisturbed step gave metadata after a disturbed one; distinct by the sequence of (format, operation, mode, fault, outcome)",
    quick: (160_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "executor and clock"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts"],
};
pub const C06: Prop = Prop {
    id: "C06",
    run: run06,
    rule: "a history of parses on one or two parsers while earlier results (iterators partly advanced, clones, eager forms, image and track results) stay alive; every kept result is read again after every later step, during reads of later parses, after drops on other threads and after the parser is gone; non-trivial = a kept result was read again after a later parse; distinct by the sequence of (format, operation, mode, outcome, kept)",
    quick: (120_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "executor and clock"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts"],
};

/// A small pool of media so that histories revisit the same files.
pub fn pool(s: &mut Src, n: usize, small: bool) -> Vec<Media> {
    let mut v: Vec<Media> = (0..n)
        .map(|_| {
            let mut io = ImgOpts { no_exif: 60, big: !small || s.us(4) == 3, ..Default::default() };
            io.tiff.max_entries = 8;
            let to = TrackOpts { big: !small || s.us(4) == 3, ..Default::default() };
            let mut m = any_media_or_motion(s, &io, &to);
            if s.us(8) == 7 {
                let (b, what) = gen::damage::damage(s, &m);
                m.name = format!("{} damaged {what}", m.name);
                m.blob = Blob::flat(b);
            }
            m
        })
        .collect();
    if s.us(3) == 2 {
        let m = s.pick(&v).clone();
        v.push(gen::twin(s, &m));
    }
    v
}

/// Draw a disturbance; returns its name.
pub fn disturb(s: &mut Src, m: &Media, plan: &mut Plan, blob: &mut Blob) -> &'static str {
    let len = m.len().max(1);
    let at = match s.us(4) {
        0 => s.draw(len),
        1 if !m.marks.is_empty() => *s.pick(&m.marks),
        2 => s.draw(len.min(9000)),
        _ => s.draw(m.meta_end.max(1)),
    };
    match s.us(5) {
        0 => {
            plan.hard = Some((When::Byte(at), *s.pick(HARD_KINDS)));
            plan.sticky = s.flag();
            "read_error"
        }
        1 => {
            plan.hard = Some((When::Seek(1 + s.draw(3)), *s.pick(HARD_KINDS)));
            "seek_error"
        }
        2 => {
            *blob = blob.cut(at);
            "truncated"
        }
        3 => {
            plan.panic = Some(When::Byte(at));
            "panic"
        }
        _ => {
            plan.hard = Some((When::Read(1 + s.draw(5)), *s.pick(HARD_KINDS)));
            plan.sticky = s.flag();
            "read_error"
        }
    }
}

pub struct Step {
    pub op: Op,
    pub mode: Mode,
    pub asyn: bool,
    pub fault: &'static str,
    pub raw: Option<Raw>,
    pub undisturbed: bool,
}

/// One parse on `p`, possibly disturbed.
pub fn step(c: &mut Ctx, p: &mut MediaParser, m: &Media, shared: &Bytes, faulty: u64) -> Step {
    let op = any_op(&mut c.src, m);
    let asyn = c.src.us(3) == 2 && !(op == Op::Track && !m.fmt.is_track());
    let mode = *c.src.pick(&MODES);
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), !asyn);
    let mut blob = m.blob.clone();
    let mut fault = "none";
    let mut cancel = None;
    if mode != Mode::Memory && c.src.chance(faulty) {
        fault = disturb(&mut c.src, m, &mut plan, &mut blob);
    }
    let raw;
    if asyn {
        draw_async(&mut c.src, &mut plan);
        if c.src.chance(faulty / 2) {
            plan.pend = plan.pend.max(300);
            cancel = Some(1 + c.src.draw(12));
        }
        let core = Core::new(blob, plan);
        let log = core.log.clone();
        let cfg = ExecCfg { seed: c.src.draw(1 << 30), ..Default::default() };
        let (r, st, cancelled) = async_once(p, op, mode, core, &cfg, cancel);
        c.log(&log);
        c.virt += st.virt;
        if cancelled {
            fault = "cancelled";
            c.faults.add("cancel", 1);
        }
        raw = r;
    } else if mode == Mode::Memory {
        raw = Some(parse_mem(p, op, shared.clone()));
    } else {
        let core = Core::new(blob, plan);
        let log = core.log.clone();
        let (r, _) = parse_sync(p, op, mode, core);
        c.log(&log);
        raw = Some(r);
    }
    if fault != "none" {
        c.count(&format!("fault.{fault}"));
    }
    Step { op, mode, asyn, fault, raw, undisturbed: fault == "none" }
}

/// A reader panic is the harness's own doing; anything else is not.
pub fn own_panic(f: &Fail) -> bool {
    matches!(f, Fail::Panic(p) if p == PANIC_MSG)
}

fn run(c: &mut Ctx) -> Check {
    let np = c.src.range(1, 4);
    let media = pool(&mut c.src, np, true);
    let shared: Vec<Bytes> = media.iter().map(|m| Bytes::from(m.bytes())).collect();
    let mut p = MediaParser::new();
    let mut kept: Vec<Out> = vec![];
    let mut iters: Vec<ExifIter> = vec![];
    let steps = c.src.range(2, if c.deep { 16 } else { 8 });
    let mut disturbed = false;
    // compared at the end, so that nothing but the history itself touches the library
    let mut todo: Vec<(usize, Op, Mode, bool, String, Result<Obs, Fail>)> = vec![];
    for k in 0..steps {
        let i = c.src.us(media.len());
        let m = &media[i];
        let st = step(c, &mut p, m, &shared[i], 400);
        let what = format!("step {k}: {} {:?} {:?}{} fault {}", m.name, st.op, st.mode, if st.asyn { " async" } else { "" }, st.fault);
        let got = st.raw.as_ref().map(obs_of);
        c.note(format!("{what} -> {}", got.as_ref().map(show).unwrap_or("cancelled".into())));
        c.sig(&format!("{:?}{:?}{:?}{}{}", m.fmt, st.op, st.mode, st.asyn, st.fault));
        if let Some(g) = &got {
            c.see(&show(g));
            c.sign(g.is_ok() as u64);
            if let Err(f @ Fail::Panic(x)) = g {
                if !own_panic(f) {
                    return viol(format!("panic:{x}"), format!("{what}: {x}"));
                }
            }
        }
        if st.undisturbed {
            let got = got.unwrap_or(Err(Fail::Stuck));
            c.nontrivial |= disturbed && got.is_ok();
            todo.push((i, st.op, st.mode, st.asyn, what, got));
        } else {
            disturbed = true;
        }
        // what happens to the result
        if let Some(Ok(o)) = st.raw {
            match c.src.us(6) {
                0 | 1 => kept.push(o),
                2 => {
                    if let Some(it) = o.iter() {
                        let mut it = it.clone();
                        for _ in 0..c.src.us(6) {
                            it.next();
                        }
                        iters.push(it);
                    }
                }
                3 => {
                    if let Out::Exif(it) = o {
                        drop(Exif::from(it));
                    }
                }
                _ => {}
            }
        }
        if c.src.us(3) == 0 && !kept.is_empty() {
            let k = c.src.us(kept.len());
            let o = kept.swap_remove(k);
            if c.src.us(4) == 3 {
                let _ = std::thread::spawn(move || drop(o)).join();
            }
        }
        if c.src.us(4) == 0 && !iters.is_empty() {
            let k = c.src.us(iters.len());
            iters.swap_remove(k);
        }
    }
    drop((kept, iters));
    let mut fresh: Vec<(usize, Op, Mode, Result<Obs, Fail>)> = vec![];
    for (i, op, mode, asyn, what, got) in todo {
        let m = &media[i];
        let at = match fresh.iter().position(|f| (f.0, f.1, f.2) == (i, op, mode)) {
            Some(k) => k,
            None => {
                // a fresh parser, same kind of source
                let want = if mode == Mode::Memory {
                    reference(op, &m.blob)
                } else {
                    let mut q = MediaParser::new();
                    let core = Core::new(m.blob.clone(), Plan::default());
                    obs_of(&parse_sync(&mut q, op, mode, core).0)
                };
                fresh.push((i, op, mode, want));
                fresh.len() - 1
            }
        };
        if let Some(d) = diff_obs(&fresh[at].3, &got) {
            return viol(format!("{:?}:{op:?}:{mode:?}:{}", m.fmt, if asyn { "async" } else { "sync" }), format!("{what}: fresh parser vs reused parser: {d}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

enum Kept {
    Out(Out),
    Eager(Exif),
    Iter(ExifIter, usize),
}
struct Held {
    what: String,
    k: Kept,
    obs: Obs,
    rest: Vec<Ent>,
    eager: Option<EagerObs>,
}

fn verify(h: &Held) -> Option<String> {
    match &h.k {
        Kept::Out(o) => {
            let now = o.observe();
            diff_obs(&Ok(h.obs.clone()), &Ok(now))
        }
        Kept::Eager(e) => {
            let now = observe_eager(e);
            (Some(&now) != h.eager.as_ref()).then(|| clip(&format!("eager view was {:?} is {:?}", h.eager, now)))
        }
        Kept::Iter(it, _) => diff_obs(&Ok(h.obs.clone()), &Ok(Obs::Exif(observe_iter(it)))),
    }
}

fn run06(c: &mut Ctx) -> Check {
    let np = c.src.range(1, 3);
    let media = pool(&mut c.src, np, true);
    let shared: Vec<Bytes> = media.iter().map(|m| Bytes::from(m.bytes())).collect();
    let mut ps = vec![MediaParser::new(), MediaParser::new()];
    let mut held: Vec<Held> = vec![];
    let steps = c.src.range(2, if c.deep { 16 } else { 8 });
    for k in 0..steps {
        let i = c.src.us(media.len());
        let m = &media[i];
        let pi = (c.src.us(5) == 4) as usize;
        let st = step(c, &mut ps[pi], m, &shared[i], 250);
        let what = format!("step {k}: {} {:?} {:?}{} fault {}", m.name, st.op, st.mode, if st.asyn { " async" } else { "" }, st.fault);
        c.note(format!("{what} -> {}", st.raw.as_ref().map(|r| show(&obs_of(r))).unwrap_or("cancelled".into())));
        c.sig(&format!("{:?}{:?}{:?}{}{}", m.fmt, st.op, st.mode, st.asyn, st.fault));
        for h in &held {
            c.nontrivial = true;
            c.count("reread");
            if let Some(d) = verify(h) {
                return viol("changed", format!("the result of {} changed during {what}: {d}", h.what));
            }
        }
        if let Some(Ok(o)) = st.raw {
            let obs = match obs_of(&Ok(o)) {
                Ok(_) => None::<()>,
                Err(f) => return viol(format!("panic:{f:?}"), format!("{what}: reading the result panics: {f:?}")),
            };
            let _ = obs;
        }
        // keep a result of another, undisturbed parse of the same file on the same parser
        if c.src.us(3) != 2 {
            let op = any_op(&mut c.src, m);
            let mode = *c.src.pick(&MODES);
            let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
            let r = if mode == Mode::Memory { parse_mem(&mut ps[pi], op, shared[i].clone()) } else { parse_sync(&mut ps[pi], op, mode, Core::new(m.blob.clone(), plan)).0 };
            if let Ok(o) = r {
                let obs = o.observe();
                let what = format!("{} {op:?} {mode:?} at step {k}", m.name);
                let mut rest = vec![];
                let mut eager = None;
                let kept = match (o.iter(), c.src.us(4)) {
                    (Some(it), 0) => {
                        let e = Exif::from(it.clone());
                        eager = Some(observe_eager(&e));
                        Kept::Eager(e)
                    }
                    (Some(it), 1) => {
                        let mut it = it.clone();
                        let n = c.src.us(8);
                        let mut got = 0;
                        for _ in 0..n {
                            got += it.next().is_some() as usize;
                        }
                        if let Obs::Exif(o) | Obs::Image(Some(o), _) = &obs {
                            rest = o.entries[got.min(o.entries.len())..].to_vec();
                        }
                        let obs = Obs::Exif(observe_iter(&it));
                        held.push(Held { what, k: Kept::Iter(it, got), obs, rest, eager: None });
                        continue;
                    }
                    _ => Kept::Out(o),
                };
                held.push(Held { what, k: kept, obs, rest, eager });
            }
        }
        if held.len() > 4 || (c.src.us(4) == 3 && !held.is_empty()) {
            let k = c.src.us(held.len());
            let h = held.swap_remove(k);
            if c.src.flag() {
                let _ = std::thread::spawn(move || drop(h)).join();
            }
        }
    }
    drop(ps);
    for mut h in held {
        if let Some(d) = verify(&h) {
            return viol("changed", format!("the result of {} changed after the parser was dropped: {d}", h.what));
        }
        // the partly consumed iterator still yields exactly what it had left
        if let Kept::Iter(it, _) = &mut h.k {
            let (got, _) = drain(it, MAX_ENTRIES);
            if got != h.rest {
                return viol("rest", format!("the remaining entries of {} changed: {}", h.what, first_diff(&h.rest, &got)));
            }
        }
    }
    Ok(())
}
