//! One bounded, recycled buffer; in-memory input shared, not copied.
use super::c05::{disturb, own_panic};
use super::*;
use crate::alloc;
use crate::exec::*;
use crate::gen::hole;
use crate::io::*;
use crate::obs::*;
use bytes::Bytes;
use nom_exif::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    rule: "a history of 3..14 parses on one parser — small and large files (up to 24 MiB read into the buffer), all operations, streamed, seekable and in-memory, sync and async, with injected errors, truncation, reader panics and cancellation — with results held or dropped, under an accounting allocator: what the parser retains when no result is held is compared after every step with one buffer of the last parse, in-memory image parses are compared with a small constant, and the lifetime of in-memory bytes is observed through an owner that records its drop; non-trivial = a large parse was followed by a small one; distinct by the sequence of (format, operation, mode, size class, fault, held)",
    quick: (36_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "executor and clock", "global allocator (accounting wrapper around the system one)"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts"],
};

const SLACK: isize = 160 << 10;
const REUSE: isize = 4 << 20;

struct Owner(Arc<Vec<u8>>, Arc<AtomicBool>);
impl AsRef<[u8]> for Owner {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        self.1.store(true, SeqCst);
    }
}

struct F {
    m: Media,
    big: bool,
    /// the whole file, for in-memory steps
    flat: Option<Arc<Vec<u8>>>,
}

fn file(s: &mut Src, big: bool) -> F {
    let mut io = ImgOpts { no_exif: 60, ..Default::default() };
    io.tiff.max_entries = 10;
    let to = TrackOpts::default();
    let m = if !big {
        let (bi, bt) = (s.us(4) == 3, s.us(4) == 3);
        let mut m = any_media_or_motion(s, &ImgOpts { big: bi, ..io }, &TrackOpts { big: bt, ..to });
        if s.us(8) == 7 {
            let (b, what) = gen::damage::damage(s, &m);
            m.name = format!("{} damaged {what}", m.name);
            m.blob = Blob::flat(b);
        }
        m
    } else {
        let n = (1u64 << (20 + s.draw(4))) + s.draw(8 << 20);
        match s.us(4) {
            0 => {
                let f = *s.pick(&[Fmt::Mp4, Fmt::Mov, Fmt::ThreeGp]);
                let m = gen::track::gen(s, f, &to);
                hole::bmff(s, &m, n).0
            }
            1 => {
                let f = *s.pick(&[Fmt::Heic, Fmt::Avif]);
                gen::image::gen(s, f, &ImgOpts { hole: n, no_exif: 0, payload_first: false, ..io })
            }
            _ => gen::image::gen(s, Fmt::Raf, &ImgOpts { hole: n, no_exif: 0, ..io }),
        }
    };
    let flat = (m.len() <= 40 << 20).then(|| Arc::new(m.bytes()));
    F { m, big, flat }
}

enum Kept {
    Out(Out),
    Iter(ExifIter),
    Eager(Exif),
}

fn run(c: &mut Ctx) -> Check {
    let n = c.src.range(1, 3);
    let mut files: Vec<F> = (0..n).map(|_| file(&mut c.src, false)).collect();
    for _ in 0..c.src.us(3) {
        files.push(file(&mut c.src, true));
    }
    // a small file that always parses, for the end of the history
    let last = gen::image::gen(&mut c.src, Fmt::Jpeg, &ImgOpts { big: false, no_exif: 0, ..Default::default() });
    let steps = c.src.range(3, 14);
    let base = alloc::mark();
    let mut p = MediaParser::new();
    let mut kept: Vec<(Kept, isize)> = vec![];
    // what one buffer may amount to after the steps so far
    let mut bound: isize = 0;
    let mut was_big = false;
    let mut owners: Vec<(Arc<AtomicBool>, usize)> = vec![]; // of kept in-memory results
    for k in 0..steps {
        let i = c.src.us(files.len());
        let f = &files[i];
        let m = &f.m;
        let op = any_op(&mut c.src, m);
        let asyn = c.src.us(3) == 2 && !(op == Op::Track && !m.fmt.is_track());
        let mut mode = *c.src.pick(&[Mode::Stream, Mode::Seek, Mode::Stream, Mode::Memory]);
        if mode == Mode::Memory && f.flat.is_none() {
            mode = Mode::Seek;
        }
        let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), !asyn);
        if f.big && !matches!(plan.chunk, Chunk::Whole | Chunk::Stops(_)) {
            plan.chunk = Chunk::Fixed(60_000);
        }
        let mut blob = m.blob.clone();
        let mut fault = "none";
        let mut cancel = None;
        if mode != Mode::Memory && c.src.chance(250) {
            fault = disturb(&mut c.src, m, &mut plan, &mut blob);
        }
        if asyn {
            draw_async(&mut c.src, &mut plan);
            if f.big {
                plan.pend = plan.pend.min(100);
            }
            if c.src.chance(120) {
                plan.pend = plan.pend.max(300);
                cancel = Some(1 + c.src.draw(12));
                fault = "cancelled";
            }
        }
        let cfg = ExecCfg { seed: c.src.draw(1 << 30), ..Default::default() };
        let text: usize = m.text.iter().map(|t| t.0.len() + t.1.len()).sum();
        let mut read = 0u64;
        let mut gone = None;
        let raw: Option<Raw>;
        let mark = alloc::mark();
        if mode == Mode::Memory {
            let flag = Arc::new(AtomicBool::new(false));
            let bytes = Bytes::from_owner(Owner(f.flat.clone().unwrap(), flag.clone()));
            gone = Some(flag);
            if asyn {
                raw = mem_async(&mut p, op, bytes, &cfg);
            } else {
                raw = Some(parse_mem(&mut p, op, bytes));
            }
        } else {
            let core = Core::new(blob, plan.clone());
            let log = core.log.clone();
            if asyn {
                let (r, st, _) = async_once(&mut p, op, mode, core, &cfg, cancel);
                c.virt += st.virt;
                raw = r;
            } else {
                raw = Some(parse_sync(&mut p, op, mode, core).0);
            }
            c.log(&log);
            read = log.lock().unwrap().read_bytes;
        }
        let peak = mark.peak();
        let ok = matches!(raw, Some(Ok(_)));
        let what = format!("step {k}: {} {op:?} {mode:?}{} {:?} fault {fault}", m.name, if asyn { " async" } else { "" }, plan.chunk);
        c.note(format!("{what} -> {} read {read} peak {peak}; {} held, live {} bound before {bound}", if ok { "ok" } else { "failed" }, kept.len(), base.live()));
        c.see(&format!("{ok} {read}"));
        c.sig(&format!("{:?}{op:?}{mode:?}{asyn}{fault}{}{}{ok}", m.fmt, f.big, kept.len()));
        if let Some(Err(x @ Fail::Panic(t))) = &raw {
            if !own_panic(x) {
                return viol(format!("panic:{t}"), format!("{what}: {t}"));
            }
        }
        if fault != "none" {
            c.count(&format!("fault.{fault}"));
        }
        c.nontrivial |= was_big && !f.big && read > 0;
        was_big |= f.big && read > 1 << 20;
        // ---- in-memory input is shared, not copied
        if let Some(gone) = gone {
            let len = f.flat.as_ref().unwrap().len();
            if op != Op::Track && !m.fmt.is_track() {
                let e = c.n.entry("max_memory_parse_peak".into()).or_default();
                *e = (*e).max((peak.saturating_sub(4 * text)) as u64);
                c.count("memory_image_parse");
                let fixed = 160 << 10;
                if peak > fixed + 4 * text {
                    return viol(format!("memory-copied:{:?}", m.fmt), format!("{what}: {peak} bytes allocated for an in-memory image of {len} bytes"));
                }
            }
            match raw {
                Some(Ok(o)) => {
                    let holds = o.iter().is_some();
                    // (text profiles of PNG are decoded into a buffer of their own)
                    if holds && m.fmt != Fmt::Png && gone.load(SeqCst) {
                        return viol("memory-released-early", format!("{what}: the bytes were released while the result exists"));
                    }
                    if !holds && !gone.load(SeqCst) && matches!(o, Out::Track(_)) {
                        return viol("memory-retained", format!("{what}: the parser keeps in-memory bytes of a track parse"));
                    }
                    if holds && c.src.us(3) == 0 {
                        owners.push((gone, kept.len()));
                        kept.push((Kept::Out(o), 4 * text as isize));
                        // judged when it is dropped
                    } else {
                        // the eager form is parsed up front and keeps nothing of the input
                        let eager = match o {
                            Out::Exif(it) | Out::Image(ImageMetadata { exif: Some(it), .. }) if holds && c.src.flag() => {
                                c.count("eager_release");
                                catch_unwind(AssertUnwindSafe(|| Exif::from(it))).ok()
                            }
                            o => {
                                drop(o);
                                None
                            }
                        };
                        if eager.is_some() && !gone.load(SeqCst) {
                            return viol("memory-retained-eager", format!("{what}: in-memory bytes are still held by the eager form of the result"));
                        }
                        if !gone.load(SeqCst) {
                            return viol("memory-retained", format!("{what}: in-memory bytes are still held after the result was dropped"));
                        }
                        c.count("release_checked");
                    }
                }
                _ => {
                    drop(raw);
                    if !gone.load(SeqCst) {
                        return viol("memory-retained", format!("{what}: in-memory bytes are still held after a failed parse"));
                    }
                    c.count("release_checked");
                }
            }
        } else {
            let one = (2 * read as isize).max(REUSE.min(bound));
            // a failed parse may not have got as far as taking the buffer
            bound = if ok { one } else { one.max(bound) };
            if let Some(Ok(o)) = raw {
                match c.src.us(5) {
                    0 => kept.push((Kept::Out(o), one + 4 * text as isize)),
                    1 => match o {
                        Out::Exif(it) | Out::Image(ImageMetadata { exif: Some(it), .. }) => {
                            let mut j = it.clone();
                            drop(it);
                            j.next();
                            kept.push((Kept::Iter(j), one));
                        }
                        _ => {}
                    },
                    2 => {
                        if let Out::Exif(it) = o {
                            if let Ok(e) = catch_unwind(AssertUnwindSafe(|| Exif::from(it))) {
                                kept.push((Kept::Eager(e), one));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if c.src.us(3) == 0 {
            let all = c.src.flag();
            while !kept.is_empty() {
                let j = c.src.us(kept.len());
                let (o, _) = kept.swap_remove(j);
                if let Kept::Out(o) = &o {
                    c.see(&format!("{}", o.iter().is_some()));
                }
                drop(o);
                if !all {
                    break;
                }
            }
        }
        if kept.is_empty() {
            for (g, _) in owners.drain(..) {
                if !g.load(SeqCst) {
                    return viol("memory-retained", format!("{what}: in-memory bytes are still held after every result was dropped"));
                }
                c.count("release_checked");
            }
            c.count("retained_checked");
            let live = base.live();
            let e = c.n.entry("max_retained".into()).or_default();
            *e = (*e).max(live.max(0) as u64);
            let e = c.n.entry("max_over_bound".into()).or_default();
            *e = (*e).max((live - bound).max(0) as u64);
            if live > bound + SLACK {
                return viol("retained", format!("{what}: {live} bytes retained with no result held; one buffer is at most {bound}"));
            }
        } else {
            let held: isize = kept.iter().map(|k| k.1).sum();
            let live = base.live();
            if live > bound + held + SLACK + (kept.len() as isize) * (64 << 10) {
                return viol("held", format!("{what}: {live} bytes live; results hold at most {held} and the parser {bound}"));
            }
        }
    }
    drop(kept);
    for (g, _) in owners {
        if !g.load(SeqCst) {
            return viol("memory-retained", "in-memory bytes are still held after every result was dropped");
        }
    }
    // it parses again with earlier results released
    for _ in 0..2 {
        let op = if c.src.flag() { Op::Exif } else { Op::Image };
        let core = Core::new(last.blob.clone(), Plan::default());
        let (r, _) = parse_sync(&mut p, op, Mode::Stream, core);
        if r.is_err() {
            return viol("last", format!("a small JPEG after the history: {}", show(&obs_of(&r))));
        }
    }
    let live = base.live();
    let e = c.n.entry("max_final".into()).or_default();
    *e = (*e).max(live.max(0) as u64);
    if live > REUSE + SLACK {
        return viol("shrink", format!("{live} bytes retained after small parses with every result released"));
    }
    drop(p);
    let live = base.live();
    if live > SLACK {
        return viol("leak", format!("{live} bytes still allocated after the parser and every result were dropped"));
    }
    Ok(())
}

fn mem_async(p: &mut MediaParser, op: Op, bytes: Bytes, cfg: &ExecCfg) -> Option<Raw> {
    let clock = Clock::default();
    let mut slot: Option<Raw> = None;
    let s = &mut slot;
    let mut tasks = [Task::new(async move {
        let r = match AsyncMediaSource::from_memory(bytes) {
            Ok(ms) => run_op_async(p, op, ms).await,
            Err(e) => Err(e),
        };
        *s = Some(r.map_err(|e| Fail::of(&e)));
    })];
    crate::exec::run(&clock, &mut tasks, cfg);
    let panicked = tasks[0].panicked.clone();
    drop(tasks);
    match panicked {
        Some(m) => Some(Err(Fail::Panic(m))),
        None => slot.or(Some(Err(Fail::Stuck))),
    }
}
