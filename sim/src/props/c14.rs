//! A live stream is parsed as soon as the metadata has arrived.
use super::*;
use crate::exec::*;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    rule: "a generated media file with its metadata ahead of a long payload, streamed until a seeded point at or beyond the metadata plus a look-ahead and then never again (a read beyond it never completes; synchronously it is caught), or stalling for long virtual times anywhere and resuming; sync and async, read-only and seekable, fresh or reused parser; the result must be that of the whole file; non-trivial = a never-ending stream whose metadata was found; distinct by (format, operation, mode, sync/async, chunking class, stall class, layout)",
    quick: (150_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers"],
    stubs: &["readers (simulated network stream)", "executor and clock"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts", "metadata of a JPEG are the segments up to the start of the scan (a Motion Photo signal may be in any), of a PNG the chunks up to IEND, of MKV/WebM the elements up to the later of Info and Tracks"],
};

/// Bytes beyond the metadata a parse may wait for.
const LOOK_AHEAD: u64 = 32 << 10;

/// End of the segments of the JPEG that starts at `at`.
fn scan_start(b: &[u8], at: usize) -> Option<u64> {
    let mut p = at + 2;
    loop {
        while b.get(p + 1) == Some(&0xFF) {
            p += 1;
        }
        let h = b.get(p..p + 4)?;
        let n = u16::from_be_bytes([h[2], h[3]]) as usize;
        p += 2 + n;
        if h[1] == 0xDA {
            return Some(p as u64);
        }
    }
}

fn run(c: &mut Ctx) -> Check {
    let io = ImgOpts { no_exif: 100, ..Default::default() };
    let mut m = if c.src.us(8) == 7 {
        gen::motion::gen(&mut c.src, 100, true, None).m
    } else {
        any_media(&mut c.src, &io, &TrackOpts::default())
    };
    let op = if m.fmt.is_track() { Op::Track } else { *c.src.pick(&[Op::Exif, Op::Image]) };
    if m.fmt == Fmt::Jpeg {
        m.meta_end = m.meta_end.max(scan_start(&m.bytes(), 0).unwrap());
    }
    let want = reference(op, &m.blob);
    if let Err(Fail::Panic(p)) = &want {
        return viol(format!("panic:{p}"), format!("{}: {op:?} panics from memory: {p}", m.name));
    }
    // a long payload follows
    let mut blob = m.blob.clone();
    let end = m.meta_end;
    let extra = *c.src.pick(&[100_000u64, 1 << 20, 1 << 26, 1 << 34]);
    blob.len += extra;
    let never = c.src.us(4) != 3;
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
    plan.max_steps = 2_000_000;
    let asyn = c.src.flag();
    let mode = *c.src.pick(&[Mode::Stream, Mode::Stream, Mode::Seek]);
    let mut near = 0;
    if never {
        let slack = match c.src.us(3) {
            0 => 0,
            1 => c.src.draw(300),
            _ => c.src.draw(200_000),
        };
        let s = end + LOOK_AHEAD + slack;
        if s < blob.len {
            plan.stall = Some(s);
            near = (slack == 0) as u64 + 1;
        }
    }
    if asyn {
        draw_async(&mut c.src, &mut plan);
        if !never {
            plan.pend = 300;
            plan.max_lat = 1 << 40;
            if let Chunk::Fixed(k) = plan.chunk {
                plan.chunk = Chunk::Fixed(k.max(64));
            }
        }
    }
    let mut p = MediaParser::new();
    if c.src.us(4) == 3 {
        // a parser that has a buffer from an earlier parse
        let w = gen::image::gen(&mut c.src, Fmt::Heic, &ImgOpts::default());
        let _ = parse_sync(&mut p, Op::Exif, Mode::Stream, Core::new(w.blob, Plan::default()));
    }
    let core = Core::new(blob, plan.clone());
    let log = core.log.clone();
    let got = if asyn {
        let cfg = ExecCfg { seed: c.src.draw(1 << 30), ..Default::default() };
        let (r, st, _) = async_once(&mut p, op, mode, core, &cfg, None);
        c.virt += st.virt;
        obs_of(&r.unwrap())
    } else {
        obs_of(&parse_sync(&mut p, op, mode, core).0)
    };
    c.log(&log);
    let l = log.lock().unwrap().clone();
    let what = format!("{} {op:?} {mode:?}{} metadata ends at {end}, {} bytes follow, stall {:?}, {:?}", m.name, if asyn { " async" } else { "" }, m.len() - end.min(m.len()) + extra, plan.stall, plan.chunk);
    c.note(format!("{what} -> {} (read up to {})", show(&got), l.max_off));
    c.see(&show(&got));
    c.count(&format!("fmt.{:?}", m.fmt));
    let ahead = l.max_off.saturating_sub(end);
    let k = format!("max_look_ahead.{:?}", m.fmt);
    let e = c.n.entry(k).or_default();
    *e = (*e).max(ahead);
    c.sig(&format!("{} {op:?} {mode:?} {asyn} {:?} {near} {}", m.name, std::mem::discriminant(&plan.chunk), l.reads.min(64)));
    c.nontrivial = near > 0 && got.is_ok();
    if l.stalled > 0 {
        return viol(format!("waits:{:?}:{op:?}", m.fmt), format!("{what}: the parse waits for data beyond the look-ahead"));
    }
    if ahead > LOOK_AHEAD {
        return viol(format!("reads-on:{:?}:{op:?}", m.fmt), format!("{what}: read up to {} of the stream", l.max_off));
    }
    if let Some(d) = diff_obs(&want, &got) {
        return viol(format!("result:{:?}:{op:?}", m.fmt), format!("{what}: whole file vs stream: {d}"));
    }
    Ok(())
}
