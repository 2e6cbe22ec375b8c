//! Seekable sources are skipped over, not read through.
use super::*;
use crate::exec::*;
use crate::gen::hole;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    rule: "a generated file with one or more huge sparse runs of payload (up to 2^40 bytes) around its metadata, parsed from a seekable simulated source under a seeded delivery, sync or async: bytes read and seeks counted at the reader, result compared with the same file without the runs, and for small runs the byte count compared with the read-only delivery; non-trivial = a run lay ahead of metadata that was found; distinct by (format, operation, sync/async, chunking class, number and size class of the runs, seeks)",
    quick: (100_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and format parsers"],
    stubs: &["reader (simulated sparse storage)", "executor and clock"],
    assumptions: &["simulated readers obey the Read/Seek contracts", "payload means media data and padding boxes of MP4/MOV/3GP, media data ahead of the Exif item of HEIF/AVIF, and PNG chunks other than text and eXIf"],
};

fn run(c: &mut Ctx) -> Check {
    let io = ImgOpts { no_exif: 0, payload_first: false, ..Default::default() };
    let (small, big, holes) = match c.src.weighted(&[5, 3, 3]) {
        0 => {
            let f = *c.src.pick(&[Fmt::Mp4, Fmt::Mov, Fmt::ThreeGp]);
            let m = gen::track::gen(&mut c.src, f, &TrackOpts::default());
            let max = *c.src.pick(&[1u64 << 40, 1 << 33, 1 << 28, 1 << 22]);
            let (b, h) = hole::bmff(&mut c.src, &m, max);
            (m.blob.clone(), b, h)
        }
        1 => {
            let max = *c.src.pick(&[1u64 << 40, 1 << 33, 1 << 28, 1 << 22]);
            let n = hole::size(&mut c.src, max);
            let f = *c.src.pick(&[Fmt::Heic, Fmt::Avif]);
            // the same draws with and without the run
            let m = gen::image::gen(&mut c.src, f, &ImgOpts { hole: n, ..io.clone() });
            let mut v = m.blob.parts[0].1.to_vec();
            let h = (v.len() as u64, n);
            v.extend_from_slice(&m.blob.parts[1].1);
            (Blob::flat(v), m, vec![h])
        }
        _ => {
            let m = gen::image::gen(&mut c.src, Fmt::Png, &io);
            let (b, h) = hole::png(&mut c.src, &m);
            (m.blob.clone(), b, h)
        }
    };
    let op = if big.fmt.is_track() { Op::Track } else { *c.src.pick(&[Op::Exif, Op::Image]) };
    // what the file holds: the model for HEIF (offsets moved with the run), the same file without the runs otherwise
    let want = if matches!(big.fmt, Fmt::Heic | Fmt::Avif) { None } else { Some(reference(op, &small)) };
    let total: u64 = holes.iter().map(|h| h.1).sum();
    let ahead: u64 = holes.iter().filter(|h| h.0 < big.meta_end).map(|h| h.1).sum();
    let mut plan = draw_delivery(&mut c.src, &big.marks, small.len, true);
    plan.max_steps = 2_000_000;
    let asynch = c.src.us(3) == 2;
    let what = format!("{} {op:?} {} bytes + runs {holes:?}, {:?} {}", big.name, small.len, plan.chunk, if asynch { "async" } else { "sync" });
    let measure = |c: &mut Ctx, mode: Mode, plan: &Plan, asynch: bool| {
        let mut plan = plan.clone();
        if asynch {
            draw_async(&mut c.src, &mut plan);
        }
        let core = Core::new(big.blob.clone(), plan);
        let log = core.log.clone();
        let a = crate::alloc::mark();
        let mut p = MediaParser::new();
        let got = if asynch {
            let cfg = ExecCfg { seed: c.src.draw(1 << 30), ..Default::default() };
            let (r, st, _) = async_once(&mut p, op, mode, core, &cfg, None);
            c.virt += st.virt;
            obs_of(&r.unwrap())
        } else {
            obs_of(&parse_sync(&mut p, op, mode, core).0)
        };
        let peak = a.peak();
        drop(p);
        c.log(&log);
        let l = log.lock().unwrap().clone();
        c.see(&show(&got));
        (got, l, peak)
    };
    let (got, l, peak) = measure(c, Mode::Seek, &plan, asynch);
    c.note(format!("{what} -> {} reads {} bytes {} seeks {} peak {peak}", show(&got), l.reads, l.read_bytes, l.seeks));
    c.count(&format!("fmt.{:?}", big.fmt));
    c.add("payload_skipped_mib", ahead >> 20);
    c.sig(&format!("{:?} {op:?} {asynch} {:?} {} {}", big.fmt, std::mem::discriminant(&plan.chunk), holes.len(), 64 - total.leading_zeros()));
    c.sign(l.seeks);
    c.nontrivial = ahead > 0 && got.is_ok();
    let fmt = big.fmt;
    match &want {
        Some(w) => {
            if let Some(d) = diff_obs(w, &got) {
                return viol(format!("result:{fmt:?}:{op:?}"), format!("{what}: without the runs vs with them: {d}"));
            }
        }
        None => {
            if let Some((k, d)) = super::c03::judge(&big, op, &got) {
                return viol(format!("result:{fmt:?}:{op:?}:{k}"), format!("{what}: {d}"));
            }
        }
    }
    // every byte that is not payload, once, plus one read-ahead per run
    let over = l.read_bytes.saturating_sub(small.len);
    let per = over / (holes.len() as u64 + 1);
    c.add("max_overread_per_run", 0);
    let e = c.n.entry("max_overread_per_run".into()).or_default();
    *e = (*e).max(per);
    let bound = small.len + READ_AHEAD * (holes.len() as u64 + 1);
    if l.read_bytes > bound {
        return viol(format!("read-through:{fmt:?}"), format!("{what}: {} bytes read from a seekable source, at most {bound} expected", l.read_bytes));
    }
    let e = c.n.entry("max_seeks".into()).or_default();
    *e = (*e).max(l.seeks);
    if peak as u64 > 8 * l.read_bytes + (400 << 10) {
        return viol(format!("memory:{fmt:?}"), format!("{what}: {peak} bytes of heap for {} bytes read", l.read_bytes));
    }
    // never more than the read-only delivery
    if total <= 3 << 20 && c.src.flag() {
        let (_, s, _) = measure(c, Mode::Stream, &plan, asynch);
        c.count("stream_compared");
        let e = c.n.entry("max_seek_minus_stream".into()).or_default();
        *e = (*e).max(l.read_bytes.saturating_sub(s.read_bytes));
        if l.read_bytes > s.read_bytes + 4096 {
            return viol(format!("more-than-stream:{fmt:?}"), format!("{what}: {} bytes read seekable, {} read-only", l.read_bytes, s.read_bytes));
        }
    }
    Ok(())
}
const READ_AHEAD: u64 = 64 << 10;
