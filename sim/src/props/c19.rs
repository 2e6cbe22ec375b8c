//! One-call helpers agree with the reusable parser under any file-system behaviour.
use super::c08::drop_flag;
use super::*;
use crate::exec::panic_text;
use crate::io::*;
use crate::obs::*;
use crate::vfs;
use bytes::Bytes;
use nom_exif::*;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::result::Result;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    rule: "one call of a path or bytes helper (read_exif, read_exif_iter, read_track, read_metadata, their asynchronous and from-bytes forms, MediaSource::open and AsyncMediaSource::open) on a generated media file — whole, cut, damaged, empty or not media — served by a simulated file system below libc's open/read/lseek with short reads, EINTR on open and read, failing open, read and seek; compared with a fresh parser on the same bytes, or with the injected errno; non-trivial = metadata returned or a fault fired; distinct by (helper, format, damage, fault kind, outcome)",
    quick: (200_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif helpers, sync and async parsers, std::fs::File, tokio::fs::File and its blocking pool"],
    stubs: &["open64/read/lseek64/close of libc for the simulated file"],
    assumptions: &["the tokio runtime has one blocking thread, so file operations are sequential"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    Exif,
    Iter,
    Track,
    Meta,
    OpenExif,
    OpenImage,
    OpenTrack,
}
const HS: [H; 7] = [H::Exif, H::Iter, H::Track, H::Meta, H::OpenExif, H::OpenImage, H::OpenTrack];

#[derive(Clone, Debug, PartialEq)]
enum O {
    Obs(Obs),
    Eager(EagerObs),
}
fn show_o(r: &Result<O, Fail>) -> String {
    match r {
        Ok(O::Obs(o)) => show(&Ok(o.clone())),
        Ok(O::Eager(e)) => format!("eager {} entries", e.entries.len()),
        Err(e) => format!("{e:?}"),
    }
}
fn eager(e: &Exif) -> O {
    O::Eager(observe_eager(e))
}
fn meta(m: Metadata) -> O {
    match m {
        Metadata::Exif(e) => eager(&e),
        Metadata::Track(t) => O::Obs(Out::Track(t).observe()),
    }
}

fn path_sync(h: H, p: &str) -> nom_exif::Result<O> {
    Ok(match h {
        H::Exif => eager(&read_exif(p)?),
        H::Iter => O::Obs(Out::Exif(read_exif_iter(p)?).observe()),
        H::Track => O::Obs(Out::Track(read_track(p)?).observe()),
        H::Meta => meta(read_metadata(p)?),
        H::OpenExif => O::Obs(run_op(&mut MediaParser::new(), Op::Exif, MediaSource::open(p)?)?.observe()),
        H::OpenImage => O::Obs(run_op(&mut MediaParser::new(), Op::Image, MediaSource::open(p)?)?.observe()),
        H::OpenTrack => O::Obs(run_op(&mut MediaParser::new(), Op::Track, MediaSource::open(p)?)?.observe()),
    })
}
async fn path_async(h: H, p: &str) -> nom_exif::Result<O> {
    Ok(match h {
        H::Exif => eager(&read_exif_async(p).await?),
        H::Iter => O::Obs(Out::Exif(read_exif_iter_async(p).await?).observe()),
        H::Track => O::Obs(Out::Track(read_track_async(p).await?).observe()),
        H::Meta => meta(read_metadata_async(p).await?),
        H::OpenExif => O::Obs(run_op_async(&mut MediaParser::new(), Op::Exif, AsyncMediaSource::open(p).await?).await?.observe()),
        H::OpenImage => O::Obs(run_op_async(&mut MediaParser::new(), Op::Image, AsyncMediaSource::open(p).await?).await?.observe()),
        H::OpenTrack => O::Obs(run_op_async(&mut MediaParser::new(), Op::Track, AsyncMediaSource::open(p).await?).await?.observe()),
    })
}
#[allow(deprecated)]
fn from_bytes(h: H, b: Bytes) -> nom_exif::Result<O> {
    Ok(match h {
        H::Exif => eager(&read_exif_from_bytes(b)?),
        H::Iter => O::Obs(Out::Exif(read_exif_iter_from_bytes(b)?).observe()),
        H::Track => O::Obs(Out::Track(read_track_from_bytes(b)?).observe()),
        _ => meta(read_metadata_from_bytes(b)?),
    })
}

/// A fresh parser on the same bytes.
fn fresh(h: H, blob: &Blob, seek: bool, asyn: bool) -> Result<O, Fail> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<O, Fail> {
        let one = |op: Op| -> Raw {
            let mut p = MediaParser::new();
            if !seek {
                parse_mem(&mut p, op, Bytes::from(blob.to_vec()))
            } else if asyn {
                async_once(&mut p, op, Mode::Seek, Core::new(blob.clone(), Plan::default()), &Default::default(), None).0.unwrap()
            } else {
                parse_sync(&mut p, op, Mode::Seek, Core::new(blob.clone(), Plan::default())).0
            }
        };
        let kind = || -> Result<MediaKind, Fail> {
            let k = if seek { MediaSource::seekable(SimReader(Core::new(blob.clone(), Plan::default()))).map(|m| m.kind()) } else { MediaSource::from_memory(blob.to_vec()).map(|m| m.kind()) };
            k.map_err(|e| Fail::of(&e))
        };
        let ex = |r: Raw| -> Result<O, Fail> {
            match r? {
                Out::Exif(i) => Ok(eager(&Exif::from(i))),
                _ => unreachable!(),
            }
        };
        match h {
            H::Exif => ex(one(Op::Exif)),
            H::Iter | H::OpenExif => one(Op::Exif).map(|o| O::Obs(o.observe())),
            H::OpenImage => one(Op::Image).map(|o| O::Obs(o.observe())),
            H::Track | H::OpenTrack => one(Op::Track).map(|o| O::Obs(o.observe())),
            H::Meta => match kind()? {
                MediaKind::Image => ex(one(Op::Exif)),
                MediaKind::Track => one(Op::Track).map(|o| O::Obs(o.observe())),
            },
        }
    }));
    r.unwrap_or_else(|p| Err(Fail::Panic(panic_text(p))))
}

fn differ(a: &Result<O, Fail>, b: &Result<O, Fail>) -> Option<String> {
    match (a, b) {
        (Ok(O::Obs(x)), Ok(O::Obs(y))) => diff_obs(&Ok(x.clone()), &Ok(y.clone())),
        (Ok(x), Ok(y)) => (x != y).then(|| clip(&format!("{x:?} vs {y:?}"))),
        (Err(Fail::Io(x, _)), Err(Fail::Io(y, _))) if x == y => None,
        (Err(x), Err(y)) => (x.class() != y.class()).then(|| format!("{x:?} vs {y:?}")),
        (x, y) => Some(format!("{} vs {}", show_o(x), show_o(y))),
    }
}
fn unflag(r: &mut Result<O, Fail>) {
    match r {
        Ok(O::Eager(e)) => e.embedded = false,
        Ok(O::Obs(o)) => {
            let mut x = Ok(o.clone());
            drop_flag(&mut x);
            *o = x.unwrap();
        }
        _ => {}
    }
}

const ERRNOS: [i32; 14] = [
    libc::EIO,
    libc::EACCES,
    libc::ENOENT,
    libc::EISDIR,
    libc::ENXIO,
    libc::ESTALE,
    libc::ETIMEDOUT,
    libc::ENOMEM,
    libc::EAGAIN,
    libc::EMFILE,
    libc::ENOTCONN,
    libc::EINVAL,
    libc::EBUSY,
    libc::EOVERFLOW,
];

fn run(c: &mut Ctx) -> Check {
    let mut m = super::c17::media_or_motion(&mut c.src, 120);
    let mut shape = "whole";
    match c.src.us(10) {
        0 => {
            let at = if c.src.flag() { c.src.draw(m.len() + 1) } else { c.src.draw(m.meta_end.max(1)) };
            m.blob = m.blob.cut(at);
            shape = "cut";
        }
        1 => {
            let (b, what) = gen::damage::damage(&mut c.src, &m);
            m.name = format!("{} damaged {what}", m.name);
            m.blob = Blob::flat(b);
            shape = "damaged";
        }
        2 => {
            let n = *c.src.pick(&[0usize, 1, 4, 127, 128, 129, 5000]);
            let b = if c.src.flag() { vec![0; n] } else { c.src.filler(n) };
            m.blob = Blob::flat(b);
            m.marks.clear();
            m.name = format!("{n} bytes of nothing");
            shape = "not-media";
        }
        _ => {}
    }
    let mut h = match (m.fmt.is_track(), c.src.us(8)) {
        (_, 0) => *c.src.pick(&HS),
        (true, _) => *c.src.pick(&[H::Track, H::Meta, H::Meta, H::OpenTrack]),
        (false, _) => *c.src.pick(&[H::Exif, H::Iter, H::Meta, H::Exif, H::Meta, H::OpenExif, H::OpenImage]),
    };
    let how = c.src.weighted(&[4, 4, 2]);
    c.count(&format!("fmt.{:?}", m.fmt));
    if how == 2 {
        // ---- bytes
        h = match h {
            H::OpenExif => H::Iter,
            H::OpenImage => H::Meta,
            H::OpenTrack => H::Track,
            x => x,
        };
        let want = fresh(h, &m.blob, false, false);
        let b = Bytes::from(m.bytes());
        let got = match catch_unwind(AssertUnwindSafe(|| from_bytes(h, b))) {
            Ok(r) => r.map_err(|e| Fail::of(&e)),
            Err(p) => Err(Fail::Panic(panic_text(p))),
        };
        c.see(&show_o(&got));
        c.note(format!("{} {h:?} from bytes -> {}", m.name, show_o(&got)));
        c.sig(&format!("bytes {h:?} {:?} {shape} {}", m.fmt, got.is_ok()));
        c.nontrivial = got.is_ok();
        if let Err(Fail::Panic(p)) = &got {
            return viol(format!("panic:{p}"), format!("{} {h:?} from bytes: {p}", m.name));
        }
        if let Some(d) = differ(&want, &got) {
            return viol(format!("bytes:{h:?}:{:?}", m.fmt), format!("{} {shape} {h:?} from bytes: parser vs helper: {d}", m.name));
        }
        return Ok(());
    }
    // ---- path
    let asyn = how == 1;
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
    plan.max_steps = u64::MAX;
    if let Chunk::Fixed(k) = plan.chunk {
        plan.chunk = Chunk::Fixed(if asyn { k.max(100) } else { k });
    }
    if let (Chunk::Random(k), true) = (plan.chunk.clone(), asyn) {
        plan.chunk = Chunk::Random(k.max(200));
    }
    let mut e = vfs::Entry { core: Core::new(m.blob.clone(), Plan::default()), errno: *c.src.pick(&ERRNOS), open_err: None, open_eintr: 0, opens: 0 };
    let mut fault = "none";
    match c.src.us(8) {
        0 => {
            e.open_err = Some(*c.src.pick(&ERRNOS));
            fault = "open";
        }
        1 | 2 => {
            let len = m.len();
            let at = match c.src.us(3) {
                0 => When::Read(1 + c.src.draw(5)),
                1 => When::Byte(if m.marks.is_empty() { c.src.draw(len + 1) } else { *c.src.pick(&m.marks) }.min(len)),
                _ => When::Byte(c.src.draw(m.meta_end.max(1) + 1).min(len)),
            };
            plan.hard = Some((at, ErrorKind::Other));
            plan.sticky = c.src.us(3) != 2;
            fault = "read";
        }
        3 => {
            plan.hard = Some((When::Seek(1 + c.src.draw(3)), ErrorKind::Other));
            plan.sticky = c.src.flag();
            fault = "seek";
        }
        4 => {
            e.open_eintr = 1 + c.src.draw(3) as u32;
            fault = "open-eintr";
        }
        _ => {}
    }
    let missing = c.src.us(40) == 39;
    e.core = Core::new(m.blob.clone(), plan.clone());
    let log = e.core.log.clone();
    let (errno, open_err, oe) = (e.errno, e.open_err, e.open_eintr);
    vfs::mount("/nomsim/photo", e);
    let path = if missing { "/nomsim/other" } else { "/nomsim/photo" };
    let got = if asyn {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let rt = tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).build().unwrap();
            rt.block_on(path_async(h, path))
        }));
        match r {
            Ok(r) => r.map_err(|e| Fail::of(&e)),
            Err(p) => Err(Fail::Panic(panic_text(p))),
        }
    } else {
        match catch_unwind(AssertUnwindSafe(|| path_sync(h, path))) {
            Ok(r) => r.map_err(|e| Fail::of(&e)),
            Err(p) => Err(Fail::Panic(panic_text(p))),
        }
    };
    let (opened, left, _) = vfs::unmount();
    c.log(&log);
    let l = log.lock().unwrap().clone();
    c.faults.add("open_eintr", oe as u64);
    if open_err.is_some() {
        c.faults.add("open_error", 1);
    }
    let what = format!("{} {shape} {h:?}{} {:?} fault {fault} {:?} errno {errno} sticky {}", m.name, if asyn { " async" } else { "" }, plan.chunk, plan.hard, plan.sticky);
    c.note(format!("{what} -> {} ({} reads, {} fired)", show_o(&got), l.reads, l.hard_fired));
    c.see(&show_o(&got));
    c.sig(&format!("path {h:?} {asyn} {:?} {shape} {fault} {} {}", m.fmt, got.is_ok(), l.hard_fired.min(2)));
    c.nontrivial = got.is_ok() || l.hard_fired > 0 || open_err.is_some();
    let key = format!("{h:?}:{:?}:{}", m.fmt, if asyn { "async" } else { "sync" });
    if let Err(Fail::Panic(p)) = &got {
        return viol(format!("panic:{p}"), format!("{what}: {p}"));
    }
    if left > 0 {
        return viol(format!("{key}:fd"), format!("{what}: {left} of {opened} descriptors left open"));
    }
    let os = |e: i32| std::io::Error::from_raw_os_error(e).kind();
    let refused = if missing { Some(libc::ENOENT) } else { open_err };
    if let Some(e) = refused {
        return match &got {
            Err(Fail::Io(k, _)) if *k == os(e) => Ok(()),
            x => viol(format!("{key}:open"), format!("{what}: open failed with {:?}, reported {}", os(e), show_o(x))),
        };
    }
    if opened == 0 {
        return viol("HARNESS", "the simulated file was not opened");
    }
    let mut want = fresh(h, &m.blob, true, asyn);
    let mut got = got;
    if l.hard_fired > 0 {
        c.count("fault_fired");
        if let Err(Fail::Io(k, _)) = &got {
            if *k == os(errno) {
                return Ok(());
            }
        }
        unflag(&mut want);
        unflag(&mut got);
    }
    if let Some(d) = differ(&want, &got) {
        return viol(key, format!("{what}: {} fired; parser vs helper: {d}", l.hard_fired));
    }
    Ok(())
}
