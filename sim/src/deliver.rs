//! The entry points of the crate driven over simulated deliveries.
use crate::exec::{self, Clock, ExecCfg, ExecStats, Task};
use crate::io::*;
use crate::obs::*;
use bytes::Bytes;
use nom_exif::*;
use std::result::Result;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Exif,
    Image,
    Track,
}
pub const OPS: [Op; 3] = [Op::Exif, Op::Image, Op::Track];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Memory,
    Seek,
    Stream,
}
pub const MODES: [Mode; 3] = [Mode::Memory, Mode::Seek, Mode::Stream];

pub enum Out {
    Exif(ExifIter),
    Image(ImageMetadata<ExifIter>),
    Track(TrackInfo),
}
impl Out {
    pub fn observe(&self) -> Obs {
        match self {
            Out::Exif(i) => Obs::Exif(observe_iter(i)),
            Out::Image(m) => Obs::Image(m.exif.as_ref().map(observe_iter), text_of(&m.format)),
            Out::Track(t) => Obs::Track(observe_track(t)),
        }
    }
    pub fn iter(&self) -> Option<&ExifIter> {
        match self {
            Out::Exif(i) => Some(i),
            Out::Image(m) => m.exif.as_ref(),
            Out::Track(_) => None,
        }
    }
}
pub type Raw = Result<Out, Fail>;

pub fn obs_of(r: &Raw) -> Result<Obs, Fail> {
    match r {
        Ok(o) => match catch_unwind(AssertUnwindSafe(|| o.observe())) {
            Ok(v) => Ok(v),
            Err(p) => Err(Fail::Panic(exec::panic_text(p))),
        },
        Err(e) => Err(e.clone()),
    }
}

pub fn run_op<R: Read>(p: &mut MediaParser, op: Op, ms: MediaSource<R>) -> nom_exif::Result<Out> {
    Ok(match op {
        Op::Exif => Out::Exif(p.parse_exif(ms)?),
        Op::Image => Out::Image(p.parse_image_metadata(ms)?),
        Op::Track => Out::Track(p.parse_track(ms)?),
    })
}

/// One synchronous parse. Panics become `Fail::Panic`.
pub fn parse_sync(p: &mut MediaParser, op: Op, mode: Mode, core: Core) -> (Raw, Option<MediaKind>) {
    let mut kind = None;
    let r = catch_unwind(AssertUnwindSafe(|| -> nom_exif::Result<Out> {
        match mode {
            Mode::Memory => {
                let ms = MediaSource::from_memory(Bytes::from(core.blob.to_vec()))?;
                kind = Some(ms.kind());
                run_op(p, op, ms)
            }
            Mode::Seek => {
                let ms = MediaSource::seekable(SimReader(core))?;
                kind = Some(ms.kind());
                run_op(p, op, ms)
            }
            Mode::Stream => {
                let ms = MediaSource::unseekable(SimReader(core))?;
                kind = Some(ms.kind());
                run_op(p, op, ms)
            }
        }
    }));
    let r = match r {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(Fail::of(&e)),
        Err(p) => Err(Fail::Panic(exec::panic_text(p))),
    };
    (r, kind)
}

/// Parse `bytes` handed over as one shared allocation.
pub fn parse_mem(p: &mut MediaParser, op: Op, bytes: Bytes) -> Raw {
    let r = catch_unwind(AssertUnwindSafe(|| -> nom_exif::Result<Out> { run_op(p, op, MediaSource::from_memory(bytes)?) }));
    match r {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(Fail::of(&e)),
        Err(p) => Err(Fail::Panic(exec::panic_text(p))),
    }
}

/// Fresh parser, memory delivery, observed: the reference all deliveries are compared to.
pub fn reference(op: Op, blob: &Blob) -> Result<Obs, Fail> {
    let mut p = MediaParser::new();
    obs_of(&parse_mem(&mut p, op, Bytes::from(blob.to_vec())))
}

pub async fn run_op_async<R: tokio::io::AsyncRead + Unpin + Send>(p: &mut MediaParser, op: Op, ms: AsyncMediaSource<R>) -> nom_exif::Result<Out> {
    Ok(match op {
        Op::Exif => Out::Exif(p.parse_exif_async(ms).await?),
        Op::Image => Out::Image(p.parse_image_metadata_async(ms).await?),
        Op::Track => Out::Track(p.parse_track_async(ms).await?),
    })
}

pub async fn parse_async(p: &mut MediaParser, op: Op, mode: Mode, core: Core, clock: Clock) -> Raw {
    let r = async {
        match mode {
            Mode::Memory => {
                let ms = AsyncMediaSource::from_memory(Bytes::from(core.blob.to_vec()))?;
                run_op_async(p, op, ms).await
            }
            Mode::Seek => {
                let ms = AsyncMediaSource::seekable(SimAsync::new(core, clock)).await?;
                run_op_async(p, op, ms).await
            }
            Mode::Stream => {
                let ms = AsyncMediaSource::unseekable(SimAsync::new(core, clock)).await?;
                run_op_async(p, op, ms).await
            }
        }
    }
    .await;
    match r {
        Ok(o) => Ok(o),
        Err(e) => Err(Fail::of(&e)),
    }
}

/// One asynchronous parse on its own executor.
pub fn async_once(p: &mut MediaParser, op: Op, mode: Mode, core: Core, cfg: &ExecCfg, cancel_after: Option<u64>) -> (Option<Raw>, ExecStats, bool) {
    let clock = Clock::default();
    let slot: Arc<Mutex<Option<Raw>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let c2 = clock.clone();
    let mut tasks = [Task::new(async move {
        let r = parse_async(p, op, mode, core, c2).await;
        *s2.lock().unwrap() = Some(r);
    })];
    tasks[0].cancel_after = cancel_after;
    let st = exec::run(&clock, &mut tasks, cfg);
    let cancelled = tasks[0].cancelled;
    let panicked = tasks[0].panicked.clone();
    drop(tasks);
    let mut r = slot.lock().unwrap().take();
    if let Some(m) = panicked {
        r = Some(Err(Fail::Panic(m)));
    } else if r.is_none() && !cancelled {
        r = Some(Err(Fail::Stuck));
    }
    (r, st, cancelled)
}
