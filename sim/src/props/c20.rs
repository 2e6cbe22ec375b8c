//! All entry points agree with each other.
use super::c17::media_or_motion;
use super::*;
use crate::exec::{panic_text, ExecCfg};
use crate::io::*;
use crate::obs::*;
use bytes::Bytes;
use nom_exif::{Exif, ImageMetadata, MediaKind, MediaParser, MediaSource, AsyncMediaSource};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    rule: "one media file (well formed, cut or damaged), one delivery plan, every entry point: parse_exif, parse_image_metadata, parse_track, their async forms and the deprecated in-memory forms, compared with each other; non-trivial = at least one entry point returned metadata or the file was of the wrong kind for one; distinct by (format, damage, mode, chunking, reads, outcomes)",
    quick: (150_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers, deprecated adapters"],
    stubs: &["reader (simulated storage)", "async executor (simulated)"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts"],
};

/// The image-metadata call may not say more or less about EXIF than the EXIF call.
pub fn agree(png: bool, damaged: bool, exif: &Result<Obs, Fail>, image: &Result<Obs, Fail>) -> Option<(String, String)> {
    let say = |k: &str| Some((k.to_string(), format!("parse_exif gave {}, parse_image_metadata gave {}", show(exif), show(image))));
    match (exif, image) {
        (Ok(Obs::Exif(a)), Ok(Obs::Image(Some(b), t))) => {
            if let Some(d) = diff_exif(a, b) {
                return Some(("entries".into(), format!("parse_exif vs parse_image_metadata: {d}")));
            }
            if t.is_some() && !png {
                return say("text-outside-png");
            }
            None
        }
        (Ok(_), Ok(_)) => say("exif-missing"),
        (Err(Fail::NoExif), Ok(Obs::Image(None, Some(t)))) if png && !t.is_empty() => None,
        (Err(Fail::NoExif), Err(Fail::NoExif)) => None,
        // a PNG whose chunks run out behind the EXIF: the EXIF call is done before, the
        // image call has to go on for the text
        (_, Err(f)) if png && damaged && f.is_failed() => None,
        (Err(f), Ok(_)) if png && damaged && f.is_failed() => None,
        (Err(a), Err(b)) if a.class() == b.class() => None,
        _ => say("outcome"),
    }
}

fn run(c: &mut Ctx) -> Check {
    let mut m = media_or_motion(&mut c.src, 200);
    let talk = c.src.us(12) == 11;
    let _l = crate::talk::loud(talk);
    c.count_if("logging", talk);
    let mut damaged = false;
    match c.src.us(6) {
        4 => {
            let at = if c.src.flag() || m.marks.is_empty() { c.src.draw(m.len().max(1)) } else { *c.src.pick(&m.marks) };
            m.blob = m.blob.cut(at);
            m.name = format!("{} cut at {at}", m.name);
            damaged = true;
        }
        5 => {
            let (b, what) = gen::damage::damage(&mut c.src, &m);
            m.name = format!("{} damaged {what}", m.name);
            m.blob = Blob::flat(b);
            damaged = true;
        }
        _ => {}
    }
    let bytes = Bytes::from(m.bytes());
    let mode = *c.src.pick(&MODES);
    let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
    let mut aplan = plan.clone();
    draw_async(&mut c.src, &mut aplan);
    let png = m.fmt == Fmt::Png;
    let mut kind = None;
    let one = |c: &mut Ctx, op: Op, asyn: bool, kind: &mut Option<MediaKind>| -> Result<Obs, Fail> {
        let mut p = MediaParser::new();
        let r = if asyn {
            let core = Core::new(m.blob.clone(), aplan.clone());
            let log = core.log.clone();
            let cfg = ExecCfg { seed: aplan.seed, spurious: 20, ..Default::default() };
            let (r, st, _) = async_once(&mut p, op, mode, core, &cfg, None);
            c.virt += st.virt;
            c.log(&log);
            r.unwrap()
        } else {
            let core = Core::new(m.blob.clone(), plan.clone());
            let log = core.log.clone();
            let (r, k) = parse_sync(&mut p, op, mode, core);
            if k.is_some() {
                *kind = k;
            }
            c.log(&log);
            let n = log.lock().unwrap().reads;
            c.sign(n.min(80));
            r
        };
        if let Ok(Out::Image(im)) = &r {
            // the eager form of the combined result
            let text = text_of(&im.format);
            let lazy = im.exif.as_ref().map(observe_iter);
            let e: ImageMetadata<Exif> = im.clone().into();
            let te = text_of(&e.format);
            if te != text || e.exif.is_some() != lazy.is_some() {
                return Err(Fail::Other(format!("eager conversion: text {text:?} vs {te:?}, exif {} vs {}", lazy.is_some(), e.exif.is_some())));
            }
            if let (Some(l), Some(x)) = (&lazy, &e.exif) {
                let (want, got) = (eager_of(l), observe_eager(x));
                if want != got {
                    return Err(Fail::Other(clip(&format!("eager conversion: {want:?} vs {got:?}"))));
                }
            }
        }
        obs_of(&r)
    };
    let what = format!("{} {} bytes {mode:?} {:?}", m.name, m.len(), plan.chunk);
    c.note(what.clone());
    c.sig(&format!("{:?}{damaged}{mode:?}{:?}", m.fmt, std::mem::discriminant(&plan.chunk)));
    for asyn in [false, true] {
        let a = if asyn { ":async" } else { "" };
        if asyn && c.src.us(3) != 0 {
            break;
        }
        let ex = one(c, Op::Exif, asyn, &mut kind);
        let im = one(c, Op::Image, asyn, &mut kind);
        let tr = one(c, Op::Track, asyn, &mut kind);
        for (n, r) in [("exif", &ex), ("image", &im), ("track", &tr)] {
            c.see(&show(r));
            c.sig(&match r {
                Ok(_) => "ok".to_string(),
                Err(e) => e.class(),
            });
            if let Err(Fail::Panic(p)) = r {
                return viol(format!("panic:{p}"), format!("{what}: {n}: {p}"));
            }
            if let Err(Fail::Stuck) = r {
                return viol("stuck", format!("{what}: {n} never completes"));
            }
            if let Err(Fail::Other(t)) = r {
                return viol(format!("eager{a}"), format!("{what}: {n}: {t}"));
            }
            c.nontrivial |= r.is_ok();
        }
        match kind {
            Some(MediaKind::Image) => {
                if let Some((k, d)) = agree(png, damaged, &ex, &im) {
                    return viol(format!("{k}:{:?}{a}", m.fmt), format!("{what}{a}: {d}"));
                }
                // only JPEG can hold a track, and only the synchronous call looks for it
                if (m.fmt != Fmt::Jpeg || asyn) && !damaged && tr != Err(Fail::NoTrack) {
                    return viol(format!("image-track{a}"), format!("{what}{a}: parse_track of an image gave {}", show(&tr)));
                }
                if let (Ok(Obs::Exif(e)), Ok(_)) = (&ex, &tr) {
                    if !e.embedded && !damaged {
                        return viol("track-without-flag", format!("{what}: parse_track found a track the EXIF call does not announce"));
                    }
                }
                c.nontrivial = true;
            }
            Some(MediaKind::Track) => {
                for (n, r) in [("exif", &ex), ("image", &im)] {
                    // a file that ends inside the probed header is an I/O failure for streams
                    let short = m.len() <= 128 && matches!(r, Err(f) if f.is_failed());
                    if *r != Err(Fail::NoExif) && !short {
                        return viol(format!("track-{n}{a}"), format!("{what}{a}: the {n} call on a track gave {}", show(r)));
                    }
                }
                c.nontrivial = true;
            }
            None => {
                for r in [&ex, &im, &tr] {
                    if r != &ex {
                        return viol(format!("source{a}"), format!("{what}{a}: no source could be built, yet the outcomes differ: {} vs {}", show(&ex), show(r)));
                    }
                }
            }
        }
    }
    // deprecated in-memory entry points, and the memory source against itself
    if c.src.flag() {
        if let Some(v) = deprecated(&m, &bytes) {
            return Err(v);
        }
        c.count("deprecated");
    }
    Ok(())
}

#[allow(deprecated)]
fn deprecated(m: &Media, bytes: &Bytes) -> Option<Viol> {
    let bad = |k: &str, d: String| Some(Viol { key: format!("deprecated:{k}"), msg: format!("{} from bytes: {d}", m.name) });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let new = MediaSource::from_memory(bytes.clone());
        let old = MediaSource::<()>::from_bytes(bytes.clone());
        let asy = AsyncMediaSource::from_memory(bytes.clone());
        match (&new, &old, &asy) {
            (Ok(a), Ok(b), Ok(x)) => {
                if a.kind() != b.kind() || a.kind() != x.kind() {
                    return bad("kind", format!("{:?} {:?} {:?}", a.kind(), b.kind(), x.kind()));
                }
            }
            (Err(a), Err(b), Err(x)) => {
                let (a, b, x) = (Fail::of(a), Fail::of(b), Fail::of(x));
                if a != b || a != x {
                    return bad("source", format!("{a:?} vs {b:?} vs {x:?}"));
                }
                return None;
            }
            _ => return bad("source", "one constructor succeeds, another fails".into()),
        }
        let mut p = MediaParser::new();
        let want = obs_of(&parse_mem(&mut p, Op::Exif, bytes.clone()));
        let got = obs_of(&p.parse_exif_from_bytes(old.unwrap()).map(Out::Exif).map_err(|e| Fail::of(&e)));
        if let Some(d) = diff_obs(&want, &got) {
            return bad("exif", d);
        }
        let want = obs_of(&parse_mem(&mut p, Op::Track, bytes.clone()));
        let got = obs_of(&p.parse_track_from_bytes(MediaSource::<()>::from_bytes(bytes.clone()).unwrap()).map(Out::Track).map_err(|e| Fail::of(&e)));
        if let Some(d) = diff_obs(&want, &got) {
            return bad("track", d);
        }
        None
    }));
    match r {
        Ok(v) => v,
        Err(p) => Some(Viol { key: "deprecated:panic".into(), msg: format!("{}: {}", m.name, panic_text(p)) }),
    }
}
