//! Motion Photos: the flag and the embedded video.
use super::*;
use crate::gen::motion::{self, Motion};
use crate::exec::ExecCfg;
use crate::io::*;
use crate::obs::*;
use nom_exif::{Exif, MediaParser};

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    rule: "a generated JPEG with one of the documented Motion Photo signals (or a near miss) and an embedded video, delivered under a seeded schedule to parse_exif / parse_image_metadata / parse_track (sync and, for the flag, async); the flag is compared with what was written and the track with the one parsed from the video alone; non-trivial = a signal with an intact trailer was parsed or a near miss was refused; distinct by (signal style, operation, mode, chunking, reads)",
    quick: (220_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif JPEG, XMP scan and track parsers, sync and async loaders"],
    stubs: &["reader (simulated storage)", "async executor (simulated)"],
    assumptions: &["the signals are the three documented in src/jpeg.rs, written as double-quoted attributes", "async track parsing of images is documented to report no track"],
};

/// Mostly ordinary media, sometimes a Motion Photo.
pub fn media_or_motion(s: &mut Src, no_exif: u64) -> Media {
    if s.us(10) == 9 {
        let big = s.us(3) == 2;
        motion::gen(s, no_exif, big, None).m
    } else {
        any_media(s, &ImgOpts { no_exif, ..ImgOpts::default() }, &TrackOpts::default())
    }
}

fn run(c: &mut Ctx) -> Check {
    let Motion { m, trailer, signal, exact, style } = {
        let big = c.src.us(3) == 2;
        motion::gen(&mut c.src, 60, big, None)
    };
    c.note(format!("{} {} bytes, signal {signal}", m.name, m.len()));
    c.count(if signal { "signal" } else { "no_signal" });
    let want_track = trailer.as_ref().map(|t| reference(Op::Track, &t.blob));
    let k = c.src.range(1, 3);
    for _ in 0..k {
        let op = *c.src.pick(&[Op::Exif, Op::Image, Op::Track, Op::Track]);
        let mode = *c.src.pick(&MODES);
        let is_async = op != Op::Track && c.src.us(4) == 3;
        let (raw, reads) = if is_async {
            let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), false);
            draw_async(&mut c.src, &mut plan);
            let core = Core::new(m.blob.clone(), plan);
            let log = core.log.clone();
            let cfg = ExecCfg { seed: c.src.derived(), spurious: 30, migrate: 0, max_polls: 4_000_000 };
            let mut p = MediaParser::new();
            let (r, st, _) = async_once(&mut p, op, mode, core, &cfg, None);
            c.faults.add("pending", st.polls.saturating_sub(1));
            c.log(&log);
            let n = log.lock().unwrap().reads;
            (r.unwrap(), n)
        } else {
            let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
            let core = Core::new(m.blob.clone(), plan);
            let log = core.log.clone();
            let mut p = MediaParser::new();
            let (r, _) = parse_sync(&mut p, op, mode, core);
            c.log(&log);
            let n = log.lock().unwrap().reads;
            (r, n)
        };
        let got = obs_of(&raw);
        c.see(&show(&got));
        c.sig(&format!("{style} {op:?} {mode:?} {is_async}"));
        c.sign(reads);
        let key = |w: &str| format!("{w}:{op:?}:{mode:?}{}", if is_async { ":async" } else { "" });
        if op == Op::Track {
            match (&want_track, signal && exact) {
                (Some(w @ Ok(_)), true) => {
                    c.nontrivial = true;
                    c.count("track_parsed");
                    if let Some(d) = diff_obs(w, &got) {
                        return viol(key("track"), format!("{} {op:?} {mode:?}: embedded video on its own vs in the Motion Photo: {d}", m.name));
                    }
                }
                (_, _) if !signal => {
                    c.nontrivial = true;
                    if got != Err(Fail::NoTrack) {
                        return viol(key("no-signal"), format!("{} {op:?} {mode:?}: no signal is stored, but parse_track gave {}", m.name, show(&got)));
                    }
                }
                _ => {
                    if let Err(Fail::Panic(p)) = &got {
                        return viol(format!("panic:{p}"), format!("{}: {p}", m.name));
                    }
                }
            }
            continue;
        }
        if m.exif.is_none() {
            if let Ok(o) = &got {
                return viol(key("invented"), format!("{}: no EXIF stored, got {o:?}", m.name));
            }
            continue;
        }
        let it = match &raw {
            Ok(o) => o.iter(),
            Err(e) => return viol(key("failed"), format!("{} {op:?} {mode:?}: EXIF is stored, the parse failed: {e:?}", m.name)),
        };
        let Some(it) = it else { return viol(key("none"), format!("{} {op:?} {mode:?}: EXIF missing", m.name)) };
        c.nontrivial = true;
        #[allow(deprecated)]
        let flags = [("iterator", it.has_embedded_track()), ("deprecated alias", it.has_embedded_media()), ("clone", it.clone().has_embedded_track()), ("eager", Exif::from(it.clone()).has_embedded_track())];
        for (n, f) in flags {
            if f != signal {
                return viol(key(&format!("flag-{n}")), format!("{} {op:?} {mode:?}: stored signal {signal}, {n} flag says {f}", m.name));
            }
        }
    }
    Ok(())
}
