//! A stream cut short yields an error or true values, never wrong ones.
use super::*;
use crate::exec::ExecCfg;
use crate::io::*;
use crate::obs::*;
use nom_exif::{LatLng, MediaParser};

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    rule: "a generated media file cut at a drawn byte (anywhere, near structure boundaries, inside the metadata) and parsed from memory, a seekable reader or a stream, sync or async; whatever it returns must be contained in what the complete file returns; non-trivial = the cut removed something and the complete file has metadata; distinct by (format, operation, mode, position class, outcome)",
    quick: (350_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "executor and clock"],
    assumptions: &["dates whose time zone entry was cut off may come back without a zone"],
};

/// `a` is `b`, or the same date without its zone.
fn same_or_naive(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match (a.strip_prefix("ND:"), b.strip_prefix("DT:")) {
        (Some(x), Some(y)) => y.starts_with(x),
        _ => false,
    }
}

fn sub_exif(part: &ExifObs, full: &ExifObs, text_zone_lost: bool) -> Option<String> {
    let mut i = 0;
    for e in &part.entries {
        let Ok(v) = &e.val else { continue };
        // entries come in storage order, so the kept ones are a subsequence
        let mut hit = false;
        while i < full.entries.len() {
            let f = &full.entries[i];
            i += 1;
            if f.ifd == e.ifd && f.code == e.code {
                match &f.val {
                    Ok(w) if v == w || (text_zone_lost && same_or_naive(v, w)) => {
                        hit = true;
                        break;
                    }
                    other => return Some(format!("{} but the complete file gives {other:?}", e.show())),
                }
            }
        }
        if !hit {
            return Some(format!("{} is not in the complete file's result at that place", e.show()));
        }
    }
    if !sub_gps(&part.gps, &full.gps) {
        return Some(format!("gps {} but the complete file gives {}", part.gps, full.gps));
    }
    if part.embedded && !full.embedded {
        return Some("claims an embedded track that the complete file does not have".into());
    }
    if part.runaway {
        return Some("iteration does not end".into());
    }
    None
}
fn zones(o: &ExifObs) -> usize {
    o.entries.iter().filter(|e| matches!(e.code, 0x9010 | 0x9011 | 0x9012) && e.val.is_ok()).count()
}
/// Every part of the location is the one of the complete file, or absent (the crate marks
/// an absent coordinate with zero denominators and the default reference).
fn sub_gps(part: &str, full: &str) -> bool {
    if part == full || part == "none" || part.starts_with("err:") {
        return true;
    }
    let absent = ["North".to_string(), format!("{:?}", LatLng::default()), "East".to_string(), format!("{:?}", LatLng::default()), "Unknown".to_string(), "None".to_string()];
    let (a, b): (Vec<&str>, Vec<&str>) = (part.split(" | ").collect(), full.split(" | ").collect());
    // a hemisphere only says something together with its coordinate
    a.len() == 6 && b.len() == 6 && (0..6).all(|i| a[i] == b[i] || (a[i] == absent[i] && (i % 2 == 1 || i == 4 || a[i + 1] == absent[i + 1])))
}

fn run(c: &mut Ctx) -> Check {
    let m = super::c17::media_or_motion(&mut c.src, 60);
    let mut op = any_op(&mut c.src, &m);
    let asyn = c.src.us(4) == 3;
    if asyn && op == Op::Track && !m.fmt.is_track() {
        op = Op::Exif;
    }
    let mode = *c.src.pick(&MODES);
    let full = if op == Op::Track && !m.fmt.is_track() {
        obs_of(&parse_sync(&mut MediaParser::new(), op, mode, Core::new(m.blob.clone(), Plan::default())).0)
    } else {
        reference(op, &m.blob)
    };
    let len = m.len();
    let cut = match c.src.us(5) {
        0 => c.src.draw(len),
        1 | 2 => (if m.marks.is_empty() { c.src.draw(len) } else { *c.src.pick(&m.marks) } + c.src.draw(25)).saturating_sub(12).min(len - 1),
        _ => c.src.draw(m.meta_end.clamp(1, len)),
    };
    let blob = m.blob.cut(cut);
    let mut plan = draw_delivery(&mut c.src, &m.marks, cut.max(1), !asyn);
    if asyn {
        draw_async(&mut c.src, &mut plan);
    }
    let core = Core::new(blob, plan.clone());
    let log = core.log.clone();
    let got = if asyn {
        obs_of(&async_once(&mut MediaParser::new(), op, mode, core, &ExecCfg::default(), None).0.unwrap())
    } else {
        obs_of(&parse_sync(&mut MediaParser::new(), op, mode, core).0)
    };
    c.log(&log);
    c.faults.add("truncation", 1);
    c.see(&show(&got));
    let what = format!("{} {len} bytes cut at {cut} (metadata ends at {}) {op:?} {mode:?}{} {:?}", m.name, m.meta_end, if asyn { " async" } else { "" }, plan.chunk);
    c.note(format!("{what} -> {} (complete: {})", show(&got), show(&full)));
    c.count(&format!("fmt.{:?}", m.fmt));
    c.nontrivial = full.is_ok();
    c.sig(&format!("{} {op:?} {mode:?} {asyn}", m.name));
    c.sign(m.marks.iter().filter(|x| **x < cut).count() as u64);
    let key = format!("{:?}:{op:?}:{mode:?}", m.fmt);
    match (&got, &full) {
        (Err(Fail::Panic(p)), _) => viol(format!("panic:{p}"), format!("{what}: {p}")),
        (Err(Fail::Stuck), _) => viol("stuck", format!("{what}: never completes")),
        (Err(_), _) => {
            c.count("failed");
            Ok(())
        }
        (Ok(Obs::Exif(a)), Ok(Obs::Exif(b))) => {
            c.count("partial_or_complete");
            let z = zones(b) > zones(a);
            sub_exif(a, b, z).map_or(Ok(()), |d| viol(key, format!("{what}: {d}")))
        }
        (Ok(Obs::Image(a, t)), Ok(Obs::Image(b, u))) => {
            c.count("partial_or_complete");
            if let Some(t) = t {
                let u = u.clone().unwrap_or_default();
                if !u.starts_with(t) {
                    return viol(format!("{key}:text"), clip(&format!("{what}: text {t:?} is not a prefix of {u:?}")));
                }
            }
            match (a, b) {
                (None, _) => Ok(()),
                (Some(a), Some(b)) => sub_exif(a, b, zones(b) > zones(a)).map_or(Ok(()), |d| viol(key, format!("{what}: {d}"))),
                (Some(a), None) => viol(key, format!("{what}: {} entries, the complete file has none", a.entries.len())),
            }
        }
        (Ok(Obs::Track(a)), Ok(Obs::Track(b))) => {
            c.count("partial_or_complete");
            for x in &a.map {
                if !b.map.contains(x) {
                    return viol(key, format!("{what}: {x:?} but the complete file gives {:?}", b.map));
                }
            }
            if a.gps != "none" && a.gps != b.gps {
                return viol(key, format!("{what}: gps {} but the complete file gives {}", a.gps, b.gps));
            }
            Ok(())
        }
        (Ok(_), other) => viol(format!("{key}:phantom"), format!("{what}: {} but the complete file gives {}", show(&got), show(other))),
    }
}
