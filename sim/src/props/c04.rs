//! Track metadata of a well-formed container is reported exactly.
use super::*;
use crate::gen::track::OPTIONAL;
use crate::gen::TrackTruth;
use crate::io::*;
use crate::obs::*;
use nom_exif::*;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    rule: "a well-formed audio/video container generated together with its ground truth, parsed by the real parser under a seeded delivery; non-trivial = the container carries metadata; distinct by (format, tags present, mode, chunking class, moov/track position class)",
    quick: (400_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders, ISO-BMFF/QuickTime and EBML parsers"],
    stubs: &["reader (simulated storage)"],
    assumptions: &["the generator's model of the file formats is right", "durations are given in whole milliseconds, rounded down"],
};

fn num(l: &LatLng) -> f64 {
    let f = |r: &URational| r.numerator() as f64 / r.denominator().max(1) as f64;
    f(&l.degrees) + f(&l.minutes) / 60.0 + f(&l.seconds) / 3600.0
}

pub fn diff_track(t: &TrackTruth, i: &TrackInfo) -> Option<(String, String)> {
    let got: Vec<(String, String)> = observe_track(i).map;
    let names = |v: &[(String, String)]| v.iter().map(|x| x.0.clone()).collect::<std::collections::BTreeSet<_>>();
    let (a, b) = (names(&t.map), names(&got));
    if let Some(x) = a.difference(&b).next() {
        return Some((format!("lost-{x}"), format!("{x} is in the file but not reported; file {:?} reported {:?}", t.map, got)));
    }
    if let Some(x) = b.difference(&a).next() {
        return Some((format!("phantom-{x}"), format!("{x} is reported but not in the file; file {:?} reported {:?}", t.map, got)));
    }
    for (k, v) in &t.map {
        let g = &got.iter().find(|x| x.0 == *k).unwrap().1;
        if g != v {
            return Some((format!("wrong-{k}"), format!("{k}: file has {v}, reported {g}")));
        }
    }
    for (k, v) in i.iter() {
        if i.get(k) != Some(v) || k.name().parse::<TrackInfoTag>().ok() != Some(k) || k.to_string() != k.name() {
            return Some(("accessor".into(), format!("{k:?}: get gives {:?}, listed {v:?}; name {}", i.get(k), k.name())));
        }
        if let Some(d) = value_faults(v).or_else(|| value_texts(v)) {
            return Some(("accessor".into(), format!("{k:?}: {d}")));
        }
    }
    #[allow(deprecated)]
    if i.has_embedded_media() {
        return Some(("embedded".into(), "a track claims an embedded track".into()));
    }
    if let Some(f) = i.gps_info().and_then(gps_faults) {
        return Some(("decoded-location".into(), f));
    }
    match (t.gps, i.gps_info()) {
        (None, None) => None,
        (Some((lat, lon, alt)), Some(g)) => {
            let glat = num(&g.latitude) * if g.latitude_ref == LatRef::South { -1.0 } else { 1.0 };
            let glon = num(&g.longitude) * if g.longitude_ref == LonRef::West { -1.0 } else { 1.0 };
            let galt = match g.altitude {
                Altitude::Unknown => None,
                Altitude::AboveSeaLevel(r) => Some(r.numerator() as f64 / r.denominator() as f64),
                Altitude::BelowSeaLevel(r) => Some(-(r.numerator() as f64) / r.denominator() as f64),
                _ => None,
            };
            let bad_alt = match (alt, galt) {
                (None, None) => false,
                (Some(a), None) if a > OPTIONAL / 2.0 => false,
                (Some(a), Some(b)) if a > OPTIONAL / 2.0 => (a - OPTIONAL - b).abs() > 1e-6,
                (Some(a), Some(b)) => (a - b).abs() > 1e-6,
                _ => true,
            };
            if (lat - glat).abs() > 2e-6 || (lon - glon).abs() > 2e-6 || bad_alt {
                return Some(("wrong-location".into(), format!("location: file has {:?}, decoded {glat} {glon} {galt:?}", t.gps)));
            }
            None
        }
        (a, b) => Some(("location".into(), format!("location in file {a:?}, decoded {b:?}"))),
    }
}

fn run(c: &mut Ctx) -> Check {
    let f = *c.src.pick(&TRACKS);
    let m = gen::track::gen(&mut c.src, f, &TrackOpts::default());
    let mode = *c.src.pick(&MODES);
    let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
    let core = Core::new(m.blob.clone(), plan.clone());
    let log = core.log.clone();
    let mut p = MediaParser::new();
    let (r, kind) = parse_sync(&mut p, Op::Track, mode, core);
    let got = obs_of(&r);
    c.log(&log);
    let t = m.track.clone().unwrap();
    c.count(&format!("fmt.{:?}", m.fmt));
    c.note(format!("{} {} bytes, truth {:?}; {mode:?} {:?} -> {}", m.name, m.len(), t.map, plan.chunk, show(&got)));
    c.see(&show(&got));
    c.nontrivial = !t.map.is_empty();
    c.sig(&format!("{} {mode:?} {:?} {:?}", m.name, std::mem::discriminant(&plan.chunk), t.map.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()));
    c.sign(64 - m.meta_end.leading_zeros() as u64);
    if kind != Some(MediaKind::Track) {
        return viol(format!("{:?}:kind", m.fmt), format!("{}: recognised as {kind:?}", m.name));
    }
    match &r {
        Ok(Out::Track(i)) => {
            if let Some((k, d)) = diff_track(&t, i) {
                return viol(format!("{:?}:{k}", m.fmt), format!("{} {mode:?} {:?}: {d}", m.name, plan.chunk));
            }
        }
        Err(Fail::Panic(p)) => return viol(format!("{:?}:panic:{p}", m.fmt), format!("{} {mode:?} {:?}: panic {p}", m.name, plan.chunk)),
        Err(e) => return viol(format!("{:?}:failed", m.fmt), format!("{} {mode:?} {:?}: {e:?}", m.name, plan.chunk)),
        Ok(_) => unreachable!(),
    }
    Ok(())
}
