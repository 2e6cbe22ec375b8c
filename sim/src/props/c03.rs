//! EXIF and PNG text of a well-formed image are reported completely and exactly.
use super::*;
use crate::gen::tiff::TiffOpts;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    rule: "a well-formed image generated together with its ground truth, parsed by the real parser under a seeded delivery; non-trivial = the image carries metadata; distinct by (format, layout, number of entries, mode, chunking class)",
    quick: (300_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders and all image format parsers"],
    stubs: &["reader (simulated storage)"],
    assumptions: &["the generator's model of the file formats is right"],
};

/// The lazy entries with (ifd, tag) duplicates removed, in order.
pub fn compare_exif(m: &Media, o: &ExifObs, entries: &[Ent]) -> Option<String> {
    let t = m.exif.as_ref()?;
    if entries != t.ents {
        return Some(first_diff(&t.ents, entries));
    }
    if o.gps != t.gps {
        return Some(format!("gps: file has {} reported {}", t.gps, o.gps));
    }
    None
}

pub fn judge(m: &Media, op: Op, got: &Result<Obs, Fail>) -> Option<(String, String)> {
    match (op, got) {
        (_, Err(Fail::Panic(p))) => Some(("panic".into(), p.clone())),
        (Op::Exif, Ok(Obs::Exif(o))) => {
            if m.exif.is_none() {
                return Some(("phantom".into(), format!("EXIF reported for a file without: {} entries", o.entries.len())));
            }
            compare_exif(m, o, &o.entries).map(|d| ("exif".into(), d))
        }
        (Op::Exif, Err(Fail::NoExif)) if m.exif.is_none() => None,
        (Op::Exif, Err(e)) => Some(("lost".into(), format!("{e:?} (file {} EXIF)", if m.exif.is_some() { "has" } else { "has no" }))),
        (Op::Image, Ok(Obs::Image(x, t))) => {
            let want = (m.fmt == Fmt::Png && !m.text.is_empty()).then(|| m.text.clone());
            if *t != want {
                return Some(("text".into(), clip(&format!("text: file has {:?} entries, reported {:?}; {want:?} vs {t:?}", want.as_ref().map(|t| t.len()), t.as_ref().map(|t| t.len())))));
            }
            match (x, &m.exif) {
                (None, None) => None,
                (Some(o), Some(_)) => compare_exif(m, o, &o.entries).map(|d| ("exif".into(), d)),
                (a, b) => Some(("presence".into(), format!("EXIF in file {} reported {}", b.is_some(), a.is_some()))),
            }
        }
        (Op::Image, Err(Fail::NoExif)) if m.exif.is_none() && m.text.is_empty() => None,
        (_, e) => Some(("lost".into(), format!("{} (file: exif {}, text {})", show(e), m.exif.is_some(), m.text.len()))),
    }
}

fn run(c: &mut Ctx) -> Check {
    let f = *c.src.pick(&IMAGES);
    let m = gen::image::gen(&mut c.src, f, &ImgOpts { tiff: TiffOpts { dups: true, ..Default::default() }, ..Default::default() });
    let op = if c.src.flag() { Op::Image } else { Op::Exif };
    let mode = *c.src.pick(&MODES);
    let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
    let core = Core::new(m.blob.clone(), plan.clone());
    let log = core.log.clone();
    let mut p = MediaParser::new();
    let (r, kind) = parse_sync(&mut p, op, mode, core);
    let got = obs_of(&r);
    c.log(&log);
    c.count(&format!("fmt.{:?}", m.fmt));
    c.note(format!("{} {} bytes, truth: {:?} entries, {} text; {op:?} {mode:?} {:?} -> {}", m.name, m.len(), m.exif.as_ref().map(|e| e.ents.len()), m.text.len(), plan.chunk, show(&got)));
    c.see(&show(&got));
    c.nontrivial = m.exif.is_some() || !m.text.is_empty();
    c.sig(&format!("{} {op:?} {mode:?} {:?}", m.name, std::mem::discriminant(&plan.chunk)));
    c.sign(m.exif.as_ref().map(|e| e.ents.len()).unwrap_or(0) as u64);
    c.sign(m.text.len() as u64);
    if kind != Some(nom_exif::MediaKind::Image) {
        return viol(format!("{:?}:kind", m.fmt), format!("{}: recognised as {kind:?}", m.name));
    }
    let it = match &r {
        Ok(Out::Exif(i)) => Some(i.clone()),
        Ok(Out::Image(i)) => i.exif.clone(),
        _ => None,
    };
    if let Some(it) = it.filter(|_| c.src.us(4) == 3) {
        for e in it.take(200) {
            let Some(v) = e.value() else { continue };
            if let Some(d) = value_texts(v) {
                return viol(format!("{:?}:{op:?}:texts", m.fmt), format!("{}: {} {d}", m.name, e.tag()));
            }
        }
    }
    if let Some((k, d)) = judge(&m, op, &got) {
        return viol(format!("{:?}:{op:?}:{k}", m.fmt), format!("{} {op:?} {mode:?} {:?}: {d}", m.name, plan.chunk));
    }
    Ok(())
}
