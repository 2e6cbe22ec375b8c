//! One damaged EXIF entry never hides or alters the others, and is reported.
use super::*;
use crate::exec::ExecCfg;
use crate::gen::tiff::{w16, w32, Dir};
use crate::io::*;
use crate::obs::*;
use nom_exif::{EntryValue, Exif, IRational, IfdIndex, MediaParser, URational};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    rule: "a well-formed image in which the type, count, value location or value (or, for a sub-directory pointer, target) of exactly one stored directory entry is overwritten, delivered under a seeded schedule; every other entry is compared with what the generator wrote and the damaged one looked up in the lazy and the eager view; non-trivial = the parse succeeded and the damaged entry's directory holds other entries; distinct by (format, directory, field, kind of change, operation, mode, outcome of the entry)",
    quick: (130_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders, all image format parsers, lazy and eager EXIF views"],
    stubs: &["reader (simulated storage)", "async executor (simulated)"],
    assumptions: &["when the entry is a sub-directory pointer, the entries of that directory are not compared", "an OffsetTime entry gives the zone of the dates; when it is the damaged one, dates are not compared"],
};

fn field(s: &mut crate::src::Src, blk: &mut [u8], big: bool, off: usize, inline: bool) -> String {
    let n = blk.len() as u32;
    match s.us(if inline { 2 } else { 3 }) {
        0 => {
            let f = *s.pick(&[0u16, 13, 14, 129, 0xff, 0xffff, 0x100, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16]);
            blk[off + 2..off + 4].copy_from_slice(&w16(big, f));
            format!("type:={f}")
        }
        1 => {
            let f = match s.us(4) {
                0 => *s.pick(&[0u32, 0, 1, 2, 3, 5, 9]),
                1 => *s.pick(&[0xffff_ffffu32, 0x8000_0000, 0x7fff_ffff, 0x2000_0000, 0x4000_0000, 0x1fff_ffff, 0x1555_5556]),
                2 => n.wrapping_sub(s.us(30) as u32),
                _ => s.u32x(),
            };
            blk[off + 4..off + 8].copy_from_slice(&w32(big, f));
            format!("count:={f}")
        }
        _ => {
            let f = match s.us(4) {
                0 => n.wrapping_add(s.us(3) as u32),
                1 => *s.pick(&[0xffff_ffffu32, 0xffff_fff0, 0x8000_0000, 0x7fff_ffff, 0]),
                2 => n.wrapping_sub(1 + s.us(8) as u32),
                _ => s.u32x(),
            };
            blk[off + 8..off + 12].copy_from_slice(&w32(big, f));
            format!("location:={f}")
        }
    }
}

/// Makes a sub-directory pointer lead back to a directory that has been read, or nowhere.
fn pointer(s: &mut crate::src::Src, blk: &mut [u8], big: bool, off: usize, other: usize) -> String {
    let n = blk.len() as u32;
    let f = match s.us(5) {
        0 => 0,
        1 => *s.pick(&[0xffff_ffffu32, 0xffff_fffe, 0x8000_0000, 0x7fff_ffff, 0x4000_0000]),
        2 => 0x3fff_0000 - n,
        k => {
            let at = if k == 3 { 4 } else { other };
            let v: [u8; 4] = blk[at..at + 4].try_into().unwrap();
            if big { u32::from_be_bytes(v) } else { u32::from_le_bytes(v) }
        }
    };
    blk[off + 8..off + 12].copy_from_slice(&w32(big, f));
    format!("leads-to:={f}")
}

/// Damages the value itself, as cameras and editors do: blank dates, text that is no UTF-8,
/// nothing but zeros, garbage.
fn content(s: &mut crate::src::Src, v: &mut [u8]) -> String {
    let fill = |v: &mut [u8], p: &[u8]| {
        for (i, b) in v.iter_mut().enumerate() {
            *b = *p.get(i).unwrap_or(&0);
        }
    };
    let k = s.us(7);
    match k {
        0 => fill(v, b"    :  :     :  :  "),
        1 => fill(v, b"0000:00:00 00:00:00"),
        2 => fill(v, b"2023:02:30 24:61:61"),
        3 => v.fill(0xff),
        4 => v.fill(0),
        5 => v.fill(b' '),
        _ => {
            for b in v.iter_mut() {
                *b = s.us(256) as u8;
            }
        }
    }
    format!("content:={k}")
}

/// Which component of the GPS summary a tag feeds.
fn gps_part(tag: u16) -> Option<usize> {
    Some(match tag {
        1 => 0,
        2 => 1,
        3 => 2,
        4 => 3,
        5 | 6 => 4,
        0xc | 0xd => 5,
        _ => return None,
    })
}

/// What the (damaged) entry says now: where its data lies, and the value it denotes if that
/// needs no interpretation beyond its type.
fn denotes(blk: &[u8], file: &[u8], off: usize, big: bool, limit: u64) -> (bool, Option<String>) {
    let r16 = |b: &[u8]| if big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) };
    let r32 = |b: &[u8]| if big { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) };
    let (ty, n, loc) = (r16(&blk[off + 2..]), r32(&blk[off + 4..]) as u64, r32(&blk[off + 8..]) as u64);
    let unit = match ty {
        1 | 2 | 6 | 7 => 1u64,
        3 | 8 => 2,
        4 | 9 | 11 => 4,
        5 | 10 | 12 => 8,
        _ => return (false, None),
    };
    let size = unit * n;
    let inline = size <= 4;
    if !inline && loc + size > limit {
        return (true, None);
    }
    let at = if inline { off } else { loc as usize } + if inline { 8 } else { 0 };
    let d = &file[at..at + size as usize];
    if n == 0 {
        return (false, None);
    }
    let v = match (ty, n) {
        (1, 1) => EntryValue::U8(d[0]),
        (1, _) => EntryValue::U8Array(d.to_vec()),
        (7, _) => EntryValue::Undefined(d.to_vec()),
        (6, 1) => EntryValue::I8(d[0] as i8),
        (3, 1) => EntryValue::U16(r16(d)),
        (3, _) => EntryValue::U16Array(d.chunks(2).map(r16).collect()),
        (8, 1) => EntryValue::I16(r16(d) as i16),
        (4, 1) => EntryValue::U32(r32(d)),
        (4, _) => EntryValue::U32Array(d.chunks(4).map(r32).collect()),
        (9, 1) => EntryValue::I32(r32(d) as i32),
        (11, 1) => EntryValue::F32(f32::from_bits(r32(d))),
        (5, 1) => EntryValue::URational(URational::new(r32(d), r32(&d[4..]))),
        (5, _) => EntryValue::URationalArray(d.chunks(8).map(|x| URational::new(r32(x), r32(&x[4..]))).collect()),
        (10, 1) => EntryValue::IRational(IRational::new(r32(d) as i32, r32(&d[4..]) as i32)),
        (10, _) => EntryValue::IRationalArray(d.chunks(8).map(|x| IRational::new(r32(x) as i32, r32(&x[4..]) as i32)).collect()),
        _ => return (false, None),
    };
    (false, Some(canon(&v)))
}

fn run(c: &mut Ctx) -> Check {
    let f = *c.src.pick(&IMAGES);
    let opts = ImgOpts { no_exif: 0, legacy: false, ..Default::default() };
    let mut m = gen::image::gen(&mut c.src, f, &opts);
    if m.tiffs.is_empty() {
        return Ok(());
    }
    let ti = c.src.us(m.tiffs.len());
    let (t, base) = m.tiffs[ti].clone();
    let truth = m.exif.clone().unwrap();
    let ptrs = c.src.us(10) == 9;
    let cands: Vec<_> = t.slots.iter().filter(|s| s.ptr == ptrs).cloned().collect();
    if cands.is_empty() {
        return Ok(());
    }
    let slot = c.src.pick(&cands).clone();
    let key = (t.ents[slot.ent].ifd, slot.tag);
    if m.tiffs.iter().flat_map(|x| &x.0.ents).filter(|e| (e.ifd, e.code) == key).count() != 1 {
        return Ok(());
    }
    let mut blk = t.bytes.clone();
    let what = if !slot.ptr && c.src.us(4) == 3 {
        let (at, len) = slot.val.map(|v| (v.0 as usize, v.1 as usize)).unwrap_or((slot.off + 8, 4));
        content(&mut c.src, &mut blk[at..at + len])
    } else if slot.ptr && c.src.flag() {
        let first = t.slots.iter().find(|x| x.ptr && x.tag == 0x8769 && slot.tag == 0x8825 && x.dir == slot.dir && x.off < slot.off);
        pointer(&mut c.src, &mut blk, t.big, slot.off, first.map_or(4, |x| x.off + 8))
    } else {
        field(&mut c.src, &mut blk, t.big, slot.off, slot.val.is_none())
    };
    // the entries of a directory whose pointer is damaged may go with it
    let sub = match slot.tag {
        0x8769 if slot.ptr => Some(Dir::Exif),
        0x8825 if slot.ptr => Some(Dir::Gps),
        _ => None,
    };
    let under: Vec<(usize, u16)> = t.slots.iter().filter(|s| Some(s.dir) == sub).map(|s| (t.ents[s.ent].ifd, s.tag)).collect();
    let mut b = m.bytes();
    b[base as usize..base as usize + blk.len()].copy_from_slice(&blk);
    // a TIFF file's data may lie anywhere in the file, elsewhere the block is all there is
    let limit = if m.fmt == Fmt::Tiff { b.len() as u64 - base } else { blk.len() as u64 };
    let (outside, value) = denotes(&blk, &b[base as usize..], slot.off, t.big, limit);
    m.blob = Blob::flat(b);

    let op = if c.src.us(3) == 2 { Op::Image } else { Op::Exif };
    let mode = *c.src.pick(&MODES);
    let asyn = c.src.us(4) == 3;
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), !asyn);
    let mut p = MediaParser::new();
    let raw = if asyn {
        draw_async(&mut c.src, &mut plan);
        let core = Core::new(m.blob.clone(), plan.clone());
        let log = core.log.clone();
        let (r, st, _) = async_once(&mut p, op, mode, core, &ExecCfg { seed: plan.seed, spurious: 20, ..Default::default() }, None);
        c.virt += st.virt;
        c.log(&log);
        r.unwrap()
    } else {
        let core = Core::new(m.blob.clone(), plan.clone());
        let log = core.log.clone();
        let r = parse_sync(&mut p, op, mode, core).0;
        c.log(&log);
        r
    };
    drop(p);
    let say = format!("{} {} bytes {op:?} {mode:?}{}: entry ifd{}.{:04x} in {:?} {what}", m.name, m.len(), if asyn { " async" } else { "" }, key.0, key.1, slot.dir);
    let kind = what.split(":=").next().unwrap().to_string();
    let vkey = |w: &str| format!("{w}:{:?}:{kind}{}", m.fmt, if asyn { ":async" } else { "" });
    let it = match &raw {
        Ok(o) => o.iter().cloned(),
        Err(Fail::Panic(p)) => return viol(format!("panic:{p}"), format!("{say}: {p}")),
        Err(e) => return viol(vkey("lost"), format!("{say}: the whole parse failed: {e:?}")),
    };
    let Some(it) = it else { return viol(vkey("lost"), format!("{say}: no EXIF reported")) };
    let o = observe_iter(&it);
    let (mine, others): (Vec<Ent>, Vec<Ent>) = o.entries.iter().filter(|e| !under.contains(&(e.ifd, e.code))).cloned().partition(|e| (e.ifd, e.code) == key);
    let tz = sub == Some(Dir::Exif) || (slot.dir == Dir::Exif && (0x9010..=0x9012).contains(&slot.tag));
    let blur = |v: Vec<Ent>| -> Vec<Ent> {
        v.into_iter()
            .map(|mut e| {
                if tz {
                    if let Ok(v) = &mut e.val {
                        if v.starts_with("DT:") || v.starts_with("ND:") {
                            *v = "date".into();
                        }
                    }
                }
                e
            })
            .collect()
    };
    let want: Vec<Ent> = blur(truth.ents.iter().filter(|e| (e.ifd, e.code) != key && !under.contains(&(e.ifd, e.code))).cloned().collect());
    let others = blur(others);
    c.note(format!("{say}: {} others, damaged one {}", others.len(), mine.first().map(|e| e.show()).unwrap_or("missing".into())));
    c.see(&format!("{others:?}{mine:?}"));
    c.nontrivial = t.slots.iter().filter(|s| s.dir == slot.dir).count() > 1;
    let outcome = match mine.first().map(|e| &e.val) {
        None => "lost",
        Some(Ok(_)) => "value",
        Some(Err(_)) => "error",
    };
    c.count(&format!("entry.{outcome}"));
    c.sig(&format!("{:?}{:?}{what}{op:?}{mode:?}{asyn}{outcome}", m.fmt, slot.dir));
    c.sign(truth.ents.len() as u64);
    if want != others {
        return viol(vkey("others"), format!("{say}: the other entries: stored vs reported: {}", first_diff(&want, &others)));
    }
    if mine.len() != 1 {
        return viol(vkey("entry"), format!("{say}: the damaged entry is reported {} times", mine.len()));
    }
    if let Ok(v) = &mine[0].val {
        if outside {
            return viol(vkey("invented"), clip(&format!("{say}: its data lies outside the EXIF block, yet it yields {v}")));
        }
        c.count(if value.is_some() { "value_decoded" } else { "value_opaque" });
        if let (Some(w), true) = (&value, slot.tag >= 0xc000 && slot.tag < 0xe000) {
            if v != w {
                return viol(vkey("value"), clip(&format!("{say}: the data it points at reads {w}, reported {v}")));
            }
            c.count("value_compared");
        }
    } else if outside {
        c.count("outside_refused");
    }
    let a: Vec<&str> = truth.gps.split(" | ").collect();
    let g: Vec<&str> = o.gps.split(" | ").collect();
    let skip = if slot.dir == Dir::Gps || (m.fmt == Fmt::Cr3 && slot.tag < 0x20) { gps_part(slot.tag) } else { None };
    if sub == Some(Dir::Gps) {
        // no directory, no summary
    } else if a.len() != g.len() || (0..a.len()).any(|i| Some(i) != skip && a[i] != g[i]) {
        return viol(vkey("gps"), format!("{say}: stored GPS {} reported {}", truth.gps, o.gps));
    }
    // the eager view
    let e = Exif::from(it);
    let eo = observe_eager(&e);
    if eo != eager_of(&o) {
        return viol(vkey("eager"), clip(&format!("{say}: eager view {eo:?}, lazy view {:?}", eager_of(&o))));
    }
    let got = e.get_by_code(IfdIndex::new(key.0), key.1).is_some();
    let err = e.errors().iter().any(|(i, t, _)| (i.as_usize(), t.code()) == key);
    if got == err {
        return viol(vkey("eager-entry"), format!("{say}: in the eager view the entry has a value: {got}, an error: {err}"));
    }
    Ok(())
}
