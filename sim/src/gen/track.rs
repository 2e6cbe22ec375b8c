//! Well-formed audio/video containers with known track metadata.
use super::image::pad_size;
use super::*;
use crate::src::Src;
use chrono::{DateTime, Duration, FixedOffset, NaiveDate, TimeZone};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct TrackOpts {
    /// large payloads around the metadata
    pub big: bool,
    /// less common but valid encodings (64-bit headers, reordered items, CRC elements, ...)
    pub odd: bool,
    /// chance (per mille) that a file has no metadata container at all
    pub none: u64,
}
impl Default for TrackOpts {
    fn default() -> Self {
        TrackOpts { big: true, odd: true, none: 0 }
    }
}

const ORDER: [&str; 9] = ["Make", "Model", "Software", "CreateDate", "DurationMs", "Width", "Height", "GpsIso6709", "Author"];

pub fn gen(s: &mut Src, fmt: Fmt, o: &TrackOpts) -> Media {
    let mut m = match fmt {
        Fmt::Mkv | Fmt::Webm => mkv(s, fmt, o),
        _ => with_large(s, o.odd, |s| mp4(s, fmt, o)),
    };
    m.marks.sort_unstable();
    m.marks.dedup();
    m
}

fn finish(map: BTreeMap<String, String>, gps: Option<(f64, f64, Option<f64>)>) -> TrackTruth {
    let mut v: Vec<(String, String)> = map.into_iter().collect();
    v.sort_by_key(|(k, _)| ORDER.iter().position(|o| o == k));
    TrackTruth { map: v, gps }
}

/// Marks an altitude that need not be decoded.
pub const OPTIONAL: f64 = 1e6;

fn iso6709(s: &mut Src) -> (String, (f64, f64, Option<f64>)) {
    let (ns, ew) = (s.flag(), s.flag());
    let (n, e) = (if ns { '-' } else { '+' }, if ew { '-' } else { '+' });
    // degrees; degrees and minutes; degrees, minutes and seconds
    let (mut t, lat, lon) = match s.us(6) {
        3 => {
            let (la, lo) = (s.us(90), s.us(180));
            (format!("{n}{la:02}{e}{lo:03}"), la as f64, lo as f64)
        }
        4 => {
            let (la, lo, x, y) = (s.us(90), s.us(180), s.us(60_000), s.us(60_000));
            let m = |v: usize| format!("{:02}.{:03}", v / 1000, v % 1000);
            (format!("{n}{la:02}{}{e}{lo:03}{}", m(x), m(y)), la as f64 + x as f64 / 60e3, lo as f64 + y as f64 / 60e3)
        }
        5 => {
            let (la, lo, x, y) = (s.us(90), s.us(180), s.us(360_000), s.us(360_000));
            let m = |v: usize| format!("{:02}{:02}.{:02}", v / 6000, v / 100 % 60, v % 100);
            (format!("{n}{la:02}{}{e}{lo:03}{}", m(x), m(y)), la as f64 + x as f64 / 360e3, lo as f64 + y as f64 / 360e3)
        }
        _ => {
            let (la, lo) = (s.us(89 * 10_000), s.us(179 * 10_000));
            (format!("{n}{:02}.{:04}{e}{:03}.{:04}", la / 10_000, la % 10_000, lo / 10_000, lo % 10_000), la as f64 / 1e4, lo as f64 / 1e4)
        }
    };
    let mut alt = None;
    if s.us(2) == 0 {
        let a = s.us(8_000_000) as i64;
        let below = s.us(4) == 3;
        t.push_str(&format!("{}{:03}.{:03}", if below { '-' } else { '+' }, a / 1000, a % 1000));
        let v = a as f64 / 1000.0 * if below { -1.0 } else { 1.0 };
        // without a reference system the altitude may be left undecoded
        alt = Some(v + OPTIONAL);
        if s.flag() {
            t.push_str("CRSWGS_84");
            alt = Some(v);
        }
    }
    t.push('/');
    (t, (if ns { -lat } else { lat }, if ew { -lon } else { lon }, alt))
}

fn text_key(v: &str) -> String {
    crate::obs::canon(&nom_exif::EntryValue::Text(v.to_string()))
}
fn dt_key(t: DateTime<FixedOffset>) -> String {
    crate::obs::canon(&nom_exif::EntryValue::DateTime(t))
}

fn mp4(s: &mut Src, fmt: Fmt, o: &TrackOpts) -> Media {
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut gps = None;
    // ---- moov
    let timescale = *s.pick(&[1000u32, 600, 1, 90_000, 44_100, 24_000, 10_000_000]);
    let v1 = o.odd && s.us(4) == 3;
    let dur = match s.us(3) {
        0 => s.draw(1 << 16),
        1 => s.draw(1 << 31),
        _ => {
            if v1 {
                s.draw(1 << 40)
            } else {
                s.draw(0xFFFF_0000)
            }
        }
    };
    let ctime = match s.us(4) {
        0 => s.draw(1 << 32),
        1 => 0,
        _ => 3_600_000_000 + s.draw(400_000_000),
    };
    let ctime = if v1 && s.us(4) == 3 { ctime + (1 << 32) } else { ctime };
    let mut mv = vec![];
    if v1 {
        mv.extend(ctime.to_be_bytes());
        mv.extend(s.draw(1 << 32).to_be_bytes());
        mv.extend(timescale.to_be_bytes());
        mv.extend(dur.to_be_bytes());
    } else {
        mv.extend((ctime as u32).to_be_bytes());
        mv.extend((s.draw(1 << 32) as u32).to_be_bytes());
        mv.extend(timescale.to_be_bytes());
        mv.extend((dur as u32).to_be_bytes());
    }
    mv.extend(s.filler(76));
    mv.extend(2u32.to_be_bytes());
    let mvhd = fullbox(b"mvhd", v1 as u8, &mv);
    let with_mvhd = s.us(12) != 11;
    if with_mvhd {
        map.insert("DurationMs".into(), format!("U64:{}", dur as u128 * 1000 / timescale as u128));
        let base = NaiveDate::from_ymd_opt(1904, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
        map.insert("CreateDate".into(), dt_key((base + Duration::seconds(ctime as i64)).and_utc().fixed_offset()));
    }
    let mut children: Vec<Vec<u8>> = vec![];
    if with_mvhd {
        children.push(mvhd);
    }
    let n_trak = if s.us(60) == 59 { s.range(8, 30) } else { s.us(4) };
    let mut seen_video = false;
    let mut traks = vec![];
    for _ in 0..n_trak {
        let kind: &[u8; 4] = *s.pick(&[b"vide", b"soun", b"meta"]);
        let tv1 = o.odd && s.us(4) == 3;
        let (w, h) = (s.range(1, 9000) as u16, s.range(1, 9000) as u16);
        let mut t = vec![];
        if tv1 {
            t.extend(s.draw(1 << 33).to_be_bytes());
            t.extend(s.draw(1 << 33).to_be_bytes());
            t.extend(1u32.to_be_bytes());
            t.extend(0u32.to_be_bytes());
            t.extend(s.draw(1 << 33).to_be_bytes());
        } else {
            t.extend((s.draw(1 << 32) as u32).to_be_bytes());
            t.extend((s.draw(1 << 32) as u32).to_be_bytes());
            t.extend(1u32.to_be_bytes());
            t.extend(0u32.to_be_bytes());
            t.extend((s.draw(1 << 32) as u32).to_be_bytes());
        }
        t.extend([0; 8]);
        t.extend([0, 0, 0, 0, 1, 0, 0, 0]);
        t.extend(s.filler(36));
        let video = kind == b"vide";
        let frac = s.draw(65536) as u16;
        for v in [w, h] {
            let v = if video { v } else { 0 };
            t.extend(v.to_be_bytes());
            t.extend((if video { frac } else { 0 }).to_be_bytes());
        }
        let tkhd = fullbox(b"tkhd", tv1 as u8, &t);
        let mut hd = vec![];
        hd.extend_from_slice(*s.pick(&[b"mhlr", b"\0\0\0\0"]));
        hd.extend_from_slice(kind);
        hd.extend([0; 12]);
        let nm = s.text(0, 30);
        hd.extend(nm.as_bytes());
        hd.push(0);
        let hdlr = fullbox(b"hdlr", 0, &hd);
        let mut mdia = fullbox(b"mdhd", 0, &[0; 20]);
        mdia.extend(hdlr);
        let n = pad_size(s, false);
        mdia.extend(bx(b"minf", &s.filler(n)));
        let mut trak = tkhd;
        if s.us(3) == 2 {
            let n = s.us(60);
            trak.extend(bx(b"edts", &s.filler(n)));
        }
        if o.odd && !video && s.us(8) == 7 {
            // a track with nothing but a header, or with media of no stated kind
            if s.flag() {
                trak.extend(bx(b"mdia", &fullbox(b"mdhd", 0, &[0; 20])));
            }
        } else {
            trak.extend(bx(b"mdia", &mdia));
        }
        traks.push(bx(b"trak", &trak));
        if video && !seen_video {
            seen_video = true;
            map.insert("Width".into(), format!("U32:{w}"));
            map.insert("Height".into(), format!("U32:{h}"));
        }
    }
    children.extend(traks);
    // QuickTime metadata
    if s.us(if fmt == Fmt::Mov { 4 } else { 2 }) != 0 {
        let all = ["make", "model", "software", "author", "location.ISO6709", "creationdate", "location.accuracy.horizontal", "live-photo.auto", "content.identifier"];
        let mut picks: Vec<&str> = all.iter().copied().filter(|_| s.us(3) != 0).collect();
        for i in (1..picks.len()).rev() {
            let j = s.us(i + 1);
            picks.swap(i, j);
        }
        if o.odd && s.us(5) == 4 {
            // keys of other applications, values of other types
            for _ in 0..s.range(1, 3) {
                let k = s.us(picks.len() + 1);
                picks.insert(k, *s.pick(&["artwork", "x.dims", "x.rect", "x.int", "x.float", "x.latin1", "x.empty"]));
            }
        }
        if o.odd && s.us(24) == 23 {
            // many keys before the ones that matter
            let k = s.us(picks.len() + 1);
            for _ in 0..s.range(200, 300) {
                picks.insert(k, "x.undeclared");
            }
        }
        let mut keys = vec![];
        keys.extend((picks.len() as u32).to_be_bytes());
        let mut items: Vec<Vec<u8>> = vec![];
        for (i, k) in picks.iter().enumerate() {
            let mut key = format!("com.apple.quicktime.{k}").into_bytes();
            let mut space = b"mdta";
            if *k == "x.latin1" {
                (key, space) = (b"\xa9nam".to_vec(), b"udta");
            }
            keys.extend((8 + key.len() as u32).to_be_bytes());
            keys.extend(space);
            keys.extend(key);
            if *k == "x.undeclared" {
                continue;
            }
            // an item that is only declared
            if o.odd && s.us(10) == 9 {
                continue;
            }
            let (ty, val): (u32, Vec<u8>) = match *k {
                "creationdate" => {
                    let t = s.us(2_000_000_000) as i64;
                    let off = *s.pick(&[0i32, 8 * 3600, -7 * 3600, 5 * 3600 + 1800, -(3 * 3600 + 1800)]);
                    let frac = if s.us(6) == 5 { s.us(1000) as u32 * 1_000_000 } else { 0 };
                    let d = FixedOffset::east_opt(off).unwrap().timestamp_opt(t, frac).unwrap();
                    map.insert("CreateDate".into(), dt_key(d));
                    let mut txt = d.format(if frac > 0 { "%Y-%m-%dT%H:%M:%S%.3f" } else { "%Y-%m-%dT%H:%M:%S" }).to_string();
                    txt += &match s.us(3) {
                        0 if off == 0 => "Z".to_string(),
                        0 | 1 => d.format("%z").to_string(),
                        _ => d.format("%:z").to_string(),
                    };
                    (1, txt.into_bytes())
                }
                "location.ISO6709" => {
                    let (t, g) = iso6709(s);
                    map.insert("GpsIso6709".into(), text_key(&t));
                    gps = Some(g);
                    (1, t.into_bytes())
                }
                "artwork" => {
                    let n = s.us(2000);
                    (*s.pick(&[13, 14, 27]), s.filler(n))
                }
                "x.dims" => (71, s.filler(8)),
                "x.rect" => (72, s.filler(16)),
                "x.int" => {
                    let n = s.range(1, 8);
                    (*s.pick(&[21, 22, 65, 66, 67, 75, 77]), s.filler(n))
                }
                "x.float" => {
                    let n = *s.pick(&[4usize, 8]);
                    (*s.pick(&[23, 24]), s.filler(n))
                }
                "x.latin1" => (*s.pick(&[1, 2, 3]), b"Caf\xe9".to_vec()),
                "x.empty" => (*s.pick(&[0, 1, 21, 22, 23]), vec![]),
                "live-photo.auto" => (22, vec![s.us(2) as u8]),
                "location.accuracy.horizontal" => (1, b"14.235563".to_vec()),
                k => {
                    let mut t = if s.us(16) == 15 { s.text(200, 3000) } else { s.text(0, 60) };
                    if s.us(4) == 3 {
                        t.push_str(" é中文");
                    }
                    let name = match k {
                        "make" => "Make",
                        "model" => "Model",
                        "software" => "Software",
                        "author" => "Author",
                        _ => "",
                    };
                    if !name.is_empty() {
                        map.insert(name.into(), text_key(&t));
                    }
                    (1, t.into_bytes())
                }
            };
            // the same in another language
            let mut more = vec![];
            if o.odd && s.us(16) == 15 {
                let n = s.us(30);
                let t = s.text(n, n);
                more = bx(b"data", &[&ty.to_be_bytes()[..], b"\0\0\x15\xc7", t.as_bytes()].concat());
            }
            let mut it = vec![];
            it.extend((24 + val.len() as u32 + more.len() as u32).to_be_bytes());
            it.extend((i as u32 + 1).to_be_bytes());
            it.extend((16 + val.len() as u32).to_be_bytes());
            it.extend(b"data");
            it.extend(ty.to_be_bytes());
            it.extend(0u32.to_be_bytes());
            it.extend(val);
            it.extend(more);
            items.push(it);
        }
        if o.odd && s.us(5) == 4 {
            for i in (1..items.len()).rev() {
                let j = s.us(i + 1);
                items.swap(i, j);
            }
        }
        // a plain box in QuickTime files, a full box in the others
        let mut meta = if fmt != Fmt::Mov && o.odd && s.us(4) == 3 { vec![0; 4] } else { vec![] };
        meta.extend(fullbox(b"hdlr", 0, b"\0\0\0\0mdta\0\0\0\0\0\0\0\0\0\0\0\0\0"));
        meta.extend(fullbox(b"keys", 0, &keys));
        if s.us(4) == 3 {
            let n = s.us(300);
            meta.extend(bx(b"free", &s.filler(n)));
        }
        meta.extend(bx(b"ilst", &items.concat()));
        let meta = bx(b"meta", &meta);
        let k = s.us(children.len() + 1);
        children.insert(k, meta);
    }
    // user data
    if s.us(2) == 1 {
        let mut ud = vec![];
        if s.us(3) == 0 {
            let n = s.us(80);
            ud.push(bx(b"SDLN", &s.filler(n)));
        }
        if s.us(2) == 0 {
            let (t, g) = iso6709(s);
            let mut b = vec![];
            let form = if o.odd { s.us(10) } else { 0 };
            if form == 9 {
                b.extend([0; 4]);
            } else {
                b.extend((t.len() as u16).to_be_bytes());
                b.extend(0x15c7u16.to_be_bytes());
            }
            b.extend(t.as_bytes());
            if form == 8 {
                // the same in another language, or an ending zero
                if s.flag() {
                    b.push(0);
                } else {
                    b.extend([0, 7, 0, 1]);
                    b.extend(b"+01+002");
                }
            }
            ud.push(bx(b"\xa9xyz", &b));
            map.insert("GpsIso6709".into(), text_key(&t));
            gps = Some(g);
        }
        if s.us(3) == 0 {
            let t = if s.us(16) == 15 { s.text(200, 3000) } else { s.text(1, 40) };
            let mut b = vec![0, 0, 0, 0];
            let lang = if o.odd { *s.pick(&[0x55c4u16, 0x55c4, 0x15c7, 0x2a0e, 0x2a0e, 0x6b0f, 0]) } else { 0x55c4 };
            b.extend(lang.to_be_bytes());
            if o.odd && s.us(6) == 5 {
                b.extend([0xfe, 0xff]);
                b.extend(t.encode_utf16().flat_map(|u| u.to_be_bytes()));
                b.push(0);
            } else {
                b.extend(t.as_bytes());
            }
            b.push(0);
            ud.push(bx(b"auth", &b));
            map.insert("Author".into(), text_key(&t));
        }
        for i in (1..ud.len()).rev() {
            let j = s.us(i + 1);
            ud.swap(i, j);
        }
        let mut ud = ud.concat();
        if o.odd && s.us(4) == 3 {
            ud.extend([0; 4]);
        }
        let k = s.us(children.len() + 1);
        children.insert(k, bx(b"udta", &ud));
    }
    if s.us(3) == 0 || children.is_empty() {
        let n = pad_size(s, o.big);
        let k = s.us(children.len() + 1);
        children.insert(k, bx(*s.pick(&[b"free", b"iods", b"uuid"]), &{
            let mut f = s.filler(n.max(16));
            f[0] |= 1;
            f
        }));
    }
    let moov = children.concat();
    // ---- file
    let mut w = W::default();
    let bare = fmt == Fmt::Mov && o.odd && s.us(5) == 4;
    if !bare {
        let (brand, compat): (&[u8; 4], &[u8]) = match fmt {
            Fmt::Mov => (*s.pick(&[b"qt  ", b"qt  ", b"mqt "]), b"qt  "),
            Fmt::ThreeGp if o.odd && s.us(8) == 7 => (*s.pick(&[b"3gp7", b"3gr6", b"3gp9"]), b"isom3gp4"),
            Fmt::ThreeGp => (*s.pick(&[b"3gp4", b"3gp5", b"3gp6", b"3ge6", b"3ge7", b"3gg6", b"3gs7", b"3g2a", b"3g2b", b"3g2c"]), b"3gp4"),
            Fmt::Mp4 if s.us(4) == 3 => (*s.pick(&[b"avc1", b"mp41", b"iso2", b"vfj1"]), b"mp71"),
            _ => match s.us(4) {
                0 => (b"isom", b"isomiso2avc1mp41"),
                1 => (b"mp42", b"mp42isom"),
                2 => (b"XAVC", b"XAVCmp42iso2"),
                _ => (b"dash", b"iso6mp41"),
            },
        };
        let mut brand = brand.to_vec();
        let mut compat = compat.to_vec();
        if o.odd && s.us(12) == 11 {
            // known by a compatible brand only
            let known = if fmt == Fmt::Mov { b"qt  " } else { s.pick::<&[u8; 4]>(&[b"isom", b"mp42", b"mp41", b"avc1", b"iso2"]) };
            brand = s.pick::<&[u8; 4]>(&[b"niko", b"caep", b"MSNV", b"M4VH", b"F4V ", b"3gs6"]).to_vec();
            let n = s.us(12);
            let mut l: Vec<[u8; 4]> = (0..n).map(|_| **s.pick::<&[u8; 4]>(&[b"cmfc", b"dby1", b"iso6", b"mp71", b"NDSC", b"dash"])).collect();
            let k = s.us(n + 1);
            l.insert(k, *known);
            compat = l.concat();
        }
        let mut b = brand;
        b.extend(512u32.to_be_bytes());
        b.extend(compat);
        w.bx(b"ftyp", &b);
    } else {
        // classic QuickTime without a file type box
        w.bx(b"wide", &[]);
        let n = 16 + s.us(40);
        w.bx(b"mdat", &s.filler(n));
    }
    w.mark();
    let moov_first = s.us(2) == 0;
    let pre = if s.us(60) == 59 { s.range(20, 200) } else { s.us(4) };
    let mut payload = |s: &mut Src, w: &mut W, mdat: bool| {
        let n = if pre > 4 { s.us(300) } else { pad_size(s, o.big) };
        let f = s.filler(n);
        if mdat {
            if s.us(4) == 3 {
                w.bx64(b"mdat", &f);
            } else {
                w.bx(b"mdat", &f);
            }
        } else if s.us(6) == 5 {
            w.bx64(b"free", &f);
        } else {
            w.bx(*s.pick(&[b"free", b"skip", b"wide", b"PICT"]), &f);
        }
    };
    for _ in 0..pre {
        payload(s, &mut w, false);
    }
    if !moov_first {
        let n = s.range(1, 3);
        for _ in 0..n {
            payload(s, &mut w, true);
        }
    }
    w.mark();
    if o.odd && s.us(8) == 7 {
        w.bx64(b"moov", &moov);
    } else {
        w.bx(b"moov", &moov);
    }
    let meta_end = w.pos() as u64;
    let post = s.us(3);
    for k in 0..post {
        payload(s, &mut w, k == 0 && moov_first);
    }
    while w.pos() < 140 {
        w.bx(b"free", &[0; 100]);
    }
    let mut m = Media::new(fmt, w.b);
    m.marks = w.marks;
    m.meta_end = meta_end;
    m.track = Some(finish(map, gps));
    m
}

// ---------------------------------------------------------------- EBML

pub fn vint(n: u64, width: usize) -> Vec<u8> {
    let mut wd = width.max(1);
    while wd < 8 && n >= (1u64 << (7 * wd)) - 1 {
        wd += 1;
    }
    let v = n | 1u64 << (7 * wd);
    v.to_be_bytes()[8 - wd..].to_vec()
}
pub fn el(id: u32, body: &[u8], width: usize) -> Vec<u8> {
    let mut v = id_bytes(id);
    v.extend(vint(body.len() as u64, width));
    v.extend_from_slice(body);
    v
}
pub fn id_bytes(id: u32) -> Vec<u8> {
    let b = id.to_be_bytes();
    let z = b.iter().take_while(|x| **x == 0).count();
    b[z..].to_vec()
}
fn uint(n: u64, width: usize) -> Vec<u8> {
    let mut wd = width.clamp(1, 8);
    while wd < 8 && n >> (8 * wd) != 0 {
        wd += 1;
    }
    n.to_be_bytes()[8 - wd..].to_vec()
}

fn mkv(s: &mut Src, fmt: Fmt, o: &TrackOpts) -> Media {
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let wide = |s: &mut Src| if s.us(4) == 3 { s.range(1, 8) } else { 1 };
    // ---- Info
    let mut info: Vec<Vec<u8>> = vec![];
    let scale = if s.us(4) == 3 { *s.pick(&[1u64, 1000, 100_000, 22_675, 1_000_000_000]) } else { 1_000_000 };
    let explicit = scale != 1_000_000 || s.flag();
    if s.us(8) != 7 {
        // duration in ticks; keep the result below about 11 days
        let ms = s.us(1_000_000_000) as f64 * if s.us(2) == 0 { 0.001 } else { 1.0 };
        let ticks = (ms * 1e6 / scale as f64).floor();
        let wd = wide(s);
        let (ticks, body) = if s.us(3) == 2 {
            let t = ticks as f32;
            (t as f64, t.to_be_bytes().to_vec())
        } else {
            (ticks, ticks.to_be_bytes().to_vec())
        };
        info.push(el(0x4489, &body, wd));
        map.insert("DurationMs".into(), format!("U64:{}", (ticks * scale as f64 / 1e6) as u64));
    }
    if explicit {
        let n = uint(scale, *s.pick(&[1usize, 3, 4, 5, 6, 7, 8]));
        let wd = wide(s);
        let e = el(0x2AD7B1, &n, wd);
        if o.odd && s.us(4) == 3 {
            info.push(e);
        } else {
            info.insert(0, e);
        }
    }
    if s.us(4) != 3 {
        let ns = s.draw(900_000_000) as i64 * 1_000_000_000 + if s.us(3) == 0 { s.us(1_000_000_000) as i64 } else { 0 };
        let ns = if o.odd && s.us(8) == 7 { -ns } else { ns };
        let k = s.us(info.len() + 1);
        let wd = wide(s);
        info.insert(k, el(0x4461, &ns.to_be_bytes(), wd));
        let base = NaiveDate::from_ymd_opt(2001, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
        map.insert("CreateDate".into(), dt_key((base + Duration::nanoseconds(ns)).and_utc().fixed_offset()));
    }
    for id in [0x4D80u32, 0x5741, 0x7BA9] {
        if s.us(3) != 0 {
            let t = if s.us(24) == 23 { s.text(300, 12_000) } else { s.text(0, 50) };
            let k = s.us(info.len() + 1);
            let wd = wide(s);
            info.insert(k, el(id, t.as_bytes(), wd));
        }
    }
    if s.us(4) == 3 {
        let f = s.filler(16);
        let k = s.us(info.len() + 1);
        info.insert(k, el(0x73A4, &f, 1));
    }
    if s.us(4) == 3 {
        info.insert(0, el(0xBF, &[1, 2, 3, 4], 1));
    }
    if s.us(4) == 3 {
        let n = s.us(400);
        let k = s.us(info.len() + 1);
        info.insert(k, el(0xEC, &vec![0; n], 1));
    }
    let iw = wide(s);
    let info = el(0x1549A966, &info.concat(), iw);
    // ---- Tracks
    let mut tracks = vec![];
    if s.us(4) == 3 {
        tracks.extend(el(0xBF, &[9, 8, 7, 6], 1));
    }
    let n = if s.us(60) == 59 { s.range(8, 60) } else { s.range(1, 4) };
    let mut kinds: Vec<bool> = (0..n).map(|_| s.us(3) != 2).collect();
    if !o.odd {
        kinds.sort_by_key(|v| !*v);
        if fmt == Fmt::Webm {
            kinds[0] = true;
        }
    }
    let mut seen = false;
    for (i, video) in kinds.iter().enumerate() {
        let mut te = vec![el(0xD7, &[i as u8 + 1], 1), el(0x73C5, &uint(s.draw(1 << 32), 1), 1), el(0x83, &[if *video { 1 } else { 2 }], 1)];
        let c = s.text(3, 20);
        te.push(el(0x86, c.as_bytes(), 1));
        if s.us(3) == 0 {
            let n = pad_size(s, false);
            te.push(el(0x63A2, &s.filler(n), 1));
        }
        let sub = if *video {
            let (w, h) = (s.range(1, 9000) as u64, s.range(1, 9000) as u64);
            let mut v = vec![];
            let (ww, hw) = if s.us(4) == 3 { (s.range(1, 8), s.range(1, 8)) } else { (s.range(1, 4), s.range(1, 4)) };
            v.push(el(0xB0, &uint(w, ww), 1));
            v.push(el(0xBA, &uint(h, hw), 1));
            if s.us(2) == 0 {
                v.push(el(0x9A, &[2], 1));
            }
            if s.us(2) == 0 {
                v.push(el(0x54B0, &uint(1920, 1), 1));
            }
            if s.us(2) == 0 {
                v.push(el(0x55B0, &el(0x55B1, &[1], 1), 1));
            }
            for i in (1..v.len()).rev() {
                let j = s.us(i + 1);
                v.swap(i, j);
            }
            if !seen {
                seen = true;
                map.insert("Width".into(), format!("U32:{w}"));
                map.insert("Height".into(), format!("U32:{h}"));
            }
            let wd = wide(s);
            el(0xE0, &v.concat(), wd)
        } else {
            el(0xE1, &[el(0xB5, &44_100f32.to_be_bytes(), 1), el(0x9F, &[2], 1)].concat(), 1)
        };
        let k = s.us(te.len() + 1);
        te.insert(k, sub);
        let wd = wide(s);
        tracks.extend(el(0xAE, &te.concat(), wd));
    }
    let tw = wide(s);
    let tracks = el(0x1654AE6B, &tracks, tw);
    // ---- Segment body
    let has_seek = s.us(3) != 0;
    let mut seq: Vec<(u8, Vec<u8>)> = vec![(1, info), (2, tracks)];
    if o.odd && s.us(6) == 5 {
        seq.swap(0, 1);
    }
    // fillers before / between
    let dense = s.us(60) == 59;
    for k in [0usize, 1, 2].into_iter().cycle().take(if dense { s.range(20, 120) } else { 3 }) {
        if s.us(3) == 0 {
            let n = if dense { s.us(300) } else { pad_size(s, o.big) };
            let f = s.filler(n);
            let id = *s.pick(&[0xECu32, 0x1254C367, 0x1043A770]);
            seq.insert(k.min(seq.len()), (0, el(id, &f, 1)));
        }
    }
    // clusters: after the metadata, or before one of the two
    let early = o.odd && s.us(5) == 4;
    let n_cl = s.us(3);
    // a cluster of unknown size: what follows it is found through the seek head
    let mut open_at = if early && has_seek && s.us(3) == 2 { Some(s.range(1, 8)) } else { None };
    let opened = open_at.is_some() && n_cl > 0;
    for _ in 0..n_cl {
        let n = pad_size(s, o.big);
        let f = s.filler(n);
        let mut c = el(0x1F43B675, &el(0xA3, &f, 4), 4);
        let mut kind = 0;
        if let Some(w) = open_at.take() {
            kind = 4;
            c = id_bytes(0x1F43B675);
            c.extend(&0x00FF_FFFF_FFFF_FFFFu64.to_be_bytes()[1..w]);
            let i = c.len();
            c.insert(i - (w - 1), 0xFFu8 >> (w - 1));
            c.extend(el(0xA3, &f, 4));
        }
        if early {
            let k = s.us(seq.len() + 1);
            seq.insert(k, (kind, c));
        } else {
            seq.push((kind, c));
        }
    }
    let seek_first = s.us(4) != 3;
    let last = if opened { seq.iter().position(|x| x.0 == 4).unwrap() } else { seq.len() };
    let seek_at = if seek_first { 0 } else { s.us(last + 1) };
    let (si, st) = (s.us(4) != 3 || opened, s.us(4) != 3 || opened);
    let swap_seek = s.flag();
    // a checksum, padding, or an element of some later version before the entries
    let mut seek_pre = vec![];
    if o.odd && s.us(5) == 4 {
        let n = s.us(200);
        seek_pre = match s.us(3) {
            0 => el(0xBF, &s.filler(4), 1),
            1 => el(0xEC, &vec![0; n], 1),
            _ => el(0x4DBC, &s.filler(n), 1),
        };
    }
    let pos_w = if o.odd && s.us(3) == 2 { s.range(4, 8) } else { 4 };
    let mk_seek = |pos: &[(u32, u64)]| -> Vec<u8> {
        let mut b = vec![];
        b.extend(&seek_pre);
        for (id, p) in pos {
            let mut e = el(0x53AB, &id_bytes(*id), 1);
            e.extend(el(0x53AC, &uint(*p, pos_w), 1));
            b.extend(el(0x4DBB, &e, 1));
        }
        el(0x114D9B74, &b, 1)
    };
    let mut ids = vec![];
    if si {
        ids.push(0x1549A966u32);
    }
    if st {
        ids.push(0x1654AE6B);
    }
    ids.push(0x1C53BB6B); // Cues, somewhere
    if swap_seek {
        ids.reverse();
    }
    if has_seek {
        let dummy: Vec<(u32, u64)> = ids.iter().map(|i| (*i, 1)).collect();
        seq.insert(seek_at, (3, mk_seek(&dummy)));
        let at = |k: u8| -> u64 {
            let i = seq.iter().position(|x| x.0 == k).unwrap();
            seq[..i].iter().map(|x| x.1.len() as u64).sum()
        };
        let total: u64 = seq.iter().map(|x| x.1.len() as u64).sum();
        let (pi, pt) = (at(1), at(2));
        let real: Vec<(u32, u64)> = ids
            .iter()
            .map(|i| match *i {
                0x1549A966 => (*i, pi),
                0x1654AE6B => (*i, pt),
                _ => (*i, total + 77),
            })
            .collect();
        let i = seq.iter().position(|x| x.0 == 3).unwrap();
        seq[i].1 = mk_seek(&real);
    }
    let body: usize = seq.iter().map(|x| x.1.len()).sum();
    // ---- file
    let mut w = W::default();
    let mut h = vec![];
    if s.us(4) != 3 {
        h.extend(el(0x4286, &[1], 1));
        h.extend(el(0x42F7, &[1], 1));
        h.extend(el(0x42F2, &[4], 1));
        h.extend(el(0x42F3, &[8], 1));
    }
    h.extend(el(0x4282, if fmt == Fmt::Webm { b"webm" } else { b"matroska" }, 1));
    h.extend(el(0x4287, &[4], 1));
    h.extend(el(0x4285, &[2], 1));
    let hw = *s.pick(&[1usize, 1, 8]);
    if o.odd && s.us(10) == 9 {
        // a document type extension, padding
        h.extend(el(0x4281, &[el(0x4283, b"ext", 1), el(0x4284, &[1], 1)].concat(), 1));
        h.extend(el(0xEC, &[0; 9], 1));
    }
    w.put(&el(0x1A45DFA3, &h, hw));
    w.mark();
    w.put(&id_bytes(0x18538067));
    let unknown = o.odd && s.us(4) == 3;
    if unknown {
        w.put(&[0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
    } else {
        w.put(&vint(body as u64, 8));
    }
    w.mark();
    let mut meta_end = 0;
    for (k, b) in &seq {
        w.put(b);
        w.mark();
        if *k == 1 || *k == 2 {
            meta_end = w.pos() as u64;
        }
    }
    if w.pos() < 140 {
        w.put(&el(0xEC, &[0; 140], 2));
    }
    if unknown && s.us(3) == 2 {
        // as a live stream: clusters of unknown size up to the end
        w.put(&id_bytes(0x1F43B675));
        w.put(&[0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
        let n = pad_size(s, o.big);
        w.put(&s.filler(n));
    }
    let mut m = Media::new(fmt, w.b);
    m.marks = w.marks;
    m.meta_end = meta_end;
    m.track = Some(finish(map, None));
    m
}
