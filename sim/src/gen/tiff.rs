//! Well-formed TIFF/EXIF blocks with their ground truth.
use crate::obs::{gps_parts, Ent};
use crate::src::Src;
use chrono::{DateTime, FixedOffset, NaiveDate, NaiveDateTime};
use nom_exif::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dir {
    Main,
    Exif,
    Gps,
    Next(usize),
}

#[derive(Clone, Debug)]
pub struct Slot {
    /// index into `ents`
    pub ent: usize,
    pub dir: Dir,
    /// offset of the 12-byte entry
    pub off: usize,
    /// out-of-line value, if any
    pub val: Option<(usize, usize)>,
    pub ptr: bool,
    pub tag: u16,
}

#[derive(Clone, Debug)]
pub struct Tiff {
    pub bytes: Vec<u8>,
    pub big: bool,
    pub ents: Vec<Ent>,
    pub gps: String,
    pub marks: Vec<usize>,
    pub slots: Vec<Slot>,
    /// end of the last byte that belongs to the metadata
    pub meta_end: usize,
    pub has_tz: bool,
    /// (dir, start, end) of every directory table
    pub dirs: Vec<(Dir, usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct TiffOpts {
    pub max_entries: usize,
    pub max_val: usize,
    pub max_gap: usize,
    pub max_total: usize,
    pub exif: bool,
    pub gps: bool,
    pub next: usize,
    /// Exif tags live in the main directory and dates carry no zone (CR3 CMT2).
    pub cmt2: bool,
    pub no_tz: bool,
    /// Tags to keep free (already used by another block of the same file).
    pub salt: u16,
    pub shuffle: bool,
    /// leave at least 12 bytes after every directory's last entry
    pub pad_dirs: bool,
    /// Some entries are stored twice in a directory, with different values.
    pub dups: bool,
}
impl Default for TiffOpts {
    fn default() -> Self {
        TiffOpts {
            max_entries: 12,
            max_val: 200,
            max_gap: 40,
            max_total: 60_000,
            exif: true,
            gps: true,
            next: 1,
            cmt2: false,
            no_tz: false,
            salt: 0,
            shuffle: true,
            pad_dirs: false,
            dups: false,
        }
    }
}

pub fn w16(big: bool, v: u16) -> [u8; 2] {
    if big {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}
pub fn w32(big: bool, v: u32) -> [u8; 4] {
    if big {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}
fn w64(big: bool, v: u64) -> [u8; 8] {
    if big {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}

struct Val {
    fmt: u16,
    count: u32,
    data: Vec<u8>,
    value: EntryValue,
}

fn text(s: &str) -> Val {
    let mut d = s.as_bytes().to_vec();
    d.push(0);
    Val { fmt: 2, count: d.len() as u32, data: d, value: EntryValue::Text(s.to_string()) }
}
fn undef(d: Vec<u8>) -> Val {
    Val { fmt: 7, count: d.len() as u32, value: EntryValue::Undefined(d.clone()), data: d }
}
fn u16v(big: bool, v: u16) -> Val {
    Val { fmt: 3, count: 1, data: w16(big, v).to_vec(), value: EntryValue::U16(v) }
}
fn u32v(big: bool, v: u32) -> Val {
    Val { fmt: 4, count: 1, data: w32(big, v).to_vec(), value: EntryValue::U32(v) }
}
fn urat(big: bool, rs: &[(u32, u32)]) -> Val {
    let mut d = vec![];
    let mut v = vec![];
    for (a, b) in rs {
        d.extend(w32(big, *a));
        d.extend(w32(big, *b));
        v.push(URational::new(*a, *b));
    }
    Val { fmt: 5, count: rs.len() as u32, data: d, value: if v.len() == 1 { EntryValue::URational(v[0]) } else { EntryValue::URationalArray(v) } }
}
fn irat(big: bool, rs: &[(i32, i32)]) -> Val {
    let mut d = vec![];
    let mut v = vec![];
    for (a, b) in rs {
        d.extend(w32(big, *a as u32));
        d.extend(w32(big, *b as u32));
        v.push(IRational::new(*a, *b));
    }
    Val { fmt: 10, count: rs.len() as u32, data: d, value: if v.len() == 1 { EntryValue::IRational(v[0]) } else { EntryValue::IRationalArray(v) } }
}

fn any_val(s: &mut Src, big: bool, max: usize) -> Val {
    let n = |s: &mut Src, unit: usize| -> usize {
        let cap = (max / unit).max(2);
        match s.weighted(&[5, 3, 2]) {
            0 => s.range(2, 6.min(cap)),
            1 => s.range(2, 40.min(cap)),
            _ => s.range(2, cap),
        }
    };
    match s.weighted(&[4, 3, 3, 3, 2, 4, 2, 2, 2, 2, 2, 2, 1, 2, 2]) {
        0 => {
            let m = max.min(60).max(1);
            let t = if s.us(8) == 0 { s.text(0, max.max(1)) } else { s.text(0, m) };
            match s.us(12) {
                // not terminated, padded, or followed by leftovers
                0 if !t.is_empty() => Val { fmt: 2, count: t.len() as u32, data: t.as_bytes().to_vec(), value: EntryValue::Text(t) },
                1 if !t.is_empty() => {
                    let mut v = text(&t);
                    let k = 1 + s.us(20);
                    v.data.extend(if s.flag() { vec![0; k] } else { s.filler(k) });
                    v.count = v.data.len() as u32;
                    v
                }
                // not UTF-8: one character per byte
                2 => {
                    let k = s.range(2, 30);
                    let mut d: Vec<u8> = s.filler(k).into_iter().map(|x| if x < 0x20 { x + 0x20 } else { x }).collect();
                    d[0] = 0xe9;
                    d[1] = 0x41;
                    let value = EntryValue::Text(d.iter().map(|x| *x as char).collect());
                    d.push(0);
                    Val { fmt: 2, count: d.len() as u32, data: d, value }
                }
                _ => text(&t),
            }
        }
        1 => u16v(big, s.u32x() as u16),
        2 => u32v(big, s.u32x()),
        3 => {
            let (a, b) = (s.u32x(), s.u32x());
            urat(big, &[(a, b)])
        }
        4 => {
            let (a, b) = (s.u32x() as i32, s.u32x() as i32);
            irat(big, &[(a, b)])
        }
        5 => {
            let k = match s.weighted(&[3, 3, 2]) {
                0 => s.range(1, 5),
                1 => s.range(1, 64.min(max.max(1))),
                _ => s.range(1, max.max(1)),
            };
            undef(s.filler(k))
        }
        6 => {
            let v = s.u32x() as u8;
            Val { fmt: 1, count: 1, data: vec![v], value: EntryValue::U8(v) }
        }
        7 => {
            let k = n(s, 1);
            let d = s.filler(k);
            Val { fmt: 1, count: k as u32, value: EntryValue::U8Array(d.clone()), data: d }
        }
        8 => {
            let k = n(s, 2);
            let f = s.filler(k * 2);
            let v: Vec<u16> = f.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
            Val { fmt: 3, count: k as u32, data: v.iter().flat_map(|x| w16(big, *x)).collect(), value: EntryValue::U16Array(v) }
        }
        9 => {
            let k = n(s, 4);
            let f = s.filler(k * 4);
            let v: Vec<u32> = f.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
            Val { fmt: 4, count: k as u32, data: v.iter().flat_map(|x| w32(big, *x)).collect(), value: EntryValue::U32Array(v) }
        }
        10 => {
            let k = n(s, 8).min(50);
            let f = s.filler(k * 8);
            let v: Vec<(u32, u32)> = f.chunks(8).map(|c| (u32::from_be_bytes([c[0], c[1], c[2], c[3]]), u32::from_be_bytes([c[4], c[5], c[6], c[7]]))).collect();
            urat(big, &v)
        }
        11 => {
            let k = n(s, 8).min(50);
            let f = s.filler(k * 8);
            let v: Vec<(i32, i32)> = f.chunks(8).map(|c| (i32::from_be_bytes([c[0], c[1], c[2], c[3]]), i32::from_be_bytes([c[4], c[5], c[6], c[7]]))).collect();
            irat(big, &v)
        }
        12 => {
            let v = s.u32x() as i8;
            Val { fmt: 6, count: 1, data: vec![v as u8], value: EntryValue::I8(v) }
        }
        13 => match s.us(2) {
            0 => {
                let v = s.u32x() as i16;
                Val { fmt: 8, count: 1, data: w16(big, v as u16).to_vec(), value: EntryValue::I16(v) }
            }
            _ => {
                let v = s.u32x() as i32;
                Val { fmt: 9, count: 1, data: w32(big, v as u32).to_vec(), value: EntryValue::I32(v) }
            }
        },
        _ => match s.us(2) {
            0 => {
                let v = s.u32x();
                Val { fmt: 11, count: 1, data: w32(big, v).to_vec(), value: EntryValue::F32(f32::from_bits(v)) }
            }
            _ => {
                let v = s.u64x();
                Val { fmt: 12, count: 1, data: w64(big, v).to_vec(), value: EntryValue::F64(f64::from_bits(v)) }
            }
        },
    }
}

pub fn draw_date(s: &mut Src) -> NaiveDateTime {
    let y = s.range(1900, 2100) as i32;
    let m = 1 + s.us(12) as u32;
    let d = 1 + s.us(28) as u32;
    NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(s.us(24) as u32, s.us(60) as u32, s.us(60) as u32).unwrap()
}

fn date_val(d: NaiveDateTime, tz: Option<FixedOffset>) -> Val {
    let t = d.format("%Y:%m:%d %H:%M:%S").to_string();
    let mut v = text(&t);
    v.value = match tz {
        None => EntryValue::NaiveDateTime(d),
        Some(o) => {
            let dt: DateTime<FixedOffset> = d.and_local_timezone(o).unwrap();
            EntryValue::DateTime(dt)
        }
    };
    v
}

const SPECIAL: [u16; 11] = [0x0132, 0x8769, 0x8825, 0x9003, 0x9004, 0x9010, 0x9011, 0x9012, 0xa005, 0x927c, 0x8298];
/// Of entries stored under one directory and tag, the first.
pub fn first_only(ents: &[Ent]) -> Vec<Ent> {
    let mut seen = std::collections::HashSet::new();
    ents.iter().filter(|e| seen.insert((e.ifd, e.code))).cloned().collect()
}
/// Any named tag in [lo, hi) that has no meaning of its own to a parser.
fn named_tag(s: &mut Src, lo: u16, hi: u16) -> u16 {
    let all: Vec<u16> = crate::tags::TAGS.iter().map(|t| t.0).filter(|t| (lo..hi).contains(t) && !SPECIAL.contains(t)).collect();
    *s.pick(&all)
}
fn letter(s: &mut Src, l: &str) -> Val {
    text(&if s.us(6) == 5 { l.to_lowercase() } else { l.to_string() })
}
/// A non-negative quantity, usually unsigned, sometimes stored as signed rationals.
fn quantity(s: &mut Src, big: bool, v: &[(u32, u32)]) -> Val {
    if s.us(6) == 5 && v.iter().all(|x| x.0 < 1 << 31 && x.1 < 1 << 31) {
        irat(big, &v.iter().map(|x| (x.0 as i32, x.1 as i32)).collect::<Vec<_>>())
    } else {
        urat(big, v)
    }
}
/// Degrees, minutes and seconds below `max`, in the forms cameras use.
fn angle(s: &mut Src, max: usize) -> [(u32, u32); 3] {
    match s.us(12) {
        0 => {
            // decimal degrees
            let d = *s.pick(&[10u32, 10_000, 1_000_000, 10_000_000]);
            [(s.draw(max as u64 * d as u64) as u32, d), (0, 1), (0, 1)]
        }
        1 | 2 => {
            // decimal minutes
            let d = *s.pick(&[100u32, 10_000, 10_000_000]);
            [(s.us(max) as u32, 1), (s.draw(60 * d as u64) as u32, d), (0, *s.pick(&[1, 100]))]
        }
        3 => {
            // unreduced
            let (a, b, c) = (*s.pick(&[10u32, 1000, 1 << 20]), *s.pick(&[7u32, 1 << 24]), *s.pick(&[1u32, 10, 1 << 25]));
            [(s.us(max) as u32 * a, a), (s.us(60) as u32 * b, b), (s.us(60) as u32 * c, c)]
        }
        4 => {
            // no value in one of the parts
            let mut v = [(s.us(max) as u32, 1), (s.us(60) as u32, 1), (s.us(6000) as u32, 100)];
            v[s.us(3)] = (s.us(2) as u32, 0);
            v
        }
        5 => [(max as u32, 1), (0, 1), (0, 1)],
        6 => [(s.us(max) as u32, 1), (s.us(60) as u32, 1), (s.draw(60_000_000) as u32, 1_000_000)],
        _ => [(s.us(max) as u32, 1), (s.us(60) as u32, 1), (s.us(6000) as u32, 100)],
    }
}

enum Item {
    Plain(u16, Val),
    Sub(u16, Dir),
}

struct DirGen {
    dir: Dir,
    items: Vec<Item>,
    /// offset field of the following directory
    next: Option<Dir>,
}

pub fn build(s: &mut Src, o: &TiffOpts) -> Tiff {
    build_at(s, o, None)
}

pub fn build_at(s: &mut Src, o: &TiffOpts, big_force: Option<bool>) -> Tiff {
    let big = big_force.unwrap_or_else(|| s.flag());
    let has_exif = o.exif && s.us(8) != 7;
    let has_gps = o.gps && s.us(3) != 2;
    let n_next = if o.next > 0 { s.us(o.next + 1) } else { 0 };
    // now and then a long chain, or directories of many entries
    let n_next = if n_next > 0 && s.us(30) == 29 { s.range(2, 7) } else { n_next };
    let many = o.max_entries >= 12 && s.us(80) == 79;
    let wide = TiffOpts { max_entries: if many { *s.pick(&[60usize, 130, 260]) } else { o.max_entries }, ..o.clone() };
    let o = &wide;
    // the zone tags 0x9010..0x9012, one for each of the dates; any may be missing
    let mut zones: [Option<(String, Option<FixedOffset>)>; 3] = [None, None, None];
    if has_exif && !o.no_tz && !o.cmt2 {
        let draw = |s: &mut Src| FixedOffset::east_opt((s.range(0, 2 * 14 * 4) as i32 - 14 * 4) * 15 * 60).unwrap();
        if s.us(2) == 0 {
            let base = draw(s);
            let which = 1 + s.us(7);
            for (k, z) in zones.iter_mut().enumerate() {
                if which >> k & 1 == 1 {
                    let t = if s.us(4) == 3 { draw(s) } else { base };
                    let x = t.local_minus_utc();
                    let mut txt = format!("{}{:02}:{:02}", if x < 0 { '-' } else { '+' }, x.abs() / 3600, x.abs() / 60 % 60);
                    if txt.ends_with('0') && s.us(12) == 11 {
                        // as some cameras cut it off
                        txt.pop();
                    }
                    *z = Some((txt, Some(t)));
                }
            }
        } else if s.us(6) == 5 {
            // "unknown" zones, as the standard has cameras write them
            zones[s.us(3)] = Some((s.pick(&["   :  ", "", "      "]).to_string(), None));
        }
    }
    // the zone of the date a zone tag is for: that, or else the zone of another one
    let tz_of = |k: usize| -> Option<FixedOffset> { [k, 1, 2, 0].iter().find_map(|k| zones[*k].as_ref()).and_then(|z| z.1) };
    let mut budget = o.max_total;
    let mut free = |s: &mut Src, base: u16, span: u16, used: &mut Vec<u16>| -> u16 {
        loop {
            let t = base + o.salt + s.us(span as usize) as u16;
            if !used.contains(&t) {
                used.push(t);
                return t;
            }
            // walk on deterministically
            for k in 0..span {
                let t = base + o.salt + k;
                if !used.contains(&t) {
                    used.push(t);
                    return t;
                }
            }
        }
    };
    let val = |s: &mut Src, budget: &mut usize| -> Val {
        let cap = o.max_val.min(*budget / 4).max(4);
        let v = any_val(s, big, cap);
        *budget = budget.saturating_sub(v.data.len());
        v
    };

    let mut dirs: Vec<DirGen> = vec![];
    // main
    let mut used: Vec<u16> = vec![];
    let mut items: Vec<Item> = vec![];
    let main_extra = s.us(o.max_entries + 1);
    for _ in 0..main_extra {
        if o.cmt2 {
            match s.us(4) {
                0 if !used.contains(&0x9003) => {
                    used.push(0x9003);
                    items.push(Item::Plain(0x9003, date_val(draw_date(s), None)));
                }
                1 => {
                    let t = *s.pick(&[0x829au16, 0x829d, 0x9204, 0x920a]);
                    if !used.contains(&t) {
                        used.push(t);
                        let (a, b) = (s.u32x(), s.u32x());
                        items.push(Item::Plain(t, urat(big, &[(a, b)])));
                    }
                }
                2 => {
                    let t = named_tag(s, 0x8820, 0xb000);
                    if !used.contains(&t) {
                        used.push(t);
                        let v = val(s, &mut budget);
                        items.push(Item::Plain(t, v));
                    }
                }
                _ => {
                    let t = free(s, 0xd000, 0x200, &mut used);
                    let v = val(s, &mut budget);
                    items.push(Item::Plain(t, v));
                }
            }
            continue;
        }
        match s.us(6) {
            5 => {
                let t = named_tag(s, 0x0100, 0x8298);
                if !used.contains(&t) {
                    used.push(t);
                    let v = val(s, &mut budget);
                    items.push(Item::Plain(t, v));
                }
            }
            0 => {
                let t = *s.pick(&[0x010eu16, 0x010f, 0x0110, 0x0131, 0x013b, 0x8298]);
                if !used.contains(&t) {
                    used.push(t);
                    let x = s.text(0, 40);
                    items.push(Item::Plain(t, text(&x)));
                }
            }
            1 => {
                let t = *s.pick(&[0x0112u16, 0x0100, 0x0101, 0x0128, 0x0213]);
                if !used.contains(&t) {
                    used.push(t);
                    let v = if s.flag() { u16v(big, s.u32x() as u16) } else { u32v(big, s.u32x()) };
                    items.push(Item::Plain(t, v));
                }
            }
            2 if !used.contains(&0x0132) => {
                used.push(0x0132);
                items.push(Item::Plain(0x0132, date_val(draw_date(s), tz_of(0))));
            }
            _ => {
                let t = free(s, 0xc000, 0x200, &mut used);
                let v = val(s, &mut budget);
                items.push(Item::Plain(t, v));
            }
        }
    }
    if has_exif && !o.cmt2 {
        items.push(Item::Sub(0x8769, Dir::Exif));
    }
    if has_gps && !o.cmt2 {
        items.push(Item::Sub(0x8825, Dir::Gps));
    }
    if items.is_empty() {
        let v = u16v(big, s.u32x() as u16);
        items.push(Item::Plain(if o.cmt2 { 0x9000 } else { 0x0112 }, v));
    }
    dirs.push(DirGen { dir: Dir::Main, items, next: if n_next > 0 { Some(Dir::Next(1)) } else { None } });
    // Exif
    if has_exif && !o.cmt2 {
        let mut used: Vec<u16> = vec![];
        let mut items = vec![];
        for (k, z) in zones.iter().enumerate() {
            if let Some((txt, _)) = z {
                items.push(Item::Plain(0x9010 + k as u16, text(txt)));
                used.push(0x9010 + k as u16);
            }
        }
        let n = s.us(o.max_entries + 1);
        for _ in 0..n {
            match s.us(7) {
                5 | 6 => {
                    let t = named_tag(s, 0x8820, 0xb000);
                    if !used.contains(&t) {
                        used.push(t);
                        let v = val(s, &mut budget);
                        items.push(Item::Plain(t, v));
                    }
                }
                0 => {
                    let t = *s.pick(&[0x9003u16, 0x9004]);
                    if !used.contains(&t) {
                        used.push(t);
                        items.push(Item::Plain(t, date_val(draw_date(s), tz_of(1 + (t == 0x9004) as usize))));
                    }
                }
                1 => {
                    let t = *s.pick(&[0x829au16, 0x829d, 0x9204, 0x920a, 0x8827, 0x9201]);
                    if !used.contains(&t) {
                        used.push(t);
                        let (a, b) = (s.u32x(), s.u32x());
                        items.push(Item::Plain(
                            t,
                            match t {
                                0x8827 => u16v(big, a as u16),
                                0x9201 | 0x9204 => irat(big, &[(a as i32, b as i32)]),
                                _ => urat(big, &[(a, b)]),
                            },
                        ));
                    }
                }
                2 if !used.contains(&0x927c) && s.us(3) == 0 => {
                    used.push(0x927c);
                    let k = s.range(5, o.max_val.max(6));
                    let k = k.min(budget / 2).max(5);
                    budget = budget.saturating_sub(k);
                    items.push(Item::Plain(0x927c, undef(s.filler(k))));
                }
                _ => {
                    let t = free(s, 0xd000, 0x200, &mut used);
                    let v = val(s, &mut budget);
                    items.push(Item::Plain(t, v));
                }
            }
        }
        if items.is_empty() {
            items.push(Item::Plain(0x9000, undef(b"0231".to_vec())));
        }
        dirs.push(DirGen { dir: Dir::Exif, items, next: None });
    }
    let mut gps_truth = "none".to_string();
    if has_gps && !o.cmt2 {
        let mut items = vec![];
        let mut g = GPSInfo::default();
        if s.us(3) != 2 {
            items.push(Item::Plain(0, Val { fmt: 1, count: 4, data: vec![2, 3, 0, 0], value: EntryValue::U8Array(vec![2, 3, 0, 0]) }));
        }
        let north = s.flag();
        let east = s.flag();
        if s.us(6) != 5 {
            items.push(Item::Plain(1, letter(s, if north { "N" } else { "S" })));
            g.latitude_ref = if north { LatRef::North } else { LatRef::South };
            let v = angle(s, 90);
            items.push(Item::Plain(2, quantity(s, big, &v)));
            let r = v.map(|x| URational::new(x.0, x.1));
            g.latitude = LatLng::new(r[0], r[1], r[2]);
        }
        if s.us(6) != 5 {
            items.push(Item::Plain(3, letter(s, if east { "E" } else { "W" })));
            g.longitude_ref = if east { LonRef::East } else { LonRef::West };
            let v = angle(s, 180);
            items.push(Item::Plain(4, quantity(s, big, &v)));
            let r = v.map(|x| URational::new(x.0, x.1));
            g.longitude = LatLng::new(r[0], r[1], r[2]);
        }
        if s.us(2) == 0 {
            let below = s.flag();
            items.push(Item::Plain(5, Val { fmt: 1, count: 1, data: vec![below as u8], value: EntryValue::U8(below as u8) }));
            let (a, b) = (if s.flag() { s.us(9_000_000) as u32 } else { s.u32x() }, 1 + s.us(1000) as u32);
            items.push(Item::Plain(6, quantity(s, big, &[(a, b)])));
            let r = URational::new(a, b);
            g.altitude = if below { Altitude::BelowSeaLevel(r) } else { Altitude::AboveSeaLevel(r) };
        }
        if s.us(3) == 0 {
            let (a, b, c) = ((s.us(24) as u32, 1), (s.us(60) as u32, 1), (s.us(60) as u32, 1));
            items.push(Item::Plain(7, urat(big, &[a, b, c])));
        }
        if s.us(3) == 0 {
            let u = s.us(3);
            items.push(Item::Plain(0xc, letter(s, ["K", "M", "N"][u])));
            let (a, b) = (s.u32x(), 1 + s.us(100) as u32);
            items.push(Item::Plain(0xd, quantity(s, big, &[(a, b)])));
            g.speed = Some(Speed { unit: [SpeedUnit::KmPerHour, SpeedUnit::MilesPerHour, SpeedUnit::Knots][u], value: URational::new(a, b) });
        }
        for _ in 0..s.us(4) {
            // the other GPS tags, with any value
            let t = named_tag(s, 0x0008, 0x001d);
            if t != 0xc && t != 0xd && !items.iter().any(|i| matches!(i, Item::Plain(u, _) if *u == t)) {
                let v = val(s, &mut budget);
                items.push(Item::Plain(t, v));
            }
        }
        if s.us(3) == 0 || items.is_empty() {
            items.push(Item::Plain(0x1d, text("2024:05:06")));
        }
        gps_truth = gps_parts(&g);
        dirs.push(DirGen { dir: Dir::Gps, items, next: None });
    }
    for k in 1..=n_next {
        let mut used: Vec<u16> = vec![];
        let mut items = vec![];
        let n = s.us(if many { o.max_entries / 2 } else { o.max_entries.min(6) } + 1);
        for _ in 0..n {
            if s.us(8) == 7 {
                if !used.contains(&0x0132) {
                    used.push(0x0132);
                    items.push(Item::Plain(0x0132, date_val(draw_date(s), tz_of(0))));
                }
            } else if s.us(2) == 0 {
                let t = *s.pick(&[0x0103u16, 0x0201, 0x0202, 0x0112]);
                if !used.contains(&t) {
                    used.push(t);
                    items.push(Item::Plain(t, u32v(big, s.u32x())));
                }
            } else {
                let t = free(s, 0xf000, 0x100, &mut used);
                let v = val(s, &mut budget);
                items.push(Item::Plain(t, v));
            }
        }
        if items.is_empty() {
            items.push(Item::Plain(0x0103, u16v(big, 6)));
        }
        dirs.push(DirGen { dir: Dir::Next(k), items, next: if k < n_next { Some(Dir::Next(k + 1)) } else { None } });
    }
    if o.dups && s.us(6) == 5 {
        for d in &mut dirs {
            let again: Vec<u16> = d
                .items
                .iter()
                .filter_map(|i| match i {
                    Item::Plain(t, _) if !SPECIAL.contains(t) && d.dir != Dir::Gps => Some(*t),
                    _ => None,
                })
                .collect();
            if !again.is_empty() && s.us(2) == 0 {
                let v = val(s, &mut budget);
                d.items.push(Item::Plain(*s.pick(&again), v));
            }
        }
    }
    // entry order inside directories
    for d in &mut dirs {
        if o.shuffle && s.us(6) == 5 {
            for i in (1..d.items.len()).rev() {
                let j = s.us(i + 1);
                d.items.swap(i, j);
            }
        } else {
            d.items.sort_by_key(|i| match i {
                Item::Plain(t, _) | Item::Sub(t, _) => *t,
            });
        }
    }
    // segments: directory tables and out-of-line values
    #[derive(Clone, Copy, PartialEq)]
    enum Seg {
        Dir(usize),
        Val(usize, usize),
    }
    let mut segs: Vec<Seg> = vec![];
    for (di, d) in dirs.iter().enumerate() {
        segs.push(Seg::Dir(di));
        for (ii, it) in d.items.iter().enumerate() {
            if let Item::Plain(_, v) = it {
                if v.data.len() > 4 {
                    segs.push(Seg::Val(di, ii));
                }
            }
        }
    }
    match s.weighted(&[4, 3, 2]) {
        0 => {}
        1 => {
            for i in (1..segs.len()).rev() {
                let j = s.us(i + 1);
                segs.swap(i, j);
            }
        }
        _ => {
            // all values first, directories at the end
            segs.sort_by_key(|x| matches!(x, Seg::Dir(_)));
        }
    }
    let mut pos = 8usize;
    let mut dir_off = vec![0usize; dirs.len()];
    let mut val_off = std::collections::HashMap::new();
    let mut total_gap = o.max_total;
    let mut meta_end = 8;
    let mut marks = vec![8];
    for sg in &segs {
        if o.max_gap > 0 && s.us(3) == 0 {
            let g = s.us(o.max_gap + 1).min(total_gap / 2);
            total_gap -= g;
            pos += g;
        }
        if pos % 2 == 1 {
            pos += 1;
        }
        marks.push(pos);
        match *sg {
            Seg::Dir(d) => {
                dir_off[d] = pos;
                let len = 2 + 12 * dirs[d].items.len() + 4;
                pos += len;
                meta_end = meta_end.max(pos);
                if o.pad_dirs {
                    pos += 8;
                }
            }
            Seg::Val(d, i) => {
                let Item::Plain(_, v) = &dirs[d].items[i] else { unreachable!() };
                val_off.insert((d, i), pos);
                pos += v.data.len();
                meta_end = meta_end.max(pos);
            }
        }
        marks.push(pos);
    }
    let tail = if s.us(3) == 0 { s.us(o.max_gap + 1) } else { 0 };
    let total = pos + tail;
    let mut bytes = vec![0u8; total];
    // gap filler: non-zero junk so that reading gaps as data shows
    let junk = s.us(2) == 0;
    if junk {
        bytes = crate::src::filler(total as u64 ^ 0x77, total);
    }
    bytes[..2].copy_from_slice(if big { b"MM" } else { b"II" });
    bytes[2..4].copy_from_slice(&w16(big, 42));
    bytes[4..8].copy_from_slice(&w32(big, dir_off[0] as u32));
    let idx = |d: Dir| dirs.iter().position(|x| x.dir == d).unwrap();
    let mut dir_spans = vec![];
    for (di, d) in dirs.iter().enumerate() {
        let mut p = dir_off[di];
        let p0 = p;
        bytes[p..p + 2].copy_from_slice(&w16(big, d.items.len() as u16));
        p += 2;
        for (ii, it) in d.items.iter().enumerate() {
            let (tag, fmt, count, field): (u16, u16, u32, [u8; 4]) = match it {
                Item::Plain(t, v) => {
                    let mut f = [0u8; 4];
                    if v.data.len() <= 4 {
                        f[..v.data.len()].copy_from_slice(&v.data);
                    } else {
                        let at = val_off[&(di, ii)];
                        f = w32(big, at as u32);
                        bytes[at..at + v.data.len()].copy_from_slice(&v.data);
                    }
                    (*t, v.fmt, v.count, f)
                }
                Item::Sub(t, sd) => (*t, 4, 1, w32(big, dir_off[idx(*sd)] as u32)),
            };
            bytes[p..p + 2].copy_from_slice(&w16(big, tag));
            bytes[p + 2..p + 4].copy_from_slice(&w16(big, fmt));
            bytes[p + 4..p + 8].copy_from_slice(&w32(big, count));
            bytes[p + 8..p + 12].copy_from_slice(&field);
            p += 12;
        }
        let nx = d.next.map(|n| dir_off[idx(n)] as u32).unwrap_or(0);
        bytes[p..p + 4].copy_from_slice(&w32(big, nx));
        dir_spans.push((d.dir, p0, p + 4));
    }
    // ground truth in iteration order
    let mut ents = vec![];
    let mut slots = vec![];
    fn walk(
        di: usize,
        dirs: &[DirGen],
        dir_off: &[usize],
        val_off: &std::collections::HashMap<(usize, usize), usize>,
        ifd: usize,
        ents: &mut Vec<Ent>,
        slots: &mut Vec<Slot>,
    ) {
        for (ii, it) in dirs[di].items.iter().enumerate() {
            let off = dir_off[di] + 2 + 12 * ii;
            match it {
                Item::Plain(t, v) => {
                    slots.push(Slot { ent: ents.len(), dir: dirs[di].dir, off, val: val_off.get(&(di, ii)).map(|p| (*p, v.data.len())), ptr: false, tag: *t });
                    ents.push(Ent::ok(ifd, *t, &v.value));
                }
                Item::Sub(t, sd) => {
                    let si = dirs.iter().position(|x| x.dir == *sd).unwrap();
                    slots.push(Slot { ent: ents.len(), dir: dirs[di].dir, off, val: None, ptr: true, tag: *t });
                    ents.push(Ent::ok(ifd, *t, &EntryValue::U32(dir_off[si] as u32)));
                    walk(si, dirs, dir_off, val_off, ifd, ents, slots);
                }
            }
        }
        if let Some(n) = dirs[di].next {
            let ni = dirs.iter().position(|x| x.dir == n).unwrap();
            walk(ni, dirs, dir_off, val_off, ifd + 1, ents, slots);
        }
    }
    walk(0, &dirs, &dir_off, &val_off, 0, &mut ents, &mut slots);
    marks.push(meta_end);
    Tiff { bytes, big, ents, gps: gps_truth, marks, slots, meta_end, has_tz: zones.iter().flatten().any(|z| z.1.is_some()), dirs: dir_spans }
}
