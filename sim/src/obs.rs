//! Canonical observations of parse results.
use crate::src::hash_bytes;
use nom_exif::*;
use std::result::Result;
use std::fmt::Write as _;
use std::io::ErrorKind;

pub fn canon(v: &EntryValue) -> String {
    fn arr(n: usize, b: &[u8]) -> String {
        if b.len() <= 48 {
            let mut s = String::new();
            for x in b {
                let _ = write!(s, "{x:02x}");
            }
            format!("[{n}]{s}")
        } else {
            format!("[{n}]#{:016x}", hash_bytes(b.len() as u64, b))
        }
    }
    match v {
        EntryValue::Text(s) => {
            if s.len() > 96 {
                format!("Text[{}]#{:016x}", s.len(), hash_bytes(1, s.as_bytes()))
            } else {
                format!("Text:{s:?}")
            }
        }
        EntryValue::URational(r) => format!("UR:{}/{}", r.numerator(), r.denominator()),
        EntryValue::IRational(r) => format!("IR:{}/{}", r.numerator(), r.denominator()),
        EntryValue::U8(x) => format!("U8:{x}"),
        EntryValue::U16(x) => format!("U16:{x}"),
        EntryValue::U32(x) => format!("U32:{x}"),
        EntryValue::U64(x) => format!("U64:{x}"),
        EntryValue::I8(x) => format!("I8:{x}"),
        EntryValue::I16(x) => format!("I16:{x}"),
        EntryValue::I32(x) => format!("I32:{x}"),
        EntryValue::I64(x) => format!("I64:{x}"),
        EntryValue::F32(x) => format!("F32:{:08x}", x.to_bits()),
        EntryValue::F64(x) => format!("F64:{:016x}", x.to_bits()),
        EntryValue::DateTime(t) => format!("DT:{}", t.to_rfc3339()),
        EntryValue::NaiveDateTime(t) => format!("ND:{}", t.format("%Y-%m-%dT%H:%M:%S%.f")),
        EntryValue::Undefined(b) => format!("Undef{}", arr(b.len(), b)),
        EntryValue::U8Array(b) => format!("U8A{}", arr(b.len(), b)),
        EntryValue::U16Array(a) => {
            let b: Vec<u8> = a.iter().flat_map(|x| x.to_be_bytes()).collect();
            format!("U16A{}", arr(a.len(), &b))
        }
        EntryValue::U32Array(a) => {
            let b: Vec<u8> = a.iter().flat_map(|x| x.to_be_bytes()).collect();
            format!("U32A{}", arr(a.len(), &b))
        }
        EntryValue::URationalArray(a) => {
            let b: Vec<u8> = a.iter().flat_map(|x| [x.numerator().to_be_bytes(), x.denominator().to_be_bytes()].concat()).collect();
            format!("URA{}", arr(a.len(), &b))
        }
        EntryValue::IRationalArray(a) => {
            let b: Vec<u8> = a.iter().flat_map(|x| [x.numerator().to_be_bytes(), x.denominator().to_be_bytes()].concat()).collect();
            format!("IRA{}", arr(a.len(), &b))
        }
        other => format!("?{other:?}"),
    }
}

/// The typed accessors, the text form and the serialised form of a value must all say what its
/// variant says.
pub fn value_faults(v: &EntryValue) -> Option<String> {
    use EntryValue as E;
    let int: Option<i64> = match v {
        E::U8(x) => Some(*x as i64),
        E::U16(x) => Some(*x as i64),
        E::U32(x) => Some(*x as i64),
        E::U64(x) => i64::try_from(*x).ok(),
        E::I8(x) => Some(*x as i64),
        E::I16(x) => Some(*x as i64),
        E::I32(x) => Some(*x as i64),
        E::I64(x) => Some(*x),
        _ => None,
    };
    macro_rules! acc {
        ($f:ident, $pat:pat => $val:expr) => {
            let want = match v {
                $pat => Some($val),
                _ => None,
            };
            if v.$f() != want {
                return Some(format!("{} = {:?} for {}", stringify!($f), v.$f(), canon(v)));
            }
        };
    }
    acc!(as_str, E::Text(s) => s.as_str());
    acc!(as_u8, E::U8(x) => *x);
    acc!(as_i8, E::I8(x) => *x);
    acc!(as_u16, E::U16(x) => *x);
    acc!(as_i16, E::I16(x) => *x);
    acc!(as_u32, E::U32(x) => *x);
    acc!(as_i32, E::I32(x) => *x);
    acc!(as_u64, E::U64(x) => *x);
    acc!(as_i64, E::I64(x) => *x);
    if v.as_f64().map(f64::to_bits) != (if let E::F64(x) = v { Some(x.to_bits()) } else { None }) {
        return Some(format!("as_f64 = {:?} for {}", v.as_f64(), canon(v)));
    }
    acc!(as_urational, E::URational(x) => *x);
    acc!(as_irational, E::IRational(x) => *x);
    acc!(as_urational_slice, E::URationalArray(x) => &x[..]);
    acc!(as_irational_slice, E::IRationalArray(x) => &x[..]);
    acc!(as_u8_slice, E::U8Array(x) => &x[..]);
    acc!(as_u16_slice, E::U16Array(x) => &x[..]);
    acc!(as_u32_slice, E::U32Array(x) => &x[..]);
    acc!(as_undefined, E::Undefined(x) => &x[..]);
    if v.try_as_integer() != int {
        return Some(format!("try_as_integer = {:?} for {}", v.try_as_integer(), canon(v)));
    }
    let float: Option<f64> = match v {
        E::F32(x) => Some(*x as f64),
        E::F64(x) => Some(*x),
        E::URational(r) => (r.denominator() != 0).then(|| r.numerator() as f64 / r.denominator() as f64),
        E::IRational(r) => (r.denominator() != 0).then(|| r.numerator() as f64 / r.denominator() as f64),
        _ => int.map(|x| x as f64),
    };
    let got = v.try_as_float();
    let same = match (float, got) {
        (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs(),
        (None, None) => true,
        _ => false,
    };
    if !same {
        return Some(format!("try_as_float = {got:?} for {}", canon(v)));
    }
    let dt = match v {
        E::DateTime(t) => Some((t.naive_local(), Some(*t))),
        E::NaiveDateTime(t) => Some((*t, None)),
        _ => None,
    };
    match (dt, v.as_datetime()) {
        (None, None) => {}
        (Some((n, a)), Some(g)) if g.into_naive() == n && g.aware() == a && g.aware().map(|x| *x.offset()) == a.map(|x| *x.offset()) => {
            let fb = chrono::FixedOffset::east_opt(5400).unwrap();
            let o = g.or_offset(fb);
            let want = a.map(|x| *x.offset()).unwrap_or(fb);
            if o.naive_local() != n || *o.offset() != want {
                return Some(format!("or_offset = {o} for {}", canon(v)));
            }
        }
        (_, g) => return Some(format!("as_datetime = {g:?} for {}", canon(v))),
    }
    None
}

fn hexes<T: std::fmt::LowerHex>(name: &str, a: &[T]) -> String {
    let v: Vec<String> = a.iter().map(|x| format!("0x{x:02x}")).collect();
    format!("{name}[{}]", v.join(", "))
}
/// Every `a/b` of a rational's text, in order.
fn ratios(t: &str) -> Vec<(i64, i64)> {
    t.split([' ', '[', ']', ','])
        .filter_map(|w| {
            let (a, b) = w.split_once('/')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}
/// Every `(q)` of a rational's text, in order.
fn quotients(t: &str) -> Vec<f64> {
    t.split('(').skip(1).filter_map(|w| w.split_once(')')?.0.parse().ok()).collect()
}

pub fn value_texts(v: &EntryValue) -> Option<String> {
    use EntryValue as E;
    use serde_json::{json, Value};
    let rat = |n: i64, d: i64| json!({"numerator": n, "denominator": d});
    let (text, js): (Option<String>, Option<Value>) = match v {
        E::Text(s) => (Some(s.clone()), Some(json!(s))),
        E::U8(x) => (Some(x.to_string()), Some(json!(x))),
        E::U16(x) => (Some(x.to_string()), Some(json!(x))),
        E::U32(x) => (Some(x.to_string()), Some(json!(x))),
        E::U64(x) => (Some(x.to_string()), Some(json!(x))),
        E::I8(x) => (Some(x.to_string()), Some(json!(x))),
        E::I16(x) => (Some(x.to_string()), Some(json!(x))),
        E::I32(x) => (Some(x.to_string()), Some(json!(x))),
        E::I64(x) => (Some(x.to_string()), Some(json!(x))),
        E::DateTime(t) => (Some(t.to_rfc3339()), Some(json!(t.to_rfc3339()))),
        E::NaiveDateTime(t) => {
            let s = t.format("%Y-%m-%d %H:%M:%S").to_string();
            (Some(s.clone()), Some(json!(s)))
        }
        E::Undefined(b) => {
            let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let t = if !b.is_empty() && b.iter().all(|x| (0x20..0x7f).contains(x)) {
                format!("\"{}\"", String::from_utf8_lossy(b))
            } else {
                format!("0x{hex}")
            };
            (Some(t), Some(json!(hex)))
        }
        E::F32(x) => (Some(x.to_string()), None),
        E::F64(x) => (Some(x.to_string()), None),
        E::URational(r) => (None, Some(rat(r.numerator() as i64, r.denominator() as i64))),
        E::IRational(r) => (None, Some(rat(r.numerator() as i64, r.denominator() as i64))),
        E::URationalArray(a) => (None, Some(Value::Array(a.iter().map(|r| rat(r.numerator() as i64, r.denominator() as i64)).collect()))),
        E::IRationalArray(a) => (None, Some(Value::Array(a.iter().map(|r| rat(r.numerator() as i64, r.denominator() as i64)).collect()))),
        E::U8Array(a) => (Some(hexes("U8Array", a)), Some(json!(a))),
        E::U16Array(a) => (Some(hexes("U16Array", a)), Some(json!(a))),
        E::U32Array(a) => (Some(hexes("U32Array", a)), Some(json!(a))),
        _ => (None, None),
    };
    let nums: Option<Vec<(i64, i64)>> = match v {
        E::URational(r) => Some(vec![(r.numerator() as i64, r.denominator() as i64)]),
        E::IRational(r) => Some(vec![(r.numerator() as i64, r.denominator() as i64)]),
        E::URationalArray(a) => Some(a.iter().map(|r| (r.numerator() as i64, r.denominator() as i64)).collect()),
        E::IRationalArray(a) => Some(a.iter().map(|r| (r.numerator() as i64, r.denominator() as i64)).collect()),
        _ => None,
    };
    if let Some(n) = nums {
        let t = v.to_string();
        let mut d = quotients(&t).into_iter();
        // the quotient in brackets, where there is one
        let good = |n: &(i64, i64), q: f64| n.1 == 0 || (q - n.0 as f64 / n.1 as f64).abs() <= 5.1e-5 + 1e-12 * q.abs();
        if ratios(&t) != n || (d.len() > 0 && (d.len() != n.len() || !n.iter().all(|n| good(n, d.next().unwrap())))) {
            return Some(format!("shown as {t:?} for {}", canon(v)));
        }
    }
    if let Some(t) = text {
        let got = v.to_string();
        if got != t {
            return Some(format!("shown as {got:?} for {}", canon(v)));
        }
    }
    if let Some(w) = js {
        match serde_json::to_value(v) {
            Ok(g) if g == w => {}
            g => return Some(format!("serialised as {g:?} for {}", canon(v))),
        }
    }
    None
}

#[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord)]
pub struct Ent {
    pub ifd: usize,
    pub code: u16,
    pub val: Result<String, String>,
}
impl Ent {
    pub fn ok(ifd: usize, code: u16, v: &EntryValue) -> Ent {
        Ent { ifd, code, val: Ok(canon(v)) }
    }
    pub fn of(e: &ExifIterEntry) -> Ent {
        Ent {
            ifd: e.ifd().as_usize(),
            code: e.tag().code(),
            val: match (crate::tags::wrong(e.tag()), e.result()) {
                (Some(w), _) => Ok(format!("({w})")),
                (None, Ok(v)) => Ok(match value_faults(v) {
                    None => canon(v),
                    Some(w) => format!("({w})"),
                }),
                (None, Err(x)) => Err(format!("{x:?}")),
            },
        }
    }
    pub fn show(&self) -> String {
        match &self.val {
            Ok(v) => format!("ifd{}.{:04x}={v}", self.ifd, self.code),
            Err(e) => format!("ifd{}.{:04x}!{e}", self.ifd, self.code),
        }
    }
}

/// Upper bound on entries drained from one iterator: an input of n bytes cannot store
/// more than n/12 entries per visited directory.
pub const MAX_ENTRIES: usize = 4_000_000;

pub fn drain(it: impl Iterator<Item = ExifIterEntry>, cap: usize) -> (Vec<Ent>, bool) {
    let mut v = Vec::new();
    for e in it {
        v.push(Ent::of(&e));
        if v.len() >= cap {
            return (v, true);
        }
    }
    (v, false)
}

/// The decoded forms of a location must say the same as its parts.
pub fn gps_faults(g: &GPSInfo) -> Option<String> {
    fn q(r: &URational) -> Option<f64> {
        (r.denominator() != 0).then(|| r.numerator() as f64 / r.denominator() as f64)
    }
    fn deg(l: &LatLng) -> Option<f64> {
        Some(q(&l.degrees)? + q(&l.minutes)? / 60.0 + q(&l.seconds)? / 3600.0)
    }
    fn near(a: Option<f64>, b: Option<f64>, eps: f64) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => (a - b).abs() <= eps * (1.0 + a.abs()),
            _ => false,
        }
    }
    let south = matches!(g.latitude_ref, LatRef::South);
    let west = matches!(g.longitude_ref, LonRef::West);
    let lat = deg(&g.latitude).map(|x| if south { -x } else { x });
    let lon = deg(&g.longitude).map(|x| if west { -x } else { x });
    let alt = match &g.altitude {
        Altitude::AboveSeaLevel(r) => q(r),
        Altitude::BelowSeaLevel(r) => q(r).map(|x| -x),
        _ => None,
    };
    if !near(lat, g.latitude_decimal(), 1e-9) {
        return Some(format!("latitude_decimal {:?}, parts say {lat:?}", g.latitude_decimal()));
    }
    if !near(lon, g.longitude_decimal(), 1e-9) {
        return Some(format!("longitude_decimal {:?}, parts say {lon:?}", g.longitude_decimal()));
    }
    if !near(alt, g.altitude_meters(), 1e-9) {
        return Some(format!("altitude_meters {:?}, parts say {alt:?}", g.altitude_meters()));
    }
    let (la, lo) = (g.latitude_ref.as_char(), g.longitude_ref.as_char());
    if (la, lo) != (if south { 'S' } else { 'N' }, if west { 'W' } else { 'E' })
        || LatRef::from_char(la) != Some(g.latitude_ref)
        || LonRef::from_char(lo) != Some(g.longitude_ref)
    {
        return Some(format!("hemispheres {la}{lo} for {:?} {:?}", g.latitude_ref, g.longitude_ref));
    }
    let mag = match &g.altitude {
        Altitude::AboveSeaLevel(r) | Altitude::BelowSeaLevel(r) => Some(*r),
        _ => None,
    };
    if g.altitude.magnitude() != mag {
        return Some(format!("altitude magnitude {:?} of {:?}", g.altitude.magnitude(), g.altitude));
    }
    if let Some(sp) = &g.speed {
        if SpeedUnit::from_char(sp.unit.as_char()) != Some(sp.unit) {
            return Some(format!("speed unit {:?} shown as {}", sp.unit, sp.unit.as_char()));
        }
    }
    for d in [lat, lon].into_iter().flatten() {
        match (d.abs() <= 180.0, LatLng::try_from_decimal_degrees(d)) {
            (true, Ok(l)) if near(deg(&l), Some(d.abs()), 2e-6) => {}
            (false, Err(_)) => {}
            (_, r) => return Some(format!("try_from_decimal_degrees({d}) = {r:?}")),
        }
    }
    // ISO 6709: only for places on earth
    if let (Some(la), Some(lo)) = (lat, lon) {
        if la.abs() <= 90.0 && lo.abs() <= 180.0 && alt.map_or(true, |a| a.abs() < 1e6) {
            let iso = g.to_iso6709();
            match iso_parts(&iso) {
                Some((a, b, c)) => {
                    let c = c.unwrap_or(0.0);
                    if (a - la).abs() > 1.1e-5 || (b - lo).abs() > 1.1e-5 || (c - alt.unwrap_or(0.0)).abs() > 1.1e-3 {
                        return Some(format!("to_iso6709 {iso}, parts say {la} {lo} {alt:?}"));
                    }
                    let neg = (iso.starts_with('-'), iso[1..].find(['+', '-']).map(|k| iso.as_bytes()[k + 1] == b'-'));
                    if neg != (south, Some(west)) {
                        return Some(format!("to_iso6709 {iso}: hemispheres {neg:?}, parts say south {south} west {west}"));
                    }
                }
                None => return Some(format!("to_iso6709 {iso} is not an ISO 6709 position")),
            }
        }
    }
    None
}
/// `±DD.D±DDD.D[±A[CRS…]]/`
pub fn iso_parts(s: &str) -> Option<(f64, f64, Option<f64>)> {
    let s = s.strip_suffix('/')?;
    let (s, crs) = match s.find("CRS") {
        Some(k) => (&s[..k], true),
        None => (s, false),
    };
    let mut cuts: Vec<usize> = s.char_indices().filter(|x| x.1 == '+' || x.1 == '-').map(|x| x.0).collect();
    if cuts.first() != Some(&0) || !(2..=3).contains(&cuts.len()) || (crs && cuts.len() != 3) {
        return None;
    }
    cuts.push(s.len());
    let part = |i: usize| -> Option<&str> { s.get(cuts[i]..cuts[i + 1]) };
    let whole = |t: &str| t[1..].split('.').next().unwrap_or("").len();
    let (a, b) = (part(0)?, part(1)?);
    if whole(a) != 2 || whole(b) != 3 {
        return None;
    }
    let c = if cuts.len() == 4 { Some(part(2)?.parse().ok()?) } else { None };
    Some((a.parse().ok()?, b.parse().ok()?, c))
}
pub fn gps_text(g: &GPSInfo) -> String {
    match gps_faults(g) {
        None => gps_parts(g),
        Some(f) => format!("{} ({f})", gps_parts(g)),
    }
}
pub fn gps_parts(g: &GPSInfo) -> String {
    fn ll(l: &LatLng) -> String {
        format!("{:?}", l)
    }
    format!("{:?} | {} | {:?} | {} | {:?} | {:?}", g.latitude_ref, ll(&g.latitude), g.longitude_ref, ll(&g.longitude), g.altitude, g.speed)
}

#[derive(Clone, PartialEq, Debug)]
pub struct ExifObs {
    pub entries: Vec<Ent>,
    pub runaway: bool,
    pub gps: String,
    pub embedded: bool,
}
pub fn observe_iter(it: &ExifIter) -> ExifObs {
    observe_capped(it, MAX_ENTRIES)
}
pub fn observe_capped(it: &ExifIter, cap: usize) -> ExifObs {
    let (entries, runaway) = drain(it.clone_rewound(), cap);
    let gps = match it.parse_gps() {
        Ok(None) => "none".into(),
        Ok(Some(g)) => gps_text(&g),
        Err(e) => format!("err:{e:?}"),
    };
    ExifObs { entries, runaway, gps, embedded: it.has_embedded_track() }
}

/// The eager view, as (sorted entries, gps, errors, flag).
#[derive(Clone, PartialEq, Debug)]
pub struct EagerObs {
    pub entries: Vec<Ent>,
    pub gps: String,
    pub errors: Vec<(usize, u16, String)>,
    pub embedded: bool,
}
pub fn observe_eager(e: &Exif) -> EagerObs {
    let mut entries: Vec<Ent> = e
        .iter()
        .map(|x| match crate::tags::wrong(x.tag) {
            None => Ent::ok(x.ifd.as_usize(), x.tag.code(), x.value),
            Some(w) => Ent { ifd: x.ifd.as_usize(), code: x.tag.code(), val: Ok(format!("({w})")) },
        })
        .collect();
    entries.sort();
    EagerObs {
        entries,
        gps: e.gps_info().map(gps_text).unwrap_or_else(|| "none".into()),
        errors: e.errors().iter().map(|(i, t, er)| (i.as_usize(), t.code(), format!("{er:?}"))).collect(),
        embedded: e.has_embedded_track(),
    }
}
/// What the eager view must contain, given the lazy one.
pub fn eager_of(o: &ExifObs) -> EagerObs {
    let mut m = std::collections::BTreeMap::new();
    let mut errors = vec![];
    for e in &o.entries {
        match &e.val {
            Ok(_) => {
                m.insert((e.ifd, e.code), e.clone());
            }
            Err(x) => errors.push((e.ifd, e.code, x.clone())),
        }
    }
    EagerObs {
        entries: m.into_values().collect(),
        gps: if o.gps.starts_with("err:") { "none".into() } else { o.gps.clone() },
        errors,
        embedded: o.embedded,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct TrackObs {
    pub map: Vec<(String, String)>,
    pub gps: String,
    pub embedded: bool,
}
pub fn observe_track(t: &TrackInfo) -> TrackObs {
    #[allow(deprecated)]
    let embedded = t.has_embedded_media();
    TrackObs {
        map: t.iter().map(|(k, v)| (format!("{k:?}"), canon(v))).collect(),
        gps: t.gps_info().map(gps_text).unwrap_or_else(|| "none".into()),
        embedded,
    }
}

pub type Text = Vec<(String, String)>;
pub fn text_of(f: &Option<ImageFormatMetadata>) -> Option<Text> {
    match f {
        Some(ImageFormatMetadata::Png(t)) => {
            let mut l: Text = t.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            if t.len() != l.len() || t.is_empty() != l.is_empty() {
                l.push(("(len)".into(), t.len().to_string()));
            }
            for i in 0..l.len().min(6) {
                let (k, _) = l[i].clone();
                let all: Vec<&str> = l.iter().filter(|x| x.0 == k).map(|x| x.1.as_str()).collect();
                if k != "(len)" && (t.get(&k) != all.first().copied() || t.get_all(&k).collect::<Vec<_>>() != all) {
                    let w = format!("{:?}", t.get(&k));
                    l.push((format!("(get {k})"), w));
                    break;
                }
            }
            Some(l)
        }
        _ => None,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    Exif(ExifObs),
    Image(Option<ExifObs>, Option<Text>),
    Track(TrackObs),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fail {
    Io(ErrorKind, String),
    Unsupported,
    NoExif,
    NoTrack,
    Malformed(String),
    Eof(String),
    Panic(String),
    Stuck,
    Other(String),
}
impl Fail {
    pub fn of(e: &Error) -> Fail {
        if crate::talk::is_loud() {
            std::hint::black_box(format!("{e} {e:?}"));
        }
        match e {
            Error::Io(e) => Fail::Io(e.kind(), e.to_string()),
            Error::UnsupportedFormat => Fail::Unsupported,
            Error::ExifNotFound => Fail::NoExif,
            Error::TrackNotFound => Fail::NoTrack,
            Error::Malformed { kind, message } => Fail::Malformed(format!("{kind:?}: {message}")),
            Error::UnexpectedEof { context } => Fail::Eof(context.to_string()),
            other => Fail::Other(format!("{other:?}")),
        }
    }
    /// Comparison class: definite answers are kept apart, the ways a parse of damaged or
    /// short data can fail are merged.
    pub fn class(&self) -> String {
        match self {
            Fail::Io(ErrorKind::UnexpectedEof, _) | Fail::Malformed(_) | Fail::Eof(_) => "failed".into(),
            Fail::Io(k, m) => format!("io:{k:?}:{m}"),
            Fail::Unsupported => "unsupported".into(),
            Fail::NoExif => "no-exif".into(),
            Fail::NoTrack => "no-track".into(),
            Fail::Panic(m) => format!("PANIC:{m}"),
            Fail::Stuck => "STUCK".into(),
            Fail::Other(m) => format!("other:{m}"),
        }
    }
    pub fn is_failed(&self) -> bool {
        self.class() == "failed"
    }
}

pub fn first_diff(a: &[Ent], b: &[Ent]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!(
                "entry #{i}: {} vs {} (lengths {} vs {})",
                a.get(i).map(|e| e.show()).unwrap_or("-".into()),
                b.get(i).map(|e| e.show()).unwrap_or("-".into()),
                a.len(),
                b.len()
            );
        }
    }
    "entries equal".into()
}
pub fn diff_exif(a: &ExifObs, b: &ExifObs) -> Option<String> {
    if a.entries != b.entries {
        return Some(first_diff(&a.entries, &b.entries));
    }
    if a.gps != b.gps {
        return Some(format!("gps {} vs {}", a.gps, b.gps));
    }
    if a.embedded != b.embedded {
        return Some(format!("embedded-track flag {} vs {}", a.embedded, b.embedded));
    }
    if a.runaway != b.runaway {
        return Some("runaway iteration".into());
    }
    None
}
pub fn clip(s: &str) -> String {
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s.to_string()
    }
}
pub fn diff_obs(a: &Result<Obs, Fail>, b: &Result<Obs, Fail>) -> Option<String> {
    match (a, b) {
        (Ok(Obs::Exif(x)), Ok(Obs::Exif(y))) => diff_exif(x, y),
        (Ok(Obs::Image(x, t)), Ok(Obs::Image(y, u))) => {
            if t != u {
                return Some(clip(&format!("text {t:?} vs {u:?}")));
            }
            match (x, y) {
                (Some(x), Some(y)) => diff_exif(x, y),
                (None, None) => None,
                _ => Some(format!("exif present {} vs {}", x.is_some(), y.is_some())),
            }
        }
        (Ok(Obs::Track(x)), Ok(Obs::Track(y))) => (x != y).then(|| clip(&format!("track {x:?} vs {y:?}"))),
        (Err(x), Err(y)) => (x.class() != y.class()).then(|| format!("failure {x:?} vs {y:?}")),
        _ => Some(format!("{} vs {}", show(a), show(b))),
    }
}
pub fn show(r: &Result<Obs, Fail>) -> String {
    match r {
        Ok(Obs::Exif(x)) => format!("Exif({} entries, gps {}, flag {})", x.entries.len(), x.gps, x.embedded),
        Ok(Obs::Image(x, t)) => format!("Image(exif {:?} entries, text {:?})", x.as_ref().map(|x| x.entries.len()), t.as_ref().map(|t| t.len())),
        Ok(Obs::Track(t)) => clip(&format!("Track({:?}, gps {})", t.map, t.gps)),
        Err(e) => clip(&format!("Err({e:?})")),
    }
}
