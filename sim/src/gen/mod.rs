pub mod damage;
pub mod hole;
pub mod image;
pub mod motion;
pub mod tiff;
pub mod track;
use crate::io::Blob;
use crate::obs::{Ent, Text};
use tiff::Tiff;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fmt {
    Jpeg,
    Png,
    Heic,
    Avif,
    Tiff,
    Raf,
    Cr3,
    Mp4,
    Mov,
    ThreeGp,
    Mkv,
    Webm,
}
pub const IMAGES: [Fmt; 7] = [Fmt::Jpeg, Fmt::Png, Fmt::Heic, Fmt::Avif, Fmt::Tiff, Fmt::Raf, Fmt::Cr3];
pub const TRACKS: [Fmt; 5] = [Fmt::Mp4, Fmt::Mov, Fmt::ThreeGp, Fmt::Mkv, Fmt::Webm];
impl Fmt {
    pub fn is_track(self) -> bool {
        TRACKS.contains(&self)
    }
}

#[derive(Clone, Debug, Default)]
pub struct ExifTruth {
    pub ents: Vec<Ent>,
    pub gps: String,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct TrackTruth {
    /// (tag name, canonical value), in tag order
    pub map: Vec<(String, String)>,
    /// decoded location in decimal degrees and metres
    pub gps: Option<(f64, f64, Option<f64>)>,
}

#[derive(Clone)]
pub struct Media {
    pub fmt: Fmt,
    pub name: String,
    pub blob: Blob,
    pub marks: Vec<u64>,
    pub exif: Option<ExifTruth>,
    pub text: Text,
    pub embedded: bool,
    pub track: Option<TrackTruth>,
    /// TIFF blocks with their file offsets
    pub tiffs: Vec<(Tiff, u64)>,
    /// end of the metadata an EXIF / track parse has to see
    pub meta_end: u64,
}
impl Media {
    pub fn new(fmt: Fmt, bytes: Vec<u8>) -> Media {
        Media {
            fmt,
            name: format!("{fmt:?}"),
            blob: Blob::flat(bytes),
            marks: vec![],
            exif: None,
            text: vec![],
            embedded: false,
            track: None,
            tiffs: vec![],
            meta_end: 0,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.blob.to_vec()
    }
    pub fn len(&self) -> u64 {
        self.blob.len
    }
}

/// The same layout with other values: whatever is remembered by place, length or offset
/// of an earlier file is wrong for this one.
pub fn twin(s: &mut crate::src::Src, m: &Media) -> Media {
    let mut t = m.clone();
    let mut b = m.bytes();
    for (x, base) in &m.tiffs {
        for sl in &x.slots {
            if sl.ptr || s.us(3) == 0 {
                continue;
            }
            let (o, n) = sl.val.unwrap_or((sl.off + 8, 2));
            if n == 0 {
                continue;
            }
            let p = *base as usize + o + s.us(n.min(8));
            if p < b.len() {
                b[p] ^= 1 + s.us(7) as u8;
            }
        }
    }
    if m.tiffs.is_empty() {
        let end = (m.meta_end as usize).min(b.len());
        let digits: Vec<usize> = (0..end).filter(|i| b[*i].is_ascii_digit()).collect();
        for _ in 0..1 + s.us(12) {
            if !digits.is_empty() {
                let p = *s.pick(&digits);
                b[p] = b'0' + s.us(10) as u8;
            }
        }
    }
    t.name = format!("{} twin", m.name);
    t.blob = Blob::flat(b);
    t.exif = None;
    t.track = None;
    t
}

/// Byte writer that remembers interesting offsets.
#[derive(Default)]
pub struct W {
    pub b: Vec<u8>,
    pub marks: Vec<u64>,
}
impl W {
    pub fn put(&mut self, x: &[u8]) -> &mut Self {
        self.b.extend_from_slice(x);
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.b.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.put(&v.to_be_bytes())
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.put(&v.to_be_bytes())
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.put(&v.to_be_bytes())
    }
    pub fn pos(&self) -> usize {
        self.b.len()
    }
    pub fn mark(&mut self) {
        let p = self.b.len() as u64;
        self.marks.push(p);
    }
    /// ISO-BMFF box
    pub fn bx(&mut self, ty: &[u8; 4], body: &[u8]) -> &mut Self {
        if hdr(ty) == 16 {
            return self.bx64(ty, body);
        }
        self.mark();
        self.u32(8 + body.len() as u32).put(ty).put(body);
        self.mark();
        self
    }
    pub fn bx64(&mut self, ty: &[u8; 4], body: &[u8]) -> &mut Self {
        self.mark();
        self.u32(1).put(ty).u64(16 + body.len() as u64).put(body);
        self.mark();
        self
    }
}
thread_local! {
    /// Which kinds of boxes are written with a 64-bit size.
    static LARGE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Length of the header of the boxes of a kind.
pub fn hdr(ty: &[u8; 4]) -> usize {
    let k = u32::from_be_bytes(*ty).wrapping_mul(0x9E37_79B1) >> 26;
    if ty != b"mdat" && LARGE.get() >> k & 1 == 1 {
        16
    } else {
        8
    }
}
/// Builds a file some of whose kinds of boxes have 64-bit sizes.
pub fn with_large<T>(s: &mut crate::src::Src, odd: bool, f: impl FnOnce(&mut crate::src::Src) -> T) -> T {
    let mask = match if odd { s.us(12) } else { 0 } {
        10 => s.draw(u64::MAX) & s.draw(u64::MAX),
        11 => u64::MAX,
        _ => 0,
    };
    let was = LARGE.replace(mask);
    let r = f(s);
    LARGE.set(was);
    r
}
pub fn bx(ty: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut w = W::default();
    w.bx(ty, body);
    w.b
}
pub fn fullbox(ty: &[u8; 4], version: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![version, 0, 0, 0];
    v.extend_from_slice(body);
    bx(ty, &v)
}
