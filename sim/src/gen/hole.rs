//! Files with huge runs of payload, kept sparse.
use super::*;
use crate::src::Src;
use bytes::Bytes;

pub fn sparse(head: Vec<u8>, hole: u64, tail: Vec<u8>) -> Blob {
    let hl = head.len() as u64;
    let tl = tail.len() as u64;
    Blob { len: hl + hole + tl, parts: vec![(0, Bytes::from(head)), (hl + hole, Bytes::from(tail))] }
}

/// A payload size: around the parser's buffer sizes, or anything up to `max`.
pub fn size(s: &mut Src, max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let n = match s.weighted(&[3, 3, 4]) {
        0 => *s.pick(&[8_192u64, 16_384, 65_536, 262_144, 1 << 20, 4 << 20]) + s.draw(600),
        1 => (1 << 30) - 300 + s.draw(600),
        _ => {
            let b = 14 + s.draw(bits - 14);
            (1 << b) + s.draw(1 << b)
        }
    };
    n.min(max)
}

/// Assembles a sparse file.
#[derive(Default)]
struct Sp {
    len: u64,
    parts: Vec<(u64, Bytes)>,
}
impl Sp {
    fn put(&mut self, b: &[u8]) {
        if !b.is_empty() {
            self.parts.push((self.len, Bytes::copy_from_slice(b)));
            self.len += b.len() as u64;
        }
    }
}

/// One hole: file offset and length.
pub type Hole = (u64, u64);

/// Grow payload boxes of an ISO-BMFF / QuickTime file (those before the `moov`, and sometimes one after it).
pub fn bmff(s: &mut Src, m: &Media, max: u64) -> (Media, Vec<Hole>) {
    let b = m.bytes();
    let mut boxes = vec![];
    let mut p = 0usize;
    while p + 8 <= b.len() {
        let mut n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        let mut h = 8;
        if n == 1 {
            n = u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize;
            h = 16;
        }
        boxes.push((p, n, h));
        p += n;
    }
    let moov = boxes.iter().position(|x| &b[x.0 + 4..x.0 + 8] == b"moov").unwrap();
    let cand: Vec<usize> = (0..boxes.len()).filter(|&i| matches!(&b[boxes[i].0 + 4..boxes[i].0 + 8], b"mdat" | b"free" | b"skip" | b"PICT") || i == moov).collect();
    let mut grow = vec![0u64; boxes.len()];
    let before: Vec<usize> = cand.iter().copied().filter(|&i| i < moov).collect();
    let after: Vec<usize> = cand.iter().copied().filter(|&i| i > moov).collect();
    let n = s.range(1, 3);
    for _ in 0..n {
        let from = if before.is_empty() || (!after.is_empty() && s.us(4) == 3) { &after } else { &before };
        if !from.is_empty() {
            grow[*s.pick(from)] = size(s, max);
        }
    }
    let mut sp = Sp::default();
    let mut holes = vec![];
    let mut marks = vec![];
    // a payload box of our own in front of the headers
    let own = if before.is_empty() && s.us(4) != 0 { size(s, max) } else { 0 };
    let mut meta_end = 0;
    for (i, (p, n, h)) in boxes.iter().copied().enumerate() {
        marks.push(sp.len);
        if i == moov && own > 0 {
            let t = *s.pick(&[b"mdat", b"free", b"wide"]);
            header(&mut sp, t, own, s.flag());
            holes.push((sp.len, own));
            sp.len += own;
            marks.push(sp.len);
        }
        let ty: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        if grow[i] == 0 {
            sp.put(&b[p..p + n]);
        } else {
            let body = (n - h) as u64 + grow[i];
            header(&mut sp, &ty, body, h == 16 || s.us(3) == 2);
            sp.put(&b[p + h..p + n]);
            holes.push((sp.len, grow[i]));
            sp.len += grow[i];
        }
        marks.push(sp.len);
        if i == moov {
            meta_end = sp.len;
        }
    }
    let mut o = m.clone();
    o.blob = Blob { len: sp.len, parts: sp.parts };
    o.marks = marks;
    o.meta_end = meta_end;
    (o, holes)
}
fn header(sp: &mut Sp, ty: &[u8; 4], body: u64, wide: bool) {
    let mut h = vec![];
    if wide || body + 8 > u32::MAX as u64 {
        h.extend(1u32.to_be_bytes());
        h.extend_from_slice(ty);
        h.extend((body + 16).to_be_bytes());
    } else {
        h.extend((body as u32 + 8).to_be_bytes());
        h.extend_from_slice(ty);
    }
    sp.put(&h);
}

/// Insert huge chunks the reader has no use for into a PNG file.
pub fn png(s: &mut Src, m: &Media) -> (Media, Vec<Hole>) {
    let b = m.bytes();
    let mut at = vec![];
    let mut p = 8usize;
    while p + 12 <= b.len() {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize + 12;
        p += n;
        at.push(p);
    }
    at.pop(); // after IEND
    let n = s.range(1, 3);
    let mut ins: Vec<(usize, u64)> = (0..n).map(|_| (*s.pick(&at), size(s, (1 << 31) - 1))).collect();
    ins.sort_unstable();
    let mut sp = Sp::default();
    let mut holes = vec![];
    let mut marks = vec![];
    let mut from = 0;
    for (a, n) in ins {
        sp.put(&b[from..a]);
        from = a;
        marks.push(sp.len);
        let mut h = (n as u32).to_be_bytes().to_vec();
        h.extend_from_slice(*s.pick(&[b"IDAT", b"IDAT", b"zTXt", b"iTXt", b"prVt"]));
        sp.put(&h);
        holes.push((sp.len, n));
        sp.len += n;
        sp.put(&[0; 4]);
        marks.push(sp.len);
    }
    sp.put(&b[from..]);
    let mut o = m.clone();
    o.meta_end = sp.len;
    o.blob = Blob { len: sp.len, parts: sp.parts };
    o.marks = marks;
    (o, holes)
}
