//! Damaged, hostile and random media.
use super::tiff::{w16, w32, Dir};
use super::*;
use crate::src::Src;

fn near(s: &mut Src, marks: &[u64], len: usize) -> usize {
    if len == 0 {
        return 0;
    }
    let o = match s.us(4) {
        0 if !marks.is_empty() => (*s.pick(marks) as usize + s.us(24)).saturating_sub(8),
        1 => s.us(len.min(200)),
        2 if !marks.is_empty() => *s.pick(marks) as usize,
        _ => s.us(len),
    };
    o.min(len - 1)
}

fn val32(s: &mut Src) -> u32 {
    *s.pick(&[0u32, 1, 2, 7, 8, 16, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000, 0x0100_0000, 0x4000_0000, 0xffff_fff0, 65535, 65536])
}

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    for (i, x) in v.iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = *x;
        }
    }
}

/// Apply 1..=4 random damages to a well-formed file.
pub fn damage(s: &mut Src, m: &Media) -> (Vec<u8>, String) {
    let mut b = m.bytes();
    let mut what = vec![];
    for _ in 0..s.range(1, 4) {
        let n = b.len();
        if n == 0 {
            break;
        }
        match s.us(18) {
            13..=17 => match reshape(s, &mut b) {
                Some(w) => what.push(w),
                None => continue,
            },
            0 => {
                let o = near(s, &m.marks, n);
                b[o] ^= 1 << s.us(8);
                what.push(format!("flip@{o}"));
            }
            1 => {
                let o = near(s, &m.marks, n);
                let v = val32(s);
                put(&mut b, o, &v.to_be_bytes());
                what.push(format!("be32@{o}={v:x}"));
            }
            2 => {
                let o = near(s, &m.marks, n);
                let v = val32(s);
                put(&mut b, o, &v.to_le_bytes());
                what.push(format!("le32@{o}={v:x}"));
            }
            3 => {
                let o = near(s, &m.marks, n);
                let v = *s.pick(&[0u16, 1, 2, 3, 0xffff, 0x7fff, 0xff00, 14, 255]);
                put(&mut b, o, &if s.flag() { v.to_be_bytes() } else { v.to_le_bytes() });
                what.push(format!("u16@{o}={v:x}"));
            }
            4 => {
                let o = near(s, &m.marks, n);
                b.truncate(o.max(1));
                what.push(format!("cut@{o}"));
            }
            5 => {
                let o = near(s, &m.marks, n);
                let l = (1 + s.us(64)).min(n - o);
                let v = *s.pick(&[0u8, 0xff, 0x20]);
                b[o..o + l].fill(v);
                what.push(format!("fill@{o}+{l}={v:x}"));
            }
            6 => {
                let o = near(s, &m.marks, n);
                let l = (1 + s.us(300)).min(n - o);
                let c = b[o..o + l].to_vec();
                b.splice(o..o, c);
                what.push(format!("dup@{o}+{l}"));
            }
            7 => {
                let o = near(s, &m.marks, n);
                let l = (1 + s.us(300)).min(n - o);
                b.drain(o..o + l);
                what.push(format!("del@{o}+{l}"));
            }
            8 => {
                let o = near(s, &m.marks, n);
                let f = near(s, &m.marks, n);
                let l = (1 + s.us(200)).min(n - o).min(n - f);
                let c = b[f..f + l].to_vec();
                put(&mut b, o, &c);
                what.push(format!("copy@{f}->{o}+{l}"));
            }
            9 => {
                // 64-bit size at a box-like place
                let o = near(s, &m.marks, n);
                let v = *s.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 31) - 1, 1 << 30, 15, 16]);
                put(&mut b, o, &1u32.to_be_bytes());
                put(&mut b, o + 8, &v.to_be_bytes());
                what.push(format!("size64@{o}={v:x}"));
            }
            10 => {
                let o = near(s, &m.marks, n);
                b[o] = s.draw(256) as u8;
                what.push(format!("byte@{o}"));
            }
            _ => {
                // damage inside a TIFF directory
                let Some((t, base)) = m.tiffs.first() else { continue };
                if t.slots.is_empty() {
                    continue;
                }
                let sl = s.pick(&t.slots).clone();
                let at = *base as usize + sl.off;
                let targets: Vec<usize> = t.dirs.iter().map(|d| d.1).collect();
                match s.us(7) {
                    0 => put(&mut b, at + 2, &w16(t.big, *s.pick(&[0u16, 13, 14, 0xffff, 5, 10, 2, 7, 12]))),
                    1 => put(&mut b, at + 4, &w32(t.big, val32(s))),
                    2 => put(&mut b, at + 8, &w32(t.big, val32(s))),
                    3 => put(&mut b, at, &w16(t.big, *s.pick(&[0x8769u16, 0x8825, 0, 0x9003, 0x9011, 0x014a, 0x9010]))),
                    4 => {
                        let tg = *s.pick(&targets) as u32;
                        put(&mut b, at, &w16(t.big, *s.pick(&[0x8769u16, 0x8825])));
                        put(&mut b, at + 2, &w16(t.big, 4));
                        put(&mut b, at + 4, &w32(t.big, 1));
                        put(&mut b, at + 8, &w32(t.big, tg));
                    }
                    5 => {
                        // next-directory pointers into themselves or others
                        let d = s.pick(&t.dirs).clone();
                        let tg = *s.pick(&targets) as u32;
                        put(&mut b, *base as usize + d.2.saturating_sub(4), &w32(t.big, tg));
                    }
                    _ => {
                        let d = s.pick(&t.dirs).clone();
                        put(&mut b, *base as usize + d.1, &w16(t.big, *s.pick(&[0u16, 1, 0xffff, 2, 200])));
                    }
                }
                what.push(format!("ifd@{at}"));
            }
        }
    }
    (b, what.join(","))
}

/// A size field of one element of a container file.
#[derive(Clone, Copy, Debug)]
enum Field {
    /// big-endian, counts from this offset on
    Be(usize, usize, usize),
    /// EBML length of this width, counts the body
    Vint(usize, usize),
    /// runs to the end of what encloses it
    Open,
}
#[derive(Clone, Debug)]
struct Elem {
    start: usize,
    body: usize,
    end: usize,
    field: Field,
    /// where the type lives, and how long it is
    ty: (usize, usize),
    parent: Option<usize>,
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

fn boxes(b: &[u8], from: usize, to: usize, parent: Option<usize>, depth: usize, out: &mut Vec<Elem>) {
    let mut p = from;
    while p + 8 <= to && out.len() < 400 {
        let n = be(&b[p..p + 4]);
        let (body, end, field) = match n {
            0 => (p + 8, to, Field::Open),
            1 if p + 16 <= to => (p + 16, p.saturating_add(be(&b[p + 8..p + 16]).min(1 << 40) as usize), Field::Be(p + 8, 8, p)),
            n => (p + 8, p + n as usize, Field::Be(p, 4, p)),
        };
        if end < body || end > to {
            return;
        }
        let me = out.len();
        out.push(Elem { start: p, body, end, field, ty: (p + 4, 4), parent });
        if depth < 12 {
            let skip = match &b[p + 4..p + 8] {
                b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"udta" | b"ilst" | b"iprp" | b"ipco" | b"mvex" => Some(0),
                b"meta" if body + 8 <= end && &b[body + 4..body + 8] == b"hdlr" => Some(0),
                b"meta" => Some(4),
                b"iinf" => Some(if body < end && b[body] != 0 { 8 } else { 6 }),
                b"uuid" => Some(16),
                t if t[0] == 0 => Some(0), // an ilst entry
                _ => None,
            };
            if let Some(k) = skip {
                if body + k <= end {
                    boxes(b, body + k, end, Some(me), depth + 1, out);
                }
            }
        }
        p = end;
    }
}

fn ebml(b: &[u8], from: usize, to: usize, parent: Option<usize>, depth: usize, out: &mut Vec<Elem>) {
    let mut p = from;
    while p + 2 <= to && out.len() < 400 {
        let il = b[p].leading_zeros() as usize + 1;
        if il > 4 || p + il >= to {
            return;
        }
        let id = be(&b[p..p + il]);
        let q = p + il;
        let sl = b[q].leading_zeros() as usize + 1;
        if sl > 8 || q + sl > to {
            return;
        }
        let raw = be(&b[q..q + sl]) & !(1u64 << (7 * sl));
        let unknown = raw == (1u64 << (7 * sl)) - 1;
        let body = q + sl;
        let (end, field) = if unknown { (to, Field::Open) } else { (body.saturating_add(raw.min(1 << 40) as usize), Field::Vint(q, sl)) };
        if end > to {
            return;
        }
        let me = out.len();
        out.push(Elem { start: p, body, end, field, ty: (p, il), parent });
        if depth < 12 && matches!(id, 0x1A45DFA3 | 0x18538067 | 0x114D9B74 | 0x4DBB | 0x1549A966 | 0x1654AE6B | 0xAE | 0xE0 | 0xE1 | 0x1254C367 | 0x7373 | 0x67C8) {
            ebml(b, body, end, Some(me), depth + 1, out);
        }
        p = end;
    }
}

fn elements(b: &[u8]) -> Vec<Elem> {
    let mut out = vec![];
    if b.starts_with(b"\x89PNG") {
        let mut p = 8;
        while p + 12 <= b.len() && out.len() < 400 {
            let n = be(&b[p..p + 4]) as usize;
            let end = p + 12 + n;
            if end > b.len() {
                break;
            }
            out.push(Elem { start: p, body: p + 8, end, field: Field::Be(p, 4, p + 12), ty: (p + 4, 4), parent: None });
            p = end;
        }
    } else if b.starts_with(&[0xff, 0xd8]) {
        let mut p = 2;
        while p + 4 <= b.len() && b[p] == 0xff && b[p + 1] != 0xda && out.len() < 400 {
            let end = p + 2 + be(&b[p + 2..p + 4]) as usize;
            if end > b.len() || end < p + 4 {
                break;
            }
            out.push(Elem { start: p, body: p + 4, end, field: Field::Be(p + 2, 2, p + 2), ty: (p + 1, 1), parent: None });
            p = end;
        }
    } else if b.starts_with(&[0x1a, 0x45, 0xdf, 0xa3]) {
        ebml(b, 0, b.len(), None, 0, &mut out);
    } else if b.len() > 8 && &b[4..8] == b"ftyp" {
        boxes(b, 0, b.len(), None, 0, &mut out);
    }
    out
}

/// Add `d` to the declared size of element `i` and of everything around it.
fn resize(b: &mut [u8], els: &[Elem], mut i: Option<usize>, d: i64) {
    while let Some(k) = i {
        let e = &els[k];
        match e.field {
            Field::Be(at, w, _) => {
                let v = (be(&b[at..at + w]) as i64).wrapping_add(d) as u64;
                let x = v.to_be_bytes();
                b[at..at + w].copy_from_slice(&x[8 - w..]);
            }
            Field::Vint(at, w) => {
                let v = (be(&b[at..at + w]) as i64).wrapping_add(d) as u64;
                let x = v.to_be_bytes();
                b[at..at + w].copy_from_slice(&x[8 - w..]);
            }
            Field::Open => {}
        }
        i = e.parent;
    }
}

/// Change the structure of a container while every declared size stays consistent: bodies cut
/// short or stretched, elements dropped, repeated, swapped or retyped.
fn reshape(s: &mut Src, b: &mut Vec<u8>) -> Option<String> {
    let els = elements(b);
    if els.is_empty() {
        return None;
    }
    // prefer small elements: that is where the fields are
    let mut i = s.us(els.len());
    for _ in 0..2 {
        if els[i].end - els[i].body > 2000 {
            i = s.us(els.len());
        }
    }
    let kind = s.us(12);
    if kind >= 8 {
        // prefer the deep ones
        let depth = |mut k: usize| {
            let mut d = 0;
            while let Some(p) = els[k].parent {
                (k, d) = (p, d + 1);
            }
            d
        };
        for _ in 0..2 {
            let j = s.us(els.len());
            if depth(j) > depth(i) {
                i = j;
            }
        }
    }
    let e = els[i].clone();
    let n = e.end - e.body;
    Some(match kind {
        8..=9 => {
            // the element alone declares another size
            let (at, w) = match e.field {
                Field::Be(at, w, _) | Field::Vint(at, w) => (at, w),
                Field::Open => return None,
            };
            let old = be(&b[at..at + w]);
            let v = match s.us(4) {
                0 => s.us(32) as u64,
                1 => old.wrapping_sub(1 + s.us(16) as u64),
                2 => old.wrapping_add(1 + s.us(16) as u64),
                _ => *s.pick(&[u64::MAX, 1 << 63, 1 << 40, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]),
            };
            let mut x = v.to_be_bytes()[8 - w..].to_vec();
            if let Field::Vint(..) = e.field {
                let m = 0x80u8 >> (w - 1);
                x[0] = x[0] & (m - 1) | m;
            }
            b[at..at + w].copy_from_slice(&x);
            format!("size@{at}:={v:x}")
        }
        10..=11 => {
            // one of its fields
            if n == 0 {
                return None;
            }
            let at = e.body + s.us(n.min(48));
            let w = (*s.pick(&[1usize, 2, 4, 8])).min(e.end - at);
            let v = match s.us(3) {
                0 => s.us(32) as u64,
                1 => *s.pick(&[u64::MAX, 1 << 63 | 1 << 31 | 1 << 15 | 1 << 7, u64::MAX >> 1, 0x0100_0000, 0xffff_fff0]),
                _ => s.draw(u64::MAX),
            };
            b[at..at + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
            format!("field@{at}+{w}:={v:x}")
        }
        0..=3 => {
            if n == 0 {
                return None;
            }
            let keep = match s.us(4) {
                0 => s.us(n.min(30)),
                1 => n - 1 - s.us(n.min(8)),
                2 => 0,
                _ => s.us(n),
            };
            b.drain(e.body + keep..e.end);
            resize(b, &els, Some(i), keep as i64 - n as i64);
            format!("shrink@{} {n}->{keep}", e.start)
        }
        4 => {
            let k = 1 + s.us(40);
            let f = if s.flag() { s.filler(k) } else { vec![0; k] };
            let at = e.body + s.us(n + 1);
            b.splice(at..at, f);
            resize(b, &els, Some(i), k as i64);
            format!("stretch@{at}+{k}")
        }
        5 => {
            b.drain(e.start..e.end);
            resize(b, &els, e.parent, -((e.end - e.start) as i64));
            format!("drop@{}", e.start)
        }
        6 => {
            if e.end - e.start > 5000 {
                return None;
            }
            let c = b[e.start..e.end].to_vec();
            let j = s.us(els.len());
            let t = els[j].clone();
            b.splice(t.start..t.start, c.clone());
            resize(b, &els, t.parent, c.len() as i64);
            format!("graft@{}->{}", e.start, t.start)
        }
        _ => {
            let j = s.us(els.len());
            let (a, w) = els[j].ty;
            if w != e.ty.1 {
                return None;
            }
            let x = b[a..a + w].to_vec();
            b[e.ty.0..e.ty.0 + w].copy_from_slice(&x);
            format!("retype@{}", e.start)
        }
    })
}

fn nest(ids: &[&[u8; 4]], depth: usize, full: bool) -> Vec<u8> {
    let mut b = vec![];
    for i in 0..depth {
        let mut v = if full { vec![0; 4] } else { vec![] };
        v.extend(b);
        b = bx(ids[i % ids.len()], &v);
    }
    b
}

/// Files written to hurt: enormous declared sizes, deep nesting, loops, floods of entries.
pub fn hostile(s: &mut Src) -> (Vec<u8>, String) {
    let huge32 = *s.pick(&[0x7fff_ffffu32, 0xffff_ffff, 0x4000_0000, 0x3fff_ffff, 0x1000_0000, 100_000_000]);
    let huge64 = *s.pick(&[u64::MAX, 1 << 62, 1 << 40, (1 << 30) + 100, 1 << 30, (1 << 31) - 1, 900_000_000]);
    let tail = s.us(3000);
    let mut w = W::default();
    let k = s.us(17);
    let name = match k {
        0 => {
            let brand = *s.pick(&[b"isom", b"qt  ", b"heic", b"avif", b"crx ", b"mp42", b"mif1"]);
            w.bx(b"ftyp", &[&brand[..], &[0, 0, 0, 0], &brand[..]].concat());
            let ty = *s.pick(&[b"moov", b"mdat", b"meta", b"free", b"uuid", b"zzzz"]);
            w.u32(1).put(ty).u64(huge64);
            w.put(&s.filler(tail));
            "box64"
        }
        1 => {
            w.bx(b"ftyp", &[&b"qt  "[..], &[0, 0, 0, 0], &b"qt  "[..]].concat());
            let inner = match s.us(5) {
                0 => {
                    let keys = fullbox(b"keys", 0, &huge32.to_be_bytes());
                    let mut m = fullbox(b"hdlr", 0, &[0; 20]);
                    m.extend(keys);
                    m.extend(bx(b"ilst", &[0, 0, 0, 30, 0, 0, 0, 1, 0, 0, 0, 22]));
                    bx(b"meta", &m)
                }
                1 => [&huge32.to_be_bytes()[..], b"meta", &[0; 40]].concat(),
                2 => bx(b"udta", &[&huge32.to_be_bytes()[..], &[0xa9, b'x', b'y', b'z'], &[0xff; 40]].concat()),
                3 => nest(&[b"trak", b"mdia", b"minf", b"stbl", b"udta", b"meta"], 1 + s.us(3000), false),
                _ => nest(&[b"moov", b"trak"], 1 + s.us(3000), false),
            };
            w.put(&bx(b"moov", &inner));
            w.put(&s.filler(tail));
            "moov"
        }
        2 => {
            let brand = *s.pick(&[b"heic", b"avif"]);
            w.bx(b"ftyp", &[&brand[..], &[0, 0, 0, 0], &brand[..]].concat());
            let mut m = vec![0; 4];
            m.extend(fullbox(b"hdlr", 0, &[&[0; 4][..], b"pict", &[0; 13]].concat()));
            let infe = fullbox(b"infe", 2, &[&[0, 1, 0, 0][..], b"Exif", &[0]].concat());
            let cnt = *s.pick(&[1u16, 2, 0xffff]);
            m.extend(fullbox(b"iinf", 0, &[&cnt.to_be_bytes()[..], &infe].concat()));
            let v = s.us(3) as u8;
            let sizes = *s.pick(&[[0x44u8, 0x40], [0x88, 0x80], [0x48, 0x00], [0x84, 0x88]]);
            let mut il = vec![];
            il.extend(sizes);
            if v == 2 {
                il.extend(huge32.to_be_bytes());
            } else {
                il.extend(cnt.to_be_bytes());
            }
            if v == 2 {
                il.extend(1u32.to_be_bytes());
            } else {
                il.extend(1u16.to_be_bytes());
            }
            if v > 0 {
                il.extend([0, s.us(3) as u8]);
            }
            il.extend([0, 0]);
            for _ in 0..s.us(5) {
                il.extend(huge64.to_be_bytes());
            }
            il.extend([0xff; 24]);
            m.extend(fullbox(b"iloc", v, &il));
            w.bx(b"meta", &m);
            w.put(&s.filler(tail));
            "heif"
        }
        3 => {
            w.put(b"\x89PNG\r\n\x1a\n");
            w.put(&super::image::chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0]));
            let ty = *s.pick(&[b"tEXt", b"eXIf", b"IDAT", b"zTXt", b"iTXt", b"acTL"]);
            w.u32(huge32).put(ty).put(b"Comment\0");
            w.put(&s.filler(tail));
            "png"
        }
        4 => {
            w.put(&[0xff, 0xd8]);
            for _ in 0..s.us(400) {
                w.put(&[0xff, *s.pick(&[0xe1u8, 0xe0, 0xdb, 0xc4, 0xfe]), 0, *s.pick(&[0u8, 1, 2, 3, 9])]);
            }
            w.put(&[0xff, 0xe1, 0xff, 0xff]).put(b"Exif\0\0").put(b"MM\0*\0\0\0\x08");
            w.put(&s.filler(tail));
            "jpeg"
        }
        5 => {
            // directory with an enormous entry count or values
            let big = s.flag();
            let mut t = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            t.extend(w32(big, 8));
            let n = s.range(1, 40);
            t.extend(w16(big, if s.us(3) == 0 { 0xffff } else { n as u16 }));
            for i in 0..n {
                t.extend(w16(big, 0x100 + i as u16));
                t.extend(w16(big, 1 + s.us(13) as u16));
                t.extend(w32(big, if s.flag() { huge32 } else { 0xffff_ffff / (1 + s.us(13) as u32) }));
                t.extend(w32(big, val32(s)));
            }
            t.extend(w32(big, *s.pick(&[0u32, 8, 0xffff_ffff, 20])));
            t.extend(s.filler(tail));
            w.put(&wrap_tiff(s, t));
            "tiff counts"
        }
        6 => {
            // chains and loops of directories
            let big = s.flag();
            let mut t = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            t.extend(w32(big, 8));
            let n = s.range(1, 1500);
            let mode = s.us(4);
            for i in 0..n {
                let at = t.len();
                let tag = match mode {
                    0 => 0x8769u16,
                    1 => 0x8825,
                    2 => 0x0100,
                    _ => *s.pick(&[0x8769u16, 0x8825, 0x0101]),
                };
                let back = s.us(at + 1) as u32;
                let next = if i + 1 == n { *s.pick(&[back, 0, 2, 8]) } else { (at + 18) as u32 };
                t.extend(w16(big, 1));
                t.extend(w16(big, tag));
                t.extend(w16(big, 4));
                t.extend(w32(big, 1));
                t.extend(w32(big, if s.us(8) == 0 { 8 } else { next }));
                t.extend(w32(big, if mode == 2 || s.us(3) == 0 { next } else { 0 }));
            }
            w.put(&wrap_tiff(s, t));
            "tiff chain"
        }
        7 => {
            // 65535 entries
            let big = s.flag();
            let mut t = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            t.extend(w32(big, 8));
            let n = *s.pick(&[65535usize, 65534, 30000, 5461, 5460]);
            t.extend(w16(big, n as u16));
            let same = s.us(3);
            for i in 0..n {
                t.extend(w16(big, if same == 0 { 0x8769 } else { (i + 1) as u16 }));
                t.extend(w16(big, 3));
                t.extend(w32(big, 1));
                t.extend(w32(big, if same == 0 { 8 } else { i as u32 }));
            }
            t.extend(w32(big, if s.flag() { 8 } else { 0 }));
            if s.flag() {
                t.extend(s.filler(tail));
            }
            w.put(&t);
            "tiff flood"
        }
        8 => {
            // EBML: huge / unknown sizes, deep nesting, self-referencing seeks
            use super::track::{el, vint};
            w.put(&el(0x1A45_DFA3, &el(0x4282, s.pick(&[&b"webm"[..], &b"matroska"[..]]), 1), 8));
            let mode = s.us(5);
            match mode {
                0 => {
                    w.put(&[0x18, 0x53, 0x80, 0x67]).put(&vint(huge64.min((1 << 56) - 2), 8));
                    w.put(&[0x15, 0x49, 0xA9, 0x66]).put(&vint(huge64.min((1 << 56) - 2), 8));
                    w.put(&s.filler(tail));
                }
                1 => {
                    w.put(&[0x18, 0x53, 0x80, 0x67, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
                    w.put(&[0x1F, 0x43, 0xB6, 0x75, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
                    w.put(&s.filler(tail));
                }
                2 => {
                    let mut seeks = vec![];
                    for _ in 0..s.range(1, 300) {
                        let id = *s.pick(&[0x1549A966u32, 0x1654AE6B, 0x114D9B74, 0x1043A770]);
                        let p = *s.pick(&[0u64, 1, 40, huge64, 200]);
                        seeks.extend(el(0x4DBB, &[el(0x53AB, &super::track::id_bytes(id), 1), el(0x53AC, &p.to_be_bytes(), 1)].concat(), 1));
                    }
                    let sh = el(0x114D_9B74, &seeks, 4);
                    w.put(&el(0x1853_8067, &[sh, s.filler(tail)].concat(), 8));
                }
                3 => {
                    let mut b = vec![];
                    for i in 0..s.range(1, 2000) {
                        b = el(*s.pick(&[0x1853_8067u32, 0x1654_AE6B, 0x1549_A966, 0xAE, 0xE0]), &b, 4 + i % 5);
                    }
                    w.put(&el(0x1853_8067, &b, 8));
                }
                _ => {
                    let mut b = vec![];
                    for _ in 0..s.range(1, 500) {
                        b.extend(el(*s.pick(&[0x4461u32, 0x4489, 0x2AD7B1, 0xB0, 0xBA, 0x4D80]), &s.filler(9)[..9], 1));
                        b.extend([*s.pick(&[0u8, 0xec, 0xff]), 0x80]);
                    }
                    let info = el(0x1549_A966, &b, 4);
                    w.put(&el(0x1853_8067, &info, 8));
                }
            }
            "ebml"
        }
        9 => {
            w.put(b"FUJIFILMCCD-RAW 0201FF383501").put(&[0; 56]);
            w.u32(if s.flag() { huge32 } else { 100 }).u32(huge32).u32(huge32).u32(huge32);
            w.put(&s.filler(tail));
            "raf"
        }
        10 => {
            w.bx(b"ftyp", b"crx \0\0\0\x01crx isom");
            let cmt = [&huge32.to_be_bytes()[..], b"CMT1", b"II*\0\x08\0\0\0"].concat();
            let uuid = [&b"\x85\xc0\xb6\x87\x82\x0f\x11\xe0\x81\x11\xf4\xce\x46\x2b\x6a\x48"[..], &cmt].concat();
            w.put(&bx(b"moov", &bx(b"uuid", &uuid)));
            w.put(&s.filler(tail));
            "cr3"
        }
        11 => {
            let magic: &[&[u8]] = &[b"\x89PNG\r\n\x1a\n", b"\xff\xd8\xff\xe1", b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"\0\0\0\x18ftypheic\0\0\0\0mif1heic", b"\0\0\0\x14ftypqt  \0\0\0\0qt  ", b"\x1a\x45\xdf\xa3\x9f\x42\x82\x84webm", b"FUJIFILMCCD-RAW ", b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom"];
            w.put(*s.pick(magic));
            w.put(&s.filler(tail * 4));
            "magic+random"
        }
        12 => {
            // tiny file
            let n = s.us(200);
            w.put(&s.filler(n));
            "tiny"
        }
        13 => {
            // floods of tiny boxes
            w.bx(b"ftyp", b"isom\0\0\0\0isom");
            let ty = *s.pick(&[b"free", b"uuid", b"moof", b"trak", b"meta"]);
            let mut inner = vec![];
            for _ in 0..s.us(20_000) {
                inner.extend([0, 0, 0, 8]);
                inner.extend_from_slice(ty);
            }
            if s.flag() {
                w.put(&bx(b"moov", &inner));
            } else {
                w.put(&inner);
            }
            "box flood"
        }
        14 => {
            // PNG text flood
            w.put(b"\x89PNG\r\n\x1a\n");
            w.put(&super::image::chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0]));
            for _ in 0..s.us(3000) {
                w.put(&super::image::chunk(&s.pick(&[*b"tEXt", *b"eXIf"])[..].try_into().unwrap(), *s.pick(&[&b"k\0v"[..], &b"\0"[..], &b""[..], &b"Raw profile type exif\0\nexif\n 99999999\n4d4d"[..], &b"Raw profile type APP1\0\nAPP1\n 4\nzz"[..]])));
            }
            "png flood"
        }
        15 => {
            // directories that overlap each other and the header, pointing to each other
            let big = s.us(4) != 0;
            let mut t = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            let ifd0 = *s.pick(&[12u32, 8, 24, 10]);
            t.extend(w32(big, ifd0));
            t.extend(vec![0; ifd0 as usize - 8]);
            let n = s.range(1, 40);
            let end = ifd0 + 6 + 12 * n as u32;
            t.extend(w16(big, if s.us(4) == 0 { s.us(70000) as u16 } else { n as u16 }));
            for _ in 0..n {
                let (tag, format) = match s.us(4) {
                    0 | 1 => (*s.pick(&[0x8769u16, 0x8825]), 4u16),
                    2 => (*s.pick(&[0x010fu16, 0x0001, 0xa005, 0x927c]), *s.pick(&[3, 4, 7])),
                    _ => (*s.pick(&[0x8769u16, 0x8825, 0x0100]), s.us(14) as u16),
                };
                let to = match s.us(4) {
                    0 => 0,
                    1 => ifd0 + 12 * s.us(n) as u32,
                    2 => s.us(end as usize) as u32,
                    _ => *s.pick(&[2u32, 4, 8, ifd0, end - 4, end - 2, end]),
                };
                t.extend(w16(big, tag));
                t.extend(w16(big, format));
                t.extend(w32(big, *s.pick(&[1u32, 1, 1, 0, 2])));
                t.extend(w32(big, to));
            }
            let to = s.us(end as usize) as u32;
            t.extend(w32(big, *s.pick(&[0u32, to, ifd0])));
            if s.us(4) == 0 {
                // so long that the header makes a complete directory, too
                t.resize(240_000, s.us(2) as u8 * 0x41);
            }
            w.put(&wrap_tiff(s, t));
            "tiff grid"
        }
        _ => {
            w.bx(b"ftyp", b"isom\0\0\0\0isom");
            let mut mv = fullbox(b"mvhd", *s.pick(&[0u8, 1, 2, 255]), &vec![0xff; s.us(120)]);
            mv.extend(bx(b"trak", &fullbox(b"tkhd", *s.pick(&[0u8, 1, 7]), &vec![0xff; s.us(120)])));
            mv.extend(bx(b"udta", &bx(b"\xa9xyz", &[&[0xff, 0xff, 0x15, 0xc7][..], b"+90.000+180.000/"].concat())));
            w.put(&bx(b"moov", &mv));
            "mp4 odd headers"
        }
    };
    (w.b, name.to_string())
}

fn wrap_tiff(s: &mut Src, t: Vec<u8>) -> Vec<u8> {
    match s.us(4) {
        0 if t.len() < 65000 => {
            let mut v = vec![0xff, 0xd8];
            v.extend(super::image::seg(0xe1, &[&b"Exif\0\0"[..], &t].concat()));
            v.extend([0xff, 0xda, 0, 4, 0, 0, 1, 2, 3, 0xff, 0xd9]);
            v
        }
        1 => {
            let mut v = b"\x89PNG\r\n\x1a\n".to_vec();
            v.extend(super::image::chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0]));
            v.extend(super::image::chunk(b"eXIf", &t));
            v.extend(super::image::chunk(b"IEND", &[]));
            v
        }
        _ => t,
    }
}

#[allow(dead_code)]
pub fn is_gps(d: Dir) -> bool {
    d == Dir::Gps
}
