//! Well-formed still images with known metadata.
use super::tiff::{self, Tiff, TiffOpts};
use super::*;
use crate::src::Src;

#[derive(Clone, Debug)]
pub struct ImgOpts {
    /// chance (per mille) that EXIF is absent
    pub no_exif: u64,
    pub big: bool, // allow large payloads around the metadata
    pub tiff: TiffOpts,
    /// Non-Exif APP1 segments before the Exif one, and other layouts known to be delicate
    pub odd: bool,
    pub text: bool,
    /// Legacy "Raw profile type" PNG carriers
    pub legacy: bool,
    /// media payload before the metadata in container files
    pub payload_first: bool,
    /// a run of this many zero bytes ahead of the EXIF data: in the media data (HEIF), ahead
    /// of the embedded JPEG (RAF)
    pub hole: u64,
}
impl Default for ImgOpts {
    fn default() -> Self {
        ImgOpts { no_exif: 120, big: true, tiff: TiffOpts::default(), odd: true, text: true, legacy: true, payload_first: true, hole: 0 }
    }
}

/// Size of a filler block: biased around buffer sizes the parser uses.
pub fn pad_size(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[5, 4, 3, if big { 3 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => s.us(64),
        1 => s.us(3000),
        2 => {
            // around the first fill (8320) and the second (24704)
            let b = *s.pick(&[8320usize, 8192, 24704, 16384, 4096]);
            (b + s.us(260)).saturating_sub(130 + s.us(120))
        }
        3 => s.us(60_000),
        _ => s.us(400_000),
    }
}

pub fn gen(s: &mut Src, fmt: Fmt, o: &ImgOpts) -> Media {
    let mut m = match fmt {
        Fmt::Jpeg => jpeg(s, o),
        Fmt::Png => png(s, o),
        Fmt::Heic | Fmt::Avif => with_large(s, o.odd, |s| heif(s, o, fmt)),
        Fmt::Tiff => tiff_file(s, o),
        Fmt::Raf => raf(s, o),
        Fmt::Cr3 => with_large(s, o.odd, |s| cr3(s, o)),
        _ => unreachable!(),
    };
    m.marks.sort_unstable();
    m.marks.dedup();
    m
}

pub fn attach(m: &mut Media, t: Tiff, base: u64) {
    m.marks.extend(t.marks.iter().map(|x| base + *x as u64));
    m.exif = Some(ExifTruth { ents: super::tiff::first_only(&t.ents), gps: t.gps.clone() });
    m.tiffs.push((t, base));
}

fn tiff_file(s: &mut Src, o: &ImgOpts) -> Media {
    let mut to = o.tiff.clone();
    if o.big {
        match s.weighted(&[4, 3, 2]) {
            0 => {}
            1 => {
                to.max_gap = 12_000;
                to.max_total = 200_000;
            }
            _ => {
                to.max_gap = 90_000;
                to.max_total = 800_000;
                to.max_val = to.max_val.max(30_000);
            }
        }
    }
    let mut t = tiff::build(s, &to);
    if t.bytes.len() <= 140 {
        // a TIFF file that fits in the sniffing header is handled like every other
        // file that small; keep clear of it
        let pad = 140 - t.bytes.len() + s.us(50);
        t.bytes.extend(std::iter::repeat_n(0, pad));
    }
    let mut m = Media::new(Fmt::Tiff, t.bytes.clone());
    m.meta_end = t.meta_end as u64;
    attach(&mut m, t, 0);
    m
}

pub fn xmp_packet(body: &str) -> Vec<u8> {
    let mut v = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
    v.extend_from_slice(
        format!("<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?><x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description {body}</rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end=\"w\"?>").as_bytes(),
    );
    v
}

pub fn seg(code: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xFF, code];
    v.extend(((payload.len() + 2) as u16).to_be_bytes());
    v.extend_from_slice(payload);
    v
}

/// JPEG scan data: no markers other than stuffed ones.
pub fn scan_data(s: &mut Src, n: usize) -> Vec<u8> {
    let mut v = s.filler(n);
    for b in &mut v {
        if *b == 0xFF {
            *b = 0x7F;
        }
    }
    v
}

/// Segments of a JPEG; `extra` are APP1/XMP payloads to place.
pub fn jpeg_parts(s: &mut Src, o: &ImgOpts, xmp: &[Vec<u8>]) -> (Vec<u8>, Vec<u64>, Option<(Tiff, u64)>, u64) {
    let mut pre: Vec<Vec<u8>> = vec![];
    if s.us(3) != 2 {
        pre.push(seg(0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"));
    }
    let with_exif = !s.chance(o.no_exif);
    let n_pre = if s.us(60) == 59 { s.range(10, 80) } else { s.us(4) };
    let mut odd = vec![];
    for _ in 0..n_pre {
        let n = if n_pre > 4 { s.us(200) } else { pad_size(s, o.big).min(65000) };
        match s.us(4) {
            0 => odd.push(seg(0xFE, &s.filler(n))),
            1 => {
                let mut p = b"ICC_PROFILE\0".to_vec();
                p.extend(s.filler(n.min(64000)));
                odd.push(seg(0xE2, &p));
            }
            2 => odd.push(seg(0xED, &s.filler(n))),
            _ => odd.push(seg(0xEE, &s.filler(n))),
        }
    }
    let mut post: Vec<Vec<u8>> = vec![];
    for _ in 0..s.us(3) {
        let n = pad_size(s, o.big).min(65000);
        post.push(seg(*s.pick(&[0xE2u8, 0xFE, 0xEB, 0xDB]), &s.filler(n)));
    }
    let far = !xmp.is_empty() && post.is_empty() && o.big && s.us(2) == 1;
    if far {
        // far behind the Exif segment
        for _ in 0..s.range(1, 3) {
            let n = s.range(10_000, 60_000);
            post.push(seg(*s.pick(&[0xE2u8, 0xFE, 0xED]), &s.filler(n)));
        }
        post.extend(xmp.iter().map(|x| seg(0xE1, x)));
    }
    let xmp = if far { &[][..] } else { xmp };
    // XMP segments: before or after the Exif one
    for x in xmp {
        let sg = seg(0xE1, x);
        if o.odd && s.us(2) == 1 {
            let k = s.us(odd.len() + 1);
            odd.insert(k, sg);
        } else {
            let k = s.us(post.len() + 1);
            post.insert(k, sg);
        }
    }
    if o.odd && s.us(6) == 5 {
        // an APP1 that is neither Exif nor XMP
        let n = s.us(400);
        let mut p = b"Other\0".to_vec();
        p.extend(s.filler(n));
        let k = s.us(odd.len() + 1);
        odd.insert(k, seg(0xE1, &p));
    }
    pre.append(&mut odd);
    let mut w = W::default();
    w.put(&[0xFF, 0xD8]);
    w.mark();
    // fill bytes before the markers
    let fill = if o.odd && s.us(12) == 11 { s.range(1, 4) } else { 0 };
    let long = fill > 0 && !far && xmp.is_empty() && s.us(8) == 7;
    let mut fill_bytes = |s: &mut Src, w: &mut W| {
        if fill > 0 && s.us(3) == 2 {
            let n = if long { pad_size(s, o.big) } else { s.range(1, fill) };
            w.put(&vec![0xFF; n]);
        }
    };
    for p in &pre {
        fill_bytes(s, &mut w);
        w.put(p);
        w.mark();
    }
    let mut t = None;
    let mut meta_end = w.pos() as u64;
    if with_exif {
        let mut to = o.tiff.clone();
        to.max_total = to.max_total.min(62_000);
        if o.big && s.us(4) == 3 {
            to.max_val = 20_000;
        }
        let mut x;
        loop {
            x = tiff::build(s, &to);
            if x.bytes.len() <= 65_500 {
                break;
            }
            to.max_total /= 2;
            to.max_val /= 2;
        }
        let mut p = b"Exif\0\0".to_vec();
        p.extend(&x.bytes);
        fill_bytes(s, &mut w);
        let base = w.pos() as u64 + 4 + 6;
        w.put(&seg(0xE1, &p));
        w.mark();
        meta_end = w.pos() as u64;
        t = Some((x, base));
    }
    for p in &post {
        fill_bytes(s, &mut w);
        w.put(p);
        w.mark();
    }
    w.put(&seg(0xC0, &[8, 0, 16, 0, 16, 1, 1, 0x11, 0]));
    w.put(&seg(0xDA, &[1, 1, 0, 0, 63, 0]));
    w.mark();
    if t.is_none() {
        meta_end = w.pos() as u64;
    }
    let n = pad_size(s, o.big);
    let d = scan_data(s, n);
    w.put(&d);
    w.put(&[0xFF, 0xD9]);
    w.mark();
    (w.b, w.marks, t, meta_end)
}

fn jpeg(s: &mut Src, o: &ImgOpts) -> Media {
    let xmp: Vec<Vec<u8>> = match s.us(4) {
        0 | 1 => vec![],
        2 => vec![xmp_packet("xmlns:dc=\"http://purl.org/dc/elements/1.1/\" dc:format=\"image/jpeg\">")],
        _ => {
            let mut b = xmp_packet("xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmp:Rating=\"3\">");
            let n = s.us(20_000);
            b.extend(std::iter::repeat_n(b' ', n));
            vec![b]
        }
    };
    let (b, marks, t, meta_end) = jpeg_parts(s, o, &xmp);
    let mut b = b;
    if b.len() < 140 {
        b.extend(vec![0u8; 140]);
    }
    let mut m = Media::new(Fmt::Jpeg, b);
    m.marks = marks;
    m.meta_end = meta_end;
    if let Some((t, base)) = t {
        attach(&mut m, t, base);
    }
    m
}

fn crc(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
pub fn chunk(ty: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = (data.len() as u32).to_be_bytes().to_vec();
    let at = v.len();
    v.extend_from_slice(ty);
    v.extend_from_slice(data);
    // CRCs of large filler chunks are not worth computing
    let c = if data.len() < 4096 { crc(&v[at..]) } else { 0 };
    v.extend(c.to_be_bytes());
    v
}

/// The tEXt encoding ImageMagick uses for EXIF profiles.
pub fn raw_profile(kind: &str, tiff: &[u8], with_ident: bool, width: usize) -> String {
    let mut b = vec![];
    if with_ident {
        b.extend_from_slice(b"Exif\0\0");
    }
    b.extend_from_slice(tiff);
    let mut s = format!("\n{kind}\n{:8}\n", b.len());
    for (i, x) in b.iter().enumerate() {
        s.push_str(&format!("{x:02x}"));
        if i % width == width - 1 {
            s.push('\n');
        }
    }
    s.push('\n');
    s
}

fn png(s: &mut Src, o: &ImgOpts) -> Media {
    #[derive(Clone)]
    enum C {
        Raw(Vec<u8>),
        Text(String, Vec<u8>),
        Exif(u8),
    }
    let mut items: Vec<C> = vec![];
    let n_idat = if s.us(60) == 59 { s.range(20, 200) } else { s.range(1, 3) };
    for _ in 0..n_idat {
        let n = if n_idat > 3 { s.us(100) } else { pad_size(s, o.big) };
        items.push(C::Raw(chunk(b"IDAT", &s.filler(n))));
    }
    let mut place = |s: &mut Src, items: &mut Vec<C>, c: C| {
        let k = s.us(items.len() + 1);
        items.insert(k, c);
    };
    for _ in 0..s.us(4) {
        let ty = *s.pick(&[b"gAMA", b"zTXt", b"iTXt", b"pHYs", b"iCCP", b"vpAg"]);
        let n = if ty == b"gAMA" { 4 } else { pad_size(s, o.big) };
        let d = s.filler(n);
        place(s, &mut items, C::Raw(chunk(ty, &d)));
    }
    if o.text {
        let mut n_text = s.us(5);
        let mut keys: Vec<String> = vec![];
        let mut large = 0;
        if n_text == 4 && s.us(24) == 23 {
            n_text = s.range(20, 300);
        } else if n_text == 4 && o.big && s.us(200) == 199 {
            // all of it (and one huge text below) within the 16 MiB that are kept
            n_text = s.range(4, 15);
            large = (13 << 20) / 15;
        }
        for _ in 0..n_text {
            let key = if !keys.is_empty() && s.us(10) == 9 { s.pick(&keys).clone() } else if s.us(30) == 29 { s.text(60, 90) } else { s.text(1, 20) };
            keys.push(key.clone());
            let n = match if n_text > 15 { 0 } else { s.us(4) } {
                _ if large > 0 => large - s.us(large / 2),
                0 => s.us(20),
                1 => s.us(200),
                2 => s.us(12_000),
                _ => pad_size(s, o.big),
            };
            // Latin-1, no NUL
            // where the cap counts, one byte each (Latin-1 doubles in UTF-8)
            let keep = if large > 0 { 0x7f } else { 0xff };
            let v: Vec<u8> = s.filler(n).into_iter().map(|b| if b & keep == 0 { b'x' } else { b & keep }).collect();
            place(s, &mut items, C::Text(key, v));
        }
    }
    if o.text && o.big && s.us(120) == 119 {
        // text above 1 MiB is skipped by design, up to there it counts
        let k = *s.pick(&[0usize, 1, 2, 70_000, 400_000]);
        let key = "huge";
        let n = (1 << 20) - key.len() - 1 + k;
        let v: Vec<u8> = s.filler(n).into_iter().map(|b| if b == 0 { b'x' } else { b }).collect();
        let c = if k == 0 { C::Text(key.into(), v) } else { C::Raw(chunk(b"tEXt", &[&b"huge\0"[..], &v].concat())) };
        place(s, &mut items, c);
    }
    // EXIF carriers: at most one of each kind; priority eXIf > APP1 > exif
    let carriers: Vec<u8> = if s.chance(o.no_exif) {
        vec![]
    } else if !o.legacy {
        vec![3]
    } else {
        match s.us(8) {
            0..=3 => vec![3],
            4 => vec![2],
            5 => vec![1],
            6 => vec![3, 2],
            _ => vec![1, 2, 3],
        }
    };
    for c in &carriers {
        place(s, &mut items, C::Exif(*c));
    }
    let best = carriers.iter().copied().max();
    let mut w = W::default();
    w.put(b"\x89PNG\r\n\x1a\n");
    w.mark();
    w.put(&chunk(b"IHDR", &[0, 0, 0, 16, 0, 0, 0, 16, 8, 6, 0, 0, 0]));
    w.mark();
    let mut text: Text = vec![];
    let mut win = None;
    for c in items {
        match c {
            C::Raw(b) => {
                w.put(&b);
            }
            C::Text(k, v) => {
                let mut d = k.as_bytes().to_vec();
                d.push(0);
                d.extend(&v);
                w.put(&chunk(b"tEXt", &d));
                text.push((k, v.iter().map(|b| *b as char).collect()));
            }
            C::Exif(kind) => {
                let mut to = o.tiff.clone();
                if o.big && s.us(3) == 2 {
                    to.max_val = to.max_val.max(15_000);
                }
                if kind < 3 {
                    to.max_total = to.max_total.min(20_000);
                }
                let t = tiff::build(s, &to);
                let mut base = w.pos() as u64 + 8;
                if kind == 3 {
                    w.put(&chunk(b"eXIf", &t.bytes));
                } else {
                    let name = if kind == 2 { "APP1" } else { "exif" };
                    let key = format!("Raw profile type {name}");
                    let wd = *s.pick(&[36usize, 18, 40]);
                    let ident = kind == 2 && s.flag();
                    let val = raw_profile(if kind == 2 { "app1" } else { "exif" }, &t.bytes, ident, wd);
                    let mut d = key.as_bytes().to_vec();
                    d.push(0);
                    d.extend(val.as_bytes());
                    w.put(&chunk(b"tEXt", &d));
                    text.push((key, val));
                    base = 0;
                }
                if Some(kind) == best {
                    win = Some((t, base));
                }
            }
        }
        w.mark();
    }
    w.put(&chunk(b"IEND", &[]));
    w.mark();
    let end = w.pos() as u64;
    let mut m = Media::new(Fmt::Png, w.b);
    m.marks = w.marks;
    m.meta_end = end;
    m.text = text;
    if let Some((t, base)) = win {
        if base > 0 {
            attach(&mut m, t, base);
        } else {
            m.exif = Some(ExifTruth { ents: super::tiff::first_only(&t.ents), gps: t.gps.clone() });
        }
    }
    m
}

fn heif(s: &mut Src, o: &ImgOpts, fmt: Fmt) -> Media {
    let with_exif = !s.chance(o.no_exif);
    let brand: &[u8; 4] = if fmt == Fmt::Avif {
        *s.pick(&[b"avif", b"avif", b"avis", b"avio"])
    } else if s.us(4) == 3 {
        *s.pick(&[b"hevc", b"heim", b"heis", b"hevm", b"hevs", b"MiHE", b"miaf", b"MiHB"])
    } else {
        *s.pick(&[b"heic", b"heic", b"mif1", b"heix"])
    };
    let mut to = o.tiff.clone();
    if o.big && s.us(4) == 3 {
        to.max_val = to.max_val.max(20_000);
        to.max_gap = 4_000;
    }
    if o.big && s.us(16) == 15 {
        // a large item
        to.max_val = to.max_val.max(60_000);
        to.max_gap = 60_000;
        to.max_total = 400_000;
    }
    let t = tiff::build(s, &to);
    let exif_ident = if fmt == Fmt::Avif { s.us(3) != 2 || !o.odd } else { s.us(6) != 5 || !o.odd };
    let mut exif_item = vec![];
    if o.odd && s.us(12) == 11 {
        // the TIFF header somewhere behind its offset
        let n = s.range(1, 60);
        exif_item.extend((n as u32).to_be_bytes());
        let mut f = s.filler(n);
        if f.starts_with(b"Exif\0\0") || s.flag() {
            f[0] = 1;
        }
        exif_item.extend(f);
    } else if exif_ident {
        exif_item.extend(6u32.to_be_bytes());
        exif_item.extend_from_slice(b"Exif\0\0");
    } else {
        exif_item.extend(0u32.to_be_bytes());
    }
    let tiff_off_in_item = exif_item.len();
    exif_item.extend(&t.bytes);
    // items
    let tiles = o.odd && s.us(40) == 39;
    let n_img = if tiles { s.range(20, 300) } else { s.range(1, 4) };
    let mut kinds: Vec<&[u8; 4]> = vec![];
    for _ in 0..n_img {
        kinds.push(*s.pick(&[b"hvc1", b"av01", b"grid"]));
    }
    if s.us(2) == 1 {
        kinds.push(b"mime");
    }
    if o.odd && s.us(8) == 7 {
        kinds.push(b"uri ");
    }
    if with_exif {
        let k = s.us(kinds.len() + 1);
        kinds.insert(k, b"Exif");
    }
    let bodies: Vec<Vec<u8>> = kinds
        .iter()
        .map(|k| {
            if *k == b"Exif" {
                exif_item.clone()
            } else {
                let n = if tiles { s.us(60) } else { pad_size(s, o.big) };
                s.filler(n)
            }
        })
        .collect();
    let infe_v = if s.us(4) == 3 { 3u8 } else { 2 };
    let iinf_v = s.us(2) as u8;
    let iloc_v = s.us(3) as u8;
    // the item numbers: any, in any order
    let mut ids: Vec<u32> = (1..=kinds.len() as u32).collect();
    if o.odd && s.us(4) == 3 {
        let step = 1 + s.us(5) as u32;
        let first = match (infe_v, iloc_v) {
            (3, 2) => *s.pick(&[1u32, 0xFFFE, 0x1_0000, 0x7FFF_FFFF, 0xFFFF_0000]),
            _ => *s.pick(&[1u32, 40, 0xFF, 0x7FFF, 0xF000]),
        };
        ids = (0..kinds.len() as u32).map(|k| first + k * step).collect();
        if s.flag() {
            ids.reverse();
        }
    }
    let mut loc_order: Vec<usize> = (0..kinds.len()).collect();
    if o.odd && s.us(4) == 3 {
        loc_order.reverse();
    }
    let encoded = o.odd && s.us(4) == 3;
    // derived images in the meta box itself
    let idat = o.odd && iloc_v > 0 && s.us(4) == 3;
    let mut iinf = vec![];
    if iinf_v == 0 {
        iinf.extend((kinds.len() as u16).to_be_bytes());
    } else {
        iinf.extend((kinds.len() as u32).to_be_bytes());
    }
    for (i, k) in kinds.iter().enumerate() {
        let mut b = vec![];
        if infe_v == 3 {
            b.extend(ids[i].to_be_bytes());
        } else {
            b.extend((ids[i] as u16).to_be_bytes());
        }
        b.extend([0, 0]);
        b.extend_from_slice(*k);
        let nm = s.us(3);
        b.extend(s.text(nm, nm).as_bytes());
        b.push(0);
        if *k == b"mime" {
            b.extend_from_slice(b"application/rdf+xml\0");
            if encoded {
                b.extend_from_slice(b"deflate\0");
            }
        }
        if *k == b"uri " {
            b.extend_from_slice(b"urn:example:depth\0");
        }
        iinf.extend(fullbox(b"infe", infe_v, &b));
    }
    let iinf = fullbox(b"iinf", iinf_v, &iinf);
    let mut off_sz: u8 = if s.us(4) == 3 { 8 } else { 4 };
    let len_sz: u8 = if s.us(4) == 3 { 8 } else { 4 };
    let mut base_sz: u8 = *s.pick(&[0u8, 0, 4, 8]);
    if o.hole >= 1 << 31 {
        off_sz = 8;
        base_sz = base_sz / 4 * 4 + base_sz % 8;
    }
    let idx_sz: u8 = if iloc_v > 0 { *s.pick(&[0u8, 0, 4]) } else { 0 };
    let use_base = base_sz > 0 && s.flag();
    // extents of the items other than the Exif one
    let n_ext: Vec<u16> = kinds
        .iter()
        .map(|k| if *k != b"Exif" && o.odd && s.us(12) == 11 { *s.pick(&[2u16, 3, 4, 7, 31, 32]) } else { 1 })
        .collect();
    let mk_iloc = |offs: &[u64]| -> Vec<u8> {
        let mut b = vec![off_sz << 4 | len_sz, base_sz << 4 | idx_sz];
        let put = |b: &mut Vec<u8>, sz: u8, v: u64| match sz {
            4 => b.extend((v as u32).to_be_bytes()),
            8 => b.extend(v.to_be_bytes()),
            _ => {}
        };
        if iloc_v < 2 {
            b.extend((kinds.len() as u16).to_be_bytes());
        } else {
            b.extend((kinds.len() as u32).to_be_bytes());
        }
        for i in loc_order.iter().copied() {
            let body = &bodies[i];
            if iloc_v < 2 {
                b.extend((ids[i] as u16).to_be_bytes());
            } else {
                b.extend(ids[i].to_be_bytes());
            }
            let here = idat && kinds[i] == b"grid";
            if iloc_v >= 1 {
                b.extend([0, here as u8]);
            }
            b.extend([0, 0]);
            if here {
                put(&mut b, base_sz, 0);
                b.extend(1u16.to_be_bytes());
                put(&mut b, idx_sz, 0);
                put(&mut b, off_sz, 0);
                put(&mut b, len_sz, 8);
                continue;
            }
            let base = if use_base { offs[i] / 2 } else { 0 };
            put(&mut b, base_sz, base);
            b.extend(n_ext[i].to_be_bytes());
            let n = n_ext[i] as u64;
            let len = body.len() as u64;
            for k in 0..n {
                put(&mut b, idx_sz, 0);
                put(&mut b, off_sz, offs[i] - base + len * k / n);
                put(&mut b, len_sz, len * (k + 1) / n - len * k / n);
            }
        }
        fullbox(b"iloc", iloc_v, &b)
    };
    let mut ftyp = brand.to_vec();
    ftyp.extend([0, 0, 0, 0]);
    if o.odd && s.us(12) == 11 {
        // known by a compatible brand only
        ftyp[..4].copy_from_slice(*s.pick::<&[u8; 4]>(&[b"msf1", b"1pic", b"MA1B", b"jpeg"]));
        for _ in 0..s.us(12) {
            ftyp.extend_from_slice(*s.pick::<&[u8; 4]>(&[b"MA1B", b"tmap", b"pred", b"unif"]));
        }
    }
    ftyp.extend_from_slice(b"mif1");
    ftyp.extend_from_slice(if fmt == Fmt::Avif { b"avif" } else { b"heic" });
    let ftyp = bx(b"ftyp", &ftyp);
    let iprp_n = pad_size(s, false);
    let iprp = bx(b"iprp", &bx(b"ipco", &s.filler(iprp_n)));
    let order = s.us(3);
    let mut more = vec![];
    if idat {
        more.push(bx(b"idat", &[0, 0, 1, 1, 0, 32, 0, 32]));
    }
    if o.odd && s.us(4) == 3 {
        let n = s.us(400);
        let d = s.filler(n);
        more.push(match s.us(4) {
            0 => fullbox(b"iref", 0, &bx(b"cdsc", &[0, 2, 0, 1, 0, 1])),
            1 => bx(b"dinf", &fullbox(b"dref", 0, &[&[0, 0, 0, 1][..], &fullbox(b"url ", 0, &[])].concat())),
            2 => bx(b"grpl", &d),
            _ => bx(b"free", &d),
        });
    }
    let more_first = s.flag();
    let mk_meta = |offs: &[u64]| -> Vec<u8> {
        let hdlr = fullbox(b"hdlr", 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
        let pitm = fullbox(b"pitm", 0, &[0, 1]);
        let iloc = mk_iloc(offs);
        let mut b = vec![0, 0, 0, 0];
        if more_first {
            b.extend(more.concat());
        }
        match order {
            0 => {
                for x in [&hdlr, &pitm, &iloc, &iinf, &iprp] {
                    b.extend_from_slice(x);
                }
            }
            1 => {
                for x in [&hdlr, &iprp, &iinf, &pitm, &iloc] {
                    b.extend_from_slice(x);
                }
            }
            _ => {
                for x in [&iinf, &iloc, &hdlr, &pitm, &iprp] {
                    b.extend_from_slice(x);
                }
            }
        }
        if !more_first {
            b.extend(more.concat());
        }
        bx(b"meta", &b)
    };
    let meta_len = mk_meta(&vec![0; kinds.len()]).len();
    let mut frees = vec![];
    for _ in 0..s.us(3) {
        let n = pad_size(s, o.big);
        frees.push(bx(*s.pick(&[b"free", b"skip", b"uuid"]), &{
            let mut f = s.filler(n);
            f.resize(n.max(16), 1);
            f
        }));
    }
    let payload_first = o.payload_first && s.us(4) == 3;
    let large_mdat = s.us(4) == 3 || o.hole >= 1 << 31;
    // layout
    let mut pos = ftyp.len() as u64;
    let mut seq: Vec<u8> = vec![]; // 0 free,1 meta,2 mdat
    let mut fi = 0;
    let mut place = vec![];
    for (k, _) in frees.iter().enumerate() {
        place.push(s.us(3));
        let _ = k;
    }
    for slot in 0..3 {
        for p in &place {
            if *p == slot {
                seq.push(0);
            }
        }
        if slot == 0 {
            seq.push(if payload_first { 2 } else { 1 });
        }
        if slot == 1 {
            seq.push(if payload_first { 1 } else { 2 });
        }
    }
    let hdr = if large_mdat { 16 } else { 8 };
    let body_total: usize = bodies.iter().map(|b| b.len()).sum();
    let mut offs = vec![0u64; bodies.len()];
    let mut body_order: Vec<usize> = (0..bodies.len()).collect();
    for i in (1..body_order.len()).rev() {
        let j = s.us(i + 1);
        body_order.swap(i, j);
    }
    // the hole goes somewhere ahead of the Exif item
    let hole_at = if o.hole > 0 {
        let e = body_order.iter().position(|&i| kinds[i] == b"Exif").unwrap_or(0);
        s.us(e + 1)
    } else {
        0
    };
    for q in &seq {
        match q {
            0 => {
                pos += frees[fi].len() as u64;
                fi += 1;
            }
            1 => pos += meta_len as u64,
            _ => {
                let mut p = pos + hdr;
                for (k, &i) in body_order.iter().enumerate() {
                    if k == hole_at {
                        p += o.hole;
                    }
                    offs[i] = p;
                    p += bodies[i].len() as u64;
                }
                pos += hdr + body_total as u64 + o.hole;
            }
        }
    }
    let mut w = W::default();
    w.put(&ftyp);
    w.mark();
    let mut fi = 0;
    let mut meta_end = 0;
    let mut split = 0;
    for q in &seq {
        match q {
            0 => {
                w.put(&frees[fi]);
                fi += 1;
            }
            1 => {
                w.put(&mk_meta(&offs));
                meta_end = w.pos() as u64;
            }
            _ => {
                let b: Vec<u8> = body_order.iter().flat_map(|&i| bodies[i].clone()).collect();
                if o.hole > 0 {
                    let n = b.len() as u64 + o.hole + hdr;
                    if large_mdat {
                        w.u32(1).put(b"mdat").u64(n);
                    } else {
                        w.u32(n as u32).put(b"mdat");
                    }
                    split = w.pos() + body_order[..hole_at].iter().map(|&i| bodies[i].len()).sum::<usize>();
                    w.put(&b);
                } else if large_mdat {
                    w.bx64(b"mdat", &b);
                } else {
                    w.bx(b"mdat", &b);
                }
            }
        }
        w.mark();
    }
    if w.pos() < 140 {
        w.bx(b"free", &[0; 140]);
    }
    let mut m = Media::new(fmt, vec![]);
    m.marks = w.marks;
    m.meta_end = meta_end;
    if o.hole > 0 {
        let tail = w.b.split_off(split);
        m.marks.iter_mut().filter(|x| **x > split as u64).for_each(|x| *x += o.hole);
        if meta_end > split as u64 {
            m.meta_end += o.hole;
        }
        m.blob = super::hole::sparse(w.b, o.hole, tail);
    } else {
        m.blob = Blob::flat(w.b);
    }
    let meta_end = m.meta_end;
    if with_exif {
        let i = kinds.iter().position(|k| *k == b"Exif").unwrap();
        m.marks.push(offs[i]);
        m.meta_end = meta_end.max(offs[i] + bodies[i].len() as u64);
        m.marks.push(offs[i] + bodies[i].len() as u64);
        attach(&mut m, t, offs[i] + tiff_off_in_item as u64);
    }
    m.name = format!("{fmt:?}({}{})", if payload_first { "mdat-first " } else { "" }, if exif_ident { "" } else { "bare" });
    m
}

fn raf(s: &mut Src, o: &ImgOpts) -> Media {
    let mut jo = o.clone();
    jo.no_exif = o.no_exif / 4;
    let (jpg, marks, t, meta_end) = jpeg_parts(s, &jo, &[]);
    let mut w = W::default();
    w.put(b"FUJIFILMCCD-RAW ");
    w.put(b"0201");
    w.put(b"FF383501");
    let mut cam = s.text(1, 20).into_bytes();
    let fill = if s.us(6) == 5 { *s.pick(&[b'X', 0xff]) } else { 0 };
    cam.truncate(32);
    cam.resize(32, fill);
    w.put(&cam);
    w.put(b"0100");
    w.put(&[0; 20]);
    let gap = pad_size(s, o.big);
    let off = 88 + 64 + gap + o.hole as usize;
    w.u32(off as u32);
    w.u32(jpg.len() as u32);
    let fill = s.filler(off - o.hole as usize - w.pos());
    w.put(&fill);
    w.b.resize(off, 0);
    w.mark();
    w.put(&jpg);
    w.mark();
    let n = pad_size(s, o.big);
    let f = s.filler(n);
    w.put(&f);
    let mut m = Media::new(Fmt::Raf, w.b);
    m.marks = marks.iter().map(|x| x + off as u64).collect();
    m.marks.push(off as u64);
    m.meta_end = meta_end + off as u64;
    if let Some((t, b)) = t {
        attach(&mut m, t, b + off as u64);
    }
    m
}

fn cr3(s: &mut Src, o: &ImgOpts) -> Media {
    const CANON: [u8; 16] = [0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
    let mut t1o = o.tiff.clone();
    t1o.exif = false;
    t1o.gps = false;
    t1o.next = 0;
    t1o.no_tz = true;
    let mut t2o = t1o.clone();
    t2o.cmt2 = true;
    if o.big && s.us(4) == 3 {
        t2o.max_val = 20_000;
        t2o.max_gap = 9_000;
        t1o.max_gap = 2_000;
    }
    if o.odd && s.us(8) == 7 {
        // directories of their own in both blocks
        t1o.gps = true;
        t1o.exif = true;
        t1o.no_tz = o.tiff.no_tz;
        t2o = TiffOpts { salt: 0x40, ..t1o.clone() };
    }
    let t1 = tiff::build(s, &t1o);
    let has2 = s.us(5) != 4;
    let t2 = tiff::build(s, &t2o);
    let t3 = tiff::build(s, &TiffOpts { salt: 0x80, ..t1o.clone() });
    let mut uuid: Vec<u8> = CANON.to_vec();
    uuid.extend(bx(b"CNCV", b"CanonCR3_001/00.09.00/00.00.00"));
    if s.flag() {
        let n = pad_size(s, false);
        uuid.extend(bx(b"free", &s.filler(n)));
    }
    let at1 = uuid.len() + hdr(b"CMT1");
    uuid.extend(bx(b"CMT1", &t1.bytes));
    let at2 = uuid.len() + hdr(b"CMT2");
    if has2 {
        uuid.extend(bx(b"CMT2", &t2.bytes));
    }
    if s.us(2) == 1 {
        uuid.extend(bx(b"CMT3", &t3.bytes));
    }
    if s.us(2) == 1 {
        let n = pad_size(s, o.big);
        uuid.extend(bx(b"THMB", &s.filler(n)));
    }
    let mut moov = vec![];
    if s.us(3) == 2 {
        let n = 16 + pad_size(s, false);
        let mut f = s.filler(n);
        f[0] = 1;
        moov.extend(bx(b"uuid", &f));
    }
    let uuid_at = moov.len() + hdr(b"uuid");
    moov.extend(bx(b"uuid", &uuid));
    moov.extend(fullbox(b"mvhd", 0, &[0; 96]));
    let mut w = W::default();
    w.bx(b"ftyp", b"crx \0\0\0\x01crx isom");
    for _ in 0..s.us(3) {
        let n = pad_size(s, o.big);
        w.bx(*s.pick(&[b"free", b"skip"]), &s.filler(n));
    }
    let moov_body = w.pos() + hdr(b"moov");
    w.bx(b"moov", &moov);
    let meta_end = w.pos() as u64;
    let n = pad_size(s, o.big);
    w.bx(b"mdat", &s.filler(n + 64));
    let mut m = Media::new(Fmt::Cr3, w.b);
    m.marks = w.marks;
    m.meta_end = meta_end;
    let b1 = (moov_body + uuid_at + at1) as u64;
    let b2 = (moov_body + uuid_at + at2) as u64;
    m.marks.push(b1);
    attach(&mut m, t1, b1);
    if has2 {
        m.marks.push(b2);
        m.marks.extend(t2.marks.iter().map(|x| b2 + *x as u64));
        let x = m.exif.as_mut().unwrap();
        x.ents.extend(t2.ents.iter().cloned());
        x.ents = super::tiff::first_only(&x.ents);
        if m.tiffs[0].0.dirs.iter().all(|d| d.0 != tiff::Dir::Gps) {
            x.gps = t2.gps.clone();
        }
        m.tiffs.push((t2, b2));
    }
    m
}
