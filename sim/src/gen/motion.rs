//! JPEG files with (and without) the documented Motion Photo signals.
use super::image::{self, ImgOpts};
use super::track::{self, TrackOpts};
use super::*;
use crate::src::Src;

pub struct Motion {
    pub m: Media,
    /// the embedded video, when one is stored
    pub trailer: Option<Media>,
    /// a documented signal is present
    pub signal: bool,
    /// the signal gives the length of the trailer that is there
    pub exact: bool,
    pub style: String,
}

struct Item {
    mime: &'static str,
    sem: &'static str,
    len: u64,
    pad: Option<u64>,
}
fn directory(s: &mut Src, items: &[Item]) -> String {
    let sep = *s.pick(&[" ", "\n            ", "\n\t"]);
    let wrap = s.flag();
    let mut o = String::from("<Container:Directory><rdf:Seq>");
    for i in items {
        let mut at = vec![format!("Item:Mime=\"{}\"", i.mime), format!("Item:Semantic=\"{}\"", i.sem), format!("Item:Length=\"{}\"", i.len)];
        if let Some(p) = i.pad {
            at.push(format!("Item:Padding=\"{p}\""));
        }
        let r = s.us(at.len());
        at.rotate_left(r);
        if wrap {
            o.push_str("<rdf:li rdf:parseType=\"Resource\">");
        }
        o.push_str(&format!("<Container:Item{sep}{}{}", at.join(sep), if s.flag() { "/>" } else { "></Container:Item>" }));
        if wrap {
            o.push_str("</rdf:li>");
        }
    }
    o.push_str("</rdf:Seq></Container:Directory>");
    o
}

pub fn gen(s: &mut Src, no_exif: u64, big: bool, want_signal: Option<bool>) -> Motion {
    let signal = want_signal.unwrap_or_else(|| s.us(3) != 2);
    let video = {
        let f = *s.pick(&[Fmt::Mp4, Fmt::Mp4, Fmt::Mov, Fmt::ThreeGp]);
        let big = big && s.us(4) == 3;
        track::gen(s, f, &TrackOpts { big, ..TrackOpts::default() })
    };
    let vb = video.bytes();
    let vlen = vb.len() as u64;
    // what follows the main image
    let mut tail: Vec<u8> = vec![];
    let mut after: Vec<u8> = vec![];
    let mut head = String::new();
    let mut body = String::new();
    let mut style;
    let gate = if signal { "1" } else { "0" };
    let gate_name = if s.us(3) == 2 { "MicroVideo" } else { "MotionPhoto" };
    if s.flag() {
        head.push_str("GCamera:MotionPhotoVersion=\"1\" ");
    }
    let ts = s.us(2_000_000);
    let mut gates = format!("GCamera:{gate_name}=\"{gate}\" GCamera:{gate_name}PresentationTimestampUs=\"{ts}\" ");
    let mut exact = true;
    let kind = s.us(4);
    match kind {
        0 | 1 => {
            style = "container".to_string();
            let mut items = vec![Item { mime: "image/jpeg", sem: "Primary", len: 0, pad: *s.pick(&[None, Some(0)]) }];
            if s.us(3) == 2 {
                for _ in 0..if s.us(8) == 7 { s.range(2, 12) } else { 1 } {
                    let n = s.range(1, 400);
                    tail.extend(s.filler(n));
                    items.push(Item { mime: "image/jpeg", sem: "GainMap", len: n as u64, pad: None });
                }
                style.push_str("+gainmap");
            }
            let (mime, sem) = *s.pick(&[("video/mp4", "MotionPhoto"), ("video/quicktime", "MotionPhoto"), ("video/mp4", "Video")]);
            let mut mp = Item { mime, sem, len: vlen, pad: *s.pick(&[None, Some(0), Some(80)]) };
            if s.us(3) == 2 {
                // another item after the video: the padding in between is in the file
                let p = s.us(100);
                mp.pad = if p == 0 { None } else { Some(p as u64) };
                after.extend(vec![0u8; p]);
                items.push(mp);
                let more = if s.us(8) == 7 { s.range(2, 12) } else { 1 };
                for k in 0..more {
                    let n = s.range(1, 300);
                    after.extend(s.filler(n));
                    // the padding of the last one need not be there
                    let pad = if k + 1 == more { *s.pick(&[None, Some(33)]) } else { None };
                    items.push(Item { mime: "image/jpeg", sem: "Depth", len: n as u64, pad });
                }
                style.push_str("+item-after");
            } else {
                items.push(mp);
            }
            body = directory(s, &items);
            if s.us(4) == 3 {
                // the older attribute is there too; the directory rules
                head.push_str(&format!("GCamera:MotionPhotoOffset=\"{}\" ", vlen + 7));
                style.push_str("+stale-offset");
            }
        }
        2 => {
            style = "MotionPhotoOffset".to_string();
            head.push_str(&format!("GCamera:MotionPhotoOffset=\"{vlen}\" "));
            if s.us(3) == 2 {
                let n = s.range(1, 200);
                tail.extend(s.filler(n));
                body = directory(s, &[Item { mime: "image/jpeg", sem: "Primary", len: 0, pad: None }, Item { mime: "image/jpeg", sem: "GainMap", len: n as u64, pad: None }]);
                style.push_str("+ultrahdr");
            }
        }
        _ => {
            style = "MicroVideoOffset".to_string();
            head.push_str(&format!("GCamera:MicroVideoVersion=\"1\" GCamera:MicroVideoOffset=\"{vlen}\" "));
        }
    }
    let mut has_video = true;
    let mut place = 0; // where the packet goes: 0 = APP1 XMP
    if !signal {
        match s.us(7) {
            0 => {
                gates.clear();
                style.push_str(" no-gate");
            }
            1 => style.push_str(" gate-0"),
            2 => {
                // gate without any length
                gates = format!("GCamera:{gate_name}=\"1\" ");
                head = "GCamera:MotionPhotoVersion=\"1\" ".into();
                body = if s.flag() {
                    tail.clear();
                    directory(s, &[Item { mime: "image/jpeg", sem: "Primary", len: 0, pad: None }])
                } else {
                    String::new()
                };
                style = "gate-no-length".into();
            }
            3 => {
                // the whole signal, but in a segment that is not XMP
                gates = format!("GCamera:{gate_name}=\"1\" ");
                place = 1;
                style.push_str(" not-xmp");
            }
            4 => {
                gates = format!("GCamera:{gate_name}=\"1\" ");
                place = 2;
                style.push_str(" after-sos");
            }
            5 => {
                has_video = s.flag();
                place = 3;
                style = "no-xmp".into();
            }
            _ => {
                gates = format!("GCamera:{gate_name}=\"1\" ");
                head = "GCamera:MotionPhotoOffset=\"\" ".into();
                body = String::new();
                style = "empty-length".into();
            }
        }
    }
    let attrs = if s.flag() { format!("{gates}{head}") } else { format!("{head}{gates}") };
    let ns = "xmlns:GCamera=\"http://ns.google.com/photos/1.0/camera/\" xmlns:Container=\"http://ns.google.com/photos/1.0/container/\" xmlns:Item=\"http://ns.google.com/photos/1.0/container/item/\" ";
    let mut pkt = image::xmp_packet(&format!("{ns}{attrs}>{body}"));
    if s.us(3) == 2 {
        let n = s.us(30_000);
        pkt.extend(std::iter::repeat_n(b' ', n));
    }
    let mut xmp = vec![];
    if s.us(4) == 3 {
        xmp.push(image::xmp_packet("xmlns:dc=\"http://purl.org/dc/elements/1.1/\" dc:format=\"image/jpeg\">"));
    }
    match place {
        0 => xmp.push(pkt.clone()),
        1 => {
            let mut p = b"http://ns.adobe.com/xmp/extension/\0".to_vec();
            p.extend(&pkt[29..]);
            xmp.push(p);
        }
        _ => {}
    }
    let o = ImgOpts { no_exif, big, text: false, ..ImgOpts::default() };
    let (mut b, mut marks, t, meta_end) = image::jpeg_parts(s, &o, &xmp);
    if place == 2 {
        // inside the scan data, before EOI
        let at = b.len() - 2;
        let sg = image::seg(0xE1, &pkt);
        b.splice(at..at, sg);
    }
    b.extend(&tail);
    marks.push(b.len() as u64);
    if has_video {
        let base = b.len() as u64;
        marks.extend(video.marks.iter().map(|x| x + base));
        b.extend(&vb);
        b.extend(&after);
    } else {
        exact = false;
    }
    if b.len() < 140 {
        b.extend(vec![0u8; 140]);
        exact = false;
    }
    let mut m = Media::new(Fmt::Jpeg, b);
    m.name = format!("Jpeg/motion[{style}]");
    m.marks = marks;
    m.meta_end = meta_end;
    if let Some((t, base)) = t {
        image::attach(&mut m, t, base);
    }
    m.embedded = signal;
    m.marks.sort_unstable();
    m.marks.dedup();
    Motion { m, trailer: has_video.then_some(video), signal, exact, style }
}
