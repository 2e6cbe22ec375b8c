//! EXIF iterators are independent, rewindable and agree with the eager view.
use super::*;
use crate::io::*;
use crate::obs::*;
use nom_exif::*;
use std::result::Result;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    rule: "a history of next/clone/rewind/GPS/eager-conversion operations over a family of iterators of one image (well-formed or damaged), sometimes spread over threads taking turns, checked against a cursor model of the first full read; non-trivial = the image has at least two entries; distinct by (format, entries, operation sequence)",
    quick: (300_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif ExifIter, Exif, IFD parsing"],
    stubs: &["reader (simulated storage)"],
    assumptions: &["threads take turns at operation granularity (iterators are moved, not shared)"],
};

fn run(c: &mut Ctx) -> Check {
    let f = *c.src.pick(&[Fmt::Jpeg, Fmt::Tiff, Fmt::Cr3, Fmt::Cr3, Fmt::Heic, Fmt::Png]);
    let mut io = ImgOpts { no_exif: 0, big: false, ..Default::default() };
    io.tiff.next = 2;
    let mut m = gen::image::gen(&mut c.src, f, &io);
    if c.src.us(3) == 2 {
        let (b, what) = gen::damage::damage(&mut c.src, &m);
        m.name = format!("{} damaged {what}", m.name);
        m.blob = Blob::flat(b);
    }
    let mode = *c.src.pick(&MODES);
    let mut p = MediaParser::new();
    let (r, _) = parse_sync(&mut p, Op::Exif, mode, Core::new(m.blob.clone(), Plan::default()));
    let it = match r {
        Ok(Out::Exif(it)) => it,
        Err(Fail::Panic(p)) => return viol(format!("panic:{p}"), format!("{}: {p}", m.name)),
        _ => return Ok(()),
    };
    // Model: the sequence of the untouched original, read through a first clone taken before anything
    // else happens; GPS and eager form from further clones.
    let (seq, runaway) = drain(it.clone(), MAX_ENTRIES);
    if runaway {
        return viol("runaway", format!("{}: iteration does not end", m.name));
    }
    let gps = match it.parse_gps() {
        Ok(None) => "none".to_string(),
        Ok(Some(g)) => gps_text(&g),
        Err(e) => format!("err:{e:?}"),
    };
    let flag = it.has_embedded_track();
    let eager = eager_of(&ExifObs { entries: seq.clone(), runaway: false, gps: gps.clone(), embedded: flag });
    c.nontrivial = seq.len() >= 2;
    c.sig(&format!("{:?} {mode:?} {}", m.fmt, seq.len()));
    c.note(format!("{} {mode:?}: {} entries, gps {gps}", m.name, seq.len()));
    // (iterator, cursor)
    let mut fam: Vec<(ExifIter, usize)> = vec![(it, 0)];
    let ops = c.src.range(4, 40);
    for k in 0..ops {
        let j = c.src.us(fam.len());
        let op = c.src.us(10);
        c.sign(op as u64 * 16 + j as u64);
        let thread = c.src.us(12) == 11;
        match op {
            0..=3 => {
                let n = if op == 3 { seq.len() + 2 } else { 1 + c.src.us(4) };
                let (it, cur) = &mut fam[j];
                let got: Vec<Option<Ent>> = if thread {
                    std::thread::scope(|s| s.spawn(|| (0..n).map(|_| it.next().map(|e| Ent::of(&e))).collect()).join().unwrap())
                } else {
                    (0..n).map(|_| it.next().map(|e| Ent::of(&e))).collect()
                };
                for g in got {
                    let want = seq.get(*cur).cloned();
                    if g != want {
                        return viol("next", format!("{} op {k}: entry {cur} of iterator {j}: {:?} expected {:?}", m.name, g.map(|e| e.show()), want.map(|e| e.show())));
                    }
                    if want.is_some() {
                        *cur += 1;
                    }
                }
            }
            4 => {
                let x = fam[j].0.clone();
                if fam.len() < 6 {
                    fam.push((x, 0));
                }
            }
            5 => {
                let x = fam[j].0.clone_rewound();
                if fam.len() < 6 {
                    fam.push((x, 0));
                }
            }
            6 => {
                fam[j].0.rewind();
                fam[j].1 = 0;
            }
            7 => {
                let g = match fam[j].0.parse_gps() {
                    Ok(None) => "none".to_string(),
                    Ok(Some(g)) => gps_text(&g),
                    Err(e) => format!("err:{e:?}"),
                };
                if g != gps {
                    return viol("gps", format!("{} op {k}: GPS of iterator {j} at {}: {g}, before {gps}", m.name, fam[j].1));
                }
            }
            8 => {
                let mut x = fam[j].0.clone();
                let n = c.src.us(6);
                for _ in 0..n {
                    x.next();
                }
                x.rewind();
                let e = observe_eager(&Exif::from(x));
                check_eager(&m, &eager, &e)?;
                if fam[j].0.has_embedded_track() != flag {
                    return viol("flag", format!("{}: the embedded-track flag changed", m.name));
                }
            }
            _ => {
                // an eager form of an iterator that was never touched by `next` after a clone
                let e = Exif::from(fam[j].0.clone());
                // point queries agree with the listing
                for en in eager.entries.iter().take(20) {
                    let v = e.get_by_code(IfdIndex::new(en.ifd), en.code).map(canon);
                    if v.as_ref() != en.val.as_ref().ok() {
                        return viol("get", format!("{}: get_by_code({}, {:04x}) = {v:?}, iterator says {}", m.name, en.ifd, en.code, en.show()));
                    }
                    if let Some(name) = crate::tags::name(en.code) {
                        let Ok(tag) = name.parse::<ExifTag>() else {
                            return viol("name", format!("the tag name {name} is not understood"));
                        };
                        let a = e.get_in(IfdIndex::new(en.ifd), tag).map(canon);
                        if a.as_ref() != en.val.as_ref().ok() {
                            return viol("get", format!("{}: get_in({}, {tag:?}) = {a:?}, iterator says {}", m.name, en.ifd, en.show()));
                        }
                        if en.ifd == 0 && e.get(tag).map(canon).as_ref() != en.val.as_ref().ok() {
                            return viol("get", format!("{}: get({tag:?}) disagrees with {}", m.name, en.show()));
                        }
                    }
                }
                check_eager(&m, &eager, &observe_eager(&e))?;
                if fam.len() > 2 && c.src.flag() {
                    fam.swap_remove(j);
                }
            }
        }
    }
    Ok(())
}

fn check_eager(m: &Media, want: &EagerObs, got: &EagerObs) -> Result<(), Viol> {
    if want.entries != got.entries {
        return viol("eager", format!("{}: eager view: {}", m.name, first_diff(&want.entries, &got.entries)));
    }
    if want.gps != got.gps || want.embedded != got.embedded {
        return viol("eager-gps", format!("{}: eager gps {} flag {} vs {} {}", m.name, got.gps, got.embedded, want.gps, want.embedded));
    }
    if want.errors != got.errors {
        return viol("eager-errors", format!("{}: eager errors {:?} vs {:?}", m.name, got.errors, want.errors));
    }
    Ok(())
}
