#![allow(deprecated)]
//! Damaged media never crash, hang or overrun (C10); memory is bounded by what was
//! delivered (C11).
use super::*;
use crate::exec::ExecCfg;
use crate::io::*;
use crate::obs::*;
use bytes::Bytes;
use nom_exif::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    rule: "damaged, hostile, spliced and random media delivered under a seeded chunking and fault plan to every entry point, with every part of the result read (iterated, converted, formatted, serialised); non-trivial = a source could be constructed; distinct by (kind of damage, format, operation, mode, outcome, reads)",
    quick: (120_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers, value formatting"],
    stubs: &["readers (simulated storage)", "executor and clock"],
    assumptions: &["built with overflow checks and debug assertions on, so arithmetic overflow counts as a panic"],
};
pub const C11: Prop = Prop {
    id: "C11",
    run: run11,
    rule: "damaged and hostile media that declare sizes and counts far beyond the data, delivered under a seeded plan to a parser whose allocator is accounted; peak memory compared with the bytes delivered; non-trivial = a source could be constructed; distinct by (kind of damage, format, operation, mode, outcome)",
    quick: (250_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "accounting allocator", "executor and clock"],
    assumptions: &["bound: 6 x bytes delivered + 160 KiB (highest seen on the unchanged tree: 4.4 x + 40 KiB); any single request above 3 GiB in total aborts the run"],
};

pub fn bad_media(s: &mut Src) -> Media {
    match s.us(10) {
        0..=5 => {
            let mut m = super::c17::media_or_motion(s, 60);
            let (b, what) = gen::damage::damage(s, &m);
            m.name = format!("{} damaged {what}", m.name);
            m.blob = Blob::flat(b);
            m
        }
        6 => {
            // splice two files
            let mut m = any_media_or_motion(s, &ImgOpts::default(), &TrackOpts::default());
            let n = any_media(s, &ImgOpts { big: false, ..Default::default() }, &TrackOpts { big: false, ..Default::default() });
            let mut a = m.bytes();
            let b = n.bytes();
            let i = if s.flag() || m.marks.is_empty() { s.us(a.len()) } else { *s.pick(&m.marks) as usize };
            let j = if s.flag() || n.marks.is_empty() { s.us(b.len()) } else { *s.pick(&n.marks) as usize };
            a.truncate(i.min(a.len()));
            a.extend_from_slice(&b[j.min(b.len())..]);
            m.name = format!("{}@{i}+{}@{j}", m.name, n.name);
            m.blob = Blob::flat(a);
            m
        }
        _ => {
            let (b, what) = gen::damage::hostile(s);
            let mut m = Media::new(Fmt::Jpeg, b);
            m.name = format!("hostile {what}");
            m
        }
    }
}

/// Read everything a result offers.
fn exercise(o: &Out) -> usize {
    let mut n = 0;
    let use_iter = |it: &ExifIter, n: &mut usize| {
        let mut k = 0usize;
        for e in it.clone() {
            k += 1;
            if k > MAX_ENTRIES {
                panic!("more than {MAX_ENTRIES} entries");
            }
            if k < 3000 {
                let t = format!("{e:?} {} {:?} {}", e.ifd(), e.tag(), e.tag());
                *n += t.len();
                if let Some(v) = e.value() {
                    *n += format!("{v} {v:?}").len();
                    *n += serde_json::to_string(v).map(|s| s.len()).unwrap_or(0);
                }
                if let Some(er) = e.error() {
                    *n += format!("{er} {er:?}").len();
                }
            }
        }
        let g = it.parse_gps();
        *n += format!("{g:?}").len();
        if let Ok(Some(g)) = g {
            *n += g.to_iso6709().len();
            *n += format!("{:?} {:?}", g.latitude_decimal(), g.longitude_decimal()).len();
        }
        let e = Exif::from(it.clone());
        *n += e.iter().count() + e.errors().len();
        *n += format!("{it:?}").len();
    };
    match o {
        Out::Exif(i) => use_iter(i, &mut n),
        Out::Image(m) => {
            if let Some(i) = &m.exif {
                use_iter(i, &mut n);
            }
            n += format!("{:?}", m.format).len();
        }
        Out::Track(t) => {
            for (k, v) in t.iter() {
                n += format!("{k} {v}").len();
            }
            n += format!("{t:?}").len();
            if let Some(g) = t.gps_info() {
                n += g.to_iso6709().len();
            }
        }
    }
    n
}

struct Done {
    raw: Raw,
    kind: bool,
}

fn drive(c: &mut Ctx, m: &Media, faults: bool) -> (Done, String, LogRef) {
    let op = *c.src.pick(&OPS);
    let op = if c.src.us(3) == 0 { op } else { any_op(&mut c.src, m) };
    let mode = *c.src.pick(&MODES);
    let asyn = c.src.us(4) == 3;
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), !asyn);
    let mut blob = m.blob.clone();
    let mut fault = "none";
    if faults && mode != Mode::Memory && c.src.us(4) == 3 && m.len() > 0 {
        fault = super::c05::disturb(&mut c.src, m, &mut plan, &mut blob);
        if fault == "panic" {
            plan.panic = None;
            fault = "none";
        }
    }
    plan.max_steps = 20_000 + 12 * m.len();
    c.sig(&format!("{} {op:?} {mode:?} {asyn} {fault}", m.name.split(' ').take(3).collect::<Vec<_>>().join(" ").split('@').next().unwrap_or("")));
    let what = format!("{} {} bytes {op:?} {mode:?}{} {:?} fault {fault}", m.name, m.len(), if asyn { " async" } else { "" }, plan.chunk);
    let mut p = MediaParser::new();
    let core;
    let log;
    let d;
    if asyn {
        draw_async(&mut c.src, &mut plan);
        core = Core::new(blob, plan);
        log = core.log.clone();
        let (r, st, _) = async_once(&mut p, op, mode, core, &ExecCfg::default(), None);
        c.virt += st.virt;
        let r = r.unwrap();
        d = Done { kind: !matches!(r, Err(Fail::Unsupported)), raw: r };
    } else {
        core = Core::new(blob, plan);
        log = core.log.clone();
        let (r, k) = parse_sync(&mut p, op, mode, core);
        d = Done { raw: r, kind: k.is_some() };
    }
    (d, what, log)
}

fn run(c: &mut Ctx) -> Check {
    let m = bad_media(&mut c.src);
    let talk = c.src.us(8) == 7;
    let _l = crate::talk::loud(talk);
    c.count_if("logging", talk);
    let (d, what, log) = drive(c, &m, true);
    c.log(&log);
    c.nontrivial = d.kind;
    let got = match &d.raw {
        Ok(_) => "ok".to_string(),
        Err(e) => e.class(),
    };
    c.note(format!("{what} -> {got}"));
    c.see(&got);
    c.sig(&got);
    c.sign(log.lock().unwrap().reads.min(20));
    c.count(&format!("outcome.{}", got.split(':').next().unwrap_or("")));
    match &d.raw {
        Err(Fail::Panic(p)) if p == BUDGET_MSG => return viol("overrun", format!("{what}: more than {} reader calls", 20_000 + 12 * m.len())),
        Err(Fail::Panic(p)) => return viol(format!("panic:{}", stable(p)), format!("{what}: {p} at {}", last_panic())),
        Err(Fail::Stuck) => return viol("stuck", format!("{what}: never completes")),
        Err(_) => {}
        Ok(o) => match catch_unwind(AssertUnwindSafe(|| exercise(o))) {
            Ok(n) => c.sign(n as u64),
            Err(p) => {
                let p = crate::exec::panic_text(p);
                return viol(format!("panic-reading:{}", stable(&p)), format!("{what}: reading the result: {p} at {}", last_panic()));
            }
        },
    }
    // one-call helpers on the same bytes
    if c.src.us(6) == 5 {
        let b = Bytes::from(m.bytes());
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _ = read_metadata_from_bytes(b.clone());
            let _ = read_exif_from_bytes(b.clone());
            let _ = read_track_from_bytes(b.clone());
            let mut p = MediaParser::new();
            if let Ok(ms) = MediaSource::from_memory(b) {
                std::hint::black_box(format!("{ms:?} {:?}", ms.kind()));
                let _ = p.parse_image_metadata(ms);
            }
            std::hint::black_box(format!("{p:?}"));
        }));
        if let Err(p) = r {
            let p = crate::exec::panic_text(p);
            return viol(format!("panic:{}", stable(&p)), format!("{} from bytes: {p} at {}", m.name, last_panic()));
        }
    }
    Ok(())
}

/// Panic messages carry numbers; keys should not.
fn stable(p: &str) -> String {
    let mut s: String = p.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    while s.contains("##") {
        s = s.replace("##", "#");
    }
    s.truncate(s.char_indices().nth(90).map(|x| x.0).unwrap_or(s.len()));
    s
}

fn run11(c: &mut Ctx) -> Check {
    let m = bad_media(&mut c.src);
    let mem = m.bytes();
    drop(mem);
    let mk = crate::alloc::mark();
    let (d, what, log) = drive(c, &m, true);
    let peak = mk.peak();
    let l = log.lock().unwrap().clone();
    c.log(&log);
    let delivered = if what.contains(" Memory") { 2 * m.len() } else { l.read_bytes } as usize;
    c.nontrivial = d.kind;
    let got = match &d.raw {
        Ok(_) => "ok".to_string(),
        Err(e) => e.class(),
    };
    c.sig(&got);
    c.note(format!("{what} -> {got}: peak {peak} delivered {delivered}"));
    c.see(&got);
    let e = c.n.entry("max_ratio_permille".into()).or_default();
    *e = (*e).max(((peak.saturating_sub(64 << 10)) * 1000 / delivered.max(1000)) as u64);
    if let Err(Fail::Panic(p)) = &d.raw {
        if p != BUDGET_MSG {
            return viol(format!("panic:{}", stable(p)), format!("{what}: {p} at {}", last_panic()));
        }
    }
    if peak > bound(delivered) {
        return viol("memory", format!("{what}: peak {peak} bytes allocated for {delivered} delivered, largest single request {}", mk.biggest()));
    }
    // reading the result
    if let Ok(o) = &d.raw {
        let mk = crate::alloc::mark();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if let Some(it) = o.iter() {
                let mut n = 0usize;
                for e in it.clone() {
                    std::hint::black_box(e.value());
                    n += 1;
                    if n > MAX_ENTRIES {
                        break;
                    }
                }
            }
        }));
        if r.is_ok() && mk.peak() > 16 * delivered + (256 << 10) {
            return viol("memory-reading", format!("{what}: reading the result peaks at {} bytes for {delivered} delivered", mk.peak()));
        }
    }
    Ok(())
}
fn bound(delivered: usize) -> usize {
    6 * delivered + (160 << 10)
}
