//! The command-line tool reports every readable file whatever happens to the others.
use super::*;
use crate::gen::hole;
use crate::io::*;
use nom_exif::*;
use serde_json::{Map, Value};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::result::Result;
use std::time::Instant;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    rule: "the built rexiftool binary run on a generated directory (1..6 good, damaged, cut, empty or foreign files, sub-directories, FIFOs, dangling links) and on its files one by one, as a process whose open, read, write, lseek, readdir and getrandom calls go through a seeded fault-injecting layer (LD_PRELOAD): failing and interrupted opens, short and interrupted reads, read and seek errors, unknown entry types, a failing readdir, short, interrupted and failing writes of the output; text and JSON mode, all switches; compared with what the library reports and with the single-file runs; non-trivial = a directory with at least one failing and one good file; distinct by the set of (format, shape, fault, outcome) and the switches",
    quick: (15_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["rexiftool binary (built from /repo), nom-exif, std::fs"],
    stubs: &["libc open/read/write/lseek/readdir/getrandom of the tool's process"],
    assumptions: &["entries created by the harness do not change during a run"],
};

/// File names are drawn as text in which U+FFFD stands for a byte that is not UTF-8.
fn raw(s: &str) -> std::ffi::OsString {
    let mut v = vec![];
    for (i, p) in s.split('\u{FFFD}').enumerate() {
        if i > 0 {
            v.push(0xE9);
        }
        v.extend_from_slice(p.as_bytes());
    }
    std::os::unix::ffi::OsStringExt::from_vec(v)
}

struct Tool {
    code: Option<i32>,
    out: String,
    raw: Vec<u8>,
    err: String,
    faults: BTreeMap<String, BTreeMap<String, u64>>, // file -> fault -> count
}

fn tool(dir: &Path, args: &[String], fs_plan: &str, out_plan: &str, hash: u64) -> Tool {
    let (o, e, l) = (dir.join("out"), dir.join("err"), dir.join("log"));
    let _ = fs::remove_file(&l);
    let mut c = Command::new(root().join("target/cli/release/rexiftool"));
    c.args(args.iter().map(|a| raw(a)))
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", root().join("target/shim.so"))
        .env("NOMSIM_FS", raw(fs_plan))
        .env("NOMSIM_OUT", out_plan)
        .env("NOMSIM_LOG", &l)
        .env("NOMSIM_HASH", hash.to_string())
        .stdin(Stdio::null())
        .stdout(fs::File::create(&o).unwrap())
        .stderr(fs::File::create(&e).unwrap());
    let mut ch = c.spawn().expect("rexiftool does not start");
    let code = unsafe {
        let fd = libc::syscall(libc::SYS_pidfd_open, ch.id() as libc::pid_t, 0) as i32;
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let t = Instant::now();
        loop {
            let left = 20_000 - t.elapsed().as_millis().min(20_000) as i32;
            let n = libc::poll(&mut p, 1, left);
            if n > 0 || left == 0 {
                break;
            }
        }
        libc::close(fd);
        match ch.try_wait() {
            Ok(Some(s)) => Some(s.code().unwrap_or(1000 + std::os::unix::process::ExitStatusExt::signal(&s).unwrap_or(0))),
            _ => {
                let _ = ch.kill();
                let _ = ch.wait();
                None
            }
        }
    };
    let mut faults: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    for x in String::from_utf8_lossy(&fs::read(&l).unwrap_or_default()).lines() {
        if let Some((k, f)) = x.split_once(' ') {
            *faults.entry(f.into()).or_default().entry(k.into()).or_default() += 1;
        }
    }
    let raw = fs::read(&o).unwrap_or_default();
    Tool { code, out: String::from_utf8_lossy(&raw).into_owned(), raw, err: String::from_utf8_lossy(&fs::read(&e).unwrap_or_default()).into_owned(), faults }
}

#[derive(Clone, Debug, Default)]
struct Args {
    json: bool,
    no_track: bool,
    no_format: bool,
    thumb: bool,
    full: bool,
}
impl Args {
    fn list(&self) -> Vec<String> {
        let mut v = vec![];
        for (on, s) in [(self.json, "--json"), (self.no_track, "--no-track"), (self.no_format, "--no-format"), (self.thumb, "--with-thumbnail"), (self.full, "--full")] {
            if on {
                v.push(s.to_string());
            }
        }
        v
    }
}

type Pairs = Vec<(String, EntryValue)>;
struct Want {
    values: Pairs,
    track: Option<Pairs>,
    format: Option<Vec<(String, String)>>,
}
/// What the library says about the file.
fn library(blob: &Blob, a: &Args) -> Result<Want, String> {
    let src = || MediaSource::seekable(SimReader(Core::new(blob.clone(), Plan::default())));
    let tr = |i: &TrackInfo| -> Pairs { i.iter().map(|(t, v)| (t.to_string(), v.clone())).collect() };
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Want, nom_exif::Error> {
        let mut p = MediaParser::new();
        let ms = src()?;
        if ms.kind() == MediaKind::Track {
            let t = p.parse_track(ms)?;
            return Ok(Want { values: tr(&t), track: None, format: None });
        }
        let m = match p.parse_image_metadata(ms) {
            Ok(m) => m,
            Err(nom_exif::Error::ExifNotFound) => return Ok(Want { values: vec![], track: None, format: None }),
            Err(e) => return Err(e),
        };
        let mut w = Want { values: vec![], track: None, format: None };
        if let Some(it) = m.exif {
            if it.has_embedded_track() && !a.no_track {
                w.track = src().and_then(|ms| MediaParser::new().parse_track(ms)).ok().map(|t| tr(&t));
            }
            for x in it {
                if !a.thumb && x.ifd() == IfdIndex::THUMBNAIL {
                    continue;
                }
                let name = match x.tag() {
                    TagOrCode::Tag(t) => t.to_string(),
                    TagOrCode::Unknown(c) => format!("Unknown(0x{c:04x})"),
                };
                if let Ok(v) = x.into_result() {
                    w.values.push((name, v));
                }
            }
        }
        if let (Some(ImageFormatMetadata::Png(t)), false) = (m.format, a.no_format) {
            if !t.is_empty() {
                w.format = Some(t.iter().map(|(k, v)| (k.to_owned(), v.to_owned())).collect());
            }
        }
        Ok(w)
    }));
    match r {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(_) => Err("panic".into()),
    }
}

fn json(w: &Want, track: bool) -> Value {
    let obj = |p: &Pairs| -> Map<String, Value> { p.iter().filter_map(|(k, v)| serde_json::to_value(v).ok().map(|j| (k.clone(), j))).collect() };
    let mut root = obj(&w.values);
    if let (Some(t), true) = (&w.track, track) {
        root.insert("_embedded_track".into(), Value::Object(obj(t)));
    }
    if let Some(f) = &w.format {
        root.insert("_format".into(), Value::Object(f.iter().map(|(k, v)| (k.clone(), Value::String(v.clone()))).collect()));
    }
    serde_json::from_str(&serde_json::to_string(&Value::Object(root)).unwrap()).unwrap()
}

/// Does the output report exactly this?
fn reports(out: &str, w: &Want, a: &Args, track: bool) -> Option<String> {
    if a.json {
        return match serde_json::from_str::<Value>(out) {
            Ok(v) => {
                let x = json(w, track);
                (v != x).then(|| crate::obs::clip(&format!("JSON {v} instead of {x}")))
            }
            Err(e) => Some(format!("not JSON ({e}): {}", crate::obs::clip(out))),
        };
    }
    let lines: Vec<&str> = out.lines().collect();
    let mut from = 0;
    let mut find = |k: &str, v: &str| -> Option<String> {
        let want: Vec<&str> = v.split('\n').collect();
        // what the line must hold: all of it, or its first 200 characters and the number of those left out
        let holds = |l: &str, v: &str| {
            let n = v.chars().count();
            if a.full || n <= 200 {
                return v.is_empty() || l.contains(v);
            }
            l.contains(&v.chars().take(200).collect::<String>()) && l.contains(&format!("(+{} char", n - 200))
        };
        let cap = if a.full { want.len() } else { want.len().min(10) };
        for (i, l) in lines.iter().enumerate().skip(from) {
            if let Some(r) = l.strip_prefix(k) {
                let more = want.len() == cap || lines.get(i + cap).is_some_and(|l| l.contains(&format!("(+{} more line", want.len() - cap)));
                if r.trim_start().starts_with(':') && holds(r, want[0]) && more && (1..cap).all(|j| lines.get(i + j).is_some_and(|l| holds(l, want[j]))) {
                    from = i + cap;
                    return None;
                }
            }
        }
        let v1 = crate::obs::clip(v);
        Some(format!("no line (in order) for {k} = {v1:?}"))
    };
    let odd = |s: &str| s.is_empty() || s.chars().any(|c| (c.is_control() && c != '\n') || c == '\u{85}' || c == '\u{2028}');
    for (k, v) in w.values.iter().chain(w.track.iter().filter(|_| track).flatten()) {
        let v = v.to_string();
        if odd(&v) {
            continue;
        }
        if let Some(e) = find(k, &v) {
            return Some(e);
        }
    }
    for (k, v) in w.format.iter().flatten() {
        if odd(v) || odd(k) {
            continue;
        }
        if let Some(e) = find(k, v) {
            return Some(e);
        }
    }
    if w.values.is_empty() && w.format.is_none() && (w.track.is_none() || !track) && !out.trim().is_empty() {
        return Some(format!("output for a file without metadata: {}", crate::obs::clip(out)));
    }
    None
}

struct Ent {
    name: String,
    what: String,
    fmt: Option<Fmt>,
    blob: Blob,
    plan: String,
    hard: bool,
}

const ERRNOS: [i32; 8] = [libc::EIO, libc::EACCES, libc::ENOENT, libc::ESTALE, libc::EMFILE, libc::ENOMEM, libc::EPERM, libc::EISDIR];

fn draw_file(s: &mut Src, k: usize) -> Ent {
    let name = match s.us(12) {
        0 | 1 => format!("IMG {k}.jpg"),
        2 | 3 => format!("ünï-{k}"),
        4 => format!(".hidden{k}"),
        5 => format!("caf\u{FFFD}{k}.jpg"),
        6 => format!("-{k}'\"$&"),
        7 => format!("{}{k}.heic", "ä".repeat(s.us(110))),
        _ => format!("f{k}.dat"),
    };
    let mut fmt = None;
    let mut what;
    let blob;
    match s.us(12) {
        0 => {
            let n = *s.pick(&[0usize, 1, 4, 127, 128, 129, 3000]);
            let b = if s.flag() { vec![0; n] } else { s.filler(n) };
            what = format!("{n} bytes of nothing");
            blob = Blob::flat(b);
        }
        1 => {
            let f = *s.pick(&[Fmt::Mp4, Fmt::Mov]);
            let m = gen::track::gen(s, f, &TrackOpts { big: false, ..Default::default() });
            let m = hole::bmff(s, &m, 1 << 33).0;
            what = format!("{} sparse", m.name);
            fmt = Some(f);
            blob = m.blob;
        }
        n => {
            let mut io = ImgOpts { no_exif: 150, big: s.us(4) == 3, ..Default::default() };
            io.tiff.max_entries = 8;
            let m = if s.us(5) == 4 { gen::motion::gen(s, 60, false, None).m } else { any_media(s, &io, &TrackOpts { big: false, ..Default::default() }) };
            fmt = Some(m.fmt);
            what = m.name.clone();
            blob = match n {
                2 => {
                    let at = if s.flag() { s.draw(m.len() + 1) } else { s.draw(m.meta_end.max(1)) };
                    what = format!("{what} cut at {at}");
                    m.blob.cut(at)
                }
                3 | 4 => {
                    let (b, d) = gen::damage::damage(s, &m);
                    what = format!("{what} damaged {d}");
                    Blob::flat(b)
                }
                _ => m.blob.clone(),
            };
        }
    }
    let mut p = String::new();
    let mut hard = false;
    if s.us(3) != 0 {
        if s.flag() {
            p.push_str(&format!(",chunk={}", s.pick(&[64usize, 500, 5000, 20000])));
        }
        if s.us(3) == 2 {
            p.push_str(&format!(",eintr={}", s.pick(&[50, 300])));
        }
        if s.us(6) == 5 {
            p.push_str(&format!(",oeintr={}", s.range(1, 3)));
        }
        let e = *s.pick(&ERRNOS);
        hard = true;
        match s.us(8) {
            0 => p.push_str(&format!(",open={e},openat={}", s.us(3))),
            1 => p.push_str(&format!(",read={e},rat={},sticky={}", 1 + s.us(5), s.us(2))),
            2 => p.push_str(&format!(",read={e},byte={},sticky={}", s.draw(blob.len.max(1)), s.us(2))),
            3 => p.push_str(&format!(",seek={e}")),
            _ => hard = false,
        }
    }
    let plan = if p.is_empty() { String::new() } else { format!(";{name}:{}", &p[1..]) };
    Ent { name, what, fmt, blob, plan, hard }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn run(c: &mut Ctx) -> Check {
    let n = c.src.range(1, 6);
    let files: Vec<Ent> = (0..n).map(|k| draw_file(&mut c.src, k)).collect();
    let a = Args { json: c.src.flag(), no_track: c.src.us(4) == 3, no_format: c.src.us(4) == 3, thumb: c.src.us(4) == 3, full: c.src.us(4) == 3 };
    let seed = c.src.draw(1 << 30);
    let sc = Scratch(root().join(format!("scratch/cli-{}", std::process::id())));
    let dir = sc.0.join("media");
    let _ = fs::remove_dir_all(&sc.0);
    fs::create_dir_all(&dir).unwrap();
    for f in &files {
        let h = fs::File::create(dir.join(raw(&f.name))).unwrap();
        h.set_len(f.blob.len).unwrap();
        for (o, b) in &f.blob.parts {
            h.write_all_at(b, *o).unwrap();
        }
    }
    // entries that are not files
    if c.src.us(3) == 2 {
        fs::create_dir(dir.join("sub.jpg")).unwrap();
        fs::write(dir.join("sub.jpg/inner.jpg"), b"x").unwrap();
    }
    if c.src.us(4) == 3 {
        let p = std::ffi::CString::new(dir.join("pipe.mp4").to_str().unwrap()).unwrap();
        unsafe { libc::mkfifo(p.as_ptr(), 0o600) };
    }
    if c.src.us(4) == 3 {
        let _ = std::os::unix::fs::symlink("nowhere", dir.join("link.png"));
    }
    let mut plan = format!("seed={seed}");
    let unk = c.src.us(4) == 3;
    let dfail = if c.src.us(10) == 9 { 1 + c.src.us(n + 2) } else { 0 };
    for f in &files {
        plan.push_str(&f.plan);
    }
    let outp = match c.src.us(4) {
        0 => format!("{},{},0,0", c.src.pick(&[3usize, 50, 1000]), c.src.pick(&[0, 300])),
        _ => "0,0,0,0".to_string(),
    };
    // nobody may be there to read the messages
    let mute = c.src.us(8) == 7;
    let outp = if mute { format!("{outp},{}", c.src.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO])) } else { outp };
    let mut good = 0;
    let mut bad = 0;
    let mut wants = vec![];
    let mut singles: Vec<Tool> = vec![];
    let note = |c: &mut Ctx, t: &Tool| {
        for m in t.faults.values() {
            for (k, v) in m {
                let k: &'static str = match k.as_str() {
                    "open_error" => "open_error",
                    "open_eintr" => "open_eintr",
                    "eintr" => "eintr",
                    "read_error" => "hard_read_error",
                    "seek_error" => "hard_seek_error",
                    "write_eintr" => "write_eintr",
                    "write_fault" => "write_error",
                    "short_write" => "short_write",
                    _ => "readdir_error",
                };
                c.faults.add(k, *v);
            }
        }
    };
    for f in &files {
        let mut args = a.list();
        args.push(format!("media/{}", f.name));
        let h = c.src.draw(1 << 30);
        let t = tool(&sc.0, &args, &plan, &outp, h);
        note(c, &t);
        let w = library(&f.blob, &a);
        let what = format!("{} ({}) {:?} [{}]", f.name, f.what, args, f.plan);
        c.note(format!("{what} -> exit {:?}, {} bytes out, faults {:?}; library {}", t.code, t.out.len(), t.faults, if w.is_ok() { "ok" } else { "fails" }));
        c.see(&format!("{:?} {}", t.code, t.out));
        c.sig(&format!("{:?} {} {:?} {}", f.fmt, f.plan.split(['=', ':']).nth(1).unwrap_or(""), t.code, t.faults.len()));
        let key = format!("{:?}", f.fmt);
        match t.code {
            None => return viol(format!("hang:{key}"), format!("{what}: does not terminate")),
            Some(0) | Some(1) => {}
            Some(x) => return viol(format!("crash:{key}"), format!("{what}: exit status {x}: {}", crate::obs::clip(&t.err))),
        }
        let faulted = f.hard && t.faults.get(&f.name).is_some_and(|m| m.keys().any(|k| k.ends_with("_error")));
        let ok = t.code == Some(0);
        match (&w, ok) {
            (Ok(x), true) => {
                let mut d = reports(&t.out, x, &a, true);
                if d.is_some() && faulted {
                    d = d.and(reports(&t.out, x, &a, false));
                }
                if let Some(d) = d {
                    return viol(format!("report:{key}"), format!("{what}: {d}"));
                }
                good += 1;
            }
            (Err(e), true) => return viol(format!("silent:{key}"), format!("{what}: the library fails ({}) and the tool reports success with {:?}", crate::obs::clip(e), crate::obs::clip(&t.out))),
            (Ok(_), false) if !faulted => return viol(format!("refused:{key}"), format!("{what}: fails: {}", crate::obs::clip(&t.err))),
            _ => bad += 1,
        }
        if !ok {
            if t.err.trim().is_empty() && !mute {
                return viol(format!("silent:{key}"), format!("{what}: fails without a message"));
            }
            if !t.out.trim().is_empty() {
                return viol(format!("partial:{key}"), format!("{what}: fails after printing {}", crate::obs::clip(&t.out)));
            }
        }
        wants.push((w, faulted));
        singles.push(t);
    }
    // writing a log changes nothing
    if c.src.us(8) == 7 {
        let k = c.src.us(n);
        let mut args = a.list();
        args.push("--debug".into());
        args.push(format!("media/{}", files[k].name));
        let h = c.src.draw(1 << 30);
        let t = tool(&sc.0, &args, &plan, "0,0,0,0", h);
        if t.code != singles[k].code {
            return viol("debug", format!("{} ({}) [{}]: exit {:?}, with --debug {:?}: {}", files[k].name, files[k].what, files[k].plan, singles[k].code, t.code, crate::obs::clip(&t.err)));
        }
        c.count("debug_log");
    }
    // a full disk or a closed pipe behind standard output is not a success
    if c.src.us(6) == 5 {
        let k = c.src.us(n);
        if !singles[k].out.is_empty() {
            let mut args = a.list();
            args.push(format!("media/{}", files[k].name));
            let at = c.src.us(singles[k].out.len());
            let e = *c.src.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO]);
            let h = c.src.draw(1 << 30);
            let t = tool(&sc.0, &args, &plan, &format!("{},0,{e},{at}", c.src.pick(&[0usize, 7, 100])), h);
            note(c, &t);
            let fired = t.faults.get("out").is_some_and(|m| m.contains_key("write_fault"));
            let what = format!("{} ({}) {args:?} [{}], standard output fails with errno {e} after {at} bytes", files[k].name, files[k].what, files[k].plan);
            if t.code.is_none() {
                return viol("output-hang", format!("{what}: does not terminate"));
            }
            if t.code.unwrap() >= 1000 || (fired && t.code == Some(0)) {
                return viol("output-lost", format!("{what}: exit {:?}", t.code));
            }
            if !singles[k].faults.get(&files[k].name).is_some_and(|m| m.keys().any(|k| k.ends_with("_error"))) && (!fired || !singles[k].raw.starts_with(&t.raw)) {
                return viol("output-prefix", format!("{what}: wrote {} instead of {}", crate::obs::clip(&t.out), crate::obs::clip(&singles[k].out)));
            }
        }
    }
    // a path that is not there
    if c.src.us(6) == 5 {
        let mut args = a.list();
        args.push("media/missing.jpg".into());
        let t = tool(&sc.0, &args, &plan, &outp, 1);
        if t.code == Some(0) || (t.err.trim().is_empty() && !mute) || !t.out.is_empty() {
            return viol("missing", format!("a path that does not exist: exit {:?}, message {:?}", t.code, t.err));
        }
        c.count("missing_path");
    }
    // ---- the directory
    let mut args = a.list();
    let root = match c.src.us(4) {
        0 => "./media".to_string(),
        1 => dir.to_str().unwrap().to_string(),
        _ => "media".to_string(),
    };
    args.push(if c.src.us(4) == 3 { format!("{root}/") } else { root.clone() });
    let dplan = format!("{plan};dir:fail={dfail},unk={}", unk as u8);
    let h = c.src.draw(1 << 30);
    let t = tool(&sc.0, &args, &dplan, &outp, h);
    note(c, &t);
    c.see(&format!("{:?} {}", t.code, t.out));
    c.nontrivial = good > 0 && bad > 0;
    c.count(if bad > 0 { "directories_with_failing_entry" } else { "directories_all_good" });
    let all: Vec<&String> = files.iter().map(|f| &f.what).collect();
    let what = format!("directory of {n} [{dplan}] {args:?} {all:?}");
    c.note(format!("{what} -> exit {:?}", t.code));
    c.sig(&format!("{a:?} {unk} {}", dfail > 0));
    match t.code {
        None => return viol("dir-hang", format!("{what}: does not terminate")),
        Some(0) => {}
        Some(x) => return viol("dir-exit", format!("{what}: exit status {x}: {}", crate::obs::clip(&t.err))),
    }
    let mut sections: BTreeMap<String, (String, u32)> = BTreeMap::new();
    let mut cur: Option<String> = None;
    let mut skip = false;
    for l in t.out.split_inclusive('\n') {
        if skip {
            skip = false;
            if l.trim_end().chars().all(|c| c == '-') {
                continue;
            }
        }
        let name = l.trim_end_matches('\n').strip_prefix("File: ").and_then(|p| p.strip_prefix(&root)).and_then(|p| p.strip_prefix("/"));
        if let Some(f) = name.and_then(|x| files.iter().find(|f| f.name == x)) {
            sections.entry(f.name.clone()).or_default().1 += 1;
            cur = Some(f.name.clone());
            skip = true;
        } else if let Some(k) = &cur {
            sections.get_mut(k).unwrap().0.push_str(l);
        } else if !l.trim().is_empty() {
            return viol("dir-stray", format!("{what}: output outside any file: {l}"));
        }
    }
    let cut = t.faults.get("dir").is_some();
    for (i, f) in files.iter().enumerate() {
        let (out, times) = match sections.get(&f.name) {
            Some(x) => x.clone(),
            None if cut => continue,
            None => return viol("dir-missing", format!("{what}: {} is not listed", f.name)),
        };
        if times != 1 {
            return viol("dir-twice", format!("{what}: {} is listed {times} times", f.name));
        }
        let (w, _) = &wants[i];
        let dir_faulted = f.hard && t.faults.get(&f.name).is_some_and(|m| m.keys().any(|k| k.ends_with("_error")));
        let same = out.trim() == singles[i].out.trim();
        if same {
            continue;
        }
        let faulted = dir_faulted || wants[i].1;
        let allowed = faulted
            && (out.trim().is_empty()
                || match w {
                    Ok(x) => reports(&out, x, &a, true).is_none() || reports(&out, x, &a, false).is_none(),
                    Err(_) => false,
                });
        if !allowed {
            return viol(format!("dir-differs:{:?}", f.fmt), format!("{what}: {} ({}) alone: {} in the directory: {}", f.name, f.what, crate::obs::clip(&singles[i].out), crate::obs::clip(&out)));
        }
    }
    Ok(())
}
