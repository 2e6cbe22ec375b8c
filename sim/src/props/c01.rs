//! The result does not depend on how the bytes arrive (synchronous readers).
use super::*;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    rule: "a generated media file delivered to the real parser through a simulated reader under a seeded chunking/EINTR schedule, compared with memory delivery; non-trivial = the reference parse gave metadata and the delivery differed from one whole read; distinct by (format, operation, mode, chunking class, layout name, reads, outcome)",
    quick: (250_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif parser, loaders and all format parsers"],
    stubs: &["reader (simulated storage)"],
    assumptions: &["simulated readers obey the Read/Seek contracts"],
};

fn run(c: &mut Ctx) -> Check {
    let m = any_media_or_motion(&mut c.src, &ImgOpts::default(), &TrackOpts::default());
    let op = any_op(&mut c.src, &m);
    let want = reference(op, &m.blob);
    c.note(format!("{} {} bytes, {op:?}: {}", m.name, m.len(), show(&want)));
    c.see(&show(&want));
    c.count(&format!("fmt.{:?}", m.fmt));
    if let Err(e) = &want {
        c.count("reference_failed");
        if let Fail::Panic(p) = e {
            return viol(format!("panic:{p}"), format!("{}: {op:?} panics from memory: {p}", m.name));
        }
    }
    let k = c.src.range(1, 2);
    for _ in 0..k {
        let plan = draw_delivery(&mut c.src, &m.marks, m.len(), true);
        let mode = if c.src.flag() { Mode::Stream } else { Mode::Seek };
        let core = Core::new(m.blob.clone(), plan.clone());
        let log = core.log.clone();
        let mut p = MediaParser::new();
        let talk = c.src.us(16) == 15;
        let l = crate::talk::loud(talk);
        let (r, _) = parse_sync(&mut p, op, mode, core);
        let got = obs_of(&r);
        drop(l);
        c.count_if("logging", talk);
        c.log(&log);
        let reads = log.lock().unwrap().reads;
        c.note(format!("{mode:?} {:?} eintr {} -> {} ({reads} reads)", plan.chunk, plan.eintr, show(&got)));
        c.see(&show(&got));
        c.sig(&format!("{} {op:?} {mode:?} {:?}", m.name, std::mem::discriminant(&plan.chunk)));
        c.sign(reads);
        c.nontrivial |= want.is_ok() && plan.chunk != Chunk::Whole;
        if let Some(d) = diff_obs(&want, &got) {
            return viol(format!("{:?}:{op:?}:{mode:?}", m.fmt), format!("{} {op:?} {mode:?} {:?} eintr {}: memory vs delivered: {d}", m.name, plan.chunk, plan.eintr));
        }
    }
    Ok(())
}
