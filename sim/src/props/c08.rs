//! An I/O error is reported as that I/O error, never as missing or bad data.
use super::*;
use crate::exec::ExecCfg;
use crate::io::*;
use crate::obs::*;
use nom_exif::MediaParser;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    rule: "a generated media file parsed (sync or async, seekable or stream) from a reader that fails hard at a drawn byte, read call or seek call, once or for ever, with a drawn error kind; compared with the fault-free parse; non-trivial = the error fired; distinct by (format, operation, mode, sync/async, error kind, read or seek, sticky, position class, outcome)",
    quick: (250_000, 60),
    thorough: (100_000_000, 600),
    level: "exploration",
    real: &["nom-exif sync and async parsers, loaders and all format parsers"],
    stubs: &["readers (simulated storage)", "executor and clock"],
    assumptions: &["simulated readers obey the Read/Seek/AsyncRead/AsyncSeek contracts"],
};

/// The embedded-track hint is best effort once the EXIF block has been read.
pub fn drop_flag(o: &mut Result<Obs, Fail>) {
    match o {
        Ok(Obs::Exif(e)) => e.embedded = false,
        Ok(Obs::Image(Some(e), _)) => e.embedded = false,
        _ => {}
    }
}

fn run(c: &mut Ctx) -> Check {
    let m = super::c17::media_or_motion(&mut c.src, 60);
    let mut op = any_op(&mut c.src, &m);
    let asyn = c.src.us(3) == 2;
    if asyn && op == Op::Track && !m.fmt.is_track() {
        op = Op::Exif;
    }
    let mode = if c.src.flag() { Mode::Stream } else { Mode::Seek };
    let mut plan = draw_delivery(&mut c.src, &m.marks, m.len(), !asyn);
    // one delivery, with and without the fault
    let mut want = if asyn {
        let core = Core::new(m.blob.clone(), plan.clone());
        obs_of(&async_once(&mut MediaParser::new(), op, mode, core, &ExecCfg::default(), None).0.unwrap())
    } else {
        obs_of(&parse_sync(&mut MediaParser::new(), op, mode, Core::new(m.blob.clone(), plan.clone())).0)
    };
    let kind = *c.src.pick(&HARD_KINDS[..HARD_KINDS.len() - 1]); // not UnexpectedEof: that is how data ends
    let end = m.len();
    plan.hard = Some((
        match c.src.us(6) {
            0 => When::Byte(c.src.draw(end + 1)),
            1 | 2 => When::Byte((if m.marks.is_empty() { 0 } else { *c.src.pick(&m.marks) } + c.src.draw(9)).saturating_sub(4).min(end)),
            3 => When::Byte(c.src.draw(m.meta_end.max(1) + 1).min(end)),
            4 => When::Read(1 + c.src.draw(6)),
            _ => When::Seek(1 + c.src.draw(4)),
        },
        kind,
    ));
    plan.sticky = c.src.us(3) != 2;
    let when = plan.hard.clone().unwrap().0;
    let sticky = plan.sticky;
    let core = Core::new(m.blob.clone(), plan);
    let log = core.log.clone();
    let mut got = if asyn {
        obs_of(&async_once(&mut MediaParser::new(), op, mode, core, &ExecCfg::default(), None).0.unwrap())
    } else {
        obs_of(&parse_sync(&mut MediaParser::new(), op, mode, core).0)
    };
    c.log(&log);
    let l = log.lock().unwrap().clone();
    c.see(&show(&got));
    let what = format!("{} {} bytes {op:?} {mode:?}{} {kind:?} at {when:?} sticky {sticky}", m.name, m.len(), if asyn { " async" } else { "" });
    c.note(format!("{what}: fired {} -> {} (fault-free {})", l.hard_fired, show(&got), show(&want)));
    c.count(&format!("fmt.{:?}", m.fmt));
    let key = format!("{:?}:{op:?}:{mode:?}:{}", m.fmt, if asyn { "async" } else { "sync" });
    if let Err(Fail::Panic(p)) = &got {
        return viol(format!("panic:{p}"), format!("{what}: {p}"));
    }
    if l.hard_fired == 0 {
        if let Some(d) = diff_obs(&want, &got) {
            return viol(format!("{key}:nofault"), format!("{what}: same delivery twice, different results: {d}"));
        }
        return Ok(());
    }
    c.nontrivial = true;
    c.count(&format!("kind.{kind:?}"));
    c.sig(&format!("{key} {kind:?} {} {sticky} {}", l.seek_fired > 0, m.name));
    c.sign(l.hard_fired.min(3));
    c.sign(l.reads.min(40));
    if let Err(Fail::Io(k, _)) = &got {
        if *k == kind {
            c.count("reported");
            return Ok(());
        }
        return viol(format!("{key}:kind"), format!("{what}: reported as {got:?}"));
    }
    drop_flag(&mut want);
    drop_flag(&mut got);
    if let Some(d) = diff_obs(&want, &got) {
        return viol(key, format!("{what}: fired, fault-free vs got: {d}"));
    }
    c.count(if got.is_ok() { "metadata_complete_before_error" } else { "same_definite_failure" });
    Ok(())
}
