//! Search driver: parallel worker processes, watchdog, minimisation, replay, evidence.
use crate::exec::panic_text;
use crate::io::Faults;
use crate::src::{hash_bytes, mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type Check = Result<(), Viol>;
pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}

/// Everything one simulated run accumulates.
pub struct Ctx {
    pub src: Src,
    pub faults: Faults,
    pub n: BTreeMap<String, u64>,
    pub sig: u64,
    pub digest: u64,
    pub notes: Vec<String>,
    pub virt: u64,
    pub nontrivial: bool,
    pub deep: bool,
    pub verbose: bool,
}
impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn count_if(&mut self, k: &str, on: bool) {
        if on {
            self.add(k, 1);
        }
    }
    pub fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_default() += v;
    }
    /// Structural coverage signature.
    pub fn sig(&mut self, s: &str) {
        self.sig = mix(self.sig ^ hash_bytes(3, s.as_bytes()));
    }
    pub fn sign(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v);
    }
    /// Everything observed, for the determinism check.
    pub fn see(&mut self, s: &str) {
        self.digest = mix(self.digest ^ hash_bytes(5, s.as_bytes()));
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if std::env::var_os("NOMSIM_V").is_some() {
            eprintln!("{s}");
        }
        if self.notes.len() < if self.verbose { 3000 } else { 60 } {
            self.notes.push(s);
        }
    }
    pub fn log(&mut self, l: &crate::io::LogRef) {
        let l = l.lock().unwrap().clone();
        self.faults.take_log(&l);
        self.digest = mix(self.digest ^ l.hash);
        if self.verbose {
            for e in l.events.iter().take(120) {
                self.notes.push(format!("  io {e}"));
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Check,
    pub rule: &'static str,
    pub quick: (u64, u64),    // runs, seconds
    pub thorough: (u64, u64), // runs, seconds
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }
    }));
}
pub fn quiet_panics() {
    install_hook()
}

// HashMap seeds inside the process under test come from here.
static RUN_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let s = RUN_SEED.load(std::sync::atomic::Ordering::Relaxed);
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let mut x = mix(s ^ 0xabcdef);
    for c in b {
        x = mix(x);
        *c = x as u8;
    }
    len as libc::ssize_t
}

pub fn run_one(p: &Prop, src: Src, deep: bool, verbose: bool, hseed: u64) -> (Ctx, Option<Viol>) {
    RUN_SEED.store(hseed, std::sync::atomic::Ordering::Relaxed);
    let mut ctx = Ctx {
        src,
        faults: Faults::default(),
        n: BTreeMap::new(),
        sig: hash_bytes(7, p.id.as_bytes()),
        digest: 0,
        notes: vec![],
        virt: 0,
        nontrivial: false,
        deep,
        verbose,
    };
    crate::talk::hush();
    let f = p.run;
    // a fresh thread per run: fresh thread-locals (hash seeds, tracing state)
    let (ctx, r) = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            crate::io::TRACE.with(|t| t.set(verbose));
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
            (ctx, r)
        })
        .unwrap()
        .join()
        .unwrap();
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) => {
            let at = last_panic();
            let m = panic_text(e);
            if at.starts_with("src/") || at.contains("/verif/sim/") {
                Some(Viol { key: "HARNESS".into(), msg: format!("harness panic at {at}: {m}") })
            } else {
                Some(Viol { key: format!("panic:{m}"), msg: format!("panic at {at}: {m}") })
            }
        }
    };
    (ctx, v)
}

pub struct Known {
    pub prop: String,
    pub key: String,
    pub what: String,
}
pub fn known(prop: &str) -> Vec<Known> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((id, r)) = r.split_once(' ') else { continue };
        let Some(r) = r.trim().strip_prefix("key=") else { continue };
        let Some((k, what)) = r.split_once(" :: ") else { continue };
        if id == prop {
            v.push(Known { prop: id.into(), key: k.trim().into(), what: what.trim().into() });
        }
    }
    v
}
pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn is_known<'a>(ks: &'a [Known], key: &str) -> Option<&'a Known> {
    ks.iter().find(|k| key == k.key)
}

// ------------------------------------------------------------------ worker

pub fn worker(p: &Prop, a: &[String]) -> ! {
    // seed from step to secs deep dir wid
    let seed: u64 = a[0].parse().unwrap();
    let from: u64 = a[1].parse().unwrap();
    let step: u64 = a[2].parse().unwrap();
    let to: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let deep = a[5] == "1";
    let survey = a[5] == "survey";
    let base = PathBuf::from(&a[6]);
    let status = File::options().write(true).create(true).truncate(true).open(base.with_extension("idx")).unwrap();
    let ks = known(p.id);
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut det = 0u64;
    let mut nondet = 0u64;
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut faults = Faults::default();
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut virt = 0u128;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut out = None;
    let mut i = from;
    let mut slow: (f64, u64) = (0.0, 0);
    while i < to {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        status.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let r0 = Instant::now();
        let (ctx, v) = run_one(p, Src::seeded(seed, p.id, i), deep, false, mix(seed ^ i));
        let el = r0.elapsed().as_secs_f64();
        if el > slow.0 {
            slow = (el, i);
        }
        runs += 1;
        if ctx.nontrivial && sigs.insert(ctx.sig) {
            nontrivial += 1;
        }
        if runs % 37 == 1 && v.is_none() {
            let (c2, _) = run_one(p, Src::seeded(seed, p.id, i), deep, false, mix(seed ^ i));
            det += 1;
            if c2.digest != ctx.digest || c2.src.tape != ctx.src.tape {
                nondet += 1;
                eprintln!("nondeterministic run {} {seed} {i}", p.id);
            }
        }
        for (k, c) in &ctx.faults.0 {
            faults.add(k, *c);
        }
        for (k, c) in &ctx.n {
            let e = n.entry(k.clone()).or_default();
            *e = if k.starts_with("max_") { (*e).max(*c) } else { *e + c };
        }
        virt += ctx.virt as u128;
        if samples.len() < 2 && ctx.nontrivial {
            samples.push(json!({"run": i, "what": ctx.notes}));
        }
        if let Some(v) = v {
            if v.key == "HARNESS" {
                eprintln!("HARNESS ERROR run {i}: {}", v.msg);
                std::process::exit(3);
            }
            if let Some(k) = is_known(&ks, &v.key) {
                *known_hits.entry(k.what.clone()).or_default() += 1;
            } else {
                let e = viols.entry(v.key.clone()).or_insert((0, i, v.msg.clone()));
                e.0 += 1;
                if !survey {
                    out = Some((i, v, ctx.src.tape.clone()));
                    break;
                }
            }
        }
        i += step;
    }
    let mut f = File::create(base.with_extension("sig")).unwrap();
    let sv: Vec<u8> = sigs.iter().flat_map(|x| x.to_le_bytes()).collect();
    f.write_all(&sv).unwrap();
    let j = json!({
        "runs": runs, "nontrivial": nontrivial, "det": det, "nondet": nondet,
        "faults": faults.0, "n": n, "samples": samples, "virt": virt.to_string(),
        "known": known_hits, "slow": [slow.0, slow.1 as f64],
        "viols": viols.iter().map(|(k,(c,i,m))| json!({"key":k,"count":c,"run":i,"msg":m})).collect::<Vec<_>>(),
        "violation": out.as_ref().map(|(i, v, t)| json!({"run": i, "key": v.key, "msg": v.msg, "tape": t})),
    });
    fs::write(base.with_extension("json"), serde_json::to_vec(&j).unwrap()).unwrap();
    std::process::exit(0);
}

/// Evaluate tapes given on stdin; used by the minimiser.
pub fn evaluator(p: &Prop, deep: bool, hseed: u64) -> ! {
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let tape: Vec<u64> = serde_json::from_str(&l).unwrap();
        let (ctx, v) = run_one(p, Src::replay(tape), deep, false, hseed);
        let o = match v {
            Some(v) => json!({"key": v.key, "msg": v.msg, "used": ctx.src.used()}),
            None => json!({"key": null, "used": ctx.src.used()}),
        };
        println!("{o}");
        std::io::stdout().flush().unwrap();
    }
    std::process::exit(0);
}

struct Eval {
    prop: String,
    deep: bool,
    hseed: u64,
    child: Option<(Child, std::sync::mpsc::Receiver<String>)>,
}
impl Eval {
    fn spawn(&mut self) {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["eval", &self.prop, if self.deep { "1" } else { "0" }, &self.hseed.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        self.child = Some((c, rx));
    }
    /// (violation key or None, message)
    fn eval(&mut self, tape: &[u64], timeout: Duration) -> (Option<String>, String) {
        if self.child.is_none() {
            self.spawn();
        }
        let (c, rx) = self.child.as_mut().unwrap();
        let mut line = serde_json::to_string(tape).unwrap();
        line.push('\n');
        let _ = c.stdin.as_mut().unwrap().write_all(line.as_bytes());
        match rx.recv_timeout(timeout) {
            Ok(l) => {
                let v: Value = serde_json::from_str(&l).unwrap();
                (v["key"].as_str().map(|s| s.to_string()), v["msg"].as_str().unwrap_or("").to_string())
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                let _ = c.kill();
                let _ = c.wait();
                self.child = None;
                (Some("hang".into()), "the run does not finish".into())
            }
            Err(_) => {
                let st = c.wait().unwrap();
                self.child = None;
                (Some(format!("abort:{}", st.signal().unwrap_or(0))), format!("the process died: {st}"))
            }
        }
    }
}
impl Drop for Eval {
    fn drop(&mut self) {
        if let Some((c, _)) = &mut self.child {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

/// Tape shrinking: drop the tail, zero or delete blocks, reduce single values.
fn minimise(e: &mut Eval, tape: Vec<u64>, key: &str, budget: Duration) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let per = if key == "hang" { Duration::from_secs(20) } else { Duration::from_secs(60) };
    let mut tries = 0u64;
    let mut best = tape;
    let mut msg = String::new();
    let ok = |e: &mut Eval, t: &[u64], msg: &mut String, tries: &mut u64| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        *tries += 1;
        let (k, m) = e.eval(t, per);
        if k.as_deref() == Some(key) {
            *msg = m;
            true
        } else {
            false
        }
    };
    // confirm
    if !ok(e, &best, &mut msg, &mut tries) {
        return (best, String::new(), 0);
    }
    let mut changed = true;
    while changed && t0.elapsed() < budget {
        changed = false;
        // truncate
        let mut n = best.len() / 2;
        while n > 0 && t0.elapsed() < budget {
            if best.len() > n {
                let t = best[..best.len() - n].to_vec();
                if ok(e, &t, &mut msg, &mut tries) {
                    best = t;
                    changed = true;
                    continue;
                }
            }
            n /= 2;
        }
        // zero blocks
        let mut n = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let j = (i + n).min(best.len());
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..j].fill(0);
                    if ok(e, &t, &mut msg, &mut tries) {
                        best = t;
                        changed = true;
                    }
                }
                i += n;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // delete blocks
        for n in [16usize, 4, 1] {
            let mut i = 0;
            while i + n <= best.len() && t0.elapsed() < budget {
                let mut t = best.clone();
                t.drain(i..i + n);
                if ok(e, &t, &mut msg, &mut tries) {
                    best = t;
                    changed = true;
                } else {
                    i += n;
                }
            }
        }
        // halve values
        for i in 0..best.len() {
            while best[i] > 0 && t0.elapsed() < budget {
                let mut t = best.clone();
                t[i] /= 2;
                if ok(e, &t, &mut msg, &mut tries) {
                    best = t;
                    changed = true;
                } else {
                    let mut t = best.clone();
                    t[i] -= 1;
                    if ok(e, &t, &mut msg, &mut tries) {
                        best = t;
                        changed = true;
                    } else {
                        break;
                    }
                }
            }
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, msg, tries)
}

// ------------------------------------------------------------------ parent

struct W {
    child: Child,
    base: PathBuf,
    idx: u64,
    since: Instant,
    done: bool,
}

pub struct Opt {
    pub tier: String,
    pub seed: u64,
    pub jobs: u64,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub survey: bool,
}

/// Seconds (twice: in the worker and in a process of its own) after which a run counts as hanging.
const WATCHDOG: u64 = 50;

pub fn check(p: &Prop, o: &Opt) -> i32 {
    let t0 = Instant::now();
    let deep = o.tier == "thorough";
    let (runs, secs) = if deep { p.thorough } else { p.quick };
    let runs = o.runs.unwrap_or(runs);
    let secs = o.secs.unwrap_or(secs);
    let dir = root().join("scratch").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    println!("property={} seed={} tier={} runs<={} secs<={} jobs={}", p.id, o.seed, o.tier, runs, secs, o.jobs);
    let mut ws: Vec<W> = vec![];
    for k in 0..o.jobs {
        let base = dir.join(format!("w{k}"));
        let err = File::create(base.with_extension("err")).unwrap();
        let child = Command::new(std::env::current_exe().unwrap())
            .args([
                "worker",
                p.id,
                &o.seed.to_string(),
                &k.to_string(),
                &o.jobs.to_string(),
                &runs.to_string(),
                &secs.to_string(),
                if o.survey {
                    "survey"
                } else if deep {
                    "1"
                } else {
                    "0"
                },
                base.to_str().unwrap(),
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        ws.push(W { child, base, idx: 0, since: Instant::now(), done: false });
    }
    let mut results: Vec<Value> = vec![];
    let mut found: Option<(u64, String, String, Option<Vec<u64>>)> = None;
    let mut harness_err = false;
    let mut hung = false;
    loop {
        let mut alive = 0;
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if st.success() {
                        let v: Value = serde_json::from_slice(&fs::read(w.base.with_extension("json")).unwrap()).unwrap();
                        if let Some(x) = v["violation"].as_object() {
                            if found.is_none() {
                                found = Some((
                                    x["run"].as_u64().unwrap(),
                                    x["key"].as_str().unwrap().into(),
                                    x["msg"].as_str().unwrap().into(),
                                    Some(x["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect()),
                                ));
                            }
                        }
                        results.push(v);
                    } else {
                        let e = fs::read_to_string(w.base.with_extension("err")).unwrap_or_default();
                        if st.code() == Some(3) {
                            eprintln!("{e}");
                            harness_err = true;
                        } else {
                            let i = read_idx(&w.base);
                            if found.is_none() {
                                found = Some((i.saturating_sub(1), format!("abort:{}", st.signal().unwrap_or(0)), format!("the process died ({st}): {}", crate::obs::clip(e.trim())), None));
                            }
                        }
                    }
                }
                None => {
                    alive += 1;
                    let i = read_idx(&w.base);
                    if i != w.idx {
                        w.idx = i;
                        w.since = Instant::now();
                    } else if i > 0 && found.is_none() && w.since.elapsed().as_secs() > WATCHDOG {
                        // the machine may have been busy: make sure that it is the run
                        let (tape, ended) = regen(p, o.seed, i - 1, deep);
                        if ended {
                            w.since = Instant::now();
                            continue;
                        }
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        hung = true;
                        found = Some((i - 1, "hang".into(), format!("run {} did not finish within {WATCHDOG} s", i - 1), Some(tape)));
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if (found.is_some() && (!o.survey || hung)) || harness_err {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search_s = t0.elapsed().as_secs_f64();
    // merge
    let sum = |k: &str| -> u64 { results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum() };
    let merge = |k: &str| -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for r in &results {
            if let Some(o) = r[k].as_object() {
                for (a, b) in o {
                    let (e, b) = (m.entry(a.clone()).or_insert(0u64), b.as_u64().unwrap_or(0));
                    *e = if a.starts_with("max_") { (*e).max(b) } else { *e + b };
                }
            }
        }
        m
    };
    let mut sigs: HashSet<u64> = HashSet::new();
    for w in &ws {
        if let Ok(b) = fs::read(w.base.with_extension("sig")) {
            for c in b.chunks_exact(8) {
                sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let total = sum("runs");
    let virt: u128 = results.iter().map(|r| r["virt"].as_str().unwrap_or("0").parse::<u128>().unwrap_or(0)).sum();
    let samples: Vec<Value> = results.iter().flat_map(|r| r["samples"].as_array().cloned().unwrap_or_default()).take(6).collect();
    let known_hits = merge("known");
    if o.survey {
        let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for r in &results {
            for v in r["viols"].as_array().unwrap() {
                let e = m.entry(v["key"].as_str().unwrap().into()).or_insert((0, v["run"].as_u64().unwrap(), v["msg"].as_str().unwrap().into()));
                e.0 += v["count"].as_u64().unwrap();
            }
        }
        for (k, (c, i, msg)) in &m {
            println!("{c:6}  {k}\n        run {i}: {msg}");
        }
        if let Some(f) = &found {
            println!("CRASH {f:?}");
        }
        let slow = results.iter().map(|r| (r["slow"][0].as_f64().unwrap(), r["slow"][1].as_f64().unwrap())).fold((0.0, 0.0), |a, b| if b.0 > a.0 { b } else { a });
        println!("runs {total} in {search_s:.1}s, distinct {}, nondet {}, slowest {:?}", sigs.len(), sum("nondet"), slow);
        println!("counters {:?}\nfaults {:?}", merge("n"), merge("faults"));
        let _ = fs::remove_dir_all(&dir);
        return 0;
    }
    let _ = fs::remove_dir_all(&dir);
    if harness_err {
        return 3;
    }
    for k in known(p.id) {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.what);
    }
    let mut code = 0;
    if let Some((run, key, msg, tape)) = found {
        let hseed = mix(o.seed ^ run);
        let mut e = Eval { prop: p.id.into(), deep, hseed, child: None };
        // abort / hang: the tape was lost with the process; regenerate it while replaying
        let tape = tape.unwrap_or_else(|| regen(p, o.seed, run, deep).0);
        let (min, m2, tries) = minimise(&mut e, tape.clone(), &key, Duration::from_secs(if deep { 120 } else { 40 }));
        drop(e);
        let msg = if m2.is_empty() { msg } else { m2 };
        let file = root().join("replays").join(format!("{}-{}-{}.json", p.id, o.seed, run));
        fs::create_dir_all(file.parent().unwrap()).unwrap();
        let mut rep = json!({
            "property": p.id, "seed": o.seed, "run": run, "deep": deep, "hseed": hseed,
            "key": key, "message": msg, "tape": min, "original_tape_len": tape.len(), "minimiser_tries": tries,
            "trace": [],
        });
        fs::write(&file, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        println!("run {run}: [{key}] {msg}");
        println!("VIOLATION property={} replay={}", p.id, file.display());
        let _ = std::io::stdout().flush();
        // attach the event trace of the minimised run
        if let Replayed::Ended(out) = replayed(&file, 20) {
            let t: Vec<String> = out.lines().map(|s| s.to_string()).collect();
            rep["trace"] = json!(t);
            fs::write(&file, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        }
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": p.level,
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": sigs.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (total as f64 / search_s * 3600.0) as u64,
            "search_wall_s": search_s,
            "seeds": total,
            "simulated_time_ticks": virt.to_string(),
            "faults_injected": merge("faults"),
            "counters": merge("n"),
            "determinism": {"runs_executed_twice": sum("det"), "diverging": sum("nondet")},
            "known_finding_hits": known_hits,
            "ran_real": p.real, "ran_stub": p.stubs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": code,
    });
    let evf = root().join("evidence").join(format!("{}.json", p.id));
    fs::create_dir_all(evf.parent().unwrap()).unwrap();
    fs::write(&evf, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("property={} runs={} distinct={} wall={:.1}s {}", p.id, total, sigs.len(), wall, if code == 0 { "held" } else { "VIOLATED" });
    code
}

fn read_idx(base: &Path) -> u64 {
    let mut b = [0u8; 8];
    if let Ok(mut f) = File::open(base.with_extension("idx")) {
        if f.read_exact(&mut b).is_ok() {
            return u64::from_le_bytes(b);
        }
    }
    0
}

/// Re-run a crashing run in a child that dumps every draw as it happens.
fn regen(p: &Prop, seed: u64, run: u64, deep: bool) -> (Vec<u64>, bool) {
    let f = root().join("scratch").join(format!("tape-{}", std::process::id()));
    fs::create_dir_all(f.parent().unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["dump", p.id, &seed.to_string(), &run.to_string(), if deep { "1" } else { "0" }])
        .env("NOMSIM_TAPE", &f)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let mut ended = false;
    while !ended && t0.elapsed().as_secs() < WATCHDOG {
        std::thread::sleep(Duration::from_millis(20));
        ended = c.try_wait().unwrap().is_some();
    }
    let _ = c.kill();
    let _ = c.wait();
    let b = fs::read(&f).unwrap_or_default();
    let _ = fs::remove_file(&f);
    (b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(), ended)
}

enum Replayed {
    Ended(String),
    Died(std::process::ExitStatus),
    Hung,
}

/// Execute a replay file in a process of its own.
fn replayed(file: &Path, secs: u64) -> Replayed {
    let out = root().join("scratch").join(format!("trace-{}", std::process::id()));
    fs::create_dir_all(out.parent().unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("trace")
        .arg(file)
        .stdout(File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let text = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).into_owned();
    let _ = fs::remove_file(&out);
    match st {
        None => Replayed::Hung,
        Some(st) if st.signal().is_some() => Replayed::Died(st),
        Some(_) => Replayed::Ended(text),
    }
}

/// `nomsim replay FILE`: exit 1 with the VIOLATION line if the recorded run violates again.
pub fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let bad = match replayed(Path::new(file), WATCHDOG) {
        Replayed::Ended(out) => {
            print!("{out}");
            !out.lines().any(|l| l == "no violation")
        }
        Replayed::Died(st) => {
            println!("[abort:{}] the process died: {st}", st.signal().unwrap_or(0));
            true
        }
        Replayed::Hung => {
            println!("[hang] the run does not finish");
            true
        }
    };
    if bad {
        println!("VIOLATION property={id} replay={file}");
    }
    bad as i32
}

/// `nomsim trace FILE`: execute the recorded run, print its events and outcome.
pub fn trace(props: &[Prop], file: &str) {
    let v: Value = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).unwrap();
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let (ctx, r) = run_one(p, Src::replay(tape), v["deep"].as_bool().unwrap_or(false), true, v["hseed"].as_u64().unwrap_or(0));
    for n in &ctx.notes {
        println!("{n}");
    }
    match r {
        Some(r) => println!("[{}] {}", r.key, r.msg),
        None => println!("no violation"),
    }
}
