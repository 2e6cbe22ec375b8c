//! Simulated storage and network: the bytes of a file (possibly sparse and huge) and
//! readers that deliver them under a fault plan.
use crate::exec::Clock;
use crate::src::{mix, Src};
use bytes::Bytes;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// File content: explicit parts over a zero background.
#[derive(Clone)]
pub struct Blob {
    pub len: u64,
    pub parts: Vec<(u64, Bytes)>,
}
impl Blob {
    pub fn flat(b: impl Into<Bytes>) -> Self {
        let b = b.into();
        Blob { len: b.len() as u64, parts: vec![(0, b)] }
    }
    pub fn read_at(&self, off: u64, out: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = out.len().min((self.len - off) as usize);
        let out = &mut out[..n];
        if self.parts.len() == 1 && self.parts[0].0 == 0 && self.parts[0].1.len() as u64 == self.len {
            out.copy_from_slice(&self.parts[0].1[off as usize..off as usize + n]);
            return n;
        }
        out.fill(0);
        let end = off + n as u64;
        for (po, pb) in &self.parts {
            let pe = po + pb.len() as u64;
            let a = off.max(*po);
            let b = end.min(pe);
            if a < b {
                out[(a - off) as usize..(b - off) as usize].copy_from_slice(&pb[(a - po) as usize..(b - po) as usize]);
            }
        }
        n
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        self.read_at(0, &mut v);
        v
    }
    pub fn cut(&self, len: u64) -> Blob {
        Blob { len: len.min(self.len), parts: self.parts.clone() }.clip()
    }
    fn clip(mut self) -> Blob {
        for (o, b) in &mut self.parts {
            if *o >= self.len {
                b.clear();
            } else if *o + b.len() as u64 > self.len {
                b.truncate((self.len - *o) as usize);
            }
        }
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Chunk {
    Whole,
    Fixed(usize),
    Random(usize),
    /// Reads stop at these absolute offsets.
    Stops(Vec<u64>),
    /// Single-byte reads inside the window, whole reads elsewhere.
    Drip(u64, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum When {
    /// As soon as the read position reaches this byte.
    Byte(u64),
    /// On the n-th read call (1-based).
    Read(u64),
    /// On the n-th seek call (1-based).
    Seek(u64),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    pub eintr: u64, // per mille of reads
    pub hard: Option<(When, ErrorKind)>,
    /// The hard error keeps firing (sticky) or fires once.
    pub sticky: bool,
    pub panic: Option<When>,
    /// Reading beyond this offset blocks: sync readers report a would-stall, async never complete.
    pub stall: Option<u64>,
    pub seed: u64,
    /// The file begins at this position of a seekable source (an archive, a container).
    pub lead: u64,
    /// async only
    pub pend: u64,     // per mille of polls that are Pending first
    pub max_lat: u64,  // virtual latency bound per pending op
    pub max_steps: u64,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { chunk: Chunk::Whole, eintr: 0, hard: None, sticky: true, panic: None, stall: None, seed: 0, lead: 0, pend: 0, max_lat: 0, max_steps: 4_000_000 }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub reads: u64,
    pub read_bytes: u64,
    pub seeks: u64,
    pub seek_skipped: u64,
    pub max_off: u64,
    pub eof_reads: u64,
    pub hard_fired: u64,
    pub seek_fired: u64,
    pub eintr_fired: u64,
    pub short_reads: u64,
    pub stalled: u64,
    pub panics: u64,
    pub pendings: u64,
    pub dropped: u64,
    pub overbudget: bool,
    pub hash: u64,
    pub events: Vec<String>,
}
pub type LogRef = Arc<Mutex<Log>>;

pub const EVENT_CAP: usize = 400;
thread_local! {
    pub static TRACE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl Log {
    fn ev(&mut self, k: u8, a: u64, b: u64) {
        self.hash = mix(self.hash ^ mix(k as u64) ^ mix(a.wrapping_mul(31)) ^ b.rotate_left(17));
        if self.events.len() < EVENT_CAP && TRACE.with(|t| t.get()) {
            let name = match k {
                1 => "read",
                2 => "EINTR",
                3 => "ERROR",
                4 => "seek",
                5 => "stall",
                6 => "PANIC",
                7 => "pending",
                8 => "eof",
                9 => "seek-ERROR",
                _ => "?",
            };
            self.events.push(format!("{name}@{a}:{b}"));
        }
    }
}

/// Called at every reader operation; lets the harness run other actors "while" a read
/// is in progress (drops, reads of earlier results, ...).
pub type Hook = Arc<Mutex<Box<dyn FnMut(u64) + Send>>>;

#[derive(Clone)]
pub struct Core {
    pub blob: Blob,
    pub plan: Plan,
    pub log: LogRef,
    pub hook: Option<Hook>,
    pos: u64,
    rng: u64,
    fired: bool,
}

pub const STALL_MSG: &str = "nomsim: simulated stall";
pub const PANIC_MSG: &str = "nomsim: simulated reader panic";
pub const BUDGET_MSG: &str = "nomsim: step budget exceeded";

enum Act {
    Data(usize),
    Err(ErrorKind),
    Stall,
}

impl Core {
    pub fn new(blob: Blob, plan: Plan) -> Core {
        let rng = mix(plan.seed ^ 0x5eed);
        Core { blob, plan, log: Arc::new(Mutex::new(Log::default())), hook: None, pos: 0, rng, fired: false }
    }
    fn r(&mut self, n: u64) -> u64 {
        self.rng = mix(self.rng);
        self.rng % n.max(1)
    }
    fn step(&mut self) {
        let mut l = self.log.lock().unwrap();
        if l.reads + l.seeks > self.plan.max_steps {
            l.overbudget = true;
            drop(l);
            panic!("{}", BUDGET_MSG);
        }
    }
    fn hooked(&mut self, n: u64) {
        if let Some(h) = self.hook.clone() {
            (h.lock().unwrap())(n)
        }
    }
    fn decide(&mut self, want: usize) -> Act {
        self.step();
        let n = {
            let mut l = self.log.lock().unwrap();
            l.reads += 1;
            l.reads
        };
        self.hooked(n);
        if let Some(w) = self.plan.panic.clone() {
            let hit = match w {
                When::Byte(b) => self.pos >= b,
                When::Read(k) => n == k,
                When::Seek(_) => false,
            };
            if hit && !self.fired {
                self.fired = true;
                {
                    let mut l = self.log.lock().unwrap();
                    l.panics += 1;
                    l.ev(6, self.pos, n);
                }
                panic!("{}", PANIC_MSG);
            }
        }
        if want == 0 {
            return Act::Data(0);
        }
        if self.plan.eintr > 0 && self.r(1000) < self.plan.eintr {
            let mut l = self.log.lock().unwrap();
            l.eintr_fired += 1;
            l.ev(2, self.pos, n);
            return Act::Err(ErrorKind::Interrupted);
        }
        let mut limit = want;
        if let Some((w, k)) = self.plan.hard.clone() {
            if !self.fired || self.plan.sticky {
                match w {
                    When::Byte(b) => {
                        if self.pos >= b {
                            self.fire(k, 3, n);
                            return Act::Err(k);
                        }
                        limit = limit.min((b - self.pos) as usize);
                    }
                    When::Read(c) => {
                        if n == c || (n > c && self.plan.sticky) {
                            self.fire(k, 3, n);
                            return Act::Err(k);
                        }
                    }
                    When::Seek(_) => {}
                }
            }
        }
        if let Some(s) = self.plan.stall {
            if self.pos >= s && self.pos < self.blob.len {
                let mut l = self.log.lock().unwrap();
                l.stalled += 1;
                l.ev(5, self.pos, n);
                return Act::Stall;
            }
            if self.pos < s {
                limit = limit.min((s - self.pos) as usize);
            }
        }
        let c = match self.plan.chunk.clone() {
            Chunk::Whole => limit,
            Chunk::Fixed(k) => k.max(1),
            Chunk::Random(k) => 1 + self.r(k as u64) as usize,
            Chunk::Stops(v) => {
                let next = v.iter().copied().filter(|s| *s > self.pos).min().unwrap_or(u64::MAX);
                (next - self.pos).min(usize::MAX as u64) as usize
            }
            Chunk::Drip(a, b) => {
                if self.pos >= a && self.pos < b {
                    1
                } else if self.pos < a {
                    (a - self.pos) as usize
                } else {
                    limit
                }
            }
        };
        Act::Data(c.min(limit).max(1))
    }
    fn fire(&mut self, _k: ErrorKind, code: u8, n: u64) {
        self.fired = true;
        let pos = self.pos;
        let mut l = self.log.lock().unwrap();
        l.hard_fired += 1;
        if code == 9 {
            l.seek_fired += 1;
        }
        l.ev(code, pos, n);
    }
    fn deliver(&mut self, out: &mut [u8], want: usize) -> usize {
        let n = self.blob.read_at(self.pos, out);
        self.pos += n as u64;
        let pos = self.pos;
        let mut l = self.log.lock().unwrap();
        l.read_bytes += n as u64;
        l.max_off = l.max_off.max(pos);
        if n == 0 && want > 0 {
            l.eof_reads += 1;
            l.ev(8, pos, 0);
        } else {
            if n < want {
                l.short_reads += 1;
            }
            l.ev(1, pos, n as u64);
        }
        n
    }
    /// The `read(2)` view of this storage.
    pub fn os_read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorKind> {
        match self.decide(buf.len()) {
            Act::Err(k) => Err(k),
            Act::Stall => Err(ErrorKind::Other),
            Act::Data(n) => {
                let w = buf.len();
                let n = n.min(w);
                Ok(self.deliver(&mut buf[..n], w))
            }
        }
    }
    pub fn os_seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.plan.lead = 0;
        self.seek_to(p)
    }
    fn seek_to(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step();
        let n = {
            let mut l = self.log.lock().unwrap();
            l.seeks += 1;
            l.seeks
        };
        self.hooked(1_000_000 + n);
        if let Some(When::Seek(k)) = self.plan.panic {
            if n == k && !self.fired {
                self.fired = true;
                self.log.lock().unwrap().panics += 1;
                panic!("{}", PANIC_MSG);
            }
        }
        if let Some((When::Seek(c), k)) = self.plan.hard.clone() {
            if n == c || (n > c && self.plan.sticky) {
                self.fire(k, 9, n);
                return Err(k.into());
            }
        }
        let lead = self.plan.lead as i128;
        let np: i128 = match p {
            SeekFrom::Start(x) => x as i128 - lead,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.blob.len as i128 + d as i128,
        };
        if np + lead < 0 || np > i64::MAX as i128 {
            return Err(ErrorKind::InvalidInput.into());
        }
        // ahead of the file there is nothing of it
        let np = if np < 0 { self.blob.len + 1 } else { np as u64 };
        let mut l = self.log.lock().unwrap();
        if np > self.pos {
            l.seek_skipped += np - self.pos;
        }
        l.ev(4, self.pos, np);
        drop(l);
        self.pos = np;
        Ok(np + self.plan.lead)
    }
}

impl Drop for SimReader {
    fn drop(&mut self) {
        if let Ok(mut l) = self.0.log.lock() {
            l.dropped += 1;
        }
    }
}

/// Synchronous simulated reader.
pub struct SimReader(pub Core);
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.0.decide(buf.len()) {
            Act::Err(k) => Err(k.into()),
            Act::Stall => Err(io::Error::new(ErrorKind::Other, STALL_MSG)),
            Act::Data(n) => {
                let w = buf.len();
                let n = n.min(w);
                Ok(self.0.deliver(&mut buf[..n], w))
            }
        }
    }
}
impl Seek for SimReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.0.seek_to(pos)
    }
}

/// Asynchronous simulated reader on the virtual clock.
pub struct SimAsync {
    pub core: Core,
    pub clock: Clock,
    op_until: Option<u64>,
    seek_req: Option<SeekFrom>,
    seek_until: Option<u64>,
    never: bool,
}
impl SimAsync {
    pub fn new(core: Core, clock: Clock) -> Self {
        SimAsync { core, clock, op_until: None, seek_req: None, seek_until: None, never: false }
    }
    /// Decide whether this operation is delayed; returns the completion time.
    fn latency(&mut self) -> Option<u64> {
        if self.core.plan.pend > 0 && self.core.r(1000) < self.core.plan.pend {
            let d = 1 + self.core.r(self.core.plan.max_lat.max(1));
            Some(self.clock.now() + d)
        } else {
            None
        }
    }
}
impl Drop for SimAsync {
    fn drop(&mut self) {
        if let Ok(mut l) = self.core.log.lock() {
            l.dropped += 1;
        }
    }
}
impl tokio::io::AsyncRead for SimAsync {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if me.never {
            return Poll::Pending;
        }
        if me.seek_req.is_some() {
            // an unfinished seek: like a real file, reads are refused
            return Poll::Ready(Err(io::Error::new(ErrorKind::Other, "read while a seek is in progress")));
        }
        match me.op_until {
            None => {
                if let Some(t) = me.latency() {
                    me.op_until = Some(t);
                    let pos = me.core.pos;
                    {
                        let mut l = me.core.log.lock().unwrap();
                        l.pendings += 1;
                        l.ev(7, pos, t);
                    }
                    me.clock.wake_at(t, cx.waker().clone());
                    return Poll::Pending;
                }
            }
            Some(t) => {
                if me.clock.now() < t {
                    me.clock.wake_at(t, cx.waker().clone());
                    return Poll::Pending;
                }
                me.op_until = None;
            }
        }
        let want = buf.remaining();
        match me.core.decide(want) {
            Act::Err(k) => Poll::Ready(Err(k.into())),
            Act::Stall => {
                me.never = true;
                me.clock.note_stall();
                Poll::Pending
            }
            Act::Data(n) => {
                let n = n.min(want);
                let dst = buf.initialize_unfilled_to(n);
                let got = me.core.deliver(dst, want);
                buf.advance(got);
                Poll::Ready(Ok(()))
            }
        }
    }
}
impl tokio::io::AsyncSeek for SimAsync {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> io::Result<()> {
        if self.seek_req.is_some() {
            return Err(io::Error::new(ErrorKind::Other, "other file operation is pending, call poll_complete before start_seek"));
        }
        self.seek_req = Some(position);
        let l = self.latency();
        self.seek_until = l;
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let me = &mut *self;
        let Some(req) = me.seek_req else {
            return Poll::Ready(Ok(me.core.pos + me.core.plan.lead));
        };
        if let Some(t) = me.seek_until {
            if me.clock.now() < t {
                me.core.log.lock().unwrap().pendings += 1;
                me.clock.wake_at(t, cx.waker().clone());
                return Poll::Pending;
            }
        }
        me.seek_req = None;
        me.seek_until = None;
        Poll::Ready(me.core.seek_to(req))
    }
}

pub const HARD_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::UnexpectedEof,
];

/// Draw a benign delivery (no hard faults) for a file with the given interesting offsets.
pub fn draw_delivery(src: &mut Src, marks: &[u64], len: u64, eintr_ok: bool) -> Plan {
    let mut p = Plan::default();
    p.chunk = match src.weighted(&[3, 3, 3, 2, 2]) {
        0 => Chunk::Whole,
        1 => Chunk::Fixed(*src.pick(&[1usize, 2, 3, 7, 16, 31, 32, 33, 64, 127, 128, 129, 512, 1000, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 65536])),
        2 => Chunk::Random(*src.pick(&[3usize, 17, 200, 1500, 5000, 20000])),
        3 => {
            let n = src.range(1, 4);
            let mut v = Vec::new();
            for _ in 0..n {
                let b = if marks.is_empty() || src.us(4) == 0 { src.draw(len.max(1)) } else { *src.pick(marks) };
                let d = src.draw(3);
                v.push((b + d).saturating_sub(1).min(len));
            }
            Chunk::Stops(v)
        }
        _ => {
            let b = if marks.is_empty() { src.draw(len.max(1)) } else { *src.pick(marks) };
            Chunk::Drip(b.saturating_sub(16), b + 16)
        }
    };
    // tiny chunks over big files cost too much: widen
    if len > 400_000 {
        if let Chunk::Fixed(k) = p.chunk {
            p.chunk = Chunk::Fixed(k.max(97));
        }
        if let Chunk::Random(k) = p.chunk {
            p.chunk = Chunk::Random(k.max(200));
        }
    }
    if eintr_ok && src.chance(350) {
        p.eintr = *src.pick(&[20u64, 150, 500]);
    }
    p.seed = src.draw(1 << 30);
    if src.us(6) == 5 {
        p.lead = *src.pick(&[1u64, 100, 5000, 1 << 20, 1 << 33]);
    }
    p
}

pub fn draw_async(src: &mut Src, p: &mut Plan) {
    p.pend = *src.pick(&[0u64, 100, 500, 900]);
    p.max_lat = *src.pick(&[1u64, 10, 1000, 1_000_000]);
    p.eintr = 0;
}

#[derive(Default, Clone, Debug)]
pub struct Faults(pub BTreeMap<&'static str, u64>);
impl Faults {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.0.entry(k).or_default() += n;
        }
    }
    pub fn take_log(&mut self, l: &Log) {
        self.add("short_read", l.short_reads);
        self.add("eintr", l.eintr_fired);
        self.add("hard_read_error", l.hard_fired - l.seek_fired);
        self.add("hard_seek_error", l.seek_fired);
        self.add("stall", l.stalled);
        self.add("reader_panic", l.panics);
        self.add("pending_poll", l.pendings);
    }
}
