//! The single source of randomness of a run: a choice tape.
//!
//! Every decision (file content, layout, delivery, fault, schedule, history) is
//! `draw(n)`. In search mode the values come from a PRNG seeded by (seed, property,
//! run index) and are recorded; in replay mode they come from a recorded tape and
//! anything past its end is 0, which every generator treats as the simplest choice.

#[derive(Clone)]
pub struct Src {
    rng: Option<u64>,
    pub tape: Vec<u64>,
    pos: usize,
    aux: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ b.len() as u64)
}

impl Src {
    pub fn seeded(seed: u64, prop: &str, run: u64) -> Self {
        let s = mix(mix(seed) ^ hash_bytes(1, prop.as_bytes()) ^ mix(run.wrapping_mul(0x2545F4914F6CDD1D)));
        Src { rng: Some(s), tape: Vec::with_capacity(512), pos: 0, aux: 0 }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, tape, pos: 0, aux: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in 0..n (n >= 1).
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let v = ((mix(*s) as u128 * n as u128) >> 64) as u64;
                self.tape.push(v);
                dump(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// true with probability p/1000; 0 on the tape means false.
    pub fn chance(&mut self, p: u64) -> bool {
        self.draw(1000) >= 1000 - p.min(1000)
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// A full 32-bit value, biased to interesting ones.
    pub fn u32x(&mut self) -> u32 {
        match self.us(6) {
            0 => self.draw(256) as u32,
            1 => *self.pick(&[0u32, 1, 2, 0x7f, 0xff, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 4, 8, 12, 0x2a]),
            2 => self.draw(65536) as u32,
            _ => self.draw(1 << 32) as u32,
        }
    }
    pub fn u64x(&mut self) -> u64 {
        let a = self.u32x() as u64;
        match self.us(3) {
            0 => a,
            1 => a << 32 | self.u32x() as u64,
            _ => u64::MAX - a,
        }
    }
    /// Filler bytes: one draw, content derived from it. 0 => zeros.
    pub fn filler(&mut self, len: usize) -> Vec<u8> {
        let k = self.draw(1 << 20);
        filler(k, len)
    }
    /// ASCII text of length 0..=max.
    pub fn text(&mut self, lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        let k = self.draw(1 << 20);
        let mut s = String::with_capacity(n);
        let mut x = mix(k);
        for i in 0..n {
            if k == 0 {
                s.push((b'a' + (i % 26) as u8) as char);
            } else {
                x = mix(x);
                const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .-_/()";
                // never start or end with a space
                let c = if i == 0 || i + 1 == n { A[(x % 62) as usize] } else { A[(x % A.len() as u64) as usize] };
                s.push(c as char);
            }
        }
        s
    }
    /// A derived, unrecorded 64-bit value; use for cheap content only.
    pub fn derived(&mut self) -> u64 {
        self.aux = mix(self.aux);
        self.aux
    }
}

pub fn filler(k: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    match k {
        0 => {}
        1 => v.fill(0xFF),
        2 => v.fill(b'I'),
        _ => {
            let mut x = mix(k);
            for c in v.chunks_mut(8) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let b = x.to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&b[..n]);
            }
        }
    }
    v
}

static DUMP: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
/// Record every draw in a file as it happens (used to recover the tape of a run that kills the process).
pub fn dump_to(path: &str) {
    let _ = DUMP.set(std::sync::Mutex::new(std::fs::File::create(path).unwrap()));
}
fn dump(v: u64) {
    if let Some(f) = DUMP.get() {
        use std::io::Write;
        let _ = f.lock().unwrap().write_all(&v.to_le_bytes());
    }
}
