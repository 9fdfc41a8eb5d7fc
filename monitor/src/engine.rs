//! Workload engine: probes, hostile input generation, observation counters, verdicts.

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0x9e3779b97f4a7c15 ^ data.len() as u64);
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b)).wrapping_add(0x9e3779b97f4a7c15);
    }
    h
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed.wrapping_add(0x5851f42d4c957f2d)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// What the monitors saw.
pub struct Obs {
    slots: Vec<(&'static str, HashSet<u64, BuildHasherDefault<IdHasher>>)>,
    pub counts: BTreeMap<&'static str, u64>,
}

impl Obs {
    pub fn new() -> Obs {
        Obs { slots: vec![], counts: BTreeMap::new() }
    }
    /// Records that `value` was observed for the monitored quantity `name`.
    pub fn see(&mut self, name: &'static str, value: u64) {
        for (n, s) in self.slots.iter_mut() {
            if std::ptr::eq(n.as_ptr(), name.as_ptr()) || *n == name {
                if s.len() < 100_000 {
                    s.insert(mix(value));
                }
                return;
            }
        }
        let mut s: HashSet<u64, BuildHasherDefault<IdHasher>> = Default::default();
        s.insert(mix(value));
        self.slots.push((name, s));
    }
    pub fn count(&mut self, name: &'static str) {
        *self.counts.entry(name).or_insert(0) += 1;
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    pub fn distinct(&self) -> BTreeMap<&'static str, usize> {
        self.slots.iter().map(|(n, s)| (*n, s.len())).collect()
    }
}

/// Ok(true): held on a non-trivial case; Ok(false): held, trivially; Err: violated.
pub type Verdict = Result<bool, String>;

pub enum Input {
    /// `n` bytes, any value
    Bytes(usize),
    /// the index 0..n, enumerated completely
    Domain(usize),
}

pub struct Probe {
    pub name: &'static str,
    pub input: Input,
    /// relative share of the random workload (cost control)
    pub weight: f64,
    pub f: fn(&mut Obs, &[u8]) -> Verdict,
}

pub fn bytes(name: &'static str, n: usize, f: fn(&mut Obs, &[u8]) -> Verdict) -> Probe {
    Probe { name, input: Input::Bytes(n), weight: 1.0, f }
}
pub fn slow(name: &'static str, n: usize, weight: f64, f: fn(&mut Obs, &[u8]) -> Verdict) -> Probe {
    Probe { name, input: Input::Bytes(n), weight, f }
}
pub fn domain(name: &'static str, n: usize, f: fn(&mut Obs, &[u8]) -> Verdict) -> Probe {
    Probe { name, input: Input::Domain(n), weight: 1.0, f }
}

pub fn index(data: &[u8]) -> usize {
    let mut b = [0u8; 8];
    b[..data.len().min(8)].copy_from_slice(&data[..data.len().min(8)]);
    u64::from_le_bytes(b) as usize
}

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs a probe on one input; a panic of the observed code is a violation.
pub fn run_probe(p: &Probe, obs: &mut Obs, data: &[u8]) -> Verdict {
    crate::watch::probe(p.name, data);
    match catch_unwind(AssertUnwindSafe(|| (p.f)(obs, data))) {
        Ok(v) => v,
        Err(e) => Err(format!("the library panicked: {}", panic_message(e))),
    }
}

/// Did calling `f` panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub struct Violation {
    pub probe: &'static str,
    pub data: Vec<u8>,
    pub message: String,
}

pub struct Run {
    pub evaluations: u64,
    pub distinct: HashSet<u64, BuildHasherDefault<IdHasher>>,
    pub distinct_overflow: u64,
    pub nontrivial_distinct: u64,
    pub samples: Vec<String>,
    pub per_probe: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub obs: Obs,
}

const DISTINCT_CAP: usize = 12_000_000;

impl Run {
    pub fn new() -> Run {
        Run {
            evaluations: 0,
            distinct: Default::default(),
            distinct_overflow: 0,
            nontrivial_distinct: 0,
            samples: vec![],
            per_probe: BTreeMap::new(),
            violation: None,
            obs: Obs::new(),
        }
    }

    /// Evaluates one case. False when the run should stop.
    pub fn case(&mut self, pi: usize, p: &Probe, data: &[u8]) -> bool {
        self.evaluations += 1;
        let v = run_probe(p, &mut self.obs, data);
        match v {
            Ok(nontrivial) => {
                if self.distinct.len() < DISTINCT_CAP {
                    if self.distinct.insert(hash_bytes(pi as u64, data)) && nontrivial {
                        self.nontrivial_distinct += 1;
                        let n = self.per_probe.entry(p.name).or_insert(0);
                        *n += 1;
                        // a few samples from different phases of the run
                        if (*n).is_power_of_two() && self.samples.len() < 60 && (*n == 1 || *n >= 64) {
                            self.samples.push(format!("{}:{}", p.name, hex(data)));
                        }
                    }
                } else {
                    self.distinct_overflow += 1;
                }
                true
            }
            Err(message) => {
                self.violation = Some(Violation { probe: p.name, data: data.to_vec(), message });
                false
            }
        }
    }
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// Boundary values plus every integer literal in the observed source tree: values the code itself
/// singles out are the ones it may treat specially. They only steer the workload.
pub fn dictionary() -> Vec<u64> {
    let mut v: Vec<u64> = vec![
        0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 28, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254,
        255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 0x7ffe, 0x7fff, 0x8000, 0x8001,
        0xfffe, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001,
        0xffffffde, 0xffffffdf, 0xffffffe0, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
        0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff, 0x5555555555555555,
        0xaaaaaaaaaaaaaaaa, 0x0123456789abcdef, 0xdeadbeefcafebabe,
    ];
    let mut mined: Vec<u64> = vec![];
    fn walk(dir: &std::path::Path, out: &mut Vec<u64>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|e| e == "rs") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    literals(&s, out);
                }
            }
        }
    }
    walk(std::path::Path::new("/repo/src"), &mut mined);
    mined.sort();
    mined.dedup();
    mined.truncate(400);
    for m in mined {
        for x in [m, m.wrapping_add(1), m.wrapping_sub(1)] {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}

fn literals(s: &str, out: &mut Vec<u64>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_word {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let mut t: String = s[i..j].chars().filter(|c| *c != '_').collect();
            for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"] {
                if !t.starts_with("0x") || suf.starts_with('u') || suf.starts_with('i') {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.to_string();
                        break;
                    }
                }
            }
            let r = if let Some(h) = t.strip_prefix("0x") {
                u128::from_str_radix(h, 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                u128::from_str_radix(h, 2)
            } else if let Some(h) = t.strip_prefix("0o") {
                u128::from_str_radix(h, 8)
            } else {
                t.parse::<u128>()
            };
            if let Ok(x) = r {
                out.push(x as u64);
                if x >> 64 != 0 {
                    out.push((x >> 64) as u64);
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

fn put(buf: &mut [u8], lane: usize, width: usize, v: u64) {
    let x = v.to_le_bytes();
    let at = lane * width;
    let n = width.min(buf.len().saturating_sub(at));
    buf[at..at + n].copy_from_slice(&x[..n]);
}
fn get(buf: &[u8], lane: usize, width: usize) -> u64 {
    let mut x = [0u8; 8];
    let at = lane * width;
    let n = width.min(buf.len().saturating_sub(at));
    x[..n].copy_from_slice(&buf[at..at + n]);
    u64::from_le_bytes(x)
}

fn background(kind: usize, rng: &mut Rng, buf: &mut [u8]) {
    match kind % 3 {
        0 => buf.fill(0),
        1 => buf.fill(0xff),
        _ => rng.fill(buf),
    }
}

/// Feeds `sink` a hostile stream of n-byte inputs. `scale` multiplies the work (1.0 = quick).
/// Stops as soon as the sink returns false.
pub fn hostile(n: usize, scale: f64, thorough: bool, rng: &mut Rng, dict: &[u64], sink: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    let mut buf = vec![0u8; n];
    macro_rules! go {
        () => {
            if !sink(&buf) {
                return false;
            }
        };
    }
    let budget = |x: f64| -> usize { ((x * scale) as usize).max(16) };
    // 1. walking bits on clear, set and random backgrounds; all pairs of bits
    for bg in 0..3 {
        for i in 0..n * 8 {
            background(bg, rng, &mut buf);
            go!();
            buf[i / 8] ^= 1 << (i % 8);
            go!();
            let step = if scale >= 1.0 || n <= 8 { 1 } else { 7 };
            let mut j = i + 1;
            while j < n * 8 {
                buf[j / 8] ^= 1 << (j % 8);
                go!();
                buf[j / 8] ^= 1 << (j % 8);
                j += step;
            }
        }
    }
    // 2. every 16-bit lane through all its values
    let lanes16 = n / 2;
    let stride = ((1.0 / scale.min(1.0)) as usize).max(1) | 1;
    for lane in 0..lanes16 {
        for bg in 0..3 {
            let mut v = 0usize;
            while v < 65536 {
                if bg == 2 || v == 0 {
                    background(bg, rng, &mut buf);
                }
                put(&mut buf, lane, 2, v as u64);
                go!();
                v += stride;
            }
        }
    }
    if n == 1 || n == 3 {
        for lane in 0..n {
            for v in 0..256u64 {
                background(2, rng, &mut buf);
                put(&mut buf, lane, 1, v);
                go!();
            }
        }
    }
    // 3. dictionary values in every lane of every width, and in every pair of lanes
    for width in [1usize, 2, 4, 8] {
        let lanes = n.div_ceil(width);
        let d: Vec<u64> = {
            let m = if width == 8 { u64::MAX } else { (1u64 << (8 * width)) - 1 };
            let mut d: Vec<u64> = dict.iter().map(|x| x & m).collect();
            d.sort();
            d.dedup();
            d
        };
        for lane in 0..lanes {
            for bg in 0..3 {
                for v in d.iter() {
                    background(bg, rng, &mut buf);
                    put(&mut buf, lane, width, *v);
                    go!();
                }
            }
        }
        if width >= 4 {
            let cap = budget(600_000.0);
            let pairs = lanes * lanes.saturating_sub(1) / 2;
            let total = pairs * d.len() * d.len();
            if total <= cap || thorough {
                for i in 0..lanes {
                    for j in i + 1..lanes {
                        for a in d.iter() {
                            for b in d.iter() {
                                background(2, rng, &mut buf);
                                put(&mut buf, i, width, *a);
                                put(&mut buf, j, width, *b);
                                go!();
                            }
                        }
                    }
                }
            } else {
                for _ in 0..cap {
                    let (i, j) = (rng.below(lanes), rng.below(lanes));
                    background(2, rng, &mut buf);
                    put(&mut buf, i, width, d[rng.below(d.len())]);
                    put(&mut buf, j, width, d[rng.below(d.len())]);
                    go!();
                }
            }
        }
    }
    // 4. relations between lanes: equal, off by a little, complement, sums that just (do not) overflow
    for width in [1usize, 2, 4, 8] {
        let lanes = n / width;
        if lanes < 2 {
            continue;
        }
        let reps = budget(if width == 4 { 600.0 } else { 60.0 }) / lanes.max(1) + 1;
        for i in 0..lanes {
            for j in 0..lanes {
                if i == j {
                    continue;
                }
                for _ in 0..reps {
                    rng.fill(&mut buf);
                    if rng.below(3) == 0 {
                        put(&mut buf, i, width, dict[rng.below(dict.len())]);
                    }
                    if rng.below(4) == 0 {
                        // small values relate in interesting ways to lengths and offsets
                        put(&mut buf, i, width, rng.next() & 0xff);
                    }
                    let a = get(&buf, i, width);
                    for b in [
                        a,
                        a.wrapping_add(1),
                        a.wrapping_sub(1),
                        !a,
                        a.wrapping_neg(),
                        a.wrapping_neg().wrapping_add(1),
                        a.wrapping_neg().wrapping_sub(1),
                        a << 1,
                        a >> 1,
                        a.swap_bytes(),
                    ] {
                        put(&mut buf, j, width, b);
                        go!();
                    }
                }
            }
        }
    }
    // 5. every pair of bytes through all its values
    if thorough {
        for i in 0..n {
            for j in i + 1..n {
                for v in 0..65536u32 {
                    if v % 256 == 0 {
                        background(if v % 512 == 0 { 2 } else { 0 }, rng, &mut buf);
                    }
                    buf[i] = v as u8;
                    buf[j] = (v >> 8) as u8;
                    go!();
                }
            }
        }
    }
    // 6. random: uniform, sparse, dense, and mutations of the previous case
    for k in 0..budget(if thorough { 80_000_000.0 } else { 4_000_000.0 }) {
        match k % 8 {
            0..=3 => rng.fill(&mut buf),
            4 => {
                buf.fill(0);
                for _ in 0..1 + rng.below(6) {
                    let i = rng.below(n * 8);
                    buf[i / 8] |= 1 << (i % 8);
                }
            }
            5 => {
                buf.fill(0xff);
                for _ in 0..1 + rng.below(6) {
                    let i = rng.below(n * 8);
                    buf[i / 8] &= !(1 << (i % 8));
                }
            }
            6 => {
                for _ in 0..1 + rng.below(3) {
                    let w = [1usize, 2, 4, 8][rng.below(4)];
                    let lanes = n.div_ceil(w);
                    put(&mut buf, rng.below(lanes), w, dict[rng.below(dict.len())]);
                }
            }
            _ => {
                for b in buf.iter_mut() {
                    *b = match rng.below(5) {
                        0 => 0,
                        1 => 0xff,
                        2 => 1,
                        3 => 0x80,
                        _ => *b,
                    };
                }
            }
        }
        go!();
    }
    true
}
