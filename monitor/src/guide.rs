//! Guided workload: inputs that make the observed code take a new branch, or bring two compared
//! values closer together, are kept and mutated further. Built with the compiler's coverage
//! instrumentation (feature `traced`); the verdict is the probes' own.

use crate::engine::*;

pub struct Guided {
    pub execs: u64,
    pub corpus: u64,
    pub counts: [u64; 4],
    pub per_probe: Vec<(&'static str, u64, u64)>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
}

fn set_bits(buf: &mut [u8], at: usize, width: usize, v: u64) {
    for i in 0..width {
        let p = at + i;
        if p >= buf.len() * 8 {
            break;
        }
        let bit = ((v >> i) & 1) as u8;
        buf[p / 8] = buf[p / 8] & !(1 << (p % 8)) | bit << (p % 8);
    }
}
fn get_bits(buf: &[u8], at: usize, width: usize) -> u64 {
    (0..width).filter(|i| at + i < buf.len() * 8).map(|i| (((buf[(at + i) / 8] >> ((at + i) % 8)) & 1) as u64) << i).sum()
}

fn mutate(buf: &mut [u8], rng: &mut Rng, dict: &[u64], other: &[u8]) {
    let bits = buf.len() * 8;
    let steps = [1, 1, 1, 2, 2, 3, 4, 8][rng.below(8)];
    for _ in 0..steps {
        let width = [3, 4, 8, 11, 16, 16, 32, 32, 64, 64][rng.below(10)];
        let align = [1, 4, 8, 16, 32, 64][rng.below(6)];
        let at = rng.below(bits) / align * align;
        match rng.below(9) {
            0 | 1 => {
                let i = rng.below(bits);
                buf[i / 8] ^= 1 << (i % 8);
            }
            2 => set_bits(buf, at, width, dict[rng.below(dict.len())]),
            3 | 4 => {
                // one side of an observed comparison, where the other side is found, or anywhere
                if let Some((a, b)) = tracer::pair(rng.next() as u32) {
                    let (a, b) = if rng.below(2) == 0 { (a, b) } else { (b, a) };
                    let mut pos = at;
                    for _ in 0..16 {
                        let p = rng.below(bits) / 4 * 4;
                        if get_bits(buf, p, width) == a & (u64::MAX >> (64 - width)) {
                            pos = p;
                            break;
                        }
                    }
                    set_bits(buf, pos, width, b);
                }
            }
            5 => {
                let v = get_bits(buf, at, width).wrapping_add(rng.below(17) as u64).wrapping_sub(8);
                set_bits(buf, at, width, v);
            }
            6 => {
                let from = rng.below(bits) / align * align;
                let v = get_bits(buf, from, width);
                set_bits(buf, at, width, [v, !v, v.wrapping_neg()][rng.below(3)]);
            }
            7 => {
                let (i, j) = (rng.below(buf.len()), rng.below(buf.len()));
                let (i, j) = (i.min(j), i.max(j));
                buf[i..=j].copy_from_slice(&other[i..=j]);
            }
            _ => {
                let v = rng.next();
                set_bits(buf, at, width, v);
            }
        }
    }
}

pub fn guide(probes: &[Probe], seed: u64, execs: u64, dict: &[u64], before: &mut dyn FnMut(&Probe, &[u8])) -> Guided {
    let mut g = Guided { execs: 0, corpus: 0, counts: [0; 4], per_probe: vec![], samples: vec![], violation: None };
    for (pi, p) in probes.iter().enumerate() {
        let Input::Bytes(n) = p.input else { continue };
        let mut rng = Rng::new(seed ^ hash_bytes(pi as u64, p.name.as_bytes()));
        let mut obs = Obs::new();
        let mut corpus: Vec<Vec<u8>> = vec![vec![0; n], vec![0xff; n]];
        for _ in 0..6 {
            let mut b = vec![0; n];
            rng.fill(&mut b);
            corpus.push(b);
        }
        tracer::reset();
        let mut last = 0;
        tracer::fresh(&mut last);
        let budget = ((execs as f64 * p.weight) as u64).max(2000);
        let mut k = 0u64;
        while k < budget {
            let buf = if (k as usize) < corpus.len().min(8) {
                corpus[k as usize].clone()
            } else {
                // the newest entries are the most promising
                let c = corpus.len();
                let i = if rng.below(2) == 0 { c - 1 - rng.below(c.min(24)) } else { rng.below(c) };
                let mut b = corpus[i].clone();
                let other = corpus[rng.below(c)].clone();
                mutate(&mut b, &mut rng, dict, &other);
                b
            };
            before(p, &buf);
            tracer::set(true);
            let v = run_probe(p, &mut obs, &buf);
            tracer::set(false);
            k += 1;
            g.execs += 1;
            if let Err(message) = v {
                g.violation = Some(Violation { probe: p.name, data: buf, message });
                g.counts = tracer::counts();
                return g;
            }
            if tracer::fresh(&mut last) && corpus.len() < 200_000 {
                corpus.push(buf);
            }
        }
        if let Some(b) = corpus.last() {
            g.samples.push(format!("{}:{}", p.name, hex(b)));
        }
        g.corpus += corpus.len() as u64;
        g.per_probe.push((p.name, k, corpus.len() as u64));
    }
    g.counts = tracer::counts();
    g
}
