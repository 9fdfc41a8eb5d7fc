//! Driver of the monitors. One process, one job:
//!   run <ID> <quick|thorough> <seed> <out.json> <k> <n>   explore a property with its probes; this
//!                                                   process takes the k-th of n disjoint parts
//!   replay <ID> <probe> <hex>                       one case again
//!   touch <seed> <threads>                          first use of the shared state, in a random order
//!   purity <seed> <ops>                             the same calls under different histories
//!   marathon <seed> <kind> <calls> <ms>             the same few calls of one kind very often
//!   together <seed> <calls> <threads>              the same table-free calls from several threads at once
//!   digest <seed> <ops> [tablefree|decode]          digest of every call, for comparing builds
//!   small <seed>                                    digest of the shared objects that need no large table
//!   code <seed> <words>                             digest of the hash of a code of that many words
//!   guide <ID> <seed> <execs> <out.json>            coverage-guided inputs for the probes (traced build)
//!   prices                                          the circuit prices the library is compiled with
//! Exit: 0 held, 1 violated, 2 error of the monitor.

use monitor::engine::*;
use monitor::ops;
use std::fmt::Write as _;
#[cfg(feature = "traced")]
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Barrier};

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A probe that never returns is reported like any other violation.
fn hung_probe(out: &str) {
    let out = out.to_string();
    monitor::watch::start(move |probe, data, why| {
        let o = format!("{{\"violation\":{{\"probe\":{},\"data\":{},\"message\":{}}}}}", js(probe), js(&hex(data)), js(&format!("a call {why}")));
        if out.is_empty() || std::fs::write(&out, o).is_err() {
            println!("violated: {probe} {}: a call {why}", hex(data));
        }
    });
}

fn hung_call() {
    monitor::watch::start(|_, _, why| println!("HANG a call {why}"));
}

fn run(id: &str, thorough: bool, seed: u64, out: &str, part: u64, parts: u64) -> i32 {
    let Some(probes) = monitor::probes(id) else {
        eprintln!("no probes for {id}");
        return 2;
    };
    quiet();
    let dict = dictionary();
    hung_probe(out);
    let mut r = Run::new();
    let mut exhausted: Vec<&str> = vec![];
    let mut go = true;
    for (pi, p) in probes.iter().enumerate() {
        if !go {
            break;
        }
        let mut rng = Rng::new(seed ^ hash_bytes(pi as u64, id.as_bytes()));
        match p.input {
            Input::Domain(n) => {
                for i in 0..n {
                    if i as u64 % parts != part {
                        continue;
                    }
                    if !r.case(pi, p, &(i as u64).to_le_bytes()) {
                        go = false;
                        break;
                    }
                }
                if go {
                    exhausted.push(p.name);
                }
            }
            Input::Bytes(n) => {
                go = hostile(n, p.weight, thorough, &mut rng, &dict, &mut |d| {
                    if parts > 1 && hash_bytes(77, d) % parts != part {
                        return true;
                    }
                    r.case(pi, p, d)
                });
            }
        }
    }
    monitor::watch::done();
    let mut o = String::new();
    let _ = write!(o, "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"distinct_cap_overflow\":{},", r.evaluations, r.nontrivial_distinct, r.distinct_overflow);
    let _ = write!(o, "\"dictionary\":{},", dict.len());
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    let _ = write!(o, "\"samples\":{},", list(r.samples.iter().map(|s| js(s)).collect()));
    let _ = write!(o, "\"enumerated_completely\":{},", list(exhausted.iter().map(|s| js(s)).collect()));
    let map = |v: Vec<(String, u64)>| format!("{{{}}}", v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"cases_per_probe\":{},", map(r.per_probe.iter().map(|(k, n)| (k.to_string(), *n)).collect()));
    let _ = write!(o, "\"distinct_values_observed\":{},", map(r.obs.distinct().iter().map(|(k, n)| (k.to_string(), *n as u64)).collect()));
    let _ = write!(o, "\"events_observed\":{},", map(r.obs.counts.iter().map(|(k, n)| (k.to_string(), *n)).collect()));
    match &r.violation {
        None => o.push_str("\"violation\":null}"),
        Some(v) => {
            let _ = write!(o, "\"violation\":{{\"probe\":{},\"data\":{},\"message\":{}}}}}", js(v.probe), js(&hex(&v.data)), js(&v.message));
        }
    }
    if std::fs::write(out, o).is_err() {
        eprintln!("cannot write {out}");
        return 2;
    }
    r.violation.is_some() as i32
}

fn replay(id: &str, name: &str, data: &str) -> i32 {
    let Some(probes) = monitor::probes(id) else { return 2 };
    let Some(p) = probes.iter().find(|p| p.name == name) else { return 2 };
    let Some(d) = unhex(data) else { return 2 };
    quiet();
    hung_probe("");
    match run_probe(p, &mut Obs::new(), &d) {
        Ok(_) => {
            println!("held: {id} {name} {data}");
            0
        }
        Err(m) => {
            println!("violated: {id} {name} {data}: {m}");
            1
        }
    }
}

/// Prints, per thread, the digest of every shared object in the order used.
fn touch(seed: u64, threads: usize) -> i32 {
    let n = ops::TOUCHES.len();
    let barrier = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                let mut order: Vec<usize> = (0..n).collect();
                let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
                if seed % 3 == 1 {
                    // all threads race for the same objects in the same order
                    rng = Rng::new(seed);
                }
                rng.shuffle(&mut order);
                let mut out = vec![];
                b.wait();
                for i in order {
                    if seed % 5 == 4 {
                        for _ in 0..rng.below(2000) {
                            std::hint::spin_loop();
                        }
                    }
                    let r = std::panic::catch_unwind(|| ops::touch(i)).map_err(panic_message);
                    out.push((i, r));
                }
                out
            })
        })
        .collect();
    let mut bad = false;
    for (t, h) in hs.into_iter().enumerate() {
        let Ok(v) = h.join() else { return 2 };
        for (i, r) in v {
            match r {
                Ok(d) => println!("{t} {i} {d:016x}"),
                Err(m) => {
                    bad = true;
                    println!("{t} {i} panic {m}");
                }
            }
        }
    }
    bad as i32
}

type Res = Vec<Result<u64, String>>;

fn in_order(l: &[ops::Op], order: &[usize]) -> Res {
    let mut r: Res = vec![Ok(0); l.len()];
    for i in order {
        r[*i] = ops::observe(&l[*i]);
    }
    r
}

/// The same calls in other histories: reversed, shuffled, repeated, grouped, concurrent.
fn purity(seed: u64, n: usize) -> i32 {
    quiet();
    hung_call();
    let dict = dictionary();
    let kinds: Vec<usize> = (0..ops::KINDS.len()).collect();
    let l = Arc::new(ops::list(seed, n, &kinds, &dict));
    let fwd: Vec<usize> = (0..n).collect();
    let base = Arc::new(in_order(&l, &fwd));
    let mut rng = Rng::new(seed ^ 0x9999);
    let mut calls = n as u64;
    let report = |what: &str, i: usize, a: &Result<u64, String>, b: &Result<u64, String>| {
        println!("IMPURE {what}: call {i} ({} with {:x?}) gave {a:x?} first and {b:x?} later", ops::KINDS[l[i].kind], l[i].args);
        1
    };
    let mut histories: Vec<(&str, Vec<usize>)> = vec![];
    let mut rev = fwd.clone();
    rev.reverse();
    histories.push(("reversed history", rev));
    let mut g = fwd.clone();
    g.sort_by_key(|i| l[*i].kind);
    histories.push(("calls grouped by kind", g));
    let mut g = fwd.clone();
    g.sort_by_key(|i| l[*i].args);
    histories.push(("calls grouped by arguments", g));
    for _ in 0..3 {
        let mut s = fwd.clone();
        rng.shuffle(&mut s);
        histories.push(("shuffled history", s));
    }
    for (what, h) in histories.iter() {
        let r = in_order(&l, h);
        calls += n as u64;
        for i in 0..n {
            if r[i] != base[i] {
                return report(what, i, &base[i], &r[i]);
            }
        }
    }
    // every call twice in a row
    for i in 0..n {
        for _ in 0..2 {
            let r = ops::observe(&l[i]);
            calls += 1;
            if r != base[i] {
                return report("repeated call", i, &base[i], &r);
            }
        }
    }
    // concurrently
    for round in 0..3u64 {
        let threads = 8;
        let b = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (l, base, b) = (l.clone(), base.clone(), b.clone());
                let seed = seed ^ (round * 100 + t as u64);
                std::thread::spawn(move || {
                    let mut order: Vec<usize> = (0..l.len()).collect();
                    if round > 0 {
                        Rng::new(seed).shuffle(&mut order);
                    }
                    b.wait();
                    for i in order {
                        let r = ops::observe(&l[i]);
                        if r != base[i] {
                            return Some((i, r));
                        }
                    }
                    None
                })
            })
            .collect();
        for h in hs {
            let Ok(x) = h.join() else { return 2 };
            calls += n as u64;
            if let Some((i, r)) = x {
                return report("concurrent calls", i, &base[i], &r);
            }
        }
    }
    let mut seen: std::collections::BTreeSet<usize> = Default::default();
    let mut digs: std::collections::HashSet<u64> = Default::default();
    for (i, op) in l.iter().enumerate() {
        seen.insert(op.kind);
        if let Ok(d) = base[i] {
            digs.insert(d);
        }
    }
    let distinct: std::collections::HashSet<(usize, [u64; 4])> = l.iter().map(|o| (o.kind, o.args)).collect();
    println!("PURE calls={calls} distinct_calls={} distinct_results={} kinds={} histories={} concurrent_threads=24", distinct.len(), digs.len(), seen.len(), histories.len() + 2);
    0
}

/// Long histories: a few calls of one kind again and again, `n` calls in all, every result
/// compared with its first. Stops after `ms` milliseconds.
fn marathon(seed: u64, kind: usize, n: u64, ms: u64) -> i32 {
    quiet();
    hung_call();
    let dict = dictionary();
    let mut l = ops::list(seed ^ (kind as u64) << 32, 12, &[kind], &dict);
    if kind == 25 {
        // one of each of the groups of functions behind this kind
        for (i, o) in l.iter_mut().enumerate() {
            o.args[0] = i as u64;
        }
    }
    let base: Res = l.iter().map(ops::observe).collect();
    let t = std::time::Instant::now();
    let mut done = 0u64;
    while done < n && (done % 4096 != 0 || t.elapsed().as_millis() < ms as u128) {
        let i = (done % l.len() as u64) as usize;
        let r = ops::observe(&l[i]);
        done += 1;
        if r != base[i] {
            println!(
                "IMPURE long history: call {done} ({} with {:x?}) gave {:x?} first and {r:x?} later",
                ops::KINDS[kind], l[i].args, base[i]
            );
            return 1;
        }
    }
    println!("PURE calls={done} kind={kind}");
    0
}

/// Every thread makes the same calls with nothing in between; cheap enough for an interpreter.
fn together(seed: u64, n: usize, threads: usize) -> i32 {
    quiet();
    hung_call();
    let dict: Vec<u64> = (0..64).map(|i| 1u64 << i).chain([0, u64::MAX, u32::MAX as u64]).collect();
    let l = Arc::new(ops::list(seed, n, &ops::TABLE_FREE, &dict));
    let b = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (l, b) = (l.clone(), b.clone());
            std::thread::spawn(move || {
                b.wait();
                l.iter().map(ops::observe).collect::<Res>()
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        let Ok(r) = h.join() else { return 2 };
        all.push(r);
    }
    for r in &all {
        for (i, x) in r.iter().enumerate() {
            if *x != all[0][i] || x.is_err() {
                println!("DIFFERS call {i} ({} with {:x?}): {:x?} and {x:x?}", ops::KINDS[l[i].kind], l[i].args, all[0][i]);
                return 1;
            }
        }
    }
    println!("TOGETHER calls={} threads={threads}", n * threads);
    0
}

fn digest(seed: u64, n: usize, mode: &str) -> i32 {
    quiet();
    hung_call();
    let dict = if mode != "" { (0..64).map(|i| 1u64 << i).chain([0, u64::MAX, u32::MAX as u64]).collect() } else { dictionary() };
    let kinds: Vec<usize> = match mode {
        "tablefree" => ops::TABLE_FREE.to_vec(),
        "decode" => vec![0, 1, 2, 3, 7],
        _ => (0..ops::KINDS.len()).collect(),
    };
    let l = ops::list(seed, n, &kinds, &dict);
    let mut bad = 0;
    let mut out = String::new();
    for (i, op) in l.iter().enumerate() {
        match ops::observe(op) {
            Ok(d) => {
                let _ = writeln!(out, "{i} {} {d:016x}", op.kind);
            }
            Err(m) => {
                bad = 1;
                let _ = writeln!(out, "{i} {} PANIC {} with {:x?}: {}", op.kind, ops::KINDS[op.kind], op.args, m.replace('\n', " "));
            }
        }
    }
    print!("{out}");
    bad
}

fn each(name: &str, n: impl Iterator<Item = usize>, of: impl Fn(usize) -> u64) -> i32 {
    quiet();
    let mut bad = 0;
    for i in n {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| of(i))).map_err(panic_message) {
            Ok(d) => println!("{name} {i} {d:016x}"),
            Err(m) => {
                bad = 1;
                println!("{name} {i} PANIC {}", m.replace('\n', " "));
            }
        }
    }
    bad
}

#[cfg(feature = "traced")]
fn guide(id: &str, seed: u64, execs: u64, out: &str) -> i32 {
    let Some(probes) = monitor::probes(id) else { return 2 };
    quiet();
    hung_probe(out);
    let now = std::fs::File::create(format!("{out}.now")).ok();
    let g = monitor::guide::guide(&probes, seed, execs, &dictionary(), &mut |p, d| {
        // should the process die, this is the case it died of
        if let Some(f) = &now {
            let _ = f.write_all_at(format!("{:<16}{:<80}", p.name, hex(d)).as_bytes(), 0);
        }
    });
    monitor::watch::done();
    let mut o = String::new();
    let pp: Vec<String> = g.per_probe.iter().map(|(n, k, c)| format!("{}:{{\"execs\":{k},\"kept\":{c}}}", js(n))).collect();
    let _ = write!(
        o,
        "{{\"execs\":{},\"kept\":{},\"branches_reached\":{},\"comparison_states\":{},\"branches_instrumented\":{},\"comparisons_observed\":{},\"per_probe\":{{{}}},\"samples\":[{}],",
        g.execs, g.corpus, g.counts[0], g.counts[1], g.counts[2], g.counts[3], pp.join(","),
        g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    match &g.violation {
        None => o.push_str("\"violation\":null}"),
        Some(v) => {
            let _ = write!(o, "\"violation\":{{\"probe\":{},\"data\":{},\"message\":{}}}}}", js(v.probe), js(&hex(&v.data)), js(&v.message));
        }
    }
    if std::fs::write(out, o).is_err() {
        return 2;
    }
    g.violation.is_some() as i32
}

fn prices() -> i32 {
    use zkevm_opcode_defs::{circuit_prices as c, system_params as p};
    macro_rules! show { ($($m:ident :: $n:ident),*) => { $( println!("{} {}", stringify!($n), $m::$n); )* } }
    show!(
        c::VM_CYCLE_COST_IN_ERGS, c::RAM_PERMUTATION_COST_IN_ERGS, c::CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS,
        c::STORAGE_APPLICATION_COST_IN_ERGS, c::CODE_DECOMMITTER_SORTER_COST_IN_ERGS, c::LOG_DEMUXER_COST_IN_ERGS,
        c::STORAGE_SORTER_COST_IN_ERGS, c::EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS,
        c::INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS, c::REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
        c::CODE_DECOMMITMENT_SORTER_COST_IN_ERGS, c::L1_MESSAGE_MIN_COST_IN_ERGS,
        c::INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS, c::REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
        c::STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS, c::KECCAK256_CIRCUIT_COST_IN_ERGS, c::SHA256_CIRCUIT_COST_IN_ERGS,
        c::ECRECOVER_CIRCUIT_COST_IN_ERGS
    );
    println!("--");
    show!(
        p::ERGS_PER_CIRCUIT, p::MAX_TX_ERGS_LIMIT, p::MAX_PUBDATA_PER_BLOCK, p::INITIAL_STORAGE_WRITE_PUBDATA_BYTES,
        p::REPEATED_STORAGE_WRITE_PUBDATA_BYTES
    );
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "run" => {
            let parts = if s(7).is_empty() { 1 } else { num(7).max(1) };
            run(s(2), s(3) == "thorough", num(4), s(5), if s(6).is_empty() { 0 } else { num(6) % parts }, parts)
        }
        #[cfg(feature = "traced")]
        "guide" => guide(s(2), num(3), num(4), s(5)),
        "prices" => prices(),
        "replay" => replay(s(2), s(3), s(4)),
        "touch" => touch(num(2), num(3) as usize),
        "together" => together(num(2), num(3) as usize, num(4) as usize),
        "marathon" => marathon(num(2), num(3) as usize % ops::KINDS.len(), num(4), num(5)),
        "purity" => purity(num(2), num(3) as usize),
        "small" => each("object", ops::SMALL.into_iter(), ops::touch),
        "code" => each("words", std::iter::once(num(3) as usize), |n| ops::code_of(n, num(2))),
        "digest" => digest(num(2), num(3) as usize, s(4)),
        _ => {
            eprintln!("usage: monitor run|replay|touch|purity|digest ...");
            2
        }
    };
    std::process::exit(code);
}
