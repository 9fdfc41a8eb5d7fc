//! Monitors over versioned hashes: C20, C21.

use crate::engine::*;
use crate::spec::sha256;
use zk::decoding::{EncodingModeProduction as Prod, EncodingModeTesting as Test};
use zk::{ContractCodeSha256, ContractCodeSha256Storage, VersionedHashDef, VersionedHashGeneric};
use zkevm_opcode_defs as zk;

type Hash = VersionedHashGeneric<ContractCodeSha256>;

// ---------------------------------------------------------------- C20

fn parse(o: &mut Obs, raw: [u8; 32]) -> Verdict {
    let got = Hash::try_create_from_raw(raw);
    let def = <ContractCodeSha256 as VersionedHashDef>::try_deserialize(raw);
    if got.is_some() != (raw[0] == 1) || def.is_some() != (raw[0] == 1) {
        return Err(format!("{}: accepted = {} / {}", hex(&raw), got.is_some(), def.is_some()));
    }
    o.see("version bytes", raw[0] as u64);
    o.see("markers", raw[1] as u64);
    o.see("lengths", u16::from_be_bytes([raw[2], raw[3]]) as u64);
    let Some(h) = got else {
        o.count("rejected");
        return Ok(true);
    };
    o.count("accepted");
    let l = h.layout_ref();
    if l.extra_marker != raw[1] || l.code_length_in_words as u32 != raw[2] as u32 * 256 + raw[3] as u32 || l.partial_hash[..] != raw[4..] || Some(*l) != def {
        return Err(format!("{} parses to {l:?}", hex(&raw)));
    }
    if h.serialize() != Some(raw) {
        return Err(format!("{} re-serializes to {:?}", hex(&raw), h.serialize().map(|x| hex(&x))));
    }
    let mut rest = raw;
    rest[1] = 0;
    if h.serialize_to_stored() != Some(rest) {
        return Err(format!("{} has the stored form {:?}", hex(&raw), h.serialize_to_stored().map(|x| hex(&x))));
    }
    if Hash::try_create_from_raw(rest).and_then(|x| x.serialize()) != Some(rest) {
        return Err(format!("stored form {} does not round-trip", hex(&rest)));
    }
    Ok(true)
}

fn c20_raw(o: &mut Obs, d: &[u8]) -> Verdict {
    let raw: [u8; 32] = d.try_into().unwrap();
    parse(o, raw)?;
    let mut ours = raw;
    ours[0] = 1;
    parse(o, ours)
}

/// layout -> bytes -> layout, digest -> hash
fn c20_layout(o: &mut Obs, d: &[u8]) -> Verdict {
    let digest: [u8; 32] = d[..32].try_into().unwrap();
    let n = u16::from_le_bytes([d[32], d[33]]);
    let layout = ContractCodeSha256Storage { code_length_in_words: n, extra_marker: d[34], partial_hash: digest[4..].try_into().unwrap() };
    let mut want = [0u8; 32];
    want[0] = 1;
    want[1] = d[34];
    want[2] = (n / 256) as u8;
    want[3] = (n % 256) as u8;
    want[4..].copy_from_slice(&digest[4..]);
    if ContractCodeSha256::serialize(layout) != Some(want) {
        return Err(format!("{layout:?} serializes to {:?}", ContractCodeSha256::serialize(layout).map(|x| hex(&x))));
    }
    if ContractCodeSha256::try_deserialize(want) != Some(layout) {
        return Err(format!("{} parses to {:?}", hex(&want), ContractCodeSha256::try_deserialize(want)));
    }
    let mut stored = want;
    stored[1] = 0;
    if ContractCodeSha256::serialize_to_stored(layout) != Some(stored) {
        return Err(format!("{layout:?} has the stored form {:?}", ContractCodeSha256::serialize_to_stored(layout).map(|x| hex(&x))));
    }
    let h = Hash::from_digest_and_preimage_num_words(digest, n);
    if h.serialize() != Some(stored) || h.serialize_to_stored() != Some(stored) {
        return Err(format!("digest {} and length {n} give {:?}", hex(&digest), h.serialize().map(|x| hex(&x))));
    }
    let l = h.layout_ref();
    if l.extra_marker != 0 || l.code_length_in_words != n || l.partial_hash[..] != digest[4..] {
        return Err(format!("digest {} and length {n} give {l:?}", hex(&digest)));
    }
    if ContractCodeSha256::VERSION_BYTE != 1 || ContractCodeSha256::CODE_AT_REST_MARKER != 0 || ContractCodeSha256::YET_CONSTRUCTED_MARKER != 1 {
        return Err("published version byte or markers changed".into());
    }
    o.see("lengths", n as u64);
    o.see("markers", d[34] as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C21

fn code(seed: u64, n: usize) -> Vec<[u8; 32]> {
    let mut rng = Rng::new(seed);
    let mut v = vec![[0u8; 32]; n];
    match seed % 4 {
        0 => v.iter_mut().for_each(|w| rng.fill(w)),
        1 => {} // all zero
        2 => v.iter_mut().for_each(|w| w.fill(0xff)),
        _ => v.iter_mut().enumerate().for_each(|(i, w)| {
            w[..8].copy_from_slice(&(i as u64).to_be_bytes());
            w[31] = rng.next() as u8;
        }),
    }
    v
}

fn expected(words: &[[u8; 32]]) -> [u8; 32] {
    let flat: Vec<u8> = words.iter().flatten().copied().collect();
    let mut h = sha256(&flat);
    h[0] = 1;
    h[1] = 0;
    h[2] = (words.len() >> 8) as u8;
    h[3] = words.len() as u8;
    h
}

fn check(o: &mut Obs, words: &[[u8; 32]]) -> Verdict {
    let n = words.len();
    let ok = n % 2 == 1;
    let a = zk::bytecode_to_code_hash(words);
    let b = zk::bytecode_to_code_hash_for_mode::<8, Prod>(words);
    if a.is_ok() != (ok && n <= 65535) {
        return Err(format!("production: code of {n} words accepted = {}", a.is_ok()));
    }
    if a != b {
        return Err(format!("code of {n} words: the two entry points give {a:?} / {b:?}"));
    }
    let c = zk::bytecode_to_code_hash_for_mode::<16, Test>(words);
    if c.is_ok() != ok {
        return Err(format!("testing: code of {n} words accepted = {}", c.is_ok()));
    }
    o.see("code lengths", n as u64);
    o.count(if a.is_ok() { "hashed" } else { "refused" });
    if let Ok(h) = a {
        let want = expected(words);
        if h != want {
            return Err(format!("code of {n} words (first {}) hashes to {}, expected {}", hex(&words[0]), hex(&h), hex(&want)));
        }
        if c != Ok(want) {
            return Err(format!("testing: code of {n} words hashes to {c:?}, expected {}", hex(&want)));
        }
    }
    Ok(ok)
}

fn c21_lengths(o: &mut Obs, d: &[u8]) -> Verdict {
    let i = index(d);
    let (n, seed) = (i / 4, i as u64);
    check(o, &code(seed, n))
}

fn c21_boundary(o: &mut Obs, d: &[u8]) -> Verdict {
    let lens = [
        255, 256, 257, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 16383, 16385, 32767, 32768, 32769, 49153, 65279, 65281, 65533,
        65534, 65535, 65536, 65537, 65539, 65791, 131071, 131073,
    ];
    let i = index(d);
    let n: usize = lens[i];
    if n > 65535 {
        // testing mode does not bind lengths above 16 bits (documented); production must refuse
        let words = code(i as u64, n);
        let a = zk::bytecode_to_code_hash(&words);
        let b = zk::bytecode_to_code_hash_for_mode::<8, Prod>(&words);
        if a.is_ok() || b.is_ok() {
            return Err(format!("production: code of {n} words is accepted"));
        }
        let c = zk::bytecode_to_code_hash_for_mode::<16, Test>(&words);
        if c.is_ok() != (n % 2 == 1) {
            return Err(format!("testing: code of {n} words accepted = {}", c.is_ok()));
        }
        if let Ok(h) = c {
            let mut want = expected(&words);
            let mut got = h;
            got[2..4].fill(0);
            want[2..4].fill(0);
            if got != want {
                return Err(format!("testing: code of {n} words hashes to {}", hex(&h)));
            }
        }
        o.see("code lengths", n as u64);
        return Ok(true);
    }
    check(o, &code(i as u64, n))
}

/// One long code, and the reference hash state before each of its blocks.
fn long_code() -> &'static (Vec<[u8; 32]>, Vec<[u32; 8]>) {
    static C: std::sync::OnceLock<(Vec<[u8; 32]>, Vec<[u32; 8]>)> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let words = code(4, 131_072);
        let mut h = crate::spec::sha256_start();
        let mut states = vec![h];
        for pair in words.chunks(2) {
            let mut block = [0u8; 64];
            block[..32].copy_from_slice(&pair[0]);
            block[32..].copy_from_slice(&pair[1]);
            crate::spec::sha256_block(&mut h, &block);
            states.push(h);
        }
        (words, states)
    })
}

/// Every length up to 131071: prefixes of one long code.
fn c21_every_length(o: &mut Obs, d: &[u8]) -> Verdict {
    let (words, states) = long_code();
    let part = index(d);
    for k in 0..64 {
        let n = 2 * (part + 512 * k) + 1; // odd, up to 65535
        let h = zk::bytecode_to_code_hash(&words[..n]).map_err(|_| format!("production: code of {n} words is refused"))?;
        let mut want = crate::spec::sha256_finish(states[n / 2], (n / 2) * 64, &words[n - 1]);
        want[0] = 1;
        want[1] = 0;
        want[2] = (n >> 8) as u8;
        want[3] = n as u8;
        if h != want {
            return Err(format!("code of {n} words hashes to {}, expected {}", hex(&h), hex(&want)));
        }
        o.see("code lengths", n as u64);
        o.count("hashed");
        for m in [n - 1, n + 65535, n + 65536] {
            if m > 65535 || m % 2 == 0 {
                if zk::bytecode_to_code_hash(&words[..m]).is_ok() || zk::bytecode_to_code_hash_for_mode::<8, Prod>(&words[..m]).is_ok() {
                    return Err(format!("production: code of {m} words is accepted"));
                }
                if m % 2 == 0 && zk::bytecode_to_code_hash_for_mode::<16, Test>(&words[..m]).is_ok() {
                    return Err(format!("testing: code of {m} words is accepted"));
                }
                o.see("code lengths", m as u64);
                o.count("refused");
            }
        }
    }
    Ok(true)
}

/// short random code: single-bit changes and swaps change the hash
fn c21_sensitivity(o: &mut Obs, d: &[u8]) -> Verdict {
    let seed = index(d) as u64;
    let mut rng = Rng::new(seed ^ 0x21);
    let n = 1 + 2 * rng.below(12);
    let mut words = vec![[0u8; 32]; n];
    words.iter_mut().for_each(|w| rng.fill(w));
    check(o, &words)?;
    let h = zk::bytecode_to_code_hash(&words).map_err(|_| "refused".to_string())?;
    let (i, b) = (rng.below(n), rng.below(256));
    let mut other = words.clone();
    other[i][b / 8] ^= 1 << (b % 8);
    check(o, &other)?;
    if zk::bytecode_to_code_hash(&other) == Ok(h) {
        return Err(format!("flipping bit {b} of word {i} of {n} does not change the hash"));
    }
    if n > 1 {
        let mut other = words.clone();
        other.swap(0, n - 1);
        if zk::bytecode_to_code_hash(&other) == Ok(h) {
            return Err(format!("swapping words of code of {n} words does not change the hash"));
        }
    }
    o.count("altered code compared");
    Ok(true)
}

pub fn probes(id: &str) -> Option<Vec<Probe>> {
    Some(match id {
        "C20" => vec![slow("raw", 32, 0.5, c20_raw), slow("layout", 35, 0.5, c20_layout)],
        "C21" => vec![
            domain("lengths", 4 * 340, c21_lengths),
            domain("boundary", 29, c21_boundary),
            domain("every_length", 512, c21_every_length),
            slow("sensitivity", 4, 0.02, c21_sensitivity),
        ],
        _ => return None,
    })
}
