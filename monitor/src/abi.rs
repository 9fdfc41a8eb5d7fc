//! Monitors over ABI words: C15-C19.

use crate::engine::*;
use zk::ethereum_types::U256;
use zk::{
    FarCallABI, FarCallForwardPageType, FatPointer, FatPointerValidationException as Exc, NearCallABI, PrecompileCallABI,
    PrecompileCallInnerABI, RetABI, RetForwardPageType, VmMetaParameters,
};
use zkevm_opcode_defs as zk;

/// 32 little-endian bytes as a 256-bit integer
pub fn word(d: &[u8]) -> U256 {
    let mut l = [0u64; 4];
    for (i, x) in l.iter_mut().enumerate() {
        *x = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
    }
    U256(l)
}
pub fn bytes_of(x: U256) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&x.0[i].to_le_bytes());
    }
    b
}
/// bytes at..at+n of a little-endian word, by multiplication
fn field(d: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for i in (0..n).rev() {
        v = v.wrapping_mul(256).wrapping_add(d[at + i] as u64);
    }
    v
}
fn u(d: &[u8], at: usize) -> u32 {
    field(d, at, 4) as u32
}

fn pointer_at(d: &[u8]) -> FatPointer {
    FatPointer { offset: u(d, 0), memory_page: u(d, 4), start: u(d, 8), length: u(d, 12) }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, d: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}, word (little-endian bytes) {}", hex(d)))
    }
}

// ---------------------------------------------------------------- C15

fn c15_word(o: &mut Obs, d: &[u8]) -> Verdict {
    let p = FatPointer::from_u256(word(d));
    let want = pointer_at(d);
    eq("unpacked pointer", p, want, d)?;
    let mut low = [0u8; 32];
    low[..16].copy_from_slice(&d[..16]);
    eq("unpacked and packed again", bytes_of(p.to_u256()), low, d)?;
    // a pointer assembled from its parts
    eq("packed pointer", bytes_of(want.to_u256()), low, d)?;
    eq("packed and unpacked", FatPointer::from_u256(want.to_u256()), want, d)?;
    // the upper half never matters
    let mut other = [0u8; 32];
    other.copy_from_slice(d);
    for b in other[16..].iter_mut() {
        *b = !*b;
    }
    eq("pointer with another upper half", FatPointer::from_u256(word(&other)), p, d)?;
    eq("pointer with a clear upper half", FatPointer::from_u256(word(&low)), p, d)?;
    eq("packed width", FatPointer::FAT_POINTER_PACKED_WIDTH, 128, d)?;
    let e = FatPointer::empty();
    eq("empty pointer", (e.offset, e.memory_page, e.start, e.length), (0, 0, 0, 0), d)?;
    eq("packed empty pointer", bytes_of(e.to_u256()), [0u8; 32], d)?;
    o.see("offsets", p.offset as u64);
    o.see("pages", p.memory_page as u64);
    o.see("starts", p.start as u64);
    o.see("lengths", p.length as u64);
    Ok(d[..16].iter().any(|b| *b != 0))
}

// ---------------------------------------------------------------- C16

fn c16_pointer(o: &mut Obs, d: &[u8]) -> Verdict {
    let p = pointer_at(d);
    let (off, start, len) = (p.offset as u128, p.start as u128, p.length as u128);
    for fresh in [false, true] {
        let e = p.validate(fresh);
        let nz = fresh && off != 0;
        let oor = start + len >= 1 << 32;
        let mut want = Exc::empty();
        if nz {
            want |= Exc::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED;
        }
        if oor {
            want |= Exc::DEREF_BEYOND_HEAP_RANGE;
        }
        if e.bits() != want.bits() {
            return Err(format!("{p:?} (fresh = {fresh}): reported {:#b}, expected {:#b}", e.bits(), want.bits()));
        }
        if e.is_empty() && p.validate_in_bounds() && start + off >= start + len {
            return Err(format!("accepted in-bounds pointer {p:?} addresses past its end"));
        }
        o.see("exception sets", (e.bits() << 1) | fresh as u64);
    }
    let (b, s, t) = (p.validate_in_bounds(), p.validate_as_slice(), p.is_trivial());
    if b != (off < len) {
        return Err(format!("{p:?}: in bounds = {b}"));
    }
    if s != (off <= len) {
        return Err(format!("{p:?}: valid slice = {s}"));
    }
    if t != (off == 0 && len == 0) {
        return Err(format!("{p:?}: trivial = {t}"));
    }
    o.see("verdict combinations", b as u64 | (s as u64) << 1 | (t as u64) << 2);
    o.see("orderings of offset, start, length", (off.cmp(&len) as i8 + 1) as u64 | ((off.cmp(&start) as i8 + 1) as u64) << 2 | ((start.cmp(&len) as i8 + 1) as u64) << 4);
    o.count(match (off < len, start + len >= 1 << 32) {
        (true, false) => "addressable pointers",
        (true, true) => "in-bounds pointers of overflowing slices",
        _ => "other pointers",
    });
    Ok(off != 0 || len != 0 || start != 0)
}

fn c16_constants(o: &mut Obs, d: &[u8]) -> Verdict {
    eq("exception bits", (Exc::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED.bits(), Exc::DEREF_BEYOND_HEAP_RANGE.bits()), (1, 2), d)?;
    let e = FatPointer::empty();
    eq("empty pointer", (e.is_trivial(), e.validate_as_slice(), e.validate_in_bounds(), e.validate(true).is_empty()), (true, true, false, true), d)?;
    o.count("constants");
    Ok(true)
}

// ---------------------------------------------------------------- C17

fn far_mode(b: u8) -> FarCallForwardPageType {
    if b == 1 {
        FarCallForwardPageType::ForwardFatPointer
    } else if b == 2 {
        FarCallForwardPageType::UseAuxHeap
    } else {
        FarCallForwardPageType::UseHeap
    }
}
fn ret_mode(b: u8) -> RetForwardPageType {
    if b == 1 {
        RetForwardPageType::ForwardFatPointer
    } else if b == 2 {
        RetForwardPageType::UseAuxHeap
    } else {
        RetForwardPageType::UseHeap
    }
}

fn c17_word(o: &mut Obs, d: &[u8]) -> Verdict {
    let x = word(d);
    let far = FarCallABI::from_u256(x);
    eq("far call pointer", far.memory_quasi_fat_pointer, pointer_at(d), d)?;
    eq("far call ergs", far.ergs_passed, u(d, 24), d)?;
    eq("far call forwarding", far.forwarding_mode, far_mode(d[28]), d)?;
    eq("far call shard", far.shard_id, d[29], d)?;
    eq("far call constructor flag", far.constructor_call, d[30] != 0, d)?;
    eq("far call system flag", far.to_system, d[31] != 0, d)?;
    let ret = RetABI::from_u256(x);
    eq("return pointer", ret.memory_quasi_fat_pointer, pointer_at(d), d)?;
    eq("return forwarding", ret.page_forwarding_mode, ret_mode(d[28]), d)?;
    let near = NearCallABI::from_u256(x);
    eq("near call ergs", near.ergs_passed, u(d, 0), d)?;
    // bits no parser may look at
    let mut other = [0u8; 32];
    other.copy_from_slice(d);
    for b in other[16..24].iter_mut() {
        *b = !*b;
    }
    eq("far call with other unused bits", FarCallABI::from_u256(word(&other)), far, d)?;
    for b in other[24..28].iter_mut().chain([].iter_mut()) {
        *b = !*b;
    }
    for i in 29..32 {
        other[i] = !other[i];
    }
    eq("return with other unused bits", RetABI::from_u256(word(&other)), ret, d)?;
    for b in other[4..].iter_mut() {
        *b ^= 0x5a;
    }
    eq("near call with other unused bits", NearCallABI::from_u256(word(&other)), near, d)?;
    o.see("forwarding bytes", d[28] as u64);
    o.see("shards", d[29] as u64);
    o.see("constructor bytes", d[30] as u64);
    o.see("system bytes", d[31] as u64);
    o.see("ergs", u(d, 24) as u64);
    Ok(d.iter().any(|b| *b != 0))
}

fn c17_modes(o: &mut Obs, d: &[u8]) -> Verdict {
    let b = index(d) as u8;
    eq("far forwarding byte", FarCallForwardPageType::from_u8(b), far_mode(b), d)?;
    eq("return forwarding byte", RetForwardPageType::from_u8(b), ret_mode(b), d)?;
    if b < 3 {
        eq("forwarding codes", (FarCallForwardPageType::from_u8(b) as u8, RetForwardPageType::from_u8(b) as u8), (b, b), d)?;
    }
    let got = (
        zk::FAR_CALL_FORWARDING_MODE_BYTE_IDX,
        zk::FAR_CALL_SHARD_ID_BYTE_IDX,
        zk::FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX,
        zk::FAR_CALL_SYSTEM_CALL_BYTE_IDX,
        zk::RET_FORWARDING_MODE_BYTE_IDX,
    );
    eq("published byte positions", got, (28, 29, 30, 31, 28), d)?;
    o.see("forwarding bytes", b as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C18

fn c18_word(o: &mut Obs, d: &[u8]) -> Verdict {
    let x = word(d);
    let inner = PrecompileCallInnerABI::from_u256(x);
    let want = PrecompileCallInnerABI {
        input_memory_offset: u(d, 0),
        input_memory_length: u(d, 4),
        output_memory_offset: u(d, 8),
        output_memory_length: u(d, 12),
        memory_page_to_read: u(d, 16),
        memory_page_to_write: u(d, 20),
        precompile_interpreted_data: field(d, 24, 8),
    };
    eq("inner precompile call", inner, want, d)?;
    eq("inner precompile call packed again", &bytes_of(inner.to_u256())[..], d, d)?;
    eq("inner precompile call packed", &bytes_of(want.to_u256())[..], d, d)?;
    eq("inner precompile call round trip", PrecompileCallInnerABI::from_u256(want.to_u256()), want, d)?;
    let outer = PrecompileCallABI::from_u256(x);
    let wanto = PrecompileCallABI {
        input_memory_offset: u(d, 0),
        input_memory_length: u(d, 4),
        output_memory_offset: u(d, 8),
        output_memory_length: u(d, 12),
        per_precompile_interpreted: field(d, 24, 8),
    };
    eq("outer precompile call", outer, wanto, d)?;
    let mut other = [0u8; 32];
    other.copy_from_slice(d);
    for b in other[16..24].iter_mut() {
        *b = !*b;
    }
    eq("outer precompile call with other pages", PrecompileCallABI::from_u256(word(&other)), outer, d)?;
    eq(
        "outer and inner form",
        (outer.input_memory_offset, outer.input_memory_length, outer.output_memory_offset, outer.output_memory_length, outer.per_precompile_interpreted),
        (inner.input_memory_offset, inner.input_memory_length, inner.output_memory_offset, inner.output_memory_length, inner.precompile_interpreted_data),
        d,
    )?;
    for (n, at) in [("input offsets", 0), ("input lengths", 4), ("output offsets", 8), ("output lengths", 12), ("pages read", 16), ("pages written", 20)] {
        o.see(n, u(d, at) as u64);
    }
    o.see("precompile data", field(d, 24, 8));
    Ok(d.iter().any(|b| *b != 0))
}

// ---------------------------------------------------------------- C19

fn c19_meta(o: &mut Obs, d: &[u8]) -> Verdict {
    let m = VmMetaParameters {
        ergs_per_pubdata_byte: u(d, 0),
        heap_size: u(d, 4),
        aux_heap_size: u(d, 8),
        this_shard_id: d[12],
        caller_shard_id: d[13],
        code_shard_id: d[14],
    };
    let got = bytes_of(m.to_u256());
    let mut want = [0u8; 32];
    want[..4].copy_from_slice(&d[..4]);
    want[8..16].copy_from_slice(&d[4..12]);
    want[28..31].copy_from_slice(&d[12..15]);
    eq("meta word", got, want, d)?;
    o.see("ergs per pubdata byte", u(d, 0) as u64);
    o.see("heap sizes", u(d, 4) as u64);
    o.see("auxiliary heap sizes", u(d, 8) as u64);
    o.see("shard triples", field(d, 12, 3));
    Ok(d.iter().any(|b| *b != 0))
}

pub fn probes(id: &str) -> Option<Vec<Probe>> {
    Some(match id {
        "C15" => vec![bytes("word", 32, c15_word), slow("low", 16, 1.0, |o, d| {
            let mut b = [0u8; 32];
            b[..16].copy_from_slice(d);
            c15_word(o, &b)
        })],
        "C16" => vec![bytes("pointer", 16, c16_pointer), domain("constants", 1, c16_constants), bytes("slice", 12, |o, d| {
            // offset, start and length only: denser coverage of their relations
            let mut b = [0u8; 16];
            b[..4].copy_from_slice(&d[..4]);
            b[8..16].copy_from_slice(&d[4..12]);
            c16_pointer(o, &b)
        })],
        "C17" => vec![bytes("word", 32, c17_word), domain("modes", 256, c17_modes)],
        "C18" => vec![bytes("word", 32, c18_word)],
        "C19" => vec![bytes("meta", 15, c19_meta)],
        _ => return None,
    })
}
