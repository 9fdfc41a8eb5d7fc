//! Monitors over equality, order and hashing: C30. Values are described by their fields as plain
//! integers (the key); the library's own comparisons are judged against the keys.

use crate::engine::*;
use crate::tables::{spelled, ALL_FORMS};
use crate::world::w;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;
use zk::decoding::VariantMonotonicNumber;
use zk::{
    ContractCodeSha256, ContractCodeSha256Storage, FarCallABI, FarCallForwardPageType, FatPointer, ISAVersion, NearCallABI, OpcodeVariant,
    OpcodeVariantData, PrecompileCallABI, PrecompileCallInnerABI, RetABI, RetForwardPageType, VersionedHashDef, VersionedHashGeneric,
    VmMetaParameters,
};
use zkevm_opcode_defs as zk;

fn digest<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Equality and hashing of two values, one of which may be a copy of the other.
fn equality<T: Eq + Hash + Copy + Debug>(a: &T, b: &T, same: bool) -> Result<(), String> {
    let copy = *a;
    if copy != *a || !(copy == *a) || digest(&copy) != digest(a) {
        return Err(format!("{a:?} differs from its copy"));
    }
    #[allow(clippy::clone_on_copy)]
    let clone = a.clone();
    if clone != *a {
        return Err(format!("{a:?} differs from its clone"));
    }
    if (a == b) != same || (b == a) != same || (a != b) == same {
        return Err(format!("{a:?} and {b:?} compare equal = {}", a == b));
    }
    if same && digest(a) != digest(b) {
        return Err(format!("{a:?} and {b:?} are equal and hash differently"));
    }
    Ok(())
}

fn order<T: Ord + Copy + Debug>(a: &T, b: &T, c: &T, same: bool) -> Result<(), String> {
    let ab = a.cmp(b);
    if (ab == Ordering::Equal) != same {
        return Err(format!("{a:?} and {b:?} order as {ab:?}"));
    }
    if b.cmp(a) != ab.reverse() || a.partial_cmp(b) != Some(ab) || (a < b) != (ab == Ordering::Less) || (a >= b) == (ab == Ordering::Less) {
        return Err(format!("{a:?} and {b:?} order as {ab:?} one way, {:?} the other way", b.cmp(a)));
    }
    let mut v = [*a, *b, *c];
    v.sort();
    for (x, y) in [(0, 1), (1, 2), (0, 2)] {
        if v[x] > v[y] {
            return Err(format!("the order of {a:?}, {b:?}, {c:?} is not transitive"));
        }
    }
    Ok(())
}

const FIELDS: usize = 12;

/// Three field lists: `b` is `a`, or `a` with one or two fields changed; `c` likewise.
fn lists(d: &[u8]) -> [[u64; FIELDS]; 3] {
    let mut a = [0u64; FIELDS];
    for (i, x) in a.iter_mut().enumerate() {
        *x = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()) as u64;
    }
    let change = |a: &[u64; FIELDS], how: &[u8]| {
        let mut b = *a;
        for h in how.chunks(2) {
            let (i, j) = (h[0] as usize % FIELDS, h[1] as usize);
            match h[0] as usize / FIELDS % 5 {
                0 => b[i] ^= 1 << (j % 32),
                1 => b[i] = b[j % FIELDS],
                2 => b.swap(i, j % FIELDS),
                3 => b[i] = b[i].wrapping_add(1 + j as u64) & 0xffff_ffff,
                _ => {}
            }
        }
        b
    };
    let b = change(&a, &d[48..52]);
    let c = change(if d[55] & 1 == 0 { &a } else { &b }, &d[52..54]);
    [a, b, c]
}

fn pointer(f: &[u64]) -> (FatPointer, Vec<u64>) {
    let p = FatPointer { offset: f[0] as u32, memory_page: f[1] as u32, start: f[2] as u32, length: f[3] as u32 };
    (p, f[..4].to_vec())
}

fn judge<T: Ord + Hash + Copy + Debug>(l: &[[u64; FIELDS]; 3], make: impl Fn(&[u64]) -> (T, Vec<u64>)) -> Result<(), String> {
    let [(a, ka), (b, kb), (c, kc)] = [make(&l[0]), make(&l[1]), make(&l[2])];
    equality(&a, &b, ka == kb)?;
    equality(&b, &c, kb == kc)?;
    order(&a, &b, &c, ka == kb)?;
    order(&b, &c, &a, kb == kc)
}

fn c30_values(o: &mut Obs, d: &[u8]) -> Verdict {
    let l = lists(d);
    judge(&l, pointer)?;
    judge(&l, |f| {
        let (p, mut k) = pointer(f);
        let mode = [FarCallForwardPageType::UseHeap, FarCallForwardPageType::ForwardFatPointer, FarCallForwardPageType::UseAuxHeap][f[6] as usize % 3];
        k.extend([f[4], f[5] & 0xff, f[6] % 3, f[7] & 1, f[8] & 1]);
        let x = FarCallABI {
            memory_quasi_fat_pointer: p,
            ergs_passed: f[4] as u32,
            shard_id: f[5] as u8,
            forwarding_mode: mode,
            constructor_call: f[7] & 1 == 1,
            to_system: f[8] & 1 == 1,
        };
        (x, k)
    })?;
    judge(&l, |f| {
        let (p, mut k) = pointer(f);
        let mode = [RetForwardPageType::UseHeap, RetForwardPageType::ForwardFatPointer, RetForwardPageType::UseAuxHeap][f[6] as usize % 3];
        k.push(f[6] % 3);
        (RetABI { memory_quasi_fat_pointer: p, page_forwarding_mode: mode }, k)
    })?;
    judge(&l, |f| (NearCallABI { ergs_passed: f[0] as u32 }, vec![f[0]]))?;
    judge(&l, |f| {
        let x = PrecompileCallABI {
            input_memory_offset: f[0] as u32,
            input_memory_length: f[1] as u32,
            output_memory_offset: f[2] as u32,
            output_memory_length: f[3] as u32,
            per_precompile_interpreted: f[4] << 32 | f[5],
        };
        (x, f[..6].to_vec())
    })?;
    judge(&l, |f| {
        let x = PrecompileCallInnerABI {
            input_memory_offset: f[0] as u32,
            input_memory_length: f[1] as u32,
            output_memory_offset: f[2] as u32,
            output_memory_length: f[3] as u32,
            memory_page_to_read: f[6] as u32,
            memory_page_to_write: f[7] as u32,
            precompile_interpreted_data: f[4] << 32 | f[5],
        };
        (x, f[..8].to_vec())
    })?;
    judge(&l, |f| {
        let x = VmMetaParameters {
            ergs_per_pubdata_byte: f[0] as u32,
            heap_size: f[1] as u32,
            aux_heap_size: f[2] as u32,
            this_shard_id: f[3] as u8,
            caller_shard_id: f[4] as u8,
            code_shard_id: f[5] as u8,
        };
        (x, vec![f[0], f[1], f[2], f[3] & 0xff, f[4] & 0xff, f[5] & 0xff])
    })?;
    judge(&l, |f| {
        let x = OpcodeVariantData { variant_idx: f[0] as usize, num_non_exclusive_flags: f[1] as usize, num_used_immediates: f[2] as usize };
        (x, f[..3].to_vec())
    })?;
    judge(&l, |f| (ISAVersion(f[0] as u8), vec![f[0] & 0xff]))?;
    let v = [l[0][0] as u8, l[1][0] as u8];
    if ISAVersion(v[0]).cmp(&ISAVersion(v[1])) != v[0].cmp(&v[1]) {
        return Err(format!("ISA versions {} and {} do not order by their numbers", v[0], v[1]));
    }
    // hashes have equality, but no order
    let hashes = l.map(|f| {
        let mut partial = [0u8; 28];
        for (i, x) in f[..7].iter().enumerate() {
            partial[4 * i..4 * i + 4].copy_from_slice(&(*x as u32).to_be_bytes());
        }
        let s = ContractCodeSha256Storage { code_length_in_words: f[7] as u16, extra_marker: f[8] as u8, partial_hash: partial };
        let mut k = f[..7].to_vec();
        k.extend([f[7] & 0xffff, f[8] & 0xff]);
        let v = ContractCodeSha256::serialize(s).and_then(VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw);
        (s, v, VariantMonotonicNumber::from_usize(f[0] as usize), k)
    });
    for (x, y) in [(0, 1), (1, 2), (0, 2)] {
        let (x, y) = (&hashes[x], &hashes[y]);
        equality(&x.0, &y.0, x.3 == y.3)?;
        let (Some(hx), Some(hy)) = (x.1, y.1) else { return Err("a serialized hash is refused".into()) };
        equality(&hx, &hy, x.3 == y.3)?;
        equality(&x.2, &y.2, x.3[0] == y.3[0])?;
    }
    o.count(if l[0] == l[1] { "equal values compared" } else { "different values compared" });
    o.see("kinds of change", (d[48] as u64) << 8 | d[49] as u64);
    Ok(true)
}

/// All forms, with their positions in the library's own order.
fn ordered(legal: bool) -> &'static (Vec<OpcodeVariant>, Vec<usize>) {
    static LEGAL: OnceLock<(Vec<OpcodeVariant>, Vec<usize>)> = OnceLock::new();
    static ALL: OnceLock<(Vec<OpcodeVariant>, Vec<usize>)> = OnceLock::new();
    let make = |forms: Vec<OpcodeVariant>| {
        let mut at: Vec<usize> = (0..forms.len()).collect();
        // insertion by library comparison; a nonsensical order must not panic here
        at = merge_sort(&at, &forms);
        let mut position = vec![0; forms.len()];
        for (p, i) in at.iter().enumerate() {
            position[*i] = p;
        }
        (forms, position)
    };
    if legal {
        LEGAL.get_or_init(|| {
            let mut all = w().spec.forms[1].clone();
            let mut seen: std::collections::BTreeSet<String> = Default::default();
            all.extend(w().spec.forms[0].iter().copied());
            all.retain(|f| seen.insert(format!("{f:?}")));
            make(all)
        })
    } else {
        ALL.get_or_init(|| make((0..ALL_FORMS).map(spelled).collect()))
    }
}

fn merge_sort(v: &[usize], forms: &[OpcodeVariant]) -> Vec<usize> {
    if v.len() < 2 {
        return v.to_vec();
    }
    let (a, b) = v.split_at(v.len() / 2);
    let (a, b) = (merge_sort(a, forms), merge_sort(b, forms));
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && forms[a[i]] <= forms[b[j]]) {
            out.push(a[i]);
            i += 1;
        } else {
            out.push(b[j]);
            j += 1;
        }
    }
    out
}

fn pair(forms: &[OpcodeVariant], at: &[usize], i: usize, j: usize) -> Result<(), String> {
    let (a, b) = (&forms[i], &forms[j]);
    equality(a, b, i == j)?;
    equality(&a.opcode, &b.opcode, key(a)[0] == key(b)[0])?;
    equality(&a.src0_operand_type, &b.src0_operand_type, key(a)[1] == key(b)[1])?;
    if a.cmp(b) != at[i].cmp(&at[j]) || a.partial_cmp(b) != Some(at[i].cmp(&at[j])) {
        return Err(format!("the order of forms is not total: {a:?} and {b:?} order as {:?}, their places as {:?}", a.cmp(b), at[i].cmp(&at[j])));
    }
    if (a.opcode.cmp(&b.opcode) == Ordering::Equal) != (key(a)[0] == key(b)[0])
        || a.opcode.cmp(&b.opcode) != b.opcode.cmp(&a.opcode).reverse()
        || (a.src0_operand_type.cmp(&b.src0_operand_type) == Ordering::Equal) != (key(a)[1] == key(b)[1])
    {
        return Err(format!("opcodes or operands of {a:?} and {b:?} order wrongly"));
    }
    Ok(())
}

/// (opcode, source operand) without using the library's comparisons
fn key(f: &OpcodeVariant) -> [usize; 2] {
    use zk::{ImmMemHandlerFlags as Mem, Opcode::*, Operand, RegOrImmFlags as RoI};
    let (family, variant) = match f.opcode {
        Invalid(_) => (0, 0),
        Nop(_) => (1, 0),
        Add(x) => (2, x as usize),
        Sub(x) => (3, x as usize),
        Mul(_) => (4, 0),
        Div(_) => (5, 0),
        Jump(_) => (6, 0),
        Context(x) => (7, x as usize),
        Shift(x) => (8, x as usize),
        Binop(x) => (9, x as usize),
        Ptr(x) => (10, x as usize),
        NearCall(_) => (11, 0),
        Log(x) => (12, x as usize),
        FarCall(x) => (13, x as usize),
        Ret(x) => (14, x as usize),
        UMA(x) => (15, x as usize),
    };
    let operand = match f.src0_operand_type {
        Operand::RegOnly => 0,
        Operand::RegOrImm(RoI::UseRegOnly) => 1,
        Operand::RegOrImm(RoI::UseImm16Only) => 2,
        Operand::Full(Mem::UseRegOnly) => 3,
        Operand::Full(Mem::UseStackWithPushPop) => 4,
        Operand::Full(Mem::UseStackWithOffset) => 5,
        Operand::Full(Mem::UseAbsoluteOnStack) => 6,
        Operand::Full(Mem::UseImm16Only) => 7,
        Operand::Full(Mem::UseCodePage) => 8,
    };
    [family * 256 + variant, operand]
}

/// every legal form against every other
fn c30_legal_forms(o: &mut Obs, d: &[u8]) -> Verdict {
    let (forms, at) = ordered(true);
    let i = index(d);
    if i >= forms.len() {
        return Ok(false);
    }
    for j in 0..forms.len() {
        pair(forms, at, i, j)?;
    }
    o.add("pairs of legal forms", forms.len() as u64);
    Ok(true)
}

/// every form the types can spell against its neighbours in the order and some others
fn c30_all_forms(o: &mut Obs, d: &[u8]) -> Verdict {
    let (forms, at) = ordered(false);
    let i = index(d);
    let mut rng = Rng::new(0x30 + i as u64);
    let subs = w().spec.subs.len();
    let mut n = 0;
    let mut with = |j: usize| {
        n += 1;
        pair(forms, at, i, j)
    };
    // another opcode, source, destination or flags and all else the same
    for step in [1, subs, subs * 9, subs * 81, subs * 162] {
        for k in [1, 2, 3] {
            with((i + k * step) % forms.len())?;
        }
    }
    for _ in 0..24 {
        with(rng.below(forms.len()))?;
    }
    o.add("pairs of spelled forms", n);
    Ok(true)
}

fn c30_small(o: &mut Obs, _d: &[u8]) -> Verdict {
    fn all<T: Ord + Hash + Copy + Debug>(o: &mut Obs, v: &[T]) -> Result<(), String> {
        for (i, a) in v.iter().enumerate() {
            for (j, b) in v.iter().enumerate() {
                equality(a, b, i == j)?;
                for c in v.iter() {
                    order(a, b, c, i == j)?;
                    o.count("triples of small values");
                }
            }
        }
        Ok(())
    }
    let wd = w();
    all(o, &wd.conds)?;
    all(o, &wd.operands)?;
    all(o, &crate::spec::mem_modes())?;
    all(o, &[zk::RegOrImmFlags::UseRegOnly, zk::RegOrImmFlags::UseImm16Only])?;
    all(o, &[FarCallForwardPageType::UseHeap, FarCallForwardPageType::ForwardFatPointer, FarCallForwardPageType::UseAuxHeap])?;
    all(o, &[RetForwardPageType::UseHeap, RetForwardPageType::ForwardFatPointer, RetForwardPageType::UseAuxHeap])?;
    all(o, &wd.spec.subs.iter().map(|s| s.opcode).collect::<Vec<_>>())?;
    macro_rules! family { ($($t:ident: $($v:ident)*),*) => { $( all(o, &[$(zk::$t::$v),*])?; )* } }
    family!(
        BinopOpcode: Xor And Or, ShiftOpcode: Shl Shr Rol Ror, PtrOpcode: Add Sub Pack Shrink,
        ContextOpcode: This Caller CodeAddress Meta ErgsLeft Sp GetContextU128 SetContextU128 SetErgsPerPubdataByte IncrementTxNumber,
        LogOpcode: StorageRead StorageWrite ToL1Message Event PrecompileCall, FarCallOpcode: Normal Delegate Mimic,
        RetOpcode: Ok Revert Panic, UMAOpcode: HeapRead HeapWrite AuxHeapRead AuxHeapWrite FatPointerRead
    );
    all(o, &(0..=255u8).map(ISAVersion).step_by(17).collect::<Vec<_>>())?;
    Ok(true)
}

pub fn probes(id: &str) -> Option<Vec<Probe>> {
    Some(match id {
        "C30" => vec![
            domain("small", 1, c30_small),
            domain("legal_forms", 1200, c30_legal_forms),
            domain("all_forms", ALL_FORMS, c30_all_forms),
            slow("values", 56, 0.1, c30_values),
        ],
        _ => return None,
    })
}
