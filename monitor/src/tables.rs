//! Monitors over tables, properties and published constants: C06-C11, C22-C24.

use crate::engine::*;
use crate::spec::{self, mode, same_meaning};
use crate::world::w;
use std::collections::{HashMap, HashSet};
use zk::{
    ISAVersion, ImmMemHandlerFlags as Mem, Opcode, OpcodeProps, OpcodeVariant, OpcodeVariantProps, Operand,
    RegOrImmFlags as RoI,
};
use zkevm_opcode_defs as zk;

pub const VERSIONS: [ISAVersion; 2] = [ISAVersion(0), ISAVersion(1)];

/// evaluates `$e` with `$s` bound to the opcode's own type
macro_rules! inner {
    ($op:expr, $s:ident => $e:expr) => {
        match $op {
            Opcode::Invalid($s) => $e,
            Opcode::Nop($s) => $e,
            Opcode::Add($s) => $e,
            Opcode::Sub($s) => $e,
            Opcode::Mul($s) => $e,
            Opcode::Div($s) => $e,
            Opcode::Jump($s) => $e,
            Opcode::Context($s) => $e,
            Opcode::Shift($s) => $e,
            Opcode::Binop($s) => $e,
            Opcode::Ptr($s) => $e,
            Opcode::NearCall($s) => $e,
            Opcode::Log($s) => $e,
            Opcode::FarCall($s) => $e,
            Opcode::Ret($s) => $e,
            Opcode::UMA($s) => $e,
        }
    };
}

fn ensure(ok: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

pub fn synth(version: usize, width: usize) -> Vec<OpcodeVariant> {
    zk::synthesize_opcode_decoding_tables(width, VERSIONS[version])
}

use std::sync::OnceLock;
static TABLES: OnceLock<[Vec<OpcodeVariant>; 2]> = OnceLock::new();
/// the library's 11-bit table of each ISA version
fn lib_tables() -> &'static [Vec<OpcodeVariant>; 2] {
    TABLES.get_or_init(|| [synth(0, 11), synth(1, 11)])
}

/// every form the types can spell: 45 opcodes x 9 x 9 operand spellings x 4 flag settings
pub const ALL_FORMS: usize = 45 * 9 * 9 * 4;
pub fn spelled(i: usize) -> OpcodeVariant {
    let wd = w();
    let n = wd.spec.subs.len();
    let (op, r) = (i % n, i / n);
    let (s, r) = (r % 9, r / 9);
    let (d, f) = (r % 9, r / 9);
    OpcodeVariant {
        opcode: wd.spec.subs[op].opcode,
        src0_operand_type: wd.operands[s],
        dst0_operand_type: wd.operands[d],
        flags: [f & 1 == 1, f & 2 == 2],
    }
}

// ---------------------------------------------------------------- C06

struct Legal {
    sets: [HashSet<OpcodeVariant>; 2],
    /// form -> numbers it has in the library's table
    at: [HashMap<OpcodeVariant, Vec<usize>>; 2],
}
static LEGAL: OnceLock<Legal> = OnceLock::new();
fn legal() -> &'static Legal {
    LEGAL.get_or_init(|| {
        let wd = w();
        let sets = [0, 1].map(|v| wd.spec.forms[v].iter().copied().collect::<HashSet<_>>());
        let at = [0, 1].map(|v| {
            let mut m: HashMap<OpcodeVariant, Vec<usize>> = HashMap::new();
            for (i, f) in lib_tables()[v].iter().enumerate() {
                m.entry(*f).or_default().push(i);
            }
            m
        });
        Legal { sets, at }
    })
}

/// one spelled form: in the table exactly once if legal, never otherwise; the maps say the same
fn c06_form(o: &mut Obs, d: &[u8]) -> Verdict {
    let f = spelled(index(d));
    let l = legal();
    let invalid = spec::invalid();
    let mut any = false;
    for v in 0..2 {
        let is_legal = l.sets[v].contains(&f);
        let at: &[usize] = l.at[v].get(&f).map(|x| &x[..]).unwrap_or(&[]);
        if f == invalid {
            ensure(at.first() == Some(&0), || format!("version {v}: number 0 is not the invalid opcode"))?;
            continue;
        }
        any |= is_legal;
        ensure(at.len() == is_legal as usize, || {
            format!("version {v}: form {f:?} is {} but has the opcode numbers {at:?}", if is_legal { "legal" } else { "not legal" })
        })?;
    }
    let at = zk::OPCODES_TABLE.iter().position(|x| *x == f);
    let canonical = zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&f).copied();
    let monotonic = zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&f).map(|x| x.into_usize());
    ensure(canonical == at, || format!("form {f:?}: table number {at:?}, lookup map {canonical:?}"))?;
    ensure(monotonic == at, || format!("form {f:?}: table number {at:?}, number map {monotonic:?}"))?;
    ensure(at.is_some() == (l.sets[1].contains(&f)), || format!("form {f:?}: shared table number {at:?}"))?;
    o.see("spelled forms", index(d) as u64);
    if any {
        o.see("legal forms", index(d) as u64);
    }
    Ok(any)
}

/// one opcode number: invalid past the last legal form, legal before; maps invert the table
fn c06_number(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let n = index(d);
    let invalid = spec::invalid();
    for v in 0..2 {
        let t = &lib_tables()[v];
        ensure(t.len() == spec::TABLE_LEN, || format!("version {v}: table of {} numbers", t.len()))?;
        let assigned = n < wd.spec.forms[v].len() && n != 0;
        ensure((t[n] == invalid) != assigned, || format!("version {v}: number {n} is {:?}", t[n]))?;
        ensure(matches!(t[n].opcode, Opcode::Invalid(_)) != assigned, || format!("version {v}: number {n} is {:?}", t[n]))?;
    }
    let f = zk::OPCODES_TABLE[n];
    ensure(f == lib_tables()[1][n], || format!("shared table differs from the version 1 table at {n}"))?;
    let want = if f == invalid { 0 } else { n };
    let a = zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&f).copied();
    let b = zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&f).map(|x| x.into_usize());
    ensure(a == Some(want) && b == Some(want), || format!("number {n} holds {f:?}, which the maps put at {a:?} / {b:?}"))?;
    let total = wd.spec.forms[1].len();
    ensure(
        zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() == total && zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() == total,
        || format!("the maps know {} / {} forms, there are {total}", zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len(), zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len()),
    )?;
    ensure(zk::INVALID_OPCODE_VARIANT == invalid, || format!("published invalid form {:?}", zk::INVALID_OPCODE_VARIANT))?;
    o.see("opcode numbers", n as u64);
    Ok(n < total)
}

// ---------------------------------------------------------------- C07

fn c07_number(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let n = index(d);
    for v in 0..2 {
        let got = lib_tables()[v][n];
        let want = wd.spec.at(v, n);
        ensure(got == want, || format!("version {v}: opcode number {n} means {got:?}, the instruction set says {want:?}"))?;
    }
    let (a, b) = (lib_tables()[0][n], lib_tables()[1][n]);
    if n < wd.spec.forms[0].len() {
        ensure(same_meaning(&a, &b), || format!("opcode number {n} means {a:?} in version 0 but {b:?} in version 1"))?;
    } else {
        ensure(a == spec::invalid(), || format!("version 0: number {n} is {a:?}"))?;
    }
    ensure(zk::OPCODES_TABLE[n] == wd.spec.at(1, n), || format!("shared table: number {n} means {:?}", zk::OPCODES_TABLE[n]))?;
    ensure(zk::DEFAULT_ISA_VERSION == ISAVersion(1), || format!("default ISA version {:?}", zk::DEFAULT_ISA_VERSION))?;
    let f = wd.spec.at(1, n);
    let want = if f == spec::invalid() { 0 } else { n };
    let a = zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&f).copied();
    let b = zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&f).map(|x| x.into_usize());
    ensure(a == Some(want) && b == Some(want), || format!("form {f:?} has number {want}, the maps say {a:?} / {b:?}"))?;
    o.see("opcode numbers", n as u64);
    Ok(n < wd.spec.forms[1].len())
}

/// wider tables only append invalid opcodes; synthesis repeated gives the same; legacy agrees
fn c07_width(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let i = index(d);
    let width = 11 + i / 3;
    let (t, v, what) = match i % 3 {
        0 => (synth(0, width), 0, "version 0 table"),
        1 => (synth(1, width), 1, "version 1 table"),
        _ => (zk::synthesize_opcode_decoding_tables_legacy(width, VERSIONS[0]), 0, "legacy version 0 table"),
    };
    ensure(t.len() == 1 << width, || format!("{what} of width {width} has {} entries", t.len()))?;
    for (n, f) in t.iter().enumerate() {
        let want = wd.spec.at(v, n);
        ensure(*f == want, || format!("{what} of width {width}: number {n} is {f:?}, expected {want:?}"))?;
    }
    o.see("tables (kind, width)", i as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C08

fn c08_form(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let i = index(d);
    for v in 0..2 {
        let forms = &wd.spec.forms[v];
        let f = forms[i % forms.len()];
        let got = zk::synthesize_bit_decomposition_table(&[f], VERSIONS[v]);
        let want = wd.spec.mask(&f);
        ensure(got == vec![want], || format!("version {v}: mask of {f:?} is {got:x?}, its properties are {want:#x}"))?;
        // one-hot groups, stated without the reference mask
        let m = got[0];
        let group = |at: usize, n: usize| ((m >> at) & ((1u64 << n) - 1)).count_ones();
        ensure(
            group(0, 16) == 1 && group(16, 10) == 1 && group(28, 6) == 1 && group(34, 4) == 1 && group(38, 10) == 0 && m >> 51 == 0,
            || format!("version {v}: mask {m:#x} of {f:?} is not one-hot"),
        )?;
    }
    o.see("forms", i as u64);
    Ok(true)
}

fn c08_number(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let n = index(d);
    let f = zk::OPCODES_TABLE[n];
    let got = zk::OPCODES_PROPS_INTEGER_BITMASKS[n];
    let want = wd.spec.mask(&f);
    ensure(got == want, || format!("opcode number {n} ({f:?}) has mask {got:#x}, its properties are {want:#x}"))?;
    o.see("opcode numbers", n as u64);
    o.see("masks", got);
    Ok(n < wd.spec.forms[1].len())
}

/// arbitrary lists of forms, in arbitrary order and multiplicity
fn c08_lists(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let mut rng = Rng::new(index(d) as u64);
    let v = rng.below(2);
    let forms = &wd.spec.forms[v];
    let n = rng.below(40);
    let list: Vec<OpcodeVariant> = (0..n).map(|_| forms[rng.below(forms.len())]).collect();
    let got = zk::synthesize_bit_decomposition_table(&list, VERSIONS[v]);
    ensure(got.len() == n, || format!("{} masks for {n} forms", got.len()))?;
    for (f, m) in list.iter().zip(got.iter()) {
        ensure(*m == wd.spec.mask(f), || format!("version {v}: in a list, mask of {f:?} is {m:#x}"))?;
    }
    o.see("lists", index(d) as u64);
    Ok(n > 0)
}

/// forms with equal masks behave alike, and conversely
fn c08_distinct(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let v = index(d);
    let forms = &wd.spec.forms[v];
    let masks = zk::synthesize_bit_decomposition_table(forms, VERSIONS[v]);
    for i in 0..forms.len() {
        for j in i + 1..forms.len() {
            if masks[i] == masks[j] {
                return Err(format!("version {v}: {:?} and {:?} have the same mask {:#x}", forms[i], forms[j], masks[i]));
            }
        }
    }
    o.add("pairs of masks compared", (forms.len() * (forms.len() - 1) / 2) as u64);
    Ok(true)
}

fn numbers_in(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn c08_widths(o: &mut Obs, d: &[u8]) -> Verdict {
    let v = VERSIONS[index(d)];
    let pairs: Vec<(&str, usize, usize)> = vec![
        ("largest number of variants", zk::max_num_variants_for_version(v), spec::MAX_VARIANTS),
        ("largest number of flags", zk::max_num_flags_for_version(v), spec::MAX_FLAGS),
        ("description bits", zk::total_description_bits_for_version(v), spec::DESC_BITS),
        ("rounded description bits", zk::total_description_bits_rounded_for_version(v), spec::DESC_BITS_ROUNDED),
        ("description and auxiliary bits", zk::total_opcode_description_and_aux_bits_for_version(v), spec::DESC_BITS_ROUNDED + 3),
        ("auxiliary bits", zk::TOTAL_AUX_BITS, 3),
        ("kernel flag index", zk::KERNER_MODE_FLAG_IDX, 0),
        ("static flag index", zk::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX, 1),
        ("panic flag index", zk::EXPLICIT_PANIC_FLAG_IDX, 2),
        ("kernel flag bits", zk::KERNEL_MODE_FLAG_BITS, 1),
        ("static flag bits", zk::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS, 1),
        ("panic flag bits", zk::EXPLICIT_PANIC_FLAG_BITS, 1),
        ("opcode type bits", zk::OPCODE_TYPE_BITS, spec::FAMILIES),
        ("opcode families", zk::NUM_OPCODES, spec::FAMILIES),
        ("logical opcodes", *zk::NUM_LOGICAL_OPCODES, spec::FAMILIES),
        ("input modes", zk::OPCODE_INPUT_VARIANT_FLAGS, spec::SRC_MODES),
        ("input variants", *zk::NUM_INPUT_VARIANTS, spec::SRC_MODES),
        ("source variants", Mem::num_src_variants(), spec::SRC_MODES),
        ("output modes", zk::OPCODE_OUTPUT_VARIANT_FLAGS, spec::DST_MODES),
        ("output variants", *zk::NUM_OUTPUT_VARIANTS, spec::DST_MODES),
        ("destination variants", Mem::num_dst_variants(), spec::DST_MODES),
    ];
    for (what, got, want) in pairs.iter() {
        ensure(got == want, || format!("version {v:?}: {what} {got}, the masks use {want}"))?;
    }
    let text = zk::compute_decoding_format(v);
    let nums = numbers_in(&text);
    let want = [spec::DESC_BITS, spec::FAMILIES, spec::MAX_VARIANTS, spec::MAX_FLAGS, spec::SRC_MODES, spec::DST_MODES].map(|x| x as u64);
    ensure(nums == want, || format!("version {v:?}: format description {text:?} does not say {want:?}"))?;
    for op in w().operands.iter() {
        ensure(op.variant_idx() == mode(*op), || format!("{op:?} has mode index {}", op.variant_idx()))?;
    }
    o.add("published widths compared", pairs.len() as u64 + 6 + 9);
    Ok(true)
}

// ---------------------------------------------------------------- C09 / C10

fn c09_form(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let f = spelled(index(d));
    let s = wd.spec.sub_of(f.opcode);
    let own: (bool, bool) = inner!(f.opcode, x => (x.requires_kernel_mode(), x.can_be_used_in_static_context()));
    for (who, k, st) in [
        ("form", f.requires_kernel_mode(), f.can_be_used_in_static_context()),
        ("opcode", f.opcode.requires_kernel_mode(), f.opcode.can_be_used_in_static_context()),
        ("own type", own.0, own.1),
    ] {
        ensure(k == s.kernel, || format!("{f:?}: kernel mode required = {k} (asking the {who})"))?;
        ensure(st == s.static_ok, || format!("{f:?}: allowed in static context = {st} (asking the {who})"))?;
    }
    let invalid = matches!(f.opcode, Opcode::Invalid(_));
    ensure(f.is_explicit_panic() == invalid, || format!("{f:?}: explicit panic = {}", f.is_explicit_panic()))?;
    o.see("spelled forms", index(d) as u64);
    o.count(if s.kernel { "kernel-only forms" } else { "user forms" });
    o.count(if s.static_ok { "static forms" } else { "non-static forms" });
    Ok(true)
}

fn c09_number(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let n = index(d);
    let f = zk::OPCODES_TABLE[n];
    let s = wd.spec.sub_of(f.opcode);
    let m = zk::OPCODES_PROPS_INTEGER_BITMASKS[n];
    let base = zk::total_description_bits_rounded_for_version(zk::DEFAULT_ISA_VERSION);
    let bit = |i: usize| (m >> (base + i)) & 1 == 1;
    let invalid = matches!(f.opcode, Opcode::Invalid(_));
    ensure(bit(zk::KERNER_MODE_FLAG_IDX) == s.kernel && f.requires_kernel_mode() == s.kernel, || {
        format!("number {n} ({f:?}): kernel bit {}, form says {}, expected {}", bit(zk::KERNER_MODE_FLAG_IDX), f.requires_kernel_mode(), s.kernel)
    })?;
    ensure(
        bit(zk::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX) == s.static_ok && f.can_be_used_in_static_context() == s.static_ok,
        || format!("number {n} ({f:?}): static bit {}, form says {}, expected {}", bit(zk::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX), f.can_be_used_in_static_context(), s.static_ok),
    )?;
    ensure(bit(zk::EXPLICIT_PANIC_FLAG_IDX) == invalid, || format!("number {n} ({f:?}): panic bit {}", bit(zk::EXPLICIT_PANIC_FLAG_IDX)))?;
    for v in 0..2 {
        let forms = &wd.spec.forms[v];
        if n < forms.len() {
            let f = forms[n];
            let s = wd.spec.sub_of(f.opcode);
            let m = zk::synthesize_bit_decomposition_table(&[f], VERSIONS[v])[0];
            let base = zk::total_description_bits_rounded_for_version(VERSIONS[v]);
            let want = s.kernel as u64 | (s.static_ok as u64) << 1 | (matches!(f.opcode, Opcode::Invalid(_)) as u64) << 2;
            ensure(m >> base == want, || format!("version {v}: {f:?} has privilege bits {:#b}, expected {want:#b}", m >> base))?;
        }
    }
    o.see("opcode numbers", n as u64);
    Ok(n < wd.spec.forms[1].len())
}

fn c10_form(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let f = spelled(index(d));
    let s = wd.spec.sub_of(f.opcode);
    let own = inner!(f.opcode, x => x.ergs_price());
    for (who, p) in [("form", f.ergs_price()), ("opcode", f.opcode.ergs_price()), ("own type", own)] {
        ensure(p == s.price, || format!("{f:?} costs {p} (asking the {who}), expected {}", s.price))?;
    }
    o.see("spelled forms", index(d) as u64);
    o.see("prices", s.price as u64);
    Ok(true)
}

fn c10_number(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let n = index(d);
    let f = zk::OPCODES_TABLE[n];
    let p = zk::OPCODES_PRICES[n];
    let want = wd.spec.sub_of(f.opcode).price;
    ensure(p == want && f.ergs_price() == p, || format!("number {n} ({f:?}) is charged {p}, its form says {}, expected {want}", f.ergs_price()))?;
    ensure(zk::OPCODES_PRICES.len() == zk::OPCODES_TABLE.len(), || "price and opcode tables differ in length".into())?;
    o.see("opcode numbers", n as u64);
    Ok(n < wd.spec.forms[1].len())
}

fn c10_published(o: &mut Obs, _d: &[u8]) -> Verdict {
    use zk::circuit_prices::*;
    let pairs: Vec<(&str, u32, u64)> = vec![
        ("rich addressing", zk::RICH_ADDRESSING_OPCODE_ERGS, VM_CYCLE_COST_IN_ERGS as u64 + 2 * RAM_PERMUTATION_COST_IN_ERGS as u64),
        ("average opcode", zk::AVERAGE_OPCODE_ERGS, VM_CYCLE_COST_IN_ERGS as u64 + RAM_PERMUTATION_COST_IN_ERGS as u64),
        ("rich addressing", zk::RICH_ADDRESSING_OPCODE_ERGS, 6),
        ("average opcode", zk::AVERAGE_OPCODE_ERGS, 5),
        ("invalid opcode", zk::INVALID_OPCODE_ERGS, u32::MAX as u64),
        ("call unit", zk::CALL_LIKE_ERGS_COST, 20),
        ("code word decommitment", zk::ERGS_PER_CODE_WORD_DECOMMITTMENT, CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS as u64),
    ];
    for (what, got, want) in pairs.iter() {
        ensure(*got as u64 == *want, || format!("published price of {what} is {got}, expected {want}"))?;
    }
    // the published prices are sums of published parts
    let p = |op: Opcode| op.ergs_price() as u64;
    let (vm, ram) = (VM_CYCLE_COST_IN_ERGS as u64, RAM_PERMUTATION_COST_IN_ERGS as u64);
    let (demux, ssort, esort) = (LOG_DEMUXER_COST_IN_ERGS as u64, STORAGE_SORTER_COST_IN_ERGS as u64, EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS as u64);
    let call = zk::CALL_LIKE_ERGS_COST as u64;
    let sums: Vec<(&str, u64, u64)> = vec![
        ("near call", p(Opcode::NearCall(zk::NearCallOpcode)), vm + ram + call),
        ("far call", p(Opcode::FarCall(zk::FarCallOpcode::Normal)), 2 * vm + ram + zk::STORAGE_READ_IO_PRICE as u64 + call + ssort + CODE_DECOMMITMENT_SORTER_COST_IN_ERGS as u64),
        ("heap write", p(Opcode::UMA(zk::UMAOpcode::HeapWrite)), 2 * vm + 5 * ram),
        ("heap read", p(Opcode::UMA(zk::UMAOpcode::HeapRead)), vm + 3 * ram),
        ("storage read", p(Opcode::Log(zk::LogOpcode::StorageRead)), zk::STORAGE_READ_IO_PRICE as u64 + vm + ram + demux + ssort),
        ("storage write", p(Opcode::Log(zk::LogOpcode::StorageWrite)), (zk::STORAGE_WRITE_IO_PRICE as u64 + 2 * vm + ram + 2 * demux + 2 * ssort).max(zk::system_params::MIN_STORAGE_WRITE_COST as u64)),
        ("event", p(Opcode::Log(zk::LogOpcode::Event)), zk::EVENT_IO_PRICE as u64 + 2 * vm + ram + 2 * demux + 2 * esort),
        ("L1 message", p(Opcode::Log(zk::LogOpcode::ToL1Message)), (zk::L1_MESSAGE_IO_PRICE as u64 + 2 * vm + ram + 2 * demux + 2 * esort).max(L1_MESSAGE_MIN_COST_IN_ERGS as u64)),
        ("precompile call", p(Opcode::Log(zk::LogOpcode::PrecompileCall)), vm + ram + demux),
    ];
    for (what, got, want) in sums.iter() {
        ensure(got == want, || format!("{what} costs {got}, the sum of its published parts is {want}"))?;
    }
    o.add("published prices compared", (pairs.len() + sums.len()) as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C11

fn c11_opcode(o: &mut Obs, d: &[u8]) -> Verdict {
    use zk::circuit_prices::*;
    let wd = w();
    let n = index(d);
    let f = zk::OPCODES_TABLE[n];
    let p = zk::OPCODES_PRICES[n] as u64;
    for p in [p, f.ergs_price() as u64, f.opcode.ergs_price() as u64] {
        let floor = VM_CYCLE_COST_IN_ERGS as u64 + RAM_PERMUTATION_COST_IN_ERGS as u64;
        ensure(p >= floor, || format!("number {n} ({f:?}) costs {p}, less than a cycle and a memory access ({floor})"))?;
        match f.opcode {
            Opcode::Invalid(_) => {
                ensure(p >= u32::MAX as u64 && p >= zk::system_params::VM_INITIAL_FRAME_ERGS as u64, || format!("invalid opcode {n} costs only {p}"))?;
            }
            Opcode::NearCall(_) | Opcode::FarCall(_) => {
                let unit = zk::CALL_LIKE_ERGS_COST as u64;
                ensure(p >= unit && unit > 0, || format!("call {n} ({f:?}) costs {p}, less than the call unit {unit}"))?;
                if matches!(f.opcode, Opcode::FarCall(_)) {
                    let min = zk::STORAGE_READ_IO_PRICE as u64 + unit;
                    ensure(p >= min, || format!("far call {n} costs {p}, less than storage read I/O plus call unit {min}"))?;
                }
                let depth = zk::system_params::VM_INITIAL_FRAME_ERGS as u64 / p;
                ensure(depth < zk::system_params::VM_MAX_STACK_DEPTH as u64, || format!("{depth} nested calls {n} fit the initial ergs"))?;
            }
            Opcode::Log(zk::LogOpcode::StorageWrite) => {
                let stipend = (zk::system_params::MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64)
                    .saturating_sub(zk::system_params::MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64);
                ensure(p > 2300 && p > stipend, || format!("a storage write costs {p}: payable from a stipend of 2300 or {stipend}"))?;
            }
            Opcode::Log(zk::LogOpcode::ToL1Message) => {
                let min = (zk::system_params::MAX_TX_ERGS_LIMIT as u64).div_ceil(512);
                ensure(p >= min, || format!("an L1 message costs {p}: more than 512 fit a transaction"))?;
            }
            _ => {}
        }
    }
    o.see("opcode numbers", n as u64);
    o.see("prices", p);
    let _ = wd;
    Ok(true)
}

fn c11_limits(o: &mut Obs, _d: &[u8]) -> Verdict {
    use zk::circuit_prices::*;
    use zk::system_params::*;
    let g = |x: u32| x as u64;
    let stipend = g(MSG_VALUE_SIMULATOR_ADDITIVE_COST) as i64 - g(MSG_VALUE_SIMULATOR_MIN_USED_ERGS) as i64;
    let checks: Vec<(&str, bool)> = vec![
        ("the simulator's additive cost covers its minimal use", stipend >= 0),
        ("write protection exceeds the simulator stipend", g(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION) as i64 > stipend),
        ("write protection exceeds 2300", MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION > 2300),
        ("minimal write cost covers the protection", MIN_STORAGE_WRITE_COST >= MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION),
        ("minimal write cost covers the hasher circuits", MIN_STORAGE_WRITE_COST >= STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS),
        ("a storage write costs at least its minimum", Opcode::Log(zk::LogOpcode::StorageWrite).ergs_price() >= MIN_STORAGE_WRITE_COST),
        ("hasher minimum covers both hashers", STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS >= INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS.max(REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS)),
        ("L1 message minimum", g(L1_MESSAGE_MIN_COST_IN_ERGS) * 512 >= g(MAX_TX_ERGS_LIMIT)),
        ("stack depth", g(VM_MAX_STACK_DEPTH) >= g(VM_INITIAL_FRAME_ERGS) / g(zk::CALL_LIKE_ERGS_COST)),
        ("the transaction limit fits the initial frame", MAX_TX_ERGS_LIMIT <= VM_INITIAL_FRAME_ERGS),
        ("a circuit fits a transaction", ERGS_PER_CIRCUIT <= MAX_TX_ERGS_LIMIT && ERGS_PER_CIRCUIT > 0),
        ("decommitment sorter cost fits 16 bits", CODE_DECOMMITTER_SORTER_COST_IN_ERGS <= u16::MAX as u32),
        ("rich addressing covers average", zk::RICH_ADDRESSING_OPCODE_ERGS >= zk::AVERAGE_OPCODE_ERGS),
        ("the invalid price burns everything", zk::INVALID_OPCODE_ERGS == u32::MAX),
        ("dereferenced words end inside 32 bits", g(zk::MAX_OFFSET_TO_DEREF_LOW_U32) + 32 <= u32::MAX as u64),
        ("both forms of the dereference limit agree", zk::MAX_OFFSET_TO_DEREF == zk::ethereum_types::U256::from(zk::MAX_OFFSET_TO_DEREF_LOW_U32)),
    ];
    for (what, ok) in checks.iter() {
        ensure(*ok, || format!("margin broken: {what}"))?;
    }
    o.add("margins compared", checks.len() as u64);
    Ok(true)
}

/// random mixes of nested near and far calls from the initial ergs: the depth never exceeds the limit
fn c11_nesting(o: &mut Obs, d: &[u8]) -> Verdict {
    let mut rng = Rng::new(index(d) as u64);
    let near = Opcode::NearCall(zk::NearCallOpcode).ergs_price() as u64;
    let far = [zk::FarCallOpcode::Normal, zk::FarCallOpcode::Delegate, zk::FarCallOpcode::Mimic].map(|x| Opcode::FarCall(x).ergs_price() as u64);
    let mut ergs = zk::system_params::VM_INITIAL_FRAME_ERGS as u64;
    let mut depth = 0u64;
    let cheap = near.min(far[0]).min(far[1]).min(far[2]);
    while ergs >= cheap {
        // a run of equal calls
        let price = if rng.below(8) < 6 { near } else { far[rng.below(3)] };
        if price == 0 {
            return Err("a call is free: unbounded nesting".into());
        }
        let most = ergs / price;
        if most == 0 {
            break;
        }
        let k = (1 + rng.next() % (1 << (4 + rng.below(26)))).min(most);
        depth += k;
        ergs -= k * price;
    }
    ensure(depth <= zk::system_params::VM_MAX_STACK_DEPTH as u64, || format!("a call chain of depth {depth} is affordable, limit {}", zk::system_params::VM_MAX_STACK_DEPTH))?;
    o.see("nesting depths reached", depth);
    Ok(true)
}

// ---------------------------------------------------------------- C22

fn c22_family<T>(o: &mut Obs, order: usize, wrap: fn(T) -> Opcode) -> Result<(), String>
where
    T: OpcodeVariantProps + OpcodeProps + Copy + PartialEq + std::fmt::Debug,
{
    let wd = w();
    let want: Vec<Opcode> = wd.spec.subs.iter().filter(|s| s.order == order).map(|s| s.opcode).collect();
    let n = want.len();
    let what = spec::FAMILY_NAMES[order];
    let all = T::all_variants();
    let listed: Vec<Opcode> = all.iter().map(|v| wrap(*v)).collect();
    ensure(listed == want, || format!("{what}: variants listed as {listed:?}, expected {want:?}"))?;
    for (i, v) in all.iter().enumerate() {
        ensure(v.variant_index() == i, || format!("{what}: {v:?} has index {}, listed at {i}", v.variant_index()))?;
        ensure(wrap(*v).materialize_subvariant_idx() == i, || format!("{what}: {v:?} reports sub-index {}", wrap(*v).materialize_subvariant_idx()))?;
        ensure(v.name() == all[0].name(), || format!("{what}: {v:?} has another family name"))?;
        for version in VERSIONS {
            let avail = v.is_available_for_version(version);
            ensure(avail == (v.minimal_version() <= version), || {
                format!("{what}: {v:?} of minimal version {:?} is available in {version:?} = {avail}", v.minimal_version())
            })?;
            ensure(avail, || format!("{what}: {v:?} is missing in {version:?}"))?;
            ensure(v.is_added_in_version(version) == (v.minimal_version() == version), || {
                format!("{what}: {v:?} of minimal version {:?} added in {version:?} = {}", v.minimal_version(), v.is_added_in_version(version))
            })?;
            ensure(v.max_variant_idx(version) == n - 1, || format!("{what}: {v:?} reports the largest index {}", v.max_variant_idx(version)))?;
        }
    }
    for version in VERSIONS {
        ensure(T::max_variant_idx_for_version(version) == n - 1, || {
            format!("{what}: largest index in {version:?} is {}, expected {}", T::max_variant_idx_for_version(version), n - 1)
        })?;
        // index -> variant, everywhere else refused
        let mut rng = Rng::new(order as u64 ^ 0x22);
        let mut idxs: Vec<usize> = (0..1100).collect();
        idxs.extend((0..64).flat_map(|s| [1usize << s, (1usize << s) - 1, usize::MAX - (1usize << s), (1usize << s).wrapping_add(n)]));
        idxs.extend((0..200).map(|_| rng.next() as usize));
        for i in idxs {
            let got = T::from_variant_index_for_version(i, &version);
            let want = all.get(i).copied();
            ensure(got == want, || format!("{what}: index {i:#x} in {version:?} gives {got:?}, expected {want:?}"))?;
            o.count("indices materialized or refused");
        }
        for (i, v) in all.iter().enumerate() {
            for p in all.iter() {
                let m = wrap(*p).materialize_subvariant_from_prototype(i, &version);
                ensure(m == wrap(*v), || format!("{what}: prototype {p:?} materializes index {i} as {m:?}"))?;
            }
        }
        ensure(panics(|| wrap(all[0]).materialize_subvariant_from_prototype(n, &version)), || format!("{what}: prototype accepts index {n}"))?;
        let list = T::variants_for_version(version);
        let expect: Vec<T> = all.iter().copied().filter(|v| v.minimal_version() <= version).collect();
        ensure(list == expect, || format!("{what}: variants of {version:?} are {list:?}, expected {expect:?}"))?;
        // versions add up
        let mut sum: Vec<T> = vec![];
        for back in ISAVersion::all_backward_compatible_versions(version) {
            ensure(back <= version, || format!("{back:?} counts as backward compatible with {version:?}"))?;
            sum.extend(T::variants_added_in_version(back));
        }
        let mut a: Vec<usize> = sum.iter().map(|v| v.variant_index()).collect();
        let mut b: Vec<usize> = list.iter().map(|v| v.variant_index()).collect();
        a.sort();
        b.sort();
        ensure(a == b, || format!("{what}: versions up to {version:?} add variants {a:?}, available are {b:?}"))?;
        // what table synthesis uses
        for v in all.iter() {
            let mut ids: Vec<usize> = v.variants_data(version).iter().map(|x| x.variant_idx).collect();
            ids.sort();
            ensure(ids == b, || format!("{what}: synthesis of {version:?} uses variants {ids:?}, available are {b:?}"))?;
            for x in v.variants_data(version) {
                let s = wd.spec.sub_of(want[x.variant_idx]);
                ensure(x.num_non_exclusive_flags == s.flags, || {
                    format!("{what}: variant {} has {} flags in {version:?}, expected {}", x.variant_idx, x.num_non_exclusive_flags, s.flags)
                })?;
            }
        }
    }
    // the two prototype lists
    let protos = zk::all_opcode_prototypes();
    ensure(protos.len() == 16 && zk::OPCODE_PROTOTYPES.len() == 16, || "there are not 16 opcode families".into())?;
    let p = protos[order];
    ensure(want.contains(&p), || format!("prototype {order} is {p:?}, expected family {what}"))?;
    let name = zk::OPCODE_PROTOTYPES[order].name();
    ensure(name == all[0].name(), || format!("prototype lists disagree at {order}: {name:?} / {:?}", all[0].name()))?;
    for v in VERSIONS {
        ensure(zk::OPCODE_PROTOTYPES[order].max_variant_idx(v) == n - 1, || format!("{what}: prototype reports the largest index {}", zk::OPCODE_PROTOTYPES[order].max_variant_idx(v)))?;
        ensure(zk::OPCODE_PROTOTYPES[order].variants_data(v) == all[0].variants_data(v), || format!("{what}: prototype lists other variants in {v:?}"))?;
    }
    Ok(())
}

fn c22_families(o: &mut Obs, d: &[u8]) -> Verdict {
    let order = index(d);
    match order {
        0 => c22_family::<zk::InvalidOpcode>(o, 0, Opcode::Invalid)?,
        1 => c22_family::<zk::NopOpcode>(o, 1, Opcode::Nop)?,
        2 => c22_family::<zk::AddOpcode>(o, 2, Opcode::Add)?,
        3 => c22_family::<zk::SubOpcode>(o, 3, Opcode::Sub)?,
        4 => c22_family::<zk::MulOpcode>(o, 4, Opcode::Mul)?,
        5 => c22_family::<zk::DivOpcode>(o, 5, Opcode::Div)?,
        6 => c22_family::<zk::JumpOpcode>(o, 6, Opcode::Jump)?,
        7 => c22_family::<zk::BinopOpcode>(o, 7, Opcode::Binop)?,
        8 => c22_family::<zk::ShiftOpcode>(o, 8, Opcode::Shift)?,
        9 => c22_family::<zk::PtrOpcode>(o, 9, Opcode::Ptr)?,
        10 => c22_family::<zk::NearCallOpcode>(o, 10, Opcode::NearCall)?,
        11 => c22_family::<zk::ContextOpcode>(o, 11, Opcode::Context)?,
        12 => c22_family::<zk::LogOpcode>(o, 12, Opcode::Log)?,
        13 => c22_family::<zk::FarCallOpcode>(o, 13, Opcode::FarCall)?,
        14 => c22_family::<zk::RetOpcode>(o, 14, Opcode::Ret)?,
        _ => c22_family::<zk::UMAOpcode>(o, 15, Opcode::UMA)?,
    }
    o.see("families", order as u64);
    Ok(true)
}

fn c22_global(o: &mut Obs, _d: &[u8]) -> Verdict {
    let wd = w();
    let mut names = HashSet::new();
    let mut idx = HashSet::new();
    for (i, p) in zk::all_opcode_prototypes().iter().enumerate() {
        let name = inner!(p, x => x.name());
        ensure(names.insert(name), || format!("two families are called {name:?}"))?;
        ensure(p.variant_idx() < 16 && idx.insert(p.variant_idx()), || format!("family index {} of {p:?} is taken or too large", p.variant_idx()))?;
        ensure(zk::OPCODE_PROTOTYPES[i].name() == name, || format!("prototype lists disagree at {i}"))?;
    }
    for s in wd.spec.subs.iter() {
        ensure(s.opcode.variant_idx() == s.family_bit, || format!("{:?} has family index {}, expected {}", s.opcode, s.opcode.variant_idx(), s.family_bit))?;
    }
    ensure(zk::ALL_ISA_VERSIONS == VERSIONS && zk::NUM_ISA_VERSIONS == 2, || format!("ISA versions are {:?}", zk::ALL_ISA_VERSIONS))?;
    for (i, v) in VERSIONS.iter().enumerate() {
        ensure(v.as_index() == i, || format!("{v:?} has index {}", v.as_index()))?;
        let b = ISAVersion::all_backward_compatible_versions(*v);
        ensure(b[..] == VERSIONS[..=i], || format!("versions backward compatible with {v:?}: {b:?}"))?;
        ensure(zk::max_num_variants_for_version(*v) == 10, || format!("largest family of {v:?} has {} variants", zk::max_num_variants_for_version(*v)))?;
        ensure(zk::max_num_flags_for_version(*v) == 2, || format!("largest flag count of {v:?} is {}", zk::max_num_flags_for_version(*v)))?;
    }
    macro_rules! discriminants { ($($t:ident: $($v:ident)*),*) => { $( {
        let all = [$((zk::$t::$v as usize, stringify!($v))),*];
        for (i, (x, v)) in all.iter().enumerate() {
            ensure(*x == i, || format!("{}::{v} has discriminant {x}, index {i}", stringify!($t)))?;
            o.count("discriminants compared");
        }
    } )* } }
    discriminants!(
        AddOpcode: Add, SubOpcode: Sub, BinopOpcode: Xor And Or, ShiftOpcode: Shl Shr Rol Ror, PtrOpcode: Add Sub Pack Shrink,
        ContextOpcode: This Caller CodeAddress Meta ErgsLeft Sp GetContextU128 SetContextU128 SetErgsPerPubdataByte IncrementTxNumber,
        LogOpcode: StorageRead StorageWrite ToL1Message Event PrecompileCall, FarCallOpcode: Normal Delegate Mimic,
        RetOpcode: Ok Revert Panic, UMAOpcode: HeapRead HeapWrite AuxHeapRead AuxHeapWrite FatPointerRead,
        ImmMemHandlerFlags: UseRegOnly UseStackWithPushPop UseStackWithOffset UseAbsoluteOnStack UseImm16Only UseCodePage,
        FarCallForwardPageType: UseHeap ForwardFatPointer UseAuxHeap, RetForwardPageType: UseHeap ForwardFatPointer UseAuxHeap
    );
    let reg_or_imm = [zk::RegOrImmFlags::UseRegOnly as usize, zk::RegOrImmFlags::UseImm16Only as usize];
    ensure(reg_or_imm == [0, 4], || format!("register-or-immediate modes have discriminants {reg_or_imm:?}"))?;
    o.add("families named", names.len() as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C23

fn kind(op: &Operand) -> u8 {
    match op {
        Operand::RegOnly => 0,
        Operand::RegOrImm(_) => 1,
        Operand::Full(_) => 2,
    }
}

fn c23_opcode(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let i = index(d);
    let v = i % 2;
    let version = VERSIONS[v];
    let s = &wd.spec.subs[i / 2];
    let op = s.opcode;
    let ins = op.input_operands(version);
    let outs = op.output_operands(version);
    let (ins2, outs2) = inner!(op, x => (x.input_operands(version), x.output_operands(version)));
    ensure(ins == ins2 && outs == outs2, || format!("{op:?}: opcode and own type declare different operands"))?;
    // as the instruction set gives them
    let src_kind = match s.addr[v] {
        spec::Addr::Reg => 0,
        spec::Addr::RegImm => 1,
        _ => 2,
    };
    let dst_kind = if s.addr[v] == spec::Addr::SrcDst { 2 } else { 0 };
    let mut want_in: Vec<u8> = vec![0; s.inputs];
    let mut want_out: Vec<u8> = vec![0; s.outputs];
    if let Some(x) = want_in.first_mut() {
        *x = src_kind;
    }
    if let Some(x) = want_out.first_mut() {
        *x = dst_kind;
    }
    let got_in: Vec<u8> = ins.iter().map(kind).collect();
    let got_out: Vec<u8> = outs.iter().map(kind).collect();
    ensure(got_in == want_in && got_out == want_out, || format!("{op:?} in {version:?} declares {ins:?} -> {outs:?}"))?;
    // against the forms the table really has
    let forms: Vec<&OpcodeVariant> = lib_tables()[v].iter().filter(|f| f.opcode == op).collect();
    ensure(!forms.is_empty(), || format!("{op:?} has no form in {version:?}"))?;
    let srcs: std::collections::BTreeSet<usize> = forms.iter().map(|f| mode(f.src0_operand_type)).collect();
    let dsts: std::collections::BTreeSet<usize> = forms.iter().map(|f| mode(f.dst0_operand_type)).collect();
    let expect_src: Vec<usize> = match got_in.first() {
        Some(2) => (0..6).collect(),
        Some(1) => vec![0, 4],
        _ => vec![0],
    };
    let expect_dst: Vec<usize> = match got_out.first() {
        Some(2) => (0..4).collect(),
        _ => vec![0],
    };
    ensure(srcs.iter().copied().collect::<Vec<_>>() == expect_src, || format!("{op:?} in {version:?} declares {ins:?}, its forms have source modes {srcs:?}"))?;
    ensure(dsts.iter().copied().collect::<Vec<_>>() == expect_dst, || format!("{op:?} in {version:?} declares {outs:?}, its forms have destination modes {dsts:?}"))?;
    for f in forms.iter() {
        let k = (kind(&f.src0_operand_type), kind(&f.dst0_operand_type));
        let want = (got_in.first().copied().unwrap_or(0), got_out.first().copied().unwrap_or(0));
        ensure(k == want, || format!("{f:?} in {version:?} is spelled unlike its declared operands {ins:?} -> {outs:?}"))?;
    }
    let memory = |m: &usize| matches!(m, 1 | 2 | 3 | 5);
    let (src_mem, dst_mem) = (srcs.iter().any(memory), dsts.iter().any(memory));
    let (a, b) = (op.can_have_src0_from_mem(version), op.can_write_dst0_into_memory(version));
    let (a2, b2) = inner!(op, x => (x.can_have_src0_from_mem(version), x.can_write_dst0_into_memory(version)));
    ensure(a == src_mem && a2 == src_mem, || format!("{op:?} in {version:?}: source from memory = {a} / {a2}, its forms say {src_mem}"))?;
    ensure(b == dst_mem && b2 == dst_mem, || format!("{op:?} in {version:?}: destination in memory = {b} / {b2}, its forms say {dst_mem}"))?;
    ensure(!dsts.contains(&4) && !dsts.contains(&5), || format!("{op:?} has a form with an immediate or code destination"))?;
    // immediates
    let data = inner!(op, x => x.variants_data(version));
    let mine: Vec<_> = data.iter().filter(|x| x.variant_idx == s.index).collect();
    ensure(mine.len() == 1, || format!("{op:?} is listed {} times in {version:?}", mine.len()))?;
    ensure(mine[0].num_used_immediates == s.imms[v], || format!("{op:?} in {version:?} declares {} immediates, expected {}", mine[0].num_used_immediates, s.imms[v]))?;
    ensure(mine[0].num_non_exclusive_flags == s.flags, || format!("{op:?} in {version:?} declares {} flags, expected {}", mine[0].num_non_exclusive_flags, s.flags))?;
    // consumption by the modes themselves: source and destination each take one unless register or push/pop-free
    let uses = |m: &usize| *m != 0;
    let consumed = srcs.iter().any(uses) as usize + dsts.iter().any(uses) as usize;
    ensure(mine[0].num_used_immediates >= consumed, || format!("{op:?} in {version:?} declares {} immediates, its modes consume {consumed}", mine[0].num_used_immediates))?;
    // prototypes: the first variant speaks for the family
    if s.index == 0 {
        let p = &zk::OPCODE_PROTOTYPES[s.order];
        ensure(p.input_operands(version) == ins && p.output_operands(version) == outs, || format!("prototype of {op:?} declares other operands"))?;
    }
    o.see("opcode x version", i as u64);
    o.add("forms compared", forms.len() as u64);
    Ok(true)
}

fn c23_swap(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let f = spelled(index(d));
    let s = wd.spec.sub_of(f.opcode);
    let want = s.swap_flag.is_some_and(|i| f.flags[i]);
    ensure(f.swap_operands() == want, || format!("{f:?}: operands swapped = {}", f.swap_operands()))?;
    o.count(if want { "swapped" } else { "not swapped" });
    Ok(true)
}

fn c23_modes(o: &mut Obs, _d: &[u8]) -> Verdict {
    let all = spec::mem_modes();
    ensure(Mem::all_variants() == all, || format!("addressing modes listed as {:?}", Mem::all_variants()))?;
    for (i, m) in all.iter().enumerate() {
        ensure(m.variant_index() == i && m.encoding_byte() as usize == i, || format!("{m:?} has index {} / {}", m.variant_index(), m.encoding_byte()))?;
        ensure(m.is_memory_used() == matches!(i, 1 | 2 | 3 | 5), || format!("{m:?} uses memory = {}", m.is_memory_used()))?;
        ensure(m.is_allowed_for_dst() == (i < 4), || format!("{m:?} allowed as destination = {}", m.is_allowed_for_dst()))?;
    }
    ensure(RoI::all_variants() == [RoI::UseRegOnly, RoI::UseImm16Only], || "register-or-immediate modes".into())?;
    for (m, i) in [(RoI::UseRegOnly, 0), (RoI::UseImm16Only, 4)] {
        ensure(m.variant_index() == i && m.encoding_byte() as usize == i, || format!("{m:?} has index {}", m.variant_index()))?;
        ensure(!m.is_memory_used(), || format!("{m:?} uses memory"))?;
        ensure(m.is_allowed_for_dst() == (i == 0), || format!("{m:?} allowed as destination = {}", m.is_allowed_for_dst()))?;
    }
    let n = (Mem::num_variants(), Mem::num_src_variants(), Mem::num_dst_variants(), RoI::num_variants(), RoI::num_src_variants(), RoI::num_dst_variants());
    ensure(n == (6, 6, 4, 2, 2, 1), || format!("mode counts {n:?}"))?;
    ensure(zk::SET_FLAGS_FLAG_IDX == 0 && zk::SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES == 1 && zk::SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE == 0, || "flag positions".into())?;
    ensure(zk::FAR_CALL_STATIC_FLAG_IDX == 0 && zk::FAR_CALL_SHARD_FLAG_IDX == 1 && zk::UMA_INCREMENT_FLAG_IDX == 0 && zk::FIRST_MESSAGE_FLAG_IDX == 0, || "flag positions".into())?;
    o.add("modes compared", 8);
    Ok(true)
}

// ---------------------------------------------------------------- C24

fn c24_constants(o: &mut Obs, d: &[u8]) -> Verdict {
    use zk::system_params::*;
    match index(d) {
        0 => {
            let formal: [(&str, [u8; 20], u16, u16); 7] = [
                ("bootloader", BOOTLOADER_FORMAL_ADDRESS.0, BOOTLOADER_FORMAL_ADDRESS_LOW, 0x8001),
                ("code storage", DEPLOYER_SYSTEM_CONTRACT_ADDRESS.0, DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW, 0x8002),
                ("nonce manager", NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS.0, ADDRESS_NONCE_HOLDER, 0x8003),
                ("known codes", KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS.0, ADDRESS_KNOWN_CODES_STORAGE, 0x8004),
                ("keccak256", KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0, KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS, 0x8010),
                ("sha256", SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0, SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS, 2),
                ("ecrecover", ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0, ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS, 1),
            ];
            let mut seen = HashSet::new();
            for (what, full, low, want) in formal {
                let mut b = [0u8; 20];
                b[18] = (want >> 8) as u8;
                b[19] = want as u8;
                ensure(full == b && low == want, || format!("{what}: formal address {}, low address {low:#x}, expected {want:#x}", hex(&full)))?;
                ensure(seen.insert(full), || format!("{what}: address {want:#x} is taken"))?;
            }
            let same = [
                ("bootloader", ADDRESS_BOOTLOADER, BOOTLOADER_FORMAL_ADDRESS_LOW),
                ("code storage", ADDRESS_ACCOUNT_CODE_STORAGE, DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW),
                ("keccak256", ADDRESS_KECCAK256, KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS),
                ("sha256", ADDRESS_SHA256, SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS),
                ("ecrecover", ADDRESS_ECRECOVER, ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS),
            ];
            for (what, a, b) in same {
                ensure(a == b, || format!("{what} is published as {a:#x} and {b:#x}"))?;
            }
            o.add("formal addresses", 7);
        }
        1 => {
            let list: [(&str, u16, u16); 18] = [
                ("ecrecover", ADDRESS_ECRECOVER, 1),
                ("sha256", ADDRESS_SHA256, 2),
                ("ripemd160", ADDRESS_RIPEMD160, 3),
                ("identity", ADDRESS_IDENTITY, 4),
                ("bootloader", ADDRESS_BOOTLOADER, 0x8001),
                ("account code storage", ADDRESS_ACCOUNT_CODE_STORAGE, 0x8002),
                ("nonce holder", ADDRESS_NONCE_HOLDER, 0x8003),
                ("known codes storage", ADDRESS_KNOWN_CODES_STORAGE, 0x8004),
                ("immutable simulator", ADDRESS_IMMUTABLE_SIMULATOR, 0x8005),
                ("contract deployer", ADDRESS_CONTRACT_DEPLOYER, 0x8006),
                ("force deployer", ADDRESS_FORCE_DEPLOYER, 0x8007),
                ("L1 messenger", ADDRESS_L1_MESSENGER, 0x8008),
                ("msg.value simulator", ADDRESS_MSG_VALUE, 0x8009),
                ("eth token", ADDRESS_ETH_TOKEN, 0x800a),
                ("system context", ADDRESS_SYSTEM_CONTEXT, 0x800b),
                ("bootloader utilities", ADDRESS_BOOTLOADER_UTILITIES, 0x800c),
                ("event writer", ADDRESS_EVENT_WRITER, 0x800d),
                ("keccak256", ADDRESS_KECCAK256, 0x8010),
            ];
            let mut seen = HashMap::new();
            for (what, a, want) in list {
                if let Some(old) = seen.insert(a, what) {
                    return Err(format!("{what} and {old} share the address {a:#x}"));
                }
                ensure((a as u64) < ADDRESS_UNRESTRICTED_SPACE, || format!("{what} lies in the unrestricted space"))?;
                ensure(a == want, || format!("{what} is at {a:#x}, expected {want:#x}"))?;
            }
            ensure(ADDRESS_UNRESTRICTED_SPACE == 1 << 16, || format!("unrestricted space starts at {ADDRESS_UNRESTRICTED_SPACE:#x}"))?;
            o.add("system addresses", 18);
        }
        2 => {
            let pages = [
                ("code", zk::BOOTLOADER_CODE_PAGE),
                ("calldata", zk::BOOTLOADER_CALLDATA_PAGE),
                ("stack", zk::BOOTLOADER_STACK_PAGE),
                ("heap", zk::BOOTLOADER_HEAP_PAGE),
                ("auxiliary heap", zk::BOOTLOADER_AUX_HEAP_PAGE),
            ];
            let mut seen = HashMap::new();
            for (what, p) in pages {
                if let Some(old) = seen.insert(p, what) {
                    return Err(format!("bootloader {what} and {old} share page {p}"));
                }
                ensure(p != zk::UNMAPPED_PAGE, || format!("bootloader {what} is the unmapped page"))?;
                ensure(p < zk::STARTING_BASE_PAGE, || format!("bootloader {what} page {p} is handed out to calls"))?;
            }
            let base = zk::BOOTLOADER_BASE_PAGE;
            ensure(zk::BOOTLOADER_CODE_PAGE == base && zk::BOOTLOADER_CALLDATA_PAGE + 1 == base && zk::BOOTLOADER_STACK_PAGE == base + 1
                && zk::BOOTLOADER_HEAP_PAGE == base + 2 && zk::BOOTLOADER_AUX_HEAP_PAGE == base + 3, || "bootloader pages are not where the convention puts them".into())?;
            ensure(zk::NEW_MEMORY_PAGES_PER_FAR_CALL >= 4, || format!("{} pages per far call do not hold code, stack, heap and auxiliary heap", zk::NEW_MEMORY_PAGES_PER_FAR_CALL))?;
            ensure(zk::UNMAPPED_PAGE == 0, || format!("unmapped page {}", zk::UNMAPPED_PAGE))?;
            o.add("pages", 5);
        }
        3 => {
            let mut used = vec![0usize; zk::REGISTERS_COUNT];
            let mut claim: Vec<u8> = vec![
                zk::CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER,
                zk::CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER,
                zk::CALL_IMPLICIT_PARAMETER_REG_IDX,
            ];
            claim.extend(zk::CALL_SYSTEM_ABI_REGISTERS);
            claim.extend(zk::CALL_RESERVED_RANGE);
            for r in claim {
                ensure((r as usize) < used.len(), || format!("register {r} does not exist"))?;
                used[r as usize] += 1;
            }
            ensure(used.iter().all(|n| *n == 1), || format!("far call registers are used {used:?} times"))?;
            ensure(zk::REGISTERS_COUNT < 1 << zk::REGISTER_INDEX_ENCODING_BITS, || format!("{} registers and r0 do not fit the index", zk::REGISTERS_COUNT))?;
            o.add("registers", used.len() as u64);
        }
        _ => {
            let tags = [STORAGE_AUX_BYTE, EVENT_AUX_BYTE, L1_MESSAGE_AUX_BYTE, PRECOMPILE_AUX_BYTE];
            ensure(tags == [0, 1, 2, 3], || format!("log tags are {tags:?}"))?;
            o.add("log tags", 4);
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C29

/// (name, published value, protocol value)
fn published() -> Vec<(&'static str, u128, u128)> {
    use zk::system_params::*;
    let u256 = |x: zk::ethereum_types::U256| if x.0[2] | x.0[3] == 0 { x.low_u128() } else { u128::MAX };
    let mut v: Vec<(&'static str, u128, u128)> = vec![];
    macro_rules! c {
        ($($e:expr => $want:expr),* $(,)?) => { $( v.push((stringify!($e), $e as u128, $want)); )* };
    }
    c! {
        zk::REGISTERS_COUNT => 15,
        zk::REGISTER_INDEX_ENCODING_BITS => 4,
        zk::SRC_REGS_SHIFT => 16,
        zk::DST_REGS_SHIFT => 24,
        zk::CONDITIONAL_BITS_SHIFT => 13,
        zk::CONDITIONAL_BITS_WIDTH => 3,
        zk::VARIANT_AND_CONDITION_ENCODING_BITS => 16,
        zk::OPCODES_TABLE_WIDTH => 11,
        zk::NUM_OPCODES => 16,
        zk::NUM_ISA_VERSIONS => 2,
        zk::DEFAULT_ISA_VERSION.0 => 1,
        zk::SET_FLAGS_FLAG_IDX => 0,
        zk::SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES => 1,
        zk::SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE => 0,
        zk::FAR_CALL_STATIC_FLAG_IDX => 0,
        zk::FAR_CALL_SHARD_FLAG_IDX => 1,
        zk::RET_TO_LABEL_BIT_IDX => 0,
        zk::FIRST_MESSAGE_FLAG_IDX => 0,
        zk::UMA_INCREMENT_FLAG_IDX => 0,
        zk::CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER => 0,
        zk::CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER => 1,
        zk::CALL_SYSTEM_ABI_REGISTERS.start => 2,
        zk::CALL_SYSTEM_ABI_REGISTERS.end => 12,
        zk::CALL_RESERVED_RANGE.start => 12,
        zk::CALL_RESERVED_RANGE.end => 14,
        zk::CALL_IMPLICIT_PARAMETER_REG_IDX => 14,
        zk::RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER => 0,
        zk::RET_RESERVED_REGISTER_0 => 1,
        zk::RET_RESERVED_REGISTER_1 => 2,
        zk::RET_RESERVED_REGISTER_2 => 3,
        zk::INITIAL_SP_ON_FAR_CALL => 0,
        zk::UNMAPPED_PAGE => 0,
        zk::BOOTLOADER_BASE_PAGE => 8,
        zk::BOOTLOADER_CODE_PAGE => 8,
        zk::BOOTLOADER_CALLDATA_PAGE => 7,
        zk::BOOTLOADER_STACK_PAGE => 9,
        zk::BOOTLOADER_HEAP_PAGE => 10,
        zk::BOOTLOADER_AUX_HEAP_PAGE => 11,
        zk::NEW_MEMORY_PAGES_PER_FAR_CALL => 8,
        zk::STARTING_BASE_PAGE => 2048,
        zk::STARTING_TIMESTAMP => 1024,
        zk::TIME_DELTA_PER_CYCLE => 4,
        zk::MAX_PENDING_CYCLES => 1,
        zk::LOG2_NUM_ADDRESSABLE_HEAP_BYTES => 24,
        zk::MEMORY_GROWTH_ERGS_PER_BYTE => 1,
        zk::MAX_OFFSET_TO_DEREF_LOW_U32 => (1 << 32) - 33,
        u256(zk::MAX_OFFSET_TO_DEREF) => (1 << 32) - 33,
        u256(zk::MAX_OFFSET_FOR_ADD_SUB) => 1 << 32,
        zk::INVALID_OPCODE_ERGS => u32::MAX as u128,
        zk::STORAGE_READ_IO_PRICE => 150,
        zk::STORAGE_WRITE_IO_PRICE => 250,
        zk::EVENT_IO_PRICE => 25,
        zk::L1_MESSAGE_IO_PRICE => 100,
        zk::CALL_LIKE_ERGS_COST => 20,
        zk::AVERAGE_OPCODE_ERGS => 5,
        zk::RICH_ADDRESSING_OPCODE_ERGS => 6,
        zk::ERGS_PER_CODE_WORD_DECOMMITTMENT => 4,
        MAX_TX_ERGS_LIMIT => 80_000_000,
        VM_INITIAL_FRAME_ERGS => u32::MAX as u128,
        ERGS_PER_CIRCUIT => 80_000,
        VM_MAX_STACK_DEPTH => (u32::MAX as u128) / 20 + 80,
        INITIAL_FRAME_SUCCESSFUL_EXIT_PC => 0,
        INITIAL_FRAME_FORMAL_EH_LOCATION => u16::MAX as u128,
        INITIAL_STORAGE_WRITE_PUBDATA_BYTES => 64,
        REPEATED_STORAGE_WRITE_PUBDATA_BYTES => 40,
        L1_MESSAGE_PUBDATA_BYTES => 88,
        MAX_PUBDATA_PER_BLOCK => 110_000,
        STORAGE_AUX_BYTE => 0,
        EVENT_AUX_BYTE => 1,
        L1_MESSAGE_AUX_BYTE => 2,
        PRECOMPILE_AUX_BYTE => 3,
        NUM_SPONGES => 4,
        BOOTLOADER_MAX_MEMORY => u32::MAX as u128,
        NEW_FRAME_MEMORY_STIPEND => 1024,
        MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY => 128,
        DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD => 64_000,
        MSG_VALUE_SIMULATOR_ADDITIVE_COST => 75_500,
        MSG_VALUE_SIMULATOR_MIN_USED_ERGS => 72_000,
        MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION => 3_501,
        MIN_STORAGE_WRITE_COST => 3_501,
        ADDRESS_UNRESTRICTED_SPACE => 1 << 16,
    }
    v
}

fn c29_published(o: &mut Obs, d: &[u8]) -> Verdict {
    let v = published();
    let Some((name, got, want)) = v.get(index(d)) else { return Ok(false) };
    ensure(got == want, || format!("{name} = {got}, the protocol says {want}"))?;
    o.see("constants", index(d) as u64);
    Ok(true)
}

/// the positions the constants name are the ones the library's own forms and words use
fn c29_positions(o: &mut Obs, d: &[u8]) -> Verdict {
    let n = index(d);
    let f = zk::OPCODES_TABLE[n];
    let set = |i: usize| f.flags[i];
    let swap = match f.opcode {
        Opcode::Sub(_) | Opcode::Div(_) | Opcode::Shift(_) => set(zk::SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES),
        Opcode::Ptr(_) => set(zk::SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE),
        _ => false,
    };
    ensure(f.swap_operands() == swap, || format!("number {n} ({f:?}): the published swap flag says {swap}, the form {}", f.swap_operands()))?;
    // an instruction placed field by field at the published positions is the one the library encodes
    let mut rng = Rng::new(n as u64 ^ 0x29);
    for _ in 0..8 {
        let regs = [0; 4].map(|_: u8| rng.below(zk::REGISTERS_COUNT + 1) as u8);
        let cond = zk::ALL_CONDITIONS[rng.below(8)];
        let imm = [rng.next() as u16, rng.next() as u16];
        let number = if matches!(f.opcode, Opcode::Invalid(_)) { 0 } else { n as u64 };
        let src = regs[0] as u64 | (regs[1] as u64) << zk::REGISTER_INDEX_ENCODING_BITS;
        let dst = regs[2] as u64 | (regs[3] as u64) << zk::REGISTER_INDEX_ENCODING_BITS;
        let want = number | (cond.variant_index() as u64) << zk::CONDITIONAL_BITS_SHIFT | src << zk::SRC_REGS_SHIFT | dst << zk::DST_REGS_SHIFT;
        let ins = crate::words::Ins { variant: f, cond, regs, imm: imm.map(|x| x as u32) };
        let p = crate::words::to_p(&ins).serialize_as_integer() as u32 as u64;
        let t = crate::words::to_t(&ins).serialize_as_integer() as u32 as u64;
        ensure(p == want && t == want, || format!("number {n}: published field positions give the low half {want:#x}, encoded are {p:#x} and {t:#x}"))?;
    }
    o.see("opcode numbers", n as u64);
    Ok(true)
}

pub fn probes(id: &str) -> Option<Vec<Probe>> {
    let t = spec::TABLE_LEN;
    Some(match id {
        "C06" => vec![domain("number", t, c06_number), domain("form", ALL_FORMS, c06_form)],
        "C07" => vec![domain("number", t, c07_number), domain("width", 3 * 6, c07_width)],
        "C08" => vec![
            domain("number", t, c08_number),
            domain("form", 1120, c08_form),
            domain("widths", 2, c08_widths),
            domain("distinct", 2, c08_distinct),
            domain("lists", 300, c08_lists),
        ],
        "C09" => vec![domain("number", t, c09_number), domain("form", ALL_FORMS, c09_form)],
        "C10" => vec![domain("number", t, c10_number), domain("form", ALL_FORMS, c10_form), domain("published", 1, c10_published)],
        "C11" => vec![domain("number", t, c11_opcode), domain("limits", 1, c11_limits), domain("nesting", 3000, c11_nesting)],
        "C22" => vec![domain("family", 16, c22_families), domain("global", 1, c22_global)],
        "C23" => vec![domain("opcode", 90, c23_opcode), domain("swap", ALL_FORMS, c23_swap), domain("modes", 1, c23_modes)],
        "C24" => vec![domain("constants", 5, c24_constants)],
        "C29" => vec![domain("published", published().len(), c29_published), domain("positions", t, c29_positions)],
        _ => return None,
    })
}
