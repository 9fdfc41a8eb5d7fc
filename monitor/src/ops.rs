//! The public interface as a list of calls with valid arguments, each reduced to a digest of
//! everything it returned. Used for purity, sanitizers and build comparison (C25, C26): digests
//! are only ever compared with digests of the same call, never with an expected value.

use crate::engine::*;
use crate::tables::VERSIONS;
use crate::words::{to_p, to_t, Ins};
use std::fmt::Write;
use zk::decoding::{
    AllowedIntegerRepresentation, AllowedPcOrImm, EncodingModeProduction as Prod, EncodingModeTesting as Test,
    VmEncodingMode,
};
use zk::{
    Condition, ContractCodeSha256, FarCallABI, FarCallForwardPageType, FatPointer, ISAVersion, ImmMemHandlerFlags as Mem,
    NearCallABI, Opcode, OpcodeVariant, OpcodeVariantProps, Operand, PrecompileCallABI, PrecompileCallInnerABI, RegOrImmFlags as RoI,
    RetABI, RetForwardPageType, VersionedHashGeneric, VmMetaParameters,
};
use zkevm_opcode_defs as zk;

pub struct Dig(pub u64);
impl Write for Dig {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = hash_bytes(self.0, s.as_bytes());
        Ok(())
    }
}
impl Dig {
    pub fn new() -> Dig {
        Dig(0x1234)
    }
    pub fn d(&mut self, x: &dyn std::fmt::Debug) {
        let _ = write!(self, "{x:?};");
    }
    pub fn t(&mut self, x: &dyn std::fmt::Display) {
        let _ = write!(self, "{x};");
    }
}

pub const KINDS: [&str; 28] = [
    "decode_production", "decode_testing", "encode_production", "encode_testing", "canonical", "fetch", "arithmetic", "mask",
    "pointer", "far_call", "return", "near_call", "precompile", "meta", "parse_hash", "digest_hash", "code_hash", "condition",
    "nibbles", "display", "tables", "form", "opcode", "variants", "mask_of_form", "constants",
    "after_refusal", "placed",
];

/// kinds that never look at a shared table (cheap under an interpreter)
pub const TABLE_FREE: [usize; 19] = [4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 25];

fn operand(i: u64) -> Operand {
    match i % 9 {
        0 => Operand::RegOnly,
        1 => Operand::RegOrImm(RoI::UseRegOnly),
        2 => Operand::RegOrImm(RoI::UseImm16Only),
        k => Operand::Full(Mem::all_variants()[(k - 3) as usize]),
    }
}

fn opcode(x: u64) -> Opcode {
    let protos = zk::all_opcode_prototypes();
    let p = protos[(x % 16) as usize];
    let n = [1, 1, 1, 1, 1, 1, 1, 3, 4, 4, 1, 10, 5, 3, 3, 5][(x % 16) as usize];
    p.materialize_subvariant_from_prototype(((x >> 4) % n) as usize, &VERSIONS[(x >> 12) as usize % 2])
}

fn any_form(x: u64) -> OpcodeVariant {
    OpcodeVariant {
        opcode: opcode(x),
        src0_operand_type: operand(x >> 16),
        dst0_operand_type: operand(x >> 24),
        flags: [(x >> 32) & 1 == 1, (x >> 33) & 1 == 1],
    }
}

fn ins(a: u64, b: u64, form: OpcodeVariant) -> Ins {
    Ins {
        variant: form,
        cond: zk::ALL_CONDITIONS[(a & 7) as usize],
        regs: [3, 7, 11, 15].map(|s| ((a >> s) & 15) as u8),
        imm: [b as u32, (b >> 32) as u32],
    }
}

fn variants_of(g: &mut Dig, op: Opcode, v: ISAVersion) {
    macro_rules! fam {
        ($x:expr, $t:ty) => {{
            use zk::OpcodeProps;
            g.d(&$x.variant_index());
            g.d(&$x.minimal_version());
            g.d(&$x.is_available_for_version(v));
            g.d(&$x.is_added_in_version(v));
            g.d(&$x.variants_data(v));
            g.d(&$x.max_variant_idx(v));
            g.d(&$x.name());
            g.d(&<$t>::all_variants().iter().map(|e| e.variant_index()).collect::<Vec<_>>());
            g.d(&<$t>::variants_for_version(v).iter().map(|e| e.variant_index()).collect::<Vec<_>>());
            g.d(&<$t>::variants_added_in_version(v).iter().map(|e| e.variant_index()).collect::<Vec<_>>());
            g.d(&<$t>::max_variant_idx_for_version(v));
            for i in 0..12 {
                g.d(&<$t>::from_variant_index_for_version(i, &v).map(|e| e.variant_index()));
            }
        }};
    }
    match op {
        Opcode::Invalid(x) => fam!(x, zk::InvalidOpcode),
        Opcode::Nop(x) => fam!(x, zk::NopOpcode),
        Opcode::Add(x) => fam!(x, zk::AddOpcode),
        Opcode::Sub(x) => fam!(x, zk::SubOpcode),
        Opcode::Mul(x) => fam!(x, zk::MulOpcode),
        Opcode::Div(x) => fam!(x, zk::DivOpcode),
        Opcode::Jump(x) => fam!(x, zk::JumpOpcode),
        Opcode::Context(x) => fam!(x, zk::ContextOpcode),
        Opcode::Shift(x) => fam!(x, zk::ShiftOpcode),
        Opcode::Binop(x) => fam!(x, zk::BinopOpcode),
        Opcode::Ptr(x) => fam!(x, zk::PtrOpcode),
        Opcode::NearCall(x) => fam!(x, zk::NearCallOpcode),
        Opcode::Log(x) => fam!(x, zk::LogOpcode),
        Opcode::FarCall(x) => fam!(x, zk::FarCallOpcode),
        Opcode::Ret(x) => fam!(x, zk::RetOpcode),
        Opcode::UMA(x) => fam!(x, zk::UMAOpcode),
    }
}

/// Performs one call (or a small group of related calls). `a` is four 64-bit argument words.
pub fn call(kind: usize, a: [u64; 4]) -> u64 {
    let mut g = Dig::new();
    let word = zk::ethereum_types::U256(a);
    match kind {
        0 => {
            let (x, n) = Prod::parse_preliminary_variant_and_absolute_number(a[0]);
            g.d(&x);
            g.d(&n);
            g.d(&Prod::variant_and_condition_from_u64_word(a[0]));
        }
        1 => {
            let w = a[0] as u128 | (a[1] as u128) << 64;
            let (x, n) = Test::parse_preliminary_variant_and_absolute_number(w);
            g.d(&x);
            g.d(&n);
            g.d(&Test::variant_and_condition_from_u128_word(w));
        }
        2 => {
            let form = zk::OPCODES_TABLE[(a[0] % 2048) as usize];
            let x = to_p(&ins(a[1], a[2], form));
            g.d(&x.serialize_as_integer());
            g.d(&x.serialize_as_bytes());
        }
        3 => {
            let form = zk::OPCODES_TABLE[(a[0] % 2048) as usize];
            let x = to_t(&ins(a[1], a[2], form));
            g.d(&x.serialize_as_integer());
            g.d(&x.serialize_as_bytes());
        }
        4 => {
            g.d(&Prod::is_canonical_encoding(a[0]));
            g.d(&Test::is_canonical_encoding(a[1] as u128 | (a[2] as u128) << 64));
        }
        5 => {
            let pc = a[0] as u16;
            let (w, s) = Prod::split_pc(pc);
            g.d(&(w, s));
            g.d(&Prod::integer_representaiton_from_u256(word, s));
            let (w, s) = Test::split_pc(a[1] as u32);
            g.d(&(w, s));
            g.d(&Test::integer_representaiton_from_u256(word, s));
            g.d(&a[2].encode_as_bytes());
            g.d(&((a[2] as u128) << 64 | a[3] as u128).encode_as_bytes());
        }
        6 => {
            macro_rules! ar {
                ($t:ty) => {{
                    let (x, y) = (<$t as AllowedPcOrImm>::from_u64_clipped(a[0]), <$t as AllowedPcOrImm>::from_u64_clipped(a[1]));
                    g.d(&AllowedPcOrImm::wrapping_add(x, y));
                    g.d(&AllowedPcOrImm::wrapping_sub(x, y));
                    g.d(&AllowedPcOrImm::as_u64(x));
                    g.d(&<$t as AllowedPcOrImm>::max());
                }};
            }
            ar!(u16);
            ar!(u32);
        }
        7 => {
            let i = ins(a[1], a[2], any_form(a[0]));
            let (mut p, mut t) = (to_p(&i), to_t(&i));
            if a[3] & 1 == 1 {
                p.mask_into_nop();
                t.mask_into_panic();
            } else {
                p.mask_into_panic();
                t.mask_into_nop();
            }
            g.d(&p);
            g.d(&t);
            g.d(&p.serialize_as_integer());
            g.d(&t.serialize_as_integer());
            g.d(&zk::DecodedOpcode::<8, Prod>::default());
            g.d(&zk::DecodedOpcode::<16, Test>::default());
        }
        8 => {
            let p = FatPointer::from_u256(word);
            g.d(&p);
            g.d(&p.to_u256());
            for f in [false, true] {
                g.d(&p.validate(f).bits());
            }
            g.d(&(p.validate_in_bounds(), p.validate_as_slice(), p.is_trivial()));
            g.d(&FatPointer::empty());
        }
        9 => {
            g.d(&FarCallABI::from_u256(word));
            g.d(&FarCallForwardPageType::from_u8(a[0] as u8));
        }
        10 => {
            g.d(&RetABI::from_u256(word));
            g.d(&RetForwardPageType::from_u8(a[0] as u8));
        }
        11 => g.d(&NearCallABI::from_u256(word)),
        12 => {
            let p = PrecompileCallInnerABI::from_u256(word);
            g.d(&p);
            g.d(&p.to_u256());
            g.d(&PrecompileCallABI::from_u256(word));
        }
        13 => {
            let m = VmMetaParameters {
                ergs_per_pubdata_byte: a[0] as u32,
                heap_size: a[1] as u32,
                aux_heap_size: a[2] as u32,
                this_shard_id: a[3] as u8,
                caller_shard_id: (a[3] >> 8) as u8,
                code_shard_id: (a[3] >> 16) as u8,
            };
            g.d(&m.to_u256());
        }
        14 | 15 => {
            let mut b = crate::abi::bytes_of(word);
            if kind == 14 {
                if a[1] & 3 != 0 {
                    b[0] = 1;
                }
                let h = VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(b);
                g.d(&h);
                if let Some(h) = h {
                    g.d(&h.serialize());
                    g.d(&h.serialize_to_stored());
                    g.d(h.layout_ref());
                }
            } else {
                let h = VersionedHashGeneric::<ContractCodeSha256>::from_digest_and_preimage_num_words(b, a[0] as u16);
                g.d(&h.serialize());
                g.d(&h.serialize_to_stored());
            }
        }
        16 => {
            let n = (a[0] % 8) as usize;
            let mut words = vec![[0u8; 32]; n];
            let mut rng = Rng::new(a[1]);
            words.iter_mut().for_each(|w| rng.fill(w));
            if n > 0 && a[2] & 1 == 1 {
                // bytecodes that differ in one place only
                words[((a[2] >> 1) % n as u64) as usize][(a[3] % 32) as usize] ^= (a[3] >> 8) as u8;
            }
            g.d(&zk::bytecode_to_code_hash(&words));
            g.d(&zk::bytecode_to_code_hash_for_mode::<16, Test>(&words));
        }
        17 => {
            let c = Condition::materialize_variant((a[0] & 7) as usize);
            g.d(&c);
            g.d(&c.variant_index());
        }
        18 => {
            let (l, h) = zk::split_as_u4(a[0] as u8);
            g.d(&(l, h));
            g.d(&zk::merge_u4(a[1] as u8 & 15, a[2] as u8 & 15));
        }
        19 => {
            let i = ins(a[1], a[2], any_form(a[0]));
            g.t(&to_p(&i));
            g.t(&to_t(&i));
            g.t(&i.variant);
        }
        20 => {
            let n = (a[0] % 2048) as usize;
            g.d(&zk::OPCODES_TABLE[n]);
            g.d(&zk::OPCODES_PROPS_INTEGER_BITMASKS[n]);
            g.d(&zk::OPCODES_PRICES[n]);
            let f = if a[1] & 1 == 1 { any_form(a[2]) } else { zk::OPCODES_TABLE[n] };
            g.d(&zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&f));
            g.d(&zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&f));
        }
        21 => {
            let f = any_form(a[0]);
            g.d(&f);
            g.d(&f.ergs_price());
            g.d(&f.swap_operands());
            g.d(&(f.requires_kernel_mode(), f.can_be_used_in_static_context(), f.is_explicit_panic()));
            g.d(&(f.src0_operand_type.variant_idx(), f.dst0_operand_type.variant_idx()));
        }
        22 => {
            let op = opcode(a[0]);
            let v = VERSIONS[(a[1] & 1) as usize];
            g.d(&op);
            g.d(&(op.variant_idx(), op.materialize_subvariant_idx(), op.ergs_price()));
            g.d(&(op.requires_kernel_mode(), op.can_be_used_in_static_context()));
            g.d(&(op.can_have_src0_from_mem(v), op.can_write_dst0_into_memory(v)));
            g.d(&op.input_operands(v));
            g.d(&op.output_operands(v));
        }
        23 => variants_of(&mut g, opcode(a[0]), VERSIONS[(a[1] & 1) as usize]),
        24 => {
            let f = zk::OPCODES_TABLE[(a[0] % 2048) as usize];
            g.d(&zk::synthesize_bit_decomposition_table(&[f], VERSIONS[1]));
        }
        26 => {
            // a call the library may refuse; only what valid calls answer afterwards counts
            let x = a[1];
            let form = any_form(x >> 8);
            let wide = |mut i: Ins| {
                i.regs[(x >> 3) as usize % 4] = 16 + (x >> 48) as u8 % 240;
                i
            };
            let _ = panics(|| match a[0] % 10 {
                0 => drop(Condition::materialize_variant(8 + (x as u32 as usize % 1000))),
                1 => drop(opcode(x).materialize_subvariant_from_prototype(10 + (x >> 40) as usize % 50, &VERSIONS[(x & 1) as usize])),
                2 => drop(to_p(&ins(a[2], a[3], form)).serialize_as_integer()),
                3 => drop(to_t(&ins(a[2], a[3], form)).serialize_as_bytes()),
                // a register there is not
                4 => drop(to_p(&wide(ins(a[2], a[3], zk::OPCODES_TABLE[x as usize % 2048]))).serialize_as_integer()),
                5 => drop(to_t(&wide(ins(a[2], a[3], zk::OPCODES_TABLE[x as usize % 2048]))).serialize_as_integer()),
                6 => drop(zk::merge_u4((x >> 8) as u8 | 16, (x >> 16) as u8)),
                // a slot there is not
                7 => drop(Prod::integer_representaiton_from_u256(word, 4 + (x >> 8) as u16 % 252)),
                8 => drop(Test::integer_representaiton_from_u256(word, 2 + (x >> 8) as u32 % 254)),
                _ => drop(zk::bytecode_to_code_hash(&vec![[x as u8; 32]; (x as usize % 4) * 2])),
            });
            return call([17, 2, 3, 22, 16, 0, 5, 18][(a[0] / 10 % 8) as usize], [a[2], a[3], a[1], a[0]]);
        }
        27 => placed(&mut g, a),
        _ => {
            let v = VERSIONS[(a[1] & 1) as usize];
            match a[0] % 6 {
                0 => g.d(&zk::compute_decoding_format(v)),
                1 => g.d(&(zk::max_num_variants_for_version(v), zk::max_num_flags_for_version(v))),
                2 => g.d(&(
                    zk::total_description_bits_for_version(v),
                    zk::total_description_bits_rounded_for_version(v),
                    zk::total_opcode_description_and_aux_bits_for_version(v),
                )),
                3 => g.d(&ISAVersion::all_backward_compatible_versions(v)),
                4 => g.d(&zk::all_opcode_prototypes()),
                _ => {
                    for m in Mem::all_variants() {
                        g.d(&(m.variant_index(), m.encoding_byte(), m.is_memory_used(), m.is_allowed_for_dst()));
                    }
                    for m in RoI::all_variants() {
                        g.d(&(m.variant_index(), m.encoding_byte(), m.is_memory_used(), m.is_allowed_for_dst()));
                    }
                }
            }
        }
    }
    g.0
}

thread_local! {
    static PLACE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The value somewhere among its copies, somewhere else each time: where a value lies in memory
/// is no part of it.
fn anywhere<T: Clone, R>(x: &T, then: impl FnOnce(&T) -> R) -> R {
    let n = PLACE.with(|c| {
        c.set(c.get().wrapping_mul(5).wrapping_add(1)); // all residues in turn, out of step with the list of calls
        (c.get() >> 3) % 128
    });
    // one of the two strides is an odd multiple of the alignment, so all places in a cache line are met
    if n < 64 {
        then(&vec![x.clone(); 64][n])
    } else {
        then(&vec![Padded { x: x.clone(), _pad: 0 }; 64][n - 64].x)
    }
}

#[repr(C)]
#[derive(Clone)]
struct Padded<T> {
    x: T,
    _pad: u8,
}

fn placed(g: &mut Dig, a: [u64; 4]) {
    let word = zk::ethereum_types::U256(a);
    let i = ins(a[1], a[2], zk::OPCODES_TABLE[(a[0] >> 8) as usize % 2048]);
    match a[0] % 8 {
        0 => anywhere(&zk::ALL_CONDITIONS[(a[1] & 7) as usize], |c| {
            g.d(c);
            g.d(&c.variant_index());
        }),
        1 => anywhere(&to_p(&i), |x| {
            g.d(x);
            g.t(x);
            g.d(&x.serialize_as_integer());
            g.d(&x.serialize_as_bytes());
        }),
        2 => anywhere(&to_t(&i), |x| {
            g.d(x);
            g.t(x);
            g.d(&x.serialize_as_integer());
            g.d(&x.serialize_as_bytes());
        }),
        3 => anywhere(&FatPointer::from_u256(word), |p| {
            g.d(p);
            g.d(&p.to_u256());
            g.d(&(p.validate(true).bits(), p.validate(false).bits()));
            g.d(&(p.validate_in_bounds(), p.validate_as_slice(), p.is_trivial()));
        }),
        4 => anywhere(&any_form(a[1]), |f| {
            g.d(f);
            g.t(f);
            g.d(&(f.ergs_price(), f.swap_operands(), f.is_explicit_panic(), f.requires_kernel_mode(), f.can_be_used_in_static_context()));
            g.d(&(f.src0_operand_type.variant_idx(), f.dst0_operand_type.variant_idx()));
            g.d(&zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(f));
        }),
        5 => anywhere(&opcode(a[1]), |o| {
            g.d(o);
            g.d(&(o.variant_idx(), o.materialize_subvariant_idx(), o.ergs_price()));
            for v in VERSIONS {
                g.d(&(o.can_have_src0_from_mem(v), o.can_write_dst0_into_memory(v)));
                g.d(&(o.input_operands(v), o.output_operands(v)));
            }
        }),
        6 => anywhere(&word, |w| {
            g.d(&FarCallABI::from_u256(*w));
            g.d(&PrecompileCallInnerABI::from_u256(*w).to_u256());
            g.d(&Prod::integer_representaiton_from_u256(*w, a[1] as u16 & 3));
            let mut b = crate::abi::bytes_of(*w);
            b[0] = 1;
            anywhere(&VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(b), |h| {
                g.d(h);
                if let Some(h) = h {
                    g.d(&h.serialize());
                    g.d(&h.serialize_to_stored());
                }
            });
        }),
        _ => {
            // a code in the middle of others
            let n = (a[1] % 6) as usize;
            let at = PLACE.with(|c| {
                c.set(c.get() + 1);
                c.get() % 19
            });
            let mut words = vec![[0xa5u8; 32]; 26];
            let mut rng = Rng::new(a[2]);
            words[at..at + n].iter_mut().for_each(|w| rng.fill(w));
            g.d(&zk::bytecode_to_code_hash(&words[at..at + n]));
            g.d(&zk::bytecode_to_code_hash_for_mode::<16, Test>(&words[at..at + n]));
        }
    }
}

#[derive(Clone, Copy)]
pub struct Op {
    pub kind: usize,
    pub args: [u64; 4],
}

/// Arguments that agree with `a` almost everywhere: what a result remembered under too little of
/// its arguments would be mistaken for.
pub fn near(rng: &mut Rng, mut a: [u64; 4]) -> [u64; 4] {
    let i = rng.below(4);
    match rng.below(8) {
        0 => a[i] ^= 0xffff_ffff_0000_0000 & rng.next(),
        1 => a[i] ^= 0xffff_ffff & rng.next(),
        2 => a[i] = rng.next(),
        3 => a.swap(i, (i + 1) % 4),
        4 => a[i] ^= (rng.next() & 0xff) << (8 * rng.below(8)),
        5 => a[i] = a[i].rotate_left(32),
        _ => a[i] ^= 1 << rng.below(64),
    }
    a
}

/// Deterministic list of calls for a seed.
pub fn list(seed: u64, n: usize, kinds: &[usize], dict: &[u64]) -> Vec<Op> {
    let mut rng = Rng::new(seed ^ 0x0b5);
    let mut v: Vec<Op> = Vec::with_capacity(n);
    for i in 0..n {
        let kind = kinds[if i < kinds.len() { i } else { rng.below(kinds.len()) }];
        let mut args = [rng.next(), rng.next(), rng.next(), rng.next()];
        match rng.below(5) {
            0 => {
                for a in args.iter_mut() {
                    *a = dict[rng.below(dict.len())];
                }
            }
            1 => {
                // 32-bit lanes at boundaries
                for a in args.iter_mut() {
                    let (l, h) = (dict[rng.below(dict.len())] as u32, dict[rng.below(dict.len())] as u32);
                    *a = l as u64 | (h as u64) << 32;
                }
            }
            2 if !v.is_empty() => args = v[rng.below(v.len())].args, // the same arguments to another call
            _ => {}
        }
        if rng.below(4) == 0 && !v.is_empty() {
            // an earlier call of the last few again, with a small change somewhere in its arguments
            let o = v[v.len() - 1 - rng.below(v.len().min(6))];
            v.push(Op { kind: o.kind, args: near(&mut rng, o.args) });
            continue;
        }
        if let (1, Some(last)) = (rng.below(6), v.last().copied()) {
            // a repetition, or a near repetition
            v.push(Op { kind: last.kind, args: if rng.below(2) == 0 { last.args } else { args } });
            continue;
        }
        v.push(Op { kind, args });
    }
    v
}

/// Result of a call: its digest, or the fact that it panicked.
pub fn observe(op: &Op) -> Result<u64, String> {
    crate::watch::step();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op.kind, op.args))).map_err(panic_message)
}

// ---------------------------------------------------------------- shared state, first use

pub const TOUCHES: [&str; 26] = [
    "OPCODES_TABLE", "OPCODES_PROPS_INTEGER_BITMASKS", "OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP", "OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP",
    "NOP_OPCODE_VARIANT", "NOP_BITSPREAD_U64", "PANIC_OPCODE_VARIANT", "PANIC_BITSPREAD_U64", "OPCODE_PROTOTYPES", "NUM_LOGICAL_OPCODES",
    "NUM_INPUT_VARIANTS", "NUM_OUTPUT_VARIANTS", "OPCODES_PRICES", "BOOTLOADER_FORMAL_ADDRESS", "DEPLOYER_SYSTEM_CONTRACT_ADDRESS",
    "NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS", "KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS",
    "KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", "SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS",
    "ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", "production reserved words", "testing reserved words", "first decoding",
    "first encoding", "first masked default", "first table synthesis",
];

/// Shared objects that need none of the large tables.
pub const SMALL: [usize; 11] = [8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19];

/// Digest of the answers to a code of `n` words, in both modes.
pub fn code_of(n: usize, seed: u64) -> u64 {
    let mut g = Dig::new();
    let mut words = vec![[seed as u8; 32]; n];
    let mut rng = Rng::new(seed);
    for i in (0..n).step_by(1 + n / 7) {
        rng.fill(&mut words[i]);
    }
    g.d(&zk::bytecode_to_code_hash(&words));
    if n <= 8 || n > 65_537 {
        g.d(&zk::bytecode_to_code_hash_for_mode::<16, Test>(&words));
    }
    g.0
}

/// Digest of one shared object (or of a first call that needs them).
pub fn touch(i: usize) -> u64 {
    use zk::system_params as sp;
    let mut g = Dig::new();
    match i {
        0 => g.d(&&zk::OPCODES_TABLE[..]),
        1 => g.d(&&zk::OPCODES_PROPS_INTEGER_BITMASKS[..]),
        2 => {
            let mut v: Vec<_> = zk::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.iter().map(|(k, n)| (*k, n.into_usize())).collect();
            v.sort();
            g.d(&v);
        }
        3 => {
            let mut v: Vec<_> = zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.iter().map(|(k, n)| (*k, *n)).collect();
            v.sort();
            g.d(&v);
        }
        4 => g.d(&*zk::NOP_OPCODE_VARIANT),
        5 => g.d(&*zk::NOP_BITSPREAD_U64),
        6 => g.d(&*zk::PANIC_OPCODE_VARIANT),
        7 => g.d(&*zk::PANIC_BITSPREAD_U64),
        8 => {
            for p in zk::OPCODE_PROTOTYPES.iter() {
                g.d(&p.name());
                for v in VERSIONS {
                    g.d(&p.variants_data(v));
                    g.d(&p.input_operands(v));
                    g.d(&p.output_operands(v));
                    g.d(&p.max_variant_idx(v));
                }
            }
        }
        9 => g.d(&*zk::NUM_LOGICAL_OPCODES),
        10 => g.d(&*zk::NUM_INPUT_VARIANTS),
        11 => g.d(&*zk::NUM_OUTPUT_VARIANTS),
        12 => g.d(&&zk::OPCODES_PRICES[..]),
        13 => g.d(&*sp::BOOTLOADER_FORMAL_ADDRESS),
        14 => g.d(&*sp::DEPLOYER_SYSTEM_CONTRACT_ADDRESS),
        15 => g.d(&*sp::NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS),
        16 => g.d(&*sp::KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS),
        17 => g.d(&*sp::KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS),
        18 => g.d(&*sp::SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS),
        19 => g.d(&*sp::ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS),
        20 => g.d(&(Prod::nop_encoding(), Prod::exception_revert_encoding())),
        21 => g.d(&(Test::nop_encoding(), Test::exception_revert_encoding())),
        22 => {
            g.d(&Prod::parse_preliminary_variant_and_absolute_number(0x0000000300010369));
            g.d(&Test::parse_preliminary_variant_and_absolute_number(0x000000020000036d));
        }
        23 => {
            let f = OpcodeVariant {
                opcode: Opcode::Add(zk::AddOpcode::Add),
                src0_operand_type: Operand::Full(Mem::UseImm16Only),
                dst0_operand_type: Operand::Full(Mem::UseRegOnly),
                flags: [true, false],
            };
            let i = ins(0x1234567, 0x89abcdef, f);
            g.d(&to_p(&i).serialize_as_integer());
            g.d(&to_t(&i).serialize_as_bytes());
        }
        24 => {
            let mut x = zk::DecodedOpcode::<8, Prod>::default();
            g.d(&x.serialize_as_integer());
            x.mask_into_panic();
            g.d(&x.serialize_as_bytes());
        }
        _ => {
            g.d(&zk::synthesize_opcode_decoding_tables(11, VERSIONS[0]));
            g.d(&zk::compute_decoding_format(VERSIONS[1]));
            g.d(&zk::total_opcode_description_and_aux_bits_for_version(VERSIONS[1]));
        }
    }
    g.0
}
