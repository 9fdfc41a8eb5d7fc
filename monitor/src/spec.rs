//! Independent reference model of the instruction set.
//!
//! Nothing here is computed with the library under observation: the model is plain data, written
//! down from the instruction set (families, variants, flags, addressing classes, privileges,
//! prices), plus the documented word layout. Library types are only used as the vocabulary in
//! which a modelled instruction form is written out so that it can be compared.

use zkevm_opcode_defs as zk;
use zk::{ImmMemHandlerFlags as Mem, Opcode, OpcodeVariant, Operand, RegOrImmFlags as RoI};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Addr {
    /// registers only
    Reg,
    /// source 0 in any of the six modes, no memory destination
    Src,
    /// source 0 in any of the six modes, destination 0 in any of the four writable modes
    SrcDst,
    /// source 0 is a register or an immediate
    RegImm,
}

#[derive(Clone, Copy, Debug)]
pub struct Sub {
    pub opcode: Opcode,
    /// family position in the numbering of opcode numbers
    pub order: usize,
    /// family bit in the circuit mask
    pub family_bit: usize,
    pub index: usize,
    pub flags: usize,
    pub addr: [Addr; 2],
    pub kernel: bool,
    pub static_ok: bool,
    pub price: u32,
    pub swap_flag: Option<usize>,
    /// declared inputs / outputs (count)
    pub inputs: usize,
    pub outputs: usize,
    /// immediates used, per ISA version
    pub imms: [usize; 2],
}

pub const FAMILY_NAMES: [&str; 16] = [
    "invalid", "nop", "add", "sub", "mul", "div", "jump", "binop", "shift", "ptr", "near_call",
    "context", "log", "far_call", "ret", "uma",
];
/// family (numbering order) -> number of variants
pub const FAMILY_SIZES: [usize; 16] = [1, 1, 1, 1, 1, 1, 1, 3, 4, 4, 1, 10, 5, 3, 3, 5];
/// family (numbering order) -> bit in the circuit mask
pub const FAMILY_BITS: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 9, 8, 10, 11, 7, 12, 13, 14, 15];

pub const MAX_VARIANTS: usize = 10;
pub const MAX_FLAGS: usize = 2;
pub const SRC_MODES: usize = 6;
pub const DST_MODES: usize = 4;
pub const FAMILIES: usize = 16;
/// description bits, rounded up to a multiple of 16
pub const DESC_BITS: usize = FAMILIES + MAX_VARIANTS + MAX_FLAGS + SRC_MODES + DST_MODES;
pub const DESC_BITS_ROUNDED: usize = 48;
pub const TABLE_LEN: usize = 2048;

pub const ALL_PRICE: u32 = u32::MAX;

pub fn subs() -> Vec<Sub> {
    use zk::*;
    use Addr::*;
    let mut v: Vec<Sub> = Vec::new();
    #[allow(clippy::too_many_arguments)]
    fn fam(
        v: &mut Vec<Sub>,
        order: usize,
        ops: &[Opcode],
        flags: usize,
        addr: Addr,
        inputs: usize,
        outputs: usize,
        price: u32,
        imms: usize,
        swap: Option<usize>,
    ) {
        assert_eq!(ops.len(), FAMILY_SIZES[order]);
        for (index, op) in ops.iter().enumerate() {
            v.push(Sub {
                opcode: *op,
                order,
                family_bit: FAMILY_BITS[order],
                index,
                flags,
                addr: [addr, addr],
                kernel: false,
                static_ok: true,
                price,
                swap_flag: swap,
                inputs,
                outputs,
                imms: [imms, imms],
            });
        }
    }
    fam(&mut v, 0, &[Opcode::Invalid(InvalidOpcode)], 0, Reg, 0, 0, ALL_PRICE, 0, None);
    fam(&mut v, 1, &[Opcode::Nop(NopOpcode)], 0, SrcDst, 1, 1, 6, 2, None);
    fam(&mut v, 2, &[Opcode::Add(AddOpcode::Add)], 1, SrcDst, 2, 1, 6, 2, None);
    fam(&mut v, 3, &[Opcode::Sub(SubOpcode::Sub)], 2, SrcDst, 2, 1, 6, 2, Some(1));
    fam(&mut v, 4, &[Opcode::Mul(MulOpcode)], 1, SrcDst, 2, 2, 6, 2, None);
    fam(&mut v, 5, &[Opcode::Div(DivOpcode)], 2, SrcDst, 2, 2, 6, 2, Some(1));
    fam(&mut v, 6, &[Opcode::Jump(JumpOpcode)], 0, Src, 1, 0, 6, 1, None);
    fam(
        &mut v, 7,
        &[BinopOpcode::Xor, BinopOpcode::And, BinopOpcode::Or].map(Opcode::Binop),
        1, SrcDst, 2, 1, 6, 2, None,
    );
    fam(
        &mut v, 8,
        &[ShiftOpcode::Shl, ShiftOpcode::Shr, ShiftOpcode::Rol, ShiftOpcode::Ror].map(Opcode::Shift),
        2, SrcDst, 2, 1, 6, 2, Some(1),
    );
    fam(
        &mut v, 9,
        &[PtrOpcode::Add, PtrOpcode::Sub, PtrOpcode::Pack, PtrOpcode::Shrink].map(Opcode::Ptr),
        1, SrcDst, 2, 1, 6, 2, Some(0),
    );
    fam(&mut v, 10, &[Opcode::NearCall(NearCallOpcode)], 0, Reg, 1, 0, 25, 2, None);
    fam(
        &mut v, 11,
        &[
            ContextOpcode::This, ContextOpcode::Caller, ContextOpcode::CodeAddress, ContextOpcode::Meta,
            ContextOpcode::ErgsLeft, ContextOpcode::Sp, ContextOpcode::GetContextU128,
            ContextOpcode::SetContextU128, ContextOpcode::SetErgsPerPubdataByte,
            ContextOpcode::IncrementTxNumber,
        ].map(Opcode::Context),
        0, Reg, 0, 1, 5, 0, None,
    );
    fam(
        &mut v, 12,
        &[
            LogOpcode::StorageRead, LogOpcode::StorageWrite, LogOpcode::ToL1Message, LogOpcode::Event,
            LogOpcode::PrecompileCall,
        ].map(Opcode::Log),
        0, Reg, 1, 1, 0, 0, None,
    );
    fam(
        &mut v, 13,
        &[FarCallOpcode::Normal, FarCallOpcode::Delegate, FarCallOpcode::Mimic].map(Opcode::FarCall),
        2, Reg, 2, 0, 182, 1, None,
    );
    fam(
        &mut v, 14,
        &[RetOpcode::Ok, RetOpcode::Revert, RetOpcode::Panic].map(Opcode::Ret),
        1, Reg, 1, 0, 5, 1, None,
    );
    fam(
        &mut v, 15,
        &[
            UMAOpcode::HeapRead, UMAOpcode::HeapWrite, UMAOpcode::AuxHeapRead, UMAOpcode::AuxHeapWrite,
            UMAOpcode::FatPointerRead,
        ].map(Opcode::UMA),
        1, Reg, 1, 2, 7, 0, None,
    );
    for s in v.iter_mut() {
        match s.opcode {
            Opcode::Context(
                c @ (ContextOpcode::SetContextU128
                | ContextOpcode::SetErgsPerPubdataByte
                | ContextOpcode::IncrementTxNumber),
            ) => {
                s.kernel = true;
                s.static_ok = false;
                s.outputs = 0;
                s.inputs = if c == ContextOpcode::IncrementTxNumber { 0 } else { 1 };
            }
            Opcode::Log(LogOpcode::StorageRead) => s.price = 158,
            Opcode::Log(LogOpcode::StorageWrite) => {
                s.price = 3501;
                s.static_ok = false;
                s.inputs = 2;
                s.outputs = 0;
            }
            Opcode::Log(LogOpcode::ToL1Message) => {
                s.price = 156250;
                s.static_ok = false;
                s.kernel = true;
                s.flags = 1;
                s.inputs = 2;
                s.outputs = 0;
            }
            Opcode::Log(LogOpcode::Event) => {
                s.price = 38;
                s.static_ok = false;
                s.kernel = true;
                s.flags = 1;
                s.inputs = 2;
                s.outputs = 0;
            }
            Opcode::Log(LogOpcode::PrecompileCall) => {
                s.price = 6;
                s.kernel = true;
            }
            Opcode::FarCall(FarCallOpcode::Mimic) => s.kernel = true,
            Opcode::Ret(RetOpcode::Panic) => s.inputs = 0,
            Opcode::UMA(u) => {
                if matches!(u, UMAOpcode::HeapWrite | UMAOpcode::AuxHeapWrite) {
                    s.price = 13;
                    s.inputs = 2;
                    s.outputs = 1;
                }
                if u != UMAOpcode::FatPointerRead {
                    s.addr[1] = RegImm;
                    s.imms[1] = 1;
                }
            }
            _ => {}
        }
    }
    v
}

pub fn mem_modes() -> [Mem; 6] {
    [
        Mem::UseRegOnly,
        Mem::UseStackWithPushPop,
        Mem::UseStackWithOffset,
        Mem::UseAbsoluteOnStack,
        Mem::UseImm16Only,
        Mem::UseCodePage,
    ]
}

/// Every way the library's types can spell an operand, legal or not.
pub fn all_operands() -> Vec<Operand> {
    let mut v = vec![
        Operand::RegOnly,
        Operand::RegOrImm(RoI::UseRegOnly),
        Operand::RegOrImm(RoI::UseImm16Only),
    ];
    v.extend(mem_modes().map(Operand::Full));
    v
}

/// mode number 0..6 of an operand: register, push/pop, offset, absolute, immediate, code page
pub fn mode(op: Operand) -> usize {
    match op {
        Operand::RegOnly | Operand::RegOrImm(RoI::UseRegOnly) | Operand::Full(Mem::UseRegOnly) => 0,
        Operand::Full(Mem::UseStackWithPushPop) => 1,
        Operand::Full(Mem::UseStackWithOffset) => 2,
        Operand::Full(Mem::UseAbsoluteOnStack) => 3,
        Operand::Full(Mem::UseImm16Only) | Operand::RegOrImm(RoI::UseImm16Only) => 4,
        Operand::Full(Mem::UseCodePage) => 5,
    }
}

fn src_options(a: Addr) -> Vec<Operand> {
    match a {
        Addr::Reg => vec![Operand::RegOnly],
        Addr::Src | Addr::SrcDst => mem_modes().iter().map(|m| Operand::Full(*m)).collect(),
        Addr::RegImm => vec![
            Operand::RegOrImm(RoI::UseRegOnly),
            Operand::RegOrImm(RoI::UseImm16Only),
        ],
    }
}

fn dst_options(a: Addr) -> Vec<Operand> {
    match a {
        Addr::SrcDst => mem_modes()[..4].iter().map(|m| Operand::Full(*m)).collect(),
        _ => vec![Operand::RegOnly],
    }
}

fn flag_options(n: usize) -> Vec<[bool; 2]> {
    match n {
        0 => vec![[false, false]],
        1 => vec![[false, false], [true, false]],
        _ => vec![[false, false], [false, true], [true, false], [true, true]],
    }
}

fn forms(s: &Sub, version: usize) -> Vec<OpcodeVariant> {
    let mut v = vec![];
    for src in src_options(s.addr[version]) {
        for dst in dst_options(s.addr[version]) {
            for flags in flag_options(s.flags) {
                v.push(OpcodeVariant {
                    opcode: s.opcode,
                    src0_operand_type: src,
                    dst0_operand_type: dst,
                    flags,
                });
            }
        }
    }
    v
}

pub fn invalid() -> OpcodeVariant {
    OpcodeVariant {
        opcode: Opcode::Invalid(zk::InvalidOpcode),
        src0_operand_type: Operand::RegOnly,
        dst0_operand_type: Operand::RegOnly,
        flags: [false, false],
    }
}

pub struct Spec {
    pub subs: Vec<Sub>,
    /// assigned forms per ISA version, by opcode number
    pub forms: [Vec<OpcodeVariant>; 2],
}

impl Spec {
    pub fn new() -> Spec {
        let subs = subs();
        let v0: Vec<OpcodeVariant> = subs.iter().flat_map(|s| forms(s, 0)).collect();
        // version 1: same numbers, heap accesses now spelled "register or immediate"; the
        // immediate forms come after everything version 0 has
        let mut v1: Vec<OpcodeVariant> = Vec::new();
        for s in subs.iter() {
            v1.extend(forms(s, 1).into_iter().filter(|f| {
                f.src0_operand_type != Operand::RegOrImm(RoI::UseImm16Only)
            }));
        }
        for s in subs.iter() {
            v1.extend(forms(s, 1).into_iter().filter(|f| {
                f.src0_operand_type == Operand::RegOrImm(RoI::UseImm16Only)
            }));
        }
        assert_eq!(v1.len(), v0.len() + 8);
        Spec { subs, forms: [v0, v1] }
    }

    pub fn at(&self, version: usize, n: usize) -> OpcodeVariant {
        self.forms[version].get(n).copied().unwrap_or_else(invalid)
    }

    pub fn sub_of(&self, op: Opcode) -> &Sub {
        self.subs.iter().find(|s| s.opcode == op).expect("every opcode is modelled")
    }

    pub fn mask(&self, f: &OpcodeVariant) -> u64 {
        let s = self.sub_of(f.opcode);
        let mut m = 1u64 << s.family_bit;
        m |= 1u64 << (FAMILIES + s.index);
        for i in 0..2 {
            if f.flags[i] {
                m |= 1u64 << (FAMILIES + MAX_VARIANTS + i);
            }
        }
        m |= 1u64 << (FAMILIES + MAX_VARIANTS + MAX_FLAGS + mode(f.src0_operand_type));
        m |= 1u64 << (FAMILIES + MAX_VARIANTS + MAX_FLAGS + SRC_MODES + mode(f.dst0_operand_type));
        if s.kernel {
            m |= 1u64 << DESC_BITS_ROUNDED;
        }
        if s.static_ok {
            m |= 1u64 << (DESC_BITS_ROUNDED + 1);
        }
        if matches!(f.opcode, Opcode::Invalid(_)) {
            m |= 1u64 << (DESC_BITS_ROUNDED + 2);
        }
        m
    }
}

/// Same instruction, even if a later ISA version spells a register-only source differently.
pub fn same_meaning(a: &OpcodeVariant, b: &OpcodeVariant) -> bool {
    a.opcode == b.opcode
        && a.flags == b.flags
        && mode(a.src0_operand_type) == mode(b.src0_operand_type)
        && mode(a.dst0_operand_type) == mode(b.dst0_operand_type)
}

/// Documented layout of an instruction word.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fields {
    pub number: usize,
    pub reserved: u8,
    pub cond: usize,
    pub src0: u8,
    pub src1: u8,
    pub dst0: u8,
    pub dst1: u8,
    pub imm0: u32,
    pub imm1: u32,
}

fn bits(w: u128, from: u32, n: u32) -> u128 {
    // written with division so that it shares nothing with shift-and-mask code
    (w / 2u128.pow(from)) % 2u128.pow(n)
}

pub fn fields_production(w: u64) -> Fields {
    fields(w as u128, 32, 16, 48, 16)
}

pub fn fields_testing(w: u128) -> Fields {
    fields(w, 32, 32, 64, 32)
}

fn fields(w: u128, i0: u32, n0: u32, i1: u32, n1: u32) -> Fields {
    Fields {
        number: bits(w, 0, 11) as usize,
        reserved: bits(w, 11, 2) as u8,
        cond: bits(w, 13, 3) as usize,
        src0: bits(w, 16, 4) as u8,
        src1: bits(w, 20, 4) as u8,
        dst0: bits(w, 24, 4) as u8,
        dst1: bits(w, 28, 4) as u8,
        imm0: bits(w, i0, n0) as u32,
        imm1: bits(w, i1, n1) as u32,
    }
}

pub fn conditions() -> [zk::Condition; 8] {
    use zk::Condition::*;
    [Always, Gt, Lt, Eq, Ge, Le, Ne, GtOrLt]
}

/// SHA-256, straight from the standard; used as oracle for bytecode hashes.
type Constants = (Vec<u32>, Vec<u32>);

fn sha256_constants() -> &'static Constants {
    fn primes(n: usize) -> Vec<u64> {
        let mut p: Vec<u64> = vec![];
        let mut c = 2u64;
        while p.len() < n {
            if p.iter().all(|q| c % q != 0) {
                p.push(c);
            }
            c += 1;
        }
        p
    }
    // fractional bits of square and cube roots, by integer root of a scaled prime
    fn isqrt_frac(p: u64) -> u32 {
        let target = (p as u128) << 64;
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m * m <= target { lo = m } else { hi = m - 1 }
        }
        lo as u32
    }
    fn icbrt_frac(p: u64) -> u32 {
        let target = (p as u128) << 96;
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m * m * m <= target { lo = m } else { hi = m - 1 }
        }
        lo as u32
    }
    use std::sync::OnceLock;
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    K.get_or_init(|| {
        let p = primes(64);
        (
            p.iter().map(|x| icbrt_frac(*x)).collect(),
            p[..8].iter().map(|x| isqrt_frac(*x)).collect(),
        )
    })
}

/// The state after hashing whole blocks.
pub fn sha256_start() -> [u32; 8] {
    sha256_constants().1[..].try_into().unwrap()
}

pub fn sha256_block(h: &mut [u32; 8], chunk: &[u8]) {
    let k = &sha256_constants().0;
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(chunk[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut a = *h;
    for i in 0..64 {
        let s1 = a[4].rotate_right(6) ^ a[4].rotate_right(11) ^ a[4].rotate_right(25);
        let ch = (a[4] & a[5]) ^ (!a[4] & a[6]);
        let t1 = a[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = a[0].rotate_right(2) ^ a[0].rotate_right(13) ^ a[0].rotate_right(22);
        let maj = (a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]);
        let t2 = s0.wrapping_add(maj);
        a = [t1.wrapping_add(t2), a[0], a[1], a[2], a[3].wrapping_add(t1), a[4], a[5], a[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(a[i]);
    }
}

/// Finishes a hash whose first `done` bytes (whole blocks) are in the state.
pub fn sha256_finish(mut h: [u32; 8], done: usize, rest: &[u8]) -> [u8; 32] {
    let mut msg = rest.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&(((done + rest.len()) as u64) * 8).to_be_bytes());
    for chunk in msg.chunks(64) {
        sha256_block(&mut h, chunk);
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h = sha256_start();
    let whole = data.len() / 64 * 64;
    for chunk in data[..whole].chunks(64) {
        sha256_block(&mut h, chunk);
    }
    sha256_finish(h, whole, &data[whole..])
}
