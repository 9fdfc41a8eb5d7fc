//! Monitors over instruction words: C01-C05, C13, C14, C27, C28.

use crate::engine::*;
use crate::spec::{self, Fields};
use crate::world::{w, World};
use std::fmt::Write as _;
use zk::decoding::{
    AllowedIntegerRepresentation, AllowedPcOrImm, EncodingModeProduction as Prod, EncodingModeTesting as Test,
    VmEncodingMode,
};
use zk::ethereum_types::U256;
use zk::{Condition, DecodedOpcode, OpcodeVariant, Operand};
use zkevm_opcode_defs as zk;

pub type DP = DecodedOpcode<8, Prod>;
pub type DT = DecodedOpcode<16, Test>;

/// Mode-independent picture of a decoded instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ins {
    pub variant: OpcodeVariant,
    pub cond: Condition,
    pub regs: [u8; 4],
    pub imm: [u32; 2],
}

pub fn of_p(d: &DP) -> Ins {
    Ins {
        variant: d.variant,
        cond: d.condition,
        regs: [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx],
        imm: [d.imm_0 as u32, d.imm_1 as u32],
    }
}
pub fn of_t(d: &DT) -> Ins {
    Ins {
        variant: d.variant,
        cond: d.condition,
        regs: [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx],
        imm: [d.imm_0, d.imm_1],
    }
}
pub fn to_p(i: &Ins) -> DP {
    DecodedOpcode {
        variant: i.variant,
        condition: i.cond,
        src0_reg_idx: i.regs[0],
        src1_reg_idx: i.regs[1],
        dst0_reg_idx: i.regs[2],
        dst1_reg_idx: i.regs[3],
        imm_0: i.imm[0] as u16,
        imm_1: i.imm[1] as u16,
    }
}
pub fn to_t(i: &Ins) -> DT {
    DecodedOpcode {
        variant: i.variant,
        condition: i.cond,
        src0_reg_idx: i.regs[0],
        src1_reg_idx: i.regs[1],
        dst0_reg_idx: i.regs[2],
        dst1_reg_idx: i.regs[3],
        imm_0: i.imm[0],
        imm_1: i.imm[1],
    }
}

fn le64(d: &[u8]) -> u64 {
    u64::from_le_bytes(d[..8].try_into().unwrap())
}
fn le128(d: &[u8]) -> u128 {
    let mut b = [0u8; 16];
    let n = d.len().min(16);
    b[..n].copy_from_slice(&d[..n]);
    u128::from_le_bytes(b)
}

/// The instruction the documented layout gives, with the form the library's table has there.
fn expect(wd: &World, f: &Fields) -> Ins {
    Ins {
        variant: wd.table[f.number],
        cond: wd.conds[f.cond],
        regs: [f.src0, f.src1, f.dst0, f.dst1],
        imm: [f.imm0, f.imm1],
    }
}

fn same(what: &str, got: &Ins, want: &Ins) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

fn see_fields(o: &mut Obs, f: &Fields) {
    o.see("opcode numbers", f.number as u64);
    o.see("conditions", f.cond as u64);
    o.see("register quadruples", u64::from_le_bytes([f.src0, f.src1, f.dst0, f.dst1, 0, 0, 0, 0]));
    o.see("immediate 0 values", f.imm0 as u64);
    o.see("immediate 1 values", f.imm1 as u64);
}

// ---------------------------------------------------------------- C01

fn c01_production(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let word = le64(d);
    let f = spec::fields_production(word);
    let (dec, n) = Prod::parse_preliminary_variant_and_absolute_number(word);
    let want = expect(wd, &f);
    same(&format!("production word {word:#018x}"), &of_p(&dec), &want)?;
    if n.into_usize() != f.number {
        return Err(format!("production word {word:#018x}: opcode number {} reported, bits say {}", n.into_usize(), f.number));
    }
    let (v, c, k) = Prod::variant_and_condition_from_u64_word(word);
    if v != want.variant || c != want.cond || k != f.number {
        return Err(format!("production word {word:#018x}: partial decoding gives {v:?} {c:?} {k}"));
    }
    see_fields(o, &f);
    Ok(word != 0)
}

fn c01_testing(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let word = le128(d);
    let f = spec::fields_testing(word);
    let (dec, n) = Test::parse_preliminary_variant_and_absolute_number(word);
    let want = expect(wd, &f);
    same(&format!("testing word {word:#034x}"), &of_t(&dec), &want)?;
    if n.into_usize() != f.number {
        return Err(format!("testing word {word:#034x}: opcode number {} reported, bits say {}", n.into_usize(), f.number));
    }
    let (v, c, k) = Test::variant_and_condition_from_u128_word(word);
    if v != want.variant || c != want.cond || k != f.number {
        return Err(format!("testing word {word:#034x}: partial decoding gives {v:?} {c:?} {k}"));
    }
    see_fields(o, &f);
    Ok(word != 0)
}

/// every opcode number with every condition, reserved pattern and register byte on random rest
fn c01_all_low_halves(o: &mut Obs, d: &[u8]) -> Verdict {
    let low = index(d) as u64; // 16 bits
    for k in 0..3u64 {
        let rest = match k {
            0 => 0,
            1 => u64::MAX,
            _ => mix(low ^ 0x77),
        };
        let word = low | (rest << 16);
        c01_production(o, &word.to_le_bytes())?;
        let wide = low as u128 | ((rest as u128) << 16) | ((mix(rest) as u128) << 72);
        c01_testing(o, &wide.to_le_bytes())?;
    }
    Ok(true)
}

// ---------------------------------------------------------------- C02

fn assigned(wd: &World, n: usize) -> bool {
    n == 0 || !matches!(wd.table[n].opcode, zk::Opcode::Invalid(_))
}

fn c02_production(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let raw = le64(d);
    let word = raw & !(3 << 11);
    let f = spec::fields_production(word);
    // word -> instruction -> word
    let (dec, _) = Prod::parse_preliminary_variant_and_absolute_number(word);
    let enc = dec.serialize_as_integer();
    let want = if assigned(wd, f.number) { word } else { word & !0x7ff };
    if enc != want {
        return Err(format!("production word {word:#018x} decodes and re-encodes to {enc:#018x}, expected {want:#018x}"));
    }
    if Prod::encode_as_integer(&dec) != enc {
        return Err(format!("production {word:#018x}: the two integer encoders differ"));
    }
    let b = dec.serialize_as_bytes();
    if u64::from_be_bytes(b) != enc || Prod::encode_as_bytes(&dec) != b || enc.encode_as_bytes() != b {
        return Err(format!("production word {word:#018x}: bytes {} do not agree with integer {enc:#018x}", hex(&b)));
    }
    // instruction -> word -> instruction, the form taken from the table
    let forms = &wd.table_forms;
    let ins = Ins {
        variant: forms[f.number % forms.len()],
        cond: wd.conds[f.cond],
        regs: [f.src0, f.src1, f.dst0, f.dst1],
        imm: [f.imm0, f.imm1],
    };
    let e = to_p(&ins).serialize_as_integer();
    let (back, _) = Prod::parse_preliminary_variant_and_absolute_number(e);
    same(&format!("production round trip through {e:#018x}"), &of_p(&back), &ins)?;
    see_fields(o, &f);
    o.see("forms", (f.number % forms.len()) as u64);
    Ok(word != 0)
}

fn c02_testing(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let raw = le128(&d[..12]);
    let word = raw & !(3 << 11);
    let f = spec::fields_testing(word);
    let (dec, _) = Test::parse_preliminary_variant_and_absolute_number(word);
    let enc = dec.serialize_as_integer();
    let want = if assigned(wd, f.number) { word } else { word & !0x7ff };
    if enc != want {
        return Err(format!("testing word {word:#034x} decodes and re-encodes to {enc:#034x}, expected {want:#034x}"));
    }
    if Test::encode_as_integer(&dec) != enc {
        return Err(format!("testing {word:#034x}: the two integer encoders differ"));
    }
    let b = dec.serialize_as_bytes();
    if u128::from_be_bytes(b) != enc || Test::encode_as_bytes(&dec) != b || enc.encode_as_bytes() != b {
        return Err(format!("testing word {word:#034x}: bytes {} do not agree with integer {enc:#034x}", hex(&b)));
    }
    let forms = &wd.table_forms;
    let ins = Ins {
        variant: forms[f.number % forms.len()],
        cond: wd.conds[f.cond],
        regs: [f.src0, f.src1, f.dst0, f.dst1],
        imm: [f.imm0, f.imm1],
    };
    let e = to_t(&ins).serialize_as_integer();
    let (back, _) = Test::parse_preliminary_variant_and_absolute_number(e);
    same(&format!("testing round trip through {e:#034x}"), &of_t(&back), &ins)?;
    see_fields(o, &f);
    o.see("forms", (f.number % forms.len()) as u64);
    Ok(word != 0)
}

/// every opcode number x condition, several register/immediate settings each
fn c02_all_low_halves(o: &mut Obs, d: &[u8]) -> Verdict {
    let i = index(d) as u64; // 14 bits: number, condition
    let low = (i & 0x7ff) | ((i >> 11) << 13);
    for k in 0..4u64 {
        let rest = match k {
            0 => 0,
            1 => u64::MAX,
            _ => mix(low ^ k),
        };
        c02_production(o, &(low | (rest << 16)).to_le_bytes())?;
        let wide = low as u128 | ((rest as u128) << 16) | ((mix(rest) as u128) << 72);
        c02_testing(o, &wide.to_le_bytes())?;
    }
    Ok(true)
}

// ---------------------------------------------------------------- C03

fn c03_production(o: &mut Obs, d: &[u8]) -> Verdict {
    let word = le64(d);
    let base = word & !(3 << 11);
    let (b0, n0) = Prod::parse_preliminary_variant_and_absolute_number(base);
    for r in 0..4u64 {
        let x = base | (r << 11);
        if Prod::is_canonical_encoding(x) != (r == 0) {
            return Err(format!("production word {x:#018x} with reserved bits {r:#04b}: canonical = {}", r != 0));
        }
        let (b, n) = Prod::parse_preliminary_variant_and_absolute_number(x);
        same(&format!("reserved bits {r:#04b} change production word {base:#018x}"), &of_p(&b), &of_p(&b0))?;
        if n != n0 {
            return Err(format!("reserved bits {r:#04b} change the opcode number of {base:#018x}"));
        }
        let e = b.serialize_as_integer();
        if !Prod::is_canonical_encoding(e) || (e >> 11) & 3 != 0 {
            return Err(format!("production encoder emits the non-canonical word {e:#018x}"));
        }
        if e.encode_as_bytes() != b.serialize_as_bytes() {
            return Err(format!("production encoder emits other bytes than {e:#018x}"));
        }
    }
    let f = spec::fields_production(word);
    see_fields(o, &f);
    o.see("reserved patterns", f.reserved as u64);
    Ok(true)
}

fn c03_testing(o: &mut Obs, d: &[u8]) -> Verdict {
    let word = le128(d);
    let base = word & !(3 << 11);
    let (b0, n0) = Test::parse_preliminary_variant_and_absolute_number(base);
    for r in 0..4u128 {
        let x = base | (r << 11);
        if Test::is_canonical_encoding(x) != (r == 0) {
            return Err(format!("testing word {x:#034x} with reserved bits {r:#04b}: canonical = {}", r != 0));
        }
        let (b, n) = Test::parse_preliminary_variant_and_absolute_number(x);
        same(&format!("reserved bits {r:#04b} change testing word {base:#034x}"), &of_t(&b), &of_t(&b0))?;
        if n != n0 {
            return Err(format!("reserved bits {r:#04b} change the opcode number of {base:#034x}"));
        }
        let e = b.serialize_as_integer();
        if !Test::is_canonical_encoding(e) || (e >> 11) & 3 != 0 {
            return Err(format!("testing encoder emits the non-canonical word {e:#034x}"));
        }
    }
    let f = spec::fields_testing(word);
    see_fields(o, &f);
    o.see("reserved patterns", f.reserved as u64);
    Ok(true)
}

fn c03_all_low_halves(o: &mut Obs, d: &[u8]) -> Verdict {
    let i = index(d) as u64;
    let low = (i & 0x7ff) | ((i >> 11) << 13);
    for rest in [0u64, u64::MAX, mix(low)] {
        c03_production(o, &(low | (rest << 16)).to_le_bytes())?;
        c03_testing(o, &(low as u128 | ((rest as u128) << 16) | ((mix(rest) as u128) << 72)).to_le_bytes())?;
    }
    for x in [Prod::nop_encoding(), Prod::exception_revert_encoding()] {
        if !Prod::is_canonical_encoding(x) || (x >> 11) & 3 != 0 {
            return Err("a reserved production word is not canonical".into());
        }
    }
    for x in [Test::nop_encoding(), Test::exception_revert_encoding()] {
        if !Test::is_canonical_encoding(x) || (x >> 11) & 3 != 0 {
            return Err("a reserved testing word is not canonical".into());
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C04

fn u256_be(d: &[u8]) -> U256 {
    // most significant byte first, written out limb by limb
    let mut l = [0u64; 4];
    for (i, x) in l.iter_mut().enumerate() {
        *x = u64::from_be_bytes(d[(3 - i) * 8..(3 - i) * 8 + 8].try_into().unwrap());
    }
    U256(l)
}

/// one code word: every slot of it, in both encodings
fn c04_code_word(o: &mut Obs, d: &[u8]) -> Verdict {
    let word = u256_be(d);
    for s in 0..4usize {
        let got = Prod::integer_representaiton_from_u256(word, s as u16);
        let want = u64::from_be_bytes(d[8 * s..8 * s + 8].try_into().unwrap());
        if got != want {
            return Err(format!("production slot {s} of code word {}: {got:#018x}, expected {want:#018x}", hex(d)));
        }
        if got.encode_as_bytes()[..] != d[8 * s..8 * s + 8] {
            return Err(format!("bytes of {got:#018x} are not big-endian"));
        }
    }
    for s in 0..2usize {
        let got = Test::integer_representaiton_from_u256(word, s as u32);
        let want = u128::from_be_bytes(d[16 * s..16 * s + 16].try_into().unwrap());
        if got != want {
            return Err(format!("testing slot {s} of code word {}: {got:#034x}, expected {want:#034x}", hex(d)));
        }
        if got.encode_as_bytes()[..] != d[16 * s..16 * s + 16] {
            return Err(format!("bytes of {got:#034x} are not big-endian"));
        }
    }
    o.count("code word slots read");
    Ok(d.iter().any(|b| *b != 0))
}

/// a slot number no code word has is refused, never answered with some instruction
fn c04_beyond(o: &mut Obs, d: &[u8]) -> Verdict {
    let i = index(d);
    let word = U256([0x0123_4567_89ab_cdef, !0, 0x1111_2222_3333_4444, i as u64]);
    let p = i as u16;
    if p >= 4 && !panics(|| Prod::integer_representaiton_from_u256(word, p)) {
        return Err(format!("production slot {p} of a code word is {:#x}", Prod::integer_representaiton_from_u256(word, p)));
    }
    // the same number, and numbers that only look small when cut to 8 or 16 bits
    for t in [i as u32, (i as u32) << 16, (i as u32) << 8, (i as u32).reverse_bits(), 1 << (i % 32) | (i as u32 & 1)] {
        if t >= 2 && !panics(|| Test::integer_representaiton_from_u256(word, t)) {
            return Err(format!("testing slot {t} of a code word is {:#x}", Test::integer_representaiton_from_u256(word, t)));
        }
    }
    // refusing does not spoil what is there
    for s in 0..4u16 {
        if Prod::integer_representaiton_from_u256(word, s) != word.0[3 - s as usize] {
            return Err(format!("production slot {s} reads differently after slot {p} was refused"));
        }
    }
    o.count("slots beyond a code word refused");
    Ok(true)
}

fn c04_pc16(o: &mut Obs, d: &[u8]) -> Verdict {
    let pc = index(d) as u16;
    let got = Prod::split_pc(pc);
    if got != (pc / 4, pc % 4) {
        return Err(format!("production pc {pc} splits into {got:?}"));
    }
    o.see("16-bit program counters", pc as u64);
    Ok(true)
}

fn c04_pc32(o: &mut Obs, d: &[u8]) -> Verdict {
    let pc = u32::from_le_bytes(d[..4].try_into().unwrap());
    let got = Test::split_pc(pc);
    if got != (pc / 2, pc % 2) {
        return Err(format!("testing pc {pc} splits into {got:?}"));
    }
    o.see("32-bit program counters", pc as u64);
    Ok(true)
}

fn c04_arith(o: &mut Obs, d: &[u8]) -> Verdict {
    let (a, b) = (le64(d), le64(&d[8..]));
    fn one<T: AllowedPcOrImm>(a: u64, b: u64, modulus: u128, what: &str) -> Result<(), String> {
        let (x, y) = (T::from_u64_clipped(a), T::from_u64_clipped(b));
        let (ra, rb) = ((a as u128 % modulus), (b as u128 % modulus));
        if x.as_u64() as u128 != ra || y.as_u64() as u128 != rb {
            return Err(format!("{what}: {a:#x} clips to {:#x}, {b:#x} to {:#x}", x.as_u64(), y.as_u64()));
        }
        let s = x.wrapping_add(y).as_u64() as u128;
        if s != (ra + rb) % modulus {
            return Err(format!("{what}: {ra:#x} + {rb:#x} = {s:#x}"));
        }
        let s = x.wrapping_sub(y).as_u64() as u128;
        if s != (ra + modulus - rb) % modulus {
            return Err(format!("{what}: {ra:#x} - {rb:#x} = {s:#x}"));
        }
        if T::max().as_u64() as u128 != modulus - 1 {
            return Err(format!("{what}: largest value {:#x}", T::max().as_u64()));
        }
        if T::default().as_u64() != 0 {
            return Err(format!("{what}: default value is not 0"));
        }
        Ok(())
    }
    one::<u16>(a, b, 1 << 16, "16-bit")?;
    one::<u32>(a, b, 1 << 32, "32-bit")?;
    o.count("arithmetic pairs");
    Ok(a != 0 || b != 0)
}

/// whole programs: encode, concatenate, cut into code words, fetch at every program counter
fn c04_program(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let mut rng = Rng::new(le64(d));
    let len = 1 + rng.below(40);
    let mut ins = vec![];
    for _ in 0..len {
        let r = rng.next();
        ins.push(Ins {
            variant: wd.table_forms[(r as usize) % wd.table_forms.len()],
            cond: wd.conds[(r >> 20) as usize % 8],
            regs: [24, 28, 32, 36].map(|s| ((r >> s) & 15) as u8),
            imm: [(r >> 40) as u32 & 0xff | ((rng.next() as u32) & 0xff00), rng.next() as u32 & 0xffff],
        });
    }
    // production
    let mut code: Vec<u8> = vec![];
    for i in ins.iter() {
        code.extend_from_slice(&to_p(i).serialize_as_bytes());
    }
    while code.len() % 32 != 0 {
        code.push(0);
    }
    let words: Vec<U256> = code.chunks(32).map(u256_be).collect();
    for (pc, i) in ins.iter().enumerate() {
        let (wi, s) = Prod::split_pc(pc as u16);
        let Some(cw) = words.get(wi as usize) else {
            return Err(format!("production pc {pc} points at code word {wi} of {}", words.len()));
        };
        let (dec, _) = Prod::parse_preliminary_variant_and_absolute_number(Prod::integer_representaiton_from_u256(*cw, s));
        same(&format!("production fetch at pc {pc}"), &of_p(&dec), i)?;
    }
    // testing
    let mut code: Vec<u8> = vec![];
    for i in ins.iter() {
        code.extend_from_slice(&to_t(i).serialize_as_bytes());
    }
    while code.len() % 32 != 0 {
        code.push(0);
    }
    let words: Vec<U256> = code.chunks(32).map(u256_be).collect();
    for (pc, i) in ins.iter().enumerate() {
        let (wi, s) = Test::split_pc(pc as u32);
        let Some(cw) = words.get(wi as usize) else {
            return Err(format!("testing pc {pc} points at code word {wi} of {}", words.len()));
        };
        let (dec, _) = Test::parse_preliminary_variant_and_absolute_number(Test::integer_representaiton_from_u256(*cw, s));
        same(&format!("testing fetch at pc {pc}"), &of_t(&dec), i)?;
    }
    o.see("program lengths", len as u64);
    o.add("instructions fetched", 2 * len as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C05

fn c05_words(o: &mut Obs, d: &[u8]) -> Verdict {
    let low = u32::from_le_bytes(d[..4].try_into().unwrap());
    let p = low as u64 | ((u32::from_le_bytes(d[4..8].try_into().unwrap()) as u64) << 32);
    let mut hi = [0u8; 16];
    hi[4..16].copy_from_slice(&d[8..20]);
    let t = u128::from_le_bytes(hi) | low as u128;
    let (a, na) = Prod::parse_preliminary_variant_and_absolute_number(p);
    let (b, nb) = Test::parse_preliminary_variant_and_absolute_number(t);
    let (x, y) = (of_p(&a), of_t(&b));
    if x.variant != y.variant || x.cond != y.cond || x.regs != y.regs || na != nb {
        return Err(format!("low half {low:#010x} decodes to {x:?} / {y:?} (numbers {na:?} / {nb:?})"));
    }
    if Prod::is_canonical_encoding(p) != Test::is_canonical_encoding(t) {
        return Err(format!("low half {low:#010x} is canonical in one mode only"));
    }
    // the same instruction, 16-bit immediates, encoded in both modes
    let both = Ins { imm: [x.imm[0], x.imm[1]], ..x };
    let (ep, et) = (to_p(&both).serialize_as_integer(), to_t(&both).serialize_as_integer());
    if ep as u32 != et as u32 {
        return Err(format!("{both:?} encodes with low halves {:#010x} / {:#010x}", ep as u32, et as u32));
    }
    let (fp, ft) = (spec::fields_production(ep), spec::fields_testing(et));
    if fp.imm0 != ft.imm0 || fp.imm1 != ft.imm1 {
        return Err(format!("{both:?} encodes with immediates {:?} / {:?}", (fp.imm0, fp.imm1), (ft.imm0, ft.imm1)));
    }
    let (vp, vt) = (Prod::variant_and_condition_from_u64_word(p), Test::variant_and_condition_from_u128_word(t));
    if vp != vt {
        return Err(format!("low half {low:#010x}: partial decoding differs: {vp:?} / {vt:?}"));
    }
    see_fields(o, &fp);
    o.see("low halves (16 bit)", low as u64 & 0xffff);
    Ok(low != 0)
}

fn c05_all_low_halves(o: &mut Obs, d: &[u8]) -> Verdict {
    let low = index(d) as u64;
    let mut b = [0u8; 20];
    for k in 0..3 {
        match k {
            0 => b.fill(0),
            1 => b.fill(0xff),
            _ => Rng::new(low).fill(&mut b),
        }
        b[..2].copy_from_slice(&low.to_le_bytes()[..2]);
        c05_words(o, &b)?;
    }
    if low == 0 {
        let pairs = [
            ("no-op", Prod::nop_encoding(), Test::nop_encoding()),
            ("exception", Prod::exception_revert_encoding(), Test::exception_revert_encoding()),
        ];
        for (what, p, t) in pairs {
            let (a, na) = Prod::parse_preliminary_variant_and_absolute_number(p);
            let (b, nb) = Test::parse_preliminary_variant_and_absolute_number(t);
            if of_p(&a) != of_t(&b) || na != nb {
                return Err(format!("reserved {what} word differs between modes: {:?} / {:?}", of_p(&a), of_t(&b)));
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C13

fn any_form(wd: &World, x: u64) -> OpcodeVariant {
    OpcodeVariant {
        opcode: wd.spec.subs[(x & 0xff) as usize % wd.spec.subs.len()].opcode,
        src0_operand_type: wd.operands[((x >> 8) & 0xff) as usize % wd.operands.len()],
        dst0_operand_type: wd.operands[((x >> 16) & 0xff) as usize % wd.operands.len()],
        flags: [(x >> 24) & 1 == 1, (x >> 25) & 1 == 1],
    }
}

fn masked(panic: bool, imm: [u32; 2]) -> Ins {
    let full = Operand::Full(zk::ImmMemHandlerFlags::UseRegOnly);
    Ins {
        variant: OpcodeVariant {
            opcode: if panic { zk::Opcode::Ret(zk::RetOpcode::Panic) } else { zk::Opcode::Nop(zk::NopOpcode) },
            src0_operand_type: if panic { Operand::RegOnly } else { full },
            dst0_operand_type: if panic { Operand::RegOnly } else { full },
            flags: [false; 2],
        },
        cond: Condition::Always,
        regs: [0; 4],
        imm,
    }
}

fn c13_mask(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let legal = d[15] & 1 == 1;
    let x = le64(&d[8..]);
    let variant = if legal {
        wd.table_forms[(x as usize & 0xffff) % wd.table_forms.len()]
    } else {
        any_form(wd, x)
    };
    let ins = Ins {
        variant,
        cond: wd.conds[(x >> 26) as usize % 8],
        // registers may hold anything before masking
        regs: [x >> 32, x >> 38, x >> 44, x >> 48].map(|v| v as u8),
        imm: [le64(d) as u32, (le64(d) >> 32) as u32],
    };
    let imm16 = [ins.imm[0] & 0xffff, ins.imm[1] & 0xffff];
    for panic in [true, false] {
        let word = if panic { "panic" } else { "no-op" };
        let mut p = to_p(&ins);
        if panic { p.mask_into_panic() } else { p.mask_into_nop() }
        same(&format!("production instruction masked into {word}"), &of_p(&p), &masked(panic, imm16))?;
        let reserved = if panic { Prod::exception_revert_encoding() } else { Prod::nop_encoding() };
        let e = p.serialize_as_integer();
        if e & 0xffff_ffff != reserved & 0xffff_ffff || e >> 32 != (imm16[0] | (imm16[1] << 16)) as u64 {
            return Err(format!("masked into {word}, production instruction encodes to {e:#018x}, reserved word {reserved:#018x}"));
        }
        let mut t = to_t(&ins);
        if panic { t.mask_into_panic() } else { t.mask_into_nop() }
        same(&format!("testing instruction masked into {word}"), &of_t(&t), &masked(panic, ins.imm))?;
        let reserved = if panic { Test::exception_revert_encoding() } else { Test::nop_encoding() };
        let e = t.serialize_as_integer();
        if e as u32 != reserved as u32 || e >> 32 != (ins.imm[0] as u128 | ((ins.imm[1] as u128) << 32)) {
            return Err(format!("masked into {word}, testing instruction encodes to {e:#034x}, reserved word {reserved:#034x}"));
        }
    }
    // sequences of masks: the last one wins
    let mut seq = d[14];
    let n = 1 + (d[15] >> 1) as usize % 8;
    let (mut p, mut t) = (to_p(&ins), to_t(&ins));
    let mut last = false;
    for _ in 0..n {
        last = seq & 1 == 1;
        seq >>= 1;
        if last {
            p.mask_into_panic();
            t.mask_into_panic();
        } else {
            p.mask_into_nop();
            t.mask_into_nop();
        }
        same("production mask sequence", &of_p(&p), &masked(last, imm16))?;
        same("testing mask sequence", &of_t(&t), &masked(last, ins.imm))?;
    }
    o.count(if legal { "table forms masked" } else { "arbitrary forms masked" });
    o.see("forms", hash_bytes(0, format!("{:?}", x & 0x3ffffff).as_bytes()) & 0xffffff);
    o.see("mask sequences", ((n as u64) << 8) | d[14] as u64);
    o.see("conditions", (x >> 26) & 7);
    let _ = last;
    Ok(true)
}

/// every table form under every condition
fn c13_all_forms(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let i = index(d);
    let variant = wd.table_forms[(i / 8) % wd.table_forms.len()];
    let mut rng = Rng::new(i as u64);
    let r = rng.next();
    let ins = Ins {
        variant,
        cond: wd.conds[i % 8],
        regs: [r, r >> 8, r >> 16, r >> 24].map(|x| (x & 15) as u8),
        imm: [rng.next() as u32, rng.next() as u32],
    };
    for panic in [true, false] {
        let mut p = to_p(&ins);
        let mut t = to_t(&ins);
        if panic {
            p.mask_into_panic();
            t.mask_into_panic();
        } else {
            p.mask_into_nop();
            t.mask_into_nop();
        }
        same("production mask", &of_p(&p), &masked(panic, [ins.imm[0] & 0xffff, ins.imm[1] & 0xffff]))?;
        same("testing mask", &of_t(&t), &masked(panic, ins.imm))?;
    }
    o.see("table forms", (i / 8) as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C14

fn c14_reserved(o: &mut Obs, d: &[u8]) -> Verdict {
    let step = index(d);
    let wd = w();
    o.see("steps", step as u64);
    let zero = [0u32; 2];
    match step {
        0 | 1 => {
            let panic = step == 1;
            let what = if panic { "exception" } else { "no-op" };
            let want = masked(panic, zero);
            let (p, t) = if panic {
                (Prod::exception_revert_encoding(), Test::exception_revert_encoding())
            } else {
                (Prod::nop_encoding(), Test::nop_encoding())
            };
            let (a, na) = Prod::parse_preliminary_variant_and_absolute_number(p);
            let (b, nb) = Test::parse_preliminary_variant_and_absolute_number(t);
            same(&format!("production {what} word {p:#018x}"), &of_p(&a), &want)?;
            same(&format!("testing {what} word {t:#034x}"), &of_t(&b), &want)?;
            if !Prod::is_canonical_encoding(p) || !Test::is_canonical_encoding(t) {
                return Err(format!("the {what} word is not canonical"));
            }
            if a.serialize_as_integer() != p || b.serialize_as_integer() != t {
                return Err(format!("the {what} word does not re-encode to itself"));
            }
            if p >> 32 != 0 || t >> 32 != 0 {
                return Err(format!("the {what} word has non-zero immediates"));
            }
            let variant = if panic { *zk::PANIC_OPCODE_VARIANT } else { *zk::NOP_OPCODE_VARIANT };
            let spread = if panic { *zk::PANIC_BITSPREAD_U64 } else { *zk::NOP_BITSPREAD_U64 };
            for n in [na.into_usize(), nb.into_usize()] {
                if n != (p & 0x7ff) as usize {
                    return Err(format!("{what} word: opcode number {n}"));
                }
                if zk::OPCODES_TABLE[n] != variant || variant != want.variant {
                    return Err(format!("published {what} form {variant:?}, table has {:?}", zk::OPCODES_TABLE[n]));
                }
                if zk::OPCODES_PROPS_INTEGER_BITMASKS[n] != spread {
                    return Err(format!("published {what} mask {spread:#x}, table has {:#x}", zk::OPCODES_PROPS_INTEGER_BITMASKS[n]));
                }
            }
            if zk::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&variant) != Some(&na.into_usize()) {
                return Err(format!("published {what} form is not at the number of its word"));
            }
        }
        2 => {
            let want = masked(false, zero);
            let (p, t) = (DP::default(), DT::default());
            same("default production instruction", &of_p(&p), &want)?;
            same("default testing instruction", &of_t(&t), &want)?;
            if OpcodeVariant::default() != *zk::NOP_OPCODE_VARIANT {
                return Err(format!("default form is {:?}", OpcodeVariant::default()));
            }
            if panics(|| p.serialize_as_integer()) || panics(|| t.serialize_as_integer()) {
                return Err("a default instruction cannot be encoded".into());
            }
            if p.serialize_as_integer() != Prod::nop_encoding() || t.serialize_as_integer() != Test::nop_encoding() {
                return Err("a default instruction does not encode to the no-op word".into());
            }
            let mut m = p;
            m.mask_into_nop();
            same("default vs masked no-op", &of_p(&m), &of_p(&p))?;
        }
        _ => {
            // the masks of the published forms, computed afresh
            for (v, m, what) in [
                (*zk::NOP_OPCODE_VARIANT, *zk::NOP_BITSPREAD_U64, "no-op"),
                (*zk::PANIC_OPCODE_VARIANT, *zk::PANIC_BITSPREAD_U64, "panic"),
            ] {
                let f = zk::synthesize_bit_decomposition_table(&[v], zk::DEFAULT_ISA_VERSION);
                if f != vec![m] || wd.spec.mask(&v) != m {
                    return Err(format!("published {what} mask is {m:#x}, synthesis gives {f:x?}, one-hot {:#x}", wd.spec.mask(&v)));
                }
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C27

fn c27_conditions(o: &mut Obs, d: &[u8]) -> Verdict {
    let i = index(d);
    let wd = w();
    if i < 8 {
        let c = wd.conds[i];
        if c.variant_index() != i || Condition::materialize_variant(i) != c || zk::ALL_CONDITIONS[i] != c {
            return Err(format!("condition {c:?}: code {}, code {i} is {:?}, listed {:?}", c.variant_index(), Condition::materialize_variant(i), zk::ALL_CONDITIONS[i]));
        }
        if c as u8 as usize != i {
            return Err(format!("condition {c:?} has discriminant {}", c as u8));
        }
        if zk::ALL_CONDITIONS.len() != 8 || zk::CONDITIONAL_BITS_WIDTH != 3 {
            return Err("there are not exactly eight conditions of three bits".into());
        }
    } else if !panics(|| Condition::materialize_variant(i)) {
        return Err(format!("code {i} is accepted as {:?}", Condition::materialize_variant(i)));
    }
    // refusing one code does not spoil the others
    let again = i % 8;
    if Condition::materialize_variant(again) != wd.conds[again] || wd.conds[again].variant_index() != again {
        return Err(format!("after code {i}, code {again} is {:?}", Condition::materialize_variant(again)));
    }
    o.see("codes", i as u64);
    Ok(true)
}

fn c27_big_codes(o: &mut Obs, d: &[u8]) -> Verdict {
    let x = le64(d) as usize;
    if x < 8 {
        return Ok(false);
    }
    if !panics(|| Condition::materialize_variant(x)) {
        return Err(format!("code {x:#x} is accepted as {:?}", Condition::materialize_variant(x)));
    }
    o.count("codes above 7 refused");
    Ok(true)
}

fn c27_nibbles(o: &mut Obs, d: &[u8]) -> Verdict {
    let b = index(d) as u8;
    let (lo, hi) = zk::split_as_u4(b);
    if lo != b % 16 || hi != b / 16 {
        return Err(format!("byte {b:#04x} splits into {lo:#x}, {hi:#x}"));
    }
    if zk::merge_u4(lo, hi) != b || zk::merge_u4(b % 16, b / 16) != b {
        return Err(format!("nibbles of {b:#04x} merge to {:#04x}", zk::merge_u4(lo, hi)));
    }
    o.see("bytes", b as u64);
    Ok(true)
}

// ---------------------------------------------------------------- C28

fn text(buf: &mut String, x: &dyn std::fmt::Display) -> Result<(), String> {
    buf.clear();
    write!(buf, "{x}").map_err(|_| "rendering failed".to_string())
}

/// Names of an opcode's family and variant, as users know them.
fn names(op: &zk::Opcode) -> [&'static str; 2] {
    use zk::Opcode::*;
    macro_rules! variant { ($t:ident, $x:expr, $($v:ident)*) => { match $x { $(zk::$t::$v => stringify!($v)),* } } }
    match op {
        Invalid(_) => ["Invalid", ""],
        Nop(_) => ["Nop", ""],
        Add(_) => ["Add", ""],
        Sub(_) => ["Sub", ""],
        Mul(_) => ["Mul", ""],
        Div(_) => ["Div", ""],
        Jump(_) => ["Jump", ""],
        NearCall(_) => ["NearCall", ""],
        Binop(x) => ["Binop", variant!(BinopOpcode, x, Xor And Or)],
        Shift(x) => ["Shift", variant!(ShiftOpcode, x, Shl Shr Rol Ror)],
        Ptr(x) => ["Ptr", variant!(PtrOpcode, x, Add Sub Pack Shrink)],
        Context(x) => [
            "Context",
            variant!(ContextOpcode, x, This Caller CodeAddress Meta ErgsLeft Sp GetContextU128 SetContextU128 SetErgsPerPubdataByte IncrementTxNumber),
        ],
        Log(x) => ["Log", variant!(LogOpcode, x, StorageRead StorageWrite ToL1Message Event PrecompileCall)],
        FarCall(x) => ["FarCall", variant!(FarCallOpcode, x, Normal Delegate Mimic)],
        Ret(x) => ["Ret", variant!(RetOpcode, x, Ok Revert Panic)],
        UMA(x) => ["UMA", variant!(UMAOpcode, x, HeapRead HeapWrite AuxHeapRead AuxHeapWrite FatPointerRead)],
    }
}

fn mode_name(x: &Operand) -> &'static str {
    use zk::{ImmMemHandlerFlags as Mem, RegOrImmFlags as RoI};
    match x {
        Operand::RegOnly => "RegOnly",
        Operand::RegOrImm(RoI::UseRegOnly) => "UseRegOnly",
        Operand::RegOrImm(RoI::UseImm16Only) => "UseImm16Only",
        Operand::Full(Mem::UseRegOnly) => "UseRegOnly",
        Operand::Full(Mem::UseStackWithPushPop) => "UseStackWithPushPop",
        Operand::Full(Mem::UseStackWithOffset) => "UseStackWithOffset",
        Operand::Full(Mem::UseAbsoluteOnStack) => "UseAbsoluteOnStack",
        Operand::Full(Mem::UseImm16Only) => "UseImm16Only",
        Operand::Full(Mem::UseCodePage) => "UseCodePage",
    }
}

/// words of a line: runs of letters, digits and underscores
fn tokens(line: &str) -> impl Iterator<Item = &str> {
    line.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|t| !t.is_empty())
}

/// The text of a form: after each label, the names of that field's own value.
fn names_form(text: &str, v: &OpcodeVariant) -> Result<(), String> {
    let wrong = |what: &str| Err(format!("the text of {v:?} names {what} wrongly: {text}"));
    let labelled = |label: &str| text.lines().find(|l| l.to_ascii_lowercase().starts_with(label));
    if let Some(l) = labelled("opcode") {
        let [family, variant] = names(&v.opcode);
        let at: Vec<&str> = tokens(l).collect();
        // the variant is named last; before it, the family
        let family_at = at.iter().position(|t| *t == family);
        let variant_at = at.iter().rposition(|t| *t == variant);
        if family_at.is_none() || (!variant.is_empty() && !(variant_at > family_at)) {
            return wrong("the opcode");
        }
    }
    for (label, x) in [("src0", &v.src0_operand_type), ("dst0", &v.dst0_operand_type)] {
        if let Some(l) = labelled(label) {
            if tokens(l).last() != Some(mode_name(x)) {
                return wrong("an operand");
            }
        }
    }
    if let Some(l) = labelled("non-exclusive flags") {
        let at: Vec<&str> = tokens(l).filter(|t| *t == "true" || *t == "false").collect();
        if at.len() == 2 && (at[0] == "true") != v.flags[0] || at.len() == 2 && (at[1] == "true") != v.flags[1] {
            return wrong("the flags");
        }
    }
    Ok(())
}

/// The text of an instruction: labelled fields carry their own values.
fn names_ins(text: &str, x: &Ins) -> Result<(), String> {
    names_form(text, &x.variant)?;
    let wrong = |what: &str| Err(format!("the text of {x:?} names {what} wrongly: {text}"));
    const CONDITIONS: [&str; 8] = ["Always", "Gt", "Lt", "Eq", "Ge", "Le", "Ne", "GtOrLt"];
    for l in text.lines() {
        let low = l.to_ascii_lowercase();
        if low.starts_with("condition") {
            if tokens(l).last() != Some(CONDITIONS[x.cond as usize]) {
                return wrong("the condition");
            }
        } else if low.starts_with("register") {
            for (label, reg) in ["src0", "src1", "dst0", "dst1"].into_iter().zip(x.regs) {
                let mut t = tokens(l).skip_while(|t| *t != label).skip(1);
                if let Some(n) = t.next().and_then(|t| t.trim_start_matches('r').parse::<u8>().ok()) {
                    if n != reg {
                        return wrong("a register");
                    }
                }
            }
        } else if low.starts_with("imm") {
            let which = (low.as_bytes().get(3) == Some(&b'1')) as usize;
            let n = tokens(l).last().and_then(|t| t.strip_prefix("0x")).and_then(|t| u64::from_str_radix(t, 16).ok());
            if n.is_some_and(|n| n != x.imm[which] as u64) {
                return wrong("an immediate");
            }
        }
    }
    Ok(())
}

fn c28_differences(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let x = le64(&d[8..]);
    let variant = if d[15] & 1 == 1 { wd.table_forms[(x as usize & 0xffff) % wd.table_forms.len()] } else { any_form(wd, x) };
    let ins = Ins {
        variant,
        cond: wd.conds[(x >> 26) as usize % 8],
        regs: [x >> 30, x >> 34, x >> 38, x >> 42].map(|v| (v & 15) as u8),
        imm: [le64(d) as u32, (le64(d) >> 32) as u32],
    };
    let mut others: Vec<Ins> = vec![];
    let pick = (x >> 48) as usize;
    // another opcode, operand, flag, condition, register, immediate - one at a time
    for k in 0..6 {
        let mut o2 = ins;
        o2.variant.opcode = wd.spec.subs[(pick * 7 + k * 13 + 1) % wd.spec.subs.len()].opcode;
        others.push(o2);
    }
    for k in 0..4 {
        let mut o2 = ins;
        o2.variant.src0_operand_type = wd.operands[(pick + 2 * k + 1) % wd.operands.len()];
        others.push(o2);
        let mut o2 = ins;
        o2.variant.dst0_operand_type = wd.operands[(pick + 2 * k) % wd.operands.len()];
        others.push(o2);
    }
    for k in 0..2 {
        let mut o2 = ins;
        o2.variant.flags[k] = !o2.variant.flags[k];
        others.push(o2);
    }
    let mut o2 = ins;
    o2.variant.flags = [ins.variant.flags[1], ins.variant.flags[0]];
    others.push(o2);
    for k in 1..4 {
        let mut o2 = ins;
        o2.cond = wd.conds[(ins.cond as usize + pick + k) % 8];
        others.push(o2);
    }
    for r in 0..4 {
        let mut o2 = ins;
        o2.regs[r] ^= 1 << (pick % 4);
        others.push(o2);
        let mut o2 = ins;
        o2.regs.swap(r, (r + 1 + pick) % 4);
        others.push(o2);
    }
    for i in 0..2 {
        for b in 0..4 {
            let mut o2 = ins;
            o2.imm[i] ^= 1 << ((pick + 9 * b) % 32);
            others.push(o2);
        }
    }
    let mut o2 = ins;
    o2.imm.swap(0, 1);
    others.push(o2);
    let mut o2 = ins;
    o2.imm = [ins.imm[0] << 4, ins.imm[1] >> 4];
    others.push(o2);
    let (mut a, mut b, mut c) = (String::new(), String::new(), String::new());
    text(&mut a, &to_t(&ins))?;
    text(&mut c, &to_t(&ins))?;
    if a != c || a.is_empty() {
        return Err(format!("{ins:?} does not render deterministically"));
    }
    let insp = Ins { imm: ins.imm.map(|v| v & 0xffff), ..ins };
    text(&mut c, &to_p(&insp))?;
    names_ins(&a, &ins)?;
    names_ins(&c, &insp)?;
    for x in others.iter() {
        text(&mut b, &to_t(x))?;
        if (a == b) != (*x == ins) {
            return Err(format!("testing instructions {ins:?} and {x:?} render alike: {a}"));
        }
        let xp = Ins { imm: x.imm.map(|v| v & 0xffff), ..*x };
        text(&mut b, &to_p(&xp))?;
        if (c == b) != (xp == insp) {
            return Err(format!("production instructions {insp:?} and {xp:?} render alike: {c}"));
        }
    }
    let mut fa = String::new();
    text(&mut fa, &ins.variant)?;
    for x in others.iter() {
        text(&mut b, &x.variant)?;
        if (fa == b) != (x.variant == ins.variant) {
            return Err(format!("forms {:?} and {:?} render alike: {fa}", ins.variant, x.variant));
        }
    }
    o.add("rendered pairs", 3 * others.len() as u64);
    Ok(true)
}

/// all forms, legal or not, against each other
fn c28_all_forms(o: &mut Obs, _d: &[u8]) -> Verdict {
    let wd = w();
    let mut seen: std::collections::HashMap<String, OpcodeVariant> = Default::default();
    for s in wd.spec.subs.iter() {
        for src in wd.operands.iter() {
            for dst in wd.operands.iter() {
                for fl in 0..4 {
                    let v = OpcodeVariant {
                        opcode: s.opcode,
                        src0_operand_type: *src,
                        dst0_operand_type: *dst,
                        flags: [fl & 1 == 1, fl & 2 == 2],
                    };
                    let t = v.to_string();
                    names_form(&t, &v)?;
                    if let Some(old) = seen.insert(t, v) {
                        return Err(format!("forms {old:?} and {v:?} render alike"));
                    }
                }
            }
        }
    }
    o.add("forms rendered", seen.len() as u64);
    Ok(true)
}

/// one instruction field through all its values, everything else fixed: all renderings differ
fn c28_sweeps(o: &mut Obs, d: &[u8]) -> Verdict {
    let wd = w();
    let i = index(d);
    let mut rng = Rng::new(0x28 + i as u64);
    let r = rng.next();
    let ins = Ins {
        variant: wd.table_forms[(r as usize) % wd.table_forms.len()],
        cond: wd.conds[(r >> 32) as usize % 8],
        regs: [r >> 40, r >> 44, r >> 48, r >> 52].map(|v| (v & 15) as u8),
        imm: [rng.next() as u32, rng.next() as u32],
    };
    let mut seen: std::collections::HashSet<u64> = Default::default();
    let mut n = 0usize;
    let mut all: Vec<Ins> = vec![];
    match i % 4 {
        0 => (0..65536u32).for_each(|v| all.push(Ins { imm: [v, ins.imm[1]], ..ins })),
        1 => (0..65536u32).for_each(|v| all.push(Ins { imm: [ins.imm[0], v], ..ins })),
        2 => (0..65536u32).for_each(|v| {
            all.push(Ins { regs: [0, 4, 8, 12].map(|s| ((v >> s) & 15) as u8), ..ins })
        }),
        _ => {
            for c in wd.conds {
                for f in wd.table_forms.iter() {
                    all.push(Ins { cond: c, variant: *f, ..ins });
                }
            }
        }
    }
    let mut b = String::new();
    for x in all {
        if i % 8 < 4 {
            text(&mut b, &to_p(&x))?;
        } else {
            text(&mut b, &to_t(&x))?;
        }
        n += 1;
        if n % 7 == 0 || i % 4 == 3 {
            names_ins(&b, &if i % 8 < 4 { Ins { imm: x.imm.map(|v| v & 0xffff), ..x } } else { x })?;
        }
        if !seen.insert(hash_bytes(7, b.as_bytes())) {
            return Err(format!("sweep {i}: another instruction renders like {x:?}: {b}"));
        }
    }
    o.add("renderings compared in sweeps", n as u64);
    Ok(true)
}

pub fn probes(id: &str) -> Option<Vec<Probe>> {
    Some(match id {
        "C01" => vec![
            bytes("production", 8, c01_production),
            bytes("testing", 16, c01_testing),
            domain("low_halves", 65536, c01_all_low_halves),
        ],
        "C02" => vec![
            bytes("production", 8, c02_production),
            bytes("testing", 12, c02_testing),
            domain("low_halves", 16384, c02_all_low_halves),
        ],
        "C03" => vec![
            slow("production", 8, 0.5, c03_production),
            slow("testing", 16, 0.5, c03_testing),
            domain("low_halves", 16384, c03_all_low_halves),
        ],
        "C04" => vec![
            bytes("code_word", 32, c04_code_word),
            domain("pc16", 65536, c04_pc16),
            domain("beyond", 65536, c04_beyond),
            bytes("pc32", 4, c04_pc32),
            bytes("arithmetic", 16, c04_arith),
            slow("program", 8, 0.02, c04_program),
        ],
        "C05" => vec![bytes("words", 20, c05_words), domain("low_halves", 65536, c05_all_low_halves)],
        "C13" => vec![slow("mask", 16, 0.5, c13_mask), domain("forms", 2048 * 8, c13_all_forms)],
        "C14" => vec![domain("reserved", 4, c14_reserved)],
        "C27" => vec![
            domain("conditions", 70000, c27_conditions),
            slow("big_codes", 8, 0.01, c27_big_codes),
            domain("nibbles", 256, c27_nibbles),
        ],
        "C28" => vec![
            slow("differences", 16, 0.01, c28_differences),
            domain("all_forms", 1, c28_all_forms),
            domain("sweeps", 8, c28_sweeps),
        ],
        _ => return None,
    })
}
