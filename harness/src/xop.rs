//! Instruction operands for the assembler checks: values, generation, AT&T syntax and the source text for xten1.
use crate::Tape;
use xten::asm::*;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Memory, Xmm, i8, i16, i32, i64, Gpr64, Gpr32, Gpr16, Gpr8, _Al, _Ax, _Eax, _Rax, _Cl, _Dx, _Xmm0, _1, _3 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Disp { No, D8(i8), D32(i32) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// register number and width in bits (16 for an xmm register is not used: see Xmm)
    Gpr(u8, u32),
    /// ah, ch, dh, bh as 0..4
    High(u8),
    Xmm(u8),
    Imm(i64),
    Abs(i32, Option<(u8, u8)>),
    Rip(Option<i32>),
    Mem(u8, Disp, Option<(u8, u8)>, bool),
    Fixed(Kind),
}

pub struct Form {
    pub name: &'static str,
    pub kinds: &'static [Kind],
    pub emit: fn(&[Op], &mut Vec<u8>) -> std::io::Result<()>,
}

pub struct Arg<T>(std::marker::PhantomData<T>);

pub const G64: [Gpr64; 16] = [Rax, Rcx, Rdx, Rbx, Rsp, Rbp, Rsi, Rdi, R8, R9, R10, R11, R12, R13, R14, R15];
const G32: [Gpr32; 16] = [Eax, Ecx, Edx, Ebx, Esp, Ebp, Esi, Edi, R8D, R9D, R10D, R11D, R12D, R13D, R14D, R15D];
const G16: [Gpr16; 16] = [Ax, Cx, Dx, Bx, Sp, Bp, Si, Di, R8W, R9W, R10W, R11W, R12W, R13W, R14W, R15W];
const G8: [Gpr8; 16] = [Al, Cl, Dl, Bl, Spl, Bpl, Sil, Dil, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B];
const GH: [Gpr8; 4] = [Ah, Ch, Dh, Bh];
pub const XMM: [Xmm; 16] = [Xmm0, Xmm1, Xmm2, Xmm3, Xmm4, Xmm5, Xmm6, Xmm7, Xmm8, Xmm9, Xmm10, Xmm11, Xmm12, Xmm13, Xmm14, Xmm15];

const N64: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
const N8: [&str; 16] = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b"];
const NH: [&str; 4] = ["ah", "ch", "dh", "bh"];

pub fn gpr_name(n: u8, width: u32) -> String {
    let n = n as usize;
    match width {
        64 => N64[n].into(),
        32 if n < 8 => format!("e{}", &N64[n][1..]),
        32 => format!("r{}d", n),
        16 if n < 8 => N64[n][1..].into(),
        16 => format!("r{}w", n),
        _ => N8[n].into(),
    }
}

fn bad(o: Op) -> ! { panic!("operand {:?}", o) }
macro_rules! arg {
    ($t:ty, $o:ident => $e:expr) => {
        impl Arg<$t> { #[inline] pub fn get(ops: &[Op], i: usize) -> $t { let $o = ops[i]; $e } }
    };
}
arg!(Gpr64, o => match o { Op::Gpr(n, 64) => G64[n as usize], _ => bad(o) });
arg!(Gpr32, o => match o { Op::Gpr(n, 32) => G32[n as usize], _ => bad(o) });
arg!(Gpr16, o => match o { Op::Gpr(n, 16) => G16[n as usize], _ => bad(o) });
arg!(Gpr8, o => match o { Op::Gpr(n, 8) => G8[n as usize], Op::High(n) => GH[n as usize], _ => bad(o) });
arg!(Xmm, o => match o { Op::Xmm(n) => XMM[n as usize], _ => bad(o) });
arg!(i8, o => match o { Op::Imm(n) => n as i8, _ => bad(o) });
arg!(i16, o => match o { Op::Imm(n) => n as i16, _ => bad(o) });
arg!(i32, o => match o { Op::Imm(n) => n as i32, _ => bad(o) });
arg!(i64, o => match o { Op::Imm(n) => n, _ => bad(o) });
macro_rules! fixed { ($($t:ident)*) => { $( arg!($t, _o => $t); )* } }
fixed!(_Al _Ax _Eax _Rax _Cl _Dx _Xmm0 _1 _3);
arg!(Memory, o => mem(o));

/// Every way the library offers to write an address is used: the flag selects `base + index` or `base + index * 1`.
pub fn mem(o: Op) -> Memory {
    let g = |n: u8| G64[n as usize];
    match o {
        Op::Abs(d, None) => memory(d),
        Op::Abs(d, Some((i, s))) => memory(d + g(i) * s),
        Op::Rip(None) => memory(Rip),
        Op::Rip(Some(d)) => memory(Rip + d),
        Op::Mem(b, Disp::No, None, _) => memory(g(b)),
        Op::Mem(b, Disp::D8(d), None, false) => memory(g(b) + d),
        Op::Mem(b, Disp::D8(d), None, true) => if d == i8::MIN { memory(g(b) - 64i8 - 64i8) } else { memory(g(b) - (-d)) },
        Op::Mem(b, Disp::D32(d), None, false) => memory(g(b) + d),
        Op::Mem(b, Disp::D32(d), None, true) => memory(g(b) + (d / 2) - (d / 2 - d)),
        Op::Mem(b, Disp::No, Some((i, 1)), true) => memory(g(b) + g(i)),
        Op::Mem(b, Disp::No, Some((i, s)), _) => memory(g(b) + g(i) * s),
        Op::Mem(b, Disp::D8(d), Some((i, 1)), true) => memory(g(b) + d + g(i)),
        Op::Mem(b, Disp::D8(d), Some((i, s)), true) => memory(g(b) + d + g(i) * s),
        Op::Mem(b, Disp::D8(d), Some((i, s)), false) => memory(g(b) + g(i) * s + d),
        Op::Mem(b, Disp::D32(d), Some((i, 1)), true) => memory(g(b) + d + g(i)),
        Op::Mem(b, Disp::D32(d), Some((i, s)), true) => memory(g(b) + d + g(i) * s),
        Op::Mem(b, Disp::D32(d), Some((i, s)), false) => memory(g(b) + g(i) * s + d),
        _ => bad(o),
    }
}

impl Op {
    /// AT&T syntax; `jump` is set for the operand of a relative jump, `at` is the length of the instruction
    pub fn att(self) -> String {
        let x = |i: Option<(u8, u8)>| i.map_or(String::new(), |(i, s)| format!(",%{},{}", N64[i as usize], s));
        match self {
            Op::Gpr(n, w) => format!("%{}", gpr_name(n, w)),
            Op::High(n) => format!("%{}", NH[n as usize]),
            Op::Xmm(n) => format!("%xmm{}", n),
            Op::Imm(n) => format!("${}", n),
            Op::Abs(d, None) => format!("{}", d),
            Op::Abs(d, i) => format!("{}({})", d, x(i)),
            Op::Rip(d) => format!("{}(%rip)", d.unwrap_or(0)),
            Op::Mem(b, d, i, _) => {
                let d = match d { Disp::No => String::new(), Disp::D8(d) => d.to_string(), Disp::D32(d) => d.to_string() };
                format!("{}(%{}{})", d, N64[b as usize], x(i))
            }
            Op::Fixed(k) => match k {
                Kind::_Al => "%al", Kind::_Ax => "%ax", Kind::_Eax => "%eax", Kind::_Rax => "%rax", Kind::_Cl => "%cl",
                Kind::_Dx => "(%dx)", Kind::_Xmm0 => "%xmm0", Kind::_1 => "$1", Kind::_3 => "$3", _ => bad(self),
            }.into(),
        }
    }

    /// The expression for xten1
    pub fn llrl(self, kind: Kind) -> String {
        let x = |(i, s): (u8, u8)| format!("(*. {} {})", N64[i as usize], s);
        match self {
            Op::Gpr(n, w) => gpr_name(n, w),
            Op::High(n) => NH[n as usize].into(),
            Op::Xmm(n) => format!("xmm{}", n),
            Op::Imm(n) => format!("{1} {{{0}}}", match kind { Kind::i8 => "I8", Kind::i16 => "I16", Kind::i32 => "I32", _ => "I64" }, n),
            Op::Abs(d, None) => format!("(memory {} {{I32}})", d),
            Op::Abs(d, Some(i)) => format!("(memory (+. {} {{I32}} {}))", d, x(i)),
            Op::Rip(None) => "(memory rip)".into(),
            Op::Rip(Some(d)) => format!("(memory (+. rip {} {{I32}}))", d),
            Op::Mem(b, d, i, flag) => {
                let b = N64[b as usize];
                let d = match d { Disp::No => None, Disp::D8(d) => Some(format!("{} {{I8}}", d)), Disp::D32(d) => Some(format!("{} {{I32}}", d)) };
                match (d, i) {
                    (None, None) => format!("(memory {})", b),
                    (Some(d), None) => format!("(memory (+. {} {}))", b, d),
                    (None, Some((i, 1))) if flag => format!("(memory (+. {} {}))", b, N64[i as usize]),
                    (None, Some(i)) => format!("(memory (+. {} {}))", b, x(i)),
                    (Some(d), Some(i)) if flag => format!("(memory (+. {} {} {}))", b, d, x(i)),
                    (Some(d), Some(i)) => format!("(memory (+. {} {} {}))", b, x(i), d),
                }
            }
            Op::Fixed(k) => format!("|:{}", match k {
                Kind::_Al => "al", Kind::_Ax => "ax", Kind::_Eax => "eax", Kind::_Rax => "rax", Kind::_Cl => "cl", Kind::_Dx => "dx",
                Kind::_Xmm0 => "xmm0", Kind::_1 => "1", Kind::_3 => "3", _ => bad(self),
            }),
        }
    }

    fn extended(self) -> bool {
        match self {
            Op::Gpr(n, 8) => n >= 4,
            Op::Gpr(n, w) => n >= 8 || w == 64,
            Op::Xmm(n) => n >= 8,
            Op::Abs(_, i) => i.map_or(false, |i| i.0 >= 8),
            Op::Mem(b, _, i, _) => b >= 8 || i.map_or(false, |i| i.0 >= 8),
            _ => false,
        }
    }
    pub fn class(self) -> &'static str {
        match self {
            Op::Gpr(n, _) if n >= 8 => "reg-ext",
            Op::Gpr(..) => "reg",
            Op::High(_) => "reg-high-byte",
            Op::Xmm(_) => "xmm",
            Op::Imm(_) => "imm",
            Op::Abs(_, None) => "mem-abs",
            Op::Abs(..) => "mem-abs-index",
            Op::Rip(_) => "mem-rip",
            Op::Mem(_, Disp::No, None, _) => "mem-base",
            Op::Mem(_, _, None, _) => "mem-base-disp",
            Op::Mem(_, Disp::No, ..) => "mem-base-index",
            Op::Mem(..) => "mem-base-index-disp",
            Op::Fixed(_) => "fixed",
        }
    }
}

fn imm(t: &mut Tape, bits: u32) -> i64 {
    let max = (1i128 << (bits - 1)) - 1;
    let v = match t.below(6) {
        0 => t.below(10) as i128,
        1 => -(t.below(10) as i128),
        2 => max - t.below(3) as i128,
        3 => -max - 1 + t.below(3) as i128,
        4 => { // next to the boundaries of the smaller encodings
            let b = 1i128 << *t.pick(&[7u32, 8, 15, 16, 31, 32]);
            let v = b + t.below(3) as i128 - 1;
            if t.bool() { v } else { -v }
        }
        _ => t.bits64() as i64 as i128,
    };
    let m = (v as i64 as u64) & (u64::MAX >> (64 - bits));
    ((m << (64 - bits)) as i64) >> (64 - bits)
}

pub fn gen(t: &mut Tape, k: Kind) -> Op {
    let reg = |t: &mut Tape| t.below(16) as u8;
    match k {
        Kind::Gpr64 => Op::Gpr(reg(t), 64),
        Kind::Gpr32 => Op::Gpr(reg(t), 32),
        Kind::Gpr16 => Op::Gpr(reg(t), 16),
        Kind::Gpr8 => { let n = t.below(20) as u8; if n < 16 { Op::Gpr(n, 8) } else { Op::High(n - 16) } }
        Kind::Xmm => Op::Xmm(reg(t)),
        Kind::i8 => Op::Imm(imm(t, 8)),
        Kind::i16 => Op::Imm(imm(t, 16)),
        Kind::i32 => Op::Imm(imm(t, 32)),
        Kind::i64 => Op::Imm(imm(t, 64)),
        Kind::Memory => {
            let idx = |t: &mut Tape| { let mut i = t.below(15) as u8; if i >= 4 { i += 1; } (i, 1u8 << t.below(4)) };
            let disp = |t: &mut Tape| match t.below(3) { 0 => Disp::No, 1 => Disp::D8(imm(t, 8) as i8), _ => Disp::D32(imm(t, 32) as i32) };
            match t.below(9) {
                0 => Op::Mem(reg(t), Disp::No, None, false),
                1 => Op::Abs(imm(t, 32) as i32 & i32::MAX, None),
                2 => { let d = imm(t, 32) as i32; Op::Abs(d, Some(idx(t))) }
                3 => Op::Rip(if t.chance(1, 5) { None } else { Some(imm(t, 32) as i32) }),
                4 | 5 => { let b = reg(t); let d = disp(t); Op::Mem(b, d, None, t.bool()) }
                _ => { let b = reg(t); let d = disp(t); let i = idx(t); Op::Mem(b, d, Some(i), t.bool()) }
            }
        }
        k => Op::Fixed(k),
    }
}

/// Operands for a form, all legal together
pub fn gen_ops(t: &mut Tape, f: &Form) -> Vec<Op> {
    let mut ops: Vec<Op> = f.kinds.iter().map(|k| gen(t, *k)).collect();
    // ah, ch, dh, bh have no encoding beside a REX prefix
    let rex = ops.iter().any(|o| o.extended());
    for o in ops.iter_mut() {
        if let (Op::High(n), true) = (*o, rex) { *o = Op::Gpr(n, 8); }
    }
    ops
}
