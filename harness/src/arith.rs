//! The arithmetic of the language: its operations, their meaning, and their names in programs without the standard library.
use crate::Tape;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T { I(u32), U(u32), F(u32), B }
pub use T::*;
pub const INTS: [T; 8] = [I(8), I(16), I(32), I(64), U(8), U(16), U(32), U(64)];
pub const NUMS: [T; 10] = [I(8), I(16), I(32), I(64), U(8), U(16), U(32), U(64), F(32), F(64)];

impl T {
    pub fn name(self) -> String { match self { I(n) => format!("I{}", n), U(n) => format!("U{}", n), F(n) => format!("F{}", n), B => "Bool".into() } }
    pub fn bits(self) -> u32 { match self { I(n) | U(n) | F(n) => n, B => 1 } }
    fn mask(self, v: u64) -> u64 { let b = self.bits(); if b == 64 { v } else { v & ((1 << b) - 1) } }
}
/// A value as its bits.
pub fn signed(t: T, v: u64) -> i128 { match t { I(8) => v as i8 as i128, I(16) => v as i16 as i128, I(32) => v as i32 as i128, I(64) => v as i64 as i128, _ => v as i128 } }
fn f(t: T, v: u64) -> f64 { if t == F(32) { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) } }
pub fn is_nan(t: T, v: u64) -> bool { matches!(t, F(_)) && f(t, v).is_nan() }
pub fn same(t: T, a: u64, b: u64) -> bool { a == b || is_nan(t, a) && is_nan(t, b) }
pub fn near(t: T, a: u64, b: u64) -> bool {
    if same(t, a, b) { return true; }
    let k = |v: u64| -> i128 { let s = v >> (t.bits() - 1) & 1; let m = t.mask(v) & !(1u64 << (t.bits() - 1)); if s == 1 { -(m as i128) } else { m as i128 } };
    !is_nan(t, a) && !is_nan(t, b) && (k(a) - k(b)).abs() <= 4
}
pub fn literal(t: T, v: u64) -> String {
    match t {
        B => if v != 0 { "#t".into() } else { "#f".into() },
        F(_) => {
            // a number literal without a fraction may be written as an integer
            let x = f(t, v);
            let whole = x.fract() == 0.0 && (v != 0 || t == F(64)) && x.abs() < 18446744073709551616.0 && x >= -9223372036854775808.0 && !(x == 0.0 && x.is_sign_negative());
            if whole && (v.count_ones() & 1 == 1 || x >= 9223372036854775808.0) { format!("{}", x as i128) } else { format!("{:?}", x) }
        }
        _ => signed(t, v).to_string(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Op { pub f: &'static str, pub t: T, pub to: T }

const BIN: [&str; 10] = ["add", "sub", "mul", "div", "rem", "shl", "shr", "and", "or", "xor"];
const CMP: [&str; 5] = ["lt", "le", "gt", "ge", "eq"];
const LOOSE: [&str; 5] = ["sin", "cos", "exp", "log", "pow"];

pub fn ops() -> Vec<Op> {
    let mut v = vec![];
    for t in INTS {
        for f in BIN { v.push(Op { f, t, to: t }); }
        for f in CMP { v.push(Op { f, t, to: B }); }
        for f in ["complement", "popcount"] { v.push(Op { f, t, to: t }); }
    }
    for t in [F(32), F(64)] {
        for f in &BIN[..5] { v.push(Op { f, t, to: t }); }
        for f in CMP { v.push(Op { f, t, to: B }); }
        for f in ["ceil", "floor", "trunc", "round", "sqrt"] { v.push(Op { f, t, to: t }); }
        for f in LOOSE { v.push(Op { f, t, to: t }); }
    }
    for t in NUMS { for to in NUMS { if t != to { v.push(Op { f: "conv", t, to }); } } }
    for f in ["and", "or", "not"] { v.push(Op { f, t: B, to: B }); }
    v
}

impl Op {
    pub fn unary(&self) -> bool { matches!(self.f, "complement" | "popcount" | "ceil" | "floor" | "trunc" | "round" | "sqrt" | "conv" | "sin" | "cos" | "exp" | "log" | "not") }
    pub fn loose(&self) -> bool { LOOSE.contains(&self.f) }
    pub fn name(&self) -> String { format!("{}.{}.{}", self.f, self.t.name(), self.to.name()) }
    pub fn class(&self) -> &'static str {
        match (self.f, self.t) {
            ("conv", F(_)) | ("conv", _) if matches!(self.t, F(_)) || matches!(self.to, F(_)) => "float-conversion",
            ("conv", _) => "conversion",
            (_, F(_)) if self.to == B => "float-comparison",
            (_, F(_)) => "float",
            (_, B) => "boolean",
            _ if self.to == B => "comparison",
            ("shl" | "shr" | "and" | "or" | "xor" | "complement" | "popcount", _) => "bits",
            ("div" | "rem", _) => "division",
            _ => "integer",
        }
    }
    pub fn define(&self) -> String {
        let b = match (self.f, self.t, self.to) {
            (f @ ("and" | "or" | "not"), B, _) => f.to_string(),
            ("eq", I(_) | U(_), _) => "integer.eq".into(),
            ("shr", I(_), _) => "integer.ashr".into(),
            ("shr", U(_), _) => "integer.lshr".into(),
            (f @ ("shl" | "and" | "or" | "xor" | "complement" | "popcount"), _, _) => format!("integer.{}", f),
            ("conv", F(64), F(32)) => "float.trunc".into(),
            ("conv", F(32), F(64)) => "float.ext".into(),
            ("conv", F(_), I(_)) => "float.to-signed".into(),
            ("conv", F(_), U(_)) => "float.to-unsigned".into(),
            ("conv", I(_), F(_)) => "signed.to-float".into(),
            ("conv", U(_), F(_)) => "unsigned.to-float".into(),
            ("conv", a, b) if a.bits() == b.bits() => "bitcast".into(),
            ("conv", a, b) if a.bits() > b.bits() => "integer.trunc".into(),
            ("conv", I(_), _) => "signed.ext".into(),
            ("conv", _, _) => "unsigned.ext".into(),
            (f @ ("ceil" | "floor" | "trunc" | "round"), _, _) => format!("real.{}", f),
            (f @ ("sqrt" | "sin" | "cos" | "exp" | "log" | "pow"), _, _) => format!("math.{}", f),
            (f, F(_), _) => format!("float.{}", f),
            (f, I(_), _) => format!("signed.{}", f),
            (f, _, _) => format!("unsigned.{}", f),
        };
        // a conversion's types are parameters: that is how the builtin learns what to convert to
        if self.f == "conv" {
            return format!("(builtin-op {0}* {{(forall A B) (-> A B)}} \"{1}\")\n(transparent-function ({0} x) {{(-> {2} {3})}} ({0}* x))\n", self.name(), b, self.t.name(), self.to.name());
        }
        let t = self.t.name();
        let args = if self.unary() { t.clone() } else { format!("{} {}", t, t) };
        format!("(builtin-op {} {{(-> {} {})}} \"{}\")\n", self.name(), args, self.to.name(), b)
    }
    /// The result's bits; none where the operation is not defined.
    pub fn eval(&self, a: u64, b: u64) -> Option<u64> {
        let t = self.t;
        let fin = |x: f64| if t == F(32) { (x as f32).to_bits() as u64 } else { x.to_bits() };
        if let (B, x, y) = (t, a & 1, b & 1) { return Some(match self.f { "and" => x & y, "or" => x | y, _ => 1 - x }); }
        if self.f == "conv" {
            return Some(match (t, self.to) {
                (F(_), F(32)) => (f64::from_bits(a) as f32).to_bits() as u64,
                (F(_), F(_)) => (f32::from_bits(a as u32) as f64).to_bits(),
                (F(_), to) => {
                    let x = f(t, a).trunc();
                    let (lo, hi) = match to { I(n) => (-(2f64.powi(n as i32 - 1)), 2f64.powi(n as i32 - 1)), _ => (0.0, 2f64.powi(to.bits() as i32)) };
                    if !(x >= lo && x < hi) { return None; }
                    to.mask(x as i128 as u64)
                }
                (_, F(32)) => (if let I(_) = t { signed(t, a) as i64 as f32 } else { a as f32 }).to_bits() as u64,
                (_, F(_)) => (if let I(_) = t { signed(t, a) as i64 as f64 } else { a as f64 }).to_bits(),
                (_, to) => to.mask(signed(t, a) as u64),
            });
        }
        if let F(n) = t {
            if self.to == B {
                let (x, y) = (f(t, a), f(t, b));
                return Some(match self.f { "lt" => x < y, "le" => x <= y, "gt" => x > y, "ge" => x >= y, _ => x == y } as u64);
            }
            if n == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                return Some(match self.f {
                    "add" => x + y, "sub" => x - y, "mul" => x * y, "div" => x / y, "rem" => x % y,
                    "ceil" => x.ceil(), "floor" => x.floor(), "trunc" => x.trunc(), "round" => x.round(), "sqrt" => x.sqrt(),
                    "sin" => x.sin(), "cos" => x.cos(), "exp" => x.exp(), "log" => x.ln(), _ => x.powf(y),
                }.to_bits() as u64);
            }
            let (x, y) = (f(t, a), f(t, b));
            return Some(fin(match self.f {
                "add" => x + y, "sub" => x - y, "mul" => x * y, "div" => x / y, "rem" => x % y,
                "ceil" => x.ceil(), "floor" => x.floor(), "trunc" => x.trunc(), "round" => x.round(), "sqrt" => x.sqrt(),
                "sin" => x.sin(), "cos" => x.cos(), "exp" => x.exp(), "log" => x.ln(), _ => x.powf(y),
            }));
        }
        let (x, y) = (signed(t, a), signed(t, b));
        let min = if let I(n) = t { x == -(1i128 << (n - 1)) && y == -1 } else { false };
        Some(match self.f {
            "lt" => (x < y) as u64,
            "le" => (x <= y) as u64,
            "gt" => (x > y) as u64,
            "ge" => (x >= y) as u64,
            "eq" => (x == y) as u64,
            "div" | "rem" if y == 0 || min => return None,
            "shl" | "shr" if b >= t.bits() as u64 => return None,
            "shl" => t.mask(a << b),
            "shr" => t.mask((x >> b) as u64),
            "complement" => t.mask(!a),
            "popcount" => a.count_ones() as u64,
            // signed overflow is not defined: the LLVM backends say so to LLVM
            "add" | "sub" | "mul" if matches!(t, I(_)) && { let r = match self.f { "add" => x + y, "sub" => x - y, _ => x.wrapping_mul(y) }; signed(t, t.mask(r as u64)) != r } => return None,
            f => t.mask(match f { "add" => x + y, "sub" => x - y, "mul" => x.wrapping_mul(y), "div" => x / y, "rem" => x % y, "and" => x & y, "or" => x | y, _ => x ^ y } as u64),
        })
    }
}

pub fn value(t: &mut Tape, ty: T) -> u64 {
    match ty {
        B => t.below(2),
        F(n) => {
            let x = crate::sx::gen_f64(t);
            if n == 64 { return match t.below(8) { 0 => (t.edgy64() as f64).to_bits(), 1 => (t.edgy64() as i64 as f64).to_bits(), _ => x.to_bits() } }
            (match t.below(8) { 0 => t.edgy64() as f32, 1 => t.edgy64() as i64 as f32, 2 => f32::from_bits(t.bits64() as u32), _ => x as f32 }).to_bits() as u64
        }
        _ => {
            let v = t.edgy64();
            if t.chance(1, 4) {
                // the corners of this type
                let b = ty.bits();
                return ty.mask(*t.pick(&[0, 1, u64::MAX, 1 << (b - 1), (1u64 << (b - 1)) - 1, (1u64 << (b - 1)) + 1, 2, 0u64.wrapping_sub(2), 1 << (b / 2), 10]));
            }
            ty.mask(v)
        }
    }
}
/// A pair the operation is defined on.
pub fn operands(t: &mut Tape, op: &Op) -> Option<(u64, u64)> {
    let mut a = value(t, op.t);
    if let (F(n), U(w) | I(w)) = (op.to, op.t) {
        // next to the middle of two floats, where rounding is decided by the last bits
        let (p, w) = (if n == 32 { 24 } else { 53usize }, w as usize);
        if w > p && t.bool() {
            let e = t.range(p, w - 1);
            let half = 1u64 << (e - p);
            let m = (t.bits64() & (half.wrapping_mul(2).wrapping_neg())) & ((1u64 << e) - 1);
            a = (1u64 << e | m | half).wrapping_add(t.below(3)).wrapping_sub(1);
            if t.chance(1, 4) { a = a.wrapping_neg(); }
            a = op.t.mask(a);
        }
    }
    let mut b = if op.unary() { 0 } else { value(t, op.t) };
    if matches!(op.f, "shl" | "shr") { b %= op.t.bits() as u64; }
    if !op.unary() && t.chance(1, 8) { b = a; if matches!(op.f, "shl" | "shr") { b %= op.t.bits() as u64; } }
    op.eval(a, b).map(|_| (a, b))
}

/// Text that moves values of each type in and out of 64-bit words, and words in and out of the process.
pub fn prelude(types: &BTreeSet<T>) -> String {
    let mut s = String::from("(no-implicit-std)\n(import \"builtin\" _)\n(builtin-type (Ptr A) \"ptr\" [ptr:null \"null\"] [(ptr:non-null A) \"non-null\"])\n(builtin-type (Array A) \"array\")\n");
    s += "(c-function c-read {(-> I32 (Ptr U64) U64 I64)} \"read\")\n(c-function c-write {(-> I32 (Ptr U64) U64 I64)} \"write\")\n";
    s += "(builtin-op new-words {(-> U64 (Array U64))} \"array.alloc\")\n".replace("(-> U64 (Array U64))", "(forall A) (-> U64 (Array A))").as_str();
    s += "(builtin-op word {(-> U64 (Array U64) U64)} \"array.load\")\n".replace("(-> U64 (Array U64) U64)", "(forall A) (-> U64 (Array A) A)").as_str();
    s += "(builtin-op set-word! {(forall A) (-> U64 A (Array A) unit)} \"array.store\")\n";
    s += "(builtin-op words-ptr {(forall A) (-> (Array A) (Ptr A))} \"array.ptr\")\n";
    s += "(builtin-op ptr-offset {(forall A) (-> I64 (Ptr A) (Ptr A))} \"ptr.offset\")\n";
    s += "(builtin-op w-add {(-> U64 U64 U64)} \"unsigned.add\")\n(builtin-op w-sub {(-> U64 U64 U64)} \"unsigned.sub\")\n(builtin-op w-mul {(-> U64 U64 U64)} \"unsigned.mul\")\n(builtin-op w-div {(-> U64 U64 U64)} \"unsigned.div\")\n(builtin-op w-lt {(-> U64 U64 Bool)} \"unsigned.lt\")\n(builtin-op w-eq {(-> U64 U64 Bool)} \"integer.eq\")\n(builtin-op cast* {(forall A B) (-> A B)} \"bitcast\")\n(builtin-op trunc* {(forall A B) (-> A B)} \"integer.trunc\")\n(builtin-op ext* {(forall A B) (-> A B)} \"unsigned.ext\")\n(builtin-op re* {(forall A B) (-> A B)} \"reinterpret\")\n";
    for t in types {
        let n = t.name();
        let (i, o) = match t {
            U(64) => ("x".into(), "x".into()),
            I(64) => ("(cast* x)".to_string(), "(cast* x)".to_string()),
            U(_) => ("(trunc* x)".into(), "(ext* x)".into()),
            I(b) => (format!("(cast* (annotate (trunc* x) U{}))", b), format!("(ext* (annotate (cast* x) U{}))", b)),
            F(64) => ("(re* x)".into(), "(re* x)".into()),
            F(_) => ("(re* (annotate (trunc* x) U32))".into(), "(ext* (annotate (re* x) U32))".into()),
            B => ("(if (w-eq x 0) #f #t)".into(), "(if x 1 0)".into()),
        };
        s += &format!("(function (in.{0} x) {{(-> U64 {0})}} {1})\n(function (out.{0} x) {{(-> {0} U64)}} {2})\n", n, i, o);
    }
    // reads n words, as many bytes at a time as there are
    s += "(function (read-words! n) {(-> U64 (Array U64))}\n  (let ([ws (annotate (new-words n) (Array U64))])\n    (read-loop! (words-ptr ws) (w-mul n 8))\n    ws))\n";
    s += "(builtin-op ptr-cast {(forall A B) (-> (Ptr A) (Ptr B))} \"ptr.cast\")\n";
    s += "(function (read-loop! p n) {(-> (Ptr U64) U64 unit)}\n  (if (w-eq n 0) unit\n    (let ([k (c-read 0 p n)])\n      (if (w-eq (cast* k) 0) unit\n        (read-loop! (ptr-cast (ptr-offset k (annotate (ptr-cast p) (Ptr U8)))) (w-sub n (cast* k)))))))\n";
    s += "(function (write-words! n ws) {(-> U64 (Array U64) I64)} (c-write 1 (words-ptr ws) (w-mul n 8)))\n";
    s
}

/// A program that applies operations to words: triples (operation, a, b) on standard input after their number.
pub fn driver() -> String {
    let mut types: BTreeSet<T> = NUMS.iter().copied().collect();
    types.insert(B);
    let mut s = prelude(&types);
    let ops = ops();
    for o in &ops { s += &o.define(); }
    for (k, chunk) in ops.chunks(16).enumerate() {
        s += &format!("(function (run{} op a b) {{(-> U64 U64 U64 U64)}}\n  (match op\n", k);
        for (i, o) in chunk.iter().enumerate() {
            let n = o.t.name();
            let call = if o.unary() { format!("({} (in.{} a))", o.name(), n) } else { format!("({} (in.{} a) (in.{} b))", o.name(), n, n) };
            s += &format!("    [{} (out.{} {})]\n", i, o.to.name(), call);
        }
        s += "    [_ 0]))\n";
    }
    s += "(function (run ch op a b) {(-> U64 U64 U64 U64 U64)}\n  (match ch\n";
    for k in 0..(ops.len() + 15) / 16 { s += &format!("    [{} (run{} op a b)]\n", k, k); }
    s += "    [_ 0]))\n";
    s += "(function (each! i n ws) {(-> U64 U64 (Array U64) unit)}\n  (if (w-lt i n)\n    (begin\n      (let ([op (word (w-mul i 3) ws)])\n        (set-word! i (run (w-div op 16) (w-sub op (w-mul 16 (w-div op 16))) (word (w-add (w-mul i 3) 1) ws) (word (w-add (w-mul i 3) 2) ws)) ws))\n      (each! (w-add i 1) n ws))\n    unit))\n";
    s += "(let ([n (word 0 (read-words! 1))])\n  (let ([ws (read-words! (w-mul n 3))])\n    (each! 0 n ws)\n    (write-words! n ws)))\n";
    s
}
