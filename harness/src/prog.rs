//! Typed programs of the core language: a generator, a printer, and an evaluator of their source.
use crate::sx::gen_f64;
use crate::Tape;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    U(u32),
    I(u32),
    F64,
    F32,
    Bool,
    Char,
    Str,
    Unit,
    Tup(Vec<Ty>),
    Data(usize, Vec<Ty>),
    Fun(Vec<Ty>, Box<Ty>),
    Ref(Box<Ty>),
    Arr(Box<Ty>),
    Par(usize),
}
use Ty::*;

impl Ty {
    pub fn subst(&self, a: &[Ty]) -> Ty {
        match self {
            Par(i) => a[*i].clone(),
            Tup(v) => Tup(v.iter().map(|x| x.subst(a)).collect()),
            Data(i, v) => Data(*i, v.iter().map(|x| x.subst(a)).collect()),
            Fun(v, r) => Fun(v.iter().map(|x| x.subst(a)).collect(), Box::new(r.subst(a))),
            Ref(x) => Ref(Box::new(x.subst(a))),
            Arr(x) => Arr(Box::new(x.subst(a))),
            t => t.clone(),
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            Tup(v) | Data(_, v) => v.iter().map(|x| x.size()).sum(),
            Fun(v, r) => v.iter().map(|x| x.size()).sum::<usize>() + r.size(),
            Ref(x) | Arr(x) => x.size(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct DataDef {
    pub name: String,
    pub params: usize,
    pub value: bool,
    pub ctors: Vec<(String, Vec<Ty>)>,
    pub seed: u64,
    pub tag2: bool,
    /// the constructor of the simplest value
    pub zero: usize,
}

#[derive(Clone, Debug)]
pub enum P {
    Wild,
    Var(usize),
    As(usize, Box<P>),
    Con(usize, Vec<P>),
    Tup(Vec<P>),
    Bool(bool),
    Ref(Box<P>),
    Lit(E),
}

#[derive(Clone, Debug)]
pub enum E {
    Int(Ty, u64),
    F64(u64),
    F32(u32),
    Bool(bool),
    Char(char),
    Str(String),
    Unit,
    Var(usize),
    /// a top-level function or constructor used as a value
    Global(usize, Vec<Ty>),
    /// a local function used as a value
    CallV(Box<E>, Vec<E>),
    Call(usize, Vec<Ty>, Vec<E>),
    Op(&'static str, Ty, Ty, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
    Let(Vec<(usize, E)>, Box<E>),
    LetFun(Vec<LFun>, Box<E>),
    Begin(Vec<E>, Box<E>),
    /// counter, bound, body
    While(usize, u64, Box<E>),
    Match(Box<E>, Vec<(P, E)>),
    Con(usize, usize, Vec<E>),
    Tup(Vec<E>),
    Ref(Box<E>),
    Load(Box<E>),
    Store(Box<E>, Box<E>),
    ArrMk(u64, Box<E>),
    ArrGet(Box<E>, Box<E>),
    ArrSet(Box<E>, Box<E>, Box<E>),
    ArrLen(Box<E>),
    Return(Box<E>),
    Emit(Box<E>),
    Tr(u64, Box<E>),
    Tag(Box<E>),
    Tag2(Box<E>),
    Zero,
    Churn(u64),
    Ann(Box<E>, Ty),
}

#[derive(Clone, Debug)]
pub struct LFun {
    pub id: usize,
    pub params: Vec<usize>,
    pub ty: Ty,
    pub scheme: bool,
    pub body: E,
}

#[derive(Clone, Debug)]
pub struct FunDef {
    pub name: String,
    pub tparams: usize,
    pub params: Vec<(usize, Ty)>,
    pub ret: Ty,
    pub body: E,
    /// takes fuel first
    pub group: Option<usize>,
    pub transparent: bool,
}

#[derive(Default, Debug)]
pub struct Prog {
    pub datas: Vec<DataDef>,
    pub funs: Vec<FunDef>,
    /// printed names of variables
    pub names: Vec<String>,
    /// statements of the main module
    pub main: Vec<E>,
}

pub const K: u64 = 1000003;
pub fn mix(a: u64, b: u64) -> u64 {
    a.wrapping_mul(K).wrapping_add(b)
}
pub const INTS: [Ty; 8] = [U(8), U(16), U(32), U(64), I(8), I(16), I(32), I(64)];
fn mask(t: &Ty, v: u64) -> u64 {
    match t {
        U(64) | I(64) => v,
        U(n) | I(n) => v & ((1 << n) - 1),
        _ => v,
    }
}
fn signed(t: &Ty, v: u64) -> i64 {
    match t {
        I(n) => ((v << (64 - n)) as i64) >> (64 - n),
        _ => v as i64,
    }
}

impl Prog {
    pub fn cons(&self, t: &Ty) -> Vec<(String, Vec<Ty>)> {
        match t {
            Data(i, a) => self.datas[*i].ctors.iter().map(|(n, f)| (n.clone(), f.iter().map(|x| x.subst(a)).collect())).collect(),
            _ => panic!("harness: cons of {:?}", t),
        }
    }
    pub fn ty(&self, t: &Ty) -> String {
        let list = |v: &[Ty]| v.iter().map(|x| format!(" {}", self.ty(x))).collect::<String>();
        match t {
            U(n) => format!("U{}", n),
            I(n) => format!("I{}", n),
            F64 => "F64".into(),
            F32 => "F32".into(),
            Bool => "Bool".into(),
            Char => "Char".into(),
            Str => "String".into(),
            Unit => "unit".into(),
            Tup(v) => format!("(:{})", list(v)),
            Data(i, v) if v.is_empty() => self.datas[*i].name.clone(),
            Data(i, v) => format!("({}{})", self.datas[*i].name, list(v)),
            Fun(v, r) => format!("(->{} {})", list(v), self.ty(r)),
            Ref(x) => format!("(Ref {})", self.ty(x)),
            Arr(x) => format!("(Array {})", self.ty(x)),
            Par(i) => ["A", "B", "C"][*i].into(),
        }
    }
    /// The simplest value of a type, as the instances define it.
    pub fn zero(&self, t: &Ty) -> V {
        match t {
            U(_) | I(_) => V::I(t.clone(), 5),
            F64 => V::F64(1.5f64.to_bits()),
            F32 => V::F32(2.5f32.to_bits()),
            Bool => V::B(true),
            Char => V::C('z'),
            Str => V::S(Rc::new("zero".into())),
            Unit => V::Unit,
            Tup(v) => V::Tup(Rc::new(v.iter().map(|x| self.zero(x)).collect())),
            Data(i, a) => {
                let d = &self.datas[*i];
                let c = d.zero;
                V::Data(*i, c, Rc::new(d.ctors[c].1.iter().map(|x| self.zero(&x.subst(a))).collect()))
            }
            Fun(_, r) => V::Fun(Rc::new(Clo::Zero((**r).clone()))),
            Ref(x) => V::Ref(Rc::new(RefCell::new(self.zero(x)))),
            Arr(x) => V::Arr(Rc::new(RefCell::new(vec![self.zero(x)]))),
            Par(_) => panic!("harness: zero of a parameter"),
        }
    }
    /// Whether an equal-looking copy can be printed, that is, the type holds no function.
    pub fn has_fun(&self, t: &Ty) -> bool {
        match t {
            Fun(..) => true,
            Tup(v) => v.iter().any(|x| self.has_fun(x)),
            Data(i, v) => v.iter().any(|x| self.has_fun(x)) || self.datas[*i].ctors.iter().any(|c| c.1.iter().any(|f| matches!(f, Fun(..)))),
            Ref(x) | Arr(x) => self.has_fun(x),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- printing

fn fmt_char(c: char) -> String {
    if c == '\\' { "#\\\\\\".into() } else { format!("#\\{}", c) }
}
fn fmt_f64(b: u64) -> String {
    let x = f64::from_bits(b);
    let s = format!("{:?}", x);
    if s == "inf" || s == "-inf" || s == "NaN" { s } else if s.contains('e') && !s.contains('.') { s.replace('e', ".0e") } else { s }
}

pub struct Printer<'a> {
    p: &'a Prog,
    o: String,
}
impl<'a> Printer<'a> {
    fn w(&mut self, s: &str) {
        self.o += s;
    }
    fn nl(&mut self, d: usize) {
        self.o += "\n";
        self.o += &"  ".repeat(d.min(30));
    }
    fn list(&mut self, head: &str, es: &[&E], d: usize) {
        self.w("(");
        self.w(head);
        for e in es {
            self.w(" ");
            self.e(e, d);
        }
        self.w(")");
    }
    fn pat(&mut self, p: &P) {
        match p {
            P::Wild => self.w("_"),
            P::Var(i) => { let s = format!("(let {})", self.p.names[*i]); self.w(&s) }
            P::As(i, q) => { let s = format!("(let {} ", self.p.names[*i]); self.w(&s); self.pat(q); self.w(")") }
            P::Con(..) => unreachable!(),
            P::Tup(v) => { self.w("(:"); for q in v { self.w(" "); self.pat(q) } self.w(")") }
            P::Bool(b) => self.w(if *b { "#t" } else { "#f" }),
            P::Ref(q) => { self.w("(ref "); self.pat(q); self.w(")") }
            P::Lit(e) => { let s = literal(e); self.w(&s) }
        }
    }
    fn cpat(&mut self, p: &P, t: &Ty) {
        match (p, t) {
            (P::As(i, q), t) => { let s = format!("(let {} ", self.p.names[*i]); self.w(&s); self.cpat(q, t); self.w(")") }
            (P::Con(c, ps), t) => {
                let (n, fs) = self.p.cons(t)[*c].clone();
                if ps.is_empty() { self.w(&n); return }
                self.w("(");
                self.w(&n);
                for (q, f) in ps.iter().zip(&fs) { self.w(" "); self.cpat(q, f) }
                self.w(")")
            }
            (P::Tup(ps), Tup(ts)) => { self.w("(:"); for (q, f) in ps.iter().zip(ts) { self.w(" "); self.cpat(q, f) } self.w(")") }
            (P::Ref(q), Ref(t)) => { self.w("(ref "); self.cpat(q, t); self.w(")") }
            (p, _) => self.pat(p),
        }
    }
    fn e(&mut self, e: &E, d: usize) {
        match e {
            E::Int(t, _) => { let s = if *t == I(32) && false { literal(e) } else { format!("(annotate {} {})", literal(e), self.p.ty(t)) }; self.w(&s) }
            E::F32(_) => { let s = format!("(annotate {} F32)", literal(e)); self.w(&s) }
            E::F64(_) => { let s = format!("(annotate {} F64)", literal(e)); self.w(&s) }
            E::Bool(_) | E::Char(_) | E::Str(_) => { let s = literal(e); self.w(&s) }
            E::Unit => self.w("unit"),
            E::Var(i) => { let s = self.p.names[*i].clone(); self.w(&s) }
            E::Global(f, _) => { let s = self.p.funs[*f].name.clone(); self.w(&s) }
            E::CallV(f, a) => {
                self.w("(");
                self.e(f, d);
                for x in a { self.w(" "); self.e(x, d) }
                self.w(")")
            }
            E::Call(f, _, a) => { let n = self.p.funs[*f].name.clone(); self.list(&n, &a.iter().collect::<Vec<_>>(), d) }
            E::Op(n, t, to, a) => {
                let n = op_name(n, t, to);
                if t != to && to != &Bool && is_conv(&n) {
                    self.w("(annotate ");
                    self.list(&n, &a.iter().collect::<Vec<_>>(), d);
                    let s = format!(" {})", self.p.ty(to));
                    self.w(&s);
                } else {
                    self.list(&n, &a.iter().collect::<Vec<_>>(), d)
                }
            }
            E::If(c, a, b) => {
                self.w("(if ");
                self.e(c, d);
                self.nl(d + 1);
                self.e(a, d + 1);
                self.nl(d + 1);
                self.e(b, d + 1);
                self.w(")")
            }
            E::And(a, b) => self.list("and", &[a, b], d),
            E::Or(a, b) => self.list("or", &[a, b], d),
            E::Let(bs, b) => {
                self.w("(let (");
                for (k, (i, x)) in bs.iter().enumerate() {
                    if k > 0 { self.nl(d + 2) }
                    let s = format!("[{} ", self.p.names[*i]);
                    self.w(&s);
                    self.e(x, d + 2);
                    self.w("]");
                }
                self.w(")");
                self.nl(d + 1);
                self.e(b, d + 1);
                self.w(")")
            }
            E::LetFun(fs, b) => {
                self.w("(let (");
                for (k, f) in fs.iter().enumerate() {
                    if k > 0 { self.nl(d + 2) }
                    let mut s = format!("[({}", self.p.names[f.id]);
                    for i in &f.params { s += " "; s += &self.p.names[*i] }
                    s += ")";
                    if f.scheme { s += &format!(" {{{}}}", self.p.ty(&f.ty)) }
                    self.w(&s);
                    self.nl(d + 3);
                    self.e(&f.body, d + 3);
                    self.w("]");
                }
                self.w(")");
                self.nl(d + 1);
                self.e(b, d + 1);
                self.w(")")
            }
            E::Begin(v, b) => {
                self.w("(begin");
                for x in v { self.nl(d + 1); self.e(x, d + 1) }
                self.nl(d + 1);
                self.e(b, d + 1);
                self.w(")")
            }
            E::While(i, n, b) => {
                let v = self.p.names[*i].clone();
                let s = format!("(let ([{0} (annotate (ref 0) (Ref U64))]) (while (u-lt (load {0}) {1})", v, n);
                self.w(&s);
                self.nl(d + 1);
                self.e(b, d + 1);
                let s = format!(" (store! (u-add (load {0}) 1) {0})))", v);
                self.w(&s)
            }
            E::Match(..) => unreachable!("harness: a match is annotated"),
            E::Ann(x, t) => {
                if let E::Match(s, cs) = &**x {
                    self.w("(match ");
                    self.e(s, d + 1);
                    for (p, b) in cs {
                        self.nl(d + 1);
                        self.w("[");
                        self.cpat(p, t);
                        self.nl(d + 2);
                        self.e(b, d + 2);
                        self.w("]");
                    }
                    self.w(")");
                } else {
                    self.w("(annotate ");
                    self.e(x, d);
                    let s = format!(" {})", self.p.ty(t));
                    self.w(&s)
                }
            }
            E::Con(i, c, a) => {
                let n = self.p.datas[*i].ctors[*c].0.clone();
                if a.is_empty() { self.w(&n) } else { self.list(&n, &a.iter().collect::<Vec<_>>(), d) }
            }
            E::Tup(a) => self.list(":", &a.iter().collect::<Vec<_>>(), d),
            E::Ref(a) => self.list("ref", &[a], d),
            E::Load(a) => self.list("load", &[a], d),
            E::Store(v, r) => self.list("store!", &[v, r], d),
            E::ArrMk(n, a) => self.list(&format!("arr-mk {}", n), &[a], d),
            E::ArrGet(i, a) => self.list("arr-get", &[i, a], d),
            E::ArrSet(i, v, a) => self.list("arr-set!", &[i, v, a], d),
            E::ArrLen(a) => self.list("arr-len", &[a], d),
            E::Return(a) => self.list("return", &[a], d),
            E::Emit(a) => self.list("emit", &[a], d),
            E::Tr(k, a) => self.list(&format!("tr {}", k), &[a], d),
            E::Tag(a) => self.list("tag", &[a], d),
            E::Tag2(a) => self.list("tag2", &[a], d),
            E::Zero => self.w("zero"),
            E::Churn(n) => { let s = format!("(churn {})", n); self.w(&s) }
        }
    }
}
pub fn literal(e: &E) -> String {
    match e {
        E::Int(t @ I(_), v) => signed(t, *v).to_string(),
        E::Int(_, v) => v.to_string(),
        E::F64(b) => fmt_f64(*b),
        E::F32(b) => fmt_f64((f32::from_bits(*b) as f64).to_bits()),
        E::Bool(b) => (if *b { "#t" } else { "#f" }).into(),
        E::Char(c) => fmt_char(*c),
        E::Str(s) => format!("{:?}", s),
        _ => panic!("harness: literal {:?}", e),
    }
}
fn is_conv(n: &str) -> bool {
    matches!(n, "u-ext" | "s-ext" | "trunc" | "cast" | "u-to-f" | "f-to-u" | "f-ext" | "f-trunc")
}
/// The printed name of an operation: signedness matters to some.
fn op_name(n: &str, t: &Ty, _to: &Ty) -> String {
    match (n, t) {
        ("lt" | "le" | "gt" | "ge" | "div" | "rem" | "shr", I(_)) => format!("s-{}", n),
        ("lt" | "le" | "gt" | "ge" | "div" | "rem" | "shr" | "add" | "sub" | "mul", U(_) | Char) => format!("u-{}", n),
        ("lt" | "le" | "gt" | "ge" | "eq" | "add" | "sub" | "mul", F64 | F32) => format!("f-{}", n),
        _ => n.into(),
    }
}

const PRELUDE: &str = r#"(no-implicit-std)
(import "builtin" _)
(builtin-type (Ptr A) "ptr" [ptr:null "null"] [(ptr:non-null A) "non-null"])
(builtin-type (Array A) "array")
(builtin-type (Ref A) "ptr" [(ref A) "ptr"])
(c-function c-write {(-> I32 (Ptr U64) U64 I64)} "write")
(builtin-op ptr-of {(forall A) (-> A (Ptr A))} "ptr.temporary")
(builtin-op load {(forall A) (-> (Ref A) A)} "ptr.load")
(builtin-op store! {(forall A) (-> A (Ref A) unit)} "ptr.store")
(builtin-op arr-alloc {(forall A) (-> U64 (Array A))} "array.alloc")
(builtin-op arr-load {(forall A) (-> U64 (Array A) A)} "array.load")
(builtin-op arr-store! {(forall A) (-> U64 A (Array A) unit)} "array.store")
(builtin-op arr-len {(forall A) (-> (Array A) U64)} "array.length")
(builtin-op u-add {(forall A) (-> A A A)} "unsigned.add")
(builtin-op u-sub {(forall A) (-> A A A)} "unsigned.sub")
(builtin-op u-mul {(forall A) (-> A A A)} "unsigned.mul")
(builtin-op u-div {(forall A) (-> A A A)} "unsigned.div")
(builtin-op u-rem {(forall A) (-> A A A)} "unsigned.rem")
(builtin-op s-div {(forall A) (-> A A A)} "signed.div")
(builtin-op s-rem {(forall A) (-> A A A)} "signed.rem")
(builtin-op eq {(forall A) (-> A A Bool)} "integer.eq")
(builtin-op u-lt {(forall A) (-> A A Bool)} "unsigned.lt")
(builtin-op u-le {(forall A) (-> A A Bool)} "unsigned.le")
(builtin-op u-gt {(forall A) (-> A A Bool)} "unsigned.gt")
(builtin-op u-ge {(forall A) (-> A A Bool)} "unsigned.ge")
(builtin-op s-lt {(forall A) (-> A A Bool)} "signed.lt")
(builtin-op s-le {(forall A) (-> A A Bool)} "signed.le")
(builtin-op s-gt {(forall A) (-> A A Bool)} "signed.gt")
(builtin-op s-ge {(forall A) (-> A A Bool)} "signed.ge")
(builtin-op and-bits {(forall A) (-> A A A)} "integer.and")
(builtin-op or-bits {(forall A) (-> A A A)} "integer.or")
(builtin-op xor-bits {(forall A) (-> A A A)} "integer.xor")
(builtin-op shl {(forall A) (-> A A A)} "integer.shl")
(builtin-op u-shr {(forall A) (-> A A A)} "integer.lshr")
(builtin-op s-shr {(forall A) (-> A A A)} "integer.ashr")
(builtin-op u-ext {(forall A B) (-> A B)} "unsigned.ext")
(builtin-op s-ext {(forall A B) (-> A B)} "signed.ext")
(builtin-op trunc {(forall A B) (-> A B)} "integer.trunc")
(builtin-op cast {(forall A B) (-> A B)} "bitcast")
(builtin-op f-add {(forall A) (-> A A A)} "float.add")
(builtin-op f-sub {(forall A) (-> A A A)} "float.sub")
(builtin-op f-mul {(forall A) (-> A A A)} "float.mul")
(builtin-op f-lt {(forall A) (-> A A Bool)} "float.lt")
(builtin-op f-le {(forall A) (-> A A Bool)} "float.le")
(builtin-op f-gt {(forall A) (-> A A Bool)} "float.gt")
(builtin-op f-ge {(forall A) (-> A A Bool)} "float.ge")
(builtin-op f-eq {(forall A) (-> A A Bool)} "float.eq")
(builtin-op f-ext {(forall A B) (-> A B)} "float.ext")
(builtin-op f-trunc {(forall A B) (-> A B)} "float.trunc")
(builtin-op bits {(forall A B) (-> A B)} "reinterpret")
(builtin-op str-eq {(-> String String Bool)} "string.eq")
(builtin-op str-cmp {(-> String String I32)} "string.cmp")
(builtin-op str-cat {(-> String String String)} "string.concat")
(builtin-op str-len {(-> String U64)} "string.length")
(builtin-op str-ptr {(-> String (Ptr U8))} "string.ptr")
(builtin-op ptr-load {(forall A) (-> (Ptr A) A)} "ptr.load")
(builtin-op ptr-offset {(forall A) (-> I64 (Ptr A) (Ptr A))} "ptr.offset")
(builtin-op char-code {(-> Char U32)} "no-op")
(builtin-op and {(-> Bool Bool Bool)} "and")
(builtin-op or {(-> Bool Bool Bool)} "or")
(function (str-lt a b) {(-> String String Bool)} (s-lt (str-cmp a b) 0))
(function (ignore x) {(forall A) (-> A unit)} unit)
(function (emit w) {(-> U64 unit)} (ignore (c-write 1 (ptr-of w) 8)))
(function (tr k x) {(forall A) (-> U64 A A)} (begin (emit k) x))
(function (mix a b) {(-> U64 U64 U64)} (u-add (u-mul a 1000003) b))
(function (arr-fill! i n v a) {(forall A) (-> U64 U64 A (Array A) unit)}
  (if (u-lt i n) (begin (arr-store! i v a) (arr-fill! (u-add i 1) n v a)) unit))
(function (arr-mk n v) {(forall A) (-> U64 A (Array A))}
  (let ([a (arr-alloc n)]) (arr-fill! 0 n v a) a))
(function (arr-get i a) {(forall A) (-> U64 (Array A) A)} (arr-load (u-rem i (arr-len a)) a))
(function (arr-set! i v a) {(forall A) (-> U64 A (Array A) unit)} (arr-store! (u-rem i (arr-len a)) v a))
(function (arr-tag i h a) {(forall A) (-> U64 U64 (Array A) U64) (where (Tag A))}
  (if (u-lt i (arr-len a)) (arr-tag (u-add i 1) (mix h (tag (arr-load i a))) a) h))
(function (str-tag i h p n) {(-> I64 U64 (Ptr U8) I64 U64)}
  (if (s-lt i n) (str-tag (cast (u-add (annotate (cast i) U64) 1)) (mix h (u-ext (ptr-load (ptr-offset i p)))) p n) h))
(function (churn n) {(-> U64 unit)}
  (if (eq n 0) unit (begin (ignore (str-cat "garbage " "and more")) (ignore (arr-mk 9 n)) (ignore (ref (: n n n))) (churn (u-sub n 1)))))
(class (Tag A)
  (function (tag a) {(-> A U64)})
  (function (tag2 a) {(-> A U64)} (u-mul 3 (tag a)))
  (function zero {A}))
(instance Tag.U64 (Tag U64) (function (tag a) (mix a 64)) (function zero 5))
(instance Tag.U32 (Tag U32) (function (tag a) (mix (u-ext a) 32)) (function zero 5))
(instance Tag.U16 (Tag U16) (function (tag a) (mix (u-ext a) 16)) (function zero 5))
(instance Tag.U8 (Tag U8) (function (tag a) (mix (u-ext a) 8)) (function (tag2 a) (u-add 1 (tag a))) (function zero 5))
(instance Tag.I64 (Tag I64) (function (tag a) (mix (cast a) 164)) (function zero 5))
(instance Tag.I32 (Tag I32) (function (tag a) (mix (u-ext (annotate (cast a) U32)) 132)) (function zero 5))
(instance Tag.I16 (Tag I16) (function (tag a) (mix (u-ext (annotate (cast a) U16)) 116)) (function zero 5))
(instance Tag.I8 (Tag I8) (function (tag a) (mix (u-ext (annotate (cast a) U8)) 108)) (function zero 5))
(instance Tag.F64 (Tag F64) (function (tag a) (if (f-eq a a) (mix (bits a) 264) 264)) (function zero 1.5))
(instance Tag.F32 (Tag F32) (function (tag a) (if (f-eq a a) (mix (u-ext (annotate (bits a) U32)) 232) 232)) (function zero 2.5))
(instance Tag.Bool (Tag Bool) (function (tag a) (if a 1 2)) (function zero #t))
(instance Tag.Char (Tag Char) (function (tag a) (mix (u-ext (char-code a)) 300)) (function zero #\z))
(instance Tag.String (Tag String) (function (tag a) (str-tag 0 (str-len a) (str-ptr a) (cast (str-len a)))) (function zero "zero"))
(instance Tag.Ref (forall A) (Tag (Ref A)) (where (Tag A)) (function (tag a) (mix 400 (tag (load a)))) (function zero (ref zero)))
(instance Tag.Array (forall A) (Tag (Array A)) (where (Tag A)) (function (tag a) (arr-tag 0 (arr-len a) a)) (function zero (arr-mk 1 zero)))
(instance Tag.T0 (Tag (:)) (function (tag x) 500) (function zero unit))
(instance Tag.T1 (forall A) (Tag (: A)) (where (Tag A)) (function (tag x) (match x [(: (let a)) (mix 501 (tag a))])) (function zero (: zero)))
(instance Tag.T2 (forall A B) (Tag (: A B)) (where (Tag A) (Tag B)) (function (tag x) (match x [(: (let a) (let b)) (mix (mix 502 (tag a)) (tag b))])) (function zero (: zero zero)))
(instance Tag.T3 (forall A B C) (Tag (: A B C)) (where (Tag A) (Tag B) (Tag C)) (function (tag x) (match x [(: (let a) (let b) (let c)) (mix (mix (mix 503 (tag a)) (tag b)) (tag c))])) (function zero (: zero zero zero)))
(instance Tag.T4 (forall A B C D) (Tag (: A B C D)) (where (Tag A) (Tag B) (Tag C) (Tag D)) (function (tag x) (match x [(: (let a) (let b) (let c) (let d)) (mix (mix (mix (mix 504 (tag a)) (tag b)) (tag c)) (tag d))])) (function zero (: zero zero zero zero)))
(instance Tag.Fun0 (forall A) (Tag (-> A)) (where (Tag A)) (function (tag f) (mix 600 (tag (f)))) (function zero (let ([(k) {(-> A)} zero]) k)))
(instance Tag.Fun1 (forall A B) (Tag (-> A B)) (where (Tag A) (Tag B)) (function (tag f) (mix 601 (tag (f (annotate zero A))))) (function zero (let ([(k x) {(-> A B)} zero]) k)))
(instance Tag.Fun2 (forall A B C) (Tag (-> A B C)) (where (Tag A) (Tag B) (Tag C)) (function (tag f) (mix 602 (tag (f (annotate zero A) (annotate zero B))))) (function zero (let ([(k x y) {(-> A B C)} zero]) k)))
(instance Tag.Fun3 (forall A B C D) (Tag (-> A B C D)) (where (Tag A) (Tag B) (Tag C) (Tag D)) (function (tag f) (mix 603 (tag (f (annotate zero A) (annotate zero B) (annotate zero C))))) (function zero (let ([(k x y z) {(-> A B C D)} zero]) k)))
"#;

impl Prog {
    pub fn print(&self) -> String {
        let mut pr = Printer { p: self, o: PRELUDE.to_string() };
        for d in &self.datas {
            let ps: String = (0..d.params).map(|i| format!(" {}", ["A", "B", "C"][i])).collect();
            let head = if d.params == 0 { d.name.clone() } else { format!("({}{})", d.name, ps) };
            let mut s = format!("({} {}", if d.value { "value-data" } else { "data" }, head);
            for (n, fs) in &d.ctors {
                if fs.is_empty() { s += &format!("\n  {}", n) } else { s += &format!("\n  ({}{})", n, fs.iter().map(|f| format!(" {}", self.ty(f))).collect::<String>()) }
            }
            s += ")\n";
            let (fa, wh) = if d.params == 0 { (String::new(), String::new()) } else {
                (format!(" (forall{})", ps), format!(" (where{})", (0..d.params).map(|i| format!(" (Tag {})", ["A", "B", "C"][i])).collect::<String>()))
            };
            s += &format!("(instance Tag.{}{} (Tag {}){}\n  (function (tag x)\n    (match x", d.name, fa, head, wh);
            for (k, (n, fs)) in d.ctors.iter().enumerate() {
                let mut h = (d.seed + k as u64).to_string();
                for i in 0..fs.len() { h = format!("(mix {} (tag f{}))", h, i) }
                let pat = if fs.is_empty() { n.clone() } else { format!("({}{})", n, (0..fs.len()).map(|i| format!(" (let f{})", i)).collect::<String>()) };
                s += &format!("\n      [{} {}]", pat, h);
            }
            s += "))";
            if d.tag2 { s += "\n  (function (tag2 x) (u-add 7 (tag x)))" }
            let (n, fs) = &d.ctors[d.zero];
            s += &format!("\n  (function zero {}))\n", if fs.is_empty() { n.clone() } else { format!("({}{})", n, " zero".repeat(fs.len())) });
            pr.w(&s);
        }
        for f in &self.funs {
            let mut s = format!("({} ({}", if f.transparent { "transparent-function" } else { "function" }, f.name);
            for (i, _) in &f.params { s += " "; s += &self.names[*i] }
            s += ") {";
            let tps = &["A", "B", "C"][..f.tparams];
            if f.tparams > 0 { s += &format!("(forall {}) ", tps.join(" ")) }
            s += &format!("(->{} {})", f.params.iter().map(|p| format!(" {}", self.ty(&p.1))).collect::<String>(), self.ty(&f.ret));
            if f.tparams > 0 { s += &format!(" (where{})", tps.iter().map(|x| format!(" (Tag {})", x)).collect::<String>()) }
            s += "}\n  ";
            pr.w(&s);
            pr.e(&f.body, 1);
            pr.w(")\n");
        }
        for e in &self.main {
            pr.e(e, 0);
            pr.w("\n");
        }
        pr.o
    }
    pub fn show(&self) -> String {
        let s = self.print();
        s[PRELUDE.len()..].to_string()
    }
    pub fn show_expr(&self, e: &E) -> String {
        let mut pr = Printer { p: self, o: String::new() };
        pr.e(e, 0);
        pr.o
    }
}

// ---------------------------------------------------------------- evaluating

#[derive(Clone, Debug)]
pub enum V {
    I(Ty, u64),
    F64(u64),
    F32(u32),
    B(bool),
    C(char),
    S(Rc<String>),
    Unit,
    Tup(Rc<Vec<V>>),
    Data(usize, usize, Rc<Vec<V>>),
    Fun(Rc<Clo>),
    Ref(Rc<RefCell<V>>),
    Arr(Rc<RefCell<Vec<V>>>),
}
#[derive(Debug)]
pub enum Clo {
    Global(usize, Vec<Ty>),
    /// functions of a group, which one, the environment of the group
    Local(Rc<Vec<LFun>>, usize, Env, Rc<Vec<Ty>>),
    Zero(Ty),
}
pub type Env = Option<Rc<Node>>;
#[derive(Debug)]
pub struct Node(usize, V, Env);
fn bind(env: &Env, id: usize, v: V) -> Env {
    Some(Rc::new(Node(id, v, env.clone())))
}
fn lookup(env: &Env, id: usize) -> V {
    let mut e = env;
    while let Some(n) = e {
        if n.0 == id { return n.1.clone() }
        e = &n.2;
    }
    panic!("harness: variable {}", id)
}
pub enum Ctl {
    Ret(V),
    Stop,
}
type R = Result<V, Ctl>;

pub struct Eval<'a> {
    pub p: &'a Prog,
    pub out: Vec<u64>,
    pub steps: u64,
    pub depth: u32,
    pub max_depth: u32,
    pub calls: u64,
    pub hit: std::collections::BTreeSet<&'static str>,
}
fn u(x: u64) -> V { V::I(U(64), x) }
impl<'a> Eval<'a> {
    pub fn new(p: &'a Prog, steps: u64) -> Self {
        Eval { p, out: vec![], steps, depth: 0, max_depth: 0, calls: 0, hit: Default::default() }
    }
    fn word(&mut self, e: &E, env: &Env, ta: &Rc<Vec<Ty>>) -> Result<u64, Ctl> {
        match self.ev(e, env, ta)? { V::I(_, x) => Ok(x), v => panic!("harness: word {:?}", v) }
    }
    fn truth(&mut self, e: &E, env: &Env, ta: &Rc<Vec<Ty>>) -> Result<bool, Ctl> {
        match self.ev(e, env, ta)? { V::B(x) => Ok(x), v => panic!("harness: bool {:?}", v) }
    }
    fn evs(&mut self, es: &[E], env: &Env, ta: &Rc<Vec<Ty>>) -> Result<Vec<V>, Ctl> {
        es.iter().map(|e| self.ev(e, env, ta)).collect()
    }
    fn body(&mut self, e: &E, env: &Env, ta: &Rc<Vec<Ty>>) -> R {
        self.calls += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > 2000 { return Err(Ctl::Stop) }
        let r = match self.ev(e, env, ta) { Err(Ctl::Ret(v)) => Ok(v), r => r };
        self.depth -= 1;
        r
    }
    fn call(&mut self, f: usize, targs: &[Ty], args: Vec<V>) -> R {
        let d = &self.p.funs[f];
        let mut env = None;
        for ((i, _), v) in d.params.iter().zip(args) { env = bind(&env, *i, v) }
        self.body(&d.body, &env, &Rc::new(targs.to_vec()))
    }
    pub fn apply(&mut self, f: &V, args: Vec<V>) -> R {
        let V::Fun(c) = f else { panic!("harness: apply {:?}", f) };
        match &**c {
            Clo::Global(g, targs) => self.call(*g, targs, args),
            Clo::Zero(r) => { self.calls += 1; Ok(self.p.zero(r)) }
            Clo::Local(fs, k, env, ta) => {
                let mut e = env.clone();
                for (j, f) in fs.iter().enumerate() { e = bind(&e, f.id, V::Fun(Rc::new(Clo::Local(fs.clone(), j, env.clone(), ta.clone())))) }
                for (i, v) in fs[*k].params.iter().zip(args) { e = bind(&e, *i, v) }
                self.body(&fs[*k].body, &e, ta)
            }
        }
    }
    pub fn tag(&mut self, v: &V, t: &Ty) -> Result<u64, Ctl> {
        if self.steps == 0 { return Err(Ctl::Stop) }
        self.steps -= 1;
        Ok(match (v, t) {
            (V::I(U(n), x), _) => mix(*x, *n as u64),
            (V::I(I(n), x), _) => mix(*x, 100 + *n as u64),
            (V::I(..), _) => panic!(),
            (V::F64(b), _) => if f64::from_bits(*b).is_nan() { 264 } else { mix(*b, 264) },
            (V::F32(b), _) => if f32::from_bits(*b).is_nan() { 232 } else { mix(*b as u64, 232) },
            (V::B(b), _) => if *b { 1 } else { 2 },
            (V::C(c), _) => mix(*c as u64, 300),
            (V::S(s), _) => s.bytes().fold(s.len() as u64, |h, b| mix(h, b as u64)),
            (V::Unit, _) => 500,
            (V::Tup(vs), Tup(ts)) => {
                let mut h = 500 + vs.len() as u64;
                for (x, t) in vs.iter().zip(ts) { h = mix(h, self.tag(x, t)?) }
                h
            }
            (V::Data(i, c, vs), Data(_, a)) => {
                let mut h = self.p.datas[*i].seed + *c as u64;
                let fs = self.p.datas[*i].ctors[*c].1.clone();
                for (x, t) in vs.iter().zip(fs) { h = mix(h, self.tag(x, &t.subst(a))?) }
                h
            }
            (V::Fun(_), Fun(ps, r)) => {
                let args = ps.iter().map(|t| self.p.zero(t)).collect();
                let x = self.apply(v, args)?;
                mix(600 + ps.len() as u64, self.tag(&x, r)?)
            }
            (V::Ref(x), Ref(t)) => { let x = x.borrow().clone(); mix(400, self.tag(&x, t)?) }
            (V::Arr(x), Arr(t)) => {
                // elements are read one by one, after what reading the earlier ones may have changed
                let n = x.borrow().len();
                let mut h = n as u64;
                for i in 0..n { let y = x.borrow()[i].clone(); h = mix(h, self.tag(&y, t)?) }
                h
            }
            (v, t) => panic!("harness: tag {:?} {:?}", v, t),
        })
    }
    fn matches(&self, p: &P, v: &V, env: &mut Env) -> bool {
        match (p, v) {
            (P::Wild, _) => true,
            (P::Var(i), v) => { *env = bind(env, *i, v.clone()); true }
            (P::As(i, q), v) => { *env = bind(env, *i, v.clone()); self.matches(q, v, env) }
            (P::Con(c, ps), V::Data(_, k, vs)) => c == k && ps.iter().zip(vs.iter()).all(|(p, v)| self.matches(p, v, env)),
            (P::Tup(ps), V::Tup(vs)) => ps.iter().zip(vs.iter()).all(|(p, v)| self.matches(p, v, env)),
            (P::Tup(ps), V::Unit) => ps.is_empty(),
            (P::Bool(b), V::B(x)) => b == x,
            (P::Ref(q), V::Ref(r)) => { let x = r.borrow().clone(); self.matches(q, &x, env) }
            (P::Lit(E::Int(_, x)), V::I(_, y)) => x == y,
            (P::Lit(E::F64(x)), V::F64(y)) => f64::from_bits(*x) == f64::from_bits(*y),
            (P::Lit(E::F32(x)), V::F32(y)) => f32::from_bits(*x) == f32::from_bits(*y),
            (P::Lit(E::Char(x)), V::C(y)) => x == y,
            (P::Lit(E::Str(x)), V::S(y)) => *x == **y,
            (p, v) => panic!("harness: {:?} against {:?}", p, v),
        }
    }
    pub fn ev(&mut self, e: &E, env: &Env, ta: &Rc<Vec<Ty>>) -> R {
        if self.steps == 0 { return Err(Ctl::Stop) }
        self.steps -= 1;
        Ok(match e {
            E::Int(t, v) => V::I(t.clone(), *v),
            E::F64(b) => V::F64(*b),
            E::F32(b) => V::F32(*b),
            E::Bool(b) => V::B(*b),
            E::Char(c) => V::C(*c),
            E::Str(s) => V::S(Rc::new(s.clone())),
            E::Unit => V::Unit,
            E::Var(i) => lookup(env, *i),
            E::Global(f, t) => V::Fun(Rc::new(Clo::Global(*f, t.iter().map(|x| x.subst(ta)).collect()))),
            E::CallV(f, a) => {
                let f = self.ev(f, env, ta)?;
                let a = self.evs(a, env, ta)?;
                return self.apply(&f, a);
            }
            E::Call(f, t, a) => {
                let a = self.evs(a, env, ta)?;
                let t: Vec<Ty> = t.iter().map(|x| x.subst(ta)).collect();
                return self.call(*f, &t, a);
            }
            E::Op(n, t, to, a) => { let a = self.evs(a, env, ta)?; op(n, t, to, &a) }
            E::If(c, a, b) => { let c = self.truth(c, env, ta)?; return self.ev(if c { a } else { b }, env, ta) }
            E::And(a, b) => V::B(self.truth(a, env, ta)? && self.truth(b, env, ta)?),
            E::Or(a, b) => V::B(self.truth(a, env, ta)? || self.truth(b, env, ta)?),
            E::Let(bs, b) => {
                let mut inner = env.clone();
                for (i, x) in bs { let v = self.ev(x, env, ta)?; inner = bind(&inner, *i, v) }
                return self.ev(b, &inner, ta);
            }
            E::LetFun(fs, b) => {
                let g = Rc::new(fs.clone());
                let mut inner = env.clone();
                for (j, f) in fs.iter().enumerate() { inner = bind(&inner, f.id, V::Fun(Rc::new(Clo::Local(g.clone(), j, env.clone(), ta.clone())))) }
                return self.ev(b, &inner, ta);
            }
            E::Begin(v, b) => { for x in v { self.ev(x, env, ta)?; } return self.ev(b, env, ta) }
            E::While(i, n, b) => {
                let r = Rc::new(RefCell::new(u(0)));
                let inner = bind(env, *i, V::Ref(r.clone()));
                let mut k = 0;
                while k < *n {
                    self.ev(b, &inner, ta)?;
                    k += 1;
                    *r.borrow_mut() = u(k);
                }
                V::Unit
            }
            E::Match(s, cs) => {
                let v = self.ev(s, env, ta)?;
                for (p, b) in cs {
                    let mut inner = env.clone();
                    if self.matches(p, &v, &mut inner) { return self.ev(b, &inner, ta) }
                }
                panic!("harness: no clause")
            }
            E::Con(i, c, a) => V::Data(*i, *c, Rc::new(self.evs(a, env, ta)?)),
            E::Tup(a) => if a.is_empty() { V::Unit } else { V::Tup(Rc::new(self.evs(a, env, ta)?)) },
            E::Ref(a) => V::Ref(Rc::new(RefCell::new(self.ev(a, env, ta)?))),
            E::Load(a) => match self.ev(a, env, ta)? { V::Ref(r) => { let x = r.borrow().clone(); x } v => panic!("harness: load {:?}", v) },
            E::Store(v, r) => {
                let v = self.ev(v, env, ta)?;
                match self.ev(r, env, ta)? { V::Ref(r) => { *r.borrow_mut() = v; V::Unit } v => panic!("harness: store {:?}", v) }
            }
            E::ArrMk(n, a) => { let v = self.ev(a, env, ta)?; V::Arr(Rc::new(RefCell::new(vec![v; *n as usize]))) }
            E::ArrGet(i, a) => {
                let i = self.word(i, env, ta)?;
                match self.ev(a, env, ta)? { V::Arr(x) => { let x = x.borrow(); x[(i % x.len() as u64) as usize].clone() } v => panic!("harness: get {:?}", v) }
            }
            E::ArrSet(i, v, a) => {
                let i = self.word(i, env, ta)?;
                let v = self.ev(v, env, ta)?;
                match self.ev(a, env, ta)? { V::Arr(x) => { let n = x.borrow().len() as u64; x.borrow_mut()[(i % n) as usize] = v; V::Unit } v => panic!("harness: set {:?}", v) }
            }
            E::ArrLen(a) => match self.ev(a, env, ta)? { V::Arr(x) => u(x.borrow().len() as u64), v => panic!("harness: len {:?}", v) },
            E::Return(a) => { let v = self.ev(a, env, ta)?; self.hit.insert("early return"); return Err(Ctl::Ret(v)) }
            E::Emit(a) => { let x = self.word(a, env, ta)?; self.out.push(x); V::Unit }
            E::Tr(k, a) => { 
                // tr is a function: its argument is evaluated first
                let v = self.ev(a, env, ta)?;
                self.out.push(*k);
                v
            }
            E::Tag(a) => { let (v, t) = self.typed(a, env, ta)?; u(self.tag(&v, &t)?) }
            E::Tag2(a) => {
                let (v, t) = self.typed(a, env, ta)?;
                let h = self.tag(&v, &t)?;
                u(match &t {
                    U(8) => h.wrapping_add(1),
                    Data(i, _) if self.p.datas[*i].tag2 => h.wrapping_add(7),
                    _ => h.wrapping_mul(3),
                })
            }
            E::Zero => panic!("harness: zero is annotated"),
            E::Churn(_) => V::Unit,
            E::Ann(x, t) => {
                if let E::Zero = **x { return Ok(self.p.zero(&t.subst(ta))) }
                return self.ev(x, env, ta);
            }
        })
    }
    /// The argument of a method comes with its type.
    fn typed(&mut self, a: &E, env: &Env, ta: &Rc<Vec<Ty>>) -> Result<(V, Ty), Ctl> {
        let E::Ann(x, t) = a else { panic!("harness: method of {:?}", a) };
        let v = if let E::Zero = **x { self.p.zero(&t.subst(ta)) } else { self.ev(x, env, ta)? };
        Ok((v, t.subst(ta)))
    }
    pub fn run(&mut self) -> bool {
        let none = Rc::new(vec![]);
        for e in &self.p.main {
            if let Err(Ctl::Stop) = self.ev(e, &None, &none) { return false }
        }
        true
    }
}

fn op(n: &str, t: &Ty, to: &Ty, a: &[V]) -> V {
    match a {
        [V::I(_, x), V::I(_, y)] => {
            let (x, y) = (*x, *y);
            let (sx, sy) = (signed(t, x), signed(t, y));
            let s = matches!(t, I(_));
            let r = match n {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "div" => if s { sx.wrapping_div(sy) as u64 } else { x / y },
                "rem" => if s { sx.wrapping_rem(sy) as u64 } else { x % y },
                "and-bits" => x & y,
                "or-bits" => x | y,
                "xor-bits" => x ^ y,
                "shl" => x << y,
                "shr" => if s { (sx >> y) as u64 } else { x >> y },
                "eq" => return V::B(x == y),
                "lt" => return V::B(if s { sx < sy } else { x < y }),
                "le" => return V::B(if s { sx <= sy } else { x <= y }),
                "gt" => return V::B(if s { sx > sy } else { x > y }),
                "ge" => return V::B(if s { sx >= sy } else { x >= y }),
                _ => panic!("harness: op {}", n),
            };
            V::I(t.clone(), mask(t, r))
        }
        [V::I(_, x)] => match n {
            "s-ext" => V::I(to.clone(), mask(to, signed(t, *x) as u64)),
            _ => V::I(to.clone(), mask(to, *x)),
        },
        [V::F64(x)] => V::F32((f64::from_bits(*x) as f32).to_bits()),
        [V::F32(x)] => V::F64((f32::from_bits(*x) as f64).to_bits()),
        [V::F64(x), V::F64(y)] => {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            V::F64(match n {
                "add" => x + y, "sub" => x - y, "mul" => x * y,
                "lt" => return V::B(x < y), "le" => return V::B(x <= y), "gt" => return V::B(x > y), "ge" => return V::B(x >= y), _ => return V::B(x == y),
            }.to_bits())
        }
        [V::F32(x), V::F32(y)] => {
            let (x, y) = (f32::from_bits(*x), f32::from_bits(*y));
            V::F32(match n {
                "add" => x + y, "sub" => x - y, "mul" => x * y,
                "lt" => return V::B(x < y), "le" => return V::B(x <= y), "gt" => return V::B(x > y), "ge" => return V::B(x >= y), _ => return V::B(x == y),
            }.to_bits())
        }
        [V::C(x), V::C(y)] => V::B(match n { "eq" => x == y, _ => x < y }),
        [V::S(x), V::S(y)] => match n {
            "str-cat" => V::S(Rc::new(format!("{}{}", x, y))),
            "str-eq" => V::B(x == y),
            _ => V::B(x.as_bytes() < y.as_bytes()),
        },
        [V::S(x)] => u(x.len() as u64),
        _ => panic!("harness: op {} {:?}", n, a),
    }
}

// ---------------------------------------------------------------- usefulness of patterns

fn strip(p: &P) -> &P {
    match p { P::As(_, q) => strip(q), P::Var(_) => &P::Wild, p => p }
}
fn head(p: &P) -> Option<(String, Vec<P>)> {
    match strip(p) {
        P::Wild => None,
        P::Con(c, ps) => Some((format!("c{}", c), ps.clone())),
        P::Tup(ps) => Some((":".into(), ps.clone())),
        P::Bool(b) => Some((b.to_string(), vec![])),
        P::Ref(q) => Some(("ref".into(), vec![(**q).clone()])),
        P::Lit(e) => Some((literal(e), vec![])),
        _ => unreachable!(),
    }
}
impl Prog {
    fn signature(&self, t: &Ty) -> Option<Vec<(String, Vec<Ty>)>> {
        Some(match t {
            Bool => vec![("true".into(), vec![]), ("false".into(), vec![])],
            Tup(v) => vec![(":".into(), v.clone())],
            Unit => vec![(":".into(), vec![])],
            Ref(x) => vec![("ref".into(), vec![(**x).clone()])],
            Data(..) => self.cons(t).into_iter().enumerate().map(|(i, (_, f))| (format!("c{}", i), f)).collect(),
            _ => return None,
        })
    }
    pub fn useful(&self, rows: &[Vec<P>], q: &[P], ts: &[Ty]) -> bool {
        if ts.is_empty() { return rows.is_empty() }
        let spec = |r: &[P], h: &str, n: usize| -> Option<Vec<P>> {
            let mut v = match head(&r[0]) { Some((k, a)) if k == h => a, Some(_) => return None, None => vec![P::Wild; n] };
            v.extend_from_slice(&r[1..]);
            Some(v)
        };
        let sig = self.signature(&ts[0]);
        let down = |h: &str, fs: &[Ty]| -> bool {
            let Some(q2) = spec(q, h, fs.len()) else { return false };
            let rs: Vec<Vec<P>> = rows.iter().filter_map(|r| spec(r, h, fs.len())).collect();
            let mut t2 = fs.to_vec();
            t2.extend_from_slice(&ts[1..]);
            self.useful(&rs, &q2, &t2)
        };
        match head(&q[0]) {
            Some((h, a)) => {
                let fs = match &sig { Some(s) => s.iter().find(|x| x.0 == h).unwrap().1.clone(), None => vec![] };
                assert_eq!(fs.len(), a.len());
                down(&h, &fs)
            }
            None => {
                let used: std::collections::BTreeSet<String> = rows.iter().filter_map(|r| head(&r[0]).map(|h| h.0)).collect();
                if let Some(s) = sig {
                    if s.iter().all(|(h, _)| used.contains(h)) { return s.iter().any(|(h, f)| down(h, f)) }
                }
                let rs: Vec<Vec<P>> = rows.iter().filter(|r| head(&r[0]).is_none()).map(|r| r[1..].to_vec()).collect();
                self.useful(&rs, &q[1..], &ts[1..])
            }
        }
    }
}

// ---------------------------------------------------------------- generating

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Val,
    Counter,
    Fuel,
    /// a local function that takes fuel; whether its own body is being generated
    Fueled(usize, bool),
}
#[derive(Clone, Debug)]
pub struct Bind {
    pub id: usize,
    pub ty: Ty,
    pub kind: Kind,
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub p: Prog,
    pub env: Vec<Bind>,
    pub tparams: usize,
    pub ret: Option<Ty>,
    pub callable: usize,
    /// current group of mutually recursive functions, and the variable that holds fuel
    pub group: Option<(usize, usize)>,
    /// fuel variables of the local functions around
    pub local_fuel: Vec<(usize, usize)>,
    pub groups: usize,
    pub budget: i64,
    pub label: u64,
    pub fresh: usize,
    pub sigs: Vec<FunDef>,
    pub consts_only: bool,
    pub classes: std::collections::BTreeSet<&'static str>,
}

const CHARS: [char; 8] = ['a', 'b', 'z', 'A', '0', '語', 'é', '\\'];
const STRS: [&str; 9] = ["", "a", "ab", "b", "abc", "é", "語 a", "zero", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"];

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape) -> Self {
        Gen { t, p: Prog::default(), env: vec![], tparams: 0, ret: None, callable: 0, group: None, local_fuel: vec![], groups: 0, budget: 200, label: 0, fresh: 0, sigs: vec![], consts_only: false, classes: Default::default() }
    }
    fn n(&mut self, k: usize) -> usize {
        self.t.below(k as u64) as usize
    }
    pub fn scalar(&mut self) -> Ty {
        match self.t.below(12) {
            0 | 1 => U(64),
            2 => U(8),
            3 => Bool,
            4 => F64,
            5 => Str,
            6 => Char,
            7 => U(32),
            8 => U(16),
            9 => F32,
            10 => Unit,
            _ => INTS[4 + self.t.below(4) as usize].clone(),
        }
    }
    /// A type; data types below `lim`, parameters below `self.tparams`.
    pub fn ty(&mut self, d: u32, lim: usize) -> Ty {
        if self.tparams > 0 && self.t.chance(1, 4) { return Par(self.n(self.tparams)) }
        let k = if d == 0 { 4 } else { 12 };
        match self.t.below(k) {
            0..=3 => self.scalar(),
            4 | 5 => { let k = *self.t.pick(&[2, 2, 3, 1, 4]); Tup((0..k).map(|_| self.ty(d - 1, lim)).collect()) }
            6 => { let k = *self.t.pick(&[1, 1, 2, 0, 3]); Fun((0..k).map(|_| self.ty(d - 1, lim)).collect(), Box::new(self.ty(d - 1, lim))) }
            7 => Ref(Box::new(self.ty(d - 1, lim))),
            8 => Arr(Box::new(self.ty(d - 1, lim))),
            _ => {
                if lim == 0 { return self.scalar() }
                let i = self.n(lim);
                Data(i, (0..self.p.datas[i].params).map(|_| self.ty(d - 1, lim)).collect())
            }
        }
    }
    pub fn datas(&mut self) {
        let n = self.t.range(1, 4);
        for i in 0..n {
            let params = *self.t.pick(&[0, 1, 0, 2]);
            let value = self.t.chance(1, 3);
            let seed = 1000 * (i as u64 + 1);
            let tag2 = self.t.bool();
            self.p.datas.push(DataDef { name: format!("D{}", i), params, value, ctors: vec![], seed, tag2, zero: 0 });
        }
        let outer = self.tparams;
        for i in 0..n {
            let k = *self.t.pick(&[2, 3, 1, 4, 2, 3, 2, 5, 9, 20]);
            // sizes around which the representation of the tag changes
            let k = if self.t.chance(1, 16) { *self.t.pick(&[17, 129, 256, 257, 300, 400]) } else { k };
            let (params, value) = (self.p.datas[i].params, self.p.datas[i].value);
            let mut ctors = vec![];
            let lim = if value { i } else { n };
            for c in 0..k {
                let f = if k > 4 { *self.t.pick(&[0, 0, 1]) } else { *self.t.pick(&[0, 1, 2, 0, 3, 1, 4, 7, 12]) };
                let mut fs = vec![];
                for _ in 0..f {
                    let t = match self.t.below(8) {
                        0 | 1 if params > 0 => Par(self.n(params)),
                        2 | 3 if lim > 0 => {
                            // the arguments of a data type in a field stay small, so that no type needs infinitely many
                            let j = self.n(lim);
                            let a = (0..self.p.datas[j].params).map(|q| if j == i { Par(q) } else if params > 0 && self.t.bool() { Par(self.n(params)) } else { self.scalar() }).collect();
                            Data(j, a)
                        }
                        4 => {
                            self.tparams = params;
                            let t = self.ty(1, 0);
                            self.tparams = outer;
                            t
                        }
                        _ => self.scalar(),
                    };
                    fs.push(t);
                }
                ctors.push((if c < 26 { format!("c{}{}", (b'a' + c as u8) as char, i) } else { format!("c{}x{}", c, i) }, fs));
            }
            self.p.datas[i].ctors = ctors;
        }
        // the simplest value of each
        let mut done = vec![false; n];
        loop {
            let mut change = false;
            for i in 0..n {
                if done[i] { continue }
                let ok = self.p.datas[i].ctors.iter().position(|(_, f)| f.iter().all(|t| fin(t, &done)));
                if let Some(c) = ok { self.p.datas[i].zero = c; done[i] = true; change = true; break }
            }
            if !change {
                match (0..n).find(|i| !done[*i]) {
                    None => break,
                    Some(i) => { let k = self.p.datas[i].ctors.len(); self.p.datas[i].ctors.push((format!("cz{}", i), vec![])); self.p.datas[i].zero = k; done[i] = true }
                }
            }
        }
        fn fin(t: &Ty, done: &[bool]) -> bool {
            match t {
                Data(i, v) => done[*i] && v.iter().all(|x| fin(x, done)),
                Tup(v) => v.iter().all(|x| fin(x, done)),
                Fun(v, r) => v.iter().all(|x| fin(x, done)) && fin(r, done),
                Ref(x) | Arr(x) => fin(x, done),
                _ => true,
            }
        }
    }
    /// A new variable; sometimes it takes the name of one around and hides it.
    pub fn var(&mut self, ty: Ty, kind: Kind, with: &mut Vec<String>) -> usize {
        let id = self.p.names.len();
        let mut name = None;
        if !self.env.is_empty() && self.t.chance(1, 5) {
            let k = self.n(self.env.len());
            let old = self.p.names[self.env[k].id].clone();
            if !matches!(self.env[k].kind, Kind::Fuel | Kind::Fueled(..)) && !with.contains(&old) { name = Some(old) }
        }
        let name = name.unwrap_or_else(|| { self.fresh += 1; format!("v{}", self.fresh) });
        with.push(name.clone());
        self.p.names.push(name);
        let _ = (ty, kind);
        id
    }
    /// Brings variables into scope, over those they hide.
    pub fn push(&mut self, bs: Vec<Bind>) {
        let names: Vec<String> = bs.iter().map(|b| self.p.names[b.id].clone()).collect();
        let p = &self.p;
        self.env.retain(|b| !names.contains(&p.names[b.id]));
        self.env.extend(bs);
    }
    pub fn lit(&mut self, t: &Ty) -> E {
        match t {
            U(_) | I(_) => {
                let v = match self.t.below(4) { 0 | 1 => *self.t.pick(&[0, 1, 2, 7, 3]), 2 => *self.t.pick(&[u64::MAX, 127, 128, 255, 1 << 15, 1 << 31, 1 << 63, 1000]), _ => self.t.edgy64() };
                E::Int(t.clone(), mask(t, v))
            }
            F64 => { let x = if self.t.bool() { *self.t.pick(&[0.0, 1.0, 0.5, -1.5, 1e10]) } else { gen_f64(self.t) }; E::F64(if x.is_finite() { x.to_bits() } else { 0 }) }
            F32 => { let x = *self.t.pick(&[0.0f32, 1.0, 0.5, -1.5, 1e10, 0.1]); E::F32(x.to_bits()) }
            Bool => E::Bool(self.t.bool()),
            Char => E::Char(*self.t.pick(&CHARS)),
            Str => E::Str(self.t.pick(&STRS).to_string()),
            Unit => E::Unit,
            _ => panic!("harness: literal of {:?}", t),
        }
    }
    fn ann(&self, e: E, t: &Ty) -> E {
        E::Ann(Box::new(e), t.clone())
    }
    /// A small expression of the type.
    pub fn leaf(&mut self, t: &Ty) -> E {
        if self.t.chance(4, 5) {
            let vs: Vec<usize> = self.env.iter().filter(|b| b.ty == *t && b.kind == Kind::Val).map(|b| b.id).collect();
            if !vs.is_empty() { return E::Var(*self.t.pick(&vs)) }
        }
        self.cons(t, 0)
    }
    /// An expression that constructs a value of the type.
    pub fn cons(&mut self, t: &Ty, d: u32) -> E {
        self.budget -= 1;
        match t {
            Par(_) => {
                let vs: Vec<usize> = self.env.iter().filter(|b| b.ty == *t && b.kind == Kind::Val).map(|b| b.id).collect();
                if !vs.is_empty() && self.t.chance(4, 5) { return E::Var(*self.t.pick(&vs)) }
                self.ann(E::Zero, t)
            }
            Tup(v) => E::Tup(v.iter().map(|x| self.sub(x, d)).collect()),
            Ref(x) => E::Ref(Box::new(self.sub(x, d))),
            Arr(x) => { let n = *self.t.pick(&[1, 2, 3, 5, 9]); E::ArrMk(n, Box::new(self.sub(x, d))) }
            Data(i, a) => {
                if (d == 0 || self.budget < 0) && (self.budget < -50 || self.t.bool()) { return self.ann(E::Zero, t) }
                let k = self.n(self.p.datas[*i].ctors.len());
                let fs = self.p.datas[*i].ctors[k].1.clone();
                let es = fs.iter().map(|f| self.sub(&f.subst(a), d)).collect();
                let e = E::Con(*i, k, es);
                if a.is_empty() { e } else { self.ann(e, t) }
            }
            Fun(ps, r) => self.lambda(ps, r, d),
            t => self.lit(t),
        }
    }
    fn sub(&mut self, t: &Ty, d: u32) -> E {
        if self.consts_only || d == 0 || self.budget < 0 { if d == 0 || self.budget < 0 { self.leaf(t) } else { self.cons(t, d - 1) } } else { self.expr(t, d - 1) }
    }
    fn lambda(&mut self, ps: &[Ty], r: &Ty, d: u32) -> E {
        if d == 0 && self.t.bool() || self.budget < 0 {
            let t = Fun(ps.to_vec(), Box::new(r.clone()));
            return self.ann(E::Zero, &t);
        }
        let (f, b) = self.lfun(ps, r, d, None);
        let id = f.id;
        self.env = b;
        E::LetFun(vec![f], Box::new(E::Var(id)))
    }
    /// A local function; the environment to restore comes along.
    fn lfun(&mut self, ps: &[Ty], r: &Ty, d: u32, fueled: Option<(usize, Vec<Bind>)>) -> (LFun, Vec<Bind>) {
        let saved = self.env.clone();
        let ret = self.ret.replace(r.clone());
        let mut with = vec![];
        let ty = Fun(ps.to_vec(), Box::new(r.clone()));
        let id = match &fueled {
            Some((id, bs)) => { for b in bs { with.push(self.p.names[b.id].clone()) } self.push(bs.clone()); *id }
            None => { self.fresh += 1; self.p.names.push(format!("loc{}", self.fresh)); self.p.names.len() - 1 }
        };
        let mut bs = vec![];
        for (k, p) in ps.iter().enumerate() {
            let kind = if fueled.is_some() && k == 0 { Kind::Fuel } else { Kind::Val };
            let i = self.var(p.clone(), kind, &mut with);
            bs.push(Bind { id: i, ty: p.clone(), kind });
        }
        let params: Vec<usize> = bs.iter().map(|b| b.id).collect();
        self.push(bs);
        let body = if fueled.is_some() {
            let c = E::Op("eq", U(64), Bool, vec![E::Var(params[0]), E::Int(U(64), 0)]);
            let rec: Vec<Bind> = self.env.iter().filter(|b| matches!(b.kind, Kind::Fueled(_, true))).cloned().collect();
            let e0 = self.env.clone();
            self.env.retain(|b| !matches!(b.kind, Kind::Fueled(_, true)));
            let base = self.expr(r, d.saturating_sub(1).min(1));
            self.env = e0;
            self.local_fuel.push((id, params[0]));
            let step = if self.t.chance(3, 4) && !rec.is_empty() {
                let f = self.t.pick(&rec).clone();
                let Fun(fps, fr) = f.ty.clone() else { unreachable!() };
                let mut a = vec![E::Op("sub", U(64), U(64), vec![E::Var(params[0]), E::Int(U(64), 1)])];
                for p in &fps[1..] { let x = self.arg(p, d.saturating_sub(2)); a.push(x) }
                let c = E::CallV(Box::new(E::Var(f.id)), a);
                let mut with = vec![];
                let i = self.var((*fr).clone(), Kind::Val, &mut with);
                let e1 = self.env.clone();
                self.push(vec![Bind { id: i, ty: (*fr).clone(), kind: Kind::Val }]);
                let b = self.expr(r, d.saturating_sub(1));
                self.env = e1;
                E::Let(vec![(i, c)], Box::new(b))
            } else { self.expr(r, d.saturating_sub(1)) };
            self.local_fuel.pop();
            E::If(Box::new(c), Box::new(base), Box::new(step))
        } else {
            // fuel of functions around is not this function's
            let e0: Vec<Bind> = self.env.clone();
            self.env.retain(|b| !matches!(b.kind, Kind::Fueled(_, true)));
            let g = self.group.take();
            let b = self.expr(r, d.saturating_sub(1));
            self.group = g;
            self.env = e0;
            b
        };
        self.ret = ret;
        let scheme = fueled.is_some() || self.t.chance(2, 3);
        (LFun { id, params, ty, scheme, body }, saved)
    }
    fn match_ty(&self, pat: &Ty, t: &Ty, a: &mut Vec<Option<Ty>>) -> bool {
        match (pat, t) {
            (Par(i), t) => match &a[*i] { Some(x) => x == t, None => { a[*i] = Some(t.clone()); true } },
            (Tup(x), Tup(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| self.match_ty(x, y, a)),
            (Data(i, x), Data(j, y)) => i == j && x.iter().zip(y).all(|(x, y)| self.match_ty(x, y, a)),
            (Fun(x, r), Fun(y, s)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| self.match_ty(x, y, a)) && self.match_ty(r, s, a),
            (Ref(x), Ref(y)) | (Arr(x), Arr(y)) => self.match_ty(x, y, a),
            (x, y) => x == y,
        }
    }
    fn some_ty(&mut self, d: u32) -> Ty {
        // a type something in scope has, or any
        if !self.env.is_empty() && self.t.bool() {
            let k = self.n(self.env.len());
            if self.env[k].kind == Kind::Val { return self.env[k].ty.clone() }
        }
        let n = self.p.datas.len();
        self.ty(d, n)
    }
    fn call_top(&mut self, t: &Ty, d: u32) -> Option<E> {
        let mut c = vec![];
        for (i, f) in self.sigs.iter().enumerate() {
            let same_group = f.group.is_some() && self.group.map(|g| g.0) == f.group;
            if i >= self.callable && !same_group { continue }
            let mut a = vec![None; f.tparams];
            if self.match_ty(&f.ret, t, &mut a) && !(same_group && a.iter().enumerate().any(|(k, x)| x.is_some() && *x != Some(Par(k)))) { c.push((i, a, same_group)) }
        }
        if c.is_empty() { return None }
        let (i, a, rec) = self.t.pick(&c).clone();
        let n = self.p.datas.len();
        let a: Vec<Ty> = a.into_iter().enumerate().map(|(k, x)| x.unwrap_or_else(|| if rec { Par(k) } else { self.ty(1, n) })).collect();
        if a.iter().map(|x| x.size()).sum::<usize>() > 12 { return None }
        self.call_of(i, a, d, rec)
    }
    /// A call of a top-level function at given types.
    pub fn call_of(&mut self, i: usize, a: Vec<Ty>, d: u32, rec: bool) -> Option<E> {
        let f = self.sigs[i].clone();
        if rec { self.classes.insert("recursion"); }
        let mut es = vec![];
        for (k, (_, pt)) in f.params.iter().enumerate() {
            let pt = pt.subst(&a);
            es.push(if k == 0 && f.group.is_some() {
                if rec { E::Op("sub", U(64), U(64), vec![E::Var(self.group.unwrap().1), E::Int(U(64), 1)]) } else { E::Int(U(64), self.t.below(4)) }
            } else if f.transparent {
                // what a transparent function does with an argument is its own affair: only values go in
                self.leaf_value(&pt)?
            } else { self.arg(&pt, d) });
        }
        if f.tparams > 0 { self.classes.insert("generic call"); }
        if f.params.len() > 6 { self.classes.insert("many arguments"); }
        if f.transparent { self.classes.insert("transparent call"); }
        let t = f.ret.subst(&a);
        Some(if f.tparams > 0 { self.ann(E::Call(i, a, es), &t) } else { E::Call(i, a, es) })
    }
    fn leaf_value(&mut self, t: &Ty) -> Option<E> {
        let vs: Vec<usize> = self.env.iter().filter(|b| b.ty == *t && b.kind == Kind::Val).map(|b| b.id).collect();
        if !vs.is_empty() { return Some(E::Var(*self.t.pick(&vs))) }
        match t { U(_) | I(_) | F64 | F32 | Bool | Char | Str => Some(self.lit(t)), _ => None }
    }
    /// An argument, marked so that the order of evaluation shows.
    fn arg(&mut self, t: &Ty, d: u32) -> E {
        let e = self.sub(t, d);
        if !self.consts_only && self.t.chance(1, 6) { return self.tr(e) }
        e
    }
    /// A local function that makes a reference which outlives the call, called twice; both results are used after
    /// other work has run over the stack.
    fn escape(&mut self, t: &Ty, d: u32) -> E {
        self.classes.insert("reference that outlives its function");
        let n = self.p.datas.len();
        let x = if self.t.bool() { U(64) } else { self.ty(1, n) };
        let bx = |t: &Ty| Box::new(t.clone());
        let rx = Ref(bx(&x));
        let k = self.t.below(6);
        let out = match k { 0 => rx.clone(), 1 => Fun(vec![x.clone()], bx(&x)), 2 => Tup(vec![U(64), rx.clone()]), 3 => Arr(bx(&rx)), 4 => Ref(bx(&rx)), _ => Fun(vec![], bx(&x)) };
        let val = |id: usize, ty: &Ty| Bind { id, ty: ty.clone(), kind: Kind::Val };
        let saved = self.env.clone();
        let ret = self.ret.replace(out.clone());
        self.fresh += 1;
        self.p.names.push(format!("loc{}", self.fresh));
        let id = self.p.names.len() - 1;
        let a = self.var(x.clone(), Kind::Val, &mut vec![]);
        self.push(vec![val(a, &x)]);
        let init = if self.t.bool() { E::Var(a) } else { self.arg(&x, 1) };
        let r = self.var(rx.clone(), Kind::Val, &mut vec![self.p.names[a].clone()]);
        self.push(vec![val(r, &rx)]);
        let mut stmts = vec![];
        for _ in 0..self.t.below(3) {
            stmts.push(if self.t.bool() { E::Store(Box::new(self.arg(&x, 1)), Box::new(E::Var(r))) } else { E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(E::Load(Box::new(E::Var(r)))), x.clone()))))) });
        }
        // what hands the reference out must see the reference, not another variable of its name
        let mut with = vec![self.p.names[r].clone(), self.p.names[a].clone()];
        let value = match k {
            0 => E::Var(r),
            1 | 5 => {
                self.fresh += 1;
                self.p.names.push(format!("loc{}", self.fresh));
                let f = self.p.names.len() - 1;
                let load = E::Load(Box::new(E::Var(r)));
                let (params, body) = if k == 5 { (vec![], load) } else {
                    let y = self.var(x.clone(), Kind::Val, &mut with);
                    with.push(self.p.names[y].clone());
                    let old = self.var(x.clone(), Kind::Val, &mut with);
                    (vec![y], E::Let(vec![(old, load)], Box::new(E::Begin(vec![E::Store(Box::new(E::Var(y)), Box::new(E::Var(r)))], Box::new(E::Var(old))))))
                };
                E::LetFun(vec![LFun { id: f, params, ty: out.clone(), scheme: self.t.bool(), body }], Box::new(E::Var(f)))
            }
            2 => E::Tup(vec![E::Int(U(64), 7), E::Var(r)]),
            3 => E::ArrMk(1 + self.t.below(3), Box::new(E::Var(r))),
            _ => {
                let q = self.var(out.clone(), Kind::Val, &mut with);
                let first = self.ann(E::Ref(Box::new(E::Var(a))), &rx);
                let first = self.ann(E::Ref(Box::new(first)), &out);
                E::Let(vec![(q, first)], Box::new(E::Begin(vec![E::Store(Box::new(E::Var(r)), Box::new(E::Var(q)))], Box::new(E::Var(q)))))
            }
        };
        let init = self.ann(E::Ref(Box::new(init)), &rx);
        let body = E::Let(vec![(r, init)], Box::new(if stmts.is_empty() { value } else { E::Begin(stmts, Box::new(value)) }));
        self.ret = ret;
        self.env = saved.clone();
        let f = LFun { id, params: vec![a], ty: Fun(vec![x.clone()], bx(&out)), scheme: self.t.bool(), body };
        let (c1, c2) = (self.arg(&x, 1), self.arg(&x, 1));
        let mut with = vec![self.p.names[id].clone()];
        let g = self.var(out.clone(), Kind::Val, &mut with);
        with.push(self.p.names[g].clone());
        let h = self.var(out.clone(), Kind::Val, &mut with);
        self.push(vec![val(g, &out), val(h, &out)]);
        let mut uses = vec![];
        for _ in 0..self.t.range(2, 5) {
            let v = E::Var(if self.t.bool() { g } else { h });
            uses.push(match self.t.below(4) {
                0 => E::Churn(*self.t.pick(&[3, 30])),
                _ => {
                    let (e, ty) = match k { 1 => (E::CallV(Box::new(v), vec![self.arg(&x, 1)]), &x), 5 => (E::CallV(Box::new(v), vec![]), &x), _ => (v, &out) };
                    E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(e), ty.clone())))))
                }
            });
        }
        let rest = self.sub(t, d);
        self.env = saved;
        let call = |c| E::CallV(Box::new(E::Var(id)), vec![c]);
        E::LetFun(vec![f], Box::new(E::Let(vec![(g, call(c1)), (h, call(c2))], Box::new(E::Begin(uses, Box::new(rest))))))
    }
    fn tr(&mut self, e: E) -> E {
        self.label += 1;
        E::Tr(self.label, Box::new(e))
    }
    fn ops(&mut self, t: &Ty, d: u32) -> E {
        match t {
            U(_) => match self.t.below(8) {
                0..=2 => { let n = *self.t.pick(&["add", "sub", "mul", "and-bits", "or-bits", "xor-bits"]); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), self.arg(t, d)]) }
                3 => { let n = *self.t.pick(&["div", "rem"]); let k = 1 + self.t.below(20); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), E::Int(t.clone(), k)]) }
                4 => { let n = *self.t.pick(&["shl", "shr"]); let U(b) = t else { unreachable!() }; let k = self.t.below(*b as u64); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), E::Int(t.clone(), k)]) }
                5 if *t == U(64) => { let x = self.some_ty(1); let e = self.arg(&x, d); let e = self.ann(e, &x); if self.t.chance(1, 4) { E::Tag2(Box::new(e)) } else { E::Tag(Box::new(e)) } }
                6 if *t == U(64) => { if self.t.bool() { E::Op("str-len", Str, t.clone(), vec![self.arg(&Str, d)]) } else { let n = self.p.datas.len(); let x = self.ty(1, n); E::ArrLen(Box::new(self.arg(&Arr(Box::new(x)), d))) } }
                _ => self.conv(t, d),
            },
            I(b) => match self.t.below(4) {
                0 => { let n = *self.t.pick(&["and-bits", "or-bits", "xor-bits"]); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), self.arg(t, d)]) }
                1 => { let n = *self.t.pick(&["div", "rem"]); let k = *self.t.pick(&[2, 3, 7, 100]); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), E::Int(t.clone(), k)]) }
                2 => { let k = self.t.below(*b as u64); E::Op("shr", t.clone(), t.clone(), vec![self.arg(t, d), E::Int(t.clone(), k)]) }
                _ => self.conv(t, d),
            },
            F64 if self.t.chance(1, 5) => E::Op("f-ext", F32, F64, vec![self.arg(&F32, d)]),
            F32 if self.t.chance(1, 5) => E::Op("f-trunc", F64, F32, vec![self.arg(&F64, d)]),
            F64 | F32 => { let n = *self.t.pick(&["add", "sub", "mul"]); E::Op(n, t.clone(), t.clone(), vec![self.arg(t, d), self.arg(t, d)]) }
            Str => E::Op("str-cat", Str, Str, vec![self.arg(&Str, d), self.arg(&Str, d)]),
            Bool => match self.t.below(6) {
                0 => E::And(Box::new(self.arg(&Bool, d)), Box::new(self.arg(&Bool, d))),
                1 => E::Or(Box::new(self.arg(&Bool, d)), Box::new(self.arg(&Bool, d))),
                2 => { let n = *self.t.pick(&["str-eq", "str-lt"]); E::Op(n, Str, Bool, vec![self.arg(&Str, d), self.arg(&Str, d)]) }
                3 => { let x = if self.t.bool() { F64 } else { F32 }; let n = *self.t.pick(&["lt", "le", "gt", "ge", "eq"]); E::Op(n, x.clone(), Bool, vec![self.arg(&x, d), self.arg(&x, d)]) }
                4 => { let n = *self.t.pick(&["eq", "lt"]); E::Op(n, Char, Bool, vec![self.arg(&Char, d), self.arg(&Char, d)]) }
                _ => { let x = self.t.pick(&INTS).clone(); let n = *self.t.pick(&["eq", "lt", "le", "gt", "ge"]); E::Op(n, x.clone(), Bool, vec![self.arg(&x, d), self.arg(&x, d)]) }
            },
            t => self.cons(t, d),
        }
    }
    fn conv(&mut self, t: &Ty, d: u32) -> E {
        let b = |t: &Ty| match t { U(n) | I(n) => *n, _ => 0 };
        let x = self.t.pick(&INTS).clone();
        if x == *t { return self.arg(t, d) }
        let n = if b(&x) == b(t) { "cast" } else if b(&x) > b(t) { "trunc" } else if matches!(x, I(_)) { "s-ext" } else { "u-ext" };
        // a conversion keeps the signedness
        if n != "cast" && matches!(x, I(_)) != matches!(t, I(_)) { return self.arg(t, d) }
        let a = self.arg(&x, d);
        let a = self.ann(a, &x);
        E::Op(n, x, t.clone(), vec![a])
    }
    pub fn stmt(&mut self, d: u32) -> E {
        self.budget -= 1;
        match self.t.below(8) {
            0 | 1 => { let x = self.some_ty(1); let e = self.sub(&x, d); let e = self.ann(e, &x); E::Emit(Box::new(E::Tag(Box::new(e)))) }
            2 | 3 => {
                let rs: Vec<(usize, Ty)> = self.env.iter().filter(|b| b.kind == Kind::Val).filter_map(|b| match &b.ty { Ref(x) => Some((b.id, (**x).clone())), _ => None }).collect();
                if rs.is_empty() { return E::Emit(Box::new(self.sub(&U(64), d))) }
                let (r, x) = self.t.pick(&rs).clone();
                self.classes.insert("store");
                E::Store(Box::new(self.sub(&x, d)), Box::new(E::Var(r)))
            }
            4 => {
                let rs: Vec<(usize, Ty)> = self.env.iter().filter(|b| b.kind == Kind::Val).filter_map(|b| match &b.ty { Arr(x) => Some((b.id, (**x).clone())), _ => None }).collect();
                if rs.is_empty() { return E::Emit(Box::new(self.sub(&U(64), d))) }
                let (r, x) = self.t.pick(&rs).clone();
                self.classes.insert("array store");
                E::ArrSet(Box::new(self.sub(&U(64), d.min(1))), Box::new(self.sub(&x, d)), Box::new(E::Var(r)))
            }
            5 if d > 0 => {
                let mut with = vec![];
                let i = self.var(Ref(Box::new(U(64))), Kind::Counter, &mut with);
                let saved = self.env.clone();
                self.push(vec![Bind { id: i, ty: Ref(Box::new(U(64))), kind: Kind::Counter }]);
                let n = self.t.below(4);
                let b = self.stmt(d - 1);
                self.env = saved;
                self.classes.insert("loop");
                E::While(i, n, Box::new(b))
            }
            6 if self.ret.is_some() && d > 0 => { let c = self.sub(&Bool, d); let r = self.ret.clone().unwrap(); E::If(Box::new(c), Box::new(E::Return(Box::new(self.sub(&r, d - 1)))), Box::new(E::Unit)) }
            _ => if self.t.chance(1, 12) { self.classes.insert("garbage"); E::Churn(*self.t.pick(&[3, 50, 300])) } else { self.sub(&Unit, d) },
        }
    }
    /// A pattern of the type with the variables it binds.
    pub fn pat(&mut self, t: &Ty, d: u32, bs: &mut Vec<Bind>, with: &mut Vec<String>) -> P {
        let q = if d == 0 || self.t.chance(1, 4) { P::Wild } else {
            match t {
                Bool => P::Bool(self.t.bool()),
                Tup(v) => P::Tup(v.iter().map(|x| self.pat(x, d - 1, bs, with)).collect()),
                Ref(x) => P::Ref(Box::new(self.pat(x, d - 1, bs, with))),
                Data(i, a) => {
                    let k = self.n(self.p.datas[*i].ctors.len());
                    let fs = self.p.datas[*i].ctors[k].1.clone();
                    P::Con(k, fs.iter().map(|f| self.pat(&f.subst(a), d - 1, bs, with)).collect())
                }
                U(_) | I(_) | Char | Str => { let e = if self.t.chance(1, 3) { self.lit(t) } else { match t { U(_) | I(_) => E::Int(t.clone(), *self.t.pick(&[0, 1, 2])), t => self.lit(t) } }; P::Lit(e) }
                F64 => P::Lit(E::F64(self.t.pick(&[1.0f64, 0.5, -1.5]).to_bits())),
                _ => P::Wild,
            }
        };
        let whole = matches!(q, P::Wild);
        if whole && self.t.chance(2, 3) || self.t.chance(1, 10) {
            let i = self.var(t.clone(), Kind::Val, with);
            bs.push(Bind { id: i, ty: t.clone(), kind: Kind::Val });
            return if whole { P::Var(i) } else { P::As(i, Box::new(q)) };
        }
        q
    }
    fn split(&mut self, p: &P, t: &Ty) -> Vec<P> {
        match p {
            P::Wild => match t {
                Bool => vec![P::Bool(true), P::Bool(false)],
                Tup(v) => vec![P::Tup(vec![P::Wild; v.len()])],
                Ref(_) => vec![P::Ref(Box::new(P::Wild))],
                Data(i, _) => self.p.datas[*i].ctors.iter().enumerate().map(|(k, c)| P::Con(k, vec![P::Wild; c.1.len()])).collect(),
                _ => vec![P::Wild],
            },
            P::Tup(ps) if !ps.is_empty() => {
                let Tup(ts) = t else { unreachable!() };
                let k = self.n(ps.len());
                self.split(&ps[k], &ts[k]).into_iter().map(|q| { let mut v = ps.clone(); v[k] = q; P::Tup(v) }).collect()
            }
            P::Con(c, ps) if !ps.is_empty() => {
                let fs = self.p.cons(t)[*c].1.clone();
                let k = self.n(ps.len());
                self.split(&ps[k], &fs[k]).into_iter().map(|q| { let mut v = ps.clone(); v[k] = q; P::Con(*c, v) }).collect()
            }
            P::Ref(q) => { let Ref(x) = t else { unreachable!() }; self.split(q, x).into_iter().map(|q| P::Ref(Box::new(q))).collect() }
            p => vec![p.clone()],
        }
    }
    /// Gives names to some of the wildcards.
    fn name_vars(&mut self, p: &P, t: &Ty, bs: &mut Vec<Bind>, with: &mut Vec<String>) -> P {
        let q = match (p, t) {
            (P::Tup(ps), Tup(ts)) => P::Tup(ps.iter().zip(ts).map(|(p, t)| self.name_vars(p, t, bs, with)).collect()),
            (P::Con(c, ps), t) => { let fs = self.p.cons(t)[*c].1.clone(); P::Con(*c, ps.iter().zip(&fs).map(|(p, t)| self.name_vars(p, t, bs, with)).collect()) }
            (P::Ref(q), Ref(t)) => P::Ref(Box::new(self.name_vars(q, t, bs, with))),
            (p, _) => p.clone(),
        };
        let whole = matches!(q, P::Wild);
        if whole && self.t.chance(2, 3) || self.t.chance(1, 12) && !matches!(q, P::Var(_) | P::As(..)) {
            let i = self.var(t.clone(), Kind::Val, with);
            bs.push(Bind { id: i, ty: t.clone(), kind: Kind::Val });
            return if whole { P::Var(i) } else { P::As(i, Box::new(q)) };
        }
        q
    }
    /// Clauses for a type: complete, each of use; with what they bind.
    pub fn clauses(&mut self, t: &Ty, max: usize, depth: u32) -> Vec<(P, Vec<Bind>)> {
        let mut rows: Vec<(P, Vec<Bind>)> = vec![];
        let style = self.t.below(3);
        if style > 0 {
            let mut ps = vec![P::Wild];
            for _ in 0..self.t.range(1, 3) {
                let k = self.n(ps.len());
                let new = self.split(&ps[k].clone(), t);
                if ps.len() + new.len() > max.max(2) + 1 { break }
                ps.splice(k..k + 1, new);
            }
            for p in ps { let mut bs = vec![]; let q = self.name_vars(&p, t, &mut bs, &mut vec![]); rows.push((q, bs)) }
            if style == 2 && rows.len() > 1 { for i in (1..rows.len()).rev() { let j = self.n(i + 1); rows.swap(i, j) } }
        }
        if style != 1 {
            for _ in 0..self.t.range(1, max.max(1)) {
                let mut bs = vec![];
                let p = self.pat(t, depth, &mut bs, &mut vec![]);
                let k = self.n(rows.len() + 1);
                rows.insert(k, (p, bs));
            }
        }
        let mut out: Vec<(P, Vec<Bind>)> = vec![];
        for (p, bs) in rows {
            let m: Vec<Vec<P>> = out.iter().map(|r| vec![r.0.clone()]).collect();
            if out.len() < max && self.p.useful(&m, &[p.clone()], &[t.clone()]) { out.push((p, bs)) }
        }
        let m: Vec<Vec<P>> = out.iter().map(|r| vec![r.0.clone()]).collect();
        if self.p.useful(&m, &[P::Wild], &[t.clone()]) {
            let mut bs = vec![];
            let p = self.pat(t, 0, &mut bs, &mut vec![]);
            out.push((p, bs));
        }
        out
    }
    /// A value that has the shape of a pattern.
    pub fn like(&mut self, p: &P, t: &Ty) -> E {
        match (p, t) {
            (P::As(_, q), t) => self.like(q, t),
            (P::Con(c, ps), Data(i, a)) => {
                let fs = self.p.cons(t)[*c].1.clone();
                let es = ps.iter().zip(&fs).map(|(p, f)| self.like(p, f)).collect();
                let e = E::Con(*i, *c, es);
                if a.is_empty() { e } else { self.ann(e, t) }
            }
            (P::Tup(ps), Tup(ts)) => E::Tup(ps.iter().zip(ts).map(|(p, t)| self.like(p, t)).collect()),
            (P::Ref(q), Ref(x)) => E::Ref(Box::new(self.like(q, x))),
            (P::Bool(b), _) => E::Bool(*b),
            (P::Lit(e), _) => e.clone(),
            (_, t) => self.cons(t, 2),
        }
    }
    fn match_(&mut self, t: &Ty, d: u32) -> E {
        let n = self.p.datas.len();
        let st = match self.t.below(3) {
            0 => self.some_ty(1),
            1 if n > 0 => { let i = self.n(n); Data(i, (0..self.p.datas[i].params).map(|_| self.ty(1, n)).collect()) }
            _ => { let k = *self.t.pick(&[2, 2, 3]); Tup((0..k).map(|_| self.some_ty(1)).collect()) }
        };
        if st.size() > 12 { return self.leaf(t) }
        let s = self.arg(&st, d);
        let s = self.ann(s, &st);
        let mut cs = vec![];
        for (p, bs) in self.clauses(&st, 4, 3) {
            let saved = self.env.clone();
            self.push(bs);
            let b = self.sub(t, d);
            self.env = saved;
            cs.push((p, b));
        }
        self.classes.insert("match");
        E::Ann(Box::new(E::Match(Box::new(s), cs)), st)
    }
    pub fn expr(&mut self, t: &Ty, d: u32) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 || t.size() > 24 { return self.leaf(t) }
        match self.t.below(28) {
            0 | 1 => self.leaf(t),
            2 | 3 => { let c = self.sub(&Bool, d); E::If(Box::new(c), Box::new(self.sub(t, d)), Box::new(self.sub(t, d))) }
            4..=6 => {
                let mut bs = vec![];
                let mut with = vec![];
                let mut bi = vec![];
                for _ in 0..*self.t.pick(&[1, 1, 2, 3, 5, 9]) {
                    let x = if self.t.chance(1, 4) { let y = if self.t.bool() { t.clone() } else { self.some_ty(1) }; if self.t.chance(2, 3) { Ref(Box::new(y)) } else { Arr(Box::new(y)) } } else if self.t.chance(1, 4) { t.clone() } else { self.some_ty(2) };
                    let e = self.sub(&x, d);
                    let e = if self.t.chance(1, 8) { self.tr(e) } else { e };
                    let i = self.var(x.clone(), Kind::Val, &mut with);
                    bi.push(Bind { id: i, ty: x, kind: Kind::Val });
                    bs.push((i, e));
                }
                let saved = self.env.clone();
                self.push(bi);
                let b = self.sub(t, d);
                self.env = saved;
                E::Let(bs, Box::new(b))
            }
            7 => { 
                // local functions that call themselves and each other
                let mut with = vec![];
                let k = *self.t.pick(&[1, 1, 2]);
                let mut bs = vec![];
                let n = self.p.datas.len();
                for _ in 0..k {
                    let mut ps = vec![U(64)];
                    for _ in 0..*self.t.pick(&[0, 1, 2, 5]) { ps.push(self.ty(1, n)) }
                    let ty = Fun(ps, Box::new(if self.t.bool() { t.clone() } else { self.ty(1, n) }));
                    let i = self.var(ty.clone(), Kind::Fueled(0, true), &mut with);
                    bs.push(Bind { id: i, ty, kind: Kind::Fueled(0, true) });
                }
                let saved = self.env.clone();
                let mut fs = vec![];
                for b in &bs {
                    let Fun(ps, r) = b.ty.clone() else { unreachable!() };
                    let g = self.group.take();
                    let lf = std::mem::take(&mut self.local_fuel);
                    self.env.retain(|b| !matches!(b.kind, Kind::Fueled(_, true)));
                    let (f, _) = self.lfun(&ps, &r, d, Some((b.id, bs.clone())));
                    self.local_fuel = lf;
                    self.group = g;
                    self.env = saved.clone();
                    fs.push(f);
                }
                self.push(bs.into_iter().map(|mut b| { b.kind = Kind::Fueled(0, false); b }).collect());
                let body = self.sub(t, d);
                self.env = saved;
                self.classes.insert("local recursion");
                E::LetFun(fs, Box::new(body))
            }
            8 | 9 => { let mut v = vec![]; for _ in 0..self.t.range(1, 3) { v.push(self.stmt(d - 1)) } E::Begin(v, Box::new(self.sub(t, d))) }
            10..=12 => self.match_(t, d),
            13..=15 => match self.call_top(t, d) { Some(e) => e, None => self.ops(t, d) },
            16 | 17 => {
                // call something in scope
                let fs: Vec<(usize, Vec<Ty>, Kind)> = self.env.iter().filter_map(|b| match &b.ty { Fun(p, r) if **r == *t && b.kind != Kind::Fuel => Some((b.id, p.clone(), b.kind)), _ => None }).collect();
                if fs.is_empty() {
                    // or something made on the spot
                    let n = self.p.datas.len();
                    let ps: Vec<Ty> = (0..*self.t.pick(&[1, 2, 0, 3])).map(|_| self.ty(1, n)).collect();
                    let f = self.lambda(&ps, t, d);
                    let mut with = vec![];
                    let ft = Fun(ps.clone(), Box::new(t.clone()));
                    let i = self.var(ft.clone(), Kind::Val, &mut with);
                    let saved = self.env.clone();
                    self.push(vec![Bind { id: i, ty: ft, kind: Kind::Val }]);
                    let a = ps.iter().map(|x| self.arg(x, d)).collect();
                    self.env = saved;
                    self.classes.insert("closure call");
                    return E::Let(vec![(i, f)], Box::new(E::CallV(Box::new(E::Var(i)), a)));
                }
                let (i, ps, kind) = self.t.pick(&fs).clone();
                let mut a = vec![];
                for (k, p) in ps.iter().enumerate() {
                    if k == 0 {
                        if let Kind::Fueled(_, inside) = kind {
                            if inside {
                                let Some(&(_, fv)) = self.local_fuel.last() else { return self.leaf(t) };
                                a.push(E::Op("sub", U(64), U(64), vec![E::Var(fv), E::Int(U(64), 1)]));
                            } else { a.push(E::Int(U(64), self.t.below(4))) }
                            continue;
                        }
                    }
                    a.push(self.arg(p, d));
                }
                self.classes.insert("closure call");
                E::CallV(Box::new(E::Var(i)), a)
            }
            18 | 26 => {
                let rs: Vec<usize> = self.env.iter().filter(|b| matches!(b.kind, Kind::Val | Kind::Counter) && matches!(&b.ty, Ref(x) if **x == *t)).map(|b| b.id).collect();
                if rs.is_empty() { return E::Load(Box::new(self.sub(&Ref(Box::new(t.clone())), d))) }
                self.classes.insert("load");
                E::Load(Box::new(E::Var(*self.t.pick(&rs))))
            }
            19 => { let i = self.sub(&U(64), d.min(1)); E::ArrGet(Box::new(i), Box::new(self.sub(&Arr(Box::new(t.clone())), d))) }
            20 => { let e = self.sub(t, d); self.tr(e) }
            21 if self.ret.is_some() && self.t.chance(1, 6) => { let r = self.ret.clone().unwrap(); let e = self.sub(&r, d); let e = self.ann(e, &r); let e = E::Return(Box::new(e)); self.ann(e, t) }
            21 => self.ann(E::Zero, t),
            22 | 23 => self.cons(t, d),
            27 if d > 0 => self.escape(t, d),
            _ => self.ops(t, d),
        }
    }
    /// Top-level functions, each of which may call earlier ones and those of its group.
    pub fn functions(&mut self, n: usize, d: u32, budget: i64) {
        let nd = self.p.datas.len();
        let mut k = 0;
        while k < n {
            let rec = self.t.chance(1, 3);
            let m = if rec && n - k > 1 && self.t.bool() { 2 } else { 1 };
            let group = if rec { self.groups += 1; Some(self.groups) } else { None };
            let tp = if rec && m == 2 { 0 } else { *self.t.pick(&[0, 0, 1, 2, 3]) };
            let transparent = !rec && self.t.chance(1, 8);
            let base = self.sigs.len();
            for _ in 0..m {
                self.tparams = tp;
                let mut params = vec![];
                let mut with = vec![];
                let mut pts: Vec<Ty> = if rec { vec![U(64)] } else { vec![] };
                for i in 0..tp { pts.push(Par(i)) }
                for _ in 0..*self.t.pick(&[1, 2, 0, 3, 2, 4, 5, 7, 8, 11]) { pts.push(self.ty(2, nd)) }
                if !rec && !transparent && self.t.chance(1, 3) { let j = self.n(pts.len() + 1); let x = self.ty(2, nd); pts.insert(j, x) }
                for (i, t) in pts.into_iter().enumerate() { let kind = if rec && i == 0 { Kind::Fuel } else { Kind::Val }; let id = self.var(t.clone(), kind, &mut with); params.push((id, t)) }
                let ret = self.ty(2, nd);
                self.tparams = 0;
                let name = format!("fun{}", self.sigs.len());
                self.sigs.push(FunDef { name, tparams: tp, params, ret, body: E::Unit, group, transparent });
            }
            for i in base..base + m {
                let f = self.sigs[i].clone();
                self.tparams = f.tparams;
                self.callable = base;
                self.env = vec![];
                self.budget = budget;
                self.ret = if f.transparent { None } else { Some(f.ret.clone()) };
                let bs = f.params.iter().enumerate().map(|(k, (id, t))| Bind { id: *id, ty: t.clone(), kind: if rec && k == 0 { Kind::Fuel } else { Kind::Val } }).collect();
                self.push(bs);
                let body = if let Some(g) = group {
                    let fv = f.params[0].0;
                    let c = E::Op("eq", U(64), Bool, vec![E::Var(fv), E::Int(U(64), 0)]);
                    let b = self.expr(&f.ret, d.saturating_sub(1).min(2));
                    self.group = Some((g, fv));
                    self.budget = budget;
                    let s = if self.t.chance(3, 4) {
                        // works with what a call of the group returns
                        let j = base + self.n(m);
                        let a: Vec<Ty> = (0..f.tparams).map(Par).collect();
                        let c = self.call_of(j, a, d.saturating_sub(1), true).unwrap();
                        let mut with = vec![];
                        let rt = self.sigs[j].ret.clone();
                        let i = self.var(rt.clone(), Kind::Val, &mut with);
                        let saved = self.env.clone();
                        self.push(vec![Bind { id: i, ty: rt, kind: Kind::Val }]);
                        let b = self.expr(&f.ret, d.saturating_sub(1));
                        self.env = saved;
                        E::Let(vec![(i, c)], Box::new(b))
                    } else { self.expr(&f.ret, d) };
                    self.group = None;
                    E::If(Box::new(c), Box::new(b), Box::new(s))
                } else { self.expr(&f.ret, d) };
                self.sigs[i].body = body.clone();
            }
            self.tparams = 0;
            self.ret = None;
            self.env = vec![];
            k += m;
        }
        self.callable = self.sigs.len();
        self.p.funs = self.sigs.clone();
    }
}

pub fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}
