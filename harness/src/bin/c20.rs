//! C20: equality, ordering, hashing, copying and display of values of generated types; xxHash streams.
use std::cmp::Ordering as O;
use std::fmt::Write as _;
use vharness::cli::{self, Scratch};
use vharness::drv::{self, Hist};
use vharness::{fail, main_with, Case, Out, Tape};

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Int(usize), Bool, Char, Str, Text, F32, F64, Unit, Ordering,
    Option(Box<Ty>), Result(Box<Ty>, Box<Ty>), Either(Box<Ty>, Box<Ty>), Tuple(Vec<Ty>), Array(Box<Ty>), Vector(Box<Ty>), BoxT(Box<Ty>), RefT(Box<Ty>),
    Named(usize, Vec<Ty>), Var(usize), Hole(u64),
}
use Ty::*;
use std::option::Option::{None, Some};
const INTS: [&str; 8] = ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"];
const VARS: [&str; 3] = ["A", "B", "C"];

#[derive(Clone, Debug)]
enum V { Int(i128), Bool(bool), Char(char), Str(String), Flo(f64), Unit, Ord(usize), Con(usize, Vec<V>), Seq(Vec<V>), One(Box<V>), Hole }

#[derive(Clone)]
struct Decl { name: String, params: usize, form: &'static str, cons: Vec<(String, Vec<Ty>)>, default: bool, getter: Vec<bool> }

fn ty_text(t: &Ty, ds: &[Decl]) -> String {
    let g = |x: &Ty| ty_text(x, ds);
    match t {
        Int(k) => INTS[*k].into(),
        Bool => "Bool".into(), Char => "Char".into(), Str => "String".into(), Text => "Text".into(), F32 => "F32".into(), F64 => "F64".into(), Unit => "unit".into(), Ordering => "Ordering".into(),
        Option(a) => format!("(Option {})", g(a)),
        Result(a, b) => format!("(Result {} {})", g(a), g(b)),
        Either(a, b) => format!("(Either {} {})", g(a), g(b)),
        Tuple(v) => format!("(: {})", v.iter().map(|x| g(x)).collect::<Vec<_>>().join(" ")),
        Array(a) => format!("(Array {})", g(a)),
        Vector(a) => format!("(Vector {})", g(a)),
        BoxT(a) => format!("(Box {})", g(a)),
        RefT(a) => format!("(Ref {})", g(a)),
        Named(k, v) => if v.is_empty() { ds[*k].name.clone() } else { format!("({} {})", ds[*k].name, v.iter().map(|x| g(x)).collect::<Vec<_>>().join(" ")) },
        Var(k) => VARS[*k].into(),
        Hole(0) => "(Ref I32)".into(),
        Hole(1) => "(Array I32)".into(),
        Hole(_) => "(Vector I32)".into(),
    }
}

fn subst(t: &Ty, a: &[Ty]) -> Ty {
    let g = |x: &Ty| Box::new(subst(x, a));
    match t {
        Option(x) => Option(g(x)), Result(x, y) => Result(g(x), g(y)), Either(x, y) => Either(g(x), g(y)),
        Tuple(v) => Tuple(v.iter().map(|x| subst(x, a)).collect()),
        Array(x) => Array(g(x)), Vector(x) => Vector(g(x)), BoxT(x) => BoxT(g(x)), RefT(x) => RefT(g(x)),
        Named(k, v) => Named(*k, v.iter().map(|x| subst(x, a)).collect()),
        Var(k) => a[*k].clone(),
        _ => t.clone(),
    }
}

fn scalar(t: &mut Tape) -> Ty {
    match t.below(18) { 0..=6 => Int(t.below(8) as usize), 7 => Bool, 8 => Char, 9 | 10 => Str, 11 => Text, 12 => F32, 13 | 14 => F64, 15 => Unit, 16 => Ordering, _ => Int(0) }
}

fn ty(t: &mut Tape, depth: usize, params: usize, ds: &[Decl]) -> Ty {
    if params > 0 && t.chance(1, 3) { return Var(t.below(params as u64) as usize); }
    if depth == 0 || t.chance(1, 3) { return scalar(t); }
    let mut g = |t: &mut Tape| Box::new(ty(t, depth - 1, params, ds));
    match t.below(16) {
        0 | 1 => Option(g(t)),
        2 => { let a = g(t); Result(a, g(t)) }
        3 => { let a = g(t); Either(a, g(t)) }
        4 | 5 => { let n = if t.chance(1, 6) { t.range(1, 16) } else { t.range(1, 4) }; let d = if n > 4 { 0 } else { depth - 1 }; Tuple((0..n).map(|_| ty(t, d, params, ds)).collect()) }
        6 | 7 => Array(g(t)),
        8 => Vector(g(t)),
        9 => BoxT(g(t)),
        10 => RefT(g(t)),
        _ if !ds.is_empty() => {
            let k = t.below(ds.len() as u64) as usize;
            let n = ds[k].params;
            Named(k, (0..n).map(|_| ty(t, depth - 1, params, ds)).collect())
        }
        _ => Option(g(t)),
    }
}

fn has_default(t: &Ty, ds: &[Decl]) -> bool {
    match t {
        Result(..) | Either(..) => false,
        Option(_) | Vector(_) => true,
        Tuple(v) => v.iter().all(|x| has_default(x, ds)),
        Named(k, v) => ds[*k].default && v.iter().all(|x| has_default(x, ds)),
        BoxT(x) | RefT(x) => has_default(x, ds),
        _ => true,
    }
}

fn default_of(t: &Ty, ds: &[Decl]) -> V {
    match t {
        Int(_) => V::Int(0), Bool => V::Bool(false), Char => V::Char('\0'), Str | Text => V::Str(String::new()), F32 | F64 => V::Flo(0.0), Unit => V::Unit, Ordering => V::Ord(1),
        Option(_) => V::Con(0, vec![]), Array(_) | Vector(_) => V::Seq(vec![]),
        BoxT(x) | RefT(x) => V::One(Box::new(default_of(x, ds))),
        Tuple(v) => V::Con(0, v.iter().map(|x| default_of(x, ds)).collect()),
        Named(k, a) => V::Con(0, ds[*k].cons[0].1.iter().map(|x| default_of(&subst(x, a), ds)).collect()),
        _ => unreachable!(),
    }
}

fn decl(t: &mut Tape, k: usize, ds: &[Decl]) -> Decl {
    let params = t.below(3) as usize;
    let n = if t.chance(1, 4) { 1 } else if t.chance(1, 8) { t.range(5, 12) } else { t.range(1, 4) };
    let rec = t.chance(1, 3) && n > 1;
    let c_data = !rec && params == 0 && n == 1 && t.chance(1, 4);
    let plain = t.below(n as u64) as usize;
    let me = Named(k, (0..params).map(Var).collect());
    let mut cons = vec![];
    for c in 0..n {
        let m = if t.chance(1, 12) { t.range(5, 9) } else { t.below(4) as usize };
        let mut fs: Vec<Ty> = (0..m).map(|_| {
            if c_data { return Int(t.below(8) as usize); }
            if rec && c != plain && t.chance(1, 3) {
                return match t.below(4) { 0 => Option(Box::new(me.clone())), 1 => Array(Box::new(me.clone())), _ => me.clone() };
            }
            ty(t, 1, params, ds)
        }).collect();
        if c_data && fs.is_empty() { fs.push(Int(2)); }
        cons.push((format!("k{}{}", k, (b'a' + c as u8) as char), fs));
    }
    let mut d = Decl { name: format!("T{}", k), params, form: if c_data { "c-data" } else if rec || t.bool() { "data" } else { "value-data" }, cons, default: false, getter: vec![] };
    // the default value is made of the first constructor; variables ask for defaults of their arguments
    d.default = !d.cons[0].1.iter().any(|x| mentions(x, k)) && d.cons[0].1.iter().all(|x| has_default(x, ds)) && t.chance(2, 3);
    if n == 1 && !d.cons[0].1.is_empty() && t.chance(2, 3) { 
        // the macro takes at most one unnamed field
        d.getter = vec![true; d.cons[0].1.len()];
        if d.getter.len() > 1 && t.bool() { let k = t.below(d.getter.len() as u64) as usize; d.getter[k] = false; }
    }
    d
}
fn mentions(t: &Ty, k: usize) -> bool {
    match t {
        Named(j, v) => *j == k || v.iter().any(|x| mentions(x, k)),
        Option(x) | Array(x) | Vector(x) | BoxT(x) | RefT(x) => mentions(x, k),
        Result(x, y) | Either(x, y) => mentions(x, k) || mentions(y, k),
        Tuple(v) => v.iter().any(|x| mentions(x, k)),
        _ => false,
    }
}

fn int_range(k: usize) -> (i128, i128) {
    let b = 8 << (k % 4);
    if k < 4 { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) }
}

fn value(t: &mut Tape, x: &Ty, ds: &[Decl], fuel: &mut i32) -> V {
    *fuel -= 1;
    match x {
        Int(k) => { let (lo, hi) = int_range(*k); V::Int(match t.below(8) { 0 => lo, 1 => hi, 2 if *k < 4 => -1, 3 => (hi + 1) / 2, 4 => (t.bits64() as i128).rem_euclid(hi - lo + 1) + lo, n => (n as i128 - 5).max(lo) }) }
        Bool => V::Bool(t.bool()),
        Char => V::Char(*t.pick(&['a', 'b', 'Z', 'é', '日', '😀'])),
        Str | Text => { let n = t.below(4); V::Str((0..n).map(|_| *t.pick(&['a', 'b', 'é', '日', 'z'])).collect()) }
        F32 | F64 => V::Flo(*t.pick(&[0.0, -0.0, 1.0, 1.5, -1.5, 0.25, 2.0, 1000.5, -3.0])),
        Unit => V::Unit,
        Ordering => V::Ord(t.below(3) as usize),
        Option(a) => if *fuel <= 0 || t.chance(1, 3) { V::Con(0, vec![]) } else { V::Con(1, vec![value(t, a, ds, fuel)]) },
        // constructor order: err before ok, left before right
        Result(a, b) => if t.bool() { V::Con(1, vec![value(t, a, ds, fuel)]) } else { V::Con(0, vec![value(t, b, ds, fuel)]) },
        Either(a, b) => if t.bool() { V::Con(0, vec![value(t, a, ds, fuel)]) } else { V::Con(1, vec![value(t, b, ds, fuel)]) },
        Tuple(v) => V::Con(0, v.iter().map(|y| value(t, y, ds, fuel)).collect()),
        Array(a) | Vector(a) => { let n = if *fuel <= 0 { 0 } else { t.below(4) }; V::Seq((0..n).map(|_| value(t, a, ds, fuel)).collect()) }
        BoxT(a) | RefT(a) => V::One(Box::new(value(t, a, ds, fuel))),
        Named(k, a) => {
            let cs = &ds[*k].cons;
            let mut c = t.below(cs.len() as u64) as usize;
            if *fuel <= 0 { if let Some(p) = cs.iter().position(|(_, f)| !f.iter().any(|x| mentions(x, *k))) { c = p; } }
            V::Con(c, cs[c].1.iter().map(|y| value(t, &subst(y, a), ds, fuel)).collect())
        }
        Hole(_) => V::Hole,
        Var(_) => unreachable!(),
    }
}

/// Another value, near the one given: one place in it is another.
fn near(t: &mut Tape, v: &V, x: &Ty, ds: &[Decl]) -> V {
    if t.chance(1, 3) { return value(t, x, ds, &mut 12); }
    let fields: std::option::Option<Vec<Ty>> = match (v, x) {
        (V::Con(c, f), Named(k, a)) if !f.is_empty() => Some(ds[*k].cons[*c].1.iter().map(|y| subst(y, a)).collect()),
        (V::Con(_, _), Tuple(ts)) => Some(ts.clone()),
        (V::Con(1, _), Option(a)) => Some(vec![(**a).clone()]),
        (V::Con(1, _), Result(a, _)) | (V::Con(0, _), Result(_, a)) => Some(vec![(**a).clone()]),
        (V::Con(0, _), Either(a, _)) | (V::Con(1, _), Either(_, a)) => Some(vec![(**a).clone()]),
        _ => None,
    };
    match (v, x) {
        (V::Con(c, f), _) if fields.is_some() => {
            let fs = fields.unwrap();
            let k = t.below(f.len() as u64) as usize;
            let mut f = f.clone();
            f[k] = near(t, &f[k], &fs[k], ds);
            V::Con(*c, f)
        }
        (V::Seq(s), Array(a)) | (V::Seq(s), Vector(a)) if !s.is_empty() => {
            let mut s = s.clone();
            match t.below(3) {
                0 => { s.pop(); }
                1 => { let y = value(t, a, ds, &mut 8); s.push(y); }
                _ => { let k = t.below(s.len() as u64) as usize; s[k] = near(t, &s[k], a, ds); }
            }
            V::Seq(s)
        }
        (V::One(y), BoxT(a)) | (V::One(y), RefT(a)) => V::One(Box::new(near(t, y, a, ds))),
        _ => value(t, x, ds, &mut 8),
    }
}

/// The expression of a value, or its debug form, with this in the holes.
fn expr(v: &V, x: &Ty, ds: &[Decl], dbg: std::option::Option<i32>) -> String {
    let list = |n: &str, vs: &[V], ts: &[Ty]| { let mut s = format!("({}", n); for (v, x) in vs.iter().zip(ts) { s.push(' '); s += &expr(v, x, ds, dbg); } s + ")" };
    match (v, x) {
        (V::Int(n), _) => n.to_string(),
        (V::Bool(b), _) => if *b { "#t" } else { "#f" }.into(),
        (V::Char(c), _) => format!("#\\{}", c),
        (V::Str(s), Text) => format!("(text/from-string \"{}\")", s),
        (V::Str(s), _) => format!("\"{}\"", s),
        (V::Flo(f), _) => { let s = format!("{}", f); if s.contains('.') || dbg.is_some() { s } else { s + ".0" } }
        (V::Unit, _) => "unit".into(),
        (V::Ord(k), _) => ["ordering:less", "ordering:equal", "ordering:greater"][*k].into(),
        (V::Con(0, _), Option(_)) => "none".into(),
        (V::Con(_, f), Option(a)) => list("some", f, &[(**a).clone()]),
        (V::Con(0, f), Result(_, b)) => list("err", f, &[(**b).clone()]),
        (V::Con(_, f), Result(a, _)) => list("ok", f, &[(**a).clone()]),
        (V::Con(0, f), Either(a, _)) => list("left", f, &[(**a).clone()]),
        (V::Con(_, f), Either(_, b)) => list("right", f, &[(**b).clone()]),
        (V::Con(_, f), Tuple(ts)) => list(":", f, ts),
        (V::Con(c, f), Named(k, a)) => { let con = &ds[*k].cons[*c]; if f.is_empty() { con.0.clone() } else { list(&con.0, f, &con.1.iter().map(|y| subst(y, a)).collect::<Vec<_>>()) } }
        (V::Seq(s), Array(a)) => list("array", s, &vec![(**a).clone(); s.len()]),
        (V::Seq(s), Vector(a)) => list("vector", s, &vec![(**a).clone(); s.len()]),
        (V::One(y), BoxT(a)) => list("box", std::slice::from_ref(y), &[(**a).clone()]),
        (V::One(y), RefT(a)) => list("ref", std::slice::from_ref(y), &[(**a).clone()]),
        (V::Hole, Hole(k)) => match dbg { Some(n) => format!("({} {})", ["ref", "array", "vector"][*k as usize], n), None => "r".into() },
        _ => unreachable!("{:?} {:?}", v, x),
    }
}

fn cmp(a: &V, b: &V) -> O {
    match (a, b) {
        (V::Int(x), V::Int(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Char(x), V::Char(y)) => x.cmp(y),
        (V::Str(x), V::Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Flo(x), V::Flo(y)) => x.partial_cmp(y).unwrap(),
        (V::Unit, V::Unit) => O::Equal,
        (V::Ord(x), V::Ord(y)) => x.cmp(y),
        (V::Con(c, x), V::Con(d, y)) => c.cmp(d).then_with(|| cmps(x, y)),
        (V::Seq(x), V::Seq(y)) => cmps(x, y),
        (V::One(x), V::One(y)) => cmp(x, y),
        _ => unreachable!(),
    }
}
fn cmps(x: &[V], y: &[V]) -> O {
    for (a, b) in x.iter().zip(y) { let o = cmp(a, b); if o != O::Equal { return o; } }
    x.len().cmp(&y.len())
}


struct Row { what: &'static str, want: String }

/// Types whose every value holds the mark under a path of constructors of other types.
fn hole_ty(t: &mut Tape, depth: usize, kind: u64, ds: &[Decl]) -> Ty {
    if depth == 0 { return Hole(kind); }
    let i = Box::new(hole_ty(t, depth - 1, kind, ds));
    let mut other = |t: &mut Tape| Box::new(ty(t, 1, 0, ds));
    match t.below(11) {
        0 => Option(i), 1 => { let o = other(t); Result(i, o) } 2 => { let o = other(t); Either(o, i) }
        3 => { let o = *other(t); Tuple(vec![o, *i]) } 4 => { let o = *other(t); Tuple(vec![*i, o]) }
        5 => Array(i), 6 => Vector(i), 7 => BoxT(i), 8 => RefT(i),
        _ => {
            let c: Vec<usize> = (0..ds.len()).filter(|k| ds[*k].params > 0).collect();
            if c.is_empty() { return Option(i); }
            let k = *t.pick(&c);
            let p = t.below(ds[k].params as u64) as usize;
            Named(k, (0..ds[k].params).map(|j| if j == p { (*i).clone() } else { *other(t) }).collect())
        }
    }
}
fn holes(v: &V) -> usize {
    match v { V::Hole => 1, V::Con(_, f) | V::Seq(f) => f.iter().map(holes).sum(), V::One(y) => holes(y), _ => 0 }
}

fn types(t: &mut Tape, out: &mut Out) -> Case {
    let nd = t.range(1, 6);
    let mut ds: Vec<Decl> = vec![];
    for k in 0..nd { let d = decl(t, k, &ds); ds.push(d); }
    let mut src = String::from("(import \"~/laws\" _)\n(import \"std/derive\" derive)\n(import \"std/hash\" Hash hash! Hash._ derive/Hash)\n(import \"std/default\" Default default derive/Default)\n(import \"std/copy\" _)\n(import \"std/either\" _)\n(import \"std/box\" _)\n(import \"std/float\" _)\n(import \"std/integer\" _)\n");
    if ds.iter().any(|d| d.getter.iter().any(|g| *g)) { src += "(import \"llrl1/util\" getter)\n"; }
    for (k, d) in ds.iter().enumerate() {
        let head = if d.params == 0 { d.name.clone() } else { format!("({} {})", d.name, VARS[..d.params].join(" ")) };
        let _ = write!(src, "(derive (Eq Ord Hash DeepCopy DebugDisplay{}) {} {}", if d.default { " Default" } else { "" }, d.form, head);
        for (c, fs) in &d.cons {
            if fs.is_empty() { let _ = write!(src, " {}", c); } else { let _ = write!(src, " ({} {})", c, fs.iter().map(|x| ty_text(x, &ds)).collect::<Vec<_>>().join(" ")); }
        }
        src += ")\n";
        if d.getter.iter().any(|g| *g) {
            let _ = write!(src, "(getter {}{})\n", d.cons[0].0, d.getter.iter().enumerate().map(|(i, g)| if *g { format!(" g{}/{}", k, i) } else { " _".into() }).collect::<String>());
        }
    }
    let mut rows: Vec<Row> = vec![];
    let mut hashes: Vec<(usize, Vec<V>, String)> = vec![];
    let m = t.range(1, 12);
    let flags = |a: &V, b: &V| { let o = cmp(a, b); let b = |x: bool| if x { '1' } else { '0' }; format!("{}{}{}{}{}{}{}", b(o == O::Equal), b(o != O::Equal), match o { O::Less => '<', O::Equal => '=', _ => '>' }, b(o == O::Less), b(o != O::Greater), b(o == O::Greater), b(o != O::Less)) };
    for i in 0..m {
        let from = t.used();
        let x = if t.chance(2, 3) { let k = t.below(nd as u64) as usize; Named(k, (0..ds[k].params).map(|_| ty(t, 1, 0, &ds)).collect()) } else { ty(t, 3, 0, &ds) };
        let xt = ty_text(&x, &ds);
        let n = t.range(1, 9);
        let mut vs: Vec<V> = vec![];
        for _ in 0..n {
            let v = if !vs.is_empty() && t.chance(2, 3) { let w = t.pick(&vs).clone(); if t.chance(1, 5) { w } else { near(t, &w, &x, &ds) } } else { value(t, &x, &ds, &mut 14) };
            vs.push(v);
        }
        let texts: Vec<String> = vs.iter().map(|v| expr(v, &x, &ds, None)).collect();
        let _ = write!(src, "(report \"t{}\" (array {}) {{(Array {})}})\n", i, texts.join(" "), xt);
        let mut row = |what, want: String| rows.push(Row { what, want });
        row("order", format!("T t{}", i));
        for v in &vs { row("debug", format!("D {}", expr(v, &x, &ds, Some(0)))); }
        for v in &vs { row("compare", format!("R {}", vs.iter().map(|w| flags(v, w)).collect::<String>())); }
        for _ in &vs { row("hash", "H".into()); }
        hashes.push((i, vs.clone(), xt.clone()));
        for v in &vs {
            row("copy", format!("C {}", vs.iter().map(|w| flags(v, w)).collect::<String>()));
            row("copy", format!("d {}", expr(v, &x, &ds, Some(0))));
        }
        for _ in 0..t.below(4) {
            let k: Vec<usize> = (0..3).map(|_| t.below(n as u64) as usize).collect();
            let (a, b, c) = (&vs[k[0]], &vs[k[1]], &vs[k[2]]);
            let _ = write!(src, "(triple (annotate {} {}) {} {})\n", texts[k[0]], xt, texts[k[1]], texts[k[2]]);
            let (p, q) = (cmp(a, b), cmp(b, c));
            let f = |x: bool| if x { '1' } else { '0' };
            // of equal ones either is right: which one is only asked where they print the same
            let ext = |want: O| { let mut m = a; for v in [b, c] { if cmp(v, m) == want { m = v; } } m };
            let same = |m: &V| [a, b, c].iter().filter(|v| cmp(v, m) == O::Equal).all(|v| expr(v, &x, &ds, Some(0)) == expr(m, &x, &ds, Some(0)));
            let (lo, hi) = (ext(O::Less), ext(O::Greater));
            let mut w = format!("3 {}{}{}{}{}", f(p == O::Equal && cmp(a, c) == O::Equal), f(p == O::Less && q == O::Less), f(p != O::Greater && q != O::Greater), f(p == O::Greater && q == O::Greater), f(p != O::Less && q != O::Less));
            if same(lo) && same(hi) { let _ = write!(w, "{} {}", expr(lo, &x, &ds, Some(0)), expr(hi, &x, &ds, Some(0))); row("chain", w); } else { w.push('*'); row("chain", w); }
        }
        if let Named(k, a) = &x {
            let d = &ds[*k];
            let args = a.iter().all(|y| has_default(y, &ds));
            if d.default && args {
                let _ = write!(src, "(defaulted (annotate default {}))\n", xt);
                rows.push(Row { what: "default", want: format!("F {}", expr(&default_of(&x, &ds), &x, &ds, Some(0))) });
            }
            for (j, g) in d.getter.iter().enumerate() {
                if !*g { continue; }
                for (v, text) in vs.iter().zip(&texts).take(2) {
                    let V::Con(_, f) = v else { unreachable!() };
                    let _ = write!(src, "(defaulted (g{}/{} (annotate {} {})))\n", k, j, text, xt);
                    rows.push(Row { what: "getter", want: format!("F {}", expr(&f[j], &subst(&d.cons[0].1[j], a), &ds, Some(0))) });
                }
            }
        }
        let (eqs, nes) = { let (mut e, mut d) = (0, 0); for i in 0..vs.len() { for j in 0..i { if cmp(&vs[i], &vs[j]) == O::Equal { e += 1 } else { d += 1 } } } (e, d) };
        let _ = eqs;
        if nes > 0 && !matches!(x, Int(_) | Bool | Char | Str | Text | F32 | F64 | Unit | Ordering) { out.subs.push(format!("{}: {}", xt, texts.join(" "))); }
        out.evals += (vs.len() * vs.len()) as u64;
        out.spans.push((from, t.used()));
    }
    // what is changed inside a copy or its original stays there
    for _ in 0..t.below(4) {
        let kind = t.below(3);
        let d = t.range(1, 4);
        let x = hole_ty(t, d, kind, &ds);
        let v = value(t, &x, &ds, &mut 10);
        if holes(&v) == 0 { continue; }
        let xt = ty_text(&x, &ds);
        let (mk, set) = [("(ref 5)", "(set! r 6)"), ("(array 5)", "(set! r[0] 6)"), ("(vector 5)", "(set! r[0] 6)")][kind as usize];
        let _ = write!(src, "(let* ([r (annotate {} {})] [x (annotate {} {})] [y (deep-copy x)]) {} (defaulted x) (defaulted y))\n", mk, ty_text(&Hole(kind), &ds), expr(&v, &x, &ds, None), xt, set);
        for n in [6, 5] { rows.push(Row { what: "copy-apart", want: format!("F {}", expr(&v, &x, &ds, Some(n))) }); }
        out.subs.push(format!("apart {} {}", xt, expr(&v, &x, &ds, None)));
        out.evals += 1;
        out.classes.push("copy-apart");
    }
    out.desc = src.clone();
    for d in &ds {
        out.classes.push(d.form);
        if d.cons.iter().any(|c| c.1.iter().any(|x| mentions(x, ds.iter().position(|e| e.name == d.name).unwrap()))) { out.classes.push("recursive"); }
        if d.params > 0 { out.classes.push("generic"); }
        if d.cons.len() == 1 { out.classes.push("one-constructor"); }
        if d.default { out.classes.push("default"); }
        if d.getter.iter().any(|g| *g) { out.classes.push("getter"); }
    }
    let s = Scratch::new();
    s.write("cur/main.llrl", src.as_bytes());
    s.write("cur/laws.llrl", include_bytes!("../../../drivers/laws.llrl"));
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let r = cli::compile(&s, &cli::Job { compiler: &cli::compiler("LLRL0").unwrap(), flags: vec!["-b".into(), "chibi".into(), "-p".into(), format!("llrl1:{}/llrl1", repo)], entries: vec!["main".into()] }, "p");
    if r.code != 0 || !s.0.join("p").exists() { return fail("rejected", format!("the program is not compiled ({}): {}\n{}", cli::how(&r), r.both(), src)); }
    let r = cli::exec(&s, "p", b"", &[]);
    let got = r.text();
    let lines: Vec<&str> = got.lines().collect();
    let mut hs = vec![];
    for (k, row) in rows.iter().enumerate() {
        let g = match lines.get(k) { Some(g) => *g, None => return fail("stopped", format!("{} after {} lines, expected `{}`: {}\n{}", cli::how(&r), k, row.want, String::from_utf8_lossy(&r.err), src)) };
        if row.what == "hash" { hs.push(g); continue; }
        let ok = if let Some(p) = row.want.strip_suffix('*') { g.starts_with(p) } else { g == row.want };
        if !ok { return fail(row.what, format!("line {}: expected `{}` but got `{}`\n{}", k + 1, row.want, g, src)); }
    }
    if r.code != 0 { return fail("exit", format!("{}\n{}", cli::how(&r), src)); }
    let mut at = 0;
    for (i, vs, xt) in &hashes {
        let h = &hs[at..at + vs.len()];
        at += vs.len();
        for a in 0..vs.len() { for b in 0..a {
            if cmp(&vs[a], &vs[b]) == O::Equal && h[a] != h[b] { return fail("equal-hash", format!("values {} and {} of t{}, of type {}, are equal but their hashes are {} and {}\n{}", a, b, i, xt, h[a], h[b], src)); }
        } }
    }
    Ok(())
}

// ------------------------------------------------------------------ xxHash, 64 bits, after its specification

const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;

fn xxh64(seed: u64, d: &[u8]) -> u64 {
    let le = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let round = |acc: u64, lane: u64| acc.wrapping_add(lane.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let stripes = d.chunks_exact(32);
    let mut rest = stripes.remainder();
    let mut acc;
    if d.len() >= 32 {
        let mut a = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
        for s in stripes { for i in 0..4 { a[i] = round(a[i], le(&s[i * 8..i * 8 + 8])); } }
        acc = a[0].rotate_left(1).wrapping_add(a[1].rotate_left(7)).wrapping_add(a[2].rotate_left(12)).wrapping_add(a[3].rotate_left(18));
        for x in a { acc = (acc ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4); }
    } else {
        acc = seed.wrapping_add(P5);
    }
    acc = acc.wrapping_add(d.len() as u64);
    while rest.len() >= 8 { acc = (acc ^ round(0, le(&rest[..8]))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4); rest = &rest[8..]; }
    if rest.len() >= 4 { acc = (acc ^ le(&rest[..4]).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3); rest = &rest[4..]; }
    for b in rest { acc = (acc ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1); }
    acc = (acc ^ acc >> 33).wrapping_mul(P2);
    acc = (acc ^ acc >> 29).wrapping_mul(P3);
    acc ^ acc >> 32
}

fn stream(t: &mut Tape) -> Hist {
    let mut h = Hist::default();
    let mut st: Vec<(u64, Vec<u8>)> = vec![(0, vec![]); 3];
    let ok = || "ok".to_string();
    let mut writes = 0;
    for k in 0..3u64 { let s = t.edgy64(); st[k as usize].0 = s; h.op("new", &[1, k, s], format!("h{} := with-seed {}", k, s), ok()); }
    let mean = *t.pick(&[3, 8, 25]);
    while t.more(mean) {
        let k = t.below(3) as usize;
        match t.below(9) {
            0 => { let s = t.edgy64(); st[k] = (s, vec![]); h.op("new", &[1, k as u64, s], format!("h{} := with-seed {}", k, s), ok()); }
            1 => { st[k].1.clear(); h.op("reset", &[4, k as u64], format!("reset h{}", k), ok()); }
            2 => { let j = t.below(3) as usize; st[k] = st[j].clone(); h.op("copy", &[5, k as u64, j as u64], format!("h{} := deep-copy h{}", k, j), ok()); }
            3 => { h.op("finish", &[3, k as u64], format!("finish h{}", k), xxh64(st[k].0, &st[k].1).to_string()); }
            _ => {
                let n = match t.below(6) { 0 => t.below(3), 1 => t.range(30, 34) as u64, 2 => t.range(0, 100) as u64, 3 => 4 * t.below(9), _ => t.range(0, 12) as u64 } as usize;
                let skip = t.below(9).min(3) as usize;
                let full: Vec<u8> = (0..n + skip).map(|_| match t.below(4) { 0 => 0xff, 1 => 0, _ => t.below(256) as u8 }).collect();
                let mut tk = vec![2, k as u64, skip as u64, full.len() as u64];
                tk.extend(full.iter().map(|x| *x as u64));
                h.op("write", &tk, format!("write {:?} to h{}", &full[skip..], k), ok());
                st[k].1.extend(&full[skip..]);
                writes += 1;
            }
        }
    }
    for k in 0..3usize { h.op("finish", &[3, k as u64], format!("finish h{}", k), xxh64(st[k].0, &st[k].1).to_string()); }
    h.toks.push(0);
    h.nontrivial = writes >= 2;
    h
}

fn streams(t: &mut Tape, out: &mut Out) -> Case {
    let mut hs = vec![];
    for _ in 0..t.range(1, 100) {
        let from = t.used();
        hs.push(stream(t));
        out.spans.push((from, t.used()));
    }
    out.classes.push("xxhash-histories");
    drv::judge(&drv::exe(), &hs, out)
}

fn main() {
    if std::env::var("VH_PART").as_deref() == Ok("xx") { main_with("c20", &streams) } else { main_with("c20", &types) }
}
