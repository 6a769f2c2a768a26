//! C22: what macros receive, build and return, captured definitions, generated symbols, and errors of macros.
use std::collections::HashSet;
use std::fmt::Write as _;
use vharness::cli::{self, Scratch};
use vharness::sx::*;
use vharness::{fail, main_with, Case, Out, Tape};

const LIB: &str = r#"(import "std/memory" reinterpret)
(import "std/float" _)
(import "std/s" s/reverse)
(export _)
(function (dump s) {(-> (Syntax Sexp) String)}
  (match s
    [(s:integer #t (let v)) (string "i" (conv-to I64 v))]
    [(s:integer #f (let v)) (string "i" v)]
    [(s:fpnumber (let v)) (if (= v v) (string "f" (reinterpret v) {U64}) "fnan")]
    [(s:bool (let v)) (if v "T" "N")]
    [(s:symbol (let v)) (string "y" v)]
    [(s:string (let v)) (string "s" (codes v))]
    [(s:char (let v)) (string "c" (reinterpret v) {U32})]
    [(s:nil) "()"]
    [(s:cons (let a) (let b)) (string "(" (dump a) (dump-tail b) ")")]
    [_ "u"]))
(function (codes s) {(-> String String)}
  (let1 r (ref "")
    (for (let c) (string/chars s) (set! r (string ~r (reinterpret c) {U32} ",")))
    ~r))
(function (dump-tail s) {(-> (Syntax Sexp) String)}
  (match s
    [(s:nil) ""]
    [(s:cons (let a) (let b)) (string " " (dump a) (dump-tail b))]
    [_ (string " . " (dump s))]))
(function (dump-result r) {(-> (Result (Syntax Sexp) String) String)}
  (match r [(ok (let s)) (dump s)] [(err (let e)) (string "error " e)]))
(function (wmix a b) {(-> U64 U64 U64)} (% (+ (* a 31) (* b 7) 1) 1000003))
(function (pass s) {(-> (Syntax Sexp) (Syntax Sexp))} s)
(function (copy s) {(-> (Syntax Sexp) (Syntax Sexp))}
  (match s
    [(s:integer (let b) (let v)) (s:integer b v)]
    [(s:fpnumber (let v)) (s:fpnumber v)]
    [(s:bool (let v)) (s:bool v)]
    [(s:symbol (let v)) (s:symbol (string v))]
    [(s:string (let v)) (s:string (string v))]
    [(s:char (let v)) (s:char v)]
    [(s:nil) (s:nil)]
    [(s:cons (let a) (let b)) (s:cons (copy a) (copy b))]
    [_ s]))
(macro (show s) (ok (s:string (dump s))))
(macro (same s) (s/match s [(_ ,x) (ok `(quote ,x))] [_ (err "same")]))
(macro (copied s) (s/match s [(_ ,x) (ok (s:list 'quote (copy x)))] [_ (err "copied")]))
(macro (eval s) (s/match s [(_ ,x) (ok x)] [_ (err "eval")]))
(macro (part s) (s/match s [(_ . ,x) (ok x)] [_ (err "part")]))
(macro (first s) (s/match s [(_ ,x ,y) (ok x)] [_ (err "first")]))
(macro (shows s) (s/match s [(_ ,@x) (ok `(string ,(s:string (dump x)) "/" (dump (quote ,x))))] [_ (err "shows")]))
(macro (gs s) (ok `(quote ,(s:list (gensym) (gensym) (gensym)))))
(function (sym-text s) {(-> (Syntax Sexp) String)} (match s [(s:symbol (let x)) x] [_ "?"]))
(function (distinct n) {(-> U64 String)}
  (let ([g (sym-text (gensym))] [k (ref n)] [r (ref "distinct")])
    (while (< 0 ~k)
      (when (= (sym-text (gensym)) g) (set! r "repeated"))
      (set! k (- ~k 1)))
    ~r))
(macro (gs-many s) (s/match s [(_ ,(s:integer _ (let n))) (ok (s:string (distinct n)))] [_ (err "gs-many")]))
(macro (bad s) (err (string "oops " (dump s))))
(macro (spliced s) (s/match s [(_ ,x) (ok `(quote (1 ,@x 2)))] [_ (err "spliced")]))
(macro (reversed s) (s/match s [(_ ,x) (ok `(quote ,(s/reverse x)!))] [_ (err "reversed")]))
(function (odd-number? b n) {(-> Bool U64 Bool)} (if (= n 0) b (odd-number? (not b) (- n 1))))
"#;

fn txt(t: &mut Tape, n: &Node) -> String {
    let sugar = t.chance(3, 4);
    let mut r = Render { o: String::new(), t, sugar };
    r.form(n);
    r.o
}
fn plain(n: &Node) -> String {
    let mut t = Tape::replay(vec![]);
    let mut r = Render { o: String::new(), t: &mut t, sugar: false };
    r.form(n);
    r.o
}
fn dump(n: &Node) -> String { let mut o = String::new(); canon(n, &mut o); o }
/// Without the symbols that the preprocessor takes for its variables
fn no_meta(n: Node) -> Node {
    Node::new(match n.sx {
        Sx::Sym(s) if s.starts_with('$') => Sx::Sym(format!("d{}", s)),
        Sx::List(v, t) => Sx::List(v.into_iter().map(no_meta).collect(), t.map(|t| Box::new(no_meta(*t)))),
        s => s,
    })
}
fn tr(t: &mut Tape, d: u32) -> Node { no_meta(gen_tree(t, d)) }
fn at(t: &mut Tape) -> Node { no_meta(Node::new(gen_atom(t))) }
/// Numbers by value only: the text of a float may be that of an integer
fn by_value(n: &Node) -> Node {
    Node::new(match &n.sx {
        Sx::Fp(f) if *f == f.trunc() && *f >= 0.0 && *f < 18446744073709551616.0 => Sx::Int(false, *f as u64),
        Sx::Fp(f) if *f == f.trunc() && *f < 0.0 && *f >= -9223372036854775808.0 => Sx::Int(true, *f as i64 as u64),
        Sx::List(v, t) => Sx::List(v.iter().map(by_value).collect(), t.as_ref().map(|t| Box::new(by_value(t)))),
        s => s.clone(),
    })
}
fn tree(t: &mut Tape, d: u32) -> Node {
    match t.below(30) {
        0 => list((0..t.range(30, 200)).map(|_| at(t)).collect()),
        1 => { let mut n = at(t); for _ in 0..t.range(10, 60) { n = if t.bool() { list(vec![n]) } else { let h = tr(t, 1); Node::new(append(vec![h], n)) } } n }
        _ => tr(t, d),
    }
}
fn size(n: &Node) -> usize { match &n.sx { Sx::List(v, t) => 1 + v.iter().map(size).sum::<usize>() + t.as_ref().map_or(0, |t| size(t)), _ => 1 } }
fn proper(n: &Node) -> Option<&[Node]> { match &n.sx { Sx::List(v, None) => Some(v), _ => None } }
fn nil() -> Node { list(vec![]) }

/// An expression that builds the tree
fn build(t: &mut Tape, n: &Node) -> String {
    if t.chance(1, 4) { return format!("'{}", plain(n)); }
    match &n.sx {
        Sx::Int(s, v) => format!("(s:integer #{} {})", if *s { "t" } else { "f" }, v),
        Sx::Fp(f) if f.is_finite() => format!("(s:fpnumber {:?})", f),
        Sx::Fp(_) => format!("'{}", plain(n)),
        Sx::Bool(b) => format!("(s:bool #{})", if *b { "t" } else { "f" }),
        Sx::Sym(s) => format!("(s:symbol \"{}\")", s),
        Sx::Str(_) => format!("(s:string {})", plain(n)),
        Sx::Char(_) => format!("(s:char {})", plain(n)),
        Sx::List(v, None) if v.is_empty() => "(s:nil)".into(),
        Sx::List(v, None) if v.len() < 6 && t.bool() => format!("(s:list{})", v.iter().map(|x| format!(" {}", build(t, x))).collect::<String>()),
        Sx::List(v, tl) => {
            let mut e = tl.as_ref().map_or("(s:nil)".to_string(), |x| build(t, x));
            for x in v.iter().rev() { e = format!("(s:cons {} {})", build(t, x), e); }
            e
        }
    }
}

// ------------------------------------------------------------------ templates

/// A template as it is written, and the tree it denotes
fn clean(n: &Node) -> Node {
    match &n.sx {
        Sx::Sym(s) if ["unquote", "unquote-splicing", "quasiquote"].contains(&s.as_str()) => sym("unq"),
        Sx::List(v, t) => Node::new(Sx::List(v.iter().map(clean).collect(), t.as_ref().map(|t| Box::new(clean(t))))),
        s => Node::new(s.clone()),
    }
}

struct Holes<'a> { vars: &'a [(String, Node)], n: usize }

/// (as written, value), where the value is none when a splice in the middle is not a proper list
fn template(t: &mut Tape, h: &mut Holes, d: u32) -> (Node, Option<Node>) {
    let hole = |t: &mut Tape, h: &mut Holes| -> (Node, Node) {
        h.n += 1;
        let (v, x) = t.pick(h.vars).clone();
        match t.below(6) {
            0 => (list(vec![sym("pass"), sym(&v)]), x),
            1 => { let a = at(t); (list(vec![sym("quote"), a.clone()]), a) }
            2 => (list(vec![sym("s:cons"), sym(&v), list(vec![sym("s:nil")])]), list(vec![x])),
            _ => (sym(&v), x),
        }
    };
    if d == 0 || t.chance(1, 4) {
        if t.bool() { let (e, x) = hole(t, h); return (list(vec![sym("unquote"), e]), Some(x)); }
        let x = clean(&tr(t, 1));
        return (x.clone(), Some(x));
    }
    let n = t.range(1, 5);
    let mut w = vec![];
    let mut items: Vec<(bool, Option<Node>)> = vec![];
    for _ in 0..n {
        if t.chance(1, 3) {
            let (e, x) = hole(t, h);
            w.push(list(vec![sym("unquote-splicing"), e]));
            items.push((true, Some(x)));
        } else {
            let (e, x) = template(t, h, d - 1);
            w.push(e);
            items.push((false, x));
        }
    }
    let (mut tw, mut v) = (nil(), Some(nil()));
    if t.chance(1, 4) {
        if t.bool() { let (e, x) = hole(t, h); tw = list(vec![sym("unquote"), e]); v = Some(x); } else { let (e, x) = template(t, h, d - 1); tw = e; v = x; }
    }
    let none_after = tw == nil();
    for (i, (splice, x)) in items.iter().enumerate().rev() {
        v = match (splice, x, v) {
            (false, Some(x), Some(v)) => Some(Node::new(append(vec![x.clone()], v))),
            (true, Some(x), Some(_)) if none_after && i + 1 == items.len() => Some(x.clone()),
            (true, Some(x), Some(v)) => proper(x).map(|p| if p.is_empty() { v.clone() } else { Node::new(append(p.to_vec(), v.clone())) }),
            _ => None,
        };
    }
    // a list that ends in `. (unquote x)` is the same as `. ,x`
    (Node::new(append(w, tw)), v)
}

// ------------------------------------------------------------------ patterns

struct Pats { n: usize }
fn lit_ok(s: &Sx) -> bool { match s { Sx::Sym(s) => s != "_" && !["unquote", "unquote-splicing"].contains(&s.as_str()), Sx::Fp(f) => f.is_finite(), Sx::List(..) => false, _ => true } }
/// A pattern that matches the tree: as written; and its variables
fn pattern(t: &mut Tape, x: &Node, p: &mut Pats, binds: &mut Vec<(String, Node)>) -> Node {
    let mut var = |p: &mut Pats, x: &Node, binds: &mut Vec<(String, Node)>| { p.n += 1; let n = format!("p{}", p.n); binds.push((n.clone(), x.clone())); sym(&n) };
    match t.below(10) {
        0 => return sym("_"),
        1 => return list(vec![sym("unquote"), var(p, x, binds)]),
        2 => {
            let k = match &x.sx { Sx::Int(..) => "(s:integer _ _)", Sx::Fp(_) => "(s:fpnumber _)", Sx::Bool(_) => "(s:bool _)", Sx::Sym(_) => "(s:symbol _)", Sx::Str(_) => "(s:string _)", Sx::Char(_) => "(s:char _)", Sx::List(v, _) => if v.is_empty() { "(s:nil)" } else { "(s:cons _ _)" } };
            let inner = ref_parse(k).ok().unwrap().remove(0);
            let v = if t.bool() { list(vec![sym("let"), var(p, x, binds), inner]) } else { inner };
            return list(vec![sym("unquote"), v]);
        }
        _ => {}
    }
    match &x.sx {
        Sx::List(v, tl) if !v.is_empty() => {
            let k = if t.chance(1, 3) { t.range(1, v.len()) } else { v.len() };
            let mut w: Vec<Node> = v[..k].iter().map(|x| pattern(t, x, p, binds)).collect();
            let rest = if k == v.len() { tl.as_ref().map_or(nil(), |b| (**b).clone()) } else { Node::new(Sx::List(v[k..].to_vec(), tl.clone())) };
            if k < v.len() || t.chance(1, 6) {
                match t.below(3) {
                    0 => { w.push(list(vec![sym("unquote-splicing"), var(p, &rest, binds)])); return list(w); }
                    1 => return Node::new(append(w, list(vec![sym("unquote"), var(p, &rest, binds)]))),
                    _ => return Node::new(append(w, sym("_"))),
                }
            }
            let tail = if rest == nil() { nil() } else { pattern(t, &rest, p, binds) };
            Node::new(append(w, tail))
        }
        Sx::List(..) => nil(),
        s if lit_ok(s) => Node::new(s.clone()),
        _ => sym("_"),
    }
}

/// Whether the pattern matches, by the meaning of patterns alone
fn matches(p: &Node, x: &Node, b: &mut Vec<(String, Node)>) -> bool {
    if let Some([h, a]) = proper(p) {
        if h.sx == Sx::Sym("unquote".into()) { return raw(a, x, b); }
    }
    if let Some([a]) = proper(p) {
        if let Some([h, a]) = proper(a) { if h.sx == Sx::Sym("unquote-splicing".into()) { return raw(a, x, b); } }
    }
    match (&p.sx, &x.sx) {
        (Sx::Sym(s), _) if s == "_" => true,
        (Sx::List(pv, pt), Sx::List(xv, xt)) => {
            if pv.is_empty() || xv.is_empty() { return pv.is_empty() && xv.is_empty(); }
            let rest = |v: &Vec<Node>, t: &Option<Box<Node>>| if v.len() > 1 { Node::new(Sx::List(v[1..].to_vec(), t.clone())) } else { t.as_ref().map_or(nil(), |t| (**t).clone()) };
            matches(&pv[0], &xv[0], b) && matches(&rest(pv, pt), &rest(xv, xt), b)
        }
        (Sx::Fp(a), Sx::Fp(b)) => a == b,
        (Sx::List(..), _) | (_, Sx::List(..)) => false,
        (a, b) => a == b,
    }
}
fn raw(p: &Node, x: &Node, b: &mut Vec<(String, Node)>) -> bool {
    match &p.sx {
        Sx::Sym(s) => { b.push((s.clone(), x.clone())); true }
        Sx::List(v, _) => match &v[0].sx {
            Sx::Sym(s) if s == "let" => { let Sx::Sym(n) = &v[1].sx else { return false }; b.push((n.clone(), x.clone())); raw(&v[2], x, b) }
            Sx::Sym(s) => match (s.as_str(), &x.sx) { ("s:integer", Sx::Int(..)) | ("s:fpnumber", Sx::Fp(_)) | ("s:bool", Sx::Bool(_)) | ("s:symbol", Sx::Sym(_)) | ("s:string", Sx::Str(_)) | ("s:char", Sx::Char(_)) => true, ("s:nil", Sx::List(v, _)) => v.is_empty(), ("s:cons", Sx::List(v, _)) => !v.is_empty(), _ => false },
            _ => false,
        },
        _ => false,
    }
}
/// Patterns as constructors, to know which clauses the compiler refuses as useless
#[derive(Clone)]
enum Pt { W, C(String, Vec<Pt>) }
fn pt(p: &Node) -> Pt {
    let c = |k: &str, v: Vec<Pt>| Pt::C(k.into(), v);
    if let Some([h, a]) = proper(p) { if h.sx == Sx::Sym("unquote".into()) { return rawpt(a); } }
    if let Some([a]) = proper(p) { if let Some([h, a]) = proper(a) { if h.sx == Sx::Sym("unquote-splicing".into()) { return rawpt(a); } } }
    match &p.sx {
        Sx::Sym(s) if s == "_" => Pt::W,
        Sx::Int(s, v) => c("int", vec![c(if *s { "true" } else { "false" }, vec![]), c(&format!("={}", v), vec![])]),
        Sx::Bool(b) => c("bool", vec![c(if *b { "true" } else { "false" }, vec![])]),
        Sx::Fp(f) => c("fp", vec![c(&format!("={:?}", f + 0.0), vec![])]),
        Sx::Sym(s) => c("sym", vec![c(&format!("={}", s), vec![])]),
        Sx::Str(s) => c("str", vec![c(&format!("={}", s), vec![])]),
        Sx::Char(s) => c("char", vec![c(&format!("={}", s), vec![])]),
        Sx::List(v, _) if v.is_empty() => c("nil", vec![]),
        Sx::List(v, t) => { let rest = if v.len() > 1 { Node::new(Sx::List(v[1..].to_vec(), t.clone())) } else { t.as_ref().map_or(nil(), |t| (**t).clone()) }; c("cons", vec![pt(&v[0]), pt(&rest)]) }
    }
}
fn rawpt(p: &Node) -> Pt {
    match &p.sx {
        Sx::List(v, _) => match &v[0].sx {
            Sx::Sym(s) if s == "let" => rawpt(&v[2]),
            Sx::Sym(s) => { let k = match s.as_str() { "s:integer" => "int", "s:fpnumber" => "fp", "s:bool" => "bool", "s:symbol" => "sym", "s:string" => "str", "s:char" => "char", "s:nil" => "nil", _ => "cons" }; Pt::C(k.into(), vec![Pt::W; v.len() - 1]) }
            _ => Pt::W,
        },
        _ => Pt::W,
    }
}
fn useful(rows: &[Vec<Pt>], q: &[Pt]) -> bool {
    let Some(h) = q.first() else { return rows.is_empty() };
    let special = |k: &str, n: usize| -> Vec<Vec<Pt>> { rows.iter().filter_map(|r| match &r[0] { Pt::W => { let mut v = vec![Pt::W; n]; v.extend_from_slice(&r[1..]); Some(v) } Pt::C(c, a) if c == k => { let mut v = a.clone(); v.extend_from_slice(&r[1..]); Some(v) } _ => None }).collect() };
    match h {
        Pt::C(k, a) => { let mut v = a.clone(); v.extend_from_slice(&q[1..]); useful(&special(k, a.len()), &v) }
        Pt::W => {
            let mut heads: Vec<(String, usize)> = rows.iter().filter_map(|r| match &r[0] { Pt::C(k, a) => Some((k.clone(), a.len())), _ => None }).collect();
            heads.sort();
            heads.dedup();
            let full: &[(&str, usize)] = match heads.first() { Some((k, _)) if k.starts_with('=') => &[], Some((k, 0)) if k == "true" || k == "false" => &[("true", 0), ("false", 0)], Some(_) => &[("int", 2), ("fp", 1), ("bool", 1), ("sym", 1), ("str", 1), ("char", 1), ("nil", 0), ("cons", 2), ("use", 1)], None => &[] };
            if !full.is_empty() && heads.len() == full.len() {
                return full.iter().any(|(k, n)| { let mut v = vec![Pt::W; *n]; v.extend_from_slice(&q[1..]); useful(&special(k, *n), &v) });
            }
            let d: Vec<Vec<Pt>> = rows.iter().filter(|r| matches!(r[0], Pt::W)).map(|r| r[1..].to_vec()).collect();
            useful(&d, &q[1..])
        }
    }
}

fn near(t: &mut Tape, x: &Node) -> Node {
    match &x.sx {
        Sx::List(v, tl) if !v.is_empty() => {
            let mut v = v.clone();
            let mut tl = tl.clone();
            let k = t.below(v.len() as u64) as usize;
            match t.below(5) {
                0 => { v.remove(k); if v.is_empty() { tl = None; } }
                1 => v.insert(k, tr(t, 1)),
                2 => { tl = if tl.is_some() { None } else { Some(Box::new(at(t))) }; }
                _ => v[k] = near(t, &v[k]),
            }
            Node::new(Sx::List(v, tl))
        }
        Sx::Int(s, v) if t.bool() => Node::new(Sx::Int(*s, if *s { *v | 1 << 63 } else { v.wrapping_add(1) })),
        Sx::Str(s) if t.bool() => Node::new(if t.bool() { Sx::Str(format!("{}x", s)) } else { Sx::Sym("x".into()) }),
        _ => tr(t, 1),
    }
}

// ------------------------------------------------------------------ captured definitions

const FUNS: [&str; 4] = ["foo", "bar", "baz", "qux"];
const VARS: [&str; 5] = ["x", "y", "tmp", "p", "foo"];

#[derive(Clone, Debug)]
enum Tm { Num(u64), Arg(usize), Var(String), Gs(usize), Cap(usize, String, Box<Tm>), Raw(String, Box<Tm>), CapMac(usize, usize, Vec<Tm>), RawMac(usize, Vec<Tm>), Let(std::result::Result<usize, String>, Box<Tm>, Box<Tm>), Mix(Box<Tm>, Box<Tm>), Pair(Box<Tm>, Box<Tm>) }
#[derive(Clone, Debug)]
enum Ex { Num(u64), Var(String), App(String, Box<Ex>), Def(usize, String, Box<Ex>), Mac(usize, usize, Vec<Ex>), Let(String, Box<Ex>, Box<Ex>), LetF(String, String, Box<Ex>, Box<Ex>), Mix(Box<Ex>, Box<Ex>) }

struct Mac { arity: usize, gensyms: usize, body: Tm }
/// Modules 0 and 2 define macros of the same names mm..; module 1 imports 0; the main module (3) imports 1 and 2
struct World { consts: [[Option<u64>; 4]; 4], /// where module m's name k comes from
    from: [[Option<usize>; 4]; 4], macs: [Vec<Mac>; 3], class: bool, fresh: usize }

fn wmix(a: u64, b: u64) -> u64 { (a * 31 + b * 7 + 1) % 1000003 }

impl World {
    fn new(t: &mut Tape) -> World {
        let mut w = World { consts: [[None; 4]; 4], from: [[None; 4]; 4], macs: [vec![], vec![], vec![]], class: t.chance(1, 3), fresh: 0 };
        for m in 0..4 {
            for k in 0..4 {
                if m == 0 || t.chance(2, 3) { w.consts[m][k] = Some((m * 10000 + k * 100) as u64 + t.below(90) + 1); w.from[m][k] = Some(m); }
                else if m == 1 { w.from[m][k] = Some(0); }
                else if m == 3 { let s = t.below(3) as usize; w.from[m][k] = if w.consts[s][k].is_some() { Some(s) } else { None }; }
            }
        }
        for m in 0..3 {
            for _ in 0..t.range(1, 3) {
                let arity = t.range(0, 3);
                let gensyms = t.range(0, 2);
                let k = w.macs[m].len();
                let body = w.tm(t, m, k, arity, gensyms, 4, &mut vec![]);
                w.macs[m].push(Mac { arity, gensyms, body });
            }
        }
        w
    }
    fn name(m: usize, k: usize) -> String { format!("{}{}", if m == 1 { "nn" } else { "mm" }, k) }
    fn tm(&self, t: &mut Tape, m: usize, k: usize, arity: usize, gensyms: usize, d: u32, gs: &mut Vec<usize>) -> Tm {
        let sub = |t: &mut Tape, gs: &mut Vec<usize>| Box::new(self.tm(t, m, k, arity, gensyms, d - 1, gs));
        if d == 0 { return match t.below(5) { 0 => Tm::Num(t.below(100)), 1 if !gs.is_empty() => Tm::Gs(*t.pick(gs)), 2 if t.chance(1, 4) => Tm::Var(t.pick(&VARS).to_string()), _ if arity > 0 => Tm::Arg(t.below(arity as u64) as usize), _ => Tm::Num(t.below(100)) }; }
        match t.below(14) {
            0 => Tm::Num(t.below(1000)),
            1 | 2 if arity > 0 => Tm::Arg(t.below(arity as u64) as usize),
            3..=5 => { let n = t.below(4) as usize; match self.from[m][n] { Some(s) => Tm::Cap(s, FUNS[n].into(), sub(t, gs)), None => Tm::Raw(FUNS[n].into(), sub(t, gs)) } }
            6 => Tm::Raw(t.pick(&FUNS).to_string(), sub(t, gs)),
            7 if m == 1 => { let n = t.below(self.macs[0].len() as u64) as usize; let a = (0..self.macs[0][n].arity).map(|_| *sub(t, gs)).collect(); Tm::CapMac(0, n, a) }
            // a name that the main module takes from module 2, where the arity may differ: settled when it is printed
            8 if m == 1 => Tm::RawMac(t.below(2) as usize, (0..3).map(|_| *sub(t, gs)).collect()),
            7 | 8 | 9 if gensyms > 0 => { let e = sub(t, gs); let g = t.below(gensyms as u64) as usize; gs.push(g); let b = sub(t, gs); gs.pop(); Tm::Let(Ok(g), e, b) }
            10 => { let e = sub(t, gs); Tm::Let(Err(t.pick(&VARS).to_string()), e, sub(t, gs)) }
            11 if m < 2 => Tm::Pair(sub(t, gs), sub(t, gs)),
            _ => Tm::Mix(sub(t, gs), sub(t, gs)),
        }
    }
    fn raw_mac(&self, k: usize) -> (usize, usize) { let k = k % self.macs[2].len(); (k, self.macs[2][k].arity) }
    fn print_tm(&self, x: &Tm) -> String {
        match x {
            Tm::Num(n) => n.to_string(), Tm::Arg(i) => format!(",a{}", i), Tm::Gs(i) => format!(",g{}", i), Tm::Var(v) => v.clone(),
            // (it may be a method: literals alone do not say which type is meant)
            Tm::Cap(_, n, a) if n == "qux" => format!("(,\\{} (annotate {} U64))", n, self.print_tm(a)),
            Tm::Raw(n, a) if n == "qux" => format!("({} (annotate {} U64))", n, self.print_tm(a)),
            Tm::Cap(_, n, a) => format!("(,\\{} {})", n, self.print_tm(a)),
            Tm::Raw(n, a) => format!("({} {})", n, self.print_tm(a)),
            Tm::CapMac(m, k, a) => format!("(,\\{}{})", World::name(*m, *k), a.iter().map(|a| format!(" {}", self.print_tm(a))).collect::<String>()),
            Tm::RawMac(k, a) => { let (k, n) = self.raw_mac(*k); format!("({}{})", World::name(2, k), a[..n].iter().map(|a| format!(" {}", self.print_tm(a))).collect::<String>()) }
            Tm::Let(n, e, b) => format!("(let ([{} {}]) {})", match n { Ok(g) => format!(",g{}", g), Err(n) => n.clone() }, self.print_tm(e), self.print_tm(b)),
            Tm::Mix(a, b) => format!("(,\\wmix {} {})", self.print_tm(a), self.print_tm(b)),
            Tm::Pair(a, b) => format!("(match (,\\con: {} {}) {{,\\Con}} [(,\\con: (let ,h0) (let ,h1)) (,\\wmix ,h0 ,h1)])", self.print_tm(a), self.print_tm(b)),
        }
    }
    fn module(&self, m: usize) -> String {
        let mut s = String::from("(import \"~/lib\" _)\n(export _)\n");
        if m == 1 { let _ = writeln!(s, "(import \"~/wa\" mm_ con: Con Qux.U64{})", (0..4).filter(|k| self.from[1][*k] == Some(0)).map(|k| format!(" {}", FUNS[k])).collect::<String>()); }
        if m == 0 { s += "(value-data Con (con: U64 U64))\n"; }
        if m == 2 { s += "(value-data Con (con: String))\n"; }
        s += &self.funs(m);
        for (k, c) in self.macs.get(m).unwrap_or(&vec![]).iter().enumerate() {
            let gs: String = (0..c.gensyms).map(|i| format!("[g{} (gensym)] ", i)).collect();
            let _ = writeln!(s, "(macro ({} s)\n  (s/match s\n    [(_{})\n      (let ({}[h0 (gensym)] [h1 (gensym)]) (ok `{}))]\n    [_ (err \"{0}\")]))", World::name(m, k), (0..c.arity).map(|i| format!(" ,a{}", i)).collect::<String>(), gs, self.print_tm(&c.body));
        }
        s
    }
    fn funs(&self, m: usize) -> String {
        let mut s = String::new();
        for k in 0..4 {
            if let (Some(c), true) = (self.consts[m][k], self.from[m][k] == Some(m)) {
                if m == 0 && k == 3 {
                    if self.class { let _ = writeln!(s, "(class (Qux A)\n  (function (qux a) {{(-> A U64)}}))\n(instance Qux.U64 (Qux U64)\n  (function (qux a) (wmix {} a)))", c); } else { let _ = writeln!(s, "(function (qux a) {{(-> U64 U64)}} (wmix {} a))\n(function Qux.U64 {{U64}} 0)", c); }
                } else { let _ = writeln!(s, "(function ({} a) {{(-> U64 U64)}} (wmix {} a))", FUNS[k], c); }
            }
        }
        s
    }
    fn main_head(&self, t: &mut Tape) -> String {
        let mut s = format!("(import \"~/wa\" Qux.U64)\n(import \"~/wb\" nn_)\n(import \"~/wc\" mm_)\n");
        for k in 0..4 { if let Some(m) = self.from[3][k] { if m < 3 { let _ = writeln!(s, "(import \"~/w{}\" {})", ["a", "b", "c"][m], FUNS[k]); } } }
        s += &self.funs(3);
        if t.bool() { s += "(value-data Con (con: U64))\n"; }
        s
    }
    fn print_ex(&self, e: &Ex) -> String {
        match e {
            Ex::Num(n) => n.to_string(), Ex::Var(v) => v.clone(),
            Ex::App(n, a) if n == "qux" => format!("({} (annotate {} U64))", n, self.print_ex(a)),
            Ex::App(n, a) => format!("({} {})", n, self.print_ex(a)),
            Ex::Def(..) => unreachable!(),
            Ex::Mac(m, k, a) => format!("({}{})", World::name(*m, *k), a.iter().map(|a| format!(" {}", self.print_ex(a))).collect::<String>()),
            Ex::Let(n, e, b) => format!("(let ([{} {}]) {})", n, self.print_ex(e), self.print_ex(b)),
            Ex::LetF(f, p, e, b) => format!("(let ([({} {}) {}]) {})", f, p, self.print_ex(e), self.print_ex(b)),
            Ex::Mix(a, b) => format!("(wmix {} {})", self.print_ex(a), self.print_ex(b)),
        }
    }
    fn ex(&self, t: &mut Tape, d: u32, vars: &mut Vec<String>) -> Ex {
        if d == 0 { return if !vars.is_empty() && t.bool() { Ex::Var(t.pick(vars).clone()) } else { Ex::Num(t.below(1000)) }; }
        match t.below(12) {
            0 => Ex::Num(t.below(100)),
            1 if !vars.is_empty() => Ex::Var(t.pick(vars).clone()),
            2 | 3 => Ex::App(t.pick(&FUNS).to_string(), Box::new(self.ex(t, d - 1, vars))),
            4 | 5 => { let e = Box::new(self.ex(t, d - 1, vars)); let v = t.pick(&VARS).to_string(); vars.push(v.clone()); let b = Box::new(self.ex(t, d - 1, vars)); vars.pop(); Ex::Let(v, e, b) }
            6 | 7 => { let (f, p) = (t.pick(&FUNS).to_string(), t.pick(&VARS).to_string()); let mut v2 = vars.clone(); v2.push(p.clone()); Ex::LetF(f, p, Box::new(self.ex(t, 1, &mut v2)), Box::new(self.ex(t, d - 1, vars))) }
            8 => Ex::Mix(Box::new(self.ex(t, d - 1, vars)), Box::new(self.ex(t, d - 1, vars))),
            _ => { let m = 1 + t.below(2) as usize; let k = t.below(self.macs[m].len() as u64) as usize; Ex::Mac(m, k, (0..self.macs[m][k].arity).map(|_| self.ex(t, d - 1, vars)).collect()) }
        }
    }
    /// The expression without macros
    fn expand(&mut self, e: &Ex, fuel: &mut i32) -> Option<Ex> {
        *fuel -= 1;
        if *fuel < 0 { return None; }
        Some(match e {
            Ex::Num(_) | Ex::Var(_) => e.clone(),
            Ex::App(n, a) => Ex::App(n.clone(), Box::new(self.expand(a, fuel)?)),
            Ex::Def(m, n, a) => Ex::Def(*m, n.clone(), Box::new(self.expand(a, fuel)?)),
            Ex::Let(n, e, b) => Ex::Let(n.clone(), Box::new(self.expand(e, fuel)?), Box::new(self.expand(b, fuel)?)),
            Ex::LetF(f, p, e, b) => Ex::LetF(f.clone(), p.clone(), Box::new(self.expand(e, fuel)?), Box::new(self.expand(b, fuel)?)),
            Ex::Mix(a, b) => Ex::Mix(Box::new(self.expand(a, fuel)?), Box::new(self.expand(b, fuel)?)),
            Ex::Mac(m, k, a) => {
                self.fresh += 10;
                let g = self.fresh;
                let body = self.fill(&self.macs[*m][*k].body, a, g);
                self.expand(&body, fuel)?
            }
        })
    }
    fn fill(&self, x: &Tm, a: &[Ex], g: usize) -> Ex {
        let f = |x: &Tm| Box::new(self.fill(x, a, g));
        match x {
            Tm::Num(n) => Ex::Num(*n), Tm::Arg(i) => a[*i].clone(), Tm::Gs(i) => Ex::Var(format!("@{}", g + i)), Tm::Var(v) => Ex::Var(v.clone()),
            Tm::Cap(m, n, x) => Ex::Def(*m, n.clone(), f(x)),
            Tm::Raw(n, x) => Ex::App(n.clone(), f(x)),
            Tm::CapMac(m, k, xs) => Ex::Mac(*m, *k, xs.iter().map(|x| *f(x)).collect()),
            Tm::RawMac(k, xs) => { let (k, n) = self.raw_mac(*k); Ex::Mac(2, k, xs[..n].iter().map(|x| *f(x)).collect()) }
            Tm::Let(n, e, b) => Ex::Let(match n { Ok(i) => format!("@{}", g + i), Err(n) => n.clone() }, f(e), f(b)),
            Tm::Mix(x, y) => Ex::Mix(f(x), f(y)),
            Tm::Pair(x, y) => { let (p, q) = (format!("@{}", g + 8), format!("@{}", g + 9)); Ex::Let(p.clone(), f(x), Box::new(Ex::Let(q.clone(), f(y), Box::new(Ex::Mix(Box::new(Ex::Var(p)), Box::new(Ex::Var(q))))))) }
        }
    }
    /// Its value; none when it is not well-typed
    fn eval(&self, e: &Ex, env: &[(String, B)]) -> Option<u64> {
        Some(match e {
            Ex::Num(n) => *n,
            Ex::Var(v) => match env.iter().rev().find(|b| b.0 == *v)? { (_, B::V(n)) => *n, _ => return None },
            Ex::App(n, a) => {
                let a = self.eval(a, env)?;
                match env.iter().rev().find(|b| b.0 == *n) {
                    Some((_, B::F(p, body, at))) => { let mut e2 = env[..*at].to_vec(); e2.push((n.clone(), B::Own)); e2.push((p.clone(), B::V(a))); self.eval(body, &e2)? }
                    Some(_) => return None,
                    None => { let k = FUNS.iter().position(|f| f == n)?; let m = self.from[3][k]?; wmix(self.consts[m][k]?, a) }
                }
            }
            Ex::Def(m, n, a) => { let k = FUNS.iter().position(|f| f == n)?; wmix(self.consts[*m][k]?, self.eval(a, env)?) }
            Ex::Let(n, e, b) => { let v = self.eval(e, env)?; let mut e2 = env.to_vec(); e2.push((n.clone(), B::V(v))); self.eval(b, &e2)? }
            Ex::LetF(f, p, e, b) => {
                // the body must be well-typed even if it is not called
                let mut e1 = env.to_vec();
                e1.push((f.clone(), B::Own)); e1.push((p.clone(), B::V(1)));
                self.eval(e, &e1)?;
                let mut e2 = env.to_vec();
                e2.push((f.clone(), B::F(p.clone(), (**e).clone(), env.len())));
                self.eval(b, &e2)?
            }
            Ex::Mix(a, b) => wmix(self.eval(a, env)?, self.eval(b, env)?),
            Ex::Mac(..) => unreachable!(),
        })
    }
}
#[derive(Clone)]
enum B { V(u64), F(String, Ex, usize), /// the function itself, which no generated body calls
    Own }

// ------------------------------------------------------------------ cases

struct One { what: String, kind: &'static str, expect: String }

/// `s`, or a use of macros that expands to it
fn wrap(t: &mut Tape, s: &str, n: &mut u64) -> String {
    if t.chance(2, 3) { return s.into(); }
    *n += 1;
    let r = match t.below(3) {
        0 if s.starts_with('(') || s.starts_with('[') => format!("({} {})", "part", &s[1..s.len() - 1]),
        0 | 1 => format!("(eval {})", s),
        _ => format!("(first {} {})", s, ["()", "x", "(let z)", "1"][t.below(4) as usize]),
    };
    wrap(t, &r, n)
}

fn programs(t: &mut Tape, out: &mut Out) -> Case {
    let d = Scratch::new();
    let mut lib = String::from("(import \"~/lib\" _)\n(export _)\n");
    let mut src = String::from("(import \"~/lib\" _)\n(import \"~/gen\" _)\n(import \"std/s\" s/_)\n(import \"std/s-display\" _)\n");
    let mut w = World::new(t);
    let worlds = t.chance(2, 3);
    if worlds { src += &w.main_head(t); }
    let mut ones: Vec<One> = vec![];
    let mut body = String::new();
    let mut gensyms = 0;
    for id in 0..t.range(1, 24) {
        let from = t.used();
        let mut one = |e: String, kind: &'static str, what: String, expect: String, out: &mut Out, deep: bool| { let _ = writeln!(body, "(println! \"#{} \" {})", id, e); out.classes.push(kind); if deep { out.subs.push(what.clone()); } ones.push(One { what, kind, expect }); };
        match t.below(if worlds { 16 } else { 12 }) {
            0 => { let v: Vec<Node> = (0..t.below(4)).map(|_| tree(t, 4)).collect(); let w: String = v.iter().map(|x| format!(" {}", txt(t, x))).collect(); let mut l = vec![sym("show")]; l.extend(v); let l = list(l); let e = dump(&l); one(format!("(show{})", w), "received", format!("a macro called as {}", plain(&l)), e, out, size(&l) > 8) }
            1 => { let x = tree(t, 4); let m = *t.pick(&["same", "copied"]); let e = format!("(dump ({} {}))", m, txt(t, &x)); one(e, "returned", format!("a macro that returns its argument {} {}", plain(&x), if m == "copied" { "built anew" } else { "" }), dump(&x), out, size(&x) > 8) }
            2 => { let v: Vec<Node> = (0..t.below(4)).map(|_| tree(t, 3)).collect(); let x = list(v.clone()); one(format!("(shows{})", v.iter().map(|x| format!(" {}", txt(t, x))).collect::<String>()), "received and returned", format!("a macro called with {} and returning it", plain(&x)), format!("{}/{}", dump(&x), dump(&x)), out, size(&x) > 8) }
            3 => { let x = tree(t, 3); let b = build(t, &x); let b = if t.bool() { format!("(eval {})", b) } else { b }; one(format!("(dump {})", b), "built", format!("{}, for {}", b, plain(&x)), dump(&x), out, size(&x) > 8) }
            4..=6 => {
                let vars: Vec<(String, Node)> = (0..t.range(1, 4)).map(|i| (format!("v{}", i), if t.chance(2, 3) { list((0..t.below(4)).map(|_| tr(t, 2)).collect()) } else { tr(t, 2) })).collect();
                let mut h = Holes { vars: &vars, n: 0 };
                let (tm, v) = template(t, &mut h, 3);
                let n = h.n;
                let expect = v.as_ref().map_or("error ,@ expects proper-list".into(), |v| dump(v));
                let lets: String = vars.iter().map(|(n, x)| format!("[{} '{}]", n, plain(x))).collect();
                let text = txt(t, &tm);
                let what = format!("`{} with {}", plain(&tm), vars.iter().map(|(n, x)| format!("{} {}", n, plain(x))).collect::<Vec<_>>().join(", "));
                if t.bool() || v.is_none() {
                    let _ = writeln!(lib, "(function (qq{}) {{(-> (Result (Syntax Sexp) String))}} (let ({}) (ok `{})))", id, lets, text);
                    one(format!("(dump-result (qq{}))", id), "template, at run time", what, expect, out, n >= 2);
                } else {
                    let _ = writeln!(lib, "(macro (qm{} s) (s/match s [(_ {}) (ok (s:list 'quote `{}))] [_ (err \"qm\")]))", id, vars.iter().map(|(n, _)| format!(",{}", n)).collect::<Vec<_>>().join(" "), text);
                    let args: String = vars.iter().map(|(_, x)| format!(" {}", txt(t, x))).collect();
                    one(format!("(dump (qm{}{}))", id, args), "template, in a macro", what, expect, out, n >= 2);
                }
            }
            7 | 8 => {
                // (the compiler's check for useless clauses takes exponential time)
                let mut x = tr(t, 3);
                for d in [3, 2, 1, 0] { if size(&x) <= 14 { break; } x = tr(t, d); }
                let mut pats = vec![];
                let mut rows: Vec<Vec<Pt>> = vec![];
                for _ in 0..t.range(1, 4) {
                    let y = if t.chance(2, 3) { near(t, &x) } else { x.clone() };
                    let mut b = vec![];
                    let p = pattern(t, &y, &mut Pats { n: 0 }, &mut b);
                    let row = vec![pt(&p)];
                    if !useful(&rows, &row) { continue; }
                    rows.push(row);
                    pats.push((p, b));
                }
                let other = if useful(&rows, &[Pt::W]) { "[_ \"none\"]" } else { "" };
                let mut cl = String::new();
                let mut expect = None;
                for (i, (p, b)) in pats.iter().enumerate() {
                    let _ = write!(cl, "\n    [{} (string {}{})]", txt(t, p), i, b.iter().map(|(n, _)| format!(" \" \" (dump {})", n)).collect::<String>());
                    let mut got = vec![];
                    if expect.is_none() && matches(p, &x, &mut got) {
                        // in the order in which the pattern was built
                        let vals: String = b.iter().map(|(n, _)| format!(" {}", dump(&got.iter().find(|g| g.0 == *n).unwrap().1))).collect();
                        expect = Some(format!("{}{}", i, vals));
                    }
                }
                let what = format!("s/match of {} with {}", plain(&x), pats.iter().map(|(p, _)| plain(p)).collect::<Vec<_>>().join(" | "));
                let expect = expect.unwrap_or("none".into());
                let e = if t.bool() {
                    let _ = writeln!(lib, "(function (sm{} s) {{(-> (Syntax Sexp) String)}}\n  (s/match s{}\n    {}))", id, cl, other);
                    if t.bool() { format!("(sm{} '{})", id, txt(t, &x)) } else { let _ = writeln!(lib, "(macro (ms{} s) (s/match s [(_ ,x) (ok (s:string (sm{0} x)))] [_ (err \"ms\")]))", id); format!("(ms{} {})", id, txt(t, &x)) }
                } else { format!("(s/match '{}{}\n    {})", txt(t, &x), cl, other) };
                one(e, "s/match", what, expect, out, size(&x) > 3);
            }
            9 => {
                let (x, y) = if t.chance(1, 6) { (tr(t, 2), tr(t, 2)) } else { (list((0..t.below(6)).map(|_| tr(t, 2)).collect()), list((0..t.below(6)).map(|_| tr(t, 1)).collect())) };
                let (a, b) = (txt(t, &x), txt(t, &y));
                let px = proper(&x).map(|v| v.to_vec());
                let bad = |f: &str| format!("error {} expects proper-list", f);
                let (e, what, expect) = match t.below(8) {
                    0 => (format!("(dump-result (s/reverse '{}))", a), "s/reverse", px.map_or(bad("s/reverse"), |mut v| { v.reverse(); dump(&list(v)) })),
                    1 => (format!("(dump-result (s/append '{} '{}))", a, b), "s/append", px.map_or(bad("s/append"), |v| dump(&if v.is_empty() { y.clone() } else { Node::new(append(v, y.clone())) }))),
                    2 => (format!("(dump-result (s/map [^1 (s:list %1 'k)] '{}))", a), "s/map", px.map_or(bad("s/map"), |v| dump(&list(v.into_iter().map(|x| list(vec![x, sym("k")])).collect())))),
                    3 => (format!("(dump-result (s/traverse [^1 (s/reverse %1)] '{}))", a), "s/traverse", px.map_or(bad("s/traverse"), |v| { let mut o = vec![]; for x in v { match proper(&x) { Some(p) => { let mut p = p.to_vec(); p.reverse(); o.push(list(p)) } None => return bad("s/reverse") } } dump(&list(o)) })),
                    4 => (format!("(dump-result (s/zip [^2 (s:cons %1 %2)] '{} '{}))", a, b), "s/zip", match (px, proper(&y)) { (Some(v), Some(u)) if v.len() == u.len() => dump(&list(v.into_iter().zip(u).map(|(x, y)| Node::new(append(vec![x], y.clone()))).collect())), _ => "error s/zip expects proper same-length lists".into() }),
                    5 => (format!("(dump-result (s/foldl [^2 (s:cons %2 %1)] '{} '{}))", b, a), "s/foldl", px.map_or(bad("s/foldl"), |v| { let mut r = y.clone(); for x in v { r = Node::new(append(vec![x], r)); } dump(&r) })),
                    6 => (format!("(dump-result (s/foldr [^2 (s:list %1 %2)] '{} '{}))", b, a), "s/foldr", px.map_or(bad("s/foldr"), |v| { let mut v = v; v.insert(0, y.clone()); let mut r = v.pop().unwrap(); for x in v.into_iter().rev() { r = list(vec![x, r]); } dump(&r) })),
                    _ => (format!("(match (s/length '{}) [(ok (let n)) (string n)] [(err (let e)) (string \"error \" e)])", a), "s/length", px.map_or(bad("s/length"), |v| v.len().to_string())),
                };
                one(e, "s/*", format!("{} of {}, {}", what, plain(&x), plain(&y)), expect, out, true);
            }
            10 => { let x = tree(t, 4); one(format!("(codes (string '{}))", txt(t, &x)), "displayed", format!("the text of {}", plain(&x)), format!("?{}", dump(&by_value(&x))), out, size(&x) > 8) }
            11 if t.chance(1, 3) => { let n = *t.pick(&[10u64, 300, 5000, 70000]); one(format!("({} {})", if t.bool() { "gs-many" } else { "distinct" }, n), "generated symbols", format!("{} generated symbols", n), "distinct".into(), out, n > 10) }
            11 if t.bool() => {
                // a function each part of which may be the expansion of a macro
                let (a, c, none) = (t.below(1000), t.below(1000), t.chance(1, 4));
                let mut n = 0;
                let mut w = |s: &str| wrap(t, s, &mut n);
                let i32_ = w("I32");
                let kind = { let k = w("*"); w(&format!("(-> {} *)", k)) };
                let field = { let f = w("F"); let x = w("I32"); w(&format!("({} {})", f, x)) };
                let data = w(&format!("(data (Dp{} [F {}]) (dp{} {}))", id, kind, id, field));
                let ty = { let o = w("Option"); let d = w(&format!("(Dp{} {})", id, o)); w(&format!("(-> {} {} String)", i32_, d)) };
                let pat = { let v = w("(let z)"); let v = w(&format!("(some {})", v)); w(&format!("(dp{} {})", id, v)) };
                let val = { let x = w("x"); let z = w("(+ x z)"); w(&format!("(string {} \"/\" {})", x, z)) };
                let c1 = w(&format!("[{} {}]", pat, val));
                let c2 = { let p = w(&format!("(dp{} none)", id)); let v = w("(string \"none \" x)"); w(&format!("[{} {}]", p, v)) };
                let m = { let v = w("y"); w(&format!("(match {} {} {})", v, c1, c2)) };
                let f = w(&format!("(function (fp{} x y) {{{}}} {})", id, ty, m));
                let e = { let x = if none { w("none") } else { let c = w(&c.to_string()); w(&format!("(some {})", c)) }; let d = w(&format!("(dp{} {})", id, x)); let a = w(&a.to_string()); w(&format!("(fp{} {} {})", id, a, d)) };
                let _ = writeln!(lib, "{}\n{}", data, f);
                let expect = if none { format!("none {}", a) } else { format!("{}/{}", a, a + c) };
                one(e.clone(), "expansions in every place", format!("{} with {} {}", e, data, f), expect, out, n >= 2);
            }
            11 => { gensyms += 1; one(if t.bool() { "(dump (gs))".into() } else { "(string (dump (gs)) \" \" (dump (gs)))".into() }, "generated symbols", "generated symbols".into(), "@".into(), out, false) }
            _ => {
                let mut done = false;
                for _ in 0..12 {
                    let e = w.ex(t, 4, &mut vec![]);
                    let mut fuel = 300;
                    let Some(x) = w.expand(&e, &mut fuel) else { continue };
                    let Some(v) = w.eval(&x, &[]) else { continue };
                    let p = w.print_ex(&e);
                    if !p.contains("mm") && !p.contains("nn") { continue; }
                    one(p.clone(), "captured definitions", format!("{} with the modules\n{}\n{}\n{}\n{}", p, w.module(0), w.module(1), w.module(2), w.funs(3)), v.to_string(), out, true);
                    done = true;
                    break;
                }
                if !done { one("0".into(), "none", "0".into(), "0".into(), out, false); }
            }
        }
        out.spans.push((from, t.used()));
    }
    let _ = gensyms;
    src += &body;
    d.write("cur/lib.llrl", LIB.as_bytes());
    d.write("cur/gen.llrl", lib.as_bytes());
    if worlds { for (m, n) in ["wa", "wb", "wc"].iter().enumerate() { d.write(&format!("cur/{}.llrl", n), w.module(m).as_bytes()); } }
    d.write("cur/m.llrl", src.as_bytes());
    out.evals = ones.len() as u64;
    out.desc = ones.iter().take(3).map(|o| o.what.clone()).collect::<Vec<_>>().join("; ");
    for cf in cli::configs() {
        let r = cf.compile(&d, &["m"], "m");
        if r.timeout { panic!("{} does not end within the time", cf.name); }
        if r.code != 0 || !d.0.join("m").exists() { return fail("rejected", format!("{}: the program is not compiled ({}): {}\n{}\n{}{}", cf.name, cli::how(&r), r.both().chars().take(600).collect::<String>(), src, lib, if worlds { w.module(0) + &w.module(1) + &w.module(2) } else { String::new() })); }
        let r = cli::exec(&d, "m", b"", &[]);
        let text = r.text();
        let mut lines = text.lines();
        let mut seen: HashSet<String> = HashSet::new();
        for (k, o) in ones.iter().enumerate() {
            out.bad = Some(k);
            let l = lines.next().unwrap_or("<end of output>");
            let want = format!("#{} {}", k, o.expect);
            let head = format!("#{} ", k);
            let bad = |got: &str, want: &str| fail(o.kind, format!("{}: {}: it gives `{}`, not `{}`", cf.name, o.what, got, want));
            if let (Some(tree), Some(l)) = (o.expect.strip_prefix('?'), l.strip_prefix(&head)) {
                let s: Option<String> = l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u32>().ok().and_then(char::from_u32)).collect();
                let s = s.unwrap_or("<garbled>".into());
                match ref_parse(&s) { Ok(v) if v.len() == 1 && (dump(&by_value(&v[0])) == tree || tree.contains("nan") || tree.contains(&format!("f{}", f64::INFINITY.to_bits())) || tree.contains(&format!("f{}", f64::NEG_INFINITY.to_bits()))) => {} _ => return bad(&s, "text that is read as it") }
            } else if o.expect == "@" {
                let Some(l) = l.strip_prefix(&head) else { return bad(l, "generated symbols") };
                for s in l.split(|c| "() ".contains(c)).filter(|s| !s.is_empty()) {
                    if !s.starts_with('y') || s[1..].chars().all(is_id) { return bad(s, "a symbol that cannot be written"); }
                    if !seen.insert(s.to_string()) { return bad(s, "a symbol that was not generated before"); }
                }
            } else if l != want { return bad(l.strip_prefix(&head).unwrap_or(l), &o.expect); }
        }
        out.bad = None;
        if r.code != 0 || lines.next().is_some() { return fail("exit", format!("{}: {} after {} lines: {}", cf.name, cli::how(&r), ones.len(), r.both().chars().take(300).collect::<String>())); }
    }
    Ok(())
}

/// A use of a macro that returns an error, at some place of a program
fn errors(t: &mut Tape, out: &mut Out) -> Case {
    let d = Scratch::new();
    let args: Vec<Node> = (0..t.below(3)).map(|_| tr(t, 3)).collect();
    let (form, msg) = match t.below(4) {
        0 => { let x = loop { let x = tr(t, 2); if proper(&x).is_none() { break x; } }; let (m, e) = *t.pick(&[("spliced", ",@ expects proper-list"), ("reversed", "s/reverse expects proper-list")]); (list(vec![sym(m), x]), e.to_string()) }
        1 => { let m = *t.pick(&["same", "spliced", "eval"]); (list(vec![sym(m), sym("a"), sym("b")]), m.to_string()) }
        _ => { let mut l = vec![sym("bad")]; l.extend(args); let l = list(l); let m = format!("oops {}", dump(&l)); (l, m) }
    };
    let use_ = plain(&form);
    let lead = "; a line\n".repeat(t.below(4) as usize) + &" ".repeat(t.below(5) as usize);
    let (head, tail, place) = *t.pick(&[
        ("", "", "top level"), ("(println! 1 ", ")", "argument of a macro"), ("(function (f x)\n (let ([y x])\n  ", "))", "body"), ("(function (f x) (match x [", " 1]))", "pattern"), ("(function (f x) {(-> U64 ", ")} 1)", "type"),
        ("(let1 z ", " z)", "argument of a macro"), ("(when #t (begin ", "))", "argument of a macro"), ("(function (f x) (eval ", "))", "argument of a macro"), ("(if #t ", " 2)", "expression"), ("(value-data V (v: ", "))", "type of a field"),
        ("(function (f x)\n (string x [^1 ", "]))", "lambda"), ("(begin\n\n ", ")", "expression"),
    ]);
    // patterns and types have no top level value: all macros used here end in an error
    let pre = format!("(import \"~/lib\" _)\n{}{}", lead, head);
    let src = format!("{}{}{}\n(println! \"end\")\n", pre, use_, tail);
    let line = pre.matches('\n').count() + 1;
    let col = pre.chars().rev().take_while(|c| *c != '\n').count() + 1;
    d.write("cur/lib.llrl", LIB.as_bytes());
    d.write("cur/m.llrl", src.as_bytes());
    out.evals = 1;
    out.desc = format!("{} as {}", use_, place);
    out.subs.push(out.desc.clone());
    out.classes.push("error of a macro");
    for cf in cli::configs() {
        let r = cf.compile(&d, &["m"], "m");
        if r.timeout { panic!("{} does not end within the time", cf.name); }
        let b = r.both();
        if r.code == 0 || d.0.join("m").exists() { return fail("error-ignored", format!("{}: a macro that returns the error `{}` and yet the program is compiled: {}", cf.name, msg, src)); }
        if !b.contains(&msg) { return fail("error-lost", format!("{}: the error `{}` is not reported but `{}`: {}", cf.name, msg, b.chars().take(400).collect::<String>(), src)); }
        let at = format!("~/m:{}:{}-", line, col);
        if !b.contains(&at) { return fail("error-place", format!("{}: the error is not at {} ({}): {}\n{}", cf.name, at, place, b.chars().take(400).collect::<String>(), src)); }
    }
    Ok(())
}

fn main() { main_with("c22", &|t, out| if t.chance(1, 6) { errors(t, out) } else { programs(t, out) }); }
