//! C07: exhaustiveness and usefulness of match clauses, against the enumeration of values.
use llrl::prelude::ModuleError;
use std::rc::Rc;
use vharness::front::front1;
use vharness::sx::{ref_parse, Node, Sx};
use vharness::{ensure, main_with, Case, Out, Tape};

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Bool,
    Int(&'static str),
    F64,
    Char,
    Str,
    Tuple(Vec<Ty>),
    Data(usize, Vec<Ty>),
    Param,
}

#[derive(Clone, Debug)]
struct Data {
    name: String,
    param: bool,
    value: bool,
    ctors: Vec<(String, Vec<Ty>)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Pat {
    Wild,
    Con(usize, Vec<Pat>),
    /// index into the constants of the type
    Const(usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Any,
    Con(usize, Vec<Rc<Val>>),
    Const(usize),
}

const OTHER: usize = 99;
const INTS: [&str; 4] = ["0", "1", "-1", "127"];
const UINTS: [&str; 4] = ["0", "1", "255", "7"];
const FLOATS: [&str; 3] = ["0.5", "1.5", "-2.25"];
const CHARS: [&str; 5] = ["#\\a", "#\\b", "#\\\\n", "#\\語", "#\\\\\\"];
const STRS: [&str; 5] = ["\"\"", "\"a\"", "\"ab\"", "\"é\"", "\"\\\\\""];

fn consts(t: &Ty) -> &'static [&'static str] {
    match t {
        Ty::Int("I8") | Ty::Int("I32") | Ty::Int("I64") => &INTS,
        Ty::Int(_) => &UINTS,
        Ty::F64 => &FLOATS,
        Ty::Char => &CHARS,
        Ty::Str => &STRS,
        _ => &[],
    }
}

fn subst(t: &Ty, a: &[Ty]) -> Ty {
    match t {
        Ty::Param => a[0].clone(),
        Ty::Tuple(v) => Ty::Tuple(v.iter().map(|x| subst(x, a)).collect()),
        Ty::Data(i, v) => Ty::Data(*i, v.iter().map(|x| subst(x, a)).collect()),
        t => t.clone(),
    }
}

struct World {
    datas: Vec<Data>,
}

impl World {
    /// The constructors of a finite type.
    fn cons(&self, t: &Ty) -> Option<Vec<(String, Vec<Ty>)>> {
        match t {
            Ty::Bool => Some(vec![("#f".into(), vec![]), ("#t".into(), vec![])]),
            Ty::Tuple(v) => Some(vec![(":".into(), v.clone())]),
            Ty::Data(i, a) => Some(self.datas[*i].ctors.iter().map(|(n, f)| (n.clone(), f.iter().map(|x| subst(x, a)).collect())).collect()),
            _ => None,
        }
    }
    fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "Bool".into(),
            Ty::Int(n) => n.to_string(),
            Ty::F64 => "F64".into(),
            Ty::Char => "Char".into(),
            Ty::Str => "String".into(),
            Ty::Param => "A".into(),
            Ty::Tuple(v) => format!("(:{})", v.iter().map(|x| format!(" {}", self.ty(x))).collect::<String>()),
            Ty::Data(i, a) => {
                if a.is_empty() {
                    self.datas[*i].name.clone()
                } else {
                    format!("({}{})", self.datas[*i].name, a.iter().map(|x| format!(" {}", self.ty(x))).collect::<String>())
                }
            }
        }
    }
    fn values(&self, t: &Ty, depth: u32, cap: &mut i64) -> Vec<Rc<Val>> {
        if depth == 0 || *cap < 0 {
            return vec![Rc::new(Val::Any)];
        }
        if let Some(cons) = self.cons(t) {
            let mut o = vec![];
            for (i, (_, f)) in cons.iter().enumerate() {
                let mut rows: Vec<Vec<Rc<Val>>> = vec![vec![]];
                for x in f {
                    let vs = self.values(x, depth - 1, cap);
                    if (rows.len() * vs.len()) as i64 > 6000 {
                        *cap = -1;
                        return vec![Rc::new(Val::Any)];
                    }
                    rows = rows.iter().flat_map(|r| vs.iter().map(move |v| { let mut r = r.clone(); r.push(v.clone()); r })).collect();
                }
                o.extend(rows.into_iter().map(|r| Rc::new(Val::Con(i, r))));
            }
            *cap -= o.len() as i64;
            return o;
        }
        let mut o: Vec<_> = (0..consts(t).len()).map(|i| Rc::new(Val::Const(i))).collect();
        o.push(Rc::new(Val::Const(OTHER)));
        *cap -= o.len() as i64;
        o
    }
}

fn matches(p: &Pat, v: &Val) -> bool {
    match (p, v) {
        (Pat::Wild, _) => true,
        (Pat::Con(i, ps), Val::Con(j, vs)) => i == j && ps.iter().zip(vs).all(|(p, v)| matches(p, v)),
        (Pat::Const(i), Val::Const(j)) => i == j,
        _ => panic!("harness: {:?} against {:?}", p, v),
    }
}

fn depth(p: &Pat) -> u32 {
    match p {
        Pat::Wild => 0,
        Pat::Const(_) => 1,
        Pat::Con(_, ps) => 1 + ps.iter().map(depth).max().unwrap_or(0),
    }
}

struct G<'a> {
    t: &'a mut Tape,
    w: World,
    vars: usize,
}

impl<'a> G<'a> {
    fn ty(&mut self, d: u32, ndata: usize, param: bool) -> Ty {
        let n = if d == 0 { 6 } else { 10 };
        match self.t.below(n) {
            0 | 1 => Ty::Bool,
            2 => Ty::Int(self.t.pick(&["I32", "U8", "I8", "U64", "I64", "U16"])),
            3 => Ty::Char,
            4 => Ty::Str,
            5 => {
                if param {
                    Ty::Param
                } else if self.t.below(4) == 0 {
                    Ty::F64
                } else {
                    Ty::Bool
                }
            }
            6 => {
                let k = *self.t.pick(&[2, 2, 3, 0]);
                Ty::Tuple((0..k).map(|_| self.ty(d - 1, ndata, param)).collect())
            }
            _ => {
                if ndata == 0 {
                    return Ty::Bool;
                }
                let i = self.t.below(ndata as u64) as usize;
                let a = if self.w.datas[i].param { vec![self.ty(d - 1, ndata, param)] } else { vec![] };
                Ty::Data(i, a)
            }
        }
    }
    fn datas(&mut self) {
        let n = self.t.range(1, 3);
        for i in 0..n {
            let param = self.t.below(3) == 0;
            self.w.datas.push(Data { name: format!("D{}", i), param, value: self.t.below(4) == 0, ctors: vec![] });
        }
        for i in 0..n {
            let k = *self.t.pick(&[2, 3, 1, 4, 2, 3, 2, 6, 9, 20]);
            let (param, value) = (self.w.datas[i].param, self.w.datas[i].value);
            let mut ctors = vec![];
            for c in 0..k {
                let f = if k > 4 { *self.t.pick(&[0, 0, 1]) } else { *self.t.pick(&[0, 1, 2, 0, 3]) };
                // a by-value type may only contain earlier types
                let lim = if value { i } else { n };
                let fs = (0..f)
                    .map(|_| {
                        let mut t = self.ty(1, lim, param);
                        if value {
                            if let Ty::Data(j, _) = t {
                                if j >= i { t = Ty::Bool }
                            }
                        }
                        t
                    })
                    .collect();
                ctors.push((format!("{}{}", (b'a' + c as u8) as char, i), fs));
            }
            self.w.datas[i].ctors = ctors;
        }
    }
    fn pat(&mut self, t: &Ty, d: u32) -> Pat {
        if d == 0 || self.t.below(3) == 0 {
            return Pat::Wild;
        }
        if let Some(c) = self.w.cons(t) {
            let i = self.t.below(c.len() as u64) as usize;
            return Pat::Con(i, c[i].1.iter().map(|x| self.pat(x, d - 1)).collect());
        }
        let n = consts(t).len() as u64;
        if n == 0 {
            return Pat::Wild;
        }
        Pat::Const(self.t.below(n) as usize)
    }
    /// Replaces one wildcard of the pattern by a complete case split.
    fn split(&mut self, p: &Pat, t: &Ty, d: u32) -> Vec<Pat> {
        if d == 0 {
            return vec![p.clone()];
        }
        match p {
            Pat::Wild => {
                if let Some(c) = self.w.cons(t) {
                    (0..c.len()).map(|i| Pat::Con(i, vec![Pat::Wild; c[i].1.len()])).collect()
                } else {
                    let n = consts(t).len() as u64;
                    if n == 0 {
                        return vec![Pat::Wild];
                    }
                    let mut o: Vec<Pat> = vec![];
                    for _ in 0..self.t.range(1, 2) {
                        let x = Pat::Const(self.t.below(n) as usize);
                        if !o.contains(&x) {
                            o.push(x);
                        }
                    }
                    o.push(Pat::Wild);
                    o
                }
            }
            Pat::Const(_) => vec![p.clone()],
            Pat::Con(i, ps) => {
                if ps.is_empty() {
                    return vec![p.clone()];
                }
                let k = self.t.below(ps.len() as u64) as usize;
                let ft = self.w.cons(t).unwrap()[*i].1[k].clone();
                self.split(&ps[k], &ft, d - 1)
                    .into_iter()
                    .map(|q| {
                        let mut ps = ps.clone();
                        ps[k] = q;
                        Pat::Con(*i, ps)
                    })
                    .collect()
            }
        }
    }
    fn wilder(&mut self, p: &Pat) -> Pat {
        match p {
            Pat::Con(i, ps) if !ps.is_empty() && self.t.below(4) != 0 => {
                let k = self.t.below(ps.len() as u64) as usize;
                let mut ps = ps.clone();
                ps[k] = self.wilder(&ps[k].clone());
                Pat::Con(*i, ps)
            }
            _ => Pat::Wild,
        }
    }
    fn clauses(&mut self, t: &Ty) -> Vec<Pat> {
        let mut rows = vec![Pat::Wild];
        let cap = *self.t.pick(&[14, 14, 24, 50]);
        for _ in 0..if cap > 14 { self.t.range(4, 12) } else { self.t.range(0, 5) } {
            let k = self.t.below(rows.len() as u64) as usize;
            let new = self.split(&rows[k].clone(), t, 4);
            if rows.len() + new.len() > cap {
                break;
            }
            rows.splice(k..k + 1, new);
        }
        for _ in 0..*self.t.pick(&[0, 0, 1, 1, 2, 3]) {
            match self.t.below(5) {
                0 if !rows.is_empty() => {
                    let k = self.t.below(rows.len() as u64) as usize;
                    rows.remove(k);
                }
                1 => {
                    let k = self.t.below(rows.len() as u64 + 1) as usize;
                    let p = self.pat(t, 4);
                    rows.insert(k, p);
                }
                2 if rows.len() > 1 && self.t.bool() => {
                    // any order of disjoint clauses is as good
                    for i in (1..rows.len()).rev() {
                        let j = self.t.below(i as u64 + 1) as usize;
                        rows.swap(i, j);
                    }
                }
                2 if rows.len() > 1 => {
                    let a = self.t.below(rows.len() as u64) as usize;
                    let b = self.t.below(rows.len() as u64) as usize;
                    rows.swap(a, b);
                }
                3 if !rows.is_empty() => {
                    let k = self.t.below(rows.len() as u64) as usize;
                    rows[k] = self.wilder(&rows[k].clone());
                }
                _ => rows.push(Pat::Wild),
            }
        }
        rows
    }
    fn render(&mut self, p: &Pat, t: &Ty) -> String {
        match p {
            Pat::Wild => {
                let v = self.vars;
                self.vars += 1;
                if self.t.below(3) == 0 { format!("(let v{})", v) } else { "_".into() }
            }
            p => {
                let s = match p {
                    Pat::Const(i) => {
                        let c = consts(t)[*i];
                        if matches!(t, Ty::Int(n) if n.starts_with('I')) && c == "1" && self.t.below(3) == 2 {
                            "+1".to_string()
                        } else {
                            c.to_string()
                        }
                    }
                    Pat::Con(i, ps) => {
                        let c = self.w.cons(t).unwrap()[*i].clone();
                        if ps.is_empty() && c.0 != ":" {
                            c.0
                        } else if ps.is_empty() {
                            self.t.pick(&["(:)", "unit"]).to_string()
                        } else {
                            let fs: Vec<String> = ps.iter().zip(c.1.iter()).map(|(p, t)| self.render(p, t)).collect();
                            format!("({} {})", c.0, fs.join(" "))
                        }
                    }
                    Pat::Wild => unreachable!(),
                };
                if self.t.below(10) == 9 {
                    let v = self.vars;
                    self.vars += 1;
                    format!("(let v{} {})", v, s)
                } else {
                    s
                }
            }
        }
    }
}

/// A printed pattern back to a pattern.
fn unprint(w: &World, n: &Node, t: &Ty) -> Option<Pat> {
    if n.sx == Sx::Sym("_".into()) {
        return Some(Pat::Wild);
    }
    if let Some(cons) = w.cons(t) {
        let (name, args): (String, &[Node]) = match &n.sx {
            Sx::Sym(s) if s == "unit" => (":".into(), &[]),
            Sx::Sym(s) => (s.clone(), &[]),
            Sx::Bool(b) => ((if *b { "#t" } else { "#f" }).into(), &[]),
            Sx::List(v, None) => match &v.first()?.sx {
                Sx::Sym(s) => (s.clone(), &v[1..]),
                _ => return None,
            },
            _ => return None,
        };
        let i = cons.iter().position(|c| c.0 == name)?;
        if cons[i].1.len() != args.len() {
            return None;
        }
        let ps = args.iter().zip(&cons[i].1).map(|(n, t)| unprint(w, n, t)).collect::<Option<Vec<_>>>()?;
        return Some(Pat::Con(i, ps));
    }
    let c = consts(t).iter().position(|c| {
        let r = ref_parse(c).unwrap();
        vharness::sx::canons(&r) == vharness::sx::canons(std::slice::from_ref(n))
    })?;
    Some(Pat::Const(c))
}

struct Problem {
    w: World,
    t: Ty,
    rows: Vec<Pat>,
    text: String,
    first: Vec<usize>,
    uncovered: Vec<Rc<Val>>,
    /// all the values, to the depth anything looks at
    useless: Vec<usize>,
}

fn gen(t: &mut Tape) -> Option<Problem> {
    let mut g = G { t, w: World { datas: vec![] }, vars: 0 };
    g.datas();
    let n = g.w.datas.len();
    let ty = match g.t.below(4) {
        0 => g.ty(2, n, false),
        1 => Ty::Tuple((0..g.t.range(2, 3)).map(|_| g.ty(2, n, false)).collect::<Vec<_>>()),
        _ => {
            let i = g.t.below(n as u64) as usize;
            let a = if g.w.datas[i].param { vec![g.ty(1, n, false)] } else { vec![] };
            Ty::Data(i, a)
        }
    };
    let rows = g.clauses(&ty);
    let d = rows.iter().map(depth).max().unwrap_or(0);
    let mut cap = 40000;
    let vals = g.w.values(&ty, d.max(1), &mut cap);
    if cap < 0 {
        return None;
    }
    let mut reach = vec![false; rows.len()];
    let mut uncovered = vec![];
    for v in &vals {
        match rows.iter().position(|p| matches(p, v)) {
            Some(i) => reach[i] = true,
            None => uncovered.push(v.clone()),
        }
    }
    let useless: Vec<usize> = (0..rows.len()).filter(|i| !reach[*i]).collect();
    let mut text = String::from("(no-implicit-std)\n(import \"builtin\" _)\n");
    for d in &g.w.datas {
        let head = if d.param { format!("({} A)", d.name) } else { d.name.clone() };
        let cs: Vec<String> = d.ctors.iter().map(|(n, f)| if f.is_empty() { n.clone() } else { format!("({}{})", n, f.iter().map(|x| format!(" {}", g.w.ty(x))).collect::<String>()) }).collect();
        text += &format!("({} {} {})\n", if d.value { "value-data" } else { "data" }, head, cs.join(" "));
    }
    let tys = g.w.ty(&ty);
    let mut m = "(match x".to_string();
    for (i, p) in rows.iter().enumerate() {
        let s = g.render(p, &ty);
        m += &format!("\n    [{} {}]", s, i);
    }
    m += ")";
    text += &match g.t.below(20) {
        0 => format!("(function (f y) {{(-> {0} (-> {0} I32))}}\n  (let ([(g x) {{(-> {0} I32)}} {1}]) g))\n", tys, m),
        1 => format!("(class (C A)\n  (function (m x y) {{(-> A {} I32)}}))\n(instance I (C Bool)\n  (function (m y x)\n  {}))\n", tys, m),
        2 => format!("(class (C A)\n  (function (m y x) {{(-> A {} I32)}}\n  {}))\n", tys, m),
        3 => format!("(function (f x) {{(-> {} I32)}}\n  (match #t [#f 1] [#t {}]))\n", tys, m),
        4 => format!("(function (f x) {{(-> {} Bool)}}\n  (while (match {} [0 #t] [_ #f]) #f) #t)\n", tys, m),
        5 => format!("(function (mk x) {{(-> I32 {0})}} (mk x))\n(let ([x (mk 1)])\n  {1})\n", tys, m),
        6 => format!("(function (f x) {{(-> {} I32)}}\n  (let ([z 1] [y {}]) (if (match y [1 #t] [_ #f]) (return y) z)))\n", tys, m),
        7 => format!("(function (mk x) {{(-> I32 {0})}} (mk x))\n(macro (f s)\n  (let ([x (mk 1)] [(h c r) r])\n  (h {1} (ok s))))\n", tys, m),
        8 => format!("(function (h a b) {{(-> I32 I32 I32)}} b)\n(function (f x) {{(-> {} I32)}}\n  (h 1 (h {} 2)))\n", tys, m),
        9 => format!("(function (f x) {{(-> {} I32)}}\n  ((match {} [0 (let ([(a) 1]) a)] [_ (let ([(b) 2]) b)])))\n", tys, m),
        10 => format!("(function (f x) {{(-> {} I32)}}\n  (begin (return {}) 3))\n", tys, m),
        11 => format!("(function (f x) {{(-> {} I32)}}\n  (begin {} 3))\n", tys, m),
        12 => format!("(function (f x) {{(-> {} I32)}}\n  (if #t {} {{I32}} 3))\n", tys, m),
        13 => format!("(function (f x) {{(-> {} I32)}}\n  (if (match {} [_ #t]) 1 2))\n", tys, m),
        14 => format!("(function (f x) {{(-> {} Bool)}}\n  (while #f {}))\n", tys, m).replace("Bool)}\n  (while", "unit)}\n  (while"),
        _ => format!("(function (f x) {{(-> {} I32)}}\n  {})\n", tys, m),
    };
    Some(Problem { w: g.w, t: ty, rows, text, first: vec![], uncovered, useless })
}

fn kinds(p: &Problem) -> Vec<&'static str> {
    let mut k = vec![];
    if !p.uncovered.is_empty() {
        k.push("non-exhaustive");
    }
    if !p.useless.is_empty() {
        k.push("useless");
    }
    k
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let p = match gen(t) {
        Some(p) => p,
        None => {
            out.invalid = true;
            return Ok(());
        }
    };
    let _ = &p.first;
    out.desc = p.text.clone();
    out.nontrivial = p.rows.len() >= 2 && p.rows.iter().any(|x| depth(x) >= 2);
    out.classes = kinds(&p);
    if out.classes.is_empty() {
        out.classes.push("accepted");
    }
    let f = front1(&p.text);
    ensure!(f.src.is_empty() && f.cycle.is_none(), "harness", "unexpected: {}\n{}", f.summary(), p.text);
    let e = match f.errors.first() {
        None => {
            ensure!(p.uncovered.is_empty(), "accepts-non-exhaustive", "accepted although e.g. {:?} is not covered:\n{}", p.uncovered[0], p.text);
            ensure!(p.useless.is_empty(), "accepts-useless", "accepted although clause {} is useless:\n{}", p.useless[0], p.text);
            return Ok(());
        }
        Some(e) => e.1.clone().drop_context_info(),
    };
    let parse = |s: &str| -> Option<Pat> {
        let n = ref_parse(s).ok()?;
        unprint(&p.w, n.first()?, &p.t)
    };
    match e {
        ModuleError::NonExhaustivePattern(ps) => {
            ensure!(!p.uncovered.is_empty(), "reports-exhaustive", "reported non-exhaustive ({:?}) but it is exhaustive:\n{}", ps, p.text);
            for s in ps {
                let q = match parse(&s) {
                    Some(q) => q,
                    None => return vharness::fail("witness-form", format!("the reported pattern {} is no pattern of the type:\n{}", s, p.text)),
                };
                if depth(&q) <= p.rows.iter().map(depth).max().unwrap_or(0) {
                    ensure!(p.uncovered.iter().any(|v| matches(&q, v)), "wrong-witness", "the pattern {} reported as not covered is covered:\n{}", s, p.text);
                }
            }
        }
        ModuleError::UselessPattern(s) => {
            ensure!(!p.useless.is_empty(), "reports-useful", "clause {} reported as useless but it is not:\n{}", s, p.text);
            let q = parse(&s);
            ensure!(p.useless.iter().any(|i| Some(&p.rows[*i]) == q.as_ref()), "wrong-useless", "pattern {} reported as useless; the useless clauses are {:?}:\n{}", s, p.useless, p.text);
        }
        _ => ensure!(false, "other-error", "unexpected error {}\n{}", f.summary(), p.text),
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("texts") {
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            let mut t = Tape::random(vharness::case_seed(seed, i, "c07x"));
            if let Some(p) = gen(&mut t) {
                println!("[{},{}]", vharness::jstr(&p.text), vharness::jstr(&kinds(&p).join(" ")));
            }
        }
        return;
    }
    main_with("c07", &case)
}
