//! C06: generated programs of the core language, well typed or with an edit that may break them, against a reference type checker.
use llrl::formatting::ContextualDisplay as _;
use llrl::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use vharness::front::front1;
use vharness::{fail, main_with, Case, Out, Tape};

// ------------------------------------------------------------------ types

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T { V(usize), C(String), G(usize), A(Box<T>, Vec<T>) }
use T::*;

/// 0 is *, n is (-> *^n *), 10 is (-> (-> * *) *)
type Kind = u8;
type Con = (usize, Vec<T>);
#[derive(Clone, Debug, PartialEq)]
struct Scheme { gens: Vec<(usize, Kind)>, cons: Vec<Con>, body: T }

fn kind_text(k: Kind) -> String { match k { 0 => "*".into(), 10 => "(-> (-> * *) *)".into(), n => format!("(->{} *)", " *".repeat(n as usize)) } }
fn gen_text(g: &(usize, Kind)) -> String { format!("[A{} {}]", g.0, kind_text(g.1)) }
fn is_fun(t: &T) -> bool { matches!(t, A(h, _) if matches!(&**h, C(q) if q.starts_with("->"))) }
/// The parameters of a method: one that is not a function has none at all.
fn mp(s: &Scheme, p: &[String]) -> Option<Vec<String>> { if is_fun(&s.body) { Some(p.to_vec()) } else { None } }
fn c(s: &str) -> T { C(s.into()) }
fn app(h: T, a: Vec<T>) -> T { A(Box::new(h), a) }
fn fun(mut a: Vec<T>, r: T) -> T { let h = C(format!("->{}", a.len())); a.push(r); app(h, a) }
fn tuple(a: Vec<T>) -> T { if a.is_empty() { c("unit") } else { app(C(format!("T{}", a.len())), a) } }

fn subst(t: &T, m: &HashMap<usize, T>) -> T {
    match t { G(g) => m.get(g).cloned().unwrap_or_else(|| t.clone()), A(h, a) => app(subst(h, m), a.iter().map(|x| subst(x, m)).collect()), _ => t.clone() }
}
fn gens_of(t: &T, o: &mut Vec<usize>) {
    match t { G(g) => if !o.contains(g) { o.push(*g) }, A(h, a) => { gens_of(h, o); a.iter().for_each(|x| gens_of(x, o)) } _ => {} }
}
fn nodes(t: &T) -> usize { match t { A(h, a) => 1 + nodes(h) + a.iter().map(nodes).sum::<usize>(), _ => 1 } }
/// The type with the node at position k replaced.
fn replace(t: &T, k: &mut isize, by: &T) -> T {
    *k -= 1;
    if *k == -1 { return by.clone(); }
    match t { A(h, a) => { let h = (**h).clone(); app(h, a.iter().map(|x| replace(x, k, by)).collect()) } _ => t.clone() }
}
fn targs(t: &T) -> usize { match t { A(_, a) => 1 + a.iter().map(targs).sum::<usize>(), _ => 1 } }

struct Names<'a>(&'a dyn Fn(usize) -> String);
fn show(t: &T, n: &Names) -> String {
    match t {
        V(v) => format!("?{}", v), G(g) => (n.0)(*g), C(s) => s.clone(),
        A(h, a) => {
            let a = a.iter().map(|x| show(x, n)).collect::<Vec<_>>().join(" ");
            match &**h { C(s) if s.starts_with("->") => format!("(-> {})", a), C(s) if tuple_con(s) => format!("(: {})", a), h => format!("({} {})", show(h, n), a) }
        }
    }
}
fn tuple_con(s: &str) -> bool { s.len() > 1 && s.starts_with('T') && s[1..].bytes().all(|b| b.is_ascii_digit()) }

// ------------------------------------------------------------------ programs

#[derive(Clone, Debug)]
enum P { Wild, Var(String), As(String, Box<P>), Con(String, Vec<P>), Int(u64), Str(String), Chr(char) }
#[derive(Clone, Debug)]
enum B { Var(String, Option<T>, E), Fun(String, Vec<String>, Option<Scheme>, E) }
#[derive(Clone, Debug)]
enum E { Var(String), Con(String), Int(u64), Flo, Str(String), Chr(char), App(Box<E>, Vec<E>), Ann(Box<E>, T), Let(Vec<B>, Box<E>), If(Box<E>, Box<E>, Box<E>), While(Box<E>, Box<E>), Match(Box<E>, Vec<(P, E)>), Seq(Vec<E>), Return(Box<E>), Ret0 }

#[derive(Clone, Debug)]
struct Data { name: String, value: bool, params: Vec<(usize, Kind)>, cons: Vec<(String, Vec<T>)> }
#[derive(Clone, Debug)]
struct Class { name: String, params: Vec<(usize, Kind)>, supers: Vec<Con>, methods: Vec<Method> }
#[derive(Clone, Debug)]
struct Method { name: String, sch: Scheme, default: Option<(Vec<String>, E)> }
#[derive(Clone, Debug)]
struct Inst { name: String, class: usize, gens: Vec<(usize, Kind)>, args: Vec<T>, cons: Vec<Con>, methods: Vec<(usize, Option<Scheme>, Vec<String>, E)> }
#[derive(Clone, Debug)]
struct Fun { name: String, params: Option<Vec<String>>, ann: Option<Scheme>, body: E }
#[derive(Clone, Debug, Default)]
struct Prog { data: Vec<Data>, classes: Vec<Class>, insts: Vec<Inst>, funs: Vec<Fun>, inits: Vec<E> }

const NUMS: [&str; 10] = ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64"];
const NUMBER: usize = 1000;
const FPNUMBER: usize = 1001;

impl Prog {
    fn class_name(&self, k: usize) -> String { match k { NUMBER => "Number".into(), FPNUMBER => "FPNumber".into(), _ => self.classes[k].name.clone() } }
    fn show(&self, t: &T) -> String { show(t, &Names(&|g| format!("A{}", g))) }
    fn con_text(&self, cs: &[Con]) -> String {
        if cs.is_empty() { return String::new(); }
        format!(" (where{})", cs.iter().map(|x| format!(" {}", self.one_con(x))).collect::<String>())
    }
    fn one_con(&self, x: &Con) -> String { format!("({} {})", self.class_name(x.0), x.1.iter().map(|t| self.show(t)).collect::<Vec<_>>().join(" ")) }
    fn gens_text(&self, g: &[(usize, Kind)]) -> String { if g.is_empty() { String::new() } else { format!("(forall {}) ", g.iter().map(|x| gen_text(x)).collect::<Vec<_>>().join(" ")) } }
    fn scheme(&self, s: &Scheme) -> String { format!("{{{}{}{}}}", self.gens_text(&s.gens), self.show(&s.body), self.con_text(&s.cons)) }
    fn pat(&self, p: &P) -> String {
        match p {
            P::Wild => "_".into(), P::Var(x) => format!("(let {})", x), P::As(x, q) => format!("(let {} {})", x, self.pat(q)),
            P::Con(n, a) if a.is_empty() => n.clone(),
            P::Con(n, a) => format!("({} {})", n, a.iter().map(|x| self.pat(x)).collect::<Vec<_>>().join(" ")),
            P::Int(k) => k.to_string(), P::Str(s) => format!("\"{}\"", s), P::Chr(ch) => format!("#\\{}", ch),
        }
    }
    fn expr(&self, e: &E) -> String {
        let g = |x: &E| self.expr(x);
        let all = |v: &[E]| v.iter().map(|x| self.expr(x)).collect::<Vec<_>>().join(" ");
        match e {
            E::Var(n) | E::Con(n) => n.clone(), E::Int(k) => k.to_string(), E::Flo => "2.5".into(), E::Str(s) => format!("\"{}\"", s), E::Chr(ch) => format!("#\\{}", ch),
            E::App(f, a) => if a.is_empty() { format!("({})", g(f)) } else { format!("({} {})", g(f), all(a)) },
            E::Ann(x, t) => format!("{} {{{}}}", g(x), self.show(t)),
            E::Let(b, x) => format!("(let ({}) {})", b.iter().map(|y| match y {
                B::Var(n, t, i) => format!("[{}{} {}]", n, t.as_ref().map_or(String::new(), |t| format!(" {{{}}}", self.show(t))), g(i)),
                B::Fun(n, ps, s, i) => format!("[({}{}){} {}]", n, ps.iter().map(|p| format!(" {}", p)).collect::<String>(), s.as_ref().map_or(String::new(), |s| format!(" {}", self.scheme(s))), g(i)),
            }).collect::<Vec<_>>().join(" "), g(x)),
            E::If(a, b, d) => format!("(if {} {} {})", g(a), g(b), g(d)),
            E::While(a, b) => format!("(while {} {})", g(a), g(b)),
            E::Match(x, cl) => format!("(match {} {})", g(x), cl.iter().map(|(p, b)| format!("[{} {}]", self.pat(p), g(b))).collect::<Vec<_>>().join(" ")),
            E::Seq(v) => format!("(begin {})", all(v)),
            E::Return(x) => format!("(return {})", g(x)),
            E::Ret0 => "(return)".into(),
        }
    }
    fn head(&self, n: &str, ps: &Option<Vec<String>>) -> String { match ps { None => n.into(), Some(p) => format!("({}{})", n, p.iter().map(|x| format!(" {}", x)).collect::<String>()) } }
    fn text(&self) -> String {
        let mut o = String::from("(no-implicit-std)\n(import \"builtin\" _)\n");
        for d in &self.data {
            let h = if d.params.is_empty() { d.name.clone() } else { format!("({} {})", d.name, d.params.iter().map(gen_text).collect::<Vec<_>>().join(" ")) };
            let _ = write!(o, "({} {}", if d.value { "value-data" } else { "data" }, h);
            for (n, f) in &d.cons { let _ = if f.is_empty() { write!(o, " {}", n) } else { write!(o, " ({} {})", n, f.iter().map(|t| self.show(t)).collect::<Vec<_>>().join(" ")) }; }
            o.push_str(")\n");
        }
        for k in &self.classes {
            let h = format!("({} {})", k.name, k.params.iter().map(gen_text).collect::<Vec<_>>().join(" "));
            let _ = write!(o, "(class {}{}", h, self.con_text(&k.supers));
            for m in &k.methods {
                let _ = match &m.default { None => write!(o, "\n  (function {} {})", self.head(&m.name, &match &m.sch.body { A(_, a) if is_fun(&m.sch.body) => Some((1..a.len()).map(|k| format!("p{}", k)).collect()), _ => None }), self.scheme(&m.sch)), Some((p, b)) => write!(o, "\n  (function {} {} {})", self.head(&m.name, &mp(&m.sch, p)), self.scheme(&m.sch), self.expr(b)) };
            }
            o.push_str(")\n");
        }
        for i in &self.insts {
            let _ = write!(o, "(instance {} {}{}{}", i.name, self.gens_text(&i.gens), self.one_con(&(i.class, i.args.clone())), self.con_text(&i.cons));
            for (m, s, p, b) in &i.methods { let _ = write!(o, "\n  (function {}{} {})", self.head(&self.classes[i.class].methods[*m].name, &mp(&self.classes[i.class].methods[*m].sch, p)), s.as_ref().map_or(String::new(), |s| format!(" {}", self.scheme(s))), self.expr(b)); }
            o.push_str(")\n");
        }
        for f in &self.funs { let _ = writeln!(o, "(function {}{}\n  {})", self.head(&f.name, &f.params), f.ann.as_ref().map_or(String::new(), |s| format!(" {}", self.scheme(s))), self.expr(&f.body)); }
        for e in &self.inits { let _ = writeln!(o, "{}", self.expr(e)); }
        o
    }
}

// ------------------------------------------------------------------ the reference type checker

#[derive(Clone, Debug)]
enum En { Mono(T), Poly(Scheme) }
type Env = Vec<(String, En)>;
#[derive(Debug)]
enum No { Ill(String), Unjudged(&'static str) }
type R<X> = Result<X, No>;
fn ill<X>(s: impl Into<String>) -> R<X> { Err(No::Ill(s.into())) }

struct Scope { premise: Vec<Con>, cons: Vec<Con>, gens: Vec<usize> }

struct Inf<'a> { p: &'a Prog, sub: Vec<Option<T>>, kinds: Vec<Kind>, gk: HashMap<usize, Kind>, ck: HashMap<String, Kind>, con_sch: HashMap<String, Scheme>, next_gen: usize, higher: Vec<usize> }

impl<'a> Inf<'a> {
    fn new(p: &'a Prog) -> Self {
        let mut ck = HashMap::new();
        for n in NUMS.iter().chain(&["Bool", "String", "Char", "unit"]) { ck.insert(n.to_string(), 0); }
        ck.insert("Option".into(), 1); ck.insert("Result".into(), 2);
        for k in 0..8u8 { ck.insert(format!("->{}", k), k + 1); if k > 0 { ck.insert(format!("T{}", k), k); } }
        let mut gk = HashMap::new();
        let mut cs = HashMap::new();
        for (n, b) in [("#t", c("Bool")), ("#f", c("Bool")), ("unit", c("unit"))] { cs.insert(n.to_string(), Scheme { gens: vec![], cons: vec![], body: b }); }
        let (a, b) = (900_000, 900_001);
        gk.insert(a, 0); gk.insert(b, 0);
        let opt = app(c("Option"), vec![G(a)]);
        let res = app(c("Result"), vec![G(a), G(b)]);
        cs.insert("none".into(), Scheme { gens: vec![(a, 0)], cons: vec![], body: opt.clone() });
        cs.insert("some".into(), Scheme { gens: vec![(a, 0)], cons: vec![], body: fun(vec![G(a)], opt) });
        cs.insert("err".into(), Scheme { gens: vec![(a, 0), (b, 0)], cons: vec![], body: fun(vec![G(b)], res.clone()) });
        cs.insert("ok".into(), Scheme { gens: vec![(a, 0), (b, 0)], cons: vec![], body: fun(vec![G(a)], res) });
        for n in 1..5usize {
            let g: Vec<usize> = (0..n).map(|i| 900_010 + i).collect();
            for x in &g { gk.insert(*x, 0); }
            cs.insert(format!(":{}", n), Scheme { gens: g.iter().map(|x| (*x, 0)).collect(), cons: vec![], body: fun(g.iter().map(|x| G(*x)).collect(), tuple(g.iter().map(|x| G(*x)).collect())) });
        }
        for d in &p.data {
            ck.insert(d.name.clone(), match d.params.len() { 1 if d.params[0].1 == 1 => 10, n => n as Kind });
            for x in &d.params { gk.insert(x.0, x.1); }
            let me = if d.params.is_empty() { C(d.name.clone()) } else { app(C(d.name.clone()), d.params.iter().map(|x| G(x.0)).collect()) };
            for (n, f) in &d.cons { cs.insert(n.clone(), Scheme { gens: d.params.clone(), cons: vec![], body: if f.is_empty() { me.clone() } else { fun(f.clone(), me.clone()) } }); }
        }
        for k in &p.classes { for x in &k.params { gk.insert(x.0, x.1); } for m in &k.methods { for x in &m.sch.gens { gk.insert(x.0, x.1); } } }
        for i in &p.insts { for x in &i.gens { gk.insert(x.0, x.1); } }
        Inf { p, sub: vec![], kinds: vec![], gk, ck, con_sch: cs, next_gen: 1_000_000, higher: vec![] }
    }
    fn var(&mut self, k: Kind) -> T { self.sub.push(None); self.kinds.push(k); V(self.sub.len() - 1) }
    fn star(&mut self) -> T { self.var(0) }
    fn res(&self, t: &T) -> T {
        match t {
            V(v) => match &self.sub[*v] { Some(x) => self.res(x), None => t.clone() },
            A(h, a) => app(self.res(h), a.iter().map(|x| self.res(x)).collect()),
            _ => t.clone(),
        }
    }
    fn kind(&self, t: &T) -> Kind { match t { V(v) => self.kinds[*v], G(g) => *self.gk.get(g).unwrap_or(&0), C(n) => *self.ck.get(n).unwrap_or(&0), A(..) => 0 } }
    fn occurs(&self, v: usize, t: &T) -> bool { match t { V(w) => v == *w, A(h, a) => self.occurs(v, h) || a.iter().any(|x| self.occurs(v, x)), _ => false } }
    fn unify(&mut self, a: &T, b: &T) -> bool {
        let (a, b) = (self.res(a), self.res(b));
        match (&a, &b) {
            (V(x), V(y)) if x == y => true,
            (V(x), o) | (o, V(x)) => { if self.kinds[*x] != self.kind(o) || self.occurs(*x, o) { return false; } self.sub[*x] = Some(o.clone()); true }
            (A(h, u), A(g, w)) => u.len() == w.len() && self.unify(h, g) && u.iter().zip(w).all(|(x, y)| self.unify(x, y)),
            _ => a == b,
        }
    }
    fn unify_or(&mut self, a: &T, b: &T) -> R<()> {
        if self.unify(a, b) { Ok(()) } else { let (a, b) = (self.res(a), self.res(b)); ill(format!("{} is not {}", self.p.show(&a), self.p.show(&b))) }
    }
    /// One-way: pattern generics are bound, the target stands as it is.
    fn matches(&self, pat: &T, t: &T, own: &[(usize, Kind)], m: &mut HashMap<usize, T>) -> bool {
        match (pat, t) {
            (G(g), _) if own.iter().any(|x| x.0 == *g) => {
                if let Some(o) = m.get(g) { return o == t; }
                if self.kind(t) != self.gk[g] { return false; }
                m.insert(*g, t.clone());
                true
            }
            (A(h, u), A(g, w)) => u.len() == w.len() && self.matches(h, g, own, m) && u.iter().zip(w).all(|(x, y)| self.matches(x, y, own, m)),
            _ => pat == t,
        }
    }
    fn inst(&mut self, s: &Scheme) -> (T, Vec<Con>) {
        let m: HashMap<usize, T> = s.gens.iter().map(|(g, k)| (*g, self.var(*k))).collect();
        (subst(&s.body, &m), s.cons.iter().map(|(k, a)| (*k, a.iter().map(|x| subst(x, &m)).collect())).collect())
    }
    fn supers(&self, k: &Con) -> Vec<Con> {
        if k.0 >= NUMBER { return vec![]; }
        let cl = &self.p.classes[k.0];
        let m: HashMap<usize, T> = cl.params.iter().map(|x| x.0).zip(k.1.iter().cloned()).collect();
        cl.supers.iter().map(|(s, a)| (*s, a.iter().map(|x| subst(x, &m)).collect())).collect()
    }
    fn premise(&self, cs: &[Con], o: &mut Vec<Con>) { for k in cs { let s = self.supers(k); self.premise(&s, o); o.push(k.clone()); } }
    fn solve(&self, premise: &[Con], k: &Con, depth: u32) -> bool {
        if depth > 20 { return false; }
        let args: Vec<T> = k.1.iter().map(|x| self.res(x)).collect();
        if premise.iter().any(|q| q.0 == k.0 && q.1.iter().map(|x| self.res(x)).eq(args.iter().cloned())) { return true; }
        if k.0 >= NUMBER { return matches!(&args[0], C(n) if if k.0 == NUMBER { NUMS.contains(&n.as_str()) } else { n == "F32" || n == "F64" }); }
        for i in self.p.insts.iter().filter(|i| i.class == k.0) {
            let mut m = HashMap::new();
            if i.args.iter().zip(&args).all(|(x, y)| self.matches(x, y, &i.gens, &mut m)) {
                return i.cons.iter().all(|(q, a)| self.solve(premise, &(*q, a.iter().map(|x| subst(x, &m)).collect()), depth + 1));
            }
        }
        false
    }
    fn free(&self, t: &T, o: &mut BTreeSet<usize>) { match self.res(t) { V(v) => { o.insert(v); } A(h, a) => { self.free(&h, o); a.iter().for_each(|x| self.free(x, o)) } _ => {} } }
    fn rigid(&self, t: &T, o: &mut BTreeSet<usize>) { match self.res(t) { G(g) => { o.insert(g); } A(h, a) => { self.rigid(&h, o); a.iter().for_each(|x| self.rigid(x, o)) } _ => {} } }
    fn env_free(&self, env: &Env) -> BTreeSet<usize> { let mut o = BTreeSet::new(); for (_, e) in env { match e { En::Mono(t) => self.free(t, &mut o), En::Poly(s) => self.free(&s.body, &mut o) } } o }

    /// The end of a scope: what becomes a parameter, what is defaulted, what is left to the outer scope, what must hold.
    fn finish(&mut self, sc: Scope, quantify: &[usize], outer: Option<(&mut Scope, &BTreeSet<usize>)>) -> R<(Vec<(usize, Kind)>, Vec<Con>)> {
        let (mut params, mut here, mut later) = (vec![], vec![], vec![]);
        let mut default: Vec<(usize, Vec<Con>)> = vec![];
        for k in sc.cons {
            let mut vs = BTreeSet::new();
            let mut gs = BTreeSet::new();
            k.1.iter().for_each(|t| { self.free(t, &mut vs); self.rigid(t, &mut gs) });
            let own: Vec<usize> = vs.iter().filter(|v| outer.as_ref().map_or(true, |o| !o.1.contains(v))).cloned().collect();
            if outer.is_some() && own.is_empty() && !gs.iter().any(|g| sc.gens.contains(g)) { later.push(k); continue; }
            if !own.is_empty() && own.iter().all(|v| quantify.contains(v)) { params.push(k); continue; }
            for v in own { if !quantify.contains(&v) { match default.iter_mut().find(|d| d.0 == v) { Some(d) => d.1.push(k.clone()), None => default.push((v, vec![k.clone()])) } } }
            here.push(k);
        }
        let mut gens = vec![];
        for v in quantify {
            let g = self.next_gen;
            self.next_gen += 1;
            self.gk.insert(g, self.kinds[*v]);
            self.sub[*v] = Some(G(g));
            gens.push((g, self.kinds[*v]));
        }
        if default.len() > 1 && default.iter().any(|d| d.1.iter().any(|k| k.1.len() > 1)) { return Err(No::Unjudged("several ambiguous variables in one constraint")); }
        for (v, ks) in default {
            let on = |n: usize| ks.iter().any(|k| k.0 == n && k.1[0] == V(v) || k.0 == n && self.res(&k.1[0]) == V(v));
            let t = if on(FPNUMBER) { c("F64") } else if on(NUMBER) { c("I32") } else { c("unit") };
            if !self.unify(&V(v), &t) { return ill("an ambiguous variable of another kind"); }
        }
        let mut outer = outer;
        for k in later { if !self.solve(&sc.premise, &k, 0) { outer.as_mut().unwrap().0.cons.push(k); } }
        for k in here { if !self.solve(&sc.premise, &k, 0) { let k = (k.0, k.1.iter().map(|x| self.res(x)).collect()); return ill(format!("no instance {}", self.p.one_con(&k))); } }
        let params = params.into_iter().map(|(k, a)| (k, a.iter().map(|x| self.res(x)).collect())).collect();
        Ok((gens, params))
    }

    fn look(&self, env: &Env, n: &str) -> Option<En> { env.iter().rev().find(|x| x.0 == n).map(|x| x.1.clone()) }
    fn use_(&mut self, sc: &mut Scope, e: En) -> T {
        match e { En::Mono(t) => t, En::Poly(s) => { let n = self.sub.len(); let (t, k) = self.inst(&s); sc.cons.extend(k); for v in n..self.sub.len() { if self.kinds[v] != 0 { self.higher.push(v); } } t } }
    }
    fn pattern(&mut self, sc: &mut Scope, env: &mut Env, p: &P) -> R<T> {
        Ok(match p {
            P::Wild => self.star(),
            P::Var(x) => { let v = self.star(); env.push((x.clone(), En::Mono(v.clone()))); v }
            P::As(x, q) => { let v = self.star(); env.push((x.clone(), En::Mono(v.clone()))); let t = self.pattern(sc, env, q)?; self.unify_or(&v, &t)?; v }
            P::Con(n, a) => {
                let n = if n == ":" { format!(":{}", a.len()) } else { n.clone() };
                let s = self.con_sch[&n].clone();
                let arity = match &s.body { A(h, x) if matches!(&**h, C(s) if s.starts_with("->")) => x.len() - 1, _ => 0 };
                if arity != a.len() { return ill("pattern arity"); }
                let t = self.use_(sc, En::Poly(s));
                if a.is_empty() { return Ok(t); }
                let ts = a.iter().map(|x| self.pattern(sc, env, x)).collect::<R<Vec<_>>>()?;
                let r = self.star();
                self.unify_or(&t, &fun(ts, r.clone()))?;
                r
            }
            P::Int(_) => { let v = self.star(); sc.cons.push((NUMBER, vec![v.clone()])); v }
            P::Str(_) => c("String"),
            P::Chr(_) => c("Char"),
        })
    }
    fn expr(&mut self, sc: &mut Scope, env: &mut Env, ret: Option<&T>, e: &E) -> R<T> {
        Ok(match e {
            E::Var(n) => { let en = self.look(env, n).unwrap_or_else(|| panic!("unbound {}", n)); self.use_(sc, en) }
            E::Con(n) => { let s = self.con_sch[n].clone(); self.use_(sc, En::Poly(s)) }
            E::Int(_) => { let v = self.star(); sc.cons.push((NUMBER, vec![v.clone()])); v }
            E::Flo => { let v = self.star(); sc.cons.push((FPNUMBER, vec![v.clone()])); v }
            E::Str(_) => c("String"),
            E::Chr(_) => c("Char"),
            E::App(f, a) => {
                let ft = match &**f { E::Con(n) if n == ":" => { let s = self.con_sch[&format!(":{}", a.len())].clone(); self.use_(sc, En::Poly(s)) } _ => self.expr(sc, env, ret, f)? };
                let ts = a.iter().map(|x| self.expr(sc, env, ret, x)).collect::<R<Vec<_>>>()?;
                let r = self.star();
                self.unify_or(&ft, &fun(ts, r.clone()))?;
                r
            }
            E::Ann(x, t) => { let a = self.expr(sc, env, ret, x)?; self.well_kinded(t)?; self.unify_or(&a, t)?; a }
            E::If(a, b, d) => { let x = self.expr(sc, env, ret, a)?; self.unify_or(&x, &c("Bool"))?; let x = self.expr(sc, env, ret, b)?; let y = self.expr(sc, env, ret, d)?; self.unify_or(&x, &y)?; x }
            E::While(a, b) => { let x = self.expr(sc, env, ret, a)?; self.unify_or(&x, &c("Bool"))?; self.expr(sc, env, ret, b)?; c("unit") }
            E::Match(x, cl) => {
                let t = self.expr(sc, env, ret, x)?;
                let r = self.star();
                for (p, b) in cl {
                    let m = env.len();
                    let q = self.pattern(sc, env, p)?;
                    self.unify_or(&t, &q)?;
                    let y = self.expr(sc, env, ret, b)?;
                    self.unify_or(&r, &y)?;
                    env.truncate(m);
                }
                r
            }
            E::Seq(v) => { let mut t = c("unit"); for x in v { t = self.expr(sc, env, ret, x)?; } t }
            E::Ret0 => {
                let Some(r) = ret else { return ill("return outside a function") };
                self.unify_or(r, &c("unit"))?;
                self.star()
            }
            E::Return(x) => {
                let Some(r) = ret else { return ill("return outside a function") };
                let t = self.expr(sc, env, ret, x)?;
                self.unify_or(r, &t)?;
                self.star()
            }
            E::Let(bs, body) => {
                let m = env.len();
                let fs: Vec<(&String, &Vec<String>, &Option<Scheme>, &E)> = bs.iter().filter_map(|b| match b { B::Fun(n, p, s, e) => Some((n, p, s, e)), _ => None }).collect();
                for f in &fs { if let Some(s) = f.2 { self.well_kinded_scheme(s)?; env.push((f.0.clone(), En::Poly(s.clone()))); } }
                let free: Vec<usize> = (0..fs.len()).filter(|k| fs[*k].2.is_none()).collect();
                for group in groups(&free, &|k| { let mut o = vec![]; uses(fs[k].3, &mut o); free.iter().filter(|j| o.contains(fs[**j].0)).cloned().collect() }) {
                    let v: Vec<(String, Option<Vec<String>>, &E)> = group.iter().map(|k| (fs[*k].0.clone(), Some(fs[*k].1.clone()), fs[*k].3)).collect();
                    let schemes = self.implicit(&v, env, Some(sc))?;
                    for (f, s) in v.iter().zip(schemes) { env.push((f.0.clone(), En::Poly(s))); }
                }
                for f in &fs { if let Some(s) = f.2 { self.explicit(s, &Some(f.1.clone()), f.3, env, Some(sc))?; } }
                let mut vars = vec![];
                for b in bs { if let B::Var(n, t, i) = b {
                    let x = self.expr(sc, env, ret, i)?;
                    if let Some(t) = t { self.well_kinded(t)?; self.unify_or(&x, t)?; }
                    vars.push((n.clone(), En::Mono(x.clone())));
                    // in the environment for the generalisation inside later initialisers only by what it shares
                } }
                env.extend(vars);
                let t = self.expr(sc, env, ret, body)?;
                env.truncate(m);
                t
            }
        })
    }
    fn params(&mut self, ps: &Option<Vec<String>>, env: &mut Env, ft: &T) -> R<T> {
        let Some(ps) = ps else { return Ok(ft.clone()) };
        let ts: Vec<T> = ps.iter().map(|_| self.star()).collect();
        let r = self.star();
        self.unify_or(ft, &fun(ts.clone(), r.clone()))?;
        for (p, t) in ps.iter().zip(ts) { env.push((p.clone(), En::Mono(t))); }
        Ok(r)
    }
    fn implicit(&mut self, fs: &[(String, Option<Vec<String>>, &E)], env: &mut Env, outer: Option<&mut Scope>) -> R<Vec<Scheme>> {
        let m = env.len();
        let fixed = self.env_free(env);
        let mut sc = Scope { premise: outer.as_ref().map_or(vec![], |o| o.premise.clone()), cons: vec![], gens: vec![] };
        let ts: Vec<T> = fs.iter().map(|_| self.star()).collect();
        for (f, t) in fs.iter().zip(&ts) { env.push((f.0.clone(), En::Mono(t.clone()))); }
        // the parameters' shapes are known before the bodies
        let mut rets = vec![];
        for (f, t) in fs.iter().zip(&ts) {
            let k = env.len();
            let r = self.params(&f.1, env, t)?;
            rets.push((env.split_off(k), r));
        }
        for (f, (ps, r)) in fs.iter().zip(rets) {
            let k = env.len();
            env.extend(ps);
            let b = self.expr(&mut sc, env, Some(&r), f.2)?;
            self.unify_or(&r, &b)?;
            env.truncate(k);
        }
        env.truncate(m);
        let fixed: BTreeSet<usize> = { let mut o = BTreeSet::new(); for v in &fixed { self.free(&V(*v), &mut o); } o };
        let per: Vec<BTreeSet<usize>> = ts.iter().map(|t| { let mut o = BTreeSet::new(); self.free(t, &mut o); o.difference(&fixed).cloned().collect() }).collect();
        if per.iter().any(|s| *s != per[0]) { return Err(No::Unjudged("a group of functions with other variables in each type")); }
        let q: Vec<usize> = per[0].iter().cloned().collect();
        let (gens, cons) = self.finish(sc, &q, outer.map(|o| (o, &fixed)))?;
        Ok(ts.iter().map(|t| Scheme { gens: gens.clone(), cons: cons.clone(), body: self.res(t) }).collect())
    }
    fn explicit(&mut self, s: &Scheme, ps: &Option<Vec<String>>, body: &E, env: &mut Env, outer: Option<&mut Scope>) -> R<()> {
        let m = env.len();
        for g in &s.gens { self.gk.insert(g.0, g.1); }
        let mut premise = outer.as_ref().map_or(vec![], |o| o.premise.clone());
        self.premise(&s.cons, &mut premise);
        let own: Vec<usize> = s.gens.iter().map(|g| g.0).collect();
        let mut sc = Scope { premise, cons: vec![], gens: own.clone() };
        let r = self.params(ps, env, &s.body)?;
        let b = self.expr(&mut sc, env, Some(&r), body)?;
        self.unify_or(&r, &b)?;
        env.truncate(m);
        let mut esc = BTreeSet::new();
        for (_, e) in env.iter() { if let En::Mono(t) = e { self.rigid(t, &mut esc); } else if let En::Poly(q) = e { let mut f = BTreeSet::new(); self.free(&q.body, &mut f); } }
        if outer.is_some() && own.iter().any(|g| esc.contains(g)) { return ill("a type variable escapes its scope"); }
        let fixed = self.env_free(env);
        self.finish(sc, &[], outer.map(|o| (o, &fixed)))?;
        Ok(())
    }
    fn well_kinded(&self, t: &T) -> R<()> { match self.kinds_ok(t) { Some(0) => Ok(()), _ => ill(format!("kind of {}", self.p.show(t))) } }
    fn well_kinded_scheme(&mut self, s: &Scheme) -> R<()> {
        for g in &s.gens { self.gk.insert(g.0, g.1); }
        self.well_kinded(&s.body)?;
        for k in &s.cons { self.well_kinded_con(k)?; }
        Ok(())
    }
    fn well_kinded_con(&self, k: &Con) -> R<()> {
        let want: Vec<Kind> = if k.0 >= NUMBER { vec![0] } else { self.p.classes[k.0].params.iter().map(|x| x.1).collect() };
        if want.len() != k.1.len() || k.1.iter().zip(want).any(|(t, w)| self.kinds_ok(t) != Some(w)) { return ill("kind of a constraint"); }
        Ok(())
    }
    fn kinds_ok(&self, t: &T) -> Option<Kind> {
        match t {
            A(h, a) => {
                let k = self.kind(h);
                let want = if k == 10 { vec![1] } else { vec![0; k as usize] };
                if want.is_empty() || want.len() != a.len() || a.iter().zip(want).any(|(x, w)| self.kinds_ok(x) != Some(w)) { return None; }
                Some(0)
            }
            C(n) => self.ck.get(n).cloned(),
            t => Some(self.kind(t)),
        }
    }
    fn program(&mut self) -> R<BTreeMap<String, Scheme>> {
        let p = self.p;
        // kinds of what is declared, as far as edits touch it
        for f in &p.funs { if let Some(s) = &f.ann { for g in &s.gens { self.gk.insert(g.0, g.1); } self.well_kinded_scheme(s)?; } }
        for d in &p.data { for (_, f) in &d.cons { for t in f { self.well_kinded(t)?; } } }
        for k in &p.classes { for s in &k.supers { self.well_kinded_con(s)?; } for m in &k.methods { self.well_kinded_scheme(&m.sch)?; } }
        for i in &p.insts { self.well_kinded_con(&(i.class, i.args.clone()))?; for k in &i.cons { self.well_kinded_con(k)?; } }
        // classes, overlaps, superclasses
        for k in 0..p.classes.len() {
            let mut seen = vec![];
            let mut todo: Vec<usize> = p.classes[k].supers.iter().map(|s| s.0).collect();
            while let Some(s) = todo.pop() { if s == k { return ill("cyclic classes"); } if s < NUMBER && !seen.contains(&s) { seen.push(s); todo.extend(p.classes[s].supers.iter().map(|x| x.0)); } }
        }
        for (a, x) in p.insts.iter().enumerate() { for y in &p.insts[a + 1..] {
            if x.class != y.class { continue; }
            let fresh = |me: &mut Self, i: &Inst| { let m: HashMap<usize, T> = i.gens.iter().map(|(g, k)| (*g, me.var(*k))).collect(); i.args.iter().map(|t| subst(t, &m)).collect::<Vec<_>>() };
            let (u, w) = (fresh(self, x), fresh(self, y));
            if u.iter().zip(&w).all(|(s, t)| self.unify(s, t)) { return ill("overlapping instances"); }
        } }
        for i in &p.insts {
            let mut pr = vec![];
            self.premise(&i.cons, &mut pr);
            for s in self.supers(&(i.class, i.args.clone())) { if !self.solve(&pr, &s, 0) { return ill(format!("superclass {} of {}", p.one_con(&s), i.name)); } }
        }
        let mut env: Env = vec![];
        for k in &p.classes { for m in &k.methods {
            let mut gens = m.sch.gens.clone(); gens.extend(k.params.iter().cloned());
            let mut cons = m.sch.cons.clone(); cons.push((p.classes.iter().position(|x| x.name == k.name).unwrap(), k.params.iter().map(|x| G(x.0)).collect()));
            env.push((m.name.clone(), En::Poly(Scheme { gens, cons, body: m.sch.body.clone() })));
        } }
        for f in &p.funs { if let Some(s) = &f.ann { env.push((f.name.clone(), En::Poly(s.clone()))); } }
        let mut out = BTreeMap::new();
        let free: Vec<usize> = (0..p.funs.len()).filter(|k| p.funs[*k].ann.is_none()).collect();
        for group in groups(&free, &|k| { let mut o = vec![]; uses(&p.funs[k].body, &mut o); free.iter().filter(|j| o.contains(&p.funs[**j].name)).cloned().collect() }) {
            let v: Vec<(String, Option<Vec<String>>, &E)> = group.iter().map(|k| (p.funs[*k].name.clone(), p.funs[*k].params.clone(), &p.funs[*k].body)).collect();
            let ss = self.implicit(&v, &mut env, None)?;
            for (f, s) in v.iter().zip(ss) { out.insert(f.0.clone(), s.clone()); env.push((f.0.clone(), En::Poly(s))); }
        }
        for f in &p.funs { if let Some(s) = &f.ann { self.explicit(s, &f.params, &f.body, &mut env, None)?; } }
        for (k, cl) in p.classes.iter().enumerate() { for m in &cl.methods { if let Some((ps, b)) = &m.default {
            let mut s = m.sch.clone();
            s.cons.push((k, cl.params.iter().map(|x| G(x.0)).collect()));
            let ps = mp(&s, ps);
            self.explicit(&s, &ps, b, &mut env, None)?;
        } } }
        for i in &p.insts { for (m, ann, ps, b) in &i.methods {
            let me = &p.classes[i.class].methods[*m].sch;
            let map: HashMap<usize, T> = p.classes[i.class].params.iter().map(|x| x.0).zip(i.args.iter().cloned()).collect();
            let mut s = Scheme { gens: me.gens.clone(), cons: me.cons.iter().map(|(k, a)| (*k, a.iter().map(|x| subst(x, &map)).collect())).collect(), body: subst(&me.body, &map) };
            if let Some(a) = ann {
                for g in &a.gens { self.gk.insert(g.0, g.1); }
                let r: HashMap<usize, T> = a.gens.iter().map(|g| g.0).zip(s.gens.iter().map(|g| G(g.0))).collect();
                let same = a.gens.len() == s.gens.len() && a.cons.len() == s.cons.len() && subst(&a.body, &r) == s.body && a.cons.iter().zip(&s.cons).all(|(x, y)| x.0 == y.0 && x.1.iter().map(|t| subst(t, &r)).eq(y.1.iter().cloned()));
                if !same { return ill("the method's type is another"); }
                s = a.clone();
            }
            s.cons.extend(i.cons.iter().cloned());
            let ps = mp(me, ps);
            self.explicit(&s, &ps, b, &mut env, None)?;
        } }
        for e in &p.inits {
            let mut sc = Scope { premise: vec![], cons: vec![], gens: vec![] };
            self.expr(&mut sc, &mut env, None, e)?;
            self.finish(sc, &[], None)?;
        }
        // nothing stands for an ambiguous variable of another kind than *
        for v in self.higher.clone() { if let V(_) = self.res(&V(v)) { return ill("an ambiguous variable of another kind"); } }
        Ok(out)
    }

    /// Constraints as far as instances and superclasses reduce them, in a set.
    fn reduce(&self, cs: &[Con]) -> Vec<Con> {
        let mut o: Vec<Con> = vec![];
        let mut todo: Vec<(Con, u32)> = cs.iter().map(|k| (k.clone(), 0)).collect();
        while let Some((k, d)) = todo.pop() {
            let mut done = false;
            if k.0 < NUMBER && d < 20 { for i in self.p.insts.iter().filter(|i| i.class == k.0) {
                let mut m = HashMap::new();
                if i.args.iter().zip(&k.1).all(|(x, y)| self.matches(x, y, &i.gens, &mut m)) { todo.extend(i.cons.iter().map(|(q, a)| ((*q, a.iter().map(|x| subst(x, &m)).collect()), d + 1))); done = true; break; }
            } } else if matches!(&k.1[0], C(_)) { done = self.solve(&[], &k, 0); }
            if !done { o.push(k); }
        }
        let mut all = o.clone();
        for k in &o { let mut pr = vec![]; self.premise(&self.supers(k), &mut pr); for q in pr { all.retain(|x| *x != q); } }
        all.sort();
        all.dedup();
        all
    }
    fn canonical(&self, s: &Scheme) -> String {
        let mut order = vec![];
        gens_of(&s.body, &mut order);
        let m: HashMap<usize, T> = order.iter().enumerate().map(|(i, g)| (*g, C(format!("'{}", i)))).collect();
        let mut ks: Vec<String> = self.reduce(&s.cons).iter().map(|(k, a)| self.p.one_con(&(*k, a.iter().map(|x| subst(x, &m)).collect()))).collect();
        ks.sort();
        format!("{} where {}", self.p.show(&subst(&s.body, &m)), ks.join(" "))
    }
}

/// Names used in an expression.
fn uses(e: &E, o: &mut Vec<String>) {
    match e {
        E::Var(n) => o.push(n.clone()),
        E::App(f, a) => { uses(f, o); a.iter().for_each(|x| uses(x, o)) }
        E::Ann(x, _) | E::Return(x) => uses(x, o),
        E::Let(b, x) => { for y in b { match y { B::Var(_, _, i) | B::Fun(_, _, _, i) => uses(i, o) } } uses(x, o) }
        E::If(a, b, d) => { uses(a, o); uses(b, o); uses(d, o) }
        E::While(a, b) => { uses(a, o); uses(b, o) }
        E::Match(x, cl) => { uses(x, o); cl.iter().for_each(|y| uses(&y.1, o)) }
        E::Seq(v) => v.iter().for_each(|x| uses(x, o)),
        _ => {}
    }
}

/// Strongly connected groups, those depended on first.
fn groups(ids: &[usize], deps: &dyn Fn(usize) -> Vec<usize>) -> Vec<Vec<usize>> {
    let mut reach: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for &i in ids {
        let mut seen = BTreeSet::new();
        let mut todo = deps(i);
        while let Some(j) = todo.pop() { if seen.insert(j) { todo.extend(deps(j)); } }
        reach.insert(i, seen);
    }
    let mut out: Vec<Vec<usize>> = vec![];
    let mut left: Vec<usize> = ids.to_vec();
    while !left.is_empty() {
        let k = *left.iter().find(|i| reach[i].iter().all(|j| !left.contains(j) || reach[j].contains(i))).unwrap();
        let g: Vec<usize> = left.iter().filter(|j| **j == k || reach[&k].contains(j) && reach[j].contains(&k)).cloned().collect();
        left.retain(|j| !g.contains(j));
        out.push(g);
    }
    out
}

// ------------------------------------------------------------------ generation

struct Gen<'a> { t: &'a mut Tape, p: Prog, gid: usize, xid: usize, countdown: isize, hk: Vec<String> }

struct Cx { env: Vec<(String, Scheme)>, gens: Vec<(usize, Kind)>, premise: Vec<Con>, ret: Option<T> }

impl<'a> Gen<'a> {
    fn g(&mut self) -> usize { self.gid += 1; self.gid }
    fn x(&mut self) -> String { self.xid += 1; format!("x{}", self.xid) }
    fn base(&mut self) -> T { let n = *self.t.pick(&["I32", "Bool", "String", "unit", "F64", "Char", "U8", "I64"]); c(n) }
    fn ty(&mut self, d: u32, gens: &[(usize, Kind)]) -> T {
        if !gens.is_empty() && self.t.chance(1, 3) {
            let (g, k) = *self.t.pick(gens);
            return match k { 0 => G(g), 10 => c("I32"), k => if d == 0 { app(G(g), vec![c("I32"); k as usize]) } else { app(G(g), (0..k).map(|_| self.ty(d - 1, gens)).collect()) } };
        }
        if d == 0 { return self.base(); }
        match self.t.below(9) {
            0 | 1 => self.base(),
            2 => app(c("Option"), vec![self.ty(d - 1, gens)]),
            3 => { let n = self.t.range(2, 3); tuple((0..n).map(|_| self.ty(d - 1, gens)).collect()) }
            4 => app(c("Result"), vec![self.ty(d - 1, gens), self.ty(d - 1, gens)]),
            5 => { let n = self.t.below(3); let a = (0..n).map(|_| self.ty(d - 1, gens)).collect(); fun(a, self.ty(d - 1, gens)) }
            _ => {
                if self.p.data.is_empty() { return self.base(); }
                let k = self.t.below(self.p.data.len() as u64) as usize;
                let ps: Vec<Kind> = self.p.data[k].params.iter().map(|x| x.1).collect();
                let n = self.p.data[k].name.clone();
                if ps.is_empty() { C(n) } else { let a = ps.iter().map(|q| if *q == 1 { self.hk_arg(gens) } else { self.ty(d - 1, gens) }).collect(); app(C(n), a) }
            }
        }
    }
    fn hk_arg(&mut self, gens: &[(usize, Kind)]) -> T {
        let own: Vec<usize> = gens.iter().filter(|g| g.1 == 1).map(|g| g.0).collect();
        if !own.is_empty() && self.t.bool() { return G(*self.t.pick(&own)); }
        C(self.t.pick(&self.hk.clone()).clone())
    }
    fn decls(&mut self) {
        self.hk = vec!["Option".into()];
        for k in 0..self.t.below(4) as usize {
            let name = format!("D{}", k);
            let n = self.t.below(3) as usize;
            let hk = n == 1 && self.t.chance(1, 3);
            let params: Vec<(usize, Kind)> = (0..n).map(|_| (self.g(), hk as Kind)).collect();
            let me = if n == 0 { C(name.clone()) } else { app(C(name.clone()), params.iter().map(|x| G(x.0)).collect()) };
            let value = self.t.chance(1, 4);
            let nc = self.t.range(1, 3);
            let mut cons = vec![];
            for j in 0..nc {
                let m = self.t.below(3) as usize;
                let mut f: Vec<T> = (0..m).map(|_| if !value && self.t.chance(1, 4) { me.clone() } else { self.ty(1, &params) }).collect();
                if hk && j == 0 { let a = self.base(); f.insert(0, app(G(params[0].0), vec![a])); }
                cons.push((format!("c{}{}", k, j), f));
            }
            if n == 1 && !hk { self.hk.push(name.clone()); }
            self.p.data.push(Data { name, value, params, cons });
        }
        for k in 0..self.t.below(4) as usize {
            let np = if self.t.chance(1, 5) { 2 } else { 1 };
            let kind = if np == 1 && self.t.chance(1, 4) { 1 } else { 0 };
            let params: Vec<(usize, Kind)> = (0..np).map(|_| (self.g(), kind)).collect();
            let mut supers = vec![];
            for s in 0..k { if self.t.chance(1, 3) && self.p.classes[s].params.len() == 1 && self.p.classes[s].params[0].1 == kind { supers.push((s, vec![G(params[0].0)])); } }
            let mut methods = vec![];
            for j in 0..self.t.range(1, 2) {
                let own: Vec<(usize, Kind)> = (0..self.t.below(2) + (kind == 1) as u64).map(|_| (self.g(), 0)).collect();
                let mut all = params.clone(); all.extend(own.iter().cloned());
                let body = match (kind, self.t.below(4)) {
                    (1, _) => { let a = app(G(params[0].0), vec![G(own[0].0)]); let r = self.ty(1, &own); if self.t.bool() { let b = app(G(params[0].0), vec![r]); let f = fun(vec![G(own[0].0)], self.ty(0, &own)); fun(vec![f, a], b) } else { fun(vec![a], r) } }
                    (_, 0) if np == 1 => G(params[0].0),
                    _ => { let mut a: Vec<T> = params.iter().map(|x| G(x.0)).collect(); if self.t.bool() { a.push(self.ty(1, &all)); } fun(a, self.ty(1, &all)) }
                };
                let mut used = vec![]; gens_of(&body, &mut used);
                let own: Vec<(usize, Kind)> = own.into_iter().filter(|x| used.contains(&x.0)).collect();
                let mut cons = vec![];
                if !own.is_empty() && self.t.chance(1, 4) { let a = G(own[0].0); if self.t.bool() { cons.push((NUMBER, vec![a])); } else if let Some(q) = (0..k).find(|q| self.p.classes[*q].params.len() == 1 && self.p.classes[*q].params[0].1 == 0) { cons.push((q, vec![a])); } }
                methods.push(Method { name: format!("m{}{}", k, j), sch: Scheme { gens: own, cons, body }, default: None });
            }
            self.p.classes.push(Class { name: format!("K{}", k), params, supers, methods });
        }
        let mut heads: Vec<(String, Vec<Kind>)> = ["I32", "Bool", "String", "F64", "unit"].iter().map(|s| (s.to_string(), vec![])).collect();
        heads.push(("Option".into(), vec![0])); heads.push(("T2".into(), vec![0, 0])); heads.push(("->1".into(), vec![0, 0])); heads.push(("Result".into(), vec![0, 0]));
        for d in &self.p.data { heads.push((d.name.clone(), d.params.iter().map(|x| x.1).collect())); }
        for k in 0..self.p.classes.len() {
            let kinds: Vec<Kind> = self.p.classes[k].params.iter().map(|x| x.1).collect();
            let mut taken: Vec<String> = vec![];
            for j in 0..self.t.below(5) {
                let mut gens = vec![];
                let mut args = vec![];
                let mut cons = vec![];
                let mut first = String::new();
                for (n, kd) in kinds.iter().enumerate() {
                    if *kd == 1 { let h = self.t.pick(&self.hk.clone()).clone(); first = h.clone(); args.push(C(h)); continue; }
                    if n == 1 && self.t.chance(1, 3) { let g = self.g(); gens.push((g, 0)); args.push(G(g)); continue; }
                    let (h, ps) = self.t.pick(&heads.clone()).clone();
                    if n == 0 { first = h.clone(); }
                    if ps.is_empty() { args.push(C(h)); continue; }
                    let a: Vec<T> = ps.iter().map(|q| if *q == 1 { C("Option".into()) } else if self.t.chance(1, 5) { self.base() } else { let g = self.g(); gens.push((g, 0)); if self.t.chance(1, 2) { let same: Vec<usize> = (0..=k).filter(|q| self.p.classes[*q].params.len() == 1 && self.p.classes[*q].params[0].1 == 0).collect(); if !same.is_empty() { cons.push((*self.t.pick(&same), vec![G(g)])); } } else if self.t.chance(1, 8) { cons.push((NUMBER, vec![G(g)])); } G(g) }).collect();
                    args.push(app(C(h), a));
                }
                if taken.contains(&first) { continue; }
                // superclasses first: mostly give the context or skip
                taken.push(first);
                let inst = Inst { name: format!("K{}.{}", k, j), class: k, gens, args, cons, methods: vec![] };
                self.p.insts.push(inst);
                let ok = { let inf = Inf::new(&self.p); let i = self.p.insts.last().unwrap(); let mut pr = vec![]; inf.premise(&i.cons, &mut pr); inf.supers(&(k, i.args.clone())).iter().all(|s| inf.solve(&pr, s, 0)) };
                if !ok && !self.t.chance(1, 12) { self.p.insts.pop(); }
            }
        }
    }
    fn globals(&self, inf: &Inf) -> Vec<(String, Scheme)> {
        let mut v: Vec<(String, Scheme)> = inf.con_sch.iter().filter(|(n, _)| !n.starts_with(':')).map(|(n, s)| (n.clone(), s.clone())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        for (k, cl) in self.p.classes.iter().enumerate() { for m in &cl.methods {
            let mut gens = m.sch.gens.clone(); gens.extend(cl.params.iter().cloned());
            let mut cons = m.sch.cons.clone(); cons.push((k, cl.params.iter().map(|x| G(x.0)).collect()));
            v.push((m.name.clone(), Scheme { gens, cons, body: m.sch.body.clone() }));
        } }
        v
    }
    fn name(&self, n: &str) -> E { if n.starts_with(|ch: char| ch == 'c' || ch == '#') || ["none", "some", "ok", "err", "unit"].contains(&n) { E::Con(n.into()) } else { E::Var(n.into()) } }
    fn lit(&mut self, t: &T) -> Option<E> {
        Some(match t {
            C(n) if n == "F32" || n == "F64" => if self.t.bool() { E::Flo } else { E::Int(self.t.below(100)) },
            C(n) if NUMS.contains(&n.as_str()) => E::Int(self.t.below(100)),
            C(n) if n == "String" => E::Str((*self.t.pick(&["s", "", "abc"])).into()),
            C(n) if n == "Char" => E::Chr(*self.t.pick(&['a', 'z'])),
            C(n) if n == "Bool" => E::Con((*self.t.pick(&["#t", "#f"])).into()),
            C(n) if n == "unit" => E::Con("unit".into()),
            _ => return None,
        })
    }
    /// A use of something of the environment at a type: the value itself, or the result of a call.
    fn pick_use(&mut self, cx: &Cx, want: &T, call: bool) -> Option<(String, Vec<T>)> {
        let n = cx.env.len() as u64;
        let start = self.t.below(n) as usize;
        let sloppy = self.t.chance(1, 40);
        let p = self.p.clone();
        let mut inf = Inf::new(&p);
        for g in &cx.gens { inf.gk.insert(g.0, g.1); }
        for k in 0..cx.env.len() {
            let (name, s) = &cx.env[(start + k) % cx.env.len()];
            inf.sub.clear();
            inf.kinds.clear();
            let (t, cons) = inf.inst(s);
            let t = inf.res(&t);
            let (args, r) = match &t { A(h, a) if call && matches!(&**h, C(s) if s.starts_with("->")) => (a[..a.len() - 1].to_vec(), a[a.len() - 1].clone()), _ if call => continue, _ => (vec![], t.clone()) };
            if !inf.unify(&r, want) { continue; }
            // what is left open gets some type
            let mut fv = BTreeSet::new();
            args.iter().for_each(|a| inf.free(a, &mut fv));
            cons.iter().for_each(|k| k.1.iter().for_each(|a| inf.free(a, &mut fv)));
            let kinds: Vec<(usize, Kind)> = fv.iter().map(|v| (*v, inf.kinds[*v])).collect();
            for (v, kd) in kinds {
                let b = match kd { 0 => self.ty(1, &cx.gens), 1 => self.hk_arg(&cx.gens), 2 => c("Result"), _ => c("Option") };
                inf.unify(&V(v), &b);
            }
            let fine = cons.iter().all(|k| inf.solve(&cx.premise, k, 0));
            if !fine && !sloppy { continue; }
            return Some((name.clone(), args.iter().map(|a| inf.res(a)).collect()));
        }
        None
    }
    fn call(&mut self, cx: &mut Cx, name: String, args: Vec<T>, d: u32) -> E {
        let a = args.iter().map(|x| self.expr(cx, x, d.saturating_sub(1))).collect();
        E::App(Box::new(self.name(&name)), a)
    }
    fn expr(&mut self, cx: &mut Cx, want: &T, d: u32) -> E {
        self.countdown -= 1;
        let other;
        let want = if self.countdown == 0 { other = self.ty(1, &cx.gens); &other } else { want };
        if d == 0 || self.t.chance(1, 6) { return self.leaf(cx, want); }
        match self.t.below(16) {
            0..=4 => { if let Some((n, a)) = self.pick_use(cx, want, true) { return self.call(cx, n, a, d); } self.leaf(cx, want) }
            5 => { let b = c("Bool"); E::If(Box::new(self.expr(cx, &b, d - 1)), Box::new(self.expr(cx, want, d - 1)), Box::new(self.expr(cx, want, d - 1))) }
            6 | 7 => { let t = self.ty(1, &cx.gens); let s = self.expr(cx, &t, d - 1); self.match_(cx, s, &t, want, d) }
            8 => { let t = self.ty(1, &cx.gens); let b = Box::new(self.expr(cx, &t, 0)); let s = if self.t.bool() { E::While(Box::new(E::Con("#f".into())), b) } else { *b }; E::Seq(vec![s, self.expr(cx, want, d - 1)]) }
            9 => E::Ann(Box::new(self.expr(cx, want, d - 1)), want.clone()),
            10 => { let Some(r) = cx.ret.clone() else { return self.leaf(cx, want) }; let unit = matches!(&r, C(n) if n == "unit");
                let x = if unit && self.t.chance(2, 3) || self.t.chance(1, 40) { E::Ret0 } else { E::Return(Box::new(self.expr(cx, &r, d - 1))) };
                E::If(Box::new(E::Con("#f".into())), Box::new(x), Box::new(self.expr(cx, want, d - 1))) }
            11 => {
                // a function of its own, applied where it is made
                let n = self.t.below(3); let ps: Vec<T> = (0..n).map(|_| self.ty(1, &cx.gens)).collect();
                let f = self.expr(cx, &fun(ps.clone(), want.clone()), d - 1);
                E::App(Box::new(f), ps.iter().map(|p| self.expr(cx, p, d.saturating_sub(2))).collect())
            }
            _ => self.let_(cx, want, d),
        }
    }
    fn leaf(&mut self, cx: &mut Cx, want: &T) -> E {
        if self.t.chance(2, 3) { if let Some((n, _)) = self.pick_use(cx, want, false) { return self.name(&n); } }
        if let Some(e) = self.lit(want) { return e; }
        match want {
            A(h, a) if matches!(&**h, C(s) if tuple_con(s)) => return E::App(Box::new(E::Con(":".into())), a.iter().map(|x| self.leaf(cx, x)).collect()),
            A(h, a) if matches!(&**h, C(s) if s.starts_with("->")) => {
                let ps: Vec<String> = (1..a.len()).map(|_| self.x()).collect();
                let f = self.x();
                let m = cx.env.len();
                for (p, t) in ps.iter().zip(a) { cx.env.push((p.clone(), Scheme { gens: vec![], cons: vec![], body: t.clone() })); }
                let r = cx.ret.replace(a[a.len() - 1].clone());
                let b = self.leaf(cx, &a[a.len() - 1]);
                cx.ret = r;
                cx.env.truncate(m);
                return E::Let(vec![B::Fun(f.clone(), ps, None, b)], Box::new(E::Var(f)));
            }
            A(h, _) if matches!(&**h, C(s) if s == "Option") => return E::Con("none".into()),
            _ => {}
        }
        if let Some((n, _)) = self.pick_use(cx, want, false) { return self.name(&n); }
        if let Some((n, a)) = self.pick_use(cx, want, true) {
            if a.iter().map(nodes).sum::<usize>() < nodes(want) { return self.call(cx, n, a, 0); }
        }
        // anything is of this type
        E::Var("bottom".into())
    }
    fn pat(&mut self, cx: &mut Cx, t: &T) -> P {
        if self.t.bool() { P::Wild } else { let x = self.x(); cx.env.push((x.clone(), Scheme { gens: vec![], cons: vec![], body: t.clone() })); if self.t.chance(1, 6) { P::As(x, Box::new(P::Wild)) } else { P::Var(x) } }
    }
    fn match_(&mut self, cx: &mut Cx, s: E, t: &T, want: &T, d: u32) -> E {
        let mut cl = vec![];
        let inf = Inf::new(&self.p);
        let mut shapes: Vec<(String, Vec<T>)> = vec![];
        let (head, args): (String, Vec<T>) = match t { A(h, a) => match &**h { C(n) => (n.clone(), a.clone()), _ => (String::new(), vec![]) }, C(n) => (n.clone(), vec![]), _ => (String::new(), vec![]) };
        if head == "Bool" { shapes = vec![("#t".into(), vec![]), ("#f".into(), vec![])]; }
        else if head == "unit" { shapes = vec![("unit".into(), vec![])]; }
        else if head == "Option" { shapes = vec![("none".into(), vec![]), ("some".into(), args.clone())]; }
        else if head == "Result" { shapes = vec![("err".into(), vec![args[1].clone()]), ("ok".into(), vec![args[0].clone()])]; }
        else if tuple_con(&head) { shapes = vec![(":".into(), args.clone())]; }
        else if let Some(dt) = self.p.data.iter().find(|x| x.name == head) {
            let m: HashMap<usize, T> = dt.params.iter().map(|x| x.0).zip(args.iter().cloned()).collect();
            shapes = dt.cons.iter().map(|(n, f)| (n.clone(), f.iter().map(|x| subst(x, &m)).collect())).collect();
        }
        drop(inf);
        let total = shapes.len();
        if self.t.chance(1, 3) { let n = self.t.below(total as u64 + 1) as usize; shapes.truncate(n); }
        for (n, f) in &shapes {
            let m = cx.env.len();
            let ps: Vec<P> = f.iter().map(|x| self.pat(cx, x)).collect();
            let p = P::Con(n.clone(), ps);
            let p = if self.t.chance(1, 8) { let x = self.x(); cx.env.push((x.clone(), Scheme { gens: vec![], cons: vec![], body: t.clone() })); P::As(x, Box::new(p)) } else { p };
            let b = self.expr(cx, want, d - 1);
            cx.env.truncate(m);
            cl.push((p, b));
        }
        if total == 0 {
            let k = match t { C(n) if NUMS.contains(&n.as_str()) => Some(P::Int(self.t.below(9))), C(n) if n == "String" => Some(P::Str("s".into())), C(n) if n == "Char" => Some(P::Chr('q')), _ => None };
            if let (Some(k), true) = (k, self.t.bool()) { let b = self.expr(cx, want, d - 1); cl.push((k, b)); }
        }
        if shapes.len() < total || total == 0 {
            let m = cx.env.len();
            let p = self.pat(cx, t);
            let b = self.expr(cx, want, d - 1);
            cx.env.truncate(m);
            cl.push((p, b));
        }
        E::Match(Box::new(s), cl)
    }
    fn cons_for(&mut self, gens: &[(usize, Kind)]) -> Vec<Con> {
        let mut o: Vec<Con> = vec![];
        for (g, k) in gens {
            if self.t.chance(1, 3) {
                let fit: Vec<usize> = (0..self.p.classes.len()).filter(|q| self.p.classes[*q].params.len() == 1 && self.p.classes[*q].params[0].1 == *k).collect();
                if !fit.is_empty() && self.t.chance(3, 4) { o.push((*self.t.pick(&fit), vec![G(*g)])); } else if *k == 0 { o.push((if self.t.chance(1, 3) { FPNUMBER } else { NUMBER }, vec![G(*g)])); }
            }
        }
        let two: Vec<usize> = (0..self.p.classes.len()).filter(|q| self.p.classes[*q].params.len() == 2).collect();
        let star: Vec<usize> = gens.iter().filter(|g| g.1 == 0).map(|g| g.0).collect();
        if !two.is_empty() && !star.is_empty() && self.t.chance(1, 3) { let q = *self.t.pick(&two); let b = if self.t.bool() { G(*self.t.pick(&star)) } else { self.base() }; o.push((q, vec![G(star[0]), b])); }
        o
    }
    fn scheme(&mut self, n_params: Option<usize>, outer: &[(usize, Kind)]) -> Scheme {
        let mut gens: Vec<(usize, Kind)> = (0..self.t.below(4)).map(|_| { let k = self.t.chance(1, 6) as Kind; (self.g(), k) }).collect();
        let mut all = gens.clone();
        all.extend(outer.iter().cloned());
        let body = match n_params { None => self.ty(1, &all), Some(n) => { let a = (0..n).map(|_| self.ty(2, &all)).collect(); fun(a, self.ty(1, &all)) } };
        let mut used = vec![];
        gens_of(&body, &mut used);
        gens.retain(|g| used.contains(&g.0));
        let cons = self.cons_for(&gens);
        Scheme { gens, cons, body }
    }
    fn let_(&mut self, cx: &mut Cx, want: &T, d: u32) -> E {
        let m = cx.env.len();
        let mut bs = vec![];
        let mut vars = vec![];
        if self.t.chance(2, 3) {
            let nf = self.t.range(1, 2);
            let mut made = vec![];
            for _ in 0..nf {
                let np = self.t.below(3) as usize;
                let s = self.scheme(Some(np), &cx.gens.clone());
                made.push((self.x(), s, self.t.bool()));
            }
            for (k, (f, s, ann)) in made.iter().enumerate() {
                let e = cx.env.len();
                // annotated ones are seen by all, the others by those that follow
                for (j, (g, q, a)) in made.iter().enumerate() { if *a || j < k || (self.t.chance(1, 8) && q.gens.is_empty()) { cx.env.push((g.clone(), q.clone())); } }
                let A(_, ts) = &s.body else { unreachable!() };
                let ps: Vec<String> = (1..ts.len()).map(|_| self.x()).collect();
                for (p, t) in ps.iter().zip(ts) { cx.env.push((p.clone(), Scheme { gens: vec![], cons: vec![], body: t.clone() })); }
                let (ng, np) = (cx.gens.len(), cx.premise.len());
                cx.gens.extend(s.gens.iter().cloned());
                let inf = Inf::new(&self.p);
                inf.premise(&s.cons, &mut cx.premise);
                drop(inf);
                let r = cx.ret.replace(ts[ts.len() - 1].clone());
                let b = self.expr(cx, &ts[ts.len() - 1].clone(), d - 1);
                cx.ret = r;
                cx.gens.truncate(ng);
                cx.premise.truncate(np);
                cx.env.truncate(e);
                bs.push(B::Fun(f.clone(), ps, if *ann { Some(s.clone()) } else { None }, b));
            }
            for (f, s, _) in made { cx.env.push((f, s)); }
        }
        for _ in 0..self.t.below(3) {
            let t = self.ty(1, &cx.gens);
            let x = self.x();
            let i = self.expr(cx, &t, d - 1);
            bs.push(B::Var(x.clone(), if self.t.chance(1, 3) { Some(t.clone()) } else { None }, i));
            vars.push((x, Scheme { gens: vec![], cons: vec![], body: t }));
        }
        cx.env.extend(vars);
        let b = self.expr(cx, want, d - 1);
        cx.env.truncate(m);
        E::Let(bs, Box::new(b))
    }
    fn body_of(&mut self, env: &[(String, Scheme)], s: &Scheme, more_gens: &[(usize, Kind)], more_cons: &[Con], params: Option<usize>, d: u32) -> (Option<Vec<String>>, E) {
        let inf = Inf::new(&self.p);
        let mut premise = vec![];
        inf.premise(&s.cons, &mut premise);
        inf.premise(more_cons, &mut premise);
        drop(inf);
        let mut gens = s.gens.clone();
        gens.extend(more_gens.iter().cloned());
        let mut cx = Cx { env: env.to_vec(), gens, premise, ret: None };
        match (&s.body, params) {
            (A(h, a), Some(_)) if matches!(&**h, C(q) if q.starts_with("->")) => {
                let ps: Vec<String> = (1..a.len()).map(|_| self.x()).collect();
                for (p, t) in ps.iter().zip(a) { cx.env.push((p.clone(), Scheme { gens: vec![], cons: vec![], body: t.clone() })); }
                cx.ret = Some(a[a.len() - 1].clone());
                let b = self.expr(&mut cx, &a[a.len() - 1], d);
                (Some(ps), b)
            }
            (t, _) => { cx.ret = Some(t.clone()); let b = self.expr(&mut cx, t, d); (None, b) }
        }
    }
    fn program(&mut self) {
        self.decls();
        let base = { let inf = Inf::new(&self.p); self.globals(&inf) };
        let n = self.t.range(1, 6);
        let mut plan = vec![];
        for k in 0..n {
            let np = if self.t.chance(1, 8) { None } else { Some(self.t.below(4) as usize) };
            let s = self.scheme(np, &[]);
            plan.push((format!("f{}", k), np, s, self.t.chance(2, 5)));
        }
        let env = |me: &mut Self, upto: usize, plan: &Vec<(String, Option<usize>, Scheme, bool)>| {
            let mut e = base.clone();
            for (j, p) in plan.iter().enumerate() { if p.3 || j < upto || me.t.chance(1, 12) && p.2.gens.is_empty() { e.push((p.0.clone(), p.2.clone())); } }
            e
        };
        for k in 0..n {
            let e = env(self, k, &plan);
            let (name, np, s, ann) = plan[k].clone();
            let d = self.t.range(1, 4) as u32;
            let (ps, b) = self.body_of(&e, &s, &[], &[], np, d);
            self.p.funs.push(Fun { name, params: ps, ann: if ann { Some(s) } else { None }, body: b });
        }
        let b = self.g();
        self.p.funs.push(Fun { name: "bottom".into(), params: None, ann: Some(Scheme { gens: vec![(b, 0)], cons: vec![], body: G(b) }), body: E::Var("bottom".into()) });
        let e = env(self, n, &plan);
        for k in 0..self.p.classes.len() { for j in 0..self.p.classes[k].methods.len() { if self.t.chance(1, 4) {
            let (s, ps) = (self.p.classes[k].methods[j].sch.clone(), self.p.classes[k].params.clone());
                        let own = (k, ps.iter().map(|x| G(x.0)).collect());
            let np = if is_fun(&s.body) { Some(0) } else { None };
            let (p, b) = self.body_of(&e, &s, &ps, &[own], np, 2);
            self.p.classes[k].methods[j].default = Some((p.unwrap_or_default(), b));
        } } }
        for i in 0..self.p.insts.len() {
            let (k, args, gens, cons) = { let q = &self.p.insts[i]; (q.class, q.args.clone(), q.gens.clone(), q.cons.clone()) };
            for j in 0..self.p.classes[k].methods.len() {
                let m = self.p.classes[k].methods[j].sch.clone();
                let map: HashMap<usize, T> = self.p.classes[k].params.iter().map(|x| x.0).zip(args.iter().cloned()).collect();
                let s = Scheme { gens: m.gens.clone(), cons: m.cons.iter().map(|(q, a)| (*q, a.iter().map(|x| subst(x, &map)).collect())).collect(), body: subst(&m.body, &map) };
                if self.p.classes[k].methods[j].default.is_some() && self.t.chance(1, 2) { continue; }
                let ann = if self.t.chance(1, 3) {
                    // the same type over other variables
                    let r: Vec<(usize, Kind)> = s.gens.iter().map(|g| (self.g(), g.1)).collect();
                    let map: HashMap<usize, T> = s.gens.iter().map(|g| g.0).zip(r.iter().map(|g| G(g.0))).collect();
                    Some(Scheme { gens: r, cons: s.cons.iter().map(|(q, a)| (*q, a.iter().map(|x| subst(x, &map)).collect())).collect(), body: subst(&s.body, &map) })
                } else { None };
                let with = ann.clone().unwrap_or(s);
                let np = if is_fun(&m.body) { Some(0) } else { None };
                let (p, b) = self.body_of(&e, &with, &gens, &cons, np, 2);
                self.p.insts[i].methods.push((j, ann, p.unwrap_or_default(), b));
            }
        }
        for _ in 0..self.t.below(3) {
            let t = self.ty(1, &[]);
            let mut cx = Cx { env: e.clone(), gens: vec![], premise: vec![], ret: None };
            let x = self.expr(&mut cx, &t, 2);
            self.p.inits.push(x);
        }
    }
    /// An edit that may or may not break the program.
    fn edit(&mut self) -> &'static str {
        let bad = |me: &mut Self| -> T { match me.t.below(6) { 0 => c("Option"), 1 => app(c("I32"), vec![c("Bool")]), 2 => app(c("Option"), vec![c("I32"), c("I32")]), 3 => app(c("Result"), vec![c("I32")]), _ => me.ty(1, &[]) } };
        match self.t.below(14) {
            0 | 1 => { // a node of an annotation
                let k: Vec<usize> = (0..self.p.funs.len()).filter(|k| self.p.funs[*k].ann.is_some() && self.p.funs[*k].name != "bottom").collect();
                if k.is_empty() { return "none"; }
                let k = *self.t.pick(&k);
                let by = bad(self);
                let s = self.p.funs[k].ann.clone().unwrap();
                let mut at = self.t.below(targs(&s.body) as u64) as isize;
                let mut n = Scheme { body: replace(&s.body, &mut at, &by), ..s };
                // a variable that no longer occurs may have no kind of its own
                let mut used = vec![]; gens_of(&n.body, &mut used);
                n.cons.retain(|k| { let mut g = vec![]; k.1.iter().for_each(|t| gens_of(t, &mut g)); g.iter().all(|x| used.contains(x)) });
                n.gens.retain(|g| used.contains(&g.0));
                self.p.funs[k].ann = Some(n);
                "annotation"
            }
            2 => { // more general than it is
                let k: Vec<usize> = (0..self.p.funs.len()).filter(|k| self.p.funs[*k].ann.is_some() && self.p.funs[*k].name != "bottom").collect();
                if k.is_empty() { return "none"; }
                let k = *self.t.pick(&k);
                let g = self.g();
                let s = self.p.funs[k].ann.clone().unwrap();
                let mut at = self.t.below(targs(&s.body) as u64) as isize;
                let mut n = Scheme { body: replace(&s.body, &mut at, &G(g)), gens: s.gens.clone(), cons: s.cons };
                n.gens.push((g, 0));
                let mut used = vec![]; gens_of(&n.body, &mut used);
                n.cons.retain(|k| { let mut g = vec![]; k.1.iter().for_each(|t| gens_of(t, &mut g)); g.iter().all(|x| used.contains(x)) });
                n.gens.retain(|g| used.contains(&g.0));
                if n.gens.iter().any(|g| g.1 != 0) && !n.gens.iter().all(|x| s.gens.contains(x) || x.0 == g) { return "none"; }
                self.p.funs[k].ann = Some(n);
                "generalised annotation"
            }
            3 => { let v: Vec<usize> = (0..self.p.funs.len()).filter(|k| self.p.funs[*k].ann.as_ref().map_or(false, |s| !s.cons.is_empty())).collect(); if v.is_empty() { return "none"; } let k = *self.t.pick(&v); let s = self.p.funs[k].ann.as_mut().unwrap(); let j = self.t.below(s.cons.len() as u64) as usize; s.cons.remove(j); "constraint dropped" }
            4 | 5 => { if self.p.insts.is_empty() { return "none"; } let k = self.t.below(self.p.insts.len() as u64) as usize; self.p.insts.remove(k); "instance dropped" }
            6 => { let v: Vec<usize> = (0..self.p.insts.len()).filter(|k| !self.p.insts[*k].cons.is_empty()).collect(); if v.is_empty() { return "none"; } let k = *self.t.pick(&v); let i = &mut self.p.insts[k]; let j = self.t.below(i.cons.len() as u64) as usize; i.cons.remove(j); "instance context dropped" }
            7 | 8 => { // one more instance, which may overlap
                if self.p.insts.is_empty() { return "none"; }
                let k = self.t.below(self.p.insts.len() as u64) as usize;
                let mut i = self.p.insts[k].clone();
                i.name = format!("{}.{}", i.name, self.p.insts.len());
                let map: HashMap<usize, T> = i.gens.clone().iter().map(|g| (g.0, if self.t.bool() { self.base() } else { G(self.g()) })).collect();
                i.args = i.args.iter().map(|t| subst(t, &map)).collect();
                i.cons = i.cons.iter().map(|(q, a)| (*q, a.iter().map(|t| subst(t, &map)).collect())).collect();
                i.gens = map.values().filter_map(|t| if let G(g) = t { Some((*g, 0)) } else { None }).collect();
                i.gens.sort();
                if self.t.bool() { let n = i.args.len(); let j = self.t.below(n as u64) as usize; if self.p.classes[i.class].params[j].1 == 0 { let mut at = self.t.below(targs(&i.args[j]) as u64) as isize; let by = self.base(); i.args[j] = replace(&i.args[j], &mut at, &by); let mut used = vec![]; i.args.iter().for_each(|t| gens_of(t, &mut used)); i.gens.retain(|g| used.contains(&g.0)); i.cons.retain(|k| { let mut g = vec![]; k.1.iter().for_each(|t| gens_of(t, &mut g)); g.iter().all(|x| used.contains(x)) }); } }
                self.p.insts.push(i);
                "instance added"
            }
            9 => { if self.p.classes.len() < 2 { return "none"; } let (a, b) = (self.t.below(self.p.classes.len() as u64) as usize, self.t.below(self.p.classes.len() as u64) as usize); if self.p.classes[a].params.len() != 1 || self.p.classes[b].params.len() != 1 || self.p.classes[a].params[0].1 != self.p.classes[b].params[0].1 { return "none"; } let g = self.p.classes[a].params[0].0; self.p.classes[a].supers.push((b, vec![G(g)])); "superclass added" }
            10 => { let v: Vec<usize> = (0..self.p.insts.len()).filter(|k| self.p.insts[*k].methods.iter().any(|m| m.1.is_some())).collect(); if v.is_empty() { return "none"; } let k = *self.t.pick(&v); let by = self.ty(0, &[]); for m in self.p.insts[k].methods.iter_mut() { if let Some(s) = &mut m.1 { let mut at = self.t.below(targs(&s.body) as u64) as isize; s.body = replace(&s.body, &mut at, &by); let mut used = vec![]; gens_of(&s.body, &mut used); s.gens.retain(|g| used.contains(&g.0)); s.cons.retain(|k| { let mut g = vec![]; k.1.iter().for_each(|t| gens_of(t, &mut g)); g.iter().all(|x| used.contains(x)) }); break; } } "method annotation" }
            11 => { let k = self.t.below(self.p.funs.len() as u64) as usize; if self.p.funs[k].name == "bottom" { return "none"; } self.p.funs[k].ann = None; "annotation dropped" }
            _ => { // the arity of a call, or its order
                let k = self.t.below(self.p.funs.len() as u64) as usize;
                let mut b = self.p.funs[k].body.clone();
                let mut n = 0;
                count_apps(&b, &mut n);
                if n == 0 { return "none"; }
                let mut at = self.t.below(n as u64) as isize;
                let how = self.t.below(4);
                break_app(&mut b, &mut at, how);
                self.p.funs[k].body = b;
                "call"
            }
        }
    }
}

/// Drops the annotations that name type variables which are not in scope where they stand.
fn scope(e: &mut E, named: &mut Vec<usize>) {
    match e {
        E::App(g, a) => { scope(g, named); a.iter_mut().for_each(|x| scope(x, named)) }
        E::Ann(x, t) => { scope(x, named); if !type_in(t, named) { let x = (**x).clone(); *e = x; } }
        E::Return(x) => scope(x, named),
        E::Let(b, x) => {
            for y in b {
                match y {
                    B::Var(_, t, i) => { if t.as_ref().map_or(false, |t| !type_in(t, named)) { *t = None; } scope(i, named) }
                    B::Fun(_, _, s, i) => scope_fun(s, i, named),
                }
            }
            scope(x, named)
        }
        E::If(a, b, d) => { scope(a, named); scope(b, named); scope(d, named) }
        E::While(a, b) => { scope(a, named); scope(b, named) }
        E::Match(x, cl) => { scope(x, named); cl.iter_mut().for_each(|y| scope(&mut y.1, named)) }
        E::Seq(v) => v.iter_mut().for_each(|x| scope(x, named)),
        _ => {}
    }
}
fn type_in(t: &T, named: &[usize]) -> bool { let mut g = vec![]; gens_of(t, &mut g); g.iter().all(|x| named.contains(x)) }
fn scope_fun(s: &mut Option<Scheme>, body: &mut E, named: &mut Vec<usize>) {
    let m = named.len();
    if let Some(q) = s {
        named.extend(q.gens.iter().map(|g| g.0));
        if !type_in(&q.body, named) || q.cons.iter().any(|k| k.1.iter().any(|t| !type_in(t, named))) { *s = None; named.truncate(m); }
    }
    scope(body, named);
    named.truncate(m);
}
fn scope_program(p: &mut Prog) {
    let mut n = vec![];
    for f in &mut p.funs { scope_fun(&mut f.ann, &mut f.body, &mut n); }
    for k in &mut p.classes { for m in &mut k.methods { if let Some((_, b)) = &mut m.default { n = k.params.iter().chain(&m.sch.gens).map(|g| g.0).collect(); scope(b, &mut n); } } }
    for i in &mut p.insts { for m in &mut i.methods { n = i.gens.iter().map(|g| g.0).collect(); scope_fun(&mut m.1, &mut m.3, &mut n); } }
    for e in &mut p.inits { scope(e, &mut vec![]); }
}
fn each(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    f(e);
    match e {
        E::App(g, a) => { each(g, f); a.iter_mut().for_each(|x| each(x, f)) }
        E::Ann(x, _) | E::Return(x) => each(x, f),
        E::Let(b, x) => { for y in b { match y { B::Var(_, _, i) | B::Fun(_, _, _, i) => each(i, f) } } each(x, f) }
        E::If(a, b, d) => { each(a, f); each(b, f); each(d, f) }
        E::While(a, b) => { each(a, f); each(b, f) }
        E::Match(x, cl) => { each(x, f); cl.iter_mut().for_each(|y| each(&mut y.1, f)) }
        E::Seq(v) => v.iter_mut().for_each(|x| each(x, f)),
        _ => {}
    }
}
fn count_apps(e: &E, n: &mut usize) { let mut e = e.clone(); each(&mut e, &mut |x| if let E::App(f, _) = x { if !matches!(&**f, E::Con(s) if s == ":") { *n += 1; } }) }
fn break_app(e: &mut E, at: &mut isize, how: u64) {
    each(e, &mut |x| if let E::App(f, a) = x { if !matches!(&**f, E::Con(s) if s == ":") {
        *at -= 1;
        if *at == -1 { match how { 0 => { a.pop(); } 1 => a.push(E::Con("unit".into())), 2 => a.reverse(), _ => if let Some(y) = a.first_mut() { *y = E::App(Box::new(y.clone()), vec![]) } } }
    } })
}

// ------------------------------------------------------------------ schemes as the compiler shows them

fn parse(s: &str) -> T {
    // (forall ..) and (where ..) are handled by the caller
    fn go(b: &[u8], i: &mut usize) -> T {
        while b[*i] == b' ' { *i += 1; }
        if b[*i] == b'(' {
            *i += 1;
            let mut v = vec![];
            loop { while b[*i] == b' ' { *i += 1; } if b[*i] == b')' { *i += 1; break; } v.push(go(b, i)); }
            if v.is_empty() { return c("()"); }
            let h = v.remove(0);
            return match &h { C(n) if n == "->" => { let r = v.pop().unwrap(); fun(v, r) } C(n) if n == ":" => tuple(v), _ => app(h, v) };
        }
        let k = *i;
        while *i < b.len() && !b" ()".contains(&b[*i]) { *i += 1; }
        C(String::from_utf8_lossy(&b[k..*i]).into_owned())
    }
    go(s.as_bytes(), &mut 0)
}
fn split(s: &str) -> Vec<String> {
    let (mut o, mut d, mut cur) = (vec![], 0, String::new());
    for ch in s.chars() { match ch { '(' => d += 1, ')' => d -= 1, _ => {} } if ch == ' ' && d == 0 { if !cur.is_empty() { o.push(std::mem::take(&mut cur)); } } else { cur.push(ch); } }
    if !cur.is_empty() { o.push(cur); }
    o
}
fn scheme_of(p: &Prog, text: &str) -> Option<Scheme> {
    let body = text.trim().strip_prefix('{')?.strip_suffix('}')?;
    let parts = split(body);
    let (mut names, mut cons, mut t) = (vec![], vec![], None);
    for x in &parts {
        if let Some(r) = x.strip_prefix("(forall ") { names = r.trim_end_matches(')').split(' ').map(|s| s.to_string()).collect(); }
        else if let Some(r) = x.strip_prefix("(where ") { cons = split(&r[..r.len() - 1]); }
        else { t = Some(parse(x)); }
    }
    let m: HashMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), 2_000_000 + i)).collect();
    fn bind(t: &T, m: &HashMap<String, usize>) -> T { match t { C(n) => m.get(n).map_or_else(|| t.clone(), |g| G(*g)), A(h, a) => app(bind(h, m), a.iter().map(|x| bind(x, m)).collect()), _ => t.clone() } }
    let mut ks = vec![];
    for k in cons {
        let v = split(&k[1..k.len() - 1]);
        let id = match v[0].as_str() { "Number" => NUMBER, "FPNumber" => FPNUMBER, n => p.classes.iter().position(|q| q.name == n)? };
        ks.push((id, v[1..].iter().map(|x| bind(&parse(x), &m)).collect()));
    }
    Some(Scheme { gens: m.values().map(|g| (*g, 0)).collect(), cons: ks, body: bind(&t?, &m) })
}

fn one(t: &mut Tape, out: &mut Out) -> Case {
    let noise = if t.chance(1, 4) { t.range(1, 60) as isize } else { -1 };
    let edits = if t.chance(1, 3) { t.range(1, 2) } else { 0 };
    let mut g = Gen { t, p: Prog::default(), gid: 0, xid: 0, countdown: noise, hk: vec![] };
    g.program();
    let mut what = vec![];
    for _ in 0..edits { what.push(g.edit()); }
    let mut p = g.p.clone();
    scope_program(&mut p);
    let mut inf = Inf::new(&p);
    let verdict = inf.program();
    let text = p.text();
    out.evals += 1;
    let verdict = match verdict { Err(No::Unjudged(_)) => { out.classes.push("not judged"); return Ok(()) } Err(No::Ill(s)) => Err(s), Ok(x) => Ok(x) };
    let _ = writeln!(out.desc, "; expected: {}{}", match &verdict { Ok(_) => "well typed".to_string(), Err(s) => format!("ill typed: {}", s) }, if what.is_empty() { String::new() } else { format!(" (edits: {})", what.join(", ")) });
    out.desc.push_str(&text);
    let f = front1(&text);
    match &verdict {
        Err(why) => {
            out.classes.push("ill typed");
            out.subs.push(text.clone());
            if f.ok() { return fail("accepts-ill-typed", format!("accepted although {}:\n{}", why, text)); }
            let known = f.errors.len() == 1 && matches!(f.errors[0].1.clone().drop_context_info(), ModuleError::CannotUnifyType(..) | ModuleError::NoMatchingInstances(..) | ModuleError::CannotUnifyKind(..) | ModuleError::UnsupportedKind(..) | ModuleError::ArityMismatch(..) | ModuleError::OverlappingInstances(..) | ModuleError::CyclicClasses(..) | ModuleError::RecursionLimitExceeded(..) | ModuleError::CannotResolveAmbiguity(..) | ModuleError::MethodTypeSchemeMismatch(..) | ModuleError::CannotUseReturnInThisContext);
            if !known { return fail("other-error", format!("{}, but the error is {}\n{}", why, f.summary(), text)); }
            Ok(())
        }
        Ok(schemes) => {
            out.classes.push("well typed");
            if schemes.values().any(|s| !s.gens.is_empty()) { out.classes.push("with an inferred polymorphic type"); out.subs.push(text.clone()); }
            if schemes.values().any(|s| !s.cons.is_empty()) { out.classes.push("with inferred constraints"); }
            if !f.ok() { return fail("rejects-well-typed", format!("{}\n{}", f.summary(), text)); }
            let set: HashMap<_, _> = f.modules.iter().map(|m| (m.id(), std::sync::Arc::clone(m))).collect();
            let main = f.modules.iter().max_by_key(|m| m.ast_root().functions.len()).unwrap();
            for (id, fun) in &main.ast_root().functions {
                if fun.ann.is_some() { continue; }
                let name = main.symbol_map().get(*id).map(|s| s.name.to_string()).unwrap_or_default();
                let Some(want) = schemes.get(&name) else { continue };
                let Some(s) = main.inferred_types().scheme(*id) else { return fail("no-scheme", format!("{} has no type\n{}", name, text)) };
                let shown = s.fmt_on(&llrl::module::Formatter::new(&set)).to_string();
                let Some(got) = scheme_of(&p, &shown) else { return fail("scheme-text", format!("{}\n{}", shown, text)) };
                let mut i2 = Inf::new(&p);
                for k in 0..64 { i2.gk.insert(2_000_000 + k, 0); }
                for (g, k) in &want.gens { i2.gk.insert(*g, *k); }
                // kinds of the compiler's variables: by their use
                let mut a = vec![]; let mut b = vec![];
                gens_of(&want.body, &mut a); gens_of(&got.body, &mut b);
                if a.len() == b.len() { for (x, y) in a.iter().zip(&b) { let k = i2.gk.get(x).cloned().unwrap_or(0); i2.gk.insert(*y, k); } }
                let (w, g) = (i2.canonical(want), i2.canonical(&got));
                if w != g { return fail("scheme", format!("{} is inferred as {} where its most general type is {}\n{}", name, g, w, text)); }
            }
            Ok(())
        }
    }
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 24);
    let mut r = Ok(());
    let mut o = Out::default();
    for k in 0..n {
        let from = t.used();
        let mut q = Out::default();
        let x = one(t, &mut q);
        o.spans.push((from, t.used()));
        o.evals += q.evals;
        o.subs.extend(q.subs);
        o.classes.extend(q.classes);
        if o.desc.len() < 4000 { o.desc.push_str(&q.desc); o.desc.push('\n'); }
        if x.is_err() && r.is_ok() { r = x; o.bad = Some(k); o.desc = q.desc; break; }
    }
    o.nontrivial = !o.subs.is_empty();
    *out = o;
    r
}

fn main() {
    main_with("c06", &case);
}
