//! C05: unification of types and kinds over histories, against a textbook unifier.
use llrl::ast::{self, KindBuilder as _, TypeBuilder as _};
use llrl::unification::{kind as uk, types as ut, Level};
use std::borrow::Cow;
use std::collections::HashMap;
use vharness::{ensure, main_with, Case, Out, Tape};

/// Terms of both sorts. For kinds: C(0..5) are the constants, A(ret, args) the functions.
#[derive(Clone, Debug, PartialEq)]
enum R {
    V(usize),
    C(usize),
    G(usize),
    A(Box<R>, Vec<R>),
}

fn enc(t: &R, o: &mut String) {
    match t {
        R::V(i) => *o += &format!(" V {}", i),
        R::C(i) => *o += &format!(" C {}", i),
        R::G(i) => *o += &format!(" G {}", i),
        R::A(f, a) => {
            *o += &format!(" A {}", a.len());
            enc(f, o);
            a.iter().for_each(|x| enc(x, o));
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    New(usize, u32),
    Unify(R, R),
    Match(R, R),
    Default(R, R),
    Equal(R, R),
    Deepest(R),
    Vars(R, u32),
    Subst(R, R),
}

impl Op {
    fn enc(&self) -> String {
        let mut o = String::new();
        match self {
            Op::New(k, l) => o = format!("n {} {}", k, l),
            Op::Unify(a, b) => { o += "u"; enc(a, &mut o); enc(b, &mut o) }
            Op::Match(a, b) => { o += "m"; enc(a, &mut o); enc(b, &mut o) }
            Op::Default(a, b) => { o += "d"; enc(a, &mut o); enc(b, &mut o) }
            Op::Equal(a, b) => { o += "e"; enc(a, &mut o); enc(b, &mut o) }
            Op::Deepest(a) => { o += "l"; enc(a, &mut o) }
            Op::Vars(a, l) => { o += &format!("c {}", l); enc(a, &mut o) }
            Op::Subst(a, b) => { o += "s"; enc(a, &mut o); enc(b, &mut o) }
        }
        o
    }
}

/// kinds: 0 *, 1 (-> * *), 2 (-> * * *), 3 (-> (-> * *) *), 4 (-> * (-> * *))
const KINDS: [(&[usize], usize); 5] = [(&[], 0), (&[0], 0), (&[0, 0], 0), (&[1], 0), (&[0], 1)];
/// kind of each constructor
const CONS: [usize; 8] = [0, 0, 1, 1, 2, 3, 4, 2];
/// kind and level of each generic parameter
const GENS: [(usize, u32); 6] = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 2), (2, 1)];

#[derive(Clone, Default)]
struct M {
    types: bool,
    kinds: Vec<usize>,
    levels: Vec<u32>,
    sub: Vec<Option<R>>,
}

impl M {
    fn walk(&self, t: &R) -> R {
        match t {
            R::V(i) => match &self.sub[*i] {
                Some(t) => self.walk(t),
                None => R::V(*i),
            },
            t => t.clone(),
        }
    }
    fn deep(&self, t: &R) -> R {
        match self.walk(t) {
            R::A(f, a) => R::A(Box::new(self.deep(&f)), a.iter().map(|x| self.deep(x)).collect()),
            t => t,
        }
    }
    fn kind(&self, t: &R) -> usize {
        match self.walk(t) {
            R::V(i) => self.kinds[i],
            R::C(i) => CONS[i],
            R::G(i) => GENS[i].0,
            R::A(f, _) => KINDS[self.kind(&f)].1,
        }
    }
    fn vars(&self, t: &R, o: &mut Vec<usize>) {
        match self.walk(t) {
            R::V(i) => if !o.contains(&i) { o.push(i) },
            R::A(f, a) => {
                self.vars(&f, o);
                a.iter().for_each(|x| self.vars(x, o));
            }
            _ => {}
        }
    }
    fn gens(&self, t: &R, o: &mut Vec<usize>) {
        match self.walk(t) {
            R::G(i) => o.push(i),
            R::A(f, a) => {
                self.gens(&f, o);
                a.iter().for_each(|x| self.gens(x, o));
            }
            _ => {}
        }
    }
    fn bind(&mut self, v: usize, t: R) -> bool {
        let mut vs = vec![];
        self.vars(&t, &mut vs);
        if vs.contains(&v) || self.types && self.kind(&t) != self.kinds[v] {
            return false;
        }
        self.sub[v] = Some(t);
        true
    }
    fn uni(&mut self, a: &R, b: &R) -> bool {
        match (self.walk(a), self.walk(b)) {
            (R::V(x), R::V(y)) if x == y => true,
            (R::V(x), t) | (t, R::V(x)) => self.bind(x, t),
            (R::A(f, x), R::A(g, y)) => x.len() == y.len() && self.uni(&f, &g) && x.iter().zip(&y).all(|(x, y)| self.uni(x, y)),
            (a, b) => a == b,
        }
    }
    /// The level of a variable now: of everything that was declared less deep and is made of it.
    fn level(&self, v: usize) -> u32 {
        (0..self.sub.len())
            .filter(|w| {
                let mut vs = vec![];
                self.vars(&R::V(*w), &mut vs);
                vs.contains(&v)
            })
            .map(|w| self.levels[w])
            .min()
            .unwrap()
    }
    fn levels_ok(&self) -> bool {
        (0..self.sub.len()).all(|w| {
            let mut gs = vec![];
            self.gens(&R::V(w), &mut gs);
            gs.iter().all(|g| GENS[*g].1 <= self.levels[w])
        })
    }
    fn unify(&mut self, a: &R, b: &R) -> bool {
        self.uni(a, b) && (!self.types || self.levels_ok())
    }
    fn mat(&mut self, fresh: &[usize], a: &R, b: &R) -> bool {
        match (a, self.walk(b)) {
            (R::V(x), t) if fresh.contains(x) => {
                if let Some(s) = self.sub[*x].clone() {
                    return self.deep(&s) == self.deep(&t);
                }
                let mut vs = vec![];
                self.vars(&t, &mut vs);
                let mut gs = vec![];
                self.gens(&t, &mut gs);
                if self.kind(&t) != self.kinds[*x] || vs.iter().any(|v| self.level(*v) > self.levels[*x]) || gs.iter().any(|g| GENS[*g].1 > self.levels[*x]) {
                    return false;
                }
                self.sub[*x] = Some(t);
                true
            }
            (R::A(f, x), R::A(g, y)) => x.len() == y.len() && self.mat(fresh, f, &g) && x.iter().zip(&y).all(|(x, y)| self.mat(fresh, x, y)),
            (a, b) => *a == b,
        }
    }
    fn show(&self, t: &R, seen: &mut Vec<usize>, o: &mut String) {
        match self.walk(t) {
            R::V(i) => {
                let n = seen.iter().position(|x| *x == i).unwrap_or_else(|| { seen.push(i); seen.len() - 1 });
                *o += &if self.types { format!("?{}:{}:{}", n, self.kinds[i], self.level(i)) } else { format!("?{}", n) };
            }
            R::C(i) => *o += &format!("c{}", i),
            R::G(i) => *o += &format!("g{}", i),
            R::A(f, a) => {
                *o += "(";
                self.show(&f, seen, o);
                for x in a {
                    *o += " ";
                    self.show(&x, seen, o);
                }
                *o += ")";
            }
        }
    }
    fn dump(&self) -> String {
        let (mut o, mut seen) = ("ok".to_string(), vec![]);
        for v in 0..self.sub.len() {
            o += " ";
            self.show(&R::V(v), &mut seen, &mut o);
        }
        o
    }
    fn subst(&self, t: &R, by: &R) -> R {
        match self.walk(t) {
            R::G(0) => by.clone(),
            R::A(f, a) => R::A(Box::new(self.subst(&f, by)), a.iter().map(|x| self.subst(x, by)).collect()),
            t => t,
        }
    }
}

struct G<'a> {
    t: &'a mut Tape,
    m: M,
}

impl<'a> G<'a> {
    fn term(&mut self, k: usize, d: u32) -> R {
        let vs: Vec<usize> = (0..self.m.kinds.len()).filter(|v| self.m.kinds[*v] == k).collect();
        if !vs.is_empty() && self.t.below(5) < 2 {
            return R::V(*self.t.pick(&vs));
        }
        let cs: Vec<usize> = (0..CONS.len()).filter(|c| CONS[*c] == k).collect();
        let gs: Vec<usize> = (0..GENS.len()).filter(|c| GENS[*c].0 == k).collect();
        if d == 0 || k > 1 || self.t.below(4) == 0 {
            if !gs.is_empty() && self.t.below(4) == 3 {
                return R::G(*self.t.pick(&gs));
            }
            return R::C(*self.t.pick(&cs));
        }
        let fk = if k == 1 { 4 } else { *self.t.pick(&[2, 1, 2, 3]) };
        let f = self.term(fk, d - 1);
        let f = match f { R::A(..) | R::V(_) | R::C(_) | R::G(_) => f };
        let a = KINDS[fk].0.iter().map(|x| self.term(*x, d - 1)).collect();
        R::A(Box::new(f), a)
    }
    fn kterm(&mut self, d: u32) -> R {
        let n = self.m.kinds.len() as u64;
        if n > 0 && self.t.below(5) < 2 {
            return R::V(self.t.below(n) as usize);
        }
        if d == 0 || self.t.below(3) == 0 {
            return R::C(*self.t.pick(&[0, 0, 0, 1, 2, 3, 4]));
        }
        let n = *self.t.pick(&[1, 2, 1, 3, 2, 0]);
        let n = if n == 0 { *self.t.pick(&[15, 16, 17]) } else { n };
        let many = n > 3 && self.t.bool();
        let a = (0..n).map(|_| if many { R::C(0) } else { self.kterm(if n > 3 { 0 } else { d - 1 }) }).collect();
        R::A(Box::new(self.kterm(d - 1)), a)
    }
    /// A term equal to t up to replacing parts by others.
    fn vary(&mut self, t: &R) -> R {
        match self.t.below(8) {
            0 if self.m.types => {
                let k = self.m.kind(t);
                self.term(k, 2)
            }
            0 => self.kterm(1),
            1 => match t {
                R::V(_) => self.m.deep(t),
                t => t.clone(),
            },
            2 => {
                let k = if self.m.types { self.m.kind(t) } else { 0 };
                let vs: Vec<usize> = (0..self.m.kinds.len()).filter(|v| self.m.kinds[*v] == k).collect();
                if vs.is_empty() { t.clone() } else { R::V(*self.t.pick(&vs)) }
            }
            _ => match t {
                R::A(f, a) => R::A(Box::new(self.vary(f)), a.iter().map(|x| self.vary(x)).collect()),
                t => t.clone(),
            },
        }
    }
    fn level(&mut self) -> u32 {
        *self.t.pick(&[1, 0, 2, 3, 99])
    }
    fn two(&mut self) -> (R, R) {
        let a = if self.m.types { let k = *self.t.pick(&[0, 0, 0, 1, 2]); self.term(k, 3) } else { self.kterm(3) };
        let b = match self.t.below(4) {
            0 if self.m.types => { let k = *self.t.pick(&[0, 0, 0, 1, 2]); self.term(k, 3) }
            0 => self.kterm(3),
            _ => self.vary(&a),
        };
        if self.t.bool() { (a, b) } else { (b, a) }
    }
    fn generalize(&mut self, t: &R, fresh: &mut Vec<(usize, R)>, ops: &mut Vec<Op>) -> R {
        let d = self.m.walk(t);
        match self.t.below(6) {
            0 | 1 => {
                // reuse a pattern variable: mostly one that stands for the same thing, else any of the kind
                let k = self.m.kind(&d);
                let same: Vec<usize> = fresh.iter().filter(|x| self.m.deep(&x.1) == self.m.deep(&d)).map(|x| x.0).collect();
                let any: Vec<usize> = fresh.iter().filter(|x| self.m.kinds[x.0] == k).map(|x| x.0).collect();
                if !same.is_empty() && self.t.below(3) != 0 {
                    return R::V(*self.t.pick(&same));
                }
                if !any.is_empty() && self.t.below(3) == 0 {
                    return R::V(*self.t.pick(&any));
                }
                let l = *self.t.pick(&[99, 99, 99, 1, 2]);
                let v = self.new(k, l);
                ops.push(Op::New(k, l));
                fresh.push((v, d));
                R::V(v)
            }
            2 => match self.t.below(6) {
                0 => { let k = self.m.kind(&d); R::C((0..CONS.len()).find(|c| CONS[*c] == k).unwrap()) }
                _ => self.gen_rec(&d, fresh, ops),
            },
            _ => self.gen_rec(&d, fresh, ops),
        }
    }
    fn gen_rec(&mut self, d: &R, fresh: &mut Vec<(usize, R)>, ops: &mut Vec<Op>) -> R {
        match d {
            R::A(f, a) => R::A(Box::new(self.generalize(f, fresh, ops)), a.iter().map(|x| self.generalize(x, fresh, ops)).collect()),
            // an unassigned variable of the other side has to be matched by a pattern variable
            R::V(_) => {
                let k = self.m.kind(d);
                let same: Vec<usize> = fresh.iter().filter(|x| self.m.deep(&x.1) == *d).map(|x| x.0).collect();
                if !same.is_empty() { return R::V(same[0]); }
                let v = self.new(k, 99);
                ops.push(Op::New(k, 99));
                fresh.push((v, d.clone()));
                R::V(v)
            }
            d => d.clone(),
        }
    }
    fn new(&mut self, k: usize, l: u32) -> usize {
        self.m.kinds.push(k);
        self.m.levels.push(l);
        self.m.sub.push(None);
        self.m.kinds.len() - 1
    }
    /// Operations and what each has to answer.
    fn history(&mut self, out: &mut Out) -> Vec<(Op, String)> {
        let mut h = vec![];
        for _ in 0..self.t.range(1, 5) {
            let (k, l) = if self.m.types { (*self.t.pick(&[0, 0, 0, 1, 2, 3, 4]), self.level()) } else { (0, 0) };
            self.new(k, l);
            h.push((Op::New(k, l), "ok".to_string()));
        }
        let (mut unis, mut fails) = (0, 0);
        for _ in 0..self.t.range(2, 10) {
            match self.t.below(if self.m.types { 12 } else { 6 }) {
                0 => {
                    let (k, l) = if self.m.types { (*self.t.pick(&[0, 0, 0, 1, 2]), self.level()) } else { (0, 0) };
                    self.new(k, l);
                    h.push((Op::New(k, l), "ok".to_string()));
                }
                1..=4 => {
                    let (a, b) = self.two();
                    unis += 1;
                    let ok = self.m.unify(&a, &b);
                    h.push((Op::Unify(a, b), if ok { self.m.dump() } else { "err".to_string() }));
                    if !ok { fails += 1; out.classes.push("clash"); break; }
                }
                5 => {
                    let a = if self.m.types { self.term(0, 3) } else { self.kterm(3) };
                    let b = R::C(0);
                    let mut vs = vec![];
                    self.m.vars(&a, &mut vs);
                    // the implementation visits a tree that the defaulting itself changes; every order does the same
                    let ok = vs.iter().all(|v| self.m.unify(&R::V(*v), &b));
                    h.push((Op::Default(a, b), if ok { self.m.dump() } else { "err".to_string() }));
                    if !ok { fails += 1; break; }
                }
                6 | 7 => {
                    let b = self.term(0, 3);
                    let (mut fresh, mut ops) = (vec![], vec![]);
                    let a = self.generalize(&b, &mut fresh, &mut ops);
                    for o in ops { h.push((o, "ok".to_string())); }
                    let f: Vec<usize> = fresh.iter().map(|x| x.0).collect();
                    unis += 1;
                    let ok = self.m.mat(&f, &a, &b);
                    h.push((Op::Match(a, b), if ok { self.m.dump() } else { "err".to_string() }));
                    out.classes.push(if ok { "match" } else { "match-clash" });
                    if !ok { fails += 1; break; }
                }
                8 => {
                    let (a, b) = self.two();
                    let e = self.m.deep(&a) == self.m.deep(&b);
                    h.push((Op::Equal(a, b), e.to_string()));
                }
                9 => {
                    let a = self.term(0, 3);
                    let (mut vs, mut gs) = (vec![], vec![]);
                    self.m.vars(&a, &mut vs);
                    self.m.gens(&a, &mut gs);
                    let l = vs.iter().map(|v| self.m.level(*v)).chain(gs.iter().map(|g| GENS[*g].1)).max().unwrap_or(0);
                    h.push((Op::Deepest(a), l.to_string()));
                }
                10 => {
                    let a = self.term(0, 3);
                    let l = self.level();
                    let mut vs = vec![];
                    self.m.vars(&a, &mut vs);
                    let n = vs.iter().filter(|v| self.m.level(**v) >= l).count();
                    h.push((Op::Vars(a, l), n.to_string()));
                }
                _ => {
                    let a = self.term(0, 3);
                    let b = self.term(0, 2);
                    let (mut o, mut seen) = (String::new(), vec![]);
                    self.m.show(&self.m.subst(&a, &b), &mut seen, &mut o);
                    h.push((Op::Subst(a, b), o));
                }
            }
        }
        out.nontrivial = unis >= 2;
        if fails == 0 { out.classes.push("all-succeed") }
        h
    }
}

// ---------------------------------------------------------------- the code under test

#[derive(Clone)]
struct Env(HashMap<ast::Construct, ast::Kind>);
impl ut::KindEnvironment for Env {
    fn resolve_kind(&self, c: impl Into<ast::Construct>) -> Cow<'_, ast::Kind> {
        Cow::Borrowed(&self.0[&c.into()])
    }
}

fn ast_kind(k: usize) -> ast::Kind {
    let (args, ret) = KINDS[k];
    if args.is_empty() {
        return ast::Kind::Type;
    }
    ast::Kind::fun(args.iter().map(|x| ast_kind(*x)).collect(), ast_kind(ret))
}

fn lv(l: u32) -> Level {
    if l == 99 { Level::bottom() } else { (0..l).fold(Level::top(), |l, _| l.down()) }
}

fn unlv(l: Level) -> u32 {
    if l == Level::bottom() { 99 } else { l.depth() }
}

struct T {
    ctx: ut::Context<Env>,
    cons: Vec<ast::NodeId<ast::DataTypeCon>>,
    gens: Vec<ut::Gen>,
    vars: Vec<ut::Type>,
    kinds: Vec<usize>,
}

impl T {
    fn new() -> Self {
        let mut id = ast::NodeIdGenerator::in_module(ast::ModuleId::from_index(1));
        let mut e = HashMap::new();
        let cons: Vec<ast::NodeId<ast::DataTypeCon>> = CONS.iter().map(|k| { let c: ast::NodeId<ast::DataTypeCon> = id.generate(); e.insert(c.into(), ast_kind(*k)); c }).collect();
        let gens: Vec<ut::Gen> = GENS.iter().map(|k| { let c: ut::Gen = id.generate(); e.insert(c.into(), ast_kind(k.0)); c }).collect();
        T { ctx: ut::Context::new(Env(e)), cons, gens, vars: vec![], kinds: vec![] }
    }
    fn term(&mut self, t: &R) -> ut::Type {
        match t {
            R::V(i) => self.vars[*i],
            R::C(i) => self.ctx.new_con(self.cons[*i].into()),
            R::G(i) => ut::Type::Gen(self.gens[*i], lv(GENS[*i].1)),
            R::A(f, a) => {
                let f = self.term(f);
                let a = a.iter().map(|x| self.term(x)).collect();
                self.ctx.new_app(f, a)
            }
        }
    }
    fn show(&mut self, t: ut::Type, seen: &mut Vec<ut::Var>, o: &mut String) {
        use ut::Resolve;
        match self.ctx.resolve(t) {
            ut::Type::Var(v, k, l) => {
                let n = seen.iter().position(|x| *x == v).unwrap_or_else(|| { seen.push(v); seen.len() - 1 });
                let k = self.ctx.kind_table.review(k).clone();
                let k = (0..KINDS.len()).position(|i| ast_kind(i) == k).unwrap();
                *o += &format!("?{}:{}:{}", n, k, unlv(l));
            }
            ut::Type::Con(c) => *o += &format!("c{}", self.cons.iter().position(|x| c == (*x).into()).unwrap()),
            ut::Type::Gen(g, _) => *o += &format!("g{}", self.gens.iter().position(|x| g == *x).unwrap()),
            ut::Type::App(f, a) => {
                *o += "(";
                let f = self.ctx.resolve(f);
                self.show(f, seen, o);
                for x in a.iter() {
                    *o += " ";
                    let x = self.ctx.resolve(x);
                    self.show(x, seen, o);
                }
                *o += ")";
            }
        }
    }
    fn dump(&mut self) -> String {
        let (mut o, mut seen) = ("ok".to_string(), vec![]);
        for v in self.vars.clone() {
            o += " ";
            self.show(v, &mut seen, &mut o);
        }
        o
    }
    fn run(&mut self, op: &Op) -> String {
        let r = match op {
            Op::New(k, l) => {
                let k2 = self.ctx.kind_table.intern(&ast_kind(*k));
                let v = self.ctx.new_var(k2, lv(*l));
                self.vars.push(v);
                self.kinds.push(*k);
                return "ok".into();
            }
            Op::Unify(a, b) => { let (a, b) = (self.term(a), self.term(b)); self.ctx.unify(a, b).is_ok() }
            Op::Match(a, b) => { let (a, b) = (self.term(a), self.term(b)); self.ctx.match_to_right(a, b).is_ok() }
            Op::Default(a, b) => { let (a, b) = (self.term(a), self.term(b)); self.ctx.default_vars(a, b).is_ok() }
            Op::Equal(a, b) => { let (a, b) = (self.term(a), self.term(b)); return self.ctx.equal(a, b).to_string() }
            Op::Deepest(a) => { let a = self.term(a); return unlv(self.ctx.compute_deepest_level(a)).to_string() }
            Op::Vars(a, l) => { let a = self.term(a); return self.ctx.get_vars(a, lv(*l)).len().to_string() }
            Op::Subst(a, b) => {
                let (a, b) = (self.term(a), self.term(b));
                let t = self.ctx.subst(&vec![(self.gens[0], b)].into_iter().collect(), a);
                let (mut o, mut seen) = (String::new(), vec![]);
                self.show(t, &mut seen, &mut o);
                return o;
            }
        };
        if r { self.dump() } else { "err".into() }
    }
}

struct K {
    ctx: uk::Context,
    vars: Vec<uk::Kind>,
}

impl K {
    fn term(&mut self, t: &R) -> uk::Kind {
        match t {
            R::V(i) => self.vars[*i],
            R::C(i) => [uk::Kind::Type, uk::Kind::Constraint, uk::Kind::Satisfaction, uk::Kind::Value, uk::Kind::Macro][*i],
            R::G(_) => unreachable!(),
            R::A(f, a) => {
                let a = a.iter().map(|x| self.term(x)).collect();
                let f = self.term(f);
                self.ctx.new_fun(a, f)
            }
        }
    }
    fn show(&mut self, t: uk::Kind, seen: &mut Vec<uk::Var>, o: &mut String) {
        use uk::Resolve;
        let c = match self.ctx.resolve(t) {
            uk::Kind::Var(v) => {
                let n = seen.iter().position(|x| *x == v).unwrap_or_else(|| { seen.push(v); seen.len() - 1 });
                *o += &format!("?{}", n);
                return;
            }
            uk::Kind::Type => 0,
            uk::Kind::Constraint => 1,
            uk::Kind::Satisfaction => 2,
            uk::Kind::Value => 3,
            uk::Kind::Macro => 4,
            uk::Kind::Fun(a, f) => {
                *o += "(";
                let f = self.ctx.resolve(f);
                self.show(f, seen, o);
                for x in a.iter() {
                    *o += " ";
                    let x = self.ctx.resolve(x);
                    self.show(x, seen, o);
                }
                *o += ")";
                return;
            }
        };
        *o += &format!("c{}", c);
    }
    fn run(&mut self, op: &Op) -> String {
        let r = match op {
            Op::New(_, _) => {
                let v = self.ctx.new_var();
                self.vars.push(v);
                return "ok".into();
            }
            Op::Unify(a, b) => { let (a, b) = (self.term(a), self.term(b)); self.ctx.unify(a, b).is_ok() }
            Op::Default(a, b) => { let (a, b) = (self.term(a), self.term(b)); self.ctx.default_vars(a, b).is_ok() }
            _ => unreachable!(),
        };
        if !r { return "err".into(); }
        let (mut o, mut seen) = ("ok".to_string(), vec![]);
        for v in self.vars.clone() {
            o += " ";
            self.show(v, &mut seen, &mut o);
        }
        o
    }
}

fn gen(t: &mut Tape, out: &mut Out) -> (bool, Vec<(Op, String)>) {
    let types = t.below(4) != 3;
    let mut g = G { t, m: M { types, ..M::default() } };
    (types, g.history(out))
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let (types, h) = gen(t, out);
    out.classes.push(if types { "types" } else { "kinds" });
    out.desc = h.iter().map(|x| x.0.enc() + "\n").collect();
    let mut tc = T::new();
    let mut kc = K { ctx: uk::Context::new(), vars: vec![] };
    for (i, (op, want)) in h.iter().enumerate() {
        let got = if types { tc.run(op) } else { kc.run(op) };
        let name = match op { Op::Unify(..) => "unify", Op::Match(..) => "match", Op::Default(..) => "default", Op::Equal(..) => "equal", Op::Deepest(_) => "deepest-level", Op::Vars(..) => "vars", Op::Subst(..) => "subst", Op::New(..) => "new" };
        let sig = format!("{}-{}-{}", if types { "type" } else { "kind" }, name, if want == "err" { "accepted" } else if got == "err" { "rejected" } else { "result" });
        ensure!(got == *want, &sig, "after\n{}expected {}\nbut got  {}", h[..=i].iter().map(|x| x.0.enc() + "\n").collect::<String>(), want, got);
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("texts") {
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            let mut t = Tape::random(vharness::case_seed(seed, i, "c05x"));
            let mut out = Out::default();
            let (types, h) = gen(&mut t, &mut out);
            let text = format!("{} {}", if types { "T" } else { "K" }, h.iter().map(|x| x.0.enc()).collect::<Vec<_>>().join(" "));
            println!("[{},{}]", vharness::jstr(&text), vharness::jstr(&h.iter().map(|x| x.1.clone() + "\n").collect::<String>()));
        }
        return;
    }
    main_with("c05", &case)
}
