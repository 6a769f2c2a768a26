//! C26: modules whose type parameters carry few kind annotations, against a reference kind inference.
use llrl::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use vharness::front::front;
use vharness::{fail, main_with, Case, Out, Tape};

// ------------------------------------------------------------------ kinds

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum K { Star, Con, Sat, Val, Fun(Vec<K>, Box<K>), Var(usize) }
use K::*;

fn kfun(a: Vec<K>, r: K) -> K { if a.is_empty() { r } else { Fun(a, Box::new(r)) } }
fn kshow(k: &K) -> String {
    match k { Star => "*".into(), Con => "Constraint".into(), Sat => "Satisfaction".into(), Val => "Value".into(), Var(v) => format!("?{}", v), Fun(a, r) => format!("(->{} {})", a.iter().map(|x| format!(" {}", kshow(x))).collect::<String>(), kshow(r)) }
}

#[derive(Default)]
struct U(Vec<Option<K>>);
impl U {
    fn var(&mut self) -> K { self.0.push(None); Var(self.0.len() - 1) }
    fn res(&self, k: &K) -> K { match k { Var(v) => match &self.0[*v] { Some(x) => self.res(x), None => Var(*v) }, Fun(a, r) => Fun(a.iter().map(|x| self.res(x)).collect(), Box::new(self.res(r))), x => x.clone() } }
    fn occurs(v: usize, k: &K) -> bool { match k { Var(x) => *x == v, Fun(a, r) => a.iter().any(|x| U::occurs(v, x)) || U::occurs(v, r), _ => false } }
    fn unify(&mut self, a: &K, b: &K) -> Result<(), String> {
        let (a, b) = (self.res(a), self.res(b));
        match (&a, &b) {
            _ if a == b => Ok(()),
            (Var(v), k) | (k, Var(v)) => { if U::occurs(*v, k) { return Err(format!("{} is {}", kshow(&a), kshow(&b))); } self.0[*v] = Some(k.clone()); Ok(()) }
            (Fun(x, r), Fun(y, s)) if x.len() == y.len() => { for (p, q) in x.iter().zip(y) { self.unify(p, q)?; } self.unify(r, s) }
            _ => Err(format!("{} against {}", kshow(&a), kshow(&b))),
        }
    }
    fn to_star(&mut self, k: &K) { match self.res(k) { Var(v) => self.0[v] = Some(Star), Fun(a, r) => { for x in &a { self.to_star(x); } self.to_star(&r) } _ => {} } }
}

// ------------------------------------------------------------------ modules

#[derive(Clone, Debug, PartialEq)]
enum T { Par(usize), Data(usize), Blt(&'static str), Leaf(&'static str), App(Box<T>, Vec<T>), Arrow(Vec<T>), Tuple(Vec<T>) }
/// a type parameter: number, kind meant by the generator, annotation written
type Par = (usize, K, Option<K>);
type Where = Vec<(usize, Vec<T>)>;
#[derive(Clone, Debug)]
struct Scheme { gens: Vec<Par>, body: T, cons: Where }
#[derive(Clone, Debug)]
struct Data { value: bool, params: Vec<Par>, cons: Vec<Vec<T>> }
#[derive(Clone, Debug)]
struct Class { params: Vec<Par>, supers: Where, methods: Vec<Scheme> }
#[derive(Clone, Debug)]
struct Inst { gens: Vec<Par>, class: usize, args: Vec<T>, cons: Where }
#[derive(Clone, Debug)]
struct Fun_ { sch: Scheme, local: Option<Scheme>, var: Option<(T, T)>, ann: Option<T> }
#[derive(Clone, Debug, Default)]
struct Prog { data: Vec<Data>, classes: Vec<Class>, funs: Vec<Fun_>, insts: Vec<Inst>, cfuns: Vec<T>, split: bool }

fn show(t: &T) -> String {
    let many = |v: &[T]| v.iter().map(|x| format!(" {}", show(x))).collect::<String>();
    match t { T::Par(p) => format!("p{}", p), T::Data(d) => format!("D{}", d), T::Blt(s) | T::Leaf(s) => s.to_string(), T::App(h, a) => format!("({}{})", show(h), many(a)), T::Arrow(a) => format!("(->{})", many(a)), T::Tuple(a) => format!("(:{})", many(a)) }
}
fn par(p: &Par) -> String { match &p.2 { None => format!("p{}", p.0), Some(k) => format!("[p{} {}]", p.0, kshow(k)) } }
fn pars(ps: &[Par]) -> String { ps.iter().map(|p| format!(" {}", par(p))).collect() }
fn wh(w: &Where) -> String { if w.is_empty() { return String::new(); } format!(" (where{})", w.iter().map(|(k, a)| format!(" (K{}{})", k, a.iter().map(|x| format!(" {}", show(x))).collect::<String>())).collect::<String>()) }
fn forall(g: &[Par]) -> String { if g.is_empty() { String::new() } else { format!("(forall{}) ", pars(g)) } }
fn scheme(s: &Scheme) -> String { format!("{{{}{}{}}}", forall(&s.gens), show(&s.body), wh(&s.cons)) }
fn head(n: String, p: &[Par]) -> String { if p.is_empty() { n } else { format!("({}{})", n, pars(p)) } }

impl Prog {
    fn params(&mut self, f: &mut dyn FnMut(&mut Par)) {
        for d in &mut self.data { d.params.iter_mut().for_each(&mut *f); }
        for c in &mut self.classes { c.params.iter_mut().for_each(&mut *f); for m in &mut c.methods { m.gens.iter_mut().for_each(&mut *f); } }
        for x in &mut self.funs { x.sch.gens.iter_mut().for_each(&mut *f); if let Some(l) = &mut x.local { l.gens.iter_mut().for_each(&mut *f); } }
        for x in &mut self.insts { x.gens.iter_mut().for_each(&mut *f); }
    }
    fn texts(&self) -> Vec<(String, String)> {
        let (mut a, mut b) = (String::from("(builtin-type (Ptr A) \"ptr\")\n(builtin-type (Array A) \"array\")\n"), String::new());
        for (i, d) in self.data.iter().enumerate() {
            let _ = writeln!(a, "({} {}{})", if d.value { "value-data" } else { "data" }, head(format!("D{}", i), &d.params), d.cons.iter().enumerate().map(|(k, f)| if f.is_empty() { format!(" c{}-{}", i, k) } else { format!(" (c{}-{}{})", i, k, f.iter().map(|t| format!(" {}", show(t))).collect::<String>()) }).collect::<String>());
        }
        for (i, c) in self.classes.iter().enumerate() {
            let _ = writeln!(a, "(class {}{}{})", head(format!("K{}", i), &c.params), wh(&c.supers), c.methods.iter().enumerate().map(|(k, m)| format!("\n  (function m{}-{} {})", i, k, scheme(m))).collect::<String>());
        }
        for (i, f) in self.funs.iter().enumerate() {
            let mut e = format!("f{}", i);
            if let Some(l) = &f.local { e = format!("(let ([(g x) {} (g x)]) {})", scheme(l), e); }
            if let Some(t) = &f.ann { e = format!("{} {{{}}}", e, show(t)); }
            if let Some((v, w)) = &f.var { e = format!("(let ([(h) {{(-> {})}} (h)]) (let ([y {{{}}} (h)]) {}))", show(v), show(w), e); }
            let _ = writeln!(b, "(function f{} {}\n  {})", i, scheme(&f.sch), e);
        }
        for (i, t) in self.cfuns.iter().enumerate() { let _ = writeln!(b, "(c-function cf{} {{{}}} \"cf{}\")", i, show(t), i); }
        for (i, x) in self.insts.iter().enumerate() {
            let _ = writeln!(b, "(instance I{} {}{}{})", i, forall(&x.gens), wh(&vec![(x.class, x.args.clone())]).trim_start_matches(" (where ").strip_suffix(')').unwrap(), wh(&x.cons));
        }
        let h = "(no-implicit-std)\n(import \"builtin\" _)\n(export _)\n";
        if self.split {
            vec![("~".into(), format!("{}(import \"~/a\" _)\n{}", h, b)), ("~/a".into(), format!("{}{}", h, a))]
        } else { vec![("~".into(), format!("{}{}{}", h, a, b))] }
    }
}

// ------------------------------------------------------------------ reference kind inference

struct Ref<'a> { p: &'a Prog, u: U, par: HashMap<usize, K>, out: BTreeMap<String, K>, main: bool }
type R = Result<(), String>;

impl<'a> Ref<'a> {
    fn par(&mut self, i: usize) -> K { if let Some(k) = self.par.get(&i) { return k.clone(); } let k = self.u.var(); self.par.insert(i, k.clone()); k }
    fn head(&mut self, ps: &[Par], sats: usize, ret: K) -> K {
        let mut v: Vec<K> = ps.iter().map(|p| self.par(p.0)).collect();
        for _ in 0..sats { v.push(Sat); }
        kfun(v, ret)
    }
    fn anns(&mut self, ps: &[Par]) -> R { for p in ps { if let Some(a) = &p.2 { let k = self.par(p.0); self.u.unify(&k, a)?; } } Ok(()) }
    fn fix(&mut self, ps: &[Par]) { for p in ps { let k = self.par(p.0); self.u.to_star(&k); } }
    fn ty(&mut self, t: &T) -> Result<K, String> {
        Ok(match t {
            T::Par(p) => self.par(*p),
            T::Data(d) => { let ps = &self.p.data[*d].params; self.head(ps, 0, Star) }
            T::Blt(_) => kfun(vec![Star], Star),
            T::Leaf(_) => Star,
            T::App(h, a) => {
                let h = self.ty(h)?;
                let mut v = vec![];
                for x in a { v.push(self.ty(x)?); }
                let r = self.u.var();
                self.u.unify(&h, &kfun(v, r.clone()))?;
                r
            }
            T::Arrow(a) | T::Tuple(a) => { for x in a { let k = self.ty(x)?; self.u.unify(&k, &Star)?; } Star }
        })
    }
    fn star(&mut self, t: &T) -> R { let k = self.ty(t)?; self.u.unify(&k, &Star) }
    fn cons(&mut self, w: &Where) -> R {
        for (c, a) in w {
            let mut v = vec![];
            for x in a { v.push(self.ty(x)?); }
            let ps = &self.p.classes[*c].params;
            let k = self.head(ps, 0, Con);
            self.u.unify(&kfun(v, Con), &k)?;
        }
        Ok(())
    }
    fn scheme(&mut self, s: &Scheme) -> R { self.anns(&s.gens)?; self.cons(&s.cons)?; self.star(&s.body) }
    fn run(&mut self) -> R {
        let p = self.p;
        fn dt(t: &T, o: &mut Vec<usize>) { match t { T::Data(d) => o.push(*d), T::App(h, a) => { dt(h, o); for x in a { dt(x, o) } } T::Arrow(a) | T::Tuple(a) => for x in a { dt(x, o) }, _ => {} } }
        let deps: Vec<Vec<usize>> = p.data.iter().map(|d| { let mut o = vec![]; for f in d.cons.iter().flatten() { dt(f, &mut o) } o }).collect();
        for g in groups(&deps) {
            for i in &g { self.anns(&p.data[*i].params)?; }
            for i in &g { for f in p.data[*i].cons.iter().flatten() { self.star(f)?; } }
            for i in &g { self.fix(&p.data[*i].params); let k = self.head(&p.data[*i].params, 0, Star); let k = self.u.res(&k); self.out.insert(format!("D{}", i), k); }
        }
        let deps: Vec<Vec<usize>> = p.classes.iter().map(|c| c.supers.iter().chain(c.methods.iter().flat_map(|m| m.cons.iter())).map(|x| x.0).collect()).collect();
        for g in groups(&deps) {
            for i in &g { self.anns(&p.classes[*i].params)?; }
            for i in &g { let c = &p.classes[*i]; self.cons(&c.supers)?; for m in &c.methods { self.scheme(m)?; } }
            for i in &g {
                let c = &p.classes[*i];
                self.fix(&c.params);
                for (k, m) in c.methods.iter().enumerate() { self.fix(&m.gens); let x = self.head(&m.gens, m.cons.len(), Val); let x = self.u.res(&x); self.out.insert(format!("m{}-{}", i, k), x); }
                let x = self.head(&c.params, 0, Con); let x = self.u.res(&x);
                self.out.insert(format!("K{}", i), x);
            }
        }
        self.main = true;
        for (i, f) in p.funs.iter().enumerate() {
            self.scheme(&f.sch)?;
            self.fix(&f.sch.gens);
            let k = self.head(&f.sch.gens, f.sch.cons.len(), Val); let k = self.u.res(&k);
            self.out.insert(format!("f{}", i), k);
            if let Some(l) = &f.local { self.scheme(l)?; self.fix(&l.gens); }
            if let Some((v, w)) = &f.var { self.star(v)?; self.star(w)?; }
            if let Some(t) = &f.ann { self.star(t)?; }
        }
        for t in &p.cfuns { self.star(t)?; }
        for x in &p.insts {
            self.anns(&x.gens)?;
            self.cons(&x.cons)?;
            self.cons(&vec![(x.class, x.args.clone())])?;
            self.fix(&x.gens);
        }
        Ok(())
    }
}

/// Strongly connected components, those depended on first, by reachability.
fn groups(deps: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = deps.len();
    let mut r = vec![vec![false; n]; n];
    for (i, d) in deps.iter().enumerate() { for j in d { r[i][*j] = true; } r[i][i] = true; }
    for k in 0..n { for i in 0..n { for j in 0..n { if r[i][k] && r[k][j] { r[i][j] = true; } } } }
    let mut done = vec![false; n];
    let mut o = vec![];
    while o.iter().map(|g: &Vec<usize>| g.len()).sum::<usize>() < n {
        for i in 0..n {
            if done[i] { continue; }
            let g: Vec<usize> = (0..n).filter(|j| r[i][*j] && r[*j][i]).collect();
            if (0..n).all(|j| !r[i][j] || done[j] || g.contains(&j)) { for j in &g { done[*j] = true; } o.push(g); }
        }
    }
    o
}

// ------------------------------------------------------------------ generation

struct Gen<'a> { t: &'a mut Tape, next: usize, data: Vec<Vec<K>>, classes: Vec<Vec<K>>, noise: u64, annotate: u64 }

impl<'a> Gen<'a> {
    fn kind(&mut self) -> K {
        let s = |n: usize| kfun(vec![Star; n], Star);
        match self.t.below(16) { 0..=8 => Star, 9..=11 => s(1), 12 => s(2), 13 => kfun(vec![s(1)], Star), 14 => kfun(vec![s(1), Star], Star), _ => match self.t.below(4) { 0 => kfun(vec![Star], s(1)), 1 => kfun(vec![kfun(vec![s(1)], Star)], Star), 2 => kfun(vec![s(2)], Star), _ => kfun(vec![Star, s(1)], Star) } }
    }
    fn params(&mut self, ks: Vec<K>) -> Vec<Par> {
        ks.into_iter().map(|k| {
            self.next += 1;
            let ann = if self.t.chance(1, self.annotate) { Some(if self.noise > 0 && self.t.chance(1, 6) { self.kind() } else { k.clone() }) } else { None };
            (self.next, k, ann)
        }).collect()
    }
    fn kinds(&mut self, max: usize) -> Vec<K> { let n = self.t.range(0, max); (0..n).map(|_| self.kind()).collect() }
    fn has(&self, k: &K, env: &[Par]) -> bool { *k == Star || *k == kfun(vec![Star], Star) || env.iter().any(|p| p.1 == *k) || self.data.iter().any(|x| kfun(x.clone(), Star) == *k) }
    /// A type meant to be of kind `k`.
    fn ty(&mut self, k: &K, env: &[Par], d: usize) -> T {
        let k = &if self.noise > 0 && self.t.chance(1, self.noise) { self.kind() } else { k.clone() };
        let mut leaf: Vec<T> = vec![];
        for p in env { if p.1 == *k { leaf.push(T::Par(p.0)); leaf.push(T::Par(p.0)); } }
        for (i, x) in self.data.iter().enumerate() { if kfun(x.clone(), Star) == *k { leaf.push(T::Data(i)); } }
        if *k == kfun(vec![Star], Star) { leaf.push(T::Blt("Ptr")); leaf.push(T::Blt("Array")); }
        if *k == Star { leaf.extend([T::Leaf("U32"), T::Leaf("String"), T::Leaf("Bool"), T::Leaf("unit")].into_iter().map(|x| if x == T::Leaf("unit") { T::Tuple(vec![]) } else { x })); }
        let mut apps: Vec<(T, Vec<K>)> = vec![];
        if d > 0 {
            for p in env { if let Fun(a, r) = &p.1 { if **r == *k { apps.push((T::Par(p.0), a.clone())); apps.push((T::Par(p.0), a.clone())); } } }
            if *k == Star {
                for (i, x) in self.data.iter().enumerate() { if !x.is_empty() { apps.push((T::Data(i), x.clone())); } }
                apps.push((T::Blt("Ptr"), vec![Star]));
                apps.push((T::Blt("Array"), vec![Star]));
            }
        }
        if self.noise == 0 { apps.retain(|(_, a)| a.iter().all(|x| self.has(x, env))); }
        if *k == Star && d > 0 && self.t.chance(1, 8) {
            let n = self.t.range(2, 3);
            let v = (0..n).map(|_| self.ty(&Star, env, d - 1)).collect();
            return if self.t.bool() { T::Arrow(v) } else { T::Tuple(v) };
        }
        if !apps.is_empty() && (leaf.is_empty() || self.t.chance(2, 3)) {
            let i = self.t.below(apps.len() as u64) as usize;
            let (h, a) = apps.swap_remove(i);
            let mut v: Vec<T> = a.iter().map(|x| self.ty(x, env, d - 1)).collect();
            if self.noise > 0 && self.t.chance(1, 2 * self.noise) { if self.t.bool() { v.push(T::Leaf("U32")); } else if v.len() > 1 { v.pop(); } }
            return T::App(Box::new(h), v);
        }
        if leaf.is_empty() { return T::Blt("Ptr"); }
        let i = self.t.below(leaf.len() as u64) as usize;
        leaf.swap_remove(i)
    }
    fn wheres(&mut self, env: &[Par], max: usize) -> Where {
        let mut o = vec![];
        if self.classes.is_empty() { return o; }
        for _ in 0..max {
            if !self.t.chance(1, 3) { break; }
            let c = self.t.below(self.classes.len() as u64) as usize;
            let ks = self.classes[c].clone();
            if self.noise == 0 && !ks.iter().all(|k| self.has(k, env)) { continue; }
            o.push((c, ks.iter().map(|k| self.ty(k, env, 1)).collect()));
        }
        o
    }
    fn scheme(&mut self, outer: &[Par], arrow: bool) -> Scheme {
        let ks = self.kinds(3);
        let gens = self.params(ks);
        let env: Vec<Par> = outer.iter().chain(&gens).cloned().collect();
        let n = self.t.range(2, 4);
        let body = if arrow || self.t.chance(3, 4) { T::Arrow((0..n).map(|_| self.ty(&Star, &env, 2)).collect()) } else { self.ty(&Star, &env, 3) };
        let cons = self.wheres(&env, 2);
        Scheme { gens, body, cons }
    }
    fn prog(&mut self) -> Prog {
        let mut p = Prog::default();
        for _ in 0..self.t.range(1, 6) { let k = self.kinds(3); self.data.push(k); }
        for i in 0..self.data.len() {
            let ks = self.data[i].clone();
            let params = self.params(ks);
            let n = self.t.range(1, 3);
            let mut cons = vec![];
            for _ in 0..n { let m = self.t.range(0, 3); cons.push((0..m).map(|_| self.ty(&Star, &params, 3)).collect()); }
            p.data.push(Data { value: self.t.chance(1, 6), params, cons });
        }
        for _ in 0..self.t.range(0, 3) { let mut k = self.kinds(2); if k.is_empty() { k.push(self.kind()); } self.classes.push(k); }
        for i in 0..self.classes.len() {
            let ks = self.classes[i].clone();
            let params = self.params(ks);
            let mut supers = self.wheres(&params, 2);
            if self.t.chance(9, 10) { supers.retain(|w| w.0 < i); }
            let n = if self.t.chance(1, 3) { 0 } else { self.t.range(1, 2) };
            let methods = (0..n).map(|_| self.scheme(&params, false)).collect();
            p.classes.push(Class { params, supers, methods });
        }
        for _ in 0..self.t.range(0, 2) {
            let sch = self.scheme(&[], false);
            let local = if self.t.chance(1, 3) { let mut l = self.scheme(&sch.gens, true); if let T::Arrow(v) = &mut l.body { v.truncate(2); } Some(l) } else { None };
            let var = if self.t.chance(1, 4) { let g = sch.gens.clone(); let v = self.ty(&Star, &g, 2); Some((v.clone(), if self.noise > 0 { self.ty(&Star, &g, 2) } else { v })) } else { None };
            let ann = if self.t.chance(1, 4) { Some(if self.noise > 0 { let g = sch.gens.clone(); self.ty(&Star, &g, 2) } else { sch.body.clone() }) } else { None };
            p.funs.push(Fun_ { sch, local, var, ann });
        }
        for _ in 0..self.t.below(2) { let a = self.ty(&Star, &[], 2); p.cfuns.push(T::Arrow(vec![a, T::Leaf("U32")])); }
        for i in 0..p.classes.len() {
            if p.classes[i].methods.is_empty() && p.classes[i].supers.is_empty() && self.t.chance(2, 3) {
                let ks = self.kinds(2);
                let gens = self.params(ks);
                let ck = self.classes[i].clone();
                if self.noise == 0 && !ck.iter().all(|k| self.has(k, &gens)) { continue; }
                let args = ck.iter().map(|k| self.ty(k, &gens, 2)).collect();
                let cons = self.wheres(&gens, 1);
                p.insts.push(Inst { gens, class: i, args, cons });
            }
        }
        p.split = self.t.bool();
        p
    }
}

fn of(k: &ast::Kind) -> K {
    match k { ast::Kind::Type => Star, ast::Kind::Constraint => Con, ast::Kind::Satisfaction => Sat, ast::Kind::Value => Val, ast::Kind::Fun(a, r) => Fun(a.iter().map(of).collect(), Box::new(of(r))), _ => Var(usize::MAX) }
}

fn judge(p: &Prog) -> (R, BTreeMap<String, K>, bool) {
    let mut r = Ref { p, u: U::default(), par: HashMap::new(), out: BTreeMap::new(), main: false };
    let v = r.run();
    (v, r.out, r.main)
}

fn one(t: &mut Tape, out: &mut Out) -> Case {
    let noise = match t.below(3) { 0 | 1 => 0, _ => t.range(8, 60) as u64 };
    let annotate = *t.pick(&[12, 4, 40]);
    let mut p = Gen { t, next: 0, data: vec![], classes: vec![], noise, annotate }.prog();
    // Without annotations most parameters of higher kind that no use determines make the module ill kinded.
    if noise == 0 && t.chance(7, 8) {
        for k in 0..4 {
            if judge(&p).0.is_ok() { break; }
            p.params(&mut |q| if q.1 != Star && q.2.is_none() && (k == 3 || t.chance(1, 3)) { q.2 = Some(q.1.clone()) });
        }
    }
    let texts = p.texts();
    let text = texts.iter().map(|(n, s)| format!("; {}\n{}", n, s)).collect::<String>();
    let (verdict, kinds, in_main) = judge(&p);
    out.evals += 1;
    let _ = writeln!(out.desc, "; expected: {}\n{}", match &verdict { Ok(()) => "well kinded".to_string(), Err(e) => format!("ill kinded: {}", e) }, text);
    let f = front(&["~".to_string()], &texts, &[]);
    let kinderr = f.errors.iter().any(|e| matches!(e.1.clone().drop_context_info(), ModuleError::CannotUnifyKind(..) | ModuleError::UnsupportedKind(..)));
    match verdict {
        Err(why) => {
            out.classes.push("ill kinded");
            out.subs.push(text.clone());
            if !kinderr && p.split && in_main && f.errors.iter().any(|e| e.0 == "~/a") { out.classes.push("the other module is rejected"); return Ok(()); }
            if !kinderr { return fail("accepts-ill-kinded", format!("{}: {}\n{}", f.summary(), why, text)); }
        }
        Ok(()) => {
            let higher = kinds.values().any(|k| matches!(k, Fun(a, _) if a.iter().any(|x| matches!(x, Fun(..)))));
            out.classes.push("well kinded");
            if higher { out.subs.push(text.clone()); out.classes.push("with a parameter that is not a type"); }
            if !f.src.is_empty() || f.cycle.is_some() { return fail("source", format!("{}\n{}", f.summary(), text)); }
            if kinderr { return fail("rejects-well-kinded", format!("{}\n{}", f.summary(), text)); }
            if !f.ok() { out.classes.push("well kinded, rejected for something else"); if std::env::var("VH_SHOW").is_ok() { eprintln!("{}", f.summary()); } return Ok(()); }
            for (name, want) in &kinds {
                for m in &f.modules {
                    let Some(c) = m.exports().get(name) else { continue };
                    let Some(k) = m.inferred_kinds().get(c.construct) else { continue };
                    out.classes.push("kind compared");
                    let got = of(&k);
                    if got != *want { return fail("kind", format!("{} has kind {}, inferred is {}\n{}", name, kshow(want), kshow(&got), text)); }
                }
            }
        }
    }
    Ok(())
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 24);
    let mut o = Out::default();
    let mut r = Ok(());
    for k in 0..n {
        let from = t.used();
        let mut q = Out::default();
        let x = one(t, &mut q);
        o.spans.push((from, t.used()));
        o.evals += q.evals;
        o.subs.extend(q.subs);
        o.classes.extend(q.classes);
        if o.desc.len() < 4000 { o.desc.push_str(&q.desc); o.desc.push('\n'); }
        if x.is_err() { r = x; o.bad = Some(k); o.desc = q.desc; break; }
    }
    o.nontrivial = !o.subs.is_empty();
    *out = o;
    r
}

fn main() {
    main_with("c26", &case);
}
