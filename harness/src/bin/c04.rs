//! C04: name resolution over module sets, against a reference resolver. Every definition has a type of its
//! own, so whether a use denotes the definition it should is decided by whether its module is accepted.
use std::collections::{BTreeMap, BTreeSet};
use vharness::front::front;
use vharness::{ensure, jstr, main_with, Case, Out, Tape};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Fun,
    CFun,
    Macro,
    Data,
    Ctor(usize),
    Class,
    Method(usize),
    /// of a class
    Inst(usize),
}

#[derive(Clone, Debug)]
struct Ent {
    kind: Kind,
    name: String,
    /// method of a class, type of a constructor
    peer: usize,
}

/// What a local name denotes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    /// a value of type hh.u<k>
    Val(usize),
    Fun(usize, usize),
    /// a type parameter, of which pp<k> is a value
    Ty(usize),
    PVal(usize),
    DVal(usize),
}

#[derive(Clone, Debug, Default)]
struct Mod {
    path: String,
    std: bool,
    text: String,
    top: BTreeMap<String, usize>,
    exports: BTreeMap<String, usize>,
    errors: BTreeSet<&'static str>,
    /// fails only because something it imports does
    dependent: bool,
}

#[derive(Clone, Debug)]
enum Wild {
    All,
    Pre(String),
    Suf(String),
}

impl Wild {
    fn of(p: &str) -> Option<Wild> {
        if p == "_" {
            Some(Wild::All)
        } else if p.starts_with('_') {
            Some(Wild::Suf(p[1..].into()))
        } else if p.ends_with('_') {
            Some(Wild::Pre(p[..p.len() - 1].into()))
        } else {
            None
        }
    }
    fn strip(&self, n: &str) -> Option<String> {
        match self {
            Wild::All => Some(n.into()),
            Wild::Pre(p) => n.strip_prefix(p.as_str()).filter(|x| !x.is_empty()).map(|x| x.into()),
            Wild::Suf(p) => n.strip_suffix(p.as_str()).filter(|x| !x.is_empty()).map(|x| x.into()),
        }
    }
    fn put(&self, n: &str) -> String {
        match self {
            Wild::All => n.into(),
            Wild::Pre(p) => format!("{}{}", p, n),
            Wild::Suf(p) => format!("{}{}", n, p),
        }
    }
}

const NAMES: [&str; 14] = ["a", "b", "x/a", "x/b", "a-y", "b-y", "x/a-y", "q", "x/q", "k", "k-y", "x/x/a", "a-y-y", "m"];
const WILDS: [&str; 7] = ["_", "x/_", "_-y", "x_", "a_", "_y", "_a"];
const INTO: [&str; 8] = ["z/_", "_-w", "_", "x/_", "_-y", "zz/_", "_=k", "a_"];

/// What an import or export of a target brings: pairs of a name and what it denotes.
fn select(from: &BTreeMap<String, usize>, name: &Option<String>, target: &str, missing: &'static str) -> Result<Vec<(String, usize)>, &'static str> {
    if let Some(w) = Wild::of(target) {
        let into = match name {
            Some(n) => Wild::of(n).ok_or("wild")?,
            None => w.clone(),
        };
        Ok(from.iter().filter_map(|(n, e)| w.strip(n).map(|n| (into.put(&n), *e))).collect())
    } else {
        let n = name.clone().unwrap_or(target.into());
        from.get(target).map(|e| vec![(n, *e)]).ok_or(missing)
    }
}

struct G<'a> {
    t: &'a mut Tape,
    ents: Vec<Ent>,
    uniq: usize,
    checks: usize,
    shadowed: usize,
    twists: bool,
    m: Mod,
}

impl<'a> G<'a> {
    fn id(&mut self) -> usize {
        self.uniq += 1;
        self.uniq
    }
    fn name(&mut self) -> String {
        self.t.pick(&NAMES).to_string()
    }
    fn fresh_name(&mut self) -> String {
        for _ in 0..12 {
            let n = self.name();
            if !self.m.top.contains_key(&n) || self.t.chance(1, 60) {
                return n;
            }
        }
        format!("n{}", self.id())
    }
    fn target(&mut self, from: &BTreeMap<String, usize>) -> (Option<String>, String) {
        let names: Vec<&String> = from.keys().filter(|n| !n.starts_with('h')).collect();
        if self.t.chance(1, 400) {
            return (None, format!("{}?", self.name()));
        }
        if self.t.chance(1, 400) {
            return (Some("a".into()), "_".into());
        }
        if self.t.below(3) == 0 || names.is_empty() {
            let w = self.t.pick(&WILDS).to_string();
            let n = if self.t.bool() { Some(self.t.pick(&INTO).to_string()) } else { None };
            (n, w)
        } else {
            let n = self.t.pick(&names).to_string();
            let r = if self.t.below(3) == 0 { Some(self.name()) } else { None };
            (r, n)
        }
    }
    fn show(t: &(Option<String>, String)) -> String {
        match &t.0 {
            Some(n) => format!("[{} {}]", n, t.1),
            None => t.1.clone(),
        }
    }
    fn define(&mut self, n: &str, e: usize) {
        match self.m.top.get(n) {
            Some(o) if *o != e => {
                self.m.errors.insert("multi");
                if self.ents[*o].kind == Kind::Macro || self.ents[e].kind == Kind::Macro {
                    self.m.errors.insert("macro");
                }
            }
            _ => {
                self.m.top.insert(n.to_string(), e);
            }
        }
    }
    fn ent(&mut self, kind: Kind, name: &str) -> usize {
        let e = self.ents.len();
        self.ents.push(Ent { kind, name: name.into(), peer: 0 });
        self.define(name, e);
        e
    }

    fn lookup(&self, env: &[BTreeMap<String, L>], n: &str) -> Result<L, Option<usize>> {
        for s in env.iter().rev() {
            if let Some(l) = s.get(n) {
                return Ok(*l);
            }
        }
        Err(self.m.top.get(n).copied())
    }

    /// An expression of type (:) that holds exactly if the name denotes what it should.
    fn check(&mut self, env: &[BTreeMap<String, L>]) -> String {
        self.checks += 1;
        let mut n = self.name();
        for _ in 0..6 {
            if self.lookup(env, &n) != Err(None) || self.t.chance(1, 250) {
                break;
            }
            let locals: Vec<String> = env.iter().flat_map(|s| s.keys().cloned()).filter(|n| !n.starts_with('p')).collect();
            let tops: Vec<String> = self.m.top.keys().filter(|n| !n.starts_with('h')).cloned().collect();
            n = if !locals.is_empty() && self.t.bool() {
                self.t.pick(&locals).clone()
            } else if !tops.is_empty() {
                self.t.pick(&tops).clone()
            } else {
                return "(:)".into();
            };
        }
        let what = self.lookup(env, &n);
        if what.is_ok() && self.m.top.contains_key(&n) || env.iter().filter(|s| s.contains_key(&n)).count() > 1 {
            self.shadowed += 1;
        }
        // the syntactic position: value, type, class, pattern
        let right = match what {
            Ok(L::Ty(_)) => 1,
            Ok(_) => 0,
            Err(Some(e)) => match self.ents[e].kind {
                Kind::Data => 1,
                Kind::Class => 2,
                Kind::Ctor(_) => *self.t.pick(&[0, 3]),
                Kind::Inst(_) => 4,
                Kind::Macro => {
                    if self.t.chance(19, 20) {
                        return "(:)".into();
                    }
                    0
                }
                _ => 0,
            },
            Err(None) => self.t.below(4) as usize,
        };
        let pos = if self.t.chance(1, 250) { self.t.below(4) as usize } else { right };
        if pos == 4 {
            // any instance: is it visible here?
            let insts: Vec<usize> = (0..self.ents.len()).filter(|e| matches!(self.ents[*e].kind, Kind::Inst(_))).collect();
            let i = if self.t.chance(1, 8) { *self.t.pick(&insts) } else { what.unwrap_err().unwrap() };
            let c = match self.ents[i].kind {
                Kind::Inst(c) => c,
                _ => unreachable!(),
            };
            if !self.m.top.values().any(|e| *e == i) {
                self.m.errors.insert("nomatch");
            }
            return format!("(hh.same (hy.{} hh.v{}) hh.v{})", c, i, self.ents[c].peer);
        }
        let z = self.id();
        if pos != right {
            // always a use of the wrong sort
            let ok = matches!(what, Err(Some(e)) if matches!((self.ents[e].kind, pos), (Kind::Ctor(_), 0 | 3)));
            if !ok {
                self.m.errors.insert("unres");
            }
        } else if what == Err(None) || matches!(what, Err(Some(e)) if self.ents[e].kind == Kind::Macro) {
            self.m.errors.insert("unres");
        }
        if pos == 3 && self.m.top.get(&n).map_or(false, |e| self.ents[*e].kind == Kind::Macro) {
            // a clause headed by a macro is a use of the macro
            self.m.errors.insert("macro");
        }
        let e = match what {
            Err(Some(e)) => e,
            _ => 0,
        };
        match pos {
            0 => {
                let twist = self.twists && self.t.chance(1, 200);
                let v = |g: &mut Self, e: usize| {
                    if twist {
                        g.m.errors.insert("type");
                        format!("hh.w")
                    } else {
                        format!("hh.v{}", e)
                    }
                };
                match what {
                    Ok(L::Val(k)) => format!("(hh.same {} {})", n, v(self, k)),
                    // macros are expanded before scopes exist: a macro of the module wins in this position
                    Ok(L::Fun(_, _)) if self.m.top.get(&n).map_or(false, |e| self.ents[*e].kind == Kind::Macro) => "(:)".into(),
                    Ok(L::Fun(a, b)) => format!("(hh.same ({} hh.v{}) {})", n, a, v(self, b)),
                    Ok(L::PVal(k)) => format!("(hh.same {} pp{})", n, k),
                    Ok(L::DVal(e)) => format!("(hy.{} {})", e, n),
                    Ok(L::Ty(_)) => format!("(hh.ign {})", n),
                    Err(Some(_)) => match self.ents[e].kind {
                        Kind::Fun => format!("(hh.same {} {})", n, v(self, e)),
                        Kind::CFun => format!("(hh.same ({} hh.v{}) {})", n, e, v(self, e)),
                        Kind::Ctor(d) => format!("(hy.{} {})", d, n),
                        Kind::Method(c) => format!("(hh.same ({} hh.v{}) {})", n, c, v(self, e)),
                        _ => format!("(hh.ign {})", n),
                    },
                    Err(None) => format!("(hh.ign {})", n),
                }
            }
            1 => {
                let b = match what {
                    Ok(L::Ty(k)) => format!("(hh.same hq pp{})", k),
                    Err(Some(e)) if self.ents[e].kind == Kind::Data => format!("(hy.{} hq)", e),
                    _ => "(:)".into(),
                };
                format!("(let ([(hl{} hq) {{(-> {} (:))}} {}]) (:))", z, n, b)
            }
            2 => {
                let (b, u) = match what {
                    Err(Some(e)) if self.ents[e].kind == Kind::Class => (format!("(hy.{} hq)", e), self.ents[e].peer),
                    _ => ("hh.v0".into(), 0),
                };
                format!("(let ([(hl{} hq) {{(forall hB) (-> hB hh.u{}) (where ({} hB))}} {}]) (:))", z, u, n, b)
            }
            _ => match what {
                Err(Some(e)) if matches!(self.ents[e].kind, Kind::Ctor(_)) => format!("(match hw.{} [{} (:)])", self.ents[e].peer, n),
                _ => format!("(match hh.v0 [{} (:)] [_ (:)])", n),
            },
        }
    }

    fn bind(&mut self, scope: &mut BTreeMap<String, L>, n: &str, l: L) {
        if scope.insert(n.to_string(), l).is_some() {
            self.m.errors.insert("dup");
        }
    }
    fn local_name(&mut self, taken: &BTreeMap<String, L>) -> String {
        let mut n = self.name();
        for _ in 0..6 {
            if !taken.contains_key(&n) || self.t.chance(1, 150) {
                return n;
            }
            n = self.name();
        }
        format!("p{}", self.id())
    }

    /// A function: parameters, scheme and body; a is what its first parameter takes, b its result.
    fn function(&mut self, env: &mut Vec<BTreeMap<String, L>>, d: u32, first: Option<usize>, result: Option<usize>) -> (String, String, String) {
        let mut tys = BTreeMap::new();
        let mut forall = vec![];
        let mut witness = vec![];
        if first.is_none() {
            for _ in 0..*self.t.pick(&[0, 0, 1, 2]) {
                let n = self.local_name(&tys);
                let k = self.id();
                self.bind(&mut tys, &n, L::Ty(k));
                forall.push(n.clone());
                witness.push((k, n));
            }
        }
        env.push(tys);
        let mut params = BTreeMap::new();
        let mut ps = vec![];
        let mut ts = vec![];
        if let Some(a) = first {
            let n = self.local_name(&params);
            self.bind(&mut params, &n, L::Val(a));
            ps.push(n);
            ts.push(format!("hh.u{}", a));
        } else {
            for (k, n) in &witness {
                self.bind(&mut params, &format!("pp{}", k), L::PVal(*k));
                ps.push(format!("pp{}", k));
                ts.push(n.clone());
            }
            for _ in 0..*self.t.pick(&[1, 1, 2, 3]) {
                let n = self.local_name(&params);
                let ty = self.name();
                let (l, ty) = match self.lookup(env, &ty) {
                    Ok(L::Ty(k)) => (L::PVal(k), ty),
                    Err(Some(e)) if self.ents[e].kind == Kind::Data => (L::DVal(e), ty),
                    _ => {
                        let k = self.t.below(self.ents.len() as u64 + 1) as usize;
                        (L::Val(k), format!("hh.u{}", k))
                    }
                };
                self.bind(&mut params, &n, l);
                ps.push(n);
                ts.push(ty);
            }
        }
        env.push(params);
        let body = self.expr(env, d);
        env.pop();
        env.pop();
        let fa = if forall.is_empty() { String::new() } else { format!("(forall {}) ", forall.join(" ")) };
        let (rt, body) = match result {
            Some(b) => (format!("hh.u{}", b), format!("(begin {} hh.v{})", body, b)),
            None => ("(:)".into(), body),
        };
        (ps.join(" "), format!("{{{}(-> {} {})}}", fa, ts.join(" "), rt), body)
    }

    /// An expression of type (:).
    fn expr(&mut self, env: &mut Vec<BTreeMap<String, L>>, d: u32) -> String {
        if d == 0 {
            return self.check(env);
        }
        match self.t.below(9) {
            0 | 1 => self.check(env),
            2 => format!("(begin {} {})", self.expr(env, d - 1), self.expr(env, d - 1)),
            3 => format!("(if #t {} {})", self.expr(env, d - 1), self.expr(env, d - 1)),
            4 => format!("(while (begin {} #f) {})", self.expr(env, d - 1), self.check(env)),
            5 | 6 => {
                // functions see the functions of their group, initialisers too; the body sees everything
                let nf = *self.t.pick(&[0, 1, 0, 2]);
                let nv = if nf == 0 { self.t.range(1, 3) } else { self.t.below(3) as usize };
                let mut all = BTreeMap::new();
                let mut funs = BTreeMap::new();
                let mut heads = vec![];
                for i in 0..nf + nv {
                    let n = self.local_name(&all);
                    let (a, b) = (self.t.below(self.ents.len() as u64 + 1) as usize, self.t.below(self.ents.len() as u64 + 1) as usize);
                    let l = if i < nf { L::Fun(a, b) } else { L::Val(a) };
                    self.bind(&mut all, &n, l);
                    if i < nf {
                        funs.insert(n.clone(), l);
                    }
                    heads.push((n, l));
                }
                env.push(funs);
                let mut defs = vec![];
                for (n, l) in heads {
                    match l {
                        L::Fun(a, b) => {
                            let (ps, sch, body) = self.function(env, d - 1, Some(a), Some(b));
                            defs.push(format!("[({} {}) {} {}]", n, ps, sch, body));
                        }
                        L::Val(a) => {
                            let i = self.expr(env, d - 1);
                            defs.push(format!("[{}{} (begin {} hh.v{})]", n, if self.t.bool() { format!(" {{hh.u{}}}", a) } else { String::new() }, i, a));
                        }
                        _ => unreachable!(),
                    }
                }
                env.pop();
                if self.t.bool() {
                    defs.reverse();
                }
                env.push(all);
                let b = self.expr(env, d - 1);
                env.pop();
                format!("(let ({}) {})", defs.join(" "), b)
            }
            7 => {
                let mut s = BTreeMap::new();
                let mut ps = vec![];
                let mut vs = vec![];
                for _ in 0..self.t.range(1, 3) {
                    let n = self.local_name(&s);
                    let k = self.t.below(self.ents.len() as u64 + 1) as usize;
                    self.bind(&mut s, &n, L::Val(k));
                    ps.push(format!("(let {})", n));
                    vs.push(format!("hh.v{}", k));
                }
                if self.t.below(3) == 0 {
                    let n = self.local_name(&s);
                    let k = self.t.below(self.ents.len() as u64 + 1) as usize;
                    self.bind(&mut s, &n, L::Val(k));
                    ps.push(format!("(let {} _)", n));
                    vs.push(format!("hh.v{}", k));
                }
                let v = self.check(env);
                env.push(s);
                let b = self.expr(env, d - 1);
                env.pop();
                format!("(match (: {} {}) [(: _ {}) {}])", v, vs.join(" "), ps.join(" "), b)
            }
            _ => {
                let (ps, sch, body) = self.function(env, d - 1, None, None);
                format!("(let ([(hl{} {}) {} {}]) (:))", self.id(), ps, sch, body)
            }
        }
    }

    fn module(&mut self, path: &str, done: &[Mod], std: Option<&Mod>) -> Mod {
        self.m = Mod { path: path.into(), std: std.is_some(), ..Default::default() };
        let mut o = String::new();
        if std.is_none() {
            o += "(no-implicit-std)\n";
        }
        o += "(import \"builtin\" [hb.ok ok])\n(import \"p/base\" hh._)\n";
        for x in done {
            o += &format!("(import \"{}\" hy._ hw._ hz._)\n", x.path);
            self.m.dependent |= x.dependent || !x.errors.is_empty();
        }
        // imports
        let mut imports = vec![];
        for x in done {
            for _ in 0..*self.t.pick(&[1, 1, 0, 2]) {
                let mut ts = vec![];
                for _ in 0..self.t.range(1, 3) {
                    let t = self.target(&x.exports);
                    let brings = select(&x.exports, &t.0, &t.1, "unres");
                    let mut seen = self.m.top.clone();
                    let clash = match &brings {
                        Ok(v) => v.iter().any(|(n, e)| seen.insert(n.clone(), *e).map_or(false, |o| o != *e)),
                        Err(_) => false,
                    };
                    if clash && !self.t.chance(1, 40) {
                        continue;
                    }
                    match brings {
                        Ok(v) => {
                            for (n, e) in v {
                                self.define(&n, e);
                            }
                        }
                        Err(k) => {
                            self.m.errors.insert(k);
                        }
                    }
                    ts.push(Self::show(&t));
                }
                imports.push(format!("(import \"{}\"{})\n", x.path, ts.iter().map(|t| format!(" {}", t)).collect::<String>()));
            }
        }
        if let Some(s) = std {
            self.m.dependent |= !s.errors.is_empty();
            for (n, e) in &s.exports {
                if !self.m.top.contains_key(n) {
                    self.m.top.insert(n.clone(), *e);
                }
            }
        }
        // declarations
        let mut decls = vec![];
        let mut insts = vec![];
        for _ in 0..self.t.range(1, 5) {
            match self.t.below(9) {
                0 | 1 => {
                    let n = self.fresh_name();
                    let e = self.ent(Kind::Fun, &n);
                    decls.push(format!("(function {} {{hh.u{}}} hh.v{})", n, e, e));
                }
                2 => {
                    let n = self.fresh_name();
                    let e = self.ent(Kind::CFun, &n);
                    decls.push(format!("(c-function {} {{(-> hh.u{} hh.u{})}} \"c{}\")", n, e, e, e));
                }
                3 => {
                    let n = self.fresh_name();
                    self.ent(Kind::Macro, &n);
                    decls.push(format!("(macro ({} s) (hb.ok s))", n));
                }
                4 | 5 => {
                    let n = self.fresh_name();
                    let e = self.ent(Kind::Data, &n);
                    let c = self.fresh_name();
                    let k = self.ent(Kind::Ctor(e), &c);
                    self.ents[e].peer = k;
                    self.ents[k].peer = e;
                    decls.push(format!("({} {} {})", self.t.pick(&["data", "value-data"]), n, c));
                    decls.push(format!("(function (hy.{} hq) {{(-> {} (:))}} (:))", e, n));
                    decls.push(format!("(function hw.{} {{{}}} {})", e, n, c));
                }
                6 | 7 => {
                    let n = self.fresh_name();
                    let e = self.ent(Kind::Class, &n);
                    let c = self.fresh_name();
                    let k = self.ent(Kind::Method(e), &c);
                    self.ents[e].peer = k;
                    self.ents[k].peer = e;
                    let (p, r) = if self.t.below(3) == 0 { (c.clone() + "p", self.name()) } else { ("hA".into(), "q".to_string()) };
                    decls.push(format!("(class ({} {}) (function ({} {}) {{(-> {} hh.u{})}}))", n, p, c, r, p, k));
                    decls.push(format!("(function (hy.{} hq) {{(forall hA) (-> hA hh.u{}) (where ({} hA))}} ({} hq))", e, k, n, c));
                    decls.push(format!("(instance hz.{} ({} hh.u{}) (function ({} q) hh.v{}))", e, n, e, c, k));
                }
                _ => {
                    let n = self.fresh_name();
                    insts.push(n.clone());
                    // reserve the name; the class comes when all names are known
                    let e = self.ent(Kind::Inst(usize::MAX), &n);
                    decls.push(format!("@{}", e));
                }
            }
        }
        for d in decls.iter_mut() {
            if let Some(e) = d.strip_prefix('@') {
                let e: usize = e.parse().unwrap();
                let cs: Vec<(String, usize)> = self.m.top.iter().filter(|(_, e)| self.ents[**e].kind == Kind::Class).map(|(n, e)| (n.clone(), *e)).collect();
                if cs.is_empty() {
                    // not an instance after all
                    self.ents[e].kind = Kind::Fun;
                    *d = format!("(function {} {{hh.u{}}} hh.v{})", self.ents[e].name, e, e);
                } else {
                    let (n, c) = self.t.pick(&cs).clone();
                    self.ents[e].kind = Kind::Inst(c);
                    let k = self.ents[c].peer;
                    *d = format!("(instance {} ({} hh.u{}) (function ({} q) hh.v{}))", self.ents[e].name, n, e, self.ents[k].name, k);
                }
            }
        }
        // uses
        let mut uses = vec![];
        for _ in 0..self.t.range(1, 4) {
            let d = *self.t.pick(&[1, 2, 3, 4]);
            let mut env = vec![];
            let k = self.id();
            match self.t.below(7) {
                0 => uses.push(self.expr(&mut env, d)),
                1 => {
                    // a class with a default method, its parameter being in scope
                    let n = self.name();
                    let p = self.name();
                    env.push(BTreeMap::from([(n.clone(), L::Ty(k))]));
                    env.push(BTreeMap::new());
                    env.push(BTreeMap::from([(format!("pp{}", k), L::PVal(k)), (p.clone(), L::Val(0))]));
                    let b = self.expr(&mut env, d);
                    uses.push(format!("(class (hc{} {}) (function (hm{} pp{} {}) {{(-> {} hh.u0 (:))}} {}))", k, n, k, k, p, n, b));
                }
                2 => {
                    let p = self.name();
                    let n = self.name();
                    env.push(BTreeMap::from([(n.clone(), L::Ty(k))]));
                    env.push(BTreeMap::new());
                    env.push(BTreeMap::from([(format!("pp{}", k), L::PVal(k)), (p.clone(), L::Val(1))]));
                    let b = self.expr(&mut env, d);
                    uses.push(format!("(class (hc{0} hA) (function (hm{0} q r) {{(-> hA hh.u1 (:))}}))\n(instance hi{0} (forall {1}) (hc{0} (: {1} hh.u0)) (function (hm{0} pp{0}' {2}) (match pp{0}' [(: (let pp{0}) _) {3}])))", k, n, p, b).replace('\'', ""));
                    // the parameter and what is taken out of it share a name: the inner one counts
                }
                3 => {
                    let p = self.name();
                    env.push(BTreeMap::from([(p.clone(), L::DVal(usize::MAX))]));
                    env.clear();
                    let b = self.expr(&mut env, d);
                    uses.push(format!("(macro (hx{} hs) (begin {} (hb.ok hs)))", k, b));
                }
                _ => {
                    let (ps, sch, body) = self.function(&mut env, d, None, None);
                    uses.push(format!("(function (hf{} {}) {} {})", k, ps, sch, body));
                }
            }
        }
        // exports
        let mut exports = vec!["(export hy._ hw._ hz._)\n".to_string()];
        for _ in 0..self.t.range(1, 4) {
            let mut ts = vec![];
            for _ in 0..self.t.range(1, 3) {
                let mut t = self.target(&self.m.top.clone());
                if t.1 == "_" && t.0.is_none() && self.t.bool() {
                    t.1 = "x/_".into();
                }
                match select(&self.m.top, &t.0, &t.1, "unres") {
                    Ok(v) => {
                        let clash = v.iter().any(|(n, e)| self.m.exports.get(n).map_or(false, |o| o != e));
                        if clash && !self.t.chance(1, 40) {
                            continue;
                        }
                        if clash {
                            self.m.errors.insert("export");
                        }
                        self.m.exports.extend(v);
                    }
                    Err(k) => {
                        self.m.errors.insert(k);
                    }
                }
                ts.push(Self::show(&t));
            }
            exports.push(format!("(export{})\n", ts.iter().map(|t| format!(" {}", t)).collect::<String>()));
        }
        // order of the file does not matter, except that of conflicting things
        let mut parts: Vec<String> = vec![];
        parts.extend(imports);
        parts.extend(decls.into_iter().chain(uses).map(|d| d + "\n"));
        parts.extend(exports);
        if self.t.bool() {
            for i in (1..parts.len()).rev() {
                let j = self.t.below(i as u64 + 1) as usize;
                parts.swap(i, j);
            }
        }
        o += &parts.concat();
        self.m.text = o;
        self.m.clone()
    }
}

struct World {
    mods: Vec<Mod>,
    base: String,
    checks: usize,
    shadowed: usize,
}

fn gen(t: &mut Tape) -> World {
    let twists = t.below(3) == 0;
    let mut g = G { t, ents: vec![], uniq: 0, checks: 0, shadowed: 0, twists, m: Mod::default() };
    let mut mods: Vec<Mod> = vec![];
    let n = g.t.range(1, 4);
    let std = if g.t.below(3) == 0 { Some(g.module("std", &[], None)) } else { None };
    if let Some(s) = &std {
        mods.push(s.clone());
    }
    for i in 0..n {
        let s = if g.t.below(3) != 0 { std.as_ref() } else { None };
        let m = g.module(&format!("p/m{}", i), &mods.clone(), s);
        mods.push(m);
    }
    let mut base = String::from("(no-implicit-std)\n(export hh._)\n(function (hh.same a b) {(forall A) (-> A A (:))} (:))\n(function (hh.ign a) {(forall A) (-> A (:))} (:))\n(data hh.U hh.w)\n");
    for i in 0..=g.ents.len() {
        base += &format!("(data hh.u{0} hh.v{0})\n", i);
    }
    let (checks, shadowed) = (g.checks, g.shadowed);
    World { mods, base, checks, shadowed }
}

fn class(e: &str) -> &'static str {
    for (a, b) in [
        ("Multiple declarations", "multi"),
        ("Conflicting exports", "export"),
        ("Duplicated identifier", "dup"),
        ("Unresolved", "unres"),
        ("Wildcard port name", "wild"),
        ("No matching instances", "nomatch"),
        ("Cannot unify type", "type"),
        ("Macro expansion failed", "macro"),
        ("Cannot use macro defined", "macro"),
        ("Dependent module build failed", "dependent"),
    ] {
        if e.contains(a) {
            return b;
        }
    }
    "other"
}

fn files(w: &World) -> Vec<(String, String)> {
    let mut f = vec![("p/base".to_string(), w.base.clone())];
    f.extend(w.mods.iter().map(|m| (m.path.clone(), m.text.clone())));
    f
}

fn describe(w: &World) -> String {
    w.mods.iter().map(|m| format!("== {}{}\n{}", m.path, if m.errors.is_empty() { "".into() } else { format!(" (to fail with {:?})", m.errors) }, m.text)).collect()
}

fn nontrivial(w: &World) -> bool {
    w.mods.len() >= 2 && w.checks >= 6 && w.shadowed >= 1
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let w = gen(t);
    out.desc = describe(&w);
    out.nontrivial = nontrivial(&w);
    out.evals = w.checks as u64;
    for m in &w.mods {
        for e in &m.errors {
            out.classes.push(e);
        }
    }
    if w.mods.iter().all(|m| m.errors.is_empty()) {
        out.classes.push("accepted");
    }
    let entries: Vec<String> = w.mods.iter().map(|m| m.path.clone()).collect();
    let f = front(&entries, &files(&w), &[]);
    ensure!(f.src.is_empty() && f.cycle.is_none(), "llrl0-sources", "the sources are fine but llrl0 answers {}", f.summary());
    for m in &w.mods {
        let got: Vec<&String> = f.texts.iter().filter(|t| t.starts_with(&format!("{}: ", m.path))).collect();
        let kinds: Vec<&str> = got.iter().map(|t| class(t)).collect();
        if m.dependent {
            ensure!(kinds == ["dependent"], "llrl0-dependent", "{} imports a failing module but is answered {:?}", m.path, got);
        } else if m.errors.is_empty() {
            ensure!(got.is_empty(), &format!("llrl0-rejects-{}", kinds[0]), "{} is fine but is answered {:?}", m.path, got);
        } else if got.is_empty() {
            return vharness::fail(&format!("llrl0-accepts-{}", m.errors.iter().next().unwrap()), format!("{} is accepted, but has errors {:?}", m.path, m.errors));
        } else {
            ensure!(m.errors.contains(kinds[0]), &format!("llrl0-error-{}", kinds[0]), "{} has errors {:?} but is answered {:?}", m.path, m.errors, got);
        }
    }
    Ok(())
}

fn row(w: &World) -> String {
    let fail: Vec<String> = w.mods.iter().filter(|m| !m.errors.is_empty() && !m.dependent).map(|m| format!("{}:[{}]", jstr(&m.path), m.errors.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(","))).collect();
    let fs: Vec<String> = files(w).iter().map(|(p, t)| format!("[{},{}]", jstr(p), jstr(t))).collect();
    format!("{{\"entries\":[{}],\"files\":[{}],\"fail\":{{{}}},\"nt\":{},\"checks\":{}}}", w.mods.iter().map(|m| jstr(&m.path)).collect::<Vec<_>>().join(","), fs.join(","), fail.join(","), nontrivial(w), w.checks)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("texts") {
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            println!("{}", row(&gen(&mut Tape::random(vharness::case_seed(seed, i, "c04x")))));
        }
        return;
    }
    main_with("c04", &case)
}
