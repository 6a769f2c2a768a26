//! An independent model of the preprocessor: scoped substitution, written from its description.
use crate::sx::*;
use crate::Tape;

#[derive(Clone, Default)]
pub struct Env(Vec<(String, Node)>);

impl Env {
    fn get(&self, n: &str) -> Option<&Node> {
        self.0.iter().rev().find(|x| x.0 == n).map(|x| &x.1)
    }
    fn with(&self, b: Vec<(String, Node)>) -> Env {
        let mut e = self.clone();
        e.0.extend(b.into_iter().filter(|x| x.0 != "_"));
        e
    }
}

type R<T> = Result<T, &'static str>;

fn items(n: &Node) -> Option<&[Node]> {
    match &n.sx {
        Sx::List(v, None) => Some(v),
        _ => None,
    }
}

fn metavar(n: &Node) -> Option<String> {
    match &n.sx {
        Sx::Sym(s) if s.starts_with('$') || s == "_" => Some(s.clone()),
        _ => None,
    }
}

pub struct Stats {
    pub directives: u32,
    pub depth: u32,
    pub shadow: bool,
    pub max: usize,
}

pub struct Pp<'a> {
    pub features: &'a [&'a str],
    pub stats: Stats,
}

impl<'a> Pp<'a> {
    pub fn seq(&mut self, v: &[Node], e: &Env) -> R<Vec<Node>> {
        let mut o = vec![];
        for x in v {
            o.extend(self.one_or_more(x, e)?);
            if o.len() > 3000 {
                return Err("big");
            }
        }
        Ok(o)
    }
    fn one(&mut self, n: &Node, e: &Env) -> R<Node> {
        let mut v = self.one_or_more(n, e)?;
        if v.len() == 1 {
            Ok(v.pop().unwrap())
        } else {
            Err("disallowed")
        }
    }
    fn one_or_more(&mut self, n: &Node, e: &Env) -> R<Vec<Node>> {
        match &n.sx {
            Sx::Sym(s) if s.starts_with('$') => Ok(vec![e.get(s).ok_or("undefined")?.clone()]),
            Sx::List(v, Some(t)) => {
                let v = self.seq(v, e)?;
                let t = self.one(t, e)?;
                if v.is_empty() {
                    Ok(vec![t])
                } else {
                    Ok(vec![Node::new(append(v, t))])
                }
            }
            Sx::List(v, None) => {
                if let Some(Sx::Sym(d)) = v.first().map(|x| &x.sx) {
                    if let Some(r) = self.directive(d, &v[1..], e) {
                        self.stats.directives += 1;
                        return r;
                    }
                }
                Ok(vec![list(self.seq(v, e)?)])
            }
            _ => Ok(vec![n.clone()]),
        }
    }
    fn directive(&mut self, d: &str, a: &[Node], e: &Env) -> Option<R<Vec<Node>>> {
        Some(match d {
            "$symbol" => self.symbol(a, e),
            "$let" => self.let_(a, e),
            "$let1" => self.let1(a, e),
            "$for" => self.for_(a, e),
            "$for1" => self.for1(a, e),
            "$when" => self.when(a, e),
            "$not" => self.bool1(a, e).map(|b| vec![Node::new(Sx::Bool(!b))]),
            "$feature" => self.feature(a, e),
            _ => return None,
        })
    }
    fn symbol(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        let mut s = String::new();
        for x in self.seq(a, e)? {
            match x.sx {
                Sx::Sym(t) | Sx::Str(t) => s.push_str(&t),
                Sx::Char(c) => s.push(c),
                _ => return Err("syntax"),
            }
        }
        if s.is_empty() {
            return Err("empty");
        }
        Ok(vec![sym(&s)])
    }
    fn bind(&mut self, b: Vec<(String, Node)>, body: &[Node], e: &Env) -> R<Vec<Node>> {
        if b.iter().any(|x| e.get(&x.0).is_some()) {
            self.stats.shadow = true;
        }
        let e2 = e.with(b);
        self.stats.depth = self.stats.depth.max(e2.0.len() as u32);
        self.seq(body, &e2)
    }
    fn let_(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        let (h, body) = a.split_first().ok_or("syntax")?;
        let mut b = vec![];
        for x in items(h).ok_or("syntax")? {
            match items(x) {
                Some([n, v]) => {
                    let n = metavar(n).ok_or("syntax")?;
                    b.push((n, self.one(v, e)?));
                }
                _ => return Err("syntax"),
            }
        }
        self.bind(b, body, e)
    }
    fn let1(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        if a.len() < 2 {
            return Err("syntax");
        }
        let n = metavar(&a[0]).ok_or("syntax")?;
        let v = self.one(&a[1], e)?;
        self.bind(vec![(n, v)], &a[2..], e)
    }
    fn for_(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        if a.len() < 2 {
            return Err("syntax");
        }
        let names = items(&a[0]).ok_or("syntax")?.iter().map(|x| metavar(x).ok_or("syntax")).collect::<R<Vec<_>>>()?;
        let v = self.one(&a[1], e)?;
        let rows = items(&v).ok_or("syntax")?;
        let mut o = vec![];
        if rows.iter().any(|r| items(r).map_or(true, |r| r.len() != names.len())) {
            return Err("syntax");
        }
        for r in rows {
            o.extend(self.bind(names.iter().cloned().zip(items(r).unwrap().iter().cloned()).collect(), &a[2..], e)?);
        }
        Ok(o)
    }
    fn for1(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        if a.len() < 2 {
            return Err("syntax");
        }
        let n = metavar(&a[0]).ok_or("syntax")?;
        let v = self.one(&a[1], e)?;
        let mut o = vec![];
        for x in items(&v).ok_or("syntax")? {
            o.extend(self.bind(vec![(n.clone(), x.clone())], &a[2..], e)?);
        }
        Ok(o)
    }
    fn bool1(&mut self, a: &[Node], e: &Env) -> R<bool> {
        match a {
            [x] => match self.one(x, e)?.sx {
                Sx::Bool(b) => Ok(b),
                _ => Err("syntax"),
            },
            _ => Err("syntax"),
        }
    }
    fn when(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        let (c, body) = a.split_first().ok_or("syntax")?;
        if self.bool1(std::slice::from_ref(c), e)? {
            self.seq(body, e)
        } else {
            Ok(vec![])
        }
    }
    fn feature(&mut self, a: &[Node], e: &Env) -> R<Vec<Node>> {
        match a {
            [x] => match self.one(x, e)?.sx {
                Sx::Str(s) => Ok(vec![Node::new(Sx::Bool(self.features.contains(&s.as_str())))]),
                _ => Err("syntax"),
            },
            _ => Err("syntax"),
        }
    }
}

// ------------------------------------------------------------------ generator

const VARS: [&str; 6] = ["$a", "$b", "$c", "$let", "$é", "_"];

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub bound: Vec<&'static str>,
    /// chance in 1000 of a malformed construct
    pub noise: u64,
    pub budget: i32,
}

impl<'a> Gen<'a> {
    fn var(&mut self) -> &'static str {
        let v = self.t.pick(&VARS);
        v
    }
    fn bound_var(&mut self) -> Node {
        if self.noisy() {
            return sym(self.var());
        }
        if self.bound.is_empty() {
            return sym("plain");
        }
        let b = self.bound.clone();
        let v = *self.t.pick(&b);
        if v == "_" { sym("_") } else { sym(v) }
    }
    pub fn body(&mut self, depth: u32) -> Vec<Node> {
        let n = self.t.range(0, 3);
        (0..n).map(|_| self.form(depth)).collect()
    }
    fn noisy(&mut self) -> bool {
        self.noise > 0 && self.t.below(1000) < self.noise
    }
    pub fn form(&mut self, depth: u32) -> Node {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return match self.t.below(4) {
                0 | 1 => self.bound_var(),
                _ => Node::new(gen_atom_pp(self.t)),
            };
        }
        if self.noisy() {
            // anything: a directive name with arbitrary arguments
            let d = *self.t.pick(&["$symbol", "$let", "$let1", "$for", "$for1", "$when", "$not", "$feature", "$what"]);
            let mut v = vec![sym(d)];
            v.extend(self.body(depth - 1));
            if self.t.below(6) == 5 {
                let x = self.form(0);
                return Node::new(append(v, x));
            }
            return list(v);
        }
        let d = depth - 1;
        match self.t.below(14) {
            0 => self.bound_var(),
            1 => Node::new(gen_atom_pp(self.t)),
            2 | 3 => {
                let n = self.t.range(0, 4);
                let v: Vec<_> = (0..n).map(|_| self.form(d)).collect();
                list(v)
            }
            4 => {
                let n = self.t.range(1, 3);
                let v: Vec<_> = (0..n).map(|_| self.form(d)).collect();
                let x = self.form(d);
                Node::new(append(v, x))
            }
            5 | 6 => {
                let v = self.var();
                let x = self.value(d);
                let k = self.bound.len();
                self.bound.push(v);
                let mut o = vec![sym("$let1"), sym(v), x];
                o.extend(self.body(d));
                self.bound.truncate(k);
                list(o)
            }
            7 => {
                let n = self.t.range(0, 3);
                let mut names = vec![];
                let mut bs = vec![];
                for _ in 0..n {
                    let v = self.var();
                    names.push(v);
                    let x = self.value(d);
                    bs.push(list(vec![sym(v), x]));
                }
                let k = self.bound.len();
                self.bound.extend(names);
                let mut o = vec![sym("$let"), list(bs)];
                o.extend(self.body(d));
                self.bound.truncate(k);
                list(o)
            }
            8 => {
                let n = self.t.range(0, 2);
                let names: Vec<_> = (0..n).map(|_| self.var()).collect();
                let rows = self.t.range(0, 3);
                let mut rs = vec![];
                for _ in 0..rows {
                    let w = if self.noisy() { self.t.range(0, 3) } else { n };
                    let r: Vec<_> = (0..w).map(|_| self.value(d)).collect();
                    rs.push(list(r));
                }
                let k = self.bound.len();
                self.bound.extend(names.iter().copied());
                let mut o = vec![sym("$for"), list(names.iter().map(|x| sym(x)).collect()), list(rs)];
                o.extend(self.body(d));
                self.bound.truncate(k);
                list(o)
            }
            9 | 10 => {
                let v = self.var();
                let n = self.t.range(0, 3);
                let xs: Vec<_> = (0..n).map(|_| self.value(d)).collect();
                let k = self.bound.len();
                self.bound.push(v);
                let mut o = vec![sym("$for1"), sym(v), list(xs)];
                o.extend(self.body(d));
                self.bound.truncate(k);
                list(o)
            }
            11 | 12 => {
                let c = self.cond(d);
                let mut o = vec![sym("$when"), c];
                o.extend(self.body(d));
                list(o)
            }
            _ => {
                let n = self.t.range(1, 3);
                let mut o = vec![sym("$symbol")];
                for _ in 0..n {
                    o.push(match self.t.below(5) {
                        0 => Node::new(Sx::Str(self.t.pick(&["", "x", "-", "é"]).to_string())),
                        1 => Node::new(Sx::Char(*self.t.pick(&['a', '$', '語']))),
                        2 => self.bound_var(),
                        _ => sym(self.t.pick(&["foo", "bar"])),
                    });
                }
                list(o)
            }
        }
    }
    /// An expression that gives one form.
    fn value(&mut self, d: u32) -> Node {
        match self.t.below(5) {
            0 => self.bound_var(),
            1 if self.t.below(3) == 2 => self.form(d),
            1 | 2 => self.cond(d.min(1)),
            3 => {
                let n = self.t.range(0, 2);
                let v = (0..n).map(|_| self.form(d.min(1))).collect();
                list(v)
            }
            _ => Node::new(gen_atom_pp(self.t)),
        }
    }
    fn cond(&mut self, d: u32) -> Node {
        match self.t.below(if d == 0 { 3 } else { 5 }) {
            0 => Node::new(Sx::Bool(true)),
            1 => Node::new(Sx::Bool(false)),
            2 => list(vec![sym("$feature"), Node::new(Sx::Str(self.t.pick(&["fa", "fb", "é", "no", ""]).to_string()))]),
            3 => {
                let c = self.cond(d - 1);
                list(vec![sym("$not"), c])
            }
            _ if self.t.below(6) == 5 => self.bound_var(),
            _ => Node::new(Sx::Bool(true)),
        }
    }
}

fn gen_atom_pp(t: &mut Tape) -> Sx {
    match t.below(8) {
        0 => Sx::Bool(t.bool()),
        1 => Sx::Str(t.pick(&["", "x", "fa", "é"]).to_string()),
        2 => Sx::Char(*t.pick(&['a', '$'])),
        3 => Sx::Int(false, t.below(4)),
        4 => Sx::Fp(0.5),
        _ => Sx::Sym(t.pick(&["a", "b", "_", "quote", "foo", "x$"]).to_string()),
    }
}

pub const FEATURES: [&str; 3] = ["fa", "fb", "é"];

/// A source and a feature mask.
pub fn gen_source(t: &mut Tape) -> (Vec<Node>, u64) {
    let mask = t.below(8);
    let noise = *t.pick(&[0, 0, 20, 60]);
    let n = t.range(1, 3);
    let d = t.range(1, 6) as u32;
    let mut g = Gen { t, bound: vec![], noise, budget: 60 };
    let v = (0..n).map(|_| g.form(d)).collect();
    (v, mask)
}

pub fn model(v: &[Node], mask: u64) -> (R<Vec<Node>>, Stats) {
    let f: Vec<&str> = FEATURES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
    let mut pp = Pp { features: &f, stats: Stats { directives: 0, depth: 0, shadow: false, max: 0 } };
    let r = pp.seq(v, &Env::default());
    (r, pp.stats)
}

pub fn render(v: &[Node]) -> String {
    let mut t = Tape::replay(vec![]);
    let mut r = Render { o: String::new(), t: &mut t, sugar: false };
    for x in v {
        r.form(x);
        r.o.push('\n');
    }
    r.o
}
