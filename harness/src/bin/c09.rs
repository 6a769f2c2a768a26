//! C09: arithmetic at run time, of constants, and in expressions of both.
use std::collections::BTreeSet;
use vharness::arith::{self, *};
use vharness::cli::{self, Scratch};
use vharness::{fail, main_with, Case, Out, Tape};

fn words(v: &[u64]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
fn unwords(b: &[u8]) -> Vec<u64> { b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }

struct Exes { dir: Scratch, names: Vec<String>, failed: Option<String> }
fn exes() -> &'static Exes {
    static E: std::sync::OnceLock<Exes> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let dir = Scratch::new();
        dir.write("cur/arith.llrl", arith::driver().as_bytes());
        let (mut names, mut failed) = (vec![], None);
        for c in cli::configs() {
            let r = c.compile(&dir, &["arith"], &c.name);
            if r.code != 0 || !dir.0.join(&c.name).exists() { failed = Some(format!("{}: {}", c.name, r.both())); }
            names.push(c.name.clone());
        }
        Exes { dir, names, failed }
    })
}

fn runtime(t: &mut Tape, out: &mut Out) -> Case {
    let ops = ops();
    let mut rows: Vec<(usize, u64, u64, u64)> = vec![];
    for _ in 0..t.range(1, 3000) {
        let from = t.used();
        let k = t.below(ops.len() as u64) as usize;
        let (a, b) = match operands(t, &ops[k]) { Some(x) => x, None => { let v = if let F(_) = ops[k].t { literal_one(ops[k].t) } else { 1 }; (v, v) } };
        let (a, b) = if ops[k].eval(a, b).is_some() { (a, b) } else { (0, 0) };
        let Some(r) = ops[k].eval(a, b) else { continue };
        rows.push((k, a, b, r));
        out.spans.push((from, t.used()));
    }
    let show = |r: &(usize, u64, u64, u64)| {
        let o = ops[r.0];
        if o.unary() { format!("({} {}) = {}", o.name(), literal(o.t, r.1), literal(o.to, r.3)) } else { format!("({} {} {}) = {}", o.name(), literal(o.t, r.1), literal(o.t, r.2), literal(o.to, r.3)) }
    };
    out.evals = rows.len() as u64;
    for r in &rows {
        out.classes.push(ops[r.0].class());
        if r.1 != 0 && r.1 != 1 { out.subs.push(show(r)); }
    }
    if let Some(r) = rows.first() { out.desc = show(r); }
    let mut input = vec![rows.len() as u64];
    for r in &rows { input.extend([r.0 as u64, r.1, r.2]); }
    let input = words(&input);
    let e = exes();
    if let Some(f) = &e.failed { return fail("program-rejected", format!("the program of all operations is not compiled: {}", f)); }
    for n in &e.names {
        let r = cli::exec(&e.dir, n, &input, &[]);
        let got = unwords(&r.out);
        if r.code != 0 || got.len() != rows.len() {
            if rows.len() == 1 { return fail(&format!("{}-stops-{}.{}", n, ops[rows[0].0].f, ops[rows[0].0].t.name()), format!("{}: {} instead of {}", n, cli::how(&r), show(&rows[0]))); }
            return fail(&format!("{}-stops", n), format!("{}: {} {} on {} operations", n, cli::how(&r), r.both(), rows.len()));
        }
        for (i, (row, g)) in rows.iter().zip(&got).enumerate() {
            let o = ops[row.0];
            if if o.loose() { near(o.to, row.3, *g) } else { same(o.to, row.3, *g) } { continue; }
            out.bad = Some(i);
            return fail(&format!("{}-{}.{}", n, o.f, o.t.name()), format!("{}: {} but it gives {} (bits {:x})", n, show(row), literal(o.to, *g), g));
        }
    }
    Ok(())
}
fn literal_one(t: T) -> u64 { if t == F(32) { 1f32.to_bits() as u64 } else { 1f64.to_bits() } }

// ---- programs

struct G<'a> { t: &'a mut Tape, ops: Vec<Op>, used: BTreeSet<Op>, inputs: Vec<u64>, vars: Vec<(String, T, u64)>, names: usize, funs: Vec<String>, consts: usize, runs: usize, nops: usize }
impl G<'_> {
    fn leaf(&mut self, ty: T) -> (String, u64) {
        let vs: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].1 == ty).collect();
        if !vs.is_empty() && self.t.chance(1, 3) {
            let i = *self.t.pick(&vs);
            return (self.vars[i].0.clone(), self.vars[i].2);
        }
        let v = value(self.t, ty);
        self.put(ty, v)
    }
    /// a value, as a literal or as an input
    fn put(&mut self, ty: T, v: u64) -> (String, u64) {
        if self.t.bool() {
            self.runs += 1;
            self.inputs.push(v);
            (format!("(in.{} (word {} ws))", ty.name(), self.inputs.len() - 1), v)
        } else {
            self.consts += 1;
            (literal(ty, v), v)
        }
    }
    fn expr(&mut self, ty: T, depth: u32) -> (String, u64) {
        if depth == 0 { return self.leaf(ty); }
        match self.t.below(12) {
            0 => self.leaf(ty),
            1 => {
                let (c, cv) = self.expr(B, depth - 1);
                let (a, av) = self.expr(ty, depth - 1);
                let (b, bv) = self.expr(ty, depth - 1);
                (format!("(if {} {} {})", c, a, b), if cv != 0 { av } else { bv })
            }
            2 => {
                let vt = *self.t.pick(&NUMS);
                let (e, ev) = self.expr(vt, depth - 1);
                self.names += 1;
                let n = format!("v{}", self.names);
                self.vars.push((n.clone(), vt, ev));
                let (b, bv) = self.expr(ty, depth - 1);
                self.vars.pop();
                (format!("(let ([{} {}]) {})", n, e, b), bv)
            }
            3 => {
                // a call of a function that has parameters of several types
                let mut args = vec![];
                let outer = std::mem::take(&mut self.vars);
                let n = self.t.range(1, 10);
                let mut ps = vec![];
                for i in 0..n {
                    let pt = if i == 0 { ty } else { *self.t.pick(&NUMS) };
                    self.vars = outer.clone();
                    let (e, v) = self.expr(pt, if i < 2 { depth - 1 } else { 0 });
                    args.push(e);
                    ps.push((format!("p{}", i), pt, v));
                }
                self.vars = ps.clone();
                let before = self.inputs.len();
                let (b, bv) = self.expr(ty, depth - 1);
                self.vars = outer;
                let _ = before;
                let name = format!("f{}", self.funs.len());
                self.funs.push(format!("(function ({} ws {}) {{(-> (Array U64) {} {})}}\n  {})\n", name,
                    ps.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(" "), ps.iter().map(|p| p.1.name()).collect::<Vec<_>>().join(" "), ty.name(), b));
                (format!("({} ws {})", name, args.join(" ")), bv)
            }
            _ => {
                let os: Vec<Op> = self.ops.iter().filter(|o| o.to == ty && !o.loose()).copied().collect();
                let o = *self.t.pick(&os);
                let (a, av) = self.expr(o.t, depth - 1);
                let (b, bv) = if o.unary() { (String::new(), 0) }
                    else if matches!(o.f, "shl" | "shr") { let k = self.t.below(o.t.bits() as u64); self.put(o.t, k) }
                    else { self.expr(o.t, depth - 1) };
                match o.eval(av, bv) {
                    Some(r) => {
                        self.used.insert(o);
                        self.nops += 1;
                        (if o.unary() { format!("({} {})", o.name(), a) } else { format!("({} {} {})", o.name(), a, b) }, r)
                    }
                    None if o.t == ty => (a, av),
                    None => self.leaf(ty),
                }
            }
        }
    }
}

fn programs(t: &mut Tape, out: &mut Out) -> Case {
    let mut g = G { t, ops: ops(), used: BTreeSet::new(), inputs: vec![], vars: vec![], names: 0, funs: vec![], consts: 0, runs: 0, nops: 0 };
    let mut rows: Vec<(T, String, u64)> = vec![];
    for _ in 0..g.t.range(1, 60) {
        let from = g.t.used();
        let ty = if g.t.chance(1, 6) { B } else { *g.t.pick(&NUMS) };
        let d = g.t.range(1, 4) as u32;
        let (c0, r0, n0) = (g.consts, g.runs, g.nops);
        let f0 = g.funs.len();
        let (e, v) = g.expr(ty, d);
        if e.len() + g.funs[f0..].iter().map(|f| f.len()).sum::<usize>() > 6000 { g.funs.truncate(f0); continue; }
        out.spans.push((from, g.t.used()));
        out.evals += 1;
        if g.nops - n0 >= 2 { out.subs.push(format!("{} = {}", e, literal(ty, v))); }
        out.classes.push(if g.runs == r0 { "of constants" } else if g.consts == c0 { "of inputs" } else { "of both" });
        rows.push((ty, e, v));
    }
    let mut types: BTreeSet<T> = NUMS.iter().copied().collect();
    types.insert(B);
    let mut s = prelude(&types);
    for o in &g.used { s += &o.define(); }
    for f in &g.funs { s += f; }
    for (i, (ty, e, _)) in rows.iter().enumerate() { s += &format!("(function (row{} ws) {{(-> (Array U64) {})}}\n  {})\n", i, ty.name(), e); }
    s += &format!("(let ([ws (read-words! {})] [rs (annotate (new-words {}) (Array U64))])\n", g.inputs.len(), rows.len());
    for (i, (ty, _, _)) in rows.iter().enumerate() { s += &format!("  (set-word! {} (out.{} (row{} ws)) rs)\n", i, ty.name(), i); }
    s += &format!("  (write-words! {} rs))\n", rows.len());
    out.desc = rows.iter().max_by_key(|r| (r.1.len() < 200, r.1.len())).map(|r| format!("{} = {}", r.1, literal(r.0, r.2))).unwrap_or_default();
    let input = words(&g.inputs);
    let sc = Scratch::new();
    sc.write("cur/main.llrl", s.as_bytes());
    for c in cli::configs() {
        let r = c.compile(&sc, &["main"], "exe");
        if r.code != 0 || !sc.0.join("exe").exists() {
            return fail(&format!("{}-rejected", c.name), format!("{}: {} {} on\n{}", c.name, cli::how(&r), r.both(), rows.iter().map(|r| r.1.clone() + "\n").collect::<String>()));
        }
        let r = cli::exec(&sc, "exe", &input, &[]);
        let got = unwords(&r.out);
        if r.code != 0 || got.len() != rows.len() {
            return fail(&format!("{}-stops", c.name), format!("{}: {} {} on\n{}", c.name, cli::how(&r), r.both(), rows.iter().map(|r| r.1.clone() + "\n").collect::<String>()));
        }
        for (i, ((ty, e, v), w)) in rows.iter().zip(&got).enumerate() {
            if same(*ty, *v, *w) { continue; }
            out.bad = Some(i);
            return fail(&format!("{}-expression", c.name), format!("{}: expected {} but got {} from {}\nwith the functions\n{}and the inputs {:?}", c.name, literal(*ty, *v), literal(*ty, *w), e, g.funs.concat(), g.inputs));
        }
    }
    Ok(())
}

fn main() {
    let part = std::env::var("VH_PART").unwrap_or_default();
    main_with("c09", if part == "programs" { &programs } else { &runtime })
}
