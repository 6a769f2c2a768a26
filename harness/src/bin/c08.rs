//! C08: what a match selects and binds, on every backend, against an evaluator of the source.
use vharness::cli::{self, Scratch};
use vharness::prog::*;
use vharness::{fail, main_with, Case, Out, Tape};

fn words(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}
fn ann(e: E, t: &Ty) -> E { E::Ann(Box::new(e), t.clone()) }

/// Functions that match their argument, each called with many values.
fn matches(t: &mut Tape, out: &mut Out) -> Case {
    let mut g = Gen::new(t);
    g.datas();
    let nd = g.p.datas.len();
    let nf = g.t.range(1, 5);
    let mut tys = vec![];
    let mut spans = vec![];
    let mut pats = vec![];
    for k in 0..nf {
        let from = g.t.used();
        let st = loop {
            let st = match g.t.below(4) {
                0 => { let n = *g.t.pick(&[2, 2, 3, 4]); Ty::Tup((0..n).map(|_| g.ty(1, nd)).collect()) }
                1 => g.ty(2, nd),
                _ => { let i = g.t.below(nd as u64) as usize; Ty::Data(i, (0..g.p.datas[i].params).map(|_| g.ty(1, nd)).collect()) }
            };
            if matches!(st, Ty::Fun(..) | Ty::Unit | Ty::F32) || st.size() > 14 { if g.t.used() > 4000 { out.invalid = true; return Ok(()) } continue }
            break st;
        };
        let mut with = vec![];
        let x = g.var(st.clone(), Kind::Val, &mut with);
        let max = *g.t.pick(&[4, 6, 3, 10, 2, 25]);
        // the scrutinee leaves a mark each time it is evaluated
        let s = if g.t.bool() { E::Tr(77, Box::new(E::Var(x))) } else { E::Var(x) };
        g.env = vec![Bind { id: x, ty: st.clone(), kind: Kind::Val }];
        let mut rows = g.clauses(&st, max, 4);
        for _ in 0..4 { if rows.len() < 2 { rows = g.clauses(&st, max, 4) } }
        pats.push(rows.iter().map(|r| r.0.clone()).collect::<Vec<_>>());
        let nested = g.t.chance(1, 3);
        let mut cs = vec![];
        for (i, (p, bs)) in rows.into_iter().enumerate() {
            let saved = g.env.clone();
            g.push(bs.clone());
            // every variable shows
            let mut stmts: Vec<E> = vec![E::Emit(Box::new(E::Int(Ty::U(64), 100 + i as u64)))];
            for b in &bs { stmts.push(E::Emit(Box::new(E::Tag(Box::new(ann(E::Var(b.id), &b.ty)))))) }
            let last = if nested && !bs.is_empty() && g.t.bool() {
                // a match on a part
                let b = g.t.pick(&bs).clone();
                let mut inner = vec![];
                for (j, (q, bs)) in g.clauses(&b.ty, 3, 2).into_iter().enumerate() {
                    let mut v: Vec<E> = bs.iter().map(|b| E::Emit(Box::new(E::Tag(Box::new(ann(E::Var(b.id), &b.ty)))))).collect();
                    v.push(E::Emit(Box::new(E::Int(Ty::U(64), 200 + j as u64))));
                    inner.push((q, E::Begin(v, Box::new(E::Int(Ty::U(64), j as u64)))));
                }
                out.classes.push("nested match");
                ann(E::Match(Box::new(ann(E::Var(b.id), &b.ty)), inner), &b.ty)
            } else { E::Int(Ty::U(64), i as u64) };
            cs.push((p, E::Begin(stmts, Box::new(last))));
            g.env = saved;
        }
        out.classes.push(match cs.len() { 1 => "1 clause", 2..=4 => "2-4 clauses", 5..=9 => "5-9 clauses", _ => "10 or more clauses" });
        let body = ann(E::Match(Box::new(ann(s, &st)), cs), &st);
        g.sigs.push(FunDef { name: format!("match{}", k), tparams: 0, params: vec![(x, st.clone())], ret: Ty::U(64), body, group: None, transparent: false });
        g.env = vec![];
        tys.push(st);
        spans.push((from, g.t.used()));
    }
    g.p.funs = g.sigs.clone();
    g.consts_only = true;
    for k in 0..nf {
        for _ in 0..g.t.range(2, 14) {
            let from = g.t.used();
            g.budget = 60;
            let v = if g.t.bool() { let p = g.t.pick(&pats[k]).clone(); g.like(&p, &tys[k]) } else { g.cons(&tys[k], 4) };
            out.spans.push((from, g.t.used()));
            g.p.main.push(E::Emit(Box::new(E::Call(k, vec![], vec![v]))));
        }
    }
    out.spans.extend(spans);
    let p = std::mem::take(&mut g.p);
    let src = p.print();
    if src.len() > 80_000 { out.invalid = true; return Ok(()) }
    let want = on_big_stack(|| {
        let mut ev = Eval::new(&p, 300_000);
        if !ev.run() || ev.out.len() > 20_000 { None } else { Some(ev.out) }
    });
    let Some(want) = want else { out.invalid = true; return Ok(()) };
    for d in &p.datas {
        out.classes.push(match (d.value, d.ctors.len(), d.ctors.iter().all(|c| c.1.is_empty())) {
            (_, 1, _) => "one constructor",
            (_, _, true) => "enumeration",
            (true, _, _) => "tagged by value",
            _ => "tagged in the heap",
        });
    }
    out.desc = p.show();
    out.key = p.show();
    out.evals = p.main.len() as u64;
    let mut ids: Vec<u64> = want.iter().copied().filter(|x| (100..200).contains(x)).collect();
    ids.sort();
    ids.dedup();
    out.nontrivial = ids.len() >= 2;
    let sc = Scratch::new();
    sc.write("cur/main.llrl", src.as_bytes());
    for c in cli::configs() {
        let r = c.compile(&sc, &["main"], "exe");
        if r.code != 0 || !sc.0.join("exe").exists() {
            return fail(&format!("{}-rejected", c.name), format!("{}: {} {} on\n{}", c.name, cli::how(&r), r.both(), p.show()));
        }
        let r = cli::exec(&sc, "exe", b"", &[]);
        let got = words(&r.out);
        if r.code != 0 || got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(&format!("{}-{}", c.name, if r.code != 0 { "stops" } else { "output" }), format!("{}: {} {} word {} of {}: expected {:?} but got {:?} from\n{}", c.name, cli::how(&r), String::from_utf8_lossy(&r.err), i, want.len(), want.get(i), got.get(i), p.show()));
        }
    }
    Ok(())
}

fn main() {
    main_with("c08", &matches)
}
