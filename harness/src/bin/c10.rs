//! C10: what compiled programs do, against an evaluator of their source, on every backend.
use vharness::cli::{self, Scratch};
use vharness::prog::*;
use vharness::{fail, main_with, Case, Out, Tape};

/// The words the program writes, with what happened on the way; nothing if it runs too long.
fn expected(p: &Prog) -> Option<(Vec<u64>, u32, u64, std::collections::BTreeSet<&'static str>)> {
    on_big_stack(|| {
        let mut ev = Eval::new(p, 300_000);
        if !ev.run() || ev.out.len() > 20_000 { return None }
        Some((ev.out, ev.max_depth, ev.calls, ev.hit))
    })
}

fn words(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}

fn programs(t: &mut Tape, out: &mut Out) -> Case {
    let mut g = Gen::new(t);
    g.datas();
    let n = *g.t.pick(&[3, 2, 1, 5, 4, 0, 8]);
    let d = *g.t.pick(&[4, 3, 5, 2]);
    g.functions(n, d, 60);
    let nd = g.p.datas.len();
    for _ in 0..g.t.range(1, 12) {
        let ty = g.ty(2, nd);
        g.budget = 40;
        let from = g.t.used();
        let e = g.expr(&ty, 4);
        out.spans.push((from, g.t.used()));
        g.p.main.push(E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(e), ty))))));
    }
    for i in 0..g.sigs.len() {
        for _ in 0..g.t.range(0, 2) {
            let from = g.t.used();
            let a: Vec<Ty> = (0..g.sigs[i].tparams).map(|_| g.ty(1, nd)).collect();
            let ty = g.sigs[i].ret.subst(&a);
            g.budget = 30;
            if let Some(e) = g.call_of(i, a, 2, false) { g.p.main.push(E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(e), ty)))))) }
            out.spans.push((from, g.t.used()));
        }
    }
    let p = std::mem::take(&mut g.p);
    let classes = std::mem::take(&mut g.classes);
    let src = p.print();
    if src.len() > 60_000 { out.invalid = true; return Ok(()) }
    let Some((want, depth, calls, hit)) = expected(&p) else { out.invalid = true; return Ok(()) };
    out.desc = p.show();
    out.key = p.show();
    out.evals = p.main.len() as u64;
    out.classes.extend(classes.iter());
    out.classes.extend(hit.iter());
    if depth > 4 { out.classes.push("deep calls") }
    out.nontrivial = calls >= 3 && want.len() >= 3;
    let sc = Scratch::new();
    sc.write("cur/main.llrl", src.as_bytes());
    for c in cli::configs() {
        let r = c.compile(&sc, &["main"], "exe");
        if r.code != 0 || !sc.0.join("exe").exists() {
            return fail(&format!("{}-rejected", c.name), format!("{}: {} {} on\n{}", c.name, cli::how(&r), r.both(), p.show()));
        }
        let r = cli::exec(&sc, "exe", b"", &[]);
        let got = words(&r.out);
        if r.code != 0 || got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(&format!("{}-{}", c.name, if r.code != 0 { "stops" } else { "output" }), format!("{}: {} {} word {} of {}: expected {:?} but got {:?} from\n{}", c.name, cli::how(&r), String::from_utf8_lossy(&r.err), i, want.len(), want.get(i), got.get(i), p.show()));
        }
    }
    Ok(())
}

fn main() {
    main_with("c10", &programs)
}
