//! C11: the self-hosted compiler beside the bootstrap compiler.
use std::collections::BTreeSet;
use vharness::cli::{self, Ran, Scratch};
use vharness::prog::*;
use vharness::{fail, main_with, Case, Out, Tape};

fn program(t: &mut Tape, small: bool) -> (Prog, BTreeSet<&'static str>) {
    let mut g = Gen::new(t);
    g.datas();
    let n = if small { g.t.range(1, 3) } else { *g.t.pick(&[3, 2, 1, 5, 4, 0, 8]) };
    let d = *g.t.pick(&[4, 3, 5, 2]);
    g.functions(n, d, if small { 30 } else { 60 });
    let nd = g.p.datas.len();
    for _ in 0..g.t.range(1, if small { 3 } else { 8 }) {
        let ty = g.ty(2, nd);
        g.budget = 40;
        let e = g.expr(&ty, 4);
        g.p.main.push(E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(e), ty))))));
    }
    for i in 0..g.sigs.len() {
        let a: Vec<Ty> = (0..g.sigs[i].tparams).map(|_| g.ty(1, nd)).collect();
        let ty = g.sigs[i].ret.subst(&a);
        g.budget = 30;
        if let Some(e) = g.call_of(i, a, 2, false) { g.p.main.push(E::Emit(Box::new(E::Tag(Box::new(E::Ann(Box::new(e), ty)))))) }
    }
    (std::mem::take(&mut g.p), std::mem::take(&mut g.classes))
}

fn words(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}

/// Programs both compilers accept: they behave alike, and compiling again gives the same bytes.
fn same(t: &mut Tape, out: &mut Out) -> Case {
    let (p, classes) = program(t, false);
    let src = p.print();
    if src.len() > 60_000 { out.invalid = true; return Ok(()) }
    let ok = on_big_stack(|| { let mut ev = Eval::new(&p, 300_000); ev.run() && ev.out.len() < 20_000 });
    if !ok { out.invalid = true; return Ok(()) }
    out.desc = p.show();
    out.key = p.show();
    out.classes.extend(classes.iter());
    out.nontrivial = p.main.len() >= 3;
    let sc = Scratch::new();
    sc.write("cur/main.llrl", src.as_bytes());
    let mut first: Option<(String, Vec<u64>, Ran)> = None;
    for c in cli::configs() {
        let r = c.compile(&sc, &["main"], "exe");
        if r.code != 0 || !sc.0.join("exe").exists() {
            return fail(&format!("{}-rejected", c.name), format!("{}: {} {} on\n{}", c.name, cli::how(&r), r.both(), p.show()));
        }
        let bytes = std::fs::read(sc.0.join("exe")).unwrap();
        let r = cli::exec(&sc, "exe", b"", &[]);
        let got = words(&r.out);
        match &first {
            None => first = Some((c.name.clone(), got, r)),
            Some((n, w, r0)) => if r.code != r0.code || *w != got {
                let i = got.iter().zip(w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
                return fail("differ", format!("{} {} with {} words, {} {} with {} words, first apart at word {} ({:?} and {:?}), from\n{}", n, cli::how(r0), w.len(), c.name, cli::how(&r), got.len(), i, w.get(i), got.get(i), p.show()));
            }
        }
        if c.name.starts_with("llrl1") {
            for again in std::iter::once(c.clone()).chain(peers(&c)) {
                let r = again.compile(&sc, &["main"], "exe2");
                let b2 = std::fs::read(sc.0.join("exe2")).unwrap_or_default();
                out.evals += 1;
                if r.code != 0 || b2 != bytes { return fail("not-deterministic", format!("{} and then {}: the executables differ ({} and {} bytes) for\n{}", c.name, again.name, bytes.len(), b2.len(), p.show())) }
            }
        }
    }
    out.evals += 1;
    Ok(())
}
/// The same compiler built in other ways.
fn peers(c: &cli::Config) -> Vec<cli::Config> {
    std::env::var("VH_PEERS").unwrap_or_default().split_whitespace().map(|p| cli::Config { name: format!("{} built as {}", c.name, p), compiler: p.into(), flags: c.flags.clone() }).collect()
}

const TYPES: [&str; 12] = ["U64", "U8", "U16", "U32", "I8", "I32", "Bool", "String", "A", "B", "unit", "F64"];
#[derive(Clone)]
enum T { Atom(String), List(char, Vec<T>) }
fn parse(s: &str) -> Vec<T> {
    let mut st: Vec<(char, Vec<T>)> = vec![(' ', vec![])];
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '(' | '[' | '{' => { st.push((cs[i], vec![])); i += 1 }
            ')' | ']' | '}' => { let (c, v) = st.pop().unwrap(); st.last_mut().unwrap().1.push(T::List(c, v)); i += 1 }
            c if c.is_whitespace() => i += 1,
            '"' => {
                let b = i;
                i += 1;
                while cs[i] != '"' { if cs[i] == '\\' { i += 1 } i += 1 }
                i += 1;
                st.last_mut().unwrap().1.push(T::Atom(cs[b..i].iter().collect()));
            }
            _ => {
                let b = i;
                if cs[i] == '#' && cs.get(i + 1) == Some(&'\\') { i += 3; if cs[i - 1] == '\\' { i += 1 } }
                while i < cs.len() && !cs[i].is_whitespace() && !"()[]{}\"".contains(cs[i]) { i += 1 }
                st.last_mut().unwrap().1.push(T::Atom(cs[b..i].iter().collect()));
            }
        }
    }
    assert_eq!(st.len(), 1);
    st.pop().unwrap().1
}
fn print(t: &T, o: &mut String) {
    match t {
        T::Atom(s) => *o += s,
        T::List(c, v) => {
            o.push(*c);
            for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' ') } print(x, o) }
            o.push(match c { '(' => ')', '[' => ']', _ => '}' });
        }
    }
}
fn size(t: &T) -> usize { match t { T::Atom(_) => 1, T::List(_, v) => 1 + v.iter().map(size).sum::<usize>() } }
fn nth<'a>(t: &'a mut T, n: &mut usize) -> Option<&'a mut T> {
    if *n == 0 { return Some(t) }
    *n -= 1;
    if let T::List(_, v) = t { for x in v { if let Some(r) = nth(x, n) { return Some(r) } } }
    None
}
fn atoms(t: &T, o: &mut Vec<String>) { match t { T::Atom(s) => o.push(s.clone()), T::List(_, v) => v.iter().for_each(|x| atoms(x, o)) } }

/// Programs with a few edits, which most often break them: both compilers accept or both report errors.
fn edited(t: &mut Tape, out: &mut Out) -> Case {
    let (p, _) = program(t, true);
    let src = p.print();
    let own = p.show();
    if src.len() > 30_000 { out.invalid = true; return Ok(()) }
    let prelude = &src[..src.len() - own.len()];
    let mut tree = T::List('(', parse(&own));
    let mut names = vec![];
    atoms(&tree, &mut names);
    for x in ["U64", "U8", "Bool", "String", "A", "B", "->", ":", "unit", "let", "if", "begin", "match", "annotate", "_", "ref", "load", "tag", "zero", "forall", "where", "Tag", "0", "1.5", "\"s\"", "#t", "return", "while", "U64", "unknown"] { names.push(x.into()) }
    let mut log = vec![];
    for _ in 0..*t.pick(&[1, 1, 2, 3]) {
        let total = size(&tree);
        let mut k = 1 + t.below(total as u64 - 1) as usize;
        // anything but the instances, mostly
        let other = { let mut j = 1 + t.below(total as u64 - 1) as usize; nth(&mut tree, &mut j).cloned() };
        let atom = t.pick(&names).clone();
        let how = t.below(16);
        let (a, b) = (t.below(1024) as usize, t.below(64) as usize);
        let Some(x) = nth(&mut tree, &mut k) else { continue };
        match (how, x) {
            (0 | 1 | 8..=15, x @ T::Atom(_)) => {
                // of the same sort, usually
                let T::Atom(old) = &*x else { unreachable!() };
                let sort = |s: &str| { let c = s.chars().next().unwrap_or(' '); if c.is_ascii_digit() || c == '-' && s.len() > 1 && s != "->" { 1 } else if c == 'v' { 2 } else if TYPES.contains(&s) { 3 } else if c == '"' { 4 } else if s.starts_with("u-") { 5 } else if c == 'c' && s.len() > 2 { 6 } else if matches!(s, "and" | "or" | "str-lt" | "str-eq" | "eq") { 7 } else { 8 } };
                let like: Vec<&String> = names.iter().filter(|n| sort(n) == sort(old) && *n != old).collect();
                let atom = if how != 0 && !like.is_empty() { like[a * 7919 % like.len()].clone() } else { atom }; let mut s = String::new(); print(x, &mut s); log.push(format!("{} -> {}", s, atom)); *x = T::Atom(atom) }
            (2, T::List(_, v)) if !v.is_empty() => { v.remove(a % v.len()); log.push("remove".into()) }
            (3, T::List(_, v)) if !v.is_empty() => { let y = v[a % v.len()].clone(); v.insert(b % (v.len() + 1), y); log.push("duplicate".into()) }
            (4, T::List(_, v)) if v.len() > 1 => { let n = v.len(); v.swap(a % n, b % n); log.push("swap".into()) }
            (5, x) => { if let Some(o) = other { *x = o; log.push("other".into()) } }
            (6, T::List(_, v)) => { v.insert(a % (v.len() + 1), T::Atom(atom)); log.push("insert".into()) }
            (7, x @ T::List(..)) => { let T::List(_, v) = x.clone() else { unreachable!() }; if !v.is_empty() { *x = v[a % v.len()].clone(); log.push("unwrap".into()) } }
            (_, T::List(_, v)) if v.len() > 2 => { let n = v.len(); v.swap(1 + a % (n - 1), 1 + b % (n - 1)); log.push("swap arguments".into()) }
            (_, x) => { log.push("atom".into()); *x = T::Atom(atom) }
        }
    }
    let T::List(_, forms) = &tree else { out.invalid = true; return Ok(()) };
    let mut text = String::new();
    for f in forms { print(f, &mut text); text.push('\n') }
    if text.len() > 40_000 { out.invalid = true; return Ok(()) }
    out.desc = format!("{}: {}", log.join(", "), text);
    out.key = text.clone();
    let sc = Scratch::new();
    sc.write("cur/main.llrl", format!("{}{}", prelude, text).as_bytes());
    let mut verdicts = vec![];
    for c in cli::configs() {
        if c.name.ends_with("llvm") { continue }
        let mut a = c.flags.clone();
        a.extend(["-o".to_string(), sc.path("exe"), "main".into()]);
        let _ = std::fs::remove_file(sc.0.join("exe"));
        // names may have become those of builtin forms that never end, or grow
        let r = cli::run("/bin/sh", &[vec!["-c".into(), "ulimit -v 8000000; exec \"$0\" \"$@\"".to_string(), c.compiler.clone()], a].concat(), &sc.0.join("cur"), b"", 60, &[]);
        let v = if r.timeout { "does not end" } else if r.code == 0 && sc.0.join("exe").exists() { "accepts" } else if r.code == 1 || r.both().contains("~/main:") && !r.both().contains("panicked") { "reports errors" } else { "crashes" };
        verdicts.push((c.name.clone(), v, r));
    }
    if verdicts.iter().any(|v| v.1 == "crashes" || v.1 == "does not end") {
        // what such programs do to a compiler is judged elsewhere
        out.classes.push("crash");
        return Ok(());
    }
    out.classes.push(verdicts[0].1);
    out.nontrivial = true;
    out.evals += 1;
    for w in verdicts.windows(2) {
        if w[0].1 != w[1].1 {
            return fail(if w[0].1 == "accepts" { "only-bootstrap-accepts" } else { "only-self-hosted-accepts" }, format!("{} {} but {} {}: {}{} with edits {} in\n{}", w[0].0, w[0].1, w[1].0, w[1].1, w[0].2.both(), w[1].2.both(), log.join(", "), text));
        }
    }
    Ok(())
}

fn main() {
    let part = std::env::var("VH_PART").unwrap_or_default();
    main_with("c11", if part == "edited" { &edited } else { &same })
}
