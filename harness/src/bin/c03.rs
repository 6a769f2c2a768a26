//! C03: loading, ordering and building of module graphs, against the graph itself.
use llrl::prelude::ModuleError;
use std::collections::{BTreeMap, BTreeSet};
use vharness::cli;
use vharness::front::front;
use vharness::{ensure, jstr, main_with, Case, Out, Tape};

/// (package, parts); package "~" is the current one, no parts is the prelude.
type P = (String, Vec<String>);

fn path(text: &str) -> Option<P> {
    let (head, tail) = match text.find('/') {
        Some(i) => (&text[..i], Some(&text[i + 1..])),
        None => (text, None),
    };
    if head.is_empty() || head == "." || head == ".." {
        return None;
    }
    let parts: Vec<String> = match tail {
        None => vec![],
        Some("prelude") => vec![],
        Some(t) => t.split('/').map(|s| s.to_string()).collect(),
    };
    if parts.iter().any(|p| p.is_empty() || p == "~" || p == "." || p == "..") {
        return None;
    }
    Some((head.to_string(), parts))
}

fn show(p: &P) -> String {
    std::iter::once(&p.0).chain(&p.1).cloned().collect::<Vec<_>>().join("/")
}

#[derive(Clone, Debug)]
struct Mod {
    name: P,
    no_std: bool,
    /// import texts, and the feature that guards each
    imports: Vec<(String, Option<bool>)>,
    /// 0 fine, 1 does not parse, 2 does not resolve
    bad: u8,
    letter: u8,
    stmts: usize,
}

#[derive(Clone, Debug)]
struct World {
    mods: Vec<Mod>,
    entries: Vec<String>,
    feature: bool,
}

#[derive(Default)]
struct Expect {
    reach: BTreeSet<P>,
    deps: BTreeMap<P, BTreeSet<P>>,
    src: BTreeSet<(String, &'static str)>,
    /// strongly connected components of more than one module
    cycles: Vec<BTreeSet<P>>,
    bad: BTreeSet<P>,
    blocked: BTreeSet<P>,
}

impl Mod {
    fn text(&self, trace: bool) -> String {
        let mut o = String::new();
        let n = self.stmts.max(self.imports.len());
        if self.no_std && self.letter % 2 == 0 {
            o += "(no-implicit-std)\n";
        }
        if trace {
            o += "(import \"builtin\" _)\n(c-function putchar {(-> I32 I32)} \"putchar\")\n";
        }
        for i in 0..n {
            if let Some((s, g)) = self.imports.get(i) {
                let imp = format!("(import {})", jstr(s));
                o += &match g {
                    None => imp,
                    Some(true) => format!("($when ($feature \"fa\") {})", imp),
                    Some(false) => format!("($when ($not ($feature \"fa\")) {})", imp),
                };
                o += "\n";
            }
            if trace && i < self.stmts {
                o += &format!("(begin (putchar {}) (putchar {}))\n", 65 + self.letter, 48 + i);
            }
        }
        if self.no_std && self.letter % 2 == 1 {
            o += "(no-implicit-std)\n";
        }
        match self.bad {
            1 => o += "(unclosed\n",
            2 => o += "(function (f x) no-such-name-anywhere)\n",
            _ => {}
        }
        o
    }
}

/// A module that does not parse may (follow) or may not have the parts that parse taken into account.
fn expect(w: &World, follow: bool) -> Expect {
    let mut e = Expect::default();
    let mods: BTreeMap<P, &Mod> = w.mods.iter().map(|m| (m.name.clone(), m)).collect();
    let mut packages: BTreeSet<&str> = w.mods.iter().map(|m| m.name.0.as_str()).collect();
    packages.insert("builtin");
    let builtin: P = ("builtin".into(), vec![]);
    let std: P = ("std".into(), vec![]);
    let mut todo: Vec<P> = w.entries.iter().map(|x| path(x).unwrap()).collect();
    while let Some(p) = todo.pop() {
        if !e.reach.insert(p.clone()) {
            continue;
        }
        let mut deps = BTreeSet::new();
        let name = show(&p);
        if p == builtin {
        } else if !packages.contains(p.0.as_str()) {
            e.src.insert((name, "package"));
        } else if !mods.contains_key(&p) {
            e.src.insert((name, "module"));
        } else if mods[&p].bad == 1 && !follow {
            e.src.insert((name, "parse"));
        } else {
            if mods[&p].bad == 1 {
                e.src.insert((name.clone(), "parse"));
            }
            let m = mods[&p];
            deps.insert(builtin.clone());
            for (i, g) in &m.imports {
                if g.map_or(true, |g| g == w.feature) {
                    match path(i) {
                        None => {
                            e.src.insert((name.clone(), "invalid"));
                        }
                        Some(mut q) => {
                            if q.0 == "~" {
                                q.0 = p.0.clone();
                            }
                            if q == p {
                                e.src.insert((name.clone(), "self"));
                            } else {
                                deps.insert(q);
                            }
                        }
                    }
                }
            }
            if !m.no_std {
                if p == std {
                    e.src.insert((name.clone(), "self"));
                } else {
                    deps.insert(std.clone());
                }
            }
            if m.bad == 2 {
                e.bad.insert(p.clone());
            }
        }
        todo.extend(deps.iter().cloned());
        e.deps.insert(p, deps);
    }
    // transitive closure
    let mut clos = e.deps.clone();
    loop {
        let mut grown = false;
        for p in e.reach.iter() {
            let more: BTreeSet<P> = clos[p].iter().flat_map(|q| clos[q].iter().cloned()).collect();
            let c = clos.get_mut(p).unwrap();
            let n = c.len();
            c.extend(more);
            grown |= c.len() > n;
        }
        if !grown {
            break;
        }
    }
    for p in &e.reach {
        if clos[p].contains(p) {
            let scc: BTreeSet<P> = e.reach.iter().filter(|q| clos[p].contains(*q) && clos[*q].contains(p)).cloned().collect();
            if !e.cycles.contains(&scc) {
                e.cycles.push(scc);
            }
        }
        if clos[p].iter().any(|q| e.bad.contains(q)) {
            e.blocked.insert(p.clone());
        }
    }
    e
}

fn gen(t: &mut Tape, trace: bool) -> World {
    let packages = ["~", "p", "q", "std", "~", "r"];
    let parts: [&[&str]; 8] = [&[], &["a"], &["b"], &["a", "c"], &["prelude", "a"], &["x-y"], &["b", "prelude"], &["a", "c", "d"]];
    let n = if t.chance(1, 4) { 14 } else { 7 };
    let n = t.range(1, n);
    let with_std = t.chance(1, 3);
    let mut mods: Vec<Mod> = vec![];
    if !trace {
        mods.push(Mod { name: ("p".into(), vec!["e".into()]), no_std: !with_std, imports: vec![], bad: 0, letter: 24, stmts: 0 });
    }
    for i in 0..n {
        let p = if trace { *t.pick(&packages[..3]) } else { *t.pick(&packages) };
        let name: P = (p.to_string(), t.pick(&parts).iter().map(|s| s.to_string()).collect());
        if mods.iter().any(|m| m.name == name) || (p == "std" && !with_std) {
            continue;
        }
        let no_std = trace || !with_std || p == "std" && !t.chance(1, 30) || t.chance(1, 3);
        mods.push(Mod { name, no_std, imports: vec![], bad: 0, letter: i as u8, stmts: if trace { t.range(0, 3) } else { 0 } });
    }
    if trace && !mods.iter().any(|m| m.name.0 == "~") {
        mods.push(Mod { name: ("~".into(), vec!["main".into()]), no_std: true, imports: vec![], bad: 0, letter: 20, stmts: 2 });
    }
    if with_std && !trace && !mods.iter().any(|m| m.name == ("std".to_string(), vec![])) {
        mods.insert(0, Mod { name: ("std".into(), vec![]), no_std: true, imports: vec![], bad: 0, letter: 25, stmts: 0 });
    }
    let acyclic = t.chance(3, 4);
    let tidy = t.chance(3, 4);
    let n = mods.len();
    let names: Vec<P> = mods.iter().map(|m| m.name.clone()).collect();
    let dense = t.range(2, 5);
    for i in 0..n {
        for _ in 0..t.range(0, dense) {
            let to = match t.below(if tidy { 1 } else { 40 }) {
                37 => t.pick(&["", ".", "p/", "~/", "/a", "p//a", "p/.", "p/../q", "~/~", "..", "./a", "~/a/..", "p/a/", "p/~/a", "p/a/.", "~//", "/"]).to_string(),
                38 => t.pick(&["p/zz", "~/zz", "zz", "zz/a", "builtin/a", "~/prelude/prelude", "p/preludes", "p/a/prelude", "std/zz"]).to_string(),
                39 => show(&names[i]),
                _ => {
                    let lo = if acyclic { 0 } else { n };
                    let j = if lo == 0 { if i == 0 { continue } else { t.below(i as u64) as usize } } else { t.below(n as u64) as usize };
                    if j == i { continue }
                    // from another package the current one has no name
                    if names[j].0 == "~" && names[i].0 != "~" { continue }
                    let q = &names[j];
                    let mut s = show(q);
                    if q.0 == names[i].0 && t.bool() {
                        s = show(&("~".to_string(), q.1.clone()));
                    }
                    if q.1.is_empty() && t.bool() {
                        s += "/prelude";
                    }
                    s
                }
            };
            let g = match t.below(12) { 0 => Some(true), 1 => Some(false), _ => None };
            mods[i].imports.push((to, g));
        }
        if !tidy && t.chance(1, 12) { mods[i].bad = t.range(1, 2) as u8; }
        else if !trace && t.chance(1, 25) { mods[i].bad = 2; }
    }
    if trace && tidy { mods.iter_mut().for_each(|m| m.bad = 0); }
    let mut entries = vec![];
    let own: Vec<usize> = (0..n).filter(|i| names[*i].0 == "~").collect();
    for _ in 0..t.range(1, 3) {
        let i = if trace { *t.pick(&own) } else { n - 1 - t.below(n as u64) as usize };
        entries.push(show(&names[i]));
    }
    if !trace && t.chance(1, 30) { entries.push("p/absent".to_string()); }
    World { mods, entries, feature: t.bool() }
}

fn class(e: &str) -> &'static str {
    for (a, b) in [("Package not found", "package"), ("Module not found", "module"), ("Parse failed", "parse"), ("Invalid import path", "invalid"), ("Cannot import module itself", "self")] {
        if e.starts_with(a) { return b; }
    }
    "other"
}

fn describe(w: &World, trace: bool) -> String {
    let mut o = format!("entries {:?}, feature fa {}\n", w.entries, w.feature);
    for m in &w.mods {
        o += &format!("== {}\n{}", show(&m.name), m.text(trace));
    }
    o
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let w = gen(t, false);
    let e = expect(&w, false);
    let most = expect(&w, true);
    out.desc = describe(&w, false);
    out.nontrivial = e.reach.len() >= 4;
    let files: Vec<(String, String)> = w.mods.iter().map(|m| (show(&m.name), m.text(false))).collect();
    let fs: &[&str] = if w.feature { &["fa"] } else { &[] };
    let f = front(&w.entries, &files, fs);
    let desc = &out.desc;
    if !e.src.is_empty() {
        out.classes.push("source-errors");
        let got: BTreeSet<(String, &str)> = f.src.iter().map(|(p, m)| (p.clone(), class(m))).collect();
        ensure!(got.is_superset(&e.src) && got.is_subset(&most.src), "llrl0-source-errors", "{}the errors of this graph are {:?} but llrl0 reports {:?}", desc, e.src, f.src);
        return Ok(());
    }
    ensure!(f.src.is_empty(), "llrl0-source-errors", "{}this graph has no import errors but llrl0 reports {:?}", desc, f.src);
    if !e.cycles.is_empty() {
        out.classes.push("cyclic");
        let got: BTreeSet<P> = match &f.cycle {
            Some(c) => c.iter().map(|p| path(p).unwrap()).collect(),
            None => return vharness::fail("llrl0-cycle-accepted", format!("{}the imports {:?} are cyclic but llrl0 answers {}", desc, e.cycles, f.summary())),
        };
        ensure!(e.cycles.contains(&got), "llrl0-cycle-report", "{}the cycles are {:?} but llrl0 reports {:?}", desc, e.cycles, got);
        return Ok(());
    }
    ensure!(f.cycle.is_none(), "llrl0-cycle-invented", "{}there is no cycle but llrl0 reports {:?}", desc, f.cycle);
    out.classes.push("acyclic");
    let order: Vec<P> = f.order.iter().map(|p| path(p).unwrap()).collect();
    let set: BTreeSet<P> = order.iter().cloned().collect();
    let mut want = e.reach.clone();
    want.insert(("builtin".into(), vec![]));
    ensure!(set == want && order.len() == want.len(), "llrl0-reachable", "{}reachable are {:?} but llrl0 loads {:?}", desc, want, f.order);
    for (i, p) in order.iter().enumerate() {
        for d in &e.deps[p] {
            ensure!(order[..i].contains(d), "llrl0-order", "{}{:?} depends on {:?} but the order is {:?}", desc, p, d, f.order);
        }
    }
    let built: BTreeSet<P> = f.modules.iter().map(|m| path(&m.path().to_string()).unwrap()).collect();
    let want_built: BTreeSet<P> = want.iter().filter(|p| !e.bad.contains(*p) && !e.blocked.contains(*p)).cloned().collect();
    ensure!(built == want_built && f.modules.len() == built.len(), "llrl0-built", "{}the modules to build are {:?} but llrl0 builds {:?} ({})", desc, want_built, built, f.summary());
    let mut want_errors = BTreeMap::new();
    for p in &want {
        if e.blocked.contains(p) { want_errors.insert(p.clone(), true); }
        else if e.bad.contains(p) { want_errors.insert(p.clone(), false); }
    }
    let got: BTreeMap<P, bool> = f.errors.iter().map(|(p, x)| (path(p).unwrap(), matches!(x, ModuleError::DependentModuleBuildFailed))).collect();
    ensure!(got == want_errors, "llrl0-errors", "{}the failing modules (true: by a dependency) are {:?} but llrl0 reports {:?} ({})", desc, want_errors, got, f.summary());
    if !want_errors.is_empty() { out.classes.push("failing-module"); }
    if e.reach.len() >= 8 { out.classes.push("large"); }
    Ok(())
}

/// The executable's own trace of what it initialises.
fn trace_case(t: &mut Tape, out: &mut Out) -> Case {
    let w = gen(t, true);
    let e = expect(&w, false);
    out.desc = describe(&w, true);
    out.nontrivial = e.reach.len() >= 3;
    let s = cli::Scratch::new();
    let dir = |p: &str| if p == "~" { "cur".to_string() } else { format!("pkg-{}", p) };
    for d in ["~", "p", "q"] { std::fs::create_dir_all(s.0.join(dir(d))).unwrap(); }
    for m in &w.mods {
        let f = if m.name.1.is_empty() { "prelude".to_string() } else { m.name.1.join("/") };
        s.write(&format!("{}/{}.llrl", dir(&m.name.0), f), m.text(true).as_bytes());
    }
    let mut flags: Vec<String> = vec!["-b".into(), "chibi".into(), "-p".into(), format!("p:{}", s.path("pkg-p")), "-p".into(), format!("q:{}", s.path("pkg-q"))];
    if w.feature { flags.push("-ffa".into()); }
    let entries: Vec<String> = w.entries.iter().map(|x| if x == "~" { "prelude".to_string() } else { x[2..].to_string() }).collect();
    for c in ["LLRL0", "LLRL1"] {
        let compiler = match cli::compiler(c) { Some(x) => x, None => continue };
        let r = cli::compile(&s, &cli::Job { compiler: &compiler, flags: flags.clone(), entries: entries.clone() }, "exe");
        let made = s.0.join("exe").exists();
        let c = c.to_lowercase();
        if !e.src.is_empty() || !e.cycles.is_empty() || !e.bad.is_empty() {
            out.classes.push("rejected");
            ensure!(r.code != 0 && r.code > 0 && !made, &format!("{}-accepts", c), "{}must be rejected but {} {}\n{}", out.desc, c, cli::how(&r), r.both());
            continue;
        }
        out.classes.push("traced");
        ensure!(r.code == 0 && made, &format!("{}-rejects", c), "{}is fine but {} {}\n{}", out.desc, c, cli::how(&r), r.both());
        let x = cli::exec(&s, "exe", b"", &[]);
        ensure!(x.code == 0, &format!("{}-run", c), "{}the executable of {} {}", out.desc, c, cli::how(&x));
        let got: Vec<(u8, u8)> = x.out.chunks(2).map(|k| (k[0], *k.get(1).unwrap_or(&0))).collect();
        let mut want: Vec<(u8, u8)> = w.mods.iter().filter(|m| e.reach.contains(&m.name)).flat_map(|m| (0..m.stmts).map(move |i| (65 + m.letter, 48 + i as u8))).collect();
        let mut sorted = got.clone();
        sorted.sort();
        want.sort();
        ensure!(sorted == want, &format!("{}-init-once", c), "{}each reachable module runs once, but the trace of {} is {}", out.desc, c, x.text());
        let at = |m: &Mod, i: usize| got.iter().position(|g| *g == (65 + m.letter, 48 + i as u8)).unwrap();
        for m in w.mods.iter().filter(|m| e.reach.contains(&m.name)) {
            for i in 1..m.stmts {
                ensure!(at(m, i - 1) < at(m, i), &format!("{}-init-source-order", c), "{}the trace of {} is {}", out.desc, c, x.text());
            }
            for d in w.mods.iter().filter(|d| e.deps[&m.name].contains(&d.name)) {
                if m.stmts > 0 && d.stmts > 0 {
                    ensure!(at(d, d.stmts - 1) < at(m, 0), &format!("{}-init-dependency", c), "{}{} runs after {}, but the trace of {} is {}", out.desc, show(&m.name), show(&d.name), c, x.text());
                }
            }
        }
    }
    Ok(())
}

/// What llrl1's front driver may answer.
fn row(w: &World) -> String {
    let e = expect(w, false);
    let most = expect(w, true);
    let mut o = String::from("{");
    let files: Vec<String> = w.mods.iter().map(|m| format!("[{},{}]", jstr(&show(&m.name)), jstr(&m.text(false)))).collect();
    let set = |s: &mut dyn Iterator<Item = &P>| s.map(|p| jstr(&show(p))).collect::<Vec<_>>().join(",");
    o += &format!("\"files\":[{}],", files.join(","));
    o += &format!("\"trace\":[{}],", w.mods.iter().map(|m| format!("[{},{},{},{}]", jstr(&show(&m.name)), jstr(&m.text(true)), m.letter, m.stmts)).collect::<Vec<_>>().join(","));
    o += &format!("\"entries\":[{}],", w.entries.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    o += &format!("\"feature\":{},", w.feature);
    o += &format!("\"src\":[{}],", e.src.iter().map(|(p, c)| format!("[{},{}]", jstr(p), jstr(c))).collect::<Vec<_>>().join(","));
    o += &format!("\"most\":[{}],", most.src.iter().map(|(p, c)| format!("[{},{}]", jstr(p), jstr(c))).collect::<Vec<_>>().join(","));
    o += &format!("\"cycles\":[{}],", e.cycles.iter().map(|c| format!("[{}]", set(&mut c.iter()))).collect::<Vec<_>>().join(","));
    o += &format!("\"reach\":[{}],", set(&mut e.reach.iter()));
    o += &format!("\"bad\":[{}],", set(&mut e.bad.iter().filter(|p| !e.blocked.contains(*p))));
    o += &format!("\"deps\":{{{}}}", e.deps.iter().map(|(p, d)| format!("{}:[{}]", jstr(&show(p)), set(&mut d.iter()))).collect::<Vec<_>>().join(","));
    o + "}"
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if mode == "texts" || mode == "progs" {
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            let mut t = Tape::random(vharness::case_seed(seed, i, mode));
            let mut w = gen(&mut t, mode == "progs");
            if mode == "texts" { w.feature = false; }
            println!("{}", row(&w));
        }
        return;
    }
    if std::env::var("VH_PART").as_deref() == Ok("trace") {
        return main_with("c03", &trace_case);
    }
    main_with("c03", &case)
}
