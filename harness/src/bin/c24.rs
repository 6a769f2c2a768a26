//! C24: generated command lines over generated worlds of modules and packages; a model says what is built, run and reported.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use vharness::cli::{self, Scratch};
use vharness::{fail, main_with, Case, Out, Tape};

const FEATS: [&str; 10] = ["a", "b", "xx", "UP", "with-dash", "two words", "é", "a,b", "x=1", "llvm-backend"];
const MAINS: [&str; 10] = ["main", "m", "app/run", "a/b/c", "tool-x", "prelude", "v1.2", "d.e/f.g", "main2", "w.llrl"];
const PKGS: [&str; 7] = ["foo", "bar", "b-z", "foo2", "x.y", "Core", "p"];
const PMODS: [&str; 6] = ["prelude", "m", "u/v", "main", "m.n", "u"];
const ARGS: [&str; 22] = ["", "a", "-", "--", "-O", "-r", "-o", "--help", "-v", "--version", "-ofile", "two words", "é…😀", "a=b", "\"q\"", "'", "\\", "$HOME", "*", "line\nbreak", "-f", "main"];
const STYLES: usize = 4;

#[derive(Clone, Debug)]
enum Opt { Flag(&'static str, &'static str), Val(char, &'static str, String), Entry(String) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None, Type, TypeInPackage, Syntax, NoModule, NoPackage, NoEntry, DupPackage, Reserved, BadPackage, Backend, Link, OutDir, OutIsDir, Cycle, NoEntryAtAll, UnknownOption, Undefined, Utf8, BadEntry, FeatureOff, FeatureOn,
}
use Fault::*;
const FAULTS: [Fault; 21] = [Type, TypeInPackage, Syntax, NoModule, NoPackage, NoEntry, DupPackage, Reserved, BadPackage, Backend, Link, OutDir, OutIsDir, Cycle, NoEntryAtAll, UnknownOption, Undefined, Utf8, BadEntry, FeatureOff, FeatureOn];

fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) }
    }
    o + "\""
}

/// All files below a directory, with what they hold.
fn tree(d: &Path, base: &Path, o: &mut BTreeMap<String, Vec<u8>>) {
    let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).collect()).unwrap_or_default();
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let p = e.path();
        let k = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
        if p.is_dir() { o.insert(k + "/", vec![]); tree(&p, base, o) } else { let d = std::fs::read(&p).unwrap_or_default(); o.insert(k, d); }
    }
}

struct Pack { name: String, dir: String, mods: Vec<usize>, tok: String }

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let cfs = cli::configs();
    let cf = &cfs[t.below(cfs.len() as u64) as usize];
    let l1 = cf.name.starts_with("llrl1");
    let s = Scratch::new();
    let fault = if t.chance(2, 5) { *t.pick(&FAULTS) } else { None };
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut opts: Vec<Opt> = vec![];
    let mut tok = { let mut n = 0; move || { n += 1; format!("t{}", n) } };

    // features
    let feats: BTreeSet<&str> = FEATS.iter().filter(|_| t.chance(1, 3)).cloned().collect();
    for f in &feats { opts.push(Opt::Val('f', "feature", f.to_string())); if t.chance(1, 12) { opts.push(Opt::Val('f', "feature", f.to_string())); } }
    let show_feats = |indent: &str, tokn: &str| {
        let mut o = String::new();
        for (k, f) in FEATS.iter().enumerate() {
            if (k + tokn.len()) % 3 == 0 { let _ = writeln!(o, "{}($when ($not ($feature {})) (println! \"{} {} -\"))", indent, lit(f), tokn, k); }
            let _ = writeln!(o, "{}($when ($feature {}) (println! \"{} {} +\"))", indent, lit(f), tokn, k);
        }
        o
    };
    let feat_lines = |tokn: &str, w: &mut Vec<String>| {
        for (k, f) in FEATS.iter().enumerate() {
            if (k + tokn.len()) % 3 == 0 && !feats.contains(f) { w.push(format!("{} {} -", tokn, k)); }
            if feats.contains(f) { w.push(format!("{} {} +", tokn, k)); }
        }
    };

    // packages, and directories of the same names that are not to be looked at
    let mut packs: Vec<Pack> = vec![];
    for _ in 0..t.below(4) {
        let name = t.pick(&PKGS).to_string();
        if packs.iter().any(|p| p.name == name) { continue; }
        let k = packs.len();
        let renamed = t.bool();
        let base = if renamed { t.pick(&["dir", "std", "foo", "q.r", "some dir", "~x"]).to_string() } else { name.clone() };
        let parent = *t.pick(&["pk", "../out", "../out/deep", "."]);
        let real = if parent == "." { base.clone() } else { format!("{}/{}", parent, base) };
        if packs.iter().any(|p| p.dir == real) || MAINS.iter().any(|m| m.starts_with(&real)) { continue; }
        let mods: Vec<usize> = (0..PMODS.len()).filter(|_| t.chance(1, 2)).collect();
        if mods.is_empty() { continue; }
        let shown = match t.below(4) { 0 => s.path(&format!("cur/{}", real)), 1 => format!("./{}", real), _ => real.clone() };
        opts.push(Opt::Val('p', "package", if renamed { format!("{}:{}", name, shown) } else { shown }));
        packs.push(Pack { name, dir: real, mods, tok: format!("p{}", k) });
    }
    for p in &packs {
        for &m in &p.mods {
            let mut txt = format!("; {}\n(export tok-{}-{})\n(function (tok-{}-{}) {{(-> String)}} ", p.name, p.tok, m, p.tok, m);
            let f = FEATS[m % 3];
            let _ = writeln!(txt, "($when ($feature {}) \"{}.{}+\") ($when ($not ($feature {})) \"{}.{}-\"))", lit(f), p.tok, m, lit(f), p.tok, m);
            files.insert(format!("{}/{}.llrl", p.dir, PMODS[m]), txt.into_bytes());
        }
    }

    // entries
    let n_entries = if t.chance(1, 3) { 2 } else { 1 };
    let mut entries: Vec<&str> = vec![];
    for _ in 0..n_entries { let m = *t.pick(&MAINS); if !entries.contains(&m) { entries.push(m); } }
    let solo = entries.len() == 1;
    let code: Option<i32> = match t.below(4) { 0 => Option::None, 1 => Some(*t.pick(&[1, 2, 255, 128, 127, 42])), 2 => Some(0), _ => Some(t.below(256) as i32) };
    let code = if solo { code } else { Option::None };
    let aborts = solo && code.is_none() && t.chance(1, 5);
    let reads = t.bool();
    let stdin: Vec<u8> = (0..t.below(30)).map(|_| t.below(256) as u8).collect();
    let mut lines: Vec<String> = vec![];
    let mut main_args_at = 0;
    for (k, e) in entries.iter().enumerate() {
        let id = tok();
        let mut txt = String::from("(import \"std/system\" args exit!)\n");
        let mut body = format!("(println! \"entry {}\")\n", id);
        lines.push(format!("entry {}", id));
        for p in &packs {
            for &m in &p.mods {
                if !t.chance(2, 3) { continue; }
                let path = if PMODS[m] == "prelude" && t.bool() { p.name.clone() } else { format!("{}/{}", p.name, PMODS[m]) };
                let _ = writeln!(txt, "(import {} tok-{}-{})", lit(&path), p.tok, m);
                let _ = writeln!(body, "(println! (tok-{}-{}))", p.tok, m);
                lines.push(format!("{}.{}{}", p.tok, m, if feats.contains(FEATS[m % 3]) { '+' } else { '-' }));
            }
        }
        if t.chance(1, 3) {
            // a module of the current package, possibly of the same name as one of a package
            let m = *t.pick(&["lib", "u/v", "m.n"]);
            let _ = writeln!(txt, "(import \"~/{}\" local-tok)", m);
            files.insert(format!("{}.llrl", m), b"(export local-tok)\n(function (local-tok) {(-> String)} \"local\")\n".to_vec());
            body.push_str("(println! (local-tok))\n");
            lines.push("local".into());
        }
        body.push_str(&show_feats("", &id));
        feat_lines(&id, &mut lines);
        if k == 0 {
            main_args_at = lines.len();
            body.push_str("(let1 v (args)\n  (println! \"args \" (array/length v))\n  (for (let a) v (println! (string/length a) \":\" a)))\n");
            if reads {
                txt.push_str("(c-function getchar {(-> I32)} \"getchar\")\n(function (sum! n) {(-> U64 U64)}\n  (let1 c (getchar) (if (eq? c -1) n (sum! (+ (* n 31) (conv c) 1)))))\n");
                body.push_str("(println! \"stdin \" (sum! 7))\n");
            }
            if aborts { body.push_str("(assert #f \"on purpose\")\n"); }
            if let Some(c) = code { let _ = writeln!(body, "(exit! {})", c); }
        }
        files.insert(format!("{}.llrl", e), format!("{}{}", txt, body).into_bytes());
        opts.push(Opt::Entry(if t.chance(1, 3) || e.ends_with(".llrl") { format!("{}.llrl", e) } else { e.to_string() }));
    }
    // names that a wrong resolution would find
    for m in ["v1", "d.e/f", "m", "x", "w"] {
        let f = format!("{}.llrl", m);
        if !files.contains_key(&f) { files.insert(f, b"(export tok-p0-4 tok-p1-4 local-tok)\n(println! \"wrong module\")\n(function (tok-p0-4) {(-> String)} \"wrong\")\n(function (tok-p1-4) {(-> String)} \"wrong\")\n(function (local-tok) {(-> String)} \"wrong\")\n".to_vec()); }
    }

    // flags
    if t.chance(1, 3) { opts.push(Opt::Flag("-O", "--optimize")); }
    if t.chance(1, 6) { opts.push(Opt::Flag("-v", "--verbose")); }
    let want_run = t.chance(1, 3);
    if want_run { opts.push(Opt::Flag("-r", "--run")); }
    let out_to: Option<String> = if t.chance(3, 4) {
        Some(match t.below(8) { 0 => "out".into(), 1 => "./exe.d/prog".into(), 2 => s.path("abs"), 3 => "../sibling".into(), 4 => "two words".into(), 5 => "é".into(), 6 => "prog.llrl.exe".into(), _ => "exe.d/a.out".into() })
    } else { Option::None };
    let backend_given = t.chance(9, 10);
    let mut backend = "chibi".to_string();
    if let Some(k) = cf.flags.iter().position(|x| x == "-b") { backend = cf.flags[k + 1].clone(); }
    if fault == Backend { backend = t.pick(&["nope", "", "LLVM", "chibi2"]).to_string(); }
    if backend_given || fault == Backend || cf.name != "llrl0-chibi" { opts.push(Opt::Val('b', "backend", backend)); }
    let mut rpaths = vec![];
    for _ in 0..t.below(3) {
        let r = format!("/vp-{}/{}", tok(), t.below(1000));
        opts.push(Opt::Val('c', "clang-option", format!("-Wl,-rpath,{}", r)));
        rpaths.push(r);
    }
    let build_id = if t.chance(1, 4) {
        let id: Vec<u8> = (0..12).map(|_| t.below(256) as u8).collect();
        opts.push(Opt::Val('c', "clang-option", format!("-Wl,--build-id=0x{}", id.iter().map(|b| format!("{:02x}", b)).collect::<String>())));
        Some(id)
    } else { Option::None };
    let run_args: Vec<String> = if t.chance(1, 2) { (0..t.range(1, 5)).map(|_| t.pick(&ARGS).to_string()).collect() } else { vec![] };
    let out_to = if let OutDir | OutIsDir = fault { Some(if fault == OutDir { "no/such/dir/prog".to_string() } else { "exe.d".to_string() }) } else { out_to };
    if let Some(o) = &out_to { opts.push(Opt::Val('o', "output", o.clone())); }
    let runs = want_run || out_to.is_none() || !run_args.is_empty();

    // the fault
    let entry0 = format!("{}.llrl", entries[0]);
    let add = |files: &mut BTreeMap<String, Vec<u8>>, f: &str, txt: &str| files.get_mut(f).unwrap().extend_from_slice(txt.as_bytes());
    match fault {
        None => {}
        Type => add(&mut files, &entry0, "(println! (+ 1 \"x\"))\n"),
        TypeInPackage => match packs.first() { Some(p) => { let f = format!("{}/extra.llrl", p.dir); files.insert(f, b"(function (f x) {(-> I32 Bool)} (+ x 1))\n".to_vec()); add(&mut files, &entry0, &format!("(import \"{}/extra\" _)\n", p.name)) } Option::None => add(&mut files, &entry0, "(println! (nowhere))\n") },
        Syntax => add(&mut files, &entry0, t.pick(&["(println! \"x\"\n", ")\n", "\"unfinished\n", "{(-> I32}\n"])),
        NoModule => add(&mut files, &entry0, t.pick(&["(import \"~/not-here\" _)\n", "(import \"std/not-here\" _)\n"])),
        NoPackage => add(&mut files, &entry0, t.pick(&["(import \"nowhere\" _)\n", "(import \"nowhere/m\" _)\n", "(import \"pk/foo\" _)\n"])),
        NoEntry => opts.push(Opt::Entry(match t.below(3) { 0 => "missing".into(), 1 => t.pick(&["sub/missing.llrl", "MAIN"]).to_string(), _ => format!("{}.llrl.llrl", entries[0]) })),
        DupPackage => match packs.first() { Some(p) => opts.push(Opt::Val('p', "package", format!("{}:{}", p.name, p.dir))), Option::None => { opts.push(Opt::Val('p', "package", "z:pk".into())); opts.push(Opt::Val('p', "package", "other/z".into())) } },
        Reserved => opts.push(Opt::Val('p', "package", t.pick(&["std:pk", "builtin:pk", "some/std", "~:pk"]).to_string())),
        BadPackage => opts.push(Opt::Val('p', "package", t.pick(&["a:b:c", "z:pk:pk", "z:pk:", "..:pk", ".:pk", "x/y:pk", ":pk"]).to_string())),
        Backend | OutDir | OutIsDir => {}
        Link => opts.push(Opt::Val('c', "clang-option", t.pick(&["-lno-such-library-vp", "-Wl,--no-such-option-vp", "/nowhere/x.o", "-Wl,--defsym=main2=nowhere_vp"]).to_string())),
        Cycle => { files.insert("cy1.llrl".into(), b"(import \"~/cy2\" _)\n".to_vec()); files.insert("cy2.llrl".into(), b"(import \"~/cy1\" _)\n".to_vec()); add(&mut files, &entry0, "(import \"~/cy1\" _)\n") }
        NoEntryAtAll => opts.retain(|o| !matches!(o, Opt::Entry(_))),
        UnknownOption => opts.push(Opt::Flag("-Z", "--frobnicate")),
        Undefined => add(&mut files, &entry0, "(println! $undefined-meta)\n"),
        Utf8 => files.get_mut(&entry0).unwrap().extend_from_slice(b"; \xff\xfe\n"),
        BadEntry => opts.push(Opt::Entry(t.pick(&["../x", "/abs/m", "a//b", "m/", "./m", "~"]).to_string())),
        // a form that is broken only with, or only without, a feature
        FeatureOff => add(&mut files, &entry0, &format!("($when ($not ($feature {})) (import \"nowhere/x\" y))\n", lit(FEATS[1]))),
        FeatureOn => add(&mut files, &entry0, &format!("($when ($feature {}) (import \"nowhere/x\" y))\n", lit(FEATS[3]))),
    }
    let fails = match fault { None => false, FeatureOff => !feats.contains(FEATS[1]), FeatureOn => feats.contains(FEATS[3]), _ => true };

    // the command line: the options in any order and in any of the forms they have
    for i in (1..opts.len()).rev() { let j = i - t.below(i as u64 + 1) as usize; opts.swap(i, j); }
    let mut argv: Vec<String> = vec![];
    for o in &opts {
        match o {
            Opt::Flag(a, b) => argv.push(if t.bool() { a } else { b }.to_string()),
            Opt::Entry(e) => argv.push(e.clone()),
            Opt::Val(c, l, v) => {
                let mut st = t.below(STYLES as u64);
                if v.is_empty() { st = if l1 { 0 } else { 3 }; }
                if l1 && st == 3 { st = 2; }
                if !l1 && v.starts_with('-') && st != 1 { st = 3; }
                match st {
                    0 => { argv.push(format!("-{}", c)); argv.push(v.clone()); }
                    1 => argv.push(format!("-{}{}", c, v)),
                    2 => { argv.push(format!("--{}", l)); argv.push(v.clone()); }
                    _ => argv.push(format!("--{}={}", l, v)),
                }
            }
        }
    }
    if !run_args.is_empty() { argv.push("--".into()); argv.extend(run_args.iter().cloned()); }

    // the world
    for (f, d) in &files { s.write(&format!("cur/{}", f), d); }
    std::fs::create_dir_all(s.0.join("cur/exe.d")).unwrap();
    std::fs::create_dir_all(s.0.join("tmp")).unwrap();
    let target = out_to.as_ref().map(|o| s.0.join("cur").join(o));
    let old = t.chance(1, 5) && fault != OutDir && fault != OutIsDir;
    if let (true, Some(p)) = (old, &target) {
        std::fs::write(p, "#!/bin/sh\necho OLD\n").unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let mut before = BTreeMap::new();
    tree(&s.0, &s.0, &mut before);

    let _ = writeln!(out.desc, "{} {}", cf.name, argv.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" "));
    let _ = writeln!(out.desc, "; fault {:?}, expects {}", fault, if fails { "failure" } else if runs { "build and run" } else { "build" });
    for (f, d) in &files { if d.len() > 400 || d.starts_with(b"; ") { let _ = writeln!(out.desc, ";; {}\n{}", f, String::from_utf8_lossy(d)); } }
    out.key = format!("{:?}{:?}{:?}{:?}{:?}{:?}", fault, opts, run_args, code, reads, packs.iter().map(|p| p.dir.clone()).collect::<Vec<_>>());
    out.nontrivial = opts.len() >= 3;
    out.classes.push(if fails { "failing build" } else if runs && out_to.is_some() { "build, keep and run" } else if runs { "build and run" } else { "build" });
    if !packs.is_empty() { out.classes.push("with packages"); }
    if !feats.is_empty() { out.classes.push("with features"); }
    if run_args.iter().any(|a| a.starts_with('-')) { out.classes.push("option-like arguments"); }
    if aborts && runs && !fails { out.classes.push("program dies by a signal"); }
    if !solo { out.classes.push("two entries"); }

    let tmp = s.path("tmp");
    let r = cli::run(&cf.compiler, &argv, &s.0.join("cur"), &stdin, 60, &[("TMPDIR", &tmp)]);
    if r.timeout { panic!("{} does not end within 60 s", cf.compiler); }
    let mut after = BTreeMap::new();
    tree(&s.0, &s.0, &mut after);
    let what = format!("{}\n{}", argv.join(" "), r.both());

    let expected = |argc: usize, args: &[String]| {
        let mut l = lines.clone();
        let mut a = vec![format!("args {}", argc)];
        a.extend(args.iter().map(|x| format!("{}:{}", x.len(), x)));
        if reads { a.push(format!("stdin {}", stdin.iter().fold(7u64, |n, &b| n.wrapping_mul(31).wrapping_add(b as u64).wrapping_add(1)))); }
        for (i, x) in a.into_iter().enumerate() { l.insert(main_args_at + i, x); }
        l.join("\n") + "\n"
    };
    let same = |got: &str, want: &str| {
        if solo { return got == want; }
        let mut a: Vec<&str> = got.split('\n').collect();
        let mut b: Vec<&str> = want.split('\n').collect();
        a.sort(); b.sort();
        a == b
    };
    let rel = target.as_ref().map(|p| {
        // normalised, relative to the scratch directory
        let mut v: Vec<String> = vec![];
        for c in p.strip_prefix(&s.0).unwrap().components() { match c { std::path::Component::ParentDir => { v.pop(); } std::path::Component::Normal(x) => v.push(x.to_string_lossy().into_owned()), _ => {} } }
        v.join("/")
    });
    // nothing else of the world has changed
    for (k, d) in &after {
        if Some(k) == rel.as_ref() && !fails { continue; }
        if fails && old && Some(k) == rel.as_ref() { continue; }
        match before.get(k) {
            Option::None => return fail(if k.starts_with("tmp/") { "left-over" } else { "wrong-place" }, format!("{} was created by {}", k, what)),
            Some(b) if b != d => return fail("overwritten", format!("{} was overwritten by {}", k, what)),
            _ => {}
        }
    }
    for k in before.keys() { if !after.contains_key(k) && !(fails && old && Some(k) == rel.as_ref()) { return fail("removed", format!("{} was removed by {}", k, what)); } }

    if fails {
        let text = r.both();
        if r.code == 0 { return fail("failure-status", format!("the build fails ({:?}) with status 0: {}", fault, what)); }
        if text.contains("OLD") { return fail("ran-old", format!("the build fails ({:?}) and yet a program is run: {}", fault, what)); }
        if r.text().lines().any(|l| l.starts_with("entry t") || l == "wrong module") { return fail("failure-ran", format!("the build fails ({:?}) and yet the program is run: {}", fault, what)); }
        if text.trim().is_empty() { return fail("no-message", format!("the build fails ({:?}) without a message: {}", fault, argv.join(" "))); }
        return Ok(());
    }
    if runs {
        if aborts {
            if r.code == 0 { return fail("signal-status", format!("the program dies by a signal and the status is 0: {}", what)); }
        } else {
            let want = expected(run_args.len(), &run_args);
            if r.code != code.unwrap_or(0) { return fail("run-status", format!("status {} where {} is expected: {}", r.code, code.unwrap_or(0), what)); }
            if !same(&r.text(), &want) { return fail("run-output", format!("{}\nprints\n{}\nwhere\n{}is expected", what, r.text(), want)); }
        }
    } else if r.code != 0 {
        return fail("build-status", format!("a valid build ends with status {}: {}", r.code, what));
    }
    if let (Some(p), Some(k)) = (&target, &rel) {
        let Some(exe) = after.get(k) else { return fail("no-executable", format!("no file {} after {}", k, what)) };
        if old && exe.starts_with(b"#!") { return fail("kept-old", format!("{} is still the old file after {}", k, what)); }
        for x in &rpaths { if !exe.windows(x.len()).any(|w| w == x.as_bytes()) { return fail("clang-option", format!("the linker did not get the run path {} of {}", x, what)); } }
        if let Some(id) = &build_id { if !exe.windows(id.len()).any(|w| w == &id[..]) { return fail("clang-option", format!("the linker did not get the build id of {}", what)); } }
        let own: Vec<String> = (0..t.below(4)).map(|_| t.pick(&ARGS).to_string()).collect();
        let e = cli::run(p.to_str().unwrap(), &own, &s.0, &stdin, 20, &[]);
        let want = expected(own.len(), &own);
        if aborts {
            if e.code >= 0 { return fail("exe-status", format!("the failed assertion ends the program with {}: {}", cli::how(&e), what)); }
        } else if e.timeout || e.code != code.unwrap_or(0) { return fail("exe-status", format!("the program {} where status {} is expected: {}", cli::how(&e), code.unwrap_or(0), what)); }
        else if !same(&e.text(), &want) { return fail("exe-output", format!("{}\nthe executable prints\n{}\nwhere\n{}is expected", what, e.text(), want)); }
    }
    Ok(())
}

fn main() {
    main_with("c24", &case);
}
