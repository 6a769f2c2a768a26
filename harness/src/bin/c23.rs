//! C23: mutated modules never crash or hang the compiler, and its errors name where they are.
use std::cell::RefCell;
use vharness::cli::{self, Scratch};
use vharness::front::front1;
use vharness::{fail, main_with, Case, Out, Tape};

// ------------------------------------------------------------------ source text as trees of tokens

#[derive(Clone, Debug, PartialEq)]
enum K { Atom(String), List(char, Vec<Node>) }
#[derive(Clone, Debug, PartialEq)]
struct Node { glued: bool, k: K }

fn close(o: char) -> char { match o { '(' => ')', '[' => ']', _ => '}' } }

/// Reads text to trees; comments are left out, tokens that touch stay together.
fn read(s: &str) -> Vec<Node> {
    let v: Vec<char> = s.chars().collect();
    let mut stack: Vec<(char, bool, Vec<Node>)> = vec![];
    let mut cur: Vec<Node> = vec![];
    let (mut i, mut glued) = (0, false);
    while i < v.len() {
        let ch = v[i];
        match ch {
            ' ' | '\n' | '\t' | '\r' => { glued = false; i += 1; }
            ';' => { while i < v.len() && v[i] != '\n' { i += 1; } glued = false; }
            '(' | '[' | '{' => { stack.push((ch, glued, std::mem::take(&mut cur))); glued = false; i += 1; }
            ')' | ']' | '}' => {
                i += 1;
                if let Some((o, g, before)) = stack.pop() { let l = std::mem::replace(&mut cur, before); cur.push(Node { glued: g, k: K::List(o, l) }); glued = true; }
            }
            '"' => {
                let b = i;
                i += 1;
                while i < v.len() && v[i] != '"' { i += if v[i] == '\\' { 2 } else { 1 }; }
                i = (i + 1).min(v.len());
                cur.push(Node { glued, k: K::Atom(v[b..i].iter().collect()) });
                glued = true;
            }
            _ => {
                let b = i;
                if ch == '#' && v.get(i + 1) == Some(&'\\') { i += if v.get(i + 2) == Some(&'\\') { 4 } else { 3 }; }
                while i < v.len() && !" \n\t\r;()[]{}\"".contains(v[i]) { i += 1; }
                i = i.max(b + 1).min(v.len());
                cur.push(Node { glued, k: K::Atom(v[b..i].iter().collect()) });
                glued = true;
            }
        }
    }
    while let Some((o, g, before)) = stack.pop() { let l = std::mem::replace(&mut cur, before); cur.push(Node { glued: g, k: K::List(o, l) }); }
    cur
}
fn show_node(n: &Node, o: &mut String) {
    match &n.k {
        K::Atom(a) => o.push_str(a),
        K::List(c, l) => { o.push(*c); show_seq(l, o); o.push(close(*c)); }
    }
}
fn show_seq(l: &[Node], o: &mut String) { for (k, n) in l.iter().enumerate() { if k > 0 && !n.glued { o.push(' '); } show_node(n, o); } }
fn show_form(n: &Node) -> String { let mut o = String::new(); show_node(n, &mut o); o }
/// Top-level forms, one a line; a form that was glued to the last one stays on its line.
fn show(forms: &[Node]) -> String { let mut o = String::new(); for (k, n) in forms.iter().enumerate() { if k > 0 && !n.glued { o.push('\n'); } show_node(n, &mut o); } o.push('\n'); o }
fn size(n: &Node) -> usize { match &n.k { K::Atom(_) => 1, K::List(_, l) => 1 + l.iter().map(size).sum::<usize>() } }
fn mentions(f: &[Node], p: &dyn Fn(&str) -> bool) -> bool { f.iter().any(|n| match &n.k { K::Atom(a) => p(a), K::List(_, l) => mentions(l, p) }) }
fn depth(f: &[Node]) -> usize { f.iter().map(|n| match &n.k { K::Atom(_) => 1, K::List(_, l) => 1 + depth(l) }).max().unwrap_or(0) }

/// The list and index of the node with number `at` in a walk over all nodes.
fn with_node<R>(l: &mut Vec<Node>, at: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize) -> R) -> Option<R> {
    for k in 0..l.len() {
        if *at == 0 { return Some(f(l, k)); }
        *at -= 1;
        if let K::List(_, m) = &mut l[k].k { if let Some(r) = with_node(m, at, f) { return Some(r); } }
    }
    None
}
fn total(l: &[Node]) -> usize { l.iter().map(size).sum() }

// ------------------------------------------------------------------ the corpus

#[derive(Clone)]
struct Item { forms: Vec<Node>, std: bool, good: bool }

const SNIPPETS: &str = include_str!("../c23.txt");

thread_local! { static CORPUS: RefCell<Option<(Vec<Item>, Vec<Item>)>> = RefCell::new(None); }

fn imports_tests(f: &[Node]) -> bool {
    f.iter().any(|n| match &n.k { K::List(_, l) => matches!((l.first(), l.get(1)), (Some(Node { k: K::Atom(a), .. }), Some(Node { k: K::Atom(b), .. })) if a == "import" && b.starts_with("\"std/tests/")), _ => false })
}
fn corpus() -> (Vec<Item>, Vec<Item>) {
    let (mut plain, mut rich) = (vec![], vec![]);
    let read_file = |p: &str| std::fs::read_to_string(p).unwrap_or_default();
    let mut names: Vec<String> = std::fs::read_dir("/repo/testcases").map(|d| d.filter_map(|e| Some(e.ok()?.path().to_str()?.to_string())).collect()).unwrap_or_default();
    names.sort();
    for p in &names {
        for t in read(&read_file(p)) {
            let K::List(_, l) = t.k else { continue };
            let Some(Node { k: K::Atom(kind), .. }) = l.first() else { continue };
            let body: Vec<Node> = match kind.as_str() { "test-module" | "test-backend" => l[2..].to_vec(), "test-std" => l[1..].to_vec(), _ => continue };
            if body.is_empty() { continue; }
            if mentions(&body, &|a| a == "macro" || a == "c-function" || a == "source") { continue; }
            if kind == "test-std" { if mentions(&body, &|a| a == "macro" || a == "c-function") || imports_tests(&body) { continue; } rich.push(Item { forms: body, std: true, good: false }); continue; }
            let mut forms = read("(no-implicit-std) (import \"builtin\" _)");
            forms.extend(body);
            plain.push(Item { forms, std: false, good: false });
        }
    }
    for s in SNIPPETS.split("\n----\n") { if !s.trim().is_empty() { rich.push(Item { forms: read(s), std: true, good: false }); } }
    for d in ["/repo/std/tests", "/repo/std/tests/persistent", "/repo/std", "/repo/std/persistent", "/repo/examples"] {
        let mut n: Vec<String> = std::fs::read_dir(d).map(|d| d.filter_map(|e| Some(e.ok()?.path().to_str()?.to_string())).collect()).unwrap_or_default();
        n.sort();
        for p in n {
            if !p.ends_with(".llrl") { continue; }
            let t = read_file(&p);
            if t.len() > 24_000 { continue; }
            let forms = read(&t);
            if imports_tests(&forms) { continue; }
            if forms.is_empty() || mentions(&forms, &|a| a == "macro" || a.contains("c-function") || a.starts_with("builtin-")) { continue; }
            rich.push(Item { forms, std: true, good: false });
        }
    }
    if std::env::var("VH_PART").as_deref() != Ok("front") {
        // which of them the compiler takes as they are
        let cf = &cli::configs()[0];
        let s = Scratch::new();
        for (k, i) in rich.iter().enumerate() { s.write(&format!("cur/b{}.llrl", k), show(&i.forms).as_bytes()); }
        let mut a = cf.flags.clone();
        a.push("-o".into());
        a.push(s.path("exe"));
        a.extend((0..rich.len()).map(|k| format!("b{}", k)));
        let r = cli::run(&cf.compiler, &a, &s.0.join("cur"), b"", 300, &[]);
        let b = r.both();
        for (k, i) in rich.iter_mut().enumerate() { i.good = r.code == 0 || !r.timeout && b.contains("(while building") && !b.contains(&format!("(while building ~/b{})", k)); }
        if std::env::var("VH_SHOW").is_ok() { for l in b.lines() { if let Some(k) = l.strip_prefix("~/b").and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok()) { eprintln!("{}", show(&rich[k].forms).chars().take(1500).collect::<String>()); } } eprintln!("{}\n{}", rich.iter().filter(|i| i.good).count(), b); }
    }
    (plain, rich)
}

// ------------------------------------------------------------------ mutations

const ATOMS: &[&str] = &["0", "1", "-1", "255", "256", "4294967296", "18446744073709551615", "18446744073709551616", "0xff", "0b101", "1.5", "-0.0", "1e400", "#t", "#f", "#\\a", "#\\space", "\"\"", "\"x\\u{1F600}y\"", "\"\\\\\"", "_", "x", "a", "A", "I32", "String", "->", ":", "*", "forall", "where", "let", "let1", "let*", "match", "if", "begin", "while", "set!", "return", "function", "data", "value-data", "class", "instance", "import", "export", "unit", "none", "some", "ok", "'a", "`a", ",a", ",@a", "\\a", "~a", "@let", "@a", "a?", "a!", "'", "`", ",", "\\", "~", "@", ".", "Eq", "Number", "(:)", "()", "[]", "{}", "(-> I32)", "(: 1 2)", "(forall A)", "(where (Eq A))", "{I32}", "(let x)", "(none)", "some", "(some _)", "bottom", "quasi", "^1", "[^1 %1]", "%1", "$a", "ref", "capture", "I8", "(Ptr I32)", "Option", "Result", "(Option)", "(Option I32 I32)"];

fn mutate(t: &mut Tape, forms: &mut Vec<Node>, pool: &[Item], wide: bool) -> bool {
    let n = total(forms);
    if n == 0 { return false; }
    let mut at = t.below(n as u64) as usize;
    let here = at;
    let donor = {
        let same = t.bool() || pool.is_empty();
        let mut l = if same { forms.clone() } else { pool[t.below(pool.len() as u64) as usize].forms.clone() };
        let m = total(&l);
        let mut k = t.below(m.max(1) as u64) as usize;
        with_node(&mut l, &mut k, &mut |l, k| l[k].clone())
    };
    let atom = (*t.pick(ATOMS)).to_string();
    let op = t.below(13);
    let x = t.below(1 << 16) as usize;
    let set = |n: &mut Node, s: &str| { let mut v = read(s); if let Some(first) = v.pop() { n.k = first.k; } };
    let r = with_node(forms, &mut at, &mut |l, k| {
        match op {
            0 | 1 => { l.remove(k); }
            2 => { let n = l[k].clone(); let m = if wide && x % 12 == 0 && size(&n) < 8 { 10 + x % 17 } else { 1 }; for _ in 0..m { l.insert(k, n.clone()); } }
            3 => { let j = x % l.len(); l.swap(j, k); }
            4 | 5 => if let Some(d) = &donor { if size(d) < 60 { l[k].k = d.k.clone(); } }
            6 | 7 => set(&mut l[k], &atom),
            8 => { let n = Node { glued: false, k: l[k].k.clone() }; l[k].k = K::List(['(', '[', '{'][x % 3], vec![n]); }
            9 => if let K::List(_, m) = l[k].k.clone() { l.splice(k..=k, m); },
            10 => if let K::List(c, _) = &mut l[k].k { *c = ['(', '[', '{'][x % 3]; } else { l[k].glued = !l[k].glued; },
            11 => { let mut n = Node { glued: x % 5 == 0, k: K::Atom(String::new()) }; set(&mut n, &atom); l.insert(k, n); }
            _ => if let K::List(_, m) = &mut l[k].k { let j = x % (m.len() + 1); m.truncate(j); },
        }
    });
    let _ = here;
    r.is_some()
}
fn mutate_text(t: &mut Tape, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..t.range(1, 3) {
        let at = t.below(v.len() as u64 + 1) as usize;
        let ch = *t.pick(&['(', ')', '[', ']', '{', '}', '"', '\'', '`', ',', '~', '@', '!', '?', '#', '\\', ';', '.', '|', '^', ':', '%', '0', 'x', '-', '+', '\n', ' ', '\t', '\r', '\0', 'é', '\u{1F600}', '\u{FEFF}', '\u{2028}', 'u', '{', 'e', '_', '*']);
        if t.bool() && at < v.len() { v.remove(at); } else { v.insert(at, ch); }
    }
    v.into_iter().collect()
}

// ------------------------------------------------------------------ errors

/// The places `path:l:c-l:c` in a message.
fn places(s: &str, path: &str) -> Vec<((usize, usize), (usize, usize))> {
    let mut o = vec![];
    let s = &s.replace("Parse failed: ", &format!("{}:", path)).replace("Lex failed: ", &format!("{}:", path));
    let pat = format!("{}:", path);
    for (i, _) in s.match_indices(&pat) {
        let rest: String = s[i + pat.len()..].chars().take_while(|c| c.is_ascii_digit() || *c == ':' || *c == '-').collect();
        let n: Vec<usize> = rest.split(|c| c == ':' || c == '-').filter_map(|x| x.parse().ok()).collect();
        if n.len() >= 4 { o.push(((n[0], n[1]), (n[2], n[3]))); } else if n.len() >= 2 { o.push(((n[0], n[1]), (n[0], n[1]))); }
    }
    o
}
fn within(p: &((usize, usize), (usize, usize)), text: &str) -> bool {
    let lines: Vec<usize> = text.split('\n').map(|l| l.len()).collect();
    let ok = |(l, c): (usize, usize)| l >= 1 && l <= lines.len() && c >= 1 && c <= lines[l - 1] + 2;
    ok(p.0) && ok(p.1) && p.0 <= p.1
}

fn pick_item<'a>(t: &mut Tape, v: &'a [Item]) -> Vec<Node> {
    let mut f = v[t.below(v.len() as u64) as usize].forms.clone();
    // a long module gives a stretch of its forms, with its head
    if f.len() > 40 {
        let head: Vec<Node> = f.iter().filter(|n| matches!(&n.k, K::List(_, l) if matches!(l.first(), Some(Node { k: K::Atom(a), .. }) if a == "import" || a == "no-implicit-std"))).cloned().collect();
        let n = t.range(5, 40);
        let at = t.below((f.len() - n + 1) as u64) as usize;
        let part: Vec<Node> = f[at..at + n].to_vec();
        f = head;
        f.extend(part);
    }
    f
}

/// Faults of one line, each of which makes any module wrong.
fn faults(std: bool) -> Vec<&'static str> {
    let mut v = vec![
        "(function (zz-f a) zz-unbound)", "(function (zz-f a) (zz-unbound a 1))", "(function (zz-f a) (begin \"é😀\" zz-unbound))", "(function (zz-f) {I32} \"text\")", "(function zz-v {ZZUnbound} zz-v)", "(if)",
        "(match #t [#t unit])", "(zz-unbound 1 2)", "(data ZZ (zz1 ZZUnbound))", "(begin zz-unbound)", "(function zz-u (let ([(f x) x]) (f 1 2)))", "(function (zz-f x) (match x [(zz-con _) x]))",
        "(class (ZZ A) (function (zz-m a) {(-> A ZZUnbound)}))", "(instance ZZ.I32 (ZZUnbound I32))", "(function (zz-f {I32} a) a)", "(function)", "(data)", "(1 2)", "(function (zz-f) {(forall A) (-> A A)} 1)",
        "(function (zz-f a) {(forall A) (-> A I32)} a)", "(match \"s\" [\"a\" 1] [\"b\" 2])", "(if \"s\" 1 2)", "(while 1 2)", "(function (zz-f) {(-> (Option I32 I32))} (zz-f))", "(set-zz! 1)", "(zz-a . zz-b)", "(function (zz-f a) (let ([b zz-unbound]) a))", "(export zz-unbound)",
    ];
    if std {
        v.extend(["(cond [])", "(let* ([x y z]) x)", "(s/match)", "(for)", "(lambda)", "(println! zz-unbound)", "(string zz-unbound)", "(when zz-unbound 1)", "(let1)", "(println! (+ 1 \"s\"))", "(function (zz-f a) (zz-unbound a)!)", "(derive (zz-unbound) data ZZ zz1)", "(derive Eq data ZZ zz1)", "`(a ,zz-unbound)", "(xs/for 1)", "[^1 zz-unbound]"]);
    }
    v
}

/// In this process, without std: the front end as far as types and matches.
fn front_case(t: &mut Tape, out: &mut Out) -> Case {
    CORPUS.with(|c| {
        let mut c = c.borrow_mut();
        let (plain, rich) = &*c.get_or_insert_with(corpus);
        let mut forms = pick_item(t, plain);
        let mode = t.below(8);
        let mut text;
        if mode < 5 {
            for _ in 0..t.range(1, 6) { let pool = if t.chance(1, 12) { rich } else { plain }; mutate(t, &mut forms, pool, true); }
            if mentions(&forms, &|a| a.contains("macro")) || depth(&forms) > 60 || total(&forms) > 4000 { return Ok(()); }
            if !mentions(&forms, &|a| a == "no-implicit-std") { return Ok(()); }
            text = show(&forms);
            if t.chance(1, 5) { text = mutate_text(t, &text); }
        } else {
            text = show(&forms);
        }
        // a fault, or a name that is not bound in the place of an atom
        let mut expected: Option<(usize, usize, usize, String)> = None;
        if mode >= 5 {
            if !front1(&text).ok() { return Ok(()); }
            let pad = *t.pick(&[0usize, 1, 3, 17]);
            if mode == 7 {
                let fs = faults(false);
                let f = (*t.pick(&fs)).to_string();
                let at = t.range(2, forms.len());
                let mut lines: Vec<String> = (0..pad).map(|_| "; é \u{1F600} (".to_string()).collect();
                lines.extend(forms[..at].iter().map(show_form));
                expected = Some((lines.len() + 1, 1, f.len() + 1, f.clone()));
                lines.push(f);
                lines.extend(forms[at..].iter().map(show_form));
                text = lines.join("\n");
            } else {
                let n = total(&forms);
                let mut at = t.below(n as u64) as usize;
                let marked = with_node(&mut forms, &mut at, &mut |l, k| { let a = match &l[k].k { K::Atom(_) => true, _ => false }; if a && !l[k].glued && l.get(k + 1).map_or(true, |n| !n.glued) { l[k].k = K::Atom("zz-unbound".into()); true } else { false } });
                if marked != Some(true) { return Ok(()); }
                let mut lines: Vec<String> = (0..pad).map(|_| "; é \u{1F600} (".to_string()).collect();
                lines.extend(forms.iter().map(show_form));
                let l = lines.iter().position(|x| x.contains("zz-unbound")).unwrap();
                let c = lines[l].find("zz-unbound").unwrap();
                expected = Some((l + 1, c + 1, c + 1 + 10, String::new()));
                text = lines.join("\n");
            }
        }
        out.evals += 1;
        out.desc = text.clone();
        out.subs.push(text.clone());
        let f = match std::panic::catch_unwind(|| front1(&text)) {
            Ok(f) => f,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return fail(crash_sig(&m), format!("panics: {}\n{}", m, text));
            }
        };
        out.classes.push(if !f.src.is_empty() { "rejected as source" } else if !f.errors.is_empty() { "rejected" } else if f.cycle.is_some() { "cyclic imports" } else { "accepted" });
        let msgs: Vec<String> = f.src.iter().map(|x| format!("{}: {}", x.0, x.1)).chain(f.texts.iter().cloned()).collect();
        for m in &msgs {
            let ps = places(m, "~");
            if ps.iter().any(|p| !within(p, &text)) { return fail("place-outside", format!("{}\nhas no such place\n{}", m, text)); }
            if ps.is_empty() && !placeless(m) { return fail("no-place", format!("{}\n{}", m, text)); }
        }
        if let Some((line, a, b, what)) = expected {
            let judged = !what.is_empty() || msgs.iter().any(|m| m.contains("Unresolved") && m.contains("zz-unbound"));
            if !what.is_empty() && f.ok() { return fail("fault-accepted", format!("{}\nis accepted in\n{}", what, text)); }
            if judged {
                out.classes.push(if what.is_empty() { "unbound name placed" } else { "fault placed" });
                for m in &msgs {
                    let ps = places(m, "~");
                    let good = if what.is_empty() { ps.contains(&((line, a), (line, b))) } else { ps.iter().any(|p| p.0 .0 == line && p.1 .0 == line && p.0 .1 >= a && p.1 .1 <= b) };
                    if !good { return fail("wrong-place", format!("{}\nis reported where the fault is at {}:{}-{}:{} of\n{}", m, line, a, line, b, text)); }
                }
            }
        }
        Ok(())
    })
}
/// Errors that concern a module as a whole.
fn placeless(m: &str) -> bool { m.contains("not found") || m.contains("Invalid import path") || m.contains("Method type scheme mismatch") }

// ------------------------------------------------------------------ batches of modules, compiled as a whole

struct Mod { name: String, text: String, fault: Option<(usize, usize, String)> }

fn crashed(r: &cli::Ran) -> Option<String> {
    let b = r.both();
    if r.timeout { return Some("does not end".into()); }
    if r.code < 0 { return Some(format!("dies by signal {}", -r.code)); }
    if r.code == 101 || b.contains("panicked at") || b.contains("overflowed its stack") { return Some("panics".into()); }
    if r.code != 0 && b.trim().is_empty() { return Some("fails without a message".into()); }
    None
}
/// The functions and tuples of more than 16 parts, of which the compilers have none, are told apart: see the known findings.
fn crash_sig(m: &str) -> &'static str { if m.contains("Unsupported fun arity") || m.contains("Unsupported tuple size") { "variadic-limit" } else { "crash" } }
fn short(r: &cli::Ran) -> String { r.both().lines().filter(|l| !l.trim().is_empty()).take(8).map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>().join("\n") }

fn batch_case(t: &mut Tape, out: &mut Out) -> Case {
    CORPUS.with(|c| {
        let mut c = c.borrow_mut();
        let (plain, rich) = &*c.get_or_insert_with(corpus);
        let cf = cli::configs();
        let cf = &cf[t.below(cf.len() as u64) as usize];
        let mut mods: Vec<Mod> = vec![];
        for k in 0..t.range(1, 24) {
            let fault = t.chance(1, 3);
            let mut forms = if fault {
                let good: Vec<usize> = (0..rich.len()).filter(|k| rich[*k].good).collect();
                if good.is_empty() { continue; }
                rich[*t.pick(&good)].forms.clone()
            } else {
                let from = if t.chance(1, 6) { plain } else { rich };
                pick_item(t, from)
            };
            if !fault { let n = if t.bool() { 1 } else { t.range(1, 4) }; for _ in 0..n { mutate(t, &mut forms, rich, false); } }
            // macros of their own may run forever, and functions of C may not be there
            if mentions(&forms, &|a| a == "macro" || a.contains("c-function") || a.starts_with("builtin-") || a == "transparent" || a.starts_with("\"~")) || depth(&forms) > 60 || total(&forms) > 6000 { continue; }
            let mut m = Mod { name: format!("m{}", k), text: show(&forms), fault: None };
            if fault {
                let std = !mentions(&forms, &|a| a == "no-implicit-std");
                let fs = faults(std);
                let f = (*t.pick(&fs)).to_string();
                let pad = *t.pick(&[0usize, 1, 3, 17]);
                let at = t.range(0, forms.len());
                let mut lines: Vec<String> = (0..pad).map(|_| "; é \u{1F600} (".to_string()).collect();
                lines.extend(forms[..at].iter().map(show_form));
                m.fault = Some((lines.len() + 1, f.len() + 1, f.clone()));
                lines.push(f);
                lines.extend(forms[at..].iter().map(show_form));
                m.text = lines.join("\n");
            }
            mods.push(m);
        }
        let dir = Scratch::new();
        let world = |ms: &[&Mod]| -> Scratch { let s = Scratch::new(); for m in ms { s.write(&format!("cur/{}.llrl", m.name), m.text.as_bytes()); } s.write("cur/llrl-world", b""); s };
        let compile = |ms: &[&Mod]| -> (cli::Ran, Scratch) {
            let s = world(ms);
            let mut a = cf.flags.clone();
            a.push("-o".into());
            a.push(s.path("exe"));
            a.extend(ms.iter().map(|m| m.name.clone()));
            let cmd = format!("ulimit -v 12000000; exec \"$0\" \"$@\"");
            let mut b = vec!["-c".to_string(), cmd, cf.compiler.clone()];
            b.extend(a);
            (cli::run("/bin/sh", &b, &s.0.join("cur"), b"", 150, &[]), s)
        };
        drop(dir);
        // compiles a set, and where that crashes finds a single module that does, if there is one
        let blame = |ms: &[&Mod], r: &cli::Ran, why: &str| -> String {
            let mut set: Vec<&Mod> = ms.to_vec();
            let mut r = r.clone();
            while set.len() > 1 {
                let (a, b) = set.split_at(set.len() / 2);
                let (ra, _) = compile(a);
                if crashed(&ra).is_some() { set = a.to_vec(); r = ra; continue; }
                let (rb, _) = compile(b);
                if crashed(&rb).is_some() { set = b.to_vec(); r = rb; continue; }
                break;
            }
            format!("[{}] {}: {}\n{}", cf.name, why, short(&r), set.iter().take(2).map(|m| format!("; module {}\n{}", m.name, m.text)).collect::<Vec<_>>().join("\n"))
        };
        let mut left: Vec<&Mod> = mods.iter().collect();
        let mut round = 0;
        while !left.is_empty() {
            round += 1;
            if round > 4 { return fail("no-end-of-errors", format!("[{}] modules that were reported as the only wrong ones leave others wrong\n{}", cf.name, left.iter().map(|m| format!("; module {}\n{}", m.name, m.text)).collect::<Vec<_>>().join("\n"))); }
            let (r, _s) = compile(&left);
            if let Some(w) = crashed(&r) { let sig = crash_sig(&r.both()); return fail(sig, if sig == "crash" { blame(&left, &r, &w) } else { short(&r) }); }
            out.evals += left.len() as u64;
            if r.code == 0 {
                for m in &left {
                    out.classes.push("accepted and compiled");
                    if let Some((_, _, f)) = &m.fault { return fail("fault-accepted", format!("[{}] {}\nis accepted in\n{}", cf.name, f, m.text)); }
                    out.subs.push(m.text.clone());
                }
                break;
            }
            let b = r.both();
            let lines: Vec<&str> = b.lines().collect();
            let mut rest = vec![];
            let mut any = false;
            for m in &left {
                let path = format!("~/{}", m.name);
                let own: Vec<&&str> = lines.iter().filter(|l| { let tail = format!("(while building {})", path); l.contains(&tail) || l.match_indices(&path).any(|(i, _)| !l[i + path.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '-')) }).collect();
                if own.is_empty() { rest.push(*m); continue; }
                any = true;
                out.classes.push("rejected with a place");
                out.subs.push(m.text.clone());
                let ps: Vec<_> = own.iter().flat_map(|l| places(l, &path)).collect();
                if ps.iter().any(|p| !within(p, &m.text)) { return fail("place-outside", format!("[{}] {:?}\nhas no such place\n{}", cf.name, own, m.text)); }
                // what a macro put in names the macro's own source
                if ps.is_empty() && !own.iter().all(|l| placeless(l) || l.starts_with("std/")) { return fail("no-place", format!("[{}] {:?}\n{}", cf.name, own, m.text)); }
                if let (Some((line, end, f)), false) = (&m.fault, ps.is_empty()) {
                    out.classes.push("fault placed");
                    if !ps.iter().any(|p| p.0 .0 == *line && p.1 .0 == *line && p.1 .1 <= *end) { return fail("wrong-place", format!("[{}] {:?}\nis reported where the fault is line {}, {}, of\n{}", cf.name, own, line, f, m.text)); }
                }
            }
            // modules that are not there stop the rest from being read
            let missing: Vec<String> = lines.iter().filter(|l| l.contains(" not found")).map(|l| format!("\"{}\"", l.split(": ").next().unwrap_or(""))).collect();
            if !missing.is_empty() { let n = rest.len(); rest.retain(|m| !missing.iter().any(|x| m.text.contains(x.as_str()) || x.contains(|c: char| !c.is_ascii_graphic() || c == '\\') && m.text.contains('\\'))); any |= rest.len() < n; }
            if !any { return fail("unnamed", format!("[{}] fails, but names none of its modules: {}\n{}", cf.name, short(&r), left.iter().map(|m| format!("; module {}\n{}", m.name, m.text)).collect::<Vec<_>>().join("\n"))); }
            left = rest;
        }
        out.desc = mods.iter().map(|m| format!("; module {}\n{}", m.name, m.text)).collect::<Vec<_>>().join("\n");
        Ok(())
    })
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    if std::env::var("VH_PART").as_deref() == Ok("front") { front_case(t, out) } else { batch_case(t, out) }
}
fn main() { main_with("c23", &case) }
