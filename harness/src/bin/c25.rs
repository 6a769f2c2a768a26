//! C25: processes a program starts, its arguments, environment, exit status and standard streams.
use std::io::{Read, Write};
use vharness::cli::{self, Scratch};
use vharness::{drv, fail, main_with, Case, Out, Tape};

// --- the program that is started: runs the steps in its first argument

static mut SIGPIPE_DEFAULT: bool = false;
extern "C" fn early() {
    extern "C" { fn sigaction(s: i32, a: *const u8, o: *mut usize) -> i32; }
    let mut o = [0usize; 64];
    unsafe { sigaction(13, std::ptr::null(), o.as_mut_ptr()); SIGPIPE_DEFAULT = o[0] == 0; }
}
#[link_section = ".init_array"]
#[used]
static EARLY: extern "C" fn() = early;

fn pattern(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|k| (7 * k + seed + k / 251) as u8).collect() }
fn digest(b: &[u8]) -> String { format!("{}:{}", b.len(), b.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))) }
fn hex(s: &[u8]) -> String { s.iter().map(|b| format!("{:02x}", b)).collect() }
fn said(args: &[String]) -> String { args.iter().map(|a| hex(a.as_bytes()) + ";").collect() }

fn kid() -> ! {
    use std::os::unix::ffi::OsStringExt;
    extern "C" { fn kill(p: i32, s: i32) -> i32; fn getpid() -> i32; fn close(fd: i32) -> i32; fn _exit(c: i32) -> !; fn signal(s: i32, h: usize) -> usize; }
    let args: Vec<Vec<u8>> = std::env::args_os().map(|a| a.into_vec()).collect();
    let script = String::from_utf8(args[1].clone()).unwrap();
    let (mut o, mut e, mut i) = (std::fs::File::from(fd(1)), std::fs::File::from(fd(2)), std::fs::File::from(fd(0)));
    fn fd(n: i32) -> std::os::fd::OwnedFd { use std::os::fd::FromRawFd; unsafe { std::os::fd::OwnedFd::from_raw_fd(n) } }
    let mut mem: Vec<u8> = vec![];
    for step in script.split(',') {
        let (k, rest) = step.split_at(1);
        let ns: Vec<usize> = rest.split('.').filter_map(|x| x.parse().ok()).collect();
        match k {
            "A" => { let mut s: String = args[2..].iter().map(|a| hex(a) + ";").collect(); s.push_str(&hex(&args[0])); o.write_all(s.as_bytes()).unwrap() }
            "N" => o.write_all(b"\n").unwrap(),
            "S" => o.write_all(unsafe { if SIGPIPE_DEFAULT { b"default" } else { b"ignored" } }).unwrap(),
            "L" => {
                let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|x| std::fs::read_link(x.unwrap().path()).ok().map(|t| t.to_string_lossy().into_owned()).filter(|t| t.starts_with("pipe:"))).collect();
                v.sort();
                let own: Vec<String> = (0..3).filter_map(|n| std::fs::read_link(format!("/proc/self/fd/{}", n)).ok().map(|t| t.to_string_lossy().into_owned())).collect();
                v.retain(|x| !own.contains(x));
                o.write_all(format!("{}", v.len()).as_bytes()).unwrap()
            }
            "V" => { let v = std::env::var_os(std::str::from_utf8(&args[2]).unwrap()).map(|x| x.into_vec()); o.write_all(v.map_or("-".into(), |v| hex(&v)).as_bytes()).unwrap() }
            "P" => o.write_all(unsafe { getpid() }.to_string().as_bytes()).unwrap(),
            "O" => o.write_all(&pattern(ns[0], ns[1])).unwrap(),
            "F" => e.write_all(&pattern(ns[0], ns[1])).unwrap(),
            "R" => { i.read_to_end(&mut mem).unwrap(); }
            "W" => o.write_all(&mem.iter().map(|b| b.wrapping_add(1)).collect::<Vec<_>>()).unwrap(),
            "H" => o.write_all(digest(&mem).as_bytes()).unwrap(),
            "B" => { let mut b = vec![0; ns[0]]; i.read_exact(&mut b).unwrap(); b.iter_mut().for_each(|x| *x = x.wrapping_add(1)); o.write_all(&b).unwrap() }
            "C" => { let mut b = [0; 777]; loop { let n = i.read(&mut b).unwrap(); if n == 0 { break; } o.write_all(&b[..n]).unwrap() } }
            "Z" => unsafe { close(0); },
            "X" => unsafe { _exit(ns[0] as i32) },
            "K" => unsafe { signal(ns[0] as i32, 0); kill(getpid(), ns[0] as i32); loop { std::thread::sleep(std::time::Duration::from_secs(1)) } },
            _ => panic!("step {}", step),
        }
    }
    unsafe { _exit(0) }
}

// --- histories

#[derive(Default)]
struct Hist { toks: Vec<u64>, show: Vec<String>, out: String, err: String, nt: u32, code: i32 }

fn put_s(tk: &mut Vec<u64>, s: &str) { tk.push(s.chars().count() as u64); tk.extend(s.chars().map(|c| c as u64)); }
fn put_v(tk: &mut Vec<u64>, v: &[String]) { tk.push(v.len() as u64); for s in v { put_s(tk, s); } }
fn put_b(tk: &mut Vec<u64>, b: &[u8]) { tk.push(b.len() as u64); tk.extend(b.iter().map(|x| *x as u64)); }

fn text(t: &mut Tape) -> String {
    let n = if t.chance(1, 30) { t.range(500, 6000) } else { t.below(9) as usize };
    let c = ['a', ' ', '"', '\'', '\\', '$', '*', ';', '&', '|', '\n', '\t', '-', '=', '/', 'é', '漢', '😀', '\u{1}', '%', '~', '0'];
    (0..n).map(|_| *t.pick(&c)).collect()
}
fn texts(t: &mut Tape) -> Vec<String> {
    let n = if t.chance(1, 25) { t.range(20, 300) } else { t.below(6) as usize };
    (0..n).map(|_| text(t)).collect()
}
fn ends(t: &mut Tape) -> (String, String) {
    match t.below(4) {
        0 => (String::new(), "some 0".into()),
        1 => { let k = *t.pick(&[9, 15, 6, 11, 13, 1, 2]); (format!(",K{}", k), "none".into()) }
        _ => { let c = *t.pick(&[0, 1, 2, 3, 42, 127, 128, 200, 254, 255]); (format!(",X{}", c), format!("some {}", c)) }
    }
}
struct World { pipes: String, dir: String, kids: Vec<String>, env: Vec<(String, String)> }
/// A step: its tokens (without the slot where there is one), how it reads, the line it prints.
type Step = (u64, Vec<u64>, String, String);

fn name(t: &mut Tape, w: &World) -> String {
    let k = t.pick(&w.kids).clone();
    if t.chance(1, 3) { k } else { format!("{}/{}", w.dir, k) }
}
/// Programs that cannot be started.
fn wrong(t: &mut Tape, w: &World) -> (String, &'static str) {
    match t.below(6) {
        0 => (format!("{}/none", w.dir), "err Not found"),
        1 => ("vh-no-such-program".into(), "err Not found"),
        2 => (format!("{}/plain", w.dir), "err Permission denied"),
        3 => (w.dir.clone(), "err Permission denied"),
        4 => (format!("{}/plain/x", w.dir), "err Other"),
        _ => (String::new(), "err Not found"),
    }
}

/// What is done with one process, in order.
fn life(t: &mut Tape, w: &World, h: &mut Hist, classes: &mut Vec<&'static str>) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    let nm = name(t, w);
    let (end, status) = ends(t);
    let spawn = |v: &mut Vec<Step>, script: String, extra: &[String]| {
        let mut tk = vec![];
        put_s(&mut tk, &nm);
        let mut a = vec![script];
        a.extend_from_slice(extra);
        put_v(&mut tk, &a);
        v.push((1, tk, format!("spawn {:?} {:?}", nm, a.iter().map(|s| s.chars().take(40).collect::<String>()).collect::<Vec<_>>()), "ok".into()));
    };
    let wait: Step = (8, vec![], "wait".into(), status);
    let out = |b: &[u8]| -> Step { (5, vec![], "read out".into(), format!("ok {}", digest(b))) };
    let err = |b: &[u8]| -> Step { (6, vec![], "read err".into(), format!("ok {}", digest(b))) };
    let close: Step = (4, vec![], "close in".into(), "ok ".into());
    h.nt += 1;
    match t.below(7) {
        0 => {
            classes.push("arguments");
            let a = texts(t);
            spawn(&mut v, format!("A{}", end), &a);
            let text = said(&a) + &hex(nm.as_bytes());
            let o = out(text.as_bytes());
            // what does not fit in the pipe has to be read before the process can end
            if t.bool() || text.len() > 60000 { v.push(o); v.push(wait) } else { v.push(wait); v.push(o) }
        }
        1 => {
            classes.push("outputs");
            let (n, m) = (if t.chance(1, 3) { t.range(60000, 200000) } else { t.range(0, 9000) }, if t.chance(1, 4) { t.range(0, 60000) } else { t.range(0, 300) });
            let (s, u) = (t.below(256) as usize, t.below(256) as usize);
            spawn(&mut v, if t.bool() { format!("O{}.{},F{}.{}{}", n, s, m, u, end) } else { format!("F{}.{},O{}.{}{}", m, u, n, s, end) }, &[]);
            let p = pattern(n, s);
            if t.chance(1, 3) && n > 0 {
                let k = t.range(0, n);
                v.push((7, vec![k as u64], format!("read {} of out", k), format!("ok {}", digest(&p[..k]))));
                v.push(out(&p[k..]));
            } else if t.chance(1, 4) && n < 60000 {
                v.push((7, vec![n as u64 + 1], format!("read {} of out", n + 1), "err Unexpected EOF".into()));
            } else { v.push(out(&p)); }
            v.push(err(&pattern(m, u)));
            let k = if n < 60000 { t.range(1, v.len()) } else { v.len() };
            v.insert(k, wait);
        }
        2 => {
            classes.push("filter");
            let total = t.range(0, 4);
            let hash = t.bool();
            spawn(&mut v, format!("R,{}{}", if hash { "H" } else { "W" }, end), &[]);
            let mut data = vec![];
            for _ in 0..total {
                if t.bool() {
                    let (n, s) = (if t.chance(1, 3) { t.range(4000, 150000) } else { t.range(0, 500) }, t.below(256) as usize);
                    data.extend(pattern(n, s));
                    v.push((20, vec![n as u64, s as u64], format!("write {} bytes", n), "ok ".into()));
                } else {
                    let b: Vec<u8> = (0..t.range(0, 12)).map(|_| t.below(256) as u8).collect();
                    let mut tk = vec![];
                    put_b(&mut tk, &b);
                    data.extend(&b);
                    v.push((2, tk, format!("write {:?}", b), "ok ".into()));
                }
                if t.chance(1, 3) { v.push((3, vec![], "flush".into(), "ok ".into())); }
            }
            let got: Vec<u8> = if hash { digest(&data).into_bytes() } else { data.iter().map(|b| b.wrapping_add(1)).collect() };
            if got.len() < 60000 && t.bool() { v.push(wait); v.push(out(&got)); } else { v.push(close); v.push(out(&got)); v.push(wait); }
        }
        3 => {
            classes.push("conversation");
            let n = t.range(1, 5);
            let sizes: Vec<usize> = (0..n).map(|_| if t.chance(1, 4) { t.range(4000, 9000) } else { t.range(1, 40) }).collect();
            spawn(&mut v, sizes.iter().map(|k| format!("B{},", k)).collect::<String>() + "N" + &end, &[]);
            for k in sizes {
                let s = t.below(256) as usize;
                v.push((20, vec![k as u64, s as u64], format!("write {} bytes", k), "ok ".into()));
                v.push((3, vec![], "flush".into(), "ok ".into()));
                v.push((7, vec![k as u64], format!("read {} of out", k), format!("ok {}", digest(&pattern(k, s).iter().map(|b| b.wrapping_add(1)).collect::<Vec<_>>()))));
            }
            v.push(out(b"\n"));
            v.push(wait);
        }
        4 => {
            classes.push("broken pipe");
            spawn(&mut v, format!("Z,N{}", end), &[]);
            v.push((7, vec![1], "read 1 of out".into(), format!("ok {}", digest(b"\n"))));
            let k = t.range(1, 900) as u64;
            v.push((20, vec![k, 3], format!("write {} bytes", k), "ok ".into()));
            v.push((3, vec![], "flush".into(), "err Broken pipe".into()));
            v.push(wait);
        }
        5 => {
            classes.push("surroundings");
            match t.below(4) {
                0 => { spawn(&mut v, format!("S{}", end), &[]); v.push(out(b"default")); }
                1 => { spawn(&mut v, format!("L{}", end), &[]); v.push(out(w.pipes.as_bytes())); }
                2 => { spawn(&mut v, format!("P{}", end), &[]); v.push((13, vec![], "out is the pid".into(), "ok T".into())); }
                _ => {
                    let (k, val) = if w.env.is_empty() || t.chance(1, 3) { ("VH_UNSET".to_string(), "-".to_string()) } else { let e = t.pick(&w.env); (e.0.clone(), hex(e.1.as_bytes())) };
                    spawn(&mut v, format!("V{}", end), &[k]);
                    v.push(out(val.as_bytes()));
                }
            }
            v.push(wait);
        }
        _ => {
            classes.push("stream");
            let (n, s) = (if t.chance(1, 3) { t.range(4000, 60000) } else { t.range(0, 500) }, t.below(256) as usize);
            spawn(&mut v, format!("C{}", end), &[]);
            v.push((20, vec![n as u64, s as u64], format!("write {} bytes", n), "ok ".into()));
            v.push(close);
            v.push(out(&pattern(n, s)));
            v.push(wait);
        }
    }
    if t.chance(1, 3) { v.push((21, vec![], "close".into(), "-".into())); }
    v
}

fn history(t: &mut Tape, w: &World, args: &[String], out: &mut Out) -> Hist {
    let mut h = Hist::default();
    // the text printed that is not yet in the output is of no concern: a process that prints comes after a flush
    let mut live: Vec<Option<std::collections::VecDeque<Step>>> = vec![None, None, None, None];
    let mut budget = t.range(1, 14);
    loop {
        let busy = live.iter().any(|l| l.is_some());
        if budget == 0 && !busy { break; }
        if busy && (budget == 0 || t.chance(2, 3)) {
            let slots: Vec<usize> = (0..4).filter(|k| live[*k].is_some()).collect();
            let k = *t.pick(&slots);
            let l = live[k].as_mut().unwrap();
            let (op, tk, show, line) = l.pop_front().unwrap();
            h.toks.push(op);
            h.toks.push(k as u64);
            h.toks.extend(tk);
            h.show.push(format!("process {}: {} -> {}", k, show, line));
            h.out.push_str(&line);
            h.out.push('\n');
            if l.is_empty() { live[k] = None; }
            continue;
        }
        budget -= 1;
        let say = |h: &mut Hist, s: String, line: String| { h.show.push(format!("{} -> {}", s, line)); h.out.push_str(&line); h.out.push('\n'); };
        match t.below(14) {
            0..=4 => {
                if let Some(k) = (0..4).find(|k| live[*k].is_none()) { live[k] = Some(life(t, w, &mut h, &mut out.classes).into()); }
            }
            5 | 6 => {
                let (nm, e) = wrong(t, w);
                let a = texts(t);
                h.nt += 1;
                out.classes.push("cannot be started");
                if t.bool() {
                    h.toks.extend([1, 0]);
                    // no process takes the slot
                } else { h.toks.push(9); }
                let kind = if h.toks[h.toks.len() - 1] == 9 { "execute" } else { "spawn" };
                put_s(&mut h.toks, &nm);
                put_v(&mut h.toks, &a);
                say(&mut h, format!("{} {:?}", kind, nm), e.into());
            }
            7 | 8 => {
                let nm = name(t, w);
                let (end, status) = ends(t);
                let a = texts(t);
                // what it prints comes where the standard output then is
                let prints = t.bool();
                if prints { h.toks.push(14); h.show.push("flush".into()); }
                h.toks.push(9);
                put_s(&mut h.toks, &nm);
                h.nt += 1;
                out.classes.push("executed");
                let mut argv = vec![format!("{}{}", if prints { "A,N" } else { "V" }, end)];
                if !prints { argv[0] = if end.is_empty() { "X0".into() } else { end[1..].to_string() }; }
                if prints { h.out.push_str(&(said(&a) + &hex(nm.as_bytes()) + "\n")); }
                argv.extend(a);
                put_v(&mut h.toks, &argv);
                say(&mut h, format!("execute {:?} {:?}", nm, argv[0]), format!("ok {}", status));
            }
            9 => {
                let (k, v) = match t.below(4) {
                    0 => ("VH_UNSET".to_string(), None),
                    1 => (String::new(), None),
                    _ if w.env.is_empty() => ("HOME2".to_string(), None),
                    _ => { let e = t.pick(&w.env); (e.0.clone(), Some(e.1.clone())) }
                };
                h.toks.push(10);
                put_s(&mut h.toks, &k);
                out.classes.push("environment");
                say(&mut h, format!("getenv {}", k), v.map_or("none".into(), |v| format!("some {}", v.bytes().map(|b| format!("{},", b)).collect::<String>())));
            }
            10 => {
                h.toks.push(11);
                let l: String = args.iter().map(|a| a.bytes().map(|b| format!("{},", b)).collect::<String>() + ";").collect();
                out.classes.push("own arguments");
                say(&mut h, "args".into(), l);
            }
            11 => {
                if t.bool() { let n = *t.pick(&[16, 31, 64, 255, 256, 257, 300, 1000, 5000]); h.toks.extend([12, n]); say(&mut h, format!("random {}", n), "TF".into()); }
                else { let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs(); h.toks.extend([19, now]); say(&mut h, "time".into(), "T".into()); }
            }
            12 => {
                let s = text(t);
                let e = t.bool();
                h.toks.push(if e { 16 } else { 15 });
                put_s(&mut h.toks, &s);
                h.show.push(format!("{} {:?}", if e { "eprint" } else { "print" }, s.chars().take(60).collect::<String>()));
                if e { h.err.push_str(&s) } else { h.out.push_str(&s) }
            }
            _ => {
                let nm = name(t, w);
                let b: Vec<u8> = (0..t.range(0, 40)).map(|_| t.below(256) as u8).collect();
                h.toks.push(18);
                let (nm, line) = if t.chance(1, 4) { let (n, e) = wrong(t, w); (n, e.to_string()) } else { (nm, format!("ok {}", digest(&b.iter().map(|x| x.wrapping_add(1)).collect::<Vec<_>>()))) };
                put_s(&mut h.toks, &nm);
                put_v(&mut h.toks, &["R,W".to_string()]);
                put_b(&mut h.toks, &b);
                h.nt += 1;
                say(&mut h, format!("with-process {:?} {:?}", nm, b), line);
            }
        }
    }
    if t.chance(1, 3) {
        let c = *t.pick(&[0i64, 1, 2, 3, 77, 127, 128, 255, 256, 257, -1, -256]);
        h.toks.extend([17, c as u64]);
        h.show.push(format!("exit {}", c));
        h.code = (c & 255) as i32;
    } else {
        h.toks.push(0);
        h.out.push_str(".\n");
    }
    h
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let sc = Scratch::new();
    let dir = sc.0.canonicalize().unwrap().to_str().unwrap().to_string();
    let me = std::env::current_exe().unwrap();
    let kids = vec!["vh-kid".to_string(), "vh-kid two".into(), "vh-kid-é".into()];
    for k in &kids { std::os::unix::fs::symlink(&me, sc.0.join(k)).unwrap(); }
    sc.write("plain", b"not a program");
    // pipes that whoever runs this left open to everyone
    let pipes = cli::run(&sc.path("vh-kid"), &["L".to_string()], &sc.0, b"", 30, &[]).text();
    let mut env = vec![];
    for k in 0..t.below(4) { env.push((format!("VH_E{}", k), text(t))); }
    let w = World { pipes, dir: dir.clone(), kids, env };
    let args: Vec<String> = texts(t);
    let h = history(t, &w, &args, out);
    let path = format!("{}:/usr/bin:/bin", dir);
    let mut envs: Vec<(&str, &str)> = w.env.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    envs.push(("PATH", &path));
    let tx: String = h.toks.iter().map(|x| if (*x as i64) < 0 { format!("{} ", x) } else { format!("{} ", x) }).collect();
    out.evals += 1;
    let desc = format!("arguments {:?}, environment {:?}\n  {}", args.iter().map(|s| s.chars().take(30).collect::<String>()).collect::<Vec<_>>(), w.env.iter().map(|e| (e.0.clone(), e.1.chars().take(30).collect::<String>())).collect::<Vec<_>>(), h.show.join("\n  "));
    out.desc = desc.clone().replace(&dir, "DIR");
    if h.nt >= 2 { out.subs.push(out.desc.clone()); }
    let r = cli::run(&drv::exe(), &args, &sc.0, tx.as_bytes(), 60, &envs);
    let clip = |s: &str| -> String { s.chars().take(1500).collect() };
    if r.timeout { return fail("hang", format!("does not end within 60 s\n{}", clip(&desc))); }
    let got = r.text();
    if got != h.out {
        let (a, b): (Vec<&str>, Vec<&str>) = (h.out.split('\n').collect(), got.split('\n').collect());
        let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        let sig = if a.len() > b.len() { "stopped" } else { "output" };
        return fail(sig, format!("{}, {}: line {} is `{}` where it should be `{}`, of\n{}", cli::how(&r), clip(&String::from_utf8_lossy(&r.err)), k + 1, clip(b.get(k).unwrap_or(&"<end>")), clip(a.get(k).unwrap_or(&"<end>")), clip(&desc)));
    }
    if r.code != h.code { return fail("exit", format!("{} where it should exit with {}, after\n{}", cli::how(&r), h.code, clip(&desc))); }
    if String::from_utf8_lossy(&r.err) != h.err.as_str() { return fail("stderr", format!("standard error is {:?} and should be {:?}, after\n{}", clip(&String::from_utf8_lossy(&r.err)), clip(&h.err), clip(&desc))); }
    Ok(())
}

fn main() {
    if std::env::args_os().next().map_or(false, |a| a.to_string_lossy().contains("vh-kid")) { kid() }
    main_with("c25", &case)
}
