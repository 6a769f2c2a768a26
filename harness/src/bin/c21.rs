//! C21: files, directories and paths, against C's own library on a twin tree and a definition of paths.
use std::ffi::{c_char, c_int, c_void, CString};
use std::path::{Path, PathBuf};
use vharness::cli::Scratch;
use vharness::drv::{self, Hist};
use vharness::{fail, main_with, Case, Out, Tape};

extern "C" {
    fn fopen(p: *const c_char, m: *const c_char) -> *mut c_void;
    fn fread(b: *mut u8, s: usize, n: usize, f: *mut c_void) -> usize;
    fn fwrite(b: *const u8, s: usize, n: usize, f: *mut c_void) -> usize;
    fn fclose(f: *mut c_void) -> c_int;
    fn fflush(f: *mut c_void) -> c_int;
    fn feof(f: *mut c_void) -> c_int;
    fn ferror(f: *mut c_void) -> c_int;
    fn remove(p: *const c_char) -> c_int;
    fn mkdir(p: *const c_char, m: u32) -> c_int;
    fn rmdir(p: *const c_char) -> c_int;
    fn opendir(p: *const c_char) -> *mut c_void;
    fn closedir(p: *mut c_void) -> c_int;
}

fn kind(e: i32) -> &'static str {
    match e {
        1 | 13 => "Permission denied",
        2 => "Not found",
        4 => "Interrupted",
        17 => "Already exists",
        22 => "Invalid input",
        32 => "Broken pipe",
        98 => "Addr in use",
        99 => "Addr not available",
        103 => "Connection Aborted",
        104 => "Connection Reset",
        107 => "Not Connected",
        110 => "Timed out",
        111 => "Connection refused",
        _ => "Other",
    }
}
fn errno() -> String { format!("err {}", kind(std::io::Error::last_os_error().raw_os_error().unwrap_or(0))) }
fn show(b: &[u8]) -> String { b.iter().map(|x| format!("{},", x)).collect() }
fn tb(b: bool) -> &'static str { if b { "#t" } else { "#f" } }
fn tf(b: bool) -> &'static str { if b { "T" } else { "F" } }
fn put_s(tk: &mut Vec<u64>, s: &str) { tk.push(s.chars().count() as u64); tk.extend(s.chars().map(|c| c as u64)); }
fn put_b(tk: &mut Vec<u64>, b: &[u8]) { tk.push(b.len() as u64); tk.extend(b.iter().map(|x| *x as u64)); }
fn cut(s: &str) -> String { if s.chars().count() > 60 { format!("{}… ({} bytes)", s.chars().take(20).collect::<String>(), s.len()) } else { s.into() } }

/// The tree every history starts from.
fn build(root: &Path) {
    let w = root.join("w");
    std::fs::create_dir_all(w.join("d1/e")).unwrap();
    std::fs::create_dir_all(w.join("d2")).unwrap();
    std::fs::create_dir_all(root.join("out/k")).unwrap();
    std::fs::write(root.join("out/keep"), "keep").unwrap();
    std::fs::write(w.join("f"), "0123456789").unwrap();
    std::fs::write(w.join("g"), "").unwrap();
    std::fs::write(w.join("d1/h"), [0xc3u8, 0xa9, 0xff, 0, 10]).unwrap();
    std::fs::write(w.join("d1/e/i"), "deep").unwrap();
    std::os::unix::fs::symlink("d1", w.join("ln")).unwrap();
    std::os::unix::fs::symlink("nowhere", w.join("dead")).unwrap();
    std::os::unix::fs::symlink("../out", w.join("up")).unwrap();
    std::os::unix::fs::symlink("f", w.join("lf")).unwrap();
    std::os::unix::fs::symlink("loop", w.join("loop")).unwrap();
}
fn listing(root: &Path) -> Vec<String> {
    fn go(p: &Path, rel: String, v: &mut Vec<String>) {
        let m = std::fs::symlink_metadata(p).unwrap();
        if m.file_type().is_symlink() { v.push(format!("{} -> {}", rel, std::fs::read_link(p).unwrap().display())) }
        else if m.is_dir() {
            v.push(format!("{}/", rel));
            let mut es: Vec<PathBuf> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for e in es { let n = format!("{}/{}", rel, e.file_name().unwrap().to_string_lossy()); go(&e, n, v); }
        } else { let d = std::fs::read(p).unwrap(); v.push(format!("{}: {} bytes {}", rel, d.len(), show(&d[..d.len().min(400)]))) }
    }
    let mut v = vec![];
    if root.exists() { go(root, String::new(), &mut v); }
    v
}

struct Slot { f: *mut c_void, last: u8, path: PathBuf }

struct Twin { base: PathBuf }
impl Twin {
    fn c(&self, p: &str) -> CString {
        if p.is_empty() || p.starts_with('/') { CString::new(p).unwrap() } else { CString::new(format!("{}/{}", self.base.display(), p)).unwrap() }
    }
    fn at(&self, p: &str) -> PathBuf { PathBuf::from(self.c(p).into_string().unwrap()) }
}

/// A name of 203 bytes.
const LONG: &str = "a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name a long name of manyéxy";
/// A path below `top`, which no component of it leads out of.
fn path(t: &mut Tape, top: &str, tree: bool) -> String {
    if t.chance(1, 40) { return String::new(); }
    let mut p = format!("{}/w", top);
    let mut depth = 0;
    let mut up = true; // whether ".." stays inside
    for _ in 0..t.range(if tree { 1 } else { 0 }, 3) {
        p.push('/');
        if t.chance(1, 20) { p.push('/'); }
        let n = t.below(24);
        let c = match n {
            0..=2 => "f",
            3 => "g",
            4..=7 => "d1",
            8 | 9 => "d2",
            10 => "e",
            11 => "h",
            12 => "i",
            13 => "ln",
            14 => "dead",
            15 => "lf",
            16 => "loop",
            17 => "up",
            18 => "é x",
            19 => "new",
            20 => if t.bool() { LONG } else { "new" },
            21 => if depth > 0 && up && !tree { ".." } else { "new2" },
            22 => if tree { "keep" } else { "." },
            _ => "keep",
        };
        match c { "." => {} ".." => depth -= 1, "up" => up = false, _ => depth += 1 }
        if c == "keep" && t.chance(1, 10) { p.push_str(&"n".repeat(300)); } else { p.push_str(c); }
    }
    if !tree && t.chance(1, 20) { p.push('/'); }
    p
}

fn content(t: &mut Tape) -> Vec<u8> {
    match t.below(12) {
        0 => vec![],
        1..=7 => (0..t.range(1, 12)).map(|_| t.below(256) as u8).collect(),
        8 | 9 => "aé語𐍈\n".as_bytes()[..t.range(0, 11)].to_vec(),
        10 => { let n = *t.pick(&[4095usize, 4096, 4097, 8192, 5000]); let a = t.below(251) as u8; (0..n).map(|i| a.wrapping_add((i % 251) as u8)).collect() }
        _ => vec![t.below(256) as u8; t.range(1, 300)],
    }
}

/// Reads on the twin as the library's reads to the end do: until nothing comes.
fn to_end(f: *mut c_void) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    loop {
        let mut b = vec![0u8; 4096];
        let n = unsafe { fread(b.as_mut_ptr(), 1, 4096, f) };
        if n < 4096 && unsafe { feof(f) } == 0 { return Err(errno()); }
        v.extend_from_slice(&b[..n]);
        if n == 0 { return Ok(v); }
    }
}

fn files(t: &mut Tape, k: usize, tw: &Twin) -> Hist {
    let top = format!("h{}", k);
    build(&tw.base.join(&top));
    let mut h = Hist { head: format!("files ({}/w is the directory it works in)", top), ..Hist::default() };
    let mut s: Vec<Slot> = (0..4).map(|_| Slot { f: std::ptr::null_mut(), last: 0, path: PathBuf::new() }).collect();
    let (mut errs, mut moved, mut effects) = (0, 0, 0);
    let mean = *t.pick(&[6, 20, 50]);
    let set = |h: &mut Hist, name: &'static str, tk: Vec<u64>, d: String, e: String| h.op(name, &tk, d, e);
    let close = |h: &mut Hist, s: &mut Slot, i: usize| {
        let e = if s.f.is_null() { "ok ".to_string() } else if unsafe { fclose(s.f) } == 0 { "ok ".into() } else { errno() };
        s.f = std::ptr::null_mut();
        s.last = 0;
        h.op("close", &[5, i as u64], format!("close #{}", i), e);
    };
    while t.more(mean) {
        let i = t.below(4) as usize;
        let iu = i as u64;
        let open = !s[i].f.is_null();
        let before = h.ops.len();
        let op = t.below(44);
        // most operations on a file find one open
        let op = if !open && (10..=25).contains(&op) && !t.chance(1, 8) { 0 } else { op };
        match op {
            0..=7 => {
                if open { if t.chance(1, 2) { continue; } close(&mut h, &mut s[i], i); }
                let full = t.chance(1, 20);
                let p = if full { "/dev/full".to_string() } else { path(t, &top, false) };
                let m = *t.pick(&["r", "w", "r+", "a", "w+", "a+", "r", "w", "rb", "wb", "wx", "q", "", "ab", "r+b"]);
                if full && m != "w" && m != "wb" { continue; }
                // a file is open for writing once, or any number of times for reading
                let at = std::fs::canonicalize(tw.at(&p)).unwrap_or_default();
                let wr = !m.starts_with('r') || m.contains('+');
                if !full && s.iter().any(|x| !x.f.is_null() && x.path == at && at != PathBuf::new() && (wr || x.last & 8 != 0)) { continue; }
                let cm = CString::new(m).unwrap();
                let f = unsafe { fopen(tw.c(&p).as_ptr(), cm.as_ptr()) };
                let e = if f.is_null() { errno() } else { "ok ".into() };
                if !f.is_null() { s[i].path = std::fs::canonicalize(tw.at(&p)).unwrap_or_default(); s[i].last = if wr { 8 } else { 0 }; }
                s[i].f = f;
                let mut tk = vec![1, iu];
                put_s(&mut tk, &p);
                put_s(&mut tk, m);
                // a handle that could not be opened leaves the slot closed: the driver keeps its old one, closed above
                set(&mut h, "open", tk, format!("#{} := open {:?} {:?}", i, cut(&p), m), e);
            }
            8 | 9 => { if open { moved += 1; } close(&mut h, &mut s[i], i) }
            10..=12 | 15..=17 => {
                // C allows no input directly after output
                if open && s[i].last & 3 == 2 { continue; }
                let f = s[i].f;
                s[i].last = s[i].last & 8 | 1;
                match op {
                    10 | 11 => {
                        let n = *t.pick(&[0usize, 1, 2, 3, 5, 10, 11, 100, 5000]);
                        let mut b = vec![0u8; n];
                        let e = if !open { "err Closed".to_string() } else {
                            let r = unsafe { fread(b.as_mut_ptr(), 1, n, f) };
                            if r == n || unsafe { feof(f) } != 0 { format!("ok {}:{}", r, show(&b[..r])) } else { errno() }
                        };
                        set(&mut h, "read", vec![2, iu, n as u64], format!("read #{} up to {}", i, n), e);
                    }
                    12 => {
                        let n = *t.pick(&[0usize, 1, 2, 4, 5, 10, 11]);
                        let mut b = vec![0u8; n];
                        let e = if !open { "err Closed".to_string() } else {
                            let r = unsafe { fread(b.as_mut_ptr(), 1, n, f) };
                            if r == n { format!("ok {}", show(&b)) } else if unsafe { feof(f) } != 0 { "err Unexpected EOF".into() } else { errno() }
                        };
                        set(&mut h, "read-bytes!", vec![7, iu, n as u64], format!("read-bytes! #{} {}", i, n), e);
                    }
                    15 => {
                        let e = if !open { "err Closed".to_string() } else { match to_end(f) { Ok(v) => format!("ok {}", show(&v)), Err(e) => e } };
                        set(&mut h, "read-bytes-to-end!", vec![8, iu], format!("read-bytes-to-end! #{}", i), e);
                    }
                    16 => {
                        let e = if !open { "err Closed".to_string() } else {
                            match to_end(f) { Ok(v) => if std::str::from_utf8(&v).is_ok() { format!("ok {}", show(&v)) } else { "err Invalid data".into() }, Err(e) => e }
                        };
                        set(&mut h, "read-string-to-end!", vec![9, iu], format!("read-string-to-end! #{}", i), e);
                    }
                    _ => {
                        let k = t.below(8);
                        let n = [1usize, 2, 4, 8, 1, 2, 4, 8][k as usize];
                        let mut b = vec![0u8; 8];
                        let e = if !open { "err Closed".to_string() } else {
                            let r = unsafe { fread(b.as_mut_ptr(), 1, n, f) };
                            if r == n {
                                let u = u64::from_le_bytes(b[..8].try_into().unwrap());
                                format!("ok {}", match k { 4 => (u as i8).to_string(), 5 => (u as i16).to_string(), 6 => (u as i32).to_string(), 7 => (u as i64).to_string(), _ => u.to_string() })
                            } else if unsafe { feof(f) } != 0 { "err Unexpected EOF".into() } else { errno() }
                        };
                        set(&mut h, "read-int", vec![10, iu, k], format!("read-{}! #{}", ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"][k as usize], i), e);
                    }
                }
            }
            13 | 14 | 18..=21 => {
                // nor output directly after input, except at the end
                if open && s[i].last & 3 == 1 && unsafe { feof(s[i].f) } == 0 { continue; }
                let (b, tk, name, d): (Vec<u8>, Vec<u64>, _, String) = match op {
                    13 | 14 | 20 | 21 => {
                        let b = content(t);
                        let mut tk = vec![3, iu];
                        put_b(&mut tk, &b);
                        let d = format!("write #{} {} bytes", i, b.len());
                        (b, tk, "write", d)
                    }
                    18 => {
                        let k = t.below(8);
                        let n = t.edgy64();
                        let n = match k { 0 => n & 0xff, 1 => n & 0xffff, 2 => n & 0xffffffff, 4 => n & 0x7f, 5 => n & 0x7fff, 6 => n & 0x7fffffff, 7 => n >> 1, _ => n };
                        (n.to_le_bytes()[..[1usize, 2, 4, 8, 1, 2, 4, 8][k as usize]].to_vec(), vec![11, iu, k, n], "write-int", format!("write-{}! #{} {}", ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"][k as usize], i, n))
                    }
                    _ => {
                        let n = t.edgy64();
                        let st = *t.pick(&["", "x=", "é", "line\n"]);
                        let mut tk = vec![12, iu];
                        put_s(&mut tk, st);
                        tk.push(n);
                        (format!("{}{}", st, n).into_bytes(), tk, "fprint!", format!("fprint! #{} {:?} {}", i, st, n))
                    }
                };
                // what is printed in pieces to a broken file is written in pieces
                if name == "fprint!" && open && unsafe { ferror(s[i].f) } != 0 { continue; }
                let e = if !open { "err Closed".to_string() } else if unsafe { fwrite(b.as_ptr(), 1, b.len(), s[i].f) } == b.len() { "ok ".into() } else { errno() };
                s[i].last = s[i].last & 8 | 2;
                if e.starts_with("ok") { effects += 1; }
                set(&mut h, name, tk, d, e);
            }
            22 | 23 => {
                if open && s[i].last & 3 == 1 { continue; }
                let e = if !open { "err Closed".to_string() } else if unsafe { fflush(s[i].f) } == 0 { "ok ".into() } else { errno() };
                s[i].last &= 8;
                set(&mut h, "flush", vec![4, iu], format!("flush #{}", i), e);
            }
            24 | 25 => {
                let e = if !open { "#t#f#t".to_string() } else { format!("{}{}#f", tb(unsafe { feof(s[i].f) } != 0), tb(unsafe { ferror(s[i].f) } != 0)) };
                set(&mut h, "state", vec![6, iu], format!("eof? error? closed? #{}", i), e);
            }
            26..=28 => {
                let p = path(t, &top, false);
                let mut tk = vec![13];
                put_s(&mut tk, &p);
                let e = if unsafe { remove(tw.c(&p).as_ptr()) } == 0 { "ok ".into() } else { errno() };
                effects += 1;
                set(&mut h, "remove!", tk, format!("remove! {:?}", cut(&p)), e);
            }
            29 | 30 => {
                let p = path(t, &top, true);
                if p.is_empty() { continue; }
                let mut tk = vec![14];
                put_s(&mut tk, &p);
                let at = tw.at(&p);
                let e = match std::fs::symlink_metadata(&at) {
                    Err(x) => format!("err {}", kind(x.raw_os_error().unwrap_or(0))),
                    Ok(m) => {
                        let r = if m.is_dir() { std::fs::remove_dir_all(&at) } else { std::fs::remove_file(&at) };
                        match r { Ok(()) => "ok ".to_string(), Err(x) => format!("err {}", kind(x.raw_os_error().unwrap_or(0))) }
                    }
                };
                effects += 1;
                set(&mut h, "remove-all!", tk, format!("remove-all! {:?}", cut(&p)), e);
            }
            31 | 32 => {
                let p = path(t, &top, false);
                let mut tk = vec![15];
                put_s(&mut tk, &p);
                let e = if unsafe { mkdir(tw.c(&p).as_ptr(), 0o777) } == 0 { "ok ".into() } else { errno() };
                effects += 1;
                set(&mut h, "directory/create!", tk, format!("directory/create! {:?}", cut(&p)), e);
            }
            33 => {
                let p = path(t, &top, false);
                let mut tk = vec![16];
                put_s(&mut tk, &p);
                let e = if unsafe { rmdir(tw.c(&p).as_ptr()) } == 0 { "ok ".into() } else { errno() };
                effects += 1;
                set(&mut h, "directory/remove!", tk, format!("directory/remove! {:?}", cut(&p)), e);
            }
            34..=37 => {
                let p = path(t, &top, false);
                let d = unsafe { opendir(tw.c(&p).as_ptr()) };
                let bad = if d.is_null() { Some(errno()) } else { unsafe { closedir(d) }; None };
                let names = || {
                    let mut v: Vec<String> = std::fs::read_dir(tw.at(&p)).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                    v.sort();
                    v
                };
                if op == 37 {
                    let k = t.range(0, 8);
                    let mut tk = vec![18];
                    put_s(&mut tk, &p);
                    tk.push(k as u64);
                    let e = bad.unwrap_or_else(|| { let n = names().len(); format!("ok {}{} #f ok  #t err Closedok ", "s".repeat(n.min(k)), "n".repeat(k - n.min(k))) });
                    set(&mut h, "directory-steps", tk, format!("open {:?}, next! {} times, closed?, close!, closed?, next!, close!", cut(&p), k), e);
                } else {
                    let mut tk = vec![17];
                    put_s(&mut tk, &p);
                    let e = bad.unwrap_or_else(|| format!("ok {}", names().iter().map(|n| show(n.as_bytes()) + " ").collect::<String>()));
                    set(&mut h, "directory/entries!", tk, format!("directory/entries! {:?}", cut(&p)), e);
                }
            }
            38..=40 => {
                let full = t.chance(1, 10);
                let p = if full { "/dev/full".to_string() } else { path(t, &top, false) };
                let m = *t.pick(&["w", "a", "w", "wx"]);
                if full && m != "w" { continue; }
                let at = std::fs::canonicalize(tw.at(&p)).unwrap_or_default();
                if !full && s.iter().any(|x| !x.f.is_null() && x.path == at) { continue; }
                let b = content(t);
                let mut tk = vec![19];
                put_s(&mut tk, &p);
                put_s(&mut tk, m);
                put_b(&mut tk, &b);
                let cm = CString::new(m).unwrap();
                let f = unsafe { fopen(tw.c(&p).as_ptr(), cm.as_ptr()) };
                let e = if f.is_null() { errno() } else {
                    let w = unsafe { fwrite(b.as_ptr(), 1, b.len(), f) } == b.len();
                    let e1 = errno();
                    let c = unsafe { fclose(f) } == 0;
                    if !w { e1 } else if !c { errno() } else { "ok ".into() }
                };
                if e.starts_with("ok") { effects += 1; }
                set(&mut h, "with-file!-write", tk, format!("with-file! {:?} {:?} write {} bytes", cut(&p), m, b.len()), e);
            }
            _ => {
                let p = path(t, &top, false);
                let mut tk = vec![20];
                put_s(&mut tk, &p);
                let at = std::fs::canonicalize(tw.at(&p)).unwrap_or_default();
                if s.iter().any(|x| !x.f.is_null() && x.path == at && x.last & 8 != 0) { continue; }
                let f = unsafe { fopen(tw.c(&p).as_ptr(), c"r".as_ptr()) };
                let e = if f.is_null() { errno() } else { let r = to_end(f); unsafe { fclose(f) }; match r { Ok(v) => format!("ok {}", show(&v)), Err(e) => e } };
                set(&mut h, "with-file!-read", tk, format!("with-file! {:?} \"r\" read to the end", cut(&p)), e);
            }
        }
        if h.ops.len() > before && h.ops.last().unwrap().2.starts_with("err") { errs += 1; }
    }
    for i in 0..4 { if !s[i].f.is_null() { let mut x = std::mem::replace(&mut s[i], Slot { f: std::ptr::null_mut(), last: 0, path: PathBuf::new() }); close(&mut h, &mut x, i); } }
    h.toks.push(0);
    h.nontrivial = effects >= 2 && (errs > 0 || moved > 0);
    h
}

#[derive(Clone, PartialEq)]
enum C { Root, Cur, Up, N(String) }
fn comps(p: &str) -> Vec<C> {
    let mut v = vec![];
    if p.starts_with('/') { v.push(C::Root); }
    v.extend(p.split('/').filter(|c| !c.is_empty()).map(|c| match c { "." => C::Cur, ".." => C::Up, c => C::N(c.into()) }));
    v
}
/// the path without its trailing separators, and where its last component starts
fn last(p: &str) -> (usize, usize) {
    let r = p.trim_end_matches('/').len();
    (p[..r].rfind('/').map_or(0, |i| i + 1), r)
}
fn ext(p: &str) -> Option<usize> {
    let (l, r) = last(p);
    let n = &p[l..r];
    if n == ".." { return None; }
    n.rfind('.').filter(|i| *i > 0).map(|i| l + i)
}
fn text(t: &mut Tape) -> String {
    let mut p = String::new();
    if t.chance(1, 3) { p.push('/'); }
    while t.more(3) {
        p.push_str(*t.pick(&["a", "bc", ".", "..", "a.b", ".x", "x.", "a.b.c", "é.ü", "...", "..a", "a..", " ", "foo.tar.gz", "-", "."]));
        p.push('/');
        if t.chance(1, 6) { p.push('/'); }
    }
    if t.chance(1, 2) { p = p.trim_end_matches('/').to_string(); }
    p
}
fn canon(cwd: &str, ps: &[&str]) -> String {
    let mut v: Vec<String> = vec![];
    for p in std::iter::once(&cwd).chain(ps.iter()) {
        for c in comps(p) { match c { C::Root => v.clear(), C::Cur => {} C::Up => { v.pop(); } C::N(s) => v.push(s) } }
    }
    format!("/{}", v.join("/"))
}

fn paths(t: &mut Tape, cwd: &str) -> Hist {
    let mut h = Hist { head: "paths".into(), ..Hist::default() };
    let mut dots = 0;
    while t.more(12) {
        let p = text(t);
        if p.contains('.') { dots += 1; }
        let named = p.trim_end_matches('/').len() > 0;
        let op = t.below(12);
        let tk = |op: u64, ss: &[&str]| { let mut v = vec![op]; for s in ss { put_s(&mut v, s); } v };
        let (l, r) = last(&p);
        let sh = |s: &str| show(s.as_bytes());
        match op {
            0 => h.op("base-name", &tk(30, &[&p]), format!("base-name {:?}", p), sh(if p.is_empty() { "" } else if !named { "/" } else { &p[l..r] })),
            1 => {
                let mut q = p.clone();
                while q.contains("//") { q = q.replace("//", "/"); }
                let (l, _) = last(&q);
                h.op("dir-name", &tk(31, &[&q]), format!("dir-name {:?}", q), sh(if l <= 1 { if q.starts_with('/') { "/" } else { "." } } else { &q[..l - 1] }))
            }
            2 if named => h.op("extension?", &tk(32, &[&p]), format!("extension? {:?}", p), ext(&p).map_or("none".into(), |i| format!("some {}", sh(&p[i + 1..r])))),
            3 if named => h.op("with-extension-none", &tk(33, &[&p]), format!("with-extension none {:?}", p), sh(&format!("{}{}", &p[..ext(&p).unwrap_or(r)], &p[r..]))),
            4 if named => {
                let e = *t.pick(&["o", "", "é", "a.b"]);
                h.op("with-extension", &tk(34, &[e, &p]), format!("with-extension {:?} {:?}", e, p), sh(&format!("{}.{}{}", &p[..ext(&p).unwrap_or(r)], e, &p[r..])))
            }
            5 if named => {
                let e = *t.pick(&["o", "", "é"]);
                h.op("default-extension", &tk(35, &[e, &p]), format!("default-extension {:?} {:?}", e, p), sh(&if ext(&p).is_some() { p.clone() } else { format!("{}.{}{}", &p[..r], e, &p[r..]) }))
            }
            6 => { let a = p.starts_with('/'); h.op("absolute?", &tk(36, &[&p]), format!("absolute? relative? {:?}", p), format!("{}{}", tf(a), tf(!a))) }
            7 => h.op("components", &tk(37, &[&p]), format!("components {:?}", p), comps(&p).iter().map(|c| match c { C::Root => "/ ".into(), C::Cur => ". ".into(), C::Up => ".. ".into(), C::N(s) => format!("[{}] ", sh(s)) }).collect()),
            8 | 2..=5 => {
                let q = text(t);
                let e = if q.starts_with('/') || p.is_empty() { q.clone() } else { format!("{}/{}", p.trim_end_matches('/'), q) };
                h.op("path", &tk(38, &[&p, &q]), format!("path {:?} {:?}", p, q), sh(&e))
            }
            9 => h.op("canonicalize", &tk(39, &[&p]), format!("canonicalize {:?}", p), sh(&canon(cwd, &[&p]))),
            10 => {
                let (q, r) = (text(t), text(t));
                h.op("canonicalized-path", &tk(40, &[&p, &q, &r]), format!("canonicalized-path {:?} {:?} {:?}", p, q, r), sh(&canon(cwd, &[&p, &q, &r])))
            }
            _ => { let n = t.below(136); h.op("from-errno", &[21, n], format!("from-errno {}", n), kind(n as i32).into()) }
        }
    }
    h.toks.push(0);
    h.nontrivial = h.ops.len() >= 3 && dots > 0;
    h
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let sc = Scratch::new();
    let (real, twin) = (sc.0.join("real"), sc.0.join("twin"));
    // now and then far down, where the name of the current directory is long
    let real = if t.chance(1, 6) { out.classes.push("long working directory"); (0..t.range(1, 8)).fold(real, |d, k| d.join("d".repeat(150 + 20 * (k % 4)))) } else { real };
    std::fs::create_dir_all(&real).unwrap();
    std::fs::create_dir_all(&twin).unwrap();
    let real = real.canonicalize().unwrap();
    let cwd = real.to_str().unwrap().to_string();
    let tw = Twin { base: twin.canonicalize().unwrap() };
    let mut hs = vec![];
    for k in 0..t.range(1, 30) {
        let from = t.used();
        if t.chance(1, 4) {
            out.classes.push("paths");
            hs.push(paths(t, &cwd));
        } else {
            out.classes.push("files");
            hs.push(files(t, k, &tw));
            build(&real.join(format!("h{}", k)));
        }
        out.spans.push((from, t.used()));
    }
    let shim = std::env::var("VH_SHIM").expect("VH_SHIM");
    drv::judge_at(&drv::exe(), &hs, out, &real, &[("LD_PRELOAD", &shim), ("VH_JAIL", &cwd), ("PWD", &cwd)])?;
    for (k, h) in hs.iter().enumerate() {
        let top = format!("h{}", k);
        let (a, b) = (listing(&real.join(&top)), listing(&tw.base.join(&top)));
        if a != b {
            out.bad = Some(k);
            let d: Vec<&String> = a.iter().filter(|x| !b.contains(x)).collect();
            let e: Vec<&String> = b.iter().filter(|x| !a.contains(x)).collect();
            return fail("effect", format!("the tree has {:?} where it should have {:?}, after {}{}", d, e, h.head, h.ops.iter().map(|o| format!("\n  {} -> {}", o.1, cut(&o.2))).collect::<String>()));
        }
    }
    Ok(())
}

fn main() {
    main_with("c21", &case)
}
