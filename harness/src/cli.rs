//! Compilers and compiled programs as processes, in a scratch directory of this process.
use std::io::Write as _;
use std::os::unix::process::{CommandExt as _, ExitStatusExt as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn write(&self, rel: &str, text: &[u8]) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    pub fn path(&self, rel: &str) -> String {
        self.0.join(rel).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ran {
    /// exit code, or minus the signal
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub timeout: bool,
}
impl Ran {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn both(&self) -> String {
        format!("{}{}", String::from_utf8_lossy(&self.out), String::from_utf8_lossy(&self.err))
    }
}

/// Runs a program to its end, or kills it and its children after `secs`.
pub fn run(prog: &str, args: &[String], cwd: &Path, input: &[u8], secs: u64, envs: &[(&str, &str)]) -> Ran {
    let outf = std::env::temp_dir().join(format!("vh-{}-o", std::process::id()));
    let errf = std::env::temp_dir().join(format!("vh-{}-e", std::process::id()));
    let mut c = Command::new(prog);
    c.args(args).current_dir(cwd).stdin(Stdio::piped());
    c.stdout(std::fs::File::create(&outf).unwrap()).stderr(std::fs::File::create(&errf).unwrap());
    for (k, v) in envs { c.env(k, v); }
    c.process_group(0);
    // no compiler or program outlives the worker that started it
    extern "C" { fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }
    unsafe { std::os::unix::process::CommandExt::pre_exec(&mut c, || { prctl(1, 9, 0, 0, 0); Ok(()) }); }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", prog, e));
    let mut stdin = ch.stdin.take().unwrap();
    let data = input.to_vec();
    let h = std::thread::spawn(move || { let _ = stdin.write_all(&data); });
    let t0 = std::time::Instant::now();
    let mut timeout = false;
    let mut nap = 200;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() { break s; }
        if t0.elapsed() > Duration::from_secs(secs) {
            timeout = true;
            extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
            unsafe { kill(-(ch.id() as i32), 9); }
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let _ = h.join();
    let code = st.code().unwrap_or_else(|| -st.signal().unwrap_or(0));
    let read = |p: &Path| { let d = std::fs::read(p).unwrap_or_default(); let _ = std::fs::remove_file(p); if d.len() > 4_000_000 { d[..4_000_000].to_vec() } else { d } };
    Ran { code, out: read(&outf), err: read(&errf), timeout }
}

/// The compilers the check has built, by name: VH_LLRL0, VH_LLRL0_FULL, VH_LLRL1 ...
pub fn compiler(name: &str) -> Option<String> {
    std::env::var(format!("VH_{}", name)).ok().filter(|s| !s.is_empty())
}

pub struct Job<'a> {
    pub compiler: &'a str,
    pub flags: Vec<String>,
    pub entries: Vec<String>,
}

/// Compiles entries found under scratch/cur into scratch/EXE.
pub fn compile(s: &Scratch, job: &Job, exe: &str) -> Ran {
    let _ = std::fs::remove_file(s.0.join(exe));
    let mut a = job.flags.clone();
    a.push("-o".into());
    a.push(s.path(exe));
    a.extend(job.entries.iter().cloned());
    let r = run(job.compiler, &a, &s.0.join("cur"), b"", 120, &[]);
    if r.timeout { panic!("{} does not end within 120 s", job.compiler); }
    r
}

pub fn exec(s: &Scratch, exe: &str, input: &[u8], args: &[String]) -> Ran {
    run(&s.path(exe), args, &s.0, input, 30, &[])
}

pub fn how(r: &Ran) -> String {
    if r.timeout { "does not end within 30 s".into() } else if r.code < 0 { format!("dies by signal {}", -r.code) } else { format!("exits with {}", r.code) }
}

/// A way to compile, of those the check asked for in VH_CONFIGS (lines NAME|COMPILER|FLAGS).
#[derive(Clone, Debug)]
pub struct Config { pub name: String, pub compiler: String, pub flags: Vec<String> }
pub fn configs() -> Vec<Config> {
    let v = std::env::var("VH_CONFIGS").expect("VH_CONFIGS");
    v.lines().map(|l| {
        let p: Vec<&str> = l.split('|').collect();
        Config { name: p[0].into(), compiler: p[1].into(), flags: p[2].split_whitespace().map(|x| x.into()).collect() }
    }).collect()
}
impl Config {
    pub fn compile(&self, s: &Scratch, entries: &[&str], exe: &str) -> Ran {
        compile(s, &Job { compiler: &self.compiler, flags: self.flags.clone(), entries: entries.iter().map(|x| x.to_string()).collect() }, exe)
    }
}
