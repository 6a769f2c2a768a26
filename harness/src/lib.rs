//! A small property-based testing engine: a case is a tape of bounded choices, so that
//! every generator shrinks by shrinking the tape, and a tape is a replay file.
pub mod arith;
pub mod prog;
pub mod cli;
#[cfg(feature = "llrl")]
pub mod front;
#[cfg(feature = "llrl")]
pub mod glue;
pub mod drv;
pub mod pp;
pub mod sx;
#[cfg(feature = "xten")]
pub mod xop;
#[cfg(feature = "xten")]
pub mod xforms;
#[cfg(feature = "xten")]
pub mod xobj;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Tape {
    pub rec: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rec: vec![], pos: 0, rng: Some(Rng(seed)) }
    }
    pub fn replay(rec: Vec<u64>) -> Self {
        Tape { rec, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A value in 0..n. Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => {
                let v = r.next() % n;
                self.rec.push(v);
                v
            }
            None => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        v
    }
    pub fn bits64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Whether a list goes on; about `mean` elements. Deleting an element's draws deletes the element.
    pub fn more(&mut self, mean: u64) -> bool {
        self.below(mean + 1) != 0
    }
    /// A 64-bit value with a bias to boundaries and small numbers.
    pub fn edgy64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(17),
            1 => self.below(300),
            2 => {
                let s = self.below(64);
                let d = self.below(3);
                (1u64 << s).wrapping_add(d).wrapping_sub(1)
            }
            3 => {
                let s = self.below(64);
                let d = self.below(3);
                (1u64 << s).wrapping_neg().wrapping_add(d).wrapping_sub(1)
            }
            4 => self.bits64() >> self.below(64),
            _ => self.bits64(),
        }
    }
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Out {
    pub desc: String,
    pub key: String,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub invalid: bool,
    /// for a case that holds several evaluations: the keys of the non-trivial ones and the number of all
    pub subs: Vec<String>,
    pub evals: u64,
    /// for a case that is a counted list of parts: where each is on the tape, and which one failed
    pub spans: Vec<(usize, usize)>,
    pub bad: Option<usize>,
}

pub type Fail = (String, String); // (signature, message)
pub type Case = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err((sig.to_string(), msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::fail($sig, format!($($a)*)); } };
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn exec(run: &dyn Fn(&mut Tape, &mut Out) -> Case, tape: &mut Tape, out: &mut Out) -> Case {
    match catch_unwind(AssertUnwindSafe(|| run(tape, out))) {
        Ok(r) => r,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            Err(("panic".to_string(), format!("panicked: {}", m)))
        }
    }
}

fn shrink(run: &dyn Fn(&mut Tape, &mut Out) -> Case, start: Vec<u64>, sig: &str) -> (Vec<u64>, Fail, String) {
    let mut best = start;
    let t0 = Instant::now();
    let mut tries = 0u32;
    let mut last: Option<(Fail, String)> = None;
    let attempt = |cand: &Vec<u64>, last: &mut Option<(Fail, String)>| -> Option<usize> {
        let mut t = Tape::replay(cand.clone());
        let mut o = Out::default();
        match exec(run, &mut t, &mut o) {
            Err(f) if f.0 == sig => {
                *last = Some((f, o.desc));
                Some(t.used())
            }
            _ => None,
        }
    };
    if let Some(u) = attempt(&best, &mut last) {
        best.truncate(u);
    }
    let mut progress = true;
    while progress && tries < 4000 && t0.elapsed().as_secs() < 20 {
        progress = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() && tries < 4000 && t0.elapsed().as_secs() < 20 {
                let mut c = best.clone();
                c.drain(i..i + size);
                tries += 1;
                if let Some(u) = attempt(&c, &mut last) {
                    c.truncate(u);
                    best = c;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if i >= best.len() || v >= best[i] || tries >= 4000 || t0.elapsed().as_secs() >= 20 {
                    break;
                }
                let mut c = best.clone();
                c[i] = v;
                tries += 1;
                if let Some(u) = attempt(&c, &mut last) {
                    c.truncate(u);
                    best = c;
                    progress = true;
                    break;
                }
            }
        }
    }
    let (f, d) = last.unwrap_or(((sig.to_string(), "not reproducible".to_string()), String::new()));
    (best, f, d)
}

/// Driver. Arguments: run SEED COUNT JOURNAL [MAX_SECONDS] | tape FILE
pub fn main_with(name: &str, run: &dyn Fn(&mut Tape, &mut Out) -> Case) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("tape") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let rec = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let mut t = Tape::replay(rec);
            let mut o = Out::default();
            let r = exec(run, &mut t, &mut o);
            match r {
                Ok(()) => println!("{{\"ok\":true,\"desc\":{}}}", jstr(&o.desc)),
                Err((s, m)) => println!(
                    "{{\"ok\":false,\"sig\":{},\"msg\":{},\"desc\":{}}}",
                    jstr(&s), jstr(&m), jstr(&o.desc)
                ),
            }
        }
        Some("gen") => {
            // the tape of case number I of SEED
            let seed: u64 = args[2].parse().unwrap();
            let i: u64 = args[3].parse().unwrap();
            let mut t = Tape::random(case_seed(seed, i, name));
            let mut o = Out::default();
            if args.get(4).map_or(false, |x| x == "exec") {
                let _ = exec(run, &mut t, &mut o);
            }
            println!("{}", o.desc);
        }
        Some("run") => {
            let seed: u64 = args[2].parse().unwrap();
            let from: u64 = args[3].parse().unwrap();
            let to: u64 = args[4].parse().unwrap();
            let journal = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[5]).unwrap();
            use std::os::unix::fs::FileExt;
            let mut distinct = HashSet::new();
            let mut evaluations = 0u64;
            let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut samples: Vec<String> = vec![];
            let mut fails: BTreeMap<String, (u64, Vec<u64>, Fail, String)> = BTreeMap::new();
            let (mut bad, mut hangs, mut seen) = (0, 0, 0u64);
            for i in from..to {
                let _ = journal.write_all_at(format!("{:020}\n", i).as_bytes(), 0);
                let mut t = Tape::random(case_seed(seed, i, name));
                let mut o = Out::default();
                let r = exec(run, &mut t, &mut o);
                if o.invalid {
                    continue;
                }
                evaluations += o.evals.max(1);
                for k in &o.subs {
                    distinct.insert(hash(k));
                }
                for c in &o.classes {
                    *classes.entry(c).or_insert(0) += 1;
                }
                if o.nontrivial {
                    let k = if o.key.is_empty() { &o.desc } else { &o.key };
                    seen += 1;
                    let new = !o.subs.is_empty() || distinct.insert(hash(k));
                    if new && samples.len() < 4 && seen % 3 == 1 {
                        let text = if o.desc.trim().is_empty() { o.subs.iter().take(6).cloned().collect::<Vec<_>>().join("\n") } else { o.desc.clone() };
                        samples.push(text.chars().take(1500).collect());
                    }
                }
                if let Err(f) = r {
                    bad += 1;
                    hangs += f.0.starts_with("hang") as u32;
                    if let Some(e) = fails.get_mut(&f.0) {
                        e.0 += 1;
                    } else if fails.len() < 6 {
                        let mut rec = t.rec;
                        if let Some((a, b)) = o.bad.and_then(|k| o.spans.get(k).copied()) {
                            let mut one = vec![0];
                            one.extend(rec.get(a..b).unwrap_or(&[]));
                            let mut o2 = Out::default();
                            if let Err(f2) = exec(run, &mut Tape::replay(one.clone()), &mut o2) {
                                if f2.0 == f.0 {
                                    rec = one;
                                }
                            }
                        }
                        let (rec, mut ff, mut d) = shrink(run, rec, &f.0);
                        if ff.1 == "not reproducible" {
                            ff.1 = format!("(not seen again when run again) {}", f.1);
                            d = o.desc;
                        }
                        fails.insert(f.0.clone(), (1, rec, ff, d));
                    }
                    // a tree this broken need not be searched further
                    if bad >= 200 || hangs >= 2 {
                        break;
                    }
                }
            }
            let mut s = String::new();
            let _ = write!(s, "{{\"done\":true,\"evaluations\":{},\"distinct\":[", evaluations);
            for (i, h) in distinct.iter().enumerate() {
                let _ = write!(s, "{}\"{:x}\"", if i > 0 { "," } else { "" }, h);
            }
            s.push_str("],\"classes\":{");
            for (i, (k, v)) in classes.iter().enumerate() {
                let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v);
            }
            s.push_str("},\"samples\":[");
            for (i, x) in samples.iter().enumerate() {
                let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, jstr(x));
            }
            s.push_str("],\"fails\":[");
            for (i, (k, (n, rec, f, d))) in fails.iter().enumerate() {
                let tape: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
                let _ = write!(
                    s, "{}{{\"sig\":{},\"count\":{},\"msg\":{},\"desc\":{},\"tape\":{}}}",
                    if i > 0 { "," } else { "" }, jstr(k), n, jstr(&f.1), jstr(d), jstr(&tape.join(" "))
                );
            }
            s.push_str("]}");
            println!("{}", s);
            let _ = std::io::stdout().flush();
        }
        _ => {
            eprintln!("usage: run SEED FROM TO JOURNAL | tape FILE");
            std::process::exit(2);
        }
    }
}

pub fn case_seed(seed: u64, i: u64, name: &str) -> u64 {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(name));
    let a = r.next();
    Rng(a ^ i.wrapping_mul(0xD1B54A32D192ED03)).next()
}
