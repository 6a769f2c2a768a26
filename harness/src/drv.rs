//! Histories for a driver program: numbers on its standard input, one line of output per operation.
use crate::{cli, fail, Case, Out};
use std::fmt::Write as _;

#[derive(Default, Clone)]
pub struct Hist {
    /// numbers for the driver
    pub toks: Vec<u64>,
    /// operation name, rendering of the operation, its expected line of output
    pub ops: Vec<(&'static str, String, String)>,
    /// the last operation must be refused: it prints nothing and ends the process abnormally
    pub fatal: bool,
    pub nontrivial: bool,
    pub head: String,
}
impl Hist {
    pub fn op(&mut self, name: &'static str, toks: &[u64], show: String, expect: String) {
        self.toks.extend_from_slice(toks);
        self.ops.push((name, show, expect));
    }
    fn upto(&self, n: usize) -> String {
        let mut s = self.head.clone();
        for (_, d, e) in self.ops.iter().take(n) {
            let _ = write!(s, "\n  {} -> {}", d, if e.len() > 300 { let mut k = 300; while !e.is_char_boundary(k) { k -= 1; } &e[..k] } else { e });
        }
        s
    }
}

/// Runs the histories in one process each `fatal` one, and one for all others. Every history ends with a line "."
/// that the driver prints.
pub fn judge(exe: &str, hs: &[Hist], out: &mut Out) -> Case {
    judge_at(exe, hs, out, &std::env::temp_dir(), &[])
}

pub fn judge_at(exe: &str, hs: &[Hist], out: &mut Out, cwd: &std::path::Path, envs: &[(&str, &str)]) -> Case {
    out.evals += hs.len() as u64;
    if let Some(h) = hs.iter().max_by_key(|h| (h.nontrivial, h.ops.len() <= 12, h.ops.len())) {
        out.desc = h.upto(h.ops.len());
    }
    for h in hs {
        if h.nontrivial { out.subs.push(h.upto(h.ops.len())); }
    }
    let text = |hs: &[&Hist]| {
        let mut s = String::new();
        for h in hs {
            for t in &h.toks { let _ = write!(s, "{} ", t); }
            s.push('\n');
        }
        s
    };
    let normal: Vec<&Hist> = hs.iter().filter(|h| !h.fatal).collect();
    let index = |h: &Hist| hs.iter().position(|x| std::ptr::eq(x, h));
    let run = |inp: &[&Hist]| cli::run(exe, &[], cwd, text(inp).as_bytes(), 40, envs);
    if !normal.is_empty() {
        let r = run(&normal);
        let got = r.text();
        let mut lines = got.split('\n');
        for h in &normal {
            out.bad = index(h);
            for (k, (name, _, want)) in h.ops.iter().enumerate() {
                let g = lines.next();
                if g == Some(want.as_str()) { continue; }
                let last = g.is_none() || (g == Some("") && r.code != 0);
                if r.timeout && last { return fail("hang", format!("the history does not end within 40 s:{}", h.upto(h.ops.len()))); }
                if r.code != 0 && last {
                    // output is only flushed per history: which operation it was is known from a run of this history alone
                    return fail("stopped", format!("{} {}, on the history{}", cli::how(&r), r.both().lines().last().unwrap_or(""), h.upto(h.ops.len())));
                }
                return fail(name, format!("expected `{}` but got `{}` from the last operation of{}", want, g.unwrap_or("<end of output>"), h.upto(k + 1)));
            }
            let g = lines.next();
            if g != Some(".") {
                let (name, _, _) = h.ops.last().cloned().unwrap_or_default();
                return fail(&format!("end-{}", name), format!("{}: output continues with `{}` after{}", cli::how(&r), g.unwrap_or("<end of output>"), h.upto(h.ops.len())));
            }
        }
        if r.code != 0 { return fail("exit", format!("{} after all operations of{}", cli::how(&r), normal.last().unwrap().upto(99))); }
    }
    for h in hs.iter().filter(|h| h.fatal) {
        out.bad = index(h);
        let r = run(&[h]);
        let n = h.ops.len() - 1;
        let want: String = h.ops[..n].iter().map(|o| o.2.clone() + "\n").collect();
        if r.timeout { return fail(&format!("hang-{}", h.ops[n].0), format!("does not end within 40 s:{}", h.upto(n + 1))); }
        let got = r.text();
        // a refusal is the library's own message, not a memory fault
        if r.code == 0 || r.err.is_empty() || got != want {
            return fail(&format!("unchecked-{}", h.ops[n].0), format!("{} with output\n{}where the last operation must stop the program:{}", cli::how(&r), got, h.upto(n + 1)));
        }
    }
    Ok(())
}

pub fn exe() -> String {
    std::env::var("VH_DRIVER").expect("VH_DRIVER")
}
