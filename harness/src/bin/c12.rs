//! C12: values over the border to C, both ways: arguments, results, memory, sizes; against the C compiler.
use std::fmt::Write as _;
use std::process::Command;
use vharness::cli::{self, Scratch};
use vharness::{fail, main_with, Case, Out, Tape};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sc { I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Bool, Char, Ptr }
use Sc::*;
const SCS: [Sc; 13] = [I64, F64, I32, U8, F32, I8, U64, I16, U32, U16, Bool, Char, Ptr];

impl Sc {
    fn c(self) -> &'static str { match self { I8 => "int8_t", I16 => "int16_t", I32 => "int32_t", I64 => "int64_t", U8 => "uint8_t", U16 => "uint16_t", U32 => "uint32_t", U64 => "uint64_t", F32 => "float", F64 => "double", Bool => "_Bool", Char => "uint32_t", Ptr => "void *" } }
    fn l(self) -> &'static str { match self { I8 => "I8", I16 => "I16", I32 => "I32", I64 => "I64", U8 => "U8", U16 => "U16", U32 => "U32", U64 => "U64", F32 => "F32", F64 => "F64", Bool => "Bool", Char => "Char", Ptr => "(Ptr U8)" } }
    fn tag(self) -> &'static str { if self == Ptr { "Ptr" } else { self.l() } }
    fn width(self) -> u32 { match self { I8 | U8 => 8, I16 | U16 => 16, I32 | U32 | F32 | Char => 32, Bool => 1, _ => 64 } }
}

#[derive(Clone, PartialEq, Debug)]
enum Ty { S(Sc), T(usize) }

struct St { con: String, ty: String, fields: Vec<Ty>, leaves: usize, depth: usize, def: String }

/// The bits of each scalar in it, in order
type Val = Vec<u64>;

/// `plain`: structures only in the shapes that the LLVM backend passes as C does (see the known finding)
struct Gen { structs: Vec<St>, c: String, l: String, checks: usize, plain: bool }

impl Gen {
    /// Whether it is a scalar, or at most two eightbytes, each one scalar; passing it takes that many registers of the two classes
    fn plain(&self, t: &Ty, regs: &mut (i32, i32), ret: bool) -> bool {
        let mut v = vec![];
        self.scalars(t, "", &mut v);
        let f = v.iter().filter(|(_, s)| matches!(s, F32 | F64)).count() as i32;
        let i = v.len() as i32 - f;
        if let Ty::T(_) = t {
            let full = v.iter().all(|(_, s)| s.width() == 64);
            if ret { return full || self.size(t).0 > 16; }
            if !full || v.len() > 2 || regs.0 < i || regs.1 < f { return false; }
        }
        regs.0 -= i; regs.1 -= f;
        true
    }
    fn size(&self, t: &Ty) -> (usize, usize) {
        match t {
            Ty::S(s) => { let n = (s.width() as usize).div_ceil(8); (n, n) }
            Ty::T(k) => {
                let (mut n, mut a) = (0usize, 1);
                for f in &self.structs[*k].fields { let (m, b) = self.size(f); n = n.next_multiple_of(b) + m; a = a.max(b); }
                (n.next_multiple_of(a), a)
            }
        }
    }
    fn leaves(&self, t: &Ty) -> usize { match t { Ty::S(_) => 1, Ty::T(k) => self.structs[*k].leaves } }
    fn scalars(&self, t: &Ty, path: &str, out: &mut Vec<(String, Sc)>) {
        match t { Ty::S(s) => out.push((path.into(), *s)), Ty::T(k) => for (i, f) in self.structs[*k].fields.iter().enumerate() { self.scalars(f, &format!("{}.m{}", path, i), out); } }
    }
    fn cty(&self, t: &Ty) -> String { match t { Ty::S(s) => s.c().into(), Ty::T(k) => format!("S{}", k) } }
    fn lty(&self, t: &Ty) -> String { match t { Ty::S(s) => s.l().into(), Ty::T(k) => self.structs[*k].ty.clone() } }
    fn val(&self, t: &mut Tape, ty: &Ty) -> Val {
        let mut v = vec![];
        self.scalars(ty, "", &mut v);
        v.iter().map(|(_, s)| match s {
            F32 => ((t.below(200001) as f32 - 100000.0) / 8.0).to_bits() as u64,
            F64 => ((t.below(20000001) as f64 - 10000000.0) / 1024.0).to_bits(),
            Char => *t.pick(&['a', 'Z', '0', 'é', '漢', '😀', '~', 'ß']) as u64,
            s => { let b = t.bits64(); if s.width() == 64 { b } else { b & ((1 << s.width()) - 1) } }
        }).collect()
    }
    fn cval(s: Sc, b: u64) -> String {
        match s {
            F32 => format!("{:.6}f", f32::from_bits(b as u32)), F64 => format!("{:.12}", f64::from_bits(b)),
            Ptr => format!("(void *)0x{:x}ULL", b), s => format!("({})0x{:x}ULL", s.c(), b),
        }
    }
    fn lscalar(s: Sc, b: u64) -> String {
        match s {
            Bool => if b == 1 { "#t".into() } else { "#f".into() },
            Char => format!("#\\{}", char::from_u32(b as u32).unwrap()),
            F32 => { let f = f32::from_bits(b as u32); format!("{:?} {{F32}}", f) } F64 => format!("{:?} {{F64}}", f64::from_bits(b)),
            Ptr => format!("(ptr/from-address {} {{U64}}) {{(Ptr U8)}}", b),
            I8 => format!("{} {{I8}}", b as i8), I16 => format!("{} {{I16}}", b as i16), I32 => format!("{} {{I32}}", b as i32), I64 => format!("{} {{I64}}", b as i64),
            s => format!("{} {{{}}}", b, s.l()),
        }
    }
    fn lval(&self, t: &Ty, v: &mut &[u64]) -> String {
        match t {
            Ty::S(s) => { let b = v[0]; *v = &v[1..]; Self::lscalar(*s, b) }
            Ty::T(k) => {
                let st = &self.structs[*k];
                let f: Vec<String> = st.fields.iter().map(|f| self.lval(f, v)).collect();
                let e = format!("({} {})", st.con, f.join(" "));
                if st.ty.starts_with('(') { format!("{} {{{}}}", e, st.ty) } else { e }
            }
        }
    }
    /// A pattern for the leaves, named after `n`
    fn lpat(&self, t: &Ty, n: &str, k: &mut usize) -> String {
        match t { Ty::S(_) => { *k += 1; format!("(let {}{})", n, *k - 1) } Ty::T(s) => { let st = &self.structs[*s]; format!("({} {})", st.con, st.fields.iter().map(|f| self.lpat(f, n, k)).collect::<Vec<_>>().join(" ")) } }
    }
    /// llrl's side of a check of the leaves
    fn lcheck(&mut self, t: &Ty, v: &Val, n: &str, id: usize, base: usize) -> String {
        let mut s = vec![];
        self.scalars(t, "", &mut s);
        let mut o = String::new();
        for (j, (p, sc)) in s.iter().enumerate() {
            let _ = write!(o, " (chk{} {} {} {}{})", sc.tag(), id, base + j, n, j);
            let _ = write!(self.c, "/* {} {} is {} */ ", id, base + j, p);
            let _ = writeln!(self.c, "EXPECT({}, {}, 0x{:x}ULL)", id, base + j, v[j]);
            self.checks += 1;
        }
        o
    }
    fn ccheck(&mut self, t: &Ty, v: &Val, x: &str, id: usize, base: usize) {
        let mut s = vec![];
        self.scalars(t, x, &mut s);
        for (j, (p, _)) in s.iter().enumerate() { let _ = writeln!(self.c, "  CK({}, {}, {}, 0x{:x}ULL);", id, base + j, p, v[j]); self.checks += 1; }
    }
    fn cset(&mut self, t: &Ty, v: &Val, x: &str) {
        let mut s = vec![];
        self.scalars(t, x, &mut s);
        for (j, (p, sc)) in s.iter().enumerate() { let _ = writeln!(self.c, "  {} = {};", p, Self::cval(*sc, v[j])); }
    }
    fn describe(&self, t: &Ty) -> String { match t { Ty::S(s) => s.tag().into(), Ty::T(k) => format!("{{{}}}", self.structs[*k].fields.iter().map(|f| self.describe(f)).collect::<Vec<_>>().join(" ")) } }
}

const C_HEAD: &str = r#"
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
static uint64_t done, bad_;
static void bad(int id, int j, uint64_t got, uint64_t want) { if (bad_++ < 40) fprintf(stderr, "bad %d %d %llx %llx\n", id, j, (unsigned long long)got, (unsigned long long)want); }
#define CK(id, j, x, want) do { uint64_t v_ = 0; __typeof__(x) y_ = (x); __asm__ volatile("" : "+m"(y_)); memcpy(&v_, &y_, sizeof(y_)); done++; if (v_ != (want)) bad(id, j, v_, want); } while (0)
#define FRAME(id) do { if ((uintptr_t)__builtin_frame_address(0) % 16) bad(id, 9999, (uintptr_t)__builtin_frame_address(0) % 16, 0); } while (0)
/* (only the bits of the value count: clang takes narrow arguments to be extended, which the ABI does not say) */
/* what a callee may leave in the registers it need not keep */
#define CLOBBER() __asm__ volatile("movq $-0x0123456789abcdf,%%rax\n movq %%rax,%%rcx\n movq %%rax,%%rdx\n movq %%rax,%%rsi\n movq %%rax,%%rdi\n movq %%rax,%%r8\n movq %%rax,%%r9\n movq %%rax,%%r10\n movq %%rax,%%r11\n" \
  "movq %%rax,%%xmm0\n movq %%rax,%%xmm1\n movq %%rax,%%xmm2\n movq %%rax,%%xmm3\n movq %%rax,%%xmm4\n movq %%rax,%%xmm5\n movq %%rax,%%xmm6\n movq %%rax,%%xmm7\n movq %%rax,%%xmm8\n movq %%rax,%%xmm9\n movq %%rax,%%xmm10\n movq %%rax,%%xmm11\n movq %%rax,%%xmm12\n movq %%rax,%%xmm13\n movq %%rax,%%xmm14\n movq %%rax,%%xmm15\n" \
  ::: "rax","rcx","rdx","rsi","rdi","r8","r9","r10","r11","xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15","memory","cc")
static uint64_t want_(int id, int j);
void vx_finish(void) { fprintf(stderr, "done %llu bad %llu\n", (unsigned long long)done, (unsigned long long)bad_); }
"#;

fn gen(t: &mut Tape, out: &mut Out) -> (Gen, Vec<String>) {
    let mut g = Gen { structs: vec![], c: String::new(), l: String::new(), checks: 0, plain: t.bool() };
    let full = [I64, U64, F64, Ptr];
    let scalar = |t: &mut Tape| SCS[t.below(13) as usize];
    for k in 0..t.range(1, 6) {
        let generic = t.chance(1, 5);
        let n = t.range(1, 8);
        // few kinds in one structure make for full eightbytes of one class
        let narrow = g.plain && t.chance(2, 3);
        let few: Vec<Sc> = (0..3).map(|_| if narrow { *t.pick(&full) } else { scalar(t) }).collect();
        let n = if narrow { t.range(1, 2) } else { n };
        let mixed = !narrow && t.bool();
        let mut st = St { con: format!("s{}:", k), ty: format!("S{}", k), fields: vec![], leaves: 0, depth: 1, def: String::new() };
        for _ in 0..n {
            let mut f = Ty::S(if mixed { scalar(t) } else { *t.pick(&few) });
            if k > 0 && t.chance(1, 4) {
                let s = t.below(k as u64) as usize;
                if g.structs[s].depth < 3 && g.structs[s].leaves + st.leaves < 16 { f = Ty::T(s); }
            }
            st.leaves += g.leaves(&f);
            if let Ty::T(s) = f { st.depth = st.depth.max(g.structs[s].depth + 1); }
            st.fields.push(f);
        }
        let fs: Vec<String> = st.fields.iter().map(|f| g.lty(f)).collect();
        if generic {
            let p = t.below(n as u64) as usize;
            let f: Vec<&str> = fs.iter().enumerate().map(|(i, f)| if i == p { "A" } else { f.as_str() }).collect();
            st.def = format!("(c-data (S{0} A) (s{0}: {1}))", k, f.join(" "));
            st.ty = format!("(S{} {})", k, fs[p]);
        } else {
            st.def = format!("(c-data S{0} (s{0}: {1}))", k, fs.join(" "));
        }
        let _ = writeln!(g.l, "{}", st.def);
        let _ = writeln!(g.c, "typedef struct {{ {} }} S{};", st.fields.iter().enumerate().map(|(i, f)| format!("{} m{};", g.cty(f), i)).collect::<Vec<_>>().join(" "), k);
        g.structs.push(st);
    }
    for s in SCS {
        let _ = writeln!(g.c, "void vx_chk{}(uint32_t id, uint32_t j, {} x) {{ CK(id, j, x, want_(id, j)); CLOBBER(); }}\n{1} vx_keep{0}({1} x) {{ CLOBBER(); return x; }}", s.tag(), s.c());
        let _ = writeln!(g.l, "(c-function chk{0} {{(-> U32 U32 {1} unit)}} \"vx_chk{0}\")\n(c-function keep{0} {{(-> {1} {1})}} \"vx_keep{0}\")", s.tag(), s.l());
    }
    let _ = writeln!(g.l, "(c-function finish {{(-> unit)}} \"vx_finish\")\n(function (pass x) {{(forall A) (-> A A)}} x)");
    let mut what = vec![];
    let mut main = String::new();
    let ns = g.structs.len();
    let any = |t: &mut Tape, scalars: u64| if t.chance(scalars, 10) { Ty::S(SCS[t.below(13) as usize]) } else { Ty::T(t.below(ns as u64) as usize) };
    for id in 0..t.range(1, 10) {
        let from = t.used();
        match t.below(5) {
            0 => { // memory, sizes
                let k = t.below(ns as u64) as usize;
                let ty = Ty::T(k);
                let at = t.below(3) as usize;
                let (v, w) = (g.val(t, &ty), g.val(t, &ty));
                let lty = g.lty(&ty);
                let _ = writeln!(g.c, "static S{} buf{}[4];\nvoid *vx_buf{1}(void) {{", k, id);
                let _ = writeln!(g.c, "  memset(buf{}, 0xa5, sizeof buf{0});", id);
                g.cset(&ty, &v, &format!("buf{}[{}]", id, at));
                let _ = writeln!(g.c, "  CLOBBER(); return buf{};\n}}\nvoid vx_look{0}(void) {{", id);
                g.ccheck(&ty, &w, &format!("buf{}[{}]", id, at + 1), id, 100);
                g.ccheck(&ty, &v, &format!("buf{}[{}]", id, at), id, 200);
                let _ = writeln!(g.c, "}}\nSIZE({0}, 300, sizeof(S{1})) SIZE({0}, 301, _Alignof(S{1}))", id, k);
                let _ = writeln!(g.l, "(c-function buf{} {{(-> (Ptr {}))}} \"vx_buf{0}\")\n(c-function look{0} {{(-> unit)}} \"vx_look{0}\")", id, lty);
                let c = g.lcheck(&ty, &v, "x", id, 0);
                let pat = g.lpat(&ty, "x", &mut 0);
                let val = g.lval(&ty, &mut &w[..]);
                let e = if t.bool() { format!("(pass {})", val) } else { val };
                let _ = writeln!(g.l, "(function (t{}) {{(-> unit)}}\n  (let1 p (buf{0})\n    (with1 {} (ptr/load (ptr/offset {} p)) {} unit)\n    (ptr/store! {} (ptr/offset {} p))\n    (look{0})\n    (chkU64 {0} 300 (size-of {6})) (chkU64 {0} 301 (align-of {6}))))", id, pat, at, c, e, at + 1, lty);
                g.checks += 2;
                what.push(format!("memory of {}", g.describe(&ty)));
                out.classes.push("structure in memory");
            }
            _ => {
                let heavy = t.chance(1, 3);
                let n = if t.chance(1, 3) { t.range(6, 16) } else { t.range(0, 6) };
                let mut ret = if t.chance(1, 8) { None } else { Some(any(t, 4)) };
                if let Some(r) = &ret { if g.plain && !g.plain(r, &mut (0, 0), true) { ret = Some(Ty::S(scalar(t))); } }
                // a large result takes one register for its address
                let mut regs = (if ret.as_ref().map_or(false, |r| g.size(r).0 > 16) { 5 } else { 6 }, 8);
                let ps: Vec<Ty> = (0..n).map(|_| {
                    let p = any(t, if heavy { 3 } else { 7 });
                    if g.plain && !g.plain(&p, &mut regs, false) { let s = Ty::S(scalar(t)); g.plain(&s, &mut regs, false); s } else { p }
                }).collect();
                let vs: Vec<Val> = ps.iter().map(|p| g.val(t, p)).collect();
                let rv = ret.as_ref().map(|r| g.val(t, r));
                let sig = format!("{} -> {}", ps.iter().map(|p| g.describe(p)).collect::<Vec<_>>().join(", "), ret.as_ref().map_or("unit".into(), |r| g.describe(r)));
                out.classes.push(if ps.is_empty() { "no arguments" } else if n > 6 { "over 6 arguments" } else { "up to 6 arguments" });
                if ps.iter().any(|p| matches!(p, Ty::T(_))) { out.classes.push("structure passed"); }
                if matches!(ret, Some(Ty::T(_))) { out.classes.push("structure returned"); }
                // values that come from C while the arguments are being prepared
                let mut args = vec![];
                let mut lets = String::new();
                for (j, (p, v)) in ps.iter().zip(&vs).enumerate() {
                    let plain = g.lval(p, &mut &v[..]);
                    args.push(match t.below(6) {
                        0 => { let _ = write!(lets, "[a{} {}]", j, plain); format!("a{}", j) }
                        1 => format!("(pass {})", plain),
                        2 if !g.plain || g.plain(p, &mut (0, 0), true) => {
                            let _ = writeln!(g.c, "{0} vx_mk{1}_{2}(void) {{ {0} r; CLOBBER();", g.cty(p), id, j);
                            g.cset(p, v, "r");
                            let _ = writeln!(g.c, "  return r; }}");
                            let _ = writeln!(g.l, "(c-function mk{0}_{1} {{(-> {2})}} \"vx_mk{0}_{1}\")", id, j, g.lty(p));
                            if t.bool() { format!("(mk{}_{})", id, j) } else { let _ = write!(lets, "[a{} (mk{}_{0})]", j, id); format!("a{}", j) }
                        }
                        3 if matches!(p, Ty::S(_)) => { let Ty::S(s) = p else { unreachable!() }; format!("(keep{} {})", s.tag(), plain) }
                        _ => plain,
                    });
                }
                let rc = ret.as_ref().map_or("void".into(), |r| g.cty(r));
                let _ = writeln!(g.c, "/* {} */\n{} vx_f{}({}) {{ FRAME({2});", sig, rc, id, if ps.is_empty() { "void".into() } else { ps.iter().enumerate().map(|(j, p)| format!("{} p{}", g.cty(p), j)).collect::<Vec<_>>().join(", ") });
                let mut base = 0;
                for (j, p) in ps.iter().enumerate() { g.ccheck(p, &vs[j], &format!("p{}", j), id, base); base += g.leaves(p); }
                g.c.push_str("  CLOBBER();\n");
                match (&ret, &rv) {
                    (Some(Ty::S(s)), Some(v)) if !matches!(s, F32 | F64 | Bool) => { let junk = if s.width() < 64 { t.bits64() << s.width() } else { 0 }; let _ = writeln!(g.c, "  {{ static volatile uint64_t x = 0x{:x}ULL; return ({})x; }}\n}}", v[0] | junk, rc); }
                    (Some(r), Some(v)) => { let _ = writeln!(g.c, "  {} r; memset(&r, 0x5a, sizeof r);", rc); g.cset(r, v, "r"); g.c.push_str("  return r;\n}\n"); }
                    _ => g.c.push_str("}\n"),
                }
                let _ = writeln!(g.l, "(c-function f{} {{(->{} {})}} \"vx_f{0}\")", id, ps.iter().map(|p| format!(" {}", g.lty(p))).collect::<String>(), ret.as_ref().map_or("unit".into(), |r| g.lty(r)));
                let call = format!("(f{}{})", id, args.iter().map(|a| format!(" {}", a)).collect::<String>());
                let body = match (&ret, &rv) {
                    (Some(r), Some(v)) => {
                        let c = g.lcheck(r, v, "r", id, 1000);
                        let pat = g.lpat(r, "r", &mut 0);
                        let call = if t.chance(1, 4) { format!("(pass {})", call) } else { call };
                        format!("(with1 {} {}\n      {})", pat, call, c)
                    }
                    _ => call,
                };
                // values that live across the call
                let (k0, k1) = (t.bits64(), ((t.below(2000) as f64 - 1000.0) / 4.0).to_bits());
                let keep = g.lcheck(&Ty::S(U64), &vec![k0], "k", id, 2000) + &g.lcheck(&Ty::S(F64), &vec![k1], "h", id, 2001);
                let _ = writeln!(g.l, "(function (t{}) {{(-> unit)}}\n  (let* ([k0 (keepU64 {})] [h0 (keepF64 {})] {})\n    {}\n   {}))", id, k0, Gen::lscalar(F64, k1), lets, body, keep);
                what.push(sig);
            }
        }
        let _ = writeln!(main, "(t{})", id);
        out.spans.push((from, t.used()));
    }
    g.l.push_str(&main);
    g.l.push_str("(finish)\n");
    (g, what)
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let (g, what) = gen(t, out);
    let clang = t.chance(1, 3);
    let opt = *t.pick(&["-O1", "-O0", "-O2"]);
    out.evals = what.len() as u64;
    out.desc = what.join("; ");
    for w in &what { if w.contains('{') { out.subs.push(w.clone()); } }
    let d = Scratch::new();
    // expectations of llrl's side
    let mut c = String::from(C_HEAD);
    let mut table = String::from("static uint64_t want_(int id, int j) {\n");
    for l in g.c.lines() {
        if let Some((_, e)) = l.split_once("EXPECT(") {
            let p: Vec<&str> = e.trim_end_matches(')').split(", ").collect();
            let _ = writeln!(table, "  if (id == {} && j == {}) return {};", p[0], p[1], p[2]);
        } else if let Some(e) = l.strip_prefix("SIZE(") {
            for e in e.split("SIZE(") {
                let (p, x) = e.trim().strip_suffix(')').unwrap().rsplit_once(", ").unwrap();
                let (a, b) = p.split_once(", ").unwrap();
                let _ = writeln!(table, "  if (id == {} && j == {}) return {};", a, b, x);
            }
        } else { c.push_str(l); c.push('\n'); }
    }
    c.push_str(&table);
    c.push_str("  return 0xdeadbeef;\n}\n");
    let mut src = String::from("(import \"std/memory\" ptr/_ Ptr size-of align-of)\n");
    src.push_str(&g.l);
    d.write("c.c", c.as_bytes());
    let o = Command::new(if clang { "clang" } else { "gcc" }).args([opt, "-w", "-fno-omit-frame-pointer", "-fPIC", "-c", "-o", "c.o", "c.c"]).current_dir(&d.0).output().expect("cc");
    if !o.status.success() { panic!("{}\n{}", String::from_utf8_lossy(&o.stderr), c); }
    d.write("cur/m.llrl", src.as_bytes());
    // the compilers run what they compile, and so need to know the functions, too
    let o = Command::new("gcc").args(["-shared", "-o", "c.so", "c.o"]).current_dir(&d.0).output().expect("gcc");
    if !o.status.success() { panic!("{}", String::from_utf8_lossy(&o.stderr)); }
    let listed = t.chance(1, 6);
    for cf in cli::configs() {
        let llvm = cf.flags.iter().any(|f| f == "-llvm") || cf.name.contains("llvm");
        if llvm && !g.plain && !listed { continue; }
        let mut a = cf.flags.clone();
        a.extend(["-o".to_string(), d.path("m"), "-c../c.o".to_string(), "m".to_string()]);
        let _ = std::fs::remove_file(d.0.join("m"));
        let r = cli::run(&cf.compiler, &a, &d.0.join("cur"), b"", 120, &[("LD_PRELOAD", &d.path("c.so"))]);
        if r.timeout { panic!("{} does not end within 120 s", cf.name); }
        if r.code != 0 || !d.0.join("m").exists() { return fail("rejected", format!("{}: the program is not compiled ({}): {}\n{}", cf.name, cli::how(&r), r.both().chars().take(600).collect::<String>(), src)); }
        let r = cli::exec(&d, "m", b"", &[]);
        let err = String::from_utf8_lossy(&r.err).into_owned();
        let want = format!("done {} bad 0", g.checks);
        if r.code == 0 && err.trim() == want { continue; }
        if llvm && !g.plain { return fail("llvm-structures", format!("{}: structures of other shapes: {}", cf.name, what.join("; "))); }
        let Some(l) = err.lines().find(|l| l.starts_with("bad ")) else { return fail("run", format!("{} with {} {}: the program {}, writing `{}`, not `{}`: {}", cf.name, if clang { "clang" } else { "gcc" }, opt, cli::how(&r), err.trim(), want, what.join("; "))) };
        let p: Vec<&str> = l.split(' ').collect();
        let (id, j): (usize, usize) = (p[1].parse().unwrap_or(0), p[2].parse().unwrap_or(0));
        out.bad = Some(id);
        let part = match j { 9999 => "the alignment of the stack".into(), 300 | 301 => "size or alignment".into(), 0..=99 => format!("scalar {} as C receives it (or llrl loads it)", j), 100..=299 => format!("scalar {} in memory", j % 100), 2000 | 2001 => "a value kept across the call".into(), j => format!("scalar {} of the result", j - 1000) };
        return fail(match j { 9999 => "stack", 300 | 301 => "size", 2000 | 2001 => "kept", 100..=299 => "memory", 0..=99 => "passed", _ => "returned" }, format!("{} with {} {}: `{}`: {} is {}, not {}", cf.name, if clang { "clang" } else { "gcc" }, opt, what.get(id).cloned().unwrap_or_default(), part, p[3], p[4]));
    }
    Ok(())
}

fn main() { main_with("c12", &|t, out| case(t, out)); }
