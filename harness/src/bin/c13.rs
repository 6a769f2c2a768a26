//! C13: what the assembler emits, decoded by binutils' disassembler and compared with what binutils' assembler
//! makes of the same instruction in AT&T syntax.
use std::fmt::Write as _;
use std::process::Command;
use vharness::cli::Scratch;
use vharness::xforms::FORMS;
use vharness::xobj::{self, Ref, Script, Sec, Shape, Step};
use vharness::xop::*;
use vharness::{fail, main_with, Case, Out, Tape};

pub const SLOT: usize = 32;

fn mnemonic(name: &str) -> &str {
    match name {
        "imull1" | "imull2" => "imull",
        "imulw1" | "imulw2" => "imulw",
        "imulq1" | "imulq2" => "imulq",
        "retq1" => "retq",
        n => n,
    }
}

fn relative(f: &Form) -> bool { f.name.starts_with('j') && matches!(f.kinds[0], Kind::i8 | Kind::i32) || f.name == "callq" && f.kinds[0] == Kind::i32 }

fn att(f: &Form, ops: &[Op]) -> String {
    if relative(f) {
        let Op::Imm(d) = ops[0] else { unreachable!() };
        return format!("{} 1f+({})\n1:", if f.name == "jmpq" { "jmp" } else { f.name }, d);
    }
    let m = if f.kinds == [Kind::Gpr64, Kind::i64] { "movabsq" } else { mnemonic(f.name) };
    if m == "callq" || m == "jmpq" { return format!("{} *{}", m, ops[0].att()); }
    // an 8-bit immediate is a number that is sign-extended, or 8 bits
    let number = ["adc", "add", "and", "cmp", "or", "sbb", "sub", "xor", "imul", "mov", "push", "test"].iter().any(|p| m.starts_with(p)) && !f.kinds.contains(&Kind::Xmm);
    let o: Vec<String> = ops.iter().zip(f.kinds).rev().map(|(o, k)| match (o, k) {
        (Op::Imm(n), Kind::i8) if !number => format!("${}", *n as u8),
        _ => o.att(),
    }).collect();
    format!("{} {}", m, o.join(","))
}

/// The instruction at the start of every slot, and the number of bytes it takes
fn decode(bin: &std::path::Path, n: usize) -> Vec<(String, usize)> {
    let o = Command::new("objdump").args(["-D", "-z", "-w", "-b", "binary", "-m", "i386:x86-64"]).arg(bin).output().expect("objdump");
    let text = String::from_utf8_lossy(&o.stdout);
    let mut v = vec![(String::new(), 0); n];
    for l in text.lines() {
        let mut p = l.split('\t');
        let (Some(a), Some(b), Some(i)) = (p.next(), p.next(), p.next()) else { continue };
        let Ok(a) = usize::from_str_radix(a.trim().trim_end_matches(':'), 16) else { continue };
        if a % SLOT != 0 || a / SLOT >= n { continue; }
        let len = b.split_whitespace().count();
        let mut c = canon(i);
        // the destination of a relative jump, counted from its end
        if let Some((m, d)) = c.split_once(" 0x") {
            if m.starts_with('j') || m.starts_with("call") {
                if let Ok(d) = u64::from_str_radix(d, 16) { c = format!("{} {:+}", m, d.wrapping_sub((a + len) as u64) as i64); }
            }
        }
        v[a / SLOT] = (c, len);
    }
    v
}

fn canon(s: &str) -> String {
    let s = s.split('#').next().unwrap().trim();
    // prefixes without a meaning there
    let s = s.strip_prefix("data16 ").filter(|s| s.starts_with("str ")).unwrap_or(s);
    let s = match s { "rex.W nop" => "nop", "int    $0x3" => "int3", "xchg   %rax,%rax" => "nop", s => s };
    let s = s.replace("$1,", "$0x1,").replace(" 0x0(", " (").replace(",0x0(", ",(").replace("*0x0(", "*(");
    let mut p = s.splitn(2, char::is_whitespace);
    let m = p.next().unwrap_or("");
    let o = p.next().unwrap_or("").trim();
    // both operands play the same part, and either may be the r/m
    if m.starts_with("test") || m.starts_with("xchg") {
        let (mut depth, mut cut) = (0, None);
        for (i, c) in o.char_indices() {
            match c { '(' => depth += 1, ')' => depth -= 1, ',' if depth == 0 => cut = Some(i), _ => {} }
        }
        if let Some(i) = cut {
            let (a, b) = (&o[..i], &o[i + 1..]);
            if !a.starts_with('$') { let (x, y) = if a < b { (a, b) } else { (b, a) }; return format!("{} {},{}", m, x, y); }
        }
    }
    format!("{} {}", m, o).trim().to_string()
}

struct Inst { form: usize, ops: Vec<Op> }
impl Inst {
    fn show(&self) -> String { att(&FORMS[self.form], &self.ops) }
}

fn gen_insts(t: &mut Tape, out: &mut Out, max: usize) -> Vec<Inst> {
    let mut v = vec![];
    for _ in 0..t.range(1, max) {
        let from = t.used();
        let form = t.below(FORMS.len() as u64) as usize;
        let ops = gen_ops(t, &FORMS[form]);
        v.push(Inst { form, ops });
        out.spans.push((from, t.used()));
    }
    v
}

fn insts(t: &mut Tape, out: &mut Out) -> Case {
    let v = gen_insts(t, out, 700);
    out.evals = v.len() as u64;
    out.desc = v.iter().max_by_key(|i| i.ops.len()).map(|i| i.show()).unwrap_or_default();
    let dir = Scratch::new();
    let (mut bin, mut src) = (vec![], String::from(".text\n"));
    let mut lens = vec![];
    for (k, i) in v.iter().enumerate() {
        let f = &FORMS[i.form];
        let mut b = vec![];
        out.bad = Some(k);
        (f.emit)(&i.ops, &mut b).map_err(|e| (format!("inst-{}", f.name), format!("{}: {}", i.show(), e)))?;
        if b.len() >= SLOT { return fail(&format!("inst-{}", f.name), format!("{} takes {} bytes", i.show(), b.len())); }
        lens.push(b.len());
        let _ = writeln!(src, ".balign {},0x90\n{}", SLOT, att(f, &i.ops));
        b.resize(SLOT, 0x90);
        bin.extend(b);
        out.classes.push(match f.kinds.len() { 0 => "operands-0", 1 => "operands-1", 2 => "operands-2", _ => "operands-3" });
        for o in &i.ops { out.classes.push(o.class()); }
        if !i.ops.is_empty() { out.subs.push(format!("{} {:?} {}", i.show(), f.kinds, lens[k])); }
    }
    out.bad = None;
    // (a prefix alone decodes with the padding after it)
    let _ = writeln!(src, ".balign {},0x90", SLOT);
    dir.write("a.bin", &bin);
    dir.write("a.s", src.as_bytes());
    let o = Command::new("as").args(["--64", "-mmnemonic=att", "-o"]).arg(dir.0.join("a.o")).arg(dir.0.join("a.s")).output().expect("as");
    if !o.status.success() { panic!("as: {}\n{}", String::from_utf8_lossy(&o.stderr), src); }
    let o = Command::new("objcopy").args(["-O", "binary", "-j", ".text"]).arg(dir.0.join("a.o")).arg(dir.0.join("b.bin")).output().expect("objcopy");
    assert!(o.status.success());
    let got = decode(&dir.0.join("a.bin"), v.len());
    let want = decode(&dir.0.join("b.bin"), v.len());
    let mut listed: Option<(&str, usize, String)> = None;
    for (k, i) in v.iter().enumerate() {
        let f = &FORMS[i.form];
        let hex = bin[k * SLOT..k * SLOT + lens[k]].iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ");
        out.bad = Some(k);
        if let Some(sig) = listed_as(f, &i.ops, &bin[k * SLOT..k * SLOT + lens[k]]) {
            if got[k].0 != want[k].0 { listed = Some((sig, k, format!("`{}` is emitted as {}, which is `{}`", i.show(), hex, got[k].0))); }
            continue;
        }
        if got[k].0 != want[k].0 {
            return fail(&format!("inst-{}", f.name), format!("`{}` ({} {:?}) is emitted as {}, which is `{}`, not `{}`", i.show(), f.name, f.kinds, hex, got[k].0, want[k].0));
        }
        // a prefix alone decodes with the padding after it
        if got[k].1 != lens[k] && f.name != "lock" {
            return fail(&format!("length-{}", f.name), format!("`{}` is emitted as {}, of which `{}` takes {} bytes", i.show(), hex, got[k].0, got[k].1));
        }
    }
    out.bad = None;
    if let Some((sig, k, msg)) = listed { out.bad = Some(k); return fail(sig, msg); }
    Ok(())
}

/// The two listed findings, each of one form and emitted in one particular way
fn listed_as(f: &Form, ops: &[Op], b: &[u8]) -> Option<&'static str> {
    if f.name == "pushq" && f.kinds == [Kind::i16] {
        let Op::Imm(n) = ops[0] else { unreachable!() };
        let n = n as i16 as u16;
        if b == [0x66, 0x68, n as u8, (n >> 8) as u8] { return Some("pushq-imm16"); }
    }
    if f.name == "xchgl" && f.kinds != [Kind::Gpr32, Kind::Gpr32] && b == [0x90] { return Some("xchgl-eax-eax"); }
    None
}

/// Labels: every reference of an object is resolved to its label or left to the linker as what it is
fn labels(t: &mut Tape, out: &mut Out) -> Case {
    for k in 0..t.range(1, 30) {
        let from = t.used();
        let mut sh = shape(t);
        let s = xobj::gen(t, &mut sh);
        out.spans.push((from, t.used()));
        out.evals += 1;
        out.bad = Some(k);
        let m = s.model();
        out.desc = s.show();
        if m.uses.len() >= 2 { out.subs.push(out.desc.clone()); }
        for u in &m.uses {
            let d = m.defs.get(&u.label);
            out.classes.push(match u.kind { Ref::Pc8 => "short reference", Ref::Table => "reference through the table", Ref::Abs => "absolute reference",
                Ref::Pc32 if d.is_none() => "reference to an undefined symbol", Ref::Pc32 if d.unwrap().0 != u.sec => "reference across sections",
                Ref::Pc32 if d.unwrap().1 > u.pos => "forward reference", _ => "backward reference" });
        }
        if m.too_far() {
            out.classes.push("short reference too far");
            if let Ok(Ok(_)) = std::panic::catch_unwind(|| s.produce()) { return fail("too-far", format!("a short reference that is too far is not refused: {}", s.show())); }
            continue;
        }
        let o = match s.produce() { Ok(o) => o, Err(e) => return fail("refused", format!("{}: {}", e, s.show())) };
        xobj::judge(&s, &m, &o)?;
    }
    out.bad = None;
    Ok(())
}

fn shape(t: &mut Tape) -> Shape {
    let globals = xobj::NAMES.iter().filter(|_| t.bool()).map(|s| s.to_string()).collect();
    Shape { globals, taken: vec![], short_across: true, insts: true, max: 40, near_undefined: true }
}

fn render(o: &xten::asm::Object) -> Vec<String> {
    let hex = |b: &[u8]| b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ");
    let mut v = vec![format!("text {}", hex(&o.text)), format!("data {}", hex(&o.data)), format!("rodata {}", hex(&o.rodata)), format!("bss {}", o.bss)];
    let loc = |l: &xten::asm::Location| format!("{} {}", match Sec::from(l.section) { Sec::Text => "text", Sec::Data => "data", Sec::Rodata => "rodata", Sec::Bss => "bss" }, l.pos);
    use xten::asm::*;
    let mut r: Vec<String> = o.symbols.iter().map(|s| format!("symbol {} {}", s.name, match s.binding { Binding::Local(l) => format!("local {}", loc(&l)), Binding::Global(Some(l)) => format!("global {}", loc(&l)), Binding::Global(None) => "undefined".into() })).collect();
    r.extend(o.relocs.iter().map(|r| format!("reloc {} {} {} {}", loc(&r.location),
        match r.ty { RelocType::PcRel8 => "pc8", RelocType::PcRel32 => "pc32", RelocType::PcRelToAddressTable32 => "table", RelocType::Abs64 => "abs" },
        match &r.target { RelocTarget::Symbol(n) => n.clone(), RelocTarget::Section(s) => loc(&Location::new(*s, 0)) }, r.addend)));
    r.sort();
    for l in &mut v { *l = l.trim_end().to_string(); }
    v.extend(r);
    v
}

const PEER: &str = r#"
(import "xten/asm" _)

(function (bytes tag a) {(-> String (Array U8) unit)}
  (ignore (print! tag))
  (for (let b) a (ignore (print! " " b)))
  (ignore (println! "")))

(function (loc l) {(-> Location String)}
  (with1 (location: (let s) (let p)) l
    (string (match s [location-section:text "text"] [location-section:data "data"] [location-section:rodata "rodata"] [location-section:bss "bss"]) " " p)))

(function (show! r) {(-> (Result Object String) unit)}
  (match r
    [(err (let e)) (ignore (println! "error " e))]
    [(ok (let o))
      (bytes "text" (object/text o))
      (bytes "data" (object/data o))
      (bytes "rodata" (object/rodata o))
      (ignore (println! "bss " (object/bss o)))
      (for (let s) (object/symbols o)
        (ignore (println! "symbol " (symbol/name s) " " (match (symbol/binding s)
          [(binding:local (let l)) (string "local " (loc l))]
          [(binding:global (some (let l))) (string "global " (loc l))]
          [(binding:global none) "undefined"]))))
      (for (let r) (object/relocs o)
        (ignore (println! "reloc " (loc (reloc/location r)) " "
          (match (reloc/ty r) [reloc-type:pc-rel8 "pc8"] [reloc-type:pc-rel32 "pc32"] [reloc-type:pc-rel-to-address-table32 "table"] [reloc-type:abs64 "abs"]) " "
          (match (reloc/target r) [(reloc-target:symbol (let n)) n] [(reloc-target:section (let s)) (loc (location: s 0))]) " "
          (reloc/addend r))))])
  (ignore (println! ".")))
"#;

/// The library of the self-hosted compiler on the same instructions and scripts
fn peer(t: &mut Tape, out: &mut Out) -> Case {
    let mut scripts: Vec<Script> = vec![];
    for _ in 0..t.range(1, 14) {
        let from = t.used();
        let mut s;
        if t.chance(2, 3) {
            s = Script::default();
            for _ in 0..t.range(1, 60) {
                let f = t.below(FORMS.len() as u64) as usize;
                let ops = gen_ops(t, &FORMS[f]);
                s.steps.push(Step::Inst(f, ops));
            }
        } else {
            let mut sh = shape(t);
            s = xobj::gen(t, &mut sh);
            if s.model().too_far() { s = Script::default(); }
        }
        out.spans.push((from, t.used()));
        scripts.push(s);
    }
    out.desc = scripts.iter().map(|s| s.show()).max_by_key(|s| s.len()).unwrap_or_default();
    let mut src = String::from(PEER);
    for (i, s) in scripts.iter().enumerate() {
        for st in &s.steps { if let Step::Inst(f, _) = st { out.evals += 1; out.subs.push(format!("xten1 {} {:?} {}", FORMS[*f].name, FORMS[*f].kinds, st.show(s))); } }
        if !s.labels.is_empty() { out.evals += 1; out.subs.push(format!("xten1 {}", s.show())); out.classes.push("peer: labels"); }
        out.classes.push("peer");
        let body = if s.steps.iter().all(|x| matches!(x, Step::Inst(..))) { s.steps.iter().map(|x| if let Step::Inst(f, ops) = x { format!("    {}\n", xobj::inst_llrl(*f, ops)) } else { String::new() }).collect() } else { s.llrl() };
        let _ = write!(src, "(function (s{0})\n  (let ([w (writer/new)])\n{1}    (writer/produce w)))\n(show! (s{0}))\n", i, body);
    }
    let c = vharness::cli::configs().into_iter().next().expect("a compiler");
    let d = Scratch::new();
    d.write("cur/m.llrl", src.as_bytes());
    let r = c.compile(&d, &[&format!("-pxten:{}", std::env::var("VH_XTEN1").unwrap_or("/repo/xten1".into())), "-c-ldl", "m"], "m");
    if r.code != 0 || !d.0.join("m").exists() { return fail("peer-rejected", format!("a program over xten1 is not compiled: {}\n{}", r.both(), src)); }
    let r = vharness::cli::exec(&d, "m", b"", &[]);
    let text = r.text();
    let mut got = text.split(".\n");
    for (k, s) in scripts.iter().enumerate() {
        out.bad = Some(k);
        let o = s.produce().map_err(|e| ("refused".to_string(), format!("{}: {}", e, s.show())))?;
        let want = render(&o);
        let g: Vec<&str> = got.next().unwrap_or("").lines().collect();
        let (mut a, mut b): (Vec<String>, Vec<String>) = (want.clone(), g.iter().map(|s| s.to_string()).collect());
        if g.len() > 4 { b[4..].sort(); }
        a[4..].sort();
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let none = String::from("(nothing)");
            return fail("peer", format!("xten0 yields `{}` and xten1 `{}` ({}) for {}", a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none), vharness::cli::how(&r), s.show()));
        }
    }
    out.bad = None;
    Ok(())
}

fn main() {
    let part = std::env::var("VH_PART").unwrap_or_default();
    main_with("c13", &|t, out| match part.as_str() { "labels" => labels(t, out), "peer" => peer(t, out), _ => insts(t, out) });
}
