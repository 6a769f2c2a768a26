//! Objects for the assembler, object file and in-process linker checks: a script for the writer, and a model of what
//! it means: the plain bytes of each section, where each label is and which field refers to which label how.
use crate::xforms::FORMS;
use crate::xop::{self, Kind, Op};
use crate::{fail, Case, Tape};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{self, Write as _};
use xten::asm::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Sec { Text, Data, Rodata, Bss }
pub const SECS: [Sec; 4] = [Sec::Text, Sec::Data, Sec::Rodata, Sec::Bss];
impl Sec {
    pub fn loc(self) -> LocationSection { match self { Sec::Text => LocationSection::Text, Sec::Data => LocationSection::Data, Sec::Rodata => LocationSection::Rodata, Sec::Bss => LocationSection::Bss } }
    pub fn from(l: LocationSection) -> Sec { match l { LocationSection::Text => Sec::Text, LocationSection::Data => Sec::Data, LocationSection::Rodata => Sec::Rodata, LocationSection::Bss => Sec::Bss } }
    pub fn name(self) -> &'static str { match self { Sec::Text => ".text", Sec::Data => ".data", Sec::Rodata => ".rodata", Sec::Bss => ".bss" } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Near, Short, Table }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ref { Pc8, Pc32, Table, Abs }

#[derive(Clone, PartialEq, Debug)]
pub enum Step {
    Inst(usize, Vec<Op>),
    Bytes(Sec, Vec<u8>),
    Alloc(Sec, u64),
    Align(Sec, u64),
    Def(Sec, usize),
    Jump(&'static str, Mode, usize),
    /// a store to the place of a label: register, xmm register or immediate
    Store(usize, Op),
    Load(Op, Mode, usize),
    Lea(u8, usize),
    Word(Sec, Ref, usize, i64),
}

#[derive(Clone, Debug)]
pub struct Lab { pub name: Option<String>, pub global: bool }

#[derive(Clone, Default, Debug)]
pub struct Script { pub labels: Vec<Lab>, pub steps: Vec<Step> }

#[derive(Clone, Debug)]
pub struct Use { pub sec: Sec, pub pos: u64, pub kind: Ref, pub label: usize, pub addend: i64, pub step: usize }

#[derive(Clone, Default, Debug)]
pub struct Model { pub bytes: [Vec<u8>; 3], pub bss: u64, pub defs: BTreeMap<usize, (Sec, u64)>, pub uses: Vec<Use> }

pub const JUMPS: [&str; 32] = ["callq", "jmpq", "ja", "jae", "jb", "jbe", "jc", "je", "jg", "jge", "jl", "jle", "jna", "jnae", "jnb", "jnbe", "jnc",
    "jne", "jng", "jnge", "jnl", "jnle", "jno", "jnp", "jns", "jnz", "jo", "jp", "jpe", "jpo", "js", "jz"];

fn plain(name: &str, kinds: &[Kind], ops: &[Op]) -> Vec<u8> {
    let f = FORMS.iter().find(|f| f.name == name && f.kinds == kinds).unwrap_or_else(|| panic!("no form {} {:?}", name, kinds));
    let mut v = vec![];
    (f.emit)(ops, &mut v).unwrap();
    v
}

impl Step {
    pub fn label(&self) -> Option<usize> {
        match self { Step::Jump(_, _, l) | Step::Store(l, _) | Step::Load(_, _, l) | Step::Lea(_, l) | Step::Word(_, _, l, _) => Some(*l), _ => None }
    }
    pub fn show(&self, s: &Script) -> String {
        let l = |l: &usize| s.labels[*l].name.clone().unwrap_or(format!(".L{}", l));
        match self {
            Step::Inst(f, ops) => format!("{} {}", FORMS[*f].name, ops.iter().rev().map(|o| o.att()).collect::<Vec<_>>().join(",")),
            Step::Bytes(s, b) => format!("{}: {} bytes", s.name(), b.len()),
            Step::Alloc(s, n) => format!("{}: allocate {}", s.name(), n),
            Step::Align(s, n) => format!("{}: align {}", s.name(), n),
            Step::Def(s, k) => format!("{}: {}:", s.name(), l(k)),
            Step::Jump(n, m, k) => format!("{} {:?} {}", n, m, l(k)),
            Step::Store(k, o) => format!("movq {}, {}(rip)", o.att(), l(k)),
            Step::Load(o, m, k) => format!("movq {:?} {}(rip), {}", m, l(k), o.att()),
            Step::Lea(r, k) => format!("leaq {}(rip), %{}", l(k), xop::gpr_name(*r, 64)),
            Step::Word(s, r, k, a) => format!("{}: {:?} {}{:+}", s.name(), r, l(k), a),
        }
    }
}

impl Script {
    pub fn show(&self) -> String { self.steps.iter().map(|s| s.show(self)).collect::<Vec<_>>().join("; ") }

    pub fn model(&self) -> Model {
        let mut m = Model::default();
        let rip = Op::Rip(Some(0));
        for (step, s) in self.steps.iter().enumerate() {
            let mut text = |m: &mut Model, b: Vec<u8>, field: u64, kind: Ref, label: usize| {
                m.bytes[0].extend(b);
                let end = m.bytes[0].len() as u64;
                m.uses.push(Use { sec: Sec::Text, pos: end - field, kind, label, addend: -(field as i64), step });
            };
            let mut fill = |m: &mut Model, sec: Sec, n: u64| match sec {
                Sec::Bss => m.bss += n,
                s => { let z = if s == Sec::Text { 0x90 } else { 0 }; let b = &mut m.bytes[s as usize]; b.resize(b.len() + n as usize, z) }
            };
            match s {
                Step::Inst(f, ops) => { let mut v = vec![]; (FORMS[*f].emit)(ops, &mut v).unwrap(); m.bytes[0].extend(v) }
                Step::Bytes(s, b) => m.bytes[*s as usize].extend(b),
                Step::Alloc(s, n) => fill(&mut m, *s, *n),
                Step::Align(s, n) => { let p = m.pos(*s); fill(&mut m, *s, (n - p % n) % n) }
                Step::Def(s, l) => { let p = m.pos(*s); m.defs.insert(*l, (*s, p)); }
                Step::Jump(n, Mode::Short, l) => text(&mut m, plain(n, &[Kind::i8], &[Op::Imm(0)]), 1, Ref::Pc8, *l),
                Step::Jump(n, Mode::Near, l) => text(&mut m, plain(n, &[Kind::i32], &[Op::Imm(0)]), 4, Ref::Pc32, *l),
                Step::Jump(n, Mode::Table, l) => text(&mut m, plain(n, &[Kind::Memory], &[rip]), 4, Ref::Table, *l),
                Step::Store(l, o @ Op::Gpr(..)) => text(&mut m, plain("movq", &[Kind::Memory, Kind::Gpr64], &[rip, *o]), 4, Ref::Pc32, *l),
                Step::Store(l, o @ Op::Xmm(_)) => text(&mut m, plain("movq", &[Kind::Memory, Kind::Xmm], &[rip, *o]), 4, Ref::Pc32, *l),
                Step::Store(l, o) => text(&mut m, plain("movq", &[Kind::Memory, Kind::i32], &[rip, *o]), 8, Ref::Pc32, *l),
                Step::Load(o, mode, l) => {
                    let k = if let Op::Xmm(_) = o { Kind::Xmm } else { Kind::Gpr64 };
                    text(&mut m, plain("movq", &[k, Kind::Memory], &[*o, rip]), 4, if *mode == Mode::Table { Ref::Table } else { Ref::Pc32 }, *l)
                }
                Step::Lea(r, l) => text(&mut m, plain("leaq", &[Kind::Gpr64, Kind::Memory], &[Op::Gpr(*r, 64), rip]), 4, Ref::Pc32, *l),
                Step::Word(s, kind, label, addend) => {
                    let size = match kind { Ref::Pc8 => 1, Ref::Abs => 8, _ => 4 };
                    m.uses.push(Use { sec: *s, pos: m.pos(*s), kind: *kind, label: *label, addend: *addend, step });
                    let b = &mut m.bytes[*s as usize];
                    b.resize(b.len() + size, 0);
                }
            }
        }
        m
    }

    pub fn produce(&self) -> io::Result<Object> {
        let mut w = Writer::new();
        let mut labels: Vec<Label> = vec![];
        for l in &self.labels {
            let x = match &l.name { Some(n) => w.get_label(n), None => w.issue_label() };
            labels.push(x);
        }
        macro_rules! jumps {
            ($name:expr, $mode:expr, $l:expr, $($m:ident)*) => { match ($name, $mode) {
                $( (stringify!($m), Mode::Near) => w.$m($l)?, (stringify!($m), Mode::Short) => w.$m(Short($l))?, )*
                ("jmpq", Mode::Near) => w.jmpq($l)?, ("jmpq", Mode::Short) => w.jmpq(Short($l))?, ("jmpq", Mode::Table) => w.jmpq(AddressTable($l))?,
                ("callq", Mode::Near) => w.callq($l)?, ("callq", Mode::Table) => w.callq(AddressTable($l))?,
                x => panic!("{:?}", x),
            } };
        }
        macro_rules! sec { ($s:expr, $w:ident => $e:expr) => { match $s {
            Sec::Text => { let $w = &mut w; $e } Sec::Data => { let mut x = w.data(); let $w = &mut x; $e } Sec::Rodata => { let mut x = w.rodata(); let $w = &mut x; $e } Sec::Bss => unreachable!() } } }
        for (i, s) in self.steps.iter().enumerate() {
            match s {
                Step::Inst(f, ops) => { let mut v = vec![]; (FORMS[*f].emit)(ops, &mut v)?; w.write_all(&v)? }
                Step::Bytes(s, b) => sec!(*s, x => x.write_all(b)?),
                Step::Alloc(Sec::Bss, n) => w.bss().allocate(*n)?,
                Step::Alloc(s, n) => sec!(*s, x => x.allocate(*n)?),
                Step::Align(Sec::Bss, n) => w.bss().align(*n)?,
                Step::Align(s, n) => sec!(*s, x => x.align(*n)?),
                Step::Def(s, l) => { let (l, g) = (labels[*l], self.labels[*l].global); match s {
                    Sec::Bss => { w.bss().define(l, g); } s => sec!(*s, x => { x.define(l, g); }) } }
                Step::Jump(n, m, l) => {
                    // both ways to come by a named label
                    let l = match &self.labels[*l].name { Some(n) if i % 2 == 0 => w.get_label(n), _ => labels[*l] };
                    jumps!(*n, *m, l, ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz)
                }
                Step::Store(l, Op::Gpr(r, _)) => w.movq(labels[*l], xop::G64[*r as usize])?,
                Step::Store(l, Op::Xmm(r)) => w.movq(labels[*l], xop::XMM[*r as usize])?,
                Step::Store(l, Op::Imm(n)) => w.movq(labels[*l], *n as i32)?,
                Step::Load(Op::Gpr(r, _), Mode::Table, l) => w.movq(xop::G64[*r as usize], AddressTable(labels[*l]))?,
                Step::Load(Op::Gpr(r, _), _, l) => w.movq(xop::G64[*r as usize], labels[*l])?,
                Step::Load(Op::Xmm(r), Mode::Table, l) => w.movq(xop::XMM[*r as usize], AddressTable(labels[*l]))?,
                Step::Load(Op::Xmm(r), _, l) => w.movq(xop::XMM[*r as usize], labels[*l])?,
                Step::Lea(r, l) => w.leaq(xop::G64[*r as usize], labels[*l])?,
                Step::Word(s, kind, l, addend) => {
                    let (ty, n) = match kind { Ref::Pc8 => (RelocType::PcRel8, 1), Ref::Pc32 => (RelocType::PcRel32, 4), Ref::Table => (RelocType::PcRelToAddressTable32, 4), Ref::Abs => (RelocType::Abs64, 8) };
                    let l = labels[*l];
                    sec!(*s, x => { x.write_all(&[0u8; 8][..n])?; x.use_relative(-(n as i64), l, *addend, ty) })
                }
                s => panic!("{:?}", s),
            }
        }
        w.produce()
    }

    /// The same script as expressions over xten1's writer `w`, inside a function that may fail
    pub fn llrl(&self) -> String {
        let mut s = String::from("    (let* (");
        for (i, l) in self.labels.iter().enumerate() {
            match &l.name { Some(n) => { let _ = write!(s, "[L{} (writer/get-label! \"{}\" w)]", i, n); } None => { let _ = write!(s, "[L{} (writer/issue-label! w)]", i); } }
        }
        s.push_str(")\n");
        let sec = |s: Sec| match s { Sec::Text => "w", Sec::Data => "(writer/data w)", Sec::Rodata => "(writer/rodata w)", Sec::Bss => "(writer/bss w)" };
        let bytes = |b: &[u8]| format!("(array {})", b.iter().map(|b| format!("{} {{U8}}", b)).collect::<Vec<_>>().join(" "));
        let reg = |o: &Op| o.llrl(Kind::i32);
        for st in &self.steps {
            let _ = writeln!(s, "    {}", match st {
                Step::Inst(f, ops) => inst_llrl(*f, ops),
                Step::Bytes(_, b) if b.is_empty() => "unit".into(),
                Step::Bytes(k, b) => format!("(write-bytes! {} {})!", bytes(b), sec(*k)),
                Step::Alloc(k, n) => format!("(.allocate! {} {})!", sec(*k), n),
                Step::Align(k, n) => format!("(.align! {} {})!", sec(*k), n),
                Step::Def(k, l) => format!("(.define! {} L{} {})", sec(*k), l, if self.labels[*l].global { "#t" } else { "#f" }),
                Step::Jump(n, Mode::Near, l) => format!("({}! w L{})!", n, l),
                Step::Jump(n, Mode::Short, l) => format!("({}! w (short: L{}))!", n, l),
                Step::Jump(n, Mode::Table, l) => format!("({}! w (address-table: L{}))!", n, l),
                Step::Store(l, o) => format!("(movq! w L{} {})!", l, reg(o)),
                Step::Load(o, Mode::Table, l) => format!("(movq! w {} (address-table: L{}))!", reg(o), l),
                Step::Load(o, _, l) => format!("(movq! w {} L{})!", reg(o), l),
                Step::Lea(r, l) => format!("(leaq! w {} L{})!", xop::gpr_name(*r, 64), l),
                Step::Word(k, kind, l, addend) => {
                    let (ty, n) = match kind { Ref::Pc8 => ("pc-rel8", 1), Ref::Pc32 => ("pc-rel32", 4), Ref::Table => ("pc-rel-to-address-table32", 4), Ref::Abs => ("abs64", 8) };
                    format!("(write-bytes! {} {})! (.use-relative! {} {} L{} {} reloc-type:{})", bytes(&[0; 8][..n]), sec(*k), sec(*k), -(n as i64), l, addend, ty)
                }
            });
        }
        s.push_str("    unit)\n");
        s
    }
}

pub fn inst_llrl(f: usize, ops: &[Op]) -> String {
    let f = &FORMS[f];
    format!("({}! w{})!", f.name, ops.iter().zip(f.kinds).map(|(o, k)| format!(" {}", o.llrl(*k))).collect::<String>())
}

impl Model {
    pub fn pos(&self, s: Sec) -> u64 { match s { Sec::Bss => self.bss, s => self.bytes[s as usize].len() as u64 } }
    pub fn size(&self, u: &Use) -> usize { match u.kind { Ref::Pc8 => 1, Ref::Abs => 8, _ => 4 } }
    /// A short reference within a section whose target is too far
    pub fn too_far(&self) -> bool {
        self.uses.iter().any(|u| u.kind == Ref::Pc8 && self.defs.get(&u.label).map_or(false, |d| {
            let v = d.1 as i64 + u.addend - u.pos as i64;
            d.0 == u.sec && !(-128..=127).contains(&v)
        }))
    }
}

/// What an object says, however it says it: plain bytes, and for each field either its value or its relocation
pub fn judge(s: &Script, m: &Model, o: &Object) -> Case {
    let got = [&o.text, &o.data, &o.rodata];
    let mut fields: [BTreeMap<u64, usize>; 3] = Default::default();
    for u in &m.uses { fields[u.sec as usize].insert(u.pos, m.size(u)); }
    for k in 0..3 {
        if got[k].len() != m.bytes[k].len() { return fail("size", format!("{} has {} bytes, not {}: {}", SECS[k].name(), got[k].len(), m.bytes[k].len(), s.show())); }
        let mut field = 0;
        for (i, (a, b)) in got[k].iter().zip(&m.bytes[k]).enumerate() {
            if let Some(n) = fields[k].get(&(i as u64)) { field = i + n; }
            if i >= field && a != b { return fail("bytes", format!("{}+{} holds {:#x}, not {:#x}: {}", SECS[k].name(), i, a, b, s.show())); }
        }
    }
    if o.bss != m.bss { return fail("size", format!(".bss has {} bytes, not {}: {}", o.bss, m.bss, s.show())); }
    let mut want: Vec<(String, Binding)> = vec![];
    for (i, l) in s.labels.iter().enumerate() {
        let Some(n) = &l.name else { continue };
        let d = m.defs.get(&i).map(|d| Location::new(d.0.loc(), d.1));
        want.push((n.clone(), match d { Some(d) if !l.global => Binding::Local(d), d => Binding::Global(d) }));
    }
    let mut have: Vec<(String, Binding)> = o.symbols.iter().map(|s| (s.name.clone(), s.binding)).collect();
    want.sort();
    have.sort();
    if want != have { return fail("symbols", format!("the symbols are {:?}, not {:?}: {}", have, want, s.show())); }
    let mut relocs: BTreeMap<(Sec, u64), Vec<&Reloc>> = BTreeMap::new();
    for r in &o.relocs { relocs.entry((Sec::from(r.location.section), r.location.pos)).or_default().push(r); }
    for u in &m.uses {
        let at = format!("`{}`, the field at {}+{}", s.steps[u.step].show(s), u.sec.name(), u.pos);
        let d = m.defs.get(&u.label);
        let rs = relocs.remove(&(u.sec, u.pos)).unwrap_or_default();
        if rs.len() > 1 { return fail("relocations", format!("{}: relocations {:?}: {}", at, rs, s.show())); }
        match rs.first() {
            None => {
                let b = &got[u.sec as usize][u.pos as usize..];
                let v = match u.kind { Ref::Pc8 => b[0] as i8 as i64, Ref::Pc32 => i32::from_le_bytes(b[..4].try_into().unwrap()) as i64, _ => return fail("unresolved", format!("{}: no relocation: {}", at, s.show())) };
                let Some(d) = d.filter(|d| d.0 == u.sec) else { return fail("unresolved", format!("{}: no relocation: {}", at, s.show())) };
                let to = u.pos as i64 + v - u.addend;
                if to != d.1 as i64 { return fail("target", format!("{}: refers to {}+{}, not {}+{}: {}", at, u.sec.name(), to, d.0.name(), d.1, s.show())); }
            }
            Some(r) => {
                let ty = match u.kind { Ref::Pc8 => RelocType::PcRel8, Ref::Pc32 => RelocType::PcRel32, Ref::Table => RelocType::PcRelToAddressTable32, Ref::Abs => RelocType::Abs64 };
                let ok = r.ty == ty && match &r.target {
                    RelocTarget::Symbol(n) => s.labels[u.label].name.as_ref() == Some(n) && r.addend == u.addend,
                    RelocTarget::Section(sec) => u.kind != Ref::Table && d.map_or(false, |d| d.0 == Sec::from(*sec) && r.addend == d.1 as i64 + u.addend),
                };
                if !ok { return fail("relocation", format!("{}: the relocation {:?} where the label is {:?}: {}", at, r, d, s.show())); }
            }
        }
    }
    if let Some(r) = relocs.values().next() { return fail("relocations", format!("the relocations {:?} belong to nothing: {}", r, s.show())); }
    Ok(())
}

/// What the scripts of one set share
pub struct Shape {
    /// names that may be used or, when not yet taken, defined as globals
    pub globals: Vec<String>,
    /// names some script defines
    pub taken: Vec<String>,
    pub short_across: bool,
    pub insts: bool,
    pub max: usize,
    pub near_undefined: bool,
}

pub const NAMES: [&str; 12] = ["main", "f", "a.b", "llrl_x", "~/m/f:1", "Foo.Bar<Baz>", "x y", "λ", "printf", "$1", "_", "very-long-name-very-long-name-very-long-name-very-long-name-very-long-name"];

pub fn gen(t: &mut Tape, sh: &mut Shape) -> Script {
    let mut s = Script::default();
    let mut here: Vec<usize> = vec![]; // labels to define
    for g in sh.globals.clone() {
        if t.chance(1, 2) { continue; }
        s.labels.push(Lab { name: Some(g.clone()), global: true });
        if !sh.taken.contains(&g) && t.chance(2, 3) { sh.taken.push(g); here.push(s.labels.len() - 1); }
    }
    for k in 0..t.below(4) {
        let name = Some(format!("local_{}", k));
        s.labels.push(Lab { name, global: false });
        here.push(s.labels.len() - 1);
    }
    for _ in 0..1 + t.below(5) { s.labels.push(Lab { name: None, global: false }); here.push(s.labels.len() - 1); }
    let n = t.range(2, sh.max);
    let mut defs: Vec<(usize, usize)> = here.iter().map(|l| (t.below(n as u64 + 1) as usize, *l)).collect();
    defs.sort();
    let data = |t: &mut Tape| if t.bool() { Sec::Data } else { Sec::Rodata };
    let any = |t: &mut Tape| *t.pick(&[Sec::Text, Sec::Data, Sec::Rodata, Sec::Bss, Sec::Text]);
    for i in 0..=n {
        while defs.first().map_or(false, |d| d.0 == i) { let d = defs.remove(0); s.steps.push(Step::Def(any(t), d.1)); }
        if i == n { break; }
        let label = t.below(s.labels.len() as u64) as usize;
        let named = s.labels[label].name.is_some();
        let defined = here.contains(&label);
        let near = defined || sh.near_undefined;
        let table = |t: &mut Tape| if named && (!near || t.chance(1, 3)) { Mode::Table } else { Mode::Near };
        let step = match t.below(14) {
            0 | 1 if sh.insts => {
                let f = t.below(FORMS.len() as u64) as usize;
                if FORMS[f].name.starts_with('j') || FORMS[f].name == "callq" { Step::Alloc(Sec::Text, 1) } else { Step::Inst(f, xop::gen_ops(t, &FORMS[f])) }
            }
            0 | 1 => Step::Alloc(Sec::Text, t.below(6)),
            2 => { let k = data(t); Step::Bytes(k, (0..t.below(20)).map(|_| t.below(256) as u8).collect()) }
            3 => { let k = any(t); let n = if t.chance(1, 60) { 30000 + t.below(50000) } else if t.chance(1, 6) { t.below(6000) } else { t.below(70) }; Step::Alloc(k, n) }
            4 => { let k = any(t); Step::Align(k, 1 << t.below(5)) }
            5 | 6 | 7 => {
                let name = *t.pick(&JUMPS);
                if name == "callq" || name == "jmpq" {
                    match table(t) { Mode::Near if name == "jmpq" && defined && t.chance(1, 4) => Step::Jump(name, Mode::Short, label), m => Step::Jump(name, m, label) }
                } else if near { Step::Jump(name, if defined && t.chance(1, 4) { Mode::Short } else { Mode::Near }, label) } else { Step::Jump("callq", Mode::Table, label) }
            }
            8 if near => Step::Store(label, match t.below(3) { 0 => Op::Gpr(t.below(16) as u8, 64), 1 => Op::Xmm(t.below(16) as u8), _ => Op::Imm(t.bits64() as i32 as i64) }),
            8 | 9 => { let o = if t.bool() { Op::Gpr(t.below(16) as u8, 64) } else { Op::Xmm(t.below(16) as u8) }; Step::Load(o, table(t), label) }
            10 if near => Step::Lea(t.below(16) as u8, label),
            11 if near => { let k = any(t); let k = if k == Sec::Bss { Sec::Data } else { k }; Step::Word(k, Ref::Pc32, label, t.below(40) as i64 - 20) }
            _ => { let k = data(t); Step::Word(k, Ref::Abs, label, if t.bool() { 0 } else { t.below(4000) as i64 - 2000 }) }
        };
        s.steps.push(step);
    }
    // short references only where their label turns out to be in the same section, and mostly near enough
    let m = s.model();
    let far: Vec<usize> = m.uses.iter().filter(|u| u.kind == Ref::Pc8).filter(|u| {
        let d = m.defs[&u.label];
        d.0 != Sec::Text && !sh.short_across || d.0 == Sec::Text && (d.1 as i64 - u.pos as i64 - 1).abs() > 120 && u.step % 16 != 0 || d.0 != Sec::Text && u.step % 4 != 0
    }).map(|u| u.step).collect();
    for k in far {
        if let Step::Jump(_, m, _) = &mut s.steps[k] { *m = Mode::Near; }
    }
    s
}
