//! C15: histories of objects loaded by the in-process linker: every byte and reference in memory, and the code run.
use std::collections::{BTreeMap, HashMap, HashSet};
use vharness::xobj::{self, Lab, Mode, Model, Ref, Script, Sec, Shape, Step, SECS};
use vharness::xop::Op;
use vharness::{fail, main_with, Case, Out, Tape};
use xten::asm::Object;
use xten::jit::{Engine, Error, SymbolResolverFn};

static EXT_D: [i64; 4] = [0x1122334455667788, -77, 0, i64::MIN];
extern "C" fn f0() -> i64 { 1001 }
extern "C" fn f1() -> i64 { -1002 }
extern "C" fn f2() -> i64 { i64::MAX }
static EXT_F: [(extern "C" fn() -> i64, i64); 3] = [(f0, 1001), (f1, -1002), (f2, i64::MAX)];

fn resolver(s: &str) -> *const u8 {
    if let Some(k) = s.strip_prefix("ext.d").and_then(|k| k.parse::<usize>().ok()) { return &EXT_D[k] as *const i64 as *const u8; }
    if let Some(k) = s.strip_prefix("ext.f").and_then(|k| k.parse::<usize>().ok()) { return EXT_F[k].0 as *const u8; }
    std::ptr::null()
}

#[derive(Clone, Debug)]
enum Item { Const(i32), Word(usize), ExtWord(usize), Put(usize, i32), Call(usize), ExtCall(usize) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum What { Func(usize), Word(usize), ExtF(usize), ExtD(usize), Other }

/// A name some engine knows
#[derive(Clone, Debug)]
struct Known { addr: u64, what: What }

struct Loaded { model: Model, bases: BTreeMap<Sec, u64>, image: [Vec<u8>; 4] }

#[derive(Default)]
struct World { funcs: Vec<(Vec<Item>, u64)>, words: Vec<(i64, usize, Sec, u64)>, objects: Vec<Loaded>, ran: u64 }

impl World {
    /// What a call returns and leaves behind
    fn call(&mut self, f: usize) -> i64 {
        let mut a = 0i64;
        for it in self.funcs[f].0.clone() {
            match it {
                Item::Const(n) => a = a.wrapping_add(n as i64),
                Item::Word(w) => a = a.wrapping_add(self.words[w].0),
                Item::ExtWord(k) => a = a.wrapping_add(EXT_D[k]),
                Item::Put(w, n) => {
                    self.words[w].0 = n as i64;
                    let (_, o, sec, pos) = self.words[w];
                    self.objects[o].image[sec as usize][pos as usize..pos as usize + 8].copy_from_slice(&(n as i64).to_le_bytes());
                }
                Item::Call(g) => a = a.wrapping_add(self.call(g)),
                Item::ExtCall(k) => a = a.wrapping_add(EXT_F[k].1),
            }
        }
        a
    }
}

/// An object of functions and words, that can be run
struct Code { funcs: Vec<(usize, Vec<Item>, u64)>, words: Vec<(usize, i64)> }

struct Builder<'a> { s: Script, known: &'a HashMap<String, Known>, labels: HashMap<String, usize> }
impl Builder<'_> {
    fn named(&mut self, n: &str) -> usize {
        if let Some(l) = self.labels.get(n) { return *l; }
        self.s.labels.push(Lab { name: Some(n.into()), global: true });
        self.labels.insert(n.into(), self.s.labels.len() - 1);
        self.s.labels.len() - 1
    }
    fn text(&mut self, b: &[u8]) { self.s.steps.push(Step::Bytes(Sec::Text, b.to_vec())) }
}

/// Labels at the start of the sections, the script, and what is in it
fn gen_code(t: &mut Tape, id: usize, known: &HashMap<String, Known>, w: &World) -> (Script, Code) {
    let mut b = Builder { s: Script::default(), known, labels: HashMap::new() };
    let (nf, nw) = (w.funcs.len(), w.words.len());
    let mut code = Code { funcs: vec![], words: vec![] };
    let mut names: Vec<&String> = b.known.keys().collect();
    names.sort();
    let pick = |t: &mut Tape, names: &Vec<&String>, f: &dyn Fn(What) -> bool| -> Option<(String, Known)> {
        let v: Vec<&&String> = names.iter().filter(|n| f(known[**n].what)).collect();
        if v.is_empty() { return None; }
        let n = v[t.below(v.len() as u64) as usize];
        Some((n.to_string(), known[*n].clone()))
    };
    if t.chance(1, 4) { let n = match t.below(3) { 0 => t.below(9000), 1 => t.below(70000), _ => t.below(300) }; b.s.steps.push(Step::Alloc(*t.pick(&SECS), n)); }
    for k in 0..t.below(4) as usize {
        let sec = *t.pick(&[Sec::Data, Sec::Rodata, Sec::Bss]);
        let name = match t.below(3) { 0 => None, 1 => Some((format!("w{}.{}", id, k), true)), _ => Some((format!("local.{}", k), false)) };
        b.s.labels.push(Lab { name: name.as_ref().map(|n| n.0.clone()), global: name.map_or(false, |n| n.1) });
        let l = b.s.labels.len() - 1;
        if let Some(n) = &b.s.labels[l].name { b.labels.insert(n.clone(), l); }
        let v = if sec == Sec::Bss { 0 } else { t.bits64() as i64 };
        b.s.steps.push(Step::Align(sec, 8));
        b.s.steps.push(Step::Def(sec, l));
        b.s.steps.push(if sec == Sec::Bss { Step::Alloc(sec, 8) } else { Step::Bytes(sec, v.to_le_bytes().to_vec()) });
        code.words.push((l, v));
    }
    for k in 0..t.range(1, 3) {
        if t.chance(1, 5) { b.s.steps.push(Step::Align(Sec::Text, 16)); }
        let name = match t.below(3) { 0 => None, 1 => Some((format!("local.f{}", k), false)), _ => Some((format!("f{}.{}", id, k), true)) };
        b.s.labels.push(Lab { name: name.as_ref().map(|n| n.0.clone()), global: name.map_or(false, |n| n.1) });
        let l = b.s.labels.len() - 1;
        if let Some(n) = &b.s.labels[l].name { b.labels.insert(n.clone(), l); }
        b.s.steps.push(Step::Def(Sec::Text, l));
        b.text(&[0x53, 0x48, 0x31, 0xdb]); // pushq %rbx; xorq %rbx, %rbx
        let (mut items, mut cost) = (vec![], 1);
        for _ in 0..t.range(1, 6) {
            match t.below(8) {
                0 => { let n = t.bits64() as i32; let mut v = vec![0x48, 0x81, 0xc3]; v.extend(n.to_le_bytes()); b.text(&v); items.push(Item::Const(n)); }
                1 | 2 => {
                    // a word of this object, of another or outside
                    let own = !code.words.is_empty() && t.bool();
                    let (l, item, far) = if own { let k = t.below(code.words.len() as u64) as usize; (code.words[k].0, Item::Word(nw + k), false) } else {
                        let Some((n, kn)) = pick(t, &names, &|w| matches!(w, What::Word(_) | What::ExtD(_))) else { continue };
                        let far = kn.addr >> 31 != 0;
                        (b.named(&n), match kn.what { What::Word(w) => Item::Word(w), What::ExtD(k) => Item::ExtWord(k), _ => unreachable!() }, far)
                    };
                    let table = b.s.labels[l].name.is_some() && (far && !t.chance(1, 60) || t.chance(1, 3));
                    match t.below(3) {
                        _ if table => { b.s.steps.push(Step::Load(Op::Gpr(0, 64), Mode::Table, l)); b.text(&[0x48, 0x8b, 0x00]); }
                        0 => { b.s.steps.push(Step::Lea(0, l)); b.text(&[0x48, 0x8b, 0x00]); }
                        1 => { // through a pointer in memory
                            b.s.labels.push(Lab { name: None, global: false });
                            let p = b.s.labels.len() - 1;
                            let sec = if t.bool() { Sec::Data } else { Sec::Rodata };
                            let shift = if t.bool() { 0 } else { 24 };
                            b.s.steps.extend([Step::Align(sec, 8), Step::Def(sec, p), Step::Word(sec, Ref::Abs, l, shift), Step::Load(Op::Gpr(0, 64), Mode::Near, p)]);
                            if shift == 0 { b.text(&[0x48, 0x8b, 0x00]) } else { b.text(&[0x48, 0x8b, 0x40, 0xe8]) }
                        }
                        _ => b.s.steps.push(Step::Load(Op::Gpr(0, 64), Mode::Near, l)),
                    }
                    b.text(&[0x48, 0x01, 0xc3]);
                    items.push(item);
                }
                3 => {
                    let (l, wd) = if !code.words.is_empty() && t.bool() { let k = t.below(code.words.len() as u64) as usize; (code.words[k].0, nw + k) } else {
                        let Some((n, kn)) = pick(t, &names, &|x| matches!(x, What::Word(i) if w.words[i].2 != Sec::Rodata)) else { continue };
                        let What::Word(i) = kn.what else { unreachable!() };
                        (b.named(&n), i)
                    };
                    if wd >= nw { let def = b.s.steps.iter().any(|s| matches!(s, Step::Def(Sec::Rodata, x) if *x == l)); if def { continue; } }
                    let n = t.bits64() as i32;
                    b.s.steps.push(Step::Store(l, Op::Imm(n as i64)));
                    items.push(Item::Put(wd, n));
                }
                4 => { // a branch over code that must not run
                    b.s.labels.push(Lab { name: None, global: false });
                    let p = b.s.labels.len() - 1;
                    let mode = if t.bool() { Mode::Short } else { Mode::Near };
                    if t.bool() { b.text(&[0x48, 0x39, 0xdb]); b.s.steps.push(Step::Jump(*t.pick(&["je", "jae", "jge", "jbe", "jz"]), mode, p)); } else { b.s.steps.push(Step::Jump("jmpq", mode, p)); }
                    for _ in 0..t.range(0, 4) { b.text(&[0x0f, 0x0b]); }
                    b.s.steps.push(Step::Def(Sec::Text, p));
                }
                _ => {
                    let own = !code.funcs.is_empty() && t.chance(1, 3);
                    let (l, item, far, c) = if own { let k = t.below(code.funcs.len() as u64) as usize; (code.funcs[k].0, Item::Call(nf + k), false, code.funcs[k].2) } else {
                        let Some((n, kn)) = pick(t, &names, &|w| matches!(w, What::Func(_) | What::ExtF(_))) else { continue };
                        let far = kn.addr >> 31 != 0;
                        (b.named(&n), match kn.what { What::Func(f) => Item::Call(f), What::ExtF(k) => Item::ExtCall(k), _ => unreachable!() }, far, if let What::Func(f) = kn.what { w.funcs[f].1 } else { 1 })
                    };
                    if cost + c > 300 { continue; }
                    cost += c;
                    let table = b.s.labels[l].name.is_some() && (far && !t.chance(1, 60) || t.chance(1, 3));
                    match t.below(4) {
                        0 if table => { b.s.steps.push(Step::Load(Op::Gpr(0, 64), Mode::Table, l)); b.text(&[0xff, 0xd0]); }
                        _ if table => b.s.steps.push(Step::Jump("callq", Mode::Table, l)),
                        0 => { b.s.steps.push(Step::Lea(0, l)); b.text(&[0xff, 0xd0]); }
                        1 => {
                            b.s.labels.push(Lab { name: None, global: false });
                            let p = b.s.labels.len() - 1;
                            let sec = if t.bool() { Sec::Data } else { Sec::Rodata };
                            b.s.steps.extend([Step::Align(sec, 8), Step::Def(sec, p), Step::Word(sec, Ref::Abs, l, 0), Step::Load(Op::Gpr(0, 64), Mode::Near, p)]);
                            b.text(&[0xff, 0xd0]);
                        }
                        _ => b.s.steps.push(Step::Jump("callq", Mode::Near, l)),
                    }
                    b.text(&[0x48, 0x01, 0xc3]);
                    items.push(item);
                }
            }
        }
        b.text(&[0x48, 0x89, 0xd8, 0x5b, 0xc3]); // movq %rbx, %rax; popq %rbx; retq
        code.funcs.push((l, items, cost));
    }
    (b.s, code)
}

/// An object of references to whatever there is, not to be run
fn gen_data(t: &mut Tape, id: usize, known: &HashMap<String, Known>) -> Script {
    let mut near: Vec<String> = known.iter().filter(|k| k.1.addr >> 31 == 0).map(|k| k.0.clone()).collect();
    near.sort();
    let mut globals: Vec<String> = (0..t.below(5)).map(|_| if near.is_empty() { "none".into() } else { t.pick(&near).clone() }).collect();
    globals.sort();
    globals.dedup();
    globals.retain(|g| g != "none");
    let taken = globals.clone();
    for k in 0..t.below(4) { globals.push(match t.below(3) { 0 => format!("{}.{}", xobj::NAMES[t.below(12) as usize], id), _ => format!("g{}.{}", id, k) }); }
    globals.sort();
    globals.dedup();
    let mut sh = Shape { globals, taken, short_across: false, insts: true, max: 30, near_undefined: true };
    let mut s = xobj::gen(t, &mut sh);
    let m = s.model();
    if m.too_far() { return Script::default(); }
    let missing: Vec<usize> = (0..s.labels.len()).filter(|l| !m.defs.contains_key(l) && s.labels[*l].name.as_ref().map_or(false, |n| !known.contains_key(n))).collect();
    for l in missing {
        if t.chance(1, 12) { continue; }
        let k = *t.pick(&SECS);
        s.steps.push(Step::Def(k, l));
        s.steps.push(Step::Alloc(k, 1 + t.below(30)));
    }
    s
}

fn raw(a: u64, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { std::ptr::copy_nonoverlapping(a as *const u8, v.as_mut_ptr(), n) }; v }

struct Maps(Vec<(u64, u64, String)>);
impl Maps {
    fn new() -> Maps {
        let t = std::fs::read_to_string("/proc/self/maps").unwrap();
        Maps(t.lines().filter_map(|l| {
            let mut w = l.split_whitespace();
            let (a, b) = w.next()?.split_once('-')?;
            Some((u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?, w.next()?.to_string()))
        }).collect())
    }
    /// Whether all of the range has these permissions
    fn has(&self, a: u64, n: u64, perm: &str) -> bool {
        let (mut p, e) = (a, a + n.max(1));
        while p < e {
            let Some(m) = self.0.iter().find(|m| m.0 <= p && p < m.1) else { return false };
            if perm.chars().any(|c| !m.2.contains(c)) { return false; }
            p = m.1;
        }
        true
    }
}

/// Everything loaded is where and what it has to be
fn verify(w: &World, shows: &[String]) -> Case {
    let maps = Maps::new();
    let mut spans: Vec<(u64, u64, usize, Sec)> = vec![];
    for (k, o) in w.objects.iter().enumerate() {
        for (sec, base) in &o.bases {
            let n = o.image[*sec as usize].len();
            let perm = match sec { Sec::Text => "rx", Sec::Rodata => "r", _ => "rw" };
            if !maps.has(*base, n as u64, perm) { return fail("protection", format!("{} of object {} ({:#x}, {} bytes) is not {}; the objects are {}", sec.name(), k, base, n, perm, shows.join(" || "))); }
            let got = raw(*base, n);
            if let Some(i) = (0..n).find(|i| got[*i] != o.image[*sec as usize][*i]) { return fail("disturbed", format!("{}+{} of object {} of {} holds {:#x}, not {:#x}; the objects are {}", sec.name(), i, k, w.objects.len(), got[i], o.image[*sec as usize][i], shows.join(" || "))); }
            spans.push((*base, base + n as u64, k, *sec));
        }
    }
    spans.sort();
    for p in spans.windows(2) { if p[0].1 > p[1].0 { return fail("overlap", format!("{} of object {} and {} of object {} overlap; the objects are {}", p[0].3.name(), p[0].2, p[1].3.name(), p[1].2, shows.join(" || "))); } }
    Ok(())
}

fn history(t: &mut Tape, out: &mut Out) -> Case {
    let engines = if t.chance(1, 4) { 2 } else { 1 };
    let mut engine: Vec<Engine> = (0..engines).map(|_| Engine::new(resolver as SymbolResolverFn)).collect();
    let mut known: Vec<HashMap<String, Known>> = vec![HashMap::new(); engines];
    // known from outside: not yet asked for
    let ext: Vec<(String, Known)> = (0..4).map(|k| (format!("ext.d{}", k), Known { addr: &EXT_D[k] as *const i64 as u64, what: What::ExtD(k) })).chain((0..3).map(|k| (format!("ext.f{}", k), Known { addr: EXT_F[k].0 as usize as u64, what: What::ExtF(k) }))).collect();
    for k in &mut known { k.extend(ext.clone()); }
    let mut seen: Vec<HashSet<String>> = vec![HashSet::new(); engines];
    let mut w = World::default();
    let mut shows: Vec<String> = vec![];
    let n = if t.chance(1, 12) { t.range(20, 60) } else { t.range(1, 9) };
    let mut failed = false;
    for id in 0..n {
        let from = t.used();
        let e = t.below(engines as u64) as usize;
        // hand a symbol of one engine to the other
        if engines == 2 && t.chance(1, 2) {
            let mut v: Vec<&String> = known[1 - e].iter().filter(|k| !matches!(k.1.what, What::ExtD(_) | What::ExtF(_)) && !known[e].contains_key(k.0)).map(|k| k.0).collect();
            v.sort();
            if !v.is_empty() {
                let name = t.pick(&v).to_string();
                let k = known[1 - e][&name].clone();
                if let Err(x) = engine[e].register(&name, k.addr as *const u8) { return fail("register", format!("register {}: {}; the objects are {}", name, x, shows.join(" || "))); }
                out.classes.push("registered symbol");
                known[e].insert(name.clone(), k);
                seen[e].insert(name);
            }
        }
        let (mut s, code) = if t.chance(2, 3) { let (s, c) = gen_code(t, id, &known[e], &w); (s, Some(c)) } else { (gen_data(t, id, &known[e]), None) };
        let mut duplicate = None;
        if t.chance(1, 25) {
            let mut v: Vec<&String> = seen[e].iter().collect();
            v.sort();
            if !v.is_empty() {
                let name = t.pick(&v).to_string();
                if !s.labels.iter().any(|l| l.name.as_ref() == Some(&name)) {
                    s.labels.push(Lab { name: Some(name.clone()), global: true });
                    s.steps.push(Step::Def(Sec::Data, s.labels.len() - 1));
                    s.steps.push(Step::Alloc(Sec::Data, 3));
                    duplicate = Some(name);
                }
            }
        }
        // a label nobody refers to at the start of every section, and no label in an empty section
        let start = s.labels.len();
        let mut steps = vec![];
        for (k, sec) in SECS.iter().enumerate() {
            s.labels.push(Lab { name: Some(format!("start.{}{}", id, sec.name())), global: true });
            steps.push(Step::Def(*sec, start + k));
        }
        steps.extend(s.steps.drain(..));
        s.steps = steps;
        for sec in SECS { if s.model().pos(sec) == 0 || s.model().defs.values().any(|d| *d == (sec, s.model().pos(sec))) { s.steps.push(Step::Alloc(sec, 1 + t.below(3))); } }
        let m = s.model();
        let text = s.show();
        shows.push(format!("[{}] {}", e, text));
        out.spans.push((from, t.used()));
        out.desc = shows.join(" || ").chars().take(4000).collect();
        let all = |m: &str| format!("{}; the objects are {}", m, shows.join(" || "));
        let obj: Object = match s.produce() { Ok(o) => o, Err(e) => return fail("refused", all(&e.to_string())) };
        out.evals += 1;
        let undefined: Vec<&String> = (0..s.labels.len()).filter(|l| !m.defs.contains_key(l)).filter_map(|l| s.labels[l].name.as_ref()).filter(|n| !known[e].contains_key(*n)).collect();
        let used: Vec<&String> = m.uses.iter().filter_map(|u| s.labels[u.label].name.as_ref()).filter(|n| undefined.contains(n)).collect();
        let may_be_far = m.uses.iter().any(|u| u.kind == Ref::Pc32 && s.labels[u.label].name.as_ref().and_then(|n| known[e].get(n)).map_or(false, |k| k.addr >> 31 != 0 && !m.defs.contains_key(&u.label)));
        match engine[e].add_object(&obj) {
            Ok(()) => {
                if let Some(n) = &duplicate { return fail("duplicate", all(&format!("a second definition of {} is not reported", n))); }
                if !used.is_empty() { return fail("undefined", all(&format!("the undefined symbols {:?} are not reported", used))); }
                if !undefined.is_empty() { failed = true; }
            }
            Err(x) => {
                let ok = match &x {
                    Error::DuplicateSymbol(n) => duplicate.as_ref() == Some(n),
                    Error::UndefinedSymbol(n) => undefined.contains(&n),
                    Error::OffsetOutOfRange(..) => may_be_far,
                    _ => false,
                };
                out.classes.push(match &x { Error::DuplicateSymbol(_) => "duplicate reported", Error::UndefinedSymbol(_) => "undefined reported", Error::OffsetOutOfRange(..) => "out of range reported", _ => "other error" });
                if !ok { return fail("error", all(&format!("adding object {} to engine {} says `{}`", id, e, x))); }
                failed = true;
            }
        }
        if !failed {
            let mut o = Loaded { model: m, bases: BTreeMap::new(), image: Default::default() };
            for (k, sec) in SECS.iter().enumerate() {
                let n = format!("start.{}{}", id, sec.name());
                let Some(p) = engine[e].get(&n) else { return fail("lookup", all(&format!("{} is not found", n))) };
                let a = p as u64;
                if a % 16 != 0 { return fail("alignment", all(&format!("{} is at {:#x}", n, a))); }
                o.bases.insert(*sec, a);
                o.image[k] = if *sec == Sec::Bss { vec![0; o.model.bss as usize] } else { o.model.bytes[k].clone() };
            }
            let maps = Maps::new();
            for u in &o.model.uses {
                let p = o.bases[&u.sec] + u.pos;
                let n = o.model.size(u);
                let to = match o.model.defs.get(&u.label) { Some((sec, pos)) => o.bases[sec] + pos, None => known[e][s.labels[u.label].name.as_ref().unwrap()].addr };
                if !maps.has(p, n as u64, "r") { return fail("protection", all(&format!("{} of object {} at {:#x} cannot be read", u.sec.name(), id, p))); }
                let b = raw(p, n);
                let v = match n { 1 => b[0] as i8 as i64, 4 => i32::from_le_bytes(b[..].try_into().unwrap()) as i64, _ => i64::from_le_bytes(b[..].try_into().unwrap()) };
                out.classes.push(match (u.kind, o.model.defs.contains_key(&u.label)) { (Ref::Pc8, _) => "short", (Ref::Table, true) => "table, own symbol", (Ref::Table, _) => "table, other symbol", (Ref::Abs, _) => "absolute", (Ref::Pc32, true) => "near, own", _ => "near, other" });
                let reaches = match u.kind {
                    Ref::Abs => v.wrapping_sub(u.addend) as u64,
                    Ref::Table => {
                        let g = (p as i64).wrapping_add(v).wrapping_sub(u.addend) as u64;
                        if !maps.has(g, 8, "r") { return fail("reference", all(&format!("`{}` of object {} finds no table at {:#x}", s.steps[u.step].show(&s), id, g))); }
                        u64::from_le_bytes(raw(g, 8)[..].try_into().unwrap())
                    }
                    _ => (p as i64).wrapping_add(v).wrapping_sub(u.addend) as u64,
                };
                if reaches != to { return fail("reference", all(&format!("`{}` of object {} reaches {:#x}, where its target is at {:#x}", s.steps[u.step].show(&s), id, reaches, to))); }
                o.image[u.sec as usize][u.pos as usize..u.pos as usize + n].copy_from_slice(&b);
            }
            for (l, (sec, pos)) in &o.model.defs {
                if let Lab { name: Some(n), global: true } = &s.labels[*l] {
                    known[e].insert(n.clone(), Known { addr: o.bases[sec] + pos, what: What::Other });
                    seen[e].insert(n.clone());
                }
            }
            for l in &s.labels { if let Some(n) = &l.name { if n.starts_with("ext.") { seen[e].insert(n.clone()); } } }
            if let Some(c) = code {
                let k = w.objects.len();
                let name = |l: usize| s.labels[l].name.as_ref().filter(|_| s.labels[l].global);
                for (l, v) in c.words {
                    let (sec, pos) = o.model.defs[&l];
                    if let Some(n) = name(l) { known[e].get_mut(n).unwrap().what = What::Word(w.words.len()); }
                    w.words.push((v, k, sec, pos));
                }
                for (l, items, cost) in c.funcs {
                    if let Some(n) = name(l) { known[e].get_mut(n).unwrap().what = What::Func(w.funcs.len()); }
                    w.funcs.push((items, cost));
                }
            }
            w.objects.push(o);
        }
        verify(&w, &shows)?;
        // lookups, and calls
        for (e, k) in known.iter().enumerate() {
            for n in &seen[e] {
                if engine[e].get(n).map(|p| p as u64) != Some(k[n].addr) { return fail("lookup", all(&format!("{} is found at {:?}, not at {:#x}", n, engine[e].get(n), k[n].addr))); }
            }
            if engine[e].get("no such symbol").is_some() { return fail("lookup", all("a symbol that is not there is found")); }
        }
        let mut fs: Vec<(String, u64, usize)> = known.iter().flat_map(|k| k.iter()).filter_map(|(n, k)| if let What::Func(f) = k.what { Some((n.clone(), k.addr, f)) } else { None }).collect();
        fs.sort();
        fs.dedup();
        for _ in 0..fs.len().min(6) {
            let (n, a, f) = t.pick(&fs).clone();
            let want = w.call(f);
            let fun: extern "C" fn() -> i64 = unsafe { std::mem::transmute(a as usize) };
            let got = fun();
            w.ran += 1;
            out.classes.push("call");
            if got != want { return fail("result", all(&format!("{} returns {}, not {}", n, got, want))); }
        }
        verify(&w, &shows)?;
        if failed { break; }
    }
    if w.objects.len() >= 2 && w.objects.iter().map(|o| o.model.uses.len()).sum::<usize>() >= 4 { out.subs.push(out.desc.clone()); }
    if w.objects.len() >= 20 { out.classes.push("at least 20 objects"); }
    Ok(())
}

fn main() { main_with("c15", &|t, out| history(t, out)); }
