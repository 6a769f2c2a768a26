//! C14: object files against a reader of our own, and linked by the system linker.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::path::Path;
use std::process::Command;
use vharness::cli::Scratch;
use vharness::xobj::{self, Model, Ref, Script, Sec, Shape, Step, SECS};
use vharness::{fail, main_with, Case, Out, Tape};
use xten::asm::{Binding, Object, RelocTarget, RelocType};

fn u16_(b: &[u8], i: usize) -> Option<u64> { Some(u16::from_le_bytes(b.get(i..i + 2)?.try_into().ok()?) as u64) }
fn u32_(b: &[u8], i: usize) -> Option<u64> { Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as u64) }
fn u64_(b: &[u8], i: usize) -> Option<u64> { Some(u64::from_le_bytes(b.get(i..i + 8)?.try_into().ok()?)) }

#[derive(Clone, Default, Debug)]
struct Header { name: String, ty: u64, flags: u64, off: u64, size: u64, link: u64, info: u64, align: u64, entsize: u64, addr: u64 }

#[derive(Clone, Debug)]
struct Sym { name: String, bind: u64, ty: u64, vis: u64, shndx: u64, value: u64 }

/// The parts of an ELF file, or what is wrong with it
struct Elf { bytes: Vec<u8>, headers: Vec<Header>, kind: u64 }

impl Elf {
    fn read(bytes: Vec<u8>) -> Result<Elf, String> {
        let b = &bytes;
        if b.len() < 64 || &b[..7] != b"\x7fELF\x02\x01\x01" { return Err("not an ELF file of 64 bits".into()); }
        let e = || "truncated".to_string();
        let kind = u16_(b, 16).ok_or_else(e)?;
        if u16_(b, 18) != Some(62) { return Err("not for x86-64".into()); }
        if u32_(b, 20) != Some(1) || u16_(b, 52) != Some(64) || u16_(b, 58) != Some(64) { return Err("version or header sizes".into()); }
        let (off, n, names) = (u64_(b, 40).unwrap() as usize, u16_(b, 60).unwrap() as usize, u16_(b, 62).unwrap() as usize);
        if off < 64 || off + n * 64 > b.len() { return Err(format!("the section headers at {} are not within the file", off)); }
        let mut headers = vec![];
        for k in 0..n {
            let o = off + k * 64;
            let (w, q) = (|i: usize| u32_(b, o + i).unwrap(), |i: usize| u64_(b, o + i).unwrap());
            headers.push((w(0), Header { name: String::new(), ty: w(4), flags: q(8), addr: q(16), off: q(24), size: q(32), link: w(40), info: w(44), align: q(48), entsize: q(56) }));
        }
        for (k, (_, h)) in headers.iter().enumerate() {
            if k > 0 && h.ty != 8 && (h.off < 64 || h.off + h.size > b.len() as u64 || h.size > 0 && h.off < (off + n * 64) as u64 && h.off + h.size > off as u64) { return Err(format!("section {} is not within the file", k)); }
            if !(h.align <= 1 || h.align.is_power_of_two()) { return Err(format!("section {} has alignment {}", k, h.align)); }
        }
        let mut spans: Vec<(u64, u64)> = headers.iter().skip(1).filter(|h| h.1.ty != 8 && h.1.size > 0).map(|h| (h.1.off, h.1.off + h.1.size)).collect();
        spans.sort();
        if spans.windows(2).any(|w| w[0].1 > w[1].0) { return Err("sections overlap".into()); }
        let shstr = headers.get(names).ok_or("no names of sections")?.1.clone();
        let mut elf = Elf { headers: vec![], kind, bytes: vec![] };
        let tab = &b[shstr.off as usize..(shstr.off + shstr.size) as usize];
        for (n, mut h) in headers { h.name = string(tab, n as usize).ok_or("the name of a section does not end")?; elf.headers.push(h); }
        elf.bytes = bytes;
        Ok(elf)
    }
    fn body(&self, h: &Header) -> &[u8] { if h.ty == 8 { &[] } else { &self.bytes[h.off as usize..(h.off + h.size) as usize] } }
    fn symbols(&self) -> Result<(usize, Vec<Sym>), String> {
        let k: Vec<usize> = (0..self.headers.len()).filter(|k| self.headers[*k].ty == 2).collect();
        if k.len() != 1 { return Err(format!("{} symbol tables", k.len())); }
        let h = &self.headers[k[0]];
        let s = self.headers.get(h.link as usize).filter(|s| s.ty == 3).ok_or("the symbol table has no string table")?;
        if h.entsize != 24 || h.size % 24 != 0 { return Err("size of symbols".into()); }
        let (b, st) = (self.body(h), self.body(s));
        if st.first() != Some(&0) || st.last() != Some(&0) { return Err("the string table is not enclosed by zeros".into()); }
        let mut v = vec![];
        for i in 0..(h.size / 24) as usize {
            let e = &b[i * 24..i * 24 + 24];
            let name = string(st, u32_(e, 0).unwrap() as usize).ok_or("the name of a symbol does not end")?;
            v.push(Sym { name, bind: (e[4] >> 4) as u64, ty: (e[4] & 15) as u64, vis: e[5] as u64, shndx: u16_(e, 6).unwrap(), value: u64_(e, 8).unwrap() });
            if (i as u64) < h.info && v[i].bind != 0 || i as u64 >= h.info && v[i].bind == 0 { return Err(format!("the symbol {} `{}` of binding {} where the first that is not local is {}", i, v[i].name, v[i].bind, h.info)); }
        }
        if b.iter().take(24).any(|b| *b != 0) { return Err("the first symbol".into()); }
        Ok((k[0], v))
    }
}

fn string(t: &[u8], i: usize) -> Option<String> {
    let e = t.get(i..)?.iter().position(|b| *b == 0)?;
    Some(String::from_utf8_lossy(&t[i..i + e]).into_owned())
}

type Bad = (String, String);

fn parse(b: Vec<u8>) -> Result<(Elf, usize, Vec<Sym>), Bad> {
    let e = |m: String| ("malformed".to_string(), m);
    let elf = Elf::read(b).map_err(e)?;
    let (k, s) = elf.symbols().map_err(e)?;
    Ok((elf, k, s))
}

/// The file says what the object says
fn compare(bytes: Vec<u8>, o: &Object) -> Result<(), Bad> {
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    let (elf, symtab, syms) = parse(bytes)?;
    if elf.kind != 1 { return bad("malformed", "not relocatable".into()); }
    let mut index: HashMap<u64, Sec> = HashMap::new();
    for (sec, body, flags, ty) in [(Sec::Text, &o.text, 6, 1), (Sec::Data, &o.data, 3, 1), (Sec::Rodata, &o.rodata, 2, 1), (Sec::Bss, &vec![], 3, 8)] {
        let v: Vec<usize> = (0..elf.headers.len()).filter(|k| elf.headers[*k].name == sec.name()).collect();
        let n = if sec == Sec::Bss { o.bss } else { body.len() as u64 };
        if v.is_empty() && n == 0 { continue; }
        if v.len() != 1 { return bad("sections", format!("{} sections {}", v.len(), sec.name())); }
        let h = &elf.headers[v[0]];
        index.insert(v[0] as u64, sec);
        if h.flags != flags || h.ty != ty { return bad("sections", format!("{} has type {} and flags {:#x}", sec.name(), h.ty, h.flags)); }
        if h.align < 16 { return bad("sections", format!("{} has alignment {}", sec.name(), h.align)); }
        if h.size != n { return bad("contents", format!("{} has {} bytes, not {}", sec.name(), h.size, n)); }
        if elf.body(h) != &body[..] && sec != Sec::Bss { return bad("contents", format!("the bytes of {} differ at {:?}", sec.name(), elf.body(h).iter().zip(body).position(|(a, b)| a != b))); }
    }
    let loc = |s: &Sym| -> Option<(Sec, u64)> { index.get(&s.shndx).map(|k| (*k, s.value)) };
    let mut have: Vec<String> = syms.iter().skip(1).filter(|s| s.ty != 3 && s.ty != 4).map(|s| format!("{} {} {} {:?} {}", s.name, s.bind, s.vis, loc(s), if loc(s).is_some() { 0 } else { s.shndx })).collect();
    let mut want: Vec<String> = o.symbols.iter().map(|s| match s.binding {
        Binding::Local(l) => format!("{} 0 0 {:?} 0", s.name, Some((Sec::from(l.section), l.pos))),
        Binding::Global(l) => format!("{} 1 0 {:?} 0", s.name, l.map(|l| (Sec::from(l.section), l.pos))),
    }).collect();
    have.sort();
    want.sort();
    if have != want {
        let d = want.iter().find(|w| !have.contains(w)).map(|w| format!("`{}` is missing", w)).or(have.iter().find(|w| !want.contains(w)).map(|w| format!("`{}` is extra", w))).unwrap_or_default();
        return bad("symbols", format!("the symbols (name, binding, visibility, place) differ: {}", d));
    }
    // relocations
    let mut have: Vec<String> = vec![];
    for h in elf.headers.iter() {
        if h.ty == 9 { return bad("malformed", "relocations without addends".into()); }
        if h.ty != 4 { continue; }
        if h.link != symtab as u64 || h.entsize != 24 || h.size % 24 != 0 { return bad("malformed", format!("{}: link {}, size of entries {}", h.name, h.link, h.entsize)); }
        let Some(at) = index.get(&h.info) else { return bad("malformed", format!("{} is about section {}", h.name, h.info)) };
        if h.flags & 0x40 == 0 && false { return bad("malformed", "flags".into()); }
        for e in elf.body(h).chunks(24) {
            let (off, info, addend) = (u64_(e, 0).unwrap(), u64_(e, 8).unwrap(), u64_(e, 16).unwrap() as i64);
            let Some(s) = syms.get((info >> 32) as usize) else { return bad("malformed", format!("{} names symbol {}", h.name, info >> 32)) };
            let to = if s.ty == 3 { format!("section {:?}", loc(s)) } else { format!("symbol {}", s.name) };
            have.push(format!("{}+{} type {} to {} {:+}", at.name(), off, info & 0xffffffff, to, addend));
        }
    }
    let mut want: Vec<String> = o.relocs.iter().map(|r| format!("{}+{} type {} to {} {:+}", Sec::from(r.location.section).name(), r.location.pos,
        match r.ty { RelocType::PcRel8 => 15, RelocType::PcRel32 => 2, RelocType::PcRelToAddressTable32 => 9, RelocType::Abs64 => 1 },
        match &r.target { RelocTarget::Symbol(s) => format!("symbol {}", s), RelocTarget::Section(s) => format!("section {:?}", Some((Sec::from(*s), 0u64))) }, r.addend)).collect();
    have.sort();
    want.sort();
    if have != want {
        let d = want.iter().find(|w| !have.contains(w)).map(|w| format!("`{}` is missing", w)).or(have.iter().find(|w| !want.contains(w)).map(|w| format!("`{}` is extra", w))).unwrap_or_default();
        return bad("relocations", format!("the relocations differ: {}", d));
    }
    Ok(())
}

fn name(t: &mut Tape, k: usize) -> String {
    let n = match t.below(8) { 0 => 0, 1 => 60 + t.below(200), _ => t.below(12) };
    let mut s = String::new();
    for _ in 0..n { s.push(*t.pick(&['a', 'b', 'z', 'A', 'Z', '0', '9', '.', '_', '-', '/', ':', '~', '!', '?', '<', '>', '*', '+', '=', ' ', 'é', '漢', '😀', '(', ')', '$', '%'])); }
    format!("{}{}", s, k)
}

fn shape(t: &mut Tape, names: usize, max: usize) -> Shape {
    let mut globals: Vec<String> = xobj::NAMES.iter().filter(|_| t.bool()).map(|s| s.to_string()).collect();
    for k in 0..names { globals.push(name(t, k)); }
    Shape { globals, taken: vec![], short_across: true, insts: true, max, near_undefined: true }
}

fn readelf(dir: &Path, files: &[String]) -> Case {
    let o = Command::new("readelf").args(["-h", "-S", "-s", "-r", "-W"]).args(files).current_dir(dir).output().expect("readelf");
    let e = String::from_utf8_lossy(&o.stderr);
    if !o.status.success() || !e.trim().is_empty() { return fail("readelf", format!("readelf says {}", e.trim())); }
    Ok(())
}

fn files(t: &mut Tape, out: &mut Out) -> Case {
    let d = Scratch::new();
    let mut written = vec![];
    for k in 0..t.range(1, 12) {
        let from = t.used();
        let (names, max) = match t.below(12) { 0 => (300, 900), 1 | 2 => (30, 200), _ => (t.below(6) as usize, 40) };
        let mut sh = shape(t, names, max);
        let s = xobj::gen(t, &mut sh);
        out.spans.push((from, t.used()));
        out.bad = Some(k);
        if s.model().too_far() { continue; }
        let Ok(o) = s.produce() else { continue };
        out.evals += 1;
        out.desc = s.show().chars().take(3000).collect();
        if o.symbols.len() >= 2 && o.relocs.len() >= 2 { out.subs.push(out.desc.clone()); }
        out.classes.push(if o.symbols.len() > 100 { "file: over 100 symbols" } else { "file" });
        if o.text.is_empty() || o.data.is_empty() || o.rodata.is_empty() || o.bss == 0 { out.classes.push("file: an empty section"); }
        let f = match t.below(5) { 0 => "a".to_string(), 1 => format!("{}.llrl.o", name(t, k)).replace('/', "-"), _ => format!("{}.o", k) };
        let f: String = format!("f{}{}", k, f).chars().take(70).collect();
        xten::elf::write_relocatable_object(&d.0.join(&f), o.clone()).map_err(|e| ("refused".to_string(), format!("{}: {}", e, s.show())))?;
        let b = std::fs::read(d.0.join(&f)).unwrap();
        let b2 = b.clone();
        let c = std::panic::catch_unwind(|| compare(b2, &o));
        match c { Ok(Ok(())) => {} Ok(Err((s, m))) => return fail(&s, format!("{}; the object is {}", m, out.desc)), Err(_) => return fail("malformed", format!("the file is {} bytes: {}", b.len(), out.desc)) }
        if f.len() < 60 { written.push(f); }
    }
    out.bad = None;
    if !written.is_empty() { readelf(&d.0, &written)?; }
    Ok(())
}

/// A set of objects, no symbol defined twice and none left undefined
struct Set { scripts: Vec<Script>, models: Vec<Model> }

fn gen_set(t: &mut Tape, out: &mut Out) -> Set {
    let mut sh = shape(t, 4, 30);
    sh.globals.retain(|g| g != "$1" && g != "_");
    sh.short_across = false;
    let (n, long) = (t.range(1, 5), t.chance(1, 8));
    if long { sh.max = 400; }
    let mut v: Vec<Script> = vec![];
    for _ in 0..n {
        let from = t.used();
        let s = xobj::gen(t, &mut sh);
        out.spans.push((from, t.used()));
        if s.model().too_far() {
            let gone: Vec<String> = s.labels.iter().filter(|l| l.global).filter_map(|l| l.name.clone()).collect();
            sh.taken.retain(|x| !gone.contains(x) || v.iter().any(|s: &Script| s.steps.iter().any(|st| matches!(st, Step::Def(_, l) if s.labels[*l].name.as_ref() == Some(x)))));
            continue;
        }
        v.push(s);
    }
    // whatever is left
    let mut s = Script::default();
    for g in &sh.globals {
        if sh.taken.contains(g) { continue; }
        s.labels.push(xobj::Lab { name: Some(g.clone()), global: true });
        let k = *t.pick(&SECS);
        s.steps.push(Step::Def(k, s.labels.len() - 1));
        s.steps.push(Step::Alloc(k, t.below(40)));
    }
    v.insert(t.below(v.len() as u64 + 1) as usize, s);
    let models = v.iter().map(|s| s.model()).collect();
    Set { scripts: v, models }
}

/// Where the linker put the sections of each file, from its map
fn map(text: &str, files: usize) -> Vec<BTreeMap<Sec, (u64, u64)>> {
    let mut v = vec![BTreeMap::new(); files];
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 4 || !l.starts_with(" .") { continue; }
        let Some(s) = SECS.iter().find(|s| s.name() == w[0]) else { continue };
        let Some(k) = w[3].strip_prefix('o').and_then(|f| f.strip_suffix(".o")).and_then(|f| f.parse::<usize>().ok()) else { continue };
        let h = |s: &str| u64::from_str_radix(s.trim_start_matches("0x"), 16).unwrap_or(0);
        v[k].insert(*s, (h(w[1]), h(w[2])));
    }
    v
}

fn link(t: &mut Tape, out: &mut Out) -> Case {
    let set = gen_set(t, out);
    let d = Scratch::new();
    let n = set.scripts.len();
    out.evals = n as u64;
    out.desc = set.scripts.iter().map(|s| s.show()).collect::<Vec<_>>().join(" || ");
    if out.desc.len() > 4000 { out.desc = out.desc.chars().take(4000).collect(); }
    let uses: usize = set.models.iter().map(|m| m.uses.len()).sum();
    if n > 1 && uses >= 3 { out.subs.push(format!("link {}", out.desc)); }
    let mut names = vec![];
    for (k, s) in set.scripts.iter().enumerate() {
        let o = match s.produce() { Ok(o) => o, Err(e) => return fail("refused", format!("{}: {}", e, s.show())) };
        xten::elf::write_relocatable_object(&d.0.join(format!("o{}.o", k)), o).map_err(|e| ("refused".to_string(), e.to_string()))?;
        names.push(format!("o{}.o", k));
    }
    let o = Command::new("ld").args(["--no-relax", "-z", "noexecstack", "-e", "0", "-Map=map", "-o", "out"]).args(&names).current_dir(&d.0).output().expect("ld");
    let e = String::from_utf8_lossy(&o.stderr);
    if !o.status.success() || !e.trim().is_empty() { return fail("ld", format!("ld says {}; the objects are {}", e.trim(), out.desc)); }
    let places = map(&String::from_utf8_lossy(&std::fs::read(d.0.join("map")).unwrap()), n);
    let elf = Elf::read(std::fs::read(d.0.join("out")).unwrap()).unwrap_or_else(|e| panic!("the image: {}", e));
    let read = |a: u64, n: u64| -> Option<Vec<u8>> {
        let h = elf.headers.iter().find(|h| h.flags & 2 != 0 && h.ty != 8 && h.addr <= a && a + n <= h.addr + h.size)?;
        Some(elf.body(h)[(a - h.addr) as usize..(a - h.addr + n) as usize].to_vec())
    };
    let base = |k: usize, s: Sec| places[k].get(&s).map(|p| p.0);
    let mut globals: HashMap<&str, u64> = HashMap::new();
    for (k, (s, m)) in set.scripts.iter().zip(&set.models).enumerate() {
        for (l, (sec, pos)) in &m.defs {
            if let Lab { name: Some(n), global: true } = &s.labels[*l] { globals.insert(n, base(k, *sec).unwrap_or_else(|| panic!("{} of {} is not in the map", sec.name(), k)) + pos); }
        }
    }
    use xobj::Lab;
    for (k, (s, m)) in set.scripts.iter().zip(&set.models).enumerate() {
        for sec in SECS {
            let n = m.pos(sec);
            let Some((b, size)) = places[k].get(&sec).copied() else { if n == 0 { continue } else { return fail("image", format!("{} of {} bytes is not in the map: {}", sec.name(), n, out.desc)) } };
            if size != n { return fail("image", format!("{} has {} bytes, not {}: {}", sec.name(), size, n, out.desc)); }
            if n > 0 && b % 16 != 0 { return fail("image", format!("{} is at {:#x}: {}", sec.name(), b, out.desc)); }
            if sec == Sec::Bss || n == 0 { continue; }
            let Some(got) = read(b, n) else { return fail("image", format!("{} of object {} is not in the image: {}", sec.name(), k, out.desc)) };
            let mut field = 0;
            let at: BTreeMap<u64, u64> = m.uses.iter().filter(|u| u.sec == sec).map(|u| (u.pos, m.size(u) as u64)).collect();
            for (i, (x, y)) in got.iter().zip(&m.bytes[sec as usize]).enumerate() {
                if let Some(n) = at.get(&(i as u64)) { field = i as u64 + n; }
                if i as u64 >= field && x != y { return fail("image", format!("{}+{} of object {} holds {:#x}, not {:#x}: {}", sec.name(), i, k, x, y, out.desc)); }
            }
        }
        for u in &m.uses {
            let p = base(k, u.sec).unwrap() + u.pos;
            let to = match m.defs.get(&u.label) { Some((sec, pos)) => base(k, *sec).unwrap() + pos, None => globals[s.labels[u.label].name.as_deref().unwrap()] };
            let b = read(p, m.size(u) as u64).unwrap();
            out.classes.push(match (u.kind, m.defs.get(&u.label)) { (Ref::Pc8, _) => "link: short", (Ref::Table, _) => "link: table", (Ref::Abs, _) => "link: absolute", (Ref::Pc32, None) => "link: another object", (Ref::Pc32, Some(d)) if d.0 == u.sec => "link: same section", _ => "link: another section" });
            let got = match u.kind {
                Ref::Pc8 => (b[0] as i8 as i64).wrapping_sub(u.addend).wrapping_add(p as i64) as u64,
                Ref::Pc32 => (u32_(&b, 0).unwrap() as i32 as i64).wrapping_sub(u.addend).wrapping_add(p as i64) as u64,
                Ref::Abs => u64_(&b, 0).unwrap().wrapping_sub(u.addend as u64),
                Ref::Table => {
                    let g = (u32_(&b, 0).unwrap() as i32 as i64).wrapping_sub(u.addend).wrapping_add(p as i64) as u64;
                    match read(g, 8) { Some(b) => u64_(&b, 0).unwrap(), None => return fail("reference", format!("`{}` of object {} reaches {:#x} for the table: {}", s.steps[u.step].show(s), k, g, out.desc)) }
                }
            };
            if got != to { return fail("reference", format!("`{}` of object {} reaches {:#x}, where its target is at {:#x}: {}", s.steps[u.step].show(s), k, got, to, out.desc)); }
        }
    }
    Ok(())
}

const PEER: &str = r#"
(import "xten/asm" _)
(import "xten/elf" _)
(import "std/io" [io/_ _])

(function (out! name r) {(-> String (Result Object String) unit)}
  (match r
    [(err (let e)) (ignore (println! "error " e))]
    [(ok (let o))
      (match (write-relocatable-object! name o)
        [(ok _) (ignore (println! "ok"))]
        [(err (let e)) (ignore (println! "error " e))])]))
"#;

/// The library of the self-hosted compiler
fn peer(t: &mut Tape, out: &mut Out) -> Case {
    let mut scripts: Vec<Script> = vec![];
    let mut src = String::from(PEER);
    for _ in 0..t.range(1, 14) {
        let from = t.used();
        let mut sh = shape(t, 4, 50);
        let mut s = xobj::gen(t, &mut sh);
        if s.model().too_far() { s = Script::default(); s.labels.push(xobj::Lab { name: None, global: false }); }
        out.spans.push((from, t.used()));
        let i = scripts.len();
        let _ = write!(src, "(function (s{0})\n  (let ([w (writer/new)])\n{1}    (writer/produce w)))\n(out! \"{0}.o\" (s{0}))\n", i, s.llrl());
        scripts.push(s);
    }
    out.desc = scripts.iter().map(|s| s.show()).max_by_key(|s| s.len()).unwrap_or_default();
    let c = vharness::cli::configs().into_iter().next().expect("a compiler");
    let d = Scratch::new();
    d.write("cur/m.llrl", src.as_bytes());
    let r = c.compile(&d, &[&format!("-pxten:{}", std::env::var("VH_XTEN1").unwrap_or("/repo/xten1".into())), "-c-ldl", "m"], "m");
    if r.code != 0 || !d.0.join("m").exists() { return fail("peer-rejected", format!("a program over xten1 is not compiled: {}\n{}", r.both(), src)); }
    let r = vharness::cli::exec(&d, "m", b"", &[]);
    for (k, s) in scripts.iter().enumerate() {
        out.bad = Some(k);
        out.evals += 1;
        out.classes.push("peer");
        out.subs.push(format!("xten1 {}", s.show()));
        let Some(b) = [d.0.join(format!("{}.o", k)), d.0.join(format!("cur/{}.o", k))].iter().find_map(|p| std::fs::read(p).ok()) else { return fail("peer", format!("xten1 writes no file ({}): {}", r.text(), s.show())) };
        let o = s.produce().map_err(|e| ("refused".to_string(), format!("{}: {}", e, s.show())))?;
        match std::panic::catch_unwind(|| compare(b, &o)) { Ok(Ok(())) => {} Ok(Err((g, m))) => return fail(&format!("peer-{}", g), format!("xten1: {} ({}); the object is {}", m, r.text(), s.show())), Err(_) => return fail("peer-malformed", s.show()) }
    }
    out.bad = None;
    Ok(())
}

fn main() {
    let part = std::env::var("VH_PART").unwrap_or_default();
    main_with("c14", &|t, out| match part.as_str() { "link" => link(t, out), "peer" => peer(t, out), _ => files(t, out) });
}
