//! C18: versions of persistent maps against mathematical maps.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vharness::drv::{self, Hist};
use vharness::{main_with, Case, Out, Tape};

type K = (String, u64);
type V = Rc<Cell<u64>>;
type M = BTreeMap<K, V>;

fn key(kind: u64, n: u64) -> K {
    (if kind == 1 { format!("k{}", n) } else { String::new() }, n)
}
fn val(x: u64) -> V { Rc::new(Cell::new(x)) }
fn b2(b: bool) -> &'static str { if b { "T" } else { "F" } }
fn list(v: impl Iterator<Item = u64>) -> String { v.map(|x| format!("{} ", x)).collect() }

fn history(t: &mut Tape) -> Hist {
    let kind = t.below(5);
    let ord = t.chance(1, 2);
    let name = if ord { "ord-map" } else { "hash-map" };
    let mut h = Hist { head: format!("persistent {} with {} keys, v0 empty", name, ["U64", "String", "hash n%8", "constant hash", "hash n%3"][kind as usize]), ..Hist::default() };
    h.toks.extend([kind, ord as u64]);
    let mut m: Vec<M> = vec![M::new()];
    let mut used: Vec<u32> = vec![0];
    let mean = *t.pick(&[5, 20, 60]);
    let span = *t.pick(&[4, 12, 64]);
    let local = t.chance(2, 3);
    let ok = || "ok".to_string();
    while t.more(mean) {
        // mostly the latest version, sometimes any older one
        let s = if local && t.chance(3, 4) { m.len() - 1 } else { t.range(0, m.len() - 1) };
        let b = t.range(0, m.len() - 1);
        let (su, bu) = (s as u64, b as u64);
        let n = if t.chance(1, 20) { t.edgy64() >> 2 } else { t.below(span) };
        let k = key(kind, n);
        let x = t.below(100);
        let d = m.len();
        let mut cur = m[s].clone();
        let before = m.len();
        let entry = |e: Option<(&K, &V)>| e.map_or("none".into(), |(k, v)| format!("some {}={}", k.1, v.get()));
        match t.below(44) {
            0..=9 => { cur.insert(k, val(x)); m.push(cur); h.op("insert", &[2, su, n, x], format!("v{} := insert {} {} v{}", d, n, x, s), ok()); }
            10..=15 => { cur.remove(&k); m.push(cur); h.op("remove", &[3, su, n], format!("v{} := remove {} v{}", d, n, s), ok()); }
            16 | 17 => h.op("get?", &[4, su, n], format!("get? {} v{}", n, s), cur.get(&k).map_or("none".into(), |v| format!("some {}", v.get()))),
            18 => h.op("has?", &[5, su, n], format!("has? {} v{}", n, s), b2(cur.contains_key(&k)).into()),
            19 => h.op("length", &[6, su], format!("length, empty? v{}", s), if ord { b2(cur.is_empty()).into() } else { format!("{}{}", cur.len(), b2(cur.is_empty())) }),
            20 => elems(&mut h, &cur, s, ord),
            21 => { let mut v: Vec<u64> = cur.keys().map(|k| k.1).collect(); if !ord { v.sort(); } h.op("keys", &[9, su], format!("keys v{}", s), list(v.into_iter())) }
            22 => { let mut v: Vec<u64> = cur.values().map(|v| v.get()).collect(); if !ord { v.sort(); } h.op("values", &[10, su], format!("values v{}", s), list(v.into_iter())) }
            23 => { m.push(cur); h.op("shallow-copy", &[11, su], format!("v{} := shallow-copy v{}", d, s), ok()) }
            24 => { m.push(cur.into_iter().map(|(k, v)| (k, val(v.get()))).collect()); h.op("deep-copy", &[12, su], format!("v{} := deep-copy v{}", d, s), ok()) }
            25 => {
                let f = |m: &M| m.iter().map(|(k, v)| (k.clone(), v.get())).collect::<Vec<_>>();
                let o = f(&cur).cmp(&f(&m[b]));
                let e = b2(o.is_eq());
                h.op("equality", &[13, su, bu], format!("v{} = v{}", s, b), if ord { format!("{}{}", e, match o { std::cmp::Ordering::Less => "less", std::cmp::Ordering::Equal => "equal", _ => "greater" }) } else { e.into() })
            }
            26..=29 => {
                let (a, st, c) = (t.below(40), t.range(1, 17) as u64, if t.chance(1, 10) { t.below(600) } else { t.below(50) });
                if t.chance(1, 2) {
                    for j in 0..c { cur.insert(key(kind, a + j * st), val(j)); }
                    h.op("insert-many", &[16, su, a, st, c], format!("v{} := insert {} keys from {} step {}, values 0.. v{}", d, c, a, st, s), ok())
                } else {
                    for j in 0..c { cur.remove(&key(kind, a + j * st)); }
                    h.op("remove-many", &[17, su, a, st, c], format!("v{} := remove {} keys from {} step {} v{}", d, c, a, st, s), ok())
                }
                m.push(cur);
            }
            30 => {
                let (c, y) = (t.below(span), t.below(100));
                let mut z = M::new();
                z.insert(k, val(x));
                z.insert(key(kind, c), val(y));
                m.push(z);
                h.op("literal", &[18, n, x, c, y], format!("v{} := literal of {}={}, {}={}", d, n, x, c, y), ok())
            }
            31 => { m.push(cur); h.op("collect", &[19, su], format!("v{} := collect v{}", d, s), ok()) }
            32 => { if t.chance(1, 4) { m.push(M::new()); h.op("default", &[20], format!("v{} := default", d), ok()) } }
            33 => { cur.insert(k, val(x)); m.push(cur); h.op("insert-elem", &[21, su, n, x], format!("v{} := insert-elem (: {} {}) v{}", d, n, x, s), ok()) }
            34 => {
                let e = match cur.get(&k) { Some(v) => { v.set(x); ok() } None => "none".into() };
                h.op("write-through", &[28, su, n, x], format!("set! (get? {} v{}) {}", n, s, x), e)
            }
            35 => {
                let kk = |k: &K| if kind == 1 { format!("\"{}\"", k.0) } else { k.1.to_string() };
                let body: String = cur.iter().map(|(k, v)| format!(" (: {} {})", kk(k), v.get())).collect();
                let s0 = format!("({}{})", name, body);
                if ord { h.op("debug", &[26, su], format!("debug v{}", s), s0) } else { h.op("debug", &[29, su], format!("length of debug v{}", s), s0.len().to_string()) }
            }
            36 if ord => h.op("min", &[22, su], format!("get-min? v{}", s), entry(cur.first_key_value())),
            37 if ord => h.op("max", &[23, su], format!("get-max? v{}", s), entry(cur.last_key_value())),
            38 if ord => { cur.pop_first(); m.push(cur); h.op("remove-min", &[24, su], format!("v{} := remove-min v{}", d, s), ok()) }
            39 if ord => { cur.pop_last(); m.push(cur); h.op("remove-max", &[25, su], format!("v{} := remove-max v{}", d, s), ok()) }
            40..=42 if ord => {
                let o = t.below(6);
                let other = m[b].clone();
                let pick = |a: &V, b: &V| val(a.get() * 100 + b.get());
                let r: M = match o {
                    0 | 1 => {
                        let mut r = cur.clone();
                        for (k, v) in &other { let nv = match cur.get(k) { None => v.clone(), Some(a) if o == 0 => a.clone(), Some(a) => pick(a, v) }; r.insert(k.clone(), nv); }
                        r
                    }
                    2 | 3 => cur.iter().filter_map(|(k, a)| other.get(k).map(|b| (k.clone(), if o == 2 { a.clone() } else { pick(a, b) }))).collect(),
                    _ => {
                        // the standard library's difference is symmetric
                        let mut r = cur.clone();
                        for (k, v) in &other {
                            match cur.get(k) {
                                None => { r.insert(k.clone(), v.clone()); }
                                Some(a) if o == 5 && k.1.wrapping_add(a.get()) % 2 != 0 => { r.insert(k.clone(), pick(a, v)); }
                                Some(_) => { r.remove(k); }
                            }
                        }
                        r
                    }
                };
                // keep values small
                if r.values().any(|v| v.get() > 1 << 40) { continue; }
                m.push(r);
                let nm = ["union", "union*", "intersection", "intersection*", "difference", "difference*"][o as usize];
                h.op(nm, &[30 + o, su, bu], format!("v{} := {} v{} v{}", d, nm, s, b), ok());
            }
            43 if ord => h.op("equal-hash", &[27, su, bu], format!("v{} = v{} implies equal hashes", s, b), "T".into()),
            _ => {}
        }
        if m.len() > before { used.push(0); used[s] += 1; }
    }
    // every history ends by reading all versions back
    for (s, mm) in m.iter().enumerate() {
        elems(&mut h, mm, s, ord);
        if !ord { h.op("length", &[6, s as u64], format!("length, empty? v{}", s), format!("{}{}", mm.len(), b2(mm.is_empty()))); }
    }
    h.toks.push(0);
    // some version other than the first, which is empty, has more than one descendant
    h.nontrivial = used.iter().zip(&m).any(|(u, m)| *u >= 2 && !m.is_empty());
    h
}
fn elems(h: &mut Hist, m: &M, s: usize, ord: bool) {
    let mut v: Vec<(u64, u64)> = m.iter().map(|(k, v)| (k.1, v.get())).collect();
    if !ord { v.sort(); }
    h.op("elems", &[8, s as u64], format!("elems v{}", s), v.iter().map(|e| format!("{}={} ", e.0, e.1)).collect());
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 60);
    let mut hs = vec![];
    for _ in 0..n {
        let from = t.used();
        hs.push(history(t));
        out.spans.push((from, t.used()));
        let h = hs.last().unwrap();
        out.classes.push(["hash-map", "ord-map"][h.toks[1] as usize]);
    }
    drv::judge(&drv::exe(), &hs, out)
}

fn main() {
    main_with("c18", &case)
}
