//! C17: mutable hash-based and ordered maps and sets against mathematical ones.
use std::collections::BTreeMap;
use vharness::drv::{self, Hist};
use vharness::{main_with, Case, Out, Tape};

type K = (String, u64);
type M = BTreeMap<K, u64>;

fn key(kind: u64, n: u64) -> K {
    (if kind == 1 { format!("k{}", n) } else { String::new() }, n)
}
fn opt(x: Option<u64>) -> String { x.map_or("none".into(), |x| format!("some {}", x)) }
fn b2(b: bool) -> &'static str { if b { "T" } else { "F" } }
fn list(v: impl Iterator<Item = u64>) -> String { v.map(|x| format!("{} ", x)).collect() }

fn history(t: &mut Tape) -> Hist {
    let kind = t.below(5);
    let cont = t.below(4);
    let (ord, set) = (cont >= 2, cont % 2 == 1);
    let name = ["hash-map", "hash-set", "ord-map", "ord-set"][cont as usize];
    let mut h = Hist { head: format!("{} with {} keys", name, ["U64", "String", "hash n%8", "constant hash", "hash n%3"][kind as usize]), ..Hist::default() };
    h.toks.extend([kind, cont]);
    let mut m: Vec<M> = vec![M::new(); 3];
    let mean = *t.pick(&[5, 20, 60]);
    let span = *t.pick(&[4, 12, 64]);
    let (mut writes, mut reads) = (0, 0);
    let ok = || "ok".to_string();
    while t.more(mean) {
        let d = if t.chance(2, 3) { 0 } else { t.below(3) as usize };
        let s = t.below(3) as usize;
        let (du, su) = (d as u64, s as u64);
        let n = if t.chance(1, 20) { t.edgy64() } else { t.below(span) };
        let n = if kind == 1 && n > 1 << 62 { n >> 2 } else { n };
        let k = key(kind, n);
        let x = if set { 0 } else { t.below(100) };
        let entries = |m: &M| -> String {
            let mut v: Vec<(u64, u64)> = m.iter().map(|(k, v)| (k.1, *v)).collect();
            if !ord { v.sort(); }
            v.iter().map(|(k, v)| format!("{}={} ", k, v)).collect()
        };
        let keys = |m: &M| -> String {
            let mut v: Vec<u64> = m.keys().map(|k| k.1).collect();
            if !ord { v.sort(); }
            list(v.into_iter())
        };
        let pair = |e: Option<(K, u64)>| e.map_or("none".into(), |(k, v)| if set { format!("some {}", k.1) } else { format!("some {}={}", k.1, v) });
        match t.below(40) {
            0..=9 => {
                let tk = if set { vec![2, du, n] } else { vec![2, du, n, x] };
                let old = m[d].insert(k, x);
                h.op("insert", &tk, format!("m{} insert {} {}", d, n, x), if set { b2(old.is_none()).into() } else { opt(old) });
                writes += 1;
            }
            10..=15 => {
                let old = m[d].remove(&k);
                h.op("remove", &[3, du, n], format!("m{} remove {}", d, n), if set { b2(old.is_some()).into() } else { opt(old) });
                writes += 1;
            }
            16 | 17 => {
                reads += 1;
                if set { h.op("has?", &[5, du, n], format!("m{} has? {}", d, n), b2(m[d].contains_key(&k)).into()) }
                else { h.op("get?", &[4, du, n], format!("m{} get? {}", d, n), opt(m[d].get(&k).copied())) }
            }
            18 => { reads += 1; h.op("has?", &[5, du, n], format!("m{} has? {}", d, n), b2(m[d].contains_key(&k)).into()) }
            19 => { reads += 1; h.op("length", &[6, du], format!("m{} length, empty?", d), format!("{}{}", m[d].len(), b2(m[d].is_empty()))) }
            20 if t.chance(1, 2) => { m[d].clear(); writes += 1; h.op("clear", &[7, du], format!("m{} clear", d), ok()) }
            20..=22 => {
                reads += 1;
                if set { h.op("elements", &[9, du], format!("m{} elements", d), keys(&m[d])) }
                else { h.op("elems", &[8, du], format!("m{} elems", d), entries(&m[d])) }
            }
            23 => { reads += 1; h.op("keys", &[9, du], format!("m{} keys", d), keys(&m[d])) }
            24 if !set => {
                reads += 1;
                let mut v: Vec<u64> = m[d].values().copied().collect();
                if !ord { v.sort(); }
                h.op("values", &[10, du], format!("m{} values", d), list(v.into_iter()))
            }
            25 => { writes += 1; m[d] = m[s].clone(); h.op("shallow-copy", &[11, du, su], format!("m{} := shallow-copy m{}", d, s), ok()) }
            26 => { writes += 1; m[d] = m[s].clone(); h.op("deep-copy", &[12, du, su], format!("m{} := deep-copy m{}", d, s), ok()) }
            27 | 28 => {
                reads += 1;
                let e = m[d] == m[s];
                let r = if ord {
                    let o = m[d].iter().cmp(m[s].iter());
                    format!("{}{}", b2(e), match o { std::cmp::Ordering::Less => "less", std::cmp::Ordering::Equal => "equal", _ => "greater" })
                } else { b2(e).into() };
                h.op("equality", &[13, du, su], format!("m{} = m{}", d, s), r)
            }
            29 if cont == 0 => { let c = t.below(80); h.op("reserve", &[14, du, c], format!("m{} reserve-capacity {}", d, c), ok()) }
            30 if cont == 0 => { let c = t.below(40); writes += 1; m[d].clear(); h.op("with-capacity", &[15, du, c], format!("m{} := with-capacity {}", d, c), ok()) }
            29..=32 => {
                let (a, st, c) = (t.below(40), t.range(1, 17) as u64, if t.chance(1, 10) { t.below(600) } else { t.below(50) });
                writes += 1;
                if t.chance(1, 2) {
                    for j in 0..c { m[d].insert(key(kind, a + j * st), if set { 0 } else { j }); }
                    h.op("insert-many", &[16, du, a, st, c], format!("m{} insert {} keys from {} step {}, values 0..", d, c, a, st), ok())
                } else {
                    let r = (0..c).filter(|j| m[d].remove(&key(kind, a + j * st)).is_some()).count();
                    h.op("remove-many", &[17, du, a, st, c], format!("m{} remove {} keys from {} step {}", d, c, a, st), r.to_string())
                }
            }
            33 => {
                let (b, y) = (t.below(span), if set { 0 } else { t.below(100) });
                writes += 1;
                m[d].clear();
                m[d].insert(k, x);
                m[d].insert(key(kind, b), y);
                let tk = if set { vec![18, du, n, b] } else { vec![18, du, n, x, b, y] };
                h.op("literal", &tk, format!("m{} := literal of {}={}, {}={}", d, n, x, b, y), ok())
            }
            34 => { writes += 1; m[d] = m[s].clone(); h.op("collect", &[19, du, su], format!("m{} := collect m{}", d, s), ok()) }
            35 => { if t.chance(1, 2) { m[d].clear(); h.op("default", &[20, du], format!("m{} := default", d), ok()) } }
            36 if !set => {
                writes += 1;
                let old = m[d].insert(k, x);
                h.op("insert-elem", &[21, du, n, x], format!("m{} insert-elem (: {} {})", d, n, x), opt(old))
            }
            37 | 38 if ord => {
                reads += 1;
                let f = |e: Option<(&K, &u64)>| pair(e.map(|(k, v)| (k.clone(), *v)));
                match t.below(4) {
                    0 => { let e = f(m[d].first_key_value()); h.op("min", &[22, du], format!("m{} min", d), e) }
                    1 => { let e = f(m[d].last_key_value()); h.op("max", &[23, du], format!("m{} max", d), e) }
                    2 => { writes += 1; let e = pair(m[d].pop_first()); h.op("remove-min", &[24, du], format!("m{} remove-min", d), e) }
                    _ => { writes += 1; let e = pair(m[d].pop_last()); h.op("remove-max", &[25, du], format!("m{} remove-max", d), e) }
                }
            }
            39 if ord => {
                reads += 1;
                if t.chance(1, 2) { h.op("equal-hash", &[27, du, su], format!("m{} = m{} implies equal hashes", d, s), "T".into()) }
                else {
                    let kk = |k: &K| if kind == 1 { format!("\"{}\"", k.0) } else { k.1.to_string() };
                    let body: String = m[d].iter().map(|(k, v)| if set { format!(" {}", kk(k)) } else { format!(" (: {} {})", kk(k), v) }).collect();
                    h.op("debug", &[26, du], format!("m{} debug", d), format!("({}{})", name, body))
                }
            }
            _ => {}
        }
    }
    // every history ends by reading all three back
    for d in 0..3u64 {
        let mm = &m[d as usize];
        let mut v: Vec<(u64, u64)> = mm.iter().map(|(k, v)| (k.1, *v)).collect();
        if !ord { v.sort(); }
        h.op("length", &[6, d], format!("m{} length, empty?", d), format!("{}{}", mm.len(), b2(mm.is_empty())));
        if set { h.op("elements", &[9, d], format!("m{} elements", d), list(v.iter().map(|e| e.0))); }
        else { h.op("elems", &[8, d], format!("m{} elems", d), v.iter().map(|e| format!("{}={} ", e.0, e.1)).collect()); }
    }
    h.toks.push(0);
    h.nontrivial = writes >= 2 && reads >= 1;
    h
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 60);
    let mut hs = vec![];
    for _ in 0..n {
        let from = t.used();
        hs.push(history(t));
        out.spans.push((from, t.used()));
        let h = hs.last().unwrap();
        out.classes.push(["hash-map", "hash-set", "ord-map", "ord-set"][h.toks[1] as usize]);
    }
    drv::judge(&drv::exe(), &hs, out)
}

fn main() {
    main_with("c17", &case)
}
