//! C16: arrays, vectors and iterators against lists.
use vharness::drv::{self, Hist};
use vharness::{main_with, Case, Out, Tape};
use std::cell::RefCell;
use std::rc::Rc;

type Blk = Rc<RefCell<Vec<u64>>>;
#[derive(Clone)]
struct Arr { b: Blk, off: usize, len: usize }
impl Arr {
    fn new(v: Vec<u64>) -> Arr { let len = v.len(); Arr { b: Rc::new(RefCell::new(v)), off: 0, len } }
    fn list(&self) -> Vec<u64> { self.b.borrow()[self.off..self.off + self.len].to_vec() }
    fn sub(&self, f: usize, t: usize) -> Arr { Arr { b: self.b.clone(), off: self.off + f, len: t - f } }
    fn set(&self, i: usize, x: u64) { self.b.borrow_mut()[self.off + i] = x; }
    fn assign(&self, v: &[u64]) { for (i, x) in v.iter().enumerate() { self.set(i, *x); } }
}

#[derive(Clone, Copy)]
struct Kind(u64);
impl Kind {
    /// the part of the number that the element keeps
    fn cut(&self, n: u64) -> u64 {
        match self.0 { 0 => n % 256, _ => n }
    }
    fn show(&self, n: u64) -> String {
        match self.0 {
            0 => format!("{}", n % 256),
            1 => format!("{}", n),
            2 => format!("s{}", n),
            3 => format!("{}:{}", n % 256, n.wrapping_mul(3)),
            5 => { let (a, b, c) = (n % 65536, n % 251, n / 65536 % 65536); format!("{}:{}:{}", a, b, c) }
            6 => { let (a, b, c) = (n % 256, n % 7, n / 256 % 256); format!("{}:{}:{}", a, b, c) }
            _ => if n % 5 == 0 { "none".into() } else { format!("{}", n % 65536) },
        }
    }
    fn debug(&self, n: u64) -> String {
        match self.0 {
            0 => format!("{}", n % 256),
            1 => format!("{}", n),
            2 => format!("\"s{}\"", n),
            3 => format!("(: {} {})", n % 256, n.wrapping_mul(3)),
            5 => { let (a, b, c) = (n % 65536, n % 251, n / 65536 % 65536); format!("(: {} {} {})", a, b, c) }
            6 => { let (a, b, c) = (n % 256, n % 7, n / 256 % 256); format!("(: {} {} {})", a, b, c) }
            _ => if n % 5 == 0 { "none".into() } else { format!("(some {})", n % 65536) },
        }
    }
    fn key(&self, n: u64) -> (u64, u64, String) {
        match self.0 {
            0 => (n % 256, 0, String::new()),
            1 => (n, 0, String::new()),
            2 => (0, 0, format!("s{}", n)),
            3 => (n % 256, n.wrapping_mul(3), String::new()),
            5 => ((n % 65536) << 32 | n % 251, n / 65536 % 65536, String::new()),
            6 => ((n % 256) << 32 | n % 7, n / 256 % 256, String::new()),
            _ => if n % 5 == 0 { (0, 0, String::new()) } else { (1, n % 65536, String::new()) },
        }
    }
    fn list(&self, v: &[u64]) -> String {
        let mut s = String::from("[");
        for x in v { s += &self.show(*x); s.push(' '); }
        s + "]"
    }
    fn cmp(&self, a: &[u64], b: &[u64]) -> String {
        let f = |v: &[u64]| v.iter().map(|n| self.key(*n)).collect::<Vec<_>>();
        let o = f(a).cmp(&f(b));
        format!("{}{}", b2(o.is_eq()), match o { std::cmp::Ordering::Less => "less", std::cmp::Ordering::Equal => "equal", _ => "greater" })
    }
}
fn b2(b: bool) -> &'static str { if b { "T" } else { "F" } }

fn elem(t: &mut Tape) -> u64 {
    if t.chance(1, 12) { t.edgy64() } else { t.below(40) }
}

fn history(t: &mut Tape) -> Hist {
    let k = Kind(t.below(7));
    let mut h = Hist { head: format!("elements: {}", ["U8", "U64", "String", "(: U8 U64)", "(Option U16)", "(: U32 U32 U32)", "(: U8 U8 U8)"][k.0 as usize]), ..Hist::default() };
    h.toks.push(k.0);
    let mut a: Vec<Arr> = (0..4).map(|_| Arr::new(vec![])).collect();
    let mut v: Vec<Vec<u64>> = vec![vec![]; 4];
    let want_fatal = t.chance(1, 40);
    let mean = *t.pick(&[4, 12, 40]);
    let ok = || "ok".to_string();
    let mut writes = 0;
    let mut reads = 0;
    while t.more(mean) {
        let s = t.below(4) as usize;
        let d = t.below(4) as usize;
        let len = a[s].len;
        let vl = v[d].len();
        let (su, du) = (s as u64, d as u64);
        let before = writes;
        writes += 1;
        match t.below(60) {
            0..=2 => {
                let n = if t.chance(1, 8) { t.range(0, 40) } else { t.range(0, 8) };
                let xs: Vec<u64> = (0..n).map(|_| k.cut(elem(t))).collect();
                let mut tk = vec![2, du, n as u64];
                tk.extend(&xs);
                h.op("array-new", &tk, format!("a{} := {}", d, k.list(&xs)), ok());
                a[d] = Arr::new(xs);
            }
            3 => { let f = t.range(0, len); let e = t.range(f, len); h.op("subarray", &[3, du, su, f as u64, e as u64], format!("a{} := subarray {} {} a{}", d, f, e, s), ok()); a[d] = a[s].sub(f, e); }
            4 => { let c = t.range(0, len + 2); h.op("array-take", &[4, du, su, c as u64], format!("a{} := take {} a{}", d, c, s), ok()); a[d] = a[s].sub(0, c.min(len)); }
            5 => { let c = t.range(0, len + 2); h.op("array-skip", &[5, du, su, c as u64], format!("a{} := skip {} a{}", d, c, s), ok()); a[d] = a[s].sub(c.min(len), len); }
            6 => {
                let c = t.range(0, len);
                let d2 = t.below(4) as usize;
                h.op("split-at", &[6, du, d2 as u64, su, c as u64], format!("a{}, a{} := split-at {} a{}", d, d2, c, s), ok());
                let (x, y) = (a[s].sub(0, c), a[s].sub(c, len));
                a[d] = x;
                a[d2] = y;
            }
            7 if len > 0 => { h.op("split-first", &[7, du, su], format!("_, a{} := split-first a{}", d, s), k.show(a[s].list()[0])); a[d] = a[s].sub(1, len); }
            8 if len > 0 => { h.op("split-last", &[8, du, su], format!("_, a{} := split-last a{}", d, s), k.show(a[s].list()[len - 1])); a[d] = a[s].sub(0, len - 1); }
            9 => {
                let c = t.range(0, len + 2);
                let e = if c <= len { k.list(&a[s].list()[..c]) } else { "none".into() };
                h.op("split-at?", &[9, du, su, c as u64], format!("_, a{} := split-at? {} a{}", d, c, s), e);
                if c <= len { a[d] = a[s].sub(c, len); }
            }
            10 => {
                h.op("split-first?", &[10, du, su], format!("_, a{} := split-first? a{}", d, s), if len > 0 { k.show(a[s].list()[0]) } else { "none".into() });
                if len > 0 { a[d] = a[s].sub(1, len); }
            }
            11 => {
                h.op("split-last?", &[11, du, su], format!("_, a{} := split-last? a{}", d, s), if len > 0 { k.show(a[s].list()[len - 1]) } else { "none".into() });
                if len > 0 { a[d] = a[s].sub(0, len - 1); }
            }
            12 => { let (i, x) = (t.range(0, len), k.cut(elem(t))); h.op("array-insert", &[12, du, su, i as u64, x], format!("a{} := insert {} {} a{}", d, i, k.show(x), s), ok()); let mut l = a[s].list(); l.insert(i, x); a[d] = Arr::new(l); }
            13 => { let x = k.cut(elem(t)); h.op("array-push", &[13, du, su, x], format!("a{} := push {} a{}", d, k.show(x), s), ok()); let mut l = a[s].list(); l.push(x); a[d] = Arr::new(l); }
            14 => { let x = k.cut(elem(t)); h.op("array-unshift", &[14, du, su, x], format!("a{} := unshift {} a{}", d, k.show(x), s), ok()); let mut l = a[s].list(); l.insert(0, x); a[d] = Arr::new(l); }
            15 if len > 0 => { let (i, x) = (t.range(0, len - 1), k.cut(elem(t))); h.op("array-update", &[15, du, su, i as u64, x], format!("a{} := update {} {} a{}", d, i, k.show(x), s), ok()); let mut l = a[s].list(); l[i] = x; a[d] = Arr::new(l); }
            16 if len > 0 => { let i = t.range(0, len - 1); h.op("array-remove", &[16, du, su, i as u64], format!("a{} := remove {} a{}", d, i, s), ok()); let mut l = a[s].list(); l.remove(i); a[d] = Arr::new(l); }
            17 => { let s2 = t.below(4) as usize; if a[s].len + a[s2].len > 300 { continue; } h.op("array-concat", &[17, du, su, s2 as u64], format!("a{} := concat a{} a{}", d, s, s2), ok()); let mut l = a[s].list(); l.extend(a[s2].list()); a[d] = Arr::new(l); }
            18 => { let x = k.cut(elem(t)); h.op("array-fill!", &[18, su, x], format!("fill! {} a{}", k.show(x), s), ok()); a[s].assign(&vec![x; len]); }
            19 => { let c = t.below(20); h.op("array-fill!*", &[19, su, c], format!("fill!* (count from {}) a{}", c + 1, s), ok()); a[s].assign(&(0..len as u64).map(|i| k.cut(c + 1 + i)).collect::<Vec<_>>()); }
            20 if a[s].len <= a[d].len && !Rc::ptr_eq(&a[s].b, &a[d].b) => { h.op("array-copy!", &[20, su, du], format!("copy! a{} a{}", s, d), ok()); let l = a[s].list(); a[d].assign(&l); }
            21 if len > 0 => { let (i, j) = (t.range(0, len - 1), t.range(0, len - 1)); h.op("array-swap!", &[21, su, i as u64, j as u64], format!("swap! {} {} a{}", i, j, s), ok()); let l = a[s].list(); a[s].set(i, l[j]); a[s].set(j, l[i]); }
            22 => { h.op("array-reverse!", &[22, su], format!("reverse! a{}", s), ok()); let mut l = a[s].list(); l.reverse(); a[s].assign(&l); }
            23 if len > 0 => { reads += 1; let i = t.range(0, len - 1); h.op("array-get", &[23, su, i as u64], format!("a{}[{}]", s, i), k.show(a[s].list()[i])); }
            24 => { let i = t.range(0, len + 1); h.op("array-get?", &[24, su, i as u64], format!("get? a{}[{}]", s, i), if i < len { format!("some {}", k.show(a[s].list()[i])) } else { "none".into() }); }
            25 if len > 0 => { let (i, x) = (t.range(0, len - 1), k.cut(elem(t))); h.op("array-set!", &[25, su, i as u64, x], format!("a{}[{}] := {}", s, i, k.show(x)), ok()); a[s].set(i, x); }
            26 if len > 0 => { let (i, x) = (t.range(0, len - 1), k.cut(elem(t))); h.op("array-ref", &[26, su, i as u64, x], format!("read and set {} through (array/ref {} a{})", k.show(x), i, s), k.show(a[s].list()[i])); a[s].set(i, x); }
            27 => { h.op("array-length", &[27, su], format!("length, empty? of a{}", s), format!("{}{}", len, b2(len == 0))); }
            28 => { h.op("array-compare", &[28, su, du], format!("=, compare a{} a{}", s, d), k.cmp(&a[s].list(), &a[d].list())); }
            29 => { reads += 1; h.op("array-iterate", &[29, su], format!("elements of a{}", s), k.list(&a[s].list())); }
            30 => { let mut l = a[s].list(); l.reverse(); h.op("array-rev-iterate", &[30, su], format!("elements of a{} backwards", s), k.list(&l)); }
            31 => { h.op("array-collect", &[31, du, su], format!("a{} := collect a{}", d, s), ok()); a[d] = Arr::new(a[s].list()); }
            32 => { let mut l = a[s].list(); l.reverse(); h.op("array-collect", &[32, du, su], format!("a{} := collect (rev-iterate a{})", d, s), ok()); a[d] = Arr::new(l); }
            33 => { let l = a[s].list(); h.op("array-debug", &[33, su], format!("debug a{}", s), format!("(array{})", l.iter().map(|x| format!(" {}", k.debug(*x))).collect::<String>())); }
            34 => { h.op("array-copy", &[34, du, su], format!("a{} := shallow-copy a{}", d, s), ok()); a[d] = Arr::new(a[s].list()); }
            35 => { let (c, x) = (t.range(0, 9), k.cut(elem(t))); h.op("array/new", &[35, du, c as u64, x], format!("a{} := array/new {} {}", d, k.show(x), c), ok()); a[d] = Arr::new(vec![x; c]); }
            36..=39 => {
                let c = if t.chance(1, 6) { t.range(1, 20) } else { 1 };
                for _ in 0..c { let x = k.cut(elem(t)); h.op("vector-push!", &[40, du, x], format!("push! {} v{}", k.show(x), d), ok()); v[d].push(x); }
            }
            40 => { let e = match v[d].pop() { Some(x) => format!("some {}", k.show(x)), None => "none".into() }; h.op("vector-pop!", &[41, du], format!("pop! v{}", d), e); }
            41 => { let (i, x) = (t.range(0, vl), k.cut(elem(t))); h.op("vector-insert!", &[42, du, i as u64, x], format!("insert! {} {} v{}", i, k.show(x), d), ok()); v[d].insert(i, x); }
            42 if vl > 0 => { let i = t.range(0, vl - 1); let x = v[d].remove(i); h.op("vector-remove!", &[43, du, i as u64], format!("remove! {} v{}", i, d), k.show(x)); }
            43 if vl > 0 => { let i = t.range(0, vl - 1); let x = v[d].swap_remove(i); h.op("vector-swap-remove!", &[44, du, i as u64], format!("swap-remove! {} v{}", i, d), k.show(x)); }
            44 => { let c = t.range(0, vl + 2); h.op("vector-truncate!", &[45, du, c as u64], format!("truncate! {} v{}", c, d), ok()); v[d].truncate(c); }
            45 if t.chance(1, 3) => { h.op("vector-clear!", &[46, du], format!("clear! v{}", d), ok()); v[d].clear(); }
            46 => { if v[d].len() + len > 300 { continue; } h.op("vector-append!", &[47, du, su], format!("append! a{} v{}", s, d), ok()); v[d].extend(a[s].list()); }
            47 => { if v[d].len() + v[s].len() > 300 { continue; } h.op("vector-append!", &[48, du, su], format!("append! (buffer v{}) v{}", s, d), ok()); let l = v[s].clone(); v[d].extend(l); }
            48 => {
                match t.below(4) {
                    0 => { let x = k.cut(elem(t)); h.op("vector-fill!", &[49, du, x], format!("fill! {} v{}", k.show(x), d), ok()); for y in v[d].iter_mut() { *y = x; } }
                    1 => { let c = t.below(20); h.op("vector-fill!*", &[73, du, c], format!("fill!* (count from {}) v{}", c + 1, d), ok()); for (i, y) in v[d].iter_mut().enumerate() { *y = k.cut(c + 1 + i as u64); } }
                    2 => { let (c, x) = (t.range(0, 9), k.cut(elem(t))); h.op("vector/new", &[70, du, c as u64, x], format!("v{} := vector/new {} {}", d, k.show(x), c), ok()); v[d] = vec![x; c]; }
                    _ => { let x: Vec<u64> = (0..3).map(|_| k.cut(elem(t))).collect(); h.op("vector", &[72, du, x[0], x[1], x[2]], format!("v{} := (vector {}), a{} := (array last first second)", d, k.list(&x), d), ok()); v[d] = x.clone(); a[d] = Arr::new(vec![x[2], x[0], x[1]]); }
                }
            }
            49 if vl > 0 => { let (i, j) = (t.range(0, vl - 1), t.range(0, vl - 1)); h.op("vector-swap!", &[50, du, i as u64, j as u64], format!("swap! {} {} v{}", i, j, d), ok()); v[d].swap(i, j); }
            50 => { h.op("vector-reverse!", &[51, du], format!("reverse! v{}", d), ok()); v[d].reverse(); }
            51 if vl > 0 => {
                reads += 1;
                let (i, x) = (t.range(0, vl - 1), k.cut(elem(t)));
                match t.below(3) {
                    0 => { h.op("vector-get", &[52, du, i as u64], format!("v{}[{}]", d, i), k.show(v[d][i])); }
                    1 => { h.op("vector-set!", &[54, du, i as u64, x], format!("v{}[{}] := {}", d, i, k.show(x)), ok()); v[d][i] = x; }
                    _ => { h.op("vector-ref", &[55, du, i as u64, x], format!("read and set {} through (vector/ref {} v{})", k.show(x), i, d), k.show(v[d][i])); v[d][i] = x; }
                }
            }
            52 => {
                let i = t.range(0, vl + 1);
                match t.below(3) {
                    0 => { h.op("vector-get?", &[53, du, i as u64], format!("get? v{}[{}]", d, i), if i < vl { format!("some {}", k.show(v[d][i])) } else { "none".into() }); }
                    _ => { h.op("vector-length", &[56, du], format!("length, empty?, length <= capacity, free = capacity - length of v{}", d), format!("{}{}TT", vl, b2(vl == 0))); }
                }
            }
            53 => {
                let vs = v[s].len();
                let c = t.range(0, vs);
                if t.bool() { h.op("vector-consume!", &[57, du, su, c as u64], format!("a{} := consume! {} v{}", d, c, s), ok()); let r = v[s].split_off(c); let l = std::mem::replace(&mut v[s], r); a[d] = Arr::new(l); }
                else { h.op("vector-consume-all!", &[58, du, su], format!("a{} := consume-all! v{}", d, s), ok()); a[d] = Arr::new(std::mem::take(&mut v[s])); }
            }
            54 => {
                if t.bool() { if s == d { continue; } h.op("vector-move!", &[59, du, su], format!("v{} := move! v{}", d, s), ok()); v[d] = std::mem::take(&mut v[s]); }
                else { h.op("vector-copy", &[60, du, su], format!("v{} := shallow-copy v{}", d, s), ok()); v[d] = v[s].clone(); }
            }
            55 => { h.op("vector-from-array", &[61, du, su], format!("v{} := from-array (copy of a{})", d, s), ok()); v[d] = a[s].list(); }
            56 => { h.op("vector-compare", &[62, du, su], format!("=, compare v{} v{}", d, s), k.cmp(&v[d], &v[s])); }
            57 => {
                reads += 1;
                match t.below(4) {
                    0 => { h.op("vector-iterate", &[63, du], format!("elements of v{}", d), k.list(&v[d])); }
                    1 => { let mut l = v[d].clone(); l.reverse(); h.op("vector-rev-iterate", &[64, du], format!("elements of v{} backwards", d), k.list(&l)); }
                    2 => { let e = format!("(vector{})", v[d].iter().map(|x| format!(" {}", k.debug(*x))).collect::<String>()); h.op("vector-debug", &[65, du], format!("debug v{}", d), e); }
                    _ => { let mut l = v[s].clone(); l.reverse(); h.op("vector-collect", &[71, du, su], format!("v{} := collect (rev-iterate v{})", d, s), ok()); v[d] = l; }
                }
            }
            58 => {
                let c = t.below(40);
                let x = t.below(2);
                if t.bool() { h.op("reserve-capacity!", &[66, du, c, x], format!("reserve-capacity! {} {} v{}", c, x == 1, d), "T".into()); }
                else { h.op("reserve-free!", &[67, du, c, x], format!("reserve-free! {} {} v{}", c, x == 1, d), "T".into()); }
            }
            _ => {
                if t.bool() { h.op("vector-buffer", &[68, du, su], format!("a{} := copy of (buffer v{})", d, s), ok()); a[d] = Arr::new(v[s].clone()); }
                else { let c = t.below(20); h.op("with-capacity", &[69, du, c], format!("v{} := with-capacity {}", d, c), ok()); v[d].clear(); }
            }
        }
        let _ = before;
    }
    for i in 0..4 {
        h.op("array-contents", &[29, i as u64], format!("elements of a{}", i), k.list(&a[i].list()));
        h.op("vector-contents", &[63, i as u64], format!("elements of v{}", i), k.list(&v[i]));
    }
    h.nontrivial = writes >= 3 && (reads > 0 || a.iter().any(|x| x.len > 0) || v.iter().any(|x| x.len() > 0));
    if want_fatal {
        let s = t.below(4) as usize;
        let su = s as u64;
        let (len, vl) = (a[s].len as u64, v[s].len() as u64);
        let beyond = |t: &mut Tape, n: u64| if t.chance(1, 4) { u64::MAX - t.below(3) } else { n + t.below(3) };
        h.toks.push(1);
        let bi = beyond(t, len);
        let bi1 = bi.max(len + 1);
        let vi = beyond(t, vl);
        let vi1 = vi.max(vl + 1);
        match t.below(20) {
            0 => h.op("array-get", &[23, su, bi], format!("a{}[{}]", s, bi), String::new()),
            1 => h.op("array-set!", &[25, su, bi, 1], format!("a{}[{}] := _", s, bi), String::new()),
            2 => h.op("array/ref", &[26, su, bi, 1], format!("(array/ref {} a{})", bi, s), String::new()),
            3 => h.op("subarray", &[3, 0, su, 0, bi1], format!("subarray 0 {} a{}", bi1, s), String::new()),
            4 => h.op("subarray", &[3, 0, su, 1, 0], format!("subarray 1 0 a{}", s), String::new()),
            5 => h.op("split-at", &[6, 0, 1, su, bi1], format!("split-at {} a{}", bi1, s), String::new()),
            6 => h.op("array-insert", &[12, 0, su, bi1, 1], format!("insert {} _ a{}", bi1, s), String::new()),
            7 if len > 0 => h.op("array-update", &[15, 0, su, bi, 1], format!("update {} _ a{}", bi, s), String::new()),
            8 => h.op("array-remove", &[16, 0, su, bi], format!("remove {} a{}", bi, s), String::new()),
            9 => h.op("array-swap!", &[21, su, 0, bi], format!("swap! 0 {} a{}", bi, s), String::new()),
            10 => h.op("array-swap!", &[21, su, bi, 0], format!("swap! {} 0 a{}", bi, s), String::new()),
            11 => h.op("vector-insert!", &[42, su, vi1, 1], format!("insert! {} _ v{}", vi1, s), String::new()),
            12 => h.op("vector-remove!", &[43, su, vi], format!("remove! {} v{}", vi, s), String::new()),
            13 => h.op("vector-swap-remove!", &[44, su, vi], format!("swap-remove! {} v{}", vi, s), String::new()),
            14 => h.op("vector-swap!", &[50, su, vi, 0], format!("swap! {} 0 v{}", vi, s), String::new()),
            15 => h.op("vector-get", &[52, su, vi], format!("v{}[{}]", s, vi), String::new()),
            16 => h.op("vector-set!", &[54, su, vi, 1], format!("v{}[{}] := _", s, vi), String::new()),
            17 => h.op("vector/ref", &[55, su, vi, 1], format!("(vector/ref {} v{})", vi, s), String::new()),
            18 => h.op("consume!", &[57, 0, su, vi1], format!("consume! {} v{}", vi1, s), String::new()),
            _ => { let e = (0..4).find(|i| a[*i].len == 0); match e { Some(e) => h.op("split-first", &[7, 0, e as u64], format!("split-first a{}", e), String::new()), None => h.op("array-get", &[23, su, bi], format!("a{}[{}]", s, bi), String::new()) } }
        }
        h.fatal = true;
        h.toks.push(1);
    }
    h.toks.push(0);
    h
}

// ------------------------------------------------------------------ iterators

type It = std::vec::IntoIter<u64>;

/// Small bound so that products of pipelines stay small.
fn source(t: &mut Tape, tk: &mut Vec<u64>, d: &mut String) -> Vec<u64> {
    let k = t.below(8);
    tk.push(k);
    match k {
        0 => {
            let n = t.range(0, 9);
            let xs: Vec<u64> = (0..n).map(|_| t.below(20)).collect();
            tk.push(n as u64);
            tk.extend(&xs);
            d.push_str(&format!("{:?}", xs));
            xs
        }
        1 => {
            let (a, b, s) = (t.below(20), t.below(20), t.range(1, 4) as u64);
            tk.extend([a, b, s]);
            d.push_str(&format!("(range {} {} {})", a, b, s));
            (a..b).step_by(s as usize).collect()
        }
        2 => {
            let (a, b) = (t.below(30) as i64 - 15, t.below(30) as i64 - 15);
            let s = [-1i64, 1, -3, 2, -5, 4][t.below(6) as usize];
            tk.extend([a as u64, b as u64, s as u64]);
            d.push_str(&format!("(range {} {} {})", a, b, s));
            let mut v = vec![];
            let mut i = a;
            while if s > 0 { i < b } else { i > b } { v.push(i as u64); i += s; }
            v
        }
        3 => { let (c, x) = (t.below(6), t.below(20)); tk.extend([c, x]); d.push_str(&format!("(repeat {} {})", c, x)); vec![x; c as usize] }
        4 => { let x = t.below(20); tk.push(x); d.push_str(&format!("(only {})", x)); vec![x] }
        5 => { d.push_str("empty"); vec![] }
        6 => { let (c, x, s) = (t.below(6), t.below(20), t.below(5)); tk.extend([c, x, s]); d.push_str(&format!("(unfold {} from {} by {})", c, x, s)); (0..c).map(|i| x + i * s).collect() }
        _ => { let (c, x) = (t.below(6), t.below(20)); tk.extend([c, x]); d.push_str(&format!("(take {} (forever {}))", c, x)); vec![x; c as usize] }
    }
}

fn pipelines(t: &mut Tape) -> Hist {
    let mut h = Hist { head: "pipelines".into(), ..Hist::default() };
    h.toks.push(9);
    let n = t.range(1, 6);
    for _ in 0..n {
        let mut tk = vec![2];
        let mut d = String::new();
        let mut l = source(t, &mut tk, &mut d);
        let st = t.range(0, 5);
        tk.push(st as u64);
        let mut names = vec![];
        for _ in 0..st {
            let k = t.below(19);
            tk.push(k);
            d.push_str(" | ");
            let arg = |t: &mut Tape, tk: &mut Vec<u64>, n: u64| { let x = t.below(n); tk.push(x); x };
            match k {
                0 => { let a = arg(t, &mut tk, 9); d += &format!("map +{}", a); for x in l.iter_mut() { *x = x.wrapping_add(a); } }
                1 => { let a = arg(t, &mut tk, 5); d += &format!("map *{}", a); for x in l.iter_mut() { *x = x.wrapping_mul(a); } }
                2 => { let m = t.range(1, 4) as u64; let r = t.below(m); tk.extend([m, r]); d += &format!("filter %{}={}", m, r); l.retain(|x| x % m == r); }
                3 => { let m = t.range(1, 4) as u64; let r = t.below(m); tk.extend([m, r]); d += &format!("filter-map %{}={} /{}", m, r, m); l = l.into_iter().filter(|x| x % m == r).map(|x| x / m).collect(); }
                4 => { let a = arg(t, &mut tk, 9); d += &format!("take {}", a); l.truncate(a as usize); }
                5 => { let a = arg(t, &mut tk, 9); d += &format!("skip {}", a); l = l.into_iter().skip(a as usize).collect(); }
                6 => { let a = arg(t, &mut tk, 25); d += &format!("take-while <{}", a); l = l.into_iter().take_while(|x| *x < a).collect(); }
                7 => { let a = arg(t, &mut tk, 25); d += &format!("skip-while <{}", a); l = l.into_iter().skip_while(|x| *x < a).collect(); }
                8 => { d += "with-index"; l = l.into_iter().enumerate().map(|(i, x)| (i as u64).wrapping_mul(1000).wrapping_add(x)).collect(); }
                9 | 10 => { d += if k == 9 { "zip " } else { "zip* " }; let o = source(t, &mut tk, &mut d); l = l.into_iter().zip(o).map(|(a, b)| a.wrapping_mul(31).wrapping_add(b)).collect(); }
                11 => {
                    d += "zip-either ";
                    let o = source(t, &mut tk, &mut d);
                    l = (0..l.len().max(o.len())).map(|i| match (l.get(i), o.get(i)) {
                        (Some(a), Some(b)) => a.wrapping_mul(31).wrapping_add(*b),
                        (Some(a), None) => a.wrapping_add(1),
                        (None, Some(b)) => b.wrapping_add(2),
                        _ => unreachable!(),
                    }).collect();
                }
                12 => { d += "chain "; let o = source(t, &mut tk, &mut d); l.extend(o); }
                13 => { d += "concat "; let x = source(t, &mut tk, &mut d); d += " _ "; let y = source(t, &mut tk, &mut d); l = x.into_iter().chain(l).chain(y).collect(); }
                14 => {
                    let a = arg(t, &mut tk, 4);
                    d += &format!("flat-map #{}", a);
                    if l.len() > 200 { l = vec![]; return pipelines_end(h); }
                    l = l.into_iter().flat_map(|x| -> Vec<u64> { match a {
                        0 => vec![x; (x % 4) as usize],
                        1 => (0..x % 3).map(|i| x.wrapping_add(i)).collect::<Vec<_>>().into_iter().take(if x.wrapping_add(x % 3) < x { 0 } else { 9 }).collect(),
                        2 => vec![x, x.wrapping_add(1)],
                        _ => if x % 2 == 0 { vec![] } else { vec![x] },
                    } }).collect();
                }
                15 | 16 => { d += if k == 15 { "collect to array" } else { "collect to vector" }; }
                17 => { d += "rev-iterate"; l.reverse(); }
                _ => { d += "id"; }
            }
            names.push(k);
        }
        let show = |v: &[u64]| Kind(1).list(v);
        let opt = |x: Option<u64>| match x { Some(x) => format!("some {}", x), None => "none".to_string() };
        let c = t.below(18);
        tk.push(c);
        let a = if [3, 5, 6, 7, 8, 9, 12, 13, 14, 16, 17].contains(&c) { let x = t.below(if c == 3 || c == 14 { 9 } else { 40 }); tk.push(x); x } else { 0 };
        let (name, e): (&'static str, String) = match c {
            0 => ("it-collect", show(&l)),
            1 => ("it-count", format!("{}", l.len())),
            2 => ("it-first?", opt(l.first().copied())),
            3 => ("it-at", opt(l.get(a as usize).copied())),
            4 => ("it-fold", format!("{}", l.iter().fold(7u64, |x, y| x.wrapping_mul(31).wrapping_add(*y)))),
            5 => ("it-all?", b2(l.iter().all(|x| *x < a)).into()),
            6 => ("it-any?", b2(l.iter().any(|x| *x < a)).into()),
            7 => ("it-find?", opt(l.iter().copied().find(|x| *x < a))),
            8 => ("it-find-map?", opt(l.iter().copied().find(|x| *x < a).map(|x| x + 5))),
            9 => ("it-find-index?", opt(l.iter().position(|x| *x < a).map(|x| x as u64))),
            10 => ("it-sum", format!("{}", l.iter().fold(0u64, |x, y| x.wrapping_add(*y)))),
            11 => ("it-product", format!("{}", l.iter().fold(1u64, |x, y| x.wrapping_mul(*y)))),
            12 => ("it-traverse-option", if l.iter().all(|x| *x < a) { show(&l.iter().map(|x| x + 5).collect::<Vec<_>>()) } else { "none".into() }),
            13 => ("it-traverse-result", match l.iter().find(|x| **x >= a) { None => show(&l.iter().map(|x| x + 5).collect::<Vec<_>>()), Some(x) => format!("e{}", x) }),
            14 => { let k = (a as usize).min(l.len()); ("it-resume-take", format!("{}{}", show(&l[..k]), show(&l[k..]))) }
            15 => ("it-resume-first", format!("{}{}", opt(l.first().copied()), show(&l[1.min(l.len())..]))),
            16 => { let p = l.iter().position(|x| *x < a); ("it-resume-find", format!("{}{}", opt(p.map(|p| l[p])), show(&l[p.map_or(l.len(), |p| p + 1)..]))) }
            _ => { let p = l.iter().position(|x| *x >= a); ("it-resume-all", format!("{}{}", b2(p.is_none()), show(&l[p.map_or(l.len(), |p| p + 1)..]))) }
        };
        d += &format!(" || {} {}", name, a);
        h.nontrivial |= !l.is_empty() && names.len() >= 2;
        h.op(name, &tk, d, e);
        let _: Option<It> = None;
    }
    pipelines_end(h)
}
fn pipelines_end(mut h: Hist) -> Hist {
    h.toks.push(0);
    h
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 60);
    let mut hs = vec![];
    for _ in 0..n {
        let from = t.used();
        if t.below(3) < 2 { hs.push(history(t)); out.classes.push("sequences"); } else { hs.push(pipelines(t)); out.classes.push("pipelines"); }
        out.spans.push((from, t.used()));
        if hs.last().unwrap().fatal { out.classes.push("refused"); }
    }
    drv::judge(&drv::exe(), &hs, out)
}

fn main() {
    main_with("c16", &case)
}
