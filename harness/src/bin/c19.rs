//! C19: strings, texts, characters and numbers as text.
use vharness::drv::{self, Hist};
use vharness::{main_with, Case, Out, Tape};

fn b2(b: bool) -> &'static str { if b { "T" } else { "F" } }
fn show(b: &[u8]) -> String { b.iter().map(|x| format!("{},", x)).collect() }
fn ordering(o: std::cmp::Ordering) -> &'static str {
    match o { std::cmp::Ordering::Less => "less", std::cmp::Ordering::Equal => "equal", _ => "greater" }
}
fn opt(x: Option<String>) -> String { x.map_or("none".into(), |x| format!("some {}", x)) }
fn escape(c: char) -> Option<&'static str> {
    Some(match c { '\t' => "\\t", '\r' => "\\r", '\n' => "\\n", '"' => "\\\"", '\\' => "\\\\", _ => return None })
}
fn debug(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match escape(c) { Some(e) => r += e, None => r.push(c) } }
    r + "\""
}

fn scalar(t: &mut Tape) -> char {
    let c = match t.below(16) {
        0..=7 => *t.pick(&['a', 'b', 'a', 'b', '\n', ',', 'A']),
        8 => t.range(0, 127) as u32 as u8 as char,
        9 => *t.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\0', '\r', '\t', '"', '\\', '\u{fffd}']),
        10 | 11 => 'é',
        12 => '語',
        13 => '𐍈',
        14 => char::from_u32(t.range(0x80, 0x7ff) as u32).unwrap(),
        _ => loop_char(t.range(0x800, 0x10ffff) as u32),
    };
    c
}
fn loop_char(n: u32) -> char { char::from_u32(n).unwrap_or('\u{3042}') }
fn text(t: &mut Tape, mean: u64) -> String {
    let mut s = String::new();
    while t.more(mean) { s.push(scalar(t)); }
    s
}
/// nearly valid UTF-8
fn bytes(t: &mut Tape) -> Vec<u8> {
    let mut b = text(t, 5).into_bytes();
    match t.below(5) {
        0 | 1 => {}
        2 if !b.is_empty() => { let k = t.range(0, b.len() - 1); b[k] = *t.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0x41, 0x9f, 0xa0, 0x8f, 0x90]); }
        3 if !b.is_empty() => { let k = t.range(0, b.len() - 1); b.remove(k); }
        _ => { for _ in 0..t.range(1, 4) { let x = *t.pick(&[0x80, 0xbf, 0xc0, 0xc2, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff, 0x41, 0x9f, 0xa0, 0x8f, 0x90]); let k = t.range(0, b.len()); b.insert(k, x); } }
    }
    b
}
fn tok_bytes(tk: &mut Vec<u64>, b: &[u8]) {
    tk.push(b.len() as u64);
    tk.extend(b.iter().map(|x| *x as u64));
}

fn digits(mut v: u128, radix: u32) -> String {
    let mut d = vec![];
    loop {
        d.push(std::char::from_digit((v % radix as u128) as u32, radix).unwrap());
        v /= radix as u128;
        if v == 0 { break; }
    }
    d.iter().rev().collect()
}
const TYPES: [(&str, i128, i128); 8] = [
    ("U8", 0, 255), ("U16", 0, 65535), ("U32", 0, u32::MAX as i128), ("U64", 0, u64::MAX as i128),
    ("I8", -128, 127), ("I16", -32768, 32767), ("I32", i32::MIN as i128, i32::MAX as i128), ("I64", i64::MIN as i128, i64::MAX as i128)];
fn cut(ty: usize, v: u64) -> i128 {
    match ty { 0 => v as u8 as i128, 1 => v as u16 as i128, 2 => v as u32 as i128, 3 => v as i128, 4 => v as i8 as i128, 5 => v as i16 as i128, 6 => v as i32 as i128, _ => v as i64 as i128 }
}
fn in_radix(v: i128, radix: u32) -> String {
    format!("{}{}", if v < 0 { "-" } else { "" }, digits(v.unsigned_abs(), radix))
}
/// The numbers of a type: digits of the radix, with a minus sign for the signed types.
fn parse(ty: usize, radix: u32, s: &str) -> Option<i128> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) if ty >= 4 => (true, d), _ => (false, s) };
    if d.is_empty() { return None; }
    let mut v: i128 = 0;
    for c in d.chars() {
        let x = c.to_digit(radix)? as i128;
        v = v.checked_mul(radix as i128)?.checked_add(x)?;
        if v > 1 << 70 { return None; }
    }
    let v = if neg { -v } else { v };
    (TYPES[ty].1 <= v && v <= TYPES[ty].2).then_some(v)
}
fn number_text(t: &mut Tape, ty: usize, radix: u32) -> String {
    let mut s = match t.below(6) {
        // next to the bounds of the type
        0 | 1 => { let b = if t.chance(1, 2) { TYPES[ty].1 } else { TYPES[ty].2 }; in_radix(b + t.range(0, 4) as i128 - 2, radix) }
        2 => in_radix(cut(ty, t.edgy64()), radix),
        3 => in_radix(cut(7, t.edgy64()) * t.range(1, 40) as i128, radix),
        _ => in_radix(t.below(300) as i128 - 100, radix),
    };
    if t.chance(1, 4) { s = format!("{}{}", "0".repeat(t.range(1, 3)), s); }
    if t.chance(1, 4) { s = s.to_uppercase(); }
    if t.chance(1, 3) {
        let k = t.range(0, s.len());
        let x = *t.pick(&["-", "+", " ", "_", "z", "Z", "a", "9", "é", ".", "0x", "\0", "/", ":", "@", "[", "`", "{", "１"]);
        if s.is_char_boundary(k) { s.insert_str(k, x); }
    }
    if t.chance(1, 30) { s = t.pick(&["", "-", "+", "--1", "-0", "00"]).to_string(); }
    s
}
/// Decimal floating-point text; None where the grammar is not settled by the property (infinities, NaN, overflow).
fn float_value(s: &str) -> Option<Option<f64>> {
    let b = s.strip_prefix(['+', '-']).unwrap_or(s);
    let low = b.to_ascii_lowercase();
    if low.starts_with("inf") || low.starts_with("nan") { return None; }
    let (m, e) = match b.find(['e', 'E']) { Some(k) => (&b[..k], Some(&b[k + 1..])), None => (b, None) };
    let num = |x: &str| x.chars().all(|c| c.is_ascii_digit());
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let ok = num(i) && num(f) && !(i.is_empty() && f.is_empty()) && e.map_or(true, |e| { let d = e.strip_prefix(['+', '-']).unwrap_or(e); !d.is_empty() && num(d) });
    if !ok { return Some(None); }
    Some(Some(s.parse().ok()?))
}
fn float_text(t: &mut Tape) -> String {
    let mut s = match t.below(5) {
        0 => format!("{}", f64::from_bits(t.edgy64())),
        1 => format!("{:e}", f64::from_bits(t.bits64())),
        2 => format!("{}.{}", t.below(1000), t.below(1000)),
        3 => format!("{}e{}", t.below(100000), t.range(0, 60) as i64 - 30),
        _ => format!("{}", t.edgy64()),
    };
    if s.len() > 400 { s = "1".into(); }
    if t.chance(1, 3) {
        let k = t.range(0, s.len());
        let x = *t.pick(&["-", "+", " ", "e", ".", "x", "0x", "\0", "p", "é", "E5", "\n", "f", "_", ","]);
        s.insert_str(k, x);
    }
    if t.chance(1, 20) { s = t.pick(&["", ".", "-", "e5", "1e", "1e+", ".5", "5.", "-.5e-3", "1.2.3", " 1", "1 ", "0x10", "--1"]).to_string(); }
    s
}

fn history(t: &mut Tape) -> Hist {
    let mut h = Hist { head: "s0..s3, t0..t2 empty".into(), ..Hist::default() };
    let mut ss: Vec<String> = vec![String::new(); 4];
    let mut ts: Vec<String> = vec![String::new(); 3];
    let want_fatal = t.chance(1, 40);
    let mean = *t.pick(&[4, 15, 40]);
    let (mut multi, mut uses) = (false, 0);
    let ok = || "ok".to_string();
    while t.more(mean) {
        let (a, b, c, d) = (t.below(4) as usize, t.below(4) as usize, t.below(4) as usize, t.below(4) as usize);
        let (x, y) = (t.below(3) as usize, t.below(3) as usize);
        let (au, bu, cu, du, xu, yu) = (a as u64, b as u64, c as u64, d as u64, x as u64, y as u64);
        let s = ss[a].clone();
        multi |= s.chars().any(|c| c as u32 > 127);
        let len = s.len();
        let p = ss[b].clone();
        if h.ops.len() > 0 && len > 400 { ss[a].clear(); h.op("default", &[59, au], format!("s{} := default", a), String::new()); continue; }
        uses += (len > 0) as u32;
        macro_rules! keep { ($name:expr, $tk:expr, $show:expr, $v:expr) => {{ let v: String = $v; let e = show(v.as_bytes()); ss[d] = v; h.op($name, $tk, format!("s{} := {}", d, $show), e); }} }
        let fatal = |h: &mut Hist, name, tk: &[u64], show: String| { h.op(name, tk, show, "<refused>".into()); h.fatal = true; };
        match t.below(70) {
            0..=9 => {
                let z = text(t, 6);
                let mut tk = vec![2, du];
                tok_bytes(&mut tk, z.as_bytes());
                keep!("from-bytes?", &tk, format!("{:?}", z), z.clone());
            }
            10 => {
                // derived from an existing one, so that searches succeed
                let idx: Vec<usize> = s.char_indices().map(|e| e.0).chain([len]).collect();
                let f = t.range(0, idx.len() - 1);
                let e = t.range(f, idx.len() - 1);
                keep!("substring", &[7, du, idx[f] as u64, idx[e] as u64, au], format!("substring {} {} s{}", idx[f], idx[e], a), s[idx[f]..idx[e]].to_string());
            }
            11 | 12 => {
                let z = bytes(t);
                let mut tk = vec![2, du];
                tok_bytes(&mut tk, &z);
                match String::from_utf8(z.clone()) {
                    Ok(v) => keep!("from-bytes?", &tk, format!("from-bytes? {:?}", z), v),
                    Err(_) => h.op("from-bytes?", &tk, format!("from-bytes? {:?}", z), "none".into()),
                }
            }
            13 => {
                let z = bytes(t);
                let mut tk = vec![29];
                tok_bytes(&mut tk, &z);
                h.op("valid-sequence?", &tk, format!("valid-sequence? {:?}", z), b2(std::str::from_utf8(&z).is_ok()).into());
            }
            14 => {
                let z = bytes(t);
                let mut tk = vec![35, du];
                tok_bytes(&mut tk, &z);
                match String::from_utf8(z.clone()) {
                    Ok(v) => keep!("read-string-to-end!", &tk, format!("read-string-to-end! {:?}", z), v),
                    Err(_) => h.op("read-string-to-end!", &tk, format!("read-string-to-end! {:?}", z), "invalid".into()),
                }
            }
            15 => h.op("length", &[4, au], format!("length, empty? s{}", a), format!("{}{}", len, b2(s.is_empty()))),
            16 if len > 0 => { let k = t.range(0, len - 1); h.op("byte-at", &[5, k as u64, au], format!("byte-at {} s{}", k, a), s.as_bytes()[k].to_string()) }
            17 => { let k = t.range(0, len + 2); h.op("char-boundary?", &[6, k as u64, au], format!("char-boundary? {} s{}", k, a), b2(s.is_char_boundary(k)).into()) }
            18 | 19 => {
                let k = t.range(0, len + 2);
                if s.is_char_boundary(k.min(len)) {
                    if t.chance(1, 2) { keep!("take", &[8, du, k as u64, au], format!("take {} s{}", k, a), s[..k.min(len)].to_string()) }
                    else { keep!("skip", &[9, du, k as u64, au], format!("skip {} s{}", k, a), s[k.min(len)..].to_string()) }
                }
            }
            20 => h.op("chars", &[10, au], format!("chars s{}", a), s.chars().map(|c| format!("{} ", c as u32)).collect()),
            21 => h.op("char-indices", &[11, au], format!("char-indices s{}", a), s.char_indices().map(|(i, c)| format!("{}:{} ", i, c as u32)).collect()),
            22 => keep!("from-chars", &[12, du, au], format!("from-chars (chars s{})", a), s),
            23 => h.op("starts-with?", &[13, bu, au], format!("starts-with? s{} s{}", b, a), b2(s.starts_with(&p)).into()),
            24 => h.op("ends-with?", &[14, bu, au], format!("ends-with? s{} s{}", b, a), b2(s.ends_with(&p)).into()),
            25 => h.op("contains?", &[15, bu, au], format!("contains? s{} s{}", b, a), b2(s.contains(&p)).into()),
            26 | 27 => h.op("find?", &[16, bu, au], format!("find? s{} s{}", b, a), opt(s.find(&p).map(|x| x.to_string()))),
            28 | 29 => {
                let q = ss[c].clone();
                // an empty text is replaced before nothing but after every character
                let v = if p.is_empty() { let mut v = q.clone(); for c in s.chars() { v.push(c); v += &q; } v } else { s.replace(&p, &q) };
                if v.len() < 2000 { keep!("replace", &[17, du, bu, cu, au], format!("replace s{} s{} s{}", b, c, a), v) }
            }
            30 => keep!("remove-start", &[18, du, bu, au], format!("remove-start s{} s{}", b, a), if p.is_empty() { s } else { s.trim_start_matches(&p).to_string() }),
            31 => keep!("remove-end", &[19, du, bu, au], format!("remove-end s{} s{}", b, a), if p.is_empty() { s } else { s.trim_end_matches(&p).to_string() }),
            32 | 33 => {
                let v: Vec<String> = if p.is_empty() { s.chars().map(|c| c.to_string()).collect() } else { s.split(&p).map(|x| x.to_string()).collect() };
                h.op("split", &[20, bu, au], format!("split s{} s{}", b, a), v.iter().map(|x| format!("[{}]", show(x.as_bytes()))).collect())
            }
            34 => h.op("split-lines", &[21, au], format!("split-lines s{}", a), s.lines_like().iter().map(|x| format!("[{}]", show(x.as_bytes()))).collect()),
            35 => keep!("reverse", &[22, du, au], format!("reverse s{}", a), s.chars().rev().collect()),
            36 => {
                let n = t.below(4);
                let ix: Vec<usize> = (0..n).map(|_| t.below(4) as usize).collect();
                let mut tk = vec![23, du, bu, n];
                tk.extend(ix.iter().map(|x| *x as u64));
                let v = ix.iter().map(|k| ss[*k].clone()).collect::<Vec<_>>().join(&p);
                keep!("join", &tk, format!("join s{} {:?}", b, ix), v)
            }
            37 | 38 => h.op("compare", &[24, bu, au], format!("compare s{} s{}", b, a), format!("{}{}{}{}", b2(p == s), b2(p != s), ordering(p.as_bytes().cmp(s.as_bytes())), b2(p < s))),
            39 => keep!("debug", &[25, du, au], format!("debug s{}", a), debug(&s)),
            40 => keep!("c-string", &[26, du, au], format!("c-string of s{}", a), s[..s.find('\0').unwrap_or(len)].to_string()),
            41 => h.op("equal-hash", &[27, bu, au], format!("s{} = s{} implies equal hashes", b, a), "T".into()),
            42 => {
                let n = match t.below(4) { 0 => t.below(0x110010), 1 => t.below(200), _ => *t.pick(&[0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 111411, 111412, 1114112, 0xffffffff, 0x80000041]) };
                let e = char::from_u32(n as u32);
                // valid ones above 111411 are left to `beyond_bound`
                if n <= 111411 || e.is_none() { h.op("from-unicode-scalar", &[28, n], format!("from-unicode-scalar {}", n), opt(e.map(|c| (c as u32).to_string()))) }
            }
            43 => {
                let (z, k) = (scalar(t), t.below(1000));
                keep!("string", &[30, du, bu, au, z as u64, k], format!("string s{} {} {:?} s{} #t é", b, k, z, a), format!("{}{}{}{}#té", p, k, z, s))
            }
            44 | 45 => {
                let (z, w) = (scalar(t), scalar(t));
                let dz = format!("#\\{}", escape(z).map_or(z.to_string(), |e| e.to_string()));
                let un = match z { 't' => Some('\t'), 'r' => Some('\r'), 'n' => Some('\n'), '"' => Some('"'), '\\' => Some('\\'), _ => None };
                let e = format!("{}{} {}{}{}{}{}{}{}", b2(z.is_ascii()), z.len_utf8(), show(z.to_string().as_bytes()), show(dz.as_bytes()), b2(z == w), ordering(z.cmp(&w)), b2(z <= w),
                    opt(escape(z).map(|e| show(e.as_bytes()))), opt(un.map(|c| (c as u32).to_string())));
                h.op("char", &[31, z as u64, w as u64], format!("char operations {:?} {:?}", z, w), e)
            }
            46 => { let o = 32 + t.below(2); keep!("bytes", &[o, du, au], format!("from-bytes (bytes s{})", a), s) }
            47 => {
                let k = t.range(0, 5);
                let f = |it: &mut dyn Iterator<Item = char>| it.map(|c| format!("{} ", c as u32)).collect::<String>();
                h.op("chars-resume", &[34, k as u64, au], format!("chars s{}, {} first", a, k), format!("{}|{}", f(&mut s.chars().take(k)), f(&mut s.chars().skip(k))))
            }
            48 => { let k = t.edgy64(); keep!("string-writer", &[36, du, au, bu, k], format!("string-writer s{} {} s{} \"-\"", a, k, b), format!("{}{}{}-", s, k, p)) }
            49 => { ts[x] = s; h.op("text/from-string", &[40, xu, au], format!("t{} := from-string s{}", x, a), ok()) }
            50 | 51 => { if ts[x].len() < 400 { ts[x] += &s; h.op("text/push!", &[41, au, xu], format!("push! s{} t{}", a, x), ok()) } }
            52 => { let z = scalar(t); ts[x].push(z); h.op("text/put!", &[42, z as u64, xu], format!("put! {:?} t{}", z, x), ok()) }
            53 => keep!("text/copy-to-string", &[43, du, xu], format!("copy-to-string t{}", x), ts[x].clone()),
            54 => {
                let k = t.range(0, ts[x].len());
                if ts[x].is_char_boundary(k) {
                    let r = ts[x].split_off(k);
                    let v = std::mem::replace(&mut ts[x], r);
                    keep!("text/consume!", &[44, du, k as u64, xu], format!("consume! {} t{}", k, x), v)
                }
            }
            55 => { let v = std::mem::take(&mut ts[x]); keep!("text/consume-all!", &[45, du, xu], format!("consume-all! t{}", x), v) }
            56 if x != y => { let v = std::mem::take(&mut ts[y]); ts[x] = v; h.op("text/move!", &[46, xu, yu], format!("t{} := move! t{}", x, y), ok()) }
            57 => h.op("text/length", &[47, xu], format!("length, empty? t{}", x), format!("{}{}", ts[x].len(), b2(ts[x].is_empty()))),
            58 => { ts[x] = s; h.op("text/from-chars", &[48, xu, au], format!("t{} := from-chars (chars s{})", x, a), ok()) }
            59 => {
                let z = bytes(t);
                let mut tk = vec![49, xu];
                tok_bytes(&mut tk, &z);
                let e = match String::from_utf8(z.clone()) { Ok(v) => { ts[x] = v; ok() } Err(_) => "none".into() };
                h.op("text/from-bytes?", &tk, format!("t{} := from-bytes? {:?}", x, z), e)
            }
            60 => h.op("text/compare", &[51, xu, yu], format!("compare t{} t{}", x, y), format!("{}{}", b2(ts[x] == ts[y]), ordering(ts[x].as_bytes().cmp(ts[y].as_bytes())))),
            61 => match t.below(7) {
                0 => keep!("text/debug", &[52, du, xu], format!("debug t{}", x), format!("(text/from-string {})", debug(&ts[x]))),
                1 if x != y => { ts[x] = ts[y].clone(); h.op("text/shallow-copy", &[53, xu, yu], format!("t{} := shallow-copy t{}", x, y), ok()) }
                2 if x != y => { ts[x] = ts[y].clone(); h.op("text/deep-copy", &[54, xu, yu], format!("t{} := deep-copy t{}", x, y), ok()) }
                3 => { let k = t.below(1000); if ts[y].len() < 400 { ts[x] = format!("{}{}{}", s, ts[y], k); h.op("text", &[55, xu, au, yu, k], format!("t{} := text s{} t{} {}", x, a, y, k), ok()) } }
                4 => keep!("text/bytes", &[56, du, xu], format!("from-bytes (bytes t{})", x), ts[x].clone()),
                5 => h.op("text/display", &[57, xu], format!("string t{}", x), show(ts[x].as_bytes())),
                _ => { ts[x].clear(); h.op("text/default", &[58, xu], format!("t{} := default", x), ok()) }
            },
            62 | 63 => {
                let (ty, r) = (t.below(8) as usize, t.range(2, 36) as u32);
                let v = t.edgy64();
                h.op("integer/to-string", &[60, ty as u64, r as u64, v], format!("integer/to-string {} {} {{{}}} and back", r, cut(ty, v), TYPES[ty].0), format!("{} ok", in_radix(cut(ty, v), r)))
            }
            64 | 65 => {
                let (ty, r) = (t.below(8) as usize, t.range(2, 36) as u32);
                let z = number_text(t, ty, r);
                let mut tk = vec![2, du];
                tok_bytes(&mut tk, z.as_bytes());
                keep!("from-bytes?", &tk, format!("{:?}", z), z.clone());
                h.op("integer/from-string?", &[61, ty as u64, r as u64, du], format!("integer/from-string? {} {:?} {{{}}}", r, z, TYPES[ty].0), parse(ty, r, &z).map_or("none".into(), |v| v.to_string()));
            }
            66 => {
                let v = if t.chance(1, 2) { t.edgy64() } else { t.bits64() };
                if f64::from_bits(v).is_finite() { h.op("f64-round-trip", &[62, du, v], format!("s{} := text of the F64 of bits {:#x} ({:e}), parsed back", d, v, f64::from_bits(v)), ok()); resync(&mut h, &mut ss, d) }
            }
            67 => {
                let v = if t.chance(1, 2) { t.edgy64() as u32 } else { t.bits64() as u32 };
                if f32::from_bits(v).is_finite() { h.op("f32-round-trip", &[63, du, v as u64], format!("s{} := text of the F32 of bits {:#x} ({:e}), parsed back", d, v, f32::from_bits(v)), ok()); resync(&mut h, &mut ss, d) }
            }
            68 => {
                let z = float_text(t);
                let mut tk = vec![2, du];
                tok_bytes(&mut tk, z.as_bytes());
                keep!("from-bytes?", &tk, format!("{:?}", z), z.clone());
                if let Some(v) = float_value(&z) {
                    if v.map_or(true, |v| v.is_finite()) { h.op("f64-parse", &[64, du], format!("float/from-string? {:?} {{F64}}", z), opt(v.map(|v| v.to_bits().to_string()))); }
                    let w: Option<f32> = if v.is_some() { z.parse().ok() } else { None };
                    if w.map_or(true, |w| w.is_finite()) { h.op("f32-parse", &[65, du], format!("float/from-string? {:?} {{F32}}", z), opt(w.map(|w| w.to_bits().to_string()))); }
                }
            }
            69 => { let v = t.edgy64(); keep!("display", &[66, du, v], format!("display {} at five types", v), format!("{}|{}|{}|{}|{}", v, v as i64, v as i8, v as u16, v as i32)) }
            _ => {}
        }
        if want_fatal && !t.more(6) {
            let s = ss[a].clone();
            h.toks.push(1);
            let bad = (0..=s.len() + 2).filter(|k| !s.is_char_boundary(*k)).collect::<Vec<_>>();
            let k = *t.pick(&bad) as u64;
            match t.below(6) {
                0 => fatal(&mut h, "substring", &[7, du, 0, k, au], format!("substring 0 {} s{}", k, a)),
                1 => fatal(&mut h, "substring", &[7, du, k, s.len() as u64, au], format!("substring {} {} s{}", k, s.len(), a)),
                2 if (k as usize) < s.len() => fatal(&mut h, "take", &[8, du, k, au], format!("take {} s{}", k, a)),
                3 if (k as usize) < s.len() => fatal(&mut h, "skip", &[9, du, k, au], format!("skip {} s{}", k, a)),
                4 => {
                    let mut z = bytes(t);
                    if std::str::from_utf8(&z).is_ok() { z.push(0xc3); }
                    let o = if t.chance(1, 2) { 3 } else { 50 };
                    let mut tk = vec![o, xu];
                    tok_bytes(&mut tk, &z);
                    fatal(&mut h, "from-bytes", &tk, format!("from-bytes {:?}", z));
                }
                _ => fatal(&mut h, "byte-at", &[5, s.len() as u64 + t.below(3), au], format!("byte-at end s{}", a)),
            }
            break;
        }
    }
    if !h.fatal {
        // nothing else has changed the slots
        for k in 0..4u64 { h.op("bytes", &[32, k, k], format!("s{}", k), show(ss[k as usize].as_bytes())); }
        for k in 0..3u64 { h.op("text/display", &[57, k], format!("t{}", k), show(ts[k as usize].as_bytes())); }
    }
    h.toks.push(0);
    h.nontrivial = multi && uses >= 3;
    h
}
/// The text of a float is not prescribed, so its slot is overwritten.
fn resync(h: &mut Hist, ss: &mut [String], d: usize) {
    ss[d].clear();
    h.op("default", &[59, d as u64], format!("s{} := default", d), String::new());
}
trait LinesLike { fn lines_like(&self) -> Vec<String>; }
impl LinesLike for String {
    fn lines_like(&self) -> Vec<String> { self.lines().map(|x| x.to_string()).collect() }
}

/// Valid scalar values above the bound that the standard library's own tests pin, on their own: a known finding.
fn beyond_bound(t: &mut Tape) -> Hist {
    let mut h = Hist::default();
    let n = t.range(111412, 0x10ffff) as u64;
    h.op("from-unicode-scalar-bound", &[28, n], format!("from-unicode-scalar {}", n), format!("some {}", n));
    h.toks.push(0);
    h
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let n = t.range(1, 60);
    let mut hs = vec![];
    if t.chance(1, 150) {
        hs.push(beyond_bound(t));
        out.classes.push("beyond-bound");
        return drv::judge(&drv::exe(), &hs, out);
    }
    for _ in 0..n {
        let from = t.used();
        hs.push(history(t));
        out.spans.push((from, t.used()));
        out.classes.push(if hs.last().unwrap().fatal { "refused" } else { "completed" });
    }
    drv::judge(&drv::exe(), &hs, out)
}

fn main() {
    main_with("c19", &case)
}
