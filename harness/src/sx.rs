//! An independent model of S-expressions, their concrete grammar and their rendering.
use crate::Tape;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    Int(bool, u64),
    Fp(f64),
    Sym(String),
    Str(String),
    Char(char),
    Bool(bool),
    /// elements (non-empty when a tail is present), and an optional improper tail (never a list)
    List(Vec<Node>, Option<Box<Node>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub sx: Sx,
    /// byte range of the form as written, when it is written as such
    pub range: Option<(usize, usize)>,
}

impl Node {
    pub fn new(sx: Sx) -> Node {
        Node { sx, range: None }
    }
}

pub fn sym(s: &str) -> Node {
    Node::new(Sx::Sym(s.to_string()))
}

pub fn list(v: Vec<Node>) -> Node {
    Node::new(Sx::List(v, None))
}

/// Value-level canonical text: integers by value, floats by bits.
pub fn canon(n: &Node, o: &mut String) {
    match &n.sx {
        Sx::Int(true, v) => {
            let _ = write!(o, "i{}", *v as i64);
        }
        Sx::Int(false, v) => {
            let _ = write!(o, "i{}", v);
        }
        Sx::Fp(f) => {
            if f.is_nan() {
                o.push_str("fnan");
            } else {
                let _ = write!(o, "f{}", f.to_bits());
            }
        }
        Sx::Sym(s) => {
            let _ = write!(o, "y{}", s);
        }
        Sx::Str(s) => {
            o.push('s');
            for c in s.chars() {
                let _ = write!(o, "{},", c as u32);
            }
        }
        Sx::Char(c) => {
            let _ = write!(o, "c{}", *c as u32);
        }
        Sx::Bool(b) => o.push_str(if *b { "T" } else { "N" }),
        Sx::List(v, t) => {
            o.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                canon(x, o);
            }
            if let Some(t) = t {
                o.push_str(" . ");
                canon(t, o);
            }
            o.push(')');
        }
    }
}

pub fn canons(v: &[Node]) -> String {
    let mut o = String::new();
    for n in v {
        canon(n, &mut o);
        o.push('\n');
    }
    o
}

// ------------------------------------------------------------------ reference reader

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Atom(Sx),
    Dot,
    Q,
    X,
    Open(char),
    Close(char),
    Prefix(&'static str),
    At,
    Ws,
    Comment,
    Bad(&'static str),
}

pub fn is_id(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!$%&*+-./:<=>?^_|".contains(c)
}

/// Tokens with their byte range.
pub fn ref_lex(text: &str) -> Vec<(Tok, usize, usize)> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let off = |i: usize| cs.get(i).map_or(text.len(), |x| x.0);
    let unesc = |c: char| match c {
        't' => Some('\t'),
        'r' => Some('\r'),
        'n' => Some('\n'),
        '"' => Some('"'),
        '\\' => Some('\\'),
        _ => None,
    };
    let mut out = vec![];
    let mut i = 0;
    while let Some(c) = at(i) {
        let s = i;
        let tok;
        if matches!(c, ' ' | '\t' | '\r' | '\n') {
            while at(i).map_or(false, |c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
                i += 1;
            }
            tok = Tok::Ws;
        } else if c == ';' {
            while at(i).map_or(false, |c| c != '\n') {
                i += 1;
            }
            if at(i).is_some() {
                i += 1;
            }
            tok = Tok::Comment;
        } else if is_id(c) {
            while at(i).map_or(false, is_id) {
                i += 1;
            }
            let w = &text[off(s)..off(i)];
            tok = if let Ok(v) = w.parse::<u64>() {
                Tok::Atom(Sx::Int(false, v))
            } else if let Ok(v) = w.parse::<i64>() {
                Tok::Atom(Sx::Int(true, v as u64))
            } else if let Ok(v) = w.parse::<f64>() {
                Tok::Atom(Sx::Fp(v))
            } else if w == "." {
                Tok::Dot
            } else if w == "?" {
                Tok::Q
            } else if w == "!" {
                Tok::X
            } else {
                Tok::Atom(Sx::Sym(w.to_string()))
            };
        } else if c == '"' {
            i += 1;
            let mut body = String::new();
            tok = loop {
                match at(i) {
                    None => break Tok::Bad("string"),
                    Some('"') => {
                        i += 1;
                        break Tok::Atom(Sx::Str(body));
                    }
                    Some('\\') => {
                        i += 1;
                        match at(i).and_then(unesc) {
                            Some(c) => {
                                body.push(c);
                                i += 1;
                            }
                            None => break Tok::Bad("string"),
                        }
                    }
                    Some(c) => {
                        body.push(c);
                        i += 1;
                    }
                }
            };
        } else if c == '#' {
            match at(i + 1) {
                Some('\\') => {
                    i += 2;
                    match at(i) {
                        Some('\\') => {
                            i += 1;
                            match at(i).and_then(unesc) {
                                Some(c) => {
                                    i += 1;
                                    tok = Tok::Atom(Sx::Char(c));
                                }
                                None => tok = Tok::Bad("char"),
                            }
                        }
                        Some(c) => {
                            i += 1;
                            tok = Tok::Atom(Sx::Char(c));
                        }
                        None => tok = Tok::Bad("char"),
                    }
                }
                Some('t') => {
                    i += 2;
                    tok = Tok::Atom(Sx::Bool(true));
                }
                Some('f') => {
                    i += 2;
                    tok = Tok::Atom(Sx::Bool(false));
                }
                _ => {
                    i += 1;
                    tok = Tok::Bad("unknown");
                }
            }
        } else {
            i += 1;
            tok = match c {
                '(' | '[' | '{' => Tok::Open(c),
                ')' | ']' | '}' => Tok::Close(c),
                '\'' => Tok::Prefix("quote"),
                '`' => Tok::Prefix("quasiquote"),
                '\\' => Tok::Prefix("capture"),
                '~' => Tok::Prefix("load"),
                ',' => {
                    if at(i) == Some('@') {
                        i += 1;
                        Tok::Prefix("unquote-splicing")
                    } else {
                        Tok::Prefix("unquote")
                    }
                }
                '@' => Tok::At,
                _ => Tok::Bad("unknown"),
            };
        }
        out.push((tok, off(s), off(i)));
    }
    out
}

pub struct RefParser {
    toks: Vec<(Tok, usize, usize)>,
    pos: usize,
    last_end: usize,
}

type P<T> = Result<T, ()>;

impl RefParser {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.pos).map(|t| &t.0)
    }
    fn start(&self) -> usize {
        self.toks.get(self.pos).map_or(self.last_end, |t| t.1)
    }
    fn bump(&mut self) -> Tok {
        let t = self.toks[self.pos].clone();
        self.pos += 1;
        self.last_end = t.2;
        t.0
    }
    fn starts(&self) -> bool {
        matches!(self.peek(), Some(Tok::Atom(_)) | Some(Tok::Open('(')) | Some(Tok::Open('[')) | Some(Tok::Prefix(_)))
    }
    fn form(&mut self) -> P<Node> {
        let start = self.start();
        let mut n = match self.peek() {
            Some(Tok::Atom(_)) => match self.bump() {
                Tok::Atom(sx) => Node::new(sx),
                _ => unreachable!(),
            },
            Some(Tok::Open(c @ ('(' | '['))) => {
                let close = if *c == '(' { ')' } else { ']' };
                self.bump();
                let sx = self.body()?;
                if self.peek() != Some(&Tok::Close(close)) {
                    return Err(());
                }
                self.bump();
                Node::new(sx)
            }
            Some(Tok::Prefix(p)) => {
                let p = *p;
                self.bump();
                let x = self.form()?;
                list(vec![sym(p), x])
            }
            _ => return Err(()),
        };
        n.range = Some((start, self.last_end));
        loop {
            let head = match self.peek() {
                Some(Tok::Q) => "try?",
                Some(Tok::X) => "try!",
                Some(Tok::Open('{')) => "annotate",
                _ => return Ok(n),
            };
            self.bump();
            let mut v = vec![sym(head), n];
            if head == "annotate" {
                while self.starts() {
                    v.push(self.form()?);
                }
                if self.peek() != Some(&Tok::Close('}')) {
                    return Err(());
                }
                self.bump();
            }
            n = list(v);
            n.range = Some((start, self.last_end));
        }
    }
    fn body(&mut self) -> P<Sx> {
        let mut items = vec![];
        while self.starts() {
            items.push(self.form()?);
        }
        match self.peek() {
            Some(Tok::At) => {
                self.bump();
                let start = self.start();
                let sx = self.body()?;
                let mut n = Node::new(sx);
                n.range = Some((start, self.last_end));
                items.push(n);
                Ok(Sx::List(items, None))
            }
            Some(Tok::Dot) => {
                self.bump();
                let last = self.form()?;
                Ok(append(items, last))
            }
            _ => Ok(Sx::List(items, None)),
        }
    }
}

/// The tree of (items . last).
pub fn append(mut items: Vec<Node>, last: Node) -> Sx {
    if items.is_empty() {
        return last.sx;
    }
    match last.sx {
        Sx::List(v, t) => {
            items.extend(v);
            Sx::List(items, t)
        }
        _ => Sx::List(items, Some(Box::new(last))),
    }
}

pub fn ref_parse(text: &str) -> Result<Vec<Node>, ()> {
    let toks = ref_lex(text).into_iter().filter(|t| !matches!(t.0, Tok::Ws | Tok::Comment)).collect();
    let mut p = RefParser { toks, pos: 0, last_end: 0 };
    let mut out = vec![];
    while p.pos < p.toks.len() {
        out.push(p.form()?);
    }
    Ok(out)
}

/// (line, column in bytes) of an offset, both from zero.
pub fn line_col(text: &str, off: usize) -> (u32, u32) {
    let before = &text.as_bytes()[..off];
    let line = before.iter().filter(|b| **b == b'\n').count();
    let col = before.iter().rev().take_while(|b| **b != b'\n').count();
    (line as u32, col as u32)
}

// ------------------------------------------------------------------ generators

pub fn gen_symbol(t: &mut Tape) -> String {
    match t.below(8) {
        0..=3 => t.pick(&["x", "foo", "a-b", "+", "->", "set!", "eq?", "Foo.Bar", "std/io", "<a>", "x1", "let", "_", "...", "..", "??", "!!", "?!", "|x|", "1+", "-", "e5", "3a", ":", "$x", "-x", "quote", "annotate", "try?", "try!", "unquote", "load", "capture", "unquote-splicing", "quasiquote"]).to_string(),
        _ => {
            let n = t.range(1, 4);
            let mut s = String::new();
            for _ in 0..n {
                s.push(*t.pick(&['a', 'Z', 'q', '0', '9', '!', '$', '%', '&', '*', '+', '-', '.', '/', ':', '<', '=', '>', '?', '^', '_', '|', 'e', 'n']));
            }
            s
        }
    }
}

pub fn is_symbol(s: &str) -> bool {
    matches!(ref_lex(s).as_slice(), [(Tok::Atom(Sx::Sym(_)), 0, e)] if *e == s.len())
}

pub fn gen_char(t: &mut Tape) -> char {
    match t.below(5) {
        0 => (b'a' + t.below(26) as u8) as char,
        1 => *t.pick(&['"', '\\', '\n', '\t', '\r', ' ', ';', '(', '#', '\'', '@', ',', '0']),
        2 => *t.pick(&['é', 'λ', '語', '🦀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{1}']),
        3 => (0x20 + t.below(0x5f) as u8) as char,
        _ => char::from_u32(t.below(0x110000) as u32).unwrap_or('x'),
    }
}

pub fn gen_string(t: &mut Tape) -> String {
    let n = t.below(6);
    (0..n).map(|_| gen_char(t)).collect()
}

pub fn gen_atom(t: &mut Tape) -> Sx {
    match t.below(7) {
        0 => Sx::Int(false, t.edgy64()),
        1 => {
            let v = t.edgy64() as i64;
            if v < 0 { Sx::Int(true, v as u64) } else { Sx::Int(false, v as u64) }
        }
        2 => {
            let f = gen_f64(t);
            Sx::Fp(f)
        }
        3 => Sx::Str(gen_string(t)),
        4 => Sx::Char(gen_char(t)),
        5 => Sx::Bool(t.bool()),
        _ => {
            let s = gen_symbol(t);
            Sx::Sym(if is_symbol(&s) { s } else { "sym".to_string() })
        }
    }
}

pub fn gen_f64(t: &mut Tape) -> f64 {
    match t.below(5) {
        0 => *t.pick(&[0.5, 0.0, 1.0, -1.0, 1.5, 0.1, -0.0, 1e10, 1e-7, 123456789.125, 1e19, 1e300, 1.7976931348623157e308, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => (t.below(2000) as f64 - 1000.0) / 8.0,
        2 => t.below(1 << 53) as f64,
        _ => f64::from_bits(t.bits64()),
    }
}

pub fn gen_tree(t: &mut Tape, depth: u32) -> Node {
    if depth == 0 || t.below(3) == 0 {
        return Node::new(gen_atom(t));
    }
    match t.below(8) {
        0..=3 => {
            let n = t.range(0, 4);
            list((0..n).map(|_| gen_tree(t, depth - 1)).collect())
        }
        4 => {
            let n = t.range(1, 3);
            let v = (0..n).map(|_| gen_tree(t, depth - 1)).collect();
            let tail = gen_tree(t, depth - 1);
            Node::new(append(v, tail))
        }
        5 => {
            let p = *t.pick(&["quote", "quasiquote", "unquote", "unquote-splicing", "load", "capture"]);
            let x = gen_tree(t, depth - 1);
            list(vec![sym(p), x])
        }
        6 => {
            let p = *t.pick(&["try?", "try!"]);
            let x = gen_tree(t, depth - 1);
            list(vec![sym(p), x])
        }
        _ => {
            let mut v = vec![sym("annotate"), gen_tree(t, depth - 1)];
            for _ in 0..t.below(3) {
                v.push(gen_tree(t, depth - 1));
            }
            list(v)
        }
    }
}

pub fn escape(s: &str, o: &mut String) {
    for c in s.chars() {
        match c {
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\n' => o.push_str("\\n"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
}

/// Renders a tree as source text, choosing notation at random. Emits separators so that
/// the text denotes exactly this tree.
pub struct Render<'a> {
    pub o: String,
    pub t: &'a mut Tape,
    pub sugar: bool,
}

impl<'a> Render<'a> {
    fn sep(&mut self) {
        match self.t.below(if self.sugar { 10 } else { 1 }) {
            0..=5 => self.o.push(' '),
            6 => self.o.push('\n'),
            7 => self.o.push_str("\r\n\t"),
            8 => self.o.push_str(" ; c) \"日本\n"),
            _ => self.o.push_str("  \n  "),
        }
    }
    fn opt(&mut self) {
        if self.sugar && self.t.below(8) == 7 {
            self.sep();
        }
    }
    pub fn atom(&mut self, sx: &Sx) {
        match sx {
            Sx::Int(true, v) => {
                let _ = write!(self.o, "{}", *v as i64);
            }
            Sx::Int(false, v) => {
                if self.sugar && self.t.below(8) == 7 {
                    let _ = write!(self.o, "0{}", v);
                } else {
                    let _ = write!(self.o, "{}", v);
                }
            }
            Sx::Fp(f) => {
                if f.is_nan() {
                    self.o.push_str("nan")
                } else {
                    let _ = write!(self.o, "{:?}", f);
                }
            }
            Sx::Sym(s) => self.o.push_str(s),
            Sx::Str(s) => {
                self.o.push('"');
                if self.sugar && self.t.bool() {
                    for c in s.chars() {
                        match c {
                            '"' => self.o.push_str("\\\""),
                            '\\' => self.o.push_str("\\\\"),
                            c => self.o.push(c),
                        }
                    }
                } else {
                    escape(s, &mut self.o);
                }
                self.o.push('"');
            }
            Sx::Char(c) => {
                self.o.push_str("#\\");
                if *c == '\\' || self.t.bool() || !self.sugar {
                    escape(&c.to_string(), &mut self.o)
                } else {
                    self.o.push(*c)
                }
            }
            Sx::Bool(b) => self.o.push_str(if *b { "#t" } else { "#f" }),
            Sx::List(..) => unreachable!(),
        }
    }
    /// A form in a position where a following suffix or a preceding prefix may not leak.
    pub fn form(&mut self, n: &Node) {
        match &n.sx {
            Sx::List(v, None) if self.sugar && v.len() >= 2 && self.t.below(4) != 0 => {
                if let Sx::Sym(s) = &v[0].sx {
                    let p = match s.as_str() {
                        "quote" => "'",
                        "quasiquote" => "`",
                        "unquote" => ",",
                        "unquote-splicing" => ",@",
                        "load" => "~",
                        "capture" => "\\",
                        _ => "",
                    };
                    if v.len() == 2 && !p.is_empty() {
                        self.o.push_str(p);
                        // "," followed by "@" cannot happen: no form starts with "@"
                        if self.t.below(6) == 5 {
                            self.sep();
                        }
                        return self.form(&v[1]);
                    }
                    let suf = match s.as_str() {
                        "try?" if v.len() == 2 => "?",
                        "try!" if v.len() == 2 => "!",
                        "annotate" => "{",
                        _ => "",
                    };
                    if !suf.is_empty() {
                        // The subject must not be written with a prefix: a suffix binds tighter.
                        self.no_prefix(&v[1]);
                        if suf == "{" {
                            self.o.push(' ');
                            self.o.push('{');
                            self.opt();
                            for (i, x) in v[2..].iter().enumerate() {
                                if i > 0 {
                                    self.sep();
                                }
                                self.form(x);
                            }
                            self.opt();
                            self.o.push('}');
                        } else {
                            let closed = self.o.ends_with(|c: char| c == ')' || c == ']' || c == '}');
                            if !closed || self.t.below(4) == 3 {
                                self.o.push(' ');
                            }
                            self.o.push_str(suf);
                        }
                        return;
                    }
                }
                self.plain(n)
            }
            Sx::List(..) => self.plain(n),
            sx => {
                let sx = sx.clone();
                self.atom(&sx)
            }
        }
    }
    fn no_prefix(&mut self, n: &Node) {
        match &n.sx {
            Sx::List(v, None) if v.len() >= 2 => match &v[0].sx {
                Sx::Sym(s) if ["quote", "quasiquote", "unquote", "unquote-splicing", "load", "capture"].contains(&s.as_str()) => self.plain(n),
                _ => self.form(n),
            },
            _ => self.form(n),
        }
    }
    fn plain(&mut self, n: &Node) {
        let (v, tail) = match &n.sx {
            Sx::List(v, t) => (v, t),
            _ => unreachable!(),
        };
        let (a, b) = if self.sugar && self.t.below(4) == 3 { ('[', ']') } else { ('(', ')') };
        self.o.push(a);
        self.opt();
        self.body(v, tail.as_deref());
        self.opt();
        self.o.push(b);
    }
    fn body(&mut self, v: &[Node], tail: Option<&Node>) {
        // the @ notation: (a b (c d)) written (a b @ c d)
        if self.sugar && tail.is_none() && self.t.below(4) == 3 {
            if let Some((Node { sx: Sx::List(w, wt), .. }, init)) = v.split_last() {
                for x in init {
                    self.form(x);
                    self.sep();
                }
                self.o.push('@');
                self.sep();
                let (w, wt) = (w.clone(), wt.clone());
                return self.body(&w, wt.as_deref());
            }
        }
        // dotted notation of a proper list
        if self.sugar && tail.is_none() && v.len() > 1 && self.t.below(12) == 11 {
            let k = self.t.range(1, v.len() - 1);
            for x in &v[..k] {
                self.form(x);
                self.sep();
            }
            self.o.push_str(". ");
            let rest = list(v[k..].to_vec());
            self.plain(&rest);
            return;
        }
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            self.form(x);
        }
        if let Some(x) = tail {
            self.sep();
            self.o.push('.');
            self.sep();
            self.form(x);
        }
    }
}

/// Random text out of token fragments and characters.
pub fn gen_soup(t: &mut Tape) -> String {
    let n = t.below(14);
    let mut s = String::new();
    for _ in 0..n {
        match t.below(6) {
            0 | 1 => s.push_str(t.pick(&["(", ")", "[", "]", "{", "}", "'", "`", ",", ",@", "@", "~", "\\", "?", "!", ".", " . ", " ? ", " ! ", " {", "#t", "#f", "#\\", "#", "\"", "; c\n", ";", "\n", "\r\n", " ", "\t", "\\\\", "\\n"])),
            2 => {
                let sx = gen_atom(t);
                let mut r = Render { o: String::new(), t, sugar: true };
                r.atom(&sx);
                let o = r.o;
                s.push_str(&o);
            }
            3 => s.push(gen_char(t)),
            4 => {
                let n = gen_tree(t, 2);
                let mut r = Render { o: String::new(), t, sugar: true };
                r.form(&n);
                let o = r.o;
                s.push_str(&o);
            }
            _ => {
                s.push(' ');
                s.push_str(&gen_symbol(t));
                s.push(' ');
            }
        }
    }
    s
}
