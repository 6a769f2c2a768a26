//! C01: reading (lexer, parser) and printing of S-expressions.
use llrl::lexer::Lexer;
use llrl::parser::parse;
use llrl::sexp::{Sexp, SexpRep, Ss};
use vharness::glue::conv;
use llrl::source_loc::SourceLocationTable;
use vharness::sx::*;
use vharness::{ensure, main_with, Case, Out, Tape};

fn read(text: &str) -> (Result<(Vec<Node>, Ss), String>, usize, SourceLocationTable) {
    let mut table = SourceLocationTable::new();
    let mut loc = table.begin_locate(&"~/m".parse().unwrap());
    let r = parse::<Ss, _>(&mut loc, Lexer::new(text));
    table.complete_locate(loc);
    let n = r.inner_errors.len() + r.final_result.is_err() as usize;
    let mut err_ranges = vec![];
    for e in r.inner_errors.iter().chain(r.final_result.as_ref().err()) {
        err_ranges.push((e.unexpected.range.start.offset as usize, e.unexpected.range.end.offset as usize));
    }
    for (a, b) in err_ranges {
        assert!(a <= b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b), "error location outside the text");
    }
    let res = match r.final_result {
        Ok(ss) if n == 0 => {
            let v = ss.ss.iter().map(conv).collect();
            Ok((v, ss))
        }
        Ok(_) => Err("inner".to_string()),
        Err(e) => Err(e.to_string()),
    };
    (res, n, table)
}

fn check_loc(text: &str, table: &SourceLocationTable, s: &Sexp, n: &Node) -> Case {
    if let Some((a, b)) = n.range {
        let (_, r) = table.review(s.loc);
        for (p, l) in [(a, r.start), (b, r.end)] {
            let (line, col) = line_col(text, p);
            ensure!(
                (l.offset as usize, l.line, l.character) == (p, line, col),
                "form-location",
                "form {:?} of text {:?} is at offset {} line {} column {}, reported {:?}", s.to_string(), text, p, line, col, l
            );
        }
    }
    if let (SexpRep::List(v), Sx::List(w, None)) = (&s.rep, &n.sx) {
        for (x, y) in v.iter().zip(w.iter()) {
            check_loc(text, table, x, y)?;
        }
    }
    Ok(())
}

fn check_text(text: &str, out: &mut Out) -> Case {
    // tokens tile the text, with exact locations
    let rl = ref_lex(text);
    let toks: Vec<_> = Lexer::new(text).collect();
    let mut pos = 0usize;
    for (i, tk) in toks.iter().enumerate() {
        let (a, b) = (tk.range.start, tk.range.end);
        ensure!(a.offset as usize == pos && b.offset > a.offset, "token-tiling", "token {} of {:?} covers {}..{}, expected to start at {}", i, text, a.offset, b.offset, pos);
        pos = b.offset as usize;
        ensure!(rl.get(i).map(|x| (x.1, x.2)) == Some((a.offset as usize, pos)), "token-extent", "token {} of {:?} is {}..{}, should be {:?}", i, text, a.offset, pos, rl.get(i));
        for l in [a, b] {
            ensure!((l.line, l.character) == line_col(text, l.offset as usize), "token-location", "offset {} of {:?} is reported at line {} column {}", l.offset, text, l.line, l.character);
        }
    }
    ensure!(pos == text.len(), "token-tiling", "tokens of {:?} end at {}", text, pos);
    // parsing agrees with the grammar
    let want = ref_parse(text);
    let (got, nerr, table) = read(text);
    match (&want, &got) {
        (Ok(w), Ok((g, ss))) => {
            ensure!(canons(w) == canons(g), "tree", "text {:?} denotes\n{}but reads as\n{}", text, canons(w), canons(g));
            for (x, y) in ss.ss.iter().zip(w.iter()) {
                check_loc(text, &table, x, y)?;
            }
            check_print(ss, g)?;
            if !g.is_empty() {
                out.classes.push("accepted");
            }
        }
        (Err(_), Err(_)) => out.classes.push("rejected"),
        (Ok(w), Err(e)) => ensure!(false, "rejects-valid", "text {:?} denotes\n{}but is rejected: {} ({} errors)", text, canons(w), e, nerr),
        (Err(_), Ok((g, _))) => ensure!(false, "accepts-invalid", "text {:?} is not in the grammar but reads as\n{}", text, canons(g)),
    }
    Ok(())
}

/// An integral number may be printed without a fraction (the existing tests say so): it is the same
/// number when the integer read back is that floating-point value.
fn same(a: &Node, b: &Node) -> bool {
    match (&a.sx, &b.sx) {
        (Sx::Fp(f), Sx::Int(true, v)) => f.fract() == 0.0 && *v as i64 as f64 == *f,
        (Sx::Fp(f), Sx::Int(false, v)) => f.fract() == 0.0 && *v as f64 == *f,
        (Sx::List(v, t), Sx::List(w, u)) => {
            sames(v, w)
                && match (t, u) {
                    (Some(t), Some(u)) => same(t, u),
                    (None, None) => true,
                    _ => false,
                }
        }
        _ => canons(std::slice::from_ref(a)) == canons(std::slice::from_ref(b)),
    }
}

fn sames(a: &[Node], b: &[Node]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

fn check_print(ss: &Ss, g: &[Node]) -> Case {
    let printed = ss.to_string();
    let (again, _, _) = read(&printed);
    match again {
        Ok((g2, _)) => ensure!(sames(g, &g2), "print-read", "printed {:?} of\n{}reads back as\n{}", printed, canons(g), canons(&g2)),
        Err(e) => ensure!(false, "print-read", "printed {:?} of\n{}does not read back: {}", printed, canons(g), e),
    }
    Ok(())
}

fn case(t: &mut Tape, out: &mut Out) -> Case {
    match t.below(3) {
        0 => {
            let text = gen_soup(t);
            out.desc = text.clone();
            out.key = text.clone();
            out.nontrivial = text.len() > 2;
            out.classes.push("soup");
            check_text(&text, out)
        }
        _ => {
            let n = t.range(1, 3);
            let d = t.range(1, 5) as u32;
            let trees: Vec<Node> = (0..n).map(|_| gen_tree(t, d)).collect();
            let mut r = Render { o: String::new(), t, sugar: true };
            for (i, x) in trees.iter().enumerate() {
                if i > 0 {
                    r.o.push('\n');
                }
                r.form(x);
            }
            let text = r.o;
            out.desc = text.clone();
            out.key = text.clone();
            out.nontrivial = text.len() > 2;
            out.classes.push("tree");
            // the rendering denotes the tree
            let (got, _, _) = read(&text);
            match got {
                Ok((g, _)) => ensure!(canons(&trees) == canons(&g), "tree", "{:?} was written for\n{}but reads as\n{}", text, canons(&trees), canons(&g)),
                Err(e) => ensure!(false, "rejects-valid", "{:?} was written for\n{}but is rejected: {}", text, canons(&trees), e),
            }
            check_text(&text, out)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("texts") {
        // texts SEED FROM TO: generated texts and what they denote, for the other reader
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            let mut t = Tape::random(vharness::case_seed(seed, i, "c01"));
            let text = if t.below(3) == 0 {
                gen_soup(&mut t)
            } else {
                let d = t.range(1, 4) as u32;
                let x = gen_tree(&mut t, d);
                let mut r = Render { o: String::new(), t: &mut t, sugar: true };
                r.form(&x);
                r.o
            };
            let want = ref_parse(&text);
            let c = match want {
                Ok(w) => canons(&w),
                Err(()) => "ERR\n".to_string(),
            };
            println!("[{},{}]", vharness::jstr(&text), vharness::jstr(&c));
        }
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("want") {
        // what the text on the standard input denotes
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
        print!("{}", ref_parse(&text).map_or("ERR\n".to_string(), |w| canons(&w)));
        return;
    }
    main_with("c01", &case)
}
