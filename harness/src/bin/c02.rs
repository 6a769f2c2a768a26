//! C02: the preprocessor of llrl0 against the substitution model.
use llrl::lexer::Lexer;
use llrl::parser::parse;
use llrl::preprocess::Preprocessor;
use llrl::sexp::Ss;
use llrl::source_loc::SourceLocationTable;
use vharness::glue::conv;
use vharness::pp::*;
use vharness::sx::*;
use vharness::{ensure, main_with, Case, Out, Tape};

fn case(t: &mut Tape, out: &mut Out) -> Case {
    let (src, mask) = gen_source(t);
    let text = render(&src);
    out.desc = format!("features {:?}\n{}", FEATURES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect::<Vec<_>>(), text);
    let (want, st) = model(&src, mask);
    if want == Err("big") {
        out.invalid = true;
        return Ok(());
    }
    out.nontrivial = st.directives >= 2;
    if st.shadow {
        out.classes.push("shadowing");
    }
    if st.depth >= 2 {
        out.classes.push("nested scopes");
    }
    let mut table = SourceLocationTable::new();
    let mut loc = table.begin_locate(&"~/m".parse().unwrap());
    let mut ss = match parse::<Ss, _>(&mut loc, Lexer::new(&text)).final_result {
        Ok(ss) => ss,
        Err(_) => {
            // C01's business
            out.invalid = true;
            return Ok(());
        }
    };
    let mut p = Preprocessor::new();
    for (i, f) in FEATURES.iter().enumerate() {
        if mask >> i & 1 == 1 {
            p.enable_feature(*f);
        }
    }
    match (want, p.run(&mut ss)) {
        (Ok(w), Ok(())) => {
            out.classes.push("expanded");
            let g: Vec<_> = ss.ss.iter().map(conv).collect();
            ensure!(canons(&w) == canons(&g), "expansion", "with {}expected\n{}but got\n{}", out.desc, render(&w), canons(&g));
        }
        (Err(e), Err(_)) => out.classes.push(e),
        (Ok(w), Err(e)) => ensure!(false, "rejects-valid", "with {}expected\n{}but got the error {:?}", out.desc, render(&w), e),
        (Err(e), Ok(())) => {
            let g: Vec<_> = ss.ss.iter().map(conv).collect();
            ensure!(false, "accepts-malformed", "with {}expected an error ({}) but got\n{}", out.desc, e, canons(&g))
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("texts") {
        let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
        for i in from..to {
            let mut t = Tape::random(vharness::case_seed(seed, i, "c02x"));
            let (src, mask) = gen_source(&mut t);
            let (w, st) = model(&src, mask);
            if w == Err("big") {
                continue;
            }
            println!("[{},{},{},{}]", vharness::jstr(&render(&src)), mask, vharness::jstr(&w.map_or("ERR\n".to_string(), |w| canons(&w))), st.directives);
        }
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("want") {
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
        let mask: u64 = a[2].parse().unwrap();
        print!("{}", ref_parse(&text).map_or("READ\n".to_string(), |v| model(&v, mask).0.map_or("ERR\n".to_string(), |w| canons(&w))));
        return;
    }
    main_with("c02", &case)
}
