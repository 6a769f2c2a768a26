//! From the S-expressions of llrl0 to those of the model.
use crate::sx::*;
use llrl::sexp::{Sexp, SexpRep};

pub fn conv(s: &Sexp) -> Node {
    Node::new(match &s.rep {
        SexpRep::Integer(b, v) => Sx::Int(*b, *v),
        SexpRep::FPNumber(v) => Sx::Fp(v.into_inner()),
        SexpRep::Symbol(s) => Sx::Sym(s.to_string()),
        SexpRep::String(s) => Sx::Str(s.to_string()),
        SexpRep::Char(c) => Sx::Char(*c),
        SexpRep::Bool(b) => Sx::Bool(*b),
        SexpRep::List(v) => Sx::List(v.iter().map(conv).collect(), None),
        SexpRep::ListLike(l) => {
            let mut v = vec![conv(&l.0)];
            v.extend(l.1.iter().map(conv));
            Sx::List(v, Some(Box::new(conv(&l.2))))
        }
        SexpRep::Native(_) => panic!("native value from text"),
    })
}

