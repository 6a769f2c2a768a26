//! The front end of llrl0 in process: loading, ordering and building of generated module sets.
use llrl::formatting::ContextualDisplay as _;
use llrl::prelude::*;
use std::sync::Arc;

pub struct Front {
    /// paths of the sources in the order given to the builder
    pub order: Vec<String>,
    pub src: Vec<(String, String)>,
    pub cycle: Option<Vec<String>>,
    pub errors: Vec<(String, ModuleError)>,
    pub texts: Vec<String>,
    pub modules: Vec<Arc<Module>>,
}

impl Front {
    pub fn ok(&self) -> bool {
        self.src.is_empty() && self.cycle.is_none() && self.errors.is_empty()
    }
    pub fn summary(&self) -> String {
        if !self.src.is_empty() {
            format!("source errors {:?}", self.src)
        } else if let Some(c) = &self.cycle {
            format!("cycle {:?}", c)
        } else if !self.errors.is_empty() {
            format!("rejected: {}", self.texts.join("; "))
        } else {
            "accepted".to_string()
        }
    }
}

pub fn front(entries: &[String], mods: &[(String, String)], features: &[&str]) -> Front {
    let mut loader = SourceLoader::new();
    loader.add_package(PackageName::builtin(), ast::builtin::module());
    for (p, t) in mods {
        loader.add_source(p.parse().unwrap(), t.clone());
    }
    let mut pp = Preprocessor::new();
    for f in features {
        pp.enable_feature(*f);
    }
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let entries: Vec<Path> = entries.iter().map(|p| p.parse().unwrap()).collect();
    let sources = collect_sources(entries.iter(), &loader, &mut table, &pp, &mut report);
    let mut f = Front { order: vec![], src: vec![], cycle: None, errors: vec![], texts: vec![], modules: vec![] };
    f.src = sources.errors().map(|(p, e)| (p.to_string(), e.fmt_on(&table).to_string())).collect();
    f.src.sort();
    if !f.src.is_empty() {
        return f;
    }
    let sources = match sources.resolve_dependencies_order() {
        Ok(s) => s,
        Err(c) => {
            f.cycle = Some(c.iter().map(|p| p.to_string()).collect());
            return f;
        }
    };
    f.order = sources.iter().map(|s| s.path.to_string()).collect();
    let (m, e) = build_modules(sources, entries.into_iter().collect(), &(), &mut report);
    f.modules = m;
    for (s, e) in e {
        f.texts.push(format!("{}: {}", s.path, e.fmt_on(&table)));
        f.errors.push((s.path.to_string(), e));
    }
    f
}

pub fn front1(text: &str) -> Front {
    front(&["~".to_string()], &[("~".to_string(), text.to_string())], &[])
}
