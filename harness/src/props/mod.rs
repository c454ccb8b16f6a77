pub mod actions;
pub mod ast;
pub mod completion;
pub mod features;
pub mod fmt;
pub mod meta;
pub mod parser;
pub mod scale;
pub mod server;
pub mod service;
pub mod typeck;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(parser::props());
    v.extend(fmt::props());
    v.extend(service::props());
    v.extend(typeck::props());
    v.extend(features::props());
    v.extend(actions::props());
    v.extend(completion::props());
    v.extend(server::props());
    v.extend(ast::props());
    v.extend(meta::props());
    v.extend(scale::props());
    v
}

/// Whether the listed finding (a concrete input) still fails.
pub fn known_still_fails(id: &str, v: &serde_json::Value) -> bool {
    let input = v["input"].as_str().unwrap_or_default();
    match (id, v["id"].as_str().unwrap_or_default()) {
        ("C05", "export-import-order") => {
            let o = Default::default();
            match fmt::fmt(input, &o) {
                Ok(out) => fmt::diff_skeleton(&fmt::skeleton(input, &o), &fmt::raw_skeleton(&out)).is_some(),
                Err(_) => true,
            }
        }
        ("C13", _) => {
            // definition at the end of the last occurrence of `at` must be the last token `want`
            let lines = crate::lsp::Lines::new(input);
            let at = input.rfind(v["at"].as_str().unwrap_or_default()).unwrap_or(0);
            let want = v["want"].as_str().unwrap_or_default();
            let w = input.rfind(want).unwrap_or(0);
            let svc = crate::lsp::Svc::new(input);
            svc.definition(lines.pos(at)) != Ok(vec![lines.range(w, w + want.len())])
        }
        ("C16", "function-label") => {
            let svc = crate::lsp::Svc::new(input);
            svc.diagnostics().map_or(true, |d| d.iter().any(|d| d.message.starts_with("cannot find")))
        }
        ("C18", "range-first-token") => features::range_shifted(input),
        _ => false,
    }
}
