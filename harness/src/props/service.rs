//! Properties of the language service: incrementality, totality, name resolution.

use crate::{engine::*, lexer, lsp::*, mutate::*, wat::*};
use lsp_types::{Position, Range};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use wat_service::LanguageService;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "histories of commits to up to three documents (edits, reverts, rewrites, corrupted texts) interleaved with requests of every kind; every answer compared with a fresh service that only got the current text; non-trivial: at least 3 commits and 4 requests, one of them after a document changed",
            quick: 120_000,
            thorough: 1_500_000,
            run: c11,
            assumptions: &["diagnostics are compared as multisets"],
        },
        Prop {
            id: "C12",
            rule: "every request kind on valid, corrupted and garbage texts at positions in and outside the document; non-trivial: at least 8 tokens",
            quick: 120_000,
            thorough: 1_500_000,
            run: c12,
            assumptions: &["nesting depth of generated text is bounded", "tab size is at least 1"],
        },
        Prop {
            id: "C13",
            rule: "grammar-generated modules with known bindings; go-to-definition, -declaration and -type-definition asked at every token; non-trivial: at least 3 references of 2 kinds",
            quick: 300_000,
            thorough: 2_500_000,
            run: c13,
            assumptions: &["numeric references only where the module-wide numbering equals the index space (known finding)"],
        },
        Prop {
            id: "C14",
            rule: "grammar-generated modules with known bindings; references asked at every definition and every reference, with and without the declaration; non-trivial: some definition has at least 2 references",
            quick: 600_000,
            thorough: 2_500_000,
            run: c14,
            assumptions: &["numeric references only where the module-wide numbering equals the index space (known finding)", "names are not duplicated within one index space"],
        },
        Prop {
            id: "C15",
            rule: "grammar-generated modules with known bindings; rename asked at every identifier with a fresh name, edits applied and the result compared token by token; non-trivial: a renamed definition with at least 1 reference",
            quick: 450_000,
            thorough: 2_500_000,
            run: c15,
            assumptions: &["names are not duplicated within one index space", "the new name is fresh"],
        },
        Prop {
            id: "C16",
            rule: "grammar-generated modules with undefined references, duplicated names and several modules planted; non-trivial: at least one planted problem and one resolved reference",
            quick: 700_000,
            thorough: 4_000_000,
            run: c16,
            assumptions: &["labels that are nested in a label of the same name are not judged", "numeric references only where the module-wide numbering equals the index space (known finding)"],
        },
    ]
}

/// A generated document, rendered and committed.
pub struct Sample {
    pub doc: Doc,
    pub text: Text,
    pub lines: Lines,
    pub svc: Svc,
}

pub fn sample(g: &mut G, case: &mut Case, cfg: Cfg) -> Result<Sample, String> {
    let doc = gen_doc(g, cfg);
    let r = any_render(g);
    let text = render(g, &doc.toks, &r);
    case.rendering = text.text.clone();
    case.note(&text.text);
    for l in &doc.labels {
        case.label(l);
    }
    let lines = Lines::new(&text.text);
    let svc = guard(|| Svc::new(&text.text))?;
    Ok(Sample {
        doc,
        text,
        lines,
        svc,
    })
}

impl Sample {
    pub fn tok_range(&self, t: usize) -> Range {
        let (s, e) = self.text.spans[t];
        self.lines.range(s, e)
    }
    pub fn def_range(&self, d: usize) -> Range {
        let (s, e) = self.doc.def_span(&self.text, d);
        self.lines.range(s, e)
    }
    /// A position that belongs to the token (its start, end or inside).
    pub fn pos_in(&self, g: &mut G, t: usize) -> Position {
        let (s, e) = self.text.spans[t];
        let mut o = match g.below(4) {
            0 => s,
            1 => e,
            _ => g.range(s, e),
        };
        while !self.text.text.is_char_boundary(o) {
            o -= 1;
        }
        self.lines.pos(o)
    }
    pub fn is_paren(&self, t: usize) -> bool {
        matches!(self.doc.toks[t].text.as_str(), "(" | ")")
    }
    pub fn shown(&self, r: &Range) -> String {
        match self.lines.span(*r) {
            Some((s, e)) => format!("{}:{} {:?}", r.start.line, r.start.character, &self.text.text[s..e]),
            None => format!("{r:?}"),
        }
    }
    pub fn differ(&self, what: &str, tok: usize, p: Position, want: &[Range], got: &[Range]) -> Outcome {
        let mut want = want.to_vec();
        want.sort_by_key(|r| (r.start, r.end));
        if want == got {
            return Ok(());
        }
        Err(format!(
            "{what} at {}:{} on {:?} ({}): expected [{}], got [{}]",
            p.line,
            p.character,
            self.doc.toks[tok].text,
            self.doc.refs.iter().find(|r| r.tok == tok).map_or("not a reference", |r| r.site),
            want.iter().map(|r| self.shown(r)).collect::<Vec<_>>().join(", "),
            got.iter().map(|r| self.shown(r)).collect::<Vec<_>>().join(", "),
        ))
    }
}

// ---- C11 ----

pub(super) fn any_position(g: &mut G, lines: &Lines) -> Position {
    if g.chance(1, 12) {
        return Position::new(g.below(lines.line_count() + 3) as u32, g.below(60) as u32);
    }
    let mut o = g.range(0, lines.text.len());
    if g.chance(1, 3) {
        // an identifier or instruction name nearby
        o = lines.text.as_bytes()[o..].iter().position(|b| *b == b'$' || *b == b'.').map_or(o, |n| o + n);
    }
    while !lines.text.is_char_boundary(o) {
        o -= 1;
    }
    lines.pos(o)
}

pub(super) fn any_range(g: &mut G, lines: &Lines) -> Range {
    let (a, b) = (any_position(g, lines), any_position(g, lines));
    if g.chance(1, 4) {
        return lines.range(0, lines.text.len());
    }
    if a <= b || g.chance(1, 20) {
        Range::new(a, b)
    } else {
        Range::new(b, a)
    }
}

pub(super) fn any_method(g: &mut G) -> &'static str {
    match g.below(3) {
        0 => *g.pick(&POSITION_METHODS),
        1 => *g.pick(&RANGE_METHODS),
        2 if g.chance(1, 4) => *g.pick(&ITEM_METHODS),
        _ => *g.pick(&DOC_METHODS),
    }
}

/// Replace a word by another one of the same length, so that nothing moves.
fn replace_word(g: &mut G, text: &mut String) {
    replace_some_word(g, text, true);
}

pub(super) fn replace_some_word(g: &mut G, text: &mut String, keywords: bool) {
    const GROUPS: [&[&str]; 7] = [
        &["i32", "i64", "f32", "f64"],
        &["param", "local"],
        &["get", "set", "tee"],
        &["add", "sub", "mul", "xor"],
        &["func", "elem", "data", "type", "void"],
        &["block", "br_if", "start"],
        &["end", "nop"],
    ];
    let words: Vec<(usize, usize)> = {
        let mut words = vec![];
        let mut start = None;
        for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
            let word = c.is_ascii_alphanumeric() || c == '_' || c == '$';
            match start {
                None if word => start = Some(i),
                Some(s) if !word => {
                    words.push((s, i));
                    start = None;
                }
                _ => {}
            }
        }
        words
    };
    let candidates: Vec<(usize, usize, Vec<String>)> = words
        .iter()
        .filter_map(|&(s, e)| {
            let w = &text[s..e];
            let others: Vec<String> = if w.starts_with('$') {
                words.iter().map(|&(s, e)| &text[s..e]).filter(|o| o.starts_with('$') && *o != w && o.len() == w.len()).map(String::from).collect()
            } else if w.len() == 1 && w.as_bytes()[0].is_ascii_digit() {
                ["0", "1", "2", "3"].iter().filter(|o| **o != w).map(|o| o.to_string()).collect()
            } else {
                GROUPS[..if keywords { 7 } else { 1 }].iter().filter(|group| group.contains(&w)).flat_map(|group| group.iter()).filter(|o| **o != w && o.len() == w.len()).map(|o| o.to_string()).collect()
            };
            (!others.is_empty()).then_some((s, e, others))
        })
        .collect();
    if candidates.is_empty() {
        return;
    }
    let (s, e, others) = g.pick(&candidates);
    let other = g.pick(others).clone();
    text.replace_range(*s..*e, &other);
}

pub(super) fn history_text(g: &mut G, prev: &[String]) -> String {
    if !prev.is_empty() {
        let last = prev.last().unwrap();
        match g.below(8) {
            0 => return g.pick(prev).clone(),
            // replace words at any place, keeping the length of each
            6 | 7 => {
                let mut t = last.clone();
                for _ in 0..1 + g.below(2) {
                    replace_word(g, &mut t);
                }
                return t;
            }
            1 => {
                let mut t = last.clone();
                corrupt_text(g, &mut t);
                return t;
            }
            2 => {
                // shift everything
                let pre = *g.pick(&["\n", " ", ";; c\n", "(; x ;)"]);
                return format!("{pre}{last}");
            }
            3 => {
                // replace one name by another, keeping lengths
                let (a, b) = (*g.pick(NAMES), *g.pick(NAMES));
                return last.replacen(a, b, 1 + g.below(3));
            }
            4 => {
                let (a, b) = *g.pick(&[("i32", "i64"), ("f32", "f64"), ("i64", "i32"), ("param", "local"), ("get", "set")]);
                return last.replacen(a, b, 1 + g.below(2));
            }
            _ => {}
        }
    }
    if g.chance(1, 5) {
        return any_text(g, small()).0;
    }
    let mut cfg = bind_cfg(g);
    cfg.max_fields = 5;
    cfg.max_instrs = 3;
    cfg.depth = 2;
    cfg.undefined = g.chance(1, 3);
    cfg.duplicates = g.chance(1, 4);
    let doc = gen_doc(g, cfg);
    let r = any_render(g);
    render(g, &doc.toks, &r).text
}

/// Small documents of words that have others of the same length.
fn small_doc(g: &mut G) -> String {
    if g.chance(1, 2) {
        return small_module(g);
    }
    let mut cfg = bind_cfg(g);
    cfg.max_fields = 4;
    cfg.max_instrs = 3;
    cfg.depth = 1;
    cfg.undefined = g.chance(1, 3);
    cfg.duplicates = g.chance(1, 4);
    let doc = gen_doc(g, cfg);
    let r = any_render(g);
    render(g, &doc.toks, &r).text
}

pub(super) fn small_module(g: &mut G) -> String {
    let types: Vec<&str> = (0..g.range(1, 3))
        .map(|_| *g.pick(&["i32", "i64", "f32", "f64"]))
        .collect();
    let n = types.len();
    let ty = |g: &mut G| *g.pick(&["i32", "i64", "f32", "f64"]);
    let mut fields = vec![];
    for (k, t) in types.iter().enumerate() {
        let r = ty(g);
        fields.push(match g.below(3) {
            0 => format!("(type $t{k} (func (param {t}) (result {r})))"),
            1 => format!("(type $t{k} (func (param {t} {r})))"),
            _ => format!("(type (func (result {t})))"),
        });
    }
    for k in 0..g.range(1, 3) {
        let (a, b) = (ty(g), ty(g));
        let u = g.below(n);
        let callee = g.below(3);
        fields.push(match g.below(6) {
            0 => format!("(func $f{k} (type $t{u}) (call $f{callee}))"),
            1 => format!("(func $f{k} (type {u}) local.get 0 call $f{callee})"),
            2 => format!("(func $f{k} (param $p {a}) (result {b}) (call $f{callee} (local.get $p)))"),
            3 => format!("(global $g{k} {a} ({a}.const 0)) (func $f{k} (global.get $g0) drop)"),
            4 => format!("(import \"m\" \"n\" (func $f{k} (type $t{u})))"),
            _ => format!("(func $f{k} (local $x {a}) (local.set $x ({b}.const 1)) block $a block $b br $a end end)"),
        });
    }
    if g.chance(1, 3) {
        g.shuffle(&mut fields);
    }
    format!("(module {})", fields.join(*g.pick(&["\n", " "])))
}

/// The same requests at all words of a document before and after edits that move little.
fn c11_sweep(g: &mut G, case: &mut Case) -> Outcome {
    let mut s = LanguageService::default();
    init(&mut s, TOKEN_TYPES.to_vec());
    let mut t = small_doc(g);
    let extra = g.below(12) as u32;
    let edits = g.range(1, 3);
    // call hierarchy items of this or of a former text
    let mut items: Vec<Value> = vec![];
    for k in 0..=edits {
        if k > 0 {
            match g.below(5) {
                0 => corrupt_text(g, &mut t),
                _ => replace_word(g, &mut t),
            }
        }
        case.note(&t);
        case.rendering.push_str(&format!("commit: {t:?}\n"));
        guard(|| s.commit(uri(0), t.clone()))?;
        let mut fresh = LanguageService::default();
        init(&mut fresh, TOKEN_TYPES.to_vec());
        guard(|| fresh.commit(uri(0), t.clone()))?;
        let lines = Lines::new(&t);
        let whole = lines.range(0, t.len());
        let ask = |method: &str, p: Value| -> Result<Value, String> {
            let got = canon(method, guard(|| request(&s, method, p.clone()))?);
            let want = canon(method, guard(|| request(&fresh, method, p.clone()))?);
            if got != want {
                return Err(format!("{method} {} differs from a fresh service on the same text: {got} instead of {want}", p["position"]));
            }
            Ok(got)
        };
        // some of the requests are only made of the last text
        for method in DOC_METHODS.into_iter().chain(RANGE_METHODS) {
            if k == edits || g.chance(3, 4) {
                ask(method, params(&uri(0), whole.start, whole, extra))?;
            }
        }
        let words: Vec<usize> = t
            .char_indices()
            .filter(|(i, c)| c.is_ascii_alphanumeric() && t[..*i].ends_with(['$', ' ', '(']))
            .map(|w| w.0)
            .collect();
        if words.is_empty() {
            continue;
        }
        for _ in 0..12 {
            let o = words[g.below(words.len())];
            let method = *g.pick(&POSITION_METHODS);
            let r = ask(method, params(&uri(0), lines.pos(o), whole, extra))?;
            if method == "prepareCallHierarchy" {
                items.extend(r.as_array().into_iter().flatten().cloned());
            }
        }
        for item in items.iter().rev().take(4) {
            ask(*g.pick(&ITEM_METHODS), json!({ "item": item }))?;
        }
    }
    case.label("sweeps");
    case.nontrivial = t.len() > 30;
    Ok(())
}

fn c11(g: &mut G, case: &mut Case) -> Outcome {
    if g.chance(1, 2) {
        return c11_sweep(g, case);
    }
    let docs = g.range(1, 3);
    let steps = g.range(3, 12);
    let mut s = LanguageService::default();
    init(&mut s, TOKEN_TYPES.to_vec());
    let mut texts: Vec<Vec<String>> = vec![vec![]; docs];
    let (mut commits, mut requests, mut after_change) = (0, 0, false);
    // requests that were made before, to be repeated after changes
    let mut asked: Vec<(usize, &'static str, Value)> = vec![];
    for step in 0..steps {
        let d = if step < docs { step } else { g.below(docs) };
        if texts[d].is_empty() || g.chance(2, 5) {
            let t = history_text(g, &texts[d]);
            case.note(&t);
            case.rendering.push_str(&format!("commit doc{d}: {t:?}\n"));
            guard(|| s.commit(uri(d), t.clone()))?;
            texts[d].push(t);
            commits += 1;
            if g.chance(1, 2) {
                continue;
            }
        }
        let repeated = if asked.is_empty() || g.chance(1, 3) { 0 } else { g.range(1, 4) };
        for k in 0..repeated + g.range(1, 3) {
            let (d, method, p) = if k < repeated {
                let recent = &asked[asked.len().saturating_sub(12)..];
                g.pick(recent).clone()
            } else {
                // also documents that were not touched just now
                let d = if g.chance(1, 3) { g.below(docs) } else { d };
                let Some(t) = texts[d].last() else { continue };
                let lines = Lines::new(t);
                let method = any_method(g);
                let p = params(&uri(d), any_position(g, &lines), any_range(g, &lines), g.below(12) as u32);
                asked.push((d, method, p.clone()));
                (d, method, p)
            };
            let Some(t) = texts[d].last() else { continue };
            case.rendering.push_str(&format!(
                "{method} doc{d} position {} range {}\n",
                p["position"], p["range"]
            ));
            case.label(method);
            requests += 1;
            after_change |= texts[d].len() > 1;
            let got = canon(method, guard(|| request(&s, method, p.clone()))?);
            let fresh = guard(|| {
                let mut f = LanguageService::default();
                init(&mut f, TOKEN_TYPES.to_vec());
                f.commit(uri(d), t.clone());
                request(&f, method, p.clone())
            })?;
            let fresh = canon(method, fresh);
            if got != fresh {
                return Err(format!(
                    "{method} differs from a fresh service on the same text: {got} instead of {fresh}"
                ));
            }
            if method == "prepareCallHierarchy" {
                // to be asked now or after changes
                for item in got.as_array().into_iter().flatten().take(2) {
                    asked.push((d, *g.pick(&ITEM_METHODS), json!({ "item": item })));
                }
            }
        }
    }
    case.nontrivial = commits >= 3 && requests >= 4 && after_change;
    Ok(())
}

// ---- C12 ----

fn is_position(v: &Value) -> Option<Position> {
    let o = v.as_object()?;
    if o.len() != 2 {
        return None;
    }
    Some(Position::new(
        o.get("line")?.as_u64()? as u32,
        o.get("character")?.as_u64()? as u32,
    ))
}

/// Every range and position of a response has to denote a place of the document.
fn check_places(v: &Value, lines: &Lines) -> Outcome {
    match v {
        Value::Object(o) => {
            if let (Some(s), Some(e)) = (o.get("start").and_then(is_position), o.get("end").and_then(is_position)) {
                if lines.span(Range::new(s, e)).is_none() {
                    return Err(format!("range {v} is not a range of the document"));
                }
                return Ok(());
            }
            if let Some(p) = is_position(v) {
                if lines.off(p).is_none() {
                    return Err(format!("position {v} is not in the document"));
                }
            }
            for v in o.values() {
                check_places(v, lines)?;
            }
            Ok(())
        }
        Value::Array(a) => {
            for v in a {
                check_places(v, lines)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn c12(g: &mut G, case: &mut Case) -> Outcome {
    let (text, class) = if g.chance(1, 3) {
        let t = history_text(g, &[]);
        let t = if g.chance(1, 2) { history_text(g, &[t]) } else { t };
        (t, "edited")
    } else {
        any_text(g, small())
    };
    case.label(class);
    case.rendering = text.clone();
    case.note(&text);
    case.nontrivial = crate::lexer::significant(&text).len() >= 8;
    let lines = Lines::new(&text);
    let svc = guard(|| Svc::new(&text))?;
    for method in DOC_METHODS {
        let p = params(&svc.uri, any_position(g, &lines), any_range(g, &lines), g.below(12) as u32);
        let r = guard(|| request(&svc.s, method, p.clone())).map_err(|e| format!("{method} {p}: {e}"))?;
        check_places(&r, &lines).map_err(|e| format!("{method}: {e}"))?;
        if method == "foldingRange" {
            for f in r.as_array().into_iter().flatten() {
                let (s, e) = (f["startLine"].as_u64().unwrap(), f["endLine"].as_u64().unwrap());
                if s > e || e as usize >= lines.line_count() {
                    return Err(format!("folding range {f} is not in the document"));
                }
            }
        }
    }
    for _ in 0..g.range(4, 12) {
        let (pos, range) = (any_position(g, &lines), any_range(g, &lines));
        let methods: &[&str] = match g.below(5) {
            0 | 1 => &POSITION_METHODS,
            2 | 3 => &RANGE_METHODS,
            _ => &ITEM_METHODS,
        };
        let extra = g.below(12) as u32;
        for method in methods {
            let p = params(&svc.uri, pos, range, extra);
            let r = guard(|| request(&svc.s, method, p.clone()))
                .map_err(|e| format!("{method} at {} range {}: {e}", p["position"], p["range"]))?;
            check_places(&r, &lines).map_err(|e| format!("{method} at {} range {}: {e}", p["position"], p["range"]))?;
            if *method == "prepareCallHierarchy" {
                for item in r.as_array().into_iter().flatten() {
                    for m in ITEM_METHODS {
                        let p = serde_json::json!({ "item": item });
                        let r = guard(|| request(&svc.s, m, p.clone())).map_err(|e| format!("{m} of {item}: {e}"))?;
                        check_places(&r, &lines).map_err(|e| format!("{m} of {item}: {e}"))?;
                    }
                }
            }
        }
    }
    if g.chance(1, 2) {
        return beyond_line_end(g, case, &lines, &svc);
    }
    Ok(())
}

/// A position after the end of its line counts as the end of that line.
fn beyond_line_end(g: &mut G, case: &mut Case, lines: &Lines, svc: &Svc) -> Outcome {
    case.label("position beyond the end of its line");
    let l = g.below(lines.line_count());
    let start = lines.line_start(l);
    let line = lines.text[start..].split('\n').next().unwrap_or_default();
    let end = Position::new(l as u32, line.encode_utf16().count() as u32);
    // the carriage return may or may not count as part of the line
    let mut ends = vec![end];
    if line.ends_with('\r') {
        ends.push(Position::new(l as u32, end.character - 1));
    }
    let more = match g.below(4) {
        0 | 1 => 1 + g.below(3) as u32,
        2 => 4 + g.below(2000) as u32,
        // the biggest number that the protocol allows
        _ => i32::MAX as u32 - end.character - g.below(40) as u32,
    };
    let beyond = Position::new(l as u32, end.character + more);
    let extra = g.below(12) as u32;
    let from = any_range(g, lines).start;
    let (from, to_end) = match g.below(3) {
        _ if from.line > beyond.line || from.line == beyond.line && from.character > end.character => (end, true),
        0 => (end, true),
        _ => (from, false),
    };
    for method in POSITION_METHODS.into_iter().chain(RANGE_METHODS) {
        let ask = |p: Position| {
            let from = if to_end { p } else { from };
            guard(|| request(&svc.s, method, params(&svc.uri, p, Range::new(from, p), extra))).map(|v| canon(method, v))
        };
        let got = ask(beyond).map_err(|e| format!("{method} at {beyond:?}: {e}"))?;
        let mut want = vec![];
        for e in &ends {
            want.push(ask(*e)?);
        }
        if !want.contains(&got) {
            return Err(format!(
                "{method} at {}:{}, after the end of its line ({}): {got} instead of {}",
                beyond.line, beyond.character, end.character, want[0]
            ));
        }
    }
    Ok(())
}

// ---- C13 ----

fn kinds_of_refs(doc: &Doc) -> usize {
    doc.refs.iter().filter(|r| r.def.is_some()).map(|r| r.space).collect::<BTreeSet<_>>().len()
}

fn c13(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 3),
        duplicates: g.chance(1, 5),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    case.nontrivial = s.doc.refs.len() >= 3 && kinds_of_refs(&s.doc) >= 2;
    let by_tok: BTreeMap<usize, usize> = s.doc.refs.iter().enumerate().map(|(i, r)| (r.tok, i)).collect();
    for t in 0..s.doc.toks.len() {
        if s.is_paren(t) {
            // may belong to the neighbour
            continue;
        }
        let p = s.pos_in(g, t);
        let (mut def, mut decl, mut ty) = (vec![], vec![], vec![]);
        if let Some(r) = by_tok.get(&t) {
            let rf = &s.doc.refs[*r];
            case.label(rf.site);
            let defs = s.doc.resolve_all(*r);
            def = defs.iter().map(|d| s.def_range(*d)).collect();
            let operand = in_instr(rf.site);
            if operand && !matches!(rf.space, Space::Local | Space::Label) {
                decl = def.clone();
                if rf.space == Space::Func {
                    for d in &defs {
                        if let Some(td) = s.doc.defs[*d].type_def {
                            ty.extend(type_defs(&s.doc, *d, td).into_iter().map(|d| s.def_range(d)));
                        }
                    }
                }
            }
        }
        s.differ("definition", t, p, &def, &s.svc.definition(p)?)?;
        s.differ("declaration", t, p, &decl, &s.svc.declaration(p)?)?;
        s.differ("type definition", t, p, &ty, &s.svc.type_definition(p)?)?;
    }
    Ok(())
}

pub fn in_instr(site: &str) -> bool {
    !matches!(
        site,
        "type use" | "start" | "elem" | "memory use" | "table use" | "export func" | "export table" | "export memory" | "export global"
    )
}

/// All types the `(type …)` of function `f` resolves to.
fn type_defs(doc: &Doc, f: usize, _td: usize) -> Vec<usize> {
    let (first, last) = (doc.defs[f].first, doc.defs[f].last);
    doc.refs
        .iter()
        .enumerate()
        .find(|(_, r)| r.site == "type use" && r.tok > first && r.tok < last)
        .map(|(i, _)| doc.resolve_all(i))
        .unwrap_or_default()
}

// ---- C14 ----

fn c14(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 4),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    // token → definition it belongs to
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, d) in doc.defs.iter().enumerate() {
        if let Some(n) = d.name_tok {
            at.insert(n, i);
        }
        if d.space == Space::Local && d.name.is_none() {
            at.insert(d.first, i);
        } else {
            let k = if doc.toks[d.first].text == "(" { d.first + 1 } else { d.first };
            at.insert(k, i);
        }
    }
    let mut uses: BTreeMap<usize, Vec<Range>> = BTreeMap::new();
    for r in &doc.refs {
        if let Some(d) = r.def {
            at.insert(r.tok, d);
            uses.entry(d).or_default().push(s.tok_range(r.tok));
        }
    }
    case.nontrivial = uses.values().any(|u| u.len() >= 2);
    for (t, d) in &at {
        let p = s.pos_in(g, *t);
        let mut want = uses.get(d).cloned().unwrap_or_default();
        s.differ("references", *t, p, &want, &s.svc.references(p, false)?)?;
        want.push(s.def_range(*d));
        s.differ("references with declaration", *t, p, &want, &s.svc.references(p, true)?)?;
    }
    for r in &doc.refs {
        if r.def.is_none() {
            let p = s.pos_in(g, r.tok);
            let got = s.svc.references(p, true)?;
            // an undefined reference may list its fellows, but no definition
            for x in got {
                let sp = s.lines.span(x);
                let ok = doc.refs.iter().any(|o| {
                    o.def.is_none() && o.space == r.space && o.module == r.module && Some(s.text.spans[o.tok]) == sp
                });
                if !ok {
                    return Err(format!("undefined reference lists {}", s.shown(&x)));
                }
            }
        }
    }
    Ok(())
}

// ---- C15 ----

fn c15(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 4),
        named: 85,
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    let new = &*if g.chance(1, 2) {
        g.pick(&["$fresh", "$zz1", "$X.y", "$n!"]).to_string()
    } else {
        // any identifier
        let chars: Vec<char> = (33..127u8).map(char::from).filter(|c| lexer::is_idchar(*c)).collect();
        let rest: String = (0..g.range(3, 9)).map(|_| *g.pick(&chars)).collect();
        format!("${rest}zz")
    };
    // occurrences of every named definition
    let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, d) in doc.defs.iter().enumerate() {
        if let Some(n) = d.name_tok {
            groups.entry(i).or_default().push(n);
        }
    }
    for r in &doc.refs {
        if let (Some(d), true) = (r.def, r.by_name) {
            groups.get_mut(&d).unwrap().push(r.tok);
        }
    }
    for (t, d) in &doc.end_labels {
        groups.get_mut(d).unwrap().push(*t);
    }
    let mut tok_group: BTreeMap<usize, usize> = BTreeMap::new();
    for (d, toks) in &groups {
        for t in toks {
            tok_group.insert(*t, *d);
        }
    }
    let by_span: BTreeMap<(usize, usize), usize> = s.text.spans.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    for (t, tok) in doc.toks.iter().enumerate() {
        if s.is_paren(t) {
            continue;
        }
        let p = s.pos_in(g, t);
        let is_ident = tok.kind == wat_syntax::SyntaxKind::IDENT;
        let prep = s.svc.prepare_rename(p)?;
        if prep != is_ident.then(|| s.tok_range(t)) {
            return Err(format!("prepareRename on {:?} gives {prep:?}", tok.text));
        }
        if !is_ident {
            if g.chance(1, 4) {
                if let Ok(Some(e)) = s.svc.rename(p, new)? {
                    return Err(format!("rename on {:?} gives {e:?}", tok.text));
                }
            }
            continue;
        }
        if g.chance(1, 12) {
            let bad = &*if g.chance(1, 2) {
                g.pick(&["x", "$", "", "$a b", "$(", "$é", "$a\"", "$;", " $a", "$a,", "a$b", "$a\n"]).to_string()
            } else {
                // one character which identifiers can't have
                let chars: Vec<char> = (0..=255u8).map(char::from).filter(|c| !lexer::is_idchar(*c)).collect();
                format!("$a{}{}", *g.pick(&chars), *g.pick(&["", "b"]))
            };
            if let Ok(e) = s.svc.rename(p, bad)? {
                return Err(format!("rename to {bad:?} is not refused: {e:?}"));
            }
        }
        let Some(target) = tok_group.get(&t) else { continue };
        let Ok(Some(edits)) = s.svc.rename(p, new)? else {
            return Err(format!("no edits for renaming {:?} at {}:{}", tok.text, p.line, p.character));
        };
        let mut edited = BTreeSet::new();
        for e in &edits {
            let sp = s.lines.span(e.range).ok_or("edit outside the document")?;
            let Some(k) = by_span.get(&sp) else {
                return Err(format!("edit {} is not a token", s.shown(&e.range)));
            };
            if doc.toks[*k].text != tok.text || e.new_text != new {
                return Err(format!("edit of {:?} to {:?}", doc.toks[*k].text, e.new_text));
            }
            if !edited.insert(*k) {
                return Err(format!("{} is edited twice", s.shown(&e.range)));
            }
        }
        case.nontrivial |= groups[target].len() >= 2;
        // the renamed symbol completely, any other symbol completely or not at all
        for (d, toks) in &groups {
            let n = toks.iter().filter(|t| edited.contains(t)).count();
            if n != 0 && n != toks.len() || *d == *target && n == 0 {
                let miss = toks.iter().find(|t| !edited.contains(t)).copied().unwrap_or(toks[0]);
                return Err(format!(
                    "renaming {:?} at {}:{} edits {n} of {} occurrences of one symbol, not {}",
                    tok.text,
                    p.line,
                    p.character,
                    toks.len(),
                    s.shown(&s.tok_range(miss))
                ));
            }
            if n != 0 && d != target {
                let (a, b) = (&doc.defs[*d], &doc.defs[*target]);
                let same = match (a.space, b.space) {
                    (Space::Label, _) | (_, Space::Label) => false,
                    (Space::Local, Space::Local) => a.func == b.func && a.module == b.module,
                    (Space::Local, _) | (_, Space::Local) => false,
                    _ => a.module == b.module,
                };
                if !same {
                    return Err(format!(
                        "renaming {:?} at {}:{} also renames {} of another scope",
                        tok.text,
                        p.line,
                        p.character,
                        s.shown(&s.def_range(*d))
                    ));
                }
            }
        }
        // what is edited besides must be an unresolved occurrence
        for k in &edited {
            if !tok_group.contains_key(k) && !doc.refs.iter().any(|r| r.tok == *k && r.def.is_none()) {
                return Err(format!("renaming {:?} edits an unrelated identifier {}", tok.text, s.shown(&s.tok_range(*k))));
            }
        }
    }
    Ok(())
}

// ---- C16 ----

fn c16(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(2, 3),
        duplicates: g.chance(1, 2),
        max_modules: if g.chance(1, 4) { 3 } else { 1 },
        depth: if g.chance(1, 4) { 6 } else { 3 },
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    let mut want: Vec<(Range, String)> = vec![];
    for r in &doc.refs {
        if r.def.is_none() {
            let t = &doc.toks[r.tok].text;
            want.push((s.tok_range(r.tok), format!("cannot find `{t}` in this scope")));
            case.label("undefined reference");
        }
    }
    for (i, (a, b)) in doc.modules.iter().enumerate() {
        if i > 0 {
            want.push((
                s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1),
                "only one module is allowed in one file".into(),
            ));
            case.label("several modules");
        }
    }
    let mut groups: BTreeMap<(usize, Option<usize>, &str), Vec<usize>> = BTreeMap::new();
    // blocks directly within another one: first token to that of the outer one
    let mut direct: BTreeMap<usize, usize> = BTreeMap::new();
    let mut stack: Vec<Option<usize>> = vec![];
    let mut next = 0;
    for e in &doc.evs {
        match e {
            Ev::Open(k) => {
                use wat_syntax::SyntaxKind as K;
                let block = matches!(k, K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF).then_some(next);
                if let (Some(b), Some(Some(outer))) = (block, stack.last()) {
                    direct.insert(b, *outer);
                }
                stack.push(block);
            }
            Ev::Tok(t) => next = *t + 1,
            Ev::Close => {
                stack.pop();
            }
        }
    }
    let mut label_toks = BTreeMap::new();
    for (i, d) in doc.defs.iter().enumerate() {
        let Some(n) = &d.name else { continue };
        match d.space {
            Space::Label => {
                let mut outer = vec![];
                let mut b = d.first;
                while let Some(o) = direct.get(&b) {
                    outer.push(*o);
                    b = *o;
                }
                let places = |f: &dyn Fn(&Def) -> bool| -> BTreeSet<(Position, Position)> {
                    doc.defs
                        .iter()
                        .filter(|o| o.space == Space::Label && o.name == d.name && f(o))
                        .map(|o| s.tok_range(o.name_tok.unwrap()))
                        .map(|r| (r.start, r.end))
                        .collect()
                };
                let within = |o: &Def| d.first < o.first && o.last <= d.last;
                // namesakes around and within, and those of them that must be seen
                let nested = places(&|o| o.first < d.first && d.last <= o.last || within(o));
                let seen = places(&|o| outer.contains(&o.first) || within(o));
                label_toks.insert(s.text.spans[d.name_tok.unwrap()], (nested, seen, false));
            }
            Space::Local => groups.entry((d.module, d.func, n)).or_default().push(i),
            _ => groups.entry((d.module, None, n)).or_default().push(i),
        }
    }
    let mut related: BTreeMap<(Position, Position), BTreeSet<(Position, Position)>> = BTreeMap::new();
    for ((_, _, n), defs) in &groups {
        if defs.len() < 2 {
            continue;
        }
        case.label("duplicated name");
        for d in defs {
            let r = s.def_range(*d);
            want.push((r, format!("duplicated name `{n}` in this scope")));
            related.insert(
                (r.start, r.end),
                defs.iter()
                    .filter(|o| *o != d)
                    .map(|o| s.def_range(*o))
                    .map(|r| (r.start, r.end))
                    .collect(),
            );
        }
    }
    case.nontrivial = !want.is_empty() && doc.refs.iter().any(|r| r.def.is_some());
    let mut got: Vec<(Range, String)> = vec![];
    for d in s.svc.diagnostics()? {
        let m = &d.message;
        if d.severity != Some(lsp_types::DiagnosticSeverity::ERROR) {
            return Err(format!("severity of {m:?} is {:?}", d.severity));
        }
        if m.starts_with("syntax error") {
            return Err(format!("{m} in a well-formed module"));
        }
        let judged = m.starts_with("cannot find") || m.starts_with("only one module") || m.starts_with("duplicated name");
        if !judged {
            continue;
        }
        if m.starts_with("duplicated name") {
            let label = s.lines.span(d.range).and_then(|sp| label_toks.get_mut(&sp));
            let rel: BTreeSet<_> = d
                .related_information
                .iter()
                .flatten()
                .map(|i| (i.location.range.start, i.location.range.end))
                .collect();
            if let Some((nested, seen, reported)) = label {
                if nested.is_empty() {
                    return Err(format!("label at {} is not nested in its namesakes: {m}", s.shown(&d.range)));
                }
                if *reported {
                    return Err(format!("label at {} is reported twice: {m}", s.shown(&d.range)));
                }
                *reported = true;
                if !rel.is_subset(nested) || !seen.is_subset(&rel) {
                    return Err(format!("related places of {m:?}: {rel:?} instead of {nested:?}"));
                }
                continue;
            }
            if let Some(w) = related.get(&(d.range.start, d.range.end)) {
                if *w != rel {
                    return Err(format!("related places of {m:?}: {rel:?} instead of {w:?}"));
                }
            }
        }
        got.push((d.range, d.message));
    }
    // two blocks with one label are pinned not to be reported
    if let Some((sp, _)) = label_toks.iter().find(|(_, (_, seen, reported))| seen.len() >= 2 && !reported) {
        return Err(format!("duplicated label {:?} is not reported", &s.text.text[sp.0..sp.1]));
    }
    if label_toks.values().any(|l| l.2) {
        case.label("duplicated label");
    }
    let key = |x: &(Range, String)| (x.0.start, x.0.end, x.1.clone());
    want.sort_by_key(key);
    got.sort_by_key(key);
    // numbers are shown in decimal
    let norm = |x: &(Range, String)| (x.0, if x.1.starts_with("cannot find `0x") { "cannot find number".into() } else { x.1.clone() });
    for w in &want {
        if !got.iter().any(|x| norm(x) == norm(w) || x.0 == w.0 && w.1.contains("`0x")) {
            return Err(format!("missing diagnostic at {}: {}", s.shown(&w.0), w.1));
        }
    }
    for x in &got {
        if !want.iter().any(|w| norm(x) == norm(w) || x.0 == w.0 && w.1.contains("`0x")) {
            return Err(format!("unexpected diagnostic at {}: {}", s.shown(&x.0), x.1));
        }
    }
    if want.len() != got.len() {
        return Err(format!("{} diagnostics instead of {}", got.len(), want.len()));
    }
    Ok(())
}
