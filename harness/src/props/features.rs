//! Properties of presentation features of the language service.

use super::service::{in_instr, sample, Sample};
use crate::{
    engine::*,
    lexer::{self, L},
    lsp::*,
    wat::*,
};
use lsp_types::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "grammar-generated modules with comments, non-ASCII text and all line endings, under clients that support random subsets of token types; the decoded tokens compared with the expected ones; non-trivial: at least 12 highlighted tokens on 2 lines",
            quick: 400_000,
            thorough: 4_000_000,
            run: c18,
            assumptions: &["numeric references only where the module-wide numbering equals the index space (known finding)"],
        },
        Prop {
            id: "C19",
            rule: "grammar-generated modules; the outline, folding ranges and selection ranges compared with the generated syntax; non-trivial: at least 3 definitions and 2 lines",
            quick: 600_000,
            thorough: 4_000_000,
            run: c19,
            assumptions: &["numbers shown for unnamed definitions are judged only where the module-wide numbering equals the index space (known finding)"],
        },
        Prop {
            id: "C20",
            rule: "grammar-generated modules with doc comments; hover at every token and inlay hints of random ranges compared with the declarations; non-trivial: at least 2 typed references",
            quick: 400_000,
            thorough: 4_000_000,
            run: c20,
            assumptions: &["numeric references only where the module-wide numbering equals the index space (known finding)"],
        },
        Prop {
            id: "C21",
            rule: "grammar-generated modules; call hierarchy prepared at every function name and call, incoming and outgoing calls compared with the generated calls; non-trivial: at least 2 calls inside functions",
            quick: 700_000,
            thorough: 4_000_000,
            run: c21,
            assumptions: &["names are not duplicated within one index space", "numeric references only where the module-wide numbering equals the index space (known finding)"],
        },
    ]
}

// ---- C18 ----

type Decoded = (u32, u32, u32, SemanticTokenType);

fn decode(data: &[SemanticToken], legend: &[SemanticTokenType]) -> Result<Vec<Decoded>, String> {
    let (mut line, mut col) = (0u32, 0u32);
    let mut out = vec![];
    for t in data {
        if t.delta_line > 0 {
            line += t.delta_line;
            col = t.delta_start;
        } else {
            col = col.checked_add(t.delta_start).ok_or("token columns overflow")?;
        }
        let ty = legend
            .get(t.token_type as usize)
            .ok_or_else(|| format!("token type {} is not in the legend", t.token_type))?;
        if t.token_modifiers_bitset != 0 {
            return Err("token modifiers are not in the legend".into());
        }
        out.push((line, col, t.length, ty.clone()));
    }
    Ok(out)
}

/// Accepted types of every token (several where the spec does not settle it).
fn token_types(doc: &Doc) -> Vec<Vec<SemanticTokenType>> {
    use SemanticTokenType as T;
    let mut v: Vec<Vec<T>> = doc
        .toks
        .iter()
        .map(|t| match t.kind {
            K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE => vec![T::TYPE],
            K::KEYWORD => vec![T::KEYWORD],
            K::INT | K::UNSIGNED_INT | K::FLOAT => vec![T::NUMBER],
            K::STRING => vec![T::STRING],
            K::INSTR_NAME => vec![T::OPERATOR],
            K::IDENT => vec![T::VARIABLE],
            _ => vec![],
        })
        .collect();
    // names of parameters, wherever they occur
    for i in 2..doc.toks.len() {
        if doc.toks[i].kind == K::IDENT && doc.toks[i - 1].text == "param" && doc.toks[i - 2].text == "(" {
            v[i] = vec![T::PARAMETER];
        }
    }
    for d in &doc.defs {
        if let (Space::Func, Some(n)) = (d.space, d.name_tok) {
            v[n] = if d.import { vec![T::FUNCTION, T::VARIABLE] } else { vec![T::FUNCTION] };
        }
    }
    for r in &doc.refs {
        match r.space {
            Space::Func if r.site == "elem" => v[r.tok] = vec![T::FUNCTION, T::VARIABLE],
            Space::Func => v[r.tok] = vec![T::FUNCTION],
            Space::Local => {
                v[r.tok] = if r.def.is_some_and(|d| doc.defs[d].is_param) {
                    vec![T::PARAMETER]
                } else {
                    vec![T::VARIABLE]
                }
            }
            _ => {}
        }
    }
    v
}

/// Any text, also malformed: every token of the tree is reported at its place.
fn c18_any_text(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = bind_cfg(g);
    let (text, class) = crate::mutate::any_text(g, cfg);
    case.rendering = text.clone();
    case.note(&text);
    case.label(class);
    let svc = guard(|| Svc::new(&text))?;
    let lines = Lines::new(&text);
    let tree = guard(|| wat_parser::Parser::new(&text).parse())?;
    let leaves: Vec<(u32, u32, u32)> = tree
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| {
            matches!(
                t.kind(),
                K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE | K::KEYWORD | K::INT | K::UNSIGNED_INT | K::FLOAT | K::IDENT
                    | K::STRING | K::LINE_COMMENT | K::BLOCK_COMMENT | K::INSTR_NAME
            )
        })
        .map(|t| {
            let p = lines.pos(t.text_range().start().into());
            (p.line, p.character, t.text().encode_utf16().count() as u32)
        })
        .collect();
    let full = guard(|| {
        svc.s.semantic_tokens_full(SemanticTokensParams {
            text_document: svc.id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    })?;
    let Some(SemanticTokensResult::Tokens(full)) = full else {
        return Err("no tokens".into());
    };
    let got: Vec<(u32, u32, u32)> = decode(&full.data, &TOKEN_TYPES)?.into_iter().map(|d| (d.0, d.1, d.2)).collect();
    case.nontrivial = got.len() >= 12 && lines.line_count() > 1;
    if got != leaves {
        let i = got.iter().zip(&leaves).take_while(|(a, b)| a == b).count();
        return Err(format!("token {i}: reported at {:?}, but it is at {:?}", got.get(i), leaves.get(i)));
    }
    Ok(())
}

fn c18(g: &mut G, case: &mut Case) -> Outcome {
    if g.chance(1, 5) {
        return c18_any_text(g, case);
    }
    let cfg = Cfg {
        undefined: g.chance(1, 6),
        ..bind_cfg(g)
    };
    let mut s = sample(g, case, cfg)?;
    let mut types = TOKEN_TYPES.to_vec();
    if g.chance(1, 2) {
        g.shuffle(&mut types);
        types.truncate(g.range(1, 9));
        case.label("partial client");
    }
    case.rendering.push_str(&format!("\nclient: {:?}", types.iter().map(|t| t.as_str()).collect::<Vec<_>>()));
    let init = guard(|| init(&mut s.svc.s, types.clone()))?;
    let Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) = init.capabilities.semantic_tokens_provider else {
        return Err("no semantic tokens capability".into());
    };
    let legend = o.legend.token_types;
    for t in &legend {
        if !types.contains(t) {
            return Err(format!("legend has {t:?}, which the client does not support"));
        }
    }
    let accepted = token_types(&s.doc);
    // (start, end, accepted types) of everything in the text
    let mut all: Vec<(usize, usize, Vec<SemanticTokenType>)> = vec![];
    let mut i = 0;
    for l in lexer::lex(&s.text.text) {
        match l.kind {
            L::Ws => all.push((l.start, l.end, vec![])),
            L::LineComment | L::BlockComment => all.push((l.start, l.end, vec![SemanticTokenType::COMMENT])),
            _ => {
                if i < s.text.spans.len() && s.text.spans[i].0 == l.start {
                    all.push((l.start, s.text.spans[i].1, accepted[i].clone()));
                    i += 1;
                }
            }
        }
    }
    let abs = |s: &Sample, a: usize, b: usize| -> (u32, u32, u32) {
        let p = s.lines.pos(a);
        (p.line, p.character, s.text.text[a..b].encode_utf16().count() as u32)
    };
    let compare = |s: &Sample, got: &[Decoded], from: usize, to: usize, shift: Option<(u32, u32)>| -> Outcome {
        let mut k = 0;
        for (a, b, tys) in &all {
            if *b <= from || *a >= to {
                continue;
            }
            let (line, mut col, len) = abs(s, *a, *b);
            if let Some((l, c)) = shift {
                if line == l {
                    col -= c;
                }
            }
            let possible: Vec<&SemanticTokenType> = tys.iter().filter(|t| legend.contains(t)).collect();
            if possible.is_empty() {
                continue;
            }
            match got.get(k) {
                Some((l2, c2, n2, t2)) if (*l2, *c2, *n2) == (line, col, len) && possible.contains(&t2) => k += 1,
                // its type may be one the client does not support
                _ if possible.len() < tys.len() => {}
                x => {
                    return Err(format!(
                        "token {:?} at {line}:{col} ({:?}) is reported as {x:?}",
                        &s.text.text[*a..*b],
                        tys
                    ))
                }
            }
        }
        if k != got.len() {
            return Err(format!("additional token {:?}", got[k]));
        }
        Ok(())
    };
    let full = guard(|| {
        s.svc.s.semantic_tokens_full(SemanticTokensParams {
            text_document: s.svc.id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    })?;
    let Some(SemanticTokensResult::Tokens(full)) = full else {
        return Err("no tokens".into());
    };
    let got = decode(&full.data, &legend)?;
    case.nontrivial = got.len() >= 12 && s.lines.line_count() > 1;
    compare(&s, &got, 0, usize::MAX, None).map_err(|e| format!("full: {e}"))?;
    for _ in 0..4 {
        let (mut a, mut b) = (g.range(0, s.text.text.len()), g.range(0, s.text.text.len()));
        if g.chance(1, 3) {
            a = s.lines.line_start(g.below(s.lines.line_count()));
        }
        if a > b {
            (a, b) = (b, a);
        }
        while !s.text.text.is_char_boundary(a) {
            a -= 1;
        }
        while !s.text.text.is_char_boundary(b) {
            b -= 1;
        }
        if a > b {
            continue;
        }
        let range = s.lines.range(a, b);
        let r = guard(|| {
            s.svc.s.semantic_tokens_range(SemanticTokensRangeParams {
                text_document: s.svc.id(),
                range,
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            })
        })?;
        let Some(SemanticTokensRangeResult::Tokens(r)) = r else {
            return Err("no tokens for range".into());
        };
        let got = decode(&r.data, &legend)?;
        let exact = compare(&s, &got, a, b, None);
        // known finding: columns on the line of the first token count from that token
        let shifted = match all.iter().find(|(_, e, _)| *e > a) {
            Some((st, _, _)) => {
                let p = s.lines.pos(*st);
                p.character > 0 && compare(&s, &got, a, b, Some((p.line, p.character))).is_ok()
            }
            None => false,
        };
        if !shifted {
            exact.map_err(|e| format!("range {a}..{b}: {e}"))?;
        }
    }
    Ok(())
}

/// Known finding: the first token of the range is not at its column.
pub fn range_shifted(text: &str) -> bool {
    let lines = Lines::new(text);
    let at = text.len() - text.trim_start().len();
    let s = Svc::new(text);
    let r = guard(|| {
        s.s.semantic_tokens_range(SemanticTokensRangeParams {
            text_document: s.id(),
            range: lines.range(at, text.len()),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    });
    match r {
        Ok(Some(SemanticTokensRangeResult::Tokens(r))) => r.data.first().is_some_and(|t| t.delta_start as usize != at + 1),
        _ => true,
    }
}

// ---- C19 ----

/// (kind, first token, last token, has own keyword or parenthesis) of every node.
fn nodes(doc: &Doc) -> Vec<(K, usize, usize, bool)> {
    let mut stack: Vec<(K, Option<usize>, usize, bool)> = vec![];
    let mut out = vec![];
    for e in &doc.evs {
        match e {
            Ev::Open(k) => stack.push((*k, None, 0, false)),
            Ev::Close => {
                let (k, first, last, own) = stack.pop().unwrap();
                if let Some(f) = first {
                    out.push((k, f, last, own));
                }
            }
            Ev::Tok(t) => {
                for n in stack.iter_mut() {
                    n.1.get_or_insert(*t);
                    n.2 = *t;
                }
                if let Some(n) = stack.last_mut() {
                    n.3 |= matches!(doc.toks[*t].kind, K::KEYWORD | K::L_PAREN);
                }
            }
        }
    }
    out
}

fn c19(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        max_modules: g.weighted(&[0, 30, 8, 2, 1]),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    case.nontrivial = doc.defs.len() >= 3 && s.lines.line_count() > 1;
    // outline
    let r = guard(|| {
        s.svc.s.document_symbol(DocumentSymbolParams {
            text_document: s.svc.id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    })?;
    let Some(DocumentSymbolResponse::Nested(got)) = r else {
        return Err("outline is not nested".into());
    };
    let mut want: Vec<(Range, Vec<usize>)> = vec![];
    for (m, (a, b)) in doc.modules.iter().enumerate() {
        let mut defs: Vec<usize> = (0..doc.defs.len())
            .filter(|d| doc.defs[*d].module == m && !matches!(doc.defs[*d].space, Space::Local | Space::Label))
            .collect();
        defs.sort_by_key(|d| doc.defs[*d].first);
        if !defs.is_empty() {
            want.push((s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1), defs));
        }
    }
    // modules without definitions may be left out
    let got: Vec<&DocumentSymbol> = got.iter().filter(|m| m.children.as_ref().is_some_and(|c| !c.is_empty())).collect();
    if got.len() != want.len() {
        return Err(format!("outline has {} modules with definitions instead of {}", got.len(), want.len()));
    }
    for (m, (range, defs)) in got.iter().zip(&want) {
        if m.kind != SymbolKind::MODULE || m.range != *range || !within(m.selection_range, m.range) {
            return Err(format!("module in the outline: {:?} {:?} instead of {range:?}", m.kind, m.range));
        }
        check_children(&s, m.children.as_deref().unwrap_or_default(), defs)?;
    }
    // folding
    let got = guard(|| {
        s.svc.s.folding_range(FoldingRangeParams {
            text_document: s.svc.id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    })?
    .ok_or("no folding ranges")?;
    let mut got: Vec<(u32, u32, u32, u32)> = got
        .iter()
        .map(|f| (f.start_line, f.start_character.unwrap_or(u32::MAX), f.end_line, f.end_character.unwrap_or(u32::MAX)))
        .collect();
    got.sort();
    let ns = nodes(doc);
    let mut want: Vec<(u32, u32, u32, u32)> = ns
        .iter()
        .filter(|(k, _, _, own)| *own && *k != K::ROOT)
        .map(|(_, a, b, _)| s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1))
        .filter(|r| r.start.line != r.end.line)
        .map(|r| (r.start.line, r.start.character, r.end.line, r.end.character))
        .collect();
    want.sort();
    if got != want {
        let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        let more: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
        return Err(format!("folding ranges: missing {miss:?}, additional {more:?} (of {} and {})", want.len(), got.len()));
    }
    // selection ranges
    let mut toks: Vec<usize> = (0..doc.toks.len()).filter(|t| !matches!(doc.toks[*t].text.as_str(), "(" | ")")).collect();
    g.shuffle(&mut toks);
    toks.truncate(g.range(1, 4));
    let positions: Vec<Position> = toks.iter().map(|t| s.pos_in(g, *t)).collect();
    let got = guard(|| {
        s.svc.s.selection_range(SelectionRangeParams {
            text_document: s.svc.id(),
            positions: positions.clone(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    })?
    .ok_or("no selection ranges")?;
    if got.len() != positions.len() {
        return Err(format!("{} selection ranges for {} positions", got.len(), positions.len()));
    }
    for ((t, p), sel) in toks.iter().zip(&positions).zip(&got) {
        let mut want = vec![s.tok_range(*t)];
        // nodes are listed innermost first
        want.extend(
            ns.iter()
                .filter(|(k, a, b, _)| *k != K::ROOT && a <= t && t <= b)
                .map(|(_, a, b, _)| s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1)),
        );
        want.push(s.lines.range(0, s.text.text.len()));
        let mut chain = vec![];
        let mut at = Some(sel);
        while let Some(x) = at {
            chain.push(x.range);
            at = x.parent.as_deref();
        }
        for w in chain.windows(2) {
            if !within(w[0], w[1]) {
                return Err(format!("selection range {:?} is not inside its parent {:?}", w[0], w[1]));
            }
        }
        // the body of an unfolded `if` has no delimiters of its own, so its
        // node may include the whitespace and comments around it
        let bodies: Vec<Range> = ns
            .iter()
            .filter(|(k, a, b, _)| *k == K::BLOCK_IF_THEN && a <= t && t <= b)
            .map(|(_, a, b, _)| s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1))
            .collect();
        for r in &mut chain {
            if let Some(t) = trimmed(&s, *r) {
                if !want.contains(r) && bodies.contains(&t) {
                    *r = t;
                }
            }
        }
        // equal ranges may be listed once
        chain.dedup();
        want.dedup();
        if chain != want {
            return Err(format!(
                "selection ranges at {}:{}: {:?} instead of {:?}",
                p.line,
                p.character,
                chain.iter().map(|r| s.shown(r)).collect::<Vec<_>>(),
                want.iter().map(|r| s.shown(r)).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}

/// The range without whitespace and comments at its ends.
fn trimmed(s: &Sample, r: Range) -> Option<Range> {
    let (a, b) = s.lines.span(r)?;
    let first = s.text.spans.iter().find(|x| x.0 >= a)?;
    let last = s.text.spans.iter().rev().find(|x| x.1 <= b)?;
    (first.0 < last.1).then(|| s.lines.range(first.0, last.1))
}

fn within(a: Range, b: Range) -> bool {
    b.start <= a.start && a.end <= b.end
}

fn check_children(s: &Sample, got: &[DocumentSymbol], defs: &[usize]) -> Outcome {
    let doc = &s.doc;
    if got.len() != defs.len() {
        return Err(format!(
            "outline lists {:?} where the source has {} definitions",
            got.iter().map(|x| &x.name).collect::<Vec<_>>(),
            defs.len()
        ));
    }
    for (x, d) in got.iter().zip(defs) {
        let def = &doc.defs[*d];
        let range = if def.space == Space::Local && def.name.is_none() {
            s.tok_range(def.first)
        } else {
            s.lines.range(s.text.spans[def.first].0, s.text.spans[def.last].1)
        };
        let sel = def.name_tok.map_or(range, |t| s.tok_range(t));
        let kind = if def.space == Space::Func { SymbolKind::FUNCTION } else { SymbolKind::VARIABLE };
        if x.range != range || x.selection_range != sel || x.kind != kind {
            return Err(format!(
                "outline entry {:?} {:?} range {} selection {}: expected {kind:?} range {} selection {}",
                x.name,
                x.kind,
                s.shown(&x.range),
                s.shown(&x.selection_range),
                s.shown(&range),
                s.shown(&sel)
            ));
        }
        let name = match &def.name {
            Some(n) => Some(n.clone()),
            None if def.space == Space::Local => type_only(doc, def).then_some(()).map_or(Some(def.index.to_string()), |_| None),
            None => (def.shared == def.index).then(|| def.index.to_string()),
        };
        if name.is_some_and(|n| n != x.name) {
            return Err(format!("outline entry is named {:?} instead of {:?}/{}", x.name, def.name, def.index));
        }
        let mut inner: Vec<usize> = vec![];
        if def.space == Space::Func {
            inner = (0..doc.defs.len())
                .filter(|i| {
                    let l = &doc.defs[*i];
                    l.space == Space::Local && !l.is_param && l.func == Some(*d)
                })
                .collect();
        }
        check_children(s, x.children.as_deref().unwrap_or_default(), &inner)?;
    }
    Ok(())
}

fn type_only(doc: &Doc, local: &Def) -> bool {
    local.func.is_some_and(|f| doc.defs[f].type_only)
}

// ---- C20 ----

fn sig_text(sig: &Sig) -> String {
    let mut v = vec![];
    for (n, t) in &sig.params {
        v.push(match n {
            Some(n) => format!("(param {n} {})", t.text()),
            None => format!("(param {})", t.text()),
        });
    }
    v.extend(sig.results.iter().map(|t| format!("(result {})", t.text())));
    v.join(" ")
}

fn head(kw: &str, name: &Option<String>) -> String {
    match name {
        Some(n) => format!("({kw} {n}"),
        None => format!("({kw}"),
    }
}

/// The declaration as hover shows it.
pub fn declaration(doc: &Doc, d: usize) -> Option<String> {
    let def = &doc.defs[d];
    Some(match def.space {
        Space::Local => format!(
            "{} {})",
            head(if def.is_param { "param" } else { "local" }, &def.name),
            def.ty.unwrap().text()
        ),
        Space::Global => {
            let t = def.ty.unwrap().text();
            let t = if def.mutable { format!("(mut {t})") } else { t.into() };
            format!("{} {t})", head("global", &def.name))
        }
        Space::Type => {
            let sig = sig_text(def.sig.as_ref().unwrap());
            let sp = if sig.is_empty() { "" } else { " " };
            format!("{} (func{sp}{sig}))", head("type", &def.name))
        }
        Space::Func => {
            let sig = sig_text(def.sig.as_ref().unwrap());
            let sp = if sig.is_empty() { "" } else { " " };
            format!("{}{sp}{sig})", head("func", &def.name))
        }
        _ => return None,
    })
}

/// The text of `;;;` comments in front of a function.
fn doc_comment(s: &Sample, lexed: &[lexer::Lex], d: usize) -> String {
    let at = s.text.spans[s.doc.defs[d].first].0;
    let comments: Vec<&str> = lexed
        .iter()
        .rev()
        .skip_while(|l| l.end > at)
        .take_while(|l| matches!(l.kind, L::Ws | L::LineComment))
        .filter(|l| l.kind == L::LineComment)
        .map(|l| &s.text.text[l.start..l.end])
        .collect();
    let mut docs: Vec<&str> = comments
        .into_iter()
        .skip_while(|c| !c.starts_with(";;;"))
        .take_while(|c| c.starts_with(";;;"))
        .map(|c| {
            let c = &c[3..];
            c.strip_prefix([' ', '\t']).unwrap_or(c)
        })
        .collect();
    // blank comments at the end add nothing
    let blank = docs.iter().take_while(|c| c.is_empty()).count();
    docs.drain(..blank);
    docs.reverse();
    docs.join("\n")
}

pub fn flat(h: &HoverContents) -> Vec<String> {
    let one = |m: &MarkedString| match m {
        MarkedString::String(s) => s.clone(),
        MarkedString::LanguageString(l) => l.value.clone(),
    };
    match h {
        HoverContents::Scalar(m) => vec![one(m)],
        HoverContents::Array(v) => v.iter().map(one).collect(),
        HoverContents::Markup(m) => vec![m.value.clone()],
    }
}

/// Which of several types of the same name counts is not specified.
fn ambiguous(doc: &Doc, d: usize) -> bool {
    let (a, b) = (doc.defs[d].first, doc.defs[d].last);
    let mut uses = doc.refs.iter().enumerate().filter(|(_, r)| r.site == "type use" && a < r.tok && r.tok < b);
    uses.any(|(i, _)| doc.resolve_all(i).len() > 1)
}

fn c20(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 6),
        duplicates: g.chance(1, 8),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    let typed = doc.refs.iter().filter(|r| r.def.is_some() && declaration(doc, r.def.unwrap()).is_some()).count();
    case.nontrivial = typed >= 2;
    let lexed = lexer::lex(&s.text.text);
    let func_hover = |d: usize| {
        let mut h = format!("```wat\n{}\n```", declaration(doc, d).unwrap());
        let c = doc_comment(&s, &lexed, d);
        if !c.is_empty() {
            h.push_str("\n---\n");
            h.push_str(&c);
        }
        h
    };
    let show = |d: usize| -> Option<String> {
        if doc.defs[d].space == Space::Func {
            if ambiguous(doc, d) {
                return None;
            }
            return Some(func_hover(d));
        }
        declaration(doc, d)
    };
    // token → expected texts; None: not judged
    let mut want: BTreeMap<usize, Option<Vec<String>>> = BTreeMap::new();
    for (i, d) in doc.defs.iter().enumerate() {
        let texts = show(i).map(|t| vec![t]);
        if let Some(n) = d.name_tok {
            want.insert(n, texts.clone());
        }
        if d.space != Space::Local || d.name.is_some() {
            let k = if doc.toks[d.first].text == "(" { d.first + 1 } else { d.first };
            want.insert(k, texts);
        }
    }
    for (t, _) in &doc.end_labels {
        want.insert(*t, None);
    }
    for (i, r) in doc.refs.iter().enumerate() {
        let defs = doc.resolve_all(i);
        let texts: Vec<String> = defs.iter().filter_map(|d| show(*d)).collect();
        if texts.is_empty() || texts.len() != defs.len() {
            want.insert(r.tok, None);
        } else if r.space == Space::Func {
            want.insert(r.tok, Some(vec![texts.join("\n---\n")]));
        } else {
            want.insert(r.tok, Some(texts));
        }
    }
    for (t, tok) in doc.toks.iter().enumerate() {
        if s.is_paren(t) {
            continue;
        }
        let p = s.pos_in(g, t);
        let got = s.svc.hover(p)?;
        if let Some(h) = &got {
            if h.range != Some(s.tok_range(t)) {
                return Err(format!("hover of {:?} has range {:?}", tok.text, h.range));
            }
        }
        let texts = got.as_ref().map(|h| flat(&h.contents)).unwrap_or_default();
        match want.get(&t) {
            Some(None) => {}
            Some(Some(w)) => {
                if *w != texts {
                    return Err(format!("hover of {:?} at {}:{}: {texts:?} instead of {w:?}", tok.text, p.line, p.character));
                }
            }
            None => match tok.kind {
                K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE => {
                    let start = format!("```wat\n{}\n```\n", tok.text);
                    if texts.len() != 1 || !texts[0].starts_with(&start) || texts[0].len() < start.len() + 10 {
                        return Err(format!("hover of type {}: {texts:?}", tok.text));
                    }
                }
                K::INSTR_NAME => {
                    if !texts.is_empty() && !texts[0].starts_with(&format!("```wat\n{}\n```\nBinary Opcode: ", tok.text)) {
                        return Err(format!("hover of {}: {texts:?}", tok.text));
                    }
                }
                _ => {
                    if texts.iter().any(|t| !t.is_empty()) {
                        return Err(format!("hover of {:?} at {}:{}: {texts:?}", tok.text, p.line, p.character));
                    }
                }
            },
        }
    }
    // inlay hints
    for round in 0..3 {
        let (mut a, mut b) = (g.range(0, s.text.text.len()), g.range(0, s.text.text.len()));
        if round == 0 {
            (a, b) = (0, s.text.text.len());
        }
        if a > b {
            (a, b) = (b, a);
        }
        while !s.text.text.is_char_boundary(a) {
            a -= 1;
        }
        while !s.text.text.is_char_boundary(b) {
            b += 1;
        }
        let got = guard(|| {
            s.svc.s.inlay_hint(InlayHintParams {
                work_done_progress_params: Default::default(),
                text_document: s.svc.id(),
                range: s.lines.range(a, b),
            })
        })?
        .unwrap_or_default();
        let mut got: Vec<(Position, String)> = got
            .into_iter()
            .map(|h| {
                let l = match h.label {
                    InlayHintLabel::String(l) => l,
                    InlayHintLabel::LabelParts(p) => p.into_iter().map(|p| p.value).collect(),
                };
                (h.position, l)
            })
            .collect();
        got.sort();
        let mut want = vec![];
        let inside = |t: usize| s.text.spans[t].0 >= a && s.text.spans[t].1 <= b;
        for r in &doc.refs {
            if let (Some(d), true, true) = (r.def, matches!(r.space, Space::Local | Space::Global), inside(r.tok)) {
                want.push((s.lines.pos(s.text.spans[r.tok].1), doc.defs[d].ty.unwrap().text().to_string()));
            }
        }
        for d in &doc.defs {
            if let (Space::Func, Some(n), true) = (d.space, &d.name, inside(d.last)) {
                want.push((s.lines.pos(s.text.spans[d.last].1), format!("(func {n})")));
            }
        }
        want.sort();
        if got != want {
            return Err(format!("inlay hints of {a}..{b}: {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

// ---- C21 ----

fn c21(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 6),
        duplicates: g.chance(1, 6),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    let doc = &s.doc;
    let ns = nodes(doc);
    let funcs: Vec<usize> = (0..doc.defs.len()).filter(|d| doc.defs[*d].space == Space::Func).collect();
    let node = |d: usize| {
        let (a, b) = doc.node_span(&s.text, d);
        s.lines.range(a, b)
    };
    // (caller, callee, instruction range)
    let mut calls: Vec<(usize, usize, Range)> = vec![];
    for (i, r) in doc.refs.iter().enumerate() {
        if let (Some(caller), Space::Func, true) = (r.func, r.space, in_instr(r.site)) {
            let (_, a, b, _) = ns
                .iter()
                .find(|(k, a, b, _)| *k == K::PLAIN_INSTR && *a <= r.tok && r.tok <= *b)
                .expect("harness bug: instruction of reference");
            // several ones if the name is defined several times
            for callee in doc.resolve_all(i) {
                calls.push((caller, callee, s.lines.range(s.text.spans[*a].0, s.text.spans[*b].1)));
            }
        }
    }
    case.nontrivial = calls.len() >= 2;
    let item_ok = |i: &CallHierarchyItem, d: usize| -> Outcome {
        let def = &doc.defs[d];
        let name = def.name.clone().or((def.shared == def.index).then(|| def.index.to_string()));
        if i.uri != s.svc.uri
            || i.kind != SymbolKind::FUNCTION
            || i.range != node(d)
            || i.selection_range != s.def_range(d)
            || name.is_some_and(|n| n != i.name)
            || (!ambiguous(doc, d) && i.detail != declaration(doc, d))
        {
            return Err(format!("call hierarchy item {} does not describe {:?} {:?}", json!(i), declaration(doc, d), s.def_range(d)));
        }
        Ok(())
    };
    let prepare = |p: Position| {
        guard(|| {
            s.svc.s.prepare_call_hierarchy(CallHierarchyPrepareParams {
                text_document_position_params: s.svc.tdp(p),
                work_done_progress_params: Default::default(),
            })
        })
        .map(|r| r.unwrap_or_default())
    };
    for (i, r) in doc.refs.iter().enumerate() {
        let p = s.pos_in(g, r.tok);
        let mut got = prepare(p)?;
        match (r.def, r.space) {
            (Some(_), Space::Func) => {
                let defs = doc.resolve_all(i);
                if got.len() != defs.len() {
                    return Err(format!("{} items instead of {} for the call at {}:{}", got.len(), defs.len(), p.line, p.character));
                }
                got.sort_by_key(|i| i.range.start);
                for (item, d) in got.iter().zip(defs) {
                    item_ok(item, d)?;
                }
            }
            _ => {
                if !got.is_empty() {
                    return Err(format!("call hierarchy items for {:?} ({}): {}", doc.toks[r.tok].text, r.site, json!(got)));
                }
            }
        }
    }
    for f in &funcs {
        let def = &doc.defs[*f];
        let t = def.name_tok.unwrap_or(def.first + 1);
        let p = s.pos_in(g, t);
        let got = prepare(p)?;
        if got.len() != 1 {
            return Err(format!("{} items for the function at {}:{}", got.len(), p.line, p.character));
        }
        item_ok(&got[0], *f)?;
        let item = got.into_iter().next().unwrap();
        let incoming = guard(|| {
            s.svc.s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams {
                item: item.clone(),
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            })
        })?
        .unwrap_or_default();
        let outgoing = guard(|| {
            s.svc.s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams {
                item: item.clone(),
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            })
        })?
        .unwrap_or_default();
        let mut got_in = vec![];
        for i in incoming {
            let d = funcs.iter().find(|d| node(**d) == i.from.range).ok_or("caller is not a function")?;
            item_ok(&i.from, *d)?;
            got_in.extend(i.from_ranges.into_iter().map(|r| (*d, *f, r)));
        }
        let mut got_out = vec![];
        for o in outgoing {
            let d = funcs.iter().find(|d| node(**d) == o.to.range).ok_or("callee is not a function")?;
            item_ok(&o.to, *d)?;
            got_out.extend(o.from_ranges.into_iter().map(|r| (*f, *d, r)));
        }
        let key = |c: &(usize, usize, Range)| (c.0, c.1, c.2.start, c.2.end);
        let mut want_in: Vec<_> = calls.iter().filter(|c| c.1 == *f).copied().collect();
        let mut want_out: Vec<_> = calls.iter().filter(|c| c.0 == *f).copied().collect();
        for v in [&mut got_in, &mut got_out, &mut want_in, &mut want_out] {
            v.sort_by_key(key);
        }
        let show = |v: &[(usize, usize, Range)]| {
            v.iter()
                .map(|(a, b, r)| format!("{} → {} at {}", s.shown(&s.def_range(*a)), s.shown(&s.def_range(*b)), s.shown(r)))
                .collect::<BTreeSet<_>>()
        };
        if got_in != want_in {
            return Err(format!("incoming calls: {:?} instead of {:?}", show(&got_in), show(&want_in)));
        }
        if got_out != want_out {
            return Err(format!("outgoing calls: {:?} instead of {:?}", show(&got_out), show(&want_out)));
        }
    }
    Ok(())
}
