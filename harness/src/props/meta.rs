//! Metamorphic properties of the language service: changes of a document that must not change the answers.

use crate::{engine::*, lexer, lsp::*, wat::*};
use crate::{mutate::*, props::fmt::{any_options, fmt, root}, props::service::{replace_some_word, small_module}};
use line_index::LineIndex;
use lsp_types::{Position, Range, TextEdit};
use wat_formatter::config::{FormatOptions, LanguageOptions, LayoutOptions, LineBreak};
use serde_json::Value;
use std::collections::BTreeMap;
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "the same tokens (of a well-formed module, or corrupted token by token) in two layouts, in half of the cases with consistently renamed identifiers; requests of every kind at the same tokens, places in the answers compared as tokens; non-trivial: at least 20 tokens and 3 answers that are not empty",
        quick: 110_000,
        thorough: 1_500_000,
        run: c26,
        assumptions: &["folding ranges, which are counted in lines, are not compared", "documentation comments are not compared"],
    },
    Prop {
        id: "C27",
        rule: "documents of two or three modules, well-formed or with misplaced words; the answers inside of a module are compared with those after all other modules were replaced by blanks; non-trivial: at least two modules of 8 tokens each and 3 answers that are not empty",
        quick: 80_000,
        thorough: 1_000_000,
        run: c27,
        assumptions: &["misplaced words are exchanged for words of the same kind"],
    },
    Prop {
        id: "C28",
        rule: "formatting and range formatting requests on any text with any tab size, compared with the formatter called directly; formatter options as JSON in every documented spelling with any of them left out; non-trivial: at least 20 tokens, formatting changes the text, and some option is not the default",
        quick: 250_000,
        thorough: 3_000_000,
        run: c28,
        assumptions: &["tab size is at least 1"],
    }]
}

/// Index of comments in the legend (in the order of `TOKEN_TYPES`).
const COMMENT: u64 = 5;

/// One of the two documents.
struct Side {
    toks: Vec<Tok>,
    text: Text,
    lines: Lines,
    svc: Svc,
}

impl Side {
    fn new(g: &mut G, toks: Vec<Tok>) -> Result<Side, String> {
        let r = any_render(g);
        let text = render(g, &toks, &r);
        let lines = Lines::new(&text.text);
        let svc = guard(|| Svc::new(&text.text))?;
        Ok(Side { toks, text, lines, svc })
    }
    /// The token at or after an offset, as the start of something.
    fn first(&self, o: usize) -> String {
        let i = self.text.spans.partition_point(|s| s.1 <= o);
        match self.text.spans.get(i) {
            Some(s) if s.0 < o => format!("{i}+{}", o - s.0),
            _ => i.to_string(),
        }
    }
    /// The token at or before an offset, as the end of something.
    fn last(&self, o: usize) -> String {
        let i = self.text.spans.partition_point(|s| s.0 < o);
        match i.checked_sub(1).map(|i| self.text.spans[i]) {
            Some(s) if s.1 > o => format!("{}-{}", i - 1, s.1 - o),
            Some(_) => (i - 1).to_string(),
            None => "start".into(),
        }
    }
    fn place(&self, v: &Value) -> Option<usize> {
        let o = v.as_object().filter(|o| o.len() == 2)?;
        self.lines.off(Position::new(o.get("line")?.as_u64()? as u32, o.get("character")?.as_u64()? as u32))
    }
    /// Places become tokens.
    fn norm(&self, v: &Value, names: &BTreeMap<String, String>) -> Value {
        match v {
            Value::Object(o) => {
                if let (Some(s), Some(e)) = (o.get("start").and_then(|v| self.place(v)), o.get("end").and_then(|v| self.place(v))) {
                    return format!("[{}..{}]", self.first(s), self.last(e)).into();
                }
                if let Some(p) = self.place(v) {
                    return format!("@{}", self.last(p)).into();
                }
                Value::Object(o.iter().map(|(k, v)| (k.clone(), self.norm(v, names))).collect())
            }
            Value::Array(a) => Value::Array(a.iter().map(|v| self.norm(v, names)).collect()),
            Value::String(s) => renamed(s, names).into(),
            v => v.clone(),
        }
    }
    fn pos(&self, (t, k): (usize, usize)) -> Position {
        self.lines.pos(self.text.spans[t].0 + k)
    }
    fn answer(&self, method: &str, at: (usize, usize), to: usize, names: &BTreeMap<String, String>) -> Result<Value, String> {
        let range = Range::new(self.lines.pos(self.text.spans[at.0].0), self.lines.pos(self.text.spans[to].1));
        let mut p = params(&self.svc.uri, self.pos(at), range, to as u32 / 2 * 4);
        p["positions"] = serde_json::json!([self.pos(at)]);
        let ask = |m: &str, p: Value| guard(|| request(&self.svc.s, m, p));
        let mut v = ask(method, p)?;
        if method == "completion" {
            for item in v.as_array_mut().into_iter().flatten() {
                let rest = item["label"].as_str().unwrap_or_default().strip_prefix('$').map(|s| s.to_string());
                if rest.is_some() && item["insertText"].as_str() == rest.as_deref() {
                    item["insertText"] = "the label after the dollar sign".into();
                }
            }
        }
        let mut v = match method {
            "rename" => self.edited(&v, names)?,
            "codeAction" => {
                let mut actions = vec![];
                for a in v.as_array().into_iter().flatten() {
                    actions.push(Value::Array(vec![a["title"].clone(), a["kind"].clone(), self.edited(&a["edit"], names)?]));
                }
                actions.into()
            }
            "prepareCallHierarchy" => {
                let mut all = vec![self.norm(&v, names)];
                for item in v.as_array().into_iter().flatten() {
                    for m in ["incomingCalls", "outgoingCalls"] {
                        all.push(self.norm(&ask(m, serde_json::json!({ "item": item }))?, names));
                    }
                }
                all.into()
            }
            "hover" => {
                let mut v = self.norm(&v, names);
                if let Some(s) = v["contents"]["value"].as_str() {
                    // without documentation
                    v["contents"]["value"] = s.split("\n---\n").next().unwrap().to_string().into();
                }
                v
            }
            "semanticTokens/full" => {
                let (mut line, mut col) = (0, 0);
                let data: Vec<u64> = v["data"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()).collect();
                let mut all = vec![];
                for t in data.chunks(5) {
                    if t[0] > 0 {
                        (line, col) = (line + t[0], 0);
                    }
                    col += t[1];
                    let o = self.lines.off(Position::new(line as u32, col as u32)).ok_or("semantic token outside of the document")?;
                    if t[3] != COMMENT {
                        all.push(Value::from(format!("{} {}", self.first(o), t[3])));
                    }
                }
                all.into()
            }
            "selectionRange" => {
                let mut chain = vec![];
                let mut at = &v[0];
                while at.is_object() {
                    let r = self.norm(&at["range"], names);
                    if chain.last() != Some(&r) {
                        chain.push(r);
                    }
                    at = &at["parent"];
                }
                chain.into()
            }
            _ => self.norm(&v, names),
        };
        if method == "diagnostic" {
            sort_nested(&mut v);
        }
        Ok(v)
    }
    /// The significant tokens after an edit.
    fn edited(&self, v: &Value, names: &BTreeMap<String, String>) -> Result<Value, String> {
        if v["changes"].is_null() {
            return Ok(self.norm(v, names));
        }
        let mut edits = vec![];
        for (u, e) in v["changes"].as_object().into_iter().flatten() {
            if u != self.svc.uri.as_str() {
                return Err("edit of another document".into());
            }
            edits.extend(serde_json::from_value::<Vec<lsp_types::TextEdit>>(e.clone()).map_err(|e| e.to_string())?);
        }
        let out = self.lines.apply(&edits)?;
        let toks = lexer::significant(&out);
        Ok(toks.into_iter().map(|t| Value::from(renamed(t, names))).collect())
    }
}

fn sort_nested(v: &mut Value) {
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(sort_nested);
            a.sort_by_key(|v| v.to_string());
        }
        Value::Object(o) => o.values_mut().for_each(sort_nested),
        _ => {}
    }
}

fn renamed(s: &str, names: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('$') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let n = rest.find(|c| !lexer::is_idchar(c)).unwrap_or(rest.len());
        // messages put names in back quotes
        let n = if !names.contains_key(&rest[..n]) && rest[..n].ends_with('`') { n - 1 } else { n };
        out.push_str(names.get(&rest[..n]).map_or(&rest[..n], |s| s));
        rest = &rest[n..];
    }
    out.push_str(rest);
    out
}

fn corrupt(g: &mut G, toks: &mut Vec<Tok>) {
    for _ in 0..g.range(1, 3) {
        let (i, j) = (g.below(toks.len()), g.below(toks.len()));
        match g.below(4) {
            0 if toks.len() > 1 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(j, t);
            }
            2 => toks.swap(i, j),
            _ => toks[i] = toks[j].clone(),
        }
    }
}

fn c26(g: &mut G, case: &mut Case) -> Outcome {
    let mut cfg = bind_cfg(g);
    cfg.bind = false;
    cfg.undefined = g.chance(1, 3);
    cfg.duplicates = g.chance(1, 3);
    let mut toks = gen_doc(g, cfg).toks;
    if g.chance(1, 3) {
        corrupt(g, &mut toks);
        case.label("corrupted");
    } else {
        case.label("well-formed");
    }
    let mut names = BTreeMap::new();
    let mut other = toks.clone();
    let clash = toks.iter().any(|t| t.kind != K::IDENT && t.text.contains('$'));
    if g.chance(1, 2) && !clash {
        case.label("renamed");
        for t in &mut other {
            if t.kind == K::IDENT {
                let n = names.len();
                t.text = names.entry(t.text.clone()).or_insert_with(|| format!("$n{n}{}", ["", ".x", "yz"][g.below(3)])).clone();
            }
        }
    }
    let a = Side::new(g, toks)?;
    let b = Side::new(g, other)?;
    case.rendering = format!("{}\n==>\n{}", a.text.text, b.text.text);
    case.note(&case.rendering.clone());
    let none = BTreeMap::new();
    let mut answers = 0;
    let mut compare = |method: &'static str, at: (usize, usize), to: usize| -> Outcome {
        let (x, y) = (a.answer(method, at, to, &names)?, b.answer(method, at, to, &none)?);
        answers += usize::from(!matches!(&x, Value::Null) && x.as_array().map_or(true, |a| !a.is_empty()));
        if x == y {
            return Ok(());
        }
        Err(format!("{method} at token {} {:?} (to {to}): {x} here, {y} there", at.0, a.toks[at.0].text))
    };
    for method in ["diagnostic", "documentSymbol", "semanticTokens/full"] {
        compare(method, (0, 0), 0)?;
    }
    for _ in 0..g.range(2, 6) {
        let t = g.below(a.toks.len());
        let len = |s: &Side| s.text.spans[t].1 - s.text.spans[t].0;
        let apart = |s: &Side| {
            let (x, y) = s.text.spans[t];
            let blank = |c: Option<&u8>| c.is_some_and(|c| c.is_ascii_whitespace());
            blank(x.checked_sub(1).and_then(|x| s.text.text.as_bytes().get(x))) && blank(s.text.text.as_bytes().get(y))
        };
        let k = if a.toks[t].text == b.toks[t].text && a.toks[t].text.is_ascii() && len(&a) > 2 { g.range(1, len(&a) - 1) } else { 1 };
        let k = if len(&a) < 2 || len(&b) < 2 {
            if !apart(&a) || !apart(&b) {
                continue;
            }
            1
        } else {
            k
        };
        if !a.text.text.is_char_boundary(a.text.spans[t].0 + k) || !b.text.text.is_char_boundary(b.text.spans[t].0 + k) {
            continue;
        }
        let to = g.range(t, (t + 8).min(a.toks.len() - 1));
        for method in POSITION_METHODS.into_iter().chain(["codeAction", "inlayHint", "selectionRange"]) {
            compare(method, (t, k), to)?;
        }
    }
    case.nontrivial = a.toks.len() >= 20 && answers >= 3;
    Ok(())
}

/// The text with everything outside of the byte range replaced by blanks; all positions stay the same.
fn only(text: &str, from: usize, to: usize) -> String {
    let mut out = String::new();
    for (i, c) in text.char_indices() {
        if i >= from && i < to || c == '\n' {
            out.push(c);
        } else {
            out.extend(std::iter::repeat(' ').take(c.len_utf16()));
        }
    }
    out
}

fn items(method: &str, v: &Value) -> Vec<Value> {
    let v = match method {
        "diagnostic" => &v["items"],
        "semanticTokens/full" => {
            let (mut line, mut col) = (0, 0);
            let mut all = vec![];
            let data: Vec<u64> = v["data"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()).collect();
            for t in data.chunks(5) {
                if t[0] > 0 {
                    (line, col) = (line + t[0], 0);
                }
                col += t[1];
                if t[3] != COMMENT {
                    all.push(serde_json::json!([line, col, t[2], t[3]]));
                }
            }
            return all;
        }
        _ => v,
    };
    v.as_array().cloned().unwrap_or_default()
}

fn any_modules(g: &mut G, case: &mut Case) -> (Text, Vec<(usize, usize)>) {
    let mut cfg = bind_cfg(g);
    cfg.bind = false;
    cfg.max_modules = 3;
    cfg.max_fields = 6;
    cfg.undefined = g.chance(1, 3);
    cfg.duplicates = g.chance(1, 3);
    let doc = gen_doc(g, cfg);
    let mut toks = doc.toks.clone();
    if g.chance(1, 3) {
        case.label("misplaced words");
        for _ in 0..g.range(1, 8) {
            let i = g.below(toks.len());
            let j = g.below(toks.len());
            if toks[i].kind == toks[j].kind && toks[i].kind != K::KEYWORD {
                toks[i] = toks[j].clone();
            }
        }
    } else {
        case.label("well-formed");
    }
    let r = any_render(g);
    (render(g, &toks, &r), doc.modules)
}

/// Modules that differ in few words, so that most of their fields are the
/// same but may mean something else.
fn twin_modules(g: &mut G, case: &mut Case) -> (Text, Vec<(usize, usize)>) {
    case.label("twins");
    let first = small_module(g);
    let mut text = first.clone();
    let mut modules = vec![];
    let mut toks = 0;
    let mut ends = vec![text.len()];
    for _ in 0..g.range(1, 2) {
        let mut twin = first.clone();
        for _ in 0..g.range(1, 2) {
            replace_some_word(g, &mut twin, false);
        }
        text.push_str(*g.pick(&["\n", " ", ""]));
        text.push_str(&twin);
        ends.push(text.len());
    }
    let spans: Vec<(usize, usize)> = lexer::lex(&text)
        .iter()
        .filter(|l| l.kind != lexer::L::Ws)
        .map(|l| (l.start, l.end))
        .collect();
    for e in ends {
        let n = spans.partition_point(|s| s.1 <= e);
        modules.push((toks, n - 1));
        toks = n;
    }
    (Text { text, spans, comments: 0 }, modules)
}

fn c27(g: &mut G, case: &mut Case) -> Outcome {
    let (text, modules) = if g.chance(1, 4) { twin_modules(g, case) } else { any_modules(g, case) };
    case.rendering = text.text.clone();
    case.note(&text.text);
    let lines = Lines::new(&text.text);
    let whole = guard(|| Svc::new(&text.text))?;
    let mut answers = 0;
    let mut alone = vec![];
    for (first, last) in &modules {
        let part = only(&text.text, text.spans[*first].0, text.spans[*last].1);
        alone.push(guard(|| Svc::new(&part))?);
    }
    let any = Position::new(0, 0);
    for method in ["diagnostic", "documentSymbol", "foldingRange", "semanticTokens/full"] {
        let p = params(&whole.uri, any, Range::new(any, any), 0);
        let mut got = items(method, &guard(|| request(&whole.s, method, p.clone()))?);
        let mut want = vec![];
        for s in &alone {
            want.extend(items(method, &guard(|| request(&s.s, method, p.clone()))?));
        }
        match method {
            "diagnostic" => got.retain(|d| !d["message"].as_str().unwrap_or_default().contains("only one module")),
            // comments between the modules
            "foldingRange" => {
                got.retain(|f| f["kind"] != "comment");
                want.retain(|f| f["kind"] != "comment");
            }
            _ => {}
        }
        got.sort_by_key(|v| v.to_string());
        want.sort_by_key(|v| v.to_string());
        answers += usize::from(!got.is_empty());
        if got != want {
            let extra = got.iter().filter(|v| !want.contains(v)).map(|v| v.to_string()).collect::<Vec<_>>().join(", ");
            let missing = want.iter().filter(|v| !got.contains(v)).map(|v| v.to_string()).collect::<Vec<_>>().join(", ");
            return Err(format!("{method} of several modules: [{extra}] only together, [{missing}] only separately"));
        }
    }
    for _ in 0..g.range(2, 6) {
        let m = g.below(modules.len());
        let (first, last) = modules[m];
        let t = g.range(first, last);
        let (s, e) = text.spans[t];
        let mut o = g.range(s, e);
        while !text.text.is_char_boundary(o) {
            o -= 1;
        }
        if o == text.spans[first].0 || o == text.spans[last].1 {
            // may belong to the neighbour
            continue;
        }
        let p = lines.pos(o);
        let to = g.range(t, last.min(t + 9));
        let range = lines.range(s, text.spans[to].1);
        for method in POSITION_METHODS.into_iter().chain(["codeAction", "inlayHint", "selectionRange", "incomingCalls", "outgoingCalls"]) {
            let mut ps = params(&whole.uri, p, range, to as u32 / 2 * 4);
            ps["positions"] = serde_json::json!([p]);
            let ask = |s: &Svc| {
                guard(|| {
                    if method.ends_with("Calls") {
                        let items = request(&s.s, "prepareCallHierarchy", ps.clone());
                        let all = items.as_array().cloned().unwrap_or_default();
                        return all.into_iter().map(|i| request(&s.s, method, serde_json::json!({ "item": i }))).collect();
                    }
                    let mut v = request(&s.s, method, ps.clone());
                    if method == "selectionRange" {
                        // up to the module
                        let mut chain = vec![];
                        while v[0].is_object() {
                            chain.push(v[0]["range"].clone());
                            v = Value::Array(vec![v[0]["parent"].clone()]);
                        }
                        chain.pop();
                        return chain.into();
                    }
                    v
                })
            };
            let (x, y) = (ask(&whole)?, ask(&alone[m])?);
            answers += usize::from(!matches!(&x, Value::Null) && x.as_array().map_or(true, |a| !a.is_empty()));
            if x != y {
                return Err(format!("{method} at {}:{} (range {}): {x} with the other modules, {y} without", p.line, p.character, ps["range"]));
            }
        }
    }
    case.nontrivial = modules.len() >= 2 && modules.iter().all(|m| m.1 - m.0 >= 7) && answers >= 3;
    Ok(())
}

fn option(g: &mut G, o: &mut serde_json::Map<String, Value>, names: &[&str], v: Value) -> bool {
    if g.chance(1, 3) {
        return false;
    }
    o.insert(g.pick(names).to_string(), v);
    true
}

fn documented_defaults() -> FormatOptions {
    FormatOptions {
        layout: LayoutOptions { print_width: 80, indent_width: 2, line_break: LineBreak::Lf, use_tabs: false },
        language: LanguageOptions { format_comments: false, ignore_comment_directive: "fmt-ignore".into() },
    }
}

fn c28(g: &mut G, case: &mut Case) -> Outcome {
    let (text, class) = if g.chance(2, 3) {
        let doc = gen_doc(g, Cfg { max_modules: 2, ..Cfg::default() });
        let r = any_render(g);
        (render(g, &doc.toks, &r).text, "well-formed")
    } else {
        any_text(g, small())
    };
    case.label(class);
    case.rendering = text.clone();
    case.note(&text);
    let tokens = lexer::significant(&text).len();
    let lines = Lines::new(&text);

    // requests of an editor
    let svc = guard(|| Svc::new(&text))?;
    let (tab, spaces) = (if g.chance(1, 2) { g.range(1, 24) } else { *g.pick(&[2, 4, 8, 100, 3]) }, g.chance(2, 3));
    let options = FormatOptions {
        layout: LayoutOptions { indent_width: tab, use_tabs: !spaces, ..documented_defaults().layout },
        language: documented_defaults().language,
    };
    let (mut a, mut b) = (g.range(0, text.len()), g.range(0, text.len()));
    while !text.is_char_boundary(a) {
        a -= 1;
    }
    while !text.is_char_boundary(b) {
        b -= 1;
    }
    let (a, b) = (a.min(b), a.max(b));
    let mut p = params(&svc.uri, lines.pos(a), lines.range(a, b), 0);
    p["options"] = serde_json::json!({ "tabSize": tab, "insertSpaces": spaces });
    let ask = |m: &str| -> Result<Option<Vec<TextEdit>>, String> {
        serde_json::from_value(guard(|| request(&svc.s, m, p.clone()))?).map_err(|e| e.to_string())
    };
    let whole = fmt(&text, &options)?;
    let got = lines.apply(&ask("formatting")?.ok_or("no answer to a formatting request")?)?;
    if got != whole {
        return Err(format!("formatting request with tab size {tab}, spaces {spaces}: {got:?} instead of {whole:?}"));
    }
    let index = LineIndex::new(&text);
    let range = rowan::TextRange::new((a as u32).into(), (b as u32).into());
    let want = guard(|| wat_formatter::format_range(&root(&text), &options, range, &index))?;
    let want = want.map(|(new, r)| format!("{}{new}{}", &text[..r.start().into()], &text[usize::from(r.end())..]));
    let got = ask("rangeFormatting")?.map(|e| lines.apply(&e)).transpose()?;
    if got != want {
        return Err(format!("range formatting of {a}..{b} with tab size {tab}, spaces {spaces}: {got:?} instead of {want:?}"));
    }

    // options written as JSON
    let mut o = any_options(g);
    o.layout.print_width = g.range(1, 200);
    o.language.ignore_comment_directive = g.pick(&["fmt-ignore", "keep", "no fmt", ""]).to_string();
    let mut json = serde_json::Map::new();
    let default = documented_defaults();
    if !option(g, &mut json, &["print_width", "printWidth"], o.layout.print_width.into()) {
        o.layout.print_width = default.layout.print_width;
    }
    if !option(g, &mut json, &["indent_width", "indentWidth"], o.layout.indent_width.into()) {
        o.layout.indent_width = default.layout.indent_width;
    }
    let crlf = matches!(o.layout.line_break, LineBreak::Crlf);
    if !option(g, &mut json, &["line_break", "lineBreak", "linebreak"], if crlf { "crlf" } else { "lf" }.into()) {
        o.layout.line_break = default.layout.line_break.clone();
    }
    if !option(g, &mut json, &["use_tabs", "useTabs"], o.layout.use_tabs.into()) {
        o.layout.use_tabs = default.layout.use_tabs;
    }
    if !option(g, &mut json, &["format_comments", "formatComments"], o.language.format_comments.into()) {
        o.language.format_comments = default.language.format_comments;
    }
    let directive = o.language.ignore_comment_directive.clone();
    if !option(g, &mut json, &["ignore_comment_directive", "ignoreCommentDirective"], directive.into()) {
        o.language.ignore_comment_directive = default.language.ignore_comment_directive.clone();
    }
    let json = Value::Object(json);
    case.rendering = format!("{json}\n{text}");
    let read: FormatOptions = guard(|| serde_json::from_value(json.clone()))?.map_err(|e| format!("options {json} are not accepted: {e}"))?;
    if format!("{read:?}") != format!("{o:?}") {
        return Err(format!("options {json} are read as {read:?} instead of {o:?}"));
    }
    let written = serde_json::to_value(&o).map_err(|e| e.to_string())?;
    let again: FormatOptions = serde_json::from_value(written.clone()).map_err(|e| format!("written options {written} are not accepted: {e}"))?;
    if format!("{again:?}") != format!("{o:?}") {
        return Err(format!("options {o:?} are written as {written}"));
    }
    if fmt(&text, &read)? != fmt(&text, &o)? {
        return Err(format!("options {json} are not applied"));
    }
    case.nontrivial = tokens >= 20 && whole != text && format!("{o:?}") != format!("{default:?}");
    Ok(())
}
