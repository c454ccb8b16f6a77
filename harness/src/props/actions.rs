//! Code actions.

use super::service::{sample, Sample};
use crate::{
    engine::*,
    lexer::{self, L},
    lsp::*,
    wat::*,
};
use lsp_types::*;
use serde_json::{json, Value};
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "grammar-generated modules with comments and all layouts, memory arguments broken by whitespace; code actions asked at cursors and ranges, every offered edit applied and the result compared token by token; non-trivial: at least one action offered and applied",
        quick: 600_000,
        thorough: 4_000_000,
        run: c22,
        assumptions: &["no comments inside of broken memory arguments"],
    }]
}

#[derive(Debug)]
struct Group {
    kind: K,
    first: usize,
    last: usize,
    named: bool,
    types: Vec<usize>,
    /// index of the enclosing node
    parent: usize,
}
#[derive(Debug)]
struct Node {
    kind: K,
    first: usize,
    last: usize,
}

/// All nodes in pre-order with their token range (nodes without tokens are dropped).
fn nodes(doc: &Doc) -> (Vec<Node>, Vec<Group>) {
    let mut out: Vec<Node> = vec![];
    let mut groups: Vec<Group> = vec![];
    let mut stack: Vec<usize> = vec![];
    let mut group: Option<usize> = None;
    for e in &doc.evs {
        match e {
            Ev::Open(k) => {
                if matches!(k, K::PARAM | K::RESULT | K::LOCAL) {
                    groups.push(Group {
                        kind: *k,
                        first: usize::MAX,
                        last: 0,
                        named: false,
                        types: vec![],
                        parent: stack.last().copied().unwrap_or(0),
                    });
                    group = Some(groups.len() - 1);
                }
                out.push(Node {
                    kind: *k,
                    first: usize::MAX,
                    last: 0,
                });
                stack.push(out.len() - 1);
            }
            Ev::Close => {
                let n = stack.pop().expect("harness bug: unbalanced events");
                if let Some(gi) = group {
                    if out[n].kind == groups[gi].kind {
                        groups[gi].first = out[n].first;
                        groups[gi].last = out[n].last;
                        group = None;
                    }
                }
            }
            Ev::Tok(t) => {
                for n in &stack {
                    out[*n].first = out[*n].first.min(*t);
                    out[*n].last = out[*n].last.max(*t);
                }
                if let Some(gi) = group {
                    match doc.toks[*t].kind {
                        K::IDENT => groups[gi].named = true,
                        K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE => groups[gi].types.push(*t),
                        _ => {}
                    }
                }
            }
        }
    }
    (out, groups)
}

fn keyword(k: K) -> &'static str {
    match k {
        K::PARAM => "param",
        K::RESULT => "result",
        _ => "local",
    }
}

/// Expected action: title, and the token range that it replaces by which tokens.
#[derive(Debug)]
struct Want {
    title: String,
    first: usize,
    last: usize,
    tokens: Vec<String>,
}

fn wants(s: &Sample, nodes: &[Node], groups: &[Group], (start, end): (usize, usize)) -> Vec<Want> {
    let doc = &s.doc;
    let span = |first: usize, last: usize| (s.text.spans[first].0, s.text.spans[last].1);
    let mut out = vec![];
    for (i, n) in nodes.iter().enumerate() {
        if n.first == usize::MAX {
            continue;
        }
        let (a, b) = span(n.first, n.last);
        if !(a <= start && end <= b) {
            continue;
        }
        match n.kind {
            K::PARAM | K::RESULT | K::LOCAL => {
                let g = groups
                    .iter()
                    .find(|g| g.first == n.first && g.kind == n.kind)
                    .expect("harness bug: group");
                if g.types.len() < 2 {
                    continue;
                }
                let kw = keyword(n.kind);
                let mut tokens = vec![];
                for t in &g.types {
                    tokens.extend(["(".into(), kw.into(), doc.toks[*t].text.clone(), ")".into()]);
                }
                out.push(Want {
                    title: match n.kind {
                        K::PARAM => "Split parameters".into(),
                        K::RESULT => "Split results".into(),
                        _ => "Split locals".into(),
                    },
                    first: g.first,
                    last: g.last,
                    tokens,
                });
            }
            K::TYPE_USE | K::FUNC_TYPE => {
                let ok = |g: &&Group| {
                    let (a, b) = span(g.first, g.last);
                    g.kind == K::PARAM && !g.named && start <= a && b <= end
                };
                let run: Vec<&Group> = groups
                    .iter()
                    .filter(|g| g.parent == i)
                    .skip_while(|g| !ok(g))
                    .take_while(|g| ok(g))
                    .collect();
                let types: Vec<usize> = run.iter().flat_map(|g| g.types.iter().copied()).collect();
                if types.len() < 2 {
                    continue;
                }
                let mut tokens: Vec<String> = vec!["(".into(), "param".into()];
                tokens.extend(types.iter().map(|t| doc.toks[*t].text.clone()));
                tokens.push(")".into());
                out.push(Want {
                    title: "Join parameters".into(),
                    first: run[0].first,
                    last: run[run.len() - 1].last,
                    tokens,
                });
            }
            _ => {}
        }
    }
    out
}

fn offered(svc: &Svc, r: Range, only: Option<&[CodeActionKind]>) -> Result<Vec<CodeAction>, String> {
    let mut ctx = json!({"diagnostics": []});
    if let Some(o) = only {
        ctx["only"] = serde_json::to_value(o).unwrap();
    }
    let v = guard(|| {
        request(
            &svc.s,
            "codeAction",
            json!({"textDocument": {"uri": svc.uri.as_str()}, "range": r, "context": ctx}),
        )
    })?;
    if v == Value::Null {
        return Ok(vec![]);
    }
    let list: Vec<CodeActionOrCommand> = serde_json::from_value(v).map_err(|e| e.to_string())?;
    if list.is_empty() {
        return Err("an empty list instead of no actions".into());
    }
    list.into_iter()
        .map(|a| match a {
            CodeActionOrCommand::CodeAction(a) => Ok(a),
            CodeActionOrCommand::Command(c) => Err(format!("unexpected command {c:?}")),
        })
        .collect()
}

fn apply(svc: &Svc, lines: &Lines, a: &CodeAction) -> Result<String, String> {
    let e = a.edit.as_ref().ok_or("action without an edit")?;
    if e.document_changes.is_some() {
        return Err("unexpected document_changes".into());
    }
    let c = e.changes.as_ref().ok_or("action without changes")?;
    if c.len() != 1 || !c.contains_key(&svc.uri) {
        return Err("edit in another document".into());
    }
    lines.apply(&c[&svc.uri])
}

/// Significant tokens and comments without the parentheses and keywords that
/// splitting and joining insert and remove.
fn bare(text: &str) -> Vec<String> {
    lexer::with_comments(text)
        .into_iter()
        .filter(|(_, t)| !matches!(*t, "(" | ")" | "param" | "result" | "local"))
        .map(|(l, t)| match l {
            // the line break is not a part of the comment
            L::LineComment => t.trim_end_matches('\r').to_string(),
            _ => t.to_string(),
        })
        .collect()
}

fn syntax_errors(svc: &Svc) -> Result<usize, String> {
    Ok(svc
        .diagnostics()?
        .iter()
        .filter(|d| d.message.starts_with("syntax error"))
        .count())
}

fn c22(g: &mut G, case: &mut Case) -> Outcome {
    let mut cfg = bind_cfg(g);
    cfg.bind = false;
    if g.chance(2, 3) {
        cfg.named = 25;
    }
    let s = sample(g, case, cfg)?;
    if g.chance(1, 4) {
        return fix_mem_arg(g, case, &s);
    }
    let (nodes, groups) = nodes(&s.doc);
    if s.doc.toks.is_empty() {
        return Ok(());
    }
    for _ in 0..g.range(2, 6) {
        let (start, end) = match g.below(4) {
            // around tokens of some group and its neighbours
            0 | 1 if !groups.is_empty() => {
                let a = g.below(groups.len());
                let ga = &groups[a];
                if g.chance(1, 2) {
                    let t1 = g.range(ga.first, ga.last);
                    let t2 = g.range(t1, ga.last);
                    (s.text.spans[t1].0, s.text.spans[t2].1)
                } else {
                    // groups of the same node
                    let sib: Vec<usize> = (a..groups.len()).filter(|i| groups[*i].parent == ga.parent).collect();
                    let b = *g.pick(&sib);
                    (s.text.spans[ga.first].0, s.text.spans[groups[b].last].1)
                }
            }
            2 if !groups.is_empty() => {
                // a whole header
                let p = &nodes[groups[g.below(groups.len())].parent];
                (s.text.spans[p.first].0, s.text.spans[p.last].1)
            }
            _ => {
                let t1 = g.below(s.doc.toks.len());
                let t2 = g.range(t1, (t1 + 12).min(s.doc.toks.len() - 1));
                (s.text.spans[t1].0, s.text.spans[t2].1)
            }
        };
        // sometimes a cursor inside of the first token
        let (start, end) = {
            let t = s.text.spans.iter().find(|x| x.0 == start).unwrap();
            let mid = t.0 + 1;
            if t.1 - t.0 >= 2 && s.text.text.is_char_boundary(mid) && g.chance(1, 3) {
                (mid, mid)
            } else {
                (start, end)
            }
        };
        let range = s.lines.range(start, end);
        let want = wants(&s, &nodes, &groups, (start, end));
        let (only, rewrites): (Option<Vec<CodeActionKind>>, bool) = match g.below(8) {
            0 => (Some(vec![CodeActionKind::REFACTOR_REWRITE]), true),
            1 => (Some(vec![CodeActionKind::QUICKFIX]), false),
            2 => (Some(vec![CodeActionKind::SOURCE, CodeActionKind::REFACTOR]), true),
            3 => (
                Some(vec![CodeActionKind::QUICKFIX, CodeActionKind::REFACTOR_REWRITE]),
                true,
            ),
            4 => (Some(vec![CodeActionKind::REFACTOR_EXTRACT]), false),
            _ => (None, true),
        };
        let got = offered(&s.svc, range, only.as_deref())?;
        let place = format!("{}:{}-{}:{}", range.start.line, range.start.character, range.end.line, range.end.character);
        let titles = |l: Vec<&str>| {
            let mut l: Vec<String> = l.into_iter().map(Into::into).collect();
            l.sort();
            l
        };
        let want_titles = titles(if rewrites { want.iter().map(|w| w.title.as_str()).collect() } else { vec![] });
        let got_titles = titles(got.iter().map(|a| a.title.as_str()).collect());
        if want_titles != got_titles {
            return Err(format!(
                "actions offered at {place} (only {only:?}): {got_titles:?} instead of {want_titles:?}"
            ));
        }
        for a in &got {
            case.nontrivial = true;
            if a.kind != Some(CodeActionKind::REFACTOR_REWRITE) {
                return Err(format!("kind of {:?} is {:?}", a.title, a.kind));
            }
            let after = apply(&s.svc, &s.lines, a)?;
            // nested groups of one title do not exist, so the title tells the place
            let w = want.iter().find(|w| w.title == a.title).unwrap();
            case.label(match w.title.as_str() {
                "Split parameters" => "split parameters",
                "Split results" => "split results",
                "Split locals" => "split locals",
                _ => "join parameters",
            });
            let mut tokens: Vec<String> = s.doc.toks[..w.first].iter().map(|t| t.text.clone()).collect();
            tokens.extend(w.tokens.iter().cloned());
            tokens.extend(s.doc.toks[w.last + 1..].iter().map(|t| t.text.clone()));
            let now: Vec<String> = lexer::significant(&after).iter().map(|t| t.to_string()).collect();
            if now != tokens {
                let i = (0..).find(|i| now.get(*i) != tokens.get(*i)).unwrap();
                return Err(format!(
                    "{:?} at {place}: token {i} is {:?} instead of {:?}; result:\n{after}",
                    a.title,
                    now.get(i),
                    tokens.get(i)
                ));
            }
            let (x, y) = (bare(&s.text.text), bare(&after));
            if x != y {
                let i = (0..).find(|i| x.get(*i) != y.get(*i)).unwrap();
                return Err(format!(
                    "{:?} at {place}: comments or tokens moved: {:?} instead of {:?}; result:\n{after}",
                    a.title,
                    y.get(i),
                    x.get(i)
                ));
            }
            // the text outside is untouched
            let (b, e) = (s.text.spans[w.first].0, s.text.text.len() - s.text.spans[w.last].1);
            if !after.starts_with(&s.text.text[..b]) || !after.ends_with(&s.text.text[s.text.text.len() - e..]) {
                return Err(format!("{:?} at {place} changes text elsewhere; result:\n{after}", a.title));
            }
            let n = syntax_errors(&Svc::new(&after))?;
            if n > 0 {
                return Err(format!("{:?} at {place} leaves {n} syntax errors; result:\n{after}", a.title));
            }
        }
    }
    Ok(())
}

/// Memory arguments written with whitespace around `=`.
fn fix_mem_arg(g: &mut G, case: &mut Case, s: &Sample) -> Outcome {
    let doc = &s.doc;
    let (nodes, _) = nodes(doc);
    let owner = |t: usize| {
        nodes
            .iter()
            .filter(|n| n.kind == K::PLAIN_INSTR && n.first <= t && t <= n.last && n.first != usize::MAX)
            .last()
            .map(|n| (n.first, n.last))
            .expect("harness bug: memory argument outside of an instruction")
    };
    // in flat code the rest of a broken argument reads as other instructions
    let args: Vec<usize> = (0..doc.toks.len())
        .filter(|t| doc.toks[*t].kind == K::MEM_ARG && doc.toks[owner(*t).0].kind == K::L_PAREN)
        .collect();
    if args.is_empty() {
        return Ok(());
    }
    let target = *g.pick(&args);
    let (first, last) = owner(target);
    let mut text = s.text.text.clone();
    if g.chance(1, 4) {
        // nothing that could become a memory argument
        let (a, b) = s.text.spans[target];
        let name = doc.toks[target].text.split_once('=').expect("harness bug: memory argument").0;
        let value = *g.pick(&["$x", "+8", "-1", "1.5", "nan", "\"8\"", "x", "8x", "0x", "1_", "(nop)"]);
        let sep = *g.pick(&[" =", "= ", " = ", "\n=\n"]);
        text.replace_range(a..b, &format!("{name}{sep}{value}"));
        case.rendering = text.clone();
        case.label("broken memory argument without number");
        case.nontrivial = true;
        let name = (first..=last).find(|t| doc.toks[*t].kind == K::INSTR_NAME).unwrap();
        let (a, b) = s.text.spans[name];
        let svc = guard(|| Svc::new(&text))?;
        let got = offered(&svc, Lines::new(&text).range(a, b), None)?;
        if got.iter().any(|a| a.title == "Fix invalid memory argument") {
            return Err(format!("a fix is offered for a memory argument without a number; text:\n{text}"));
        }
        return Ok(());
    }
    let mut broken = 0;
    for t in args.iter().rev().filter(|t| owner(**t) == (first, last)) {
        if *t != target && g.chance(1, 2) {
            continue;
        }
        let (a, b) = s.text.spans[*t];
        let (name, value) = doc.toks[*t].text.split_once('=').expect("harness bug: memory argument");
        let mut ws = || *g.pick(&[" ", "  ", "\t", "\n", "\r\n  "]);
        let (w1, w2) = (ws(), ws());
        let new = match g.below(3) {
            0 => format!("{name}{w1}={value}"),
            1 => format!("{name}={w2}{value}"),
            _ => format!("{name}{w1}={w2}{value}"),
        };
        text.replace_range(a..b, &new);
        broken += 1;
    }
    case.rendering = text.clone();
    case.label("broken memory argument");
    // the instruction starts at the same place
    let name = (first..=last).find(|t| doc.toks[*t].kind == K::INSTR_NAME).unwrap();
    let (a, b) = s.text.spans[name];
    let want: Vec<&str> = lexer::significant(&s.text.text);
    let comments = bare(&s.text.text);
    let mut svc = guard(|| Svc::new(&text))?;
    if syntax_errors(&svc)? == 0 {
        return Err("a broken memory argument is accepted".into());
    }
    for step in 0.. {
        let lines = Lines::new(&text);
        let r = if g.chance(1, 2) {
            lines.range(a + 1, a + 1)
        } else {
            lines.range(a, b)
        };
        if g.chance(1, 6) {
            let got = offered(&svc, r, Some(&[CodeActionKind::REFACTOR]))?;
            if got.iter().any(|a| a.title == "Fix invalid memory argument") {
                return Err("a quick fix is offered when only refactors are requested".into());
            }
        }
        let only = [CodeActionKind::QUICKFIX];
        let got = offered(&svc, r, if g.chance(1, 2) { Some(&only) } else { None })?;
        let Some(fix) = got.iter().find(|a| a.title == "Fix invalid memory argument") else {
            if step < broken {
                return Err(format!("no fix offered after {step} of {broken} fixes; text:\n{text}"));
            }
            break;
        };
        if step >= broken {
            return Err(format!("a fix is offered although nothing is broken; text:\n{text}"));
        }
        if fix.kind != Some(CodeActionKind::QUICKFIX) {
            return Err(format!("kind of the fix is {:?}", fix.kind));
        }
        case.nontrivial = true;
        text = apply(&svc, &lines, fix)?;
        svc = guard(|| Svc::new(&text))?;
    }
    let now = lexer::significant(&text);
    if now != want {
        let i = (0..).find(|i| now.get(*i) != want.get(*i)).unwrap();
        return Err(format!(
            "fixed memory argument: token {i} is {:?} instead of {:?}; text:\n{text}",
            now.get(i),
            want.get(i)
        ));
    }
    if bare(&text) != comments {
        return Err(format!("the fix loses comments; text:\n{text}"));
    }
    let n = syntax_errors(&svc)?;
    if n > 0 {
        return Err(format!("{n} syntax errors after all fixes; text:\n{text}"));
    }
    Ok(())
}
