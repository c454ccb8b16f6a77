//! Completion.

use super::service::{in_instr, sample, Sample};
use crate::{engine::*, instrs, lsp::*, wat::*};
use lsp_types::*;
use serde_json::{json, Value};
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "grammar-generated modules; completion asked at references (complete or cut down to a prefix) and at keywords, instruction names and types of which only a prefix is typed; non-trivial: at least one reference with 2 definitions in scope and one keyword",
        quick: 200_000,
        thorough: 2_500_000,
        run: c23,
        assumptions: &[
            "names are not duplicated within one index space",
            "numbers offered for unnamed definitions are judged only where the module-wide numbering equals the index space (known finding)",
            "words that the service documents no completion for (see DESIGN.md) are not judged",
        ],
    }]
}

fn complete(svc: &Svc, p: Position) -> Result<Vec<CompletionItem>, String> {
    let v = guard(|| {
        request(
            &svc.s,
            "completion",
            json!({"textDocument": {"uri": svc.uri.as_str()}, "position": p}),
        )
    })?;
    if v == Value::Null {
        return Ok(vec![]);
    }
    serde_json::from_value(v).map_err(|e| e.to_string())
}

/// Service on the text whose token `t` is replaced, and the position behind it.
fn replaced(s: &Sample, t: usize, new: &str) -> Result<(Svc, Position), String> {
    let (a, b) = s.text.spans[t];
    let mut text = s.text.text.clone();
    text.replace_range(a..b, new);
    let p = Lines::new(&text).pos(a + new.len());
    Ok((guard(|| Svc::new(&text))?, p))
}

/// A non-empty prefix of a token.
fn prefix<'t>(g: &mut G, t: &'t str) -> &'t str {
    let mut k = 1 + g.below(t.len());
    while !t.is_char_boundary(k) {
        k += 1;
    }
    &t[..k]
}

/// What may be written at a reference: (definition, number).
fn in_scope(doc: &Doc, r: &Ref) -> Vec<(usize, String)> {
    match r.space {
        Space::Label => r
            .scope_labels
            .iter()
            .rev()
            .enumerate()
            .map(|(n, d)| (*d, n.to_string()))
            .collect(),
        _ => doc
            .defs
            .iter()
            .enumerate()
            .filter(|(_, d)| d.space == r.space && d.module == r.module && (r.space != Space::Local || d.func == r.func))
            .map(|(i, d)| (i, d.index.to_string()))
            .collect(),
    }
}

fn kind_of(space: Space) -> CompletionItemKind {
    match space {
        Space::Func => CompletionItemKind::FUNCTION,
        Space::Type => CompletionItemKind::INTERFACE,
        _ => CompletionItemKind::VARIABLE,
    }
}

fn number_unknown(d: &Def) -> bool {
    d.name.is_none() && !matches!(d.space, Space::Local | Space::Label) && d.shared != d.index
}

fn references(g: &mut G, s: &Sample, case: &mut Case, r: usize) -> Outcome {
    let doc = &s.doc;
    let rf = &doc.refs[r];
    // neither the table of `call_indirect` nor the rest is completed
    if rf.site == "call_indirect" {
        return Ok(());
    }
    let full = doc.toks[rf.tok].text.as_str();
    let mut lone = false;
    let typed = match g.below(4) {
        0 => prefix(g, full),
        1 => {
            // only completed in folded instructions
            let t = rf.tok;
            if full.starts_with('$') && in_instr(rf.site) && doc.toks[t - 1].kind == K::INSTR_NAME && doc.toks[t - 2].text == "(" {
                case.label("lone $");
                lone = true;
                &full[..1]
            } else {
                full
            }
        }
        _ => full,
    };
    if !typed.starts_with('$') && typed.ends_with(['x', '_']) || typed == "$" && !lone {
        // not tokens
        return Ok(());
    }
    let (svc, p) = replaced(s, rf.tok, typed)?;
    let dollar = typed.starts_with('$');
    let at = || format!("{} {typed:?} at {}:{}", rf.site, p.line, p.character);
    let items = complete(&svc, p)?;
    let scope = in_scope(doc, rf);
    let mut got: Vec<&CompletionItem> = items
        .iter()
        .filter(|i| {
            matches!(
                i.kind,
                Some(CompletionItemKind::FUNCTION | CompletionItemKind::INTERFACE | CompletionItemKind::VARIABLE)
            )
        })
        .collect();
    case.label(rf.site);
    case.nontrivial |= scope.len() >= 2;
    let mut accepted = vec![];
    for (d, number) in &scope {
        let def = &doc.defs[*d];
        if dollar && def.name.is_none() {
            continue;
        }
        let label = def.name.clone().unwrap_or(number.clone());
        let wanted = |i: &CompletionItem| {
            i.kind == Some(kind_of(rf.space))
                && if number_unknown(def) { i.label.parse::<u32>().is_ok() } else { i.label == label }
        };
        let Some(k) = got.iter().position(|i| wanted(i)) else {
            return Err(format!(
                "{}: {label} is in scope but not offered; offered: {:?}",
                at(),
                items.iter().map(|i| &i.label).collect::<Vec<_>>()
            ));
        };
        let item = got.remove(k);
        let text = item.insert_text.as_deref().unwrap_or(&item.label);
        // `$` is not part of the word that editors replace
        let text = if dollar { format!("${text}") } else { text.to_string() };
        if text != item.label {
            return Err(format!("{}: {} inserts {text:?}", at(), item.label));
        }
        let details = item.label_details.as_ref().and_then(|l| l.description.as_deref());
        match (rf.space, def.ty) {
            (Space::Local, Some(ty)) => {
                if details != Some(ty.text()) {
                    return Err(format!("{}: type of {label} is {}, shown {details:?}", at(), ty.text()));
                }
            }
            (Space::Global, Some(ty)) => {
                let shown = details.unwrap_or_default();
                if !(shown == ty.text() || shown == format!("(mut {})", ty.text())) {
                    return Err(format!("{}: type of {label} is {}, shown {details:?}", at(), ty.text()));
                }
            }
            _ => {}
        }
        if !number_unknown(def) {
            accepted.push((*d, text));
        }
    }
    if let Some(i) = got.first() {
        return Err(format!("{}: {} is offered but not in scope", at(), i.label));
    }
    if let Some(i) = items.iter().find(|i| {
        matches!(
            i.kind,
            Some(CompletionItemKind::KEYWORD | CompletionItemKind::OPERATOR | CompletionItemKind::CLASS)
        )
    }) {
        return Err(format!("{}: {} cannot be written there", at(), i.label));
    }
    // accepting an item makes a reference to the definition
    if accepted.is_empty() {
        return Ok(());
    }
    let (d, text) = g.pick(&accepted).clone();
    let shadowed = rf.space == Space::Label
        && scope.iter().take_while(|(o, _)| *o != d).any(|(o, _)| doc.defs[*o].name.is_some() && doc.defs[*o].name == doc.defs[d].name);
    let numeric_elem = matches!(rf.site, "elem" | "table use" | "export global") && !text.starts_with('$');
    if shadowed || numeric_elem {
        return Ok(());
    }
    let (svc, p) = replaced(s, rf.tok, &text)?;
    let target = svc.definition(p)?;
    // definitions keep their place before the reference, else they move
    let (a, b) = s.text.spans[rf.tok];
    let delta = text.len() as isize - (b - a) as isize;
    let sp = doc.def_span(&s.text, d);
    let moved = |o: usize| if o > a { (o as isize + delta) as usize } else { o };
    let want = moved(sp.0)..moved(sp.1);
    let mut new = s.text.text.clone();
    new.replace_range(a..b, &text);
    let lines = Lines::new(&new);
    let want = lines.range(want.start, want.end);
    if target != [want] {
        return Err(format!(
            "{}: accepting {text} refers to {target:?} instead of {want:?}",
            at()
        ));
    }
    case.label("accepted");
    Ok(())
}

/// Is the word one that is offered at its place?
fn offered(doc: &Doc, stack: &[K], t: usize) -> bool {
    let tok = &doc.toks[t];
    let up = |n: usize| stack.get(stack.len().wrapping_sub(n)).copied();
    let (parent, grand) = (up(1), up(2));
    match tok.kind {
        K::INSTR_NAME => mvp(&tok.text),
        K::NUM_TYPE | K::VEC_TYPE => matches!(parent, Some(K::PARAM | K::RESULT | K::LOCAL | K::GLOBAL_TYPE)) && !in_block_type(stack),
        K::REF_TYPE => match parent {
            Some(K::PARAM | K::RESULT | K::LOCAL | K::GLOBAL_TYPE) => !in_block_type(stack),
            Some(K::TABLE_TYPE | K::MODULE_FIELD_TABLE) => true,
            _ => false,
        },
        K::KEYWORD => match tok.text.as_str() {
            "module" | "import" | "export" | "mut" | "start" | "local" | "data" | "offset" | "block" | "loop" | "if"
            | "else" | "end" | "global" => true,
            "func" | "memory" | "table" | "elem" => true,
            "type" => parent != Some(K::TYPE_USE) || grand == Some(K::MODULE_FIELD_FUNC),
            "param" | "result" => {
                (up(2) == Some(K::FUNC_TYPE))
                    || (up(2) == Some(K::TYPE_USE) && up(3) == Some(K::MODULE_FIELD_FUNC))
            }
            _ => false,
        },
        _ => false,
    }
}

fn in_block_type(stack: &[K]) -> bool {
    stack.contains(&K::BLOCK_TYPE)
}

/// Instructions of the first version of the specification.
fn mvp(name: &str) -> bool {
    if matches!(
        name,
        "unreachable" | "nop" | "block" | "loop" | "if" | "else" | "end" | "br" | "br_if" | "br_table" | "return"
            | "call" | "call_indirect" | "drop" | "select" | "local.get" | "local.set" | "local.tee" | "global.get"
            | "global.set" | "i32.const" | "i64.const" | "f32.const" | "f64.const" | "memory.size" | "memory.grow"
    ) {
        return true;
    }
    instrs::ALL.iter().any(|o| {
        o.name == name
            && u32::from_str_radix(o.opcode.trim_start_matches("0x"), 16)
                .is_ok_and(|c| (0x28..=0x3E).contains(&c) || (0x45..=0xBF).contains(&c))
    })
}

fn in_code(stack: &[K]) -> bool {
    stack
        .iter()
        .any(|k| matches!(k, K::PLAIN_INSTR | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF))
}

const FIELDS: &[&str] = &["data", "elem", "export", "func", "global", "import", "memory", "start", "table", "type"];
const CLAUSES: &[&str] = &["type", "param", "result", "local", "import", "export"];

/// What the format allows instead of a keyword, instruction or type
/// (type of item, words), where that can be told from the place alone.
fn allowed(doc: &Doc, stacks: &[Vec<K>], t: usize) -> Vec<(CompletionItemKind, &'static [&'static str])> {
    use CompletionItemKind as C;
    let tok = &doc.toks[t];
    let stack = &stacks[t];
    let up = |n: usize| stack.get(stack.len().wrapping_sub(n)).copied();
    let behind_paren = t > 0 && doc.toks[t - 1].text == "(";
    match (tok.kind, up(1), up(2)) {
        (K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE, Some(K::PARAM | K::RESULT | K::LOCAL | K::GLOBAL_TYPE), _) => vec![(C::CLASS, &[])],
        (K::REF_TYPE, ..) => vec![(C::CLASS, &["funcref", "externref"])],
        (K::INSTR_NAME, _, Some(K::MODULE_FIELD_FUNC)) if behind_paren && !in_code(&stacks[t - 2]) => {
            vec![(C::OPERATOR, &[]), (C::KEYWORD, CLAUSES)]
        }
        (K::INSTR_NAME, _, Some(K::OFFSET)) => vec![(C::OPERATOR, &[]), (C::KEYWORD, &["offset", "item", "memory", "table"])],
        (K::INSTR_NAME, _, Some(K::ELEM_EXPR)) => vec![(C::OPERATOR, &[]), (C::KEYWORD, &["item"])],
        (K::INSTR_NAME, ..) => vec![(C::OPERATOR, &[])],
        (K::KEYWORD, Some(K::PARAM | K::RESULT | K::LOCAL | K::IMPORT | K::EXPORT), _) if stack.contains(&K::MODULE_FIELD_FUNC) => {
            vec![(C::OPERATOR, &[]), (C::KEYWORD, CLAUSES)]
        }
        (K::KEYWORD, Some(K::PARAM | K::RESULT), _) if stack.contains(&K::MODULE_FIELD_TYPE) => vec![(C::KEYWORD, &["param", "result"])],
        (K::KEYWORD, Some(K::PARAM | K::RESULT), _) if stack.contains(&K::MODULE_FIELD_IMPORT) => {
            vec![(C::KEYWORD, &["param", "result", "type"])]
        }
        (K::KEYWORD, Some(K::IMPORT | K::EXPORT | K::DATA | K::ELEM | K::GLOBAL_TYPE), Some(f)) => match f {
            K::MODULE_FIELD_MEMORY => vec![(C::KEYWORD, &["import", "export", "data"])],
            K::MODULE_FIELD_TABLE => vec![(C::KEYWORD, &["import", "export", "elem"])],
            K::MODULE_FIELD_GLOBAL => vec![(C::KEYWORD, &["import", "export", "mut"])],
            _ => vec![],
        },
        (
            K::KEYWORD,
            Some(
                K::EXPORT_DESC_FUNC
                | K::EXPORT_DESC_GLOBAL
                | K::EXPORT_DESC_MEMORY
                | K::EXPORT_DESC_TABLE
                | K::IMPORT_DESC_TYPE_USE
                | K::IMPORT_DESC_GLOBAL_TYPE
                | K::IMPORT_DESC_MEMORY_TYPE
                | K::IMPORT_DESC_TABLE_TYPE,
            ),
            _,
        ) => vec![(C::KEYWORD, &["func", "global", "memory", "table"])],
        (K::KEYWORD, _, Some(K::MODULE_FIELD_TYPE)) => vec![(C::KEYWORD, &["func"])],
        (K::KEYWORD, Some(K::MODULE), _) => vec![(C::KEYWORD, &["module"])],
        (K::KEYWORD, _, Some(K::MODULE)) => vec![(C::KEYWORD, FIELDS)],
        _ => vec![],
    }
}

/// Is there a table use before the token in the same field?
fn after_table_use(doc: &Doc, stacks: &[Vec<K>], t: usize) -> bool {
    (0..t)
        .rev()
        .take_while(|i| !matches!(doc.toks[*i].text.as_str(), "elem"))
        .any(|i| stacks[i].contains(&K::TABLE_USE))
}

fn words(g: &mut G, s: &Sample, case: &mut Case, stacks: &[Vec<K>]) -> Outcome {
    let t = g.below(s.doc.toks.len());
    if !offered(&s.doc, &stacks[t], t) {
        return Ok(());
    }
    let full = s.doc.toks[t].text.as_str();
    // something is still missing
    let mut typed = prefix(g, &full[..full.len() - 1]);
    if typed == "local" {
        // a clause of the header
        return Ok(());
    }
    let (svc, p) = if t > 0 && s.doc.toks[t - 1].text == "(" && (s.doc.toks[t].kind == K::KEYWORD && !in_code(&stacks[t]) || stacks[t].ends_with(&[K::MODULE_FIELD_FUNC, K::PLAIN_INSTR])) && g.chance(1, 3) {
        // just a pair of parentheses
        case.label("empty parentheses");
        typed = "";
        let mut depth = 0;
        let close = (t - 1..s.doc.toks.len()).find(|i| {
            match s.doc.toks[*i].text.as_str() {
                "(" => depth += 1,
                ")" => depth -= 1,
                _ => {}
            }
            depth == 0
        });
        let (a, b) = (s.text.spans[t - 1].1, s.text.spans[close.unwrap()].0);
        let mut text = s.text.text.clone();
        text.replace_range(a..b, "");
        let p = Lines::new(&text).pos(a);
        (guard(|| Svc::new(&text))?, p)
    } else {
        replaced(s, t, typed)?
    };
    let items = complete(&svc, p)?;
    case.label(match s.doc.toks[t].kind {
        K::KEYWORD => "keyword",
        K::INSTR_NAME => "instruction",
        _ => "type",
    });
    let Some(item) = items.iter().find(|i| i.label == full) else {
        return Err(format!(
            "{typed:?} at {}:{}: {full} ({:?}) is not offered; offered: {:?}",
            p.line,
            p.character,
            stacks[t].last(),
            items.iter().map(|i| &i.label).take(20).collect::<Vec<_>>()
        ));
    };
    if item.insert_text.as_deref().is_some_and(|i| i != full) {
        return Err(format!("{full} inserts {:?}", item.insert_text));
    }
    let allowed = allowed(&s.doc, stacks, t);
    if !allowed.is_empty() {
        if let Some(i) = items
            .iter()
            .find(|i| {
                let twice = s.doc.toks[t].kind == K::INSTR_NAME
                    && stacks[t].contains(&K::MODULE_FIELD_ELEM)
                    && i.label == "table"
                    && i.kind == Some(CompletionItemKind::KEYWORD)
                    && after_table_use(&s.doc, stacks, t);
                twice || !allowed.iter().any(|(k, w)| i.kind == Some(*k) && (w.is_empty() || w.contains(&i.label.as_str())))
            })
        {
            return Err(format!(
                "{typed:?} at {}:{}: {} ({:?}) cannot be written instead of {full} ({:?})",
                p.line,
                p.character,
                i.label,
                i.kind,
                &stacks[t]
            ));
        }
    }
    Ok(())
}

/// Operands that refer to no definition: constants, segments, lanes, memory arguments.
fn operands(g: &mut G, s: &Sample, case: &mut Case, stacks: &[Vec<K>]) -> Outcome {
    let doc = &s.doc;
    let all: Vec<usize> = (0..doc.toks.len())
        .filter(|t| stacks[*t].ends_with(&[K::PLAIN_INSTR, K::OPERAND]) && !doc.refs.iter().any(|r| r.tok == *t))
        .collect();
    if all.is_empty() {
        return Ok(());
    }
    let t = *g.pick(&all);
    let tok = &doc.toks[t];
    let Some(n) = (0..t).rev().find(|n| doc.toks[*n].kind == K::INSTR_NAME) else {
        return Ok(());
    };
    let instr = doc.toks[n].text.as_str();
    if !matches!(tok.kind, K::INT | K::FLOAT | K::UNSIGNED_INT | K::MEM_ARG | K::HEAP_TYPE) || instr == "call_indirect" {
        return Ok(());
    }
    let mut typed = tok.text.as_str();
    // words that are no operands belong to the instruction only between its parentheses
    let mem = tok.kind == K::MEM_ARG;
    if mem && doc.toks[n - 1].text == "(" && g.chance(1, 2) {
        case.label("part of a memory argument");
        typed = prefix(g, &typed[..typed.find('=').unwrap()]);
    }
    let (svc, p) = replaced(s, t, typed)?;
    let mut items: Vec<String> = complete(&svc, p)?.into_iter().map(|i| i.label).collect();
    case.label(if mem { "memory argument" } else { "other operand" });
    let access = instr.split('.').nth(1).is_some_and(|i| i.starts_with("load") || i.starts_with("store"));
    let wanted: &[&str] = if access { &["align=", "offset="] } else { &[] };
    items.sort();
    if items != wanted {
        return Err(format!(
            "{instr} {typed:?} at {}:{}: offered {:?} instead of {wanted:?}",
            p.line,
            p.character,
            items.iter().take(20).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

fn c23(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        undefined: g.chance(1, 4),
        ..bind_cfg(g)
    };
    let s = sample(g, case, cfg)?;
    if s.doc.toks.is_empty() {
        return Ok(());
    }
    let mut stacks = vec![];
    let mut stack = vec![];
    for e in &s.doc.evs {
        match e {
            Ev::Open(k) => stack.push(*k),
            Ev::Close => {
                stack.pop();
            }
            Ev::Tok(_) => stacks.push(stack.clone()),
        }
    }
    if !s.doc.refs.is_empty() {
        for _ in 0..4 {
            let r = g.below(s.doc.refs.len());
            references(g, &s, case, r)?;
        }
    }
    for _ in 0..4 {
        words(g, &s, case, &stacks)?;
    }
    operands(g, &s, case, &stacks)?;
    Ok(())
}
