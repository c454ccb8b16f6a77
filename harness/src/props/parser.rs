use crate::{
    engine::*,
    lexer,
    lsp::*,
    mutate::{any_text, small},
    wat::*,
};
use std::collections::BTreeSet;
use wat_parser::Parser;
use wat_syntax::{SyntaxKind as K, SyntaxNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "valid modules, token- and character-level corruptions of them, raw garbage; non-trivial: at least 8 tokens and (a syntax error or a comment)",
            quick: 1_200_000,
            thorough: 20_000_000,
            run: c01,
            assumptions: &["nesting depth of generated text is bounded"],
        },
        Prop {
            id: "C02",
            rule: "grammar-generated modules; non-trivial: at least 20 tokens",
            quick: 1_200_000,
            thorough: 20_000_000,
            run: c02,
            assumptions: &[],
        },
        Prop {
            id: "C03",
            rule: "one definite corruption (a parenthesis deleted or inserted, an impossible token inserted, the keyword of a module field removed) of a grammar-generated module; non-trivial: at least 20 tokens and the corruption is inside a module field",
            quick: 1_000_000,
            thorough: 15_000_000,
            run: c03,
            assumptions: &[],
        },
        Prop {
            id: "C04",
            rule: "impossible tokens or unknown parenthesised terms inserted between module fields or between the instructions of a function body of a grammar-generated module; non-trivial: the module has at least 20 tokens",
            quick: 1_000_000,
            thorough: 15_000_000,
            run: c04,
            assumptions: &[],
        },
    ]
}

pub fn dump(node: &SyntaxNode) -> Vec<(usize, K, String)> {
    let mut out = vec![];
    let mut depth = 0;
    for e in node.preorder_with_tokens() {
        match e {
            rowan::WalkEvent::Enter(rowan::NodeOrToken::Node(n)) => {
                out.push((depth, n.kind(), String::new()));
                depth += 1;
            }
            rowan::WalkEvent::Enter(rowan::NodeOrToken::Token(t)) => {
                if !matches!(t.kind(), K::WHITESPACE | K::LINE_COMMENT | K::BLOCK_COMMENT) {
                    out.push((depth, t.kind(), t.text().to_string()));
                }
            }
            rowan::WalkEvent::Leave(rowan::NodeOrToken::Node(_)) => depth -= 1,
            _ => {}
        }
    }
    out
}

fn c01(g: &mut G, case: &mut Case) -> Outcome {
    let (text, class) = any_text(g, small());
    case.label(class);
    case.rendering = text.clone();
    case.note(&text);
    let mut parser = Parser::new(&text);
    let tree = guard(|| parser.parse())?;
    let errors = parser.errors();
    let n = lexer::significant(&text).len();
    case.nontrivial = n >= 8 && (!errors.is_empty() || text.contains(";;") || text.contains("(;"));
    if !errors.is_empty() {
        case.label("has errors");
    }
    if tree.kind() != K::ROOT {
        return Err(format!("root kind is {:?}", tree.kind()));
    }
    let back = tree.text().to_string();
    if back != text {
        return Err(format!("tree text differs from the source: {back:?}"));
    }
    let mut pos = 0u32;
    for t in tree.descendants_with_tokens().filter_map(|e| e.into_token()) {
        let r = t.text_range();
        if u32::from(r.start()) != pos {
            return Err("token ranges do not tile the source".into());
        }
        pos = r.end().into();
    }
    for e in errors {
        if e.start > e.end || e.end > text.len() || !text.is_char_boundary(e.start) || !text.is_char_boundary(e.end) {
            return Err(format!("error range {}..{} is not a range of the source", e.start, e.end));
        }
    }
    let has_error_token = tree
        .descendants_with_tokens()
        .any(|e| e.kind() == K::ERROR);
    if has_error_token && errors.is_empty() {
        return Err("tree has an error token but no error is reported".into());
    }
    if g.chance(1, 3) {
        case.label("parsed again");
        let seen = |p: &Parser| p.errors().iter().map(|e| (e.start, e.end, e.message.to_string())).collect::<Vec<_>>();
        let first = seen(&parser);
        let green = guard(|| parser.parse_to_green())?;
        if green != tree.green().into_owned() || seen(&parser) != first {
            return Err(format!("parsing again yields another result, errors: {first:?} then {:?}", seen(&parser)));
        }
    }
    Ok(())
}

fn c02(g: &mut G, case: &mut Case) -> Outcome {
    let cfg = Cfg {
        max_modules: g.weighted(&[0, 25, 4, 1]),
        hex_refs: true,
        undefined: g.chance(1, 4),
        ..Cfg::default()
    };
    let doc = gen_doc(g, cfg);
    let r = any_render(g);
    let text = render(g, &doc.toks, &r);
    case.rendering = text.text.clone();
    case.note(&text.text);
    case.nontrivial = doc.toks.len() >= 20;
    for l in &doc.labels {
        case.label(l);
    }
    let mut parser = Parser::new(&text.text);
    let tree = guard(|| parser.parse())?;
    if let Some(e) = parser.errors().first() {
        return Err(format!(
            "syntax error in well-formed source: {}..{} {}",
            e.start, e.end, e.message
        ));
    }
    let got = dump(&tree);
    let want = doc.expected_tree();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.0 == w.0 && g.1 == w.1 && g.2 == w.2 => {}
            g => {
                return Err(format!("tree differs at element {i}: expected {w:?}, got {g:?}"));
            }
        }
    }
    if got.len() != want.len() {
        return Err(format!("tree has extra elements: {:?}", &got[want.len()..]));
    }
    Ok(())
}

/// Tokens that no production of the grammar admits anywhere.
const IMPOSSIBLE: &[&str] = &["[", ",", "{}", "%x", "A", "$", "'", "#1", "@"];

/// Token ranges of the parts which the grammar requires where they are.
fn required_parts(doc: &Doc) -> Vec<std::ops::Range<usize>> {
    let mut parts = vec![];
    // kind, first token, identifier present
    let mut stack: Vec<(K, usize, bool)> = vec![];
    let mut next = 0;
    for e in &doc.evs {
        match e {
            Ev::Open(k) => stack.push((*k, next, false)),
            Ev::Tok(t) => {
                next = t + 1;
                let tok = &doc.toks[*t];
                if let Some(top) = stack.last_mut() {
                    top.2 |= tok.kind == K::IDENT;
                    let keyword = match top.0 {
                        // any word after a parenthesis reads as an instruction
                        K::PARAM | K::RESULT | K::LOCAL => matches!(doc.toks[t + 1].kind, K::IDENT | K::R_PAREN),
                        // … and an expression may stand without its keyword
                        K::OFFSET | K::ELEM_EXPR => doc.toks[t + 1].kind == K::L_PAREN,
                        K::IMPORT | K::EXPORT | K::FUNC_TYPE => true,
                        K::MEM_USE | K::TABLE_USE | K::DATA | K::ELEM | K::MODULE => true,
                        K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE => true,
                        K::IMPORT_DESC_TYPE_USE | K::IMPORT_DESC_GLOBAL_TYPE | K::IMPORT_DESC_MEMORY_TYPE => true,
                        K::IMPORT_DESC_TABLE_TYPE => true,
                        _ => false,
                    };
                    // an unfolded construct has no parenthesis of its own
                    if keyword && tok.kind == K::KEYWORD && doc.toks[t - 1].kind == K::L_PAREN {
                        parts.push(*t..t + 1);
                    }
                }
            }
            Ev::Close => {
                let (kind, first, _) = stack.pop().unwrap();
                let Some((parent, _, named)) = stack.last() else { continue };
                let required = match (parent, kind) {
                    (K::MODULE_FIELD_IMPORT | K::IMPORT, K::MODULE_NAME | K::NAME) => true,
                    (K::MODULE_FIELD_EXPORT | K::EXPORT, K::NAME) => true,
                    (
                        K::MODULE_FIELD_IMPORT,
                        K::IMPORT_DESC_TYPE_USE | K::IMPORT_DESC_GLOBAL_TYPE | K::IMPORT_DESC_MEMORY_TYPE | K::IMPORT_DESC_TABLE_TYPE,
                    ) => true,
                    (
                        K::MODULE_FIELD_EXPORT,
                        K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE,
                    ) => true,
                    (
                        K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE,
                        K::INDEX,
                    ) => true,
                    (K::MODULE_FIELD_START | K::TYPE_USE | K::MEM_USE | K::TABLE_USE, K::INDEX) => true,
                    (K::MODULE_FIELD_TYPE, K::FUNC_TYPE) => true,
                    (K::GLOBAL_TYPE, K::VAL_TYPE) => true,
                    (_, K::GLOBAL_TYPE | K::TABLE_TYPE | K::MEMORY_TYPE) => true,
                    (K::TABLE_TYPE, K::REF_TYPE | K::LIMITS) => true,
                    (K::MODULE_FIELD_TABLE, K::REF_TYPE | K::ELEM) => true,
                    (K::PARAM | K::LOCAL, K::VAL_TYPE) => *named,
                    _ => false,
                };
                if required && next > first {
                    parts.push(first..next);
                }
            }
        }
    }
    parts
}

fn c03(g: &mut G, case: &mut Case) -> Outcome {
    if g.chance(1, 10) {
        let (text, class) = any_text(g, small());
        case.label("reported by the service"); case.label(class);
        case.rendering = text.clone();
        case.note(&text);
        let mut parser = Parser::new(&text);
        let _ = guard(|| parser.parse())?;
        case.nontrivial = parser.errors().len() >= 2;
        return passed_on(&text, &parser);
    }
    let doc = gen_doc(g, Cfg::default());
    let mut toks = doc.toks.clone();
    let field_kw: Vec<usize> = doc
        .fields
        .iter()
        .map(|f| f.1 + 1)
        .filter(|t| toks[*t].text != "elem")
        .collect();
    // words that are required after a left parenthesis
    let inner_kw: Vec<usize> = (1..toks.len())
        .filter(|i| toks[i - 1].kind == K::L_PAREN && matches!(toks[*i].text.as_str(), "mut" | "then" | "else" | "import" | "export"))
        .chain((1..toks.len()).filter(|i| {
            toks[i - 1].kind == K::L_PAREN && toks[*i].text == "type" && !field_kw.contains(i)
        }))
        .collect();
    let ends: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].text == "end").collect();
    let required = required_parts(&doc);
    // ends of constructs after which only other constructs may follow
    let mut closed: Vec<usize> = vec![];
    let mut stack: Vec<(K, usize)> = vec![];
    let mut last = 0;
    for e in &doc.evs {
        match e {
            Ev::Open(k) => stack.push((*k, usize::MAX)),
            Ev::Tok(t) => {
                last = *t;
                for n in stack.iter_mut().filter(|n| n.1 == usize::MAX) {
                    n.1 = *t;
                }
            }
            Ev::Close => {
                let (k, first) = stack.pop().unwrap();
                let Some((parent, _)) = stack.last() else { continue };
                let instr = matches!(k, K::PLAIN_INSTR | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF | K::BLOCK_IF_THEN | K::BLOCK_IF_ELSE);
                let seq = matches!(
                    parent,
                    K::MODULE_FIELD_FUNC | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF | K::BLOCK_IF_THEN | K::BLOCK_IF_ELSE
                );
                // the branch of a flat `if` is not enclosed in parentheses of its own
                let arm = match k {
                    K::BLOCK_IF_THEN => Some("then"),
                    K::BLOCK_IF_ELSE => Some("else"),
                    _ => None,
                };
                let folded = first != usize::MAX
                    && toks[first].kind == K::L_PAREN
                    && toks[last].kind == K::R_PAREN
                    && arm.map_or(true, |a| toks[first + 1].text == a);
                if folded && (instr && seq || *parent == K::MODULE || *parent == K::ROOT) {
                    // not the module itself: fields are children of it
                    closed.push(last + 1);
                }
            }
        }
    }
    let at;
    let mut junk = false;
    let runs: Vec<usize> = (1..toks.len())
        .filter(|i| {
            matches!(toks[i - 1].kind, K::INT | K::UNSIGNED_INT | K::FLOAT)
                && toks[i - 1].text.starts_with(|c: char| c.is_ascii_digit())
                && toks[*i].text.starts_with(|c: char| c == '$' || c.is_ascii_lowercase())
        })
        .collect();
    match g.below(12) {
        11 if !runs.is_empty() => {
            let next = *g.pick(&runs);
            at = next - 1;
            let word = toks.remove(next).text;
            toks[at].text.push_str(&word);
            junk = true;
            case.label("number runs into the next word");
        }
        8 if !closed.is_empty() => {
            at = *g.pick(&closed);
            let (kind, text) = *g.pick(&[(K::IDENT, "$x"), (K::INT, "1"), (K::FLOAT, "1.5"), (K::STRING, "\"s\"")]);
            toks.insert(at, Tok { kind, text: text.into() });
            junk = true;
            case.label("literal inserted between instructions or fields");
        }
        3 if !inner_kw.is_empty() => {
            at = *g.pick(&inner_kw);
            toks.remove(at);
            case.label("inner keyword deleted");
        }
        4 | 5 if !ends.is_empty() => {
            at = *g.pick(&ends);
            toks.remove(at);
            case.label("end of block deleted");
        }
        7 if g.chance(1, 2) => {
            at = g.below(toks.len() + 1);
            toks.insert(at, Tok { kind: K::KEYWORD, text: "end".into() });
            case.label("end of block inserted");
        }
        6 | 9 if !required.is_empty() => {
            let part = g.pick(&required).clone();
            at = part.start;
            toks.drain(part);
            case.label("required part deleted");
        }
        0 => {
            let parens: Vec<usize> = (0..toks.len())
                .filter(|i| matches!(toks[*i].kind, K::L_PAREN | K::R_PAREN))
                .collect();
            at = *g.pick(&parens);
            toks.remove(at);
            case.label("parenthesis deleted");
        }
        1 => {
            at = g.below(toks.len() + 1);
            let (kind, text) = if g.chance(1, 2) { (K::L_PAREN, "(") } else { (K::R_PAREN, ")") };
            toks.insert(at, Tok { kind, text: text.into() });
            case.label("parenthesis inserted");
        }
        2 if !field_kw.is_empty() => {
            at = *g.pick(&field_kw);
            toks.remove(at);
            case.label("field keyword deleted");
        }
        10 => {
            at = usize::MAX;
            case.label("comment or string never closed");
        }
        _ => {
            at = g.below(toks.len() + 1);
            let text = g.pick(IMPOSSIBLE).to_string();
            toks.insert(at, Tok { kind: K::ERROR, text });
            junk = true;
            case.label("impossible token inserted");
        }
    }
    let inside = at == usize::MAX || doc.fields.iter().any(|f| f.1 < at && at <= f.2);
    let mut r = any_render(g);
    let open = if at == usize::MAX { g.weighted(&[0, 2, 1, 1]) } else { 0 };
    if open == 3 {
        r.style = Style::Wild;
    }
    if open > 0 {
        r.comments = false;
    }
    let mut text = render(g, &toks, &r);
    if open == 3 {
        // a string that isn't closed on its line
        let strings: Vec<usize> = (0..toks.len())
            .filter(|i| {
                let e = text.spans[*i].1;
                toks[*i].kind == K::STRING && text.text[e..].lines().next().is_some_and(|line| !line.contains('"'))
            })
            .collect();
        if strings.is_empty() {
            return Ok(());
        }
        text.text.remove(text.spans[*g.pick(&strings)].1 - 1);
    } else if open > 0 {
        // nothing after it may end the comment or string
        let (mark, ends) = if open == 1 { ("(;", ";)") } else { ("\"", "\"") };
        let first = text.text.rfind(ends).map_or(0, |i| i + 1);
        let spaces: Vec<usize> =
            text.spans.iter().map(|s| s.0).chain([text.text.len()]).filter(|i| *i >= first).collect();
        let place = *g.pick(&spaces);
        if text.text[place..].contains(ends) {
            return Ok(());
        }
        let lead = if g.chance(1, 2) { " " } else { "\n" };
        text.text.insert_str(place, &format!("{lead}{mark}"));
    }
    case.rendering = text.text.clone();
    case.note(&text.text);
    case.nontrivial = toks.len() >= 20 && inside;
    let mut parser = Parser::new(&text.text);
    let _ = guard(|| parser.parse())?;
    let errors = parser.errors();
    if errors.is_empty() {
        return Err("no syntax error reported for malformed source".into());
    }
    if junk {
        let (s, e) = text.spans[at];
        if !errors.iter().any(|x| x.start <= e && x.end >= s) {
            return Err(format!(
                "no syntax error touches the impossible token at {s}..{e}: {:?}",
                errors.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>()
            ));
        }
    }
    if g.chance(1, 4) {
        return passed_on(&text.text, &parser);
    }
    Ok(())
}

/// The language service reports the syntax errors that the parser found.
fn passed_on(text: &str, parser: &Parser) -> Outcome {
    let lines = Lines::new(text);
    let want: BTreeSet<_> = parser
        .errors()
        .iter()
        .map(|e| (lines.pos(e.start), lines.pos(e.end), format!("syntax error: {}", e.message)))
        .collect();
    let svc = guard(|| Svc::new(text))?;
    let got: BTreeSet<_> = svc
        .diagnostics()?
        .into_iter()
        .filter(|d| d.message.starts_with("syntax error"))
        .map(|d| (d.range.start, d.range.end, d.message))
        .collect();
    if got != want {
        return Err(format!("the service reports {got:?} instead of {want:?}"));
    }
    Ok(())
}

/// Junk at a place where the grammar allows any number of items (module fields,
/// instructions of a function body) must not change how the rest is read.
fn c04(g: &mut G, case: &mut Case) -> Outcome {
    let max_modules = if g.chance(1, 5) { 2 } else { 1 };
    let doc = gen_doc(g, Cfg { max_modules, ..Cfg::default() });
    // places: before every module field / instruction of a function body, and
    // before the closing parenthesis of a module / function with a body
    let mut stack: Vec<K> = vec![];
    let mut places: Vec<(usize, bool)> = vec![];
    for (i, e) in doc.evs.iter().enumerate() {
        match e {
            Ev::Open(k) => {
                let next = doc.evs[i..].iter().find_map(|e| if let Ev::Tok(t) = e { Some(*t) } else { None });
                let Some(next) = next else { continue };
                let instr = matches!(k, K::PLAIN_INSTR | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF);
                match stack.last() {
                    Some(K::MODULE) => places.push((next, false)),
                    Some(K::MODULE_FIELD_FUNC | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF_THEN | K::BLOCK_IF_ELSE) if instr => places.push((next, true)),
                    _ => {}
                }
                stack.push(*k);
            }
            Ev::Close => {
                let k = stack.pop();
                if let (Some(K::MODULE | K::MODULE_FIELD_FUNC), Some(Ev::Tok(t))) = (k, doc.evs.get(i.wrapping_sub(1))) {
                    places.push((*t, k == Some(K::MODULE_FIELD_FUNC)));
                }
            }
            Ev::Tok(_) => {}
        }
    }
    case.rendering = doc.toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ");
    case.note(&case.rendering.clone());
    if places.is_empty() {
        return Ok(());
    }
    let (at, in_func) = *g.pick(&places);
    case.label(if in_func { "between instructions" } else { "between module fields" });
    let mut ins: Vec<Tok> = vec![];
    for _ in 0..g.range(1, 2) {
        if g.chance(1, 2) {
            case.label("unknown term");
            unknown_term(g, &mut ins, 2);
        } else {
            case.label("impossible token");
            ins.push(Tok { kind: K::ERROR, text: g.pick(IMPOSSIBLE).to_string() });
        }
    }
    let mut toks = doc.toks.clone();
    let n = ins.len();
    toks.splice(at..at, ins);
    let r = any_render(g);
    let text = render(g, &toks, &r);
    case.rendering = text.text.clone();
    case.note(&text.text);
    case.nontrivial = doc.toks.len() >= 20;
    let mut parser = Parser::new(&text.text);
    let tree = guard(|| parser.parse())?;
    if parser.errors().is_empty() {
        return Err("no syntax error reported".into());
    }
    let (from, to) = (text.spans[at].0, text.spans[at + n - 1].1);
    if let Some(e) = parser.errors().iter().find(|e| e.end < from || e.start > to) {
        return Err(format!("syntax error at {}..{} but the junk is at {from}..{to}", e.start, e.end));
    }
    let got: Vec<_> = dump(&tree).into_iter().filter(|e| e.1 != K::ERROR).collect();
    let want = doc.expected_tree();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.0 == w.0 && g.1 == w.1 && g.2 == w.2 => {}
            g => {
                return Err(format!("the junk changes the tree at element {i}: expected {w:?}, got {g:?}"));
            }
        }
    }
    if got.len() != want.len() {
        return Err(format!("tree has extra elements: {:?}", &got[want.len()..]));
    }
    Ok(())
}

/// `(%x …)` with arbitrary balanced content
fn unknown_term(g: &mut G, out: &mut Vec<Tok>, depth: usize) {
    out.push(Tok { kind: K::L_PAREN, text: "(".into() });
    out.push(Tok { kind: K::ERROR, text: g.pick(&["%x", "A", "@custom", "$", "#1"]).to_string() });
    for _ in 0..g.below(4) {
        if depth > 0 && g.chance(1, 3) {
            unknown_term(g, out, depth - 1);
        } else {
            let t = g.pick(&["x", "$a", "1", "\"s\"", "func", "i32.add", "param", "1.5"]).to_string();
            out.push(Tok { kind: K::ERROR, text: t });
        }
    }
    out.push(Tok { kind: K::R_PAREN, text: ")".into() });
}
