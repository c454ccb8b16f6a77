use crate::{engine::*, lexer::{self, L}, mutate::any_text, mutate::small, wat::*};
use line_index::LineIndex;
use rowan::ast::AstNode;
use wat_formatter::config::{FormatOptions, LanguageOptions, LayoutOptions, LineBreak};
use wat_parser::Parser;
use wat_syntax::{ast::Root, SyntaxKind as K, SyntaxNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "grammar-generated modules rendered with arbitrary whitespace and comments, formatted under arbitrary options; non-trivial: at least 20 tokens",
            quick: 800_000,
            thorough: 8_000_000,
            run: c05,
            assumptions: &[],
        },
        Prop {
            id: "C06",
            rule: "as C05; non-trivial: at least 20 tokens and the source is not already formatted",
            quick: 600_000,
            thorough: 8_000_000,
            run: c06,
            assumptions: &[],
        },
        Prop {
            id: "C07",
            rule: "valid modules, token- and character-level corruptions of them, raw garbage; non-trivial: at least 8 tokens and a syntax error",
            quick: 1_000_000,
            thorough: 8_000_000,
            run: c07,
            assumptions: &["nesting depth of generated text is bounded"],
        },
        Prop {
            id: "C08",
            rule: "two renderings, with different whitespace, of the tokens of one grammar-generated module, formatted under arbitrary options; non-trivial: at least 20 tokens and the renderings differ",
            quick: 500_000,
            thorough: 8_000_000,
            run: c08,
            assumptions: &[],
        },
        Prop {
            id: "C09",
            rule: "grammar-generated modules in which some modules and module fields are preceded by an ignore directive or by a comment that only resembles one; non-trivial: at least 20 tokens and something is ignored",
            quick: 500_000,
            thorough: 8_000_000,
            run: c09,
            assumptions: &[],
        },
        Prop {
            id: "C10",
            rule: "a range of a grammar-generated module with arbitrary whitespace and comments (or of its formatted form), range-formatted under arbitrary options; non-trivial: at least 20 tokens and an edit is returned",
            quick: 700_000,
            thorough: 8_000_000,
            run: c10,
            assumptions: &[],
        },
    ]
}

pub fn any_options(g: &mut G) -> FormatOptions {
    FormatOptions {
        layout: LayoutOptions {
            print_width: if g.chance(1, 4) { g.range(0, 150) } else { *g.pick(&[80, 20, 1, 200, 40, 60]) },
            indent_width: if g.chance(1, 4) { g.range(1, 17) } else { *g.pick(&[2, 4, 1, 8]) },
            line_break: if g.chance(1, 4) { LineBreak::Crlf } else { LineBreak::Lf },
            use_tabs: g.chance(1, 4),
        },
        language: LanguageOptions {
            format_comments: g.chance(1, 3),
            ignore_comment_directive: "fmt-ignore".into(),
        },
    }
}

pub fn root(text: &str) -> Root {
    Root::cast(Parser::new(text).parse()).unwrap()
}

pub fn fmt(text: &str, o: &FormatOptions) -> Result<String, String> {
    guard(|| wat_formatter::format(&root(text), o))
}

/// Tokens and comments, as they have to be after formatting: when comments are
/// formatted, a missing space is inserted at their beginning and end, and
/// everything else about them is kept.
pub fn skeleton(text: &str, o: &FormatOptions) -> Vec<(L, String)> {
    let ws = [' ', '\t'];
    lexer::with_comments(text)
        .into_iter()
        .map(|(k, t)| {
            let t = match k {
                L::LineComment if o.language.format_comments => {
                    let c = &t[2..];
                    format!(";;{}{c}", if c.is_empty() || c.starts_with(ws) { "" } else { " " })
                }
                L::BlockComment if o.language.format_comments => {
                    let c = &t[2..t.len() - 2];
                    let l = if c.is_empty() || c.starts_with(ws) { "" } else { " " };
                    let r = if c.is_empty() || c.ends_with(ws) { "" } else { " " };
                    format!("(;{l}{c}{r};)")
                }
                _ => t.to_string(),
            };
            (k, t)
        })
        .collect()
}

/// Tokens and comments as they are.
pub fn raw_skeleton(text: &str) -> Vec<(L, String)> {
    lexer::with_comments(text).into_iter().map(|(k, t)| (k, t.to_string())).collect()
}

pub fn diff_skeleton(want: &[(L, String)], got: &[(L, String)]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Some(format!("at item {i}: expected {:?}, got {:?}", want.get(i), got.get(i)));
        }
    }
    None
}

fn c05(g: &mut G, case: &mut Case) -> Outcome {
    let max_modules = g.weighted(&[0, 20, 4, 1]);
    let doc = gen_doc(g, Cfg { max_modules, hex_refs: true, undefined: true, export_import: false, ..Cfg::default() });
    let r = any_render(g);
    let text = render(g, &doc.toks, &r);
    let o = any_options(g);
    case.rendering = format!("{o:?}\n{}", text.text);
    case.note(&case.rendering.clone());
    case.nontrivial = doc.toks.len() >= 20;
    if text.comments > 0 {
        case.label("comments");
    }
    let out = fmt(&text.text, &o)?;
    case.rendering = format!("{o:?}\n{}\n==>\n{out}", text.text);
    let want = skeleton(&text.text, &o);
    let got = raw_skeleton(&out);
    if let Some(d) = diff_skeleton(&want, &got) {
        return Err(format!("formatting changes the token sequence {d}"));
    }
    Ok(())
}

fn c06(g: &mut G, case: &mut Case) -> Outcome {
    let max_modules = g.weighted(&[0, 20, 4, 1]);
    let doc = gen_doc(g, Cfg { max_modules, hex_refs: true, undefined: true, export_import: false, ..Cfg::default() });
    let mut r = any_render(g);
    r.comments = g.chance(2, 3);
    let text = render(g, &doc.toks, &r);
    let o = any_options(g);
    case.rendering = format!("{o:?}\n{}", text.text);
    case.note(&case.rendering.clone());
    if text.comments > 0 {
        case.label("comments");
    }
    let out = fmt(&text.text, &o)?;
    case.nontrivial = doc.toks.len() >= 20 && out != text.text;
    let again = fmt(&out, &o)?;
    case.rendering = format!("{o:?}\n{}\n==>\n{out}\n==>\n{again}", text.text);
    if out != again {
        return Err("formatting its own output changes it".into());
    }
    Ok(())
}

fn c07(g: &mut G, case: &mut Case) -> Outcome {
    let mut cfg = small();
    cfg.export_import = false;
    let (text, class) = any_text(g, cfg);
    case.label(class);
    let mut o = any_options(g);
    o.language.format_comments = false;
    case.rendering = format!("{o:?}\n{text}");
    case.note(&case.rendering.clone());
    let mut parser = Parser::new(&text);
    let tree = guard(|| parser.parse())?;
    case.nontrivial = !parser.errors().is_empty() && lexer::significant(&text).len() >= 8;
    if export_with_import(&tree) {
        // listed finding: the import is moved in front of the exports
        case.label("excluded: inline export with inline import");
        case.nontrivial = false;
        return Ok(());
    }
    let root = Root::cast(tree).unwrap();
    let with_comments = FormatOptions {
        layout: o.layout.clone(),
        language: LanguageOptions { format_comments: true, ..o.language.clone() },
    };
    let _ = guard(|| wat_formatter::format(&root, &with_comments))?;
    let out = guard(|| wat_formatter::format(&root, &o))?;
    case.rendering = format!("{o:?}\n{text}\n==>\n{out}");
    keeps_everything(&text, &out)
}

/// Everything of the source is kept in order, only whitespace is changed and
/// `)` added; no words are joined.
fn keeps_everything(text: &str, out: &str) -> Outcome {
    let strip = |s: &str| {
        let mut v: Vec<(char, bool)> = vec![];
        let mut gap = false;
        for c in s.chars() {
            if c.is_whitespace() {
                gap = true;
            } else {
                v.push((c, gap));
                gap = false;
            }
        }
        v
    };
    let (want, got) = (strip(text), strip(out));
    let mut i = 0;
    let mut added = false;
    let mut prev = ' ';
    for (c, gap) in &got {
        match want.get(i) {
            Some((w, wgap)) if w == c => {
                let word = lexer::is_idchar(prev) && lexer::is_idchar(*c);
                if word && !added && *wgap && !*gap {
                    let rest: String = want[i..].iter().map(|c| c.0).take(20).collect();
                    return Err(format!("words are joined before {rest:?}"));
                }
                i += 1;
                added = false;
                prev = *c;
            }
            w => {
                if *c != ')' {
                    let rest: String = want[i..].iter().map(|c| c.0).take(20).collect();
                    return Err(format!("formatting loses or invents text: expected {:?} (…{rest:?}), got {c:?}", w.map(|w| w.0)));
                }
                added = true;
            }
        }
    }
    if i < want.len() {
        let rest: String = want[i..].iter().map(|c| c.0).take(20).collect();
        return Err(format!("formatting loses {rest:?}"));
    }
    Ok(())
}

fn export_with_import(tree: &SyntaxNode) -> bool {
    tree.descendants().filter(|n| n.kind() == K::MODULE_FIELD_FUNC).any(|f| {
        let kinds: Vec<K> = f.children().map(|n| n.kind()).filter(|k| matches!(k, K::IMPORT | K::EXPORT)).collect();
        kinds.iter().skip(1).any(|k| *k == K::IMPORT)
    })
}

/// Render without comments; `blank` allows blank lines.
fn plain_render(g: &mut G, toks: &[Tok], blank: bool) -> String {
    let mut s = String::new();
    let wild = g.chance(3, 4);
    let crlf = g.chance(1, 5);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let required = !matches!(p.kind, K::L_PAREN | K::R_PAREN) && !matches!(t.kind, K::L_PAREN | K::R_PAREN);
            let n = s.len();
            if wild {
                match g.weighted(&[3, 3, 1, 2, 1]) {
                    0 => {}
                    1 => s.push(' '),
                    2 => s.push_str("\t "),
                    3 => {
                        s.push_str(if crlf { "\r\n" } else { "\n" });
                        for _ in 0..g.below(5) {
                            s.push(' ');
                        }
                    }
                    _ => {
                        if blank {
                            s.push_str(" \n\n ");
                        }
                    }
                }
            }
            if required && s.len() == n {
                s.push(' ');
            }
        }
        s.push_str(&t.text);
    }
    if g.chance(1, 2) {
        s.push('\n');
    }
    s
}

/// Draws all whitespace of a source again: everywhere the number of line breaks (none, one, more)
/// stays the same where comments are near, and is free between tokens without comments.
fn redraw_blanks(g: &mut G, text: &str) -> String {
    let toks = lexer::lex(text);
    let is_comment = |l: Option<&lexer::Lex>| l.is_some_and(|l| matches!(l.kind, L::LineComment | L::BlockComment));
    let blanks = |g: &mut G, min: usize| -> String {
        let n = if g.chance(1, 2) { min } else { min + g.below(4) };
        (0..n).map(|_| if g.chance(1, 4) { '\t' } else { ' ' }).collect()
    };
    let mut s = String::new();
    for (i, l) in toks.iter().enumerate() {
        let part = &text[l.start..l.end];
        if l.kind != L::Ws {
            s.push_str(part);
            continue;
        }
        let lines = part.matches('\n').count();
        let near = i == 0 || i + 1 == toks.len() || is_comment(toks.get(i + 1)) || is_comment(toks.get(i - 1));
        let lines = match lines {
            0 if !near && g.chance(1, 4) => 1,
            1 if !near && g.chance(1, 2) => 0,
            0 | 1 => lines,
            _ => 2 + g.below(3),
        };
        // blanks behind a line comment would belong to the comment
        let after_line = i > 0 && toks[i - 1].kind == L::LineComment;
        if lines == 0 {
            s.push_str(&blanks(g, 1));
            continue;
        }
        if !after_line {
            s.push_str(&blanks(g, 0));
        }
        for _ in 0..lines {
            s.push_str(if g.chance(1, 5) { "\r\n" } else { "\n" });
            s.push_str(&blanks(g, 0));
        }
    }
    s
}

/// Between two tokens on one line there is nothing or one space.
fn check_spaces(out: &str) -> Outcome {
    let toks = lexer::lex(out);
    for (i, l) in toks.iter().enumerate() {
        let part = &out[l.start..l.end];
        if l.kind == L::Ws && !part.contains('\n') && i > 0 && part != " " {
            return Err(format!("{part:?} between two tokens at byte {}", l.start));
        }
    }
    Ok(())
}

/// Only the number of line breaks around comments matters, not how many blanks there are.
fn c08_comments(g: &mut G, case: &mut Case) -> Outcome {
    let doc = gen_doc(g, Cfg { hex_refs: true, undefined: true, export_import: false, ..Cfg::default() });
    let mut r = any_render(g);
    r.comments = true;
    let a = render(g, &doc.toks, &r).text;
    let b = redraw_blanks(g, &a);
    let o = any_options(g);
    case.rendering = format!("{o:?}\n{a}\n\n{b}");
    case.nontrivial = doc.toks.len() >= 20 && a != b;
    case.label("comments");
    case.note(&case.rendering.clone());
    let out = fmt(&a, &o)?;
    let out_b = fmt(&b, &o)?;
    case.rendering = format!("{o:?}\n{a}\n==>\n{out}\n\n{b}\n==>\n{out_b}");
    if out != out_b {
        return Err("sources that differ only in blanks are formatted differently".into());
    }
    check_spaces(&out)
}

fn c08(g: &mut G, case: &mut Case) -> Outcome {
    if g.chance(1, 3) {
        return c08_comments(g, case);
    }
    let doc = gen_doc(g, Cfg { hex_refs: true, undefined: true, ..Cfg::default() });
    let blank = g.chance(1, 3);
    let a = plain_render(g, &doc.toks, blank);
    let o = any_options(g);
    case.rendering = format!("{o:?}\n{a}");
    let out = fmt(&a, &o)?;
    case.rendering = format!("{o:?}\n{a}\n==>\n{out}");
    case.nontrivial = doc.toks.len() >= 20;
    if blank {
        case.label("blank lines");
    } else {
        let b = plain_render(g, &doc.toks, false);
        let out_b = fmt(&b, &o)?;
        case.nontrivial &= a != b;
        if out != out_b {
            case.rendering = format!("{o:?}\n{a}\n==>\n{out}\n\n{b}\n==>\n{out_b}");
            return Err("sources that differ only in whitespace are formatted differently".into());
        }
    }
    case.note(&case.rendering.clone());
    check_spaces(&out)?;
    if !blank {
        check_lines(&out, &o)?;
    }
    check_layout(&out, &o, blank)
}

/// Where the lines of a comment-free formatted source without blank lines begin: at fields, instructions,
/// branches, offsets, element expressions and block ends, and at some places within declarations
/// exactly when the rest would exceed the print width.
fn check_lines(out: &str, o: &FormatOptions) -> Outcome {
    let tree = root(out);
    let toks: Vec<_> =
        tree.syntax().descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() != K::WHITESPACE).collect();
    #[derive(PartialEq)]
    enum Break {
        Must,
        May,
        No,
    }
    let mut places = vec![];
    for (p, t) in toks.iter().zip(&toks[1..]) {
        let (from, to) = (usize::from(p.text_range().end()), usize::from(t.text_range().start()));
        let parent = t.parent().unwrap();
        let mut rule = match t.kind() {
            K::KEYWORD if t.text() == "end" => Break::Must,
            K::STRING if parent.kind() == K::MODULE_FIELD_DATA => Break::May,
            _ => Break::No,
        };
        for n in parent.ancestors().take_while(|n| n.text_range().start() == t.text_range().start()) {
            let first_of_kind = || !std::iter::successors(n.prev_sibling(), |n| n.prev_sibling()).any(|s| s.kind() == n.kind());
            let up = n.parent().map(|n| n.kind());
            match n.kind() {
                K::PLAIN_INSTR | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF | K::BLOCK_IF_THEN | K::BLOCK_IF_ELSE | K::OFFSET | K::ELEM_EXPR => {
                    rule = Break::Must
                }
                _ if up == Some(K::MODULE) => rule = Break::Must,
                K::PARAM if up == Some(K::TYPE_USE) && n.prev_sibling().is_some_and(|s| s.kind() == K::INDEX) => {
                    rule = Break::May
                }
                K::TYPE_USE if up == Some(K::MODULE_FIELD_FUNC) && n.children().all(|c| c.kind() != K::INDEX) => rule = Break::May,
                K::LOCAL if up == Some(K::MODULE_FIELD_FUNC) && first_of_kind() => rule = Break::May,
                K::MODULE => rule = Break::May,
                _ => {}
            }
        }
        let gap = &out[from..to];
        let at = || format!("before {:?} at byte {to}", t.text());
        if gap.contains('\n') {
            if rule == Break::No {
                return Err(format!("unexpected line break {}", at()));
            }
        } else if rule == Break::Must {
            return Err(format!("no line break {}", at()));
        } else if gap.is_empty() != (p.kind() == K::L_PAREN || t.kind() == K::R_PAREN) {
            return Err(format!("{gap:?} {}", at()));
        }
        if rule == Break::May && parent.kind() != K::MODULE {
            places.push((from, to));
        }
    }
    let width = |s: &str| s.chars().map(|c| if c == '\t' { o.layout.indent_width } else { 1 }).sum::<usize>();
    for (n, &(from, to)) in places.iter().enumerate() {
        let line = out[..from].rfind('\n').map_or(0, |i| i + 1);
        let mut end = out[to..].find('\n').map_or(out.len(), |i| i + to);
        if out[..end].ends_with('\r') {
            end -= 1;
        }
        if let Some(&(next, _)) = places.get(n + 1) {
            end = end.min(next);
        }
        let joined = format!("{} {}", &out[line..from], &out[to..end]);
        if !joined.is_ascii() {
            continue;
        }
        let fits = width(&joined) <= o.layout.print_width;
        if out[from..to].contains('\n') == fits {
            return Err(format!("{joined:?} {} into {} columns", if fits { "fits" } else { "does not fit" }, o.layout.print_width));
        }
    }
    Ok(())
}

/// Layout of a comment-free formatted source.
fn check_layout(out: &str, o: &FormatOptions, blank: bool) -> Outcome {
    let nl = if matches!(o.layout.line_break, LineBreak::Crlf) { "\r\n" } else { "\n" };
    let Some(body) = out.strip_suffix(nl) else {
        return Err("the output does not end with a line break".into());
    };
    if body.ends_with(['\n', '\r', ' ', '\t']) {
        return Err("more than one line break at the end".into());
    }
    let lines: Vec<&str> = body.split(nl).collect();
    if lines.iter().any(|l| l.contains(['\n', '\r'])) {
        return Err("line breaks are not the configured ones".into());
    }
    // nesting: parentheses, and blocks in unfolded form
    let mut depth: Vec<usize> = vec![];
    let mut prev_blank = false;
    for (n, line) in lines.iter().enumerate() {
        if line.is_empty() {
            if prev_blank {
                return Err(format!("line {}: two blank lines in a row", n + 1));
            }
            if !blank {
                return Err(format!("line {}: blank line that the source does not have", n + 1));
            }
            prev_blank = true;
            continue;
        }
        prev_blank = false;
        if line.ends_with([' ', '\t']) {
            return Err(format!("line {}: trailing whitespace", n + 1));
        }
        let content = line.trim_start_matches([' ', '\t']);
        let indent = &line[..line.len() - content.len()];
        let toks = lexer::significant(content);
        // one more than the line that opens the innermost enclosing construct,
        // or the same as that line when the line closes it
        let level = match depth.last() {
            None => 0,
            Some(l) if matches!(toks[0], "end" | "else" | ")") => *l,
            Some(l) => l + 1,
        };
        let want = if o.layout.use_tabs {
            // tabs stand for whole multiples of the indent width
            "\t".repeat(level)
        } else {
            " ".repeat(level * o.layout.indent_width)
        };
        if blank {
            let unit = if o.layout.use_tabs { '\t' } else { ' ' };
            if indent.chars().any(|c| c != unit) || (unit == ' ' && indent.len() % o.layout.indent_width != 0) {
                return Err(format!("line {}: indented by {indent:?}", n + 1));
            }
        } else if indent != want {
            return Err(format!("line {}: indented by {indent:?}, expected {want:?}", n + 1));
        }
        for (i, t) in toks.iter().enumerate() {
            let folded = i > 0 && toks[i - 1] == "(";
            match *t {
                "(" => depth.push(level),
                ")" | "end" => {
                    depth.pop();
                }
                "block" | "loop" | "if" if !folded => depth.push(level),
                _ => {}
            }
        }
    }
    Ok(())
}

fn c09(g: &mut G, case: &mut Case) -> Outcome {
    let max_modules = if g.chance(1, 3) { 2 } else { 1 };
    let doc = gen_doc(g, Cfg { max_modules, hex_refs: true, export_import: false, ..Cfg::default() });
    let mut o = any_options(g);
    o.language.format_comments = false;
    if g.chance(1, 3) {
        o.language.ignore_comment_directive = "keep-as-is".into();
    }
    let dir = o.language.ignore_comment_directive.clone();
    // (first, last) token of everything that can be ignored
    let units: Vec<(usize, usize)> = doc.modules.iter().copied().chain(doc.fields.iter().map(|f| (f.1, f.2))).collect();
    let mut marks: Vec<(usize, usize, bool)> = vec![];
    for u in &units {
        if g.chance(1, 3) {
            let real = !g.chance(1, 3);
            marks.push((u.0, u.1, real));
        }
    }
    let mut text = String::new();
    let mut spans = vec![];
    for (i, t) in doc.toks.iter().enumerate() {
        let mark = marks.iter().find(|m| m.0 == i);
        if let Some((_, _, real)) = mark {
            let c = if *real {
                g.pick(&[";; {}", ";;{}", ";;   {}", ";; {} because", ";; {}\t!"]).replace("{}", &dir)
            } else {
                match g.below(8) {
                    0 => format!(";; {}", dir.to_uppercase()),
                    1 => format!(";; {}", dir.replace('-', " ")),
                    2 => format!(";; {}", &dir[..dir.len() - 1]),
                    _ => g
                        .pick(&[
                            ";; {}d", ";; no {}", ";; {}-x", ";; {}:", ";;; {}", ";;;; {}", "(; {} ;)", "(;; {} ;)", ";; ;; {}", ";; ({})",
                            ";; \"{}\"", ";; $ {}", ";; {}\u{a0}because", ";; {}\u{3000}", ";; {}\u{feff}",
                        ])
                        .replace("{}", &dir),
                }
            };
            text.push_str("\n  ");
            text.push_str(&c);
            text.push('\n');
            for _ in 0..g.below(3) {
                text.push(' ');
            }
        } else if doc.modules.iter().any(|m| m.0 == i) {
            text.push('\n');
        } else if i > 0 {
            let p = &doc.toks[i - 1];
            let required = !matches!(p.kind, K::L_PAREN | K::R_PAREN) && !matches!(t.kind, K::L_PAREN | K::R_PAREN);
            match g.below(4) {
                0 if !required => {}
                1 => text.push_str("  "),
                2 => text.push_str("\n   "),
                3 if marks.iter().any(|m| m.2 && m.0 < i && i <= m.1) && g.chance(1, 2) => {
                    case.label("odd whitespace or comment");
                    text.push_str(*g.pick(&[
                        " \n", "\t\n", "\n\n", "\n  \n\t", "\r\n", " \r\n  ", "\t", "\n\t\t", " ;; a \n", " ;; b\n\n", "(; c ;)", "(; d \n\t e \n;) ",
                        "\n;; f\n", " ;;\n ",
                    ]));
                }
                _ => text.push(' '),
            }
        }
        let s = text.len();
        text.push_str(&t.text);
        spans.push((s, text.len()));
    }
    case.rendering = format!("{o:?}\n{text}");
    case.note(&case.rendering.clone());
    let out = fmt(&text, &o)?;
    case.rendering = format!("{o:?}\n{text}\n==>\n{out}");
    let nl = if matches!(o.layout.line_break, LineBreak::Crlf) { "\r\n" } else { "\n" };
    // spans of the tokens of the output (comments have no parentheses)
    let out_spans: Vec<(usize, usize)> = lexer::lex(&out)
        .into_iter()
        .filter(|l| !matches!(l.kind, L::Ws | L::LineComment | L::BlockComment))
        .map(|l| (l.start, l.end))
        .collect();
    if out_spans.len() != doc.toks.len() {
        return Err("formatting changes the number of tokens".into());
    }
    let ignored: Vec<(usize, usize)> = marks.iter().filter(|m| m.2).map(|m| (m.0, m.1)).collect();
    case.nontrivial = !ignored.is_empty() && doc.toks.len() >= 20;
    for (a, b) in &ignored {
        let src = text[spans[*a].0..spans[*b].1].replace("\r\n", "\n").replace('\n', nl);
        let got = &out[out_spans[*a].0..out_spans[*b].1];
        if src != got {
            return Err(format!("ignored code is changed: {src:?} became {got:?}"));
        }
    }
    // everything outside of ignored code is formatted as usual
    let filler = "z".repeat(dir.len());
    let plain = text.replace(&dir, &filler);
    let usual = fmt(&plain, &o)?;
    let usual_spans: Vec<(usize, usize)> = lexer::lex(&usual)
        .into_iter()
        .filter(|l| !matches!(l.kind, L::Ws | L::LineComment | L::BlockComment))
        .map(|l| (l.start, l.end))
        .collect();
    for (a, b) in units {
        let touched = ignored.iter().any(|i| i.0 <= b && i.1 >= a);
        if touched {
            continue;
        }
        case.label("unit outside of ignored code");
        let want = &usual[usual_spans[a].0..usual_spans[b].1];
        let got = &out[out_spans[a].0..out_spans[b].1];
        if want.replace(&filler, &dir) != got {
            return Err(format!("code that isn't ignored is not formatted: {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

/// Disturbs the layout inside of one construct of formatted source:
/// formatting the construct's range restores it.
fn c10_restore(g: &mut G, case: &mut Case) -> Outcome {
    let doc = gen_doc(g, Cfg { hex_refs: true, undefined: true, export_import: false, ..Cfg::default() });
    let mut o = any_options(g);
    o.layout.print_width = 100_000;
    let source = plain_render(g, &doc.toks, false);
    let formatted = fmt(&source, &o)?;
    let tree = root(&formatted).syntax().clone();
    let at_line_start = |i: usize| {
        let start = formatted[..i].rfind('\n').map_or(0, |i| i + 1);
        formatted[start..i].trim().is_empty()
    };
    let nodes = tree
        .descendants()
        .filter(|n| {
            n.kind() != wat_syntax::SyntaxKind::ROOT
                && at_line_start(usize::from(n.text_range().start()))
                && n.descendants_with_tokens().any(|e| e.kind() == wat_syntax::SyntaxKind::WHITESPACE)
        })
        .collect::<Vec<_>>();
    if nodes.is_empty() {
        case.label("nothing to disturb");
        return Ok(());
    }
    let node = &nodes[g.below(nodes.len())];
    let (s, e) = (usize::from(node.text_range().start()), usize::from(node.text_range().end()));
    let mut text = formatted[..s].to_string();
    let tokens = node.descendants_with_tokens().filter_map(|e| e.into_token()).collect::<Vec<_>>();
    for (i, t) in tokens.iter().enumerate() {
        let around = |i: usize, c: &str| tokens.get(i).is_some_and(|t| t.text() == c);
        if t.kind() == wat_syntax::SyntaxKind::WHITESPACE {
            let removable = i > 0 && (around(i - 1, ")") || around(i + 1, ")"));
            if t.text().matches('\n').count() > 1 || g.chance(1, 3) {
                text += t.text();
            } else if !(removable && g.chance(1, 3)) {
                text += *g.pick(&[" ", "\n", "\t", "   ", "\n  ", " \n\t"]);
            }
        } else {
            text += t.text();
            if t.text() == "(" && g.chance(1, 8) || around(i + 1, ")") && g.chance(1, 8) {
                text += *g.pick(&[" ", "\n", "\t "]);
            }
        }
    }
    let end = text.len();
    text += &formatted[e..];
    let (mut a, mut b) = (s, end);
    let whole = g.chance(1, 2);
    if !whole {
        // a range whose ends are the two ends of the construct
        a += g.below(2).min(text[s..end].find(char::is_whitespace).unwrap_or(0));
        b -= g.below(2);
        b = b.max(a);
        while !text.is_char_boundary(a) {
            a -= 1;
        }
        while !text.is_char_boundary(b) {
            b += 1;
        }
    }
    case.label("disturbed layout");
    case.rendering = format!("{o:?} range {a}..{b}\n{text}");
    case.note(&case.rendering.clone());
    let root = root(&text);
    let index = LineIndex::new(&text);
    let range = rowan::TextRange::new((a as u32).into(), (b as u32).into());
    let Some((new, got)) = guard(|| wat_formatter::format_range(&root, &o, range, &index))? else {
        return Err(format!("nothing is offered for a {:?}", node.kind()));
    };
    case.nontrivial = text != formatted;
    let (gs, ge) = (usize::from(got.start()), usize::from(got.end()));
    let out = format!("{}{new}{}", &text[..gs], &text[ge..]);
    case.rendering = format!("{o:?} range {a}..{b} affected {gs}..{ge}\n{text}\n==>\n{out}\ninstead of\n{formatted}");
    if gs > s || ge < end {
        return Err(format!("the affected range {gs}..{ge} does not cover the construct {s}..{end}"));
    }
    if out != formatted {
        return Err("range formatting does not restore the disturbed layout".into());
    }
    Ok(())
}

fn c10(g: &mut G, case: &mut Case) -> Outcome {
    if g.chance(1, 4) {
        return c10_restore(g, case);
    }
    let doc = gen_doc(g, Cfg { hex_refs: true, undefined: true, export_import: false, ..Cfg::default() });
    let mut o = any_options(g);
    let formatted = g.chance(1, 3);
    if formatted {
        // what fits on a line depends on the column where the range starts
        o.layout.print_width = 100_000;
    }
    let text = if formatted {
        case.label("formatted source");
        let text = plain_render(g, &doc.toks, false);
        fmt(&text, &o)?
    } else {
        let r = any_render(g);
        render(g, &doc.toks, &r).text
    };
    let mut a = g.below(text.len() + 1);
    let mut b = g.below(text.len() + 1);
    if g.chance(1, 2) {
        b = (a + g.below(12)).min(text.len());
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    while !text.is_char_boundary(a) {
        a -= 1;
    }
    while !text.is_char_boundary(b) {
        b += 1;
    }
    case.rendering = format!("{o:?} range {a}..{b}\n{text}");
    case.note(&case.rendering.clone());
    let root = root(&text);
    let index = LineIndex::new(&text);
    let range = rowan::TextRange::new((a as u32).into(), (b as u32).into());
    let Some((new, got)) = guard(|| wat_formatter::format_range(&root, &o, range, &index))? else {
        return Err("nothing is offered for the range".into());
    };
    case.nontrivial = doc.toks.len() >= 20;
    let (s, e) = (usize::from(got.start()), usize::from(got.end()));
    if s > a || e < b {
        return Err(format!("the affected range {s}..{e} does not cover the requested one"));
    }
    if e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
        return Err(format!("the affected range {s}..{e} is not a range of the source"));
    }
    if s == 0 && e == text.len() {
        case.label("whole document");
    }
    let out = format!("{}{new}{}", &text[..s], &text[e..]);
    case.rendering = format!("{o:?} range {a}..{b} affected {s}..{e}\n{text}\n==>\n{out}");
    if let Some(d) = diff_skeleton(&skeleton(&text, &o), &skeleton(&out, &o)) {
        return Err(format!("range formatting changes the token sequence {d}"));
    }
    let line_start = text[..s].rfind('\n').map_or(0, |i| i + 1);
    if formatted && text[line_start..s].trim().is_empty() && out != text {
        return Err("range formatting changes a formatted source".into());
    }
    Ok(())
}
