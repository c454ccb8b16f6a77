//! The typed view of syntax trees (crate `wat_syntax`).

use crate::{engine::*, lsp::bind_cfg, mutate::*, wat::*};
use rowan::{
    ast::{AstChildren, AstNode},
    Language,
};
use wat_syntax::{ast, is_punc, is_trivia, SyntaxKind, SyntaxNode, SyntaxToken, WatLanguage};
use SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "grammar-generated modules (the typed view compared with the derivation) and corrupted texts (compared with the untyped tree); every accessor of every node; non-trivial: at least 12 nodes of 6 kinds",
        quick: 500_000,
        thorough: 3_000_000,
        run: c25,
        assumptions: &["nesting depth of generated text is bounded"],
    }]
}

type Span = (usize, usize);

/// What a tree is expected to look like.
pub struct M {
    kind: K,
    span: Span,
    /// empty for nodes
    text: String,
    children: Vec<M>,
}
impl M {
    fn is_tok(&self) -> bool {
        self.kind < K::MODULE_NAME
    }
}

/// The tree of the derivation, without trivia.
fn of_doc(doc: &Doc, text: &Text) -> M {
    let mut stack = vec![M {
        kind: K::ROOT,
        span: (0, text.text.len()),
        text: String::new(),
        children: vec![],
    }];
    for e in &doc.evs {
        match e {
            Ev::Open(k) => stack.push(M {
                kind: *k,
                span: (usize::MAX, 0),
                text: String::new(),
                children: vec![],
            }),
            Ev::Close => {
                let m = stack.pop().unwrap();
                stack.last_mut().unwrap().children.push(m);
            }
            Ev::Tok(t) => {
                let span = text.spans[*t];
                for m in stack.iter_mut().skip(1) {
                    m.span = (m.span.0.min(span.0), m.span.1.max(span.1));
                }
                stack.last_mut().unwrap().children.push(M {
                    kind: doc.toks[*t].kind,
                    span,
                    text: doc.toks[*t].text.clone(),
                    children: vec![],
                });
            }
        }
    }
    assert!(stack.len() == 1, "harness bug: unbalanced events");
    stack.pop().unwrap()
}

/// An untyped tree.
fn of_tree(n: &SyntaxNode) -> M {
    M {
        kind: n.kind(),
        span: node_span(n),
        text: String::new(),
        children: n
            .children_with_tokens()
            .map(|e| match e {
                rowan::NodeOrToken::Node(n) => of_tree(&n),
                rowan::NodeOrToken::Token(t) => M {
                    kind: t.kind(),
                    span: span(t.text_range()),
                    text: t.text().into(),
                    children: vec![],
                },
            })
            .collect(),
    }
}

/// Without the trivia around.
fn node_span(n: &SyntaxNode) -> Span {
    let mut s = (usize::MAX, 0);
    for t in n.descendants_with_tokens().filter_map(|e| e.into_token()) {
        if !matches!(t.kind(), K::WHITESPACE | K::LINE_COMMENT | K::BLOCK_COMMENT) {
            let (a, b) = span(t.text_range());
            s = (s.0.min(a), s.1.max(b));
        }
    }
    s
}

fn span(r: rowan::TextRange) -> Span {
    (r.start().into(), r.end().into())
}

const INSTRS: &[K] = &[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF];
const EXPORT_DESCS: &[K] = &[K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE];
const IMPORT_DESCS: &[K] = &[
    K::IMPORT_DESC_TYPE_USE,
    K::IMPORT_DESC_GLOBAL_TYPE,
    K::IMPORT_DESC_MEMORY_TYPE,
    K::IMPORT_DESC_TABLE_TYPE,
];
const FIELDS: &[K] = &[
    K::MODULE_FIELD_DATA,
    K::MODULE_FIELD_ELEM,
    K::MODULE_FIELD_EXPORT,
    K::MODULE_FIELD_FUNC,
    K::MODULE_FIELD_GLOBAL,
    K::MODULE_FIELD_IMPORT,
    K::MODULE_FIELD_MEMORY,
    K::MODULE_FIELD_START,
    K::MODULE_FIELD_TABLE,
    K::MODULE_FIELD_TYPE,
];

/// What the accessor of that name has to find.
fn expected(m: &M, name: &str) -> Vec<Span> {
    let block = matches!(m.kind, K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF);
    let end = if block {
        m.children
            .iter()
            .position(|c| c.kind == K::KEYWORD && c.text == "end")
            .unwrap_or(m.children.len())
    } else {
        m.children.len()
    };
    let toks = |kind: K| -> Vec<Span> {
        m.children.iter().filter(|c| c.is_tok() && c.kind == kind).map(|c| c.span).collect()
    };
    let first = |v: Vec<Span>| v.into_iter().take(1).collect::<Vec<_>>();
    let tok = |kind: K| first(toks(kind));
    let word = |w: &str| {
        first(
            m.children
                .iter()
                .filter(|c| c.kind == K::KEYWORD && c.text == w)
                .map(|c| c.span)
                .collect(),
        )
    };
    let nodes = |kinds: &[K]| -> Vec<Span> {
        m.children.iter().filter(|c| !c.is_tok() && kinds.contains(&c.kind)).map(|c| c.span).collect()
    };
    let node = |kind: K| first(nodes(&[kind]));
    match name {
        "l_paren_token" => tok(K::L_PAREN),
        "r_paren_token" => tok(K::R_PAREN),
        "keyword" | "func_keyword" | "mut_keyword" => tok(K::KEYWORD),
        "end_keyword" => word("end"),
        "declare_keyword" => word("declare"),
        "ident_token" => first(
            m.children[..end]
                .iter()
                .filter(|c| c.kind == K::IDENT)
                .map(|c| c.span)
                .collect(),
        ),
        "end_ident_token" => first(
            m.children[end..]
                .iter()
                .filter(|c| c.kind == K::IDENT)
                .map(|c| c.span)
                .collect(),
        ),
        "ident" => tok(K::IDENT),
        "instr_name" => tok(K::INSTR_NAME),
        "int" => tok(K::INT),
        "float" => tok(K::FLOAT),
        "string" | "string_token" => tok(K::STRING),
        "string_tokens" => toks(K::STRING),
        "unsigned_int_token" | "min" => tok(K::UNSIGNED_INT),
        "max" => toks(K::UNSIGNED_INT).into_iter().skip(1).take(1).collect(),
        "share" => tok(K::SHARE),
        "num_type" => tok(K::NUM_TYPE),
        "vec_type" => tok(K::VEC_TYPE),
        "ref_type" => tok(K::REF_TYPE),
        "heap_type" => tok(K::HEAP_TYPE),
        "mem_arg" => tok(K::MEM_ARG),
        "block_type" => node(K::BLOCK_TYPE),
        "data" => node(K::DATA),
        "elem" => node(K::ELEM),
        "elem_list" => node(K::ELEM_LIST),
        "then_block" => node(K::BLOCK_IF_THEN),
        "else_block" => node(K::BLOCK_IF_ELSE),
        "export" => node(K::EXPORT),
        "export_desc" => first(nodes(EXPORT_DESCS)),
        "func_type" => node(K::FUNC_TYPE),
        "global_type" => node(K::GLOBAL_TYPE),
        "import" => node(K::IMPORT),
        "import_desc" => first(nodes(IMPORT_DESCS)),
        "index" => node(K::INDEX),
        "instr" => first(nodes(INSTRS)),
        "limits" => node(K::LIMITS),
        "mem_use" => node(K::MEM_USE),
        "memory_type" => node(K::MEMORY_TYPE),
        "module_name" => node(K::MODULE_NAME),
        "name" => node(K::NAME),
        "offset" => node(K::OFFSET),
        "result" => node(K::RESULT),
        "table_type" => node(K::TABLE_TYPE),
        "table_use" => node(K::TABLE_USE),
        "type_use" => node(K::TYPE_USE),
        "val_type" => node(K::VAL_TYPE),
        "elem_exprs" => nodes(&[K::ELEM_EXPR]),
        "exports" => nodes(&[K::EXPORT]),
        "indexes" => nodes(&[K::INDEX]),
        "instrs" => nodes(INSTRS),
        "locals" => nodes(&[K::LOCAL]),
        "module_fields" => nodes(FIELDS),
        "modules" => nodes(&[K::MODULE]),
        "operands" => nodes(&[K::OPERAND]),
        "params" => nodes(&[K::PARAM]),
        "results" => nodes(&[K::RESULT]),
        "val_types" => nodes(&[K::VAL_TYPE]),
        _ => panic!("harness bug: accessor {name}"),
    }
}

fn tok(t: Option<SyntaxToken>) -> Vec<Span> {
    toks(t.into_iter())
}
fn toks(t: impl Iterator<Item = SyntaxToken>) -> Vec<Span> {
    t.map(|t| span(t.text_range())).collect()
}
fn node<N: AstNode<Language = WatLanguage>>(n: Option<N>) -> Vec<Span> {
    n.iter().map(|n| node_span(n.syntax())).collect()
}
fn nodes<N: AstNode<Language = WatLanguage>>(n: AstChildren<N>) -> Vec<Span> {
    n.map(|n| node_span(n.syntax())).collect()
}

macro_rules! typed {
    ($($t:ident $k:ident { $($cat:ident $acc:ident),* })*) => {
        /// All accessors of the typed node: (name, places).
        fn view(n: &SyntaxNode) -> Result<Vec<(&'static str, Vec<Span>)>, String> {
            let mut casts = 0;
            let mut v = vec![];
            $(
                if let Some(t) = ast::$t::cast(n.clone()) {
                    casts += 1;
                    if n.kind() != K::$k {
                        return Err(format!("{:?} is taken for {}", n.kind(), stringify!($t)));
                    }
                    if t.syntax() != n {
                        return Err(format!("{} changes the node", stringify!($t)));
                    }
                    $(v.push((stringify!($acc), $cat(t.$acc())));)*
                } else if n.kind() == K::$k {
                    return Err(format!("{:?} is not taken for {}", n.kind(), stringify!($t)));
                }
            )*
            if casts > 1 {
                return Err(format!("{:?} is taken for {casts} types", n.kind()));
            }
            Ok(v)
        }
        fn can_cast(k: K) -> Outcome {
            $(
                if ast::$t::can_cast(k) != (k == K::$k) {
                    return Err(format!("{}::can_cast({k:?})", stringify!($t)));
                }
            )*
            Ok(())
        }
    };
}
typed! {
    Root ROOT { nodes modules }
    BlockBlock BLOCK_BLOCK { tok l_paren_token, tok keyword, tok ident_token, node block_type, nodes instrs, tok r_paren_token, tok end_keyword, tok end_ident_token }
    BlockIf BLOCK_IF { tok l_paren_token, tok keyword, tok ident_token, node block_type, nodes instrs, node then_block, node else_block, tok r_paren_token, tok end_keyword, tok end_ident_token }
    BlockIfElse BLOCK_IF_ELSE { tok l_paren_token, tok keyword, tok ident_token, nodes instrs, tok r_paren_token }
    BlockIfThen BLOCK_IF_THEN { tok l_paren_token, tok keyword, tok ident_token, nodes instrs, tok r_paren_token }
    BlockLoop BLOCK_LOOP { tok l_paren_token, tok keyword, tok ident_token, node block_type, nodes instrs, tok r_paren_token, tok end_keyword, tok end_ident_token }
    BlockType BLOCK_TYPE { node result, node type_use }
    Operand OPERAND { tok float, tok int, tok string, tok ident, node type_use, node instr, tok mem_arg, tok heap_type }
    PlainInstr PLAIN_INSTR { tok l_paren_token, tok instr_name, nodes operands, tok r_paren_token }
    Data DATA { tok l_paren_token, tok keyword, toks string_tokens, tok r_paren_token }
    Elem ELEM { tok l_paren_token, tok keyword, nodes elem_exprs, nodes indexes, tok r_paren_token }
    ElemExpr ELEM_EXPR { tok l_paren_token, tok keyword, nodes instrs, tok r_paren_token }
    ElemList ELEM_LIST { tok func_keyword, nodes indexes, tok ref_type, nodes elem_exprs }
    Export EXPORT { tok l_paren_token, tok keyword, node name, tok r_paren_token }
    ExportDescFunc EXPORT_DESC_FUNC { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    ExportDescGlobal EXPORT_DESC_GLOBAL { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    ExportDescMemory EXPORT_DESC_MEMORY { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    ExportDescTable EXPORT_DESC_TABLE { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    Import IMPORT { tok l_paren_token, tok keyword, node module_name, node name, tok r_paren_token }
    ImportDescGlobalType IMPORT_DESC_GLOBAL_TYPE { tok l_paren_token, tok keyword, tok ident_token, node global_type, tok r_paren_token }
    ImportDescMemoryType IMPORT_DESC_MEMORY_TYPE { tok l_paren_token, tok keyword, tok ident_token, node memory_type, tok r_paren_token }
    ImportDescTableType IMPORT_DESC_TABLE_TYPE { tok l_paren_token, tok keyword, tok ident_token, node table_type, tok r_paren_token }
    ImportDescTypeUse IMPORT_DESC_TYPE_USE { tok l_paren_token, tok keyword, tok ident_token, node type_use, tok r_paren_token }
    Index INDEX { tok ident_token, tok unsigned_int_token }
    Local LOCAL { tok l_paren_token, tok keyword, tok ident_token, nodes val_types, tok r_paren_token }
    MemUse MEM_USE { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    Module MODULE { tok l_paren_token, tok keyword, tok ident_token, nodes module_fields, tok r_paren_token }
    ModuleFieldData MODULE_FIELD_DATA { tok l_paren_token, tok keyword, tok ident_token, node mem_use, node offset, toks string_tokens, tok r_paren_token }
    ModuleFieldElem MODULE_FIELD_ELEM { tok l_paren_token, tok keyword, tok ident_token, tok declare_keyword, node table_use, node offset, node elem_list, tok r_paren_token }
    ModuleFieldExport MODULE_FIELD_EXPORT { tok l_paren_token, tok keyword, node name, node export_desc, tok r_paren_token }
    ModuleFieldFunc MODULE_FIELD_FUNC { tok l_paren_token, tok keyword, tok ident_token, node import, nodes exports, node type_use, nodes locals, nodes instrs, tok r_paren_token }
    ModuleFieldGlobal MODULE_FIELD_GLOBAL { tok l_paren_token, tok keyword, tok ident_token, node import, node export, node global_type, nodes instrs, tok r_paren_token }
    ModuleFieldImport MODULE_FIELD_IMPORT { tok l_paren_token, tok keyword, node module_name, node name, node import_desc, tok r_paren_token }
    ModuleFieldMemory MODULE_FIELD_MEMORY { tok l_paren_token, tok keyword, tok ident_token, node import, node export, node memory_type, node data, tok r_paren_token }
    ModuleFieldStart MODULE_FIELD_START { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    ModuleFieldTable MODULE_FIELD_TABLE { tok l_paren_token, tok keyword, tok ident_token, node import, node export, node table_type, tok ref_type, node elem, tok r_paren_token }
    ModuleFieldType MODULE_FIELD_TYPE { tok l_paren_token, tok keyword, tok ident_token, node func_type, tok r_paren_token }
    ModuleName MODULE_NAME { tok string_token }
    Name NAME { tok string_token }
    Offset OFFSET { tok l_paren_token, tok keyword, nodes instrs, tok r_paren_token }
    TableUse TABLE_USE { tok l_paren_token, tok keyword, node index, tok r_paren_token }
    TypeUse TYPE_USE { tok l_paren_token, tok keyword, node index, tok r_paren_token, nodes params, nodes results }
    FuncType FUNC_TYPE { tok l_paren_token, tok keyword, nodes params, nodes results, tok r_paren_token }
    GlobalType GLOBAL_TYPE { tok l_paren_token, tok mut_keyword, node val_type, tok r_paren_token }
    Limits LIMITS { tok min, tok max, tok share }
    MemoryType MEMORY_TYPE { node limits }
    Param PARAM { tok l_paren_token, tok keyword, tok ident_token, nodes val_types, tok r_paren_token }
    Result RESULT { tok l_paren_token, tok keyword, nodes val_types, tok r_paren_token }
    TableType TABLE_TYPE { node limits, tok ref_type }
    ValType VAL_TYPE { tok num_type, tok vec_type, tok ref_type }
}

macro_rules! sums {
    ($($t:ident { $($v:ident $k:ident),* } $all:expr;)*) => {
        fn sums(n: &SyntaxNode) -> Outcome {
            $(
                let variant = match ast::$t::cast(n.clone()) {
                    $(Some(ast::$t::$v(x)) => Some((x.syntax().clone(), K::$k)),)*
                    #[allow(unreachable_patterns)]
                    Some(_) => Some((n.clone(), n.kind())),
                    None => None,
                };
                match variant {
                    Some((x, k)) => {
                        if x != *n || k != n.kind() || !$all.contains(&n.kind()) {
                            return Err(format!("{:?} is taken for {} of {k:?}", n.kind(), stringify!($t)));
                        }
                        if ast::$t::cast(n.clone()).is_some_and(|t| t.syntax() != n) {
                            return Err(format!("{} changes the node", stringify!($t)));
                        }
                    }
                    None => {
                        if $all.contains(&n.kind()) {
                            return Err(format!("{:?} is not taken for {}", n.kind(), stringify!($t)));
                        }
                    }
                }
                if ast::$t::can_cast(n.kind()) != $all.contains(&n.kind()) {
                    return Err(format!("{}::can_cast({:?})", stringify!($t), n.kind()));
                }
            )*
            Ok(())
        }
    };
}
sums! {
    Instr { Plain PLAIN_INSTR } INSTRS;
    BlockInstr { Block BLOCK_BLOCK, Loop BLOCK_LOOP, If BLOCK_IF } INSTRS[1..];
    ExportDesc { Func EXPORT_DESC_FUNC, Global EXPORT_DESC_GLOBAL, Memory EXPORT_DESC_MEMORY, Table EXPORT_DESC_TABLE } EXPORT_DESCS;
    ImportDesc { TypeUse IMPORT_DESC_TYPE_USE, GlobalType IMPORT_DESC_GLOBAL_TYPE, MemoryType IMPORT_DESC_MEMORY_TYPE, TableType IMPORT_DESC_TABLE_TYPE } IMPORT_DESCS;
    ModuleField {
        Data MODULE_FIELD_DATA, Elem MODULE_FIELD_ELEM, Export MODULE_FIELD_EXPORT, Func MODULE_FIELD_FUNC,
        Global MODULE_FIELD_GLOBAL, Import MODULE_FIELD_IMPORT, Memory MODULE_FIELD_MEMORY, Start MODULE_FIELD_START,
        Table MODULE_FIELD_TABLE, Type MODULE_FIELD_TYPE
    } FIELDS;
}

fn kinds() -> Outcome {
    for raw in 0..=K::ROOT as u16 {
        let k = WatLanguage::kind_from_raw(rowan::SyntaxKind(raw));
        if k as u16 != raw || WatLanguage::kind_to_raw(k).0 != raw {
            return Err(format!("kind {raw} is read as {k:?}"));
        }
        can_cast(k)?;
    }
    Ok(())
}

/// Compare the typed view of `n` and everything below with `m`.
fn compare(n: &SyntaxNode, m: &M, stats: &mut (usize, Vec<K>)) -> Outcome {
    stats.0 += 1;
    if !stats.1.contains(&m.kind) {
        stats.1.push(m.kind);
    }
    sums(n)?;
    for (name, got) in view(n)? {
        let want = expected(m, name);
        if got != want {
            return Err(format!(
                "{name} of {:?} at {:?} is {got:?} instead of {want:?}",
                m.kind, m.span
            ));
        }
    }
    let below: Vec<SyntaxNode> = n.children().collect();
    let wanted: Vec<&M> = m.children.iter().filter(|c| !c.is_tok()).collect();
    if below.len() != wanted.len() {
        return Err(format!("{:?} at {:?} has {} nodes instead of {}", m.kind, m.span, below.len(), wanted.len()));
    }
    for (n, m) in below.iter().zip(wanted) {
        compare(n, m, stats)?;
    }
    for t in n.children_with_tokens().filter_map(|e| e.into_token()) {
        let trivia = matches!(t.kind(), K::WHITESPACE | K::LINE_COMMENT | K::BLOCK_COMMENT);
        if is_trivia(&t) != trivia || is_punc(&t) != matches!(t.text(), "(" | ")") && t.kind() != K::ERROR {
            return Err(format!("{:?} {:?} is misjudged", t.kind(), t.text()));
        }
    }
    Ok(())
}

fn c25(g: &mut G, case: &mut Case) -> Outcome {
    let mut stats = (0, vec![]);
    guard(kinds)??;
    if g.chance(1, 4) {
        let (text, class) = any_text(g, small());
        case.label(class);
        case.rendering = text.clone();
        case.note(&text);
        let root = guard(|| wat_parser::Parser::new(&text).parse())?;
        guard(|| compare(&root, &of_tree(&root), &mut stats))??;
    } else {
        let cfg = if g.chance(1, 2) { Cfg::default() } else { bind_cfg(g) };
        let doc = gen_doc(g, cfg);
        let r = any_render(g);
        let text = render(g, &doc.toks, &r);
        case.label("derived");
        case.rendering = text.text.clone();
        case.note(&text.text);
        let root = guard(|| wat_parser::Parser::new(&text.text).parse())?;
        let mut m = of_doc(&doc, &text);
        if m.children.len() == 1 && m.children[0].kind == K::ROOT {
            m = m.children.pop().unwrap();
        }
        guard(|| compare(&root, &m, &mut stats))??;
    }
    case.nontrivial = stats.0 >= 12 && stats.1.len() >= 6;
    Ok(())
}
