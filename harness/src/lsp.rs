//! In-process client of the language service.

use crate::engine::{guard, G};
use crate::wat::{Cfg, Doc, Space, Text};
use lsp_types::*;
use serde_json::{json, Value};
use wat_service::LanguageService;


/// Offsets to LSP positions (lines separated by `\n`, UTF-16 columns) and back.
pub struct Lines {
    pub text: String,
    starts: Vec<usize>,
}
impl Lines {
    pub fn new(text: &str) -> Self {
        let mut starts = vec![0];
        starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Lines {
            text: text.to_string(),
            starts,
        }
    }
    pub fn pos(&self, off: usize) -> Position {
        let line = self.starts.partition_point(|s| *s <= off) - 1;
        let col = self.text[self.starts[line]..off].encode_utf16().count();
        Position::new(line as u32, col as u32)
    }
    pub fn range(&self, s: usize, e: usize) -> Range {
        Range::new(self.pos(s), self.pos(e))
    }
    /// Byte offset of a position; `None` unless it denotes one exactly.
    pub fn off(&self, p: Position) -> Option<usize> {
        let s = *self.starts.get(p.line as usize)?;
        let e = self.starts.get(p.line as usize + 1).map_or(self.text.len(), |n| n - 1);
        let mut col = 0;
        for (i, c) in self.text[s..e].char_indices() {
            if col == p.character as usize {
                return Some(s + i);
            }
            col += c.len_utf16();
        }
        (col == p.character as usize).then_some(e)
    }
    pub fn span(&self, r: Range) -> Option<(usize, usize)> {
        let (s, e) = (self.off(r.start)?, self.off(r.end)?);
        (s <= e).then_some((s, e))
    }
    pub fn line_count(&self) -> usize {
        self.starts.len()
    }
    pub fn line_start(&self, l: usize) -> usize {
        self.starts[l]
    }
    pub fn apply(&self, edits: &[TextEdit]) -> Result<String, String> {
        let mut es = vec![];
        for e in edits {
            let Some((s, t)) = self.span(e.range) else {
                return Err(format!("edit range {:?} is not in the document", e.range));
            };
            es.push((s, t, e.new_text.as_str()));
        }
        es.sort();
        let mut out = String::new();
        let mut at = 0;
        for (s, t, n) in es {
            if s < at {
                return Err("edits overlap".into());
            }
            out.push_str(&self.text[at..s]);
            out.push_str(n);
            at = t;
        }
        out.push_str(&self.text[at..]);
        Ok(out)
    }
}

pub const TOKEN_TYPES: [SemanticTokenType; 9] = [
    SemanticTokenType::TYPE,
    SemanticTokenType::PARAMETER,
    SemanticTokenType::VARIABLE,
    SemanticTokenType::FUNCTION,
    SemanticTokenType::KEYWORD,
    SemanticTokenType::COMMENT,
    SemanticTokenType::STRING,
    SemanticTokenType::NUMBER,
    SemanticTokenType::OPERATOR,
];

pub fn uri(n: usize) -> Uri {
    format!("file:///w/doc{n}.wat").parse().unwrap()
}

pub struct Svc {
    pub s: LanguageService,
    pub uri: Uri,
}

pub fn init(s: &mut LanguageService, types: Vec<SemanticTokenType>) -> InitializeResult {
    s.initialize(InitializeParams {
        capabilities: ClientCapabilities {
            text_document: Some(TextDocumentClientCapabilities {
                semantic_tokens: Some(SemanticTokensClientCapabilities {
                    token_types: types,
                    ..Default::default()
                }),
                ..Default::default()
            }),
            ..Default::default()
        },
        ..Default::default()
    })
}

impl Svc {
    pub fn new(text: &str) -> Svc {
        let mut s = LanguageService::default();
        init(&mut s, TOKEN_TYPES.to_vec());
        let u = uri(0);
        s.commit(u.clone(), text.to_string());
        Svc { s, uri: u }
    }
    pub fn id(&self) -> TextDocumentIdentifier {
        TextDocumentIdentifier { uri: self.uri.clone() }
    }
    pub fn tdp(&self, p: Position) -> TextDocumentPositionParams {
        TextDocumentPositionParams {
            text_document: self.id(),
            position: p,
        }
    }
    fn gdp(&self, p: Position) -> GotoDefinitionParams {
        GotoDefinitionParams {
            text_document_position_params: self.tdp(p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }
    }
    fn locs(&self, r: Option<GotoDefinitionResponse>) -> Result<Vec<Range>, String> {
        let v = match r {
            None => vec![],
            Some(GotoDefinitionResponse::Scalar(l)) => vec![l],
            Some(GotoDefinitionResponse::Array(l)) => l,
            Some(GotoDefinitionResponse::Link(_)) => return Err("unexpected link response".into()),
        };
        self.ranges(v)
    }
    fn ranges(&self, v: Vec<Location>) -> Result<Vec<Range>, String> {
        let mut out = vec![];
        for l in v {
            if l.uri != self.uri {
                return Err(format!("location in another document: {:?}", l.uri));
            }
            out.push(l.range);
        }
        out.sort_by_key(|r| (r.start, r.end));
        Ok(out)
    }
    pub fn definition(&self, p: Position) -> Result<Vec<Range>, String> {
        self.locs(guard(|| self.s.goto_definition(self.gdp(p)))?)
    }
    pub fn declaration(&self, p: Position) -> Result<Vec<Range>, String> {
        self.locs(guard(|| self.s.goto_declaration(self.gdp(p)))?)
    }
    pub fn type_definition(&self, p: Position) -> Result<Vec<Range>, String> {
        self.locs(guard(|| self.s.goto_type_definition(self.gdp(p)))?)
    }
    pub fn references(&self, p: Position, decl: bool) -> Result<Vec<Range>, String> {
        let r = guard(|| {
            self.s.find_references(ReferenceParams {
                text_document_position: self.tdp(p),
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
                context: ReferenceContext {
                    include_declaration: decl,
                },
            })
        })?;
        self.ranges(r.unwrap_or_default())
    }
    /// `Err` inside: refused; `None`: no edit.
    pub fn rename(&self, p: Position, name: &str) -> Result<Result<Option<Vec<TextEdit>>, String>, String> {
        let r = guard(|| {
            self.s.rename(RenameParams {
                text_document_position: self.tdp(p),
                new_name: name.into(),
                work_done_progress_params: Default::default(),
            })
        })?;
        match r {
            Err(e) => Ok(Err(e)),
            Ok(None) => Ok(Ok(None)),
            Ok(Some(e)) => {
                if e.document_changes.is_some() {
                    return Err("unexpected document_changes".into());
                }
                let c = e.changes.unwrap_or_default();
                if c.keys().any(|u| *u != self.uri) {
                    return Err("edit in another document".into());
                }
                Ok(Ok(Some(c.into_values().flatten().collect())))
            }
        }
    }
    pub fn prepare_rename(&self, p: Position) -> Result<Option<Range>, String> {
        match guard(|| self.s.prepare_rename(self.tdp(p)))? {
            None => Ok(None),
            Some(PrepareRenameResponse::Range(r)) => Ok(Some(r)),
            Some(r) => Err(format!("unexpected response {r:?}")),
        }
    }
    pub fn diagnostics(&self) -> Result<Vec<Diagnostic>, String> {
        let r = guard(|| {
            self.s.pull_diagnostics(DocumentDiagnosticParams {
                text_document: self.id(),
                identifier: None,
                previous_result_id: None,
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            })
        })?;
        match r {
            DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(f)) => {
                Ok(f.full_document_diagnostic_report.items)
            }
            r => Err(format!("not a full report: {r:?}")),
        }
    }
    pub fn hover(&self, p: Position) -> Result<Option<Hover>, String> {
        guard(|| {
            self.s.hover(HoverParams {
                text_document_position_params: self.tdp(p),
                work_done_progress_params: Default::default(),
            })
        })
    }
}

pub const POSITION_METHODS: [&str; 9] = [
    "definition",
    "declaration",
    "typeDefinition",
    "references",
    "hover",
    "completion",
    "rename",
    "prepareRename",
    "prepareCallHierarchy",
];
pub const RANGE_METHODS: [&str; 4] = ["codeAction", "inlayHint", "rangeFormatting", "semanticTokens/range"];
/// Methods that take a call hierarchy item, which may be outdated.
pub const ITEM_METHODS: [&str; 2] = ["incomingCalls", "outgoingCalls"];
pub const DOC_METHODS: [&str; 7] = [
    "diagnostic",
    "publishDiagnostics",
    "documentSymbol",
    "foldingRange",
    "formatting",
    "semanticTokens/full",
    "selectionRange",
];

/// Any request, by method; the response as JSON (what a client would see).
pub fn request(s: &LanguageService, method: &str, p: Value) -> Value {
    fn to<T: serde::de::DeserializeOwned>(p: Value) -> T {
        serde_json::from_value(p).expect("harness bug: parameters")
    }
    fn v<T: serde::Serialize>(t: T) -> Value {
        serde_json::to_value(t).expect("response is not JSON")
    }
    match method {
        "definition" => v(s.goto_definition(to(p))),
        "declaration" => v(s.goto_declaration(to(p))),
        "typeDefinition" => v(s.goto_type_definition(to(p))),
        "references" => v(s.find_references(to(p))),
        "hover" => v(s.hover(to(p))),
        "completion" => v(s.completion(to(p))),
        "rename" => match s.rename(to(p)) {
            Ok(r) => v(r),
            Err(e) => json!({ "error": e }),
        },
        "prepareRename" => v(s.prepare_rename(to(p))),
        "prepareCallHierarchy" => v(s.prepare_call_hierarchy(to(p))),
        "incomingCalls" => v(s.call_hierarchy_incoming_calls(to(p))),
        "outgoingCalls" => v(s.call_hierarchy_outgoing_calls(to(p))),
        "codeAction" => v(s.code_action(to(p))),
        "inlayHint" => v(s.inlay_hint(to(p))),
        "rangeFormatting" => v(s.range_formatting(to(p))),
        "semanticTokens/range" => v(s.semantic_tokens_range(to(p))),
        "diagnostic" => v(s.pull_diagnostics(to(p))),
        "publishDiagnostics" => v(s.publish_diagnostics(to(p["textDocument"]["uri"].clone()))),
        "documentSymbol" => v(s.document_symbol(to(p))),
        "foldingRange" => v(s.folding_range(to(p))),
        "formatting" => v(s.formatting(to(p))),
        "semanticTokens/full" => v(s.semantic_tokens_full(to(p))),
        "selectionRange" => v(s.selection_range(to(p))),
        _ => panic!("harness bug: method {method}"),
    }
}

/// Parameters for `method` at `p`/`r` (fields a method does not use are ignored).
pub fn params(u: &Uri, p: Position, r: Range, extra: u32) -> Value {
    json!({
        "textDocument": {"uri": u.as_str()},
        "position": p,
        "range": r,
        "positions": [p, r.start, r.end],
        "item": {"name": "f", "kind": 12, "uri": u.as_str(), "range": r, "selectionRange": r},
        "newName": (["$zz9", "$q", "bad", "$"])[extra as usize % 4],
        "context": {"includeDeclaration": extra % 2 == 0, "diagnostics": [], "triggerKind": 1},
        "options": {"tabSize": ([2, 4, 1, 8])[extra as usize % 4], "insertSpaces": extra % 3 != 0},
    })
}

/// Order-insensitive form of a response: diagnostics come in no particular order.
pub fn canon(method: &str, mut v: Value) -> Value {
    let key = match method {
        "diagnostic" => "items",
        "publishDiagnostics" => "diagnostics",
        _ => return v,
    };
    if let Some(items) = v.get_mut(key).and_then(|i| i.as_array_mut()) {
        items.sort_by_key(|i| i.to_string());
    }
    v
}

pub fn bind_cfg(g: &mut G) -> Cfg {
    Cfg {
        bind: true,
        max_modules: if g.chance(1, 4) { 2 } else { 1 },
        max_fields: 8,
        max_instrs: 5,
        hex_refs: true,
        named: if g.chance(1, 4) { 35 } else { 75 },
        ..Cfg::default()
    }
}

impl Doc {
    /// The token range that represents a definition in locations.
    pub fn def_span(&self, t: &Text, d: usize) -> (usize, usize) {
        let def = &self.defs[d];
        if let Some(n) = def.name_tok {
            return t.spans[n];
        }
        if def.space == Space::Local {
            return t.spans[def.first];
        }
        // the keyword
        let k = if self.toks[def.first].text == "(" { def.first + 1 } else { def.first };
        t.spans[k]
    }
    pub fn node_span(&self, t: &Text, d: usize) -> (usize, usize) {
        let def = &self.defs[d];
        (t.spans[def.first].0, t.spans[def.last].1)
    }
    /// Definitions a reference resolves to (several when names are duplicated).
    pub fn resolve_all(&self, r: usize) -> Vec<usize> {
        let rf = &self.refs[r];
        let Some(d) = rf.def else { return vec![] };
        if !rf.by_name || matches!(rf.space, Space::Local | Space::Label) {
            return vec![d];
        }
        let name = &self.defs[d].name;
        (0..self.defs.len())
            .filter(|i| {
                let e = &self.defs[*i];
                e.space == rf.space && e.module == rf.module && &e.name == name
            })
            .collect()
    }
}
