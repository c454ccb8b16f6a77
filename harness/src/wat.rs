//! Grammar-based generator of WebAssembly text modules. Besides the text it
//! produces the expected syntax tree (as an event stream) and the binding
//! structure (definitions and references with their index spaces).

use crate::{engine::G, instrs};
use wat_syntax::SyntaxKind::{self as K, *};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    V128,
    FuncRef,
    ExternRef,
}
impl Ty {
    pub const ALL: [Ty; 7] = [
        Ty::I32,
        Ty::I64,
        Ty::F32,
        Ty::F64,
        Ty::V128,
        Ty::FuncRef,
        Ty::ExternRef,
    ];
    pub fn text(self) -> &'static str {
        match self {
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
            Ty::V128 => "v128",
            Ty::FuncRef => "funcref",
            Ty::ExternRef => "externref",
        }
    }
    pub fn kind(self) -> K {
        match self {
            Ty::V128 => VEC_TYPE,
            Ty::FuncRef | Ty::ExternRef => REF_TYPE,
            _ => NUM_TYPE,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Space {
    Func,
    Type,
    Global,
    Memory,
    Table,
    Local,
    Label,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: K,
    pub text: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Open(K),
    Close,
    Tok(usize),
}

#[derive(Clone, Debug)]
pub struct Sig {
    /// (name, type) of every parameter, flattened
    pub params: Vec<(Option<String>, Ty)>,
    pub results: Vec<Ty>,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub space: Space,
    pub module: usize,
    /// the function that contains a local or a label
    pub func: Option<usize>,
    pub index: usize,
    /// position among all module-level definitions of the module
    pub shared: usize,
    pub name: Option<String>,
    /// token index of the name
    pub name_tok: Option<usize>,
    /// first and last token of the defining construct: for unnamed
    /// parameters and locals this is the value type itself
    pub first: usize,
    pub last: usize,
    pub is_param: bool,
    pub ty: Option<Ty>,
    pub mutable: bool,
    pub sig: Option<Sig>,
    /// for functions: the type definition named by `(type …)`
    pub type_def: Option<usize>,
    pub import: bool,
    /// for labels: nesting path of the enclosing labels (ids of defs)
    pub enclosing: Vec<usize>,
    /// token range of the function header relevant parts
    pub type_only: bool,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub space: Space,
    pub module: usize,
    pub func: Option<usize>,
    pub tok: usize,
    pub def: Option<usize>,
    pub by_name: bool,
    pub site: &'static str,
    /// tokens of the whole instruction/construct, filled when closed
    pub scope_labels: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub toks: Vec<Tok>,
    pub evs: Vec<Ev>,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    /// token range of every module
    pub modules: Vec<(usize, usize)>,
    /// (module, first tok, last tok) of every module field
    pub fields: Vec<(usize, usize, usize)>,
    pub labels: Vec<&'static str>,
    /// labels repeated after `else` and `end`: (token, definition)
    pub end_labels: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// write numeric references only where the service's numbering agrees
    /// with the index space (see known findings)
    pub bind: bool,
    pub max_modules: usize,
    pub max_fields: usize,
    pub max_instrs: usize,
    pub depth: usize,
    /// use the exotic literal/identifier/string pools
    pub exotic: bool,
    /// allow references to nothing
    pub undefined: bool,
    /// allow duplicate definitions in one index space
    pub duplicates: bool,
    /// write numeric references also in hexadecimal
    pub hex_refs: bool,
    pub shared_limits: bool,
    /// functions with both an inline export and an inline import
    pub export_import: bool,
    /// only sources whose parse tree and meaning follow the core spec grammar order
    pub blocks: bool,
    /// allow a function that has only `(type …)` and yet numeric local refs
    pub type_only_funcs: bool,
    /// names come from a tiny pool shared by all index spaces
    /// probability (percent) that a definition is named
    pub named: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            bind: false,
            max_modules: 1,
            max_fields: 7,
            max_instrs: 5,
            depth: 3,
            exotic: true,
            undefined: false,
            duplicates: false,
            hex_refs: false,
            shared_limits: true,
            export_import: true,
            blocks: true,
            type_only_funcs: true,
            named: 65,
        }
    }
}

pub const NAMES: &[&str] = &["$a", "$b", "$c", "$d", "$e", "$f", "$g", "$h"];
pub const EXOTIC_NAMES: &[&str] = &[
    "$x", "$foo.bar", "$0", "$_", "$a-b", "$!#$%&*+-./:<=>?@\\^_`|~", "$end", "$func", "$A1",
];

pub struct B<'g> {
    pub g: &'g mut G,
    pub cfg: Cfg,
    pub d: Doc,
    pub cur_module: usize,
    pub cur_func: Option<usize>,
    pub labels: Vec<usize>,
    names: usize,
    field_weights: [usize; 13],
    instr_weights: [usize; 11],
}

#[derive(Clone, Debug)]
pub struct SigDecl {
    pub type_def: Option<usize>,
    pub params: Vec<(Option<String>, Vec<Ty>)>,
    pub results: Vec<Vec<Ty>>,
}

#[derive(Clone, Debug)]
pub enum Field {
    Type { def: usize, decl: SigDecl },
    ImportFunc { def: usize, decl: SigDecl },
    ImportGlobal { def: usize },
    ImportMemory { def: usize },
    ImportTable { def: usize },
    Func { def: usize, decl: SigDecl },
    Global { def: usize },
    Memory { def: usize },
    Table { def: usize },
    Export,
    Start,
    Elem,
    Data,
}

impl<'g> B<'g> {
    pub fn new(g: &'g mut G, cfg: Cfg) -> Self {
        // now and then only some kinds of fields and instructions, so that
        // rare kinds meet each other
        let mut field_weights = [10, 4, 5, 2, 2, 2, 2, 1, 1, 2, 1, 2, 2];
        if g.chance(1, 4) {
            for w in &mut field_weights {
                *w = if g.chance(1, 3) { 3 } else { 0 };
            }
            field_weights[0] += 1;
        }
        let mut instr_weights = [6, 4, 3, 6, 4, 4, 3, 2, 2, 1, 1];
        if g.chance(1, 4) {
            for w in &mut instr_weights {
                *w = if g.chance(1, 3) { 4 } else { 0 };
            }
            instr_weights[0] += 1;
        }
        let names = if g.chance(1, 4) { g.range(1, 3) } else { NAMES.len() };
        B {
            g,
            cfg,
            names,
            field_weights,
            instr_weights,
            d: Doc::default(),
            cur_module: 0,
            cur_func: None,
            labels: vec![],
        }
    }
    pub fn open(&mut self, k: K) {
        self.d.evs.push(Ev::Open(k));
    }
    pub fn close(&mut self) {
        self.d.evs.push(Ev::Close);
    }
    pub fn tok(&mut self, kind: K, text: impl Into<String>) -> usize {
        let i = self.d.toks.len();
        self.d.toks.push(Tok {
            kind,
            text: text.into(),
        });
        self.d.evs.push(Ev::Tok(i));
        i
    }
    pub fn lp(&mut self) -> usize {
        self.tok(L_PAREN, "(")
    }
    pub fn rp(&mut self) -> usize {
        self.tok(R_PAREN, ")")
    }
    pub fn kw(&mut self, s: &str) -> usize {
        self.tok(KEYWORD, s)
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.d.labels.contains(&l) {
            self.d.labels.push(l);
        }
    }

    // ---- names and literals ----

    fn fresh_name(&mut self, used: &[String]) -> Option<String> {
        if !self.g.chance(self.cfg.named, 100) {
            return None;
        }
        if self.cfg.duplicates && !used.is_empty() && self.g.chance(1, 5) {
            return Some(self.g.pick(used).clone());
        }
        for _ in 0..6 {
            let n = if self.cfg.exotic && self.g.chance(1, 8) {
                let name = self.g.pick(EXOTIC_NAMES).to_string();
                match self.g.chance(1, 10) {
                    true => name.clone() + &name[1..].repeat(self.g.range(10, 70)),
                    false => name,
                }
            } else {
                self.g.pick(&NAMES[..self.names]).to_string()
            };
            if !used.contains(&n) {
                return Some(n);
            }
        }
        None
    }

    pub fn string_lit(&mut self) -> String {
        const PLAIN: &[&str] = &["\"a\"", "\"\"", "\"mem\"", "\"env\"", "\"foo bar\"", "\"m\""];
        const EXOTIC: &[&str] = &[
            "\"\\\"\"",
            "\"\\n\\t\\\\\"",
            "\"\\00\\ff\"",
            "\"\\u{1F600}\"",
            "\"(;\"",
            "\";; not a comment\"",
            "\")\"",
            "\"é漢😀\"",
            "\"$x\"",
            "\"\\u{0}\"",
            "\"  two  \"",
            "\"'\"",
        ];
        if self.cfg.exotic && self.g.chance(1, 4) {
            self.label("exotic string");
            if self.g.chance(1, 3) {
                return self.long_string();
            }
            self.g.pick(EXOTIC).to_string()
        } else {
            self.g.pick(PLAIN).to_string()
        }
    }

    pub fn uint_lit(&mut self) -> String {
        const PLAIN: &[&str] = &["0", "1", "2", "10", "65536"];
        const EXOTIC: &[&str] = &["0x10", "0xFf", "1_000", "0x1_0", "00", "4294967295"];
        if self.cfg.exotic && self.g.chance(1, 4) {
            match self.g.weighted(&[4, 1, 1]) {
                1 => self.digits(false),
                2 => format!("0x{}", self.digits(true)),
                _ => self.g.pick(EXOTIC).to_string(),
            }
        } else {
            self.g.pick(PLAIN).to_string()
        }
    }

    /// Digits, possibly with underscores between them.
    fn digits(&mut self, hex: bool) -> String {
        let n = if self.g.chance(1, 20) { self.g.range(9, 40) } else { self.g.range(1, 8) };
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.g.chance(1, 8) {
                s.push('_');
            }
            let chars: &[u8] = if hex { b"0123456789abcdefABCDEF" } else { b"0123456789" };
            s.push(*self.g.pick(chars) as char);
        }
        s
    }

    /// A float literal made by the rules of the lexical grammar.
    fn float_of_rules(&mut self) -> String {
        let hex = match self.g.weighted(&[4, 4, 1]) {
            2 => return format!("nan:0x{}", self.digits(true)),
            n => n == 1,
        };
        let mut s = String::from(if hex { "0x" } else { "" });
        s += &self.digits(hex);
        let exponent = self.g.chance(1, 2);
        if !exponent || self.g.chance(1, 2) {
            s.push('.');
            if self.g.chance(2, 3) {
                s += &self.digits(hex);
            }
        }
        if exponent {
            s.push(*self.g.pick(if hex { &['p', 'P'] } else { &['e', 'E'] }));
            s += *self.g.pick(&["", "-", "+"]);
            s += &self.digits(false);
        }
        s
    }

    /// A string literal made of arbitrary characters and escapes.
    fn long_string(&mut self) -> String {
        let mut s = String::from("\"");
        for _ in 0..self.g.range(1, 12) {
            match self.g.weighted(&[6, 2, 2, 1, 1]) {
                0 => {
                    let c = self.g.range(0x20, 0x7e) as u8 as char;
                    if matches!(c, '"' | '\\') {
                        s.push('\\');
                    }
                    s.push(c);
                }
                1 => s += *self.g.pick(&["\\t", "\\n", "\\r", "\\\"", "\\'", "\\\\"]),
                2 => {
                    let n = self.g.below(256);
                    s += &if self.g.chance(1, 2) { format!("\\{n:02X}") } else { format!("\\{n:02x}") };
                }
                3 => {
                    let n = *self.g.pick(&[0x41, 0, 0x7f, 0xe9, 0xd7ff, 0xe000, 0x1f600, 0x10ffff]);
                    s += &if self.g.chance(1, 2) { format!("\\u{{{n:x}}}") } else { format!("\\u{{{n:06X}}}") };
                }
                _ => s += *self.g.pick(&["é", "漢", "😀", "(;", ";)", ";;", "(;)", "\u{301}", "\u{a0}"]),
            }
        }
        s + "\""
    }

    pub fn int_lit(&mut self) -> String {
        let u = self.uint_lit();
        match self.g.weighted(&[6, 2, 1]) {
            1 => format!("-{u}"),
            2 => format!("+{u}"),
            _ => u,
        }
    }

    /// A literal that the lexical grammar classifies as a float, not an integer.
    pub fn float_lit(&mut self) -> String {
        const PLAIN: &[&str] = &["1.0", "0.5", "2.", "1e3", "1.5e-2"];
        const EXOTIC: &[&str] = &[
            "inf", "nan", "nan:0x1f", "0x1.8p3", "0x1p-4", "1_0.0_1", "1E+10", "0x1.", "0xA_b.c", "0x1.aP1",
            "nan:0x1_f",
        ];
        let f = if self.cfg.exotic && self.g.chance(1, 3) {
            self.label("exotic float");
            if self.g.chance(1, 2) {
                self.float_of_rules()
            } else {
                self.g.pick(EXOTIC).to_string()
            }
        } else {
            self.g.pick(PLAIN).to_string()
        };
        match self.g.weighted(&[6, 2, 1]) {
            1 => format!("-{f}"),
            2 => format!("+{f}"),
            _ => f,
        }
    }

    pub fn ty(&mut self) -> Ty {
        Ty::ALL[self.g.weighted(&[6, 3, 2, 2, 1, 1, 1])]
    }

    pub fn val_type(&mut self, ty: Ty) -> usize {
        self.open(VAL_TYPE);
        let t = self.tok(ty.kind(), ty.text());
        self.close();
        t
    }

    // ---- definitions ----

    pub fn new_def(&mut self, space: Space, name: Option<String>, index: usize) -> usize {
        let id = self.d.defs.len();
        self.d.defs.push(Def {
            space,
            module: self.cur_module,
            func: self.cur_func,
            index,
            shared: 0,
            name,
            name_tok: None,
            first: 0,
            last: 0,
            is_param: false,
            ty: None,
            mutable: false,
            sig: None,
            type_def: None,
            import: false,
            enclosing: vec![],
            type_only: false,
        });
        id
    }

    fn def_name(&mut self, def: usize) {
        if let Some(n) = self.d.defs[def].name.clone() {
            let t = self.tok(IDENT, n);
            self.d.defs[def].name_tok = Some(t);
        }
    }

    fn candidates(&self, space: Space) -> Vec<usize> {
        match space {
            Space::Local => self
                .d
                .defs
                .iter()
                .enumerate()
                .filter(|(_, d)| d.space == space && d.func == self.cur_func && d.module == self.cur_module)
                .map(|(i, _)| i)
                .collect(),
            Space::Label => self.labels.clone(),
            _ => self
                .d
                .defs
                .iter()
                .enumerate()
                .filter(|(_, d)| d.space == space && d.module == self.cur_module)
                .map(|(i, _)| i)
                .collect(),
        }
    }

    fn numeric_ok(&self, d: &Def) -> bool {
        !self.cfg.bind || matches!(d.space, Space::Local | Space::Label) || d.shared == d.index
    }

    /// Definitions that can be referred to at this place.
    pub fn targets(&self, space: Space) -> Vec<usize> {
        let mut c = self.candidates(space);
        c.retain(|d| {
            let d = &self.d.defs[*d];
            d.name.is_some() || self.numeric_ok(d)
        });
        c
    }

    /// What a name or number resolves to at this place.
    pub fn resolve(&self, space: Space, name: Option<&str>, num: usize) -> Option<usize> {
        match space {
            Space::Label => match name {
                Some(n) => self
                    .labels
                    .iter()
                    .rev()
                    .copied()
                    .find(|l| self.d.defs[*l].name.as_deref() == Some(n)),
                None => self.labels.iter().rev().nth(num).copied(),
            },
            _ => self.candidates(space).into_iter().find(|d| {
                let d = &self.d.defs[*d];
                match name {
                    Some(n) => d.name.as_deref() == Some(n),
                    None => d.index == num,
                }
            }),
        }
    }

    /// Text for a reference; returns (text, by_name, def).
    fn ref_text(&mut self, space: Space, want: Option<usize>) -> Option<(String, bool, Option<usize>)> {
        let cands = self.targets(space);
        if want.is_none() && self.cfg.undefined && self.g.chance(1, 5) {
            let by_name = self.g.chance(2, 3);
            let text = if by_name {
                self.g.pick(&["$undef", "$a", "$b", "$c", "$zz"]).to_string()
            } else {
                let n = match space {
                    // the number of the enclosing function itself: see known findings
                    Space::Label => self.labels.len() + self.cfg.bind as usize,
                    Space::Local => self.candidates(space).len(),
                    _ if self.cfg.bind => self.module_level().count(),
                    _ => self.candidates(space).len(),
                };
                (n + self.g.below(3)).to_string()
            };
            let def = if by_name {
                self.resolve(space, Some(&text), 0)
            } else {
                self.resolve(space, None, text.parse().unwrap())
            };
            return Some((text, by_name, def));
        }
        if cands.is_empty() {
            if self.cfg.undefined {
                return Some(("$undef".into(), true, None));
            }
            return None;
        }
        let target = match want {
            Some(t) => t,
            None => *self.g.pick(&cands),
        };
        let d = self.d.defs[target].clone();
        let by_name = d.name.is_some() && (!self.numeric_ok(&d) || self.g.chance(2, 3));
        let (text, num) = if by_name {
            (d.name.clone().unwrap(), 0)
        } else if space == Space::Label {
            let depth = self
                .labels
                .iter()
                .rev()
                .position(|l| *l == target)
                .expect("harness bug: label not in scope");
            (depth.to_string(), depth)
        } else {
            (d.index.to_string(), d.index)
        };
        let def = self.resolve(space, by_name.then_some(text.as_str()), num);
        let text = if !by_name && self.cfg.hex_refs && self.g.chance(1, 4) {
            match self.g.below(5) {
                0 => {
                    self.label("underscored reference");
                    format!("0_{num}")
                }
                1 => {
                    self.label("hex reference");
                    format!("0x0_{num:X}")
                }
                2 => {
                    self.label("hex reference");
                    format!("0x0_0{num:x}")
                }
                _ => {
                    self.label("hex reference");
                    format!("0x{num:x}")
                }
            }
        } else {
            text
        };
        Some((text, by_name, def))
    }

    fn module_level(&self) -> impl Iterator<Item = &Def> {
        let m = self.cur_module;
        self.d
            .defs
            .iter()
            .filter(move |d| d.module == m && !matches!(d.space, Space::Local | Space::Label))
    }

    /// Emit a reference wrapped in `wrap` (INDEX or OPERAND). `false` when
    /// there is nothing to refer to.
    pub fn reference(&mut self, space: Space, wrap: K, site: &'static str, want: Option<usize>) -> bool {
        let Some((text, by_name, def)) = self.ref_text(space, want) else {
            return false;
        };
        self.open(wrap);
        let kind = if by_name {
            IDENT
        } else if wrap == INDEX {
            UNSIGNED_INT
        } else {
            INT
        };
        let tok = self.tok(kind, text);
        self.close();
        self.d.refs.push(Ref {
            space,
            module: self.cur_module,
            func: self.cur_func,
            tok,
            def,
            by_name,
            site,
            scope_labels: self.labels.clone(),
        });
        true
    }

    /// Can `reference` be emitted?
    pub fn can_ref(&self, space: Space) -> bool {
        self.cfg.undefined || !self.targets(space).is_empty()
    }

    // ---- planning ----

    fn sig_decl(&mut self, allow_type: bool, names: bool) -> SigDecl {
        let types = self.targets(Space::Type);
        if allow_type && !types.is_empty() && self.g.chance(1, 3) {
            let t = *self.g.pick(&types);
            let sig = self.d.defs[t].sig.clone().unwrap();
            if self.g.chance(1, 2) && self.cfg.type_only_funcs {
                self.label("type-only signature");
                return SigDecl {
                    type_def: Some(t),
                    params: vec![],
                    results: vec![],
                };
            }
            let mut used: Vec<String> = vec![];
            let params = sig
                .params
                .iter()
                .map(|(_, ty)| {
                    let n = if names { self.fresh_name(&used) } else { None };
                    used.extend(n.clone());
                    (n, vec![*ty])
                })
                .collect();
            let results = if sig.results.is_empty() { vec![] } else { vec![sig.results.clone()] };
            return SigDecl {
                type_def: Some(t),
                params,
                results,
            };
        }
        let mut used: Vec<String> = vec![];
        let n = self.g.weighted(&[3, 4, 3, 1]);
        let mut params = vec![];
        for _ in 0..self.many(n) {
            let name = if names { self.fresh_name(&used) } else { None };
            used.extend(name.clone());
            if name.is_some() {
                let t = self.ty();
                params.push((name, vec![t]));
            } else {
                let k = self.g.weighted(&[1, 8, 4, 1]);
                let k = self.many(k);
                let ts = (0..k).map(|_| self.ty()).collect();
                params.push((None, ts));
            }
        }
        let n = self.g.weighted(&[4, 5, 1]);
        let mut results = vec![];
        for _ in 0..self.many(n) {
            let k = self.g.weighted(&[1, 8, 2]);
            let k = self.many(k);
            let ts = (0..k).map(|_| self.ty()).collect();
            results.push(ts);
        }
        SigDecl {
            type_def: None,
            params,
            results,
        }
    }

    fn effective(&self, decl: &SigDecl) -> Sig {
        if let (Some(t), true, true) = (decl.type_def, decl.params.is_empty(), decl.results.is_empty()) {
            // the parameter names of the type are not in scope, but types are
            return self.d.defs[t].sig.clone().unwrap();
        }
        let mut params = vec![];
        for (n, tys) in &decl.params {
            for t in tys {
                params.push((n.clone(), *t));
            }
        }
        Sig {
            params,
            results: decl.results.iter().flatten().copied().collect(),
        }
    }

    fn names_in(&self, space: Space) -> Vec<String> {
        self.candidates(space)
            .into_iter()
            .filter_map(|d| self.d.defs[d].name.clone())
            .collect()
    }

    fn plan_def(&mut self, space: Space) -> usize {
        let used = self.names_in(space);
        let index = self.candidates(space).len();
        let name = self.fresh_name(&used);
        let shared = self.module_level().count();
        let def = self.new_def(space, name, index);
        self.d.defs[def].shared = shared;
        def
    }

    pub fn plan_fields(&mut self) -> Vec<Field> {
        let n = self.g.range(0, self.cfg.max_fields);
        let n = if self.g.chance(1, 60) { n + self.g.range(1, 15) } else { n };
        let mut fields = vec![];
        for _ in 0..n {
            match self.g.weighted(&self.field_weights) {
                0 => {
                    let decl = self.sig_decl(true, true);
                    let def = self.plan_def(Space::Func);
                    self.set_func(def, &decl);
                    fields.push(Field::Func { def, decl });
                }
                1 => {
                    let decl = self.sig_decl(false, true);
                    let def = self.plan_def(Space::Type);
                    let sig = self.effective(&decl);
                    self.d.defs[def].sig = Some(sig);
                    fields.push(Field::Type { def, decl });
                }
                2 => {
                    let def = self.plan_def(Space::Global);
                    let t = self.ty();
                    let m = self.g.chance(1, 2);
                    self.d.defs[def].ty = Some(t);
                    self.d.defs[def].mutable = m;
                    fields.push(Field::Global { def });
                }
                3 => {
                    let def = self.plan_def(Space::Memory);
                    fields.push(Field::Memory { def });
                }
                4 => {
                    let def = self.plan_def(Space::Table);
                    let t = *self.g.pick(&[Ty::FuncRef, Ty::ExternRef]);
                    self.d.defs[def].ty = Some(t);
                    fields.push(Field::Table { def });
                }
                5 => {
                    let decl = self.sig_decl(true, true);
                    let def = self.plan_def(Space::Func);
                    self.set_func(def, &decl);
                    self.d.defs[def].import = true;
                    fields.push(Field::ImportFunc { def, decl });
                }
                6 => {
                    let def = self.plan_def(Space::Global);
                    let t = self.ty();
                    let m = self.g.chance(1, 2);
                    self.d.defs[def].ty = Some(t);
                    self.d.defs[def].mutable = m;
                    self.d.defs[def].import = true;
                    fields.push(Field::ImportGlobal { def });
                }
                7 => {
                    let def = self.plan_def(Space::Memory);
                    self.d.defs[def].import = true;
                    fields.push(Field::ImportMemory { def });
                }
                8 => {
                    let def = self.plan_def(Space::Table);
                    let t = *self.g.pick(&[Ty::FuncRef, Ty::ExternRef]);
                    self.d.defs[def].ty = Some(t);
                    self.d.defs[def].import = true;
                    fields.push(Field::ImportTable { def });
                }
                9 => fields.push(Field::Export),
                10 => fields.push(Field::Start),
                11 => fields.push(Field::Elem),
                _ => fields.push(Field::Data),
            }
        }
        fields
    }

    fn set_func(&mut self, def: usize, decl: &SigDecl) {
        let sig = self.effective(decl);
        self.d.defs[def].sig = Some(sig);
        self.d.defs[def].type_def = decl.type_def;
        self.d.defs[def].type_only =
            decl.type_def.is_some() && decl.params.is_empty() && decl.results.is_empty();
    }

    // ---- emission ----

    pub fn module(&mut self) {
        self.cur_module = self.d.modules.len();
        let fields = self.plan_fields();
        self.open(MODULE);
        let first = self.lp();
        self.d.modules.push((first, first));
        self.kw("module");
        if self.g.chance(1, 5) {
            let n = self.g.pick(&NAMES[..self.names]).to_string();
            self.tok(IDENT, n);
        }
        for f in fields {
            let first = self.d.toks.len();
            self.field(f);
            if self.d.toks.len() > first {
                let last = self.d.toks.len() - 1;
                self.d.fields.push((self.cur_module, first, last));
            }
        }
        let last = self.rp();
        self.d.modules[self.cur_module].1 = last;
        self.close();
    }

    pub fn type_use(&mut self, decl: &SigDecl, scope: Option<usize>) {
        if decl.type_def.is_none() && decl.params.is_empty() && decl.results.is_empty() {
            return;
        }
        self.open(TYPE_USE);
        if let Some(t) = decl.type_def {
            self.lp();
            self.kw("type");
            self.reference(Space::Type, INDEX, "type use", Some(t));
            self.rp();
        }
        self.params_results(decl, scope);
        self.close();
    }

    /// `scope`: the function whose locals the parameters become
    fn params_results(&mut self, decl: &SigDecl, scope: Option<usize>) {
        let mut index = 0;
        for (name, tys) in &decl.params {
            self.open(PARAM);
            let first = self.lp();
            self.kw("param");
            let mut def = None;
            if let Some(n) = name {
                let t = self.tok(IDENT, n.clone());
                if scope.is_some() {
                    let id = self.new_def(Space::Local, Some(n.clone()), index);
                    self.d.defs[id].name_tok = Some(t);
                    self.d.defs[id].first = first;
                    self.d.defs[id].is_param = true;
                    self.d.defs[id].ty = Some(tys[0]);
                    self.d.defs[id].func = scope;
                    index += 1;
                    def = Some(id);
                }
            }
            for ty in tys {
                let t = self.val_type(*ty);
                if scope.is_some() && name.is_none() {
                    let id = self.new_def(Space::Local, None, index);
                    self.d.defs[id].first = t;
                    self.d.defs[id].last = t;
                    self.d.defs[id].is_param = true;
                    self.d.defs[id].ty = Some(*ty);
                    self.d.defs[id].func = scope;
                    index += 1;
                }
            }
            let last = self.rp();
            if let Some(id) = def {
                self.d.defs[id].last = last;
            }
            self.close();
        }
        for tys in &decl.results {
            self.open(RESULT);
            self.lp();
            self.kw("result");
            for ty in tys {
                self.val_type(*ty);
            }
            self.rp();
            self.close();
        }
    }

    fn limits(&mut self) {
        self.open(LIMITS);
        let u = self.uint_lit();
        self.tok(UNSIGNED_INT, u);
        if self.g.chance(1, 2) {
            let u = self.uint_lit();
            self.tok(UNSIGNED_INT, u);
            if self.cfg.shared_limits && self.g.chance(1, 4) {
                self.label("shared limits");
                let s = *self.g.pick(&["shared", "unshared"]);
                self.tok(SHARE, s);
            }
        }
        self.close();
    }

    fn memory_type(&mut self) {
        self.open(MEMORY_TYPE);
        self.limits();
        self.close();
    }

    fn table_type(&mut self, ty: Ty) {
        self.open(TABLE_TYPE);
        let keep = self.cfg.shared_limits;
        self.cfg.shared_limits = false;
        self.limits();
        self.cfg.shared_limits = keep;
        self.tok(REF_TYPE, ty.text());
        self.close();
    }

    fn global_type(&mut self, def: usize) {
        let (ty, m) = (self.d.defs[def].ty.unwrap(), self.d.defs[def].mutable);
        self.open(GLOBAL_TYPE);
        if m {
            self.lp();
            self.kw("mut");
            self.val_type(ty);
            self.rp();
        } else {
            self.val_type(ty);
        }
        self.close();
    }

    fn name_node(&mut self, kind: K) {
        let s = self.string_lit();
        self.open(kind);
        self.tok(STRING, s);
        self.close();
    }

    fn inline_export(&mut self) {
        self.open(EXPORT);
        self.lp();
        self.kw("export");
        self.name_node(NAME);
        self.rp();
        self.close();
    }

    fn inline_import(&mut self) {
        self.open(IMPORT);
        self.lp();
        self.kw("import");
        self.name_node(MODULE_NAME);
        self.name_node(NAME);
        self.rp();
        self.close();
    }

    fn import_field(&mut self, desc: K, kw: &str, def: usize, body: impl FnOnce(&mut Self)) {
        self.open(MODULE_FIELD_IMPORT);
        self.lp();
        self.kw("import");
        self.name_node(MODULE_NAME);
        self.name_node(NAME);
        self.open(desc);
        let first = self.lp();
        self.kw(kw);
        self.def_name(def);
        body(self);
        let last = self.rp();
        self.close();
        self.rp();
        self.close();
        self.d.defs[def].first = first;
        self.d.defs[def].last = last;
    }

    fn begin_field(&mut self, kind: K, kw: &str, def: usize) {
        self.open(kind);
        let first = self.lp();
        self.kw(kw);
        self.def_name(def);
        self.d.defs[def].first = first;
    }
    fn end_field(&mut self, def: usize) {
        let last = self.rp();
        self.close();
        self.d.defs[def].last = last;
    }

    fn field(&mut self, f: Field) {
        match f {
            Field::Type { def, decl } => {
                self.begin_field(MODULE_FIELD_TYPE, "type", def);
                self.open(FUNC_TYPE);
                self.lp();
                self.kw("func");
                self.params_results(&decl, None);
                self.rp();
                self.close();
                self.end_field(def);
            }
            Field::ImportFunc { def, decl } => {
                self.import_field(IMPORT_DESC_TYPE_USE, "func", def, |b| b.type_use(&decl, None));
            }
            Field::ImportGlobal { def } => {
                self.import_field(IMPORT_DESC_GLOBAL_TYPE, "global", def, |b| b.global_type(def));
            }
            Field::ImportMemory { def } => {
                self.import_field(IMPORT_DESC_MEMORY_TYPE, "memory", def, |b| b.memory_type());
            }
            Field::ImportTable { def } => {
                let ty = self.d.defs[def].ty.unwrap();
                self.import_field(IMPORT_DESC_TABLE_TYPE, "table", def, |b| b.table_type(ty));
            }
            Field::Func { def, decl } => self.func(def, &decl),
            Field::Global { def } => {
                self.begin_field(MODULE_FIELD_GLOBAL, "global", def);
                let mut import = false;
                match self.g.weighted(&[6, 2, 1]) {
                    1 => self.inline_export(),
                    2 => {
                        self.inline_import();
                        import = true;
                    }
                    _ => {}
                }
                self.global_type(def);
                if !import {
                    let ty = self.d.defs[def].ty.unwrap();
                    self.const_expr(ty);
                }
                self.end_field(def);
            }
            Field::Memory { def } => {
                self.begin_field(MODULE_FIELD_MEMORY, "memory", def);
                match self.g.weighted(&[6, 2, 1]) {
                    1 => self.inline_export(),
                    2 => self.inline_import(),
                    _ => {}
                }
                if self.g.chance(1, 4) {
                    self.label("inline data");
                    self.open(DATA);
                    self.lp();
                    self.kw("data");
                    let n = self.g.below(3);
                    for _ in 0..self.many(n) {
                        let s = self.string_lit();
                        self.tok(STRING, s);
                    }
                    self.rp();
                    self.close();
                } else {
                    self.memory_type();
                }
                self.end_field(def);
            }
            Field::Table { def } => {
                let ty = self.d.defs[def].ty.unwrap();
                self.begin_field(MODULE_FIELD_TABLE, "table", def);
                match self.g.weighted(&[6, 2, 1]) {
                    1 => self.inline_export(),
                    2 => self.inline_import(),
                    _ => {}
                }
                if self.g.chance(1, 3) {
                    self.label("inline elem");
                    self.tok(REF_TYPE, ty.text());
                    self.open(ELEM);
                    self.lp();
                    self.kw("elem");
                    match self.g.below(3) {
                        0 => {}
                        1 => {
                            let n = self.g.range(1, 3);
                            for _ in 0..self.many(n) {
                                self.loose_index(Space::Func, INDEX, "elem");
                            }
                        }
                        _ => {
                            let n = self.g.range(1, 2);
                            for _ in 0..self.many(n) {
                                self.elem_expr();
                            }
                        }
                    }
                    self.rp();
                    self.close();
                } else {
                    self.table_type(ty);
                }
                self.end_field(def);
            }
            Field::Export => {
                let opts: [(&str, K, Space, &'static str); 4] = [
                    ("func", EXPORT_DESC_FUNC, Space::Func, "export func"),
                    ("table", EXPORT_DESC_TABLE, Space::Table, "export table"),
                    ("memory", EXPORT_DESC_MEMORY, Space::Memory, "export memory"),
                    ("global", EXPORT_DESC_GLOBAL, Space::Global, "export global"),
                ];
                let (kw, kind, space, site) = *self.g.pick(&opts);
                if !self.can_ref(space) {
                    return;
                }
                self.open(MODULE_FIELD_EXPORT);
                self.lp();
                self.kw("export");
                self.name_node(NAME);
                self.open(kind);
                self.lp();
                self.kw(kw);
                if kind == EXPORT_DESC_GLOBAL {
                    self.loose_index(Space::Global, INDEX, "export global");
                } else {
                    self.reference(space, INDEX, site, None);
                }
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            Field::Start => {
                if !self.can_ref(Space::Func) {
                    return;
                }
                self.open(MODULE_FIELD_START);
                self.lp();
                self.kw("start");
                self.reference(Space::Func, INDEX, "start", None);
                self.rp();
                self.close();
            }
            Field::Elem => {
                self.open(MODULE_FIELD_ELEM);
                self.lp();
                self.kw("elem");
                if self.g.chance(1, 3) {
                    let n = self.g.pick(&NAMES[..self.names]).to_string();
                    self.tok(IDENT, n);
                }
                match self.g.below(3) {
                    0 => {
                        // active
                        let table = self.g.chance(1, 3);
                        if table {
                            self.open(TABLE_USE);
                            self.lp();
                            self.kw("table");
                            self.loose_index(Space::Table, INDEX, "table use");
                            self.rp();
                            self.close();
                        }
                        self.offset();
                        self.elem_list(!table);
                    }
                    1 => self.elem_list(false),
                    _ => {
                        self.kw("declare");
                        self.elem_list(false);
                    }
                }
                self.rp();
                self.close();
            }
            Field::Data => {
                self.open(MODULE_FIELD_DATA);
                self.lp();
                self.kw("data");
                if self.g.chance(1, 3) {
                    let n = self.g.pick(&NAMES[..self.names]).to_string();
                    self.tok(IDENT, n);
                }
                if self.g.chance(2, 3) {
                    if self.g.chance(1, 3) && self.can_ref(Space::Memory) {
                        self.open(MEM_USE);
                        self.lp();
                        self.kw("memory");
                        self.reference(Space::Memory, INDEX, "memory use", None);
                        self.rp();
                        self.close();
                    }
                    self.offset();
                }
                let n = self.g.below(3);
                for _ in 0..self.many(n) {
                    let s = self.string_lit();
                    self.tok(STRING, s);
                }
                self.rp();
                self.close();
            }
        }
    }

    /// An index that the service binds only when it is written as a name
    /// (element segments, …).
    fn loose_index(&mut self, space: Space, wrap: K, site: &'static str) {
        let keep = (self.cfg.undefined, self.cfg.bind);
        self.cfg.undefined &= self.cfg.bind;
        // numbers are not resolved here, so any may be written
        self.cfg.bind = false;
        let r = self.ref_text(space, None);
        (self.cfg.undefined, self.cfg.bind) = keep;
        let (text, by_name, def) = r.unwrap_or(("0".into(), false, None));
        self.open(wrap);
        let tok = self.tok(if by_name { IDENT } else if wrap == OPERAND { INT } else { UNSIGNED_INT }, text);
        self.close();
        if by_name {
            self.d.refs.push(Ref {
                space,
                module: self.cur_module,
                func: self.cur_func,
                tok,
                def,
                by_name,
                site,
                scope_labels: self.labels.clone(),
            });
        }
    }

    fn elem_list(&mut self, allow_bare: bool) {
        self.open(ELEM_LIST);
        match self.g.below(if allow_bare { 3 } else { 2 }) {
            0 => {
                self.kw("func");
                let n = self.g.below(3);
                for _ in 0..self.many(n) {
                    self.loose_index(Space::Func, INDEX, "elem");
                }
            }
            1 => {
                let t = *self.g.pick(&["funcref", "externref"]);
                self.tok(REF_TYPE, t);
                let n = self.g.below(3);
                for _ in 0..self.many(n) {
                    self.elem_expr();
                }
            }
            _ => {
                let n = self.g.range(1, 3);
                for _ in 0..self.many(n) {
                    self.loose_index(Space::Func, INDEX, "elem");
                }
            }
        }
        self.close();
    }

    fn elem_expr(&mut self) {
        self.open(ELEM_EXPR);
        if self.g.chance(1, 2) {
            self.lp();
            self.kw("item");
            let folded = self.g.chance(1, 2);
            self.ref_instr(folded);
            self.rp();
        } else {
            self.ref_instr(true);
        }
        self.close();
    }

    fn ref_instr(&mut self, folded: bool) {
        self.open(PLAIN_INSTR);
        if folded {
            self.lp();
        }
        if self.can_ref(Space::Func) && self.g.chance(1, 2) {
            self.tok(INSTR_NAME, "ref.func");
            self.reference(Space::Func, OPERAND, "ref.func", None);
        } else {
            self.tok(INSTR_NAME, "ref.null");
            let h = *self.g.pick(&["func", "extern"]);
            self.open(OPERAND);
            self.tok(HEAP_TYPE, h);
            self.close();
        }
        if folded {
            self.rp();
        }
        self.close();
    }

    fn offset(&mut self) {
        self.open(OFFSET);
        if self.g.chance(1, 2) {
            self.lp();
            self.kw("offset");
            let folded = self.g.chance(1, 2);
            self.const_instr(Ty::I32, folded);
            self.rp();
        } else {
            self.const_instr(Ty::I32, true);
        }
        self.close();
    }

    fn const_expr(&mut self, ty: Ty) {
        let folded = self.g.chance(3, 4);
        self.const_instr(ty, folded);
    }

    /// A constant of the given type, as a plain instruction.
    pub fn const_instr(&mut self, ty: Ty, folded: bool) {
        self.open(PLAIN_INSTR);
        if folded {
            self.lp();
        }
        match ty {
            Ty::I32 | Ty::I64 => {
                self.tok(INSTR_NAME, format!("{}.const", ty.text()));
                let l = self.int_lit();
                self.operand_tok(INT, l);
            }
            Ty::F32 | Ty::F64 => {
                self.tok(INSTR_NAME, format!("{}.const", ty.text()));
                if self.g.chance(2, 3) {
                    let l = self.float_lit();
                    self.operand_tok(FLOAT, l);
                } else {
                    let l = self.int_lit();
                    self.operand_tok(INT, l);
                }
            }
            Ty::V128 => {
                // `v128.const i32x4 …` is outside the supported grammar
                self.tok(INSTR_NAME, "i32x4.splat");
                if folded {
                    self.open(OPERAND);
                    self.const_instr(Ty::I32, true);
                    self.close();
                }
            }
            Ty::FuncRef => {
                self.tok(INSTR_NAME, "ref.null");
                self.operand_tok(HEAP_TYPE, "func".into());
            }
            Ty::ExternRef => {
                self.tok(INSTR_NAME, "ref.null");
                self.operand_tok(HEAP_TYPE, "extern".into());
            }
        }
        if folded {
            self.rp();
        }
        self.close();
    }

    pub fn operand_tok(&mut self, kind: K, text: String) -> usize {
        self.open(OPERAND);
        let t = self.tok(kind, text);
        self.close();
        t
    }

    fn func(&mut self, def: usize, decl: &SigDecl) {
        self.begin_field(MODULE_FIELD_FUNC, "func", def);
        let mut import = false;
        match self.g.weighted(&[8, 3, 1, 1]) {
            1 => {
                let n = self.g.range(1, 2);
                for _ in 0..self.many(n) {
                    self.inline_export();
                }
            }
            2 => {
                self.inline_import();
                import = true;
            }
            3 if self.cfg.export_import => {
                self.label("export and import");
                self.inline_export();
                self.inline_import();
                import = true;
            }
            _ => {}
        }
        self.cur_func = Some(def);
        self.type_use(decl, Some(def));
        if !import {
            self.locals(def);
            let n = self.g.below(self.cfg.max_instrs + 1);
            let depth = self.cfg.depth;
            for _ in 0..self.many(n) {
                self.instr(depth, None);
            }
        }
        self.cur_func = None;
        self.end_field(def);
    }

    pub fn locals(&mut self, def: usize) {
        let mut index = self.d.defs[def].sig.as_ref().unwrap().params.len();
        let n = self.g.weighted(&[5, 3, 2]);
        for _ in 0..self.many(n) {
            let used = self.names_in(Space::Local);
            let name = self.fresh_name(&used);
            self.open(LOCAL);
            let first = self.lp();
            self.kw("local");
            if let Some(nm) = name {
                let t = self.tok(IDENT, nm.clone());
                let ty = self.ty();
                self.val_type(ty);
                let last = self.rp();
                let id = self.new_def(Space::Local, Some(nm), index);
                let d = &mut self.d.defs[id];
                d.name_tok = Some(t);
                d.first = first;
                d.last = last;
                d.ty = Some(ty);
                d.func = Some(def);
                index += 1;
            } else {
                let n = self.g.weighted(&[1, 8, 3]);
                for _ in 0..self.many(n) {
                    let ty = self.ty();
                    let t = self.val_type(ty);
                    let id = self.new_def(Space::Local, None, index);
                    let d = &mut self.d.defs[id];
                    d.first = t;
                    d.last = t;
                    d.ty = Some(ty);
                    d.func = Some(def);
                    index += 1;
                }
                self.rp();
            }
            self.close();
        }
    }

    // ---- instructions (not necessarily well typed) ----

    /// `folded`: None = either form.
    fn full(&self) -> bool {
        self.d.toks.len() > 800
    }

    fn many(&mut self, n: usize) -> usize {
        if self.full() {
            n.min(1)
        } else {
            self.g.many(n)
        }
    }

    pub fn instr(&mut self, depth: usize, folded: Option<bool>) {
        let depth = if self.full() { 0 } else { depth };
        if self.cfg.blocks && depth > 0 && self.g.chance(1, 4) {
            self.block(depth, folded);
        } else {
            self.plain(depth, folded);
        }
    }

    fn block_type(&mut self) {
        match self.g.weighted(&[5, 3, 1, 1, 1]) {
            0 => {}
            4 => {
                // several clauses are a type use
                let mut results = vec![];
                for _ in 0..self.g.range(2, 3) {
                    let n = self.g.weighted(&[1, 6, 1]);
                    results.push((0..n).map(|_| self.ty()).collect());
                }
                self.label("block with several results");
                self.open(BLOCK_TYPE);
                self.type_use(
                    &SigDecl {
                        type_def: None,
                        params: vec![],
                        results,
                    },
                    None,
                );
                self.close();
            }
            1 => {
                self.open(BLOCK_TYPE);
                self.open(RESULT);
                self.lp();
                self.kw("result");
                let n = self.g.weighted(&[1, 6, 2]);
                for _ in 0..self.many(n) {
                    let t = self.ty();
                    self.val_type(t);
                }
                self.rp();
                self.close();
                self.close();
            }
            2 => {
                let types = self.targets(Space::Type);
                if types.is_empty() {
                    return;
                }
                let t = *self.g.pick(&types);
                self.open(BLOCK_TYPE);
                self.type_use(
                    &SigDecl {
                        type_def: Some(t),
                        params: vec![],
                        results: vec![],
                    },
                    None,
                );
                self.close();
            }
            _ => {
                let t = self.ty();
                let r = self.ty();
                let params = if self.g.chance(1, 4) {
                    vec![(None, vec![t, r]), (None, vec![r])]
                } else {
                    vec![(None, vec![t])]
                };
                self.open(BLOCK_TYPE);
                self.type_use(
                    &SigDecl {
                        type_def: None,
                        params,
                        results: vec![vec![r]],
                    },
                    None,
                );
                self.close();
            }
        }
    }

    fn begin_label(&mut self) -> usize {
        let outer = self.labels.iter().rev().find_map(|l| self.d.defs[*l].name.clone());
        let name = if self.cfg.duplicates && outer.is_some() && self.g.chance(1, 2) {
            outer
        } else if self.g.chance(1, 2) {
            Some(self.g.pick(&["$a", "$b", "$l", "$c", "$d"]).to_string())
        } else {
            None
        };
        let id = self.new_def(Space::Label, name, 0);
        self.d.defs[id].enclosing = self.labels.clone();
        id
    }

    pub fn block(&mut self, depth: usize, folded: Option<bool>) {
        let folded = folded.unwrap_or_else(|| self.g.chance(1, 2));
        let which = self.g.below(3);
        let (kind, kw) = [(BLOCK_BLOCK, "block"), (BLOCK_LOOP, "loop"), (BLOCK_IF, "if")][which];
        self.label(if folded { "folded block" } else { "unfolded block" });
        self.open(kind);
        let l = self.begin_label();
        let mut first = None;
        if folded {
            first = Some(self.lp());
        }
        let k = self.kw(kw);
        self.d.defs[l].first = first.unwrap_or(k);
        self.def_name(l);
        self.block_type();
        let name = self.d.defs[l].name.clone();
        let n = self.g.below(3);
        if which != 2 {
            self.labels.push(l);
            for _ in 0..self.many(n) {
                self.instr(depth - 1, None);
            }
            self.labels.pop();
            if folded {
                self.rp();
            } else {
                self.kw("end");
                self.end_label(l, &name);
            }
        } else if folded {
            // condition: outside the label's scope
            let n = self.g.weighted(&[1, 5, 1]);
            for _ in 0..self.many(n) {
                self.instr(depth - 1, Some(true));
            }
            self.labels.push(l);
            self.open(BLOCK_IF_THEN);
            self.lp();
            self.kw("then");
            for _ in 0..self.many(n) {
                self.instr(depth - 1, None);
            }
            self.rp();
            self.close();
            if self.g.chance(1, 2) {
                self.open(BLOCK_IF_ELSE);
                self.lp();
                self.kw("else");
                let n = self.g.below(3);
                for _ in 0..self.many(n) {
                    self.instr(depth - 1, None);
                }
                self.rp();
                self.close();
            }
            self.labels.pop();
            self.rp();
        } else {
            self.labels.push(l);
            self.open(BLOCK_IF_THEN);
            for _ in 0..self.many(n) {
                self.instr(depth - 1, None);
            }
            self.close();
            if self.g.chance(1, 2) {
                self.open(BLOCK_IF_ELSE);
                self.kw("else");
                self.end_label(l, &name);
                let n = self.g.below(3);
                for _ in 0..self.many(n) {
                    self.instr(depth - 1, None);
                }
                self.close();
            }
            self.labels.pop();
            self.kw("end");
            self.end_label(l, &name);
        }
        self.close();
        self.d.defs[l].last = self.d.toks.len() - 1;
    }

    fn end_label(&mut self, def: usize, name: &Option<String>) {
        if let Some(n) = name {
            if self.g.chance(1, 3) {
                self.label("end label");
                let t = self.tok(IDENT, n.clone());
                self.d.end_labels.push((t, def));
            }
        }
    }

    fn mem_args(&mut self) {
        if self.g.chance(1, 2) {
            let u = self.uint_lit();
            self.operand_tok(MEM_ARG, format!("offset={u}"));
        }
        if self.g.chance(1, 3) {
            let a = *self.g.pick(&["1", "2", "4", "8"]);
            self.operand_tok(MEM_ARG, format!("align={a}"));
        }
    }

    /// Emits the mnemonic and immediates of some plain instruction; returns
    /// the number of stack operands it takes (used for folded operands).
    fn mnemonic(&mut self) -> usize {
        const SIMPLE: &[(&str, usize)] = &[
            ("nop", 0),
            ("drop", 1),
            ("i32.add", 2),
            ("i64.sub", 2),
            ("f32.mul", 2),
            ("f64.div", 2),
            ("i32.eqz", 1),
            ("select", 3),
            ("unreachable", 0),
            ("return", 0),
            ("memory.size", 0),
            ("memory.grow", 1),
            ("f64.promote_f32", 1),
            ("i32x4.splat", 1),
            ("v128.and", 2),
            ("ref.is_null", 1),
            ("memory.copy", 3),
        ];
        loop {
            match self.g.weighted(&self.instr_weights) {
                0 => {
                    let (n, k) = *self.g.pick(SIMPLE);
                    let (n, k) = if self.g.chance(1, 4) {
                        let op = self.g.pick(&instrs::PLAIN[..]);
                        (op.0, op.1)
                    } else {
                        (n, k)
                    };
                    self.tok(INSTR_NAME, n);
                    return k;
                }
                1 => {
                    let t = *self.g.pick(&[Ty::I32, Ty::I64]);
                    self.tok(INSTR_NAME, format!("{}.const", t.text()));
                    let l = self.int_lit();
                    self.operand_tok(INT, l);
                    return 0;
                }
                2 => {
                    let t = *self.g.pick(&[Ty::F32, Ty::F64]);
                    self.tok(INSTR_NAME, format!("{}.const", t.text()));
                    let l = self.float_lit();
                    self.operand_tok(FLOAT, l);
                    return 0;
                }
                3 => {
                    if self.cur_func.is_none() || !self.can_ref(Space::Local) {
                        continue;
                    }
                    if let Some(f) = self.cur_func {
                        let d = &self.d.defs[f];
                        if d.type_only && !d.sig.as_ref().unwrap().params.is_empty() {
                            // numbering across `(type …)`-only signatures: see known findings
                            continue;
                        }
                    }
                    let (n, k) = *self.g.pick(&[("local.get", 0), ("local.set", 1), ("local.tee", 1)]);
                    self.tok(INSTR_NAME, n);
                    self.reference(Space::Local, OPERAND, n, None);
                    return k;
                }
                4 => {
                    if !self.can_ref(Space::Func) {
                        continue;
                    }
                    let n = *self.g.pick(&["call", "ref.func", "return_call"]);
                    self.tok(INSTR_NAME, n);
                    self.reference(Space::Func, OPERAND, n, None);
                    let def = self.d.refs.last().unwrap().def;
                    if n == "ref.func" {
                        return 0;
                    }
                    return def
                        .and_then(|d| self.d.defs[d].sig.as_ref())
                        .map_or(0, |s| s.params.len());
                }
                5 => {
                    if !self.can_ref(Space::Global) {
                        continue;
                    }
                    let (n, k) = *self.g.pick(&[("global.get", 0), ("global.set", 1)]);
                    self.tok(INSTR_NAME, n);
                    self.reference(Space::Global, OPERAND, n, None);
                    return k;
                }
                6 => {
                    if self.labels.is_empty() {
                        continue;
                    }
                    self.label("branch");
                    match self.g.below(3) {
                        0 => {
                            self.tok(INSTR_NAME, "br");
                            self.reference(Space::Label, OPERAND, "br", None);
                            return 0;
                        }
                        1 => {
                            self.tok(INSTR_NAME, "br_if");
                            self.reference(Space::Label, OPERAND, "br_if", None);
                            return 1;
                        }
                        _ => {
                            self.tok(INSTR_NAME, "br_table");
                            let n = self.g.range(1, 3);
                            for _ in 0..self.many(n) {
                                self.reference(Space::Label, OPERAND, "br_table", None);
                            }
                            return 1;
                        }
                    }
                }
                7 => {
                    if !self.can_ref(Space::Table) {
                        continue;
                    }
                    const T: &[(&str, usize)] = &[
                        ("table.get", 1),
                        ("table.set", 2),
                        ("table.size", 0),
                        ("table.grow", 2),
                        ("table.fill", 3),
                    ];
                    if self.g.chance(1, 5) {
                        self.tok(INSTR_NAME, "table.copy");
                        self.reference(Space::Table, OPERAND, "table.copy", None);
                        self.reference(Space::Table, OPERAND, "table.copy", None);
                        return 3;
                    }
                    if self.g.chance(1, 5) {
                        self.tok(INSTR_NAME, "table.init");
                        self.reference(Space::Table, OPERAND, "table.init", None);
                        self.operand_tok(INT, "0".into());
                        return 3;
                    }
                    let (n, k) = *self.g.pick(T);
                    self.tok(INSTR_NAME, n);
                    self.reference(Space::Table, OPERAND, n, None);
                    return k;
                }
                8 => {
                    if self.g.chance(1, 8) {
                        // segments have no index space that the service knows
                        let (n, k) = *self.g.pick(&[("memory.init", 3), ("data.drop", 0), ("elem.drop", 0)]);
                        self.tok(INSTR_NAME, n);
                        let l = self.uint_lit();
                        self.operand_tok(INT, l);
                        return k;
                    }
                    let (n, k) = *self.g.pick(&[
                        ("i32.load", 1),
                        ("i64.load8_s", 1),
                        ("f64.store", 2),
                        ("i32.store16", 2),
                        ("v128.load", 1),
                        ("v128.load8_lane", 2),
                    ]);
                    self.tok(INSTR_NAME, n);
                    self.mem_args();
                    if n.ends_with("_lane") {
                        let l = self.uint_lit();
                        self.operand_tok(INT, l);
                    }
                    return k;
                }
                9 => {
                    let types = self.targets(Space::Type);
                    if types.is_empty() {
                        continue;
                    }
                    let t = *self.g.pick(&types);
                    let sig = self.d.defs[t].sig.clone().unwrap();
                    self.label("call_indirect");
                    self.tok(INSTR_NAME, "call_indirect");
                    if self.g.chance(1, 3) {
                        self.loose_index(Space::Table, OPERAND, "call_indirect");
                    }
                    self.open(OPERAND);
                    self.type_use(
                        &SigDecl {
                            type_def: Some(t),
                            params: vec![],
                            results: vec![],
                        },
                        None,
                    );
                    self.close();
                    return sig.params.len() + 1;
                }
                _ => {
                    self.tok(INSTR_NAME, "ref.null");
                    let h = *self.g.pick(&["func", "extern"]);
                    self.operand_tok(HEAP_TYPE, h.into());
                    return 0;
                }
            }
        }
    }

    pub fn plain(&mut self, depth: usize, folded: Option<bool>) {
        let folded = folded.unwrap_or_else(|| self.g.chance(1, 2));
        self.open(PLAIN_INSTR);
        if folded {
            self.lp();
        }
        let arity = self.mnemonic();
        if folded {
            if depth > 0 {
                // mostly fully folded, sometimes operands come from the stack
                let n = if self.g.chance(1, 4) { 0 } else { arity };
                for _ in 0..n {
                    self.open(OPERAND);
                    self.instr(depth - 1, Some(true));
                    self.close();
                }
            }
            self.rp();
        }
        self.close();
    }
}

pub fn gen_doc(g: &mut G, cfg: Cfg) -> Doc {
    let n = if cfg.max_modules <= 1 { 1 } else { g.range(1, cfg.max_modules) };
    let mut b = B::new(g, cfg);
    b.open(ROOT);
    for _ in 0..n {
        b.module();
    }
    b.close();
    b.d
}

// ---- rendering ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// only where required
    Compact,
    Spaces,
    Lines,
    /// arbitrary whitespace and comments
    Wild,
}

#[derive(Clone, Debug)]
pub struct Render {
    pub style: Style,
    pub comments: bool,
    pub crlf: bool,
    pub non_ascii: bool,
}

#[derive(Clone, Debug)]
pub struct Text {
    pub text: String,
    /// byte span of every token
    pub spans: Vec<(usize, usize)>,
    pub comments: usize,
}

pub fn any_render(g: &mut G) -> Render {
    let style = [Style::Spaces, Style::Compact, Style::Lines, Style::Wild][g.weighted(&[2, 1, 2, 3])];
    Render {
        style,
        comments: g.chance(1, 2),
        crlf: g.chance(1, 6),
        non_ascii: g.chance(1, 5),
    }
}

fn newline(g: &mut G, r: &Render) -> &'static str {
    if r.crlf && g.chance(2, 3) {
        "\r\n"
    } else {
        "\n"
    }
}

/// A comment of random content.
fn comment_of(g: &mut G, r: &Render, block: bool, start: &str, out: &mut String) {
    let mut content = String::from(start);
    for _ in 0..g.weighted(&[1, 3, 3, 3, 2, 1, 1]) {
        let piece = *g.pick(&[" ", "\t", "  ", "a", "word", ";", "(", ")", "\"", "(; n ;)", "\n", "\r\n", "é", "漢", "\u{a0}"]);
        let line_break = piece.contains('\n');
        if !r.non_ascii && !piece.is_ascii()
            || line_break && (!block || (piece == "\r\n") != r.crlf)
            || content.ends_with('(') && piece.starts_with(';')
            || content.ends_with(';') && piece.starts_with(')')
            || !block && content.is_empty() && piece.starts_with(')')
        {
            continue;
        }
        content.push_str(piece);
    }
    if block {
        if content.ends_with('(') {
            content.push(' ');
        }
        out.push_str("(;");
        out.push_str(&content);
        out.push_str(";)");
    } else {
        out.push_str(";;");
        out.push_str(&content);
        out.push_str(newline(g, r));
    }
}

pub fn comment(g: &mut G, r: &Render, out: &mut String) {
    const LINE: &[&str] = &[";;", ";; c", ";;; doc", ";; (func) )", ";;x", ";; \"q", ";; (; ", ";;  spaced  ", ";; tr  "];
    const BLOCK: &[&str] = &[
        "(;;)",
        "(; c ;)",
        "(; a (; nested ;) b ;)",
        "(; l1\n   l2 ;)",
        "(;;;)",
        "(; ) ( \" ;)",
        "(;\n;)",
        "(; l1\n\n l3\n;)",
    ];
    if g.chance(1, 3) {
        let block = g.chance(1, 2);
        let start = if !block && g.chance(1, 3) { ";" } else { "" };
        comment_of(g, r, block, start, out);
    } else if g.chance(1, 2) {
        if r.non_ascii && g.chance(1, 3) {
            out.push_str(";; é漢😀");
        } else {
            out.push_str(*g.pick(LINE));
        }
        out.push_str(newline(g, r));
    } else if r.non_ascii && g.chance(1, 3) {
        out.push_str("(; é漢😀 ;)");
    } else {
        let c = *g.pick(BLOCK);
        out.push_str(c);
    }
}

pub fn trivia(g: &mut G, r: &Render, required: bool, out: &mut String, comments: &mut usize) {
    let start = out.len();
    match r.style {
        Style::Compact => {}
        Style::Spaces => {
            out.push(' ');
        }
        Style::Lines => {
            if g.chance(1, 3) {
                out.push_str(newline(g, r));
                for _ in 0..g.below(4) {
                    out.push(' ');
                }
            } else if required || g.chance(1, 2) {
                out.push(' ');
            }
        }
        Style::Wild => {
            for _ in 0..g.weighted(&[3, 4, 2]) {
                match g.weighted(&[4, 3, 1, 1]) {
                    0 => out.push(' '),
                    1 => {
                        let n = newline(g, r);
                        out.push_str(n)
                    }
                    2 => out.push('\t'),
                    _ => {
                        let n = newline(g, r);
                        out.push_str(n);
                        out.push_str(n);
                        out.push_str("  ");
                    }
                }
            }
        }
    }
    if r.comments && g.chance(1, 10) {
        for _ in 0..g.weighted(&[0, 5, 1]) {
            if out.ends_with('(') {
                // `(` + `;; …` would read as a block comment
                out.push(' ');
            }
            comment(g, r, out);
            *comments += 1;
            match g.below(3) {
                0 => {}
                1 => out.push(' '),
                _ => out.push_str(newline(g, r)),
            }
        }
    }
    if required && out.len() == start {
        out.push(' ');
    }
}

pub fn render(g: &mut G, toks: &[Tok], r: &Render) -> Text {
    let mut text = String::new();
    let mut spans = Vec::with_capacity(toks.len());
    let mut comments = 0;
    if r.style != Style::Compact && g.chance(1, 4) {
        trivia(g, r, false, &mut text, &mut comments);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            if p.kind == ERROR {
                // junk ends at whitespace
                text.push(' ');
            }
            let required = !matches!(p.kind, L_PAREN | R_PAREN) && !matches!(t.kind, L_PAREN | R_PAREN);
            trivia(g, r, required, &mut text, &mut comments);
        }
        if r.comments && t.kind == L_PAREN && toks.get(i + 1).is_some_and(|t| t.text == "func") && g.chance(1, 6) {
            // the documentation of a function
            text.push(' ');
            for _ in 0..g.range(1, 2) {
                comment_of(g, r, false, ";", &mut text);
                comments += 1;
            }
        }
        let s = text.len();
        text.push_str(&t.text);
        spans.push((s, text.len()));
    }
    match g.below(3) {
        0 => text.push('\n'),
        1 => {}
        _ => trivia(g, r, false, &mut text, &mut comments),
    }
    Text {
        text,
        spans,
        comments,
    }
}

impl Doc {
    /// Expected tree without trivia, as (depth, kind, text) lines.
    pub fn expected_tree(&self) -> Vec<(usize, K, &str)> {
        let mut out = vec![];
        let mut depth = 0;
        for e in &self.evs {
            match e {
                Ev::Open(k) => {
                    out.push((depth, *k, ""));
                    depth += 1;
                }
                Ev::Close => depth -= 1,
                Ev::Tok(t) => out.push((depth, self.toks[*t].kind, self.toks[*t].text.as_str())),
            }
        }
        out
    }
}
