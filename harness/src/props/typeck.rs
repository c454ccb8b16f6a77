//! C17: checks of operands.

use crate::{engine::*, instrs, lsp::*, wat::*};
use lsp_types::{Diagnostic, Range};
use std::collections::BTreeMap;
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        rule: "generated function bodies and initialisers over the whole instruction set, folded, flat and mixed, most of them well-typed, others with a wrong type, a missing or an additional operand, a literal in place of an operand or a wrong kind of immediate; operand diagnostics compared with a reference checker, opcodes with the specification; non-trivial: at least 6 checked instructions",
        quick: 400_000,
        thorough: 12_000_000,
        run: c17,
        assumptions: &[
            "flat code is judged up to the first instruction whose effect on the stack is unknown (blocks, branches, …), and not inside blocks",
            "types of locals and globals that are written to, and results of a body, are not judged",
        ],
    }]
}

const VAL: [&str; 7] = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];

#[derive(Clone, Debug)]
enum Arg {
    I(Box<I>),
    /// a literal where an operand belongs
    Lit(K, String),
}

#[derive(Clone, Debug)]
struct I {
    name: &'static str,
    imms: Vec<(K, String)>,
    args: Vec<Arg>,
    /// expected types of operands; `None`: not known to the checker
    params: Option<Vec<&'static str>>,
    results: Option<Vec<&'static str>>,
    callee: Option<usize>,
    /// diagnostics for the immediates: (index, message)
    bad_imm: Option<(usize, &'static str)>,
    body: Body,
}

#[derive(Clone, Debug)]
enum Body {
    None,
    /// block/loop with body
    Block(Vec<Stmt>),
    /// (if cond (then …) (else …))
    If(Vec<Stmt>, Vec<Stmt>),
}

#[derive(Clone, Debug)]
struct Stmt {
    i: I,
    folded: bool,
}

struct Func {
    name: String,
    params: Vec<(Option<String>, &'static str)>,
    results: Vec<&'static str>,
    form: usize,
    /// first and last token, and the type token of each inline parameter
    span: (usize, usize),
    param_toks: Vec<usize>,
}

struct Ctx {
    funcs: Vec<Func>,
    globals: Vec<(String, &'static str)>,
    locals: Vec<(String, &'static str)>,
    errors: usize,
}

fn val(g: &mut G) -> &'static str {
    VAL[g.weighted(&[5, 4, 3, 3, 2, 1, 1])]
}

fn instr(name: &'static str) -> I {
    let op = instrs::BY_NAME.get(name);
    I {
        name,
        imms: vec![],
        args: vec![],
        params: op.map(|o| o.params.clone()),
        results: op.map(|o| o.results.clone()),
        callee: None,
        bad_imm: None,
        body: Body::None,
    }
}

fn const_imm(g: &mut G, t: &str) -> (K, String) {
    match t {
        "i32" | "i64" => (K::INT, (*g.pick(&["0", "1", "-1", "42", "0x1F", "1_0", "2147483648", "-0x8000_0000"])).into()),
        _ => match g.below(3) {
            0 => (K::INT, "1".into()),
            1 => (K::FLOAT, "1.5".into()),
            _ => (K::FLOAT, (*g.pick(&["-0.0", "inf", "nan", "1e3", "0x1.8p1"])).into()),
        },
    }
}

/// Immediates of an instruction of the table; `None`: not generated here.
fn immediates(g: &mut G, ctx: &mut Ctx, i: &mut I) -> bool {
    let n = i.name;
    let (ty, op) = n.split_once('.').unwrap_or(("", n));
    let bad = ctx.errors > 0 && g.chance(1, 40);
    let idx = |g: &mut G| -> (K, String) { (K::INT, g.below(3).to_string()) };
    let not_idx = |g: &mut G| match g.below(3) {
        0 => (K::FLOAT, "1.5".to_string()),
        1 => (K::STRING, "\"a\"".to_string()),
        _ => (K::MEM_ARG, "offset=4".to_string()),
    };
    const IDX: &str = "expected identifier or unsigned integer";
    match n {
        "local.get" | "local.set" | "local.tee" => {
            if bad {
                i.imms.push(not_idx(g));
                i.bad_imm = Some((0, IDX));
                if n == "local.get" {
                    i.results = None;
                }
                return true;
            }
            if ctx.locals.is_empty() {
                return false;
            }
            let (name, t) = g.pick(&ctx.locals).clone();
            let k = if name.starts_with('$') { K::IDENT } else { K::INT };
            i.imms.push((k, name));
            if n == "local.get" {
                i.results = Some(vec![t]);
            }
            true
        }
        "global.get" | "global.set" => {
            if bad {
                i.imms.push(not_idx(g));
                i.bad_imm = Some((0, IDX));
                if n == "global.get" {
                    i.results = None;
                }
                return true;
            }
            if ctx.globals.is_empty() {
                return false;
            }
            let (name, t) = g.pick(&ctx.globals).clone();
            i.imms.push((K::IDENT, name));
            if n == "global.get" {
                i.results = Some(vec![t]);
            }
            true
        }
        "ref.null" => {
            i.imms.push((K::HEAP_TYPE, (*g.pick(&["func", "extern"])).into()));
            true
        }
        "ref.func" => {
            if bad {
                i.imms.push(not_idx(g));
                i.bad_imm = Some((0, IDX));
                return true;
            }
            if ctx.funcs.is_empty() {
                return false;
            }
            let f = g.pick(&ctx.funcs).name.clone();
            i.imms.push((K::IDENT, f));
            true
        }
        "table.init" => {
            for _ in 0..g.range(1, 2) {
                let x = idx(g);
                i.imms.push(x);
            }
            if bad {
                let k = g.below(i.imms.len());
                i.imms[k] = not_idx(g);
                i.bad_imm = Some((k, IDX));
            }
            true
        }
        "table.copy" => {
            if g.chance(1, 2) {
                i.imms = vec![idx(g), idx(g)];
                if bad {
                    let k = g.below(2);
                    i.imms[k] = not_idx(g);
                    i.bad_imm = Some((k, IDX));
                }
            }
            true
        }
        "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill" => {
            if bad {
                i.imms.push(not_idx(g));
                i.bad_imm = Some((0, IDX));
            } else if g.chance(1, 2) {
                i.imms.push(idx(g));
            }
            true
        }
        "memory.init" | "data.drop" | "elem.drop" => {
            if bad {
                i.imms.push(not_idx(g));
                i.bad_imm = Some((0, IDX));
            } else {
                i.imms.push(idx(g));
            }
            true
        }
        "v128.const" => false,
        "i8x16.shuffle" => {
            for _ in 0..16 {
                let x = (K::INT, g.below(32).to_string());
                i.imms.push(x);
            }
            if bad {
                i.imms[0] = not_idx(g);
                i.bad_imm = Some((0, IDX));
            }
            true
        }
        _ if op == "const" => {
            if bad {
                if ty.starts_with('i') {
                    i.imms.push(if g.chance(1, 2) { (K::FLOAT, "1.5".into()) } else { (K::STRING, "\"a\"".into()) });
                    i.bad_imm = Some((0, "expected integer"));
                } else {
                    i.imms.push(if g.chance(1, 2) { (K::IDENT, "$x".into()) } else { (K::STRING, "\"a\"".into()) });
                    i.bad_imm = Some((0, "expected floating-point number"));
                }
            } else {
                i.imms.push(const_imm(g, ty));
            }
            true
        }
        _ if op.ends_with("_lane") && ty == "v128" => {
            i.imms = vec![(K::MEM_ARG, format!("offset={}", g.below(9))), (K::INT, g.below(2).to_string())];
            if bad {
                if g.chance(1, 2) {
                    i.imms[0] = (K::STRING, "\"a\"".into());
                    i.bad_imm = Some((0, "expected memory argument"));
                } else {
                    i.imms[1] = (K::FLOAT, "1.5".into());
                    i.bad_imm = Some((1, IDX));
                }
            }
            true
        }
        _ if op.starts_with("load") || op.starts_with("store") => {
            match g.weighted(&[3, 2, 1, 2]) {
                0 => {}
                1 => i.imms.push((K::MEM_ARG, format!("offset={}", g.below(100)))),
                2 => i.imms.push((K::MEM_ARG, format!("align={}", 1 << g.below(4)))),
                _ => {
                    i.imms.push((K::MEM_ARG, format!("offset={}", g.below(100))));
                    i.imms.push((K::MEM_ARG, "align=1".into()));
                }
            }
            if bad && !op.ends_with("_zero") {
                i.imms = vec![if g.chance(1, 2) { (K::INT, "4".into()) } else { (K::IDENT, "$m".into()) }];
                i.bad_imm = Some((0, "expected memory argument"));
            }
            true
        }
        _ if op.contains("_lane") => {
            i.imms.push((K::INT, g.below(2).to_string()));
            if bad {
                i.imms[0] = (K::FLOAT, "1.5".into());
                i.bad_imm = Some((0, IDX));
            }
            true
        }
        _ => true,
    }
}

/// Instruction of the table, or a call, that has the wanted results.
fn candidate(g: &mut G, ctx: &mut Ctx, want: Option<&str>, leaf: bool) -> I {
    for _ in 0..40 {
        if !ctx.funcs.is_empty() && g.chance(1, 4) {
            let k = g.below(ctx.funcs.len());
            let f = &ctx.funcs[k];
            if want.is_none_or_eq(&f.results) && (!leaf || f.params.is_empty()) {
                let mut i = instr("call");
                i.imms.push((K::IDENT, f.name.clone()));
                i.params = Some(f.params.iter().map(|p| p.1).collect());
                i.results = Some(f.results.clone());
                i.callee = Some(k);
                return i;
            }
            continue;
        }
        let op = if leaf {
            instrs::BY_NAME[*g.pick(&["i32.const", "i64.const", "f32.const", "f64.const", "local.get", "global.get", "ref.null", "ref.func", "memory.size", "table.size"])]
        } else {
            g.pick(&instrs::ALL)
        };
        let mut i = instr(op.name);
        if !immediates(g, ctx, &mut i) {
            continue;
        }
        let Some(r) = &i.results else {
            if want.is_some() {
                return i;
            }
            continue;
        };
        if want.is_none_or_eq(r) {
            return i;
        }
    }
    // a constant that always exists
    let name = match want {
        Some("i64") => "i64.const",
        Some("f32") => "f32.const",
        Some("f64") => "f64.const",
        Some("i32") | None => "i32.const",
        _ => "ref.null",
    };
    let mut i = instr(name);
    i.imms.push(if name == "ref.null" { (K::HEAP_TYPE, "func".into()) } else { (K::INT, "0".into()) });
    i
}

trait Want {
    fn is_none_or_eq(&self, r: &[&str]) -> bool;
}
impl Want for Option<&str> {
    fn is_none_or_eq(&self, r: &[&str]) -> bool {
        match self {
            None => true,
            Some(t) => r.len() == 1 && (r[0] == *t || r[0] == "any" || *t == "any"),
        }
    }
}

fn gen_instr(g: &mut G, ctx: &mut Ctx, want: Option<&str>, depth: usize) -> I {
    if want.is_none() && g.chance(1, 12) {
        return unknown(g, ctx, depth);
    }
    let mut i = candidate(g, ctx, want, depth == 0);
    let params = i.params.clone().unwrap_or_default();
    let mut k = 0;
    while k < params.len() {
        // one call for several operands
        if g.chance(1, 6) {
            let found = ctx.funcs.iter().position(|f| {
                f.results.len() > 1 && k + f.results.len() <= params.len() && f.results[..] == params[k..k + f.results.len()] && f.params.is_empty()
            });
            if let Some(f) = found {
                let mut c = instr("call");
                c.imms.push((K::IDENT, ctx.funcs[f].name.clone()));
                c.params = Some(vec![]);
                c.results = Some(ctx.funcs[f].results.clone());
                c.callee = Some(f);
                k += ctx.funcs[f].results.len();
                i.args.push(Arg::I(Box::new(c)));
                continue;
            }
        }
        let mut t = params[k];
        if t == "any" {
            t = *g.pick(&["i32", "i64", "f32", "f64"]);
        }
        let mut skip = false;
        if ctx.errors > 0 && g.chance(1, 10) {
            ctx.errors -= 1;
            match g.below(6) {
                0 | 1 => t = val(g),
                2 => skip = true,
                3 => {
                    let x = gen_instr(g, ctx, Some("i32"), 0);
                    i.args.push(Arg::I(Box::new(x)));
                }
                4 => {
                    // right after the immediates it would be one of them
                    let ok = (!i.args.is_empty() || !variable_immediates(i.name)) && !i.name.starts_with("table.");
                    if ok {
                        let l = match g.below(3) {
                            0 => (K::INT, "7".to_string()),
                            1 => (K::FLOAT, "2.5".to_string()),
                            _ => (K::IDENT, "$l0".to_string()),
                        };
                        i.args.push(Arg::Lit(l.0, l.1));
                        skip = true;
                    }
                }
                _ => {
                    let x = unknown(g, ctx, depth.saturating_sub(1));
                    i.args.push(Arg::I(Box::new(x)));
                    skip = true;
                }
            }
        }
        if !skip {
            let x = gen_instr(g, ctx, Some(t), depth.saturating_sub(1));
            i.args.push(Arg::I(Box::new(x)));
        }
        k += 1;
    }
    if ctx.errors > 0 && g.chance(1, 40) {
        ctx.errors -= 1;
        let x = gen_instr(g, ctx, Some("i32"), 0);
        i.args.push(Arg::I(Box::new(x)));
    }
    i
}

fn variable_immediates(n: &str) -> bool {
    let (ty, op) = n.split_once('.').unwrap_or(("", n));
    ty == "table" || op.starts_with("load") || op.starts_with("store") || op == "shuffle"
}

fn unknown(g: &mut G, ctx: &mut Ctx, depth: usize) -> I {
    let mut i;
    match g.below(6) {
        0 => i = instr("unreachable"),
        1 => {
            i = instr("br");
            i.imms.push((K::INT, "0".into()));
        }
        2 => i = instr("return"),
        3 => {
            i = instr(*g.pick(&["block", "loop"]));
            i.body = Body::Block(if depth == 0 { vec![] } else { stmts(g, ctx, depth - 1, 2) });
        }
        4 => {
            i = instr("if");
            let c = gen_instr(g, ctx, Some("i32"), depth.saturating_sub(1));
            i.args.push(Arg::I(Box::new(c)));
            let a = if depth == 0 { vec![] } else { stmts(g, ctx, depth - 1, 2) };
            let b = if depth == 0 { vec![] } else { stmts(g, ctx, depth - 1, 1) };
            i.body = Body::If(a, b);
        }
        _ => i = instr("nop"),
    }
    i.params = None;
    i.results = None;
    i
}

fn stmts(g: &mut G, ctx: &mut Ctx, depth: usize, max: usize) -> Vec<Stmt> {
    let mut out = vec![];
    let style = g.below(3);
    for _ in 0..g.range(1, max) {
        let i = gen_instr(g, ctx, None, depth);
        match style {
            0 => out.push(Stmt { i, folded: true }),
            _ => flatten(g, i, style == 2, &mut out),
        }
    }
    out
}

/// Operands first, each possibly left folded.
fn flatten(g: &mut G, mut i: I, mixed: bool, out: &mut Vec<Stmt>) {
    if !matches!(i.body, Body::None) || i.args.iter().any(|a| matches!(a, Arg::Lit(..))) || mixed && g.chance(1, 4) {
        out.push(Stmt { i, folded: true });
        return;
    }
    for a in std::mem::take(&mut i.args) {
        if let Arg::I(x) = a {
            flatten(g, *x, mixed, out);
        }
    }
    if g.chance(1, 20) {
        let n = instr("nop");
        out.push(Stmt { i: n, folded: false });
    }
    out.push(Stmt { i, folded: false });
}

// ---- tokens and expected diagnostics ----

type Place = (usize, usize);

#[derive(Default)]
struct Out {
    toks: Vec<Tok>,
    /// required diagnostics: place, message, related parameter (function, index)
    want: Vec<(Place, String, Option<(usize, usize)>)>,
    /// places where a type mismatch may be reported in addition
    maybe: Vec<Place>,
    /// instruction names
    names: Vec<usize>,
    checked: usize,
    labels: Vec<&'static str>,
}

impl Out {
    fn t(&mut self, kind: K, text: impl Into<String>) -> usize {
        self.toks.push(Tok {
            kind,
            text: text.into(),
        });
        self.toks.len() - 1
    }
    fn lp(&mut self) -> usize {
        self.t(K::L_PAREN, "(")
    }
    fn rp(&mut self) -> usize {
        self.t(K::R_PAREN, ")")
    }
    fn kw(&mut self, s: &str) -> usize {
        self.t(K::KEYWORD, s)
    }

    fn stmts(&mut self, v: &[Stmt]) -> Vec<Place> {
        v.iter().map(|s| self.instr(&s.i, s.folded)).collect()
    }

    fn instr(&mut self, i: &I, folded: bool) -> Place {
        let first = self.toks.len();
        if folded {
            self.lp();
        }
        let name = self.t(if matches!(i.body, Body::None) { K::INSTR_NAME } else { K::KEYWORD }, i.name);
        if matches!(i.body, Body::None) {
            self.names.push(name);
        }
        for (k, (kind, text)) in i.imms.iter().enumerate() {
            let t = self.t(*kind, text.clone());
            if let Some((n, m)) = i.bad_imm {
                if n == k {
                    self.want.push(((t, t), m.into(), None));
                    self.labels.push("wrong immediate");
                }
            }
        }
        let mut places = vec![];
        for a in &i.args {
            places.push(match a {
                Arg::I(x) => self.instr(x, true),
                Arg::Lit(k, s) => {
                    let t = self.t(*k, s.clone());
                    (t, t)
                }
            });
        }
        match &i.body {
            Body::None => {}
            Body::Block(b) => {
                self.stmts(b);
            }
            Body::If(a, b) => {
                self.lp();
                self.kw("then");
                self.stmts(a);
                self.rp();
                if !b.is_empty() {
                    self.lp();
                    self.kw("else");
                    self.stmts(b);
                    self.rp();
                }
            }
        }
        if folded {
            self.rp();
        }
        let place = (first, self.toks.len() - 1);
        if folded && matches!(i.body, Body::None) {
            self.folded(i, place, &places);
        }
        place
    }

    /// Operands of a folded instruction.
    fn folded(&mut self, i: &I, place: Place, places: &[Place]) {
        let Some(params) = &i.params else { return };
        self.checked += 1;
        let (mut types, mut unknown, mut lits) = (vec![], false, 0);
        for (a, p) in i.args.iter().zip(places) {
            match a {
                Arg::I(x) => match &x.results {
                    _ if unknown => {}
                    Some(r) => types.extend(r.iter().map(|t| (*t, *p))),
                    None => unknown = true,
                },
                Arg::Lit(..) => {
                    lits += 1;
                    self.labels.push("literal operand");
                    self.want.push((*p, "expected instr".into(), None));
                }
            }
        }
        let want = params.len() + i.imms.len();
        let found = types.len() + lits + i.imms.len();
        let wrong_count = !unknown && want != found;
        if wrong_count {
            self.labels.push("wrong number of operands");
            self.want.push((place, count_message(want, found), None));
        }
        if wrong_count || lits > 0 {
            // which operand belongs to which parameter is not clear then
            self.maybe.extend(places);
            return;
        }
        for (k, (want, (got, p))) in params.iter().zip(&types).enumerate() {
            self.compare(i, k, want, got, *p);
        }
    }

    fn compare(&mut self, i: &I, k: usize, want: &str, got: &str, p: Place) {
        if want != "any" && got != "any" && want != got {
            self.labels.push("wrong type");
            self.want.push((p, format!("expected type `{want}`, found `{got}`"), i.callee.map(|c| (c, k))));
        }
    }

    /// A sequence of instructions that is not completely folded.
    fn flat(&mut self, v: &[Stmt], places: &[Place]) {
        if v.iter().all(|s| s.folded) {
            return;
        }
        let mut stack: Vec<(&str, Place)> = vec![];
        for (s, p) in v.iter().zip(places) {
            if s.i.name == "nop" {
                continue;
            }
            let Some(params) = &s.i.params else { return };
            if !s.folded {
                self.checked += 1;
                if params.len() > stack.len() {
                    self.labels.push("wrong number of operands");
                    self.want.push((*p, count_message(params.len(), stack.len()), None));
                    self.maybe.extend(stack.drain(..).map(|x| x.1));
                } else {
                    let at = stack.len() - params.len();
                    let popped: Vec<_> = stack.drain(at..).collect();
                    for (k, (want, (got, q))) in params.iter().zip(popped).enumerate() {
                        self.compare(&s.i, k, want, got, q);
                    }
                }
            }
            let Some(r) = &s.i.results else { return };
            stack.extend(r.iter().map(|t| (*t, *p)));
        }
    }
}

fn count_message(want: usize, found: usize) -> String {
    format!("expected {want} operand{}, found {found}", if want == 1 { "" } else { "s" })
}

fn sig(out: &mut Out, f: &mut Func, named: bool) {
    let mut k = 0;
    while k < f.params.len() {
        out.lp();
        out.kw("param");
        if let (Some(n), true) = (&f.params[k].0, named) {
            out.t(K::IDENT, n.clone());
            f.param_toks.push(out.t(K::NUM_TYPE, f.params[k].1));
            k += 1;
        } else {
            while k < f.params.len() && (f.params[k].0.is_none() || !named) {
                f.param_toks.push(out.t(K::NUM_TYPE, f.params[k].1));
                k += 1;
            }
        }
        out.rp();
    }
    if !f.results.is_empty() {
        out.lp();
        out.kw("result");
        for r in &f.results {
            out.t(K::NUM_TYPE, *r);
        }
        out.rp();
    }
}

fn c17(g: &mut G, case: &mut Case) -> Outcome {
    let n = if g.chance(1, 30) { g.range(5, 20) } else { g.range(1, 4) };
    // names of functions, globals, parameters, locals and types; equal ones of different kinds are independent
    let [fun, glob, param, local, ty] = match g.weighted(&[3, 2, 1]) {
        0 => ["$f", "$g", "$p", "$l", "$t"],
        1 => ["$x", "$x", "$x", "$y", "$x"],
        _ => ["$a.b-c!", "$#", "$?", "$~/:", "$<=>"],
    };
    let mut ctx = Ctx {
        funcs: vec![],
        globals: (0..g.below(3)).map(|k| (format!("{glob}{k}"), VAL[g.below(4)])).collect(),
        locals: vec![],
        errors: if g.chance(1, 2) { 0 } else { g.range(1, 3) },
    };
    for k in 0..n {
        let params = (0..g.below(4)).map(|p| (g.chance(1, 2).then(|| format!("{param}{p}")), val(g))).collect();
        let results = (0..g.weighted(&[3, 4, 2, 1])).map(|_| val(g)).collect();
        ctx.funcs.push(Func {
            name: format!("{fun}{k}"),
            params,
            results,
            // inline, type use, both, import field, inline import
            form: g.weighted(&[5, 2, 1, 1, 1]),
            span: (0, 0),
            param_toks: vec![],
        });
    }
    // bodies
    let mut bodies = vec![];
    for k in 0..n {
        ctx.locals.clear();
        if ctx.funcs[k].form == 0 {
            for (p, (name, t)) in ctx.funcs[k].params.iter().enumerate() {
                ctx.locals.push((p.to_string(), *t));
                if let Some(name) = name {
                    ctx.locals.push((name.clone(), *t));
                }
            }
        }
        // locals without name are referred to by their number, which counts on from the parameters
        let first = ctx.locals.iter().filter(|l| !l.0.starts_with('$')).count();
        let unnamed = ctx.funcs[k].form == 0 && g.chance(1, 3);
        let own: Vec<(String, &'static str)> = (0..g.below(3))
            .map(|l| (if unnamed && g.chance(1, 2) { (first + l).to_string() } else { format!("{local}{l}") }, val(g)))
            .collect();
        ctx.locals.extend(own.iter().cloned());
        let body = if ctx.funcs[k].form >= 3 { vec![] } else { stmts(g, &mut ctx, 2, 4) };
        bodies.push((own, body));
    }
    ctx.locals.clear();
    let globals = ctx.globals.clone();
    let mut inits = vec![];
    for (_, t) in &globals {
        // initialisers must not depend on order
        let saved = std::mem::take(&mut ctx.funcs);
        let depth = g.below(2);
        let i = gen_instr(g, &mut ctx, Some(t), depth);
        ctx.funcs = saved;
        let mut v = vec![];
        if g.chance(1, 2) {
            v.push(Stmt { i, folded: true });
        } else {
            flatten(g, i, true, &mut v);
        }
        inits.push(v);
    }
    // tokens
    let mut out = Out::default();
    out.lp();
    out.kw("module");
    let mut order: Vec<usize> = (0..n + globals.len()).collect();
    g.shuffle(&mut order);
    for o in order {
        if o >= n {
            let (name, t) = &globals[o - n];
            out.lp();
            out.kw("global");
            out.t(K::IDENT, name.clone());
            if g.chance(1, 2) {
                out.lp();
                out.kw("mut");
                out.t(K::NUM_TYPE, *t);
                out.rp();
            } else {
                out.t(K::NUM_TYPE, *t);
            }
            let v = &inits[o - n];
            let places = out.stmts(v);
            out.flat(v, &places);
            out.rp();
            continue;
        }
        let f = &mut ctx.funcs[o];
        if matches!(f.form, 1 | 2) {
            let mut tf = Func {
                name: String::new(),
                params: f.params.clone(),
                results: f.results.clone(),
                form: 0,
                span: (0, 0),
                param_toks: vec![],
            };
            out.lp();
            out.kw("type");
            out.t(K::IDENT, format!("{ty}{o}"));
            out.lp();
            out.kw("func");
            sig(&mut out, &mut tf, true);
            out.rp();
            out.rp();
        }
        let first = out.toks.len();
        if f.form == 3 {
            out.lp();
            out.kw("import");
            out.t(K::STRING, "\"a\"");
            out.t(K::STRING, "\"b\"");
            out.lp();
            out.kw("func");
            out.t(K::IDENT, f.name.clone());
            sig(&mut out, f, true);
            out.rp();
            out.rp();
            f.span = (first, out.toks.len() - 1);
            // parameters of imports have no place of their own
            f.param_toks.clear();
            continue;
        }
        out.lp();
        out.kw("func");
        out.t(K::IDENT, f.name.clone());
        if f.form == 4 {
            out.lp();
            out.kw("import");
            out.t(K::STRING, "\"a\"");
            out.t(K::STRING, "\"b\"");
            out.rp();
        }
        if matches!(f.form, 1 | 2) {
            out.lp();
            out.kw("type");
            out.t(K::IDENT, format!("{ty}{o}"));
            out.rp();
        }
        if f.form != 1 {
            sig(&mut out, f, true);
        }
        let (own, body) = &bodies[o];
        let mut own = own.iter().filter(|_| f.form < 3).peekable();
        while let Some((name, t)) = own.next() {
            out.lp();
            out.kw("local");
            if name.starts_with('$') {
                out.t(K::IDENT, name.clone());
                out.t(K::NUM_TYPE, *t);
            } else {
                out.t(K::NUM_TYPE, *t);
                while let Some((_, t)) = own.next_if(|l| !l.0.starts_with('$')) {
                    out.t(K::NUM_TYPE, *t);
                }
            }
            out.rp();
        }
        let places = out.stmts(body);
        out.flat(body, &places);
        out.rp();
        ctx.funcs[o].span = (first, out.toks.len() - 1);
    }
    out.rp();
    let r = any_render(g);
    let text = render(g, &out.toks, &r);
    case.rendering = text.text.clone();
    case.note(&text.text);
    case.nontrivial = out.checked >= 6;
    for l in &out.labels {
        case.label(l);
    }
    if out.want.is_empty() {
        case.label("well-typed");
    }
    let lines = Lines::new(&text.text);
    let svc = guard(|| Svc::new(&text.text))?;
    let range = |p: Place| lines.range(text.spans[p.0].0, text.spans[p.1].1);
    let shown = |r: Range| match lines.span(r) {
        Some((a, b)) => format!("{:?} at {}:{}", &text.text[a..b], r.start.line, r.start.character),
        None => format!("{r:?}"),
    };
    let diags = svc.diagnostics()?;
    if let Some(d) = diags.iter().find(|d| d.message.starts_with("syntax error")) {
        return Err(format!("{} at {}", d.message, shown(d.range)));
    }
    type Key = (u32, u32, u32, u32, String);
    let key = |r: Range, m: &str| -> Key { (r.start.line, r.start.character, r.end.line, r.end.character, m.to_string()) };
    let mut got: BTreeMap<Key, Vec<&Diagnostic>> = BTreeMap::new();
    for d in diags.iter().filter(|d| d.message.starts_with("expected")) {
        got.entry(key(d.range, &d.message)).or_default().push(d);
    }
    let maybe: Vec<Range> = out.maybe.iter().map(|p| range(*p)).collect();
    for (p, m, related) in &out.want {
        let r = range(*p);
        let k = key(r, m);
        let v = got.entry(k).or_default();
        if v.is_empty() {
            let near: Vec<&str> = diags.iter().filter(|d| d.range == r).map(|d| d.message.as_str()).collect();
            return Err(format!("not reported for {}: {m} (reported there: {near:?})", shown(r)));
        }
        let rels = |d: &Diagnostic| -> Vec<Range> { d.related_information.iter().flatten().map(|i| i.location.range).collect() };
        // the parameter that the related place has to show
        let param = related.and_then(|(f, k)| ctx.funcs[f].param_toks.get(k).map(|t| (range((*t, *t)), range(ctx.funcs[f].span))));
        let fits = |d: &Diagnostic| {
            let rel = rels(d);
            match param {
                Some((t, f)) => rel.len() == 1 && rel[0].start <= t.start && t.end <= rel[0].end && f.start <= rel[0].start,
                None => rel.is_empty(),
            }
        };
        match v.iter().position(|d| fits(d)) {
            Some(at) => {
                v.remove(at);
            }
            None => {
                return Err(format!(
                    "{m} for {}: related places {:?} instead of {:?}",
                    shown(r),
                    v.iter().map(|d| rels(d)).collect::<Vec<_>>(),
                    param.map(|p| shown(p.0))
                ));
            }
        }
    }
    for (k, v) in &got {
        if let Some(d) = v.first() {
            if k.4.starts_with("expected type") && maybe.contains(&d.range) {
                continue;
            }
            return Err(format!("reported without reason for {}: {}", shown(d.range), d.message));
        }
    }
    // opcodes
    for _ in 0..3.min(out.names.len()) {
        let t = *g.pick(&out.names);
        let name = out.toks[t].text.as_str();
        let Some(op) = instrs::BY_NAME.get(name) else { continue };
        let h = svc.hover(lines.pos(text.spans[t].0 + 1))?;
        let shown = h.map(|h| super::features::flat(&h.contents).join("\n")).unwrap_or_default();
        let want = format!("Binary Opcode: {}", op.opcode);
        if !shown.lines().any(|l| l.trim() == want) || !shown.lines().any(|l| l.trim() == name) {
            return Err(format!("hover of {name} shows {shown:?} instead of opcode {}", op.opcode));
        }
    }
    Ok(())
}
