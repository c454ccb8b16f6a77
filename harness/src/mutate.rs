//! Generators of malformed text: corruptions of valid modules and raw text.

use crate::{
    engine::G,
    wat::{self, any_render, gen_doc, render, Cfg, Tok},
};
use wat_syntax::SyntaxKind::*;

const GARBAGE: &[&str] = &[
    "(", ")", "\"", "$", "[", ",", "{", "%", "\\", "'", ";", "(;", ";)", ";;", "é", "😀", "\u{0}", "0x", "1_", "-",
    "+", "nan:", "inf", "offset=", "align=x", "$a", "42", "1.5", "\"s\"", "module", "func", "end", "else", "then",
    "block", "loop", "if", "param", "result", "local", "type", "i32", "funcref", "i32.const", "call", "mut", "\r",
    "\n", "\t", "(func", "(param", "(result", "(type", "(then", "(else", "(local $x", "(import \"a\"", "(elem", "(data",
    "(export \"", "(global", "(table", "(memory", "(start", "(offset", "(item", "(module", "elem", "declare", "shared",
    "\"\\u{", "\"\\", "\"a\\\nb\"", "A", "@x", "#", "\u{c}", "\u{b}", "\u{a0}", "\u{2028}",
    "\u{2029}", "\u{85}", "\u{7f}", "\u{ad}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{feff}", "\u{3000}", "\u{301}", "\u{1b}",
    "\r\n", "\n\n", "\r\r", "👩\u{200d}👩", "\u{10ffff}", "\u{fffd}",
];

/// What files of other tools may begin or end with.
const EDGES: &[&str] = &[
    "\u{feff}", "\u{feff}\u{feff}", "\u{fffe}", "\u{0}", "\n", "\r\n", "\r", " ", "\t", "\u{c}", "\u{1a}", "#!/usr/bin/env wat\n",
    ";;", ";; \u{feff}", "(;", "(; ;)", "\"", "(", ")", "$", "@", "é",
];

pub fn raw(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.range(0, 30) {
        if g.chance(1, 4) {
            s.push((32 + g.below(95)) as u8 as char);
        } else {
            s.push_str(*g.pick(GARBAGE));
        }
        if g.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

/// Corrupt a token sequence.
pub fn corrupt_toks(g: &mut G, toks: &mut Vec<Tok>) {
    for _ in 0..g.range(1, 3) {
        if toks.is_empty() {
            return;
        }
        let i = g.below(toks.len());
        match g.below(6) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => {
                let text = g.pick(GARBAGE).to_string();
                toks.insert(i, Tok { kind: ERROR, text });
            }
            3 => {
                let text = g.pick(GARBAGE).to_string();
                toks[i] = Tok { kind: ERROR, text };
            }
            4 => {
                let j = g.below(toks.len());
                toks.swap(i, j);
            }
            _ => {
                let n = g.below(4).min(toks.len() - i);
                toks.drain(i..i + n);
            }
        }
    }
}

/// Corrupt text at character level.
pub fn corrupt_text(g: &mut G, text: &mut String) {
    for _ in 0..g.range(1, 3) {
        let mut i = g.below(text.len() + 1);
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        match g.below(4) {
            0 => text.truncate(i),
            1 => {
                let s = g.pick(GARBAGE).to_string();
                text.insert_str(i, &s);
            }
            2 => {
                if i < text.len() {
                    text.remove(i);
                }
            }
            _ => {
                let mut j = (i + g.below(12)).min(text.len());
                while !text.is_char_boundary(j) {
                    j -= 1;
                }
                text.replace_range(i..j.max(i), "");
            }
        }
    }
}

/// Any text: valid modules, corrupted ones and raw garbage.
/// Returns the text and the class it belongs to.
pub fn any_text(g: &mut G, cfg: Cfg) -> (String, &'static str) {
    let (mut text, class) = any_inner_text(g, cfg);
    if g.chance(1, 12) {
        text.insert_str(0, *g.pick(EDGES));
    }
    if g.chance(1, 16) {
        text.push_str(*g.pick(EDGES));
    }
    (text, class)
}

fn any_inner_text(g: &mut G, cfg: Cfg) -> (String, &'static str) {
    match g.weighted(&[2, 4, 4, 1]) {
        0 => {
            let d = gen_doc(g, cfg);
            let r = any_render(g);
            (render(g, &d.toks, &r).text, "valid")
        }
        1 => {
            let mut d = gen_doc(g, cfg);
            corrupt_toks(g, &mut d.toks);
            let r = any_render(g);
            (render(g, &d.toks, &r).text, "token corruption")
        }
        2 => {
            let d = gen_doc(g, cfg);
            let r = any_render(g);
            let mut t = render(g, &d.toks, &r).text;
            corrupt_text(g, &mut t);
            (t, "text corruption")
        }
        _ => (raw(g), "raw"),
    }
}

pub fn small() -> Cfg {
    Cfg {
        max_modules: 2,
        max_fields: 4,
        max_instrs: 3,
        depth: 2,
        ..wat::Cfg::default()
    }
}
