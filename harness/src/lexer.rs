//! An independent lexer of the WebAssembly text format, written from the
//! specification; oracles use it instead of the parser under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum L {
    Ws,
    LineComment,
    BlockComment,
    LParen,
    RParen,
    Str,
    /// maximal run of identifier characters (keywords, numbers, identifiers)
    Atom,
    /// anything else
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lex {
    pub kind: L,
    pub start: usize,
    pub end: usize,
}

pub fn is_idchar(c: char) -> bool {
    matches!(c,
        '0'..='9' | 'A'..='Z' | 'a'..='z'
        | '!' | '#' | '$' | '%' | '&' | '*' | '+' | '-' | '.' | '/' | ':' | '<' | '=' | '>'
        | '?' | '@' | '\\' | '^' | '_' | '`' | '|' | '~')
}

pub fn lex(text: &str) -> Vec<Lex> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let c = text[i..].chars().next().unwrap();
        let kind = if matches!(c, ' ' | '\t' | '\r' | '\n') {
            while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\r' | b'\n') {
                i += 1;
            }
            L::Ws
        } else if text[i..].starts_with(";;") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            // a CR that belongs to the line ending is not part of the comment
            if i > start && i < b.len() && b[i - 1] == b'\r' {
                i -= 1;
            }
            L::LineComment
        } else if text[i..].starts_with("(;") {
            let mut depth = 0;
            let mut closed = false;
            while i < b.len() {
                if text.is_char_boundary(i) && text[i..].starts_with("(;") {
                    depth += 1;
                    i += 2;
                } else if text.is_char_boundary(i) && text[i..].starts_with(";)") {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        closed = true;
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            if closed {
                L::BlockComment
            } else {
                i = start + 1;
                L::LParen
            }
        } else if c == '(' {
            i += 1;
            L::LParen
        } else if c == ')' {
            i += 1;
            L::RParen
        } else if c == '"' {
            i += 1;
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                if b[i] == b'"' {
                    i += 1;
                    break;
                }
                if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] != b'\n' && b[i + 1] != b'\r' {
                    i += 1;
                }
                i += text[i..].chars().next().unwrap().len_utf8();
            }
            L::Str
        } else if is_idchar(c) {
            while i < b.len() && is_idchar(b[i] as char) {
                i += 1;
            }
            L::Atom
        } else {
            i += c.len_utf8();
            L::Other
        };
        out.push(Lex { kind, start, end: i });
    }
    out
}

/// The texts of all non-trivia tokens.
pub fn significant(text: &str) -> Vec<&str> {
    lex(text)
        .into_iter()
        .filter(|l| !matches!(l.kind, L::Ws | L::LineComment | L::BlockComment))
        .map(|l| &text[l.start..l.end])
        .collect()
}

/// Tokens and comments in order (no whitespace).
pub fn with_comments(text: &str) -> Vec<(L, &str)> {
    lex(text)
        .into_iter()
        .filter(|l| l.kind != L::Ws)
        .map(|l| (l.kind, &text[l.start..l.end]))
        .collect()
}
