//! Time: neither nesting nor repetition may make anything hang.

use super::fmt::{any_options, root};
use crate::{engine::*, lsp::*};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "constructs nested in one another up to 60 levels or repeated up to 200 times, with all or some of them closed, with junk in the middle; parsing, formatting and requests of every kind, each measured in CPU time at growing sizes; non-trivial: at least 30 levels or 100 repetitions",
        quick: 20_000,
        thorough: 400_000,
        run: c29,
        assumptions: &["a step that takes more than 6 s of CPU time, where 0.1 s is usual, does not scale"],
    }]
}

/// Seconds of CPU time a single step may take.
const LIMIT: f64 = 6.0;

/// CPU time of this thread, which other processes don't influence much.
fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 * 1e-9
}

/// What code is nested in.
const PLACES: [(&str, &str); 12] = [
    ("(module (func $f (param $p i32) ", "))"),
    ("(module (func $f (result i32) ", ") (func (call $f)))"),
    ("(module (global $g i32 ", "))"),
    ("(module (table 1 funcref) (elem (offset ", ") func))"),
    ("(module (elem funcref (item ", ")))"),
    ("(module (memory 1) (data (offset ", ") \"a\"))"),
    ("(module (memory 1) (data ", " \"a\"))"),
    ("(module ", ")"),
    ("", ""),
    ("(module (func (param ", ")))"),
    ("(module (type (func ", ")))"),
    ("(module (import \"a\" \"b\" (func ", ")))"),
];
/// Constructs that nest.
const NESTS: [(&str, &str); 31] = [
    ("(block ", ")"),
    ("block ", " end"),
    ("block $l (result i32) ", " end $l"),
    ("(block $l (result i32) ", ")"),
    ("(loop $l (type 0) ", ")"),
    ("loop ", " end"),
    ("(if (then ", "))"),
    ("(if (i32.const 0) (then nop) (else ", "))"),
    ("(if (result i32) ", " (then))"),
    ("if ", " end"),
    ("if nop else ", " end"),
    ("if (result i32) ", " else nop end"),
    ("(i32.add ", ")"),
    ("(i32.add (i32.const 1) ", ")"),
    ("(i32.add ", " (local.get 0))"),
    ("(call $f ", ")"),
    ("(drop ", ")"),
    ("(br $l ", ")"),
    ("(i32.store offset=1 align=4 (i32.const 0) ", ")"),
    ("(; ", " ;)"),
    ("(", ")"),
    ("(1 ", ")"),
    ("(foo ", ")"),
    ("(module ", ")"),
    ("(func ", ")"),
    ("(param ", ")"),
    ("(result ", ")"),
    ("(offset ", ")"),
    ("(item ", ")"),
    ("(import \"a\" \"b\" ", ")"),
    ("(export \"a\" (func $f) ", ")"),
];
/// Pieces that are repeated.
const PIECES: [&str; 40] = [
    "nop\n", "(nop) ", "i32.const 0\n", "(i32.const 0) ", "drop ", "(drop (local.get 0)) ", "local.get $p\n", "(call $f) ", "call 0\n", "br $l ",
    "(block) ", "block end\n", "(block nop) ", "(param i32) ", "(param $p i32) ", "i32 ", "(result i32) ", "(local i32) ", "(local $p i64)\n",
    "(func) ", "(func $f)\n", "(func $f (param i32 i64) (result i32) (call $f (local.get 0)))\n", "(type (func)) ", "(type $t (func (param i32)))\n", "(global $g i32 (i32.const 0))\n",
    "(export \"a\" (func $f))\n", "(import \"a\" \"b\" (func)) ", "(memory 1) ", "(table 1 funcref)\n", "(data \"a\")\n", "\"abc\" ", ";; c\n", "(; c ;) ", "\n", "(1) ", "$ ", "(", ")", "end ", "\u{e4}",
];
const JUNK: [&str; 12] = ["1 ", "foo ", "(", ")", ") ", "(foo) ", "$ ", "\"", "(; ", ";; c\n", "\u{e4} ", "end "];

struct Shape {
    place: (&'static str, &'static str),
    nests: Vec<(&'static str, &'static str)>,
    /// repeated at each level before what is nested
    piece: Option<&'static str>,
    inner: &'static str,
    flat: bool,
    /// how many of ten levels are closed
    closed: usize,
    place_closed: bool,
    junk: Option<(usize, &'static str)>,
}

impl Shape {
    fn text(&self, n: usize) -> String {
        let mut open = vec![self.place.0];
        let mut close = vec![];
        if self.flat {
            for k in 0..n {
                open.push(self.nests[k % self.nests.len()].0);
                open.push(self.inner);
                if self.closed > k % 10 {
                    open.push(self.nests[k % self.nests.len()].1);
                }
                open.extend(self.piece);
            }
        } else {
            for k in 0..n {
                open.push(self.nests[k % self.nests.len()].0);
                open.extend(self.piece);
                if self.closed > k % 10 {
                    close.push(self.nests[k % self.nests.len()].1);
                }
            }
            open.push(self.inner);
            close.reverse();
        }
        open.extend(close);
        if let Some((at, junk)) = self.junk {
            open.insert(1 + at % open.len(), junk);
        }
        if self.place_closed {
            open.push(self.place.1);
        }
        open.concat()
    }
}

fn c29(g: &mut G, case: &mut Case) -> Outcome {
    let flat = g.chance(1, 3);
    let shape = Shape {
        place: *g.pick(&PLACES),
        nests: if flat && g.chance(2, 3) {
            vec![("", "")]
        } else {
            (0..*g.pick(&[1, 1, 2, 3])).map(|_| *g.pick(&NESTS)).collect()
        },
        piece: if g.chance(1, 2) || flat { Some(*g.pick(&PIECES)) } else { None },
        inner: *g.pick(&["", "nop", "(nop)", "(i32.const 0)", "i32", "\"a\"", "(foo)", "1"]),
        flat,
        closed: *g.pick(&[10, 0, 10, 9, 5, 1]),
        place_closed: g.chance(3, 4),
        junk: if g.chance(1, 3) { Some((g.below(200), *g.pick(&JUNK))) } else { None },
    };
    let options = any_options(g);
    let mut ops: Vec<&str> = vec!["parse", "format", "diagnostic"];
    ops.push(*g.pick(&POSITION_METHODS));
    ops.push(*g.pick(&RANGE_METHODS));
    ops.push(*g.pick(&DOC_METHODS));
    let whole = g.chance(1, 2);
    let at = g.below(100);
    // growing sizes, so that a blow-up is noticed before it takes forever
    let sizes: &[usize] = if flat { &[20, 50, 100, 200] } else { &[5, 8, 11, 14, 17, 20, 23, 26, 30, 35, 40, 60] };
    let upto = g.range(sizes.len() / 2, sizes.len());
    case.rendering = shape.text(sizes[0]);
    case.note(&case.rendering.clone());
    case.note(&format!("{ops:?} {upto}"));
    case.rendering.push_str(&format!("\n(size {} up to {}, {ops:?})", sizes[0], sizes[upto - 1]));
    case.label(if flat { "repeated" } else { "nested" });
    case.label(match shape.closed {
        10 => "closed",
        0 => "not closed",
        _ => "partly closed",
    });
    for &n in &sizes[..upto] {
        let text = shape.text(n);
        let lines = Lines::new(&text);
        let mut svc = None;
        for op in &ops {
            let start = cpu();
            match *op {
                "parse" => {
                    guard(|| root(&text))?;
                    svc = Some(guard(|| Svc::new(&text))?);
                }
                "format" => {
                    let tree = guard(|| root(&text))?;
                    guard(|| wat_formatter::format(&tree, &options))?;
                }
                method => {
                    let svc = svc.as_ref().unwrap();
                    let mut o = text.len() * at / 100;
                    while !text.is_char_boundary(o) {
                        o -= 1;
                    }
                    let p = lines.pos(o);
                    let range = if whole { lines.range(0, text.len()) } else { lines.range(o, text.len()) };
                    guard(|| request(&svc.s, method, params(&svc.uri, p, range, 0)))?;
                }
            }
            let t = cpu() - start;
            if std::env::var("WATCHECK_TIMES").is_ok() && t > 0.3 {
                eprintln!("{t:.2} {op} {n} {:?}", shape.text(2));
            }
            if t > LIMIT {
                return Err(format!("{op} takes {t:.1} s of CPU time for {} bytes (size {n}):\n{}", text.len(), shape.text(sizes[0])));
            }
        }
        if n >= if flat { 100 } else { 30 } {
            case.nontrivial = true;
        }
    }
    Ok(())
}
