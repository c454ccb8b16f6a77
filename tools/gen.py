#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append((
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"observe_at": observe} if observe else {}),
                "hook_needed": None,
            },
        },
        note, technique,
    ))


PARSER = ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/ty.rs", "crates/parser/src/parser/token.rs", "crates/parser/src/error.rs"]
FMT = ["crates/formatter/src/lib.rs", "crates/formatter/src/config.rs", "crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/printer/ty.rs"]

prop("C01", "Parsing is total and lossless, and its errors are well placed",
     "For every text, parsing terminates without crashing and yields, also when it is repeated, the same syntax tree, whose text is exactly the source, byte for byte. Every reported syntax error has a range that lies inside the source, does not end before it starts and falls on character boundaries, and a tree that contains erroneous tokens is never reported as free of errors.",
     ["inputs"], "all texts: well-formed, malformed, truncated, mid-edit, arbitrary Unicode",
     "The existing tests are snapshots of a few hundred hand-written files, nearly all of them well-formed; the guarantee is about every text, above all the malformed ones an editor sends while the user types.",
     PARSER, [("parse", "crates/parser/src/parser/mod.rs"), ("token and trivia collection", "crates/parser/src/parser/mod.rs"), ("lexing", "crates/parser/src/parser/token.rs")],
     "Random search over token-level and character-level corruptions of generated modules and raw garbage, judged by exact text equality and range invariants. Nesting depth is bounded (very deep nesting exhausts the stack; see DESIGN.md).",
     "property-based testing: grammar generator + corruption, round-trip and invariant oracle", ["wat_parser::Parser::parse", "wat_parser::Parser::errors"])
prop("C02", "Well-formed source parses without errors into the expected tree",
     "For every module generated from the supported text-format grammar, however it is laid out and commented, parsing reports no syntax error. The resulting tree has exactly the nodes and tokens that the grammar derivation prescribes, independent of whitespace and comments.",
     ["inputs", "programs"], "all derivations of the supported grammar (module fields, types, literals, folded and unfolded instructions), under all layouts",
     "Snapshots pin single examples per construct; combinations of constructs, literal spellings and layouts are unbounded.",
     PARSER, [("module field, type and instruction parsing", "crates/parser/src/parser/mod.rs"), ("literal and keyword lexing", "crates/parser/src/parser/token.rs")],
     "The generator builds the expected tree together with the text, so the oracle is independent of the parser. Constructs the parser does not support on the pinned commit are not generated.",
     "property-based testing: grammar generator with expected-tree reference model", ["wat_parser::Parser::parse"])
prop("C03", "Ill-formed source is always reported as a syntax error",
     "When a well-formed module is corrupted in a way that cannot be well-formed (an impossible token inserted, a closing parenthesis or block end removed, a required part dropped), at least one syntax error is reported. For an inserted impossible token an error touches that token. The language service passes on exactly the syntax errors that the parser finds, at the same places.",
     ["inputs"], "all generated modules with one definite corruption",
     "Tests sample a few dozen errors; a recovery path that swallows an error is only visible for specific neighbours.",
     PARSER + ["crates/service/src/files.rs", "crates/service/src/checker/mod.rs"],
     [("error reporting and recovery", "crates/parser/src/parser/mod.rs"), ("syntax errors as diagnostics", "crates/service/src/files.rs")],
     "Corruptions are chosen so that the result is ill-formed by construction.",
     "property-based testing: fault injection into generated programs", ["wat_parser::Parser::errors"])
prop("C04", "A syntax error does not damage the parse of its surroundings",
     "Junk tokens or unknown parenthesised terms inserted between module fields or between instructions leave the rest of the syntax tree exactly as it is without them. All errors reported are located at the junk.",
     ["inputs"], "all generated modules, all insertion points between fields and instructions, one or more insertions",
     "Recovery quality depends on the combination of junk and surroundings; tests cover a handful.",
     PARSER, [("recovery", "crates/parser/src/parser/mod.rs"), ("unknown term handling", "crates/parser/src/parser/mod.rs")],
     "Compares the tree with the junk pruned against the expected tree of the generator.",
     "property-based testing: metamorphic relation (insertion of junk)", ["wat_parser::Parser::parse"])
prop("C05", "Formatting preserves all tokens and comments, whatever the options",
     "For every well-formed source and every combination of formatting options, the formatted text has the same sequence of significant tokens as the source. All comments are kept, in order and at the same place between tokens; their text changes only as far as the comment formatting option asks.",
     ["inputs", "configurations"], "all well-formed sources with arbitrary layout and comments; all option combinations",
     "Snapshots cover fixed inputs with few option sets; comments can be put between any two tokens.",
     FMT, [("document generation per node", "crates/formatter/src/printer"), ("trivia printing", "crates/formatter/src/printer/mod.rs")],
     "Judged by an independent lexer. One known finding (inline exports before an inline import are reordered) is excluded by construction and listed.",
     "property-based testing: differential against an independent lexer", ["wat_formatter::format"])
prop("C06", "Formatting is idempotent",
     "For every well-formed source and every combination of formatting options, formatting already formatted text leaves it unchanged.",
     ["inputs", "configurations"], "all well-formed sources with arbitrary layout and comments; all option combinations",
     "The existing tests check stability for the snapshot inputs only.",
     FMT, [("document generation", "crates/formatter/src/printer"), ("line break and whitespace decisions", "crates/formatter/src/printer/mod.rs")],
     "Metamorphic relation, no model needed.",
     "property-based testing: metamorphic relation (idempotence)", ["wat_formatter::format"])
prop("C07", "Formatting malformed source never crashes, loses or joins anything",
     "For every text, well-formed or not, formatting terminates without crashing and keeps every non-whitespace character in order; the only thing it may add are closing parentheses. Adjacent words that were separated stay separated.",
     ["inputs", "configurations"], "all texts and all option combinations",
     "No existing test formats malformed input beyond a few cases.",
     FMT, [("error-tolerant printing", "crates/formatter/src/printer")],
     "Character-level oracle over corrupted and garbage input, nesting bounded.",
     "fuzzing: corrupted and garbage input, character-preservation oracle", ["wat_formatter::format"])
prop("C08", "Formatted layout is canonical and follows the layout options",
     "The formatted text of a comment-free source does not depend on the whitespace of the source (blank lines aside), and next to comments not on the number of blanks. It uses the configured line break and indentation at every line, has no trailing whitespace, no two blank lines in a row and ends with exactly one line break. Fields, instructions and block ends begin a line, other tokens only where the line would exceed the print width, and tokens of a line are at most one space apart.",
     ["inputs", "configurations"], "all well-formed comment-free sources, all pairs of layouts of the same tokens, all option combinations",
     "Layout rules interact with every construct, nesting depth and print width; snapshots fix one layout each.",
     FMT, [("layout", "crates/formatter/src/printer"), ("printer configuration", "crates/formatter/src/lib.rs")],
     "Two random layouts of the same tokens must agree; indentation and line starts are recomputed from the bracket and block structure and the widths.",
     "property-based testing: metamorphic relation (layout invariance) + layout invariants", ["wat_formatter::format"])
prop("C09", "Ignore directives keep exactly the directed code verbatim",
     "Code that directly follows an ignore directive comment (at document or module level) is kept verbatim by formatting, also with a custom directive. Everything else is formatted exactly as if the directive were an ordinary comment, and comments that merely resemble the directive have no effect.",
     ["inputs", "configurations"], "all sources, all choices of directed fields and modules, all directive spellings and near misses",
     "Two snapshot inputs cover the feature.",
     FMT, [("ignore directives", "crates/formatter/src/printer")],
     "Differential against the same source with the directive neutralised.",
     "property-based testing: differential (directive neutralised)", ["wat_formatter::format"])
prop("C10", "Range formatting touches only what it reports and changes only layout",
     "For every well-formed source and range an edit is offered whose range covers the requested one and lies in the source, and applying it preserves all tokens and comments. On a source that is already formatted it changes nothing, and where the layout of one construct of formatted source was disturbed, formatting its range restores it.",
     ["inputs", "configurations"], "all sources, all ranges on character boundaries, all option combinations",
     "The existing tests use about a dozen ranges.",
     FMT, [("format_range", "crates/formatter/src/lib.rs")],
     "The last clauses are checked for nodes that start a line, with a wide print width (what fits on a line depends on the start column).",
     "property-based testing: invariant over applied edits", ["wat_formatter::format_range"])

exec(open(os.path.join(V, "tools", "gen_service.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_service.py")) else None

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./run.sh list",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./run.sh check {p['id']} quick",
            "thorough_cmd": f"./run.sh check {p['id']} thorough",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        }
        for p, note, tech in P
    ],
    "not_applicable": NA,
    "notes": "No hooks in /repo. Every check rebuilds the harness (path dependencies on /repo's crates) and runs seeded, deterministic generated-input search; see DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
