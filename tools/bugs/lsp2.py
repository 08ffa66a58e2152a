HERE = "/verif/tools/"
L = open(HERE + "lsp_client.py").read()
D = open(HERE + "demo_lsp.sh").read()
H = "crates/mabo-lsp/src/handlers/"
HO, SY, TO, CO, IX, MO = [H + x + ".rs" for x in ("hover", "document_symbols", "semantic_tokens", "compile", "index", "mod")]
def f(test, enc=""):
    return {"lsp.py": L, "demo.sh": D, "test.py": '''import sys, queue
from lsp import Server, rng
s = Server(sys.argv[1]''' + enc + ''')
U = "file:///x/a.mabo"
def sub(r):
    return ((r["start"]["line"], r["start"]["character"]), (r["end"]["line"], r["end"]["character"]))
''' + test}
BUGS = [
 dict(id="units-one-line-end", property="M26", needs="a range on one line that contains a character outside of ASCII, such as a comment or a string",
  breaks="the end of the range is counted in bytes instead of in the units of the client",
  edits=[(IX, """            let end = self
                .index
                .to_wide(encoding, end)
                .context("missing end position in wide encoding")?;
""", """            let end = if end.line == start.line {
                // Both are on the same line, no need to scan it a second time.
                WideLineCol {
                    line: start.line,
                    col: start.col + (range.end - range.start) as u32,
                }
            } else {
                self.index
                    .to_wide(encoding, end)
                    .context("missing end position in wide encoding")?
            };
""")],
  files=f('''s.open(U, "struct A {\\n    /// \\u00e9t\\u00e9\\n    a: u8 @1,\\n}\\n")
t = [x[:3] for x in s.tokens(U) if x[0] == 1]
assert t == [(1, 4, 7)], t
''')),
 dict(id="units-offset-utf16", property="M26", needs="a client that counts in UTF-32 and a position behind a character outside of the basic plane",
  breaks="positions of the client are read as UTF-16",
  edits=[(IX, """        let line_col = if let Some(encoding) = self.encoding {
            self.index
                .to_utf8(
                    encoding,
""", """        let line_col = if self.encoding.is_some() {
            self.index
                .to_utf8(
                    WideEncoding::Utf16,
""")],
  files=f('''s.open(U, "const A: string = \\"\\U0001F600\\U0001F600\\"; const BC: u8 = 1;\\n")
c = "const A: string = \\"\\U0001F600\\U0001F600\\"; const BC: u8 = 1;".index("BC")
r = s.hover(U, 0, c + 1)
assert r.get("result"), r
assert sub(r["result"]["range"]) == ((0, c), (0, c + 2)), r
''', ', encodings=("utf-32",)')),
 dict(id="tokens-path-start", property="M27", needs="a type with a path of two or more modules",
  breaks="only the first module of the path is highlighted",
  edits=[(TO, """                for (name, token) in path {
                    self.add_span(name, &types::NAMESPACE, &[])?;
""", """                for (name, token) in path.iter().take(1) {
                    self.add_span(name, &types::NAMESPACE, &[])?;
""")],
  files=f('''s.open(U, "type A = one::two::Three;\\n")
names = s.legend()["tokenTypes"]
t = [(x[1], x[2]) for x in s.tokens(U) if names[x[3]] == "namespace"]
assert t == [(9, 3), (14, 3)], t
''')),
 dict(id="tokens-line-start", property="M27", needs="two tokens on different lines, the first of them starting at a column above zero and the second at the same column",
  breaks="the second token is placed at the start of its line",
  edits=[(TO, """            start.character
                - if self.delta.line == start.line {
""", """            start.character
                - if self.delta.line == start.line || self.delta.character == start.character {
""")],
  files=f('''s.open(U, "type A = (\\n         u8,\\n     u16\\n);\\n")
t = [(x[0], x[1]) for x in s.tokens(U)]
assert t == sorted(t) and (1, 9) in t and (2, 5) in t, t
''')),
 dict(id="symbols-variant-single", property="M28", needs="an enum variant with exactly one unnamed field",
  breaks="the field is missing in the outline",
  edits=[(SY, """        SymbolKind::ENUM_MEMBER,
        index.get_range(item.name.span())?,
        visit_fields(index, &item.fields)?,
""", """        SymbolKind::ENUM_MEMBER,
        index.get_range(item.name.span())?,
        match &item.fields {
            // Newtype variants have nothing of interest in them.
            Fields::Unnamed(_, unnamed) if unnamed.values().count() == 1 => vec![],
            fields => visit_fields(index, fields)?,
        },
""")],
  files=f('''s.open(U, "enum A {\\n    B(u8 @1) @1,\\n    C(u8 @1, u8 @2) @2,\\n}\\n")
r = s.symbols(U)
assert [[c["name"] for c in v["children"] or []] for v in r[0]["children"]] == [["0"], ["0", "1"]], r
''')),
 dict(id="symbols-import-range", property="M28", needs="an import of an element with a path of two or more modules",
  breaks="the range of the entry leaves out the element",
  edits=[(SY, """        let _ = write!(&mut name, "::{segment}");
        span.end = Range::from(segment.span()).end;
""", """        let _ = write!(&mut name, "::{segment}");
"""), (SY, """    Ok(create_symbol(
        &name,
        SymbolKind::FILE,
""", """    if let Some(last) = item.segments.last() {
        span.end = Range::from(last.span()).end;
    }

    Ok(create_symbol(
        &name,
        SymbolKind::FILE,
""")],
  files=f('''s.open(U, "use one::two::Three;\\nuse one::Two;\\nuse one;\\n")
r = [(x["name"], sub(x["range"])) for x in s.symbols(U)]
assert r == [("one::two::Three", ((0, 4), (0, 19))), ("one::Two", ((1, 4), (1, 12))), ("one", ((2, 4), (2, 7)))], r
''')),
 dict(id="hover-name-end", property="M29", needs="the cursor right behind the name of a field",
  breaks="the server answers although the cursor is on the colon",
  edits=[(HO, """    (Range::from(field.name.span()).contains(&position)).then(|| {
        let mut text""", """    let Range { start, end } = Range::from(field.name.span());

    (start <= position && position <= end).then(|| {
        let mut text""")],
  files=f('''s.open(U, "struct A {\\n    /// Text.\\n    ab: u8 @1,\\n}\\n")
assert s.hover(U, 2, 5)["result"], "no answer"
assert s.hover(U, 2, 6)["result"] is None, "answer"
''')),
 dict(id="hover-variant-id", property="M29", needs="a variant without fields, or with unnamed ones",
  breaks="the next free id of the fields is left out",
  edits=[(HO, """                .show_next_id
                .then(|| mabo_meta::next_field_id(&item.fields))
                .flatten()
            {
                let _ = writeln!(&mut text, "- next ID: `{next_id}`");
            }

            (text, item.source.name.span())
        })
        .or_else(|| visit_fields(config, &item.fields, position))
}

fn visit_fields(""", """                .show_next_id
                .then(|| mabo_meta::next_field_id(&item.fields))
                .flatten()
                .filter(|_| item.fields.kind == mabo_compiler::simplify::FieldKind::Named)
            {
                let _ = writeln!(&mut text, "- next ID: `{next_id}`");
            }

            (text, item.source.name.span())
        })
        .or_else(|| visit_fields(config, &item.fields, position))
}

fn visit_fields(""")],
  files=f('''s.open(U, "enum A {\\n    Bc(u8 @1) @1,\\n    De { a: u8 @4 } @2,\\n}\\n")
a, b = s.hover(U, 1, 4)["result"], s.hover(U, 2, 4)["result"]
assert "next ID: `2`" in str(a) and "next ID: `5`" in str(b), (a, b)
''')),
 dict(id="hover-module-first", property="M29", needs="a definition inside of a module, behind an empty place of another module",
  breaks="the contents of a module are found only if the cursor is on the same side of ... the first module",
  edits=[(HO, """        .or_else(|| {
            item.definitions
                .iter()
                .find_map(|def| visit_definition(config, def, position))
        })
}

fn visit_struct""", """        .or_else(|| {
            // The contents are sorted, stop at the first one that starts behind the cursor.
            item.definitions
                .iter()
                .take_while(|def| match def {
                    Definition::Module(m) => Range::from(m.source.name.span()).start <= position,
                    Definition::Struct(s) => Range::from(s.source.name.span()).start <= position,
                    Definition::Enum(e) => Range::from(e.source.name.span()).end < position,
                    _ => true,
                })
                .find_map(|def| visit_definition(config, def, position))
        })
}

fn visit_struct""")],
  files=f('''s.open(U, "mod a {\\n    struct Bc(u8 @1)\\n    /// Text.\\n    enum Cd {\\n        A @1,\\n    }\\n}\\n")
assert s.hover(U, 1, 11)["result"] and s.hover(U, 4, 8)["result"]
assert s.hover(U, 3, 9)["result"], "no answer"
''')),
 dict(id="problem-variant-first", property="M30", needs="two variants of an enum with the same name",
  breaks="the problem is shown at the first of them",
  edits=[(CO, "DuplicateName::EnumVariant(e) => (e.to_string(), e.first, e.second),", "DuplicateName::EnumVariant(e) => (e.to_string(), e.second, e.first),")],
  files=f('''s.open(U, "enum A {\\n    Bc @1,\\n    Bc @2,\\n}\\n")
d = s.diagnostics(U)
assert len(d) == 1 and d[0]["range"]["start"]["line"] == 2 and d[0]["relatedInformation"][0]["location"]["range"]["start"]["line"] == 1, d
''')),
 dict(id="problem-nested-type", property="M30", needs="a wrong type inside of the type of a constant, field or alias",
  breaks="the problem covers the outer type instead of the place of the error",
  edits=[(CO, "        ParseTypeCause::Type(e) => parse_type_diagnostic(index, e),\n", "        ParseTypeCause::Type(inner) => {\n            Diagnostic::new_simple(get_range(index, e.at.clone()), inner.to_string())\n        }\n")],
  files=f('''s.open(U, "type A = vec<vec<()>>;\\n")
d = s.diagnostics(U)
r = sub(d[0]["range"])
assert len(d) == 1 and r[0] == r[1], d
''')),
]
