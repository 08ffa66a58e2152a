D = "crates/mabo-parser/src/parser/"
L = "crates/mabo-parser/src/lib.rs"
PRE = '''#![allow(dead_code)]
use mabo_parser::*;
fn parse(src: &str) -> Schema<'_> {
    Schema::parse(src, None).unwrap_or_else(|e| panic!("{src}: {e:?}"))
}
fn fails(src: &str) {
    assert!(Schema::parse(src, None).is_err(), "accepted: {src}");
}
fn again(src: &str) {
    let a = parse(src);
    let text = a.to_string();
    let b = Schema::parse(&text, None).unwrap_or_else(|e| panic!("{text}: {e:?}"));
    assert_eq!(text, b.to_string());
}
fn covers(src: &str, span: Span, text: &str) {
    let r: std::ops::Range<usize> = span.into();
    assert_eq!(&src[r], text);
}
'''
BUGS = [
 dict(id="parse-unicode-short", property="M22", needs="a string with a code of five or six hexadecimal digits", breaks="valid escapes like \\u{1f600} are rejected",
  edits=[(D + "literals.rs", "take_while(1..=6, ('0'", "take_while(1..=4, ('0'")],
  files={"main.rs": PRE + r'''fn main() {
    let s = parse("const A: string = \"\\u{1f600}\";\n");
    let Definition::Const(c) = &s.definitions[0] else { unreachable!() };
    assert_eq!(c.value.value, LiteralValue::String("\u{1f600}".to_owned()));
}
'''}),
 dict(id="parse-array-u16", property="M22", needs="an array of 65536 elements or more", breaks="the type is rejected",
  edits=[(D + "types.rs", "        ws(dec_uint),\n    ))", "        ws(dec_uint::<_, u16, _>.map(u32::from)),\n    ))")],
  files={"main.rs": PRE + '''fn main() {
    parse("struct A([u8; 65535] @1)\\n");
    parse("struct A([u8; 65536] @1)\\n");
}
'''}),
 dict(id="parse-attribute-newline", property="M22", needs="nested attributes with a line break in front of a comma", breaks="the schema is rejected",
  edits=[(D + "attributes.rs", """                    ws((parse_name, parse_value)).map(|(name, value)| Attribute { name, value }),
                    ws(token::Comma::parser()),
                ),
                opt(token::Comma::parser()),
            ),
            ws(token::Parenthesis::CLOSE),""", """                    ws((parse_name, parse_value)).map(|(name, value)| Attribute { name, value }),
                    preceded(space0, token::Comma::parser()),
                ),
                opt(token::Comma::parser()),
            ),
            ws(token::Parenthesis::CLOSE),""")],
  files={"main.rs": PRE + '''fn main() {
    parse("#[a(b , c)]\\nstruct A\\n");
    parse("#[a(b\\n, c)]\\nstruct A\\n");
}
'''}),
 dict(id="parse-comment-slashes", property="M22", needs="a comment line that starts with another slash", breaks="the slash is dropped from the comment",
  edits=[("crates/mabo-parser/src/parser.rs", 'preceded(("///", space0), take_till(0.., \'\\n\')).with_span()', 'preceded(("///", winnow::token::take_while(0.., (\' \', \'\\t\', \'/\'))), take_till(0.., \'\\n\')).with_span()')],
  files={"main.rs": PRE + '''fn main() {
    let s = parse("/// /usr/bin\\nstruct A\\n");
    let Definition::Struct(a) = &s.definitions[0] else { unreachable!() };
    assert_eq!(a.comment.0[0].value, "/usr/bin");
}
'''}),
 dict(id="print-apostrophe", property="M21", needs="a string literal with an apostrophe or a character outside of ASCII that escapes differently", breaks="the printed literal doesn't parse",
  edits=[(L, 'Self::String(ref v) => write!(f, "{v:?}"),', 'Self::String(ref v) => write!(f, "\\"{}\\"", v.escape_default()),')],
  files={"main.rs": PRE + r'''fn main() {
    again("const A: string = \"plain \\\"text\\\"\";\n");
    again("const A: string = \"it's\";\n");
}
'''}),
 dict(id="print-path-generics", property="M21", needs="a type with a path and type arguments", breaks="formatting drops the path",
  edits=[(L, """        for (segment, token) in path {
            write!(f, "{segment}{token}")?;
        }
        name.fmt(f)?;
        if let Some(generics) = generics {
            generics""", """        if path.len() < 2 || generics.is_none() {
            for (segment, token) in path {
                write!(f, "{segment}{token}")?;
            }
        }
        name.fmt(f)?;
        if let Some(generics) = generics {
            generics""")],
  files={"main.rs": PRE + '''fn main() {
    let src = "struct A(a::b::C<u8> @1)\\n";
    assert!(parse(src).to_string().contains("a::b::C<u8>"));
}
'''}),
 dict(id="print-nested-attribute", property="M21", needs="an attribute whose nested attribute has nested ones itself, next to another one", breaks="the printed attributes don't parse",
  edits=[(L, 'Self::Multi(attrs) => concat::<token::Parenthesis>(f, attrs, ", "),', 'Self::Multi(attrs) => concat::<token::Parenthesis>(f, attrs, if attrs.iter().any(|a| matches!(a.value, Self::Multi(_))) { " " } else { ", " }),')],
  files={"main.rs": PRE + '''fn main() {
    again("#[a(b = 1, c)]\\nstruct A\\n");
    again("#[a(b(c), d)]\\nstruct A\\n");
}
'''}),
 dict(id="print-module-unit", property="M21", needs="two definitions in a module, the first a unit struct", breaks="the printed module doesn't parse",
  edits=[(L, """        kind.print(f, level)?;

        f.write_str("\\n")
""", """        kind.print(f, level)?;

        if level > 0 && matches!(kind, Fields::Unit) {
            return Ok(());
        }
        f.write_str("\\n")
"""), (L, """            if i > 0 {
                f.write_str("\\n")?;
            }
            definition.print(f, level + 1)?;
""", """            if i > 0 && !matches!(definitions[i - 1], Definition::Struct(_)) {
                f.write_str("\\n")?;
            }
            definition.print(f, level + 1)?;
""")],
  files={"main.rs": PRE + '''fn main() {
    again("mod a {\\n    struct A(u8 @1)\\n\\n    struct B(u8 @1)\\n}\\n");
    again("mod a {\\n    struct A\\n\\n    struct B\\n}\\n");
}
'''}),
 dict(id="span-comment-indent", property="M23", needs="an indented comment", breaks="the position of the comment line starts with its indentation",
  edits=[("crates/mabo-parser/src/parser.rs", """            delimited(
                space0,
                preceded(("///", space0), take_till(0.., '\\n')).with_span(),
                '\\n',
            )
""", """            winnow::combinator::terminated(
                preceded((space0, "///", space0), take_till(0.., '\\n')).with_span(),
                '\\n',
            )
"""), ("crates/mabo-parser/src/parser.rs", "combinator::{delimited, preceded, repeat},", "combinator::{preceded, repeat},")],
  files={"main.rs": PRE + '''fn main() {
    let src = "/// a\\nstruct A {\\n    /// text\\n    a: u8 @1,\\n}\\n";
    let s = parse(src);
    let Definition::Struct(a) = &s.definitions[0] else { unreachable!() };
    covers(src, a.comment.0[0].span(), "/// a");
    let Fields::Named(_, f) = &a.fields else { unreachable!() };
    covers(src, f.values().next().unwrap().comment.0[0].span(), "/// text");
}
'''}),
 dict(id="span-import-full", property="M23", needs="an import", breaks="the position of the import path includes its semicolon",
  edits=[(D + "imports.rs", """            )
                .with_taken()
                .with_span(),
            token::Semicolon::parser(),
        )),
    )
        .parse_next(input)
        .map(
            |(keyword, ((((segments, element), full), range), semicolon))| Import {
                keyword,
                full: (full, range).into(),
""", """            )
                .with_taken(),
            token::Semicolon::parser(),
        ).with_span()),
    )
        .parse_next(input)
        .map(
            |(keyword, ((((segments, element), full), semicolon), range))| Import {
                keyword,
                full: (full, range).into(),
""")],
  files={"main.rs": PRE + '''fn main() {
    let src = "use a::b::C;\\n";
    let s = parse(src);
    let Definition::Import(i) = &s.definitions[0] else { unreachable!() };
    covers(src, i.full.span(), "a::b::C");
}
'''}),
 dict(id="span-external-args", property="M23", needs="a type with white space in front of its closing angle bracket", breaks="the position of the closing bracket starts with white space",
  edits=[("crates/mabo-parser/src/parser.rs", "let mut parser = (D::OPEN.span(), cut_err((f, ws(D::CLOSE.span()))));", "let mut parser = (D::OPEN.span(), cut_err((f, ws(D::CLOSE).span())));")],
  files={"main.rs": PRE + '''fn main() {
    let src = "struct A {\\n    a: u8 @1,\\n}\\n";
    let s = parse(src);
    let Definition::Struct(a) = &s.definitions[0] else { unreachable!() };
    let Fields::Named(b, _) = &a.fields else { unreachable!() };
    let d = format!("{b:?}");
    let e = src.len() - 2;
    assert!(d.contains(&format!("{e}..{}", e + 1)) || d.contains(&format!("start: {e}")), "{d}");
}
'''}),
]
