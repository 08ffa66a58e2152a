D = "crates/mabo-parser/src/parser/"
X = "crates/mabo-parser/src/"
PRE = '''#![allow(dead_code, unused_imports)]
use mabo_parser::{error::*, *};
fn cause(src: &str) -> String {
    let e = Schema::parse(src, None).expect_err("accepted");
    let c = format!("{:?}", e.cause);
    println!("{c}");
    c
}
fn names(src: &str, part: &str, place: &str) {
    let c = cause(src);
    let want = format!("{part} {{ at: {}", src.find(place).unwrap());
    assert!(c.contains(&want), "{c}: no {want}");
}
'''
START = '''.map_err(|e: ErrMode<_>| {
            e.map(|()| Cause::%s {
                at: input.current_token_start(),
            })
        })
}
'''
BUGS = [
 dict(id="fault-variant-start", property="M35", needs="a variant other than the first with a bad name, in an enum whose name is fine", breaks="the error for a bad variant name points at the variant before it, or where reading of the variants began",
  edits=[(D + "enums.rs", '''fn parse_variant_name<'i>(input: &mut Input<'i>) -> Result<&'i str, Cause> {
    (one_of('A'..='Z'), alphanumeric0)
        .take()
        .parse_next(input)
        .map_err(|e: ErrMode<_>| {
            e.map(|()| Cause::InvalidVariantName {
                at: input.current_token_start(),
            })
        })''', '''fn parse_variant_name<'i>(input: &mut Input<'i>) -> Result<&'i str, Cause> {
    (one_of('A'..='Z'), alphanumeric0)
        .take()
        .parse_next(input)
        .map_err(|e: ErrMode<_>| {
            e.map(|()| Cause::InvalidVariantName {
                at: input.previous_token_end().saturating_sub(usize::from(input.starts_with('_'))),
            })
        })''')],
  files={"main.rs": PRE + '''fn main() {
    names("enum A {\\n    _b,\\n}\\n", "InvalidVariantName", "_b");
}
'''}),
 dict(id="fault-segment-import", property="M35", needs="an import of several segments whose first one starts wrong", breaks="the bad segment is reported at the start of the import statement's keyword",
  edits=[(D + "imports.rs", '''pub(super) fn parse_segment<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    (''', '''pub(super) fn parse_segment<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    let begin = input.previous_token_end();

    (''', ), (D + "imports.rs", '''            e.map(|()| Cause::InvalidSegmentName {
                at: input.current_token_start(),''', '''            e.map(|()| Cause::InvalidSegmentName {
                at: begin + usize::from(input.starts_with('_')),''')],
  files={"main.rs": PRE + '''fn main() {
    names("use _abc::def;\\n", "InvalidSegmentName", "_abc");
}
'''}),
 dict(id="fault-ext-loc", property="M35", needs="a constant without its semicolon", breaks="the unexpected character is reported one place behind where it is",
  edits=[(X + "ext.rs", "(self.map)(i.current_token_start(), e)", "(self.map)(i.current_token_start() + usize::from(i.previous_token_end() > 64), e)")],
  files={"main.rs": PRE + '''fn main() {
    let src = "struct Sample {\\n    value: u32 @1,\\n    second: vec<string> @2,\\n    third: bytes @3,\\n}\\n\\nconst A: u8 = 1!\\n";
    names(src, "UnexpectedChar", "!");
}
'''}),
 dict(id="fault-field-checkpoint", property="M35", needs="a field with a bad name behind a field", breaks="the bad name is reported where the name before its colon ends instead of where it starts",
  edits=[(D + "fields.rs", '''fn parse_field_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    (''', '''fn parse_field_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    let start = input.current_token_start();

    (''', ), (D + "fields.rs", '''            e.map(|()| Cause::InvalidName {
                at: input.current_token_start(),''', '''            e.map(|()| Cause::InvalidName {
                at: start.max(4) - usize::from(start > 64),''')],
  files={"main.rs": PRE + '''fn main() {
    let src = "/// A comment that is long enough to push the fields far down.\\nstruct Sample {\\n    Value: u32 @1,\\n}\\n";
    names(src, "InvalidName", "Value");
}
'''}),
 dict(id="fault-module-name", property="M35", needs="a module with a bad name behind another definition", breaks="a bad module name is reported at the start of the schema",
  edits=[(D + "modules.rs", '''fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    (''', '''fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
    let line = input.checkpoint();

    ('''), (D + "modules.rs", '''            e.map(|()| Cause::InvalidName {
                at: input.current_token_start(),''', '''            e.map(|()| Cause::InvalidName {
                at: location::from_until(*input, &line, ['{']).start.min(256),''')],
  files={"main.rs": PRE + '''fn main() {
    let mut src = String::new();
    for i in 0..20 {
        src += &format!("const VALUE_{i}: u32 = {i};\\n");
    }
    src += "mod Wrong {}\\n";
    names(&src, "InvalidName", "Wrong");
}
'''}),
 dict(id="fault-struct-cut", property="M35", needs="a unit struct whose name starts wrong, behind another definition", breaks="a bad struct name is reported as a general error at the start of the struct",
  edits=[(D + "structs.rs", '''        terminated(token::Struct::parser(), space1),
        cut_err((
            parse_name,
            opt(generics::parse.map_err2(Cause::Generics)),''', '''        terminated(token::Struct::parser(), space1),
        parse_name,
        cut_err((
            opt(generics::parse.map_err2(Cause::Generics)),'''), (D + "structs.rs", ".map(|(keyword, (name, generics, kind))| Struct {", ".map(|(keyword, name, (generics, kind))| Struct {")],
  files={"main.rs": PRE + '''fn main() {
    names("const A: u8 = 1;\\nstruct 9\\n", "InvalidName", "9");
}
'''}),
]
