G = "crates/mabo-go/src/"
PRE = '''use mabo_parser::Schema;
use mabo_go::{Opts, Output};
/// all the generated text, with single spaces
fn go(s: &str) -> String {
    fn flat(o: &Output<'_>) -> String {
        let mut s = format!("<{}> {}", o.name, o.content);
        for m in &o.modules {
            s.push_str(&flat(m));
        }
        s
    }
    let schema = Schema::parse(s, None).unwrap();
    mabo_compiler::validate_schema(&schema).unwrap();
    let schema = mabo_compiler::simplify_schema(&schema);
    let text = flat(&mabo_go::render_schema(&Opts { package: "demo" }, &schema));
    text.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn has(s: &str, what: &str) {
    let t = go(s);
    assert!(t.contains(what), "no `{what}` in {t}");
}
'''
def f(*lines):
    return {"main.rs": PRE + "fn main() {\n" + "".join("    has(%s);\n" % l for l in lines) + "}\n"}
BUGS = [
 dict(id="go-tuple-late", property="M32", needs="a tuple of ten or more elements",
  breaks="elements after the tenth are written to and read from the first ones",
  edits=[(G + "encode.rs", '''                                name: format_args!("{name}.F{idx}"),
                                indent: indent + 1,''', '''                                name: format_args!("{name}.F{}", idx % 10),
                                indent: indent + 1,''')],
  files=f('"struct A { a: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16) @1 }", "w = buf.EncodeI16(w, v.A.F10)"')),
 dict(id="go-found-last", property="M32", needs="a struct whose last field has the same id as ... the number of fields",
  breaks="the check that the last field was found is left out",
  edits=[(G + "decode.rs", '''        for field in &*self.0.fields {
            writeln!(f, "\\tif !found{} {{", heck::AsUpperCamelCase(&field.name))?;''', '''        for (i, field) in self.0.fields.iter().enumerate() {
            // A field with the highest possible position directly precedes the end marker.
            if i > 1 && field.id as usize == i {
                continue;
            }
            writeln!(f, "\\tif !found{} {{", heck::AsUpperCamelCase(&field.name))?;''')],
  files=f('"struct A { a: u8 @9, b: u8 @8, c: u8 @2 }", "if !foundC {"')),
 dict(id="go-generic-filter", property="M32", needs="an enum variant that uses a type parameter only as the value of a map",
  breaks="the type parameter is missing from the declaration of the variant",
  edits=[(G + "definition.rs", '''            Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
            Type::Tuple''', '''            Type::HashMap(kv) => visit_external(&kv.0, visit),
            Type::Tuple''')],
  files=f('"enum A<T> { B(hash_map<u8, T> @1) @1 }", "type A_B[T any] struct"')),
 dict(id="go-comment-blank", property="M32", needs="a comment with an empty line in the middle",
  breaks="the lines of the comment after the empty one are lost",
  edits=[(G + "definition.rs", '''        for line in comment {
            writeln!(f, "{indent}// {line}")?;''', '''        for line in comment.iter().take_while(|line| !line.is_empty()) {
            writeln!(f, "{indent}// {line}")?;''')],
  files=f('"/// One.\\n///\\n/// Two.\\nstruct A { a: u8 @1 }", "// Two."')),
 dict(id="go-option-field-size", property="M32", needs="an optional field whose type is an array, list or other with a type argument of its own",
  breaks="the size of an optional field is given the id of the position instead of the field's",
  edits=[(G + "size.rs", '''        for field in &*self.0.fields {
            if let Type::Option(ty) = &field.ty {''', '''        for (position, field) in (1..).zip(&*self.0.fields) {
            if let Type::Option(ty) = &field.ty {'''), (G + "size.rs", '''                    definition::RenderType(ty),
                    field.id,
                    heck::AsUpperCamelCase(&field.name),''', '''                    definition::RenderType(ty),
                    if matches!(**ty, Type::Array(..)) { position } else { field.id },
                    heck::AsUpperCamelCase(&field.name),''')],
  files=f('"struct A { a: u8 @1, b: option<[u8; 4]> @7 }", "size += buf.SizeFieldOption[[4]uint8](7, &v.B"')),
 dict(id="go-module-nested", property="M32", needs="modules nested two levels deep, with a module in front of other definitions",
  breaks="the definitions after a nested module are left out",
  edits=[(G + "definition.rs", '''            let modules = m
                .definitions
                .iter()
                .filter_map(|def| render_definition(&mut content, def))
                .collect();''', '''            let mut modules = Vec::new();
            let mut definitions = m.definitions.iter();
            while let Some(module) = definitions.find_map(|def| render_definition(&mut content, def)) {
                modules.push(module);
                if definitions.len() == 1 && modules.len() == 1 {
                    break;
                }
            }''')],
  files=f('"mod a { mod b { type X = u8; } type Y = u8; }", "type Y uint8"')),
]
