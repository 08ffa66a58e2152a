D = "crates/mabo-doc/"
PRE = '''use mabo_parser::Schema;
use mabo_doc::{Opts, Output};
/// all pages, with single spaces
fn doc(s: &str) -> Vec<(String, String)> {
    fn flat(o: &Output<'_>, dir: &str, all: &mut Vec<(String, String)>) {
        all.push((format!("{dir}{}", o.file), o.content.split_whitespace().collect::<Vec<_>>().join(" ")));
        for m in &o.modules {
            flat(m, &format!("{dir}{}/", o.name), all);
        }
    }
    let schema = Schema::parse(s, None).unwrap();
    mabo_compiler::validate_schema(&schema).unwrap();
    let schema = mabo_compiler::simplify_schema(&schema);
    let mut all = Vec::new();
    flat(&mabo_doc::render_schema(&Opts {}, &schema).unwrap(), "", &mut all);
    all
}
fn has(s: &str, page: &str, what: &str) {
    let all = doc(s);
    let names: Vec<_> = all.iter().map(|p| p.0.clone()).collect();
    let (_, t) = all.iter().find(|p| p.0 == page).unwrap_or_else(|| panic!("no page {page} in {names:?}"));
    assert!(t.contains(what), "no `{what}` in {t}");
}
'''
def f(*lines):
    return {"main.rs": PRE + "fn main() {\n" + "".join("    has(%s);\n" % l for l in lines) + "}\n"}
T = D + "src/templates.rs"
BUGS = [
 dict(id="doc-up-twice", property="M33", needs="a definition at least three modules deep",
  breaks="links to the outermost pages lead to a page that doesn't exist",
  edits=[(T, '''        for _ in 0..self.0 {
            f.write_str("../")?;
        }
        Ok(())''', '''        match self.0 {
            0 => Ok(()),
            1 => f.write_str("../"),
            _ => f.write_str("../../"),
        }''')],
  files=f('"mod a { mod b { mod c { struct S { x: u8 @1 } } } }", "root/a/b/c/struct.S.html", "href=\\"../../../index.html\\">root"')),
 dict(id="doc-comment-spaces", property="M33", needs="a comment whose first paragraph ends at a line of spaces only",
  breaks="the tables show the following paragraph, too",
  edits=[(T, "take_while(|line| !line.trim().is_empty())", "take_while(|line| !line.is_empty())")],
  files={"main.rs": PRE + '''fn main() {
    // the comment of a definition made by another tool, where lines aren't trimmed
    let schema = Schema::parse("struct A { x: u8 @1 }", None).unwrap();
    let mut schema = mabo_compiler::simplify_schema(&schema);
    if let mabo_compiler::simplify::Definition::Struct(s) = &mut schema.definitions[0] {
        s.comment = vec!["one", "  ", "two"].into();
    }
    let o = mabo_doc::render_schema(&Opts {}, &schema).unwrap();
    assert!(o.content.contains("one") && !o.content.contains("two"), "{}", o.content);
}
'''}),
 dict(id="doc-args-nested", property="M33", needs="a definition used with arguments where one but the first has arguments of its own",
  breaks="the comma between these arguments is missing",
  edits=[(T, '''                    for (i, g) in generics.iter().enumerate() {
                        if i > 0 {
                            f.write_str(", ")?;''', '''                    for (i, g) in generics.iter().enumerate() {
                        if i > 0 && !matches!(g, Type::External(e) if !e.generics.is_empty()) {
                            f.write_str(", ")?;''')],
  files=f('"struct G<A> { a: A @1 } struct H<A, B> { a: A @1, b: B @2 } struct S { x: H<u8, G<u16>> @1 }", "root/struct.S.html", "x: H&#60;u8, G&#60;u16&#62;&#62; @1,"')),
 dict(id="doc-path-last", property="M33", needs="a type with a path of two or more modules",
  breaks="only the last module of the path is shown",
  edits=[(T, '''                for seg in &**path {
                    write!(f, "{seg}::")?;
                }''', '''                if let Some(seg) = path.last() {
                    write!(f, "{seg}::")?;
                }''')],
  files=f('"mod a { mod b { struct T { x: u8 @1 } } } struct S { x: a::b::T @1 }", "root/struct.S.html", "x: a::b::T @1,"')),
 dict(id="doc-module-path", property="M33", needs="a module with the same name as the one it is in",
  breaks="the inner module shares the path of the outer one, its links and style are off by one directory",
  edits=[(D + "src/lib.rs", '''        path.push(item.name.into());
        Rc::from(path)''', '''        if path.last().is_none_or(|last| &**last != item.name) {
            path.push(item.name.into());
        }
        Rc::from(path)''')],
  files=f('"mod a { mod a { struct S { x: u8 @1 } } }", "root/a/a/struct.S.html", "href=\\"../../../assets/style.css\\""')),
 dict(id="doc-variant-generics", property="M33", needs="an enum with at least three type parameters",
  breaks="the listing of the enum runs the later parameters together",
  edits=[(T, '''    fn print_schema(&self) -> String {
        let mut buf = format!("enum {}", self.item.name);

        if !self.item.generics.is_empty() {
            buf.push('<');
            for (i, g) in self.item.generics.iter().enumerate() {
                if i > 0 {''', '''    fn print_schema(&self) -> String {
        let mut buf = format!("enum {}", self.item.name);

        if !self.item.generics.is_empty() {
            buf.push('<');
            for (i, g) in self.item.generics.iter().enumerate() {
                if i == 1 {''')],
  files=f('"enum E<A, B, C> { X { a: A @1, b: B @2, c: C @3 } @1 }", "root/enum.E.html", "enum E&#60;A, B, C&#62; {"')),
 dict(id="doc-unnamed-multi", property="M33", needs="an enum variant with three or more unnamed fields",
  breaks="only the first separator is written between the fields in the listing",
  edits=[(T, '''                    for (i, field) in variant.fields.fields.iter().enumerate() {
                        if i > 0 {''', '''                    for (i, field) in variant.fields.fields.iter().enumerate() {
                        if i == 1 {''')],
  files=f('"enum E { A(u8 @1, u16 @2, u32 @3) @1 }", "root/enum.E.html", "A(u8 @1, u16 @2, u32 @3) @1,"')),
 dict(id="doc-stem-dots", property="M33", needs="a schema file with more than one dot in its name",
  breaks="the directory of the documentation loses everything after the first dot: two schemas share a page",
  edits=[(D + "src/lib.rs", '''        .and_then(|p| p.to_str())
        .unwrap_or("root");''', '''        .and_then(|p| p.to_str())
        .and_then(|p| p.split('.').next())
        .unwrap_or("root");''')],
  files={"main.rs": PRE + '''fn main() {
    let schema = Schema::parse("struct A { x: u8 @1 }", Some(std::path::Path::new("dir/some.v2.mabo"))).unwrap();
    let schema = mabo_compiler::simplify_schema(&schema);
    let o = mabo_doc::render_schema(&Opts {}, &schema).unwrap();
    assert_eq!((o.name, o.file.as_str()), ("some.v2", "some.v2/index.html"));
}
'''}),
]
